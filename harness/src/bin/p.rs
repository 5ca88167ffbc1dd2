//! Operators (OpsGen): binary, unary and compound assignment.
//!   p MODE CASES OUT PROGRESS SHARD NSHARDS SEED      mode: replay
//! Elements are terms, so that operator, operands and sides are visible in every result.
use harness::ex::{Cx, DynExpr, Ex, Cont, Fin, Leaf, Term, fits};
use harness::serde_json::{Value, json};
use harness::*;
use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::*;
use std::any::Any;
use std::ops::*;

type D = Dyn;
type C<const N: usize> = Const<N>;
const PAD: usize = 8;

#[derive(Clone, Debug, PartialEq)]
pub struct Tm(Value);
impl Term for Tm {
    fn term(&self) -> Value {
        self.0.clone()
    }
}
macro_rules! binary {
    ($($t:ident $f:ident $ta:ident $fa:ident),*) => {
        $(
            binary!(@ $t $f; Tm, Tm; &Tm, Tm; Tm, &Tm; &Tm, &Tm; Tm, &mut Tm; &Tm, &mut Tm);
            binary!(@@ $ta $fa $f; Tm; &Tm; &mut Tm);
        )*
        /// all binary operators with a common result type
        trait Ops<B> {
            type Out;
            fn op(self, op: &str, b: B) -> Self::Out;
        }
        impl<A, B, O> Ops<B> for A where $(A: $t<B, Output = O>),* {
            type Out = O;
            fn op(self, op: &str, b: B) -> O {
                match op {
                    $(stringify!($f) => $t::$f(self, b),)*
                    _ => panic!("HARNESS op {op}"),
                }
            }
        }
        trait OpsAssign<B> {
            fn op_assign(&mut self, op: &str, b: B);
        }
        impl<A: ?Sized, B> OpsAssign<B> for A where $(A: $ta<B>),* {
            fn op_assign(&mut self, op: &str, b: B) {
                match op {
                    $(stringify!($f) => $ta::$fa(self, b),)*
                    _ => panic!("HARNESS op {op}"),
                }
            }
        }
    };
    (@ $t:ident $f:ident; $($a:ty, $b:ty);*) => {$(
        impl $t<$b> for $a {
            type Output = Tm;
            fn $f(self, b: $b) -> Tm {
                Tm(json!([stringify!($f), self.0, b.0]))
            }
        }
    )*};
    (@@ $t:ident $f:ident $g:ident; $($b:ty);*) => {$(
        impl $t<$b> for Tm {
            fn $f(&mut self, b: $b) {
                self.0 = json!([stringify!($g), self.0, b.0]);
            }
        }
    )*};
}
binary!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign,
        Rem rem RemAssign rem_assign, BitAnd bitand BitAndAssign bitand_assign, BitOr bitor BitOrAssign bitor_assign,
        BitXor bitxor BitXorAssign bitxor_assign, Shl shl ShlAssign shl_assign, Shr shr ShrAssign shr_assign);
macro_rules! unary {
    ($($t:ident $f:ident),*) => {$(
        impl $t for Tm {
            type Output = Tm;
            fn $f(self) -> Tm {
                Tm(json!([stringify!($f), self.0]))
            }
        }
        impl $t for &Tm {
            type Output = Tm;
            fn $f(self) -> Tm {
                Tm(json!([stringify!($f), self.0]))
            }
        }
    )*};
}
unary!(Neg neg, Not not);
trait Ops1 {
    type Out;
    fn op1(self, op: &str) -> Self::Out;
}
impl<A, O> Ops1 for A
where
    A: Neg<Output = O> + Not<Output = O>,
{
    type Out = O;
    fn op1(self, op: &str) -> O {
        match op {
            "neg" => -self,
            "not" => !self,
            _ => panic!("HARNESS op {op}"),
        }
    }
}

// ------------------------------------------------------------------ operands
/// memory that must hold its initial values (except what the target got)
struct Watch {
    ptr: *const Tm,
    len: usize,
    first: i64,
}
#[derive(Default)]
struct Px {
    watch: Vec<Watch>,
    keep: Vec<Box<dyn Any>>,
}
impl Px {
    fn keep<X: 'static>(&mut self, x: X) -> &'static mut X {
        let mut b = Box::new(x);
        let p: *mut X = &mut *b;
        self.keep.push(b);
        unsafe { &mut *p }
    }
    fn watch(&mut self, ptr: *const Tm, len: usize, first: i64) {
        self.watch.push(Watch { ptr, len, first });
    }
    fn buf(&mut self, l: &Leaf) -> *mut Tm {
        let hi: isize = l.d.iter().zip(&l.s).map(|(&d, &s)| (d as isize - 1).max(0) * s.max(0)).sum();
        let n = l.f + hi as usize + 1 + 2 * PAD;
        let first = 1000 * l.id - PAD as i64;
        let v: Vec<Tm> = (0..n).map(|i| Tm(json!(first + i as i64))).collect();
        let v = self.keep(v);
        let p = v.as_mut_ptr();
        self.watch(p, n, first);
        unsafe { p.add(PAD + l.f) }
    }
    fn tensor<S: Shape + 'static>(&mut self, l: &Leaf) -> Tensor<Tm, S> {
        let n: usize = l.d.iter().product();
        let v: Vec<Tm> = (0..n).map(|i| Tm(json!(1000 * l.id + l.f as i64 + i as i64))).collect();
        let mut v = std::mem::ManuallyDrop::new(v);
        unsafe { Tensor::from_raw_parts(v.as_mut_ptr(), DenseMapping::new(S::from_dims(&l.d)), v.capacity()) }
    }
    fn tensor_kept<S: Shape + 'static>(&mut self, l: &Leaf) -> &'static mut Tensor<Tm, S> {
        let t = self.tensor::<S>(l);
        let t = self.keep(t);
        self.watch(t.as_ptr(), t.len(), 1000 * l.id + l.f as i64);
        t
    }
    fn array<S: ConstShape + 'static>(&mut self, l: &Leaf) -> Array<Tm, S> {
        Array::from(self.tensor::<S>(l))
    }
    fn array_kept<S: ConstShape + 'static>(&mut self, l: &Leaf) -> &'static mut Array<Tm, S> {
        let t = self.array::<S>(l);
        let t = self.keep(t);
        self.watch(t.as_ptr(), t.len(), 1000 * l.id + l.f as i64);
        t
    }
    fn view<S: Shape + 'static>(&mut self, l: &Leaf) -> View<'static, Tm, S, Strided> {
        unsafe { View::new_unchecked(self.buf(l), StridedMapping::new(S::from_dims(&l.d), &l.s)) }
    }
    fn view_mut<S: Shape + 'static>(&mut self, l: &Leaf) -> ViewMut<'static, Tm, S, Strided> {
        unsafe { ViewMut::new_unchecked(self.buf(l), StridedMapping::new(S::from_dims(&l.d), &l.s)) }
    }
    fn dense_mut<S: Shape + 'static>(&mut self, l: &Leaf) -> ViewMut<'static, Tm, S, Dense> {
        unsafe { ViewMut::new_unchecked(self.buf(l), DenseMapping::new(S::from_dims(&l.d))) }
    }
    fn drain<S: Shape + 'static>(&mut self, l: &Leaf) -> expr::IntoExpr<expr::Drain<'static, Tm, S>> {
        let mut whole = l.clone();
        whole.d[0] += 2;
        whole.f = 0;
        let t = self.tensor::<S>(&whole);
        self.keep(t).drain(1..1 + l.d[0])
    }
    /// everything watched still holds its values; `except(cell)` gives the value of changed ones
    fn check(&self, except: impl Fn(i64) -> Option<Value>) -> Result<(), String> {
        for w in &self.watch {
            for i in 0..w.len {
                let cell = w.first + i as i64;
                let got = unsafe { &(*w.ptr.add(i)).0 };
                let want = except(cell).unwrap_or(json!(cell));
                if *got != want {
                    return Err(format!("cell {cell} holds {got}, expected {want}"));
                }
            }
        }
        Ok(())
    }
}
fn filler(id: i64) -> impl FnMut() -> Tm + Clone {
    let mut n = 1000 * id - 1;
    move || {
        n += 1;
        Tm(json!(n))
    }
}
fn indexer(id: i64) -> impl FnMut(&[usize]) -> Tm + Clone {
    move |ix: &[usize]| {
        let mut v = vec![1000 * id];
        v.extend(ix.iter().map(|&i| i as i64));
        Tm(json!(v))
    }
}
fn mapper() -> impl FnMut(&'static Tm) -> Tm + Clone {
    |x: &'static Tm| Tm(json!([-1, x.0]))
}
fn constant(id: i64) -> Tm {
    Tm(json!(1000 * id))
}

/// an operand of the specification
struct Op {
    l: Leaf,
    o: String,
    /// "", "map" or "cloned"
    w: String,
}
fn op(v: &Value) -> Op {
    let t = v["t"].as_str().unwrap();
    if t == "map" || t == "cloned" {
        return Op { l: Leaf::parse(&v["x"]), o: "expr".into(), w: t.into() };
    }
    Op { l: Leaf::parse(v), o: v["o"].as_str().unwrap().into(), w: String::new() }
}
impl Op {
    fn kind(&self) -> String {
        if !self.w.is_empty() {
            return self.w.clone();
        }
        format!("{}/{}{}", self.l.t, self.o, if self.o == "slice" && self.l.l == "D" { "/D" } else { "" })
    }
}
fn is_array(o: &Op) -> bool {
    o.o == "array"
}

/// operands accepted on both sides, `none` where the kind is another one
macro_rules! common {
    ($s:ty, $px:expr, $o:expr, $a:ident => $body:expr, $else:expr) => {
        match $o.kind().as_str() {
            "view/tensor" => { let $a = &*$px.tensor_kept::<$s>(&$o.l); $body }
            "view/slice" => { let v = $px.view::<$s>(&$o.l); let $a = &**$px.keep(v); $body }
            "view/slice/D" => { let v = $px.dense_mut::<$s>(&$o.l); let $a = &**$px.keep(v); $body }
            "view/view" => { let v = $px.view::<$s>(&$o.l); let $a = &*$px.keep(v); $body }
            "view/viewmut" => { let v = $px.view_mut::<$s>(&$o.l); let $a = &*$px.keep(v); $body }
            "view/byval" => { let $a = $px.view::<$s>(&$o.l); $body }
            "into/tensor" => { let $a = $px.tensor::<$s>(&$o.l); $body }
            "into/expr" => { let $a = $px.tensor::<$s>(&$o.l).into_expr(); $body }
            "elem/expr" => { let $a = expr::from_elem(<$s>::from_dims(&$o.l.d), constant($o.l.id)); $body }
            "fn/expr" => { let $a = expr::from_fn(<$s>::from_dims(&$o.l.d), indexer($o.l.id)); $body }
            "map" => { let $a = $px.view::<$s>(&$o.l).map(mapper()); $body }
            "fill/expr" => { let $a = expr::fill(constant($o.l.id)); $body }
            "fillwith/expr" => { let $a = expr::fill_with(filler($o.l.id)); $body }
            _ => $else,
        }
    };
}
macro_rules! right {
    ($s:ty, $px:expr, $o:expr, $a:ident => $body:expr, $else:expr) => {
        match $o.kind().as_str() {
            "viewmut/tensor" => { let $a = $px.tensor_kept::<$s>(&$o.l); $body }
            "viewmut/slice" => { let v = $px.view_mut::<$s>(&$o.l); let $a = &mut **$px.keep(v); $body }
            "viewmut/view" => { let v = $px.view_mut::<$s>(&$o.l); let $a = $px.keep(v); $body }
            "viewmut/byval" => { let $a = $px.view_mut::<$s>(&$o.l); $body }
            "cloned" => { let $a = $px.view::<$s>(&$o.l).cloned(); $body }
            "drain/expr" => { let $a = $px.drain::<$s>(&$o.l); $body }
            _ => common!($s, $px, $o, $a => $body, $else),
        }
    };
}
macro_rules! arrays {
    ($s:ty, $px:expr, $o:expr, $a:ident => $body:expr, $else:expr) => {
        match $o.kind().as_str() {
            "view/array" => { let $a = &*$px.array_kept::<$s>(&$o.l); $body }
            "into/array" => { let $a = $px.array::<$s>(&$o.l); $body }
            _ => $else,
        }
    };
}
macro_rules! right_arrays {
    ($s:ty, $px:expr, $o:expr, $a:ident => $body:expr, $else:expr) => {
        match $o.kind().as_str() {
            "viewmut/array" => { let $a = $px.array_kept::<$s>(&$o.l); $body }
            _ => arrays!($s, $px, $o, $a => $body, $else),
        }
    };
}
macro_rules! tiny {
    ($s:ty, $px:expr, $o:expr, $a:ident => $body:expr, $else:expr) => {
        match $o.kind().as_str() {
            "view/slice" => { let v = $px.view::<$s>(&$o.l); let $a = &**$px.keep(v); $body }
            "into/tensor" => { let $a = $px.tensor::<$s>(&$o.l); $body }
            "into/expr" => { let $a = $px.tensor::<$s>(&$o.l).into_expr(); $body }
            "fn/expr" => { let $a = expr::from_fn(<$s>::from_dims(&$o.l.d), indexer($o.l.id)); $body }
            "fillwith/expr" => { let $a = expr::fill_with(filler($o.l.id)); $body }
            _ => $else,
        }
    };
}

fn fin<O: IntoExpression<IntoExpr = E>, E: Ex>(o: O) -> Box<dyn DynExpr> {
    Fin.go(&mut Cx::new(0), o.into_expr())
}
type Built = Option<Box<dyn DynExpr>>;

fn bin<S: Shape + 'static, R: Shape + 'static>(px: &mut Px, name: &str, x: &Op, y: &Op) -> Built {
    common!(S, px, x, a => right!(R, px, y, b => Some(fin(a.op(name, b))), None), None)
}
fn bin_tiny<S: Shape + 'static, R: Shape + 'static>(px: &mut Px, name: &str, x: &Op, y: &Op) -> Built {
    tiny!(S, px, x, a => tiny!(R, px, y, b => Some(fin(a.op(name, b))), None), None)
}
fn bin_al<S: ConstShape + 'static>(px: &mut Px, name: &str, x: &Op, y: &Op) -> Built {
    arrays!(S, px, x, a => right!(DynRank, px, y, b => Some(fin(a.op(name, b))), None), None)
}
fn bin_ar<S: ConstShape + 'static>(px: &mut Px, name: &str, x: &Op, y: &Op) -> Built {
    common!(DynRank, px, x, a => right_arrays!(S, px, y, b => Some(fin(a.op(name, b))), None), None)
}
fn bin_aa<S: ConstShape + 'static, R: ConstShape + 'static>(px: &mut Px, name: &str, x: &Op, y: &Op) -> Built {
    arrays!(S, px, x, a => right_arrays!(R, px, y, b => Some(fin(a.op(name, b))), None), None)
}
fn un<S: Shape + 'static>(px: &mut Px, name: &str, x: &Op) -> Built {
    common!(S, px, x, a => Some(fin(a.op1(name))), None)
}
fn un_a<S: ConstShape + 'static>(px: &mut Px, name: &str, x: &Op) -> Built {
    arrays!(S, px, x, a => Some(fin(a.op1(name))), None)
}

/// runs `$m!(S)` for the constant-shape type of the dims
macro_rules! const_shape {
    ($d:expr, $m:ident) => {
        match $d.as_slice() {
            [] => $m!(()),
            [3] => $m!((C<3>,)),
            [2, 3] => $m!((C<2>, C<3>)),
            [0] => $m!((C<0>,)),
            [2, 0] => $m!((C<2>, C<0>)),
            [2, 2, 3] => $m!((C<2>, C<2>, C<3>)),
            [2] => $m!((C<2>,)),
            [3, 2] => $m!((C<3>, C<2>)),
            [1, 3] => $m!((C<1>, C<3>)),
            [2, 1] => $m!((C<2>, C<1>)),
            d => panic!("HARNESS array shape {d:?}"),
        }
    };
}

/// builds the result, checks it against the case
fn check(case: &Value, build: &dyn Fn(&mut Px) -> Built) -> Result<u64, String> {
    let mut n = 0;
    for how in 0..ex::CONSUMERS {
        let mut px = Px::default();
        let mut late = false;
        let r = trap(|| {
            let b = build(&mut px);
            late = true;
            b
        });
        if case["k"] == "panic" {
            return match r {
                None => {
                    px.check(|_| None).map_err(|m| format!("after rejecting operands: {m}"))?;
                    Ok(1)
                }
                Some(None) => Ok(0),
                Some(_) => Err("accepted operands that cannot be broadcast".into()),
            };
        }
        let e = match r {
            None => return Err("panic".into()),
            Some(None) => return Ok(0),
            Some(Some(e)) => e,
        };
        let dims = usizes(&case["d"]);
        let got = e.dims()?;
        if got != dims {
            return Err(format!("shape {got:?}, expected {dims:?}"));
        }
        // a rank 0 result has nothing to append to
        let (d, v) = match trap(|| e.consume(how)) {
            Some(r) => r,
            None => return Err(format!("panic while evaluating (consumer {how})")),
        };
        if d.as_ref().is_some_and(|d| *d != dims) {
            return Err(format!("evaluates to shape {d:?}, expected {dims:?} (consumer {how})"));
        }
        if json!(v) != case["i"] {
            return Err(format!("evaluates to {}, expected {} (consumer {how})", json!(v), case["i"]));
        }
        px.check(|_| None).map_err(|m| format!("operand changed: {m}"))?;
        n += 1;
    }
    Ok(n)
}

fn binary_case(case: &Value) -> Result<u64, String> {
    let t = &case["x"];
    let name = t["op"].as_str().unwrap();
    let (x, y) = (op(&t["x"]), op(&t["y"]));
    let mut n = 0;
    let mut one = |what: &str, build: &dyn Fn(&mut Px) -> Built| {
        n += check(case, build).map_err(|m| format!("{} {name} {} ({what}): {m}", x.kind(), y.kind()))?;
        Ok::<_, String>(())
    };
    match (is_array(&x), is_array(&y)) {
        (false, false) => {
            one("dynamic rank", &|px| bin::<DynRank, DynRank>(px, name, &x, &y))?;
            macro_rules! with {
                ($($s:ty, $r:ty);*) => {$(
                    if fits::<$s>(&x.l.d) && fits::<$r>(&y.l.d) {
                        one(concat!(stringify!($s), " ", stringify!($r)), &|px| bin_tiny::<$s, $r>(px, name, &x, &y))?;
                    }
                )*};
            }
            with!((D, D), (D,); (D,), (D, D); (D, D), (D, D); (D, C<3>), (C<3>,); (C<2>, C<3>), (D, C<3>); (), (C<2>, D); (D, D, D), (D, D); (), (); (C<3>,), (D,));
        }
        (true, false) => {
            macro_rules! go {
                ($s:ty) => {
                    one("", &|px| bin_al::<$s>(px, name, &x, &y))
                };
            }
            const_shape!(x.l.d, go)?;
        }
        (false, true) => {
            macro_rules! go {
                ($s:ty) => {
                    one("", &|px| bin_ar::<$s>(px, name, &x, &y))
                };
            }
            const_shape!(y.l.d, go)?;
        }
        (true, true) => {
            macro_rules! pairs {
                ($($s:ty, $r:ty);*) => {$(
                    if fits::<$s>(&x.l.d) && fits::<$r>(&y.l.d) {
                        one("", &|px| bin_aa::<$s, $r>(px, name, &x, &y))?;
                    }
                )*};
            }
            pairs!((), (); (), (C<3>,); (C<3>,), (); (C<3>,), (C<3>,); (C<3>,), (C<2>, C<3>); (C<2>, C<3>), (C<3>,); (C<2>, C<3>), (C<2>, C<3>);
                   (C<2>, C<0>), (C<0>,); (C<2>, C<3>), (C<2>, C<0>); (C<2>, C<2>, C<3>), (C<2>, C<3>); (C<0>,), (C<0>,); (C<2>, C<0>), (C<2>, C<0>);
                   (C<3>, C<2>), (C<3>,); (C<3>, C<2>), (C<2>,); (C<2>,), (C<3>, C<2>); (C<3>,), (C<3>, C<2>); (C<2>, C<3>), (C<1>, C<3>); (C<1>, C<3>), (C<3>,); (C<2>, C<1>), (C<2>,); (C<2>,), (C<2>, C<1>));
        }
    }
    Ok(n)
}
fn unary_case(case: &Value) -> Result<u64, String> {
    let t = &case["x"];
    let name = t["op"].as_str().unwrap();
    let x = op(&t["x"]);
    if is_array(&x) {
        macro_rules! go {
            ($s:ty) => {
                check(case, &|px| un_a::<$s>(px, name, &x))
            };
        }
        return const_shape!(x.l.d, go).map_err(|m| format!("{name} {}: {m}", x.kind()));
    }
    let mut n = 0;
    macro_rules! with {
        ($($s:ty),*) => {$(
            if fits::<$s>(&x.l.d) {
                n += check(case, &|px| un::<$s>(px, name, &x)).map_err(|m| format!("{name} {} {}: {m}", x.kind(), stringify!($s)))?;
            }
        )*};
    }
    with!(DynRank, (), (D,), (D, D), (D, D, D), (C<2>, C<3>), (D, C<3>), (C<3>,));
    Ok(n)
}
/// trees of operators, with dynamic rank
fn tree_case(case: &Value) -> Result<u64, String> {
    type R = DynRank;
    let t = &case["x"];
    let tn = t["op"].as_str().unwrap();
    let nm = |v: &Value| v["op"].as_str().unwrap().to_string();
    let kind = |v: &Value| v["t"].as_str().unwrap().to_string();
    let (kx, ky) = (kind(&t["x"]), if t["t"] == "bin" { kind(&t["y"]) } else { String::new() });
    if t["t"] == "un" {
        let (a, b, i) = (op(&t["x"]["x"]), op(&t["x"]["y"]), nm(&t["x"]));
        return check(case, &|px| tiny!(R, px, a, a => tiny!(R, px, b, b => Some(fin(a.op(&i, b).op1(tn))), None), None));
    }
    match (kx.as_str(), ky.as_str()) {
        ("bin", _) => {
            let (a, b, c, i) = (op(&t["x"]["x"]), op(&t["x"]["y"]), op(&t["y"]), nm(&t["x"]));
            check(case, &|px| {
                tiny!(R, px, a, a => tiny!(R, px, b, b => tiny!(R, px, c, c => Some(fin(a.op(&i, b).op(tn, c))), None), None), None)
            })
        }
        (_, "bin") => {
            let (a, b, c, i) = (op(&t["x"]), op(&t["y"]["x"]), op(&t["y"]["y"]), nm(&t["y"]));
            check(case, &|px| {
                tiny!(R, px, a, a => tiny!(R, px, b, b => tiny!(R, px, c, c => Some(fin(a.op(tn, b.op(&i, c)))), None), None), None)
            })
        }
        ("un", _) => {
            let (x, b, i) = (&t["x"], op(&t["y"]), nm(&t["x"]));
            if x["x"]["t"] == "un" {
                let (a, j) = (op(&x["x"]["x"]), nm(&x["x"]));
                return check(case, &|px| tiny!(R, px, a, a => tiny!(R, px, b, b => Some(fin(a.op1(&j).op1(&i).op(tn, b))), None), None));
            }
            let a = op(&x["x"]);
            check(case, &|px| tiny!(R, px, a, a => tiny!(R, px, b, b => Some(fin(a.op1(&i).op(tn, b))), None), None))
        }
        _ => {
            let (a, b, i) = (op(&t["x"]), op(&t["y"]["x"]), nm(&t["y"]));
            check(case, &|px| tiny!(R, px, a, a => tiny!(R, px, b, b => Some(fin(a.op(tn, b.op1(&i)))), None), None))
        }
    }
}

// ------------------------------------------------------- compound assignment
/// `Some(ok)`, or `None` if the source kind is not realised here
fn assign_one<T: ?Sized>(px: &mut Px, t: &mut T, name: &str, y: &Value, full: fn(&mut Px, &mut T, &str, &Value) -> bool) -> Option<bool> {
    let mut known = false;
    let r = trap(|| known = full(px, t, name, y));
    match r {
        Some(()) if !known => None,
        Some(()) => Some(true),
        None => Some(false),
    }
}
macro_rules! source {
    ($m:ident, $r:ty, $px:expr, $t:expr, $name:expr, $y:expr) => {{
        let y: &Value = $y;
        if y["t"] == "bin" {
            let (a, b, i) = (op(&y["x"]), op(&y["y"]), y["op"].as_str().unwrap());
            let f = expr::fill(constant(b.l.id));
            match a.kind().as_str() {
                "view/slice" => {
                    let v = $px.view::<$r>(&a.l);
                    $t.op_assign($name, (&**$px.keep(v)).op(i, f));
                }
                _ => $t.op_assign($name, $px.tensor::<$r>(&a.l).op(i, f)),
            }
            true
        } else {
            let o = op(y);
            $m!($r, $px, o, b => { $t.op_assign($name, b); true }, false)
        }
    }};
}
macro_rules! src_arrays {
    ($px:expr, $t:expr, $name:expr, $y:expr) => {{
        let o = op($y);
        macro_rules! go {
            ($s:ty) => {
                right_arrays!($s, $px, o, b => { $t.op_assign($name, b); true }, false)
            };
        }
        const_shape!(o.l.d, go)
    }};
}
/// all sources with dynamic rank (and constant-shape arrays)
fn any<S: Shape + 'static, L: Layout>(px: &mut Px, t: &mut Slice<Tm, S, L>, name: &str, y: &Value) -> bool {
    if y["o"] == "array" { src_arrays!(px, t, name, y) } else { source!(right, DynRank, px, t, name, y) }
}
fn any_view<S: Shape + 'static>(px: &mut Px, t: &mut ViewMut<'static, Tm, S, Strided>, name: &str, y: &Value) -> bool {
    if y["o"] == "array" { src_arrays!(px, t, name, y) } else { source!(right, DynRank, px, t, name, y) }
}
fn any_tensor<S: Shape + 'static>(px: &mut Px, t: &mut Tensor<Tm, S>, name: &str, y: &Value) -> bool {
    if y["o"] == "array" { src_arrays!(px, t, name, y) } else { source!(right, DynRank, px, t, name, y) }
}
fn any_array<S: ConstShape + 'static>(px: &mut Px, t: &mut Array<Tm, S>, name: &str, y: &Value) -> bool {
    if y["o"] == "array" { src_arrays!(px, t, name, y) } else { source!(right, DynRank, px, t, name, y) }
}

fn assign_case(case: &Value) -> Result<u64, String> {
    let x = op(&case["x"]);
    let h = case["h"].as_array().unwrap();
    let c = case["c"].as_array().unwrap();
    let l = &x.l;
    // cell -> content
    let map: std::collections::HashMap<i64, Value> = (0..c.len())
        .map(|k| {
            let ix = ex::unlin(&l.d, k);
            let off: isize = ix.iter().zip(&l.s).map(|(&i, &s)| i as isize * s).sum();
            (1000 * l.id + l.f as i64 + off as i64, c[k].clone())
        })
        .collect();
    let mut n = 0;
    macro_rules! run {
        ($px:ident, $what:expr, $t:expr, $full:expr) => {{
            let mut $px = Px::default();
            let t = $t;
            let mut skip = false;
            for s in h {
                let name = s["op"].as_str().unwrap();
                let want = s["ok"].as_bool().unwrap();
                match assign_one(&mut $px, t, name, &s["y"], $full) {
                    None => skip = true,
                    Some(ok) if ok != want => {
                        return Err(format!("{} {name}= {}: {}", $what, s["y"], if ok { "accepted a source that does not broadcast to the target" } else { "panic" }));
                    }
                    _ => {}
                }
                if skip {
                    break;
                }
            }
            if !skip {
                $px.check(|cell| map.get(&cell).cloned()).map_err(|m| format!("{} after {}: {m}", $what, json!(h)))?;
                n += 1;
            }
        }};
    }
    macro_rules! with {
        ($($s:ty),*) => {$(
            if fits::<$s>(&l.d) {
                match x.kind().as_str() {
                    "viewmut/tensor" => run!(px, concat!("Tensor ", stringify!($s)), px.tensor_kept::<$s>(l), any_tensor::<$s>),
                    "viewmut/slice" => run!(px, concat!("Slice ", stringify!($s)), { let v = px.view_mut::<$s>(l); &mut **px.keep(v) }, any::<$s, Strided>),
                    "viewmut/slice/D" => run!(px, concat!("dense Slice ", stringify!($s)), { let v = px.dense_mut::<$s>(l); &mut **px.keep(v) }, any::<$s, Dense>),
                    "viewmut/view" => run!(px, concat!("ViewMut ", stringify!($s)), { let v = px.view_mut::<$s>(l); px.keep(v) }, any_view::<$s>),
                    "viewmut/array" => {}
                    k => panic!("HARNESS target {k}"),
                }
            }
        )*};
    }
    with!(DynRank, (D, D), (C<2>, C<3>), (D, C<3>), (C<3>,), ());
    if x.o == "array" {
        macro_rules! go {
            ($s:ty) => {
                run!(px, concat!("Array ", stringify!($s)), px.array_kept::<$s>(l), any_array::<$s>)
            };
        }
        const_shape!(l.d, go);
    }
    Ok(n)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    replay_main(&args[2..], |case, _, _| {
        if case["t"] == "assign" {
            return assign_case(case);
        }
        let x = &case["x"];
        let nested = |v: &Value| v["t"] == "bin" || v["t"] == "un";
        if nested(&x["x"]) || (x["t"] == "bin" && nested(&x["y"])) {
            tree_case(case)
        } else if x["t"] == "un" {
            unary_case(case)
        } else {
            binary_case(case)
        }
    });
}
