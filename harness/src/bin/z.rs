//! Zips and everything built on them (ExprGen families zip, zipmap, nest, assign).
//!   z MODE CASES OUT PROGRESS SHARD NSHARDS SEED
//! modes: zip (results and rejections), iter (stepping), eval (results and closure calls),
//!        apply (apply/zip_with of arrays), assign, hold
use harness::ex::*;
use harness::serde_json::{Value, json};
use harness::*;
use mdarray::expr::{self, Apply, Expression, IntoExpression};
use mdarray::*;
use std::marker::PhantomData;

type D = Dyn;
type C<const N: usize> = Const<N>;
type Build<'a> = &'a mut dyn FnMut(&mut Cx) -> Box<dyn DynExpr>;

fn check(mode: &str, case: &Value, want: &[Value], build: Build) -> Result<u64, String> {
    if case["k"] == "panic" {
        let mut cx = Cx::new(0);
        let r = trap(|| {
            build(&mut cx);
        });
        cx.check(|_, c| c).map_err(|m| format!("rejected operands changed: {m}"))?;
        return match r {
            None => Ok(1),
            Some(_) => Err("accepted operands that cannot be broadcast".into()),
        };
    }
    let dims = usizes(&case["d"]);
    if mode == "hold" {
        return check_hold(want, build);
    }
    let mut hold = vec![];
    let mut alt = 0;
    let mut fresh = |hold: &mut Vec<Cx>| {
        alt += 1;
        let mut cx = Cx::new(alt);
        let e = build(&mut cx);
        hold.push(cx);
        e
    };
    let got = fresh(&mut hold).dims()?;
    if got != dims {
        return Err(format!("shape {got:?}, expected {dims:?}"));
    }
    match mode {
        "iter" => check_iter(want, &mut || fresh(&mut hold).iter()),
        _ => check_eval(&case["x"], &dims, want, mode == "eval", &mut || fresh(&mut hold)),
    }
}

fn zip2<S: Shape + 'static, R: Shape + 'static, K: Cont>(cx: &mut Cx, a: &Leaf, b: &Leaf, k: K) -> Box<dyn DynExpr> {
    leaf::<S, _>(cx, a, ZipL(RLeaf::<R>(b, PhantomData), k))
}
fn zip2t<S: Shape + 'static, R: Shape + 'static, K: Cont>(cx: &mut Cx, a: &Leaf, b: &Leaf, k: K) -> Box<dyn DynExpr> {
    tiny::<S, _>(cx, a, ZipL(RTiny::<R>(b, PhantomData), k))
}
/// left operands of mapped or enumerated zips
fn some<S: Shape + 'static, K: Cont>(cx: &mut Cx, x: &Leaf, k: K) -> Box<dyn DynExpr> {
    match x.t.as_str() {
        "viewmut" => {
            let e = view_mut::<S, Strided>(cx, x);
            k.go(cx, e)
        }
        _ => tiny::<S, K>(cx, x, k),
    }
}
fn some_zip<K: Cont>(cx: &mut Cx, a: &Leaf, b: &Leaf, k: K) -> Box<dyn DynExpr> {
    some::<DynRank, _>(cx, a, ZipL(RLeaf::<DynRank>(b, PhantomData), k))
}

fn is_tiny(l: &Leaf) -> bool {
    ["view", "into", "fill", "fn"].contains(&l.t.as_str())
}

fn zip_case(mode: &str, case: &Value) -> Result<u64, String> {
    let x = &case["x"];
    let want = arr(&case["i"]);
    let t = |v: &Value| v["t"].as_str().unwrap().to_string();
    if t(x) == "map" || t(x) == "enum" {
        let (a, b) = (Leaf::parse(&x["x"]["x"]), Leaf::parse(&x["x"]["y"]));
        return if t(x) == "map" {
            check(mode, case, &want, &mut |cx| some_zip(cx, &a, &b, MapK(Fin)))
        } else {
            check(mode, case, &want, &mut |cx| some_zip(cx, &a, &b, EnumK(Fin)))
        };
    }
    match (t(&x["x"]).as_str(), t(&x["y"]).as_str()) {
        ("zip", _) => {
            let (a, b, c) = (Leaf::parse(&x["x"]["x"]), Leaf::parse(&x["x"]["y"]), Leaf::parse(&x["y"]));
            check(mode, case, &want, &mut |cx| zip2t::<DynRank, DynRank, _>(cx, &a, &b, ZipL(RTiny::<DynRank>(&c, PhantomData), Fin)))
        }
        (_, "zip") => {
            let (a, b, c) = (Leaf::parse(&x["x"]), Leaf::parse(&x["y"]["x"]), Leaf::parse(&x["y"]["y"]));
            check(mode, case, &want, &mut |cx| tiny::<DynRank, _>(cx, &a, ZipL(RZip(&b, &c), Fin)))
        }
        ("map", _) => {
            let (a, b) = (Leaf::parse(&x["x"]["x"]), Leaf::parse(&x["y"]));
            check(mode, case, &want, &mut |cx| tiny::<DynRank, _>(cx, &a, MapK(ZipL(RTiny::<DynRank>(&b, PhantomData), Fin))))
        }
        ("enum", _) => {
            let (a, b) = (Leaf::parse(&x["x"]["x"]), Leaf::parse(&x["y"]));
            check(mode, case, &want, &mut |cx| tiny::<DynRank, _>(cx, &a, EnumK(ZipL(RTiny::<DynRank>(&b, PhantomData), Fin))))
        }
        (_, "map") => {
            let (a, b) = (Leaf::parse(&x["x"]), Leaf::parse(&x["y"]["x"]));
            check(mode, case, &want, &mut |cx| tiny::<DynRank, _>(cx, &a, ZipL(RMap::<DynRank>(&b, PhantomData), Fin)))
        }
        _ => {
            let (a, b) = (Leaf::parse(&x["x"]), Leaf::parse(&x["y"]));
            let mut n = check(mode, case, &want, &mut |cx| zip2::<DynRank, DynRank, _>(cx, &a, &b, Fin))?;
            if is_tiny(&a) && is_tiny(&b) {
                macro_rules! pairs {
                    ($(($s:ty, $r:ty)),* $(,)?) => {$(
                        if fits::<$s>(&a.d) && fits::<$r>(&b.d) {
                            n += check(mode, case, &want, &mut |cx| zip2t::<$s, $r, _>(cx, &a, &b, Fin))
                                .map_err(|m| format!("shape types {} and {}: {m}", stringify!($s), stringify!($r)))?;
                        }
                    )*};
                }
                pairs!(
                    ((D,), (D,)), ((D,), (D, D)), ((D, D), (D,)), ((D, D), (D, D)), ((), (D, D)), ((D, D), ()), ((), ()),
                    ((D, D, D), (D,)), ((D, D, D), (D, D)), ((D,), (D, D, D)),
                    ((C<2>, C<3>), (C<2>, C<3>)), ((C<3>,), (C<2>, C<3>)), ((D, C<3>), (C<2>, D)), ((C<2>, D), (D, C<3>)),
                    ((C<3>,), (D, D)), ((D, D), (C<3>,)), ((D, C<3>), (D,)), ((C<2>,), (D, D)), ((C<2>, D), (C<3>,)),
                    (DynRank, (D, D)), ((D,), DynRank), ((C<2>, C<3>), DynRank), (DynRank, (C<3>,)),
                    ((), (C<3>,)), ((C<3>,), ()), ((C<2>, C<3>), (D, D, D)), ((D, D, D), (D, C<3>)),
                );
            }
            Ok(n)
        }
    }
}

// ------------------------------------------------------------ apply, zip_with
fn code(v: &Value) -> i64 {
    let mut h = 1469598103934665603u64;
    for b in v.to_string().bytes() {
        h = (h ^ b as u64).wrapping_mul(1099511628211);
    }
    (h >> 2) as i64
}
fn calls(v: Value) -> i64 {
    log(99, v.clone());
    code(&v)
}
macro_rules! zip_with_cont {
    (@ $name:ident, $B:ident, $($a:tt)*) => {
        struct $name<S: $B + 'static>($($a)*);
        impl<S: $B + 'static> Cont for $name<S> {
            fn go<E: Ex>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr> {
                let r = Apply::<i64>::zip_with(self.0, e, |(x, y)| calls(json!([x, y.term()])));
                Fin.go(cx, r.into_expr())
            }
            fn goc<E: Ex + Clone>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr>
            where
                E::IntoIter: Clone,
            {
                self.go(cx, e)
            }
        }
    };
    ($name:ident, $($a:tt)*) => { zip_with_cont!(@ $name, Shape, $($a)*); };
}
zip_with_cont!(WSlice, &'static Slice<i64, S>);
zip_with_cont!(WStrided, &'static Slice<i64, S, Strided>);
zip_with_cont!(WSliceMut, &'static mut Slice<i64, S, Strided>);
zip_with_cont!(WTensor, Tensor<i64, S>);
zip_with_cont!(WTensorRef, &'static Tensor<i64, S>);
zip_with_cont!(WTensorMut, &'static mut Tensor<i64, S>);
zip_with_cont!(WView, &'static View<'static, i64, S, Strided>);
zip_with_cont!(WViewMut, &'static mut ViewMut<'static, i64, S, Strided>);
zip_with_cont!(@ WArrayRef, ConstShape, &'static Array<i64, S>);
zip_with_cont!(@ WArrayMut, ConstShape, &'static mut Array<i64, S>);
struct WArray<S: ConstShape>(Array<i64, S>);
impl<S: ConstShape + 'static> Cont for WArray<S> {
    fn go<E: Ex>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr> {
        let r = Apply::<FnItem>::zip_with(self.0, e, |(x, y)| FnItem(vec![calls(json!([x, y.term()]))]));
        Fin.go(cx, r.into_expr())
    }
    fn goc<E: Ex + Clone>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr>
    where
        E::IntoIter: Clone,
    {
        self.go(cx, e)
    }
}

fn apply_case(case: &Value) -> Result<u64, String> {
    let x = &case["x"];
    let items = arr(&case["i"]);
    let (a, b) = (Leaf::parse(&x["x"]), Leaf::parse(&x["y"]));
    let mut n = 0;
    let mut one = |name: &str, boxed: bool, build: Build| {
        let want: Vec<Value> = items.iter().map(|i| if boxed { json!([code(i)]) } else { json!(code(i)) }).collect();
        let mut late = false;
        n += check("zip", case, &want, &mut |cx| {
            let e = build(cx);
            late = true;
            e
        })
        .map_err(|m| format!("zip_with of {name}: {m}"))?;
        // calls: once per element and in order
        if case["k"] == "ok" {
            let mut cx = Cx::new(0);
            take_log();
            let e = build(&mut cx);
            e.consume(0);
            let log: Vec<Value> = take_log().into_iter().filter(|e| e.0 == 99).map(|e| e.1).collect();
            if log != items {
                return Err(format!("zip_with of {name} called its closure with {}, expected {}", json!(log), json!(items)));
            }
        }
        Ok::<_, String>(())
    };
    macro_rules! types {
        ($s:ty, $r:ty) => {
            if fits::<$s>(&a.d) && fits::<$r>(&b.d) {
                match (a.t.as_str(), a.l.as_str()) {
                    ("view", "S") => {
                        one("&slice", false, &mut |cx| {
                            let v = view::<$s, Strided>(cx, &a);
                            let k = WStrided::<$s>(&**cx.keep(v));
                            leaf::<$r, _>(cx, &b, k)
                        })?;
                        one("&view", false, &mut |cx| {
                            let v = view::<$s, Strided>(cx, &a);
                            let k = WView::<$s>(&*cx.keep(v));
                            tiny_or::<$r, _>(cx, &b, k)
                        })?;
                    }
                    ("view", _) => {
                        one("&slice", false, &mut |cx| {
                            let v = view::<$s, Dense>(cx, &a);
                            let k = WSlice::<$s>(&**cx.keep(v));
                            leaf::<$r, _>(cx, &b, k)
                        })?;
                        one("&tensor", false, &mut |cx| {
                            let k = WTensorRef::<$s>(&*cx.keep(tensor(&a)));
                            tiny_or::<$r, _>(cx, &b, k)
                        })?;
                    }
                    ("viewmut", "S") => {
                        one("&mut slice", false, &mut |cx| {
                            let v = view_mut::<$s, Strided>(cx, &a);
                            let k = WSliceMut::<$s>(&mut **cx.keep(v));
                            leaf::<$r, _>(cx, &b, k)
                        })?;
                        one("&mut view", false, &mut |cx| {
                            let v = view_mut::<$s, Strided>(cx, &a);
                            let k = WViewMut::<$s>(cx.keep(v));
                            tiny_or::<$r, _>(cx, &b, k)
                        })?;
                    }
                    ("viewmut", _) => {
                        one("&mut tensor", false, &mut |cx| {
                            let k = WTensorMut::<$s>(cx.keep(tensor(&a)));
                            leaf::<$r, _>(cx, &b, k)
                        })?;
                    }
                    ("into", _) => {
                        one("tensor", false, &mut |cx| {
                            let k = WTensor::<$s>(tensor(&a));
                            leaf::<$r, _>(cx, &b, k)
                        })?;
                    }
                    _ => {}
                }
            }
        };
    }
    types!(DynRank, DynRank);
    types!((D, D), DynRank);
    types!((D,), (D,));
    macro_rules! arrays {
        ($($s:ty),*) => {$(
            if a.t == "into" && fits::<$s>(&a.d) {
                one("array", true, &mut |cx| {
                    let k = WArray::<$s>(Array::from(tensor::<$s>(&a)));
                    leaf::<DynRank, _>(cx, &b, k)
                })?;
            }
            if a.t == "view" && a.l != "S" && fits::<$s>(&a.d) {
                one("&array", false, &mut |cx| {
                    let k = WArrayRef::<$s>(&*cx.keep(Array::from(tensor::<$s>(&a))));
                    tiny_or::<DynRank, _>(cx, &b, k)
                })?;
            }
            if a.t == "viewmut" && a.l != "S" && fits::<$s>(&a.d) {
                one("&mut array", false, &mut |cx| {
                    let k = WArrayMut::<$s>(cx.keep(Array::from(tensor::<$s>(&a))));
                    tiny_or::<DynRank, _>(cx, &b, k)
                })?;
            }
        )*};
    }
    arrays!((), (C<3>,), (C<2>, C<3>), (C<2>, C<2>, C<3>));
    Ok(n)
}
fn tiny_or<S: Shape + 'static, K: Cont>(cx: &mut Cx, b: &Leaf, k: K) -> Box<dyn DynExpr> {
    if is_tiny(b) { tiny::<S, K>(cx, b, k) } else { leaf::<S, K>(cx, b, k) }
}

// ------------------------------------------------------------ unary apply and map of arrays
fn unary_case(case: &Value) -> Result<u64, String> {
    let x = &case["x"];
    if x["t"] != "map" || !x["x"]["l"].is_string() {
        return Ok(0);
    }
    let a = Leaf::parse(&x["x"]);
    let dims = usizes(&case["d"]);
    let args: Vec<i64> = arr(&case["i"]).iter().map(|i| i[1].as_i64().unwrap_or(0)).collect();
    let want: Vec<i64> = args.iter().map(|&x| code(&json!(x))).collect();
    let f = |x: i64| calls(json!(x));
    let mut n = 0;
    let mut verdict = |name: &str, got: Option<Vec<usize>>, v: Vec<i64>| {
        n += 1;
        let log: Vec<i64> = take_log().into_iter().filter(|e| e.0 == 99).map(|e| e.1.as_i64().unwrap()).collect();
        if got.as_ref().is_some_and(|d| *d != dims) || v != want {
            return Err(format!("{name} gives {got:?} {v:?}, expected {dims:?} {want:?}"));
        }
        if log != args {
            return Err(format!("{name} called its closure with {log:?}, expected {args:?}"));
        }
        Ok(())
    };
    fn out<S: Shape + 'static>(t: &Slice<i64, S>) -> (Option<Vec<usize>>, Vec<i64>) {
        let (d, v) = terms(t);
        (d, v.iter().map(|x| x.as_i64().unwrap()).collect())
    }
    macro_rules! go {
        ($s:ty) => {
            if fits::<$s>(&a.d) {
                let mut cx = Cx::new(0);
                match (a.t.as_str(), a.l.as_str()) {
                    ("view", "S") => {
                        let v = view::<$s, Strided>(&mut cx, &a);
                        let v = cx.keep(v);
                        let (d, r) = out::<$s>(std::borrow::Borrow::borrow(&(&**v).apply(|x| f(*x)).eval()));
                        verdict("&slice.apply", d, r)?;
                        let (d, r) = out::<$s>(std::borrow::Borrow::borrow(&(&*v).apply(|x| f(*x)).eval()));
                        verdict("&view.apply", d, r)?;
                    }
                    ("view", _) => {
                        let t = tensor::<$s>(&a);
                        let (d, r) = out::<$s>(std::borrow::Borrow::borrow(&(&t).apply(|x| f(*x)).eval()));
                        verdict("&tensor.apply", d, r)?;
                        if out::<$s>(&t).1 != args {
                            return Err("&tensor.apply changed its operand".into());
                        }
                    }
                    ("viewmut", "S") => {
                        let v = view_mut::<$s, Strided>(&mut cx, &a);
                        let v = cx.keep(v);
                        let (d, r) = out::<$s>(std::borrow::Borrow::borrow(&(&mut **v).apply(|x| f(*x)).eval()));
                        verdict("&mut slice.apply", d, r)?;
                        let (d, r) = out::<$s>(std::borrow::Borrow::borrow(&Apply::<i64>::apply(&mut *v, |x: &mut i64| f(*x)).eval()));
                        verdict("&mut view.apply", d, r)?;
                        let (d, r) = out::<$s>(std::borrow::Borrow::borrow(&Apply::<i64>::apply(&*v, |x: &i64| f(*x)).eval()));
                        verdict("&view_mut.apply", d, r)?;
                    }
                    ("viewmut", _) => {
                        let mut t = tensor::<$s>(&a);
                        let (d, r) = out::<$s>(std::borrow::Borrow::borrow(&(&mut t).apply(|x| f(*x)).eval()));
                        verdict("&mut tensor.apply", d, r)?;
                    }
                    ("into", _) => {
                        let (d, r) = out::<$s>(&tensor::<$s>(&a).apply(f));
                        verdict("tensor.apply", d, r)?;
                        let (d, r) = out::<$s>(&tensor::<$s>(&a).map(f));
                        verdict("tensor.map", d, r)?;
                    }
                    _ => {}
                }
            }
        };
    }
    if ["view", "viewmut", "into"].contains(&a.t.as_str()) {
        go!(DynRank);
        go!(());
        go!((D,));
        go!((D, D));
        go!((D, D, D));
        go!((D, C<3>));
        go!((C<2>, D));
        go!((C<2>, C<3>));
    }
    macro_rules! arrays {
        ($($s:ty),*) => {$(
            if a.t == "into" && fits::<$s>(&a.d) {
                let mk = || Array::<i64, $s>::from(tensor::<$s>(&a));
                let (d, r) = out::<$s>(&mk().map(f));
                verdict("array.map", d, r)?;
                let (d, r) = out::<$s>(&Apply::<i64>::apply(mk(), f));
                verdict("array.apply", d, r)?;
                let (d, r) = out::<$s>(std::borrow::Borrow::borrow(&Apply::<i64>::apply(&mk(), |x: &i64| f(*x)).eval()));
                verdict("&array.apply", d, r)?;
                let (d, r) = out::<$s>(std::borrow::Borrow::borrow(&Apply::<i64>::apply(&mut mk(), |x: &mut i64| f(*x)).eval()));
                verdict("&mut array.apply", d, r)?;
            }
        )*};
    }
    arrays!((), (C<1>,), (C<3>,), (C<0>,), (C<2>, C<3>), (C<3>, C<1>), (C<2>, C<0>), (C<2>, C<3>, C<2>), (C<1>, C<2>, C<1>, C<2>));
    if a.t == "fn" {
        // constructors that take a function of the index
        let items = arr(&case["i"]);
        let want: Vec<i64> = items.iter().map(|i| code(&i[1])).collect();
        let mut fverdict = |name: &str, got: (Option<Vec<usize>>, Vec<i64>)| {
            n += 1;
            let log: Vec<Value> = take_log().into_iter().filter(|e| e.0 == 99).map(|e| e.1).collect();
            if got.0.as_ref() != Some(&dims) || got.1 != want || log != items.iter().map(|i| i[1].clone()).collect::<Vec<_>>() {
                return Err(format!("{name} gives {got:?} after calls {log:?}, expected {dims:?} {want:?}"));
            }
            Ok(())
        };
        let g = |ix: &[usize]| {
            let mut v = vec![1000 * a.id];
            v.extend(ix.iter().map(|&i| i as i64));
            calls(json!(v))
        };
        macro_rules! go {
            ($($s:ty),*) => {$(
                if fits::<$s>(&a.d) {
                    fverdict("Tensor::from_fn", out(&Tensor::<i64, $s>::from_fn(<$s>::from_dims(&a.d), g)))?;
                }
            )*};
        }
        go!(DynRank, (), (D,), (D, D), (D, D, D), (D, D, D, D), (D, C<3>), (C<2>, D), (C<2>, C<3>));
        macro_rules! arrays {
            ($($s:ty),*) => {$(
                if fits::<$s>(&a.d) {
                    fverdict("Array::from_fn", out(&Array::<i64, $s>::from_fn(g)))?;
                }
            )*};
        }
        arrays!((), (C<1>,), (C<3>,), (C<0>,), (C<2>, C<3>), (C<3>, C<1>), (C<2>, C<0>), (C<2>, C<3>, C<2>), (C<1>, C<2>, C<1>, C<2>));
        match a.d[..] {
            [x] => fverdict("from_fn([n])", out(&Tensor::from_fn([x], g)))?,
            [x, y] => fverdict("from_fn([n, m])", out(&Tensor::from_fn([x, y], g)))?,
            _ => {}
        }
    }
    if a.t == "elem" {
        let v = 1000 * a.id;
        macro_rules! go {
            ($($s:ty),*) => {$(
                if fits::<$s>(&a.d) {
                    n += 1;
                    let (d, r) = out(&Tensor::<i64, $s>::from_elem(<$s>::from_dims(&a.d), v));
                    if d.as_ref() != Some(&dims) || r.len() != args.len() || r.iter().any(|&x| x != v) {
                        return Err(format!("Tensor::from_elem gives {d:?} {r:?}"));
                    }
                }
            )*};
        }
        go!(DynRank, (), (D,), (D, D), (D, D, D), (D, C<3>), (C<2>, C<3>));
        macro_rules! arrays {
            ($($s:ty),*) => {$(
                if fits::<$s>(&a.d) {
                    n += 1;
                    let (_, r) = out(&Array::<i64, $s>::from_elem(v));
                    if r.len() != args.len() || r.iter().any(|&x| x != v) {
                        return Err(format!("Array::from_elem gives {r:?}"));
                    }
                }
            )*};
        }
        arrays!((), (C<1>,), (C<3>,), (C<0>,), (C<2>, C<3>), (C<2>, C<0>), (C<2>, C<3>, C<2>));
    }
    Ok(n)
}

// ------------------------------------------------------------ assignment
fn ixcode(id: i64, ix: &[i64]) -> i64 {
    1000 * id + ix.iter().fold(0, |a, i| a * 7 + i + 1)
}
/// what an item of the source becomes in the target
fn value(v: &Value) -> i64 {
    match v {
        Value::Array(a) if a[0] == -1 => -a[1].as_i64().unwrap(),
        Value::Array(a) => ixcode(a[0].as_i64().unwrap() / 1000, &a[1..].iter().map(|i| i.as_i64().unwrap()).collect::<Vec<_>>()),
        _ => v.as_i64().unwrap(),
    }
}
fn assign<S: Shape + 'static, L: Layout, R: Shape + 'static>(cx: &mut Cx, t: &mut Slice<i64, S, L>, y: &Value) {
    let mapped = y["t"] == "map";
    let l = Leaf::parse(if mapped { &y["x"] } else { y });
    match (l.t.as_str(), l.l.as_str()) {
        ("view", _) if mapped => t.assign(view::<R, Strided>(cx, &l).map(|x| -*x)),
        ("view", "S") => t.assign(view::<R, Strided>(cx, &l)),
        ("view", _) => match cx.alt % 3 {
            0 => t.assign(view::<R, Dense>(cx, &l)),
            1 => t.assign(&tensor::<R>(&l)),
            _ => t.assign(view::<R, Dense>(cx, &l).cloned()),
        },
        ("into", _) => t.assign(tensor::<R>(&l)),
        ("drain", _) => {
            let mut whole = l.clone();
            whole.d[0] += 2;
            whole.f = 0;
            t.assign(tensor::<R>(&whole).drain(1..1 + l.d[0]))
        }
        ("fill", _) => match cx.alt % 2 {
            0 => t.fill(1000 * l.id),
            _ => t.assign(expr::fill(1000 * l.id)),
        },
        ("fillwith", _) => {
            let mut n = 1000 * l.id - 1;
            let f = || {
                n += 1;
                n
            };
            match cx.alt % 2 {
                0 => t.fill_with(f),
                _ => t.assign(expr::fill_with(f)),
            }
        }
        ("elem", _) => t.assign(expr::from_elem(R::from_dims(&l.d), 1000 * l.id)),
        ("fn", _) => t.assign(expr::from_fn(R::from_dims(&l.d), |ix: &[usize]| ixcode(l.id, &ix.iter().map(|&i| i as i64).collect::<Vec<_>>()))),
        (t, l) => panic!("HARNESS source {t} {l}"),
    }
}
fn assign_case(case: &Value) -> Result<u64, String> {
    let x = &case["x"];
    let (t, y) = (Leaf::parse(&x["x"]), &x["y"]);
    let src = usizes(&if y["t"] == "map" { &y["x"] } else { y }["d"]);
    let ok = case["k"] == "ok";
    let mut new = std::collections::HashMap::new();
    for i in arr(&case["i"]) {
        new.insert(i[0].as_i64().unwrap(), value(&i[1]));
    }
    let mut n = 0;
    macro_rules! go {
        ($(($s:ty, $r:ty)),* $(,)?) => {$(
            if fits::<$s>(&t.d) && fits::<$r>(&src) {
                for alt in 0..3 {
                    let mut cx = Cx::new(alt);
                    let r = if t.l == "S" {
                        let mut v = view_mut::<$s, Strided>(&mut cx, &t);
                        let d: Vec<usize> = (0..v.rank()).map(|i| v.dim(i)).collect();
                        let r = trap(|| assign::<_, _, $r>(&mut cx, &mut v, y));
                        (r, d == (0..v.rank()).map(|i| v.dim(i)).collect::<Vec<_>>())
                    } else {
                        let mut v = view_mut::<$s, Dense>(&mut cx, &t);
                        let r = trap(|| assign::<_, _, $r>(&mut cx, &mut v, y));
                        (r, t.d == (0..v.rank()).map(|i| v.dim(i)).collect::<Vec<_>>())
                    };
                    n += 1;
                    let name = concat!("shape types ", stringify!($s), " and ", stringify!($r));
                    if r.0.is_some() != ok {
                        return Err(format!("{name}: {}", if ok { "valid assignment panicked" } else { "invalid assignment accepted" }));
                    }
                    if !r.1 {
                        return Err(format!("{name}: shape of the target changed"));
                    }
                    cx.check(|id, c| if ok && id == t.id { new.get(&c).copied().unwrap_or(c) } else { c }).map_err(|m| format!("{name}: {m}"))?;
                    // same on a tensor
                    if t.l != "S" {
                        let mut a = tensor::<$s>(&t);
                        let r = trap(|| assign::<_, _, $r>(&mut cx, &mut a, y));
                        let got: Vec<i64> = terms(&a).1.iter().map(|x| x.as_i64().unwrap()).collect();
                        let want: Vec<i64> = (0..t.len()).map(|i| 1000 * t.id + i as i64).map(|c| if ok { new.get(&c).copied().unwrap_or(c) } else { c }).collect();
                        if r.is_some() != ok || got != want {
                            return Err(format!("{name}: tensor after assignment is {got:?}, expected {want:?}"));
                        }
                    }
                }
            }
        )*};
    }
    go!(
        (DynRank, DynRank), ((), DynRank), ((D,), DynRank), ((D, D), DynRank), ((D, D, D), DynRank),
        (DynRank, ()), (DynRank, (D,)), (DynRank, (D, D)), ((D, D), (D, D)), ((D, D), (D,)), ((D,), (D, D)), ((D,), (D,)),
    );
    // constant heads cannot be drained
    if y["t"] != "drain" {
        go!(((C<2>, C<3>), (C<3>,)), ((C<2>, C<3>), (C<2>, C<3>)), ((C<2>, C<3>), (D, D)), ((D, C<3>), (C<2>, D)), ((C<3>,), (D, D)), ((C<2>, D), DynRank));
    }
    Ok(n)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args[1].clone();
    replay_main(&args[2..], |case, _, _| {
        let x = &case["x"];
        match mode.as_str() {
            "assign" => assign_case(case),
            "apply" => {
                if x["t"] == "zip" {
                    apply_case(case)
                } else {
                    unary_case(case)
                }
            }
            "hold" if case["k"] == "panic" || !x.to_string().contains("mut") => Ok(0),
            "iter" if case["k"] == "panic" => Ok(0),
            m => zip_case(m, case),
        }
    });
}
