//! Requests for arrays of any size (SizeGen).
//!   n MODE CASES OUT PROGRESS SHARD NSHARDS SEED      mode: replay
use harness::hold::{Store, tensor};
use harness::serde_json::Value;
use harness::*;
use mdarray::expr::{self, Expression};
use mdarray::*;

type D = Dyn;

fn num(v: &Value) -> u128 {
    usizes(v).iter().rev().fold(0, |a, &x| (a << 15) + x as u128)
}

/// An element that cannot be made more than a few thousand times.
static MADE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn made() {
    use std::sync::atomic::Ordering::Relaxed;
    if MADE.fetch_add(1, Relaxed) > 6000 {
        panic!("far too many elements");
    }
}
fn reset() {
    MADE.store(0, std::sync::atomic::Ordering::Relaxed)
}
fn calls() -> usize {
    MADE.load(std::sync::atomic::Ordering::Relaxed)
}
#[derive(PartialEq, Debug)]
struct E(u64);
impl Clone for E {
    fn clone(&self) -> E {
        made();
        E(self.0)
    }
}

/// What came out of a request: None for a panic, otherwise what the result says about itself.
#[derive(Debug)]
struct Got {
    dims: Vec<usize>,
    len: usize,
    empty: bool,
}
fn look<T, S: Shape, L: Layout>(x: &Slice<T, S, L>) -> Got {
    Got { dims: (0..x.rank()).map(|i| x.dim(i)).collect(), len: x.len(), empty: x.is_empty() }
}
fn look_expr<X: Expression>(x: &X) -> Got {
    Got { dims: (0..x.rank()).map(|i| x.dim(i)).collect(), len: x.len(), empty: x.is_empty() }
}
fn look_shape<S: Shape>(x: &S) -> Got {
    Got { dims: (0..x.rank()).map(|i| x.dim(i)).collect(), len: x.len(), empty: x.is_empty() }
}

fn judge(what: &str, res: &str, got: Option<Got>, want: &[usize], n: u128) -> Result<u64, String> {
    match (res, got) {
        ("no", None) | ("any", None) => Ok(1),
        ("no", Some(g)) => Err(format!("{what}: a request that must be refused gave {g:?}")),
        (_, None) => Err(format!("{what}: panicked although the shape {want:?} is fine")),
        (_, Some(g)) => {
            if g.dims != want || g.len as u128 != n || g.empty != (n == 0) {
                return Err(format!("{what}: gave {g:?}, expected {want:?} with {n} elements"));
            }
            Ok(1)
        }
    }
}

/// every request under one shape type
fn new_ops<S: Shape, I: IntoShape<IntoShape = S> + Clone>(kind: &str, op: &str, res: &str, sh: I, s: &[usize], n: u128) -> Result<u64, String> {
    let mut k = 0;
    let w = |x: &str| format!("{kind}: {x}");
    reset();
    match op {
        "lazy" => {
            k += judge(&w("expr::from_elem"), res, trap(|| look_expr(&expr::from_elem(sh.clone(), 1u8))), s, n)?;
            k += judge(&w("expr::from_fn"), res, trap(|| look_expr(&expr::from_fn(sh.clone(), |_| 1u8))), s, n)?;
            k += judge(&w("from_elem().map"), res, trap(|| look_expr(&expr::from_elem(sh.clone(), 1u8).map(|x| x))), s, n)?;
            k += judge(&w("zip of both"), res, trap(|| look_expr(&expr::from_elem(sh.clone(), 1u8).zip(expr::from_fn(sh.clone(), |_| 1u8)))), s, n)?;
            if n > 0 {
                // only the remaining length is asked for
                k += judge(&w("from_fn iterator"), res, trap(|| {
                    let it = expr::from_fn(sh.clone(), |_| 1u8).into_iter();
                    let (a, b) = it.size_hint();
                    assert!(b == Some(a) && it.len() == a, "size hint");
                    Got { dims: s.to_vec(), len: a, empty: a == 0 }
                }), s, n)?;
            }
            if res == "yes" {
                k += judge(&w("shape"), res, trap(|| look_shape(&sh.clone().into_shape())), s, n)?;
            }
        }
        "make" => {
            let none = |g: Option<Got>, what: &str| -> Result<Option<Got>, String> {
                if res == "no" && calls() > 0 {
                    return Err(format!("{}: elements were made for a request that must be refused", w(what)));
                }
                Ok(g)
            };
            let g = trap(|| look(&*Tensor::<u64, S>::from_fn(sh.clone(), |_| { made(); 1 })));
            k += judge(&w("Tensor::from_fn"), res, none(g, "Tensor::from_fn")?, s, n)?;
            reset();
            let g = trap(|| look(&*Tensor::<E, S>::from_elem(sh.clone(), E(1))));
            k += judge(&w("Tensor::from_elem"), res, none(g, "Tensor::from_elem")?, s, n)?;
            reset();
            let g = trap(|| look(&*<Tensor<E, S> as expr::FromExpression<E, S>>::from_expr(expr::from_elem(sh.clone(), E(1)))));
            k += judge(&w("Tensor::from_expr"), res, none(g, "Tensor::from_expr")?, s, n)?;
            reset();
            let g = trap(|| look(&*<Tensor<E, S> as expr::FromExpression<E, S>>::from_expr(expr::from_fn(sh.clone(), |_| E(0)).map(|x| { made(); x }))));
            k += judge(&w("Tensor::from_expr(map)"), res, none(g, "Tensor::from_expr(map)")?, s, n)?;
            reset();
            // appended to an array that is empty, and to one that is not
            let mut t = Tensor::<E, S>::from_elem(S::from_dims(&vec![0; s.len()]).dyn_or(sh.clone()), E(1));
            let ok = trap(|| t.expand(expr::from_elem(sh.clone(), E(1)))).is_some();
            if ok {
                // nothing is appended by an expression without elements
                if n > 0 {
                    k += judge(&w("expand"), res, Some(look(&*t)), s, n)?;
                }
            } else if res == "yes" {
                return Err(w("expand of an empty array panicked"));
            } else if look(&*t).len != 0 {
                return Err(w("a refused expand changed the array"));
            }
        }
        _ => return Err(format!("op {op}")),
    }
    Ok(k)
}
/// helper to name the shape of the request's own type
trait DynOr: Shape {
    fn dyn_or<I: IntoShape<IntoShape = Self>>(self, _: I) -> Self {
        self
    }
}
impl<S: Shape> DynOr for S {}

fn lanes<S: Shape, I: IntoShape<IntoShape = S>>(kind: &str, res: &str, sh: I, s: &[usize], n: u128) -> Result<u64, String> {
    let mut k = 0;
    let w = |x: &str| format!("{kind}: {x} along axis 0 of an array of shape [0] + {s:?}");
    // the array itself is empty
    let Some(mut t) = trap(|| Tensor::<u64, S>::from_fn(sh, |_| 0)) else { return Ok(0) };
    k += judge(&w("lanes"), res, trap(|| look_expr(&t.lanes(Const::<0>))), s, n)?;
    k += judge(&w("lanes_mut"), res, trap(|| look_expr(&t.lanes_mut(Const::<0>))), s, n)?;
    k += judge(&w("dynamic lanes"), res, trap(|| look_expr(&t.lanes(0usize))), s, n)?;
    k += judge(&w("dynamic lanes_mut"), res, trap(|| look_expr(&t.lanes_mut(0usize))), s, n)?;
    let v = t.expr();
    k += judge(&w("lanes of a strided view"), res, trap(|| look_expr(&v.remap::<S, Strided>().lanes(Const::<0>))), s, n)?;
    Ok(k)
}

fn append<S: Shape>(kind: &str, res: &str, s: &[usize]) -> Result<u64, String> {
    // units need no memory: any length can exist
    let mk = |d: &[usize]| unsafe { Tensor::<(), S>::from_raw_parts(std::ptr::dangling_mut(), DenseMapping::new(S::from_dims(d)), usize::MAX) };
    let (mut a, mut b) = (mk(s), mk(s));
    let n: usize = s.iter().product();
    if res == "no" {
        if trap(|| a.append(&mut b)).is_some() {
            return Err(format!("{kind}: append gave {:?}: the length overflows", look(&*a)));
        }
        // what remains of the target is valid
        let g = look(&*a);
        let len = g.dims.iter().try_fold(1usize, |x, &y| x.checked_mul(y));
        if len != Some(g.len) || g.len > n {
            return Err(format!("{kind}: refused append left {g:?}"));
        }
        let mut c = mk(s);
        if trap(|| c.expand(expr::from_elem(S::from_dims(s).dims_or(), ()))).is_some() {
            return Err(format!("{kind}: expand gave {:?}: the length overflows", look(&*c)));
        }
        return Ok(2);
    }
    Ok(0)
}
/// shapes as arguments
trait DimsOr: Shape {
    fn dims_or(self) -> DynRank {
        DynRank::from_dims(&(0..self.rank()).map(|i| self.dim(i)).collect::<Vec<_>>())
    }
}
impl<S: Shape> DimsOr for S {}

fn resize<S: Shape>(kind: &str, res: &str, d: &[usize], s: &[usize], n: u128) -> Result<u64, String> {
    let mut k = 0;
    let old: Vec<E> = (0..d.iter().product::<usize>()).map(|x| E(x as u64)).collect();
    for form in 0..2 {
        let what = format!("{kind}: {} from {d:?} to {s:?}", ["resize_with", "resize"][form]);
        reset();
        let mut t: Tensor<E, S> = tensor(d, &old);
        reset();
        let ok = trap(|| {
            if form == 0 {
                t.resize_with(s, || { made(); E(7) })
            } else {
                t.resize(s, E(7))
            }
        })
        .is_some();
        if res == "no" && calls() > 0 {
            return Err(format!("{what}: elements were made for a request that must be refused"));
        }
        if ok {
            k += judge(&what, res, Some(look(&*t)), s, n)?;
        } else {
            k += judge(&what, res, None, s, n)?;
            let g = look(&*t);
            if g.dims != d || t.expr().into_iter().map(|x| x.0).ne(0..old.len() as u64) {
                return Err(format!("{what}: refused, but the array became {g:?}"));
            }
        }
    }
    Ok(k)
}

fn reshape<S: Shape, R: Shape, I: IntoShape<IntoShape = R> + Clone>(kind: &str, res: &str, d: &[usize], sh: I, s: &[usize], n: u128) -> Result<u64, String> {
    let mut k = 0;
    let w = |x: &str| format!("{kind}: {x} from {d:?}");
    let old: Vec<u64> = (0..d.iter().product::<usize>()).map(|x| x as u64).collect();
    let mk = || -> Tensor<u64, S> { tensor(d, &old) };
    let mut t = mk();
    fn same<S: Shape, L: Layout>(x: &Slice<u64, S, L>) -> Got {
        let g = look(x);
        assert!(x.expr().into_iter().cloned().eq(0..g.len as u64), "elements");
        g
    }
    k += judge(&w("reshape"), res, trap(|| same(&t.reshape(sh.clone()))), s, n)?;
    k += judge(&w("reshape_mut"), res, trap(|| same(&t.reshape_mut(sh.clone()))), s, n)?;
    k += judge(&w("into_shape"), res, trap(|| same(&mk().into_shape(sh.clone()))), s, n)?;
    k += judge(&w("View::into_shape"), res, trap(|| same(&t.expr().into_shape(sh.clone()))), s, n)?;
    k += judge(&w("ViewMut::into_shape"), res, trap(|| same(&t.expr_mut().into_shape(sh.clone()))), s, n)?;
    let mut st = Store::new(d, &old, 0, |_| 99u64);
    k += judge(&w("strided reshape"), res, trap(|| same(&st.strided::<S>().reshape(sh.clone()))), s, n)?;
    k += judge(&w("strided reshape_mut"), res, trap(|| same(&st.strided_mut::<S>().reshape_mut(sh.clone()))), s, n)?;
    if !t.expr().into_iter().cloned().eq(old.iter().cloned()) || look(&*t).dims != d {
        return Err(w("the reshaped array itself changed"));
    }
    Ok(k)
}

macro_rules! nest {
    ($s:expr, $res:expr, $n:expr; $(($($e:literal),+) $v:expr, $v2:expr, ($($d:ident),+);)*) => {$(
        if $s == [$(1usize << $e),+] {
            let mut k = 0;
            k += judge("Tensor from a nested array", $res, trap(|| look(&*Tensor::<(), ($($d,)+)>::from($v))), $s, $n)?;
            k += judge("Tensor of constant shape from a nested array", $res,
                       trap(|| look(&*Tensor::<(), ($(Const<{ 1 << $e }>,)+)>::from($v))), $s, $n)?;
            k += judge("View of a nested array", $res, trap(|| look(&*View::<(), ($($d,)+)>::from(&$v))), $s, $n)?;
            k += judge("ViewMut of a nested array", $res, trap(|| look(&*ViewMut::<(), ($($d,)+)>::from(&mut $v))), $s, $n)?;
            k += judge("Array of a nested array", $res, trap(|| {
                let mut a: Array<(), ($(Const<{ 1 << $e }>,)+)> = Array::from($v);
                let g = look(&a);
                look(a.expr_mut().as_mut());
                g
            }), $s, $n)?;
            k += judge("into_expr of an Array", $res, trap(|| {
                let a: Array<(), ($(Const<{ 1 << $e }>,)+)> = Array::from($v);
                look_expr(&std::mem::ManuallyDrop::new(expr::IntoExpression::into_expr(a)) as &expr::IntoExpr<_>)
            }), $s, $n)?;
            return Ok(k);
        }
    )*};
}

fn replay(c: &Value, _: u64, _: &mut Rng) -> Result<u64, String> {
    let (op, res) = (c["op"].as_str().unwrap(), c["res"].as_str().unwrap());
    let d = usizes(&c["d"]);
    let s: Vec<usize> = c["s"].as_array().unwrap().iter().map(|x| num(x) as usize).collect();
    let n = num(&c["n"]);
    let fail = |m: String| format!("{op}({res}): {m}");
    let dynrank = || DynRank::from_dims(&s);
    let mut k = 0;
    match op {
        "lazy" | "make" => {
            k += match s[..] {
                [a] => new_ops("rank 1", op, res, [a], &s, n).map_err(fail)? + new_ops("rank 1 tuple", op, res, (a,), &s, n).map_err(fail)?,
                [a, b] => new_ops("rank 2", op, res, [a, b], &s, n).map_err(fail)?,
                [a, b, e] => new_ops("rank 3", op, res, [a, b, e], &s, n).map_err(fail)?,
                _ => return Err("rank".into()),
            };
            k += new_ops("dynamic rank", op, res, dynrank(), &s, n).map_err(fail)?;
        }
        "lanes" => {
            k += lanes("rank 3", res, [0, s[0], s[1]], &s, n).map_err(fail)?;
            k += lanes("dynamic rank", res, DynRank::from_dims(&[0, s[0], s[1]]), &s, n).map_err(fail)?;
        }
        "append" => {
            k += append::<(D, D)>("rank 2", res, &s).map_err(fail)? + append::<DynRank>("dynamic rank", res, &s).map_err(fail)?;
        }
        "nest" => {
            nest!(&s[..], res, n;
                (32) [(); 1 << 32], 0, (D);
                (63) [(); 1 << 63], 0, (D);
                (31, 32) [[(); 1 << 32]; 1 << 31], 0, (D, D);
                (32, 32) [[(); 1 << 32]; 1 << 32], 0, (D, D);
                (1, 63) [[(); 1 << 63]; 2], 0, (D, D);
                (63, 1) [[(); 2]; 1 << 63], 0, (D, D);
                (1, 31, 31) [[[(); 1 << 31]; 1 << 31]; 2], 0, (D, D, D);
                (32, 16, 16) [[[(); 1 << 16]; 1 << 16]; 1 << 32], 0, (D, D, D);
                (16, 32, 16) [[[(); 1 << 16]; 1 << 32]; 1 << 16], 0, (D, D, D);
                (16, 16, 16, 16) [[[[(); 1 << 16]; 1 << 16]; 1 << 16]; 1 << 16], 0, (D, D, D, D);
                (16, 16, 16, 1) [[[[(); 2]; 1 << 16]; 1 << 16]; 1 << 16], 0, (D, D, D, D);
                (1, 16, 16, 16, 16) [[[[[(); 1 << 16]; 1 << 16]; 1 << 16]; 1 << 16]; 2], 0, (D, D, D, D, D);
                (1, 1, 16, 16, 16, 16) [[[[[[(); 1 << 16]; 1 << 16]; 1 << 16]; 1 << 16]; 2]; 2], 0, (D, D, D, D, D, D);
            );
            return Err(format!("no nested array of shape {s:?}"));
        }
        "resize" => {
            k += match s.len() {
                1 => resize::<(D,)>("rank 1", res, &d, &s, n),
                2 => resize::<(D, D)>("rank 2", res, &d, &s, n),
                _ => resize::<(D, D, D)>("rank 3", res, &d, &s, n),
            }
            .map_err(fail)?;
            k += resize::<DynRank>("dynamic rank", res, &d, &s, n).map_err(fail)?;
        }
        _ => {
            // reshape, or with one dimension open
            let (mut a, mut want, mut n) = (s.clone(), s.clone(), n);
            if let Some(i) = op.strip_prefix("infer") {
                let i = i.parse::<usize>().unwrap() - 1;
                let have: u128 = d.iter().map(|&x| x as u128).product();
                a[i] = usize::MAX;
                n = have;
                let rest: u128 = (0..s.len()).filter(|&j| j != i).fold(1u128, |p, j| p.saturating_mul(s[j] as u128));
                want[i] = if rest == 0 { 0 } else { (have / rest) as usize };
            }
            fn all<R: Shape, I: IntoShape<IntoShape = R> + Clone>(kind: &str, res: &str, d: &[usize], sh: I, s: &[usize], n: u128) -> Result<u64, String> {
                let a = match d.len() {
                    1 => reshape::<(D,), R, I>(kind, res, d, sh.clone(), s, n)?,
                    2 => reshape::<(D, D), R, I>(kind, res, d, sh.clone(), s, n)?,
                    _ => reshape::<(D, D, D), R, I>(kind, res, d, sh.clone(), s, n)?,
                };
                Ok(a + reshape::<DynRank, R, I>(kind, res, d, sh, s, n)?)
            }
            k += match a[..] {
                [x] => all("to rank 1", res, &d, [x], &want, n),
                [x, y] => all("to rank 2", res, &d, [x, y], &want, n),
                [x, y, z] => all("to rank 3", res, &d, [x, y, z], &want, n),
                _ => return Err("rank".into()),
            }
            .map_err(fail)?;
            k += all("to dynamic rank", res, &d, DynRank::from_dims(&a), &want, n).map_err(fail)?;
        }
    }
    Ok(k)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args[0].as_str() {
        "replay" => replay_main(&args[1..], replay),
        m => panic!("mode {m}"),
    }
}
