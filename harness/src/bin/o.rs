//! Owning operations (specification: Own.tla).
//!   replay  every case: outcome, contents, identities, conservation, storage
//!   fault   every case with a panic injected at every call of user code
//!   record  random histories, for OwnTrace.tla
use harness::own::*;
use harness::serde_json::{Value, json};
use harness::{Progress, Rng, quiet_panics, replay_main, usizes};
use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::{Array, Const, ConstShape, DenseMapping, Dyn, DynRank, Mapping, Rank, Shape, Slice, Tensor};
use std::borrow::Borrow;
use std::io::Write;
use std::marker::PhantomData;
use std::mem;

#[global_allocator]
static ALLOC: Checked = Checked;

#[derive(Clone, Debug)]
struct Op {
    o: String,
    n: Vec<i64>,
    k: usize,
    m: String,
}
impl Op {
    fn dims(&self) -> Vec<usize> {
        self.n.iter().map(|&x| x as usize).collect()
    }
}

struct Out<E: Elem> {
    r: &'static str,
    a: Option<Box<dyn Obj<E>>>,
    b: Option<Box<dyn Obj<E>>>,
    out: Vec<E>,
}
type Ob<E> = Option<Box<dyn Obj<E>>>;

fn bx<E: Elem>(o: impl Obj<E> + 'static) -> Ob<E> {
    Some(Box::new(o))
}
fn obj<E: Elem, S: Shape + 'static>(b: Option<Tensor<E, S>>) -> Ob<E> {
    b.map(|x| Box::new(x) as Box<dyn Obj<E>>)
}
fn held<E: Elem, S: Shape + 'static, O: Borrow<Slice<E, S>> + 'static>(o: O) -> Ob<E> {
    Some(Box::new(Held::<O, S>(o, PhantomData)))
}
fn res<E: Elem>(ok: bool, a: Ob<E>, b: Ob<E>) -> Out<E> {
    Out { r: if ok { "ok" } else { "panic" }, a, b, out: vec![] }
}
fn made<E: Elem>() -> E {
    tick();
    E::make(9000)
}

const OVERFLOW: [&[usize]; 8] = [
    &[1 << 32, 1 << 32],
    &[1 << 33, 1 << 33],
    &[2, (1 << 63) + 1],
    &[3, 0x5555_5555_5555_5556],
    &[1 << 60],
    &[1 << 22, 1 << 22, 1 << 22],
    &[1 << 32, 1, 1 << 32],
    &[1 << 63, 2, 1],
];

struct Bounds(std::ops::Bound<usize>, std::ops::Bound<usize>);
impl std::ops::RangeBounds<usize> for Bounds {
    fn start_bound(&self) -> std::ops::Bound<&usize> {
        self.0.as_ref()
    }
    fn end_bound(&self) -> std::ops::Bound<&usize> {
        self.1.as_ref()
    }
}
/// showing a partly consumed iterator is refused or shows live elements only
fn peek<I: ExactSizeIterator + std::fmt::Debug>(it: &I, n: usize, k: usize) {
    quiet(|| {
        if it.len() != n - k {
            err(format!("{} elements left after {k} of {n}", it.len()));
        }
        let m = shown();
        if trap(|| format!("{it:?}")).is_some() && shown() > m + (n - k) as u64 {
            err(format!("{} elements shown with {} left", shown() - m, n - k));
        }
    });
}
/// a copy of it is refused or has the remaining elements
fn twin<E: Elem, I: ExactSizeIterator<Item = E> + Clone>(it: &I, n: usize) {
    quiet(|| {
        if let Some(c) = trap(|| it.clone()) {
            let v: Vec<E> = c.collect();
            if v.len() != n || v.iter().any(|x| !x.ok()) {
                err(format!("copy of an iterator with {n} elements left has {}", v.len()));
            }
        }
    });
}
fn over<I: ExactSizeIterator>(it: &mut I) {
    for _ in 0..2 {
        if it.next().is_some() || it.len() != 0 {
            err("elements after the last one".into());
        }
    }
}
fn bounds(op: &Op, excl: bool) -> Bounds {
    use std::ops::Bound::*;
    let s = match op.n[0] {
        x if x < 0 => Unbounded,
        x if excl && x > 0 => Excluded(x as usize - 1),
        x => Included(x as usize),
    };
    let t = match op.n[1] {
        x if x < 0 => Unbounded,
        x if op.m == "incl" => Included(x as usize),
        x => Excluded(x as usize),
    };
    Bounds(s, t)
}

/// Operations on one owning tensor, and those on two of the same type.
/// `var` selects among equivalent ways to ask for the same thing.
fn exec<E: Elem, S: Shape + 'static>(op: &Op, mut a: Tensor<E, S>, mut b: Option<Tensor<E, S>>, var: usize) -> Option<Out<E>>
where
    S::Owned<E>: 'static,
{
    let k = op.k;
    let mut out: Vec<E> = vec![];
    let m = op.m.as_str();
    Some(match op.o.as_str() {
        "resize" => {
            let fill = E::make(300);
            let ok = trap(|| a.resize(&op.dims(), fill)).is_some();
            res(ok, bx(a), obj(b))
        }
        "resize_with" => {
            let ok = trap(|| a.resize_with(&op.dims(), made)).is_some();
            res(ok, bx(a), obj(b))
        }
        "truncate" => {
            let ok = trap(|| a.truncate(k)).is_some();
            res(ok, bx(a), obj(b))
        }
        "clear" => {
            let ok = trap(|| a.clear()).is_some();
            res(ok, bx(a), obj(b))
        }
        "drain" => {
            let ok = trap(|| {
                let d = a.drain(bounds(op, var == 1));
                if m == "forget" && var == 1 && k == 0 {
                    mem::forget(d);
                    return;
                }
                if var == 1 && k == 0 {
                    drop(d);
                    return;
                }
                if var == 1 && k == d.len() && m != "forget" {
                    d.for_each(|x| out.push(x));
                    return;
                }
                let n = d.len();
                let mut it = d.into_iter();
                for j in 0..k {
                    peek(&it, n, j);
                    out.push(it.next().expect("drain ended early"));
                }
                if k == n {
                    over(&mut it);
                }
                peek(&it, n, k);
                if m == "forget" {
                    mem::forget(it);
                }
            })
            .is_some();
            Out { out, ..res(ok, bx(a), obj(b)) }
        }
        "drain_eval" => {
            let t: Option<Tensor<E, S>> = trap(|| {
                let d = a.drain(bounds(op, var == 1));
                if m == "map" {
                    <Tensor<E, S> as FromExpression<E, S>>::from_expr(d.map(|x| {
                        tick();
                        drop(x);
                        E::make(9000)
                    }))
                } else {
                    <Tensor<E, S> as FromExpression<E, S>>::from_expr(d)
                }
            });
            res(t.is_some(), bx(a), t.and_then(bx))
        }
        "drain_into" => {
            let b1 = b.as_mut()?;
            let ok = trap(|| {
                let d = a.drain(bounds(op, var == 1));
                match (m, var) {
                    ("expand", 0) => b1.expand(d),
                    ("expand", _) => _ = d.eval_into(b1),
                    (_, 0) => b1.assign(d),
                    _ => b1.expr_mut().assign(d),
                }
            })
            .is_some();
            res(ok, bx(a), obj(b))
        }
        "with_capacity" => {
            let t = trap(|| Tensor::<E, S>::with_capacity(k));
            if let Some(t) = &t
                && t.capacity() < k
            {
                err(format!("with_capacity({k}) gives {}", t.capacity()));
            }
            res(t.is_some(), bx(a), t.and_then(bx))
        }
        "default" => {
            let t = trap(|| if var == 1 { Tensor::<E, S>::new() } else { Tensor::<E, S>::default() });
            res(t.is_some(), bx(a), t.and_then(bx))
        }
        "into_iter" => {
            let ok = trap(|| match m {
                "fold" if var == 1 => a.into_iter().for_each(|x| {
                    tick();
                    out.push(x)
                }),
                "fold" => a.into_expr().for_each(|x| {
                    tick();
                    out.push(x)
                }),
                _ => {
                    if var == 1 && k == 0 {
                        let e = a.into_expr();
                        if m == "forget" {
                            mem::forget(e);
                        }
                        return;
                    }
                    let n = a.len();
                    let mut it = a.into_iter();
                    for j in 0..k {
                        peek(&it, n, j);
                        twin(&it, n - j);
                        out.push(it.next().expect("iterator ended early"));
                    }
                    if k == n {
                        over(&mut it);
                    }
                    peek(&it, n, k);
                    twin(&it, n - k);
                    if m == "forget" {
                        mem::forget(it);
                    }
                }
            })
            .is_some();
            Out { out, ..res(ok, None, obj(b)) }
        }
        "into_vec" => {
            let t = trap(|| a.into_vec());
            res(t.is_some(), t.and_then(bx), obj(b))
        }
        "into_flat" => {
            let t = trap(|| a.into_flat());
            res(t.is_some(), t.and_then(bx), obj(b))
        }
        "into_dyn" => {
            let t = trap(|| a.into_dyn());
            res(t.is_some(), t.and_then(bx), obj(b))
        }
        "raw_parts" => {
            let (p, c, d) = (a.as_ptr(), a.capacity(), a.shape().clone());
            let t = trap(|| {
                let (p2, map, c2) = a.into_raw_parts();
                if p2 as *const E != p || (c2 != c && !E::ZST) || *map.shape() != d {
                    err(format!("raw parts ({p2:?}, {map:?}, {c2}) of a tensor reporting ({p:?}, {d:?}, {c})"));
                }
                unsafe { Tensor::from_raw_parts(p2, map, c2) }
            });
            res(t.is_some(), t.and_then(bx), obj(b))
        }
        "into_expr_eval" => {
            let t = trap(|| if var == 1 { a.into_expr().eval() } else { S::Owned::<E>::from_expr(a.into_expr()) });
            res(t.is_some(), t.and_then(held::<E, S, _>), obj(b))
        }
        "into_buffer" => {
            let n = a.len();
            let t = trap(|| {
                let mut e = a.into_expr();
                let s: &Slice<E, S> = e.as_ref();
                if s.len() != n || s.expr().into_iter().any(|x| !x.ok()) {
                    err("elements of an unconsumed expression are wrong".into());
                }
                let s: &mut Slice<E, S> = e.as_mut();
                if s.len() != n || s.expr_mut().into_iter().any(|x| !x.ok()) {
                    err("elements of an unconsumed expression are wrong".into());
                }
                <Tensor<E, S> as FromExpression<E, S>>::from_expr(e)
            });
            res(t.is_some(), t.and_then(bx), obj(b))
        }
        "into_scalar" => {
            let t = trap(|| a.into_scalar());
            let ok = t.is_some();
            Out { out: t.into_iter().collect(), ..res(ok, None, obj(b)) }
        }
        "drop" => {
            let ok = trap(|| drop(a)).is_some();
            res(ok, None, obj(b))
        }
        "into_shape" => {
            let n = op.dims();
            let t: Option<Box<dyn Obj<E>>> = trap(|| match (n.len(), var) {
                (0, 0) => Box::new(a.into_shape([])) as Box<dyn Obj<E>>,
                (1, 0) => Box::new(a.into_shape([n[0]])),
                (2, 0) => Box::new(a.into_shape([n[0], n[1]])),
                (3, 0) => Box::new(a.into_shape([n[0], n[1], n[2]])),
                _ => Box::new(a.into_shape(&n[..])),
            });
            res(t.is_some(), t, obj(b))
        }
        "into_mapping" => {
            let t: Option<Box<dyn Obj<E>>> = trap(|| match op.n.len() {
                0 => Box::new(a.into_mapping::<Rank<0>>()) as Box<dyn Obj<E>>,
                1 => Box::new(a.into_mapping::<Rank<1>>()),
                2 => Box::new(a.into_mapping::<Rank<2>>()),
                3 => Box::new(a.into_mapping::<Rank<3>>()),
                _ => Box::new(a.into_mapping::<Rank<4>>()),
            });
            res(t.is_some(), t, obj(b))
        }
        "clone" => {
            let t = trap(|| a.clone());
            res(t.is_some(), bx(a), t.and_then(bx))
        }
        "expr_clone" => {
            // cloning an unconsumed consuming expression
            let e = a.into_expr();
            let t = trap(|| e.clone());
            let back = |e| bx(<Tensor<E, S> as FromExpression<E, S>>::from_expr(e));
            res(t.is_some(), back(e), t.and_then(back))
        }
        "expr_clone_from" => {
            let b1 = b.take()?;
            let (mut e, s) = (a.into_expr(), b1.into_expr());
            let ok = trap(|| e.clone_from(&s)).is_some();
            let back = |e| bx(<Tensor<E, S> as FromExpression<E, S>>::from_expr(e));
            res(ok, back(e), back(s))
        }
        "to_tensor" => {
            let t = trap(|| a.to_tensor());
            res(t.is_some(), bx(a), t.and_then(bx))
        }
        "to_owned" => {
            let t = trap(|| (*a).to_owned());
            res(t.is_some(), bx(a), t.and_then(held::<E, S, _>))
        }
        "to_vec" => {
            let t = trap(|| a.to_vec());
            res(t.is_some(), bx(a), t.and_then(bx))
        }
        "map" => {
            let t = trap(|| {
                a.map(|x| {
                    tick();
                    let y = E::make(9000);
                    drop(x);
                    y
                })
            });
            res(t.is_some(), t.and_then(bx), obj(b))
        }
        "apply" => {
            let t = trap(|| {
                a.apply(|x| {
                    let y = E::make(9000);
                    drop(x);
                    tick();
                    y
                })
            });
            res(t.is_some(), t.and_then(bx), obj(b))
        }
        "fill" => {
            let fill = E::make(300);
            let ok = trap(|| a.fill(fill)).is_some();
            res(ok, bx(a), obj(b))
        }
        "fill_with" => {
            let ok = trap(|| if var == 1 { std::borrow::BorrowMut::<Slice<E, S>>::borrow_mut(&mut a).fill_with(made) } else { a.fill_with(made) }).is_some();
            res(ok, bx(a), obj(b))
        }
        "contains" => {
            let x = E::make(-5);
            let ok = trap(|| {
                if a.contains(&x) != (E::ZST && !a.is_empty()) {
                    err("contains a value that is not there".into());
                }
            })
            .is_some();
            res(ok, bx(a), obj(b))
        }
        "from_fn" => {
            let t = trap(|| Tensor::<E, S>::from_fn(S::from_dims(&op.dims()), |_| made()));
            res(t.is_some(), bx(a), t.and_then(bx))
        }
        "from_elem" => {
            let fill = E::make(300);
            let t = trap(|| Tensor::<E, S>::from_elem(S::from_dims(&op.dims()), fill));
            res(t.is_some(), bx(a), t.and_then(bx))
        }
        "from_expr" => {
            let t = trap(|| <Tensor<E, S> as FromExpression<E, S>>::from_expr(a.expr().map(|_| made())));
            res(t.is_some(), bx(a), t.and_then(bx))
        }
        "reserve" => {
            let ok = trap(|| a.reserve(k)).is_some();
            res(ok, bx(a), obj(b))
        }
        "reserve_exact" => {
            let ok = trap(|| a.reserve_exact(k)).is_some();
            res(ok, bx(a), obj(b))
        }
        "reserve_huge" => {
            if E::ZST {
                return None;
            }
            let ok = trap(|| if var == 1 { a.reserve_exact(usize::MAX) } else { a.reserve(usize::MAX / 2 + 1) }).is_some();
            res(ok, bx(a), obj(b))
        }
        "try_reserve" => {
            if m == "huge" && E::ZST {
                return None;
            }
            let k = if m == "huge" { usize::MAX / (1 + var) } else { k };
            let r = trap(|| if var == 1 { a.try_reserve_exact(k) } else { a.try_reserve(k) });
            let s = match r {
                None => "panic",
                Some(Ok(())) => "ok",
                Some(Err(_)) => "err",
            };
            Out { r: s, ..res(true, bx(a), obj(b)) }
        }
        "shrink_to" => {
            let ok = trap(|| a.shrink_to(k)).is_some();
            res(ok, bx(a), obj(b))
        }
        "shrink_to_fit" => {
            let ok = trap(|| a.shrink_to_fit()).is_some();
            res(ok, bx(a), obj(b))
        }
        "spare" => {
            let ok = trap(|| {
                let row: usize = (1..a.rank()).map(|i| a.dim(i)).product();
                let add = if a.rank() > 0 { row * k } else { 0 };
                if a.capacity() - a.len() < add {
                    a.reserve(add);
                }
                let (p, n, c) = (a.as_ptr(), a.len(), a.capacity());
                let s = a.spare_capacity_mut();
                if s.len() != c - n || s.as_ptr() as usize != unsafe { p.add(n) } as usize {
                    err(format!("spare capacity of {} at offset {:?}, expected {} at {n}", s.len(), (s.as_ptr() as usize).wrapping_sub(p as usize), c - n));
                }
                if a.rank() > 0 && k > 0 {
                    for x in a.spare_capacity_mut()[..add].iter_mut() {
                        _ = x.write(E::make(9000));
                    }
                    let mut d: Vec<usize> = (0..a.rank()).map(|i| a.dim(i)).collect();
                    d[0] += k;
                    unsafe { a.set_mapping(DenseMapping::new(S::from_dims(&d))) };
                }
            })
            .is_some();
            res(ok, bx(a), obj(b))
        }
        "overflow" => {
            let d = OVERFLOW[k];
            if size_of::<E>() < 8 && k == 4 {
                return None;
            }
            let rank = d.len();
            if m == "into_shape" {
                let ok = trap(|| match (rank, var) {
                    (1, 0) => drop(a.into_shape([d[0]])),
                    (2, 0) => drop(a.into_shape([d[0], d[1]])),
                    (3, 0) => drop(a.into_shape([d[0], d[1], d[2]])),
                    _ => drop(a.into_shape(d)),
                })
                .is_some();
                return Some(res(ok, None, obj(b)));
            }
            let f = |_: &[usize]| -> E { E::make(0) };
            let ok = match (m, var) {
                ("resize", 0) => {
                    let fill = E::make(300);
                    trap(|| a.resize(d, fill)).is_some()
                }
                ("resize", _) => trap(|| a.resize_with(d, || E::make(0))).is_some(),
                ("from_fn", 0) => trap(|| match rank {
                    1 => mem::forget(Tensor::from_fn([d[0]], f)),
                    2 => mem::forget(Tensor::from_fn([d[0], d[1]], f)),
                    _ => mem::forget(Tensor::from_fn([d[0], d[1], d[2]], f)),
                })
                .is_some(),
                ("from_fn", _) => trap(|| mem::forget(Tensor::from_fn(d, f))).is_some(),
                ("from_elem", 0) => {
                    let fill = E::make(300);
                    trap(|| match rank {
                        1 => mem::forget(Tensor::from_elem([d[0]], fill)),
                        2 => mem::forget(Tensor::from_elem([d[0], d[1]], fill)),
                        _ => mem::forget(Tensor::from_elem([d[0], d[1], d[2]], fill)),
                    })
                    .is_some()
                }
                ("from_elem", _) => {
                    let fill = E::make(300);
                    trap(|| mem::forget(Tensor::from_elem(d, fill))).is_some()
                }
                // expressions without storage: the element count alone must fit
                _ if k == 4 => return None,
                ("fill", 0) => {
                    let fill = E::make(300);
                    trap(|| mem::forget(expr::from_elem(d, fill))).is_some()
                }
                _ => trap(|| mem::forget(expr::from_fn(d, f))).is_some(),
            };
            res(ok, bx(a), obj(b))
        }
        // ---- two of a kind
        "append" => {
            let b1 = b.as_mut()?;
            let ok = trap(|| a.append(b1)).is_some();
            res(ok, bx(a), obj(b))
        }
        "clone_from" => {
            let b1 = b.as_ref()?;
            let ok = trap(|| a.clone_from(b1)).is_some();
            res(ok, bx(a), obj(b))
        }
        "clone_into" => {
            let b1 = b.as_ref()?;
            let f = arm_save();
            let mut t: S::Owned<E> = a.into_expr().eval();
            arm(f);
            let ok = trap(|| (**b1).clone_into(&mut t)).is_some();
            res(ok, held::<E, S, _>(t), obj(b))
        }
        "replace" => {
            let b1 = b?;
            let ok = trap(|| a = b1).is_some();
            res(ok, bx(a), None)
        }
        "swap" => {
            let ok = trap(|| mem::swap(&mut a, b.as_mut().unwrap())).is_some();
            res(ok, bx(a), obj(b))
        }
        _ => return pair(op, a, b?, var),
    })
}
/// the armed fault, while the harness itself uses the library
fn arm_save() -> u64 {
    FAULT.with(|f| f.get())
}
thread_local! { static FAULT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }

/// Operations on two tensors of possibly different shape types.
fn pair<E: Elem, S: Shape + 'static, R: Shape + 'static>(op: &Op, mut a: Tensor<E, S>, b: Tensor<E, R>, var: usize) -> Option<Out<E>> {
    let m = op.m.as_str();
    let f1 = |(x, y): (E, &E)| {
        if !x.ok() || !y.ok() {
            err("closure given a dead element".into());
        }
        tick();
        E::make(9000)
    };
    let f2 = |(x, y): (E, E)| {
        if !x.ok() || !y.ok() {
            err("closure given a dead element".into());
        }
        let z = E::make(9000);
        tick();
        z
    };
    Some(match (op.o.as_str(), m) {
        ("expand", "ref") => {
            let ok = trap(|| if var == 1 { _ = b.expr().cloned().eval_into(&mut a) } else { a.expand(&b) }).is_some();
            res(ok, bx(a), bx(b))
        }
        ("expand", "val") => {
            let ok = trap(|| if var == 1 { _ = b.into_expr().eval_into(&mut a) } else { a.expand(b) }).is_some();
            res(ok, bx(a), None)
        }
        ("expand", _) => {
            let ok = trap(|| a.expand(b.expr().map(|_| made::<E>()))).is_some();
            res(ok, bx(a), bx(b))
        }
        ("assign", "ref") => {
            let ok = trap(|| if var == 1 { a.expr_mut().assign(&b) } else { a.assign(&b) }).is_some();
            res(ok, bx(a), bx(b))
        }
        ("assign", _) => {
            let ok = trap(|| a.assign(b)).is_some();
            res(ok, bx(a), None)
        }
        ("zip_with", "ref") => {
            let t = trap(|| Apply::<E>::zip_with(a, &b, f1));
            res(t.is_some(), t.and_then(bx), bx(b))
        }
        ("zip_with", _) => {
            let t = trap(|| Apply::<E>::zip_with(a, b, f2));
            res(t.is_some(), t.and_then(bx), None)
        }
        ("zip_iter", _) => {
            let mut out: Vec<E> = vec![];
            let ok = trap(|| {
                let n = a.len();
                let z = if var == 1 { expr::zip(a, b) } else { a.into_expr().zip(b) };
                if m == "fold" {
                    z.for_each(|(x, y)| {
                        tick();
                        out.push(x);
                        out.push(y);
                    });
                    return;
                }
                let mut it = z.into_iter();
                for j in 0..op.k {
                    if it.len() != n - j {
                        err(format!("{} pairs left after {j} of {n}", it.len()));
                    }
                    let (x, y) = it.next().expect("iterator ended early");
                    out.push(x);
                    out.push(y);
                }
                if op.k == n {
                    over(&mut it);
                }
                if m == "forget" {
                    mem::forget(it);
                }
            })
            .is_some();
            Out { out, ..res(ok, None, None) }
        }
        ("eq", _) => {
            let ok = trap(|| {
                let d = a.rank() == b.rank() && (0..a.rank()).all(|i| a.dim(i) == b.dim(i));
                let vals = |s: &[E]| s.iter().map(|x| x.v()).collect::<Vec<_>>();
                let e = a == b;
                if e != (d && vals(&a[..]) == vals(&b[..])) {
                    err(format!("comparison gave {e}"));
                }
            })
            .is_some();
            res(ok, bx(a), bx(b))
        }
        _ => return None,
    })
}

/// Operations of one-dimensional tensors.
fn flat<E: Elem>(op: &Op, mut a: Tensor<E, (Dyn,)>, b: Option<Tensor<E, (Dyn,)>>, var: usize) -> Option<Out<E>> {
    let k = op.k;
    struct It(usize, usize);
    impl Iterator for It {
        type Item = usize;
        fn next(&mut self) -> Option<usize> {
            tick();
            if self.0 == 0 {
                None
            } else {
                self.0 -= 1;
                Some(self.0)
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            // exact, pessimistic or empty lower bound
            if self.1 == 0 { (self.0, Some(self.0)) } else { (0, None) }
        }
    }
    Some(match op.o.as_str() {
        "extend" => {
            let mut plain: Tensor<i64, (Dyn,)> = (0..a.len() as i64).collect();
            let more: Vec<i64> = (0..k as i64).map(|i| 70 + i).collect();
            plain.extend(&more);
            if plain.dim(0) != a.len() + k || plain[..] != (0..a.len() as i64).chain(more.iter().copied()).collect::<Vec<_>>()[..] {
                err(format!("extended by reference to {plain:?}"));
            }
            let ok = trap(|| a.extend(It(k, var).map(|_| E::make(9000)))).is_some();
            res(ok, bx(a), obj(b))
        }
        "collect" => {
            let n = op.n[0] as usize;
            let t = trap(|| It(n, var).map(|_| E::make(9000)).collect::<Tensor<E, (Dyn,)>>());
            res(t.is_some(), bx(a), t.and_then(bx))
        }
        _ => return None,
    })
}

/// The same on inline arrays; F is the one-dimensional shape of equal size.
fn array<E: Elem, S: ConstShape + 'static, F: ConstShape + 'static>(op: &Op, t: Tensor<E, S>, tb: Option<Tensor<E, S>>, var: usize) -> Option<Out<E>>
where
    Array<E, S>: Clone + 'static,
    Array<E, F>: 'static,
    S::Inner<E>: Clone,
    Array<mem::ManuallyDrop<E>, S>: Clone,
{
    let k = op.k;
    let m = op.m.as_str();
    let d: Vec<usize> = (0..t.rank()).map(|i| t.dim(i)).collect();
    let mut out: Vec<E> = vec![];
    let h = |x: Array<E, S>| held::<E, S, _>(x);
    if op.o == "via_array" {
        let t = trap(|| {
            let x: Array<E, S> = Array::from(t);
            if !x.expr().into_iter().all(|e| e.ok()) {
                err("array from a tensor holds dead elements".into());
            }
            Tensor::<E, S>::from(x)
        });
        return Some(res(t.is_some(), t.and_then(bx), obj(tb)));
    }
    let f = arm_save();
    let mut a: Array<E, S> = Array::from(t);
    let mut b: Option<Array<E, S>> = tb.map(Array::from);
    arm(f);
    let hb = |b: Option<Array<E, S>>| b.and_then(|b| held::<E, S, _>(b));
    let sq = |x: &E, y: &E| {
        if !x.ok() || !y.ok() {
            err("closure given a dead element".into());
        }
    };
    Some(match (op.o.as_str(), m) {
        ("into_iter", _) => {
            let ok = trap(|| match m {
                "fold" => a.into_expr().for_each(|x| {
                    tick();
                    out.push(x)
                }),
                _ => {
                    let n = a.len();
                    let mut it = a.into_iter();
                    for j in 0..k {
                        peek(&it, n, j);
                        twin(&it, n - j);
                        out.push(it.next().expect("iterator ended early"));
                    }
                    if k == n {
                        over(&mut it);
                    }
                    peek(&it, n, k);
                    twin(&it, n - k);
                    if m == "forget" {
                        mem::forget(it);
                    }
                }
            })
            .is_some();
            Out { out, ..res(ok, None, hb(b)) }
        }
        ("into_expr_eval", _) => {
            let t = trap(|| a.into_expr().eval());
            res(t.is_some(), t.and_then(held::<E, S, _>), hb(b))
        }
        ("into_buffer", _) => {
            let t = trap(|| Array::<E, S>::from_expr(a.into_expr()));
            res(t.is_some(), t.and_then(h), hb(b))
        }
        ("into_scalar", _) => {
            let t = trap(|| a.into_scalar());
            let ok = t.is_some();
            Out { out: t.into_iter().collect(), ..res(ok, None, hb(b)) }
        }
        ("into_flat", _) => {
            let t = trap(|| a.into_shape::<F>());
            res(t.is_some(), t.and_then(held::<E, F, _>), hb(b))
        }
        ("into_shape", _) => {
            // a constant shape known not to fit
            let n: usize = op.n.iter().map(|&x| x as usize).product();
            if n == d.iter().product::<usize>() {
                return None;
            }
            let ok = trap(|| if var == 1 { drop(a.into_shape::<(Const<7>, Const<13>)>()) } else { drop(a.into_shape::<(Const<5>,)>()) }).is_some();
            res(ok, None, hb(b))
        }
        ("drop", _) => {
            let ok = trap(|| drop(a)).is_some();
            res(ok, None, hb(b))
        }
        ("clone", _) => {
            let t = trap(|| a.clone());
            res(t.is_some(), h(a), t.and_then(h))
        }
        ("expr_clone", _) => {
            let e = a.into_expr();
            let t = trap(|| e.clone());
            let back = |e| h(Array::<E, S>::from_expr(e));
            res(t.is_some(), back(e), t.and_then(back))
        }
        ("expr_clone_from", _) => {
            let b1 = b?;
            let (mut e, s) = (a.into_expr(), b1.into_expr());
            let ok = trap(|| e.clone_from(&s)).is_some();
            let back = |e| h(Array::<E, S>::from_expr(e));
            res(ok, back(e), back(s))
        }
        ("to_tensor", _) => {
            let t = trap(|| a.to_tensor());
            res(t.is_some(), h(a), t.and_then(bx))
        }
        ("to_owned", _) => {
            let t = trap(|| (*a).to_owned());
            res(t.is_some(), h(a), t.and_then(held::<E, S, _>))
        }
        ("to_vec", _) => {
            let t = trap(|| a.to_vec());
            res(t.is_some(), h(a), t.and_then(bx))
        }
        ("array_map" | "map" | "apply", _) => {
            let g = |x: E| {
                if !x.ok() {
                    err("closure given a dead element".into());
                }
                tick();
                E::make(9000)
            };
            let t = trap(|| if op.o == "apply" { a.apply(g) } else { a.map(g) });
            res(t.is_some(), t.and_then(h), hb(b))
        }
        ("array_from_fn" | "from_fn", _) => {
            let t = trap(|| Array::<E, S>::from_fn(|_| made()));
            res(t.is_some(), h(a), t.and_then(h))
        }
        ("array_from_elem" | "from_elem", _) => {
            let fill = E::make(300);
            let t = trap(|| Array::<E, S>::from_elem(fill));
            res(t.is_some(), h(a), t.and_then(h))
        }
        ("from_expr", _) => {
            let t = trap(|| <Array<E, S> as FromExpression<E, S>>::from_expr(a.expr().map(|_| made())));
            res(t.is_some(), h(a), t.and_then(h))
        }
        ("fill", _) => {
            let fill = E::make(300);
            let ok = trap(|| a.fill(fill)).is_some();
            res(ok, h(a), hb(b))
        }
        ("fill_with", _) => {
            let ok = trap(|| a.fill_with(made)).is_some();
            res(ok, h(a), hb(b))
        }
        ("clone_from", _) => {
            let b1 = b.as_ref()?;
            let ok = trap(|| a.clone_from(b1)).is_some();
            res(ok, h(a), hb(b))
        }
        ("clone_into", _) => {
            let b1 = b.as_ref()?;
            let mut t: S::Owned<E> = a.into_expr().eval();
            let ok = trap(|| (**b1).clone_into(&mut t)).is_some();
            res(ok, held::<E, S, _>(t), hb(b))
        }
        ("replace", _) => {
            let b1 = b?;
            let ok = trap(|| a = b1).is_some();
            res(ok, h(a), None)
        }
        ("swap", _) => {
            let ok = trap(|| mem::swap(&mut a, b.as_mut().unwrap())).is_some();
            res(ok, h(a), hb(b))
        }
        ("zip_with", "ref") => {
            let b1 = b.as_ref()?;
            let t = trap(|| {
                Apply::<E>::zip_with(a, b1, |(x, y): (E, &E)| {
                    sq(&x, y);
                    tick();
                    E::make(9000)
                })
            });
            res(t.is_some(), t.and_then(h), hb(b))
        }
        ("zip_with", _) => {
            let b1 = b?;
            let t = trap(|| {
                Apply::<E>::zip_with(a, b1, |(x, y): (E, E)| {
                    sq(&x, &y);
                    let z = E::make(9000);
                    tick();
                    z
                })
            });
            res(t.is_some(), t.and_then(h), None)
        }
        ("assign", "ref") => {
            let b1 = b.as_ref()?;
            let ok = trap(|| a.assign(b1)).is_some();
            res(ok, h(a), hb(b))
        }
        ("assign", _) => {
            let b1 = b?;
            let ok = trap(|| a.assign(b1)).is_some();
            res(ok, h(a), None)
        }
        _ => return None,
    })
}

// ---------------------------------------------------------------- carriers
/// Which type carries the shape.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Dynamic,
    Ranked,
    /// constant size at this position, others dynamic
    Fixed(usize),
    /// all sizes constant
    Constant,
    /// all sizes constant, inline array
    Inline,
    /// a ranked, b of dynamic rank
    Mixed,
    /// constant size of a at this position, b of dynamic rank
    FixedMixed(usize),
}

fn build<E: Elem, S: Shape>(d: &[usize], base: i64, spare: usize) -> Tensor<E, S> {
    let n: usize = d.iter().product();
    let mut v: Vec<E> = Vec::with_capacity(n + spare);
    for i in 0..n {
        v.push(E::make(base + 1 + i as i64));
    }
    let mut v = mem::ManuallyDrop::new(v);
    unsafe { Tensor::from_raw_parts(v.as_mut_ptr(), DenseMapping::new(S::from_dims(d)), v.capacity()) }
}

struct Case {
    op: Op,
    t: String,
    x: Vec<usize>,
    y: Option<Vec<usize>>,
    q: Value,
    s: Vec<String>,
    lo: i64,
    hi: i64,
}
fn parse_op(v: &Value) -> Op {
    Op { o: v["o"].as_str().unwrap().into(), n: harness::ints(&v["n"]), k: v["k"].as_u64().unwrap() as usize, m: v["m"].as_str().unwrap().into() }
}
fn parse(v: &Value) -> Case {
    Case {
        op: parse_op(&v["op"]),
        t: v["t"].as_str().unwrap().into(),
        x: usizes(&v["x"]),
        y: (v["yp"] == json!(1)).then(|| usizes(&v["y"])),
        q: v["q"].clone(),
        s: v["s"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
        lo: v["lo"].as_i64().unwrap(),
        hi: v["hi"].as_i64().unwrap(),
    }
}

/// (a's capacity, a's pointer) before, outcome
type Ran<E> = (usize, usize, Out<E>);

fn start<E: Elem, S: Shape + 'static>(c: &Case, spare: usize, var: usize, fault: u64, inline: Option<fn(&Op, Tensor<E, S>, Option<Tensor<E, S>>, usize) -> Option<Out<E>>>) -> Option<Ran<E>>
where
    S::Owned<E>: 'static,
{
    let a = build::<E, S>(&c.x, 0, spare);
    let b = c.y.as_ref().map(|y| build::<E, S>(y, 1000, spare));
    let (cap, ptr) = (a.capacity(), a.as_ptr() as usize);
    FAULT.with(|f| f.set(fault));
    arm(fault);
    let o = match inline {
        Some(f) => f(&c.op, a, b, var),
        None => exec(&c.op, a, b, var),
    };
    o.map(|o| (cap, ptr, o))
}
fn start_flat<E: Elem>(c: &Case, spare: usize, var: usize, fault: u64) -> Option<Ran<E>> {
    start::<E, (Dyn,)>(c, spare, var, fault, Some(flat::<E>))
}
fn start_mixed<E: Elem, S: Shape + 'static>(c: &Case, spare: usize, var: usize, fault: u64) -> Option<Ran<E>> {
    let a = build::<E, S>(&c.x, 0, spare);
    let b = build::<E, DynRank>(c.y.as_ref()?, 1000, spare);
    let (cap, ptr) = (a.capacity(), a.as_ptr() as usize);
    FAULT.with(|f| f.set(fault));
    arm(fault);
    pair(&c.op, a, b, var).map(|o| (cap, ptr, o))
}

macro_rules! fixed {
    ($n:expr, $c:expr, $sp:expr, $v:expr, $f:expr, $($t:tt)*) => {
        match $n {
            1 => start::<El, fixed!(@ 1 $($t)*)>($c, $sp, $v, $f, None),
            2 => start::<El, fixed!(@ 2 $($t)*)>($c, $sp, $v, $f, None),
            3 => start::<El, fixed!(@ 3 $($t)*)>($c, $sp, $v, $f, None),
            _ => None,
        }
    };
    (@ $n:tt C) => { (Const<$n>,) };
    (@ $n:tt C D) => { (Const<$n>, Dyn) };
    (@ $n:tt D C) => { (Dyn, Const<$n>) };
    (@ $n:tt C D D) => { (Const<$n>, Dyn, Dyn) };
    (@ $n:tt D C D) => { (Dyn, Const<$n>, Dyn) };
    (@ $n:tt D D C) => { (Dyn, Dyn, Const<$n>) };
}
macro_rules! constant {
    ($inline:expr, $c:expr, $sp:expr, $v:expr, $f:expr; $($($d:literal)* => $len:literal),*) => {
        match (&$c.x[..], $inline) {
            $(
                ([$($d),*], false) => start::<El, ($(Const<$d>,)*)>($c, $sp, $v, $f, None),
                ([$($d),*], true) => start::<El, ($(Const<$d>,)*)>($c, $sp, $v, $f, Some(array::<El, ($(Const<$d>,)*), (Const<$len>,)>)),
            )*
            _ => None,
        }
    };
}
macro_rules! constz {
    ($inline:expr, $c:expr, $sp:expr, $v:expr, $f:expr; $($($d:literal)* => $len:literal),*) => {
        match (&$c.x[..], $inline) {
            $(
                ([$($d),*], true) => start::<Zs, ($(Const<$d>,)*)>($c, $sp, $v, $f, Some(array::<Zs, ($(Const<$d>,)*), (Const<$len>,)>)),
            )*
            _ => None,
        }
    };
}

fn start_el(c: &Case, kind: Kind, sp: usize, v: usize, f: u64) -> Option<Ran<El>> {
    let r = c.x.len();
    match kind {
        Kind::Dynamic => start::<El, DynRank>(c, sp, v, f, None),
        Kind::Ranked if matches!(c.op.o.as_str(), "extend" | "collect") => start_flat::<El>(c, sp, v, f),
        Kind::Ranked => match r {
            0 => start::<El, Rank<0>>(c, sp, v, f, None),
            1 => start::<El, Rank<1>>(c, sp, v, f, None),
            2 => start::<El, Rank<2>>(c, sp, v, f, None),
            3 => start::<El, Rank<3>>(c, sp, v, f, None),
            4 => start::<El, Rank<4>>(c, sp, v, f, None),
            _ => None,
        },
        Kind::Mixed => match r {
            0 => start_mixed::<El, Rank<0>>(c, sp, v, f),
            1 => start_mixed::<El, Rank<1>>(c, sp, v, f),
            2 => start_mixed::<El, Rank<2>>(c, sp, v, f),
            3 => start_mixed::<El, Rank<3>>(c, sp, v, f),
            _ => None,
        },
        Kind::Fixed(i) => match (r, i) {
            (1, 0) => fixed!(c.x[i], c, sp, v, f, C),
            (2, 0) => fixed!(c.x[i], c, sp, v, f, C D),
            (2, 1) => fixed!(c.x[i], c, sp, v, f, D C),
            (3, 0) => fixed!(c.x[i], c, sp, v, f, C D D),
            (3, 1) => fixed!(c.x[i], c, sp, v, f, D C D),
            (3, 2) => fixed!(c.x[i], c, sp, v, f, D D C),
            _ => None,
        },
        Kind::FixedMixed(i) => match (r, i, c.x[i]) {
            (2, 1, 1) => start_mixed::<El, (Dyn, Const<1>)>(c, sp, v, f),
            (2, 1, 2) => start_mixed::<El, (Dyn, Const<2>)>(c, sp, v, f),
            (2, 1, 3) => start_mixed::<El, (Dyn, Const<3>)>(c, sp, v, f),
            (3, 1, 2) => start_mixed::<El, (Dyn, Const<2>, Dyn)>(c, sp, v, f),
            (3, 1, 3) => start_mixed::<El, (Dyn, Const<3>, Dyn)>(c, sp, v, f),
            (3, 2, 2) => start_mixed::<El, (Dyn, Dyn, Const<2>)>(c, sp, v, f),
            (3, 2, 3) => start_mixed::<El, (Dyn, Dyn, Const<3>)>(c, sp, v, f),
            _ => None,
        },
        Kind::Constant | Kind::Inline => constant!(kind == Kind::Inline, c, sp, v, f;
            => 1, 0 => 0, 1 => 1, 3 => 3, 2 3 => 6, 3 2 => 6, 0 2 => 0, 2 0 => 0, 2 3 2 => 12, 2 1 2 => 4),
    }
}
fn start_zs(c: &Case, kind: Kind, sp: usize, v: usize, f: u64) -> Option<Ran<Zs>> {
    match kind {
        Kind::Dynamic => start::<Zs, DynRank>(c, sp, v, f, None),
        Kind::Ranked if matches!(c.op.o.as_str(), "extend" | "collect") => start_flat::<Zs>(c, sp, v, f),
        Kind::Ranked => match c.x.len() {
            0 => start::<Zs, Rank<0>>(c, sp, v, f, None),
            1 => start::<Zs, Rank<1>>(c, sp, v, f, None),
            2 => start::<Zs, Rank<2>>(c, sp, v, f, None),
            3 => start::<Zs, Rank<3>>(c, sp, v, f, None),
            _ => None,
        },
        Kind::Inline => constz!(true, c, sp, v, f; 3 => 3, 2 3 => 6, 2 0 => 0, 2 1 2 => 4),
        _ => None,
    }
}
fn start_by(c: &Case, kind: Kind, sp: usize, v: usize, f: u64) -> Option<Ran<By>> {
    match kind {
        Kind::Dynamic => start::<By, DynRank>(c, sp, v, f, None),
        Kind::Ranked if matches!(c.op.o.as_str(), "extend" | "collect") => start_flat::<By>(c, sp, v, f),
        Kind::Ranked => match c.x.len() {
            1 => start::<By, Rank<1>>(c, sp, v, f, None),
            2 => start::<By, Rank<2>>(c, sp, v, f, None),
            _ => None,
        },
        _ => None,
    }
}

/// Kinds of shape type able to hold every shape that occurs in the case.
fn kinds(c: &Case) -> Vec<Kind> {
    let r = c.x.len();
    let same = c.y.as_ref().is_none_or(|y| y.len() == r);
    if c.t == "dyn" {
        return vec![Kind::Dynamic];
    }
    if c.t == "full" {
        return vec![Kind::Constant].into_iter().filter(|k| fits(c, *k)).collect();
    }
    if c.t == "clash" {
        // the outcome would not have one of the constant sizes: refused
        let d = if c.y.is_some() { c.y.clone().unwrap() } else { c.op.dims() };
        let mut v: Vec<Kind> = (0..r).filter(|&i| d[i] != c.x[i]).map(|i| if c.y.is_some() { Kind::FixedMixed(i) } else { Kind::Fixed(i) }).collect();
        if c.y.is_some() {
            v.retain(|&k| k != Kind::FixedMixed(0));
        } else {
            v.push(Kind::Constant);
        }
        return v;
    }
    if c.t == "head" {
        // the first dimension cannot change: every such operation is refused
        let mut v = vec![Kind::Fixed(0)];
        if c.y.as_ref().is_none_or(|y| *y == c.x) {
            v.push(Kind::Constant);
        }
        return v.into_iter().filter(|k| fits(c, *k)).collect();
    }
    let mut v = vec![Kind::Dynamic];
    if same {
        v.push(Kind::Ranked);
        // const-sized dimensions: only if no operand or result deviates
        for i in 0..r {
            v.push(Kind::Fixed(i));
        }
        v.push(Kind::Constant);
        v.push(Kind::Inline);
    }
    if c.y.is_some() && matches!(c.op.o.as_str(), "expand" | "zip_with" | "assign" | "eq" | "zip_iter") && (same || c.op.o != "expand") {
        v.push(Kind::Mixed);
    }
    v.into_iter().filter(|k| fits(c, *k)).collect()
}
fn fits(c: &Case, k: Kind) -> bool {
    let head = c.t == "head" || c.t == "full";
    let grows = matches!(c.op.o.as_str(), "expand" | "append" | "truncate" | "drain" | "drain_eval" | "drain_into" | "clear" | "with_capacity" | "default" | "spare");
    let mut ds: Vec<Vec<usize>> = c.y.clone().into_iter().collect();
    if matches!(c.op.o.as_str(), "resize" | "resize_with" | "from_fn" | "from_elem" | "from_expr") {
        ds.push(c.op.dims());
    }
    let dev = |i: usize| ds.iter().any(|d| d.len() != c.x.len() || d[i] != c.x[i]);
    match k {
        Kind::Fixed(0) => (head || !grows) && !dev(0) && c.op.o != "overflow",
        Kind::Fixed(i) => {
            // an empty target takes the source's inner dimensions
            !dev(i) && c.op.o != "overflow"
        }
        Kind::Constant | Kind::Inline => (head || !grows) && (0..c.x.len()).all(|i| !dev(i)) && ds.iter().all(|d| d.len() == c.x.len()) && c.op.o != "overflow",
        _ => true,
    }
}

fn check_slot<E: Elem>(what: &str, got: &Ob<E>, want: &Value, free: bool, n: i64, snap: &Option<Snap>) -> Result<(), String> {
    let there = want["p"] == json!(1);
    if got.is_some() != there {
        return Err(format!("{what}: present {} expected {there}", got.is_some()));
    }
    if !there || free {
        return Ok(());
    }
    let s = snap.as_ref().unwrap();
    let e = want["e"].as_array().cloned().unwrap_or_default();
    let d = harness::ints(&want["d"]);
    if d != [-1] && s.d != usizes(&want["d"]) {
        return Err(format!("{what}: shape {:?} expected {d:?}", s.d));
    }
    if s.e.len() != e.len() {
        return Err(format!("{what}: {} elements expected {}", s.e.len(), e.len()));
    }
    if E::ZST {
        return Ok(());
    }
    for (i, w) in e.iter().enumerate() {
        let (wi, wv) = (w[0].as_i64().unwrap(), w[1].as_i64().unwrap());
        let wi = if wi > 1000 { wi - 1000 + n } else { wi };
        if (wi != 0 && s.e[i].0 != wi) || (wv != -1 && s.e[i].1 != wv) {
            return Err(format!("{what}: element {i} is (id {}, value {}), expected (id {wi}, value {wv}; 0/-1: any); all: {:?}", s.e[i].0, s.e[i].1, s.e));
        }
    }
    Ok(())
}

/// Every element is in exactly one place.
fn conserve<E: Elem>(snaps: &[&Option<Snap>], out: &[E], leak: bool) -> Result<(), String> {
    let mut ids: Vec<i64> = vec![];
    let mut count = 0;
    for s in snaps.iter().filter_map(|s| s.as_ref()) {
        ids.extend(s.e.iter().map(|x| x.0));
        count += s.e.len();
    }
    for x in out {
        if !x.ok() {
            return Err("an element handed out is dead or garbage".into());
        }
        ids.push(x.id());
        count += 1;
    }
    if E::ZST {
        if (count as i64) > zlive() || (count as i64 != zlive() && !leak) {
            return Err(format!("{count} zero-sized elements accessible, {} alive", zlive()));
        }
        return Ok(());
    }
    ids.sort();
    if let Some(w) = ids.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("element {} is in two places", w[0]));
    }
    if !leak {
        let l = live();
        if let Some(x) = l.iter().find(|x| ids.binary_search(x).is_err()) {
            return Err(format!("element {x} leaked: alive but not accessible"));
        }
    }
    Ok(())
}

fn judge<E: Elem>(c: &Case, fault: u64, ran: Ran<E>) -> Result<u64, String> {
    let calls = disarm();
    let (cap, ptr, o) = ran;
    let e = errs();
    if !e.is_empty() {
        return Err(e.join("; "));
    }
    let sa = o.a.as_ref().map(|x| x.snap()).transpose().map_err(|e| format!("a invalid: {e}"))?;
    let sb = o.b.as_ref().map(|x| x.snap()).transpose().map_err(|e| format!("b invalid: {e}"))?;
    // elements may be lost if the caller leaked their owner, or when a destructor fails
    let leak = c.q["leak"] == json!(true) || fault & DROP != 0;
    let n: i64 = c.x.iter().product::<usize>() as i64;
    if fault == 0 {
        if c.q["r"].as_str() != Some(o.r) {
            return Err(format!("outcome {} expected {}", o.r, c.q["r"]));
        }
        let free = |s: &str| c.q["f"].as_array().is_some_and(|a| a.iter().any(|x| x == s));
        check_slot("a", &o.a, &c.q["a"], free("a"), n, &sa)?;
        check_slot("b", &o.b, &c.q["b"], free("b"), n, &sb)?;
        if o.out.len() != c.q["out"].as_array().map_or(0, |a| a.len()) {
            return Err(format!("{} elements handed out, expected {}", o.out.len(), c.q["out"]));
        }
        if !E::ZST {
            for (i, w) in c.q["out"].as_array().into_iter().flatten().enumerate() {
                let wi = w[0].as_i64().unwrap();
                let wi = if wi > 1000 { wi - 1000 + n } else { wi };
                if o.out[i].id() != wi {
                    return Err(format!("element {i} handed out is {}, expected {wi}", o.out[i].id()));
                }
            }
        }
        if !E::ZST && let Some(s) = &sa {
            if let Some(k) = s.cap
                && cap as i64 == n + 7
            {
                if (k as i64) < c.lo || (c.hi >= 0 && k as i64 > c.hi) {
                    return Err(format!("capacity {k} after (before {cap}), expected {}..={}", c.lo, c.hi));
                }
                let stay = matches!(c.op.o.as_str(), "expand" | "extend" | "append" | "truncate" | "clear" | "drain" | "drain_eval" | "drain_into" | "reserve" | "reserve_exact" | "try_reserve");
                if stay && c.hi == n + 7 && s.ptr != ptr {
                    return Err("reallocated although the capacity was sufficient".into());
                }
            }
        }
        if matches!(c.op.o.as_str(), "reserve" | "reserve_exact" | "try_reserve") && o.r == "ok" && !E::ZST {
            let s = sa.as_ref().unwrap();
            if s.cap.is_some_and(|k| k < s.e.len() + c.op.k) {
                return Err(format!("capacity {:?} after reserving {} for {} elements", s.cap, c.op.k, s.e.len()));
            }
        }
    } else if fault & DROP != 0 {
        if o.r != "panic" {
            return Err(format!("panic of a destructor (the {}th run) did not propagate: {}", fault & !DROP, o.r));
        }
    } else {
        if o.r != "panic" {
            return Err(format!("panic of user code (call {fault}) did not propagate: {}", o.r));
        }
        let ex = |s: &str| c.s.iter().any(|x| x == s);
        for (w, slot, snap, base, d) in [("a", &o.a, &sa, 0, Some(&c.x)), ("b", &o.b, &sb, 1000, c.y.as_ref())] {
            if ex(&format!("x{w}")) {
                if slot.is_some() {
                    return Err(format!("{w} consumed yet present"));
                }
            } else if let Some(d) = d {
                let Some(s) = snap else { return Err(format!("{w} lost")) };
                if !ex(w) {
                    let off = if base == 0 { 0 } else { n };
                    let want: Vec<(i64, i64)> = (1..=d.iter().product::<usize>() as i64).map(|i| if E::ZST { (0, -1) } else { (off + i, base + i) }).collect();
                    if s.d != **d || s.e != want {
                        return Err(format!("{w} changed by a failed operation that only reads it: {:?} {:?}", s.d, s.e));
                    }
                }
            } else if slot.is_some() {
                return Err("result of a failed operation".into());
            }
        }
    }
    conserve(&[&sa, &sb], &o.out, leak)?;
    drop(o);
    let e = errs();
    if !e.is_empty() {
        return Err(format!("when everything is dropped: {}", e.join("; ")));
    }
    if !leak {
        let l = live();
        if !l.is_empty() {
            return Err(format!("elements {l:?} never dropped"));
        }
        if zlive() != 0 {
            return Err(format!("{} zero-sized elements never dropped", zlive()));
        }
    }
    Ok(calls)
}

fn run_one<E: Elem>(c: &Case, kind: Kind, faults: bool, f: fn(&Case, Kind, usize, usize, u64) -> Option<Ran<E>>) -> Result<u64, String> {
    let mut n = 0;
    let mut known = None;
    for spare in [0usize, 7] {
        for var in [0usize, 1] {
            let at = |k: u64, e: String| {
                let el = format!("elements of {} bytes", size_of::<E>());
                format!("{} on {:?} {:?} ({kind:?}, {el}, spare capacity {spare}, variant {var}, fault {k}): {e}", c.op.o, c.x, c.y)
            };
            reset();
            let Some(r) = f(c, kind, spare, var, 0) else {
                drop_all();
                continue;
            };
            let drops = drops();
            let calls = judge(c, 0, r).map_err(|e| at(0, e))?;
            n += 1;
            if faults {
                // every point, of many those at the ends, around powers of two and in between
                let points = |n: u64| (1..=n).filter(move |&k| n <= 96 || k <= 6 || k + 6 > n || (k + 1) & (k - 1) == 0 || k & (k - 1) == 0 || k % 41 == 0);
                for k in points(calls).chain(points(drops).map(|k| DROP | k)) {
                    reset();
                    if let Some(r) = f(c, kind, spare, var, k) {
                        n += 1;
                        match judge(c, k, r) {
                            Ok(_) => {}
                            Err(e) if leaked_clones(c, k, &e) => known = Some(at(k, e)),
                            Err(e) => return Err(at(k, e)),
                        }
                    }
                }
            }
        }
    }
    match known {
        Some(e) => Err(format!("[known:intoexpr-clone-panic] {e}")),
        None => Ok(n),
    }
}
/// Signature of the recorded finding: a panic in `T::clone` while a consuming
/// expression is cloned loses exactly the clones made before it.
fn leaked_clones(c: &Case, k: u64, e: &str) -> bool {
    let size = |d: &[usize]| d.iter().product::<usize>() as i64;
    let pre = size(&c.x) + c.y.as_ref().map_or(0, |y| size(y));
    let first = format!("element {} leaked: alive but not accessible", pre + 1);
    let l = live();
    matches!(c.op.o.as_str(), "expr_clone" | "expr_clone_from")
        && k > 1
        && (e == first && l == (pre + 1..pre + k as i64).collect::<Vec<_>>() || e.contains("zero-sized elements accessible") && zlive() == k as i64 - 1)
        && errs().is_empty()
}
fn drop_all() {
    arm(0);
}

fn run_case(v: &Value, faults: bool) -> Result<u64, String> {
    let c = parse(v);
    let mut n = 0;
    let mut known = None;
    for k in kinds(&c) {
        // a byte can tell only so many elements apart
        let by = if c.x.iter().product::<usize>() < 200 { run_one::<By>(&c, k, faults, start_by) } else { Ok(0) };
        for r in [run_one::<El>(&c, k, faults, start_el), run_one::<Zs>(&c, k, faults, start_zs), by] {
            match r {
                Ok(m) => n += m,
                Err(e) if e.starts_with("[known:") => known = Some(e),
                Err(e) => return Err(e),
            }
        }
    }
    known.map_or(Ok(n), Err)
}

// ----------------------------------------------------------------- record
type T = Tensor<El, DynRank>;

fn js(s: &Option<Snap>) -> Value {
    match s {
        None => json!({"p": 0, "d": [], "e": []}),
        Some(s) => json!({"p": 1, "d": s.d, "e": s.e.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>()}),
    }
}
fn rdims(rng: &mut Rng, rank: usize) -> Vec<usize> {
    loop {
        let d: Vec<usize> = (0..rank).map(|_| *rng.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 5])).collect();
        if d.iter().product::<usize>() <= 40 {
            return d;
        }
    }
}
fn dims(t: &T) -> Vec<usize> {
    (0..t.rank()).map(|i| t.dim(i)).collect()
}
/// A random operation within the domain of Own.tla
fn rop(rng: &mut Rng, a: &T, b: &Option<T>) -> Op {
    let d = dims(a);
    let mk = |o: &str, n: Vec<i64>, k: usize, m: &str| Op { o: o.into(), n, k, m: m.into() };
    let ints = |d: Vec<usize>| d.into_iter().map(|x| x as i64).collect::<Vec<i64>>();
    let row: usize = d.iter().skip(1).product();
    if let Some(b) = b
        && rng.chance(2, 5)
    {
        let s = dims(b);
        let same = s.len() == d.len();
        let clear = b.len() != 0 || (same && s[1.min(s.len())..] == d[1.min(d.len())..]);
        let o = *rng.pick(&["expand", "expand", "append", "append", "clone_from", "clone_into", "expr_clone_from", "replace", "swap", "zip_with", "assign", "eq", "drop_b", "zip_iter", "drain_into", "drain_into"]);
        let m = match o {
            "expand" => *rng.pick(&["ref", "val", "map"]),
            "zip_with" | "assign" => *rng.pick(&["ref", "val"]),
            _ => "",
        };
        let big = a.len() + b.len() > 60;
        if o == "drain_into" && !d.is_empty() {
            let t = rng.below(d[0] + 1);
            let s0 = rng.below(t + 1);
            let cut = (t - s0) * row;
            let fit = cut != 0 || (same && s[1.min(s.len())..] == d[1..]);
            let m = if !big && fit && rng.chance(2, 3) { "expand" } else { "assign" };
            return mk(o, vec![s0 as i64, t as i64], 0, m);
        }
        if o == "zip_iter" && s == d && rng.chance(1, 3) {
            return mk(o, vec![], rng.below(a.len() + 1), rng.pick(&["drop", "fold", "forget"]));
        }
        let o = if o == "zip_iter" || o == "drain_into" { "eq" } else { o };
        if !(matches!(o, "expand" | "append") && (!clear || big)) {
            return mk(o, vec![], 0, m);
        }
    }
    if b.is_none() && rng.chance(1, 3) {
        let o = *rng.pick(&["clone", "expr_clone", "to_tensor", "to_owned", "to_vec", "from_fn", "from_elem", "from_expr", "with_capacity"]);
        let n = match o {
            "from_fn" | "from_elem" => {
                let r = if rng.chance(3, 4) { d.len() } else { rng.below(4) };
                let mut n = rdims(rng, r);
                if r == d.len() && r > 0 && rng.chance(2, 3) && row <= 12 {
                    n[1..].copy_from_slice(&d[1..]);
                    n[0] = n[0].min(3);
                }
                ints(n)
            }
            "from_expr" => ints(d),
            _ => vec![],
        };
        return mk(o, n, 0, "");
    }
    match rng.below(24) {
        0..=4 => {
            let r = if rng.chance(9, 10) { d.len() } else { rng.below(4) };
            let mut n = rdims(rng, r);
            if n.len() == d.len() {
                for i in 0..n.len() {
                    if rng.chance(1, 3) && d[i] <= 5 {
                        n[i] = d[i];
                    }
                }
            }
            if n.iter().product::<usize>() > 60 {
                n.fill(1);
            }
            mk(rng.pick(&["resize", "resize_with"]), ints(n), 0, "")
        }
        5 => mk("truncate", vec![], rng.below(5), ""),
        6 if rng.chance(1, 2) => mk("clear", vec![], 0, ""),
        7..=10 if !d.is_empty() => {
            let end = d[0] + usize::from(rng.chance(1, 12));
            let t = rng.below(end + 1);
            let over = usize::from(rng.chance(1, 12));
            let s = rng.below(t + 1 + over);
            let n = vec![if s == 0 && rng.chance(1, 2) { -1 } else { s as i64 }, if t == d[0] && rng.chance(1, 2) { -1 } else { t as i64 }];
            let len = if t <= d[0] && s <= t { (t - s) * row } else { 0 };
            let k = rng.below(len + 1);
            if b.is_none() && rng.chance(1, 3) {
                return mk("drain_eval", n, 0, rng.pick(&["eval", "map"]));
            }
            mk("drain", n, k, if rng.chance(1, 12) { "forget" } else { "drop" })
        }
        11 => mk("reserve", vec![], rng.below(40), ""),
        12 => mk("reserve_exact", vec![], rng.below(40), ""),
        13 => mk("try_reserve", vec![], rng.below(40), if rng.chance(1, 4) { "huge" } else { "" }),
        14 => mk("shrink_to", vec![], rng.below(60), ""),
        15 => mk("shrink_to_fit", vec![], 0, ""),
        16 if a.len() + row <= 60 => mk("spare", vec![], rng.below(2), ""),
        17 => mk("raw_parts", vec![], 0, ""),
        18 => mk(rng.pick(&["into_expr_eval", "into_buffer", "into_dyn", "into_flat", "into_vec"]), vec![], 0, ""),
        19 => {
            let mut n = d.clone();
            if rng.chance(1, 2) {
                n.reverse();
            } else if n.len() < 3 {
                n.insert(rng.below(n.len() + 1), 1);
            }
            mk("into_shape", ints(n), 0, "")
        }
        20 => mk(rng.pick(&["map", "apply"]), vec![], 0, ""),
        21 => mk(rng.pick(&["fill", "fill_with"]), vec![], 0, ""),
        22 if rng.chance(1, 3) => {
            let k = rng.below(a.len() + 1);
            mk("into_iter", vec![], k, rng.pick(&["drop", "fold", "drop", "forget"]))
        }
        _ => mk("contains", vec![], 0, ""),
    }
}

fn go<S: Shape + 'static>(op: &Op, a: T, b: Option<T>, var: usize, fault: u64) -> Option<Out<El>>
where
    S::Owned<El>: 'static,
{
    let a = a.into_mapping::<S>();
    let b = b.map(|b| b.into_mapping::<S>());
    FAULT.with(|f| f.set(fault));
    arm(fault);
    exec(op, a, b, var)
}

fn record(path: &str, seed: u64, histories: usize, progress: &str) {
    quiet_panics();
    let mut rng = Rng::new(seed);
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let progress = Progress::new(progress);
    for h in 0..histories {
        progress.mark(h as u64 + 1);
        reset();
        let r = 1 + rng.below(3);
        let r = if rng.chance(1, 15) { 0 } else { r };
        let d0 = rdims(&mut rng, r);
        let sp = rng.below(10);
        let mut a: Option<T> = Some(build(&d0, 0, sp));
        let mut b: Option<T> = None;
        let snap = a.as_ref().unwrap().snap().expect("snapshot");
        let ev = json!({"e": "base", "a": js(&Some(snap))});
        writeln!(f, "{ev}").unwrap();
        for _ in 0..4 + rng.below(14) {
            let Some(a0) = a.take() else { break };
            let b0 = b.take();
            let op = rop(&mut rng, &a0, &b0);
            let fault = if !op.o.starts_with("expr_clone") && rng.chance(1, 4) { 1 + rng.below(12) as u64 } else { 0 };
            let fault = if fault == 0 && rng.chance(1, 10) { DROP | (1 + rng.below(9) as u64) } else { fault };
            let var = rng.below(2);
            let d = dims(&a0);
            let same = b0.as_ref().is_none_or(|b| b.rank() == a0.rank());
            let rankop = !matches!(op.o.as_str(), "clear" | "overflow") && (op.n.len() == d.len() || op.o != "from_fn" && op.o != "from_elem");
            let kind = if same && rankop && d.len() > 0 { rng.below(3) } else { 0 };
            let c0 = a0.capacity();
            let (born0, live0) = (born(), live());
            let mut took = true;
            arm(0);
            let o = if op.o == "drop_b" {
                drop(b0);
                res(true, bx(a0), None)
            } else {
                let o = match (kind, d.len()) {
                    (1, 1) => go::<(Dyn,)>(&op, a0, b0, var, fault),
                    (1, 2) => go::<(Dyn, Dyn)>(&op, a0, b0, var, fault),
                    (1, 3) => go::<(Dyn, Dyn, Dyn)>(&op, a0, b0, var, fault),
                    _ => go::<DynRank>(&op, a0, b0, var, fault),
                };
                took = o.is_some();
                o.unwrap_or_else(|| res(true, None, None))
            };
            let calls = disarm();
            if !took {
                break;
            }
            let failed = fault & DROP != 0 && drops() >= fault & !DROP;
            let faulted = fault & DROP == 0 && fault > 0 && calls >= fault;
            let (sa, sb) = (o.a.as_ref().map(|x| x.snap()).transpose(), o.b.as_ref().map(|x| x.snap()).transpose());
            let mut es = errs();
            for s in [&sa, &sb] {
                if let Err(e) = s {
                    es.push(e.clone());
                }
            }
            if o.out.iter().any(|x| !x.ok()) {
                es.push("dead element handed out".into());
            }
            let (sa, sb) = (sa.ok().flatten(), sb.ok().flatten());
            let l1 = live();
            let born1 = born();
            let dead: Vec<i64> = live0.iter().copied().chain(born0 + 1..=born1).filter(|i| l1.binary_search(i).is_err()).collect();
            let out: Vec<Value> = o.out.iter().map(|x| json!([x.id(), x.v()])).collect();
            let c1 = sa.as_ref().and_then(|s| s.cap).map_or(-1, |c| c as i64);
            let ev = json!({"e": "op", "op": {"o": op.o, "n": op.n, "k": op.k, "m": op.m}, "dyn": kind == 0, "fault": faulted, "failed": failed,
                "r": o.r, "a": js(&sa), "b": js(&sb), "out": out, "dead": dead, "born": [born0 + 1, born1], "cap": [c0, c1], "errs": es});
            writeln!(f, "{ev}").unwrap();
            if !es.is_empty() {
                // the state cannot be trusted any more
                mem::forget(o);
                break;
            }
            let Out { a: oa, b: ob, out, .. } = o;
            drop(out);
            a = oa.and_then(|x| x.dynamic());
            b = ob.and_then(|x| x.dynamic());
            if op.m == "forget" && op.o == "drain" && rng.chance(1, 2) {
                break;
            }
        }
        let l0 = live();
        drop(a);
        drop(b);
        // elements still alive that were accessible before
        let ev = json!({"e": "end", "before": l0, "after": live(), "errs": errs()});
        writeln!(f, "{ev}").unwrap();
    }
    f.flush().unwrap();
    progress.mark(u64::MAX);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "replay" => replay_main(&args[2..], |v, _, _| run_case(v, false)),
        "fault" => replay_main(&args[2..], |v, _, _| run_case(v, true)),
        "record" => record(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5]),
        m => panic!("mode {m}"),
    }
}
