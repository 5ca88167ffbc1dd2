//! Shape types of every rank (KindGen): result types and shapes of all operations, laws of shape values and mappings.
//!   k MODE CASES OUT PROGRESS SHARD NSHARDS SEED      mode: replay
use harness::ex::unlin;
use harness::serde_json::Value;
use harness::*;
use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::index::{Axis, Cols, Rows};
use mdarray::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::hash::{DefaultHasher, Hash, Hasher};

type D = Dyn;
type C<const N: usize> = Const<N>;

/// -2 alone for dynamic rank, otherwise -1 or the constant size of each dimension, found out by making shapes
fn sig<S: Shape>() -> Vec<i64> {
    let Some(r) = S::RANK else { return vec![-2] };
    let s = S::default();
    assert!(s.rank() == r);
    let d: Vec<usize> = (0..r).map(|i| s.dim(i)).collect();
    (0..r)
        .map(|i| {
            let mut e = d.clone();
            e[i] += 1;
            if trap(|| S::from_dims(&e)).is_some() { -1 } else { d[i] as i64 }
        })
        .collect()
}

/// what a view denotes: type, dimensions, elements in order
#[derive(PartialEq, Debug, Clone)]
struct Got {
    k: Vec<i64>,
    d: Vec<usize>,
    e: Vec<i64>,
}
fn got<S: Shape, L: Layout>(v: &Slice<i64, S, L>) -> Got {
    let d: Vec<usize> = (0..v.rank()).map(|i| v.dim(i)).collect();
    let n: usize = d.iter().product();
    assert!(v.len() == n && v.is_empty() == (n == 0) && v.shape().len() == n, "length");
    // through strides
    let s: Vec<isize> = (0..v.rank()).map(|i| v.stride(i)).collect();
    let e = (0..n)
        .map(|k| {
            let off: isize = unlin(&d, k).iter().zip(&s).map(|(&i, &s)| i as isize * s).sum();
            unsafe { *v.as_ptr().offset(off) }
        })
        .collect();
    Got { k: sig::<S>(), d, e }
}
fn want(k: &Value, d: &Value, s: &Value, f: i64) -> Got {
    let (d, s) = (usizes(d), ints(s));
    let n: usize = d.iter().product();
    Got { k: ints(k), e: (0..n).map(|k| f + unlin(&d, k).iter().zip(&s).map(|(&i, &s)| i as i64 * s).sum::<i64>()).collect(), d }
}
fn same(g: Option<Got>, w: &Got, what: &str) -> Result<u64, String> {
    match g {
        None => Err(format!("{what}: panicked, expected {:?} {:?}", w.k, w.d)),
        Some(g) if g == *w => Ok(1),
        Some(g) => Err(format!(
            "{what}: type {:?} shape {:?} elements {:?}.., expected {:?} {:?} {:?}..",
            g.k,
            g.d,
            &g.e[..g.e.len().min(12)],
            w.k,
            w.d,
            &w.e[..w.e.len().min(12)]
        )),
    }
}

/// a case with its array
struct Case<'a> {
    c: &'a Value,
    b: Vec<usize>,
    n: usize,
}
impl Case<'_> {
    fn op(&self) -> &str {
        self.c["op"].as_str().unwrap()
    }
    fn u(&self, x: &str) -> usize {
        self.c[x].as_u64().unwrap() as usize
    }
    fn want(&self) -> Got {
        want(&self.c["rk"], &self.c["d"], &self.c["s"], self.c["f"].as_i64().unwrap())
    }
}

fn items<'a, S: Shape, L: Layout, I: Iterator<Item = View<'a, i64, S, L>>>(it: I) -> Vec<Got> {
    it.map(|v| got(&v)).collect()
}

fn axis<S: Shape, A: Axis>(c: &Case, a: A) -> Result<u64, String> {
    let buf: Vec<i64> = (0..c.n as i64).collect();
    let mut buf2 = buf.clone();
    let v = unsafe { View::<i64, S>::new_unchecked(buf.as_ptr(), DenseMapping::new(S::from_dims(&c.b))) };
    let mut w = unsafe { ViewMut::<i64, S>::new_unchecked(buf2.as_mut_ptr(), DenseMapping::new(S::from_dims(&c.b))) };
    match c.op() {
        "axis_at" => {
            let e = c.want();
            let i = c.u("i");
            Ok(same(trap(|| got(&v.axis_at(a, i))), &e, "axis_at")?
                + same(trap(|| got(&w.axis_at_mut(a, i))), &e, "axis_at_mut")?
                + same(trap(|| got(&v.remap::<S, Strided>().axis_at(a, i))), &e, "axis_at of a strided view")?)
        }
        "split" => {
            let e = c.want();
            let (m, h) = (c.u("i"), c.u("h"));
            macro_rules! half {
                ($p:expr) => {{
                    let p = $p;
                    if h == 0 { got(&p.0) } else { got(&p.1) }
                }};
            }
            Ok(same(trap(|| half!(v.split_axis_at(a, m))), &e, "split_axis_at")?
                + same(trap(|| half!(w.split_axis_at_mut(a, m))), &e, "split_axis_at_mut")?
                + same(trap(|| half!(v.clone().into_split_axis_at(a, m))), &e, "into_split_axis_at")?)
        }
        op => {
            let (lane, d) = (op == "lanes", usizes(&c.c["d"]));
            let ws: Vec<Got> = ints(&c.c["fs"]).into_iter().map(|f| want(&c.c["ik"], &c.c["id"], &c.c["is"], f)).collect();
            let mut n = 0;
            macro_rules! go {
                ($e:expr, $what:literal, $T:ty) => {{
                    let r = trap(|| {
                        let e = $e;
                        let shape = expr_sig(&e);
                        let mut it = vec![];
                        for v in e {
                            it.push(got(&v));
                        }
                        (shape, it)
                    });
                    let Some((sh, it)) = r else { return Err(format!("{} panicked", $what)) };
                    if sh != (ints(&c.c["rk"]), d.clone()) {
                        return Err(format!("{}: type and shape {sh:?}, expected {:?} {d:?}", $what, ints(&c.c["rk"])));
                    }
                    if it.len() != ws.len() {
                        return Err(format!("{}: {} items, expected {}", $what, it.len(), ws.len()));
                    }
                    for (k, (g, w)) in it.iter().zip(&ws).enumerate() {
                        n += same(Some(g.clone()), w, &format!("{} item {k}", $what))?;
                    }
                }};
            }
            if lane {
                go!(v.lanes(a), "lanes", ());
                go!(w.lanes_mut(a), "lanes_mut", ());
            } else {
                go!(v.axis_expr(a), "axis_expr", ());
                go!(w.axis_expr_mut(a), "axis_expr_mut", ());
            }
            Ok(n)
        }
    }
}
fn expr_sig<E: Expression>(e: &E) -> (Vec<i64>, Vec<usize>) {
    assert!(e.len() == e.shape().len() && e.rank() == e.shape().rank());
    (sig::<E::Shape>(), (0..e.rank()).map(|i| e.dim(i)).collect())
}

fn any<S: Shape>(c: &Case) -> Result<u64, String> {
    let buf: Vec<i64> = (0..c.n as i64).collect();
    let v = unsafe { View::<i64, S>::new_unchecked(buf.as_ptr(), DenseMapping::new(S::from_dims(&c.b))) };
    match c.op() {
        "reorder" => {
            let mut b2 = buf.clone();
            let mut w = unsafe { ViewMut::<i64, S>::new_unchecked(b2.as_mut_ptr(), DenseMapping::new(S::from_dims(&c.b))) };
            Ok(same(trap(|| got(&v.reorder())), &c.want(), "reorder")? + same(trap(|| got(&w.reorder_mut())), &c.want(), "reorder_mut")?)
        }
        "permute" => {
            // dynamic
            let p = usizes(&c.c["p"]);
            let mut w = c.want();
            let n = same(trap(|| got(&v.permute(&p[..]))), &{ w.k = dynsig(S::RANK); w.clone() }, "permute by a list")?;
            Ok(n)
        }
        "remap" => {
            let e = c.want();
            let t = ints(&c.c["t"]);
            Ok(if t == [-2] {
                same(trap(|| got(&v.remap::<DynRank, Dense>())), &e, "remap")? + same(trap(|| got(&v.clone().into_dyn())), &e, "into_dyn")?
            } else if t == ints(&c.c["k"]) {
                same(trap(|| got(&v.remap::<S, Strided>())), &e, "remap")?
            } else {
                same(trap(|| got(&v.remap::<S::Dyn, Dense>())), &e, "remap")?
            })
        }
        "type" => {
            let mut n = 0;
            let mut t = |what: &str, g: Vec<i64>, w: &str| -> Result<(), String> {
                n += 1;
                let w = ints(&c.c[w]);
                if g != w { Err(format!("{what} of the shape type is {g:?}, expected {w:?}")) } else { Ok(()) }
            };
            t("Shape", sig::<S>(), "k")?;
            t("Tail", sig::<S::Tail>(), "tail")?;
            t("Reverse", sig::<S::Reverse>(), "rev")?;
            t("Dyn", sig::<S::Dyn>(), "dyn")?;
            t("Prepend<Dyn>", sig::<S::Prepend<D>>(), "pre")?;
            t("Prepend<Const>", sig::<S::Prepend<C<7>>>(), "pre7")?;
            t("Head", vec![<S::Head as Dim>::SIZE.map_or(-1, |x| x as i64)], "head")?;
            Ok(n)
        }
        o => Err(format!("op {o}")),
    }
}
fn dynsig(r: Option<usize>) -> Vec<i64> {
    r.map_or(vec![-2], |r| vec![-1; r])
}

macro_rules! permute {
    ($v:expr, $p:expr, $e:expr; $(($($i:literal),+))*) => {{$(
        if $p == [$($i),+] {
            return same(trap(|| got(&$v.permute(($(Const::<$i>,)+)))), $e, "permute by constants")
                .and_then(|n| Ok(n + same(trap(|| got(&$v.clone().into_permuted(($(Const::<$i>,)+)))), $e, "into_permuted by constants")?));
        }
    )*}};
}
fn permute<S: Shape>(c: &Case) -> Result<u64, String> {
    let buf: Vec<i64> = (0..c.n as i64).collect();
    let v = unsafe { View::<i64, S>::new_unchecked(buf.as_ptr(), DenseMapping::new(S::from_dims(&c.b))) };
    let (p, e) = (usizes(&c.c["p"]), &c.want());
    match S::RANK.unwrap_or(p.len()) {
        1 => permute!(v, p, e; (0)),
        2 => permute!(v, p, e; (0, 1) (1, 0)),
        3 => permute!(v, p, e; (0, 1, 2) (1, 2, 0) (2, 0, 1) (1, 0, 2) (2, 1, 0)),
        4 => permute!(v, p, e; (0, 1, 2, 3) (1, 2, 3, 0) (2, 3, 0, 1) (1, 0, 2, 3) (3, 2, 1, 0)),
        5 => permute!(v, p, e; (0, 1, 2, 3, 4) (1, 2, 3, 4, 0) (2, 3, 4, 0, 1) (1, 0, 2, 3, 4) (4, 3, 2, 1, 0)),
        6 => permute!(v, p, e; (0, 1, 2, 3, 4, 5) (1, 2, 3, 4, 5, 0) (2, 3, 4, 5, 0, 1) (1, 0, 2, 3, 4, 5) (5, 4, 3, 2, 1, 0)),
        _ => {}
    }
    Err(format!("permutation {p:?}"))
}

macro_rules! view_fn {
    ($name:ident, ($($x:ident),+), $n:tt; $($i:tt: ($($pre:tt)*) ($($post:tt)*);)+) => {
        fn $name<$($x: Dim),+>(c: &Case) -> Result<u64, String> {
            let buf: Vec<i64> = (0..c.n as i64).collect();
            let v = unsafe { View::<i64, ($($x,)+)>::new_unchecked(buf.as_ptr(), DenseMapping::new(Shape::from_dims(&c.b))) };
            let (i, x, y) = (c.u("i"), c.c["x"].as_str().unwrap(), c.c["y"].as_str().unwrap());
            let e = c.want();
            let z = c.b[$n - 1].wrapping_sub(1);
            $(
                if i == $i {
                    let m = c.b[i];
                    // the varying argument, then the last one
                    macro_rules! go {
                        ($a:expr) => { if y == "index" && i != $n - 1 { go!(@ $a, last) } else { go!(@ $a, full) } };
                        (@ $a:expr, full) => { same(trap(|| got(&v.view($($pre)* $a $($post)*))), &e, "view")? + same(trap(|| got(&v.tensor($($pre)* $a $($post)*))), &e, "tensor")? };
                        (@ $a:expr, last) => { lasti!($i, $n, v, $a, z, e) };
                    }
                    return Ok(match x {
                        "index" => go!(m - 1),
                        "range" => go!(0..m),
                        "step" => go!(step(.., -1)),
                        _ => go!(..),
                    });
                }
            )+
            Err("view".into())
        }
    };
}
/// arguments with an index in the last place
macro_rules! lasti {
    (0, 1, $v:expr, $a:expr, $z:expr, $e:expr) => { unreachable!() };
    (1, 2, $v:expr, $a:expr, $z:expr, $e:expr) => { unreachable!() };
    (2, 3, $v:expr, $a:expr, $z:expr, $e:expr) => { unreachable!() };
    (3, 4, $v:expr, $a:expr, $z:expr, $e:expr) => { unreachable!() };
    (4, 5, $v:expr, $a:expr, $z:expr, $e:expr) => { unreachable!() };
    (5, 6, $v:expr, $a:expr, $z:expr, $e:expr) => { unreachable!() };
    (0, 2, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view($a, $z))), &$e, "view")? };
    (0, 3, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view($a, .., $z))), &$e, "view")? };
    (1, 3, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view(.., $a, $z))), &$e, "view")? };
    (0, 4, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view($a, .., .., $z))), &$e, "view")? };
    (1, 4, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view(.., $a, .., $z))), &$e, "view")? };
    (2, 4, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view(.., .., $a, $z))), &$e, "view")? };
    (0, 5, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view($a, .., .., .., $z))), &$e, "view")? };
    (1, 5, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view(.., $a, .., .., $z))), &$e, "view")? };
    (2, 5, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view(.., .., $a, .., $z))), &$e, "view")? };
    (3, 5, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view(.., .., .., $a, $z))), &$e, "view")? };
    (0, 6, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view($a, .., .., .., .., $z))), &$e, "view")? };
    (1, 6, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view(.., $a, .., .., .., $z))), &$e, "view")? };
    (2, 6, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view(.., .., $a, .., .., $z))), &$e, "view")? };
    (3, 6, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view(.., .., .., $a, .., $z))), &$e, "view")? };
    (4, 6, $v:expr, $a:expr, $z:expr, $e:expr) => { same(trap(|| got(&$v.view(.., .., .., .., $a, $z))), &$e, "view")? };
}
view_fn!(view1, (X), 1; 0: () (););
view_fn!(view2, (X, Y), 2; 0: () (, ..); 1: (..,) (););
view_fn!(view3, (X, Y, Z), 3; 0: () (, .., ..); 1: (..,) (, ..); 2: (.., ..,) (););
view_fn!(view4, (X, Y, Z, W), 4; 0: () (, .., .., ..); 1: (..,) (, .., ..); 2: (.., ..,) (, ..); 3: (.., .., ..,) (););
view_fn!(view5, (X, Y, Z, W, U), 5; 0: () (, .., .., .., ..); 1: (..,) (, .., .., ..); 2: (.., ..,) (, .., ..); 3: (.., .., ..,) (, ..);
    4: (.., .., .., ..,) (););
view_fn!(view6, (X, Y, Z, W, U, V), 6; 0: () (, .., .., .., .., ..); 1: (..,) (, .., .., .., ..); 2: (.., ..,) (, .., .., ..);
    3: (.., .., ..,) (, .., ..); 4: (.., .., .., ..,) (, ..); 5: (.., .., .., .., ..,) (););

fn zip<S: Shape, R: Shape>(c: &Case) -> Result<u64, String> {
    let e = usizes(&c.c["e"]);
    let m: usize = e.iter().product();
    let (b1, b2): (Vec<i64>, Vec<i64>) = ((0..c.n as i64).collect(), (0..m as i64).map(|x| 1000 + x).collect());
    let v = unsafe { View::<i64, S>::new_unchecked(b1.as_ptr(), DenseMapping::new(S::from_dims(&c.b))) };
    let w = unsafe { View::<i64, R>::new_unchecked(b2.as_ptr(), DenseMapping::new(R::from_dims(&e))) };
    let d = usizes(&c.c["d"]);
    let r = trap(|| {
        let z = v.clone().zip(w.clone());
        let s = expr_sig(&z);
        let t = z.map(|(x, y)| (*x, *y)).eval();
        let td = dims(<_ as Borrow<Slice<(i64, i64), _>>>::borrow(&t).shape());
        let mut l = vec![];
        for x in v.clone().zip(w.clone()) {
            l.push((*x.0, *x.1));
        }
        (s, td, l)
    });
    let Some((s, td, l)) = r else { return Err("zip panicked".into()) };
    if s != (ints(&c.c["rk"]), d.clone()) || td != d {
        return Err(format!("zip has type and shape {s:?} (evaluated {td:?}), expected {:?} {d:?}", ints(&c.c["rk"])));
    }
    let n = c.n.max(m);
    let want: Vec<(i64, i64)> = (0..n).map(|j| ((j % c.n) as i64, 1000 + (j % m) as i64)).collect();
    if l != want {
        return Err("zip pairs the wrong elements".into());
    }
    Ok(2)
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn dims<S: Shape>(s: &S) -> Vec<usize> {
    (0..s.rank()).map(|i| s.dim(i)).collect()
}

/// laws of one shape value and its mappings
fn make<S: Shape>(c: &Value) -> Result<u64, String> {
    let a = usizes(&c["a"]);
    let Some(s) = trap(|| S::from_dims(&a)) else {
        return if c["res"] == "no" { Ok(1) } else { Err(format!("from_dims({a:?}) panicked")) };
    };
    if c["res"] == "no" {
        return Err(format!("from_dims({a:?}) gave {s:?}"));
    }
    let n = c["n"].as_u64().unwrap() as usize;
    let st = ints(&c["s"]);
    if dims(&s) != a || s.rank() != a.len() || s.len() != n || s.is_empty() != (n == 0) {
        return Err(format!("shape of {a:?} says {:?} with {} elements", dims(&s), s.len()));
    }
    if a.len() < 9 && (trap(|| s.dim(a.len())).is_some() || trap(|| s.dim(usize::MAX)).is_some()) {
        return Err("a dimension that does not exist has a size".into());
    }
    if dims(&s.clone()) != a || s != s.clone() || hash(&s) != hash(&s.clone()) || dims(&s.clone().into_shape()) != a {
        return Err("a copy differs".into());
    }
    // default: no elements, or the constants
    let def = S::default();
    let w: Vec<usize> = match S::RANK {
        None => vec![0],
        Some(_) => ints(&c["t"]).iter().map(|&x| if x == -1 { 0 } else { x as usize }).collect(),
    };
    if dims(&def) != w {
        return Err(format!("default shape is {:?}, expected {w:?}", dims(&def)));
    }
    // mappings
    let m = DenseMapping::new(s.clone());
    if !m.is_contiguous() || m.rank() != a.len() || m.len() != n || m.is_empty() != (n == 0) || m.shape() != &s || (0..a.len()).any(|i| m.dim(i) != a[i]) {
        return Err("dense mapping reports another shape".into());
    }
    if n > 0 && (0..a.len()).any(|i| m.stride(i) as i64 != st[i]) {
        return Err(format!("dense mapping of {a:?} reports strides {:?}", (0..a.len()).map(|i| m.stride(i)).collect::<Vec<_>>()));
    }
    if trap(|| m.stride(a.len())).is_some() || trap(|| m.dim(a.len())).is_some() {
        return Err("a dimension that does not exist has a stride or size".into());
    }
    if DenseMapping::<S>::default().shape() != &def || m.clone() != m || hash(&m) != hash(&m.clone()) {
        return Err("dense mapping: default or copy differs".into());
    }
    for (k, x) in [1isize, -3, 7, 0].into_iter().enumerate() {
        let strides: Vec<isize> = (0..a.len()).map(|i| x * (i as isize + 1) + if k == 3 { st[i] as isize } else { 0 }).collect();
        let m = StridedMapping::new(s.clone(), &strides);
        if m.strides() != &strides[..] || (0..a.len()).any(|i| m.stride(i) != strides[i] || m.dim(i) != a[i]) || m.len() != n || m.shape() != &s {
            return Err(format!("strided mapping with {strides:?} reports {:?}", m.strides()));
        }
        if trap(|| m.stride(a.len())).is_some() || trap(|| m.dim(a.len())).is_some() {
            return Err("a dimension that does not exist has a stride or size".into());
        }
        let dense = (0..a.len()).all(|i| a[i] <= 1 || strides[i] as i64 == st[i]);
        let strict = (0..a.len()).all(|i| strides[i] as i64 == st[i]);
        if n > 0 && ((m.is_contiguous() && !dense) || (!m.is_contiguous() && strict)) {
            return Err(format!("strided mapping with {strides:?} for {a:?} says is_contiguous {}", m.is_contiguous()));
        }
        let mut o = StridedMapping::<S>::default();
        if o.shape() != &def {
            return Err("default strided mapping".into());
        }
        o.clone_from(&m);
        if o != m || m.clone() != m || hash(&o) != hash(&m) {
            return Err("strided mapping: copy differs".into());
        }
        if let Some(i) = (0..a.len()).next() {
            let mut t = strides.clone();
            t[i] += 1;
            if StridedMapping::new(s.clone(), &t) == m {
                return Err("mappings with other strides are equal".into());
            }
        }
        let mut t = strides.clone();
        t.push(1);
        if trap(|| StridedMapping::new(s.clone(), &t)).is_some() || (!strides.is_empty() && trap(|| StridedMapping::new(s.clone(), &strides[1..])).is_some()) {
            return Err("strided mapping with the wrong number of strides".into());
        }
    }
    // the ways of stating a shape of dynamic rank
    if S::RANK.is_none() {
        let b: Box<[usize]> = a.clone().into();
        let mut all = vec![("slice", (&a[..]).into_shape()), ("vector", a.clone().into_shape()), ("box", b.into_shape())];
        macro_rules! fixed { ($($n:literal),*) => { match a.len() { $( $n => {
            let x: [usize; $n] = a[..].try_into().unwrap();
            all.push(("reference", (&x).into_shape()));
            let y = x.into_shape();
            if y != <Rank<$n> as Shape>::from_dims(&a) || dims(&y) != a {
                return Err(format!("shape {a:?} from an array differs: {y:?}"));
            }
            all.push(("array", DynRank::from_dims(&dims(&y))));
        } )* _ => {} } }; }
        fixed!(0, 1, 2, 3, 4, 5, 6);
        if let &[x] = &a[..] {
            all.push(("size", DynRank::from_dims(&dims(&x.into_shape()))));
            macro_rules! consts { ($($n:literal),*) => { $(
                if x == $n {
                    all.push(("constant size", DynRank::from_dims(&dims(&Const::<$n>.into_shape()))));
                    if Dyn::from(Const::<$n>) != $n { return Err("size of a constant".into()); }
                }
                if Const::<$n>::try_from(x) != (if x == $n { Ok(Const::<$n>) } else { Err(x) }) {
                    return Err(format!("Const::<{}>::try_from({x})", $n));
                }
            )* }; }
            consts!(0, 1, 2, 3);
        }
        for (what, x) in all {
            let y = DynRank::from_dims(&a);
            if dims(&x) != a || x.dims() != &a[..] || x != y || hash(&x) != hash(&y) || x.cmp(&y) != Ordering::Equal || x.clone() != x || hash(&x.clone()) != hash(&x) {
                return Err(format!("shape {a:?} from a {what} differs: {x:?}"));
            }
        }
    }
    Ok(20)
}
fn pair<S: Shape>(c: &Value) -> Result<u64, String> {
    let (a, b) = (usizes(&c["a"]), usizes(&c["b"]));
    let (x, y) = (S::from_dims(&a), S::from_dims(&b));
    let w = [Ordering::Less, Ordering::Equal, Ordering::Greater][(c["cmp"].as_i64().unwrap() + 1) as usize];
    if x.cmp(&y) != w || x.partial_cmp(&y) != Some(w) || (x == y) != (w == Ordering::Equal) || (x < y) != (w == Ordering::Less) {
        return Err(format!("comparing {a:?} with {b:?} gives {:?}", x.cmp(&y)));
    }
    if a == b && hash(&x) != hash(&y) {
        return Err("equal shapes hash differently".into());
    }
    let mut z = x.clone();
    z.clone_from(&y);
    if dims(&z) != b || z != y || hash(&z) != hash(&y) {
        return Err(format!("clone_from: {a:?} became {:?} instead of {b:?}", dims(&z)));
    }
    let (m, k) = (DenseMapping::new(x.clone()), DenseMapping::new(y.clone()));
    let mut mm = m.clone();
    mm.clone_from(&k);
    if (m == k) != (a == b) || mm != k || mm.shape() != &y || (a == b && hash(&m) != hash(&k)) {
        return Err(format!("dense mappings of {a:?} and {b:?}"));
    }
    let st = |d: &[usize]| (0..d.len()).map(|i| i as isize * 3 - 2).collect::<Vec<_>>();
    let (m, k) = (StridedMapping::new(x, &st(&a)), StridedMapping::new(y.clone(), &st(&b)));
    let mut mm = m.clone();
    mm.clone_from(&k);
    if (m == k) != (a == b) || mm != k || mm.shape() != &y || mm.strides() != &st(&b)[..] || (a == b && hash(&m) != hash(&k)) {
        return Err(format!("strided mappings of {a:?} and {b:?}"));
    }
    // DynRank keeps rank-1 shapes in two forms
    if S::RANK.is_none() {
        for p in [a.clone().into_shape(), DynRank::from_dims(&a)] {
            for q in [b.clone().into_shape(), DynRank::from_dims(&b)] {
                let mut z = p.clone();
                z.clone_from(&q);
                let mut y: DynRank = a.clone().into_shape();
                y.clone_from(&q);
                if p.cmp(&q) != w || (p == q) != (a == b) || (a == b && hash(&p) != hash(&q)) || z.dims() != &b[..] || y.dims() != &b[..] {
                    return Err(format!("shapes of dynamic rank {a:?} and {b:?}"));
                }
            }
        }
    }
    Ok(6)
}

macro_rules! by_type {
    ($k:expr, $f:ident($a:expr); $($t:ty),* $(,)?) => {{
        let k: &[i64] = &$k;
        $( if sig::<$t>() == k { return $f::<$t>($a); } )*
        Err(format!("no type {k:?}"))
    }};
}
macro_rules! kinds {
    ($k:expr, $f:ident($a:expr)) => {
        by_type!($k, $f($a); DynRank, (), (D,), (C<2>,), (D,D,), (D,C<2>,), (C<1>,D,), (C<1>,C<2>,),
            (D,D,D,), (D,D,C<2>,), (D,C<1>,D,), (D,C<1>,C<2>,), (C<3>,D,D,), (C<3>,D,C<2>,), (C<3>,C<1>,D,), (C<3>,C<1>,C<2>,),
            (D,D,D,D,), (D,D,D,C<2>,), (D,D,C<1>,D,), (D,C<3>,D,D,), (D,C<3>,D,C<2>,), (D,C<3>,C<1>,C<2>,), (C<4>,D,D,D,), (C<4>,D,C<1>,D,),
            (C<4>,C<3>,C<1>,D,), (C<4>,C<3>,C<1>,C<2>,),
            (D,D,D,D,D,), (D,D,D,D,C<2>,), (D,D,D,C<1>,D,), (D,D,C<3>,D,D,), (D,C<4>,D,D,D,), (D,C<4>,D,C<1>,D,), (D,C<4>,C<3>,C<1>,C<2>,),
            (C<5>,D,D,D,D,), (C<5>,D,C<3>,D,C<2>,), (C<5>,C<4>,C<3>,C<1>,D,), (C<5>,C<4>,C<3>,C<1>,C<2>,),
            (D,D,D,D,D,D,), (D,D,D,D,D,C<2>,), (D,D,D,D,C<1>,D,), (D,D,D,C<3>,D,D,), (D,D,C<4>,D,D,D,), (D,C<5>,D,D,D,D,), (D,C<5>,D,C<3>,D,C<2>,),
            (D,C<5>,C<4>,C<3>,C<1>,C<2>,), (C<6>,D,D,D,D,D,), (C<6>,D,C<4>,D,C<1>,D,), (C<6>,C<5>,C<4>,C<3>,C<1>,D,), (C<6>,C<5>,C<4>,C<3>,C<1>,C<2>,))
    };
}
macro_rules! views {
    ($k:expr, $c:expr; $($f:ident: $(($($t:ty),+)),+;)+) => {{
        let k: &[i64] = &$k;
        $($( if sig::<($($t,)+)>() == k { return $f::<$($t),+>($c); } )+)+
        Err(format!("no type {k:?}"))
    }};
}
macro_rules! zips {
    ($k:expr, $t:expr, $c:expr; $($l:ty),+) => {{
        let (k, t): (&[i64], &[i64]) = (&$k, &$t);
        $( if sig::<$l>() == k { return zip_with::<$l>(t, $c); } )+
        Err(format!("no type {k:?}"))
    }};
}
fn zip_with<S: Shape>(t: &[i64], c: &Case) -> Result<u64, String> {
    macro_rules! r {
        ($($r:ty),+) => {{
            $( if sig::<$r>() == t { return zip::<S, $r>(c); } )+
            Err(format!("no type {t:?}"))
        }};
    }
    r!(DynRank, (), (D,), (C<2>,), (D,C<2>,), (C<1>,D,), (D,C<1>,D,), (C<3>,D,C<2>,), (D,C<3>,D,C<2>,), (C<4>,D,C<1>,D,), (D,C<4>,D,C<1>,D,), (C<5>,D,C<3>,D,C<2>,),
       (D,C<5>,D,C<3>,D,C<2>,), (C<6>,D,C<4>,D,C<1>,D,))
}

/// by axis
fn at_axis<S: Shape>(c: &Case) -> Result<u64, String> {
    let a = c.u("a");
    match (c.c["how"].as_str().unwrap(), a) {
        ("dyn", _) => axis::<S, Dyn>(c, a),
        ("rows", _) => axis::<S, Rows>(c, Rows),
        ("cols", _) => axis::<S, Cols>(c, Cols),
        (_, 0) => axis::<S, C<0>>(c, Const),
        (_, 1) => axis::<S, C<1>>(c, Const),
        (_, 2) => axis::<S, C<2>>(c, Const),
        (_, 3) => axis::<S, C<3>>(c, Const),
        (_, 4) => axis::<S, C<4>>(c, Const),
        (_, 5) => axis::<S, C<5>>(c, Const),
        _ => Err("axis".into()),
    }
}

fn replay(c: &Value, _: u64, _: &mut Rng) -> Result<u64, String> {
    let op = c["op"].as_str().unwrap();
    if op == "make" || op == "pair" {
        macro_rules! law {
            ($f:ident) => {
                by_type!(ints(&c["t"]), $f(c); DynRank, (), (D,), (C<3>,), (C<0>,), (D, D), (C<2>, D), (D, C<2>), (C<2>, C<3>), (C<2>, C<0>), (D, D, D), (C<2>, D, C<2>), (D, C<2>, D),
                    (D, D, D, D), (C<2>, D, C<1>, D), (D, D, D, D, D), (C<1>, D, D, C<2>, D), (D, D, D, D, D, D), (C<2>, C<1>, C<2>, C<1>, C<2>, C<1>), (D, C<1>, D, C<1>, D, C<1>))
            };
        }
        return if op == "make" { law!(make) } else { law!(pair) }.map_err(|m| format!("shape type {:?}: {m}", ints(&c["t"])));
    }
    let b = usizes(&c["b"]);
    let k = ints(&c["k"]);
    let cs = Case { c, n: b.iter().product(), b };
    let r: Result<u64, String> = (|| match op {
        "axis_at" | "split" | "axis" | "lanes" => kinds!(k, at_axis(&cs)),
        "permute" if c["how"] == "const" => kinds!(k, permute(&cs)),
        "view" => views!(k, &cs;
            view1: (D), (C<2>);
            view2: (D,D), (D,C<2>), (C<1>,D), (C<1>,C<2>);
            view3: (D,D,D), (D,D,C<2>), (D,C<1>,D), (D,C<1>,C<2>), (C<3>,D,D), (C<3>,D,C<2>), (C<3>,C<1>,D), (C<3>,C<1>,C<2>);
            view4: (D,D,D,D), (D,D,D,C<2>), (D,D,C<1>,D), (D,C<3>,D,D), (D,C<3>,D,C<2>), (D,C<3>,C<1>,C<2>), (C<4>,D,D,D), (C<4>,D,C<1>,D), (C<4>,C<3>,C<1>,D), (C<4>,C<3>,C<1>,C<2>);
            view5: (D,D,D,D,D), (D,D,D,D,C<2>), (D,D,D,C<1>,D), (D,D,C<3>,D,D), (D,C<4>,D,D,D), (D,C<4>,D,C<1>,D), (D,C<4>,C<3>,C<1>,C<2>), (C<5>,D,D,D,D), (C<5>,D,C<3>,D,C<2>),
                   (C<5>,C<4>,C<3>,C<1>,D), (C<5>,C<4>,C<3>,C<1>,C<2>);
            view6: (D,D,D,D,D,D), (D,D,D,D,D,C<2>), (D,D,D,D,C<1>,D), (D,D,D,C<3>,D,D), (D,D,C<4>,D,D,D), (D,C<5>,D,D,D,D), (D,C<5>,D,C<3>,D,C<2>), (D,C<5>,C<4>,C<3>,C<1>,C<2>),
                   (C<6>,D,D,D,D,D), (C<6>,D,C<4>,D,C<1>,D), (C<6>,C<5>,C<4>,C<3>,C<1>,D), (C<6>,C<5>,C<4>,C<3>,C<1>,C<2>);
        ),
        "zip" => zips!(k, ints(&c["t"]), &cs; DynRank, (), (D,), (C<2>,), (D,C<2>,), (C<1>,D,), (D,C<1>,D,), (C<3>,D,C<2>,), (D,C<3>,D,C<2>,), (C<4>,D,C<1>,D,), (D,C<4>,D,C<1>,D,),
            (C<5>,D,C<3>,D,C<2>,), (D,C<5>,D,C<3>,D,C<2>,), (C<6>,D,C<4>,D,C<1>,D,)),
        _ => kinds!(k, any(&cs)),
    })();
    r.map_err(|m| format!("{op} on shape type {k:?}: {m}"))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args[0].as_str() {
        "replay" => replay_main(&args[1..], replay),
        m => panic!("mode {m}"),
    }
}
