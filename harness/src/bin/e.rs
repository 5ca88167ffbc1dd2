//! Equality, hashing, search and debug output (EqGen).
//!   e MODE CASES OUT PROGRESS SHARD NSHARDS SEED      mode: replay
use harness::ex::fits;
use harness::hold::{Store, tensor};
use harness::serde_json::Value;
use harness::*;
use mdarray::*;
use std::borrow::Borrow;
use std::fmt;
use std::hash::{DefaultHasher, Hash, Hasher};

type D = Dyn;
type C<const N: usize> = Const<N>;

/// elements of the left and right array; -1 equals nothing
#[derive(Clone)]
struct A(i64);
#[derive(Clone)]
struct B(i64);
macro_rules! same {
    ($($a:ident $b:ident),*) => {$(
        impl PartialEq<$b> for $a {
            fn eq(&self, o: &$b) -> bool {
                self.0 == o.0 && self.0 != -1
            }
        }
    )*};
}
same!(A A, A B, B A, B B);
impl Hash for A {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
    // as for the integers, a sequence of elements hashes in its own way
    fn hash_slice<H: Hasher>(v: &[A], h: &mut H) {
        h.write(&v.iter().flat_map(|x| x.0.to_ne_bytes()).collect::<Vec<u8>>())
    }
}
impl fmt::Debug for A {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}

/// nested lists as the standard library shows them
enum Tree {
    N(i64),
    L(Vec<Tree>),
}
impl Tree {
    fn new(v: &Value) -> Tree {
        if v["k"] == "n" { Tree::N(v["v"].as_i64().unwrap()) } else { Tree::L(v["v"].as_array().unwrap().iter().map(Tree::new).collect()) }
    }
}
impl fmt::Debug for Tree {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Tree::N(x) => x.fmt(f),
            Tree::L(v) => v.fmt(f),
        }
    }
}
fn shown<T: fmt::Debug + ?Sized>(x: &T) -> [String; 4] {
    [format!("{x:?}"), format!("{x:#?}"), format!("{x:04?}"), format!("{x:+x?}")]
}

/// hasher that tells calls apart, and one that mixes per call
#[derive(Default, Clone)]
struct Calls(Vec<Vec<u8>>);
impl Hasher for Calls {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.to_vec())
    }
}
fn hashed<T: Hash + ?Sized>(x: &T) -> (Vec<Vec<u8>>, u64) {
    let mut c = Calls::default();
    x.hash(&mut c);
    let mut d = DefaultHasher::new();
    x.hash(&mut d);
    (c.0, d.finish())
}

struct Side {
    d: Vec<usize>,
    c: Vec<i64>,
}
impl Side {
    fn new(v: &Value) -> Side {
        Side { d: usizes(&v["d"]), c: ints(&v["c"]) }
    }
    fn items<T>(&self, f: fn(i64) -> T) -> Vec<T> {
        self.c.iter().map(|&x| f(x)).collect()
    }
}

macro_rules! pair {
    ($n:ident, $want:expr, $ln:expr, $l:expr, $rn:expr, $r:expr) => {{
        let (l, r) = (&*$l, &*$r);
        for (what, got) in [("==", l == r), ("!=", !(l != r)), ("== (swapped)", r == l), ("!= (swapped)", !(r != l))] {
            $n += 1;
            if got != $want {
                return Err(format!("{} {what} {}: says {}, expected {}", $ln, $rn, got, $want));
            }
        }
    }};
}
/// every holder against every holder
fn compare<S: Shape, R: Shape>(a: &Side, b: &Side, want: bool, full: bool) -> Result<u64, String> {
    let (ca, cb) = (a.items(A), b.items(B));
    let ga = |i: usize| A(1000 + i as i64);
    let gb = |i: usize| B(2000 + i as i64);
    let (ta, tb) = (tensor::<A, S>(&a.d, &ca), tensor::<B, R>(&b.d, &cb));
    let mut sa: Vec<Store<A>> = (0..4).map(|w| Store::new(&a.d, &ca, w, ga)).collect();
    let mut sb: Vec<Store<B>> = (0..4).map(|w| Store::new(&b.d, &cb, w, gb)).collect();
    let (mut ma, mut mb) = (sa.pop().unwrap(), sb.pop().unwrap());
    let (ma, mb) = (ma.strided_mut::<S>(), mb.strided_mut::<R>());
    let mut n = 0;
    macro_rules! against {
        ($ln:expr, $l:expr) => {{
            let l = $l;
            pair!(n, want, $ln, l, "Tensor", &tb);
            pair!(n, want, $ln, l, "View strided", &sb[2].strided::<R>());
            pair!(n, want, $ln, l, "ViewMut strided", &mb);
            if full {
                pair!(n, want, $ln, l, "View dense", &sb[0].dense::<R>());
                pair!(n, want, $ln, l, "Slice dense", &*sb[0].dense::<R>());
                pair!(n, want, $ln, l, "Slice strided", &*sb[1].strided::<R>());
                pair!(n, want, $ln, l, "View strided (dense strides)", &sb[0].strided::<R>());
            }
        }};
    }
    against!("Tensor", &ta);
    against!("View strided", &sa[1].strided::<S>());
    against!("ViewMut strided", &ma);
    against!("Slice dense", &*sa[0].dense::<S>());
    if full {
        against!("View dense", &sa[0].dense::<S>());
        against!("Slice strided", &*sa[2].strided::<S>());
        against!("View strided (dense strides)", &sa[0].strided::<S>());
    }
    Ok(n)
}
fn compare_arrays<S: ConstShape, R: ConstShape>(a: &Side, b: &Side, want: bool) -> Result<u64, String> {
    let (ca, cb) = (a.items(A), b.items(B));
    let (xa, xb) = (Array::from(tensor::<A, S>(&a.d, &ca)), Array::from(tensor::<B, R>(&b.d, &cb)));
    let tb = tensor::<B, DynRank>(&b.d, &cb);
    let ta = tensor::<A, S>(&a.d, &ca);
    let (sa, sb) = (Store::new(&a.d, &ca, 2, |i| A(1000 + i as i64)), Store::new(&b.d, &cb, 3, |i| B(2000 + i as i64)));
    let mut n = 0;
    pair!(n, want, "Array", &xa, "Array", &xb);
    pair!(n, want, "Array", &xa, "Tensor", &tb);
    pair!(n, want, "Tensor", &ta, "Array", &xb);
    pair!(n, want, "View strided", &sa.strided::<S>(), "Array", &xb);
    pair!(n, want, "Array", &xa, "View strided", &sb.strided::<R>());
    pair!(n, want, "Array", &xa, "Slice strided", &*sb.strided::<DynRank>());
    Ok(n)
}

struct Want {
    show: [String; 4],
    has: Vec<i64>,
    not: Vec<i64>,
    hash: Option<(Vec<Vec<u8>>, u64)>,
    n: u64,
}
impl Want {
    fn one<T: ?Sized, S: Shape, L: Layout>(&mut self, what: &str, whole: &T, x: &Slice<A, S, L>) -> Result<(), String>
    where
        T: fmt::Debug + Hash,
    {
        self.n += 1;
        for s in [shown(whole), shown(x)] {
            for i in 0..4 {
                if s[i] != self.show[i] {
                    return Err(format!("debug output of {what} is {}, expected {}", s[i], self.show[i]));
                }
            }
        }
        for h in [hashed(whole), hashed(x)] {
            match &self.hash {
                None => self.hash = Some(h),
                Some(g) if *g != h => return Err(format!("{what} hashes to {h:?}, an equal array to {g:?}")),
                _ => {}
            }
        }
        for (l, e) in [(&self.has, true), (&self.not, false)] {
            for &v in l {
                if x.contains(&A(v)) != e {
                    return Err(format!("{what}.contains({v}) is {}, expected {e}", !e));
                }
            }
        }
        Ok(())
    }
}
fn look<S: Shape>(b: &Side, w: &mut Want) -> Result<(), String> {
    let c = b.items(A);
    // cells between the elements hold values that are not elements
    let not = w.not.clone();
    let gap = |i: usize| A(not[i % not.len()]);
    let t = tensor::<A, S>(&b.d, &c);
    w.one("Tensor", &t, &t)?;
    let s: &Slice<A, S> = t.borrow();
    w.one("borrowed Slice", s, s)?;
    for v in 0..4 {
        let mut st = Store::new(&b.d, &c, v, gap);
        let x = st.strided::<S>();
        w.one("View strided", &x, &x)?;
        let x = st.strided_mut::<S>();
        w.one("ViewMut strided", &x, &x)?;
        let s: &Slice<A, S, Strided> = x.borrow();
        w.one("Slice strided", s, s)?;
    }
    let mut st = Store::new(&b.d, &c, 0, gap);
    let x = st.dense::<S>();
    w.one("View dense", &x, &x)?;
    let x = st.dense_mut::<S>();
    w.one("ViewMut dense", &x, &x)
}

fn run(case: &Value) -> Result<u64, String> {
    let (a, b) = (Side::new(&case["a"]), Side::new(&case["b"]));
    let want = case["eq"].as_bool().unwrap();
    let mut n = 0;
    macro_rules! pairs {
        ($($s:ty, $r:ty, $full:expr);* $(;)?) => {$(
            if fits::<$s>(&a.d) && fits::<$r>(&b.d) {
                n += compare::<$s, $r>(&a, &b, want, $full).map_err(|m| format!("{} and {}: {m}", stringify!($s), stringify!($r)))?;
            }
        )*};
    }
    pairs!(DynRank, DynRank, true;
           (), (), false; (), (D,), false; (D,), (), false;
           (D,), (D,), false; (D, D), (D, D), true; (D, D, D), (D, D, D), false;
           (D, D), (D,), false; (D,), (D, D), false; (D, D, D), (D, D), false; (D, D), (D, D, D), false;
           (D, D), DynRank, false; DynRank, (D, D), false; DynRank, (D, D, D), false; DynRank, (D,), false;
           (C<2>, C<3>), (D, D), false; (D, C<3>), (C<2>, D), false; (C<2>, C<0>), (D, D), false; (C<3>,), (D,), false;
           (D, D, D, D), (D, D, D, D), false; (D, D, D, D), (D, D), false);
    macro_rules! arrays {
        ($($s:ty, $r:ty);* $(;)?) => {$(
            if fits::<$s>(&a.d) && fits::<$r>(&b.d) {
                n += compare_arrays::<$s, $r>(&a, &b, want).map_err(|m| format!("{} and {}: {m}", stringify!($s), stringify!($r)))?;
            }
        )*};
    }
    arrays!((), (); (C<3>,), (C<3>,); (C<2>, C<3>), (C<2>, C<3>); (C<2>, C<3>), (C<3>, C<2>); (C<2>, C<0>), (C<2>, C<0>); (C<2>, C<0>), (C<0>, C<2>);
            (C<2>, C<1>, C<3>), (C<2>, C<1>, C<3>); (C<2>, C<3>), (C<6>,); (C<1>, C<3>), (C<3>,));
    let mut w = Want { show: shown(&Tree::new(&case["show"])), has: ints(&case["has"]), not: ints(&case["not"]), hash: None, n: 0 };
    macro_rules! looks {
        ($($s:ty),*) => {$(
            if fits::<$s>(&b.d) {
                look::<$s>(&b, &mut w).map_err(|m| format!("{}: {m}", stringify!($s)))?;
            }
        )*};
    }
    looks!(DynRank, (), (D,), (D, D), (D, D, D), (D, D, D, D), (D, D, D, D, D), (D, D, D, D, D, D), (C<2>, C<3>), (D, C<3>), (C<2>, D), (C<3>,), (C<2>, C<0>), (C<2>, C<1>, C<3>));
    macro_rules! look_arrays {
        ($($s:ty),*) => {$(
            if fits::<$s>(&b.d) {
                let x = Array::from(tensor::<A, $s>(&b.d, &b.items(A)));
                w.one(concat!("Array ", stringify!($s)), &x, &x)?;
                let s: &Slice<A, $s> = x.borrow();
                w.one(concat!("Slice of Array ", stringify!($s)), s, s)?;
            }
        )*};
    }
    look_arrays!((), (C<3>,), (C<2>, C<3>), (C<0>,), (C<2>, C<0>), (C<2>, C<1>, C<3>));
    Ok(n + w.n)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    replay_main(&args[2..], |case, _, _| run(case));
}
