//! View family: executes the operations of Views.tla on the real library.
//!   v replay CASES OUT PROGRESS SHARD NSHARDS SEED   replay TLC transitions
//!   v write  ...                                     same, writing through mutable views
//!   v record OUT SEED CHAINS MAXRANK                 random chains, logged for ViewsTrace.tla
use harness::serde_json::{Value, json};
use harness::*;
use mdarray::expr::Expression;
use mdarray::index::{Cols, Rows};
use mdarray::*;
use std::io::Write;
use std::ops::Bound;

type T = i32;
const PAD: usize = 64;

#[derive(Clone, Debug)]
struct Raw {
    ptr: *mut T,
    dims: Vec<usize>,
    str: Vec<isize>,
    contiguous: bool,
    /// contents, for results that are copies
    owned: Option<Vec<i64>>,
}

/// Arguments of 20000 and more stand for sizes at the limits of the machine word.
fn big(x: i64) -> usize {
    match x {
        20000 => usize::MAX,
        20001 => isize::MAX as usize,
        20002 => isize::MAX as usize + 1,
        20003 => 1 << 32,
        _ => x as usize,
    }
}
fn bigi(x: i64) -> isize {
    match x {
        20001 => isize::MAX,
        -20001 => isize::MIN,
        -20000 => -isize::MAX,
        _ => x as isize,
    }
}

#[derive(Clone, Debug)]
struct Op {
    o: String,
    a: Vec<Vec<i64>>,
}
impl Op {
    fn parse(v: &Value) -> Op {
        Op {
            o: v["o"].as_str().unwrap().to_string(),
            a: v["a"].as_array().unwrap().iter().map(ints).collect(),
        }
    }
    fn json(&self) -> Value {
        json!({"o": self.o, "a": self.a})
    }
    fn u(&self, i: usize) -> usize {
        big(self.a[0][i])
    }
}

fn dense_strides(d: &[usize]) -> Vec<isize> {
    let mut s = vec![1isize; d.len()];
    for i in (0..d.len().saturating_sub(1)).rev() {
        s[i] = s[i + 1] * d[i + 1] as isize;
    }
    s
}
fn unlin(d: &[usize], mut k: usize) -> Vec<usize> {
    let mut ix = vec![0; d.len()];
    for i in (0..d.len()).rev() {
        ix[i] = k % d[i];
        k /= d[i];
    }
    ix
}
impl Raw {
    fn len(&self) -> usize {
        self.dims.iter().product()
    }
    fn strictly_dense(&self) -> bool {
        self.str == dense_strides(&self.dims)
    }
    /// cells relative to `base`, from the reported shape, strides and pointer
    fn cells(&self, base: *const T) -> Vec<i64> {
        if let Some(o) = &self.owned {
            return o.clone();
        }
        (0..self.len())
            .map(|k| {
                let ix = unlin(&self.dims, k);
                let off: isize = ix.iter().zip(&self.str).map(|(&i, &s)| i as isize * s).sum();
                (self.ptr.wrapping_offset(off) as isize - base as isize) as i64 / size_of::<T>() as i64
            })
            .collect()
    }
}

trait MkLayout: Layout {
    fn mk<S: Shape>(raw: &Raw) -> Self::Mapping<S>;
}
impl MkLayout for Dense {
    fn mk<S: Shape>(raw: &Raw) -> DenseMapping<S> {
        DenseMapping::new(S::from_dims(&raw.dims))
    }
}
impl MkLayout for Strided {
    fn mk<S: Shape>(raw: &Raw) -> StridedMapping<S> {
        StridedMapping::new(S::from_dims(&raw.dims), &raw.str)
    }
}
fn view<'a, S: Shape, L: MkLayout>(raw: &Raw) -> View<'a, T, S, L> {
    unsafe { View::new_unchecked(raw.ptr, L::mk::<S>(raw)) }
}
fn view_mut<'a, S: Shape, L: MkLayout>(raw: &Raw) -> ViewMut<'a, T, S, L> {
    unsafe { ViewMut::new_unchecked(raw.ptr, L::mk::<S>(raw)) }
}

thread_local! { static META: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
fn meta_err(m: String) {
    META.with(|x| {
        let _ = x.borrow_mut().get_or_insert(m);
    });
}

/// Projection of a slice to the abstract state; also cross-checks the queries
/// that the library answers redundantly.
fn obs<S: Shape, L: Layout>(v: &Slice<T, S, L>) -> Raw {
    let r = v.rank();
    let dims: Vec<usize> = (0..r).map(|i| v.dim(i)).collect();
    let str: Vec<isize> = (0..r).map(|i| v.stride(i)).collect();
    let len: usize = dims.iter().product();
    if v.len() != len || v.is_empty() != (len == 0) {
        meta_err(format!("len {} is_empty {} for dims {:?}", v.len(), v.is_empty(), dims));
    }
    let m = v.mapping();
    if m.rank() != r || m.len() != len || m.is_empty() != (len == 0) || m.is_contiguous() != v.is_contiguous() {
        meta_err(format!("mapping queries disagree for dims {:?}", dims));
    }
    let sh = v.shape();
    if sh.rank() != r || sh.len() != len || (0..r).any(|i| sh.dim(i) != dims[i] || m.dim(i) != dims[i] || m.stride(i) != str[i]) {
        meta_err(format!("shape queries disagree for dims {:?}", dims));
    }
    if L::IS_DENSE && (str != dense_strides(&dims) || !v.is_contiguous()) {
        meta_err(format!("dense layout with dims {:?} strides {:?}", dims, str));
    }
    Raw { ptr: v.as_ptr() as *mut T, dims, str, contiguous: v.is_contiguous(), owned: None }
}
fn obs_mut<S: Shape, L: Layout>(v: &mut Slice<T, S, L>) -> Raw {
    let r = obs(v);
    if v.as_mut_ptr() as *const T != r.ptr as *const T {
        meta_err("as_mut_ptr differs from as_ptr".into());
    }
    r
}

/// A copy: the elements tell which cells were copied.
fn obs_owned<S: Shape>(v: &Slice<T, S>) -> Raw {
    let mut r = obs(v);
    let n = r.len();
    r.owned = Some((0..n).map(|k| unsafe { *r.ptr.add(k) } as i64 - 1000 - PAD as i64).collect());
    r
}

/// Calls `$m`/`$mm`/`$i` according to the flavour: shared slice method, View::into_*,
/// mutable slice method, ViewMut::into_*.
macro_rules! flav {
    ($raw:expr, $f:expr, $S:ty, $L:ty, $m:ident, $mm:ident, $i:ident $(::<$($g:ty),+>)?, ($($a:expr),*)) => {
        match $f {
            0 => { let v = view::<$S, $L>($raw); let s: &Slice<T, $S, $L> = &v; let r = obs(&s.$m$(::<$($g),+>)?($($a),*)); r }
            1 => obs(&view::<$S, $L>($raw).$i$(::<$($g),+>)?($($a),*)),
            2 => { let mut v = view_mut::<$S, $L>($raw); let s: &mut Slice<T, $S, $L> = &mut v; let r = obs_mut(&mut s.$mm$(::<$($g),+>)?($($a),*)); r }
            _ => obs_mut(&mut view_mut::<$S, $L>($raw).$i$(::<$($g),+>)?($($a),*)),
        }
    };
}
/// as above for pairs of views
macro_rules! flav2 {
    ($raw:expr, $f:expr, $S:ty, $L:ty, $m:ident, $mm:ident, $i:ident, ($($a:expr),*)) => {
        match $f {
            0 => { let v = view::<$S, $L>($raw); let s: &Slice<T, $S, $L> = &v; let (a, b) = s.$m($($a),*); vec![obs(&a), obs(&b)] }
            1 => { let (a, b) = view::<$S, $L>($raw).$i($($a),*); vec![obs(&a), obs(&b)] }
            2 => { let mut v = view_mut::<$S, $L>($raw); let s: &mut Slice<T, $S, $L> = &mut v; let (mut a, mut b) = s.$mm($($a),*); vec![obs_mut(&mut a), obs_mut(&mut b)] }
            _ => { let (mut a, mut b) = view_mut::<$S, $L>($raw).$i($($a),*); vec![obs_mut(&mut a), obs_mut(&mut b)] }
        }
    };
}

fn with_inferred(d: &[i64]) -> Vec<usize> {
    d.iter().map(|&x| if x < 0 { usize::MAX } else { big(x) }).collect()
}

/// Operations available for every shape type and layout. `alt` selects among
/// equivalent ways of writing the arguments (static/dynamic axis etc.).
fn any_ops<S: Shape, L: MkLayout>(raw: &Raw, op: &Op, f: usize, alt: usize) -> Vec<Raw> {
    let rank = raw.dims.len();
    match op.o.as_str() {
        "at" => vec![flav!(raw, f, S, L, at, at_mut, into_at, (op.u(0)))],
        "axis_at" => {
            let (k, i) = (op.u(0), op.u(1));
            let k2 = k;
            vec![match (alt % 3, k) {
                (1, _) if k + 1 == rank => flav!(raw, f, S, L, axis_at, axis_at_mut, into_axis_at, (Rows, i)),
                (1, _) if k + 2 == rank => flav!(raw, f, S, L, axis_at, axis_at_mut, into_axis_at, (Cols, i)),
                (1 | 2, 0) => flav!(raw, f, S, L, axis_at, axis_at_mut, into_axis_at, (Const::<0>, i)),
                (1 | 2, 1) => flav!(raw, f, S, L, axis_at, axis_at_mut, into_axis_at, (Const::<1>, i)),
                (1 | 2, 2) => flav!(raw, f, S, L, axis_at, axis_at_mut, into_axis_at, (Const::<2>, i)),
                (1 | 2, 3) => flav!(raw, f % 2 * 3, S, L, axis_at, axis_at_mut, into_axis_at, (Const::<3>, i)),
                _ => flav!(raw, f, S, L, axis_at, axis_at_mut, into_axis_at, (k2, i)),
            }]
        }
        "split" => {
            let (k, i) = (op.u(0), op.u(1));
            match (alt % 4, k) {
                (3, 0) => flav2!(raw, f, S, L, split_at, split_at_mut, into_split_at, (i)),
                (1, _) if k + 1 == rank => flav2!(raw, f, S, L, split_axis_at, split_axis_at_mut, into_split_axis_at, (Rows, i)),
                (1, _) if k + 2 == rank => flav2!(raw, f, S, L, split_axis_at, split_axis_at_mut, into_split_axis_at, (Cols, i)),
                (1 | 2, 0) => flav2!(raw, f, S, L, split_axis_at, split_axis_at_mut, into_split_axis_at, (Const::<0>, i)),
                (1 | 2, 1) => flav2!(raw, f, S, L, split_axis_at, split_axis_at_mut, into_split_axis_at, (Const::<1>, i)),
                (1 | 2, 2) => flav2!(raw, f, S, L, split_axis_at, split_axis_at_mut, into_split_axis_at, (Const::<2>, i)),
                (1 | 2, 3) => flav2!(raw, f % 2 * 3, S, L, split_axis_at, split_axis_at_mut, into_split_axis_at, (Const::<3>, i)),
                _ => flav2!(raw, f, S, L, split_axis_at, split_axis_at_mut, into_split_axis_at, (k, i)),
            }
        }
        "row" => vec![flav!(raw, f, S, L, row, row_mut, into_row, (op.u(0)))],
        "col" => vec![flav!(raw, f, S, L, col, col_mut, into_col, (op.u(0)))],
        "diag" => vec![flav!(raw, f, S, L, diag, diag_mut, into_diag, (bigi(op.a[0][0])))],
        "flatten" => vec![flav!(raw, f, S, L, flatten, flatten_mut, into_flat, ())],
        "reorder" => vec![flav!(raw, f, S, L, reorder, reorder_mut, into_reordered, ())],
        "dense" => vec![flav!(raw, f, S, L, remap, remap_mut, into_mapping::<S, Dense>, ())],
        "reshape" => {
            let d = with_inferred(&op.a[0]);
            vec![match (alt % 6, d.len()) {
                (0, _) => flav!(raw, f, S, L, reshape, reshape_mut, into_shape, (&d[..])),
                (3, _) => flav!(raw, f % 2 * 3, S, L, reshape, reshape_mut, into_shape, (d.into_boxed_slice())),
                (4, _) => flav!(raw, f % 2 * 3, S, L, reshape, reshape_mut, into_shape, (d.clone())),
                (5, 1) => flav!(raw, f % 2 * 3, S, L, reshape, reshape_mut, into_shape, (&[d[0]])),
                (5, 2) => flav!(raw, f % 2 * 3, S, L, reshape, reshape_mut, into_shape, (&[d[0], d[1]])),
                (5, 3) => flav!(raw, f % 2 * 3, S, L, reshape, reshape_mut, into_shape, (&[d[0], d[1], d[2]])),
                (_, 0) => flav!(raw, f, S, L, reshape, reshape_mut, into_shape, ([0usize; 0])),
                (2, 1) => flav!(raw, f, S, L, reshape, reshape_mut, into_shape, (d[0])),
                (_, 1) => flav!(raw, f, S, L, reshape, reshape_mut, into_shape, ([d[0]])),
                (_, 2) => flav!(raw, f, S, L, reshape, reshape_mut, into_shape, ([d[0], d[1]])),
                (_, 3) => flav!(raw, f, S, L, reshape, reshape_mut, into_shape, ([d[0], d[1], d[2]])),
                (1, 4) => flav!(raw, f, S, L, reshape, reshape_mut, into_shape, ([d[0], d[1], d[2], d[3]])),
                _ => flav!(raw, f % 2 * 3, S, L, reshape, reshape_mut, into_shape, (d)),
            }]
        }
        "permute" => {
            let p: Vec<usize> = op.a[0].iter().map(|&x| x as usize).collect();
            vec![match (alt % 6, &p[..]) {
                (3, _) => flav!(raw, f % 2 * 3, S, L, permute, permute_mut, into_permuted, (p.clone())),
                (4, _) => flav!(raw, f % 2 * 3, S, L, permute, permute_mut, into_permuted, (p.clone().into_boxed_slice())),
                (5, &[a]) => flav!(raw, f % 2 * 3, S, L, permute, permute_mut, into_permuted, (a)),
                (5, &[a, b]) => flav!(raw, f % 2 * 3, S, L, permute, permute_mut, into_permuted, (&[a, b])),
                (5, &[a, b, c]) => flav!(raw, f % 2 * 3, S, L, permute, permute_mut, into_permuted, (&[a, b, c])),
                (1, &[a]) => flav!(raw, f % 2 * 3, S, L, permute, permute_mut, into_permuted, ([a])),
                (1, &[a, b]) => flav!(raw, f, S, L, permute, permute_mut, into_permuted, ([a, b])),
                (1, &[a, b, c]) => flav!(raw, f, S, L, permute, permute_mut, into_permuted, ([a, b, c])),
                (1, &[a, b, c, d]) => flav!(raw, f % 2 * 3, S, L, permute, permute_mut, into_permuted, ([a, b, c, d])),
                (2, &[0]) => flav!(raw, f, S, L, permute, permute_mut, into_permuted, ((Const::<0>,))),
                (2, &[0, 1]) => flav!(raw, f, S, L, permute, permute_mut, into_permuted, ((Const::<0>, Const::<1>))),
                (2, &[1, 0]) => flav!(raw, f, S, L, permute, permute_mut, into_permuted, ((Const::<1>, Const::<0>))),
                (2, &[0, 1, 2]) => flav!(raw, f % 2 * 3, S, L, permute, permute_mut, into_permuted, ((Const::<0>, Const::<1>, Const::<2>))),
                (2, &[0, 2, 1]) => flav!(raw, f % 2 * 3, S, L, permute, permute_mut, into_permuted, ((Const::<0>, Const::<2>, Const::<1>))),
                (2, &[1, 0, 2]) => flav!(raw, f % 2 * 3, S, L, permute, permute_mut, into_permuted, ((Const::<1>, Const::<0>, Const::<2>))),
                (2, &[1, 2, 0]) => flav!(raw, f % 2 * 3, S, L, permute, permute_mut, into_permuted, ((Const::<1>, Const::<2>, Const::<0>))),
                (2, &[2, 0, 1]) => flav!(raw, f % 2 * 3, S, L, permute, permute_mut, into_permuted, ((Const::<2>, Const::<0>, Const::<1>))),
                (2, &[2, 1, 0]) => flav!(raw, f % 2 * 3, S, L, permute, permute_mut, into_permuted, ((Const::<2>, Const::<1>, Const::<0>))),
                _ => flav!(raw, f, S, L, permute, permute_mut, into_permuted, (&p[..])),
            }]
        }
        o => unreachable!("op {o}"),
    }
}

type C<const N: usize> = Const<N>;
/// Conversions to shape types; only instantiated for fully dynamic sources.
fn type_ops<S: Shape, L: MkLayout>(raw: &Raw, op: &Op, f: usize, alt: usize) -> Vec<Raw> {
    macro_rules! to {
        ($($p:pat => $R:ty),+ $(,)?) => {
            match (op.o.as_str(), &op.a[0][..]) {
                $(
                    ("remapc", $p) => {
                        if alt % 2 == 0 { vec![flav!(raw, f, S, L, remap, remap_mut, into_mapping::<$R, Strided>, ())] }
                        else { vec![flav!(raw, f, S, L, remap, remap_mut, into_mapping::<$R, L>, ())] }
                    }
                    ("reshapec", $p) => {
                        let d = with_inferred(&op.a[1]);
                        vec![flav!(raw, f, S, L, reshape, reshape_mut, into_shape, (<$R as Shape>::from_dims(&d)))]
                    }
                )+
                x => unreachable!("{x:?}"),
            }
        };
    }
    if op.o == "remapc" && op.a[0] == [-2] && alt % 3 == 0 {
        return vec![if f < 2 { obs(&view::<S, L>(raw).into_dyn()) } else { obs_mut(&mut view_mut::<S, L>(raw).into_dyn()) }];
    }
    to!(
        [-2] => DynRank,
        [] => (),
        [-1] => (Dyn,),
        [3] => (C<3>,),
        [2] => (C<2>,),
        [-1, -1] => (Dyn, Dyn),
        [2, 3] => (C<2>, C<3>),
        [-1, 3] => (Dyn, C<3>),
        [2, -1] => (C<2>, Dyn),
        [3, 2] => (C<3>, C<2>),
        [-1, -1, -1] => (Dyn, Dyn, Dyn),
        [2, -1, 2] => (C<2>, Dyn, C<2>),
        [-1, 3, -1] => (Dyn, C<3>, Dyn),
        [2, 3, 2] => (C<2>, C<3>, C<2>),
        [-1, -1, -1, -1] => (Dyn, Dyn, Dyn, Dyn),
    )
}

// ------------------------------------------------------------ view(..) arguments
#[derive(Clone, Copy)]
struct Arg {
    k: i64,
    lo: usize,
    hi: usize,
    s: isize,
}
fn args(op: &Op) -> Vec<Arg> {
    op.a.iter().map(|a| Arg { k: a[0], lo: big(a[1]), hi: big(a[2]), s: bigi(a[3]) }).collect()
}
/// all argument kinds
macro_rules! arg4 {
    ($a:expr, $x:ident => $body:expr) => {
        match $a.k {
            0 => { let $x = $a.lo; $body }
            1 => { let $x = ..; $body }
            2 => { let $x = $a.lo..$a.hi; $body }
            _ => { let $x = step($a.lo..$a.hi, $a.s); $body }
        }
    };
}
/// kinds used for higher ranks (plain ranges become steps of one)
macro_rules! arg3 {
    ($a:expr, $x:ident => $body:expr) => {
        match $a.k {
            0 => { let $x = $a.lo; $body }
            1 => { let $x = ..; $body }
            _ => { let $x = step($a.lo..$a.hi, if $a.k == 2 { 1 } else { $a.s }); $body }
        }
    };
}
macro_rules! arg2 {
    ($a:expr, $x:ident => $body:expr) => {
        match $a.k {
            1 => { let $x = ..; $body }
            2 => { let $x = $a.lo..$a.hi; $body }
            _ => { let $x = step($a.lo..$a.hi, $a.s); $body }
        }
    };
}

/// single index or step
macro_rules! argis {
    ($a:expr, $n:expr, $x:ident => $body:expr) => {
        match $a.k {
            0 => { let $x = $a.lo; $body }
            1 => { let $x = step(0..$n, 1); $body }
            _ => { let $x = step($a.lo..$a.hi, if $a.k == 2 { 1 } else { $a.s }); $body }
        }
    };
}

fn view1<X: Dim, L: MkLayout>(raw: &Raw, op: &Op, f: usize, alt: usize) -> Vec<Raw> {
    let a = args(op);
    let a = a[0];
    type S1<X> = (X,);
    let (lo, hi) = (a.lo, a.hi);
    let size = raw.dims[0];
    macro_rules! go { ($x:expr) => { if f == 4 { vec![obs_owned(&view::<S1<X>, L>(raw).tensor($x))] } else { vec![flav!(raw, f, S1<X>, L, view, view_mut, into_view, ($x))] } }; }
    if a.k == 2 || (a.k == 3 && alt % 2 == 1) {
        macro_rules! rng { ($r:expr) => { if a.k == 2 { go!($r) } else { go!(step($r, a.s)) } }; }
        // one past the largest number is not a number
        if hi == usize::MAX && alt % 4 == 1 {
            return if lo == 0 { rng!(..=hi) } else { rng!(lo..=hi) };
        }
        if lo == usize::MAX && alt % 4 == 2 {
            return rng!((Bound::Excluded(lo), Bound::Unbounded));
        }
        return match alt % 7 {
            1 if hi == size => rng!(lo..),
            2 if lo == 0 => rng!(..hi),
            3 if hi > 0 => rng!(lo..=hi - 1),
            4 if lo == 0 && hi > 0 => rng!(..=hi - 1),
            5 => rng!((if lo == 0 { Bound::Unbounded } else { Bound::Excluded(lo - 1) }, Bound::Excluded(hi))),
            6 if hi > 0 => rng!((Bound::Included(lo), Bound::Included(hi - 1))),
            _ => rng!(lo..hi),
        };
    }
    arg4!(a, x => go!(x))
}
fn view2<X: Dim, Y: Dim, L: MkLayout>(raw: &Raw, op: &Op, f: usize) -> Vec<Raw> {
    let a = args(op);
    type S2<X, Y> = (X, Y);
    if f == 4 {
        return arg4!(a[0], x => arg4!(a[1], y => vec![obs_owned(&view::<S2<X, Y>, L>(raw).tensor(x, y))]));
    }
    arg4!(a[0], x => arg4!(a[1], y => vec![flav!(raw, f, S2<X, Y>, L, view, view_mut, into_view, (x, y))]))
}
fn view3<X: Dim, Y: Dim, Z: Dim, L: MkLayout>(raw: &Raw, op: &Op, f: usize) -> Vec<Raw> {
    let a = args(op);
    type S3<X, Y, Z> = (X, Y, Z);
    if f == 4 {
        return arg4!(a[0], x => arg4!(a[1], y => arg4!(a[2], z => vec![obs_owned(&view::<S3<X, Y, Z>, L>(raw).tensor(x, y, z))])));
    }
    arg4!(a[0], x => arg4!(a[1], y => arg4!(a[2], z => vec![flav!(raw, f % 2 * 3, S3<X, Y, Z>, L, view, view_mut, into_view, (x, y, z))])))
}
fn view4<L: MkLayout>(raw: &Raw, op: &Op, f: usize) -> Vec<Raw> {
    let a = args(op);
    type S = (Dyn, Dyn, Dyn, Dyn);
    if f == 4 {
        arg2!(a[0], x => arg3!(a[2], z => vec![obs_owned(&view::<S, L>(raw).tensor(x, a[1].lo, z, ..))]))
    } else if f % 2 == 0 {
        arg3!(a[0], x => arg3!(a[1], y => arg3!(a[2], z => arg3!(a[3], w => vec![obs(&view::<S, L>(raw).view(x, y, z, w))]))))
    } else {
        arg3!(a[0], x => arg3!(a[1], y => arg3!(a[2], z => arg3!(a[3], w => vec![obs_mut(&mut view_mut::<S, L>(raw).view_mut(x, y, z, w))]))))
    }
}
fn view5<L: MkLayout>(raw: &Raw, op: &Op, f: usize) -> Vec<Raw> {
    let a = args(op);
    type S = (Dyn, Dyn, Dyn, Dyn, Dyn);
    let d = &raw.dims;
    if other_view_args(raw, op) {
        return argis!(a[0], d[0], x => argis!(a[1], d[1], y => argis!(a[2], d[2], z => argis!(a[3], d[3], w => argis!(a[4], d[4], u =>
            vec![obs(&view::<S, L>(raw).view(x, y, z, w, u))])))));
    }
    if a[0].k == 0 {
        return arg2!(a[4], u => if f == 4 { vec![obs_owned(&view::<S, L>(raw).tensor(a[0].lo, .., a[2].lo.., .., u))] }
            else { vec![flav!(raw, f, S, L, view, view_mut, into_view, (a[0].lo, .., a[2].lo.., .., u))] });
    }
    arg2!(a[0], x => arg2!(a[4], u => vec![flav!(raw, f, S, L, view, view_mut, into_view, (x, a[1].lo, .., .., u))]))
}
fn view6<L: MkLayout>(raw: &Raw, op: &Op, f: usize) -> Vec<Raw> {
    let a = args(op);
    type S = (Dyn, Dyn, Dyn, Dyn, Dyn, Dyn);
    let d = &raw.dims;
    if other_view_args(raw, op) {
        return argis!(a[0], d[0], x => argis!(a[1], d[1], y => argis!(a[2], d[2], z => argis!(a[3], d[3], w => argis!(a[4], d[4], u => argis!(a[5], d[5], v =>
            vec![obs_mut(&mut view_mut::<S, L>(raw).into_view(x, y, z, w, u, v))]))))));
    }
    if a[0].k == 0 {
        return arg2!(a[5], u => if f == 4 { vec![obs_owned(&view::<S, L>(raw).tensor(a[0].lo, .., a[2].lo.., .., .., u))] }
            else { vec![flav!(raw, f, S, L, view, view_mut, into_view, (a[0].lo, .., a[2].lo.., .., .., u))] });
    }
    arg2!(a[0], x => arg2!(a[5], u => vec![flav!(raw, f, S, L, view, view_mut, into_view, (x, a[1].lo, .., a[3].lo, .., u))]))
}

/// Copies of sub-arrays with constant sizes.
fn array_ops<L: MkLayout>(raw: &Raw, op: &Op) -> Option<Vec<Raw>> {
    let a = args(op);
    let i = |k: usize| a[k].lo;
    let kinds: Vec<i64> = a.iter().map(|x| x.k).collect();
    let v1 = || view::<(C<3>,), L>(raw);
    let v2 = || view::<(C<2>, C<3>), L>(raw);
    let v3 = || view::<(C<2>, C<3>, C<2>), L>(raw);
    let v4 = || view::<(C<1>, C<2>, C<1>, C<2>), L>(raw);
    let v5 = || view::<(C<2>, C<1>, C<2>, C<1>, C<2>), L>(raw);
    let v6 = || view::<(C<1>, C<2>, C<1>, C<2>, C<1>, C<2>), L>(raw);
    Some(vec![match (&raw.dims[..], &kinds[..]) {
        ([3], [0]) => obs_owned(&v1().array(i(0))),
        ([3], [1]) => obs_owned(&v1().array(..)),
        ([2, 3], [0, 0]) => obs_owned(&v2().array(i(0), i(1))),
        ([2, 3], [0, 1]) => obs_owned(&v2().array(i(0), ..)),
        ([2, 3], [1, 0]) => obs_owned(&v2().array(.., i(1))),
        ([2, 3], [1, 1]) => obs_owned(&v2().array(.., ..)),
        ([2, 3, 2], [0, 1, 1]) => obs_owned(&v3().array(i(0), .., ..)),
        ([2, 3, 2], [1, 0, 1]) => obs_owned(&v3().array(.., i(1), ..)),
        ([2, 3, 2], [1, 1, 0]) => obs_owned(&v3().array(.., .., i(2))),
        ([2, 3, 2], [0, 0, 1]) => obs_owned(&v3().array(i(0), i(1), ..)),
        ([2, 3, 2], [1, 0, 0]) => obs_owned(&v3().array(.., i(1), i(2))),
        ([1, 2, 1, 2], [0, 1, 1, 1]) => obs_owned(&v4().array(i(0), .., .., ..)),
        ([1, 2, 1, 2], [1, 0, 1, 1]) => obs_owned(&v4().array(.., i(1), .., ..)),
        ([1, 2, 1, 2], [1, 1, 0, 1]) => obs_owned(&v4().array(.., .., i(2), ..)),
        ([1, 2, 1, 2], [1, 1, 1, 0]) => obs_owned(&v4().array(.., .., .., i(3))),
        ([2, 1, 2, 1, 2], [0, 1, 1, 1, 1]) => obs_owned(&v5().array(i(0), .., .., .., ..)),
        ([2, 1, 2, 1, 2], [1, 1, 0, 1, 1]) => obs_owned(&v5().array(.., .., i(2), .., ..)),
        ([2, 1, 2, 1, 2], [1, 1, 1, 1, 0]) => obs_owned(&v5().array(.., .., .., .., i(4))),
        ([1, 2, 1, 2, 1, 2], [1, 0, 1, 1, 1, 1]) => obs_owned(&v6().array(.., i(1), .., .., .., ..)),
        ([1, 2, 1, 2, 1, 2], [1, 1, 1, 0, 1, 1]) => obs_owned(&v6().array(.., .., .., i(3), .., ..)),
        ([1, 2, 1, 2, 1, 2], [1, 1, 1, 1, 1, 0]) => obs_owned(&v6().array(.., .., .., .., .., i(5))),
        _ => return None,
    }])
}

fn exec_any<L: MkLayout>(raw: &Raw, op: &Op, car: usize, f: usize, alt: usize) -> Option<Vec<Raw>> {
    let d = &raw.dims[..];
    let types = op.o == "remapc" || op.o == "reshapec";
    if op.o == "view" && f == 5 {
        return array_ops::<L>(raw, op);
    }
    if op.o == "view" && f == 4 && d.len() == 4 && (op.a[0][0] == 0 || op.a[1][0] != 0 || op.a[3][0] != 1) {
        return None;
    }
    if op.o == "view" && f > 0 && d.len() > 4 && (other_view_args(raw, op) || (f == 4 && op.a[0][0] != 0)) {
        return None;
    }
    if op.o != "view" && f > 3 {
        return None;
    }
    if op.o == "view" {
        return Some(match (car, d) {
            (0, [_]) => view1::<Dyn, L>(raw, op, f, alt),
            (0, [_, _]) => view2::<Dyn, Dyn, L>(raw, op, f),
            (0, [_, _, _]) => view3::<Dyn, Dyn, Dyn, L>(raw, op, f),
            (0, [_, _, _, _]) => view4::<L>(raw, op, f),
            (0, [_, _, _, _, _]) => view5::<L>(raw, op, f),
            (0, [_, _, _, _, _, _]) => view6::<L>(raw, op, f),
            (2, [3]) => view1::<C<3>, L>(raw, op, f, alt),
            (2, [4]) => view1::<C<4>, L>(raw, op, f, alt),
            (2, [2, 3]) => view2::<C<2>, C<3>, L>(raw, op, f),
            (3, [_, 2]) => view2::<Dyn, C<2>, L>(raw, op, f),
            (3, [3, _]) => view2::<C<3>, Dyn, L>(raw, op, f),
            (2, [2, _, 2]) => view3::<C<2>, Dyn, C<2>, L>(raw, op, f),
            _ => return None,
        });
    }
    macro_rules! table {
        ($($c:literal, $p:pat => $S:ty),+ $(,)?) => {
            match (car, d) {
                $( ($c, $p) => if types { return None } else { any_ops::<$S, L>(raw, op, f, alt) }, )+
                (0, []) => dynt::<(), L>(raw, op, f, alt, types),
                (0, [_]) => dynt::<(Dyn,), L>(raw, op, f, alt, types),
                (0, [_, _]) => dynt::<(Dyn, Dyn), L>(raw, op, f, alt, types),
                (0, [_, _, _]) => dynt::<(Dyn, Dyn, Dyn), L>(raw, op, f, alt, types),
                (0, [_, _, _, _]) => if types { return None } else { any_ops::<(Dyn, Dyn, Dyn, Dyn), L>(raw, op, f, alt) },
                (0, [_, _, _, _, _]) => if types { return None } else { any_ops::<(Dyn, Dyn, Dyn, Dyn, Dyn), L>(raw, op, f, alt) },
                (0, [_, _, _, _, _, _]) => if types { return None } else { any_ops::<(Dyn, Dyn, Dyn, Dyn, Dyn, Dyn), L>(raw, op, f, alt) },
                (1, _) => dynt::<DynRank, L>(raw, op, f, alt, types),
                _ => return None,
            }
        };
    }
    fn dynt<S: Shape, L: MkLayout>(raw: &Raw, op: &Op, f: usize, alt: usize, types: bool) -> Vec<Raw> {
        if types { type_ops::<S, L>(raw, op, f, alt) } else { any_ops::<S, L>(raw, op, f, alt) }
    }
    Some(table!(
        2, [3] => (C<3>,),
        2, [2, 3] => (C<2>, C<3>),
        3, [_, 2] => (Dyn, C<2>),
        2, [2, 3, 2] => (C<2>, C<3>, C<2>),
        3, [2, _, _] => (C<2>, Dyn, Dyn),
    ))
}
const CARRIERS: usize = 4;

/// Executes `op` with the given carrier; outer `None`: carrier not applicable,
/// inner `None`: the operation panicked.
fn exec(raw: &Raw, op: &Op, dense: bool, car: usize, f: usize, alt: usize) -> Option<Option<Vec<Raw>>> {
    if dense && !raw.strictly_dense() {
        return None;
    }
    if op.o == "view" && (raw.dims.len() != op.a.len()) {
        return None;
    }
    let mut na = false;
    let r = trap(|| {
        let r = if dense { exec_any::<Dense>(raw, op, car, f, alt) } else { exec_any::<Strided>(raw, op, car, f, alt) };
        na = r.is_none();
        r
    });
    if na { None } else { Some(r.map(|x| x.unwrap())) }
}
/// For ranks 5 and 6 only some patterns are instantiated with unbounded ranges,
/// the others use steps.
fn other_view_args(raw: &Raw, op: &Op) -> bool {
    let a = args(op);
    let full = |i: usize| a[i].k == 1;
    let idx = |i: usize| a[i].k == 0;
    let from = |i: usize| a[i].k == 2 && a[i].hi == raw.dims[i];
    match raw.dims.len() {
        5 if idx(0) => !(full(1) && from(2) && full(3) && !idx(4)),
        5 => !(idx(1) && full(2) && full(3) && !idx(4)),
        6 if idx(0) => !(full(1) && from(2) && full(3) && full(4) && !idx(5)),
        6 => !(idx(1) && full(2) && idx(3) && full(4) && !idx(5)),
        _ => false,
    }
}

// ------------------------------------------------------------------ base arrays
struct Store {
    buf: Vec<T>,
    n: usize,
}
impl Store {
    fn new(n: usize) -> Store {
        Store { buf: (0..(n + 2 * PAD) as T).map(|x| 1000 + x).collect(), n }
    }
    fn base(&mut self) -> *mut T {
        unsafe { self.buf.as_mut_ptr().add(PAD) }
    }
    fn orig(i: usize) -> T {
        1000 + i as T
    }
}
fn base_raw(st: &mut Store, dims: &[usize]) -> Raw {
    Raw { ptr: st.base(), dims: dims.to_vec(), str: dense_strides(dims), contiguous: true, owned: None }
}

struct Expect {
    kind: String,
    dims: Vec<usize>,
    cells: Vec<i64>,
    str: Vec<i64>,
}
impl Expect {
    fn parse(v: &Value) -> Expect {
        Expect {
            kind: v["k"].as_str().unwrap().into(),
            dims: usizes(&v["d"]),
            cells: ints(&v["c"]),
            str: ints(&v["s"]),
        }
    }
}

fn compare(e: &Expect, got: &Option<Vec<Raw>>, half: usize, base: *const T) -> Result<(), String> {
    match (e.kind.as_str(), got) {
        ("panic", None) | ("gap", None) => Ok(()),
        ("panic", Some(r)) => Err(format!("expected panic, got dims {:?} cells {:?}", r[half.min(r.len() - 1)].dims, r[half.min(r.len() - 1)].cells(base))),
        ("ok", None) => Err("unexpected panic".into()),
        (_, Some(r)) => {
            let r = &r[if r.len() > 1 { half } else { 0 }];
            if r.dims != e.dims {
                return Err(format!("dims {:?}, expected {:?}", r.dims, e.dims));
            }
            let c = r.cells(base);
            if c != e.cells {
                return Err(format!("cells {c:?}, expected {:?} (dims {:?}, strides {:?})", e.cells, r.dims, r.str));
            }
            if r.len() > 0 && r.owned.is_none() {
                let ds = dense_strides(&r.dims);
                let mut loose = true;
                let mut strict = true;
                for i in 0..r.dims.len() {
                    if r.dims[i] > 1 && r.str[i] as i64 != e.str[i] {
                        return Err(format!("stride({i}) = {}, expected {}", r.str[i], e.str[i]));
                    }
                    loose &= r.dims[i] <= 1 || r.str[i] == ds[i];
                    strict &= r.str[i] == ds[i];
                }
                if strict && !r.contiguous || !loose && r.contiguous {
                    return Err(format!("is_contiguous() = {} for dims {:?} strides {:?}", r.contiguous, r.dims, r.str));
                }
            }
            if let Some(m) = META.with(|x| x.borrow_mut().take()) {
                return Err(m);
            }
            Ok(())
        }
        _ => unreachable!(),
    }
}

fn half_of(op: &Op) -> usize {
    if op.o == "split" { op.a[0][2] as usize } else { 0 }
}

/// Operation classes that the running check is about (VOWN); a deviation in a
/// step of another class is that class' business and the path continues from
/// the view of the specification.
fn owned(op: &Op) -> bool {
    let class = match op.o.as_str() {
        "at" | "axis_at" | "row" | "col" | "diag" | "split" | "view" => "select",
        _ => "trans",
    };
    std::env::var("VOWN").unwrap_or_default().split(',').any(|c| c == class)
}
fn spec_raw(base: *mut T, v: &Value) -> Raw {
    let off = v["f"].as_i64().unwrap() as isize;
    Raw {
        ptr: base.wrapping_offset(off),
        dims: usizes(&v["d"]),
        str: ints(&v["s"]).iter().map(|&x| x as isize).collect(),
        contiguous: false,
        owned: None,
    }
}

/// Follows a path of operations (each expected to succeed).
fn follow(st: &mut Store, dims: &[usize], path: &[Value], rng: &mut Rng, muts: bool) -> Result<Raw, String> {
    let base = st.base();
    let mut raw = base_raw(st, dims);
    for (i, step) in path.iter().enumerate() {
        let op = &Op::parse(step);
        let want = spec_raw(base, step);
        let mut done = false;
        let mut res = None;
        for _ in 0..20 {
            let f = if muts { 2 + rng.below(2) } else { rng.below(4) };
            if let Some(r) = exec(&raw, op, rng.chance(1, 2), rng.below(CARRIERS), f, rng.below(12)) {
                res = r;
                done = true;
                break;
            }
        }
        if !done {
            match exec(&raw, op, false, 0, if muts { 2 } else { 0 }, 0) {
                Some(r) => res = r,
                None => {
                    raw = want;
                    continue;
                }
            }
        }
        META.with(|x| x.borrow_mut().take());
        let got = res.map(|r| r[if r.len() > 1 { half_of(op) } else { 0 }].clone());
        raw = match got {
            Some(g) if g.dims == want.dims && g.cells(base) == want.cells(base) => g,
            _ if !owned(op) => want,
            None => return Err(format!("step {i} of the path panicked: {op:?}")),
            Some(g) => return Err(format!("step {i} of the path, {op:?}: dims {:?} cells {:?}", g.dims, g.cells(base))),
        };
    }
    Ok(raw)
}

/// number of equivalent ways to write the same request
fn alts(op: &Op, rank: usize) -> usize {
    match op.o.as_str() {
        "view" if rank == 1 => 14,
        "axis_at" => 3,
        "reshape" | "permute" => 6,
        "split" => 4,
        "remapc" => 6,
        _ => 1,
    }
}

fn replay_case(case: &Value, _: u64, rng: &mut Rng) -> Result<u64, String> {
    let dims = usizes(&case["b"]);
    let path = case["h"].as_array().unwrap();
    let op = Op::parse(&case["o"]);
    let n: usize = dims.iter().product();
    let mut st = Store::new(n);
    let base = st.base();
    let raw = follow(&mut st, &dims, path, rng, false)?;
    if op.o == "index" {
        return index_case(case, &raw, base);
    }
    let e = Expect::parse(case);
    let half = half_of(&op);
    let mut execs = 0;
    let alts = alts(&op, raw.dims.len());
    for car in 0..CARRIERS {
        for dense in [false, true] {
            // all forms of the receiver, then copies made from every form of the view operation
            for f in 0..5 {
                let f = if f < 4 { f } else if op.o == "view" { if car == 2 { 5 } else { 4 } } else { continue };
                for alt in 0..alts {
                    let Some(got) = exec(&raw, &op, dense, car, f, alt) else { continue };
                    execs += 1;
                    compare(&e, &got, half, base).map_err(|m| {
                        format!("{m} [shape kind {car}, {} layout, flavour {f}, alt {alt}, source dims {:?} strides {:?}]",
                            if dense { "dense" } else { "strided" }, raw.dims, raw.str)
                    })?;
                }
            }
        }
    }
    if st.buf.iter().enumerate().any(|(k, &x)| x != Store::orig(k)) {
        return Err("storage changed by creating a view".into());
    }
    Ok(execs)
}

/// Only compares the shape kinds with each other: same elements, shape, strides
/// and the same decision to accept or refuse.
fn kinds_case(case: &Value, _: u64, rng: &mut Rng) -> Result<u64, String> {
    let dims = usizes(&case["b"]);
    let path = case["h"].as_array().unwrap();
    let op = Op::parse(&case["o"]);
    let mut st = Store::new(dims.iter().product());
    let base = st.base();
    let raw = follow(&mut st, &dims, path, rng, false)?;
    let half = half_of(&op);
    let mut execs = 0;
    let alts = alts(&op, raw.dims.len());
    for dense in [false, true] {
        let mut first: Option<(String, String)> = None;
        for car in 0..CARRIERS {
            for q in 0..4 * alts {
                let (f, alt) = (q % 4, q / 4);
                let Some(got) = exec(&raw, &op, dense, car, f, alt) else { continue };
                let meta = META.with(|x| x.borrow_mut().take());
                execs += 1;
                let sig = match got {
                    None => "panic".to_string(),
                    Some(r) => {
                        let r = &r[if r.len() > 1 { half } else { 0 }];
                        let st: Vec<isize> = if r.len() == 0 { vec![] } else { (0..r.dims.len()).filter(|&k| r.dims[k] > 1).map(|k| r.str[k]).collect() };
                        format!("dims {:?} cells {:?} strides {st:?} queries {meta:?}", r.dims, r.cells(base))
                    }
                };
                let how = format!("shape kind {car}, flavour {f}, alt {alt}");
                match &first {
                    None => first = Some((sig, how)),
                    Some((s, h)) if *s != sig => {
                        return Err(format!("{op:?} on dims {:?} strides {:?} (dense {dense}): {h} gives {s}; {how} gives {sig}", raw.dims, raw.str));
                    }
                    _ => {}
                }
            }
        }
    }
    Ok(execs)
}

// ------------------------------------------------------------- element access
macro_rules! fixed {
    ($ix:expr, [$($n:literal),+], $a:ident => $body:expr, $o:expr) => {
        match $ix.len() { $( $n => { let $a: [usize; $n] = $ix[..].try_into().unwrap(); $body } )+ _ => $o }
    };
}
fn index_with<S: Shape, L: MkLayout>(case: &Value, raw: &Raw, base: *const T) -> Result<u64, String> {
    let at = |p: *const T| ((p as isize) - (base as isize)) as i64 / size_of::<T>() as i64;
    let mut n = 0;
    let probes = case["o"]["a"].as_array().unwrap();
    let exp = ints(&case["e"]);
    macro_rules! arr {
        ($v:expr, $ix:expr, [$($n:literal),+]) => {
            match $ix.len() {
                $( $n => { let a: [usize; $n] = $ix[..].try_into().unwrap(); at(&$v[a] as *const T) } )+
                _ => at(&$v[&$ix[..]] as *const T),
            }
        };
    }
    macro_rules! arr_mut {
        ($v:expr, $ix:expr, [$($n:literal),+]) => {
            match $ix.len() {
                $( $n => { let a: [usize; $n] = $ix[..].try_into().unwrap(); at(&mut $v[a] as *mut T) } )+
                _ => at(&mut $v[&$ix[..]] as *mut T),
            }
        };
    }
    for (p, &e) in probes.iter().zip(&exp) {
        let ix: Vec<usize> = ints(p).into_iter().map(big).collect();
        let v = view::<S, L>(raw);
        let s: &Slice<T, S, L> = &v;
        let mut got = vec![
            ("slice[&[usize]]", trap(|| at(&s[&ix[..]] as *const T))),
            ("slice[[usize; N]]", trap(|| arr!(s, ix, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]))),
            ("view[..]", trap(|| arr!(v, ix, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]))),
        ];
        let mut vm = view_mut::<S, L>(raw);
        got.push(("view_mut[..]", trap(|| at(&vm[&ix[..]] as *const T))));
        got.push(("view_mut[..] (mut)", trap(|| arr_mut!(vm, ix, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]))));
        let sm: &mut Slice<T, S, L> = &mut vm;
        got.push(("slice[..] (mut)", trap(|| at(&mut sm[&ix[..]] as *mut T))));
        if e >= 0 {
            got.push(("get_unchecked", trap(|| unsafe { at(s.get_unchecked(&ix[..]) as *const T) })));
            let sm: &mut Slice<T, S, L> = &mut vm;
            got.push(("get_unchecked_mut", trap(|| unsafe { at(sm.get_unchecked_mut(&ix[..]) as *mut T) })));
        }
        if e >= 0 {
            got.push(("get_unchecked([usize; N])", trap(|| fixed!(ix, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], a => unsafe { at(s.get_unchecked(a)) }, e))));
            got.push(("get_unchecked_mut([usize; N])", trap(|| fixed!(ix, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], a => unsafe { at(vm.get_unchecked_mut(a)) }, e))));
        }
        for (w, g) in got {
            n += 1;
            if g.unwrap_or(-1) != e || (g.is_some() && e < 0) {
                return Err(format!("{w} at {ix:?}: cell {g:?}, expected {e} (dims {:?} strides {:?})", raw.dims, raw.str));
            }
        }
    }
    for (k, &e) in ints(&case["lq"]).iter().zip(&ints(&case["l"])) {
        let k = big(*k);
        let v = view::<S, L>(raw);
        let mut vm = view_mut::<S, L>(raw);
        let mut got = vec![
            ("view[usize]", trap(|| at(&v[k] as *const T))),
            ("slice[usize]", trap(|| at(&(*v)[k] as *const T))),
            ("view_mut[usize]", trap(|| at(&vm[k] as *const T))),
            ("view_mut[usize] (mut)", trap(|| at(&mut vm[k] as *mut T))),
            ("slice[usize] (mut)", trap(|| at(&mut (*vm)[k] as *mut T))),
        ];
        if e >= 0 {
            got.push(("get_unchecked(usize)", trap(|| unsafe { at((*v).get_unchecked(k) as *const T) })));
            got.push(("get_unchecked_mut(usize)", trap(|| unsafe { at((*vm).get_unchecked_mut(k) as *mut T) })));
        }
        for (w, g) in got {
            n += 1;
            if g.unwrap_or(-1) != e || (g.is_some() && e < 0) {
                return Err(format!("{w} at {k}: cell {g:?}, expected {e} (dims {:?} strides {:?})", raw.dims, raw.str));
            }
        }
    }
    let v = view::<S, L>(raw);
    // the same queries on a dynamic rank or explicit strides
    {
        let d = view::<DynRank, L>(raw);
        let st = view::<S, Strided>(raw);
        let ds = view::<DynRank, Strided>(raw);
        if d.dims() != &raw.dims[..] || d.shape().dims() != &raw.dims[..] || ds.dims() != &raw.dims[..] {
            return Err(format!("dims() {:?} for dims {:?}", d.dims(), raw.dims));
        }
        if st.strides() != &raw.str[..] || ds.strides() != &raw.str[..] {
            return Err(format!("strides() {:?} for strides {:?}", st.strides(), raw.str));
        }
    }
    // queries reject dimensions that do not exist
    let r = raw.dims.len();
    if trap(|| v.dim(r)).is_some() || trap(|| v.stride(r)).is_some() || trap(|| v.shape().dim(r)).is_some() {
        return Err(format!("dim/stride({r}) of rank {r} accepted"));
    }
    Ok(n)
}
/// every way of writing the range `lo..hi`, on a shared and on a mutable place
macro_rules! range_forms {
    ($v:expr, $vm:expr, $cells:expr, $lo:expr, $hi:expr, $len:expr, $f:ident, $fm:ident) => {{
        let (lo, hi, len): (usize, usize, usize) = ($lo, $hi, $len);
        let cells = $cells;
        let mut got: Vec<(&str, Option<Vec<i64>>)> = vec![];
        macro_rules! put { ($w:literal, $r:expr) => {
            got.push((concat!(stringify!($v), $w), trap(|| cells($f!($v, $r)))));
            got.push((concat!("mut ", stringify!($vm), $w), trap(|| cells($fm!($vm, $r)))));
        }; }
        put!("[lo..hi]", lo..hi);
        put!("[bounds]", (Bound::Included(lo), Bound::Excluded(hi)));
        if hi == len {
            put!("[lo..]", lo..);
            put!("[(Included, Unbounded)]", (Bound::Included(lo), Bound::Unbounded));
            if lo > 0 { put!("[(Excluded, Unbounded)]", (Bound::Excluded(lo - 1), Bound::Unbounded)); }
        }
        if lo == 0 {
            put!("[..hi]", ..hi);
            put!("[(Unbounded, Excluded)]", (Bound::Unbounded, Bound::Excluded(hi)));
            if hi == len { put!("[..]", ..); }
        }
        if hi == usize::MAX {
            put!("[lo..=MAX]", lo..=hi);
            put!("[..=MAX]", ..=hi);
        }
        if hi > 0 {
            put!("[lo..=hi-1]", lo..=hi - 1);
            put!("[(Included, Included)]", (Bound::Included(lo), Bound::Included(hi - 1)));
            if lo == 0 { put!("[..=hi-1]", ..=hi - 1); }
        }
        got
    }};
}
macro_rules! by_index { ($v:expr, $r:expr) => { &$v[$r] }; }
macro_rules! by_index_mut { ($v:expr, $r:expr) => { &mut $v[$r] }; }
macro_rules! unchecked { ($v:expr, $r:expr) => { unsafe { $v.get_unchecked($r) } }; }
macro_rules! unchecked_mut { ($v:expr, $r:expr) => { unsafe { $v.get_unchecked_mut($r) } }; }

fn range_queries(case: &Value) -> Vec<(usize, usize, Vec<i64>)> {
    case["rq"].as_array().unwrap().iter().zip(case["re"].as_array().unwrap())
        .map(|(q, e)| { let q = ints(q); (big(q[0]), big(q[1]), ints(e)) }).collect()
}
fn range_verdict(got: Vec<(&str, Option<Vec<i64>>)>, lo: usize, hi: usize, e: &[i64], dims: &[usize]) -> Result<u64, String> {
    let n = got.len() as u64;
    for (w, g) in got {
        let ok = match &g {
            None => e == [-1],
            Some(g) => g == e,
        };
        if !ok {
            return Err(format!("{w} with {lo}..{hi}: cells {g:?}, expected {e:?} (dims {dims:?})"));
        }
    }
    Ok(n)
}
fn ranges_with<S: Shape>(case: &Value, raw: &Raw, base: *const T) -> Result<u64, String> {
    let cells = |p: &[T]| -> Vec<i64> {
        let b = (p.as_ptr() as isize - base as isize) as i64 / size_of::<T>() as i64;
        (0..p.len() as i64).map(|i| b + i).collect()
    };
    let mut n = 0;
    let len = raw.len();
    for (lo, hi, e) in range_queries(case) {
        let view = view::<S, Dense>(raw);
        let mut view_mut = view_mut::<S, Dense>(raw);
        n += range_verdict(range_forms!(view, view_mut, cells, lo, hi, len, by_index, by_index_mut), lo, hi, &e, &raw.dims)?;
        let slice: &Slice<T, S> = &view;
        let slice_mut: &mut Slice<T, S> = &mut view_mut;
        n += range_verdict(range_forms!(slice, slice_mut, cells, lo, hi, len, by_index, by_index_mut), lo, hi, &e, &raw.dims)?;
        if e != [-1] {
            n += range_verdict(range_forms!(slice, slice_mut, cells, lo, hi, len, unchecked, unchecked_mut), lo, hi, &e, &raw.dims)?;
        }
        let shared_view_mut = &view_mut;
        let mut other = self::view_mut::<S, Dense>(raw);
        n += range_verdict(range_forms!(shared_view_mut, other, cells, lo, hi, len, by_index, by_index_mut), lo, hi, &e, &raw.dims)?;
    }
    Ok(n)
}

/// what the probe expects, where there is no such form of it
fn skip(e: i64) -> i64 {
    if e < 0 { panic!("out of bounds") } else { e }
}

/// The same probes on arrays that own their elements: positions count from the
/// first element, which is where the specification's base array starts.
macro_rules! owned_probes {
    ($name:ident, $A:ty $(, $G:ident : $B:ident)?) => {
        fn $name$(<$G: $B>)?(case: &Value, mut array: $A, dims: &[usize]) -> Result<u64, String> {
            let base = array.as_ptr() as isize;
            let at = |p: *const T| (p as isize - base) as i64 / size_of::<T>() as i64;
            let cells = |p: &[T]| -> Vec<i64> {
                let b = at(p.as_ptr());
                (0..p.len() as i64).map(|i| b + i).collect()
            };
            let mut n = 0;
            let mut probe = |w: String, g: Option<i64>, e: i64| -> Result<(), String> {
                n += 1;
                if g.unwrap_or(-1) != e || (g.is_some() && e < 0) {
                    return Err(format!("{}{w}: element {g:?}, expected {e} (dims {dims:?})", stringify!($name)));
                }
                Ok(())
            };
            for (p, &e) in case["o"]["a"].as_array().unwrap().iter().zip(&ints(&case["e"])) {
                let ix: Vec<usize> = ints(p).into_iter().map(big).collect();
                probe(format!("[&{ix:?}]"), trap(|| at(&array[&ix[..]])), e)?;
                probe(format!("[&{ix:?}] (mut)"), trap(|| at(&mut array[&ix[..]])), e)?;
                probe(format!("[{ix:?}]"), trap(|| fixed!(ix, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], a => at(&array[a]), skip(e))), e)?;
                probe(format!("[{ix:?}] (mut)"), trap(|| fixed!(ix, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], a => at(&mut array[a]), skip(e))), e)?;
                if e >= 0 {
                    probe(format!(".get_unchecked({ix:?})"), trap(|| unsafe { at(array.get_unchecked(&ix[..])) }), e)?;
                    probe(format!(".get_unchecked_mut({ix:?})"), trap(|| unsafe { at(array.get_unchecked_mut(&ix[..])) }), e)?;
                    let v = array[&ix[..]] as i64;
                    probe(format!("[{ix:?}], value read"), Some(v), e)?;
                }
            }
            for (k, &e) in ints(&case["lq"]).iter().zip(&ints(&case["l"])) {
                let k = big(*k);
                probe(format!("[{k}]"), trap(|| at(&array[k])), e)?;
                probe(format!("[{k}] (mut)"), trap(|| at(&mut array[k])), e)?;
            }
            let len = array.len();
            for (lo, hi, e) in range_queries(case) {
                n += range_verdict(range_forms!(array, array, cells, lo, hi, len, by_index, by_index_mut), lo, hi, &e, dims)?;
            }
            Ok(n)
        }
    };
}
owned_probes!(tensor, Tensor<T, S>, S: Shape);
owned_probes!(array, Array<T, S>, S: ConstShape);

fn owned_index(case: &Value, dims: &[usize]) -> Result<u64, String> {
    let n: usize = dims.iter().product();
    let flat = || Tensor::<T, (Dyn,)>::from((0..n as T).collect::<Vec<T>>());
    let mut k = tensor(case, flat().into_shape(dims), dims)?;
    macro_rules! to { ($S:ty) => { k += tensor(case, flat().into_shape(<$S as Shape>::from_dims(dims)), dims)? }; }
    macro_rules! arr { ($A:expr, $S:ty) => {{
        to!($S);
        let mut a: Array<T, $S> = $A;
        let p = a.as_mut_ptr();
        for i in 0..n { unsafe { *p.add(i) = i as T } }
        k += array(case, a, dims)?;
    }}; }
    match dims {
        [] => { to!(()); }
        [_] => { to!((Dyn,)); }
        [_, _] => { to!((Dyn, Dyn)); }
        [_, _, _] => { to!((Dyn, Dyn, Dyn)); }
        [_, _, _, _] => { to!((Dyn, Dyn, Dyn, Dyn)); }
        [_, _, _, _, _] => { to!((Dyn, Dyn, Dyn, Dyn, Dyn)); }
        [_, _, _, _, _, _] => { to!((Dyn, Dyn, Dyn, Dyn, Dyn, Dyn)); }
        _ => {}
    }
    match dims {
        [] => arr!(Array(0), ()),
        [0] => arr!(Array([0; 0]), (C<0>,)),
        [1] => arr!(Array([0; 1]), (C<1>,)),
        [3] => arr!(Array([0; 3]), (C<3>,)),
        [4] => { to!((C<4>,)); }
        [2, 3] => arr!(Array([[0; 3]; 2]), (C<2>, C<3>)),
        [3, 2] => { arr!(Array([[0; 2]; 3]), (C<3>, C<2>)); to!((Dyn, C<2>)); }
        [3, 1] => arr!(Array([[0; 1]; 3]), (C<3>, C<1>)),
        [0, 2] => arr!(Array([[0; 2]; 0]), (C<0>, C<2>)),
        [2, 0] => arr!(Array([[0; 0]; 2]), (C<2>, C<0>)),
        [4, 4] => { arr!(Array([[0; 4]; 4]), (C<4>, C<4>)); to!((C<4>, Dyn)); }
        [2, 3, 2] => { arr!(Array([[[0; 2]; 3]; 2]), (C<2>, C<3>, C<2>)); to!((C<2>, Dyn, C<2>)); }
        [2, 1, 2] => arr!(Array([[[0; 2]; 1]; 2]), (C<2>, C<1>, C<2>)),
        [1, 2, 1, 2] => arr!(Array([[[[0; 2]; 1]; 2]; 1]), (C<1>, C<2>, C<1>, C<2>)),
        [2, 1, 2, 1, 2] => arr!(Array([[[[[0; 2]; 1]; 2]; 1]; 2]), (C<2>, C<1>, C<2>, C<1>, C<2>)),
        [1, 2, 1, 2, 1, 2] => arr!(Array([[[[[[0; 2]; 1]; 2]; 1]; 2]; 1]), (C<1>, C<2>, C<1>, C<2>, C<1>, C<2>)),
        _ => {}
    }
    Ok(k)
}

fn index_case(case: &Value, raw: &Raw, base: *const T) -> Result<u64, String> {
    let mut n = 0;
    if case["h"].as_array().unwrap().is_empty() {
        n += owned_index(case, &raw.dims)?;
    }
    macro_rules! all {
        ($S:ty) => {
            n += index_with::<$S, Strided>(case, raw, base)?;
            if raw.strictly_dense() {
                n += index_with::<$S, Dense>(case, raw, base)?;
                n += ranges_with::<$S>(case, raw, base)?;
            }
        };
    }
    all!(DynRank);
    match &raw.dims[..] {
        [] => { all!(()); }
        [_] => { all!((Dyn,)); }
        [_, _] => { all!((Dyn, Dyn)); }
        [_, _, _] => { all!((Dyn, Dyn, Dyn)); }
        [_, _, _, _] => { all!((Dyn, Dyn, Dyn, Dyn)); }
        [_, _, _, _, _] => { all!((Dyn, Dyn, Dyn, Dyn, Dyn)); }
        [_, _, _, _, _, _] => { all!((Dyn, Dyn, Dyn, Dyn, Dyn, Dyn)); }
        _ => {}
    }
    match &raw.dims[..] {
        [3] => { all!((C<3>,)); }
        [2, 3] => { all!((C<2>, C<3>)); }
        [_, 2] => { all!((Dyn, C<2>)); }
        [2, _, 2] => { all!((C<2>, Dyn, C<2>)); }
        _ => {}
    }
    Ok(n)
}

// ------------------------------------------------------ writing through views
fn write_with<S: Shape, L: MkLayout>(raw: &Raw, how: usize) -> Vec<T> {
    let n = raw.len();
    let vals: Vec<T> = (0..n as T).map(|k| 500_000 + 7 * k).collect();
    let mut v = view_mut::<S, L>(raw);
    match how {
        0 => for k in 0..n { let ix = unlin(&raw.dims, k); v[&ix[..]] = vals[k]; },
        1 => for k in 0..n { v[k] = vals[k]; },
        2 => for (x, &y) in v.iter_mut().zip(&vals) { *x = y; },
        3 => { let mut k = 0; v.expr_mut().for_each(|x| { *x = vals[k]; k += 1; }); }
        4 => { let mut k = 0; v.fill_with(|| { k += 1; vals[k - 1] }); }
        5 => { v.fill(424242); return vec![424242; n]; }
        6 => { let src = Tensor::<T, (Dyn,)>::from(vals.clone()).into_shape(&raw.dims[..]); v.assign(&src); }
        7 => { let src = Tensor::<T, (Dyn,)>::from(vals.clone()).into_shape(&raw.dims[..]); v.assign(src); }
        8 => { v.assign(mdarray::expr::fill(77)); return vec![77; n]; }
        9 => { let mut k = 0; for x in &mut v { *x = vals[k]; k += 1; } }
        10 => { let mut k = 0; mdarray::expr::for_each(&mut v, |x| { *x = vals[k]; k += 1; }); }
        11 => { // all mutable references held at once
            let refs: Vec<&mut T> = v.into_iter().collect();
            let mut seen: Vec<*mut T> = Vec::new();
            for (x, &y) in refs.into_iter().zip(&vals) { *x = y; seen.push(x); }
            seen.sort(); seen.dedup();
            if seen.len() != n { meta_err(format!("{} distinct mutable references for {n} elements", seen.len())); }
        }
        _ => { // source with lower rank (broadcast over the leading dimension)
            if raw.dims.is_empty() { v.assign(mdarray::expr::fill(5)); return vec![5; n]; }
            let m: usize = raw.dims[1..].iter().product();
            let src = Tensor::<T, (Dyn,)>::from(vals[..m.min(n)].to_vec());
            if m > n { return vec![]; }
            let src = src.into_shape(&raw.dims[1..]);
            v.assign(&src);
            return (0..n).map(|k| vals[k % m]).collect();
        }
    }
    vals
}
const WRITES: usize = 13;

fn write_case(case: &Value, i: u64, rng: &mut Rng) -> Result<u64, String> {
    let dims = usizes(&case["b"]);
    let mut path: Vec<Value> = case["h"].as_array().unwrap().clone();
    let e = Expect::parse(case);
    if e.kind != "ok" {
        return Ok(0);
    }
    path.push(json!({"o": case["o"]["o"], "a": case["o"]["a"], "d": case["d"], "f": case["f"], "s": case["s"]}));
    let n: usize = dims.iter().product();
    let mut execs = 0;
    {
        // the mutable forms address the same elements as the shared ones, and
        // the halves of a mutable split do not overlap
        let mut st = Store::new(n);
        let base = st.base();
        let raw = follow(&mut st, &dims, &path[..path.len() - 1], rng, true)?;
        let op = Op::parse(&path[path.len() - 1]);
        for car in 0..CARRIERS {
            for q in 0..2 * alts(&op, raw.dims.len()) {
                let (dense, alt) = (q % 2 == 1, q / 2);
                let sig = |f: usize| exec(&raw, &op, dense, car, f, alt).map(|g| g.map(|rs| rs.iter().map(|r| (r.dims.clone(), r.cells(base))).collect::<Vec<_>>()));
                let (a, b, c, d) = (sig(0), sig(1), sig(2), sig(3));
                if let Some(m) = META.with(|x| x.borrow_mut().take()) {
                    if m.contains("mut") { return Err(m); }
                }
                if a.is_none() { continue; }
                execs += 4;
                if (c != a && c != b) || (d != a && d != b) {
                    return Err(format!("{op:?} on dims {:?} strides {:?} (kind {car}, dense {dense}, alt {alt}): shared {a:?}/{b:?}, mutable {c:?}/{d:?}", raw.dims, raw.str));
                }
                if let Some(Some(rs)) = &c {
                    if rs.len() == 2 {
                        let mut all: Vec<i64> = rs.iter().flat_map(|r| r.1.iter().copied()).collect();
                        let mut want = raw.cells(base);
                        all.sort();
                        want.sort();
                        if all != want {
                            return Err(format!("halves of a mutable split {op:?} cover {all:?} instead of {want:?}"));
                        }
                    }
                }
            }
        }
    }
    for how in 0..WRITES {
        let mut st = Store::new(n);
        let raw = follow(&mut st, &dims, &path, rng, true)?;
        let base = st.base();
        let car = rng.below(3);
        let dense = raw.strictly_dense() && rng.chance(1, 2);
        macro_rules! go { ($S:ty) => { if dense { write_with::<$S, Dense>(&raw, how) } else { write_with::<$S, Strided>(&raw, how) } }; }
        let vals = trap(|| match (car, &raw.dims[..]) {
            (0, _) => go!(DynRank),
            (1, [3]) => go!((C<3>,)),
            (1, [2, 3]) => go!((C<2>, C<3>)),
            (_, []) => go!(()),
            (_, [_]) => go!((Dyn,)),
            (_, [_, _]) => go!((Dyn, Dyn)),
            (_, [_, _, _]) => go!((Dyn, Dyn, Dyn)),
            _ => go!(DynRank),
        });
        let Some(vals) = vals else { return Err(format!("write {how} panicked (dims {:?} strides {:?})", raw.dims, raw.str)) };
        if let Some(m) = META.with(|x| x.borrow_mut().take()) {
            return Err(m);
        }
        let mut want: Vec<T> = (0..n + 2 * PAD).map(Store::orig).collect();
        for (k, &c) in e.cells.iter().enumerate() {
            if k < vals.len() {
                want[PAD + c as usize] = vals[k];
            }
        }
        if want != st.buf {
            let p = (0..want.len()).find(|&k| want[k] != st.buf[k]).unwrap();
            return Err(format!("write {how} through dims {:?} strides {:?}: cell {} is {}, expected {}", raw.dims, raw.str, p as i64 - PAD as i64, st.buf[p], want[p]));
        }
        let _ = st.n;
        execs += 1;
    }
    Ok(execs)
}

// -------------------------------------------------------------- random chains
fn rand_op(raw: &Raw, rng: &mut Rng) -> Op {
    let r = raw.dims.len();
    let op = |o: &str, a: Vec<Vec<i64>>| Op { o: o.into(), a };
    let bound = |rng: &mut Rng, n: usize| -> i64 { if rng.chance(1, 12) { (n + rng.below(2)) as i64 } else { rng.below(n.max(1)) as i64 } };
    loop {
        match rng.below(12) {
            0 if r > 2 => return op("at", vec![vec![bound(rng, raw.dims[0])]]),
            1 if r > 1 => {
                let k = rng.below(r);
                return op("axis_at", vec![vec![k as i64, bound(rng, raw.dims[k])]]);
            }
            2 | 3 if r > 0 => {
                let k = rng.below(r);
                let mid = rng.below(raw.dims[k] + 1) as i64 + rng.chance(1, 20) as i64;
                return op("split", vec![vec![k as i64, mid, rng.below(2) as i64]]);
            }
            4 | 5 | 6 if r > 0 && r < 5 => {
                let a = (0..r).map(|i| {
                    let n = raw.dims[i];
                    match rng.below(if r > 1 { 9 } else { 8 }) {
                        0 | 1 | 2 => vec![1, 0, 0, 0],
                        3 | 4 => { let lo = rng.below(n + 1); let hi = lo + rng.below(n - lo + 1); vec![2, lo as i64, hi as i64 + rng.chance(1, 30) as i64, 0] }
                        8 => vec![0, bound(rng, n), 0, 0],
                        _ => { let lo = rng.below(n + 1); let hi = if rng.chance(1, 2) { n } else { lo + rng.below(n - lo + 1) };
                               vec![3, lo as i64, hi as i64 + rng.chance(1, 30) as i64, [-3, -2, -1, -1, 1, 2, 3][rng.below(7)]] }
                    }
                }).collect();
                return op("view", a);
            }
            7 if r > 1 => {
                let mut p: Vec<i64> = (0..r as i64).collect();
                for i in (1..r).rev() { p.swap(i, rng.below(i + 1)); }
                if rng.chance(1, 30) { p[0] = p[r - 1]; }
                return op("permute", vec![p]);
            }
            8 if r > 1 => return op("reorder", vec![]),
            9 | 10 => {
                // random factorisation of the length
                let mut n = raw.len();
                let mut d: Vec<i64> = vec![];
                if n == 0 { d = vec![rng.below(3) as i64, 0]; }
                else {
                    while n > 1 && d.len() < 5 {
                        let f: Vec<usize> = (1..=n).filter(|q| n % q == 0).collect();
                        let q = *rng.pick(&f);
                        d.push(q as i64);
                        n /= q;
                    }
                    if n > 1 || (d.is_empty() && rng.chance(1, 2)) { d.push(n as i64); }
                    if !d.is_empty() && rng.chance(1, 4) { let k = rng.below(d.len()); d[k] = -1; }
                    if !d.is_empty() && rng.chance(1, 25) { let k = rng.below(d.len()); d[k] += 1; }
                }
                return op("reshape", vec![d]);
            }
            11 if r == 2 => {
                let (a, b) = (raw.dims[0] as i64, raw.dims[1] as i64);
                let k = rng.below((a + b + 1) as usize) as i64 - a;
                return match rng.below(4) {
                    0 => op("diag", vec![vec![k]]),
                    1 => op("row", vec![vec![bound(rng, raw.dims[0])]]),
                    2 => op("col", vec![vec![bound(rng, raw.dims[1])]]),
                    _ => op("dense", vec![]),
                };
            }
            11 => return if rng.chance(1, 3) { op("flatten", vec![]) } else { op("dense", vec![]) },
            _ => {}
        }
    }
}

fn record(args: &[String]) {
    quiet_panics();
    let seed: u64 = args[1].parse().unwrap();
    let chains: usize = args[2].parse().unwrap();
    let maxrank: usize = args[3].parse().unwrap();
    let progress = Progress::new(&args[4]);
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[0]).unwrap());
    let mut rng = Rng::new(seed ^ 0x5eed);
    let mut n = 0u64;
    for _ in 0..chains {
        let r = rng.below(maxrank + 1);
        let mut dims: Vec<usize> = vec![];
        for _ in 0..r {
            let room = 90 / dims.iter().product::<usize>().max(1);
            let d = if rng.chance(1, 25) { 0 } else { 1 + rng.below(room.min(5).max(1)) };
            dims.push(d);
        }
        let mut st = Store::new(dims.iter().product());
        let base = st.base();
        let mut raw = base_raw(&mut st, &dims);
        writeln!(out, "{}", json!({"e": "base", "d": dims})).unwrap();
        for _ in 0..2 + rng.below(5) {
            let op = rand_op(&raw, &mut rng);
            let mut res = None;
            for _ in 0..8 {
                let (f, alt, car, dense) = (rng.below(4), rng.below(12), rng.below(CARRIERS), rng.chance(1, 2));
                n += 1;
                progress.mark(n);
                if let Some(g) = exec(&raw, &op, dense, car, f, alt) {
                    res = Some((g, json!({"f": f, "alt": alt, "car": car, "dense": dense})));
                    break;
                }
            }
            let Some((g, how)) = res else { continue };
            let meta = META.with(|x| x.borrow_mut().take());
            match g {
                None => {
                    writeln!(out, "{}", json!({"e": "op", "o": op.json(), "k": "panic", "d": [], "c": [], "s": [], "t": false, "m": meta.is_some(), "how": how})).unwrap();
                }
                Some(rs) => {
                    let r = rs[if rs.len() > 1 { half_of(&op) } else { 0 }].clone();
                    writeln!(out, "{}", json!({"e": "op", "o": op.json(), "k": "ok", "d": r.dims, "c": r.cells(base), "s": r.str, "t": r.contiguous, "m": meta.is_some(), "how": how})).unwrap();
                    raw = r;
                }
            }
            if st.buf.iter().enumerate().any(|(k, &x)| x != Store::orig(k)) {
                writeln!(out, "{}", json!({"e": "corrupt"})).unwrap();
            }
        }
    }
    out.flush().unwrap();
    progress.mark(u64::MAX);
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args[0].as_str() {
        "replay" => replay_main(&args[1..], replay_case),
        "kinds" => replay_main(&args[1..], kinds_case),
        "write" => replay_main(&args[1..], write_case),
        "record" => record(&args[1..]),
        m => panic!("mode {m}"),
    }
}
