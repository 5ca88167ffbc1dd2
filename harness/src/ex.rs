//! Expression family: builds the expression trees of Expr.tla on the real
//! library and offers them behind object-safe wrappers, so that the checking
//! logic is independent of the (many) concrete expression types.
use crate::{ints, usizes};
use mdarray::expr::{self, Expression, FromExpression};
use mdarray::*;
use serde_json::{Value, json};
use std::any::Any;
use std::borrow::Borrow;
use std::cell::RefCell;
use std::iter::FusedIterator;

pub const PAD: usize = 64;

// ------------------------------------------------------------------ items
/// Item of an expression: its abstract value, and the mutable cells it gives access to.
pub trait Term {
    fn term(&self) -> Value;
    fn poke(&mut self, _: &mut dyn FnMut(&mut i64)) {}
}
impl Term for i64 {
    fn term(&self) -> Value {
        json!(*self)
    }
}
impl Term for usize {
    fn term(&self) -> Value {
        json!(*self)
    }
}
impl Term for &i64 {
    fn term(&self) -> Value {
        json!(**self)
    }
}
impl Term for &mut i64 {
    fn term(&self) -> Value {
        json!(**self)
    }
    fn poke(&mut self, f: &mut dyn FnMut(&mut i64)) {
        f(self)
    }
}
impl<A: Term, B: Term> Term for (A, B) {
    fn term(&self) -> Value {
        Value::Array(vec![self.0.term(), self.1.term()])
    }
    fn poke(&mut self, f: &mut dyn FnMut(&mut i64)) {
        self.0.poke(f);
        self.1.poke(f);
    }
}
#[derive(Clone)]
pub struct FnItem(pub Vec<i64>);
impl Term for FnItem {
    fn term(&self) -> Value {
        json!(self.0)
    }
}
pub struct Mapped<X>(pub X);
impl<X: Term> Term for Mapped<X> {
    fn term(&self) -> Value {
        Value::Array(vec![json!(-1), self.0.term()])
    }
    fn poke(&mut self, f: &mut dyn FnMut(&mut i64)) {
        self.0.poke(f);
    }
}
/// shape and elements of a slice, from what its queries report
pub fn sub_term<S: Shape + 'static, L: Layout>(v: &Slice<i64, S, L>) -> Value {
    let dims: Vec<usize> = (0..v.rank()).map(|i| v.dim(i)).collect();
    let str: Vec<isize> = (0..v.rank()).map(|i| v.stride(i)).collect();
    let n: usize = dims.iter().product();
    let mut vals = vec![];
    for k in 0..n {
        let off: isize = unlin(&dims, k).iter().zip(&str).map(|(&i, &s)| i as isize * s).sum();
        vals.push(unsafe { *v.as_ptr().wrapping_offset(off) });
    }
    if v.len() != n {
        return json!(["len", v.len(), dims]);
    }
    json!([dims, vals])
}
impl<S: Shape + 'static, L: Layout> Term for View<'_, i64, S, L> {
    fn term(&self) -> Value {
        sub_term(self)
    }
}
impl<S: Shape + 'static, L: Layout> Term for ViewMut<'_, i64, S, L> {
    fn term(&self) -> Value {
        sub_term(self)
    }
    fn poke(&mut self, f: &mut dyn FnMut(&mut i64)) {
        let dims: Vec<usize> = (0..self.rank()).map(|i| self.dim(i)).collect();
        let str: Vec<isize> = (0..self.rank()).map(|i| self.stride(i)).collect();
        for k in 0..dims.iter().product() {
            let off: isize = unlin(&dims, k).iter().zip(&str).map(|(&i, &s)| i as isize * s).sum();
            f(unsafe { &mut *self.as_mut_ptr().wrapping_offset(off) });
        }
    }
}
pub fn unlin(d: &[usize], mut k: usize) -> Vec<usize> {
    let mut ix = vec![0; d.len()];
    for i in (0..d.len()).rev() {
        ix[i] = k % d[i];
        k /= d[i];
    }
    ix
}

// ------------------------------------------------------------ call logging
thread_local! { static LOG: RefCell<Vec<(u8, Value)>> = const { RefCell::new(Vec::new()) }; }
pub fn log(id: u8, v: Value) {
    LOG.with(|l| l.borrow_mut().push((id, v)));
}
pub fn take_log() -> Vec<(u8, Value)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

// ------------------------------------------------------ object-safe wrappers
pub trait Ex: Expression<Item: Term, IntoIter: ExactSizeIterator + FusedIterator> + 'static {}
impl<E> Ex for E where E: Expression<Item: Term, IntoIter: ExactSizeIterator + FusedIterator> + 'static {}

pub trait DynIter {
    fn next(&mut self) -> Option<Value>;
    fn hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> usize;
    fn nth(&mut self, n: usize) -> Option<Value>;
    fn fold(self: Box<Self>) -> Vec<Value>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Value>;
    /// collects all items before looking at them; writes fresh values through them
    fn hold(self: Box<Self>, poke: &mut dyn FnMut(&mut i64)) -> Vec<Value>;
    fn dup(&self) -> Option<Box<dyn DynIter>>;
}
pub trait DynExpr {
    /// dims and an inconsistency among the queries, if any
    fn dims(&self) -> Result<Vec<usize>, String>;
    fn iter(self: Box<Self>) -> Box<dyn DynIter>;
    fn consume(self: Box<Self>, how: usize) -> (Option<Vec<usize>>, Vec<Value>);
    fn dup(&self) -> Option<Box<dyn DynExpr>>;
    fn any(&self) -> &dyn Any;
    /// clone_from; false if the expressions have different types or cannot be cloned
    fn overwrite(&mut self, src: &dyn DynExpr) -> bool;
}

struct WI<I> {
    it: I,
    dup: Option<fn(&I) -> I>,
}
impl<I: ExactSizeIterator<Item: Term> + FusedIterator + 'static> DynIter for WI<I> {
    fn next(&mut self) -> Option<Value> {
        self.it.next().map(|x| x.term())
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn len(&self) -> usize {
        self.it.len()
    }
    fn nth(&mut self, n: usize) -> Option<Value> {
        self.it.nth(n).map(|x| x.term())
    }
    fn fold(self: Box<Self>) -> Vec<Value> {
        self.it.fold(vec![], |mut v, x| {
            v.push(x.term());
            v
        })
    }
    fn count(self: Box<Self>) -> usize {
        self.it.count()
    }
    fn last(self: Box<Self>) -> Option<Value> {
        self.it.last().map(|x| x.term())
    }
    fn hold(self: Box<Self>, poke: &mut dyn FnMut(&mut i64)) -> Vec<Value> {
        let mut items: Vec<I::Item> = self.it.collect();
        let v = items.iter().map(|x| x.term()).collect();
        for x in &mut items {
            x.poke(poke);
        }
        v
    }
    fn dup(&self) -> Option<Box<dyn DynIter>> {
        self.dup.map(|d| Box::new(WI { it: d(&self.it), dup: self.dup }) as Box<dyn DynIter>)
    }
}

pub fn dyn_iter<I: ExactSizeIterator<Item: Term> + FusedIterator + 'static>(it: I) -> Box<dyn DynIter> {
    Box::new(WI { it, dup: None })
}
pub fn dyn_iter_c<I: ExactSizeIterator<Item: Term> + FusedIterator + Clone + 'static>(it: I) -> Box<dyn DynIter> {
    Box::new(WI { it, dup: Some(|i| i.clone()) })
}

struct WE<E: Ex> {
    e: E,
    dup: Option<fn(&E) -> E>,
    over: Option<fn(&mut E, &E)>,
    dupi: Option<fn(&E::IntoIter) -> E::IntoIter>,
}
pub fn terms<T: Term, S: Shape + 'static>(s: &Slice<T, S>) -> (Option<Vec<usize>>, Vec<Value>) {
    let dims: Vec<usize> = (0..s.rank()).map(|i| s.dim(i)).collect();
    let n: usize = dims.iter().product();
    assert!(s.len() == n, "len of result");
    (Some(dims), (0..n).map(|k| unsafe { (*s.as_ptr().add(k)).term() }).collect())
}
impl<E: Ex> DynExpr for WE<E> {
    fn dims(&self) -> Result<Vec<usize>, String> {
        let e = &self.e;
        let d = e.shape().with_dims(|d| d.to_vec());
        let n: usize = d.iter().product();
        if e.rank() != d.len() || e.len() != n || e.is_empty() != (n == 0) || (0..d.len()).any(|i| e.dim(i) != d[i]) {
            return Err(format!("rank {} len {} is_empty {} of an expression with shape {d:?}", e.rank(), e.len(), e.is_empty()));
        }
        Ok(d)
    }
    fn iter(self: Box<Self>) -> Box<dyn DynIter> {
        Box::new(WI { it: self.e.into_iter(), dup: self.dupi })
    }
    fn consume(self: Box<Self>, how: usize) -> (Option<Vec<usize>>, Vec<Value>) {
        let e = self.e;
        let mut v = vec![];
        match how {
            0 => e.for_each(|x| v.push(x.term())),
            1 => {
                v = e.fold(v, |mut v, x| {
                    v.push(x.term());
                    v
                })
            }
            2 => return terms(e.eval().borrow()),
            3 => return terms(&Tensor::<E::Item, E::Shape>::from_expr(e)),
            4 => {
                let r = e.rank();
                let mut t = Tensor::<E::Item, DynRank>::new();
                if r == 0 {
                    return terms(e.eval().borrow());
                }
                let (d, n) = (e.shape().with_dims(|d| d.to_vec()), e.len());
                e.eval_into(&mut t);
                let (got, v) = terms(&t);
                // appending an empty expression is allowed to leave the array as it was
                return if n == 0 { (Some(d), v) } else { (got, v) };
            }
            5 => v = e.into_iter().collect::<Vec<_>>().iter().map(|x| x.term()).collect(),
            6 => expr::for_each(e, |x| v.push(x.term())),
            7 => {
                v = expr::fold(e, v, |mut v, x| {
                    v.push(x.term());
                    v
                })
            }
            _ => {
                let t: Tensor<E::Item, (Dyn,)> = e.into_iter().collect();
                v = terms(&t).1;
            }
        }
        (None, v)
    }
    fn dup(&self) -> Option<Box<dyn DynExpr>> {
        self.dup.map(|d| Box::new(WE { e: d(&self.e), dup: self.dup, over: self.over, dupi: self.dupi }) as Box<dyn DynExpr>)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn overwrite(&mut self, src: &dyn DynExpr) -> bool {
        match (self.over, src.any().downcast_ref::<Self>()) {
            (Some(f), Some(s)) => {
                f(&mut self.e, &s.e);
                true
            }
            _ => false,
        }
    }
}
pub const CONSUMERS: usize = 9;

// ------------------------------------------------------------ leaves
#[derive(Clone, Debug)]
pub struct Leaf {
    pub t: String,
    pub l: String,
    pub id: i64,
    pub d: Vec<usize>,
    pub s: Vec<isize>,
    pub f: usize,
    pub a: usize,
}
impl Leaf {
    pub fn parse(v: &Value) -> Leaf {
        Leaf {
            t: v["t"].as_str().unwrap().into(),
            l: v["l"].as_str().unwrap().into(),
            id: v["id"].as_i64().unwrap(),
            d: usizes(&v["d"]),
            s: ints(&v["s"]).into_iter().map(|x| x as isize).collect(),
            f: v["f"].as_i64().unwrap() as usize,
            a: v["a"].as_i64().unwrap_or(0) as usize,
        }
    }
    pub fn len(&self) -> usize {
        self.d.iter().product()
    }
}
/// Storage behind the leaves of one expression.
#[derive(Default)]
pub struct Cx {
    pub bufs: Vec<(i64, Vec<i64>)>,
    keep: Vec<Box<dyn Any>>,
    /// realisation to use where the library offers several spellings
    pub alt: usize,
    nmap: u8,
}
pub fn fresh(id: i64, n: usize) -> Vec<i64> {
    (0..n + 2 * PAD).map(|i| 1000 * id + i as i64 - PAD as i64).collect()
}
impl Cx {
    pub fn new(alt: usize) -> Cx {
        take_log();
        Cx { alt, ..Default::default() }
    }
    /// buffer for a strided or dense view
    pub fn ptr(&mut self, leaf: &Leaf) -> *mut i64 {
        let hi: isize = leaf.d.iter().zip(&leaf.s).map(|(&d, &s)| (d as isize - 1).max(0) * s.max(0)).sum();
        self.bufs.push((leaf.id, fresh(leaf.id, leaf.f + hi as usize + 1)));
        let b = &mut self.bufs.last_mut().unwrap().1;
        unsafe { b.as_mut_ptr().add(PAD + leaf.f) }
    }
    pub fn keep<X: 'static>(&mut self, x: X) -> &'static mut X {
        let mut b = Box::new(x);
        let p: *mut X = &mut *b;
        self.keep.push(b);
        unsafe { &mut *p }
    }
    fn map_id(&mut self) -> u8 {
        self.nmap += 1;
        9 + self.nmap
    }
    /// index of the first cell whose content is not what `want` says
    pub fn check(&self, want: impl Fn(i64, i64) -> i64) -> Result<(), String> {
        for (id, b) in &self.bufs {
            for (i, &x) in b.iter().enumerate() {
                let cell = 1000 * id + i as i64 - PAD as i64;
                if x != want(*id, cell) {
                    return Err(format!("cell {} of buffer {id} holds {x}, expected {}", i as i64 - PAD as i64, want(*id, cell)));
                }
            }
        }
        Ok(())
    }
}

pub trait MkLayout: Layout {
    fn mk<S: Shape>(leaf: &Leaf) -> Self::Mapping<S>;
}
impl MkLayout for Dense {
    fn mk<S: Shape>(leaf: &Leaf) -> DenseMapping<S> {
        DenseMapping::new(S::from_dims(&leaf.d))
    }
}
impl MkLayout for Strided {
    fn mk<S: Shape>(leaf: &Leaf) -> StridedMapping<S> {
        StridedMapping::new(S::from_dims(&leaf.d), &leaf.s)
    }
}
pub fn view<S: Shape + 'static, L: MkLayout>(cx: &mut Cx, leaf: &Leaf) -> View<'static, i64, S, L> {
    unsafe { View::new_unchecked(cx.ptr(leaf), L::mk::<S>(leaf)) }
}
pub fn view_mut<S: Shape + 'static, L: MkLayout>(cx: &mut Cx, leaf: &Leaf) -> ViewMut<'static, i64, S, L> {
    unsafe { ViewMut::new_unchecked(cx.ptr(leaf), L::mk::<S>(leaf)) }
}
pub fn tensor<S: Shape + 'static>(leaf: &Leaf) -> Tensor<i64, S> {
    let v: Vec<i64> = (0..leaf.len()).map(|i| 1000 * leaf.id + leaf.f as i64 + i as i64).collect();
    let mut v = std::mem::ManuallyDrop::new(v);
    unsafe { Tensor::from_raw_parts(v.as_mut_ptr(), DenseMapping::new(S::from_dims(&leaf.d)), v.capacity()) }
}
pub fn fits<S: Shape + 'static>(d: &[usize]) -> bool {
    // const dimensions must match; from_dims panics otherwise
    S::RANK.is_none_or(|r| r == d.len()) && crate::trap(|| S::from_dims(d)).is_some()
}

pub trait Cont: Sized {
    fn go<E: Ex>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr>;
    fn goc<E: Ex + Clone>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr>
    where
        E::IntoIter: Clone;
}
pub struct Fin;
impl Cont for Fin {
    fn go<E: Ex>(self, _: &mut Cx, e: E) -> Box<dyn DynExpr> {
        Box::new(WE { e, dup: None, over: None, dupi: None })
    }
    fn goc<E: Ex + Clone>(self, _: &mut Cx, e: E) -> Box<dyn DynExpr>
    where
        E::IntoIter: Clone,
    {
        Box::new(WE { e, dup: Some(|e| e.clone()), over: Some(|t, s| t.clone_from(s)), dupi: Some(|i| i.clone()) })
    }
}
fn mapper<X: Term>(id: u8) -> impl FnMut(X) -> Mapped<X> + Clone + 'static {
    move |x: X| {
        log(id, x.term());
        Mapped(x)
    }
}
pub struct MapK<K>(pub K);
impl<K: Cont> Cont for MapK<K> {
    fn go<E: Ex>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr> {
        let f = mapper::<E::Item>(cx.map_id());
        let m = if cx.alt % 2 == 0 { e.map(f) } else { expr::map(e, f) };
        self.0.go(cx, m)
    }
    fn goc<E: Ex + Clone>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr>
    where
        E::IntoIter: Clone,
    {
        let f = mapper::<E::Item>(cx.map_id());
        let m = match cx.alt % 3 {
            0 => e.map(f),
            1 => expr::map(e, f),
            _ => expr::Apply::apply(e, f),
        };
        self.0.goc(cx, m)
    }
}
pub struct EnumK<K>(pub K);
impl<K: Cont> Cont for EnumK<K> {
    fn go<E: Ex>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr> {
        let m = if cx.alt % 2 == 0 { e.enumerate() } else { expr::enumerate(e) };
        self.0.go(cx, m)
    }
    fn goc<E: Ex + Clone>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr>
    where
        E::IntoIter: Clone,
    {
        let m = if cx.alt % 2 == 0 { e.enumerate() } else { expr::enumerate(e) };
        self.0.goc(cx, m)
    }
}

fn filler(id: i64) -> impl FnMut() -> i64 + Clone + 'static {
    let mut n = 0;
    move || {
        let v = 1000 * id + n;
        n += 1;
        log(id as u8, json!(v));
        v
    }
}
fn indexer(id: i64) -> impl FnMut(&[usize]) -> FnItem + Clone + 'static {
    move |ix: &[usize]| {
        let mut v = vec![1000 * id];
        v.extend(ix.iter().map(|&i| i as i64));
        log(id as u8, json!(v));
        FnItem(v)
    }
}
fn drain<S: Shape + 'static>(cx: &mut Cx, leaf: &Leaf) -> expr::IntoExpr<expr::Drain<'static, i64, S>> {
    let mut whole = leaf.clone();
    whole.d[0] += 2;
    whole.f = 0;
    let t = cx.keep(tensor::<S>(&whole));
    t.drain(1..1 + leaf.d[0])
}

/// every kind of leaf
pub fn leaf<S: Shape + 'static, K: Cont>(cx: &mut Cx, x: &Leaf, k: K) -> Box<dyn DynExpr> {
    match (x.t.as_str(), x.l.as_str()) {
        ("view", "S") => {
            let e = view::<S, Strided>(cx, x);
            k.goc(cx, e)
        }
        ("view", _) => {
            let e = view::<S, Dense>(cx, x);
            k.goc(cx, e)
        }
        ("viewmut", "S") => {
            let e = view_mut::<S, Strided>(cx, x);
            k.go(cx, e)
        }
        ("viewmut", _) => {
            let e = view_mut::<S, Dense>(cx, x);
            k.go(cx, e)
        }
        ("into", _) => k.go(cx, expr::IntoExpression::into_expr(tensor::<S>(x))),
        ("drain", _) => {
            let e = drain::<S>(cx, x);
            k.go(cx, e)
        }
        ("fill", _) => k.goc(cx, expr::fill(1000 * x.id)),
        ("fillwith", _) => k.goc(cx, expr::fill_with(filler(x.id))),
        ("elem", _) => k.goc(cx, expr::from_elem(S::from_dims(&x.d), 1000 * x.id)),
        ("fn", _) => k.goc(cx, expr::from_fn(S::from_dims(&x.d), indexer(x.id))),
        (t, l) => panic!("HARNESS leaf {t} {l}"),
    }
}
/// views only, with the adapters for references
pub fn leaf_ref<S: Shape + 'static, K: Cont>(cx: &mut Cx, x: &Leaf, t: &str, k: K) -> Box<dyn DynExpr> {
    fn on<S: Shape + 'static, L: MkLayout + 'static, K: Cont>(cx: &mut Cx, v: View<'static, i64, S, L>, t: &str, k: K) -> Box<dyn DynExpr> {
        match (t, cx.alt % 2) {
            ("cloned", 0) => k.goc(cx, v.cloned()),
            ("cloned", _) => k.goc(cx, expr::cloned(v)),
            ("copied", 0) => k.goc(cx, v.copied()),
            _ => k.goc(cx, expr::copied(v)),
        }
    }
    if x.l == "S" {
        let v = view::<S, Strided>(cx, x);
        on(cx, v, t, k)
    } else {
        let v = view::<S, Dense>(cx, x);
        on(cx, v, t, k)
    }
}
/// the kinds used in nested expressions
pub fn tiny<S: Shape + 'static, K: Cont>(cx: &mut Cx, x: &Leaf, k: K) -> Box<dyn DynExpr> {
    match x.t.as_str() {
        "view" if x.l == "S" => {
            let e = view::<S, Strided>(cx, x);
            k.goc(cx, e)
        }
        "view" => {
            let e = view::<S, Dense>(cx, x);
            k.goc(cx, e)
        }
        "into" => k.go(cx, expr::IntoExpression::into_expr(tensor::<S>(x))),
        "fill" => k.goc(cx, expr::fill(1000 * x.id)),
        "fn" => k.goc(cx, expr::from_fn(S::from_dims(&x.d), indexer(x.id))),
        t => panic!("HARNESS tiny leaf {t}"),
    }
}

// ------------------------------------------------------------ zips
/// zip `a` with what comes
pub struct ZipR<A, K>(pub A, pub K);
impl<A: Ex, K: Cont> Cont for ZipR<A, K> {
    fn go<E: Ex>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr> {
        let z = if cx.alt % 2 == 0 { self.0.zip(e) } else { expr::zip(self.0, e) };
        self.1.go(cx, z)
    }
    fn goc<E: Ex + Clone>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr>
    where
        E::IntoIter: Clone,
    {
        self.go(cx, e)
    }
}
/// same for a left operand that can be cloned
pub struct ZipRC<A, K>(pub A, pub K);
impl<A: Ex + Clone, K: Cont> Cont for ZipRC<A, K> {
    fn go<E: Ex>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr> {
        let z = if cx.alt % 2 == 0 { self.0.zip(e) } else { expr::zip(self.0, e) };
        self.1.go(cx, z)
    }
    fn goc<E: Ex + Clone>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr>
    where
        E::IntoIter: Clone,
    {
        let z = if cx.alt % 2 == 0 { self.0.zip(e) } else { expr::zip(self.0, e) };
        self.1.goc(cx, z)
    }
}
/// What follows the left operand of a zip: how its right operand is built.
pub trait Right<K: Cont> {
    fn right<Z: Cont>(&self, cx: &mut Cx, z: Z) -> Box<dyn DynExpr>;
}
pub struct ZipL<R, K>(pub R, pub K);
impl<K: Cont, R: Right<K>> Cont for ZipL<R, K> {
    fn go<E: Ex>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr> {
        let r = self.0;
        r.right(cx, ZipR(e, self.1))
    }
    fn goc<E: Ex + Clone>(self, cx: &mut Cx, e: E) -> Box<dyn DynExpr>
    where
        E::IntoIter: Clone,
    {
        let r = self.0;
        r.right(cx, ZipRC(e, self.1))
    }
}
/// right operand: any leaf of shape type S
pub struct RLeaf<'a, S>(pub &'a Leaf, pub std::marker::PhantomData<S>);
impl<K: Cont, S: Shape + 'static> Right<K> for RLeaf<'_, S> {
    fn right<Z: Cont>(&self, cx: &mut Cx, z: Z) -> Box<dyn DynExpr> {
        leaf::<S, Z>(cx, self.0, z)
    }
}
pub struct RTiny<'a, S>(pub &'a Leaf, pub std::marker::PhantomData<S>);
impl<K: Cont, S: Shape + 'static> Right<K> for RTiny<'_, S> {
    fn right<Z: Cont>(&self, cx: &mut Cx, z: Z) -> Box<dyn DynExpr> {
        tiny::<S, Z>(cx, self.0, z)
    }
}
pub struct RMap<'a, S>(pub &'a Leaf, pub std::marker::PhantomData<S>);
impl<K: Cont, S: Shape + 'static> Right<K> for RMap<'_, S> {
    fn right<Z: Cont>(&self, cx: &mut Cx, z: Z) -> Box<dyn DynExpr> {
        tiny::<S, _>(cx, self.0, MapK(z))
    }
}
/// right operand: a zip of two leaves
pub struct RZip<'a>(pub &'a Leaf, pub &'a Leaf);
impl<K: Cont> Right<K> for RZip<'_> {
    fn right<Z: Cont>(&self, cx: &mut Cx, z: Z) -> Box<dyn DynExpr> {
        tiny::<DynRank, _>(cx, self.0, ZipL(RTiny::<DynRank>(self.1, std::marker::PhantomData), z))
    }
}

// ------------------------------------------------------------ checking
pub fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
/// (closure id, path to its argument or result within an item), in the order of map_id()
pub fn closures(x: &Value) -> Vec<(u8, Vec<usize>)> {
    fn walk(x: &Value, path: &mut Vec<usize>, out: &mut Vec<(u8, Vec<usize>)>, n: &mut u8) {
        match x["t"].as_str().unwrap() {
            "map" => {
                // maps are numbered inside out
                path.push(1);
                walk(&x["x"], path, out, n);
                *n += 1;
                out.push((9 + *n, path.clone()));
                path.pop();
            }
            "enum" => {
                path.push(1);
                walk(&x["x"], path, out, n);
                path.pop();
            }
            "cloned" | "copied" => walk(&x["x"], path, out, n),
            "zip" => {
                path.push(0);
                walk(&x["x"], path, out, n);
                path.pop();
                path.push(1);
                walk(&x["y"], path, out, n);
                path.pop();
            }
            "fn" | "fillwith" => out.push((x["id"].as_i64().unwrap() as u8, path.clone())),
            _ => {}
        }
    }
    let mut out = vec![];
    walk(x, &mut vec![], &mut out, &mut 0);
    out
}
fn project<'a>(v: &'a Value, path: &[usize]) -> &'a Value {
    path.iter().fold(v, |v, &i| &v[i])
}
/// every closure ran once per element, in order, with the right arguments
pub fn check_log(x: &Value, items: &[Value]) -> Result<(), String> {
    let log = take_log();
    for (id, path) in closures(x) {
        let got: Vec<&Value> = log.iter().filter(|e| e.0 == id).map(|e| &e.1).collect();
        let want: Vec<&Value> = items.iter().map(|i| project(i, &path)).collect();
        if got != want {
            return Err(format!("calls of closure {id}: {}, expected {}", json!(got), json!(want)));
        }
    }
    Ok(())
}

/// stepping, remaining length, fused end, and every other way of consuming an iterator
pub fn check_iter(want: &[Value], mk: &mut dyn FnMut() -> Box<dyn DynIter>) -> Result<u64, String> {
    let n = want.len();
    let mut it = mk();
    let mut execs = 1;
    for k in 0..=n + 2 {
        let left = n.saturating_sub(k);
        if it.hint() != (left, Some(left)) || it.len() != left {
            return Err(format!("after {k} of {n} items the iterator reports {:?}, len {}", it.hint(), it.len()));
        }
        let got = it.next();
        if got.as_ref() != want.get(k) {
            return Err(format!("call {} of next gives {}, expected {}", k + 1, json!(got), json!(want.get(k))));
        }
    }
    if let Some(v) = it.fold().into_iter().next() {
        return Err(format!("folding an exhausted iterator gives {v}"));
    }
    // every position, of many those at the ends, around powers of two and in between
    for k in (0..=n).filter(|&k| n <= 96 || k < 4 || k + 4 > n || (k + 1) & k == 0 || k & (k - 1) == 0 || (k - 1) & (k - 2) == 0 || k % 37 == 0) {
        let mut it = mk();
        execs += 1;
        for _ in 0..k {
            it.next();
        }
        if k == n {
            // at the end, but not yet asked
            if let Some(d) = it.dup() {
                if !d.fold().is_empty() {
                    return Err("clone of an iterator at its end gives items".into());
                }
            }
        } else if let Some(mut d) = it.dup() {
            if d.hint() != it.hint() {
                return Err(format!("clone after {k} items reports {:?} instead of {:?}", d.hint(), it.hint()));
            }
            if d.next().as_ref() != want.get(k) {
                return Err(format!("clone after {k} items gives another item"));
            }
            let rest = d.fold();
            if rest != want[k + 1..] {
                return Err(format!("clone after {k} items continues with {}, expected {}", json!(rest), json!(&want[k + 1..])));
            }
        }
        let rest = it.fold();
        if rest != want[k..] {
            return Err(format!("fold after {k} items gives {}, expected {}", json!(rest), json!(&want[k..])));
        }
        let mut it = mk();
        let got = it.nth(k);
        if got.as_ref() != want.get(k) {
            return Err(format!("nth({k}) gives {}, expected {}", json!(got), json!(want.get(k))));
        }
        let left = n.saturating_sub(k + 1);
        if it.len() != left {
            return Err(format!("after nth({k}) of {n} items {} are reported left", it.len()));
        }
        let got = it.last();
        if got.as_ref() != if k + 1 < n { want.last() } else { None } {
            return Err(format!("last after nth({k}) gives {}", json!(got)));
        }
    }
    if mk().count() != n {
        return Err("count".into());
    }
    Ok(execs)
}

/// items of all kinds of evaluation
pub fn check_eval(x: &Value, dims: &[usize], want: &[Value], calls: bool, mk: &mut dyn FnMut() -> Box<dyn DynExpr>) -> Result<u64, String> {
    for how in 0..CONSUMERS {
        let e = mk();
        take_log();
        let (d, v) = e.consume(how);
        if d.as_ref().is_some_and(|d| d != dims) {
            return Err(format!("evaluation {how} gives shape {:?}, expected {dims:?}", d.unwrap()));
        }
        if v != want {
            return Err(format!("evaluation {how} gives {}, expected {}", json!(v), json!(want)));
        }
        if calls {
            check_log(x, want)?;
        }
        if let Some(e2) = { mk().dup() } {
            let (_, v) = e2.consume(how);
            if v != want {
                return Err(format!("evaluation {how} of a clone gives {}, expected {}", json!(v), json!(want)));
            }
        }
    }
    Ok(CONSUMERS as u64)
}

/// leaves of other shapes that a type with the shape S (and axis, if any) may also have
pub fn others<S: Shape + 'static>(l: &Leaf) -> Vec<Leaf> {
    let mut ds: Vec<Vec<usize>> = vec![l.d.clone(), l.d.iter().map(|d| d + 1).collect(), l.d.iter().rev().copied().collect(), [&l.d[..], &[2]].concat()];
    ds.retain(|d| fits::<S>(d));
    ds.into_iter().map(|d| {
        let s: Vec<isize> = (0..d.len()).map(|i| d[i + 1..].iter().product::<usize>() as isize).collect();
        Leaf { d, s, f: 0, id: 5, ..l.clone() }
    }).collect()
}
/// an expression overwritten by another one is the other one
pub fn check_over(dims: &[usize], want: &[Value], others: &[Leaf], l: &Leaf, mk: &mut dyn FnMut(&mut Cx, &Leaf) -> Box<dyn DynExpr>) -> Result<u64, String> {
    let mut n = 0;
    for o in others {
        for how in [0, 2, 5] {
            let (mut a, mut b) = (Cx::new(0), Cx::new(0));
            let (mut t, s) = (mk(&mut a, o), mk(&mut b, l));
            if !t.overwrite(&*s) {
                return Ok(n);
            }
            n += 1;
            let got = t.dims()?;
            if got != dims {
                return Err(format!("after clone_from the shape is {got:?}, expected {dims:?}"));
            }
            for (what, e) in [("overwritten expression", t), ("source of clone_from", s)] {
                let v = e.consume(how).1;
                if v != want {
                    return Err(format!("evaluation {how} of the {what} gives {}, expected {}", json!(v), json!(want)));
                }
            }
        }
    }
    Ok(n)
}

/// all items at once: nothing overlaps, writes land where the items point
pub fn check_hold(want: &[Value], mk: &mut dyn FnMut(&mut Cx) -> Box<dyn DynExpr>) -> Result<u64, String> {
    let mut cx = Cx::new(0);
    let e = mk(&mut cx);
    let (mut seen, mut next) = (std::collections::HashMap::new(), -1i64);
    let mut twice = None;
    let got = e.iter().hold(&mut |p| {
        let was = *p;
        if seen.insert(was, next).is_some() || was < 0 {
            twice = Some(was);
        }
        *p = next;
        next -= 1;
    });
    if got != want {
        return Err(format!("items held together are {}, expected {}", json!(got), json!(want)));
    }
    if let Some(c) = twice {
        return Err(format!("two mutable items give access to the same cell ({c})"));
    }
    cx.check(|_, cell| seen.get(&cell).copied().unwrap_or(cell))?;
    Ok(1)
}

