//! Conversions between holders of an array (ConvGen).
//!   c MODE CASES OUT PROGRESS SHARD NSHARDS SEED      mode: replay
use harness::hold::Store;
use harness::serde_json::Value;
use harness::*;
use mdarray::*;
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;

type D = Dyn;
type C<const N: usize> = Const<N>;
type R = DynRank;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
/// an element; the number of live ones is known
#[derive(Debug)]
struct E(i64);
impl E {
    fn new(x: i64) -> E {
        LIVE.with(|l| l.set(l.get() + 1));
        E(x)
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        E::new(self.0)
    }
}
impl Drop for E {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
        self.0 = -77;
    }
}

trait Val {
    fn val(&self) -> i64;
}
impl Val for E {
    fn val(&self) -> i64 {
        self.0
    }
}
impl Val for i64 {
    fn val(&self) -> i64 {
        *self
    }
}

/// nested arrays
trait Flat {
    fn build(it: &mut dyn Iterator<Item = i64>) -> Self;
    fn flat(&self, out: &mut Vec<i64>);
    fn set(&mut self, it: &mut dyn Iterator<Item = i64>);
}
impl Flat for E {
    fn build(it: &mut dyn Iterator<Item = i64>) -> E {
        E::new(it.next().unwrap())
    }
    fn flat(&self, out: &mut Vec<i64>) {
        out.push(self.0)
    }
    fn set(&mut self, it: &mut dyn Iterator<Item = i64>) {
        self.0 = it.next().unwrap()
    }
}
impl<N: Flat, const K: usize> Flat for [N; K] {
    fn build(it: &mut dyn Iterator<Item = i64>) -> Self {
        std::array::from_fn(|_| N::build(it))
    }
    fn flat(&self, out: &mut Vec<i64>) {
        self.iter().for_each(|x| x.flat(out))
    }
    fn set(&mut self, it: &mut dyn Iterator<Item = i64>) {
        self.iter_mut().for_each(|x| x.set(it))
    }
}

struct Job<'a> {
    op: &'a str,
    via: &'a str,
    ok: bool,
    d: Vec<usize>,
    st: Vec<i64>,
    to: Vec<i64>,
    c: Vec<i64>,
    aim: Vec<i64>,
    k: &'a str,
}
type Res = Result<(), String>;

impl Job<'_> {
    fn items(&self) -> Vec<E> {
        self.c.iter().map(|&x| E::new(x)).collect()
    }
    fn nest<N: Flat>(&self) -> N {
        N::build(&mut self.c.iter().copied())
    }
    /// `spare`: capacity beyond the elements
    fn tensor<S: Shape>(&self, spare: usize) -> Tensor<E, S> {
        let mut v = Vec::with_capacity(self.c.len() + spare);
        v.extend(self.items());
        let mut v = std::mem::ManuallyDrop::new(v);
        unsafe { Tensor::from_raw_parts(v.as_mut_ptr(), DenseMapping::new(S::from_dims(&self.d)), v.capacity()) }
    }
    fn array<S: ConstShape>(&self) -> Array<E, S> {
        // by position
        let mut s = Store::new(&self.d, &self.items(), 0, |_| E::new(-5));
        let p = s.ptr_mut();
        let d = self.d.clone();
        let a = Array::from_fn(|ix| unsafe {
            let k = ix.iter().zip(&d).fold(0, |k, (&i, &n)| k * n + i);
            (*p.add(k)).clone()
        });
        drop(s);
        a
    }
    fn see<T: Val, S: Shape, L: Layout>(&self, what: &str, x: &Slice<T, S, L>) -> Res {
        let d = x.shape().with_dims(|d| d.to_vec());
        if d != self.d || x.rank() != d.len() || x.len() != self.c.len() {
            return Err(format!("{what} has shape {d:?}, expected {:?}", self.d));
        }
        let mut ix = vec![0; d.len()];
        for k in 0..self.c.len() {
            let mut r = k;
            for i in (0..d.len()).rev() {
                ix[i] = r % d[i];
                r /= d[i];
            }
            let off: isize = (0..d.len()).map(|i| ix[i] as isize * x.stride(i)).sum();
            let got = unsafe { (*x.as_ptr().offset(off)).val() };
            if got != self.c[k] {
                return Err(format!("{what} holds {got} at {ix:?}, expected {}", self.c[k]));
            }
        }
        let it: Vec<i64> = x.iter().map(|e| e.val()).collect();
        if it != self.c { Err(format!("{what} iterates {it:?}, expected {:?}", self.c)) } else { Ok(()) }
    }
    fn see_nest<N: Flat>(&self, what: &str, x: &N) -> Res {
        let mut v = Vec::new();
        x.flat(&mut v);
        if v != self.c { Err(format!("{what} holds {v:?}, expected {:?}", self.c)) } else { Ok(()) }
    }
    fn see_list(&self, what: &str, x: &[E]) -> Res {
        let v: Vec<i64> = x.iter().map(|e| e.0).collect();
        if v != self.c { Err(format!("{what} holds {v:?}, expected {:?}", self.c)) } else { Ok(()) }
    }
    fn same<T: ?Sized, U: ?Sized>(&self, what: &str, a: *const T, b: *const U) -> Res {
        if a.cast::<u8>() != b.cast::<u8>() { Err(format!("{what} is not the same memory")) } else { Ok(()) }
    }
    fn dup(&self) -> Result<(), String> {
        Err(format!("the harness has no {} {} of {} {:?} {:?}", self.op, self.via, self.k, self.st, self.d))
    }
    /// the i-th element gets 100 + i, through whatever view it is written
    fn marks(&self) -> Vec<i64> {
        (0..self.c.len() as i64).map(|i| 100 + i).collect()
    }
}

// --------------------------------------------------------------- from nests
fn nest_array<S: ConstShape, N>(j: &Job) -> Res
where
    N: Flat + AsRef<Array<E, S>> + AsMut<Array<E, S>>,
    Array<E, S>: From<N> + for<'a> From<&'a N>,
{
    let mut n: N = j.nest();
    match j.via {
        "value" => j.see("Array", &Array::from(n)),
        "ref" => {
            j.see("Array", &Array::from(&n))?;
            j.see_nest("the source", &n)
        }
        "asref" => {
            let a: &Array<E, S> = n.as_ref();
            j.see("&Array", a)?;
            j.same("&Array", a, &n)
        }
        "asmut" => {
            let p = &raw const n;
            let a: &mut Array<E, S> = n.as_mut();
            j.see("&mut Array", a)?;
            j.same("&mut Array", a, p)
        }
        _ => j.dup(),
    }
}
fn nest_other<S: Shape, N>(j: &Job) -> Res
where
    N: Flat,
    Tensor<E, S>: From<N> + for<'a> From<&'a N>,
    for<'a> View<'a, E, S>: From<&'a N>,
    for<'a> ViewMut<'a, E, S>: From<&'a mut N>,
{
    let mut n: N = j.nest();
    match (j.op, j.via) {
        ("tensor", "value") => {
            let t = <Tensor<E, S> as From<N>>::from(n);
            j.see("Tensor", &t)?;
            if t.capacity() < j.c.len() {
                return Err(format!("Tensor has capacity {}", t.capacity()));
            }
            j.see_list("the elements", &t.into_vec())
        }
        ("tensor", "ref") => {
            j.see("Tensor", &<Tensor<E, S> as From<&N>>::from(&n))?;
            j.see_nest("the source", &n)
        }
        ("view", "ref") => {
            let v = <View<E, S> as From<&N>>::from(&n);
            j.see("View", &v)?;
            if j.c.is_empty() { Ok(()) } else { j.same("View", v.as_ptr(), &n) }
        }
        ("viewmut", "ref") => {
            let p = &raw const n;
            let mut v = <ViewMut<E, S> as From<&mut N>>::from(&mut n);
            j.see("ViewMut", &v)?;
            if !j.c.is_empty() {
                j.same("ViewMut", v.as_mut_ptr(), p)?;
            }
            let m = j.marks();
            v.iter_mut().zip(&m).for_each(|(e, &x)| e.0 = x);
            let mut got = Vec::new();
            n.flat(&mut got);
            if got != m { Err(format!("after writing through the view the source holds {got:?}, expected {m:?}")) } else { Ok(()) }
        }
        _ => j.dup(),
    }
}

// -------------------------------------------------------------- from arrays
fn array_nest<S: ConstShape, N>(j: &Job) -> Res
where
    N: Flat + From<Array<E, S>>,
    Array<E, S>: AsRef<N> + AsMut<N>,
    Slice<E, S>: AsRef<N> + AsMut<N>,
{
    let mut a: Array<E, S> = j.array();
    let p = &raw const a;
    match j.via {
        "value" => j.see_nest("the nested array", &N::from(a)),
        "asref" => {
            let n = <Array<E, S> as AsRef<N>>::as_ref(&a);
            j.see_nest("the nested array", n)?;
            j.same("it", n, p)
        }
        "asmut" => {
            let n = <Array<E, S> as AsMut<N>>::as_mut(&mut a);
            j.see_nest("the nested array", n)?;
            j.same("it", n, p)
        }
        "slice" => {
            let s: &Slice<E, S> = a.borrow();
            let n = <Slice<E, S> as AsRef<N>>::as_ref(s);
            j.see_nest("the nested array", n)?;
            j.same("it", n, p)
        }
        "slicemut" => {
            let s: &mut Slice<E, S> = a.borrow_mut();
            let n = <Slice<E, S> as AsMut<N>>::as_mut(s);
            j.see_nest("the nested array", n)?;
            n.set(&mut j.marks().into_iter());
            let got: Vec<i64> = a.iter().map(|e| e.0).collect();
            if got != j.marks() { Err(format!("after writing the array holds {got:?}")) } else { Ok(()) }
        }
        _ => j.dup(),
    }
}
fn array_other<S: ConstShape>(j: &Job) -> Res {
    let mut a: Array<E, S> = j.array();
    match (j.op, j.via) {
        ("array", "ref") => j.see("Array", &Array::from(&a)),
        ("array", "to_array") => j.see("Array", &a.to_array()),
        ("array", "slice") => {
            let s: &Slice<E, S> = a.as_ref();
            j.see("Array", &Array::from(s))
        }
        ("tensor", "value") => return j.see("Tensor", &Tensor::from(a)),
        ("tensor", "ref") => j.see("Tensor", &Tensor::<E, S>::from(&a)),
        ("tensor", "to_tensor") => j.see("Tensor", &a.to_tensor()),
        ("tensor", "to_owned") => j.see::<E, S, Dense>("the owned array", (*a).to_owned().borrow()),
        ("view", "ref") => {
            let v = View::<E, S>::from(&a);
            j.see("View", &v)?;
            j.same("View", v.as_ptr(), a.as_ptr())
        }
        ("viewmut", "ref") => {
            let p = a.as_ptr();
            let mut v = ViewMut::<E, S>::from(&mut a);
            j.see("ViewMut", &v)?;
            j.same("ViewMut", v.as_mut_ptr(), p)
        }
        ("vec", "to_vec") => j.see_list("Vec", &a.to_vec()),
        _ => j.dup(),
    }?;
    j.see("the source", &a)
}

// ------------------------------------------------------------- from tensors
fn tensor_array<S: ConstShape>(j: &Job) -> Res {
    for spare in [0, 3] {
        let t: Tensor<E, S> = j.tensor(spare);
        match j.via {
            "value" => j.see("Array", &Array::from(t))?,
            "ref" => {
                j.see("Array", &Array::from(&t))?;
                j.see("the source", &t)?;
            }
            "to_array" => {
                j.see("Array", &t.to_array())?;
                j.see("the source", &t)?;
            }
            _ => j.dup()?,
        }
    }
    Ok(())
}
fn tensor_other<S: Shape>(j: &Job) -> Res {
    for spare in [0, 3] {
        let mut t: Tensor<E, S> = j.tensor(spare);
        match (j.op, j.via) {
            ("tensor", "ref") => j.see("Tensor", &Tensor::<E, S>::from(&t)),
            ("tensor", "to_tensor") => j.see("Tensor", &t.to_tensor()),
            ("tensor", "to_owned") => j.see::<E, S, Dense>("the owned array", (*t).to_owned().borrow()),
            ("tensor", "slice") => {
                let s: &Slice<E, S> = t.borrow();
                j.see("Tensor", &Tensor::from(s))
            }
            ("tensor", "into_dyn") => {
                j.see("Tensor", &t.into_dyn())?;
                continue;
            }
            ("view", "ref") => {
                let v = View::<E, S>::from(&t);
                j.see("View", &v)?;
                j.same("View", v.as_ptr(), t.as_ptr())
            }
            ("viewmut", "ref") => {
                let p = t.as_ptr();
                let mut v = ViewMut::<E, S>::from(&mut t);
                j.see("ViewMut", &v)?;
                j.same("ViewMut", v.as_mut_ptr(), p)
            }
            ("vec", "to_vec") => j.see_list("Vec", &t.to_vec()),
            ("vec", "into_vec") => {
                j.see_list("Vec", &t.into_vec())?;
                continue;
            }
            _ => j.dup(),
        }?;
        j.see("the source", &t)?;
    }
    Ok(())
}
fn tensor_list<X: Dim>(j: &Job) -> Res {
    for spare in [0, 3] {
        let mut t: Tensor<E, (X,)> = j.tensor(spare);
        match j.via {
            "value" => {
                j.see_list("Vec", &Vec::from(t))?;
                continue;
            }
            "asref" => {
                let s: &[E] = t.as_ref();
                j.see_list("&[T]", s)?;
                j.same("&[T]", s.as_ptr(), t.as_ptr())?;
            }
            "asmut" => {
                let p = t.as_ptr();
                let s: &mut [E] = t.as_mut();
                j.see_list("&mut [T]", s)?;
                j.same("&mut [T]", s.as_ptr(), p)?;
            }
            _ => j.dup()?,
        }
        j.see("the source", &t)?;
    }
    Ok(())
}

// --------------------------------------------------------------- from views
fn view_array<S: ConstShape>(j: &Job) -> Res {
    for w in 0..4 {
        let mut st = Store::new(&j.d, &j.items(), w, |_| E::new(-5));
        if j.k == "strided" {
            match j.via {
                "value" => {
                    j.see("Array", &Array::<E, S>::from(st.strided::<S>()))?;
                    j.see("Array from a slice", &Array::<E, S>::from(&*st.strided_mut::<S>()))?;
                }
                "to_array" => j.see("Array", &st.strided::<S>().to_array())?,
                _ => j.dup()?,
            }
        } else if w == 0 {
            match (j.k, j.via) {
                ("view", "value") => j.see("Array", &Array::<E, S>::from(st.dense::<S>()))?,
                ("viewmut", "value") => j.see("Array", &Array::<E, S>::from(&st.dense_mut::<S>()))?,
                ("view", "to_array") => j.see("Array", &st.dense::<S>().to_array())?,
                ("viewmut", "to_array") => j.see("Array", &st.dense_mut::<S>().to_array())?,
                _ => j.dup()?,
            }
        }
        j.see("the source", &st.strided::<S>())?;
    }
    Ok(())
}
fn view_other<S: Shape>(j: &Job) -> Res {
    for w in 0..4 {
        let mut st = Store::new(&j.d, &j.items(), w, |_| E::new(-5));
        if j.k == "strided" {
            match (j.op, j.via) {
                ("tensor", "value") => {
                    j.see("Tensor", &Tensor::<E, S>::from(st.strided::<S>()))?;
                    j.see("Tensor from a slice", &Tensor::<E, S>::from(&*st.strided_mut::<S>()))?;
                }
                ("tensor", "to_tensor") => {
                    j.see("Tensor", &st.strided::<S>().to_tensor())?;
                    j.see("Tensor", &st.strided_mut::<S>().to_tensor())?;
                }
                ("vec", "to_vec") => j.see_list("Vec", &st.strided::<S>().to_vec())?,
                _ => j.dup()?,
            }
        } else if w == 0 {
            match (j.k, j.op, j.via) {
                ("view", "tensor", "value") => j.see("Tensor", &Tensor::<E, S>::from(st.dense::<S>()))?,
                ("viewmut", "tensor", "value") => j.see("Tensor", &Tensor::<E, S>::from(&st.dense_mut::<S>()))?,
                ("view", "tensor", "to_tensor") => j.see("Tensor", &st.dense::<S>().to_tensor())?,
                ("viewmut", "tensor", "to_tensor") => j.see("Tensor", &st.dense_mut::<S>().to_tensor())?,
                ("view", "vec", "to_vec") => j.see_list("Vec", &st.dense::<S>().to_vec())?,
                ("viewmut", "vec", "to_vec") => j.see_list("Vec", &st.dense_mut::<S>().to_vec())?,
                _ => j.dup()?,
            }
        }
        j.see("the source", &st.strided::<S>())?;
    }
    Ok(())
}
/// the nested array behind a view of constant size
fn view_nest<S: ConstShape, N: Flat>(j: &Job) -> Res
where
    Slice<E, S>: AsRef<N> + AsMut<N>,
{
    let mut st = Store::new(&j.d, &j.items(), 0, |_| E::new(-5));
    let p = st.ptr();
    match (j.k, j.via) {
        ("view", "asref") => {
            let v = st.dense::<S>();
            let n = <View<E, S> as AsRef<N>>::as_ref(&v);
            j.see_nest("the nested array", n)?;
            j.same("it", n, p)
        }
        ("viewmut", "asref") => {
            let v = st.dense_mut::<S>();
            let n = <ViewMut<E, S> as AsRef<N>>::as_ref(&v);
            j.see_nest("the nested array", n)?;
            j.same("it", n, p)
        }
        ("viewmut", "asmut") => {
            let mut v = st.dense_mut::<S>();
            let n = <ViewMut<E, S> as AsMut<N>>::as_mut(&mut v);
            j.see_nest("the nested array", n)?;
            n.set(&mut j.marks().into_iter());
            let got: Vec<i64> = v.iter().map(|e| e.0).collect();
            if got != j.marks() { Err(format!("after writing the view shows {got:?}")) } else { j.same("it", v.as_ptr(), p) }
        }
        _ => j.dup(),
    }
}
/// another view of the same elements
fn view_again<S: Shape, L: Layout>(j: &Job, v: View<E, S, L>, others: &[View<E, S, L>]) -> Res {
    let check = |what: &str, w: &Slice<E, S, L>| -> Res {
        j.see(what, w)?;
        j.same(what, w.as_ptr(), v.as_ptr())?;
        for i in 0..v.rank() {
            if !j.c.is_empty() && v.dim(i) > 1 && w.stride(i) != v.stride(i) {
                return Err(format!("{what}: stride {i} is {}, expected {}", w.stride(i), v.stride(i)));
            }
        }
        Ok(())
    };
    match j.via {
        "clone" => check("the clone", &v.clone()),
        "borrow" => check("the slice", v.borrow()),
        _ => {
            for o in others {
                let mut w = o.clone();
                w.clone_from(&v);
                check("the overwritten view", &w)?;
            }
            Ok(())
        }
    }
}
fn view_same<S: Shape + 'static>(j: &Job) -> Res {
    // other shapes of the same type, and of other ranks if the type allows it
    let mut shapes = vec![j.d.clone(), j.d.iter().map(|d| d + 1).collect(), j.d.iter().rev().copied().collect()];
    shapes.push([&[2], &j.d[..]].concat());
    shapes.push(j.d.iter().skip(1).copied().collect());
    shapes.retain(|d| harness::ex::fits::<S>(d));
    let others: Vec<Store<E>> = shapes.iter().flat_map(|d| [0, 3].map(|w| Store::new(d, &vec![E::new(-6); d.iter().product()], w, |_| E::new(-5)))).collect();
    for w in 0..4 {
        let mut st = Store::new(&j.d, &j.items(), w, |_| E::new(-5));
        let p = st.ptr();
        match (j.k, j.via) {
            ("strided", _) => view_again(j, st.strided::<S>(), &others.iter().map(|o| o.strided::<S>()).collect::<Vec<_>>())?,
            ("view", _) if w == 0 => view_again(j, st.dense::<S>(), &others.iter().map(|o| o.dense::<S>()).collect::<Vec<_>>())?,
            ("viewmut", "borrow") if w == 0 => {
                let v = st.dense_mut::<S>();
                let s: &Slice<E, S> = v.borrow();
                j.see("the slice", s)?;
                j.same("the slice", s.as_ptr(), p)?;
            }
            ("viewmut", "borrowmut") => {
                let mut v = st.strided_mut::<S>();
                let s: &mut Slice<E, S, Strided> = v.borrow_mut();
                j.see("the slice", s)?;
                j.same("the slice", s.as_ptr(), p)?;
                let m = j.marks();
                s.iter_mut().zip(&m).for_each(|(e, &x)| e.0 = x);
                let got: Vec<i64> = st.strided::<S>().iter().map(|e| e.0).collect();
                if got != m {
                    return Err(format!("after writing the source holds {got:?}, expected {m:?}"));
                }
            }
            _ => {}
        }
    }
    Ok(())
}
fn view_list<X: Dim>(j: &Job) -> Res {
    let mut st = Store::new(&j.d, &j.items(), 0, |_| E::new(-5));
    let p = st.ptr();
    if j.k == "view" {
        let s: &[E] = st.dense::<(X,)>().into();
        j.see_list("&[T]", s)?;
        j.same("&[T]", s.as_ptr(), p)
    } else {
        let s: &mut [E] = st.dense_mut::<(X,)>().into();
        j.see_list("&mut [T]", s)?;
        j.same("&mut [T]", s.as_ptr(), p)
    }
}
fn vec_other(j: &Job) -> Res {
    let mut v = j.items();
    match (j.op, j.via) {
        ("tensor", "value") => j.see("Tensor", &Tensor::<E, (D,)>::from(v)),
        ("tensor", "slice") => {
            j.see("Tensor", &Tensor::<E, (D,)>::from(&v[..]))?;
            j.see_list("the source", &v)
        }
        ("tensor", "iter") => {
            j.see("Tensor", &v.iter().cloned().collect::<Tensor<E, (D,)>>())?;
            // an iterator that knows nothing about its length
            let mut it = v.into_iter();
            j.see("Tensor", &std::iter::from_fn(|| it.next()).collect::<Tensor<E, (D,)>>())
        }
        ("view", "slice") => {
            let w: View<E, (D,)> = (&v[..]).into();
            j.see("View", &w)?;
            j.same("View", w.as_ptr(), v.as_ptr())
        }
        ("viewmut", "slice") => {
            let p = v.as_ptr();
            let mut w: ViewMut<E, (D,)> = (&mut v[..]).into();
            j.see("ViewMut", &w)?;
            j.same("ViewMut", w.as_mut_ptr(), p)
        }
        _ => j.dup(),
    }
}

// ---------------------------------------------------------------- fallible
fn try_nest<S: Shape, N>(j: &Job) -> Res
where
    N: Flat + TryFrom<Tensor<E, S>, Error = Tensor<E, S>>,
    for<'a> &'a N: TryFrom<View<'a, E, S>, Error = View<'a, E, S>>,
    for<'a> &'a mut N: TryFrom<ViewMut<'a, E, S>, Error = ViewMut<'a, E, S>>,
{
    let wrong = |ok: bool| -> Res {
        if ok != j.ok { Err(format!("the conversion {}, expected the contrary", if ok { "succeeds" } else { "is refused" })) } else { Ok(()) }
    };
    match j.k {
        "tensor" => {
            for spare in [0, 3] {
                let t: Tensor<E, S> = j.tensor(spare);
                let (p, cap) = (t.as_ptr(), t.capacity());
                match N::try_from(t) {
                    Ok(n) => {
                        wrong(true)?;
                        j.see_nest("the nested array", &n)?;
                    }
                    Err(t) => {
                        wrong(false)?;
                        j.see("the returned tensor", &t)?;
                        j.same("it", t.as_ptr(), p)?;
                        if t.capacity() != cap {
                            return Err("the returned tensor has another capacity".into());
                        }
                    }
                }
            }
            Ok(())
        }
        "view" => {
            let st = Store::new(&j.d, &j.items(), 0, |_| E::new(-5));
            match <&N>::try_from(st.dense::<S>()) {
                Ok(n) => {
                    wrong(true)?;
                    j.see_nest("the nested array", n)?;
                    j.same("it", n, st.ptr())
                }
                Err(v) => {
                    wrong(false)?;
                    j.see("the returned view", &v)?;
                    j.same("it", v.as_ptr(), st.ptr())
                }
            }
        }
        _ => {
            let mut st = Store::new(&j.d, &j.items(), 0, |_| E::new(-5));
            let p = st.ptr();
            match <&mut N>::try_from(st.dense_mut::<S>()) {
                Ok(n) => {
                    wrong(true)?;
                    j.see_nest("the nested array", n)?;
                    j.same("it", n, p)
                }
                Err(v) => {
                    wrong(false)?;
                    j.see("the returned view", &v)?;
                    j.same("it", v.as_ptr(), p)
                }
            }
        }
    }
}
fn remap<S: Shape, X: Shape>(j: &Job) -> Res {
    let judge = |r: Option<Res>| match r {
        None if j.ok => Err("panics, expected to succeed".into()),
        Some(r) if !j.ok => Err(format!("{r:?}: succeeds, expected a panic")),
        Some(r) => r,
        None => Ok(()),
    };
    match j.k {
        "tensor" => {
            let t: Tensor<E, S> = j.tensor(2);
            let p = t.as_ptr();
            judge(trap(|| t.into_mapping::<X>()).map(|t| j.see("Tensor", &t).and_then(|_| j.same("Tensor", t.as_ptr(), p))))
        }
        "view" => {
            let st = Store::new(&j.d, &j.items(), 0, |_| E::new(-5));
            judge(trap(|| st.dense::<S>().into_mapping::<X, Dense>()).map(|v| j.see("View", &v).and_then(|_| j.same("View", v.as_ptr(), st.ptr()))))
        }
        _ => {
            let mut st = Store::new(&j.d, &j.items(), 0, |_| E::new(-5));
            let p = st.ptr();
            judge(trap(|| st.dense_mut::<S>().into_mapping::<X, Dense>()).map(|v| j.see("ViewMut", &v).and_then(|_| j.same("ViewMut", v.as_ptr(), p))))
        }
    }
}

// ------------------------------------------------------------------- macros
fn e(x: i64) -> E {
    E::new(x)
}
macro_rules! literals {
    ($j:ident, $m:ident, $what:expr) => {
        match &$j.d[..] {
            [0] => $j.see::<E, _, _>($what, &$m![]),
            [3] => $j.see($what, &$m![e(1), e(2), e(3)]).and_then(|_| $j.see($what, &$m![e(1), e(2), e(3),])),
            [2, 0] => $j.see::<E, _, _>($what, &$m![[], []]),
            [2, 3] => $j.see($what, &$m![[e(1), e(2), e(3)], [e(4), e(5), e(6)]]).and_then(|_| $j.see($what, &$m![[e(1), e(2), e(3),], [e(4), e(5), e(6)],])),
            [2, 1, 3] => $j.see($what, &$m![[[e(1), e(2), e(3)]], [[e(4), e(5), e(6)]]]),
            [2, 1, 3, 2] => $j.see($what, &$m![[[[e(1), e(2)], [e(3), e(4)], [e(5), e(6)]]], [[[e(7), e(8)], [e(9), e(10)], [e(11), e(12)]]]]),
            [3, 2, 1, 1] => $j.see($what, &$m![[[[e(1)]], [[e(2)]]], [[[e(3)]], [[e(4)]]], [[[e(5)]], [[e(6)]]]]),
            [1, 2, 3, 1, 2] => $j.see($what, &$m![[[[[e(1), e(2)]], [[e(3), e(4)]], [[e(5), e(6)]]], [[[e(7), e(8)]], [[e(9), e(10)]], [[e(11), e(12)]]]]]),
            [2, 1, 2, 1, 3] => $j.see($what, &$m![[[[[e(1), e(2), e(3)]], [[e(4), e(5), e(6)]]]], [[[[e(7), e(8), e(9)]], [[e(10), e(11), e(12)]]]]]),
            [1, 2, 1, 3, 1, 2] => $j.see($what, &$m![[[[[[e(1), e(2)]], [[e(3), e(4)]], [[e(5), e(6)]]]], [[[[e(7), e(8)]], [[e(9), e(10)]], [[e(11), e(12)]]]]]]),
            [2, 1, 3, 1, 2, 1] => $j.see($what, &$m![[[[[[e(1)], [e(2)]]], [[[e(3)], [e(4)]]], [[[e(5)], [e(6)]]]]], [[[[[e(7)], [e(8)]]], [[[e(9)], [e(10)]]], [[[e(11)], [e(12)]]]]]]),
            [3, 1, 2, 1, 1, 2] => $j.see($what, &$m![[[[[[e(1), e(2)]]], [[[e(3), e(4)]]]]], [[[[[e(5), e(6)]]], [[[e(7), e(8)]]]]], [[[[[e(9), e(10)]]], [[[e(11), e(12)]]]]]]),
            _ => $j.dup(),
        }
    };
}
macro_rules! repeats {
    ($j:ident, $m:ident, $what:expr) => {
        match &$j.d[..] {
            [0] => $j.see($what, &$m![7i64; 0]),
            [3] => $j.see($what, &$m![7i64; 3]),
            [2, 0] => $j.see($what, &$m![[7i64; 0]; 2]),
            [2, 3] => $j.see($what, &$m![[7i64; 3]; 2]),
            [2, 1, 3] => $j.see($what, &$m![[[7i64; 3]; 1]; 2]),
            [2, 1, 3, 2] => $j.see($what, &$m![[[[7i64; 2]; 3]; 1]; 2]),
            [3, 2, 1, 1] => $j.see($what, &$m![[[[7i64; 1]; 1]; 2]; 3]),
            [1, 2, 3, 1, 2] => $j.see($what, &$m![[[[[7i64; 2]; 1]; 3]; 2]; 1]),
            [2, 1, 2, 1, 3] => $j.see($what, &$m![[[[[7i64; 3]; 1]; 2]; 1]; 2]),
            [1, 2, 1, 3, 1, 2] => $j.see($what, &$m![[[[[[7i64; 2]; 1]; 3]; 1]; 2]; 1]),
            [2, 1, 3, 1, 2, 1] => $j.see($what, &$m![[[[[[7i64; 1]; 2]; 1]; 3]; 1]; 2]),
            [3, 1, 2, 1, 1, 2] => $j.see($what, &$m![[[[[[7i64; 2]; 1]; 1]; 2]; 1]; 3]),
            _ => $j.dup(),
        }
    };
}
fn macros(j: &Job) -> Res {
    match (j.op, j.via) {
        ("array", "macro") => literals!(j, array, "array!"),
        ("tensor", "macro") => literals!(j, tensor, "tensor!"),
        ("view", "macro") => literals!(j, view, "view!"),
        ("array", "repeat") => repeats!(j, array, "array!"),
        ("tensor", "repeat") => repeats!(j, tensor, "tensor!"),
        ("view", "repeat") => repeats!(j, view, "view!"),
        _ => j.dup(),
    }
}

// ----------------------------------------------------------------- dispatch
// shape, nested array, and its shape types: dynamic, constant, every other one
macro_rules! shapes {
    ($m:ident) => {
        $m!(
            [0] [E; 0], (D,), (C<0>,), (C<0>,), (D,);
            [1] [E; 1], (D,), (C<1>,), (C<1>,), (D,);
            [3] [E; 3], (D,), (C<3>,), (C<3>,), (D,);
            [40] [E; 40], (D,), (C<40>,), (C<40>,), (D,);
            [300] [E; 300], (D,), (C<300>,), (C<300>,), (D,);
            [17, 19] [[E; 19]; 17], (D, D), (C<17>, C<19>), (C<17>, D), (D, C<19>);
            [9, 5] [[E; 5]; 9], (D, D), (C<9>, C<5>), (C<9>, D), (D, C<5>);
            [3, 4, 5] [[[E; 5]; 4]; 3], (D, D, D), (C<3>, C<4>, C<5>), (C<3>, D, C<5>), (D, C<4>, D);
            [2, 3] [[E; 3]; 2], (D, D), (C<2>, C<3>), (C<2>, D), (D, C<3>);
            [3, 2] [[E; 2]; 3], (D, D), (C<3>, C<2>), (C<3>, D), (D, C<2>);
            [2, 0] [[E; 0]; 2], (D, D), (C<2>, C<0>), (C<2>, D), (D, C<0>);
            [0, 2] [[E; 2]; 0], (D, D), (C<0>, C<2>), (C<0>, D), (D, C<2>);
            [2, 3, 1] [[[E; 1]; 3]; 2], (D, D, D), (C<2>, C<3>, C<1>), (C<2>, D, C<1>), (D, C<3>, D);
            [2, 1, 3] [[[E; 3]; 1]; 2], (D, D, D), (C<2>, C<1>, C<3>), (C<2>, D, C<3>), (D, C<1>, D);
            [3, 2, 2] [[[E; 2]; 2]; 3], (D, D, D), (C<3>, C<2>, C<2>), (C<3>, D, C<2>), (D, C<2>, D);
            [2, 0, 3] [[[E; 3]; 0]; 2], (D, D, D), (C<2>, C<0>, C<3>), (C<2>, D, C<3>), (D, C<0>, D);
            [2, 1, 3, 2] [[[[E; 2]; 3]; 1]; 2], (D, D, D, D), (C<2>, C<1>, C<3>, C<2>), (C<2>, D, C<3>, D), (D, C<1>, D, C<2>);
            [2, 3, 1, 2] [[[[E; 2]; 1]; 3]; 2], (D, D, D, D), (C<2>, C<3>, C<1>, C<2>), (C<2>, D, C<1>, D), (D, C<3>, D, C<2>);
            [3, 2, 1, 1] [[[[E; 1]; 1]; 2]; 3], (D, D, D, D), (C<3>, C<2>, C<1>, C<1>), (C<3>, D, C<1>, D), (D, C<2>, D, C<1>);
            [1, 2, 3, 1, 2] [[[[[E; 2]; 1]; 3]; 2]; 1], (D, D, D, D, D), (C<1>, C<2>, C<3>, C<1>, C<2>), (C<1>, D, C<3>, D, C<2>), (D, C<2>, D, C<1>, D);
            [2, 1, 2, 1, 3] [[[[[E; 3]; 1]; 2]; 1]; 2], (D, D, D, D, D), (C<2>, C<1>, C<2>, C<1>, C<3>), (C<2>, D, C<2>, D, C<3>), (D, C<1>, D, C<1>, D);
            [1, 2, 1, 3, 1, 2] [[[[[[E; 2]; 1]; 3]; 1]; 2]; 1], (D, D, D, D, D, D), (C<1>, C<2>, C<1>, C<3>, C<1>, C<2>), (C<1>, D, C<1>, D, C<1>, D), (D, C<2>, D, C<3>, D, C<2>);
            [2, 1, 3, 1, 2, 1] [[[[[[E; 1]; 2]; 1]; 3]; 1]; 2], (D, D, D, D, D, D), (C<2>, C<1>, C<3>, C<1>, C<2>, C<1>), (C<2>, D, C<3>, D, C<2>, D), (D, C<1>, D, C<1>, D, C<1>);
            [3, 1, 2, 1, 1, 2] [[[[[[E; 2]; 1]; 1]; 2]; 1]; 3], (D, D, D, D, D, D), (C<3>, C<1>, C<2>, C<1>, C<1>, C<2>), (C<3>, D, C<2>, D, C<1>, D), (D, C<1>, D, C<1>, D, C<2>)
        )
    };
}
/// the shape type as the specification writes it
trait Named: Shape {
    fn name() -> Vec<i64>;
}
impl Named for R {
    fn name() -> Vec<i64> {
        vec![-9]
    }
}
macro_rules! named {
    ($($($x:ident)*),*) => {$(
        impl<$($x: Dim),*> Named for ($($x,)*) {
            fn name() -> Vec<i64> {
                vec![$($x::SIZE.map_or(-1, |n| n as i64)),*]
            }
        }
    )*};
}
named!(, X, X Y, X Y Z, X Y Z W, X Y Z W U, X Y Z W U V);

macro_rules! tries {
    ($($f:ident $x:tt $([$($d:expr),*] $n:ty);+;)*) => {$( tries!(@ $f $x, $x, $([$($d),*] $n);+); )*};
    (@ $f:ident ($($y:ident)+), $x:tt, $([$($d:expr),*] $n:ty);+) => {
        fn $f<$($y: Dim),+>(j: &Job) -> Res {
            let e: Vec<usize> = if j.ok { j.d.clone() } else { j.aim.iter().map(|&x| x as usize).collect() };
            $(if e == [$($d),*] {
                return try_nest::<tries!(tuple $x), $n>(j);
            })+
            j.dup()
        }
    };
    (tuple ($($x:ident)+)) => { ($($x,)+) };
}
tries! {
    try1 (X) [0] [E; 0]; [1] [E; 1]; [3] [E; 3]; [40] [E; 40]; [300] [E; 300];
    try2 (X Y) [2, 3] [[E; 3]; 2]; [3, 2] [[E; 2]; 3]; [2, 0] [[E; 0]; 2]; [0, 2] [[E; 2]; 0]; [9, 5] [[E; 5]; 9]; [17, 19] [[E; 19]; 17];
    try3 (X Y Z) [2, 3, 1] [[[E; 1]; 3]; 2]; [2, 1, 3] [[[E; 3]; 1]; 2]; [3, 2, 2] [[[E; 2]; 2]; 3]; [2, 0, 3] [[[E; 3]; 0]; 2]; [3, 4, 5] [[[E; 5]; 4]; 3];
    try4 (X Y Z W) [2, 1, 3, 2] [[[[E; 2]; 3]; 1]; 2]; [2, 3, 1, 2] [[[[E; 2]; 1]; 3]; 2]; [3, 2, 1, 1] [[[[E; 1]; 1]; 2]; 3];
    try5 (X Y Z W U) [1, 2, 3, 1, 2] [[[[[E; 2]; 1]; 3]; 2]; 1]; [2, 1, 2, 1, 3] [[[[[E; 3]; 1]; 2]; 1]; 2];
    try6 (X Y Z W U V) [1, 2, 1, 3, 1, 2] [[[[[[E; 2]; 1]; 3]; 1]; 2]; 1]; [2, 1, 3, 1, 2, 1] [[[[[[E; 1]; 2]; 1]; 3]; 1]; 2]; [3, 1, 2, 1, 1, 2] [[[[[[E; 2]; 1]; 1]; 2]; 1]; 3];
}
trait Try: Shape {
    fn go(j: &Job) -> Res;
}
macro_rules! try_impl {
    ($($f:ident $($x:ident)*),*) => {$(
        impl<$($x: Dim),*> Try for ($($x,)*) {
            fn go(j: &Job) -> Res {
                $f::<$($x),*>(j)
            }
        }
    )*};
}
try_impl!(try1 X, try2 X Y, try3 X Y Z, try4 X Y Z W, try5 X Y Z W U, try6 X Y Z W U V);

/// from a static rank or DynRank to every shape type
fn remap_any<S: Shape>(j: &Job) -> Res {
    let to = if j.ok { &j.to } else { &j.aim };
    macro_rules! go {
        ($([$($d:expr),*] $n:ty, $t:ty, $c:ty, $a:ty, $b:ty);*) => {
            $(
                if *to == <$c>::name() { return remap::<S, $c>(j); }
                if *to == <$b>::name() { return remap::<S, $b>(j); }
                if *to == <$a>::name() { return remap::<S, $a>(j); }
            )*
        };
    }
    macro_rules! dims {
        ($($t:ty);*) => {$( if *to == <$t>::name() { return remap::<S, $t>(j); } )*};
    }
    dims!(R; (); (D,); (D, D); (D, D, D); (D, D, D, D); (D, D, D, D, D); (D, D, D, D, D, D));
    shapes!(go);
    j.dup()
}
fn remap_to<S: Shape, X: Named, Y: Named, Z: Named>(j: &Job) -> Option<Res> {
    let to = if j.ok { &j.to } else { &j.aim };
    if *to == X::name() {
        return Some(remap::<S, X>(j));
    }
    if *to == Y::name() {
        return Some(remap::<S, Y>(j));
    }
    if *to == Z::name() {
        return Some(remap::<S, Z>(j));
    }
    None
}
fn remap_const<S: Named>(j: &Job) -> Res {
    macro_rules! go {
        ($([$($d:expr),*] $n:ty, $t:ty, $c:ty, $a:ty, $b:ty);*) => {
            $(
                if [$($d),*].len() == j.d.len() {
                    if let Some(r) = remap_to::<S, $c, $a, $b>(j) { return r; }
                    if let Some(r) = remap_to::<S, $t, R, R>(j) { return r; }
                }
            )*
        };
    }
    shapes!(go);
    if S::RANK == Some(0) { remap_to::<S, R, (), ()>(j).unwrap_or_else(|| j.dup()) } else { j.dup() }
}

fn run(j: &Job) -> Res {
    macro_rules! go {
        ($([$($d:expr),*] $n:ty, $t:ty, $c:ty, $a:ty, $b:ty);*) => {
            $(
                if j.d == [$($d),*] {
                    let cst = j.st == <$c>::name();
                    // `each!(f)`: f with the source's shape type
                    macro_rules! each {
                        ($st:expr, $f:ident $x:tt) => {
                            if $st == <$t>::name() { return each!(@$f $x, $t, $n) }
                            if $st == <$c>::name() { return each!(@$f $x, $c, $n) }
                            if $st == <$a>::name() { return each!(@$f $x, $a, $n) }
                            if $st == <$b>::name() { return each!(@$f $x, $b, $n) }
                        };
                        (@$f:ident 1, $s:ty, $m:ty) => { $f::<$s>(j) };
                        (@$f:ident 2, $s:ty, $m:ty) => { $f::<$s, $m>(j) };
                        (@$f:ident t, $s:ty, $m:ty) => { <$s as Try>::go(j) };
                    }
                    match (j.k, j.op) {
                        ("nest", "array") => return nest_array::<$c, $n>(j),
                        ("nest", _) => { each!(j.to, nest_other 2); }
                        ("array", "nest") => return array_nest::<$c, $n>(j),
                        ("array", _) => return array_other::<$c>(j),
                        ("tensor", "array") => return tensor_array::<$c>(j),
                        (_, "trynest") => { each!(j.st, go t); }
                        (_, "remap") if cst => return remap_const::<$c>(j),
                        (_, "remap") if j.st == <$t>::name() => return remap_any::<$t>(j),
                        ("tensor", _) if j.st[0] != -9 && !(j.op == "vec" && ["value", "asref", "asmut"].contains(&j.via)) => { each!(j.st, tensor_other 1); }
                        ("view" | "viewmut" | "strided", "array") => return view_array::<$c>(j),
                        ("view" | "viewmut", "nest") => return view_nest::<$c, $n>(j),
                        ("view" | "viewmut" | "strided", "view") if j.st[0] != -9 => { each!(j.st, view_same 1); }
                        ("view" | "viewmut" | "strided", _) if j.via != "slice" && j.st[0] != -9 => { each!(j.st, view_other 1); }
                        _ => {}
                    }
                }
            )*
        };
    }
    if j.d.is_empty() && j.st.is_empty() {
        match (j.k, j.op) {
            ("array", _) => return array_other::<()>(j),
            ("tensor", "array") => return tensor_array::<()>(j),
            (_, "remap") => return remap_const::<()>(j),
            ("tensor", _) => return tensor_other::<()>(j),
            (_, "array") => return view_array::<()>(j),
            (_, "view") => return view_same::<()>(j),
            (_, _) => return view_other::<()>(j),
        }
    }
    if j.k == "vec" {
        return vec_other(j);
    }
    if j.k == "literal" {
        return macros(j);
    }
    if j.st == [-9] {
        return match (j.k, j.op) {
            (_, "remap") => remap_any::<R>(j),
            ("tensor", _) => tensor_other::<R>(j),
            (_, "view") => view_same::<R>(j),
            _ => view_other::<R>(j),
        };
    }
    if j.op == "vec" && ["value", "asref", "asmut", "slice"].contains(&j.via) {
        macro_rules! lists {
            ($($t:ty),*) => {$( if j.st == <($t,)>::name() { return if j.k == "tensor" { tensor_list::<$t>(j) } else { view_list::<$t>(j) }; } )*};
        }
        lists!(D, C<0>, C<1>, C<3>, C<40>, C<300>);
    }
    shapes!(go);
    j.dup()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    replay_main(&args[2..], |case: &Value, _, _| {
        let text = |v: &'_ Value| v.as_str().unwrap().to_string();
        let (op, via, k) = (text(&case["op"]), text(&case["via"]), text(&case["from"]["k"]));
        let j = Job {
            op: &op,
            via: &via,
            k: &k,
            ok: case["ok"].as_bool().unwrap(),
            d: usizes(&case["from"]["d"]),
            st: ints(&case["from"]["st"]),
            to: ints(&case["to"]["st"]),
            c: ints(&case["c"]),
            aim: ints(&case["aim"]),
        };
        LIVE.with(|l| l.set(0));
        run(&j)?;
        let l = LIVE.with(|l| l.replace(0));
        if l != 0 { Err(format!("{l} elements are not dropped, or dropped too often")) } else { Ok(1) }
    });
}
