//! Arrays and threads (ThreadsGen): which values may cross threads, arrays divided among threads, iterators passed on.
//!   t MODE CASES OUT PROGRESS SHARD NSHARDS SEED      mode: replay
use harness::serde_json::Value;
use harness::*;
use mdarray::expr::*;
use mdarray::index::{Axis, Cols, Rows};
use mdarray::*;
use std::cell::Cell;
use std::marker::PhantomData;
use std::mem::ManuallyDrop;
use std::rc::Rc;
use std::sync::MutexGuard;

type D = Dyn;
type C<const N: usize> = Const<N>;

/// whether a type is Send and Sync: the inherent constants apply if it is, otherwise those of the trait do
struct W<T: ?Sized>(PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> No for W<T> {}
impl<T: ?Sized + Send> W<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> W<T> {
    const SYNC: bool = true;
}

type Out = Vec<(String, bool, bool)>;
macro_rules! say {
    ($out:ident; $($t:ty),* $(,)?) => {{ $($out.push((stringify!($t).split_whitespace().collect(), W::<$t>::SEND, W::<$t>::SYNC));)* }};
}
/// the values of each kind, for an element type
macro_rules! values {
    ($name:ident, $e:ty) => {
        fn $name(k: &str) -> Out {
            type T = $e;
            type S2 = (D, D);
            type M = (C<2>, D);
            type K = (C<2>, C<3>);
            type V<S = DynRank, L = Dense> = View<'static, T, S, L>;
            type X<S = DynRank, L = Dense> = ViewMut<'static, T, S, L>;
            type O<S = DynRank> = IntoExpr<Tensor<ManuallyDrop<T>, S>>;
            type F = fn(&'static T) -> i32;
            type G = fn(&'static mut T) -> i32;
            type H = fn(T) -> i32;
            let mut out = vec![];
            match k {
                "own" => say!(out; Tensor<T>, Tensor<T, S2>, Tensor<T, M>, Tensor<T, K>, Tensor<T, ()>, Array<T, K>, Array<T, ()>, Slice<T>, Slice<T, S2, Strided>, Slice<T, K>,
                    O, O<S2>, O<K>, IntoExpr<Array<ManuallyDrop<T>, K>>, Fill<T>, FromElem<T, DynRank>, FromElem<T, K>, Iter<O>, Iter<O<S2>>, Iter<IntoExpr<Array<ManuallyDrop<T>, K>>>,
                    Enumerate<O>, Map<O, H>, Iter<Map<O<S2>, H>>, Iter<Enumerate<O<M>>>, Zip<O, O>, Iter<Zip<O, O<S2>>>, Box<Slice<T, K>>, Box<Tensor<T>>),
                "excl" => say!(out; X, X<S2>, X<M>, X<K>, X<()>, X<DynRank, Strided>, X<S2, Strided>, X<K, Strided>, X<(D,)>, X<(D,), Strided>,
                    &'static mut Slice<T>, &'static mut Slice<T, S2, Strided>, &'static mut Tensor<T>, &'static mut Array<T, K>,
                    AxisExprMut<'static, T, DynRank, Dense, D>, AxisExprMut<'static, T, S2, Dense, C<0>>, AxisExprMut<'static, T, S2, Strided, C<1>>, AxisExprMut<'static, T, K, Dense, Rows>,
                    LanesMut<'static, T, DynRank, Dense, D>, LanesMut<'static, T, S2, Dense, C<0>>, LanesMut<'static, T, S2, Strided, C<1>>, LanesMut<'static, T, K, Dense, Cols>,
                    Drain<'static, T, DynRank>, IntoExpr<Drain<'static, T, DynRank>>, IntoExpr<Drain<'static, T, S2>>, Iter<IntoExpr<Drain<'static, T, S2>>>,
                    Iter<X>, Iter<X<S2, Strided>>, Iter<AxisExprMut<'static, T, S2, Dense, C<0>>>, Iter<LanesMut<'static, T, S2, Dense, C<1>>>,
                    Enumerate<X>, Map<X, G>, Iter<Map<X<S2>, G>>, Zip<X, X<S2>>),
                "shared" => say!(out; V, V<S2>, V<M>, V<K>, V<()>, V<DynRank, Strided>, V<S2, Strided>, V<K, Strided>, V<(D,)>, V<(D,), Strided>,
                    &'static Slice<T>, &'static Slice<T, S2, Strided>, &'static Tensor<T>, &'static Array<T, K>,
                    AxisExpr<'static, T, DynRank, Dense, D>, AxisExpr<'static, T, S2, Dense, C<0>>, AxisExpr<'static, T, S2, Strided, C<1>>, AxisExpr<'static, T, K, Dense, Rows>,
                    Lanes<'static, T, DynRank, Dense, D>, Lanes<'static, T, S2, Dense, C<0>>, Lanes<'static, T, S2, Strided, C<1>>, Lanes<'static, T, K, Dense, Cols>,
                    Iter<V>, Iter<V<S2, Strided>>, Iter<AxisExpr<'static, T, S2, Dense, C<0>>>, Iter<Lanes<'static, T, S2, Dense, C<1>>>,
                    Cloned<V>, Copied<V<S2>>, Enumerate<V>, Map<V, F>, Iter<Map<V<S2>, F>>, Zip<V, V<S2>>, Iter<Zip<V, V<K>>>, &'static V, &'static Lanes<'static, T, S2, Dense, C<0>>),
                "mixed" => say!(out; Zip<V, X>, Zip<X<S2>, V<K, Strided>>, Iter<Zip<V, X>>, Zip<Map<V, F>, X>, Iter<Enumerate<Zip<X, V>>>, (V, X)),
                "pair" => say!(out; Zip<O, V>, Zip<V<S2>, O<S2>>, Iter<Zip<O, V>>, Zip<Fill<T>, V>, (Tensor<T>, V)),
                _ => panic!("{k}"),
            }
            out
        }
    };
}
values!(plain, i32);
values!(cell, Cell<i32>);
values!(guard, PhantomData<MutexGuard<'static, i32>>);
values!(rc, Rc<i32>);

fn auto(c: &Value) -> Result<u64, String> {
    let e = (c["es"].as_bool().unwrap(), c["ey"].as_bool().unwrap());
    let out = match e {
        (true, true) => plain,
        (true, false) => cell,
        (false, true) => guard,
        (false, false) => rc,
    }(c["k"].as_str().unwrap());
    let w = (c["send"].as_bool().unwrap(), c["sync"].as_bool().unwrap());
    for (t, s, y) in &out {
        if (*s, *y) != w {
            return Err(format!("{t} with elements that are (Send, Sync) = {e:?}: is {:?}, expected {w:?}", (*s, *y)));
        }
    }
    Ok(out.len() as u64)
}

/// gives a value to a thread whatever its type
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    fn take(self) -> T {
        self.0
    }
}

/// the cells of a part as read, then all of them written by one of the ways
fn work<S: Shape, L: Layout>(mut v: ViewMut<i64, S, L>, i: i64) -> Vec<i64> {
    let r = match i % 2 {
        0 => v.iter().copied().collect(),
        _ => v.to_vec(),
    };
    match i % 3 {
        0 => v.fill(i),
        1 => v.iter_mut().for_each(|x| *x = i),
        _ => v.assign(fill(i)),
    }
    r
}

const THREADS: usize = 3;
type Job<'a> = (i64, Force<Box<dyn FnOnce(i64) -> Vec<i64> + 'a>>);
/// the parts are given to threads in turn, all at work at the same time; what each has read
fn run(parts: Vec<Job>) -> Vec<Vec<i64>> {
    let mut by: Vec<Vec<Job>> = (0..THREADS).map(|_| vec![]).collect();
    let n = parts.len();
    for (i, p) in parts.into_iter().enumerate() {
        by[i % THREADS].push(p);
    }
    let gate = std::sync::Barrier::new(THREADS);
    let gate = &gate;
    let mut out = vec![vec![]; n];
    std::thread::scope(|s| {
        let hs: Vec<_> = by
            .into_iter()
            .map(|js| {
                s.spawn(move || {
                    gate.wait();
                    js.into_iter().map(|(i, f)| (i, trap(|| (f.take())(i)))).collect::<Vec<_>>()
                })
            })
            .collect();
        for h in hs {
            for (i, r) in h.join().unwrap() {
                out[i as usize - 1] = r.unwrap_or(vec![-1]);
            }
        }
    });
    out
}
fn job<'a, S: Shape + 'a, L: Layout + 'a>(v: ViewMut<'a, i64, S, L>, k: usize) -> Job<'a> {
    (k as i64 + 1, Force(Box::new(move |i| work(v, i))))
}

fn divide<S: Shape, A: Axis>(c: &Value, a: A) -> Result<u64, String>
where
    Tensor<i64, S>: Clone,
{
    let d = usizes(&c["d"]);
    let m = c["m"].as_u64().unwrap() as usize;
    let n: usize = d.iter().product();
    let mut t: Tensor<i64, S> = Tensor::from((0..n as i64).collect::<Vec<_>>()).into_shape(DynRank::from_dims(&d)).into_mapping();
    let got = match c["how"].as_str().unwrap() {
        "split" => {
            let (x, y) = t.split_axis_at_mut(a, m);
            run(vec![job(x, 0), job(y, 1)])
        }
        "split3" => {
            let (x, y) = t.split_axis_at_mut(a, m);
            let h = y.dim(a.index(y.rank())) / 2;
            let (y, z) = y.into_split_axis_at(a, h);
            run(vec![job(x, 0), job(y, 1), job(z, 2)])
        }
        "axis" => run(t.axis_expr_mut(a).into_iter().enumerate().map(|(k, v)| job(v, k)).collect()),
        "lanes" => run(t.lanes_mut(a).into_iter().enumerate().map(|(k, v)| job(v, k)).collect()),
        _ => run(t
            .iter_mut()
            .enumerate()
            .map(|(k, x)| {
                let f: Box<dyn FnOnce(i64) -> Vec<i64>> = Box::new(move |i| {
                    let r = *x;
                    *x = i;
                    vec![r]
                });
                (k as i64 + 1, Force(f))
            })
            .collect()),
    };
    let want: Vec<Vec<i64>> = c["cells"].as_array().unwrap().iter().map(ints).collect();
    if got != want {
        return Err(format!("parts hold {got:?}, expected {want:?}"));
    }
    let (r, w) = (t.to_vec(), ints(&c["res"]));
    if r != w {
        return Err(format!("array holds {r:?} after all threads have written their parts, expected {w:?}"));
    }
    // shared by all threads
    let s: i64 = w.iter().sum();
    let v = Force(t.expr());
    let v = &v;
    let ok = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..THREADS)
            .map(|k| {
                let w = Force(v.0.clone());
                sc.spawn(move || {
                    let w = w.take();
                    trap(|| if k == 0 { w.into_iter().sum::<i64>() } else { w.into_expr().fold(0, |a, x| a + x) })
                })
            })
            .collect();
        hs.into_iter().all(|h| h.join().unwrap() == Some(s))
    });
    if !ok {
        return Err("a thread sees another array through a shared view".into());
    }
    Ok(1)
}

/// n elements are taken in another thread, the rest here
fn pass<I: Iterator>(it: I, n: usize, f: impl Fn(I::Item) -> i64) -> (Vec<i64>, Vec<i64>) {
    let it = Force(it);
    let f = Force(f);
    std::thread::scope(|s| {
        let (a, it, f) = s
            .spawn(move || {
                let (mut it, f) = (it.take(), f.take());
                let a: Vec<i64> = it.by_ref().take(n).map(&f).collect();
                Force((a, it, f))
            })
            .join()
            .unwrap()
            .take();
        (a, it.map(f).collect())
    })
}
fn relay<S: Shape>(c: &Value) -> Result<u64, String> {
    let d = usizes(&c["d"]);
    let n = c["n"].as_u64().unwrap() as usize;
    let len: usize = d.iter().product();
    let make = || -> Tensor<Box<i64>, S> {
        Tensor::from((0..len as i64).map(Box::new).collect::<Vec<_>>()).into_shape(DynRank::from_dims(&d)).into_mapping()
    };
    let want = (ints(&c["first"]), ints(&c["rest"]));
    let mut execs = 0;
    let mut see = |what: &str, g: (Vec<i64>, Vec<i64>)| {
        execs += 1;
        if g == want { Ok(()) } else { Err(format!("{what} passed on after {n} elements: {g:?}, expected {want:?}")) }
    };
    let mut t = make();
    see("iter", pass(t.iter(), n, |x| **x))?;
    see("iter_mut", pass(t.iter_mut(), n, |x| **x))?;
    see("into_iter", pass(make().into_iter(), n, |x| *x))?;
    see("strided", pass(t.remap::<S, Strided>().into_iter(), n, |x| **x))?;
    see("cloned", pass(t.expr().cloned().into_iter(), n, |x| *x))?;
    see("map", pass(make().into_expr().map(|x| *x).into_iter(), n, |x| x))?;
    see("zip", pass(t.expr().zip(make()).into_iter(), n, |(x, y)| if **x == *y { *y } else { -1 }))?;
    if !d.is_empty() {
        see("drain", pass(t.drain(..).into_iter(), n, |x| *x))?;
        if t.len() != 0 {
            return Err("elements are left after drain".into());
        }
    }
    Ok(execs)
}

fn replay(c: &Value, _: u64, _: &mut Rng) -> Result<u64, String> {
    let run = || match c["op"].as_str().unwrap() {
        "auto" => auto(c),
        "divide" => {
            let a = c["a"].as_u64().unwrap() as usize;
            let r = usizes(&c["d"]).len();
            let mut n = 0;
            if r > 0 {
                n += divide::<DynRank, D>(c, a)?;
                if a + 1 == r {
                    n += divide::<DynRank, Rows>(c, Rows)?;
                }
                if a + 2 == r {
                    n += divide::<DynRank, Cols>(c, Cols)?;
                }
            }
            n += match (r, a) {
                (1, _) => divide::<Rank<1>, C<0>>(c, Const)?,
                (2, 0) => divide::<Rank<2>, C<0>>(c, Const)? + divide::<Rank<2>, Cols>(c, Cols)? + divide::<Rank<2>, D>(c, 0)?,
                (2, _) => divide::<Rank<2>, C<1>>(c, Const)? + divide::<Rank<2>, Rows>(c, Rows)? + divide::<Rank<2>, D>(c, 1)?,
                (3, 0) => divide::<Rank<3>, C<0>>(c, Const)? + divide::<Rank<3>, D>(c, 0)?,
                (3, 1) => divide::<Rank<3>, C<1>>(c, Const)? + divide::<Rank<3>, Cols>(c, Cols)?,
                (3, 2) => divide::<Rank<3>, C<2>>(c, Const)? + divide::<Rank<3>, Rows>(c, Rows)?,
                _ => 1,
            };
            Ok(n)
        }
        "relay" => {
            let mut n = relay::<DynRank>(c)?;
            n += match usizes(&c["d"]).len() {
                0 => relay::<()>(c)?,
                1 => relay::<Rank<1>>(c)?,
                2 => relay::<Rank<2>>(c)?,
                3 => relay::<Rank<3>>(c)?,
                _ => 0,
            };
            Ok(n)
        }
        o => Err(format!("operation {o}")),
    };
    trap(run).unwrap_or_else(|| Err(format!("{}: panicked", c["op"])))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args[0].as_str() {
        "replay" => replay_main(&args[1..], replay),
        m => panic!("mode {m}"),
    }
}
