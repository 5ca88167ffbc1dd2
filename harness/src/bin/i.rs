//! Iteration over single sources and their unary adapters (ExprGen families leaf, sub).
//!   i MODE CASES OUT PROGRESS SHARD NSHARDS SEED
//! modes: iter (stepping and consuming), eval (results and closure calls), hold (mutable items)
use harness::ex::*;
use harness::serde_json::Value;
use harness::*;
use mdarray::expr::IntoExpression;
use mdarray::*;

type Build<'a> = &'a mut dyn FnMut(&mut Cx) -> Box<dyn DynExpr>;

fn run(mode: &str, x: &Value, dims: &[usize], want: &[Value], build: Build) -> Result<u64, String> {
    let mut hold = vec![];
    let mut alt = 0;
    let mut fresh = |hold: &mut Vec<Cx>| {
        alt += 1;
        let mut cx = Cx::new(alt);
        let e = build(&mut cx);
        hold.push(cx);
        e
    };
    let got = fresh(&mut hold).dims()?;
    if got != dims {
        return Err(format!("shape {got:?}, expected {dims:?}"));
    }
    let n = match mode {
        "iter" => {
            let n = check_iter(want, &mut || fresh(&mut hold).iter())?;
            n + check_eval(x, dims, want, false, &mut || fresh(&mut hold))?
        }
        "eval" => check_eval(x, dims, want, true, &mut || fresh(&mut hold))?,
        "hold" => check_hold(want, build)?,
        _ => panic!("HARNESS mode"),
    };
    Ok(n)
}

/// expressions on leaves: the chain of adapters from the outside in
fn chain(x: &Value) -> (Vec<String>, Leaf) {
    let mut x = x;
    let mut c = vec![];
    loop {
        let t = x["t"].as_str().unwrap();
        if !["map", "enum", "cloned", "copied"].contains(&t) {
            return (c, Leaf::parse(x));
        }
        c.push(t.to_string());
        x = &x["x"];
    }
}

/// all adapters
fn full<S: Shape + 'static>(cx: &mut Cx, c: &[&str], l: &Leaf) -> Box<dyn DynExpr> {
    match c {
        [] => leaf::<S, _>(cx, l, Fin),
        ["map"] => leaf::<S, _>(cx, l, MapK(Fin)),
        ["enum"] => leaf::<S, _>(cx, l, EnumK(Fin)),
        ["map", "enum"] => leaf::<S, _>(cx, l, EnumK(MapK(Fin))),
        ["enum", "map"] => leaf::<S, _>(cx, l, MapK(EnumK(Fin))),
        [t @ ("cloned" | "copied")] => leaf_ref::<S, _>(cx, l, t, Fin),
        _ => panic!("HARNESS chain"),
    }
}
/// no adapter or one
fn short<S: Shape + 'static>(cx: &mut Cx, c: &[&str], l: &Leaf) -> Box<dyn DynExpr> {
    match c {
        [] => leaf::<S, _>(cx, l, Fin),
        ["map"] => leaf::<S, _>(cx, l, MapK(Fin)),
        [t @ ("cloned" | "copied")] => leaf_ref::<S, _>(cx, l, t, Fin),
        _ => panic!("HARNESS chain"),
    }
}
/// arrays moved out of
fn array<S: ConstShape + 'static>(cx: &mut Cx, c: &[&str], l: &Leaf) -> Box<dyn DynExpr> {
    let a = Array::<i64, S>::from(tensor::<S>(l));
    match c {
        [] => Fin.go(cx, a.into_expr()),
        ["map"] => MapK(Fin).go(cx, a.into_expr()),
        ["enum"] => EnumK(Fin).go(cx, a.into_expr()),
        ["map", "enum"] => EnumK(MapK(Fin)).go(cx, a.into_expr()),
        _ => MapK(EnumK(Fin)).go(cx, a.into_expr()),
    }
}

/// other ways to obtain an iterator over a source
fn entries<S: Shape + 'static>(l: &Leaf, want: &[Value]) -> Result<u64, String> {
    let mut hold = vec![];
    let mut n = 0;
    let mut check = |name: &str, f: &dyn Fn(&mut Cx) -> Box<dyn DynIter>| {
        n += check_iter(want, &mut || {
            let mut cx = Cx::new(0);
            let e = f(&mut cx);
            hold.push(cx);
            e
        })
        .map_err(|m| format!("{name}: {m}"))?;
        Ok::<_, String>(())
    };
    match (l.t.as_str(), l.l.as_str()) {
        ("view", "S") => {
            check("iter", &|cx| {
                let v = view::<S, Strided>(cx, l);
                dyn_iter_c(cx.keep(v).iter())
            })?;
            check("&view", &|cx| {
                let v = view::<S, Strided>(cx, l);
                dyn_iter_c((&*cx.keep(v)).into_iter())
            })?;
            check("&slice", &|cx| {
                let v = view::<S, Strided>(cx, l);
                dyn_iter_c((&**cx.keep(v)).into_iter())
            })?;
        }
        ("view", _) => {
            check("iter", &|cx| {
                let v = view::<S, Dense>(cx, l);
                dyn_iter_c(cx.keep(v).iter())
            })?;
            check("&tensor", &|cx| dyn_iter_c((&*cx.keep(tensor::<S>(l))).into_iter()))?;
            check("tensor.expr", &|cx| dyn_iter_c(cx.keep(tensor::<S>(l)).expr().into_iter()))?;
        }
        ("viewmut", "S") => {
            check("iter_mut", &|cx| {
                let v = view_mut::<S, Strided>(cx, l);
                dyn_iter(cx.keep(v).iter_mut())
            })?;
            check("&mut view", &|cx| {
                let v = view_mut::<S, Strided>(cx, l);
                dyn_iter(cx.keep(v).into_iter())
            })?;
            check("&view_mut", &|cx| {
                let v = view_mut::<S, Strided>(cx, l);
                dyn_iter_c((&*cx.keep(v)).into_iter())
            })?;
        }
        ("viewmut", _) => {
            check("iter_mut", &|cx| {
                let v = view_mut::<S, Dense>(cx, l);
                dyn_iter((&mut **cx.keep(v)).into_iter())
            })?;
            check("&mut tensor", &|cx| dyn_iter(cx.keep(tensor::<S>(l)).into_iter()))?;
            check("tensor.expr_mut", &|cx| dyn_iter(cx.keep(tensor::<S>(l)).expr_mut().into_iter()))?;
        }
        ("into", _) => check("tensor", &|_| dyn_iter(tensor::<S>(l).into_iter()))?,
        _ => {}
    }
    Ok(n)
}
fn array_entries<S: ConstShape + 'static>(l: &Leaf, want: &[Value]) -> Result<u64, String> {
    let mut hold = vec![];
    let mut mk = |k: usize| {
        let mut cx = Cx::new(0);
        let a = Array::<i64, S>::from(tensor::<S>(l));
        let it = match k {
            0 => dyn_iter(a.into_iter()),
            1 => dyn_iter_c((&*cx.keep(a)).into_iter()),
            _ => dyn_iter(cx.keep(a).into_iter()),
        };
        hold.push(cx);
        it
    };
    let mut n = 0;
    for k in 0..3 {
        n += check_iter(want, &mut || mk(k)).map_err(|m| format!("array ({k}): {m}"))?;
    }
    Ok(n)
}

type D = Dyn;
type C<const N: usize> = Const<N>;

fn leaf_case(mode: &str, case: &Value) -> Result<u64, String> {
    let x = &case["x"];
    let (c, l) = chain(x);
    let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
    let (dims, want) = (usizes(&case["d"]), arr(&case["i"]));
    let mut n = 0;
    macro_rules! with {
        ($f:ident, $ok:expr, $($s:ty),*) => {$(
            if $ok && fits::<$s>(&l.d) {
                n += run(mode, x, &dims, &want, &mut |cx| $f::<$s>(cx, &c, &l))
                    .map_err(|m| format!("shape type {}: {m}", stringify!($s)))?;
                if mode == "iter" && l.t != "drain" && l.t != "into" {
                    n += check_over(&dims, &want, &others::<$s>(&l), &l, &mut |cx, l| $f::<$s>(cx, &c, l))
                        .map_err(|m| format!("shape type {}: {m}", stringify!($s)))?;
                }
            }
        )*};
    }
    with!(full, true, DynRank, (), (D,), (D, D), (D, D, D));
    let plain = c != ["enum"] && c.len() < 2;
    let dynhead = l.t != "drain";
    with!(short, plain, (D, D, D, D), (D, D, D, D, D), (D, D, D, D, D, D), (D, C<3>), (D, C<1>, C<2>), (D, C<0>));
    with!(short, plain && dynhead, (C<3>,), (C<0>,), (C<2>, C<3>), (C<2>, D), (C<0>, C<2>), (C<2>, D, C<2>), (C<2>, C<3>, C<2>));
    if mode == "iter" && c.is_empty() {
        macro_rules! entry {
            ($f:ident, $ok:expr, $($s:ty),*) => {$(
                if $ok && fits::<$s>(&l.d) {
                    n += $f::<$s>(&l, &want).map_err(|m| format!("shape type {}: {m}", stringify!($s)))?;
                }
            )*};
        }
        entry!(entries, true, DynRank, (), (D,), (D, D), (D, D, D), (D, C<3>), (C<2>, C<3>), (C<3>,));
        entry!(array_entries, l.t == "into", (), (C<1>,), (C<3>,), (C<0>,), (C<2>, C<3>), (C<2>, C<3>, C<2>));
    }
    with!(array, l.t == "into", (), (C<1>,), (C<3>,), (C<0>,), (C<2>, C<3>), (C<3>, C<1>), (C<2>, C<0>), (C<2>, C<3>, C<2>), (C<1>, C<2>, C<1>, C<2>));
    Ok(n)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args[1].clone();
    replay_main(&args[2..], |case, _, _| {
        if mode == "hold" && !case["x"].to_string().contains("mut") {
            return Ok(0);
        }
        leaf_case(&mode, case)
    });
}
