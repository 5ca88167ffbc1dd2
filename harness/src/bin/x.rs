//! Axis and lane iteration (ExprGen family sub).
//!   x MODE CASES OUT PROGRESS SHARD NSHARDS SEED      modes: sub, hold
use harness::ex::*;
use harness::serde_json::Value;
use harness::*;
use mdarray::index::{Axis, Cols, Rows};
use mdarray::*;
use std::marker::PhantomData;

type D = Dyn;
type C<const N: usize> = Const<N>;

/// which spelling of the axis to use
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Dynamic,
    Constant,
    Rows,
    Cols,
}

fn on<S: Shape + 'static, L: MkLayout + 'static, A: Axis + 'static, K: Cont>(cx: &mut Cx, l: &Leaf, axis: A, k: K) -> Box<dyn DynExpr> {
    match l.t.as_str() {
        "axis" => {
            let v = view::<S, L>(cx, l);
            let e = cx.keep(v).axis_expr(axis);
            k.goc(cx, e)
        }
        "axismut" => {
            let v = view_mut::<S, L>(cx, l);
            let e = cx.keep(v).axis_expr_mut(axis);
            k.go(cx, e)
        }
        "lanes" => {
            let v = view::<S, L>(cx, l);
            let e = cx.keep(v).lanes(axis);
            k.goc(cx, e)
        }
        _ => {
            let v = view_mut::<S, L>(cx, l);
            let e = cx.keep(v).lanes_mut(axis);
            k.go(cx, e)
        }
    }
}
/// the named forms, on a slice and its tensor
fn named<S: Shape + 'static, L: MkLayout + 'static>(cx: &mut Cx, l: &Leaf, form: Form) -> Box<dyn DynExpr> {
    macro_rules! shared {
        ($m:ident) => {{
            let v = view::<S, L>(cx, l);
            let e = cx.keep(v).$m();
            Fin.goc(cx, e)
        }};
    }
    macro_rules! mutable {
        ($m:ident) => {{
            let v = view_mut::<S, L>(cx, l);
            let e = cx.keep(v).$m();
            Fin.go(cx, e)
        }};
    }
    match (form, l.t.as_str()) {
        (Form::Rows, "lanes") => shared!(rows),
        (Form::Rows, "lanesmut") => mutable!(rows_mut),
        (Form::Cols, "lanes") => shared!(cols),
        (Form::Cols, "lanesmut") => mutable!(cols_mut),
        (Form::Constant, "axis") => shared!(outer_expr),
        (Form::Constant, "axismut") => mutable!(outer_expr_mut),
        _ => panic!("HARNESS named"),
    }
}
fn sub<S: Shape + 'static, K: Cont>(cx: &mut Cx, l: &Leaf, form: Form, k: K) -> Box<dyn DynExpr> {
    macro_rules! lay {
        ($a:expr) => {
            if l.l == "S" { on::<S, Strided, _, K>(cx, l, $a, k) } else { on::<S, Dense, _, K>(cx, l, $a, k) }
        };
    }
    match (form, l.a) {
        (Form::Dynamic, a) => lay!(a),
        (Form::Constant, 0) => lay!(Const::<0>),
        (Form::Constant, 1) => lay!(Const::<1>),
        (Form::Constant, 2) => lay!(Const::<2>),
        (Form::Constant, 3) => lay!(Const::<3>),
        (Form::Constant, 4) => lay!(Const::<4>),
        (Form::Constant, 5) => lay!(Const::<5>),
        (Form::Rows, _) => lay!(Rows),
        (Form::Cols, _) => lay!(Cols),
        (f, a) => panic!("HARNESS form {f:?} {a}"),
    }
}
fn dynsub<S: Shape + 'static, K: Cont>(cx: &mut Cx, l: &Leaf, k: K) -> Box<dyn DynExpr> {
    if l.l == "S" { on::<S, Strided, _, K>(cx, l, l.a, k) } else { on::<S, Dense, _, K>(cx, l, l.a, k) }
}
/// shared axis or lanes, for zips
fn consub<S: Shape + 'static, K: Cont>(cx: &mut Cx, l: &Leaf, k: K) -> Box<dyn DynExpr> {
    if l.a == 0 { on::<S, Dense, _, K>(cx, l, Const::<0>, k) } else { on::<S, Dense, _, K>(cx, l, Const::<1>, k) }
}
struct RSub<'a>(&'a Leaf);
impl<K: Cont> Right<K> for RSub<'_> {
    fn right<Z: Cont>(&self, cx: &mut Cx, z: Z) -> Box<dyn DynExpr> {
        dynsub::<DynRank, Z>(cx, self.0, z)
    }
}

fn is_sub(x: &Value) -> bool {
    ["axis", "axismut", "lanes", "lanesmut"].contains(&x["t"].as_str().unwrap())
}

fn check(mode: &str, case: &Value, build: &mut dyn FnMut(&mut Cx) -> Box<dyn DynExpr>) -> Result<u64, String> {
    if case["k"] == "panic" {
        let mut cx = Cx::new(0);
        return match trap(|| {
            build(&mut cx);
        }) {
            None => Ok(1),
            Some(_) => Err("accepted an axis that does not exist".into()),
        };
    }
    let (dims, want) = (usizes(&case["d"]), arr(&case["i"]));
    if mode == "hold" {
        return check_hold(&want, build);
    }
    let mut hold = vec![];
    let mut alt = 0;
    let mut fresh = |hold: &mut Vec<Cx>| {
        alt += 1;
        let mut cx = Cx::new(alt);
        let e = build(&mut cx);
        hold.push(cx);
        e
    };
    let got = fresh(&mut hold).dims()?;
    if got != dims {
        return Err(format!("shape {got:?}, expected {dims:?}"));
    }
    let n = check_iter(&want, &mut || fresh(&mut hold).iter())?;
    Ok(n + check_eval(&case["x"], &dims, &want, false, &mut || fresh(&mut hold))?)
}

/// with dynamic axes, a type has expressions along any of them
fn axes(ls: Vec<Leaf>, f: Form) -> Vec<Leaf> {
    match f {
        Form::Dynamic => ls.iter().flat_map(|l| (0..l.d.len()).map(|a| Leaf { a, ..l.clone() })).collect(),
        _ => ls,
    }
}
fn single(mode: &str, case: &Value, l: &Leaf) -> Result<u64, String> {
    let r = l.d.len();
    let mut forms = vec![Form::Dynamic];
    if l.a <= 5 {
        forms.push(Form::Constant);
    }
    if (l.a < r && l.a + 1 == r) || (l.a == r && r == 0) {
        forms.push(Form::Rows);
    }
    if (l.a < r && l.a + 2 == r) || (l.a == r && r <= 1) {
        forms.push(Form::Cols);
    }
    let lanes = l.t.starts_with("lanes");
    let mut n = 0;
    macro_rules! with {
        ($($s:ty),*) => {$(
            if fits::<$s>(&l.d) {
                for &f in &forms {
                    n += check(mode, case, &mut |cx| sub::<$s, _>(cx, l, f, Fin))
                        .map_err(|m| format!("shape type {}, {f:?}: {m}", stringify!($s)))?;
                    if mode == "sub" && case["k"] == "ok" && (f == Form::Dynamic || f == Form::Rows) {
                        n += check_over(&usizes(&case["d"]), &arr(&case["i"]), &axes(others::<$s>(l), f), l, &mut |cx, l| sub::<$s, _>(cx, l, f, Fin))
                            .map_err(|m| format!("shape type {}, {f:?}: {m}", stringify!($s)))?;
                    }
                    if (lanes && matches!(f, Form::Rows | Form::Cols)) || (!lanes && f == Form::Constant && l.a == 0) {
                        n += check(mode, case, &mut |cx| if l.l == "S" { named::<$s, Strided>(cx, l, f) } else { named::<$s, Dense>(cx, l, f) })
                            .map_err(|m| format!("shape type {}, {f:?} method: {m}", stringify!($s)))?;
                    }
                }
            }
        )*};
    }
    with!(DynRank, (), (D,), (D, D), (D, D, D), (D, D, D, D), (C<2>, C<3>), (D, C<3>), (C<2>, D, C<2>), (C<3>,));
    macro_rules! high {
        ($($s:ty),*) => {$(
            if fits::<$s>(&l.d) {
                n += check(mode, case, &mut |cx| dynsub::<$s, _>(cx, l, Fin)).map_err(|m| format!("shape type {}: {m}", stringify!($s)))?;
            }
        )*};
    }
    high!((D, D, D, D, D), (D, D, D, D, D, D), (C<0>, C<2>), (C<2>, C<0>), (C<2>, C<3>, C<2>));
    Ok(n)
}

fn run(mode: &str, case: &Value) -> Result<u64, String> {
    let x = &case["x"];
    if is_sub(x) {
        return single(mode, case, &Leaf::parse(x));
    }
    match x["t"].as_str().unwrap() {
        "map" => {
            let l = Leaf::parse(&x["x"]);
            check(mode, case, &mut |cx| dynsub::<DynRank, _>(cx, &l, MapK(Fin)))
        }
        "enum" => {
            let l = Leaf::parse(&x["x"]);
            let mut n = check(mode, case, &mut |cx| dynsub::<DynRank, _>(cx, &l, EnumK(Fin)))?;
            if l.d.len() == 2 && l.l != "S" {
                n += check(mode, case, &mut |cx| consub::<(D, D), _>(cx, &l, EnumK(Fin)))?;
            }
            Ok(n)
        }
        _ if is_sub(&x["x"]) => {
            let (a, b) = (Leaf::parse(&x["x"]), Leaf::parse(&x["y"]));
            check(mode, case, &mut |cx| dynsub::<DynRank, _>(cx, &a, ZipL(RTiny::<DynRank>(&b, PhantomData), Fin)))
        }
        _ => {
            let (a, b) = (Leaf::parse(&x["x"]), Leaf::parse(&x["y"]));
            check(mode, case, &mut |cx| tiny::<DynRank, _>(cx, &a, ZipL(RSub(&b), Fin)))
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args[1].clone();
    replay_main(&args[2..], |case, _, _| {
        if mode == "hold" && (!case["x"].to_string().contains("mut") || case["k"] == "panic") {
            return Ok(0);
        }
        run(&mode, case)
    });
}
