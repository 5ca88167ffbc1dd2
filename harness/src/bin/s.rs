//! Serialization and deserialization (SerGen).
//!   s MODE CASES OUT PROGRESS SHARD NSHARDS SEED      mode: replay
use harness::ex::fits;
use harness::hold::{Store, tensor};
use harness::serde_json::{self, Value};
use harness::*;
use mdarray::*;
use serde::de::{self, DeserializeSeed, Deserializer, SeqAccess, Visitor};
use serde::ser::{self, Impossible, SerializeSeq, Serializer};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::fmt;

type D = Dyn;
type C<const N: usize> = Const<N>;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static TICK: Cell<i64> = const { Cell::new(0) };
}

/// an element; the number of live ones is known
#[derive(Debug)]
struct E(i64);
impl E {
    fn new(x: i64) -> E {
        LIVE.with(|l| l.set(l.get() + 1));
        E(x)
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        E::new(self.0)
    }
}
impl Drop for E {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Serialize for E {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_i64(self.0)
    }
}
impl<'a> Deserialize<'a> for E {
    fn deserialize<X: Deserializer<'a>>(d: X) -> Result<E, X::Error> {
        i64::deserialize(d).map(E::new)
    }
}

/// nested data
#[derive(Clone, PartialEq, Debug)]
enum Tree {
    N(i64),
    S,
    L(Vec<Tree>),
}
impl Tree {
    fn new(v: &Value) -> Tree {
        match v["k"].as_str().unwrap() {
            "n" => Tree::N(v["v"].as_i64().unwrap()),
            "s" => Tree::S,
            _ => Tree::L(v["v"].as_array().unwrap().iter().map(Tree::new).collect()),
        }
    }
    fn value(&self) -> Value {
        match self {
            Tree::N(x) => serde_json::json!(x),
            Tree::S => serde_json::json!("s"),
            Tree::L(v) => Value::Array(v.iter().map(Tree::value).collect()),
        }
    }
    fn nodes(&self) -> i64 {
        match self {
            Tree::L(v) => 1 + v.iter().map(Tree::nodes).sum::<i64>(),
            _ => 1,
        }
    }
}

#[derive(Debug, PartialEq)]
enum Err {
    Fault,
    Other(String),
}
impl fmt::Display for Err {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Err {}
impl de::Error for Err {
    fn custom<T: fmt::Display>(m: T) -> Err {
        Err::Other(m.to_string())
    }
}
impl ser::Error for Err {
    fn custom<T: fmt::Display>(m: T) -> Err {
        Err::Other(m.to_string())
    }
}
/// every call of the format costs a tick; at zero it fails
fn tick() -> Result<(), Err> {
    let t = TICK.with(|t| t.replace(t.get() - 1));
    if t == 0 { Err(Err::Fault) } else { Ok(()) }
}

/// Reading a tree.  `hint`: what the sequences say about their length.
#[derive(Clone, Copy)]
struct Read<'a>(&'a Tree, usize);
const HINTS: [&str; 7] = ["exact", "none", "zero", "one too many", "one too few", "2^40", "maximal"];
impl<'de> Deserializer<'de> for Read<'de> {
    type Error = Err;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Err> {
        tick()?;
        match self.0 {
            Tree::N(x) => v.visit_i64(*x),
            Tree::S => v.visit_str("s"),
            Tree::L(l) => v.visit_seq(Items(l.iter(), self.1)),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct Items<'a>(std::slice::Iter<'a, Tree>, usize);
impl<'a> SeqAccess<'a> for Items<'a> {
    type Error = Err;
    fn next_element_seed<T: DeserializeSeed<'a>>(&mut self, seed: T) -> Result<Option<T::Value>, Err> {
        tick()?;
        self.0.next().map(|t| seed.deserialize(Read(t, self.1))).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        let n = self.0.len();
        match HINTS[self.1] {
            "exact" => Some(n),
            "none" => None,
            "zero" => Some(0),
            "one too many" => Some(n + 1),
            "one too few" => Some(n.saturating_sub(1)),
            "2^40" => Some(1 << 40),
            _ => Some(usize::MAX),
        }
    }
}

/// Writing a tree.
#[derive(Clone, Copy)]
struct Write;
struct Seq(Option<usize>, Vec<Tree>);
fn no<T>(what: &str) -> Result<T, Err> {
    Err(Err::Other(format!("asked to write {what}")))
}
impl SerializeSeq for Seq {
    type Ok = Tree;
    type Error = Err;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), Err> {
        tick()?;
        self.1.push(x.serialize(Write)?);
        Ok(())
    }
    fn end(self) -> Result<Tree, Err> {
        tick()?;
        match self.0 {
            Some(n) if n != self.1.len() => Err(Err::Other(format!("announced {n} elements, wrote {}", self.1.len()))),
            _ => Ok(Tree::L(self.1)),
        }
    }
}
macro_rules! nos {
    ($($f:ident $t:ty),*) => {$(fn $f(self, _: $t) -> Result<Tree, Err> { no(stringify!($f)) })*};
}
impl Serializer for Write {
    type Ok = Tree;
    type Error = Err;
    type SerializeSeq = Seq;
    type SerializeTuple = Impossible<Tree, Err>;
    type SerializeTupleStruct = Impossible<Tree, Err>;
    type SerializeTupleVariant = Impossible<Tree, Err>;
    type SerializeMap = Impossible<Tree, Err>;
    type SerializeStruct = Impossible<Tree, Err>;
    type SerializeStructVariant = Impossible<Tree, Err>;
    fn serialize_i64(self, x: i64) -> Result<Tree, Err> {
        tick()?;
        Ok(Tree::N(x))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Seq, Err> {
        tick()?;
        Ok(Seq(n, Vec::new()))
    }
    nos!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32,
         serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
    fn serialize_none(self) -> Result<Tree, Err> {
        no("none")
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<Tree, Err> {
        no("some")
    }
    fn serialize_unit(self) -> Result<Tree, Err> {
        no("unit")
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Tree, Err> {
        no("variant")
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, x: &T) -> Result<Tree, Err> {
        x.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Tree, Err> {
        no("variant")
    }
    fn serialize_tuple(self, _: usize) -> Result<Impossible<Tree, Err>, Err> {
        no("tuple")
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Impossible<Tree, Err>, Err> {
        no("tuple struct")
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<Tree, Err>, Err> {
        no("variant")
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Impossible<Tree, Err>, Err> {
        no("map")
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Impossible<Tree, Err>, Err> {
        no("struct")
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<Tree, Err>, Err> {
        no("variant")
    }
}

// ------------------------------------------------------------------ reading
type Got = Option<(Vec<usize>, Vec<i64>)>;
trait Holder: for<'a> Deserialize<'a> {
    fn got(&self) -> (Vec<usize>, Vec<i64>);
}
impl<S: Shape> Holder for Tensor<E, S> {
    fn got(&self) -> (Vec<usize>, Vec<i64>) {
        (self.shape().with_dims(|d| d.to_vec()), self.iter().map(|x| x.0).collect())
    }
}
impl<S: ConstShape> Holder for Array<E, S> {
    fn got(&self) -> (Vec<usize>, Vec<i64>) {
        (self.shape().with_dims(|d| d.to_vec()), self.iter().map(|x| x.0).collect())
    }
}
fn read<H: Holder>(t: &Tree, json: &str, value: &Value, want: &Got, faults: bool) -> Result<u64, String> {
    let mut n = 0;
    let mut judge = |what: String, got: Option<Got>| -> Result<(), String> {
        n += 1;
        match got {
            None => Err(format!("{what}: panics, expected {want:?}")),
            Some(got) if got != *want => Err(format!("{what}: gives {got:?}, expected {want:?}")),
            _ => Ok(()),
        }?;
        let l = LIVE.with(|l| l.replace(0));
        if l != 0 { Err(format!("{what}: {l} elements are not dropped, or dropped too often")) } else { Ok(()) }
    };
    TICK.with(|t| t.set(-1));
    let calm = |r: Result<H, Err>| r.ok().map(|h| h.got());
    judge("from JSON text".into(), trap(|| serde_json::from_str::<H>(json).ok().map(|h| h.got())))?;
    judge("from a JSON value".into(), trap(|| serde_json::from_value::<H>(value.clone()).ok().map(|h| h.got())))?;
    for h in 0..HINTS.len() {
        judge(format!("from a sequence with length hint {}", HINTS[h]), trap(|| calm(H::deserialize(Read(t, h)))))?;
    }
    if faults {
        // a format that fails at some call: its error, and no element is lost
        for k in 0..3 * t.nodes() {
            TICK.with(|t| t.set(k));
            let r = trap(|| match H::deserialize(Read(t, 0)) {
                Ok(h) => Ok(h.got()),
                Err(e) => Err(e),
            });
            n += 1;
            if TICK.with(|t| t.replace(-1)) >= 0 {
                break;
            }
            if r != Some(Err(Err::Fault)) {
                return Err(format!("from a sequence that fails at call {k}: gives {r:?}, expected the error"));
            }
            let l = LIVE.with(|l| l.replace(0));
            if l != 0 {
                return Err(format!("from a sequence that fails at call {k}: {l} elements are not dropped, or dropped too often"));
            }
        }
    }
    Ok(n)
}

// ------------------------------------------------------------------ writing
fn write<T: Serialize + ?Sized>(what: &str, x: &T, want: &Tree, json: &str) -> Result<u64, String> {
    TICK.with(|t| t.set(-1));
    let mut n = 2;
    let got = x.serialize(Write);
    if got.as_ref().ok() != Some(want) {
        return Err(format!("{what} is written as {got:?}, expected {want:?}"));
    }
    let got = serde_json::to_string(x).map_err(|e| e.to_string());
    if got.as_deref() != Ok(json) {
        return Err(format!("{what} is written as {got:?}, expected {json}"));
    }
    for k in 0.. {
        TICK.with(|t| t.set(k));
        let r = x.serialize(Write);
        n += 1;
        if TICK.with(|t| t.replace(-1)) >= 0 {
            break;
        }
        if r != Err(Err::Fault) {
            return Err(format!("{what}, written where call {k} fails, gives {r:?}, expected the error"));
        }
    }
    Ok(n)
}
fn writes<S: Shape>(d: &[usize], want: &Tree, json: &str) -> Result<u64, String> {
    let c: Vec<E> = (1..=d.iter().product::<usize>() as i64).map(E::new).collect();
    let t = tensor::<E, S>(d, &c);
    let mut n = write("Tensor", &t, want, json)?;
    for w in 0..4 {
        let mut st = Store::new(d, &c, w, |i| E::new(1000 + i as i64));
        let v = st.strided::<S>();
        n += write("View strided", &v, want, json)?;
        n += write("Slice strided", &*v, want, json)?;
        n += write("ViewMut strided", &st.strided_mut::<S>(), want, json)?;
    }
    let mut st = Store::new(d, &c, 0, |i| E::new(1000 + i as i64));
    let v = st.dense::<S>();
    n += write("View dense", &v, want, json)?;
    n += write("Slice dense", &*v, want, json)?;
    n += write("ViewMut dense", &st.dense_mut::<S>(), want, json)?;
    drop((t, c, st));
    let l = LIVE.with(|l| l.replace(0));
    if l != 0 { Err(format!("{l} elements are not dropped, or dropped too often")) } else { Ok(n) }
}
fn writes_array<S: ConstShape>(d: &[usize], want: &Tree, json: &str) -> Result<u64, String> {
    let c: Vec<E> = (1..=d.iter().product::<usize>() as i64).map(E::new).collect();
    let x = Array::from(tensor::<E, S>(d, &c));
    let n = write("Array", &x, want, json)?;
    drop((x, c));
    LIVE.with(|l| l.set(0));
    Ok(n)
}

/// shape types and their names in the specification (-1 for a dynamic size)
macro_rules! types {
    ($m:ident) => {
        $m!(dyn [-1] (D,); [-1, -1] (D, D); [-1, -1, -1] (D, D, D); [-1, -1, -1, -1] (D, D, D, D); [-1, -1, -1, -1, -1] (D, D, D, D, D);
            [-1, -1, -1, -1, -1, -1] (D, D, D, D, D, D);
            [2, -1] (C<2>, D); [-1, 3] (D, C<3>); [0, -1] (C<0>, D); [-1, 0] (D, C<0>); [2, -1, 2] (C<2>, D, C<2>); [-1, 2, -1] (D, C<2>, D);
            [-1, -1, 2] (D, D, C<2>); [1, -1, -1] (C<1>, D, D));
        $m!(const [] (); [0] (C<0>,); [1] (C<1>,); [3] (C<3>,); [2, 3] (C<2>, C<3>); [2, 0] (C<2>, C<0>); [0, 2] (C<0>, C<2>); [1, 2, 2] (C<1>, C<2>, C<2>);
            [2, 0, 3] (C<2>, C<0>, C<3>); [2, 1, 2] (C<2>, C<1>, C<2>));
    };
}

fn run(case: &Value) -> Result<u64, String> {
    let t = Tree::new(&case["t"]);
    let value = t.value();
    let json = value.to_string();
    let mut n = 0;
    for o in case["out"].as_array().unwrap() {
        let st = ints(&o["st"]);
        let want: Got = if o["k"] == "ok" { Some((usizes(&o["d"]), ints(&o["c"]))) } else { None };
        let mut hit = false;
        macro_rules! go {
            (dyn $([$($s:expr),*] $t:ty);*) => {$(
                if st[..] == ([$($s as i64),*] as [i64; _])[..] {
                    hit = true;
                    n += read::<Tensor<E, $t>>(&t, &json, &value, &want, true).map_err(|m| format!("Tensor of {}: {m}", stringify!($t)))?;
                }
            )*};
            (const $([$($s:expr),*] $t:ty);*) => {$(
                if st[..] == ([$($s as i64),*] as [i64; _])[..] {
                    hit = true;
                    n += read::<Tensor<E, $t>>(&t, &json, &value, &want, true).map_err(|m| format!("Tensor of {}: {m}", stringify!($t)))?;
                    n += read::<Array<E, $t>>(&t, &json, &value, &want, true).map_err(|m| format!("Array of {}: {m}", stringify!($t)))?;
                }
            )*};
        }
        types!(go);
        assert!(hit, "the harness has no shape type {st:?}");
    }
    if case["n"] == 0 {
        let d = usizes(&case["from"]);
        macro_rules! go {
            ($k:ident $([$($s:expr),*] $t:ty);*) => {$(
                if fits::<$t>(&d) {
                    n += writes::<$t>(&d, &t, &json).map_err(|m| format!("{}: {m}", stringify!($t)))?;
                    go!(@$k $t);
                }
            )*};
            (@dyn $t:ty) => {};
            (@const $t:ty) => { n += writes_array::<$t>(&d, &t, &json).map_err(|m| format!("{}: {m}", stringify!($t)))?; };
        }
        types!(go);
    }
    Ok(n)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    replay_main(&args[2..], |case, _, _| run(case));
}
