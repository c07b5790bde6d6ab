//! Driver for the specifications Views.tla and Maps.tla.
use safer_ffi::bytes::Bytes;
use safer_ffi::prelude::*;
use safer_ffi::string::{str_boxed, str_ref};
use serde::de::{value::Error as DeError, Deserialize, Deserializer, IntoDeserializer, Visitor};
use serde::ser::{Impossible, Serialize, SerializeSeq, SerializeTuple, Serializer};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use vharness::{attempt, num, Driver};

// ------------------------------------------------------------------------------------- elements

trait Elem: Sized + Clone + PartialEq + PartialOrd + Debug + 'static + safer_ffi::layout::ReprC {
    fn mk(v: u64) -> Self;
}
impl Elem for u8 {
    fn mk(v: u64) -> u8 {
        [0, 1, 128, 255][v as usize]
    }
}
impl Elem for i16 {
    fn mk(v: u64) -> i16 {
        [0, -300, 7, -1][v as usize]
    }
}
impl Elem for f64 {
    fn mk(v: u64) -> f64 {
        [-0.0, 0.0, 1.5, f64::NAN][v as usize]
    }
}
#[derive_ReprC]
#[repr(transparent)]
#[derive(Clone)]
pub struct Key {
    v: u8,
}
impl Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "K{}", self.v)
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.v / 2 == o.v / 2
    }
}
impl Eq for Key {}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> Ordering {
        (self.v / 2).cmp(&(o.v / 2))
    }
}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u32(self.v as u32 / 2)
    }
}
impl Elem for Key {
    fn mk(v: u64) -> Key {
        Key { v: v as u8 }
    }
}

fn nums(v: &Value) -> Vec<u64> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
}
fn seq<T: Elem>(v: &Value) -> Vec<T> {
    nums(v).into_iter().map(T::mk).collect()
}

/// Records every call.
#[derive(Default, PartialEq, Eq)]
struct Calls(Vec<(u8, Vec<u8>)>);
macro_rules! calls {( $($f:ident $t:ty = $n:literal),* ) => (
    impl Hasher for Calls {
        fn finish(&self) -> u64 { self.0.len() as u64 }
        fn write(&mut self, b: &[u8]) { self.0.push((0, b.to_vec())) }
        $( fn $f(&mut self, x: $t) { self.0.push(($n, x.to_le_bytes().to_vec())) } )*
    }
)}
calls!(write_u8 u8 = 1, write_u16 u16 = 2, write_u32 u32 = 3, write_u64 u64 = 4, write_usize usize = 5,
       write_i8 i8 = 6, write_i16 i16 = 7, write_i32 i32 = 8, write_i64 i64 = 9, write_isize isize = 10);
fn calls<T: Hash + ?Sized>(t: &T) -> Calls {
    let mut h = Calls::default();
    t.hash(&mut h);
    h
}

// ------------------------------------------------------------------------------------ comparing

fn word(o: Option<Ordering>) -> &'static str {
    match o {
        Some(Ordering::Less) => "lt",
        Some(Ordering::Equal) => "eq",
        Some(Ordering::Greater) => "gt",
        None => "none",
    }
}
type Out = BTreeMap<String, Value>;

/// All of `PartialEq` and `PartialOrd`, which have to agree among themselves.
fn partial<A: PartialOrd<B> + ?Sized, B: ?Sized>(name: &str, a: &A, b: &B, out: &mut Out) {
    let o = a.partial_cmp(b);
    let (eq, ne) = (a == b, a != b);
    let rel = [a < b, a <= b, a > b, a >= b];
    let want = [o == Some(Ordering::Less), matches!(o, Some(Ordering::Less | Ordering::Equal)),
                o == Some(Ordering::Greater), matches!(o, Some(Ordering::Greater | Ordering::Equal))];
    let v = if ne == eq || rel != want { json!(["disagree", eq, ne, word(o), rel]) } else { json!([eq, word(o)]) };
    out.insert(name.into(), v);
}
fn total<A: Ord + Hash>(name: &str, a: &A, b: &A, out: &mut Out) {
    let o = a.cmp(b);
    let eq = o == Ordering::Equal;
    let hashed = !eq || calls(a) == calls(b);
    let sel = std::ptr::eq(std::cmp::max::<&A>(a, b), if o == Ordering::Greater { a } else { b });
    out.insert(name.into(), if hashed && sel { json!([eq, word(Some(o))]) } else { json!(["disagree", hashed, sel]) });
}
fn hashed<A: Hash + ?Sized, B: Hash + ?Sized>(name: &str, a: &A, shown: &B, out: &mut Out) {
    if calls(a) != calls(shown) {
        out.insert(name.into(), json!(["hash differs"]));
    }
}

fn pair<T: Elem>(s: &[T], t: &[T], out: &mut Out) {
    let (mut s2, mut t2) = (s.to_vec(), t.to_vec());
    partial("ref", &c_slice::Ref::from(s), &c_slice::Ref::from(t), out);
    partial("ref copy", &c_slice::Ref::from(&s2[..]), &c_slice::Ref::from(t), out);
    partial("mut", &c_slice::Mut::from(&mut s2[..]), &c_slice::Mut::from(&mut t2[..]), out);
    let (b, c): (c_slice::Box<T>, c_slice::Box<T>) =
        (s.to_vec().into_boxed_slice().into(), t.to_vec().into_boxed_slice().into());
    partial("box", &b, &c, out);
    partial("box as ref", &b.as_ref(), &c.as_ref(), out);
    let (v, w): (repr_c::Vec<T>, repr_c::Vec<T>) = (s.to_vec().into(), t.to_vec().into());
    partial("vec", &v[..], &w[..], out);
    partial("vec as ref", &v.as_ref(), &w.as_ref(), out);
    partial("mixed", &*b, &*c_slice::Ref::from(t), out);
}
/// A view compared with itself.
fn same<T: Elem>(s: &[T], out: &mut Out) {
    let mut s2 = s.to_vec();
    let a = c_slice::Ref::from(s);
    partial("ref itself", &a, &a, out);
    let m = c_slice::Mut::from(&mut s2[..]);
    partial("mut itself", &m, &m, out);
    let b: c_slice::Box<T> = s.to_vec().into_boxed_slice().into();
    partial("box itself", &b, &b, out);
}
fn ordered<T: Elem + Ord + Hash>(s: &[T], t: &[T], out: &mut Out) {
    let (mut s2, mut t2) = (s.to_vec(), t.to_vec());
    let (a, b) = (c_slice::Ref::from(s), c_slice::Ref::from(t));
    total("ref ord", &a, &b, out);
    hashed("ref hash", &a, s, out);
    let (a, b) = (c_slice::Mut::from(&mut s2[..]), c_slice::Mut::from(&mut t2[..]));
    total("mut ord", &a, &b, out);
    hashed("mut hash", &a, s, out);
    let (a, b): (c_slice::Box<T>, c_slice::Box<T>) =
        (s.to_vec().into_boxed_slice().into(), t.to_vec().into_boxed_slice().into());
    total("box ord", &a, &b, out);
    hashed("box hash", &a, s, out);
    let v: repr_c::Vec<T> = s.to_vec().into();
    hashed("vec hash", &v[..], s, out);
}

// ---------------------------------------------------------------------------------- byte strings

struct Statics(HashMap<Vec<u8>, &'static [u8]>);
impl Statics {
    fn get(&mut self, s: &[u8]) -> &'static [u8] {
        *self.0.entry(s.to_vec()).or_insert_with(|| Vec::leak(s.to_vec()))
    }
}
type B = Bytes<'static>;
const REPS: usize = 12;
fn shown(s: &[u8], st: &mut Statics, rep: usize) -> (&'static str, B) {
    let window = || {
        let mut v = vec![9, 9, 9];
        v.extend_from_slice(s);
        v.extend_from_slice(&[7; 20]);
        v
    };
    let at = 3..3 + s.len();
    match rep {
        0 => ("static", Bytes::from_static(st.get(s))),
        1 => ("slice", Bytes::from_slice(st.get(s))),
        2 => ("inlined", Bytes::inline_slice(s).unwrap_or_else(|| Bytes::from(s.to_vec()))),
        3 => ("copied", Bytes::copied_from_slice(s)),
        4 => ("vec", Bytes::from(s.to_vec())),
        5 => ("box", Bytes::from(s.to_vec().into_boxed_slice())),
        6 => ("arc", Bytes::from(Arc::<[u8]>::from(s))),
        7 => ("arc of vec", Bytes::from(Arc::new(s.to_vec()))),
        8 => ("window of vec", Bytes::from(window()).subsliced(at)),
        9 => ("window of static", Bytes::from_static(st.get(&window())).subsliced(at)),
        10 => {
            let b = Bytes::from(Arc::<[u8]>::from(&*window())).subsliced(at);
            ("shared window of arc", Bytes::clone(&b))
        }
        _ => ("upgraded window", Bytes::from_slice(st.get(&window())).subsliced(at).upgrade()),
    }
}
fn bytes_pair(s: &[u8], t: &[u8], st: &mut Statics, out: &mut Out) {
    let bs: Vec<_> = (0..REPS).map(|r| shown(t, st, r)).collect();
    for (n, a) in (0..REPS).map(|r| shown(s, st, r)) {
        for (m, b) in &bs {
            let name = format!("bytes {n}/{m}");
            partial(&name, &a, b, out);
            total(&format!("{name} ord"), &a, b, out);
        }
        hashed(&format!("bytes {n} hash"), &a, s, out);
        hashed(&format!("bytes {n} borrowed"), std::borrow::Borrow::<[u8]>::borrow(&a), s, out);
        partial(&format!("bytes {n}/vec"), &a, &t.to_vec(), out);
        partial(&format!("bytes {n}/slice"), &a, &t, out);
        partial(&format!("bytes {n}/box"), &a, &t.to_vec().into_boxed_slice(), out);
        partial(&format!("bytes {n}/cow"), &a, &Cow::Borrowed(t), out);
        if let Ok(t) = <[u8; 2]>::try_from(t) {
            partial(&format!("bytes {n}/array"), &a, &t, out);
        }
        if let Ok(t) = std::str::from_utf8(t) {
            partial(&format!("bytes {n}/str"), &a, &t, out);
            partial(&format!("bytes {n}/string"), &a, &String::from(t), out);
        }
    }
}

// ------------------------------------------------------------------------------------ formatting

fn forms<T: Debug + ?Sized>(name: &str, t: &T, shown: &dyn Debug, out: &mut Out) {
    let flags = format!("{t:5?}|{t:02x?}|{t:+?}|{t:<7.1?}") == format!("{shown:5?}|{shown:02x?}|{shown:+?}|{shown:<7.1?}");
    out.insert(name.into(), json!([format!("{t:?}"), format!("{t:#?}"), flags]));
}
fn debugs<T: Elem>(s: &[T], out: &mut Out) {
    let mut s2 = s.to_vec();
    forms("ref", &c_slice::Ref::from(s), &s, out);
    forms("mut", &c_slice::Mut::from(&mut s2[..]), &s, out);
    forms("box", &c_slice::Box::from(s.to_vec().into_boxed_slice()), &s, out);
    forms("vec", &repr_c::Vec::from(s.to_vec()), &s, out);
    let b: repr_c::Box<repr_c::Vec<T>> = Box::new(repr_c::Vec::from(s.to_vec())).into();
    forms("boxed vec", &b, &s, out);
}

const CHARS: [char; 8] = ['\t', '\n', '"', '\'', '\\', 'a', 'é', '😀'];
fn text(v: &Value) -> String {
    nums(v).into_iter().map(|i| CHARS[i as usize]).collect()
}
fn strs(s: &str, t: &str, out: &mut Out) {
    let (a, b) = (char_p::new(s), char_p::new(t));
    out.insert("char_p box".into(), json!([a == b, (a != b) != (a == b)]));
    let (x, y) = (a.as_ref(), b.as_ref());
    out.insert("char_p ref".into(), json!([x == y, (x != y) != (x == y)]));
    let moved = a.clone();
    out.insert("char_p copy".into(), json!([moved.as_ref() == y, true]));
    partial("str ref", &*str_ref::from(s), &*str_ref::from(t), out);
    partial("str box", &*str_boxed::from(s), &*str_boxed::from(t), out);
    partial("string", &*repr_c::String::from(s), &*repr_c::String::from(t), out);
    partial("char_p text", x.to_str(), y.to_str(), out);
}
macro_rules! padded {( $x:expr, $align:expr, $w:expr, $p:expr ) => (
    match ($align, $p) {
        ("left", p) if p < 0 => format!("{:*<w$}", $x, w = $w),
        ("right", p) if p < 0 => format!("{:*>w$}", $x, w = $w),
        (_, p) if p < 0 => format!("{:*^w$}", $x, w = $w),
        ("left", p) => format!("{:*<w$.p$}", $x, w = $w, p = p as usize),
        ("right", p) => format!("{:*>w$.p$}", $x, w = $w, p = p as usize),
        (_, p) => format!("{:*^w$.p$}", $x, w = $w, p = p as usize),
    }
)}
fn show(s: &str, align: &str, w: usize, p: i64, out: &mut Out) {
    macro_rules! one {( $name:literal, $x:expr, $display:expr ) => ({
        let x = $x;
        let d = [format!("{x:?}"), format!("{x:#?}"), format!("{x:*<9?}")];
        out.insert($name.into(), json!([d, padded!($display(&x), align, w, p)]));
    })}
    let a = char_p::new(s);
    fn id<T>(x: &T) -> &T {
        x
    }
    one!("char_p ref", a.as_ref(), id);
    one!("char_p box", a.clone(), id);
    one!("string", repr_c::String::from(s), id);
    one!("str ref", str_ref::from(s), |x: &str_ref<'_>| x.as_str().to_string());
    one!("str box", str_boxed::from(s), |x: &str_boxed| x.to_string());
}

// ------------------------------------------------------------------------------------- (de)coding

struct Shape<'de> {
    kind: &'de str,
    data: &'de [u8],
    hint: u64,
    fails: bool,
}
struct Items<'de> {
    left: std::slice::Iter<'de, u8>,
    hint: Option<usize>,
    fails: bool,
}
impl<'de> serde::de::SeqAccess<'de> for Items<'de> {
    type Error = DeError;
    fn next_element_seed<S: serde::de::DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, DeError> {
        match self.left.next() {
            Some(b) => seed.deserialize((*b).into_deserializer()).map(Some),
            None if self.fails => Err(serde::de::Error::custom("cut short")),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'de> serde::de::MapAccess<'de> for Items<'de> {
    type Error = DeError;
    fn next_key_seed<S: serde::de::DeserializeSeed<'de>>(&mut self, _: S) -> Result<Option<S::Value>, DeError> {
        Ok(None)
    }
    fn next_value_seed<S: serde::de::DeserializeSeed<'de>>(&mut self, _: S) -> Result<S::Value, DeError> {
        unreachable!()
    }
}
impl<'de> Deserializer<'de> for Shape<'de> {
    type Error = DeError;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DeError> {
        let n = self.data.len();
        let items = Items {
            left: self.data.iter(),
            hint: [None, Some(n), Some(n / 2), Some(n + 5), Some(usize::MAX)][self.hint as usize],
            fails: self.fails,
        };
        match self.kind {
            "borrowed" => v.visit_borrowed_bytes(self.data),
            "bytes" => {
                let mut tmp = self.data.to_vec();
                let r = v.visit_bytes(&tmp);
                tmp.fill(0xEE);
                r
            }
            "buf" => v.visit_byte_buf(self.data.to_vec()),
            "seq" => v.visit_seq(items),
            "str" => v.visit_str("\u{1}\u{1}"),
            "unit" => v.visit_unit(),
            "u8" => v.visit_u8(1),
            "map" => v.visit_map(items),
            "none" => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// What a value serializes itself as: bytes, one way or the other.
struct Recorder;
struct Listed(Vec<u8>);
type SerError = std::fmt::Error;
#[derive(Debug)]
struct Refused;
impl std::fmt::Display for Refused {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Err(SerError::default())
    }
}
impl std::error::Error for Refused {}
impl serde::ser::Error for Refused {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Refused
    }
}
impl Listed {
    fn add<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Refused> {
        let v = serde_json::to_value(t).map_err(|_| Refused)?;
        self.0.push(v.as_u64().and_then(|n| u8::try_from(n).ok()).ok_or(Refused)?);
        Ok(())
    }
}
impl SerializeSeq for Listed {
    type Ok = (&'static str, Vec<u8>);
    type Error = Refused;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Refused> {
        self.add(t)
    }
    fn end(self) -> Result<Self::Ok, Refused> {
        Ok(("seq", self.0))
    }
}
impl SerializeTuple for Listed {
    type Ok = (&'static str, Vec<u8>);
    type Error = Refused;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Refused> {
        self.add(t)
    }
    fn end(self) -> Result<Self::Ok, Refused> {
        Ok(("seq", self.0))
    }
}
macro_rules! refuse {( $($f:ident($($t:ty),*))* ) => ( $( fn $f(self, $(_: $t),*) -> Result<Self::Ok, Refused> { Err(Refused) } )* )}
type No = Impossible<(&'static str, Vec<u8>), Refused>;
impl Serializer for Recorder {
    type Ok = (&'static str, Vec<u8>);
    type Error = Refused;
    type SerializeSeq = Listed;
    type SerializeTuple = Listed;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn serialize_bytes(self, b: &[u8]) -> Result<Self::Ok, Refused> {
        Ok(("bytes", b.to_vec()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Listed, Refused> {
        Ok(Listed(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<Listed, Refused> {
        Ok(Listed(vec![]))
    }
    refuse! {
        serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8)
        serialize_u16(u16) serialize_u32(u32) serialize_u64(u64) serialize_f32(f32) serialize_f64(f64) serialize_char(char)
        serialize_str(&str) serialize_none() serialize_unit() serialize_unit_struct(&'static str)
        serialize_unit_variant(&'static str, u32, &'static str)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<Self::Ok, Refused> {
        Err(Refused)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, t: &T) -> Result<Self::Ok, Refused> {
        t.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, Refused> {
        Err(Refused)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Refused> {
        Err(Refused)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Refused> {
        Err(Refused)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Refused> {
        Err(Refused)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Refused> {
        Err(Refused)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Refused> {
        Err(Refused)
    }
}

fn de(kind: &str, data: &[u8], hint: u64, fails: bool) -> Value {
    let r = attempt(|| Bytes::deserialize(Shape { kind, data, hint, fails }).map(|b| b.to_vec()).map_err(|_| ()));
    match r.0 {
        Ok(Ok(v)) => json!(["ok", v]),
        Ok(Err(())) => json!(["err"]),
        Err(()) => json!(["panic"]),
    }
}
type Nested<'a> = (Bytes<'a>, Option<Bytes<'a>>, Vec<Bytes<'a>>, (u8, Bytes<'a>));
/// Into every format at hand and back.
fn round_trips(s: &[u8], st: &mut Statics) -> Vec<String> {
    let mut bad = vec![];
    for r in 0..REPS {
        let (n, b) = shown(s, st, r);
        let mut see = |what: &str, ok: bool| {
            if !ok {
                bad.push(format!("{n}: {what}"));
            }
        };
        match b.serialize(Recorder) {
            Ok((_, data)) => {
                see("serialized contents", data == s);
                for kind in ["borrowed", "bytes", "buf", "seq"] {
                    see(kind, Bytes::deserialize(Shape { kind, data: &data, hint: 1, fails: false }).map_or(false, |x| x == b));
                }
            }
            Err(_) => see("is not serialized as bytes", false),
        }
        let j = serde_json::to_string(&b).unwrap();
        see("json", serde_json::from_str::<Bytes<'_>>(&j).map_or(false, |x| x == b));
        see("json bytes", serde_json::from_slice::<Bytes<'_>>(j.as_bytes()).map_or(false, |x| x == b));
        see("json reader", Bytes::deserialize(&mut serde_json::Deserializer::from_reader(j.as_bytes())).map_or(false, |x| x == b));
        see("json value", Bytes::deserialize(serde_json::to_value(&b).unwrap()).map_or(false, |x| x == b));
        let nest: Nested<'_> = (b.clone(), Some(b.clone()), vec![b.clone(), Bytes::empty(), b.clone()], (7, b.clone()));
        let j = serde_json::to_vec_pretty(&nest).unwrap();
        see("nested in json", serde_json::from_slice::<Nested<'_>>(&j).map_or(false, |x| x == nest));
    }
    bad
}

// ------------------------------------------------------------------------------------------ maps

fn key(k: &str) -> Vec<u8> {
    k[1..].bytes().map(|d| u8::mk((d - b'0') as u64)).collect()
}
struct Maps {
    st: Statics,
    hash: HashMap<B, u64>,
    tree: BTreeMap<B, u64>,
    boxes: BTreeMap<c_slice::Box<u8>, u64>,
    refs: HashMap<c_slice::Ref<'static, u8>, u64>,
}
impl Maps {
    fn act(&mut self, cmd: &[&str]) -> Result<Value, Value> {
        let k = if cmd.len() > 1 { key(cmd[1]) } else { vec![] };
        let mut view = |rep: &str| {
            let r: usize = num(rep);
            shown(&k, &mut self.st, r % REPS).1
        };
        let boxed = |k: &[u8]| c_slice::Box::from(k.to_vec().into_boxed_slice());
        let all: [u64; 4] = match cmd[0] {
            "insert" => {
                let v: u64 = num(cmd[3]);
                let b = view(cmd[2]);
                let r = c_slice::Ref::from(self.st.get(&k));
                [self.hash.insert(b.clone(), v), self.tree.insert(b, v), self.boxes.insert(boxed(&k), v), self.refs.insert(r, v)]
                    .map(|x| x.unwrap_or(0))
            }
            "get" => {
                let b = view(cmd[2]);
                [self.hash.get(&b), self.tree.get(&b), self.boxes.get(&boxed(&k)), self.refs.get(&c_slice::Ref::from(self.st.get(&k)))]
                    .map(|x| x.copied().unwrap_or(0))
            }
            "gets" => {
                let h = self.hash.get(&k[..]).copied().unwrap_or(0);
                [h, self.tree.get(&k[..]).copied().unwrap_or(0), h, h]
            }
            "remove" => {
                let b = view(cmd[2]);
                let r = c_slice::Ref::from(self.st.get(&k));
                [self.hash.remove(&b), self.tree.remove(&k[..]), self.boxes.remove(&boxed(&k)), self.refs.remove(&r)]
                    .map(|x| x.unwrap_or(0))
            }
            "from" => {
                let t = self.tree.range::<[u8], _>((std::ops::Bound::Included(&k[..]), std::ops::Bound::Unbounded)).count() as u64;
                let b = self.boxes.range(boxed(&k)..).count() as u64;
                [t, b, t, b]
            }
            "all" => {
                let back = |b: &[u8]| b.iter().map(|x| [0, 1, 128, 255].iter().position(|y| y == x).unwrap()).collect::<Vec<_>>();
                let t: Vec<_> = self.tree.keys().map(|b| back(b)).collect();
                let b: Vec<_> = self.boxes.keys().map(|b| back(b)).collect();
                let mut h: Vec<_> = self.hash.keys().cloned().collect();
                h.sort();
                let h: Vec<_> = h.iter().map(|b| back(b)).collect();
                let mut r: Vec<_> = self.refs.keys().copied().collect();
                r.sort_unstable();
                let r: Vec<_> = r.iter().map(|b| back(b)).collect();
                return if t == b && t == h && t == r { Ok(json!(t)) } else { Err(json!([t, b, h, r])) };
            }
            c => panic!("{c}"),
        };
        if all.iter().all(|x| *x == all[0]) { Ok(json!(all[0])) } else { Err(json!(all)) }
    }
}

impl Driver for Maps {
    fn reset(&mut self) {
        self.hash = HashMap::new();
        self.tree.clear();
        self.boxes.clear();
        self.refs = HashMap::new();
    }
    fn step(&mut self, cmd: &[&str]) -> Value {
        if cmd[0] != "ask" {
            return match self.act(cmd) {
                Ok(v) => json!({"res": [v]}),
                Err(v) => json!({"res": ["disagree", v]}),
            };
        }
        let q: Value = serde_json::from_str(cmd[1]).unwrap();
        let kind = q["k"].as_str().unwrap();
        let (s, t) = (&q["s"], &q["t"]);
        let mut out = Out::new();
        macro_rules! by_kind {( $f:ident($($x:expr),*) ) => (
            match kind {
                "u8" => $f::<u8>($(&seq($x)[..],)* &mut out),
                "i16" => $f::<i16>($(&seq($x)[..],)* &mut out),
                "f64" => $f::<f64>($(&seq($x)[..],)* &mut out),
                _ => $f::<Key>($(&seq($x)[..],)* &mut out),
            }
        )}
        match q["do"].as_str().unwrap() {
            "pair" => {
                by_kind!(pair(s, t));
                match kind {
                    "u8" => ordered::<u8>(&seq(s), &seq(t), &mut out),
                    "i16" => ordered::<i16>(&seq(s), &seq(t), &mut out),
                    "key" => ordered::<Key>(&seq(s), &seq(t), &mut out),
                    _ => {}
                }
                if s == t {
                    by_kind!(same(s));
                }
                if kind == "u8" {
                    bytes_pair(&seq(s), &seq(t), &mut self.st, &mut out);
                }
                // Only what differs from the first is told.
                let first = out["ref"].clone();
                out.retain(|k, v| k == "ref" || *v != first);
            }
            "one" => {
                by_kind!(debugs(s));
                if kind == "u8" {
                    let data: Vec<u8> = seq(s);
                    let mut alt = vec![];
                    for r in 0..REPS {
                        let (n, b) = shown(&data, &mut self.st, r);
                        let flags = format!("{b:5?}|{b:02x?}|{b:+?}") == format!("{data:5?}|{data:02x?}|{data:+?}");
                        out.insert(format!("bytes {n}"), json!([format!("{b:?}"), null, flags]));
                        alt.push(json!([n, format!("{b:#?}"), !b.upgrade_will_allocate(), !b.clone_will_allocate()]));
                    }
                    out.insert("alternate".into(), json!(alt));
                    out.insert("round trips".into(), json!(round_trips(&data, &mut self.st)));
                }
            }
            "texts" => strs(&text(s), &text(t), &mut out),
            "show" => show(&text(s), kind, t[0].as_u64().unwrap() as usize, t[1].as_i64().unwrap(), &mut out),
            "de" => return json!({"ans": de(kind, &seq::<u8>(s), t[0].as_u64().unwrap(), t[1] == 1)}),
            x => panic!("{x}"),
        }
        json!({"ans": out})
    }
}

fn main() {
    let mut d = Maps {
        st: Statics(HashMap::new()),
        hash: HashMap::new(),
        tree: BTreeMap::new(),
        boxes: BTreeMap::new(),
        refs: HashMap::new(),
    };
    vharness::run(&mut d)
}
