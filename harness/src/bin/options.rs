//! Driver for the specification Options.tla.
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, ConcreteReprC, ReprC};
use safer_ffi::option::TaggedOption;
use safer_ffi::prelude::*;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::mem::{size_of, MaybeUninit};
use vharness::{attempt, chk, num, Driver};

/// The objects: 0 is dead. A drop of a dead one is counted as an error.
static mut OBJ: [u8; 64] = [0; 64];
static mut PANIC_CLONE: bool = false;
static mut CLONE_AS: usize = 0;

fn val(o: usize) -> u8 {
    unsafe { OBJ[o] }
}
fn born(o: usize, v: u8) {
    unsafe {
        assert_eq!(OBJ[o], 0);
        OBJ[o] = v
    }
}
fn dead(o: usize) {
    unsafe {
        if o >= 64 || OBJ[o] == 0 {
            chk::ERRORS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        } else {
            OBJ[o] = 0
        }
    }
}

trait Payload: ReprC + ConcreteReprC + Clone + Ord + Hash + std::fmt::Debug {
    type C: Copy;
    type CP: Copy;
    fn make(o: usize) -> Self;
    fn id(&self) -> usize;
    fn payload(self) -> Self::CP;
    fn to_c(t: TaggedOption<Self>) -> Self::C;
    fn from_c(c: Self::C, checked: bool) -> Option<TaggedOption<Self>>;
}
macro_rules! c_form {
    () => {
        type C = CLayoutOf<TaggedOption<Self>>;
        type CP = CLayoutOf<Self>;
        fn payload(self) -> Self::CP { unsafe { into_raw(self) } }
        fn to_c(t: TaggedOption<Self>) -> Self::C { unsafe { into_raw(t) } }
        fn from_c(c: Self::C, checked: bool) -> Option<TaggedOption<Self>> {
            unsafe { if checked { from_raw(c) } else { Some(from_raw_unchecked(c)) } }
        }
    };
}

macro_rules! behaviour {
    ($($T:ident)*) => ($(
        impl Drop for $T { fn drop(&mut self) { dead(self.oid()) } }
        impl Clone for $T {
            fn clone(&self) -> Self {
                unsafe {
                    if PANIC_CLONE { panic!("clone") }
                    born(CLONE_AS, val(self.oid()));
                    Self::fresh(CLONE_AS)
                }
            }
        }
        common!($T);
        impl Payload for $T {
            c_form!();
            fn make(o: usize) -> Self { Self::fresh(o) }
            fn id(&self) -> usize { self.oid() }
        }
    )*);
}
macro_rules! common {
    ($T:ty) => {
        impl PartialEq for $T { fn eq(&self, o: &Self) -> bool { val(self.oid()) == val(o.oid()) } }
        impl Eq for $T {}
        impl PartialOrd for $T { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl Ord for $T { fn cmp(&self, o: &Self) -> Ordering { val(self.oid()).cmp(&val(o.oid())) } }
        impl Hash for $T { fn hash<H: Hasher>(&self, h: &mut H) { val(self.oid()).hash(h) } }
        impl std::fmt::Debug for $T {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { val(self.oid()).fmt(f) }
        }
    };
}

#[derive_ReprC]
#[repr(C)]
pub struct Small {
    id: u8,
}
impl Small {
    fn fresh(o: usize) -> Self { Small { id: o as u8 } }
    fn oid(&self) -> usize { self.id as usize }
}
#[derive_ReprC]
#[repr(C)]
pub struct Wide {
    a: u16,
    id: u64,
    flag: bool,
}
impl Wide {
    fn fresh(o: usize) -> Self { Wide { a: 0xabcd, id: o as u64, flag: o % 2 == 0 } }
    fn oid(&self) -> usize {
        if self.a == 0xabcd && self.flag == (self.id % 2 == 0) { self.id as usize } else { 999 }
    }
}
#[derive_ReprC]
#[repr(C)]
pub struct Float {
    f: f32,
}
impl Float {
    // NaNs with a payload: the bits have to survive.
    fn fresh(o: usize) -> Self { Float { f: f32::from_bits(0x7fa0_0000 + o as u32) } }
    fn oid(&self) -> usize { (self.f.to_bits() as usize).wrapping_sub(0x7fa0_0000) }
}
/// Owned memory behind a pointer that is never null.
#[derive_ReprC]
#[repr(transparent)]
pub struct Owned {
    b: repr_c::Box<Small>,
}
impl Owned {
    fn oid(&self) -> usize { self.b.oid() }
}
impl Clone for Owned {
    fn clone(&self) -> Self { Owned { b: Box::new((*self.b).clone()).into() } }
}
common!(Owned);
impl Payload for Owned {
    c_form!();
    fn make(o: usize) -> Self { Owned { b: Box::new(Small::fresh(o)).into() } }
    fn id(&self) -> usize { self.oid() }
}
/// An option within the option.
#[derive_ReprC]
#[repr(C)]
#[derive(Clone)]
pub struct Nested {
    t: TaggedOption<Wide>,
    n: TaggedOption<Small>,
}
impl Nested {
    fn oid(&self) -> usize {
        match (&self.t, &self.n) { (TaggedOption::Some(w), TaggedOption::None) => w.oid(), _ => 999 }
    }
}
common!(Nested);
impl Payload for Nested {
    c_form!();
    fn make(o: usize) -> Self { Nested { t: Wide::fresh(o).into(), n: None.into() } }
    fn id(&self) -> usize { self.oid() }
}
behaviour!(Small Wide Float);

enum V<P: Payload> {
    None,
    Tag(TaggedOption<P>),
    Std(Option<P>),
    Val(P),
    Raw(P::C),
    Bad(P::C),
}

struct D<P: Payload>(Vec<V<P>>);

fn byte<T>(t: &T) -> u8 {
    unsafe { std::ptr::read_volatile(t as *const T as *const u8) }
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// The same calls on either kind of option.
macro_rules! either {
    ($slot:expr, $x:ident => $e:expr, else $other:expr) => {
        match $slot { V::Tag($x) => $e, V::Std($x) => $e, _ => $other }
    };
}

impl<P: Payload> D<P>
{
    fn make_c(t: u8, junk: u8) -> P::C {
        unsafe {
            let mut m = MaybeUninit::<P::C>::uninit();
            std::ptr::write_bytes(m.as_mut_ptr().cast::<u8>(), junk, size_of::<P::C>());
            m.as_mut_ptr().cast::<u8>().write(t);
            m.assume_init()
        }
    }
    fn go(&mut self, c: &[&str]) -> Value {
        let i = num::<usize>(c[1]) - 1;
        let panics = |r: Result<Value, ()>| r;
        let take = |s: &mut V<P>| std::mem::replace(s, V::None);
        let r: Result<Value, ()> = match c[0] {
            "mk" => {
                let (o, v) = (num(c[3]), num::<u8>(c[4]));
                if o > 0 { born(o, v) }
                let p = || P::make(o);
                self.0[i] = match (c[2], o, c[5]) {
                    ("tag", 0, _) => V::Tag(TaggedOption::None),
                    ("tag", _, "from") => V::Tag(p().into()),
                    ("tag", _, _) => V::Tag(TaggedOption::Some(p())),
                    ("std", 0, _) => V::Std(None),
                    ("std", ..) => V::Std(Some(p())),
                    ("val", ..) => V::Val(p()),
                    // C code writes a tag, and a payload at its alignment.
                    ("raw", _, _) => unsafe {
                        let mut m = MaybeUninit::new(Self::make_c((o > 0) as u8, 0x5a));
                        if o > 0 {
                            let b = m.as_mut_ptr().cast::<u8>().add(std::mem::align_of::<P::CP>());
                            b.cast::<P::CP>().write(p().payload());
                        }
                        V::Raw(m.assume_init())
                    },
                    _ => panic!(),
                };
                Ok(json!(["ok"]))
            }
            "mkc" => {
                let (t, j) = (num::<u8>(c[2]), num::<u8>(c[3]));
                let l = Self::make_c(t, j);
                self.0[i] = if t == 0 { V::Raw(l) } else { V::Bad(l) };
                Ok(json!(["ok"]))
            }
            "conv" => {
                self.0[i] = match (take(&mut self.0[i]), c[2]) {
                    (V::Tag(t), "into") => V::Std(t.into()),
                    (V::Tag(t), "into_rust") => V::Std(t.into_rust()),
                    (V::Std(t), "into") => V::Tag(t.into()),
                    (V::Std(t), "from") => V::Tag(TaggedOption::from(t)),
                    (V::Val(t), "from") => V::Tag(TaggedOption::from(t)),
                    _ => panic!(),
                };
                Ok(json!(["ok"]))
            }
            "toc" => match take(&mut self.0[i]) {
                V::Tag(t) => {
                    self.0[i] = V::Raw(P::to_c(t));
                    Ok(json!(["ok"]))
                }
                _ => panic!(),
            },
            "fromc" => match take(&mut self.0[i]) {
                V::Raw(l) | V::Bad(l) => match P::from_c(l, c[2] == "checked") {
                    Some(t) => {
                        self.0[i] = V::Tag(t);
                        Ok(json!(["ok"]))
                    }
                    None => Ok(json!(["invalid"])),
                },
                _ => panic!(),
            },
            "ref" => {
                let o = either!(&self.0[i], x => x.as_ref(), else panic!());
                Ok(json!(["shows", o.map_or(0, |p: &P| val(p.id()))]))
            }
            "mut" => {
                let o = either!(&mut self.0[i], x => x.as_mut(), else panic!());
                Ok(json!(["shows", o.map_or(0, |p| unsafe {
                    let p: &mut P = p;
                    let v = OBJ[p.id()];
                    OBJ[p.id()] = 3 - v;
                    v
                })]))
            }
            "take" => {
                let j = num::<usize>(c[2]) - 1;
                self.0[j] = match &mut self.0[i] { V::Tag(t) => V::Tag(t.take()), V::Std(t) => V::Std(t.take()), _ => panic!() };
                Ok(json!(["ok"]))
            }
            "map" => {
                let calls = std::cell::RefCell::new(vec![]);
                let mut kept = None;
                let mode = c[2];
                let x = take(&mut self.0[i]);
                let r = {
                    let (calls, kept) = (&calls, &mut kept);
                    let d = || {
                        chk::untracked(|| calls.borrow_mut().push("default"));
                        if mode == "panic" { panic!() }
                        if mode == "keep" { 0 } else { 40 }
                    };
                    let f = |p: P| {
                        chk::untracked(|| calls.borrow_mut().push("f"));
                        let v = val(p.id());
                        match mode { "panic" => panic!(), "keep" => { *kept = Some(p); v } _ => 50 + v }
                    };
                    attempt(move || either!(x, o => o.map_or_else(d, f), else panic!("kind"))).0
                };
                if let Some(p) = kept { self.0[i] = V::Val(p) }
                let calls = calls.into_inner();
                Ok(match r { Ok(v) => json!([calls.join("+"), v]), Err(()) => json!([calls.join("+"), "panic"]) })
            }
            "unwrap" => {
                let (mode, o) = (c[2], num(c[3]));
                let called = std::cell::Cell::new(0);
                let x = take(&mut self.0[i]);
                let r = {
                    let called = &called;
                    let d = || {
                        called.set(called.get() + 1);
                        if mode == "panic" { panic!() }
                        born(o, 2);
                        P::make(o)
                    };
                    attempt(move || either!(x, t => t.unwrap_or_else(d), else panic!("kind"))).0
                };
                let who = ["own", "default", "both", "more"][called.get().min(3)];
                Ok(match r {
                    Ok(p) => {
                        let v = val(p.id());
                        self.0[i] = V::Val(p);
                        json!([who, v])
                    }
                    Err(()) => json!([who, "panic"]),
                })
            }
            "and_then" => {
                let (mode, o) = (c[2], num(c[3]));
                let called = std::cell::Cell::new(0);
                let f = |p: P| {
                    called.set(called.get() + 1);
                    match mode {
                        "same" => Some(p),
                        "none" => None,
                        "new" => { drop(p); born(o, 1); Some(P::make(o)) }
                        _ => panic!(),
                    }
                };
                let x = take(&mut self.0[i]);
                let r = attempt(|| match x {
                    V::Tag(t) => V::Tag(t.and_then(|p| TaggedOption::from(f(p)))),
                    V::Std(t) => V::Std(t.and_then(f)),
                    _ => panic!("kind"),
                }).0;
                let who = ["uncalled", "f", "twice"][called.get().min(2)];
                Ok(match r { Ok(v) => { self.0[i] = v; json!([who]) } Err(()) => json!([who, "panic"]) })
            }
            "clone" => {
                let (j, mode, o) = (num::<usize>(c[2]) - 1, c[3], num(c[4]));
                unsafe { PANIC_CLONE = mode == "panic"; CLONE_AS = o }
                let x = &self.0[i];
                let r = attempt(|| match x { V::Tag(t) => V::Tag(t.clone()), V::Std(t) => V::Std(t.clone()), _ => panic!("kind") }).0;
                unsafe { PANIC_CLONE = false }
                r.map(|v| { self.0[j] = v; json!(["ok"]) })
            }
            "clone_from" => {
                let (j, o) = (num::<usize>(c[2]) - 1, num(c[3]));
                unsafe { CLONE_AS = o }
                let src = take(&mut self.0[i]);
                match (&src, &mut self.0[j]) {
                    (V::Tag(a), V::Tag(b)) => b.clone_from(a),
                    (V::Std(a), V::Std(b)) => b.clone_from(a),
                    _ => panic!(),
                }
                self.0[i] = src;
                Ok(json!(["ok"]))
            }
            "cmp" => {
                let j = num::<usize>(c[2]) - 1;
                fn three<T: Ord + Hash>(a: &T, b: &T) -> Value {
                    let o = a.cmp(b);
                    let name = match o { Ordering::Less => "lt", Ordering::Equal => "eq", Ordering::Greater => "gt" };
                    let same = (a != b) == (o != Ordering::Equal)
                        && a.partial_cmp(b) == Some(o) && (a < b) == (o == Ordering::Less) && (a >= b) == (o != Ordering::Less)
                        && (a > b) == (o == Ordering::Greater) && (a <= b) == (o != Ordering::Greater)
                        && b.cmp(a) == o.reverse();
                    json!([a == b, if same { name } else { "inconsistent" }, hash(a) == hash(b)])
                }
                Ok(match (&self.0[i], &self.0[j]) {
                    (V::Tag(a), V::Tag(b)) => three(a, b),
                    (V::Std(a), V::Std(b)) => three(a, b),
                    _ => panic!(),
                })
            }
            "fmt" => {
                let s = chk::untracked(|| either!(&self.0[i], x => format!("{x:?}"), else panic!()));
                Ok(json!([s]))
            }
            "drop" => {
                take(&mut self.0[i]);
                Ok(json!(["ok"]))
            }
            _ => panic!("{c:?}"),
        };
        let _ = panics;
        r.unwrap_or_else(|()| json!(["panic"]))
    }
    fn look(&self) -> Vec<Value> {
        self.0.iter().map(|v| match v {
            V::None => json!(["none", 0, -1]),
            V::Tag(t) => json!(["tag", t.as_ref().map_or(0, |p| p.id()), byte(t)]),
            V::Std(t) => json!(["std", t.as_ref().map_or(0, |p| p.id()), -1]),
            V::Val(p) => json!(["val", p.id(), -1]),
            V::Bad(_) => json!(["bad", 0, -1]),
            V::Raw(l) => {
                let t = byte(l);
                let o = if t == 1 {
                    // (as C code reads it: the tag, then the payload at its alignment)
                    unsafe {
                        let b = (l as *const _ as *const u8).add(std::mem::align_of::<P::CP>());
                        (*b.cast::<P>()).id()
                    }
                } else { 0 };
                json!(["raw", o, t])
            }
        }).collect()
    }
}

impl<P: Payload> Driver for D<P>
{
    fn reset(&mut self) {
        for i in 0..self.0.len() {
            // (what C holds has to come back to be released)
            if let V::Raw(l) = std::mem::replace(&mut self.0[i], V::None) {
                chk::tracked(|| drop(P::from_c(l, false)));
            }
        }
        unsafe { 
            if OBJ.iter().any(|&v| v != 0) { chk::ERRORS.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
            OBJ = [0; 64]
        }
    }
    fn step(&mut self, c: &[&str]) -> Value {
        let (res, _) = chk::tracked(|| {
            let r = self.go(c);
            chk::untracked(|| r.to_string())
        });
        let res: Value = serde_json::from_str(&res).unwrap();
        let n = num::<usize>(&std::env::var("VH_OBJS").unwrap());
        json!({"res": res, "sl": self.look(), "obj": unsafe { OBJ[1..=n].to_vec() }, "aerr": chk::errors()})
    }
}

fn main() {
    let n = num::<usize>(&std::env::var("VH_SLOTS").unwrap());
    fn d<P: Payload>(n: usize) -> D<P> { D((0..n).map(|_| V::None).collect()) }
    match &*std::env::var("VH_PAYLOAD").unwrap() {
        "small" => vharness::run(&mut d::<Small>(n)),
        "wide" => vharness::run(&mut d::<Wide>(n)),
        "float" => vharness::run(&mut d::<Float>(n)),
        "owned" => vharness::run(&mut d::<Owned>(n)),
        "nested" => vharness::run(&mut d::<Nested>(n)),
        _ => panic!(),
    }
}
