//! Driver for the specification Containers.tla.
use safer_ffi::prelude::*;
use safer_ffi::slice::{slice_boxed, slice_mut, slice_raw, slice_ref};
use safer_ffi::string::{str_boxed, str_ref};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::sync::atomic::{AtomicI64, Ordering::*};
use vharness::{attempt, chk, num, Driver};

// ---------------------------------------------------------------- elements
/// Per token: how many are alive. (Tokens are small numbers given by the specification.)
static ALIVE: [AtomicI64; 64] = {
    const Z: AtomicI64 = AtomicI64::new(0);
    [Z; 64]
};
thread_local! {
    /// Ids for the clones to come; a clone beyond them gets id 63.
    static NEXT: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static CLONE_BOMB: RefCell<i64> = const { RefCell::new(-1) };
    static DROP_BOMB: RefCell<i64> = const { RefCell::new(-1) };
}
fn born(id: u64) {
    ALIVE[id as usize].fetch_add(1, SeqCst);
}
fn died(id: u64) {
    // A dead or clobbered element: its id is out of range, or not alive.
    if id >= 64 || ALIVE[id as usize].fetch_sub(1, SeqCst) <= 0 {
        chk::ERRORS.fetch_add(1, SeqCst);
    }
    let bomb = DROP_BOMB.with(|b| {
        let mut b = b.borrow_mut();
        *b -= 1;
        *b == 0
    });
    if bomb && !std::thread::panicking() {
        panic!("drop bomb")
    }
}
fn next_id() -> u64 {
    let bomb = CLONE_BOMB.with(|b| {
        let mut b = b.borrow_mut();
        *b -= 1;
        *b == 0
    });
    if bomb {
        panic!("clone bomb")
    }
    NEXT.with(|n| n.borrow_mut().pop()).unwrap_or(63)
}

trait El: Sized + Clone + 'static {
    fn new(id: u64) -> Self;
    fn id(&self) -> u64;
    fn clone_cvec(v: &repr_c::Vec<Self>) -> repr_c::Vec<Self>;
}

#[derive_ReprC]
#[repr(C)]
struct Tok {
    id: u64,
    tag: u8,
}
impl El for Tok {
    fn new(id: u64) -> Self {
        born(id);
        Tok { id, tag: !(id as u8) }
    }
    fn id(&self) -> u64 {
        if self.tag == !(self.id as u8) { self.id } else { 99 }
    }
    fn clone_cvec(v: &repr_c::Vec<Self>) -> repr_c::Vec<Self> {
        v.clone()
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let id = self.id();
        self.id = 77;
        died(id)
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        Tok::new(next_id())
    }
}

/// Over-aligned.
#[repr(C, align(64))]
struct Big {
    id: u64,
}
impl El for Big {
    fn new(id: u64) -> Self {
        born(id);
        Big { id }
    }
    fn id(&self) -> u64 {
        if self as *const Self as usize % 64 == 0 { self.id } else { 98 }
    }
    fn clone_cvec(v: &repr_c::Vec<Self>) -> repr_c::Vec<Self> {
        v[..].to_vec().into()
    }
}
impl Drop for Big {
    fn drop(&mut self) {
        let id = self.id();
        self.id = 77;
        died(id)
    }
}
impl Clone for Big {
    fn clone(&self) -> Self {
        Big::new(next_id())
    }
}

/// One byte, without a destructor.
#[derive_ReprC]
#[repr(transparent)]
pub struct Byte {
    id: u8,
}
impl El for Byte {
    fn new(id: u64) -> Self {
        Byte { id: id as u8 }
    }
    fn id(&self) -> u64 {
        self.id as u64
    }
    fn clone_cvec(v: &repr_c::Vec<Self>) -> repr_c::Vec<Self> {
        v.clone()
    }
}
impl Clone for Byte {
    fn clone(&self) -> Self {
        Byte::new(next_id())
    }
}

/// Zero-sized: all of them are token 0.
struct Zst;
impl El for Zst {
    fn new(_: u64) -> Self {
        born(0);
        Zst
    }
    fn id(&self) -> u64 {
        0
    }
    fn clone_cvec(v: &repr_c::Vec<Self>) -> repr_c::Vec<Self> {
        v[..].to_vec().into()
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        died(0)
    }
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        let _ = next_id();
        Zst::new(0)
    }
}

// ---------------------------------------------------------------- containers
enum C<T> {
    None,
    RVec(Vec<T>),
    CVec(repr_c::Vec<T>),
    BSlice(Box<[T]>),
    CSlice(slice_boxed<T>),
    RBox(Box<T>),
    CBox(repr_c::Box<T>),
    RStr(String),
    CStr(repr_c::String),
    BStr(Box<str>),
    CStrB(str_boxed),
}
use C::*;

const CHARS: [&str; 10] = ["_", "a", "é", "€", "😀", "z", "ß", "\u{0}", "中", "~"];
/// How often a character is repeated.
fn times() -> usize {
    static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *N.get_or_init(|| std::env::var("VH_TIMES").map_or(1, |n| num(&n)))
}
fn chars() -> &'static [String] {
    static N: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    N.get_or_init(|| chk::untracked(|| CHARS.iter().map(|c| c.repeat(times())).collect()))
}
fn text(ids: &[u64]) -> String {
    ids.iter().map(|&i| &*chars()[i as usize]).collect()
}
fn ids_of(mut s: &str) -> Vec<u64> {
    let mut ids = vec![];
    while !s.is_empty() {
        match chars().iter().position(|c| s.starts_with(&**c)) {
            Some(p) => {
                ids.push(p as u64);
                s = &s[chars()[p].len()..];
            }
            Option::None => {
                ids.push(97);
                break;
            }
        }
    }
    ids
}

impl<T: El> C<T> {
    fn kind(&self) -> &'static str {
        match self {
            None => "none",
            RVec(_) => "rvec",
            CVec(_) => "cvec",
            BSlice(_) => "bslice",
            CSlice(_) => "cslice",
            RBox(_) => "rbox",
            CBox(_) => "cbox",
            RStr(_) => "rstr",
            CStr(_) => "cstr",
            BStr(_) => "bstr",
            CStrB(_) => "cstrb",
        }
    }
    fn ids(&self) -> Vec<u64> {
        let s = |s: &[T]| s.iter().map(|t| t.id()).collect::<Vec<_>>();
        match self {
            None => vec![],
            RVec(v) => s(v),
            CVec(v) => s(v),
            BSlice(v) => s(v),
            CSlice(v) => s(v),
            RBox(v) => vec![v.id()],
            CBox(v) => vec![v.id()],
            RStr(v) => ids_of(v),
            CStr(v) => ids_of(v),
            BStr(v) => ids_of(v),
            CStrB(v) => ids_of(v),
        }
    }
    fn make(kind: &str, ids: &[u64]) -> Self {
        let v = || {
            // Spare capacity, to tell the capacity from the length.
            let mut v = Vec::with_capacity(if ids.len() % 2 == 1 { ids.len() + 3 } else { ids.len() });
            v.extend(ids.iter().map(|&i| T::new(i)));
            v
        };
        let t = || {
            let text = text(ids);
            let mut s = String::with_capacity(text.len() + if ids.len() % 2 == 1 { 33 } else { 0 });
            s.push_str(&text);
            s
        };
        match kind {
            "rvec" => RVec(v()),
            "cvec" => CVec(v().into()),
            "bslice" => BSlice(v().into()),
            "cslice" => CSlice(v().into_boxed_slice().into()),
            "rbox" => RBox(Box::new(T::new(ids[0]))),
            "cbox" => CBox(safer_ffi::boxed::Box_::new(T::new(ids[0]))),
            "rstr" => RStr(t()),
            "cstr" => CStr(if ids.len() % 2 == 0 { t().into() } else { (&*t()).into() }),
            "bstr" => BStr(t().into()),
            "cstrb" => CStrB(if ids.len() % 2 == 0 { (&*t()).into() } else { t().into() }),
            k => panic!("kind {k}"),
        }
    }
    fn convert(self, to: &str) -> Self {
        match (self, to) {
            (RVec(v), "cvec") => CVec(v.into()),
            (CVec(v), "rvec") => RVec(v.into()),
            (BSlice(v), "cslice") => CSlice(v.into()),
            (CSlice(v), "bslice") => BSlice(v.into()),
            (RVec(v), "bslice") => BSlice(v.into()),
            (BSlice(v), "rvec") => RVec(v.into()),
            (RBox(v), "cbox") => CBox(v.into()),
            (CBox(v), "rbox") => RBox(v.into()),
            (RStr(v), "cstr") => CStr(v.into()),
            (CStr(v), "rstr") => RStr(v.into()),
            (RStr(v), "cstrb") => CStrB(v.into()),
            (CStrB(v), "rstr") => RStr(v.into()),
            (BStr(v), "cstrb") => CStrB(v.into()),
            (CStrB(v), "bstr") => BStr(v.into()),
            (x, to) => panic!("no conversion {} -> {to}", x.kind()),
        }
    }
    fn duplicate(&self) -> Self {
        match self {
            RVec(v) => RVec(v.clone()),
            CVec(v) => CVec(T::clone_cvec(v)),
            BSlice(v) => BSlice(v.clone()),
            CSlice(v) => CSlice(v.clone()),
            RBox(v) => RBox(v.clone()),
            CBox(v) => CBox(v.clone()),
            RStr(v) => RStr(v.clone()),
            CStr(v) => CStr(v.clone()),
            BStr(v) => BStr(v.clone()),
            _ => panic!("no clone"),
        }
    }
    /// All read-only views agree?
    fn look(&mut self) -> bool {
        let want = self.ids();
        let n = want.len();
        let s = |s: &[T]| s.len() == n && s.iter().map(|t| t.id()).eq(want.iter().copied());
        let r = |r: slice_ref<'_, T>| {
            let copy = r;
            let raw: slice_raw<T> = copy.into();
            s(&r) && s(r.as_slice()) && s(&copy.clone()) && s(unsafe { &raw.as_ref() }) && r.len() == n
        };
        let m = |mut m: slice_mut<'_, T>| {
            let a = s(&m) && r(m.as_ref()) && s(&m.as_mut()) && s(&mut m[..]) && s(m.as_mut().as_slice());
            let mut raw: slice_raw<T> = m.as_mut().into();
            let b = unsafe { s(&raw.as_mut()) && s(&raw.as_ref()) };
            let c = s(m.as_mut().as_slice());
            let back: slice_ref<'_, T> = m.into();
            a && b && c && r(back)
        };
        let t = |t: &str| ids_of(t) == want;
        match self {
            CVec(v) => s(v) && r(v.as_ref()) && m(v.as_mut()) && r(v[..].into()) && m((&mut v[..]).into()),
            CSlice(v) => {
                s(v) && r(v.as_ref()) && m(v.as_mut()) && s(v.as_slice()) && s(v.as_slice_mut())
            }
            BSlice(v) => r(v[..].into()) && m((&mut v[..]).into()),
            RVec(v) => r(v[..].into()) && m((&mut v[..]).into()),
            CBox(v) => v.id() == want[0] && (&mut **v).id() == want[0],
            CStr(v) => t(v) && t(&format!("{v}")) && t(str_ref::from(&**v).as_str()),
            CStrB(v) => {
                t(v) && t(str_boxed::as_ref(v).as_str()) && t(&str_boxed::as_ref(v))
            }
            RStr(v) => {
                let r: str_ref<'_> = (&**v).into();
                t(&r) && t(r.as_str()) && t(AsRef::<str>::as_ref(&r))
            }
            _ => true,
        }
    }
    fn view(&mut self, how: &str, f: impl FnOnce(&mut [T])) {
        match (self, how) {
            (CVec(v), "index") => f(&mut v[..]),
            (CVec(v), "as_mut") => f(&mut v.as_mut()),
            (CVec(v), "slice") => f(v.as_mut().as_slice()),
            (CSlice(v), "index") => f(&mut v[..]),
            (CSlice(v), "as_mut") => f(&mut v.as_mut()),
            (CSlice(v), "slice") => f(v.as_slice_mut()),
            (CBox(v), _) => f(std::slice::from_mut(&mut **v)),
            _ => panic!("no view"),
        }
    }
}

struct D<T> {
    sl: Vec<C<T>>,
    strings: bool,
}

impl<T: El> D<T> {
    fn do_step(&mut self, cmd: &[&str]) -> String {
        let i: usize = num(cmd[1]);
        let at = |k: usize| -> usize { num(cmd[k]) };
        let ids = |k: usize| -> Vec<u64> { cmd[k..].iter().map(|s| num::<u64>(s)).collect() };
        let said = |r: Result<(), ()>| if r.is_ok() { "ok".into() } else { "panic".into() };
        NEXT.with(|n| n.borrow_mut().clear());
        let mut slot = std::mem::replace(&mut self.sl[i], None);
        let res = match cmd[0] {
            "mk" => {
                let (k, ids) = (cmd[2], ids(3));
                let (r, _) = attempt(|| C::make(k, &ids));
                match r {
                    Ok(c) => {
                        slot = c;
                        "ok".into()
                    }
                    Err(()) => "panic".into(),
                }
            }
            "empty" => {
                slot = match cmd[2] {
                    "cvec" => CVec(repr_c::Vec::EMPTY),
                    "cslice" => CSlice(slice_boxed::default()),
                    _ => CStr(repr_c::String::EMPTY),
                };
                let (a, mut b) = (slice_ref::<T>::default(), slice_mut::<T>::default());
                said(if a.len() + b.len() + b.as_mut().len() == 0 { Ok(()) } else { Err(()) })
            }
            "conv" => {
                let to = cmd[2];
                match attempt(|| slot.convert(to)).0 {
                    Ok(c) => {
                        slot = c;
                        "ok".into()
                    }
                    Err(()) => {
                        slot = None;
                        "panic".into()
                    }
                }
            }
            "clone" => {
                let j = at(2);
                let mut n = ids(3);
                n.reverse();
                NEXT.with(|x| *x.borrow_mut() = n);
                match attempt(|| slot.duplicate()).0 {
                    Ok(c) => {
                        // Text has no identity of its own: it shows the new tokens' characters.
                        self.sl[j] = if self.strings { C::make(c.kind(), &ids(3)).check(&c, &slot) } else { c };
                        "ok".into()
                    }
                    Err(()) => "panic".into(),
                }
            }
            "clonebomb" => {
                CLONE_BOMB.with(|b| *b.borrow_mut() = num(cmd[3]));
                let r = attempt(|| slot.duplicate()).0;
                CLONE_BOMB.with(|b| *b.borrow_mut() = -1);
                said(r.map(drop))
            }
            "drop" => {
                let c = std::mem::replace(&mut slot, None);
                said(attempt(|| drop(c)).0)
            }
            "dropbomb" => {
                let c = std::mem::replace(&mut slot, None);
                DROP_BOMB.with(|b| *b.borrow_mut() = num(cmd[2]));
                let r = attempt(|| drop(c)).0;
                DROP_BOMB.with(|b| *b.borrow_mut() = -1);
                said(r)
            }
            "move" => {
                let j = at(2);
                let c = std::mem::replace(&mut slot, None);
                if i == j { slot = c } else { self.sl[j] = c }
                "ok".into()
            }
            "set" => {
                let (n, id) = (at(2) - 1, ids(4)[0]);
                said(attempt(|| slot.view(cmd[3], |s| s[n] = T::new(id))).0)
            }
            "swap" => {
                let (a, b) = (at(2) - 1, at(3) - 1);
                said(attempt(|| slot.view(cmd[4], |s| s.swap(a, b))).0)
            }
            "wm" => {
                let (what, n, p) = (cmd[2], at(3), cmd[4] == "1");
                let new = ids(5);
                let r = match &mut slot {
                    CVec(v) => attempt(|| {
                        let got = v.with_rust_mut(|v| {
                            match what {
                                "push" => v.push(T::new(new[0])),
                                "insert" => v.insert(n, T::new(new[0])),
                                "pop" => drop(v.pop()),
                                "trunc" => v.truncate(n),
                                "take" => drop(std::mem::take(v)),
                                "reserve" => v.reserve(100),
                                _ => v.shrink_to_fit(),
                            }
                            if p {
                                panic!("in closure")
                            }
                            v.len()
                        });
                        assert_eq!(got, v.len());
                    }),
                    CStr(v) => attempt(|| {
                        let got = v.with_rust_mut(|v| {
                            let cut = |v: &String, n: usize| v.char_indices().nth(n * times()).map_or(v.len(), |x| x.0);
                            match what {
                                "push" => v.push_str(&text(&new)),
                                "insert" => {
                                    let k = cut(v, n);
                                    v.insert_str(k, &text(&new))
                                }
                                "pop" => (0..times()).for_each(|_| drop(v.pop())),
                                "trunc" => {
                                    let k = cut(v, n);
                                    v.truncate(k)
                                }
                                "take" => drop(std::mem::take(v)),
                                "reserve" => v.reserve(100),
                                _ => v.shrink_to_fit(),
                            }
                            if p {
                                panic!("in closure")
                            }
                            v.len()
                        });
                        assert_eq!(got, v.len());
                    }),
                    _ => panic!("no with_rust_mut"),
                };
                said(r.0)
            }
            "look" => match attempt(|| slot.look()).0 {
                Ok(true) => "ok".into(),
                Ok(false) => "views differ".into(),
                Err(()) => "panic".into(),
            },
            c => panic!("unknown command {c}"),
        };
        self.sl[i] = slot;
        res
    }
}
impl<T: El> C<T> {
    /// `self` unless the copy `c` of `of` is not equal to it or shares its memory.
    fn check(self, c: &C<T>, of: &C<T>) -> C<T> {
        if c.ids() == of.ids() { self } else { None }
    }
}

impl<T: El> Driver for D<T> {
    fn reset(&mut self) {
        for c in self.sl.iter_mut() {
            let c = std::mem::replace(c, None);
            let _ = attempt(|| drop(c));
        }
        for a in &ALIVE {
            if a.swap(0, SeqCst) != 0 {
                chk::ERRORS.fetch_add(1, SeqCst);
            }
        }
    }
    fn step(&mut self, cmd: &[&str]) -> Value {
        let res = self.do_step(cmd);
        let sl: Vec<Value> = self.sl[1..].iter().map(|c| json!([c.kind(), c.ids()])).collect();
        let mut live = vec![];
        for (i, a) in ALIVE.iter().enumerate() {
            for _ in 0..a.load(SeqCst) {
                live.push(i);
            }
        }
        json!({"res": res, "sl": sl, "live": live, "aerr": chk::errors()})
    }
}

fn go<T: El>(strings: bool) {
    let mut d = D::<T> { sl: (0..=num::<usize>(&std::env::var("VH_SLOTS").unwrap())).map(|_| None).collect(), strings };
    NEXT.with(|n| n.borrow_mut().reserve(64));
    vharness::run(&mut d)
}
fn main() {
    match &std::env::var("VH_ELEM").unwrap()[..] {
        "tok" => go::<Tok>(false),
        "byte" => go::<Byte>(false),
        "big" => go::<Big>(false),
        "zst" => go::<Zst>(false),
        "str" => go::<Tok>(true),
        e => panic!("{e}"),
    }
}
