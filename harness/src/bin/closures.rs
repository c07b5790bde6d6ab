//! Driver for the specification Closures.tla. VH_ARITY: 0..9, VH_SIG: same | mix.
use safer_ffi::closure::*;
use safer_ffi::prelude::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::os::raw::c_void;
use std::ptr::NonNull;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Arc;
use vharness::{attempt, chk, num, Driver};

static ALIVE: [AtomicI64; 16] = {
    const Z: AtomicI64 = AtomicI64::new(0);
    [Z; 16]
};
thread_local! {
    static LOG: RefCell<Vec<u64>> = RefCell::new(Vec::with_capacity(4096));
    static RET: RefCell<u64> = RefCell::new(0);
}

/// What a closure captures.
struct Env {
    id: u64,
    calls: AtomicU64,
    tail: u64,
}
impl Env {
    fn new(id: u64) -> Self {
        ALIVE[id as usize].fetch_add(1, SeqCst);
        Env { id, calls: AtomicU64::new(0), tail: id ^ 0x5555 }
    }
    fn hit(&self, args: &[u64]) -> u64 {
        let n = self.calls.fetch_add(1, SeqCst) + 1;
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            l.push(if self.tail == self.id ^ 0x5555 { self.id } else { 999 });
            l.push(n);
            l.extend_from_slice(args);
        });
        RET.with(|r| *r.borrow())
    }
}
impl Drop for Env {
    fn drop(&mut self) {
        if self.tail != self.id ^ 0x5555 || ALIVE[self.id as usize].fetch_sub(1, SeqCst) <= 0 {
            chk::ERRORS.fetch_add(1, SeqCst);
        }
        self.tail = 1;
    }
}

/// What may be captured: whatever its size, its alignment, and whether or not it has a destructor.
trait EnvT: Sized + Send + Sync + 'static {
    /// State by mutation, not through an atomic.
    type Count: Copy + Send + 'static;
    const ZERO: Self::Count;
    fn make(id: u64) -> Self;
    fn bump(&self, count: &mut Self::Count);
    fn hit(&self, args: &[u64]) -> u64;
}
impl EnvT for Env {
    type Count = u64;
    const ZERO: u64 = 0;
    fn make(id: u64) -> Self {
        Env::new(id)
    }
    fn bump(&self, count: &mut u64) {
        *count += 1;
        assert_eq!(*count, self.calls.load(SeqCst) + 1);
    }
    fn hit(&self, args: &[u64]) -> u64 {
        Env::hit(self, args)
    }
}
fn log(id: u64, n: u64, args: &[u64]) -> u64 {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.push(id);
        l.push(n);
        l.extend_from_slice(args);
    });
    RET.with(|r| *r.borrow())
}

/// Nothing at all, but with a destructor.
struct Zst<const ID: u64>;
static CALLS: [AtomicU64; 16] = {
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; 16]
};
impl<const ID: u64> EnvT for Zst<ID> {
    type Count = ();
    const ZERO: () = ();
    fn make(_: u64) -> Self {
        ALIVE[ID as usize].fetch_add(1, SeqCst);
        CALLS[ID as usize].store(0, SeqCst);
        Zst
    }
    fn bump(&self, _: &mut ()) {}
    fn hit(&self, args: &[u64]) -> u64 {
        log(ID, CALLS[ID as usize].fetch_add(1, SeqCst) + 1, args)
    }
}
impl<const ID: u64> Drop for Zst<ID> {
    fn drop(&mut self) {
        if ALIVE[ID as usize].fetch_sub(1, SeqCst) <= 0 {
            chk::ERRORS.fetch_add(1, SeqCst);
        }
    }
}

/// Aligned more than anything else.
#[repr(align(128))]
struct Wide(Env);
impl EnvT for Wide {
    type Count = u64;
    const ZERO: u64 = 0;
    fn make(id: u64) -> Self {
        Wide(Env::new(id))
    }
    fn bump(&self, count: &mut u64) {
        assert_eq!(self as *const _ as usize % 128, 0);
        self.0.bump(count)
    }
    fn hit(&self, args: &[u64]) -> u64 {
        self.0.hit(args)
    }
}

/// Data without a destructor; it lives as long as its memory is not given back.
#[derive(Clone, Copy)]
struct Plain {
    id: u64,
    pad: [u64; 512],
}
static BLOCKS: [AtomicUsize; 16] = {
    const Z: AtomicUsize = AtomicUsize::new(0);
    [Z; 16]
};
impl EnvT for Plain {
    type Count = u64;
    const ZERO: u64 = 0;
    fn make(id: u64) -> Self {
        CALLS[id as usize].store(0, SeqCst);
        Plain { id, pad: [id; 512] }
    }
    fn bump(&self, count: &mut u64) {
        *count += 1;
        assert_eq!(*count, CALLS[self.id as usize].load(SeqCst) + 1);
        assert!(self.pad.iter().all(|x| *x == self.id));
    }
    fn hit(&self, args: &[u64]) -> u64 {
        log(self.id, CALLS[self.id as usize].fetch_add(1, SeqCst) + 1, args)
    }
}

/// Arguments and results of several shapes, as numbers.
trait Arg: ReprC + Send + 'static {
    fn of(n: u64) -> Self;
    fn n(self) -> u64;
}
macro_rules! arg {($($t:ty),*) => ($(
    impl Arg for $t { fn of(n: u64) -> Self { n as $t } fn n(self) -> u64 { self as u64 } }
)*)}
arg!(u8, i16, u32, u64, i64, f32, f64, usize);
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Small {
    a: u8,
    b: u32,
}
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Large {
    a: u64,
    b: f64,
    c: u64,
    d: u8,
}
impl Arg for Small {
    fn of(n: u64) -> Self {
        Small { a: n as u8, b: n as u32 }
    }
    fn n(self) -> u64 {
        if self.a as u32 == self.b { self.b as u64 } else { 888 }
    }
}
impl Arg for Large {
    fn of(n: u64) -> Self {
        Large { a: n, b: n as f64, c: n, d: n as u8 }
    }
    fn n(self) -> u64 {
        if self.a as f64 == self.b && self.c == self.a && self.d as u64 == self.a { self.a } else { 888 }
    }
}

trait Handle: Send {
    fn kind(&self) -> &'static str;
    fn call(&mut self, via: &str, args: &[u64]) -> u64;
    fn dup(&self, _via: &str) -> Box<dyn Handle> {
        panic!("no clone")
    }
    fn strong(&self) -> usize {
        0
    }
    fn discard(self: Box<Self>, via: &str);
    /// Conversions; they give the new handle.
    fn wrap(self: Box<Self>, _how: &str) -> Box<dyn Handle> {
        panic!("no wrap")
    }
    fn borrow(&mut self) -> Box<dyn Handle> {
        panic!("no borrow")
    }
    fn give(self: Box<Self>) -> Box<dyn Handle> {
        panic!("no give")
    }
    fn storm(&self) {
        panic!("no storm")
    }
}

/// A handle made by C: its environment, with a count.
struct CEnv {
    env: Option<Env>,
    refs: AtomicI64,
}
unsafe extern "C" fn c_retain(e: NonNull<c_void>) {
    if e.cast::<CEnv>().as_ref().refs.fetch_add(1, SeqCst) <= 0 {
        chk::ERRORS.fetch_add(1, SeqCst);
    }
}
unsafe extern "C" fn c_release(e: NonNull<c_void>) {
    let c = &mut *e.cast::<CEnv>().as_ptr();
    match c.refs.fetch_sub(1, SeqCst) {
        1 => drop(c.env.take()), // the memory itself is kept, so that a late use shows
        n if n < 1 => drop(chk::ERRORS.fetch_add(1, SeqCst)),
        _ => {}
    }
}
fn c_env(id: u64) -> NonNull<c_void> {
    chk::untracked(|| NonNull::from(Box::leak(Box::new(CEnv { env: Some(Env::new(id)), refs: AtomicI64::new(1) }))).cast())
}

/// What a C caller sees: the fields by their position in the C struct.
#[repr(C)]
struct Raw<F> {
    env: NonNull<c_void>,
    call: F,
    free: unsafe extern "C" fn(NonNull<c_void>),
    retain: unsafe extern "C" fn(NonNull<c_void>),
}

macro_rules! arity {($m:ident, $sig:ident, $Box:ident, $Arc:ident, $Ref:ident, $R:ty; $($x:ident : $T:ty),*) => (
    mod $m {
        use super::*;
        type Call = unsafe extern "C" fn(NonNull<c_void> $(, $T)*) -> $R;
        type B = $Box<$R $(, $T)*>;
        type A = $Arc<$R $(, $T)*>;
        type Rf = $Ref<'static, $R $(, $T)*>;
        // The closure types have to be named to be kept by value.
        trait Fm: FnMut($($T),*) -> $R + Send + 'static {}
        impl<F: FnMut($($T),*) -> $R + Send + 'static> Fm for F {}
        trait Fs: Fn($($T),*) -> $R + Send + Sync + 'static {}
        impl<F: Fn($($T),*) -> $R + Send + Sync + 'static> Fs for F {}

        fn closure<E: EnvT>(id: u64) -> impl Fm {
            let env = E::make(id);
            let mut count = E::ZERO;
            move |$($x: $T),*| {
                env.bump(&mut count);
                <$R as Arg>::of(env.hit(&[$(Arg::n($x)),*]))
            }
        }
        fn shared<E: EnvT>(id: u64) -> impl Fs {
            let env = E::make(id);
            move |$($x: $T),*| <$R as Arg>::of(env.hit(&[$(Arg::n($x)),*]))
        }
        /// Evaluation order of the arguments is left to right.
        fn go(args: &[u64], f: impl FnOnce($($T),*) -> $R) -> u64 {
            let mut k = 0;
            let mut next = || { k += 1; args[k - 1] };
            let _ = &mut next;
            Arg::n(f($(<$T as Arg>::of(next())),*))
        }
        unsafe extern "C" fn c_call(e: NonNull<c_void> $(, $x: $T)*) -> $R {
            match &e.cast::<CEnv>().as_ref().env {
                Some(env) => <$R as Arg>::of(env.hit(&[$(Arg::n($x)),*])),
                None => <$R as Arg>::of(7),
            }
        }

        struct HBox(B, bool);
        impl Handle for HBox {
            fn kind(&self) -> &'static str { if self.1 { "cbox" } else { "box" } }
            fn call(&mut self, via: &str, a: &[u64]) -> u64 {
                if via == "c" {
                    let r = unsafe { &*(&self.0 as *const B).cast::<Raw<Call>>() };
                    go(a, |$($x),*| unsafe { (r.call)(r.env $(, $x)*) })
                } else {
                    go(a, |$($x),*| self.0.call($($x),*))
                }
            }
            fn discard(self: Box<Self>, via: &str) {
                if via == "c" {
                    let b = std::mem::ManuallyDrop::new(self.0);
                    let r = unsafe { &*(&b as *const _ as *const Raw<Call>) };
                    unsafe { (r.free)(r.env) }
                } else {
                    drop(self.0)
                }
            }
        }
        struct HArc(A, &'static str);
        impl Handle for HArc {
            fn kind(&self) -> &'static str { self.1 }
            fn call(&mut self, via: &str, a: &[u64]) -> u64 {
                if via == "c" {
                    let r = unsafe { &*(&self.0 as *const A).cast::<Raw<Call>>() };
                    go(a, |$($x),*| unsafe { (r.call)(r.env $(, $x)*) })
                } else {
                    go(a, |$($x),*| self.0.call($($x),*))
                }
            }
            fn dup(&self, via: &str) -> Box<dyn Handle> {
                let a = if via == "c" {
                    let r = unsafe { &*(&self.0 as *const A).cast::<Raw<Call>>() };
                    unsafe { (r.retain)(r.env); std::ptr::read(&self.0) }
                } else {
                    self.0.clone()
                };
                Box::new(HArc(a, self.1))
            }
            fn discard(self: Box<Self>, via: &str) {
                if via == "c" {
                    let b = std::mem::ManuallyDrop::new(self.0);
                    let r = unsafe { &*(&b as *const _ as *const Raw<Call>) };
                    unsafe { (r.free)(r.env) }
                } else {
                    drop(self.0)
                }
            }
            fn storm(&self) {
                let h = &self.0;
                std::thread::scope(|s| {
                    for _ in 0..3 {
                        s.spawn(move || {
                            for _ in 0..20 {
                                let a = h.clone();
                                let b = a.clone();
                                drop(a);
                                drop(b.clone());
                            }
                        });
                    }
                });
            }
        }
        struct HRarc<F>(Arc<F>);
        impl<F: Fs> Handle for HRarc<F> {
            fn kind(&self) -> &'static str { "rarc" }
            fn call(&mut self, _: &str, a: &[u64]) -> u64 {
                go(a, |$($x),*| (self.0)($($x),*))
            }
            fn dup(&self, _: &str) -> Box<dyn Handle> { Box::new(HRarc(self.0.clone())) }
            fn strong(&self) -> usize { Arc::strong_count(&self.0) }
            fn discard(self: Box<Self>, _: &str) { drop(self.0) }
            fn wrap(self: Box<Self>, how: &str) -> Box<dyn Handle> {
                Box::new(HArc(if how == "new" { A::new(self.0) } else { self.0.into() }, "arc"))
            }
        }
        struct HRef(Rf);
        impl Handle for HRef {
            fn kind(&self) -> &'static str { "ref" }
            fn call(&mut self, via: &str, a: &[u64]) -> u64 {
                if via == "c" {
                    #[repr(C)] struct R2 { env: NonNull<c_void>, call: Call }
                    let r = unsafe { &*(&self.0 as *const Rf).cast::<R2>() };
                    go(a, |$($x),*| unsafe { (r.call)(r.env $(, $x)*) })
                } else {
                    go(a, |$($x),*| self.0.call($($x),*))
                }
            }
            fn discard(self: Box<Self>, _: &str) { drop(self.0) }
        }
        struct HOwn<F>(Box<F>);
        impl<F: Fm> Handle for HOwn<F> {
            fn kind(&self) -> &'static str { "own" }
            fn call(&mut self, _: &str, a: &[u64]) -> u64 {
                go(a, |$($x),*| (self.0)($($x),*))
            }
            fn discard(self: Box<Self>, _: &str) { drop(self.0) }
            fn borrow(&mut self) -> Box<dyn Handle> {
                let f: &'static mut F = unsafe { &mut *(&mut *self.0 as *mut F) };
                Box::new(HRef(Rf::new(f)))
            }
            fn give(self: Box<Self>) -> Box<dyn Handle> { Box::new(HBox(B::new(self.0), false)) }
        }
        /// Borrowing by `From` asks for an `Fn`.
        struct HOwnFn<F>(Box<F>);
        impl<F: Fs> Handle for HOwnFn<F> {
            fn kind(&self) -> &'static str { "own" }
            fn call(&mut self, _: &str, a: &[u64]) -> u64 {
                go(a, |$($x),*| (self.0)($($x),*))
            }
            fn discard(self: Box<Self>, _: &str) { drop(self.0) }
            fn borrow(&mut self) -> Box<dyn Handle> {
                let f: &'static mut F = unsafe { &mut *(&mut *self.0 as *mut F) };
                Box::new(HRef(f.into()))
            }
            fn give(self: Box<Self>) -> Box<dyn Handle> { Box::new(HBox(self.0.into(), false)) }
        }
        pub fn make(kind: &str, id: u64, how: &str, shape: &str) -> Box<dyn Handle> {
            match (shape, id) {
                ("zst", 1) => make_with::<Zst<1>>(kind, id, how),
                ("zst", 2) => make_with::<Zst<2>>(kind, id, how),
                ("wide", _) => make_with::<Wide>(kind, id, how),
                ("plain", _) => make_with::<Plain>(kind, id, how),
                _ => make_with::<Env>(kind, id, how),
            }
        }
        fn make_with<E: EnvT>(kind: &str, id: u64, how: &str) -> Box<dyn Handle> {
            let raw = |b| unsafe {
                #[repr(C)] struct R3 { env: NonNull<c_void>, call: Call, free: unsafe extern "C" fn(NonNull<c_void>) }
                let _: bool = b;
                R3 { env: c_env(id), call: c_call, free: c_release }
            };
            match (kind, how) {
                ("box", "new") => Box::new(HBox(B::new(Box::new(closure::<E>(id))), false)),
                ("box", _) => Box::new(HBox(repr_c::Box::<dyn Send + FnMut($($T),*) -> $R>::from(Box::new(closure::<E>(id))), false)),
                ("arc", "new") => Box::new(HArc(A::new(Arc::new(shared::<E>(id))), "arc")),
                ("arc", _) => Box::new(HArc(repr_c::Arc::<dyn Send + Sync + Fn($($T),*) -> $R>::from(Arc::new(shared::<E>(id))), "arc")),
                ("rarc", _) => Box::new(HRarc(Arc::new(shared::<E>(id)))),
                ("own", _) if id % 2 == 0 => Box::new(HOwn(Box::new(closure::<E>(id)))),
                ("own", _) => Box::new(HOwnFn(Box::new(shared::<E>(id)))),
                ("cbox", _) => Box::new(HBox(unsafe { std::mem::transmute(raw(true)) }, true)),
                ("carc", _) => {
                    let r = raw(true);
                    let r: Raw<Call> = Raw { env: r.env, call: r.call, free: r.free, retain: c_retain };
                    Box::new(HArc(unsafe { std::mem::transmute(r) }, "carc"))
                }
                ("carcn", _) => {
                    let r = raw(true);
                    #[repr(C)] struct R4 { env: NonNull<c_void>, call: Call, free: unsafe extern "C" fn(NonNull<c_void>), retain: usize }
                    let r = R4 { env: r.env, call: r.call, free: r.free, retain: 0 };
                    Box::new(HArc(unsafe { std::mem::transmute(r) }, "carcn"))
                }
                k => panic!("{k:?}"),
            }
        }
    }
)}

type U = u64;
arity!(s0, same, BoxDynFnMut0, ArcDynFn0, RefDynFnMut0, U;);
arity!(s1, same, BoxDynFnMut1, ArcDynFn1, RefDynFnMut1, U; a: U);
arity!(s2, same, BoxDynFnMut2, ArcDynFn2, RefDynFnMut2, U; a: U, b: U);
arity!(s3, same, BoxDynFnMut3, ArcDynFn3, RefDynFnMut3, U; a: U, b: U, c: U);
arity!(s4, same, BoxDynFnMut4, ArcDynFn4, RefDynFnMut4, U; a: U, b: U, c: U, d: U);
arity!(s5, same, BoxDynFnMut5, ArcDynFn5, RefDynFnMut5, U; a: U, b: U, c: U, d: U, e: U);
arity!(s6, same, BoxDynFnMut6, ArcDynFn6, RefDynFnMut6, U; a: U, b: U, c: U, d: U, e: U, f: U);
arity!(s7, same, BoxDynFnMut7, ArcDynFn7, RefDynFnMut7, U; a: U, b: U, c: U, d: U, e: U, f: U, g: U);
arity!(s8, same, BoxDynFnMut8, ArcDynFn8, RefDynFnMut8, U; a: U, b: U, c: U, d: U, e: U, f: U, g: U, h: U);
arity!(s9, same, BoxDynFnMut9, ArcDynFn9, RefDynFnMut9, U; a: U, b: U, c: U, d: U, e: U, f: U, g: U, h: U, i: U);
arity!(m0, mix, BoxDynFnMut0, ArcDynFn0, RefDynFnMut0, Large;);
arity!(m1, mix, BoxDynFnMut1, ArcDynFn1, RefDynFnMut1, f32; a: Large);
arity!(m2, mix, BoxDynFnMut2, ArcDynFn2, RefDynFnMut2, Small; a: u8, b: f64);
arity!(m3, mix, BoxDynFnMut3, ArcDynFn3, RefDynFnMut3, Large; a: Small, b: i16, c: f32);
arity!(m4, mix, BoxDynFnMut4, ArcDynFn4, RefDynFnMut4, f64; a: u32, b: Large, c: u8, d: i64);
arity!(m5, mix, BoxDynFnMut5, ArcDynFn5, RefDynFnMut5, i16; a: f32, b: f64, c: Small, d: Small, e: u8);
arity!(m6, mix, BoxDynFnMut6, ArcDynFn6, RefDynFnMut6, u8; a: u8, b: Large, c: f64, d: i16, e: Large, f: usize);
arity!(m7, mix, BoxDynFnMut7, ArcDynFn7, RefDynFnMut7, Large; a: u8, b: i16, c: u32, d: u64, e: f32, f: f64, g: Small);
arity!(m8, mix, BoxDynFnMut8, ArcDynFn8, RefDynFnMut8, Small; a: Small, b: f64, c: u8, d: u64, e: f32, f: i64, g: Large, h: i16);
arity!(m9, mix, BoxDynFnMut9, ArcDynFn9, RefDynFnMut9, Large; a: u8, b: f32, c: Large, d: u64, e: f64, f: i16, g: Small, h: usize, i: u32);

fn make(sig: &str, n: usize, k: &str, id: u64, how: &str, shape: &str) -> Box<dyn Handle> {
    let same: [fn(&str, u64, &str, &str) -> Box<dyn Handle>; 10] =
        [s0::make, s1::make, s2::make, s3::make, s4::make, s5::make, s6::make, s7::make, s8::make, s9::make];
    let mix: [fn(&str, u64, &str, &str) -> Box<dyn Handle>; 10] =
        [m0::make, m1::make, m2::make, m3::make, m4::make, m5::make, m6::make, m7::make, m8::make, m9::make];
    (if sig == "mix" { mix } else { same })[n](k, id, how, shape)
}

struct D {
    sl: Vec<Option<Box<dyn Handle>>>,
    sig: String,
    shape: String,
    arity: usize,
}
/// Runs `f` here or in another thread.
fn on<R: Send>(other: bool, f: impl FnOnce() -> R + Send) -> R {
    if other {
        std::thread::scope(|s| s.spawn(f).join().unwrap())
    } else {
        f()
    }
}
impl D {
    fn act(&mut self, other: bool, cmd: &[&str]) -> Value {
        let i: usize = num(cmd[1]);
        let h = self.sl[i].take();
        let (sig, arity) = (self.sig.clone(), self.arity);
        let at = |k: usize| num::<usize>(cmd[k]);
        let ok = json!(["ok"]);
        let set = |slot: &mut Option<Box<dyn Handle>>, r: Result<Box<dyn Handle>, ()>| match r {
            Ok(h) => {
                *slot = Some(h);
                json!(["ok"])
            }
            Err(()) => json!(["panic"]),
        };
        match cmd[0] {
            "mk" => {
                let id = num(cmd[3]);
                let shape = self.shape.clone();
                let r = on(other, || {
                    attempt(|| {
                        let h = make(&sig, arity, cmd[2], id, cmd[4], &shape);
                        if shape == "plain" && !cmd[2].starts_with('c') {
                            BLOCKS[id as usize].store(chk::take_large() as usize, SeqCst);
                        }
                        h
                    })
                    .0
                });
                set(&mut self.sl[i], r)
            }
            "wrap" => {
                let h = h.unwrap();
                let r = on(other, || attempt(|| h.wrap(cmd[2])).0);
                set(&mut self.sl[i], r)
            }
            "give" => {
                let h = h.unwrap();
                let r = on(other, || attempt(|| h.give()).0);
                set(&mut self.sl[i], r)
            }
            "borrow" => {
                let mut h = h.unwrap();
                let r = attempt(|| h.borrow()).0;
                self.sl[i] = Some(h);
                set(&mut self.sl[at(2)], r)
            }
            "call" => {
                let mut h = h.unwrap();
                let args: Vec<u64> = cmd[4..].iter().map(|a| num(a)).collect();
                let ret: u64 = num(cmd[3]);
                let hm = &mut h;
                let (r, log) = on(other, || {
                    LOG.with(|l| l.borrow_mut().clear());
                    RET.with(|r| *r.borrow_mut() = ret);
                    let r = attempt(|| hm.call(cmd[2], &args)).0;
                    (r, LOG.with(|l| l.borrow().clone()))
                });
                self.sl[i] = Some(h);
                match r {
                    Err(()) => json!(["panic"]),
                    Ok(r) => {
                        let mut v = vec![json!("ok")];
                        v.extend(log.iter().take(2).map(|x| json!(x)));
                        v.push(json!(r));
                        v.extend(log.iter().skip(2).map(|x| json!(x)));
                        json!(v)
                    }
                }
            }
            "storm" => {
                let h = h.unwrap();
                let r = attempt(|| chk::untracked(|| h.storm())).0;
                self.sl[i] = Some(h);
                if r.is_ok() { ok } else { json!(["panic"]) }
            }
            "clone" => {
                let h = h.unwrap();
                let r = attempt(|| h.dup(cmd[3])).0;
                self.sl[i] = Some(h);
                set(&mut self.sl[at(2)], r)
            }
            "drop" => {
                let h = h.unwrap();
                match on(other, || attempt(|| h.discard(cmd[2])).0) {
                    Ok(()) => ok,
                    Err(()) => json!(["panic"]),
                }
            }
            "move" => {
                self.sl[at(2)] = h;
                ok
            }
            c => panic!("{c}"),
        }
    }
}
impl Driver for D {
    fn reset(&mut self) {
        // Borrowed handles first.
        for pass in 0..2 {
            for h in self.sl.iter_mut() {
                if pass == 1 || h.as_ref().map_or(false, |h| h.kind() == "ref") {
                    if let Some(h) = h.take() {
                        let _ = attempt(|| h.discard("rust"));
                    }
                }
            }
        }
        for b in &BLOCKS {
            let p = b.swap(0, SeqCst);
            if p != 0 && unsafe { chk::is_live(p as *const u8) } {
                chk::ERRORS.fetch_add(1, SeqCst);
            }
        }
        for a in &ALIVE {
            if a.swap(0, SeqCst) != 0 {
                chk::ERRORS.fetch_add(1, SeqCst);
            }
        }
    }
    fn step(&mut self, cmd: &[&str]) -> Value {
        let (other, cmd) = if cmd[0] == "t" { (true, &cmd[1..]) } else { (false, cmd) };
        let res = self.act(other, cmd);
        let sl: Vec<_> = self.sl[1..].iter().map(|h| h.as_ref().map_or("none", |h| h.kind())).collect();
        let strong: Vec<_> = self.sl[1..].iter().map(|h| h.as_ref().map_or(0, |h| h.strong())).collect();
        let mut live = vec![];
        for (i, a) in ALIVE.iter().enumerate() {
            let b = BLOCKS[i].load(SeqCst);
            for _ in 0..a.load(SeqCst) + (b != 0 && unsafe { chk::is_live(b as *const u8) }) as i64 {
                live.push(i);
            }
        }
        json!({"res": res, "sl": sl, "live": live, "strong": strong, "aerr": chk::errors()})
    }
}
fn main() {
    let n: usize = num(&std::env::var("VH_SLOTS").unwrap());
    LOG.with(|l| l.borrow_mut().clear());
    vharness::run(&mut D {
        sl: (0..=n).map(|_| None).collect(),
        sig: std::env::var("VH_SIG").unwrap(),
        shape: std::env::var("VH_SHAPE").unwrap(),
        arity: num(&std::env::var("VH_ARITY").unwrap()),
    })
}
