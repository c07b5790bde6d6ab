//! Driver for the specification DynTraits.tla. VH_FAM selects the trait and its `dyn` type.
#![allow(non_snake_case)]
use safer_ffi::dyn_traits::{DynDrop, VirtualPtrFrom};
use safer_ffi::prelude::*;
use serde_json::{json, Value};
use std::cell::Cell;
use std::os::raw::c_void;
use std::pin::Pin;
use std::ptr::NonNull;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Arc;
use vharness::{attempt, chk, num, Driver};

static ALIVE: [AtomicI64; 16] = {
    const Z: AtomicI64 = AtomicI64::new(0);
    [Z; 16]
};
static UNITS: AtomicU64 = AtomicU64::new(0);
thread_local!(static NEXT: Cell<u64> = const { Cell::new(15) });

#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Small {
    a: u8,
    b: u32,
}
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Large {
    a: u64,
    b: u64,
    c: u8,
    d: u32,
    e: f64,
}

/// What the concrete types have in common.
trait Core {
    fn new(id: u64) -> Self;
    fn dup(&self, id: u64) -> Self;
    fn tag(&self) -> u64;
    fn cell(&self) -> &AtomicU64;
    /// State by mutation, not through the atomic, where there is any.
    fn add(&mut self, n: u64) -> u64;
}
fn born(id: u64) {
    ALIVE[id as usize].fetch_add(1, SeqCst);
}
fn died(id: u64) {
    if id >= 16 || ALIVE[id as usize].fetch_sub(1, SeqCst) <= 0 {
        chk::ERRORS.fetch_add(1, SeqCst);
    }
}
macro_rules! object {($T:ident, $tag:expr, {$(#[$a:meta])*} {$($pre:ident: $P:ty = $pe:expr),*} ) => (
    $(#[$a])*
    pub struct $T { $($pre: $P,)* tag: u64, val: AtomicU64, id: u64, _pin: std::marker::PhantomPinned }
    impl Core for $T {
        fn new(id: u64) -> Self {
            born(id);
            $T { $($pre: $pe,)* tag: $tag, val: AtomicU64::new(0), id, _pin: std::marker::PhantomPinned }
        }
        fn dup(&self, id: u64) -> Self {
            let n = Self::new(id);
            n.val.store(self.val.load(SeqCst), SeqCst);
            n
        }
        fn tag(&self) -> u64 {
            $( if self.$pre != $pe { return 777 } )*
            self.tag
        }
        fn cell(&self) -> &AtomicU64 { &self.val }
        fn add(&mut self, n: u64) -> u64 {
            *self.val.get_mut() += n;
            *self.val.get_mut()
        }
    }
    impl Drop for $T { fn drop(&mut self) { let i = self.id; self.id = 99; self.tag = 98; died(i) } }
    impl Clone for $T { fn clone(&self) -> Self { self.dup(NEXT.with(|n| n.get())) } }
)}
object!(A, 1, {} {});
object!(B, 2, {#[repr(align(64))]} {pad: [u8; 70] = [0x5A; 70]});
object!(C, 3, {} {s: String = String::from("a text on the heap")});

/// Nothing at all, but with a destructor.
pub struct Z<const ID: u64>;
static VALS: [AtomicU64; 16] = {
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; 16]
};
impl<const ID: u64> Core for Z<ID> {
    fn new(_: u64) -> Self {
        born(ID);
        VALS[ID as usize].store(0, SeqCst);
        Z
    }
    fn dup(&self, _: u64) -> Self {
        unreachable!("the specification clones no owned object without a size")
    }
    fn tag(&self) -> u64 {
        4
    }
    fn cell(&self) -> &AtomicU64 {
        &VALS[ID as usize]
    }
    fn add(&mut self, n: u64) -> u64 {
        self.cell().fetch_add(n, SeqCst) + n
    }
}
impl<const ID: u64> Drop for Z<ID> {
    fn drop(&mut self) {
        died(ID)
    }
}
impl<const ID: u64> Clone for Z<ID> {
    fn clone(&self) -> Self {
        self.dup(0)
    }
}

/// Data without a destructor; it lives as long as its memory is not given back.
pub struct Plain {
    tag: u64,
    val: AtomicU64,
    pad: [u64; 512],
    _pin: std::marker::PhantomPinned,
}
static BLOCKS: [AtomicUsize; 16] = {
    const Z: AtomicUsize = AtomicUsize::new(0);
    [Z; 16]
};
impl Core for Plain {
    fn new(id: u64) -> Self {
        Plain { tag: 5, val: AtomicU64::new(0), pad: [id; 512], _pin: std::marker::PhantomPinned }
    }
    fn dup(&self, id: u64) -> Self {
        let n = Self::new(id);
        n.val.store(self.val.load(SeqCst), SeqCst);
        n
    }
    fn tag(&self) -> u64 {
        if self.pad.iter().all(|x| *x == self.pad[0]) { self.tag } else { 777 }
    }
    fn cell(&self) -> &AtomicU64 {
        &self.val
    }
    fn add(&mut self, n: u64) -> u64 {
        *self.val.get_mut() += n;
        *self.val.get_mut()
    }
}
impl Clone for Plain {
    fn clone(&self) -> Self {
        self.dup(NEXT.with(|n| n.get()))
    }
}

fn mix<T: Core>(t: &T, a: u8, b: Small, c: f64) -> Large {
    Large { a: t.tag(), b: t.cell().load(SeqCst), c: a, d: if b.a as u32 == b.b { b.b } else { 888 }, e: c }
}
fn bump<T: Core>(t: &T, n: u64) -> u64 {
    t.cell().fetch_add(n, SeqCst) + n
}

// The traits.
macro_rules! self_methods {($T:ident) => (
    fn get(&self) -> u64 { self.tag() * 1000 + self.cell().load(SeqCst) }
    fn mix(&self, a: u8, b: Small, c: f64) -> Large { mix(self, a, b, c) }
    fn bump(&self, n: u8) -> u64 { bump(self, n as u64) }
    fn unit(&self) { UNITS.fetch_add(1, SeqCst); }
)}
#[derive_ReprC(dyn, Clone)]
pub trait Shr {
    fn get(&self) -> u64;
    fn mix(&self, a: u8, b: Small, c: f64) -> Large;
    fn bump(&self, n: u8) -> u64;
    fn unit(&self);
    fn default(&self) -> u64 {
        7
    }
}
#[derive_ReprC(dyn)]
pub trait NoCl {
    fn default(&self) -> u64 {
        7
    }
    fn mix(&self, a: u8, b: Small, c: f64) -> Large;
    fn get(&self) -> u64;
    fn unit(&self);
    fn bump(&self, n: u8) -> u64;
}
#[derive_ReprC(dyn)]
pub trait Mutable {
    fn add(&mut self, n: u64) -> u64;
    fn get(&self) -> u64;
    fn mix(&self, a: u8, b: Small, c: f64) -> Large;
}
#[derive_ReprC(dyn)]
pub trait OnlyMut {
    fn add(&mut self, n: u64) -> u64;
}
#[derive_ReprC(dyn)]
pub trait Pinned {
    fn add(self: Pin<&mut Self>, n: u64) -> u64;
    fn get(&self) -> u64;
}
#[derive_ReprC(dyn, Clone)]
pub trait PinShr {
    fn bump(self: Pin<&Self>, n: u8) -> u64;
    fn get(&self) -> u64;
}
#[derive_ReprC(dyn)]
pub trait Args {
    fn bump(&self, n: &'_ u16, cb: VirtualPtr<dyn '_ + OnlyMut>) -> f64;
    fn get(&self) -> u64;
}

#[derive_ReprC(dyn, Clone)]
pub trait CloneMut {
    fn get(&self) -> u64;
    fn add(&mut self, n: u64) -> u64;
    fn mix(&self, a: u8, b: Small, c: f64) -> Large;
}
/// Its handles may go anywhere, although they do not say so.
#[derive_ReprC(dyn, Clone)]
pub trait Sup: Send + Sync {
    fn unit(&self);
    fn bump(&self, n: u8) -> u64;
    fn mix(&self, a: u8, b: Small, c: f64) -> Large;
    fn default(&self) -> u64 {
        7
    }
    fn get(&self) -> u64;
}
#[derive_ReprC(dyn, Clone)]
pub trait Gen<'g, const N: usize> {
    fn bump(&self, n: &'g u8) -> u64;
    fn get(&self) -> u64;
    fn mix(&self, a: [u8; 2], c: &'_ Small) -> Large;
}

macro_rules! implement {($($T:ident $(($ID:ident))? $($dflt:ident)?,)*) => ($(
    impl$(<const $ID: u64>)? Shr for $T$(<$ID>)? { self_methods!($T); $(fn $dflt(&self) -> u64 { self.tag() })? }
    impl$(<const $ID: u64>)? Sup for $T$(<$ID>)? { self_methods!($T); $(fn $dflt(&self) -> u64 { self.tag() })? }
    impl<'g, const N: usize $(, const $ID: u64)?> Gen<'g, N> for $T$(<$ID>)? {
        fn bump(&self, n: &'g u8) -> u64 { bump(self, *n as u64) }
        fn get(&self) -> u64 { self.tag() * 1000 + self.cell().load(SeqCst) }
        fn mix(&self, a: [u8; 2], c: &'_ Small) -> Large {
            let sum = if a.iter().all(|x| *x == a[0]) { a[0] } else { 200 };
            mix(self, sum, *c, (N as u32 - 1 + c.b) as f64)
        }
    }
    impl$(<const $ID: u64>)? CloneMut for $T$(<$ID>)? {
        fn get(&self) -> u64 { self.tag() * 1000 + self.cell().load(SeqCst) }
        fn add(&mut self, n: u64) -> u64 { Core::add(self, n) * 1000 + self.tag() }
        fn mix(&self, a: u8, b: Small, c: f64) -> Large { mix(self, a, b, c) }
    }
    impl$(<const $ID: u64>)? NoCl for $T$(<$ID>)? { self_methods!($T); $(fn $dflt(&self) -> u64 { self.tag() })? }
    impl$(<const $ID: u64>)? Mutable for $T$(<$ID>)? {
        fn add(&mut self, n: u64) -> u64 { Core::add(self, n) * 1000 + self.tag() }
        fn get(&self) -> u64 { self.tag() * 1000 + self.cell().load(SeqCst) }
        fn mix(&self, a: u8, b: Small, c: f64) -> Large { mix(self, a, b, c) }
    }
    impl$(<const $ID: u64>)? OnlyMut for $T$(<$ID>)? {
        fn add(&mut self, n: u64) -> u64 { Core::add(self, n) * 1000 + self.tag() }
    }
    impl$(<const $ID: u64>)? Pinned for $T$(<$ID>)? {
        fn add(self: Pin<&mut Self>, n: u64) -> u64 { bump(&*self, n) * 1000 + self.tag() }
        fn get(&self) -> u64 { self.tag() * 1000 + self.cell().load(SeqCst) }
    }
    impl$(<const $ID: u64>)? PinShr for $T$(<$ID>)? {
        fn bump(self: Pin<&Self>, n: u8) -> u64 { bump(&*self, n as u64) }
        fn get(&self) -> u64 { self.tag() * 1000 + self.cell().load(SeqCst) }
    }
    impl$(<const $ID: u64>)? Args for $T$(<$ID>)? {
        fn bump(&self, n: &'_ u16, mut cb: VirtualPtr<dyn '_ + OnlyMut>) -> f64 {
            cb.add(*n as u64);
            bump(self, *n as u64) as f64
        }
        fn get(&self) -> u64 { self.tag() * 1000 + self.cell().load(SeqCst) }
    }
)*)}
implement!(A, B default, C default, Z(ID) default, Plain default,);

fn large(l: Large) -> Vec<u64> {
    vec![l.a, l.b, l.c as u64, l.d as u64, l.e as u64]
}
fn sm(n: u64) -> Small {
    Small { a: n as u8, b: n as u32 }
}

trait Handle {
    fn kind(&self) -> &'static str;
    fn call(&mut self, m: &str, via: &str, x: u64) -> Vec<u64>;
    fn dup(&self, via: &str) -> Box<dyn Handle>;
    fn strong(&self) -> usize {
        0
    }
    fn discard(self: Box<Self>, via: &str);
    fn wrap(self: Box<Self>, _k: &str, _how: &str) -> Box<dyn Handle> {
        panic!("no wrap")
    }
    fn borrow(&mut self, _k: &str, _how: &str) -> Box<dyn Handle> {
        panic!("no borrow")
    }
}

/// The C side: the object and its vtable, by position.
type P = NonNull<c_void>;
macro_rules! ctable {($N:ident { $($f:ident: $t:ty),* $(,)? }) => (
    #[repr(C)] struct $N { ptr: P, release: unsafe extern "C" fn(P), $($f: $t,)* }
)}

macro_rules! family {(
    $m:ident, dyn: $D:ty, clone: $clone:ident, table: {$($f:ident: $t:ty),* $(,)?},
    methods($o:ident, $mm:ident, $x:ident): $call:expr, c($cc:ident): $ccall:expr,
    from: [$($route:ident($($kind:ident)*)),*]
) => (
    mod $m {
        #![allow(unused)]
        use super::*;
        type V = VirtualPtr<$D>;
        ctable!(Table { $($f: $t),* });
        struct HV(V, &'static str);
        fn call_on<O: ?Sized + Tr>(mut $o: &mut O, $mm: &str, $x: u64) -> Vec<u64> { $call }
        fn table(v: &V) -> &Table { unsafe { &*(v as *const V).cast::<Table>() } }
        impl Handle for HV {
            fn kind(&self) -> &'static str { self.1 }
            fn call(&mut self, $mm: &str, via: &str, $x: u64) -> Vec<u64> {
                if via == "c" {
                    let $cc = table(&self.0);
                    unsafe { $ccall }
                } else {
                    call_on(&mut self.0, $mm, $x)
                }
            }
            fn dup(&self, via: &str) -> Box<dyn Handle> { family!(@clone $clone self via) }
            fn discard(self: Box<Self>, via: &str) {
                if via == "c" {
                    let v = std::mem::ManuallyDrop::new(self.0);
                    let t = table(&v);
                    unsafe { (t.release)(t.ptr) }
                } else {
                    let _ = chk::untracked(|| format!("{:?}", self.0));
                    drop(self.0)
                }
            }
        }
        fn h(v: V, k: &'static str) -> Box<dyn Handle> { Box::new(HV(v, k)) }
        fn go<T>(t: T, k: &'static str, how: &str) -> Box<dyn Handle>
        where
            $D: VirtualPtrFrom<T>,
            VirtualPtr<$D>: From<T>,
        {
            h(if how == "into" { t.into() } else { <$D as VirtualPtrFrom<T>>::into_virtual_ptr(t) }, k)
        }
        struct HVal<T>(Box<T>);
        impl<T: Bounds> Handle for HVal<T> {
            fn kind(&self) -> &'static str { "val" }
            fn call(&mut self, m: &str, _: &str, x: u64) -> Vec<u64> { call_on(&mut *self.0, m, x) }
            fn dup(&self, _: &str) -> Box<dyn Handle> { panic!() }
            fn discard(self: Box<Self>, _: &str) { drop(self.0) }
            fn wrap(self: Box<Self>, k: &str, how: &str) -> Box<dyn Handle> {
                let t: Box<T> = self.0;
                match k { $($(k if k == concat!("v", stringify!($kind)) => family!(@wrap $route $kind t how),)*)* _ => panic!() }
            }
            fn borrow(&mut self, k: &str, how: &str) -> Box<dyn Handle> {
                let t: *mut T = &mut *self.0;
                match k { $($(k if k == concat!("v", stringify!($kind)) => family!(@borrow $route $kind t how T),)*)* _ => panic!() }
            }
        }
        struct HRc<T>(Rc<T>);
        impl<T: Bounds> Handle for HRc<T> {
            fn kind(&self) -> &'static str { "rc" }
            fn call(&mut self, m: &str, _: &str, x: u64) -> Vec<u64> {
                call_on(unsafe { &mut *(&*self.0 as *const T as *mut T) }, m, x)
            }
            fn dup(&self, _: &str) -> Box<dyn Handle> { Box::new(HRc(self.0.clone())) }
            fn strong(&self) -> usize { Rc::strong_count(&self.0) }
            fn discard(self: Box<Self>, _: &str) { drop(self.0) }
            fn wrap(self: Box<Self>, k: &str, how: &str) -> Box<dyn Handle> {
                let t: Rc<T> = self.0;
                match k { $($(k if k == concat!("v", stringify!($kind)) => family!(@rc $route $kind t how),)*)* _ => panic!() }
            }
        }
        struct HArc<T>(Arc<T>);
        impl<T: Bounds> Handle for HArc<T> {
            fn kind(&self) -> &'static str { "arc" }
            fn call(&mut self, m: &str, _: &str, x: u64) -> Vec<u64> {
                call_on(unsafe { &mut *(&*self.0 as *const T as *mut T) }, m, x)
            }
            fn dup(&self, _: &str) -> Box<dyn Handle> { Box::new(HArc(self.0.clone())) }
            fn strong(&self) -> usize { Arc::strong_count(&self.0) }
            fn discard(self: Box<Self>, _: &str) { drop(self.0) }
            fn wrap(self: Box<Self>, k: &str, how: &str) -> Box<dyn Handle> {
                let t: Arc<T> = self.0;
                match k { $($(k if k == concat!("v", stringify!($kind)) => family!(@arc $route $kind t how),)*)* _ => panic!() }
            }
        }
        pub fn make(kind: &str, id: u64, tag: u64) -> Box<dyn Handle> {
            fn mk<T: Bounds>(kind: &str, id: u64) -> Box<dyn Handle> {
                match kind {
                    "val" => Box::new(HVal(Box::new(T::new(id)))),
                    "rc" => Box::new(HRc(Rc::new(T::new(id)))),
                    "arc" => Box::new(HArc(Arc::new(T::new(id)))),
                    _ => panic!(),
                }
            }
            match (tag, id) {
                (1, _) => mk::<A>(kind, id),
                (2, _) => mk::<B>(kind, id),
                (3, _) => mk::<C>(kind, id),
                (4, 1) => mk::<Z<1>>(kind, id),
                (4, 2) => mk::<Z<2>>(kind, id),
                (4, _) => mk::<Z<3>>(kind, id),
                _ => mk::<Plain>(kind, id),
            }
        }
        family!(@tr $m);
    }
);
    (@clone yes $self:ident $via:ident) => ({
        let v = if $via == "c" {
            let t = table(&$self.0);
            let p = unsafe { (t.retain)(t.ptr) };
            // The copy C would make: the vtable's fields, with the new pointer.
            let mut raw: std::mem::ManuallyDrop<V> = std::mem::ManuallyDrop::new(unsafe { std::ptr::read(&$self.0) });
            unsafe { (*(&mut raw as *mut _ as *mut Table)).ptr = p; }
            std::mem::ManuallyDrop::into_inner(raw)
        } else {
            $self.0.clone()
        };
        Box::new(HV(v, $self.1))
    });
    (@clone no $self:ident $via:ident) => (panic!("no clone"));
    (@wrap own box $t:ident $how:ident) => (go($t, "vbox", $how));
    (@wrap own pbox $t:ident $how:ident) => (go(Box::into_pin($t), "vpbox", $how));
    (@wrap $r:ident $k:ident $t:ident $how:ident) => (panic!("no route"));
    (@borrow lend ref $t:ident $how:ident $T:ident) => (go(unsafe { &*$t } as &'static $T, "vref", $how));
    (@borrow lend mut $t:ident $how:ident $T:ident) => (go(unsafe { &mut *$t } as &'static mut $T, "vmut", $how));
    (@borrow lend pref $t:ident $how:ident $T:ident) => (go(unsafe { Pin::new_unchecked(&*$t) } as Pin<&'static $T>, "vpref", $how));
    (@borrow lend pmut $t:ident $how:ident $T:ident) => (go(unsafe { Pin::new_unchecked(&mut *$t) } as Pin<&'static mut $T>, "vpmut", $how));
    (@borrow $r:ident $k:ident $t:ident $how:ident $T:ident) => (panic!("no route"));
    (@rc shr rc $t:ident $how:ident) => (go($t, "vrc", $how));
    (@rc shr prc $t:ident $how:ident) => (h(<_ as VirtualPtrFrom<Pin<Rc<T>>>>::into_virtual_ptr(unsafe { Pin::new_unchecked($t) }), "vprc"));
    (@rc $r:ident $k:ident $t:ident $how:ident) => (panic!("no route"));
    (@arc shr arc $t:ident $how:ident) => (go($t, "varc", $how));
    (@arc shr parc $t:ident $how:ident) => (h(<_ as VirtualPtrFrom<Pin<Arc<T>>>>::into_virtual_ptr(unsafe { Pin::new_unchecked($t) }), "vparc"));
    (@arc $r:ident $k:ident $t:ident $how:ident) => (panic!("no route"));
    (@tr clone) => (trait Bounds: Shr + Core + Clone + 'static {} impl<T: Shr + Core + Clone + 'static> Bounds for T {} use super::Shr as Tr;);
    (@tr clonesync) => (trait Bounds: Shr + Core + Clone + Send + Sync + 'static {} impl<T: Shr + Core + Clone + Send + Sync + 'static> Bounds for T {} use super::Shr as Tr;);
    (@tr noclone) => (trait Bounds: NoCl + Core + 'static {} impl<T: NoCl + Core + 'static> Bounds for T {} use super::NoCl as Tr;);
    (@tr noclonesync) => (trait Bounds: NoCl + Core + Send + Sync + 'static {} impl<T: NoCl + Core + Send + Sync + 'static> Bounds for T {} use super::NoCl as Tr;);
    (@tr mutable) => (trait Bounds: Mutable + Core + 'static {} impl<T: Mutable + Core + 'static> Bounds for T {} use super::Mutable as Tr;);
    (@tr mutablesync) => (trait Bounds: Mutable + Core + Send + Sync + 'static {} impl<T: Mutable + Core + Send + Sync + 'static> Bounds for T {} use super::Mutable as Tr;);
    (@tr onlymut) => (trait Bounds: OnlyMut + Core + 'static {} impl<T: OnlyMut + Core + 'static> Bounds for T {} use super::OnlyMut as Tr;);
    (@tr onlymutsend) => (trait Bounds: OnlyMut + Core + Send + 'static {} impl<T: OnlyMut + Core + Send + 'static> Bounds for T {} use super::OnlyMut as Tr;);
    (@tr pinned) => (trait Bounds: Pinned + Core + 'static {} impl<T: Pinned + Core + 'static> Bounds for T {} use super::Pinned as Tr;);
    (@tr pinshr) => (trait Bounds: PinShr + Core + Clone + 'static {} impl<T: PinShr + Core + Clone + 'static> Bounds for T {} use super::PinShr as Tr;);
    (@tr pinshrsync) => (trait Bounds: PinShr + Core + Clone + Send + Sync + 'static {} impl<T: PinShr + Core + Clone + Send + Sync + 'static> Bounds for T {} use super::PinShr as Tr;);
    (@tr clonemut) => (trait Bounds: CloneMut + Core + Clone + 'static {} impl<T: CloneMut + Core + Clone + 'static> Bounds for T {} use super::CloneMut as Tr;);
    (@tr sup) => (trait Bounds: Sup + Core + Clone + 'static {} impl<T: Sup + Core + Clone + 'static> Bounds for T {} use super::Sup as Tr;);
    (@tr gen) => (trait Bounds: Gen<'static, 2> + Core + Clone + 'static {} impl<T: Gen<'static, 2> + Core + Clone + 'static> Bounds for T {}
        trait Tr: Gen<'static, 2> {} impl<T: ?Sized + Gen<'static, 2>> Tr for T {});
    (@tr args) => (trait Bounds: Args + Core + 'static {} impl<T: Args + Core + 'static> Bounds for T {} use super::Args as Tr;);
}

macro_rules! shr_call {($o:ident, $m:ident, $x:ident) => (match $m {
    "get" => vec![$o.get()],
    "bump" => vec![$o.bump($x as u8)],
    "mix" => large($o.mix($x as u8, sm($x + 1), ($x + 2) as f64)),
    "default" => vec![Tr::default($o)],
    _ => { let n = UNITS.load(SeqCst); $o.unit(); if UNITS.load(SeqCst) == n + 1 { vec![] } else { vec![777] } }
})}
macro_rules! shr_c {($t:ident, $m:ident, $x:ident) => (match $m {
    "get" => vec![($t.get)($t.ptr)],
    "bump" => vec![($t.bump)($t.ptr, $x as u8)],
    "mix" => large(($t.mix)($t.ptr, $x as u8, sm($x + 1), ($x + 2) as f64)),
    "default" => vec![($t.default)($t.ptr)],
    _ => { let n = UNITS.load(SeqCst); ($t.unit)($t.ptr); if UNITS.load(SeqCst) == n + 1 { vec![] } else { vec![777] } }
})}
#[repr(C)]
pub struct P3(P, P, P);
type Get = unsafe extern "C" fn(P) -> u64;
type Mix = unsafe extern "C" fn(P, u8, Small, f64) -> Large;
type Bump = unsafe extern "C" fn(P, u8) -> u64;
type Unit = unsafe extern "C" fn(P);
type Add = unsafe extern "C" fn(P, u64) -> u64;
type Retain = unsafe extern "C" fn(P) -> P;
fn split(r: u64) -> Vec<u64> {
    vec![r / 1000, r % 1000]
}

family!(clone, dyn: dyn Shr, clone: yes,
    table: {retain: Retain, get: Get, mix: Mix, bump: Bump, unit: Unit, default: Get},
    methods(o, m, x): shr_call!(o, m, x), c(t): shr_c!(t, m, x), from: [own(box), lend(ref), shr(rc)]);
family!(clonesync, dyn: dyn Send + Sync + Shr, clone: yes,
    table: {retain: Retain, get: Get, mix: Mix, bump: Bump, unit: Unit, default: Get},
    methods(o, m, x): shr_call!(o, m, x), c(t): shr_c!(t, m, x), from: [own(box), lend(ref), shr(arc)]);
family!(noclone, dyn: dyn NoCl, clone: no,
    table: {default: Get, mix: Mix, get: Get, unit: Unit, bump: Bump},
    methods(o, m, x): shr_call!(o, m, x), c(t): shr_c!(t, m, x), from: [own(box), lend(ref mut), shr(rc)]);
family!(noclonesync, dyn: dyn Send + Sync + NoCl, clone: no,
    table: {default: Get, mix: Mix, get: Get, unit: Unit, bump: Bump},
    methods(o, m, x): shr_call!(o, m, x), c(t): shr_c!(t, m, x), from: [own(box), lend(ref mut), shr(arc)]);
family!(mutable, dyn: dyn Mutable, clone: no,
    table: {add: Add, get: Get, mix: Mix},
    methods(o, m, x): match m {
        "add" => split(o.add(x)),
        "mix" => large(o.mix(x as u8, sm(x + 1), (x + 2) as f64)),
        _ => vec![o.get()],
    }, c(t): match m {
        "add" => split((t.add)(t.ptr, x)),
        "mix" => large((t.mix)(t.ptr, x as u8, sm(x + 1), (x + 2) as f64)),
        _ => vec![(t.get)(t.ptr)],
    }, from: [own(box), lend(mut)]);
family!(mutablesync, dyn: dyn Send + Sync + Mutable, clone: no,
    table: {add: Add, get: Get, mix: Mix},
    methods(o, m, x): match m {
        "add" => split(o.add(x)),
        "mix" => large(o.mix(x as u8, sm(x + 1), (x + 2) as f64)),
        _ => vec![o.get()],
    }, c(t): match m {
        "add" => split((t.add)(t.ptr, x)),
        "mix" => large((t.mix)(t.ptr, x as u8, sm(x + 1), (x + 2) as f64)),
        _ => vec![(t.get)(t.ptr)],
    }, from: [own(box), lend(mut)]);
family!(clonemut, dyn: dyn CloneMut, clone: yes,
    table: {retain: Retain, get: Get, add: Add, mix: Mix},
    methods(o, m, x): match m {
        "add" => split(o.add(x)),
        "mix" => large(o.mix(x as u8, sm(x + 1), (x + 2) as f64)),
        _ => vec![o.get()],
    }, c(t): match m {
        "add" => split((t.add)(t.ptr, x)),
        "mix" => large((t.mix)(t.ptr, x as u8, sm(x + 1), (x + 2) as f64)),
        _ => vec![(t.get)(t.ptr)],
    }, from: [own(box)]);
family!(sup, dyn: dyn Sup, clone: yes,
    table: {retain: Retain, unit: Unit, bump: Bump, mix: Mix, default: Get, get: Get},
    methods(o, m, x): shr_call!(o, m, x), c(t): shr_c!(t, m, x), from: [own(box), lend(ref), shr(arc)]);
static BYTES: [u8; 2] = [0, 1];
#[repr(C)]
pub struct Pair(u8, u8);
family!(gen, dyn: dyn Gen<'static, 2>, clone: yes,
    table: {retain: Retain, bump: unsafe extern "C" fn(P, &'static u8) -> u64, get: Get, mix: unsafe extern "C" fn(P, Pair, &Small) -> Large},
    methods(o, m, x): match m {
        "bump" => vec![o.bump(&BYTES[x as usize])],
        "mix" => large(o.mix([x as u8; 2], &sm(x + 1))),
        _ => vec![o.get()],
    }, c(t): match m {
        "bump" => vec![(t.bump)(t.ptr, &BYTES[x as usize])],
        "mix" => large((t.mix)(t.ptr, Pair(x as u8, x as u8), &sm(x + 1))),
        _ => vec![(t.get)(t.ptr)],
    }, from: [own(box), lend(ref), shr(rc)]);
family!(onlymut, dyn: dyn OnlyMut, clone: no, table: {add: Add},
    methods(o, m, x): split(o.add(x)), c(t): split((t.add)(t.ptr, x)), from: [own(box), lend(mut)]);
family!(onlymutsend, dyn: dyn Send + OnlyMut, clone: no, table: {add: Add},
    methods(o, m, x): split(o.add(x)), c(t): split((t.add)(t.ptr, x)), from: [own(box), lend(mut)]);
family!(pinned, dyn: dyn Pinned, clone: no, table: {add: Add, get: Get},
    methods(o, m, x): match m {
        "add" => split(unsafe { Pin::new_unchecked(o) }.add(x)),
        _ => vec![o.get()],
    }, c(t): match m {
        "add" => split((t.add)(t.ptr, x)),
        _ => vec![(t.get)(t.ptr)],
    }, from: [own(pbox), lend(pmut)]);
family!(pinshr, dyn: dyn PinShr, clone: yes, table: {retain: Retain, bump: Bump, get: Get},
    methods(o, m, x): match m {
        "bump" => vec![unsafe { Pin::new_unchecked(&*o) }.bump(x as u8)],
        _ => vec![o.get()],
    }, c(t): match m {
        "bump" => vec![(t.bump)(t.ptr, x as u8)],
        _ => vec![(t.get)(t.ptr)],
    }, from: [own(pbox), lend(pref), shr(prc)]);
family!(pinshrsync, dyn: dyn Send + Sync + PinShr, clone: yes, table: {retain: Retain, bump: Bump, get: Get},
    methods(o, m, x): match m {
        "bump" => vec![unsafe { Pin::new_unchecked(&*o) }.bump(x as u8)],
        _ => vec![o.get()],
    }, c(t): match m {
        "bump" => vec![(t.bump)(t.ptr, x as u8)],
        _ => vec![(t.get)(t.ptr)],
    }, from: [own(pbox), lend(pref), shr(parc)]);
/// A callback passed by value: called once with `n`, dropped once.
struct Callback<'a>(&'a Cell<u64>, AtomicU64);
impl OnlyMut for Callback<'_> {
    fn add(&mut self, n: u64) -> u64 {
        self.0.set(self.0.get() * 100 + n);
        *self.1.get_mut() += n;
        0
    }
}
impl Drop for Callback<'_> {
    fn drop(&mut self) {
        self.0.set(self.0.get() * 100 + 50 + *self.1.get_mut());
    }
}
fn with_callback(x: u64, f: impl FnOnce(&u16, VirtualPtr<dyn '_ + OnlyMut>) -> f64) -> u64 {
    let seen = Cell::new(0);
    let r = f(&(x as u16), Box::new(Callback(&seen, AtomicU64::new(0))).into());
    if seen.get() == x * 100 + 50 + x { r as u64 } else { 777 }
}
family!(args, dyn: dyn Args, clone: no,
    table: {bump: unsafe extern "C" fn(P, *const u16, P3) -> f64, get: Get},
    methods(o, m, x): match m {
        "bump" => vec![with_callback(x, |n, cb| o.bump(n, cb))],
        _ => vec![o.get()],
    }, c(t): match m {
        "bump" => vec![with_callback(x, |n, cb| (t.bump)(t.ptr, n, std::mem::transmute(cb)))],
        _ => vec![(t.get)(t.ptr)],
    }, from: [own(box), lend(ref mut), shr(rc)]);

struct HDrop(DynDrop);
impl Handle for HDrop {
    fn kind(&self) -> &'static str {
        "ddrop"
    }
    fn call(&mut self, _: &str, _: &str, _: u64) -> Vec<u64> {
        panic!()
    }
    fn dup(&self, _: &str) -> Box<dyn Handle> {
        Box::new(HDrop(self.0.clone()))
    }
    fn discard(self: Box<Self>, _: &str) {
        drop(self.0)
    }
}
fn make(fam: &str, kind: &str, id: u64, tag: u64) -> Box<dyn Handle> {
    match fam {
        "clone" => clone::make(kind, id, tag),
        "clonesync" => clonesync::make(kind, id, tag),
        "noclone" => noclone::make(kind, id, tag),
        "noclonesync" => noclonesync::make(kind, id, tag),
        "mutable" => mutable::make(kind, id, tag),
        "mutablesync" => mutablesync::make(kind, id, tag),
        "clonemut" => clonemut::make(kind, id, tag),
        "sup" => sup::make(kind, id, tag),
        "gen" => gen::make(kind, id, tag),
        "onlymut" => onlymut::make(kind, id, tag),
        "onlymutsend" => onlymutsend::make(kind, id, tag),
        "pinned" => pinned::make(kind, id, tag),
        "pinshr" => pinshr::make(kind, id, tag),
        "pinshrsync" => pinshrsync::make(kind, id, tag),
        "args" => args::make(kind, id, tag),
        "drop" => Box::new(HDrop(match (tag, id) {
            (1, _) => DynDrop::new(A::new(id)),
            (2, _) => DynDrop::new(B::new(id)),
            (3, _) => DynDrop::new(C::new(id)),
            (4, 1) => DynDrop::new(Z::<1>::new(id)),
            (4, 2) => DynDrop::new(Z::<2>::new(id)),
            (4, _) => DynDrop::new(Z::<3>::new(id)),
            _ => DynDrop::new(Plain::new(id)),
        })),
        f => panic!("{f}"),
    }
}

struct On<T>(T);
unsafe impl<T> Send for On<T> {}
/// Runs `f` here or in another thread (the histories ask for it where the types allow it).
fn on<R>(other: bool, f: impl FnOnce() -> R) -> R {
    if other {
        let f = On(f);
        std::thread::scope(|s| {
            s.spawn(move || {
                let f = f;
                On((f.0)())
            })
            .join()
            .unwrap()
            .0
        })
    } else {
        f()
    }
}

struct D {
    sl: Vec<Option<Box<dyn Handle>>>,
    fam: String,
}
impl D {
    fn act(&mut self, other: bool, cmd: &[&str]) -> Vec<Value> {
        let i: usize = num(cmd[1]);
        let h = self.sl[i].take();
        let fam = self.fam.clone();
        let at = |k: usize| num::<usize>(cmd[k]);
        fn set(slot: &mut Option<Box<dyn Handle>>, r: Result<Box<dyn Handle>, ()>) -> Vec<Value> {
            match r {
                Ok(h) => {
                    *slot = Some(h);
                    vec![json!("ok")]
                }
                Err(()) => vec![json!("panic")],
            }
        }
        match cmd[0] {
            "mk" => {
                let r = on(other, || attempt(|| make(&fam, cmd[2], num(cmd[3]), num(cmd[4]))).0);
                set(&mut self.sl[i], r)
            }
            "wrap" => {
                let h = h.unwrap();
                let r = on(other, || attempt(|| h.wrap(cmd[2], cmd[3])).0);
                set(&mut self.sl[i], r)
            }
            "borrow" => {
                let mut h = h.unwrap();
                let r = on(other, || attempt(|| h.borrow(cmd[3], cmd[4])).0);
                self.sl[i] = Some(h);
                set(&mut self.sl[at(2)], r)
            }
            "call" => {
                let mut h = h.unwrap();
                let r = on(other, || attempt(|| {
                    let v = h.call(cmd[2], cmd[3], num(cmd[4]));
                    chk::untracked(|| v.clone())
                }).0);
                self.sl[i] = Some(h);
                match r {
                    Ok(v) => std::iter::once(json!("ok")).chain(v.iter().map(|x| json!(x))).collect(),
                    Err(()) => vec![json!("panic")],
                }
            }
            "clone" => {
                let h = h.unwrap();
                let r = on(other, || {
                    NEXT.with(|n| n.set(num(cmd[4])));
                    attempt(|| h.dup(cmd[3])).0
                });
                self.sl[i] = Some(h);
                set(&mut self.sl[at(2)], r)
            }
            "drop" => {
                let h = h.unwrap();
                let r = on(other, || attempt(|| h.discard(cmd[2])).0);
                vec![json!(if r.is_ok() { "ok" } else { "panic" })]
            }
            "move" => {
                self.sl[at(2)] = h;
                vec![json!("ok")]
            }
            c => panic!("{c}"),
        }
    }
}
impl Driver for D {
    fn reset(&mut self) {
        for pass in 0..2 {
            for h in self.sl.iter_mut() {
                if pass == 1 || h.as_ref().map_or(false, |h| matches!(h.kind(), "vref" | "vmut" | "vpref" | "vpmut")) {
                    if let Some(h) = h.take() {
                        let _ = attempt(|| h.discard("rust"));
                    }
                }
            }
        }
        for b in &BLOCKS {
            let p = b.swap(0, SeqCst);
            if p != 0 && unsafe { chk::is_live(p as *const u8) } {
                chk::ERRORS.fetch_add(1, SeqCst);
            }
        }
        for a in &ALIVE {
            if a.swap(0, SeqCst) != 0 {
                chk::ERRORS.fetch_add(1, SeqCst);
            }
        }
    }
    fn step(&mut self, cmd: &[&str]) -> Value {
        let (other, cmd) = if cmd[0] == "t" { (true, &cmd[1..]) } else { (false, cmd) };
        chk::take_large();
        let res = self.act(other, cmd);
        let block = chk::take_large();
        if !block.is_null() {
            // A new Plain object.
            BLOCKS[num::<usize>(if cmd[0] == "mk" { cmd[3] } else { cmd[4] })].store(block as usize, SeqCst);
        }
        let sl: Vec<_> = self.sl[1..].iter().map(|h| h.as_ref().map_or("none", |h| h.kind())).collect();
        let strong: Vec<_> = self.sl[1..].iter().map(|h| h.as_ref().map_or(0, |h| h.strong())).collect();
        let mut live = vec![];
        for (i, a) in ALIVE.iter().enumerate() {
            let b = BLOCKS[i].load(SeqCst);
            for _ in 0..a.load(SeqCst) + (b != 0 && unsafe { chk::is_live(b as *const u8) }) as i64 {
                live.push(i);
            }
        }
        json!({"res": res, "sl": sl, "live": live, "strong": strong, "aerr": chk::errors()})
    }
}
fn main() {
    let n: usize = num(&std::env::var("VH_SLOTS").unwrap());
    vharness::run(&mut D { sl: (0..=n).map(|_| None).collect(), fam: std::env::var("VH_FAM").unwrap() })
}
