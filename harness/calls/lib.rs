//! The exported functions of the C12 check: their bodies follow a script, command by command.
#![allow(warnings)]
use ::safer_ffi::prelude::*;
use ::std::sync::Mutex;

static SCRIPT: Mutex<Vec<String>> = Mutex::new(Vec::new());
static LOG: Mutex<()> = Mutex::new(());

extern "C" {
    /// Foreign code: makes the call with this index of kind, and logs what it returned.
    fn foreign_call(kind: *const u8, kind_len: usize, via: *const u8, via_len: usize,
                    bad: *const u8, bad_len: usize, n: u32);
}

fn log(s: &str) {
    use ::std::io::Write;
    let mut o = ::std::io::stdout();
    o.write_all(format!("{s}\n").as_bytes()).unwrap();
    o.flush().unwrap();
}

fn command() -> Vec<String> {
    let c = SCRIPT.lock().unwrap().pop();
    match c {
        None => { log("[\"end\"]"); ::std::process::exit(0) }
        Some(c) => c.split(' ').map(|s| s.into()).collect(),
    }
}

#[no_mangle]
unsafe extern "C" fn start(p: *const u8, n: usize) {
    ::std::panic::set_hook(Box::new(|_| ()));
    let s = ::std::str::from_utf8(::std::slice::from_raw_parts(p, n)).unwrap();
    *SCRIPT.lock().unwrap() = s.split(';').rev().filter(|s| !s.is_empty()).map(|s| s.into()).collect();
    while !SCRIPT.lock().unwrap().is_empty() {
        call(&command());
    }
    log("[\"end\"]");
    ::std::process::exit(0)
}

fn call(c: &[String]) {
    assert_eq!(c[0], "call");
    unsafe { foreign_call(c[1].as_ptr(), c[1].len(), c[2].as_ptr(), c[2].len(), c[3].as_ptr(), c[3].len(), c[4].parse().unwrap()) }
}

struct PanicsInDrop;
impl Drop for PanicsInDrop {
    fn drop(&mut self) { panic!("drop") }
}

fn do_panic(how: &str) {
    match how {
        "str" => panic!("a panic"),
        "box" => ::std::panic::panic_any(Box::new(how.to_string())),
        "resume" => ::std::panic::resume_unwind(Box::new(3_u8)),
        "index" => { let v = vec![1, 2]; let _ = v[how.len()]; }
        "drop" => drop(PanicsInDrop),
        _ => unreachable!(),
    }
}

enum End { Next, Ret(u32), Fin }

/// Follows the script up to the end of the segment.
fn follow(catching: bool) -> End {
    loop {
        let c = command();
        match &*c[0] {
            "call" => call(&c),
            "panic" => do_panic(&c[1]),
            "next" => return End::Next,
            "ret" => return End::Ret(c[1].parse().unwrap()),
            "fin" => return End::Fin,
            "catch" => {
                log("[\"catching\"]");
                match ::std::panic::catch_unwind(|| { follow(true); }) {
                    Ok(()) => log("[\"uncaught\"]"),
                    Err(e) => { ::std::mem::forget(e); log("[\"caught\"]") }
                }
            }
            "endcatch" => { assert!(catching); return End::Next }
            _ => panic!("{c:?}"),
        }
    }
}

#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy)]
pub enum Kind { One = 1, Two = 2, Many = 64 }

#[derive_ReprC] #[repr(opaque)]
pub struct Tracked { id: u32 }
impl Drop for Tracked {
    fn drop(&mut self) { log(&format!("[\"dropped\",{}]", self.id)) }
}

#[no_mangle]
extern "C" fn new_tracked(id: u32) -> repr_c::Box<Tracked> { Box::new(Tracked { id }).into() }
#[no_mangle]
extern "C" fn on_number() -> u32 { NUMBER.with(|n| n.get()) }
::std::thread_local! { static NUMBER: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0) }

type Callback = unsafe extern "C" fn(u32) -> u32;

macro_rules! body {
    ($kind:literal, $n:ident, $flag:ident, $k:ident, $r:ident, $t:ident, $b:ident, $f:ident, $s:ident) => ({
        let t: Option<bool> = $t.into();
        log(&format!("[\"enter\",\"{}\",{},{},{},{},{},{},{},{}]", $kind, $n, $flag as u8, $k as u8, *$r,
            match t { None => 0, Some(b) => 1 + b as u32 }, $b.id, unsafe { $f($n) } - $n, $s.len()));
    });
}

/// Gives the result back in a struct of three eightbytes (returned through memory).
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)]
pub struct Answer { a: u32, b: u64, c: u64 }
fn answer(v: u32) -> Answer {
    let v = ((v as u64 * 100003) % 65536) as u32;
    Answer { a: v, b: !(v as u64), c: v as u64 + 1 }
}

fn segment(i: u32) { log(&format!("[\"segment\",{i}]")) }

fn ret(e: End) -> Answer {
    match e { End::Ret(v) => answer(v), _ => panic!("script") }
}

#[ffi_export]
/// Plain.
pub fn plain(n: u32, flag: bool, kind: Kind, r: &'_ u32, t: TaggedOption<bool>, b: repr_c::Box<Tracked>, f: Callback, s: c_slice::Ref<'_, u16>) -> Answer {
    body!("plain", n, flag, kind, r, t, b, f, s);
    ret(follow(false))
}
use ::safer_ffi::option::TaggedOption;

#[ffi_export(rename = "renamed")]
fn original_name(n: u32, mut flag: bool, kind: Kind, r: &u32, t: TaggedOption<bool>, b: repr_c::Box<Tracked>, f: Callback, s: c_slice::Ref<'_, u16>) -> Answer {
    body!("renamed", n, flag, kind, r, t, b, f, s);
    ret(follow(false))
}

#[ffi_export]
unsafe extern "C" fn r#unsafe(n: u32, flag: bool, kind: Kind, r: &'static u32, t: TaggedOption<bool>, b: repr_c::Box<Tracked>, f: Callback, s: c_slice::Ref<'_, u16>) -> Answer {
    body!("unsafe", n, flag, kind, r, t, b, f, s);
    match follow(false) { e => return ret(e) }
}

mod inner {
    use super::*;
    pub mod most {
        use super::*;
        /// Other order of parameters, patterns.
        #[ffi_export]
        pub(in super::super) fn inner<'a>(s: c_slice::Ref<'a, u16>, f: Callback, b: repr_c::Box<Tracked>, t: TaggedOption<bool>, r: &'a u32, kind: Kind, flag: bool, n: u32) -> Answer {
            body!("inner", n, flag, kind, r, t, b, f, s);
            ret(follow(false))
        }
    }
}

fn local_scope() {
    #[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)]
    pub struct Both { n: u32, flag: bool }
    #[ffi_export]
    fn local(Both { n, flag }: Both, (kind): Kind, r: &u32, t: TaggedOption<bool>, b: repr_c::Box<Tracked>, f: Callback, s: c_slice::Ref<'_, u16>) -> Answer {
        body!("local", n, flag, kind, r, t, b, f, s);
        ret(follow(false))
    }
}

/// An executor that follows the script before it polls and after the future is ready.
fn executor<F: ::std::future::Future>(f: F) -> F::Output {
    use ::std::task::*;
    segment(2);
    follow(false);
    let mut f = Box::pin(f);
    struct W;
    impl Wake for W { fn wake(self: ::std::sync::Arc<Self>) {} }
    let w = ::std::sync::Arc::new(W).into();
    let mut cx = Context::from_waker(&w);
    let out = loop { if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { break v } };
    drop(f);
    segment(4);
    follow(false);
    out
}
struct Later(bool);
impl ::std::future::Future for Later {
    type Output = ();
    fn poll(mut self: ::std::pin::Pin<&mut Self>, cx: &mut ::std::task::Context<'_>) -> ::std::task::Poll<()> {
        if self.0 { ::std::task::Poll::Ready(()) } else { self.0 = true; cx.waker().wake_by_ref(); ::std::task::Poll::Pending }
    }
}

#[ffi_export(executor = executor)]
async fn r#async(n: u32, flag: bool, kind: Kind, r: &'static u32, t: TaggedOption<bool>, b: repr_c::Box<Tracked>, f: Callback, s: c_slice::Ref<'_, u16>) -> Answer {
    body!("async", n, flag, kind, r, t, b, f, s);
    follow(false);
    ffi_await!(async move {
        let _b = b;
        segment(3);
        Later(false).await;
        let e = follow(false);
        Later(false).await;
        ret(e)
    })
}
#[ffi_export(executor = crate::executor, rename = "asyncren")]
pub async fn another_name(n: u32, flag: bool, kind: Kind, r: &'static u32, t: TaggedOption<bool>, b: repr_c::Box<Tracked>, f: Callback, s: c_slice::Ref<'_, u16>) -> Answer {
    body!("asyncren", n, flag, kind, r, t, b, f, s);
    follow(false);
    ffi_await!(async move {
        segment(3);
        let _b = b;
        ret(follow(false))
    })
}
