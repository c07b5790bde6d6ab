//! Driver for the specifications Futures.tla and TraceFutures.tla.
use safer_ffi::dyn_traits::futures::{FfiFuture, FfiFutureExecutor, PollFuture};
use safer_ffi::dyn_traits::{DropGlue, ImplDropGlue};
use safer_ffi::prelude::*;
use serde_json::{json, Value};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use vharness::{attempt, chk, num, Driver};

safer_ffi::ffi_export_future_helpers!();
type WakeFn = repr_c::Arc<dyn 'static + Send + Sync + Fn()>;
#[allow(improper_ctypes)]
extern "C" {
    fn rust_future_task_context_wake(cx: *const ());
    fn rust_future_task_context_get_waker(cx: *const ()) -> WakeFn;
}

static FUT: AtomicI64 = AtomicI64::new(0);
static OUT: AtomicI64 = AtomicI64::new(0);
static INN: AtomicI64 = AtomicI64::new(0);
static EXECS: AtomicI64 = AtomicI64::new(0);
static WOKEN: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static KEPT: Mutex<Vec<(usize, Kept)>> = Mutex::new(Vec::new());
static EVENTS: Mutex<Vec<Value>> = Mutex::new(Vec::new());
static LOGGING: AtomicI64 = AtomicI64::new(0);
thread_local! {
    static ROUTE: Cell<u8> = const { Cell::new(0) };
    static POLLS: Cell<u64> = const { Cell::new(0) };
    static TRIES: Cell<u64> = const { Cell::new(0) };
    static GIVEN: RefCell<Option<Given>> = const { RefCell::new(None) };
    static SHARED: RefCell<Option<Arc<Mutex<Joint>>>> = const { RefCell::new(None) };
}
fn bad() {
    chk::ERRORS.fetch_add(1, SeqCst);
}
fn log(v: Value) {
    if LOGGING.load(SeqCst) > 0 {
        EVENTS.lock().unwrap().push(v)
    }
}

enum Kept {
    Waker(Waker),
    Fn(WakeFn),
}
impl Kept {
    fn wake(&self) {
        match self {
            Kept::Waker(w) => w.wake_by_ref(),
            Kept::Fn(f) => f.call(),
        }
    }
}
fn keep(t: usize, k: Option<Kept>) {
    let old = chk::untracked(|| {
        let mut kept = KEPT.lock().unwrap();
        let old = kept.iter().position(|x| x.0 == t).map(|i| kept.swap_remove(i));
        if let Some(k) = k {
            kept.push((t, k));
        }
        old
    });
    drop(old);
}
struct Named(u64);
impl Wake for Named {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        chk::untracked(|| WOKEN.lock().unwrap().push(self.0))
    }
}

/// Something counted, dropped once.
struct Counted {
    n: &'static AtomicI64,
    alive: u32,
    log: Option<(&'static str, usize)>,
}
impl Counted {
    fn new(n: &'static AtomicI64, log: Option<(&'static str, usize)>) -> Self {
        n.fetch_add(1, SeqCst);
        Counted { n, alive: 0xA11FE, log }
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        if self.alive != 0xA11FE {
            return bad();
        }
        self.alive = 0;
        self.n.fetch_sub(1, SeqCst);
        if let Some((name, t)) = self.log {
            log(json!([name, t]))
        }
    }
}
struct Out {
    v: u64,
    pad: [u64; 3],
    _c: Counted,
}
fn out(v: u64, log: Option<(&'static str, usize)>) -> Out {
    Out { v, pad: [v + 1, v + 2, v + 3], _c: Counted::new(&OUT, log) }
}
impl Out {
    fn value(&self) -> u64 {
        if self.pad != [self.v + 1, self.v + 2, self.v + 3] {
            return 77777;
        }
        self.v
    }
}

/// The inner future.
struct Scripted {
    t: usize,
    left: u64,
    c: Option<Counted>,
    _pin: std::marker::PhantomPinned,
    at: usize,
}
impl Scripted {
    fn new(t: usize, left: u64) -> Self {
        Scripted { t, left, c: Some(Counted::new(&FUT, None)), _pin: std::marker::PhantomPinned, at: 0 }
    }
}
impl Drop for Scripted {
    fn drop(&mut self) {
        keep(self.t, None)
    }
}
impl Future for Scripted {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = unsafe { self.get_unchecked_mut() };
        if me.c.as_ref().map_or(true, |c| c.alive != 0xA11FE) {
            bad();
            return Poll::Ready(());
        }
        if me.at == 0 {
            me.at = me as *mut _ as usize;
        } else if me.at != me as *mut _ as usize {
            bad(); // moved although pinned
        }
        POLLS.with(|p| p.set(p.get() + 1));
        if me.left == 0 {
            keep(me.t, None);
            return Poll::Ready(());
        }
        me.left -= 1;
        let cx: &Context<'_> = cx;
        match ROUTE.with(|r| r.get()) {
            0 => keep(me.t, Some(Kept::Waker(cx.waker().clone()))),
            1 => {
                keep(me.t, None);
                unsafe { rust_future_task_context_wake(cx as *const _ as *const ()) }
            }
            _ => keep(me.t, Some(Kept::Fn(unsafe {
                rust_future_task_context_get_waker(cx as *const _ as *const ())
            }))),
        }
        Poll::Pending
    }
}

/// The deterministic executor.
struct Exec(u64, Counted);
impl Exec {
    fn new() -> Self {
        Exec(0xE0EC, Counted::new(&EXECS, None))
    }
    fn ok(&self) {
        if self.0 != 0xE0EC || self.1.alive != 0xA11FE {
            bad()
        }
    }
}
impl Clone for Exec {
    fn clone(&self) -> Self {
        Exec::new()
    }
}
enum Given {
    Dyn(VirtualPtr<dyn 'static + Send + FfiFuture>),
    Fut(Pin<Box<dyn Future<Output = ()>>>),
    Action(repr_c::Box<dyn 'static + Send + FnMut()>),
}
#[derive(Default)]
struct Joint {
    over: bool,
    waker: Option<Waker>,
}
struct Over(Arc<Mutex<Joint>>);
impl Future for Over {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut j = self.0.lock().unwrap();
        if j.over {
            return Poll::Ready(());
        }
        j.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl Drop for Over {
    fn drop(&mut self) {
        self.0.lock().unwrap().waker = None
    }
}
fn joint() -> VirtualPtr<dyn 'static + Send + FfiFuture> {
    let j = Arc::new(Mutex::new(Joint::default()));
    SHARED.with(|s| *s.borrow_mut() = Some(j.clone()));
    Box::pin(Over(j)).into()
}
impl FfiFutureExecutor for Exec {
    fn dyn_spawn(&self, f: VirtualPtr<dyn 'static + Send + FfiFuture>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        self.ok();
        GIVEN.with(|g| *g.borrow_mut() = Some(Given::Dyn(f)));
        joint()
    }
    fn dyn_spawn_blocking(
        &self,
        f: repr_c::Box<dyn 'static + Send + FnMut()>,
    ) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        self.ok();
        GIVEN.with(|g| *g.borrow_mut() = Some(Given::Action(f)));
        joint()
    }
    fn dyn_block_on(&self, mut f: VirtualPtr<dyn '_ + FfiFuture>) {
        self.ok();
        for _ in 0..TRIES.with(|t| t.get()) {
            let w = wakers(900);
            if Pin::new(&mut f).dyn_poll(&mut Context::from_waker(&w)) == PollFuture::Completed {
                return;
            }
        }
    }
    fn dyn_enter(&self) -> VirtualPtr<dyn '_ + DropGlue> {
        self.ok();
        Box::new(ImplDropGlue(Counted::new(&INN, None))).into()
    }
}
/// One that relies on the default `dyn_enter`.
#[derive(Clone)]
struct Plain(Exec);
impl FfiFutureExecutor for Plain {
    fn dyn_spawn(&self, f: VirtualPtr<dyn 'static + Send + FfiFuture>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        self.0.dyn_spawn(f)
    }
    fn dyn_spawn_blocking(
        &self,
        f: repr_c::Box<dyn 'static + Send + FnMut()>,
    ) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        self.0.dyn_spawn_blocking(f)
    }
    fn dyn_block_on(&self, f: VirtualPtr<dyn '_ + FfiFuture>) {
        self.0.dyn_block_on(f)
    }
}
type H = VirtualPtr<dyn 'static + FfiFutureExecutor>;
type HS = VirtualPtr<dyn 'static + FfiFutureExecutor + Send + Sync>;
macro_rules! with_handle {($form:expr, $h:ident => $e:expr) => (
    match $form {
        "box" => { let $h: H = Box::new(Exec::new()).into(); let x: H = $h.clone(); drop(x); $e }
        "ref" => { let x = Exec::new(); let $h: H = unsafe { std::mem::transmute::<&Exec, &'static Exec>(&x) }.into(); $e }
        "syncbox" => { let $h: HS = Box::new(Plain(Exec::new())).into(); drop($h.enter()); $e }
        "syncarc" => { let y: HS = Arc::new(Exec::new()).into(); let $h = y.clone(); drop(y); $e }
        "syncref" => { let x = Exec::new(); let $h: HS = unsafe { std::mem::transmute::<&Exec, &'static Exec>(&x) }.into(); $e }
        x => panic!("form {x}"),
    }
)}

fn wakers(id: u64) -> Waker {
    thread_local!(static W: RefCell<HashMap<u64, (Arc<Named>, Waker)>> = RefCell::default());
    chk::untracked(|| {
        W.with(|w| {
            let mut w = w.borrow_mut();
            if id == u64::MAX {
                // Is every waker back with its owner?
                for (a, _) in w.values() {
                    if Arc::strong_count(a) != 2 {
                        bad()
                    }
                }
                w.clear();
                return Waker::from(Arc::new(Named(0)));
            }
            w.entry(id)
                .or_insert_with(|| {
                    let a = Arc::new(Named(id));
                    (a.clone(), a.into())
                })
                .1
                .clone()
        })
    })
}

enum Bare {
    Dyn(VirtualPtr<dyn 'static + FfiFuture>),
    Send(VirtualPtr<dyn 'static + Send + FfiFuture>),
    Fut(Pin<Box<dyn Future<Output = ()>>>),
    Gone,
}
enum Outcome {
    Ready(Out),
    Cancelled,
}
#[derive(Default)]
struct Task {
    bare: Option<Bare>,
    /// What a `Pin<&mut _>` refers to.
    owner: Option<Pin<Box<Scripted>>>,
    given: Option<Given>,
    joint: Option<Arc<Mutex<Joint>>>,
    join: Option<Pin<Box<dyn Future<Output = Outcome>>>>,
}
#[derive(Default)]
struct D {
    ts: HashMap<usize, Task>,
    entered: Vec<Box<dyn Any>>,
}

impl D {
    fn go(&mut self, c: &[&str]) -> Value {
        let n = |i: usize| -> usize { num(c[i]) };
        match c[0] {
            "new" => {
                let (t, l, form) = (n(1), n(3) as u64, c[4]);
                let mut task = Task::default();
                match c[2] {
                    "bare" | "wrap" => {
                        let b = match form {
                            "box" => Bare::Dyn(Box::pin(Scripted::new(t, l)).into()),
                            "boxsend" => Bare::Send(Box::pin(Scripted::new(t, l)).into()),
                            _ => {
                                task.owner = Some(Box::pin(Scripted::new(t, l)));
                                let p: Pin<&'static mut Scripted> =
                                    unsafe { std::mem::transmute(task.owner.as_mut().unwrap().as_mut()) };
                                if form == "mut" {
                                    Bare::Dyn(p.into())
                                } else {
                                    Bare::Send(p.into())
                                }
                            }
                        };
                        task.bare = Some(match b {
                            Bare::Dyn(f) if c[2] == "wrap" => Bare::Fut(Box::pin(f.into_future())),
                            Bare::Send(f) if c[2] == "wrap" => {
                                let g: VirtualPtr<dyn Send + FfiFuture> = Box::pin(f.into_future()).into();
                                Bare::Fut(Box::pin(g.into_future()))
                            }
                            b => b,
                        });
                    }
                    "spawn" => {
                        let s = Scripted::new(t, l);
                        let f = async move {
                            s.await;
                            out(10 * t as u64, None)
                        };
                        task.join = Some(with_handle!(form, h => {
                            let j = h.spawn(f);
                            Box::pin(async move { Outcome::Ready(j.await) })
                        }));
                    }
                    _ => {
                        let g = Counted::new(&FUT, None);
                        let f = move || {
                            drop(g);
                            out(10 * t as u64, None)
                        };
                        task.join = Some(with_handle!(form, h => {
                            let j = h.spawn_blocking(f);
                            Box::pin(async move {
                                match j.await {
                                    Ok(x) => Outcome::Ready(x),
                                    Err(_) => Outcome::Cancelled,
                                }
                            })
                        }));
                    }
                }
                task.given = GIVEN.with(|g| g.borrow_mut().take());
                task.joint = SHARED.with(|g| g.borrow_mut().take());
                chk::untracked(|| self.ts.insert(t, task));
                json!(["ok"])
            }
            "run" => {
                let t = n(1);
                let w = num::<u64>(c[2]);
                ROUTE.with(|r| r.set(match c[3] { "clone" => 0, "now" => 1, _ => 2 }));
                let task = self.ts.get_mut(&t).unwrap();
                let done = if let Some(b) = &mut task.bare {
                    let w = wakers(w);
                    let mut cx = Context::from_waker(&w);
                    let done = match b {
                        Bare::Dyn(f) => Pin::new(f).dyn_poll(&mut cx) == PollFuture::Completed,
                        Bare::Send(f) => match Pin::new(f).dyn_poll(&mut cx) {
                            PollFuture::Completed => true,
                            PollFuture::Pending => false,
                        },
                        Bare::Fut(f) => f.as_mut().poll(&mut cx).is_ready(),
                        Bare::Gone => unreachable!(),
                    };
                    done
                } else {
                    let w = wakers(100 + t as u64);
                    let mut cx = Context::from_waker(&w);
                    if c[4] == "fut" {
                        task.given = match task.given.take() {
                            Some(Given::Dyn(f)) => Some(Given::Fut(Box::pin(f.into_future()))),
                            g => g,
                        };
                    }
                    let done = match task.given.as_mut().unwrap() {
                        Given::Dyn(f) => Pin::new(f).dyn_poll(&mut cx) == PollFuture::Completed,
                        Given::Fut(f) => f.as_mut().poll(&mut cx).is_ready(),
                        Given::Action(f) => {
                            f.call();
                            true
                        }
                    };
                    if done {
                        task.given = None;
                    }
                    done
                };
                json!([if done { "ready" } else { "pending" }])
            }
            "wake" => {
                let t = n(1);
                let k = {
                    let mut kept = KEPT.lock().unwrap();
                    let i = kept.iter().position(|x| x.0 == t);
                    i.map(|i| kept.swap_remove(i).1)
                };
                let Some(k) = k else { return json!(["no waker kept"]) };
                match c[2] {
                    "ref" => k.wake(),
                    "twice" => {
                        k.wake();
                        match &k {
                            Kept::Waker(w) => w.clone().wake(),
                            Kept::Fn(f) => f.clone().call(),
                        }
                    }
                    _ => match k {
                        Kept::Waker(w) => {
                            w.wake();
                            return json!(["ok"]);
                        }
                        Kept::Fn(f) => {
                            f.call();
                            drop(f);
                            return json!(["ok"]);
                        }
                    },
                }
                chk::untracked(|| KEPT.lock().unwrap().push((t, k)));
                json!(["ok"])
            }
            "abandon" => {
                let task = self.ts.get_mut(&n(1)).unwrap();
                if let Some(b) = &mut task.bare {
                    *b = Bare::Gone;
                    task.owner = None;
                    let t = self.ts.remove(&n(1));
                    drop(t);
                } else {
                    task.given = None;
                    if task.join.is_none() && task.joint.as_ref().map_or(true, |j| j.lock().unwrap().over) {
                        let t = self.ts.remove(&n(1));
                        drop(t);
                    }
                }
                json!(["ok"])
            }
            "signal" => {
                let task = self.ts.get_mut(&n(1)).unwrap();
                let j = task.joint.as_ref().unwrap();
                let w = {
                    let mut j = j.lock().unwrap();
                    j.over = true;
                    j.waker.take()
                };
                if let Some(w) = w {
                    w.wake()
                }
                json!(["ok"])
            }
            "join" => {
                let task = self.ts.get_mut(&n(1)).unwrap();
                let w = wakers(num(c[2]));
                let mut cx = Context::from_waker(&w);
                let j = task.join.as_mut().unwrap();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| j.as_mut().poll(&mut cx)));
                match r {
                    Ok(Poll::Pending) => json!(["pending"]),
                    Ok(Poll::Ready(Outcome::Ready(o))) => {
                        task.join = None;
                        json!(["ready", o.value()])
                    }
                    Ok(Poll::Ready(Outcome::Cancelled)) => {
                        task.join = None;
                        json!(["cancelled"])
                    }
                    Err(e) => {
                        drop(e);
                        task.join = None;
                        json!(["panic"])
                    }
                }
            }
            "dropjoin" => {
                self.ts.get_mut(&n(1)).unwrap().join = None;
                json!(["ok"])
            }
            "forget" => {
                let t = self.ts.remove(&n(1));
                drop(t);
                json!(["ok"])
            }
            "blockon" => {
                let (l, tries) = (n(1) as u64, n(2) as u64);
                POLLS.with(|p| p.set(0));
                TRIES.with(|p| p.set(tries));
                ROUTE.with(|r| r.set(0));
                let local = 500u64;
                let s = Scripted::new(50, l);
                let f = async {
                    let r = &local;
                    s.await;
                    out(*r + l, None)
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    with_handle!(c[3], h => h.block_on(f))
                }));
                let p = POLLS.with(|p| p.get());
                match r {
                    Ok(o) => json!(["ready", o.value(), p]),
                    Err(e) => {
                        drop(e);
                        json!(["panic", p])
                    }
                }
            }
            "enter" => {
                // What is entered borrows from its handle: keep both.
                struct Both<G>(Option<G>, Option<Box<dyn Any>>);
                impl<G> Drop for Both<G> {
                    fn drop(&mut self) {
                        drop(self.0.take());
                        drop(self.1.take());
                    }
                }
                macro_rules! enter {($T:ty, $o:expr) => ({
                    let h: Box<$T> = Box::new($o.into());
                    let r: &'static $T = unsafe { &*(&*h as *const $T) };
                    Box::new(Both(Some(r.enter()), Some(h)))
                })}
                let g: Box<dyn Any> = match c[1] {
                    "box" => enter!(H, Box::new(Exec::new())),
                    "syncbox" => enter!(HS, Box::new(Exec::new())),
                    "syncarc" => enter!(HS, Arc::new(Exec::new())),
                    form => {
                        let x: Box<Exec> = Box::new(Exec::new());
                        let rx: &'static Exec = unsafe { &*(&*x as *const Exec) };
                        let g: Box<dyn Any> =
                            if form == "ref" { enter!(H, rx) } else { enter!(HS, rx) };
                        Box::new(Both(Some(g), Some(x)))
                    }
                };
                chk::untracked(|| self.entered.push(g));
                json!(["ok"])
            }
            "leave" => {
                let g = self.entered.pop();
                drop(g);
                json!(["ok"])
            }
            x => panic!("command {x}"),
        }
    }
}

impl Driver for D {
    fn reset(&mut self) {
        for (_, mut t) in std::mem::take(&mut self.ts) {
            t.join = None;
            t.bare = None;
            drop(t);
        }
        while let Some(g) = self.entered.pop() {
            drop(g)
        }
        wakers(u64::MAX);
        WOKEN.lock().unwrap().clear();
        if EXECS.load(SeqCst) != 0 || FUT.load(SeqCst) != 0 || OUT.load(SeqCst) != 0 || INN.load(SeqCst) != 0 {
            bad()
        }
    }
    fn step(&mut self, c: &[&str]) -> Value {
        if c[0] == "tokio" {
            return scenario(num(c[1]));
        }
        WOKEN.lock().unwrap().clear();
        let res = if c[0] == "t" {
            struct P(*mut D);
            unsafe impl Send for P {}
            let d = P(self);
            chk::untracked(|| {
                std::thread::scope(|s| {
                    s.spawn(move || {
                        let d = d;
                        attempt(|| unsafe { &mut *d.0 }.go(&c[1..])).0
                    })
                    .join()
                    .unwrap()
                })
            })
        } else {
            attempt(|| {
                let v = self.go(c);
                chk::untracked(|| {
                    let w = v.clone();
                    drop(v); // allocated while tracking
                    w
                })
            })
            .0
        };
        let woken = WOKEN.lock().unwrap().clone();
        json!({"res": res.unwrap_or(json!(["panic!"])), "woken": woken, "inn": INN.load(SeqCst),
               "fut": FUT.load(SeqCst), "out": OUT.load(SeqCst), "aerr": chk::errors()})
    }
}

// ---------------------------------------------------------------------------------------------
// Random tasks on tokio.

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) % n
    }
}
/// A future of a scenario: pending `left` times, each time woken from another thread, by itself...
struct Task2 {
    t: usize,
    left: u64,
    panics: bool,
    mode: u64,
    /// Where kept wakers go.
    tx: std::sync::mpsc::Sender<(usize, u64, Kept)>,
    c: Counted,
    over: bool,
}
impl Future for Task2 {
    type Output = Out;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Out> {
        let t = self.t;
        if self.c.alive != 0xA11FE || self.over {
            bad();
        }
        if self.left == 0 {
            self.over = true;
            if self.panics {
                log(json!(["boom", t]));
                panic!("scripted");
            }
            log(json!(["fin", t]));
            return Poll::Ready(out(10 * t as u64 + 5, Some(("odrop", t))));
        }
        self.left -= 1;
        self.mode = self.mode.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        log(json!(["pend", t]));
        let p = cx as *const Context<'_> as *const ();
        let m = self.mode >> 33;
        match m % 4 {
            0 => {
                log(json!(["woke", t]));
                cx.waker().wake_by_ref();
            }
            1 => {
                log(json!(["woke", t]));
                unsafe { rust_future_task_context_wake(p) }
            }
            2 => self.tx.send((t, m, Kept::Waker(cx.waker().clone()))).unwrap(),
            _ => self.tx.send((t, m, Kept::Fn(unsafe { rust_future_task_context_get_waker(p) }))).unwrap(),
        }
        Poll::Pending
    }
}

fn scenario(seed: u64) -> Value {
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..4 {
        rng.next(2);
    }
    EVENTS.lock().unwrap().clear();
    LOGGING.store(1, SeqCst);
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(1 + rng.next(3) as usize)
        .max_blocking_threads(1 + rng.next(2) as usize)
        .build()
        .unwrap();
    let down = rng.next(5) == 0;
    let sync = rng.next(2) == 0;
    let (tx, rx) = std::sync::mpsc::channel::<(usize, u64, Kept)>();
    let waking = std::thread::spawn(move || {
        let mut held: Vec<(usize, u64, Kept)> = vec![];
        loop {
            match rx.recv_timeout(std::time::Duration::from_micros(50)) {
                Ok(k) => held.push(k),
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => (),
                Err(_) if held.is_empty() => return,
                Err(_) => (),
            }
            if !held.is_empty() && held.iter().any(|k| k.1 % 3 == 0) || held.len() > 1 || !held.is_empty() && rxempty(&mut held) {
                let i = held.len() - 1;
                let (t, _, k) = held.swap_remove(i / 2);
                log(json!(["woke", t]));
                match k {
                    Kept::Waker(w) => w.wake(),
                    Kept::Fn(f) => f.call(),
                }
            }
        }
    });
    fn rxempty(held: &mut [(usize, u64, Kept)]) -> bool {
        held[0].1 += 1; // wait a little, then go on
        held[0].1 % 3 == 2
    }
    let h1: H = Box::new(rt.handle().clone()).into();
    let h2: HS = Arc::new(rt.handle().clone()).into();
    let handle_drop_first = rng.next(3) == 0;
    let nt = 1 + rng.next(6) as usize;
    let mut joins: Vec<(usize, Pin<Box<dyn Future<Output = Outcome>>>)> = vec![];
    let gate = Arc::new((Mutex::new(!down), std::sync::Condvar::new()));
    for t in 1..=nt {
        let panics = rng.next(4) == 0;
        if rng.next(3) > 0 {
            let left = rng.next(4);
            log(json!(["spawn", t, "spawn", left, if panics { "panic" } else { "value" }]));
            let f = Task2 {
                t, left, panics, mode: rng.next(1 << 40), tx: tx.clone(),
                c: Counted::new(&FUT, Some(("drop", t))), over: false,
            };
            joins.push((t, if sync {
                let j = h2.spawn(f);
                Box::pin(async move { Outcome::Ready(j.await) })
            } else if rng.next(2) == 0 {
                let j = h1.spawn(f);
                Box::pin(async move { Outcome::Ready(j.await) })
            } else {
                let j = h1.spawn_within_tokio_reactor(f);
                Box::pin(async move { Outcome::Ready(j.await) })
            }));
        } else {
            log(json!(["spawn", t, "block", 0, if panics { "panic" } else { "value" }]));
            let c = Counted::new(&FUT, Some(("drop", t)));
            let gate = gate.clone();
            let f = move || {
                let c = c;
                let mut g = gate.0.lock().unwrap();
                while !*g {
                    g = gate.1.wait(g).unwrap();
                }
                drop(g);
                if c.alive != 0xA11FE {
                    bad()
                }
                if panics {
                    log(json!(["boom", t]));
                    panic!("scripted");
                }
                log(json!(["fin", t]));
                out(10 * t as u64 + 5, Some(("odrop", t)))
            };
            macro_rules! block {($h:ident) => ({
                let j = $h.spawn_blocking(f);
                Box::pin(async move {
                    match j.await {
                        Ok(x) => Outcome::Ready(x),
                        Err(_) => Outcome::Cancelled,
                    }
                })
            })}
            joins.push((t, if sync { block!(h2) } else { block!(h1) }));
        }
    }
    drop(tx);
    // Entering the runtime's context.
    {
        let cur = || log(json!(["current", tokio::runtime::Handle::try_current().is_ok()]));
        cur();
        log(json!(["enter"]));
        let g1;
        let g2;
        if sync {
            g2 = Some(h2.enter());
            g1 = None;
        } else {
            g1 = Some(h1.enter());
            g2 = None;
        }
        cur();
        drop((g1, g2));
        log(json!(["leave"]));
        cur();
    }
    let mut rt = Some(rt);
    if down {
        log(json!(["down"]));
        rt.take().unwrap().shutdown_background();
        *gate.0.lock().unwrap() = true;
        gate.1.notify_all();
    }
    let (mut h1, mut h2) = (Some(h1), Some(h2));
    if handle_drop_first {
        h1 = None;
        h2 = None;
    }
    while !joins.is_empty() {
        let (t, j) = joins.swap_remove(rng.next(joins.len() as u64) as usize);
        if rng.next(5) == 0 {
            log(json!(["unjoin", t]));
            drop(j);
            continue;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (&h1, &h2, rng.next(3), down) {
            (Some(h), _, 0, false) => h.block_on(j),
            (_, Some(h), 1, false) => h.block_on_within_tokio_reactor(j),
            _ => futures::executor::block_on(j),
        }));
        match r {
            Ok(Outcome::Ready(o)) => log(json!(["join", t, "ready", o.value()])),
            Ok(Outcome::Cancelled) => log(json!(["join", t, "cancelled"])),
            Err(e) => {
                drop(e);
                log(json!(["join", t, "panic"]))
            }
        }
    }
    drop((h1, h2));
    if down {
        // The runtime goes down in the background: wait for it to be done.
        for _ in 0..20000 {
            if FUT.load(SeqCst) == 0 && OUT.load(SeqCst) == 0 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_micros(100));
        }
    } else {
        for _ in 0..20000 {
            if FUT.load(SeqCst) == 0 && OUT.load(SeqCst) == 0 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_micros(100));
        }
        drop(rt.take());
    }
    waking.join().unwrap();
    LOGGING.store(0, SeqCst);
    let ev = std::mem::take(&mut *EVENTS.lock().unwrap());
    let (f, o) = (FUT.swap(0, SeqCst), OUT.swap(0, SeqCst));
    json!({"events": ev, "fut": f, "out": o, "inn": INN.load(SeqCst), "aerr": chk::errors()})
}

fn main() {
    // A lost wake-up shows as a scenario that never ends.
    vharness::run(&mut D::default())
}
