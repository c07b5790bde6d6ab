//! Shared parts of the conformance drivers: a checking allocator, and the command loop.
//!
//! A driver reads one command per line and answers each with one JSON line. It holds no oracle:
//! what an answer should be comes from the TLA+ specification (see /verif/spec).

use serde_json::Value;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::*};

pub mod abi;
pub mod chk {
    //! Checking allocator: every block has a header; frees are checked against it, poisoned and
    //! (up to a budget) never reused, so that a double free, a free with another layout and a use
    //! after free all show.
    use super::*;

    const LIVE: u64 = 0x5afe_a110_c8ed_0001;
    const FREED: u64 = 0x5afe_a110_c8ed_dead;
    const CANARY: u64 = 0xc0de_cafe_f00d_beef;

    #[repr(C, align(16))]
    struct Header {
        magic: u64,
        size: usize,
        align: usize,
        tracked: u64,
        serial: u64,
        pad: u64,
    }
    const H: usize = core::mem::size_of::<Header>();

    pub static ERRORS: AtomicUsize = AtomicUsize::new(0);
    pub static LIVE_TRACKED: AtomicIsize = AtomicIsize::new(0);
    pub static LIVE_BYTES: AtomicIsize = AtomicIsize::new(0);
    pub static QUARANTINED: AtomicUsize = AtomicUsize::new(0);
    static SERIAL: AtomicUsize = AtomicUsize::new(1);
    static LAST_LARGE: AtomicUsize = AtomicUsize::new(0);
    const QUARANTINE_BUDGET: usize = 1 << 30;

    thread_local! {
        static TRACK: Cell<bool> = const { Cell::new(false) };
        static ALLOCS: Cell<usize> = const { Cell::new(0) };
        static FREES: Cell<usize> = const { Cell::new(0) };
        static FAIL: Cell<bool> = const { Cell::new(false) };
    }

    pub struct Checking;
    fn off(align: usize) -> usize {
        (H + align - 1) / align * align
    }

    unsafe impl GlobalAlloc for Checking {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let align = l.align().max(16);
            let o = off(align);
            let total = o + l.size() + 8;
            let base = System.alloc(Layout::from_size_align_unchecked(total, align));
            if base.is_null() {
                return base;
            }
            let p = base.add(o);
            let t = TRACK.try_with(|t| t.get()).unwrap_or(false);
            let h = p.sub(H).cast::<Header>();
            h.write(Header {
                magic: LIVE,
                size: l.size(),
                align: l.align(),
                tracked: t as u64,
                serial: SERIAL.fetch_add(1, Relaxed) as u64,
                pad: 0,
            });
            p.add(l.size()).cast::<u64>().write_unaligned(CANARY);
            core::ptr::write_bytes(p, 0xA5, l.size());
            if t {
                if l.size() >= 4000 {
                    LAST_LARGE.store(p as usize, SeqCst);
                }
                LIVE_TRACKED.fetch_add(1, SeqCst);
                LIVE_BYTES.fetch_add(l.size() as isize, SeqCst);
                let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let h = &mut *p.sub(H).cast::<Header>();
            if h.magic != LIVE
                || h.size != l.size()
                || h.align != l.align()
                || p.add(l.size()).cast::<u64>().read_unaligned() != CANARY
            {
                ERRORS.fetch_add(1, SeqCst);
                return; // leak it: the answer is already "wrong"
            }
            h.magic = FREED;
            let t = TRACK.try_with(|t| t.get()).unwrap_or(false);
            if t {
                let _ = FREES.try_with(|a| a.set(a.get() + 1));
            }
            if h.tracked == 1 {
                LIVE_TRACKED.fetch_sub(1, SeqCst);
                LIVE_BYTES.fetch_sub(l.size() as isize, SeqCst);
            }
            core::ptr::write_bytes(p, 0xDE, l.size());
            let keep = h.tracked == 1 || t;
            if keep && QUARANTINED.fetch_add(l.size() + 64, Relaxed) < QUARANTINE_BUDGET {
                return;
            }
            h.magic = 0;
            let align = l.align().max(16);
            let o = off(align);
            System.dealloc(
                p.sub(o),
                Layout::from_size_align_unchecked(o + l.size() + 8, align),
            );
        }
    }

    /// The last block of 4000 bytes or more allocated while tracking was on, since the last call.
    pub fn take_large() -> *const u8 {
        LAST_LARGE.swap(0, SeqCst) as *const u8
    }

    /// Is `p` the start of a block that is still allocated?
    ///
    /// # Safety
    /// `p` must have been returned by this allocator while tracking was on.
    pub unsafe fn is_live(p: *const u8) -> bool {
        (*p.sub(H).cast::<Header>()).magic == LIVE
    }

    /// Runs `f` with its allocations on this thread tracked; returns its number of allocations too.
    pub fn tracked<R>(f: impl FnOnce() -> R) -> (R, usize) {
        let old = TRACK.with(|t| t.replace(true));
        let a0 = ALLOCS.with(|a| a.get());
        let r = f();
        let a1 = ALLOCS.with(|a| a.get());
        TRACK.with(|t| t.set(old));
        (r, a1 - a0)
    }
    pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
        let old = TRACK.with(|t| t.replace(false));
        let r = f();
        TRACK.with(|t| t.set(old));
        r
    }
    pub fn live() -> isize {
        LIVE_TRACKED.load(SeqCst)
    }
    pub fn errors() -> usize {
        ERRORS.load(SeqCst)
    }
}

#[global_allocator]
static GLOBAL: chk::Checking = chk::Checking;

/// Runs `f`, catching a panic; allocations are tracked. `Err(())` if it panicked.
pub fn attempt<R>(f: impl FnOnce() -> R) -> (Result<R, ()>, usize) {
    chk::tracked(|| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            drop(e);
            Err(())
        }
    })
}

pub trait Driver {
    fn reset(&mut self);
    fn step(&mut self, cmd: &[&str]) -> Value;
}

/// The command loop. `reset` starts a new history; everything else goes to the driver.
pub fn run(d: &mut dyn Driver) {
    if std::env::var_os("VH_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    // Warm up what is allocated lazily on a first panic.
    let _ = attempt(|| -> () { panic!("warm up {}", 1) });
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let flush = std::env::var_os("VH_FLUSH").is_some();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let cmd: Vec<&str> = line.split_whitespace().collect();
        if cmd.is_empty() {
            continue;
        }
        let v = if cmd[0] == "reset" {
            d.reset();
            serde_json::json!({"reset": true, "leaked": chk::live(), "aerr": chk::errors()})
        } else {
            d.step(&cmd)
        };
        serde_json::to_writer(&mut out, &v).unwrap();
        out.write_all(b"\n").unwrap();
        if flush {
            out.flush().unwrap();
        }
    }
    out.flush().unwrap();
    drop(out);
    // No destructors of statics: the driver's own state has been dealt with.
    std::process::exit(0);
}

pub fn num<T: std::str::FromStr>(s: &str) -> T
where
    T::Err: std::fmt::Debug,
{
    s.parse().unwrap()
}

/// The byte at position `i` of source `s`: neighbouring positions and sources differ.
pub fn byte(s: usize, i: usize) -> u8 {
    (i * i * 3 + i * 5 + s * 53 + 1 + i / 256 * 7 + i / 65536 * 11) as u8
}
