//! Driver for the specification Bytes.tla.
use safer_ffi::bytes::{Bytes, BytesVt};
use serde_json::{json, Value};
use std::io::Read;
use std::ops::Bound;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::*};
use std::sync::{Arc, Weak};
use vharness::{attempt, byte, chk, num, Driver};

type B = Bytes<'static>;

enum Stor {
    Free,
    Arc(Weak<[u8]>),
    ArcT(Weak<Payload>, Arc<AtomicIsize>),
    Block(*const u8),
    Custom(&'static Custom),
    Counter(Arc<AtomicIsize>),
    Unseen,
}

/// Contents of an `Arc<T>`; counts its destruction, and wipes the contents.
struct Payload {
    data: Vec<u8>,
    alive: Arc<AtomicIsize>,
}
impl AsRef<[u8]> for Payload {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}
impl Drop for Payload {
    fn drop(&mut self) {
        self.data.iter_mut().for_each(|b| *b = 0xEE);
        self.alive.fetch_sub(1, SeqCst);
    }
}

/// An owner given through `Bytes::from_raw_parts`.
struct Custom {
    data: *mut [u8],
    rc: AtomicIsize,
    bad: AtomicUsize,
    cap: usize,
}
unsafe impl Sync for Custom {}
unsafe impl Send for Custom {}
unsafe extern "C" fn c_retain(this: *const (), cap: usize) {
    let c = &*this.cast::<Custom>();
    if c.cap != cap || c.rc.fetch_add(1, SeqCst) <= 0 {
        c.bad.fetch_add(1, SeqCst);
    }
}
unsafe extern "C" fn c_release(this: *const (), cap: usize) {
    let c = &*this.cast::<Custom>();
    match c.rc.fetch_sub(1, SeqCst) {
        _ if c.cap != cap => drop(c.bad.fetch_add(1, SeqCst)),
        1 => (*c.data).iter_mut().for_each(|b| *b = 0xEE),
        n if n < 1 => drop(c.bad.fetch_add(1, SeqCst)),
        _ => {}
    }
}
static VT_RR: BytesVt = BytesVt { retain: Some(c_retain), release: Some(c_release) };
static VT_R: BytesVt = BytesVt { retain: None, release: Some(c_release) };
static VT_N: BytesVt = BytesVt { retain: None, release: None };
unsafe extern "C" fn nothing(_: *const (), _: usize) {}
static VT_T: BytesVt = BytesVt { retain: Some(nothing), release: None };

struct D {
    sl: Vec<Option<B>>,
    st: Vec<Stor>,
    borrowed: Vec<*mut [u8]>,
    custom: Vec<&'static Custom>,
    nslots: usize,
    nstor: usize,
}

fn data(src: usize, len: usize) -> Vec<u8> {
    (0..len).map(|i| byte(src, i)).collect()
}
fn leak(src: usize, len: usize) -> &'static mut [u8] {
    chk::untracked(|| Vec::leak(data(src, len)))
}

fn bound(k: &str, v: usize) -> Bound<usize> {
    match k {
        "inc" => Bound::Included(v),
        "exc" => Bound::Excluded(v),
        _ => Bound::Unbounded,
    }
}
fn bval(v: &str) -> usize {
    match v {
        // Top of the specification.
        "2000000000" => usize::MAX,
        v => num(v),
    }
}

macro_rules! arrays {( $l:expr, $d:expr; $($n:literal)* ) => (
    match $l {
        $( $n => { let a: &'static [u8; $n] = <&[u8; $n]>::try_from(&*$d).unwrap(); Bytes::from(a) } )*
        _ => Bytes::from(&*$d),
    }
)}

impl D {
    fn rc(&self, i: usize) -> isize {
        match &self.st[i] {
            Stor::Free => 0,
            Stor::Arc(w) => w.strong_count() as isize,
            Stor::ArcT(w, alive) => {
                let n = w.strong_count() as isize;
                if (n > 0) as isize != alive.load(SeqCst) { -100 } else { n }
            }
            Stor::Block(p) => unsafe { chk::is_live(*p) as isize },
            Stor::Custom(c) => c.rc.load(SeqCst),
            Stor::Counter(c) => -2 * c.load(SeqCst),
            Stor::Unseen => -1,
        }
    }
    fn make(&mut self, ctor: &str, src: usize, len: usize) -> Option<(B, Option<Stor>)> {
        let owned = |s| Some(s);
        Some(match ctor {
            "static" => (Bytes::from_static(leak(src, len)), None),
            "static_from" => (Bytes::from(&*leak(src, len)), None),
            "static_str" => {
                let s: &'static mut [u8] = leak(src, len);
                // SAFETY (of the reads below): never used as a str but by the conversion.
                (Bytes::from(unsafe { std::str::from_utf8_unchecked(s) }), None)
            }
            "static_arr" => {
                let s: &'static [u8] = leak(src, len);
                (
                    arrays!(len, s; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24
                        25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 64),
                    None,
                )
            }
            "empty" => (if src % 2 == 0 { Bytes::empty() } else { Bytes::default() }, None),
            "slice" => {
                let s = leak(src, len);
                let p: *mut [u8] = s;
                chk::untracked(|| self.borrowed.push(p));
                let s = unsafe { &*p };
                (Bytes::from_slice(s), None)
            }
            "cust_n" | "cust_t" => {
                let s = leak(src, len);
                let p: *mut [u8] = s;
                chk::untracked(|| self.borrowed.push(p));
                let s = unsafe { &*p };
                let vt = if ctor == "cust_n" { &VT_N } else { &VT_T };
                (unsafe { Bytes::from_raw_parts(s, core::ptr::null(), 7, vt) }, None)
            }
            "inline" => {
                let mut tmp = data(src, len);
                let r = Bytes::inline_slice(&tmp);
                tmp.iter_mut().for_each(|b| *b = 0xEE);
                (r?, None)
            }
            "copied" => {
                let mut tmp = data(src, len);
                let r = Bytes::copied_from_slice(&tmp);
                tmp.iter_mut().for_each(|b| *b = 0xEE);
                (r, if len > 32 { owned(Stor::Unseen) } else { None })
            }
            "arc" => {
                let a: Arc<[u8]> = data(src, len).into();
                let w = Arc::downgrade(&a);
                (a.into(), owned(Stor::Arc(w)))
            }
            "arct" => {
                let alive = Arc::new(AtomicIsize::new(1));
                let a = Arc::new(Payload { data: data(src, len), alive: alive.clone() });
                let w = Arc::downgrade(&a);
                (a.into(), owned(Stor::ArcT(w, alive)))
            }
            "box" => {
                let b = data(src, len).into_boxed_slice();
                let p = b.as_ptr();
                (b.into(), owned(if len == 0 { Stor::Unseen } else { Stor::Block(p) }))
            }
            "vec" => {
                let mut v = Vec::with_capacity(len + src % 2 * 13);
                v.extend_from_slice(&data(src, len));
                let b: B = v.into();
                let p = b.as_slice().as_ptr();
                (b, owned(if len == 0 { Stor::Unseen } else { Stor::Block(p) }))
            }
            "cust_rr" | "cust_r" => {
                let s: *mut [u8] = leak(src, len);
                let c: &'static Custom = chk::untracked(|| {
                    Box::leak(Box::new(Custom {
                        data: s,
                        rc: AtomicIsize::new(1),
                        bad: AtomicUsize::new(0),
                        cap: 1000 + src,
                    }))
                });
                chk::untracked(|| self.custom.push(c));
                let vt = if ctor == "cust_rr" { &VT_RR } else { &VT_R };
                let b = unsafe {
                    Bytes::from_raw_parts(&*s, (c as *const Custom).cast(), 1000 + src, vt)
                };
                (b, owned(Stor::Custom(c)))
            }
            #[cfg(feature = "stabby")]
            "sarc" => {
                let a: stabby::sync::ArcSlice<u8> = data(src, len).as_slice().into();
                (a.into(), owned(Stor::Unseen))
            }
            #[cfg(feature = "stabby")]
            "svec" => {
                let mut v: stabby::vec::Vec<u8> = stabby::vec::Vec::new();
                v.reserve(len + 9);
                data(src, len).iter().for_each(|b| v.push(*b));
                (v.into(), owned(Stor::Unseen))
            }
            #[cfg(feature = "stabby")]
            "sbox" => {
                let v: stabby::vec::Vec<u8> = data(src, len).as_slice().into();
                let b: stabby::boxed::BoxedSlice<u8> = v.into();
                (b.into(), owned(Stor::Unseen))
            }
            #[cfg(feature = "stabby")]
            "sarct" => {
                let alive = Arc::new(AtomicIsize::new(1));
                let a = stabby::sync::Arc::new(Payload { data: data(src, len), alive: alive.clone() });
                (a.into(), owned(Stor::Counter(alive)))
            }
            _ => panic!("unknown constructor {ctor}"),
        })
    }

    fn do_step(&mut self, cmd: &[&str]) -> Vec<Value> {
        let ok = || vec![json!("ok")];
        let i: usize = cmd.get(1).map_or(0, |s| num::<usize>(s));
        let at = |k: usize| -> usize { num(cmd[k]) };
        match cmd[0] {
            "mk" => {
                let (src, len) = (at(3), at(4));
                let ctor = cmd[2];
                let (r, _) = attempt(|| self.make(ctor, src, len));
                match r {
                    Ok(Some((b, s))) => {
                        if let Some(s) = s {
                            self.st[at(5)] = s;
                        }
                        self.sl[i] = Some(b);
                        ok()
                    }
                    Ok(None) => vec![json!("none")],
                    Err(()) => vec![json!("panic")],
                }
            }
            "clone" | "nclone" => {
                let j = at(2);
                let b = self.sl[i].as_ref().unwrap();
                let n = cmd[0] == "nclone";
                let (r, a) = attempt(|| if n { b.noalloc_clone() } else { Some(b.clone()) });
                match r {
                    Ok(Some(c)) => {
                        self.sl[j] = Some(c);
                        vec![json!("ok"), json!(a > 0)]
                    }
                    Ok(None) => vec![json!("none"), json!(a > 0)],
                    Err(()) => vec![json!("panic")],
                }
            }
            "upgrade" | "nupgrade" => {
                let b = self.sl[i].take().unwrap();
                let n = cmd[0] == "nupgrade";
                let (r, a) =
                    attempt(|| if n { b.noalloc_upgrade() } else { Ok(b.upgrade()) });
                match r {
                    Ok(Ok(c)) => {
                        self.sl[i] = Some(c);
                        vec![json!("ok"), json!(a > 0)]
                    }
                    Ok(Err(c)) => {
                        self.sl[i] = Some(c);
                        vec![json!("err"), json!(a > 0)]
                    }
                    Err(()) => vec![json!("panic")],
                }
            }
            "pred" => {
                let b = self.sl[i].as_ref().unwrap();
                vec![json!("ok"), json!(b.upgrade_will_allocate()), json!(b.clone_will_allocate())]
            }
            "shrink" | "subs" => {
                let r = (bound(cmd[2], bval(cmd[3])), bound(cmd[4], bval(cmd[5])));
                if cmd[0] == "shrink" {
                    let b = self.sl[i].as_mut().unwrap();
                    match attempt(|| b.shrink_to(r)).0 {
                        Ok(()) => ok(),
                        Err(()) => vec![json!("panic")],
                    }
                } else {
                    let b = self.sl[i].take().unwrap();
                    match attempt(|| b.subsliced(r)).0 {
                        Ok(b) => {
                            self.sl[i] = Some(b);
                            ok()
                        }
                        Err(()) => vec![json!("panic")],
                    }
                }
            }
            "split" => {
                let (j, n) = (at(2), bval(cmd[3]));
                let b = self.sl[i].take().unwrap();
                match attempt(|| b.split_at(n)).0 {
                    Ok(Ok((l, r))) => {
                        self.sl[i] = Some(l);
                        self.sl[j] = Some(r);
                        ok()
                    }
                    Ok(Err(b)) => {
                        self.sl[i] = Some(b);
                        vec![json!("err")]
                    }
                    Err(()) => vec![json!("panic")],
                }
            }
            "read" => {
                let n = at(2);
                let mut buf = vec![0u8; n];
                let b = self.sl[i].as_mut().unwrap();
                match attempt(|| b.read(&mut buf)).0 {
                    Ok(Ok(m)) => vec![json!("ok"), json!(m), hex(&buf[..m.min(n)])],
                    Ok(Err(_)) => vec![json!("err")],
                    Err(()) => vec![json!("panic")],
                }
            }
            "toarc" => {
                let b = self.sl[i].take().unwrap();
                let len = b.len();
                match attempt(|| Arc::<[u8]>::try_from(b)).0 {
                    Ok(Ok(a)) => {
                        let good = a.len() == len;
                        self.sl[i] = Some(Bytes::from(a));
                        vec![json!(if good { "ok" } else { "badlen" })]
                    }
                    Ok(Err(b)) => {
                        self.sl[i] = Some(b);
                        vec![json!("err")]
                    }
                    Err(()) => vec![json!("panic")],
                }
            }
            #[cfg(feature = "stabby")]
            "tosarc" => {
                let b = self.sl[i].take().unwrap();
                let len = b.len();
                match attempt(|| stabby::sync::ArcSlice::<u8>::try_from(b)).0 {
                    Ok(Ok(a)) => {
                        let good = a.len() == len;
                        self.sl[i] = Some(Bytes::from(a));
                        vec![json!(if good { "ok" } else { "badlen" })]
                    }
                    Ok(Err(b)) => {
                        self.sl[i] = Some(b);
                        vec![json!("err")]
                    }
                    Err(()) => vec![json!("panic")],
                }
            }
            "drop" => {
                let b = self.sl[i].take().unwrap();
                match attempt(|| drop(b)).0 {
                    Ok(()) => ok(),
                    Err(()) => vec![json!("panic")],
                }
            }
            "move" => {
                let j = at(2);
                let b = self.sl[i].take().unwrap();
                self.sl[j] = Some(*Box::new(b));
                ok()
            }
            "endborrow" => {
                for p in self.borrowed.drain(..) {
                    unsafe { &mut *p }.iter_mut().for_each(|b| *b = 0xEE);
                }
                ok()
            }
            c => panic!("unknown command {c}"),
        }
    }
}

fn crc32(b: &[u8]) -> u32 {
    const TABLE: [u32; 256] = {
        let mut t = [0; 256];
        let mut i = 0;
        while i < 256 {
            let mut c = i as u32;
            let mut k = 0;
            while k < 8 {
                c = if c & 1 == 1 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
                k += 1;
            }
            t[i] = c;
            i += 1;
        }
        t
    };
    static T: [u32; 256] = TABLE;
    let mut c = !0u32;
    for x in b {
        c = T[(c as u8 ^ x) as usize] ^ (c >> 8);
    }
    !c
}
fn hex(b: &[u8]) -> Value {
    use std::fmt::Write;
    if b.len() > 2000 {
        return Value::String(format!("{}:{:08x}", b.len(), crc32(b)));
    }
    let mut s = String::with_capacity(2 * b.len());
    b.iter().for_each(|b| write!(s, "{b:02x}").unwrap());
    Value::String(s)
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 11
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn of<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
}

/// A random history: picks the next command from what it sees, and records command and answer.
fn random_history(d: &mut D, seed: u64, n: usize) -> Vec<Value> {
    const CTORS: &[&str] = &[
        "static", "static_from", "static_str", "static_arr", "empty", "slice", "slice", "inline",
        "copied", "arc", "arct", "box", "vec", "cust_rr", "cust_r", "cust_n", "cust_t",
        #[cfg(feature = "stabby")]
        "sarc",
        #[cfg(feature = "stabby")]
        "sarct",
        #[cfg(feature = "stabby")]
        "sbox",
        #[cfg(feature = "stabby")]
        "svec",
    ];
    const LENS: &[usize] =
        &[0, 1, 2, 7, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 34, 38, 39, 40, 41, 48, 63, 64, 65, 80, 99, 127, 255, 256, 257, 290];
    let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    let mut out = vec![];
    // The lifetime promised by the type of each slot: the driver's own borrow checker.
    let mut bor = vec![false; d.nslots + 1];
    while out.len() < n {
        let full: Vec<usize> = (1..=d.nslots).filter(|&i| d.sl[i].is_some()).collect();
        let empty: Vec<usize> = (1..=d.nslots).filter(|&i| d.sl[i].is_none()).collect();
        let mut bound = |r: &mut Rng, len: usize| -> (String, String) {
            let v = match r.below(12) {
                0 => 0,
                1 => len,
                2 => len + 1,
                3 if r.below(6) == 0 => 2_000_000_000,
                4 => len.saturating_sub(32),
                5 => len.saturating_sub(33),
                6 => len.saturating_sub(1),
                7 => 32,
                8 => 33,
                _ => r.below(len + 1),
            };
            (r.of(&["inc", "exc", "unb"]).to_string(), v.to_string())
        };
        let op = r.below(100);
        let cmd: Vec<String> = if full.is_empty() || (op < 14 && !empty.is_empty()) {
            let i = empty[r.below(empty.len())];
            let c = r.of(CTORS);
            let len = if c == "empty" { 0 } else { LENS[r.below(LENS.len())] };
            let takes = matches!(
                c,
                "arc" | "arct" | "cust_rr" | "sarc" | "sarct" | "sbox" | "svec" | "box" | "vec" | "cust_r"
            );
            let o = if takes {
                match (1..=d.nstor).find(|&o| d.rc(o) == 0) {
                    Some(o) => o,
                    // Uncountable ones cannot be reused before the end of the history.
                    None => break,
                }
            } else {
                0
            };
            bor[i] = matches!(c, "slice" | "cust_n" | "cust_t");
            let src = r.below(9);
            vec!["mk".into(), i.to_string(), c.into(), src.to_string(), len.to_string(), o.to_string()]
        } else {
            let i = full[r.below(full.len())];
            let j = empty.get(r.below(empty.len().max(1))).copied();
            let len = d.sl[i].as_ref().unwrap().len();
            let s = |c: &str| vec![c.to_string(), i.to_string()];
            match (op, j) {
                (0..=29, Some(j)) => {
                    let mut v = s(if op % 4 == 0 { "nclone" } else { "clone" });
                    v.push(j.to_string());
                    v
                }
                (30..=39, Some(j)) => {
                    let mut v = s("split");
                    v.push(j.to_string());
                    v.push(bound(&mut r, len).1);
                    v
                }
                (40..=43, Some(j)) => {
                    let mut v = s("move");
                    v.push(j.to_string());
                    v
                }
                (44..=58, _) => {
                    let mut v = s(if op < 53 { "shrink" } else { "subs" });
                    let (a, b) = bound(&mut r, len);
                    let (c, e) = bound(&mut r, len);
                    v.extend([a, b, c, e]);
                    v
                }
                (59..=64, _) => s("upgrade"),
                (65..=68, _) => s("nupgrade"),
                (69..=74, _) => s("pred"),
                (75..=79, _) => {
                    let mut v = s("read");
                    v.push(r.below(len + 9).to_string());
                    v
                }
                (80..=83, _) => s("toarc"),
                #[cfg(feature = "stabby")]
                (84..=86, _) => s("tosarc"),
                (87..=88, _) if full.iter().all(|&i| !bor[i]) => vec!["endborrow".into()],
                _ => s("drop"),
            }
        };
        let words: Vec<&str> = cmd.iter().map(|s| &s[..]).collect();
        let threaded: Vec<&str>;
        let ans = if r.below(6) == 0 {
            threaded = [&["t"], &words[..]].concat();
            d.step(&threaded)
        } else {
            d.step(&words)
        };
        let ok = ans["res"][0] == "ok";
        let i: usize = words.get(1).map_or(0, |s| num(s));
        match words[0] {
            "upgrade" | "nupgrade" if ok => bor[i] = false,
            "clone" | "nclone" | "split" | "move" if ok => bor[num::<usize>(words[2])] = bor[i],
            _ => {}
        }
        out.push(json!({"cmd": cmd, "ans": ans}));
    }
    out
}

impl Driver for D {
    fn reset(&mut self) {
        // Everything goes, whoever still holds it last.
        for s in &mut self.sl {
            if let Some(b) = s.take() {
                let _ = attempt(|| drop(b));
            }
        }
        for c in self.custom.drain(..) {
            if c.rc.load(SeqCst) != 0 || c.bad.load(SeqCst) != 0 {
                chk::ERRORS.fetch_add(1, SeqCst);
            }
        }
        for s in &mut self.st {
            if let Stor::ArcT(_, a) | Stor::Counter(a) = s {
                if a.load(SeqCst) != 0 {
                    chk::ERRORS.fetch_add(1, SeqCst);
                }
            }
            *s = Stor::Free;
        }
        self.borrowed.clear();
    }
    fn step(&mut self, cmd: &[&str]) -> Value {
        if cmd[0] == "cfg" {
            self.reset();
            self.nslots = num(cmd[1]);
            self.nstor = num(cmd[2]);
            self.sl = (0..=self.nslots).map(|_| None).collect();
            self.st = (0..=self.nstor).map(|_| Stor::Free).collect();
            return json!({"cfg": true});
        }
        if cmd[0] == "rand" {
            return Value::Array(random_history(self, num(cmd[1]), num(cmd[2])));
        }
        // `t`: on another thread.
        let res = if cmd[0] == "t" {
            struct P(*mut D);
            unsafe impl Send for P {}
            let p = P(self);
            std::thread::scope(|s| {
                s.spawn(move || {
                    let p = p;
                    unsafe { &mut *p.0 }.do_step(&cmd[1..])
                })
                .join()
                .unwrap()
            })
        } else {
            self.do_step(cmd)
        };
        let sl: Vec<Value> = self.sl[1..]
            .iter()
            .map(|s| match s {
                None => Value::Null,
                Some(b) if b.len() != b.as_slice().len() => json!("len"),
                Some(b) => hex(b.as_slice()),
            })
            .collect();
        let st: Vec<isize> = (1..=self.nstor).map(|i| self.rc(i)).collect();
        let bad: usize = self.custom.iter().map(|c| c.bad.load(SeqCst)).sum();
        json!({"res": res, "sl": sl, "st": st, "aerr": chk::errors() + bad})
    }
}

fn main() {
    let mut d = D {
        sl: vec![],
        st: vec![],
        borrowed: vec![],
        custom: vec![],
        nslots: 0,
        nstor: 0,
    };
    vharness::run(&mut d)
}
