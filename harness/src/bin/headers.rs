//! Driver for the specifications HeaderOut.tla and Headers.tla: one JSON request per line.
use safer_ffi::headers::{builder, Definer, HashSetDefiner, Language};
use safer_ffi::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{self, BufRead, Write};

// The library whose headers are generated: see `LIBRARY` in c_output.py.
#[derive_ReprC]
#[repr(u8)]
#[derive(Clone, Copy)]
pub enum Color {
    Red = 3,
    Blue,
}
/// A point
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Point {
    x: i32,
    y: i32,
}
/// From here
/// to there
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Line {
    from: Point,
    to: Point,
    color: Color,
}
#[derive_ReprC]
#[repr(opaque)]
pub struct Ctx {
    _n: String,
}
#[derive_ReprC]
#[repr(C)]
pub struct Holder {
    line: Line,
    sizes: [u16; 3],
    cb: Option<unsafe extern "C" fn(Point) -> Color>,
    pair: safer_ffi::tuple::Tuple2<u8, f64>,
}
/// Nothing needs it.
#[ffi_export]
#[derive_ReprC]
#[repr(i16)]
pub enum Alone {
    Here = -1,
}
#[ffi_export]
fn ctx_use(_c: &Ctx, _p: c_slice::Ref<'_, Point>) -> f32 {
    0.
}
/// Makes one.
#[ffi_export]
fn holder_make(_l: Line) -> repr_c::Box<Holder> {
    unimplemented!()
}
#[ffi_export]
fn line_len(_l: Line, _s: char_p::Ref<'_>) -> u64 {
    0
}
#[ffi_export]
fn zero() {}
/// The answer
#[ffi_export]
pub const ANSWER: i32 = -42;
#[ffi_export]
pub const LIMIT: u8 = 200;

// -------------------------------------------------------------------------------- a faulty writer

#[derive(Debug)]
struct Boom(String);
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Boom {}
fn failure(kind: &str) -> io::Error {
    match kind {
        "os" => io::Error::from_raw_os_error(5),
        "pipe" => io::ErrorKind::BrokenPipe.into(),
        "block" => io::Error::new(io::ErrorKind::WouldBlock, Boom("block".into())),
        "intr" => io::ErrorKind::Interrupted.into(),
        k => io::Error::new(io::ErrorKind::Other, Boom(k.into())),
    }
}
fn named(e: &io::Error) -> String {
    if let Some(b) = e.get_ref().and_then(|e| e.downcast_ref::<Boom>()) {
        return b.0.clone();
    }
    match (e.raw_os_error(), e.kind()) {
        (Some(5), _) => "os".into(),
        (Some(n), _) => format!("os{n}"),
        (_, io::ErrorKind::BrokenPipe) => "pipe".into(),
        (_, io::ErrorKind::Interrupted) => "interrupted".into(),
        (_, io::ErrorKind::WriteZero) => "zero".into(),
        (_, io::ErrorKind::AlreadyExists) => "exists".into(),
        (_, k) => format!("{k:?}: {e}"),
    }
}

struct Faulty<'a> {
    full: Option<&'a [u8]>,
    got: Vec<u8>,
    /// call number -> answer; counted from the first call
    sched: HashMap<u64, String>,
    flushes: Vec<String>,
    calls: u64,
    nflush: usize,
    events: Vec<Value>,
    run: u64,
}
impl Faulty<'_> {
    fn end_run(&mut self) {
        if self.run > 0 {
            self.events.push(json!(["w", self.run]));
            self.run = 0;
        }
    }
}
impl Write for Faulty<'_> {
    fn write(&mut self, data: &[u8]) -> io::Result<usize> {
        if data.is_empty() {
            return Ok(0);
        }
        let answer = self.sched.get(&self.calls).cloned().unwrap_or("all".into());
        self.calls += 1;
        let n = match &*answer {
            "all" => data.len(),
            "one" => 1,
            "half" => (data.len() + 1) / 2,
            "intr" => {
                self.end_run();
                self.events.push(json!(["intr"]));
                return Err(failure("intr"));
            }
            "zero" => {
                self.end_run();
                self.events.push(json!(["fail", "zero"]));
                return Ok(0);
            }
            k => {
                self.end_run();
                self.events.push(json!(["fail", k]));
                return Err(failure(k));
            }
        };
        if let Some(full) = self.full {
            if !full[self.got.len().min(full.len())..].starts_with(data) {
                self.end_run();
                self.events.push(json!(["corrupt", self.got.len(), String::from_utf8_lossy(data)]));
            }
        }
        self.got.extend_from_slice(&data[..n]);
        self.run += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.end_run();
        let a = self.flushes.get(self.nflush).cloned().unwrap_or("ok".into());
        self.nflush += 1;
        if a == "ok" || a == "intr" {
            self.events.push(json!(["flush", a]));
        } else {
            self.events.push(json!(["fail", a]));
        }
        if a == "ok" { Ok(()) } else { Err(failure(&a)) }
    }
}

fn language(l: &str) -> Language {
    match l {
        "c" => Language::C,
        "cs" => Language::CSharp,
        _ => Language::Python,
    }
}

/// A definer of our own, which keeps its names in order of insertion.
struct Names<'a> {
    names: Vec<String>,
    out: &'a mut dyn Write,
}
impl Definer for Names<'_> {
    fn insert(&mut self, name: &str) -> bool {
        let new = !self.names.iter().any(|n| n == name);
        if new {
            self.names.push(name.into());
        }
        new
    }
    fn out(&mut self) -> &mut dyn Write {
        &mut *self.out
    }
}

macro_rules! configured {
    ($q:expr) => {{
        let q = $q;
        let mut b = builder().with_language(language(q["lang"].as_str().unwrap()));
        if let Some(s) = q["stable"].as_bool() {
            b = b.with_stable_header(s);
        }
        if let Some(s) = q["banner"].as_str() {
            b = b.with_banner(s);
        }
        if let Some(s) = q["guard"].as_str() {
            b = b.with_guard(s);
        }
        if let Some(s) = q["after"].as_str() {
            b = b.with_text_after_guard(s);
        }
        b
    }};
}
fn outcome(r: io::Result<()>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => named(&e),
    }
}

/// Generates into a faulty writer, directly or through some buffering writer.
fn generate(q: &Value, sink: &str, w: &mut Faulty<'_>) -> io::Result<()> {
    let b = configured!(q);
    match sink {
        "direct" => b.to_writer(w).generate(),
        "dyn" => b.to_writer(w as &mut dyn Write).generate(),
        "box" => b.to_writer(Box::new(w) as Box<dyn Write + '_>).generate(),
        "line" => b.to_writer(io::LineWriter::with_capacity(64, w)).generate(),
        "definer" => b.generate_with_definer(&mut HashSetDefiner {
            defines_set: Default::default(),
            out: w,
        }),
        "own" => b.generate_with_definer(&mut Names { names: vec![], out: w }),
        s => {
            let cap: usize = s.strip_prefix("buf").unwrap().parse().unwrap();
            b.to_writer(io::BufWriter::with_capacity(cap, w)).generate()
        }
    }
}
fn config(q: &Value) -> String {
    ["lang", "stable", "banner", "guard", "after"].map(|k| q[k].to_string()).join("|")
}

fn text<'a>(cache: &'a mut HashMap<String, Vec<u8>>, q: &Value) -> &'a [u8] {
    cache.entry(config(q)).or_insert_with(|| {
        let mut v = vec![];
        configured!(q).to_writer(&mut v).generate().unwrap();
        v
    })
}

fn faults(cache: &mut HashMap<String, Vec<u8>>, q: &Value) -> Value {
    let full = text(cache, q);
    let base = q["base"].as_u64().unwrap();
    let strs = |v: &Value| -> Vec<String> {
        v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
    };
    let sched = strs(&q["sched"]).into_iter().enumerate().map(|(i, a)| (base + i as u64, a)).collect();
    let mut w = Faulty {
        full: Some(full),
        got: vec![],
        sched,
        flushes: strs(&q["flush"]),
        calls: 0,
        nflush: 0,
        events: vec![json!(["reset", full.len()])],
        run: 0,
    };
    let r = outcome(generate(q, q["sink"].as_str().unwrap(), &mut w));
    w.end_run();
    w.events.push(json!(["end", r]));
    // What was accepted last, after the end (a buffer that is dropped), is judged too.
    let prefix = full.starts_with(&w.got);
    json!({"events": w.events, "calls": w.calls, "flushes": w.nflush, "prefix": prefix})
}

fn library(q: &Value) -> Value {
    let mut out = vec![];
    let pre: Vec<String> = q["pre"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
    let b = configured!(q);
    let (r, names) = if q["own"] == true {
        let mut d = Names { names: pre, out: &mut out };
        let r = b.generate_with_definer(&mut d);
        (r, d.names)
    } else {
        let mut d = HashSetDefiner { defines_set: pre.into_iter().collect(), out: &mut out };
        let r = b.generate_with_definer(&mut d);
        (r, d.defines_set.into_iter().collect())
    };
    json!({"res": outcome(r), "names": names, "text": String::from_utf8(out).unwrap()})
}

/// Follows a script: returns the error that ended the current definition, with the number of further
/// definitions it has to end.
fn follow(d: &mut dyn Definer, style: u64, script: &[Value], at: &mut usize, log: &mut Vec<Value>) -> io::Result<()> {
    while *at < script.len() {
        let e = &script[*at];
        *at += 1;
        let name = |e: &Value| match style {
            0 => format!("n{}", e[1]),
            1 => "x".repeat(e[1].as_u64().unwrap() as usize - 1), // starting with the empty name
            _ => format!("a rather long name, as those of functions that take functions are: é {}", e[1]),
        };
        match e[0].as_str().unwrap() {
            "begin" | "already" => {
                let mut called = 0;
                let r = d.define_once(&name(e), &mut |d| {
                    called += 1;
                    log.push(json!(["begin", e[1]]));
                    follow(d, style, script, at, log)
                });
                if called != 1 {
                    log.push(json!([if called == 0 { "already" } else { "again" }, e[1]]));
                }
                if let Err(e) = r {
                    let left: u64 = named(&e).parse().unwrap();
                    if left > 0 {
                        return Err(failure(&(left - 1).to_string()));
                    }
                }
            }
            "insert" => {
                let new = d.insert(&name(e));
                log.push(json!(["insert", e[1], new]));
            }
            "text" => {
                write!(d.out(), "<{}>", e[1])?;
                log.push(json!(["text", e[1]]));
            }
            "end" => {
                log.push(json!(["end", e[1]]));
                return Ok(());
            }
            "fail" => {
                log.push(json!(["fail", e[1]]));
                return Err(failure(&(e[1].as_u64().unwrap() - 1).to_string()));
            }
            x => panic!("{x}"),
        }
    }
    Ok(())
}
fn script(q: &Value) -> Value {
    let (mut out, mut log, mut at) = (vec![], vec![], 0);
    let style = q["style"].as_u64().unwrap();
    let s = q["script"].as_array().unwrap();
    let (r, mut names): (_, Vec<String>) = if q["own"] == true {
        let mut d = Names { names: vec![], out: &mut out };
        (follow(&mut d, style, s, &mut at, &mut log), d.names)
    } else {
        let mut d = HashSetDefiner { defines_set: Default::default(), out: &mut out };
        (follow(&mut d, style, s, &mut at, &mut log), d.defines_set.into_iter().collect())
    };
    names.sort();
    let names = names.len();
    json!({"log": log, "res": outcome(r), "names": names, "text": String::from_utf8(out).unwrap()})
}

/// Generates into a file.
fn file(cache: &mut HashMap<String, Vec<u8>>, q: &Value) -> Value {
    let full = text(cache, q).len();
    match configured!(q).to_file(q["path"].as_str().unwrap()) {
        Err(e) => json!({"res": outcome(Err(e)), "opened": false, "len": full}),
        Ok(b) => json!({"res": outcome(b.generate()), "opened": true, "len": full}),
    }
}

fn main() {
    std::env::set_var("CARGO_PKG_NAME", "some-lib");
    let mut cache = HashMap::new();
    let stdout = io::stdout();
    for line in io::stdin().lock().lines() {
        let q: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let a = match q["do"].as_str().unwrap() {
            "text" => json!({"text": String::from_utf8(text(&mut cache, &q).to_vec()).unwrap()}),
            "faults" => faults(&mut cache, &q),
            "library" => library(&q),
            "script" => script(&q),
            "file" => file(&mut cache, &q),
            x => panic!("{x}"),
        };
        writeln!(stdout.lock(), "{a}").unwrap();
    }
}
