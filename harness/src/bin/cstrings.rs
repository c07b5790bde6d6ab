//! Driver for the specification CStrings.tla.
use safer_ffi::char_p::{char_p_boxed, char_p_raw, char_p_ref, new, InvalidNulTerminator};
use safer_ffi::prelude::*;
use safer_ffi::string::str_ref;
use serde_json::{json, Value};
use std::convert::{TryFrom, TryInto};
use std::ffi::{CStr, CString};
use vharness::{attempt, chk, num, Driver};

enum V {
    None,
    CBox(char_p_boxed),
    Ref(char_p_ref<'static>),
    Str(String),
    Raw(Vec<u8>),
}
use V::*;

struct D(Vec<V>);

/// Memory that outlives everything: what the borrowed strings refer to, followed by a canary that
/// is neither a terminator nor text.
fn arena(b: &[u8]) -> &'static [u8] {
    chk::untracked(|| {
        let mut v = b.to_vec();
        v.extend_from_slice(&[0xEE; 8]);
        &Box::leak(v.into_boxed_slice())[..b.len()]
    })
}
fn string(b: &[u8], spare: usize) -> String {
    let mut s = String::with_capacity(b.len() + spare);
    s.push_str(std::str::from_utf8(b).unwrap());
    s
}
type R = Result<V, (&'static str, Vec<u8>)>;
fn back<T>(r: Result<char_p_boxed, InvalidNulTerminator<T>>) -> R
where
    T: Into<Vec<u8>>,
{
    r.map(CBox).map_err(|InvalidNulTerminator(s)| ("err", chk::untracked(|| s.into().to_vec())))
}

fn make(src: &str, b: &[u8]) -> R {
    let cstring = || unsafe { CString::from_vec_unchecked(b.to_vec()) };
    let s = |spare| string(b, spare);
    Ok(CBox(match src {
        "new_str" => new(&*s(0)),
        "new_sref" => new(str_ref::from(&*s(0))),
        "new_string" => new(s(0)),
        "new_cstring" => new(repr_c::String::from(s(3))),
        "try_string" => {
            let r: Result<char_p_boxed, _> = s(0).try_into();
            return back(r);
        }
        "try_string_spare" => return back(char_p_boxed::try_from(s(9))),
        "new_cstr" => new(cstring().as_c_str()),
        "new_stdcstring" => new(cstring()),
        "from_stdcstring" => cstring().into(),
        "ref_cstr" => {
            let c = chk::untracked(|| -> &'static CStr { Box::leak(cstring().into_boxed_c_str()) });
            return Ok(Ref(c.into()));
        }
        "ref_str" => {
            let t: &'static str = std::str::from_utf8(arena(b)).unwrap();
            return match char_p_ref::try_from(t) {
                Ok(r) => Ok(Ref(r)),
                Err(InvalidNulTerminator(())) => Err(("err", vec![])),
            };
        }
        _ => panic!("{src}"),
    }))
}

/// Do all ways to read it agree with `want`?
fn look_ref(r: char_p_ref<'_>, want: &[u8]) -> bool {
    let text = std::str::from_utf8(want).unwrap();
    let mut z = want.to_vec();
    z.push(0);
    let raw: char_p_raw = r.into();
    let nz = |n: &[std::num::NonZeroU8]| n.iter().map(|b| b.get()).eq(want.iter().copied());
    r.to_str() == text
        && r.to_bytes() == want
        && r.to_bytes_with_null() == z
        && r.to_str_with_null().as_bytes() == z
        && nz(r.to_nonzero_bytes())
        && r.bytes().map(|b| b.get()).eq(want.iter().copied())
        && r.to_string() == text
        && format!("{r}") == text
        && format!("{r:?}") == format!("{text:?}")
        && format!("{r:>9}") == format!("{text:>9}")
        && unsafe { raw.as_ref() } == r
}
fn look_box(r: &char_p_boxed, want: &[u8]) -> bool {
    let text = std::str::from_utf8(want).unwrap();
    let mut z = want.to_vec();
    z.push(0);
    r.to_str() == text
        && r.to_bytes() == want
        && r.to_bytes_with_null() == z
        && r.to_str_with_null().as_bytes() == z
        && r.to_nonzero_bytes().iter().map(|b| b.get()).eq(want.iter().copied())
        && r.bytes().map(|b| b.get()).eq(want.iter().copied())
        && format!("{r}") == text
        && format!("{r:?}") == format!("{text:?}")
        && look_ref(r.as_ref(), want)
}

impl D {
    fn bytes(&self, i: usize) -> (&'static str, Vec<u8>) {
        // What C sees: the bytes up to the first NUL.
        fn c(p: *const u8) -> Vec<u8> {
            unsafe { CStr::from_ptr(p as *const std::os::raw::c_char) }.to_bytes().to_vec()
        }
        match &self.0[i] {
            None => ("none", vec![]),
            CBox(b) => ("box", c(unsafe { std::mem::transmute_copy::<char_p_boxed, *const u8>(b) })),
            Ref(b) => ("ref", c(unsafe { std::mem::transmute_copy::<char_p_ref<'_>, *const u8>(b) })),
            Str(s) => ("string", s.as_bytes().to_vec()),
            Raw(s) => ("vec", s.clone()),
        }
    }
    fn act(&mut self, cmd: &[&str]) -> (&'static str, Vec<u8>) {
        let i: usize = num(cmd[1]);
        let ok = ("ok", vec![]);
        match cmd[0] {
            "mk" => {
                let b: Vec<u8> = cmd[3..].iter().map(|b| num(b)).collect();
                match attempt(|| make(cmd[2], &b)).0 {
                    Ok(Ok(v)) => {
                        self.0[i] = v;
                        ok
                    }
                    Ok(Err((e, b))) => (e, b),
                    Err(()) => ("panic", vec![]),
                }
            }
            "empty" => {
                self.0[i] = Ref(char_p_ref::EMPTY);
                ok
            }
            "look" => {
                let (_, w) = self.bytes(i);
                let good = attempt(|| match &self.0[i] {
                    CBox(b) => look_box(b, &w),
                    Ref(r) => look_ref(*r, &w),
                    _ => false,
                });
                (if good.0 == Ok(true) { "ok" } else { "readings differ" }, vec![])
            }
            "conv" => {
                let v = std::mem::replace(&mut self.0[i], None);
                let r = attempt(|| match (v, cmd[2]) {
                    (CBox(b), "string") => Str(b.into_string()),
                    (CBox(b), "vec") => Raw(b.into_vec()),
                    (Ref(r), "box") => CBox(r.to_owned()),
                    (Ref(r), "raw") => {
                        let raw: char_p_raw = r.into();
                        Ref(unsafe { std::mem::transmute(raw.as_ref()) })
                    }
                    (Str(s), "box") => CBox(s.try_into().unwrap()),
                    _ => panic!(),
                });
                match r.0 {
                    Ok(v) => {
                        self.0[i] = v;
                        ok
                    }
                    Err(()) => ("panic", vec![]),
                }
            }
            "copy" => {
                let j: usize = num(cmd[2]);
                let r = attempt(|| match (&self.0[i], cmd[3]) {
                    (CBox(b), "clone") => CBox(b.clone()),
                    (Ref(b), "clone") => Ref(*b),
                    (CBox(b), "own") => CBox(b.to_owned()),
                    (Ref(b), "own") => CBox((*b).to_owned()),
                    (CBox(b), "refown") => CBox(b.as_ref().to_owned()),
                    (Ref(b), "refown") => CBox(b.clone().to_owned()),
                    (CBox(b), "text") => Str(b.as_ref().to_string()),
                    (Ref(b), "text") => Str(b.to_string()),
                    _ => panic!(),
                });
                match r.0 {
                    Ok(v) => {
                        self.0[j] = v;
                        ok
                    }
                    Err(()) => ("panic", vec![]),
                }
            }
            "eq" => {
                let j: usize = num(cmd[2]);
                let e = match (&self.0[i], &self.0[j]) {
                    (CBox(a), CBox(b)) => (a == b, a != b),
                    (Ref(a), Ref(b)) => (a == b, a != b),
                    _ => panic!(),
                };
                ("ok", vec![if e == (true, false) { 1 } else if e == (false, true) { 0 } else { 9 }])
            }
            "drop" => {
                let v = std::mem::replace(&mut self.0[i], None);
                (if attempt(|| drop(v)).0.is_ok() { "ok" } else { "panic" }, vec![])
            }
            c => panic!("{c}"),
        }
    }
}
impl Driver for D {
    fn reset(&mut self) {
        for v in self.0.iter_mut() {
            let v = std::mem::replace(v, None);
            let _ = attempt(|| drop(v));
        }
    }
    fn step(&mut self, cmd: &[&str]) -> Value {
        let res = self.act(cmd);
        let sl: Vec<_> = (1..self.0.len()).map(|i| self.bytes(i)).collect();
        json!({"res": res, "sl": sl, "aerr": chk::errors()})
    }
}
fn main() {
    let n: usize = num(&std::env::var("VH_SLOTS").unwrap());
    vharness::run(&mut D((0..=n).map(|_| None).collect()))
}
