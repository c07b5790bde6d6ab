"""Renders the universes generated by spec/MCAbi.tla as Rust programs."""
import vlib

PTR = {"ptr": "*const {}", "mptr": "*mut {}", "ref": "&'static {}", "mref": "&'static mut {}",
       "nn": "::core::ptr::NonNull<{}>", "nnr": "::safer_ffi::ptr::NonNullRef<{}>",
       "nnm": "::safer_ffi::ptr::NonNullMut<{}>", "nno": "::safer_ffi::ptr::NonNullOwned<{}>",
       "box": "repr_c::Box<{}>", "out": "Out<'static, {}>",
       "sbox": "::stabby::boxed::Box<{}>", "sarc": "::stabby::sync::Arc<{}>", "sweak": "::stabby::sync::Weak<{}>",
       "slike": "::stabby::abi::StableLike<{0}, {0}>", "stb": "::safer_ffi::stabby::Stabbied<{}>",
       "sref": "&'static {}"}
SL = {"ref": "c_slice::Ref<'static, {}>", "mut": "c_slice::Mut<'static, {}>", "box": "c_slice::Box<{}>",
      "raw": "c_slice::Raw<{}>", "vec": "repr_c::Vec<{}>"}
STR = {"ref": "str::Ref<'static>", "box": "str::Box", "string": "repr_c::String"}
SSL = {"box": "::stabby::boxed::BoxedSlice<{}>", "arc": "::stabby::sync::ArcSlice<{}>",
       "weak": "::stabby::sync::WeakSlice<{}>"}
SSTR = {"box": "::stabby::boxed::BoxedStr", "arc": "::stabby::sync::ArcStr", "weak": "::stabby::sync::WeakStr"}
SDYN = {"ref": "::stabby::abi::DynRef<'static, ::stabby::abi::vtable::VtDrop>",
        "box": "::stabby::abi::Dyn<'static, ::stabby::boxed::Box<()>, ::stabby::abi::vtable::VtDrop>"}
# spec/Abi.tla, VpTraits
VP_TRAITS = """
#[derive_ReprC(dyn)] pub trait Vp1 { }
#[derive_ReprC(dyn)] pub trait Vp2 { fn m(&self, x: u32) -> u8; fn n(&mut self); }
#[derive_ReprC(dyn, Clone)] pub trait Vp3 { fn m(&self, x: &'static u16) -> bool; }
"""
EXT = {"Erased": "::safer_ffi::dyn_traits::ErasedTy"}
CP = {"ref": "char_p::Ref<'static>", "box": "char_p::Box", "raw": "char_p::Raw"}
CLO = {"box": "boxed::BoxDynFnMut{}", "arc": "arc::ArcDynFn{}", "ref": "borrowed::RefDynFnMut{}"}
VARIANTS = ["A", "FooBar", "Cd", "Xyz", "E", "Quux", "G", "HiThere", "I", "Jj"]
SIGNED = {"i8", "i16", "i32", "i64", "isize", "c_int"}


def dname(D, i):
    return {"struct": "S", "enum": "E", "trans": "T", "opaque": "O"}[D[i - 1]["k"]] + f"x{i}y"


def rust(D, T):
    k = T[0]
    if k == "p":
        return T[1]
    if k == "unit":
        return "()"
    if k == "void":
        return "::std::os::raw::c_void"
    if k in PTR:
        return PTR[k].format(rust(D, T[1]))
    if k == "fn":
        r = " -> " + rust(D, T[2])  # (not left out: rustc misparses `where &fn(): Trait`)
        return 'unsafe extern "C" fn(' + ", ".join(rust(D, t) for t in T[1]) + ")" + r
    if k == "arr":
        return f"[{rust(D, T[1])}; {T[2]}]"
    if k == "tup":
        return f"::safer_ffi::tuple::Tuple{len(T[1])}<" + ", ".join(rust(D, t) for t in T[1]) + ">"
    if k == "tag":
        return f"TaggedOption<{rust(D, T[1])}>"
    if k == "opt":
        return f"Option<{rust(D, T[1])}>"
    if k == "sl":
        return SL[T[1]].format(rust(D, T[2]))
    if k == "str":
        return STR[T[1]]
    if k == "ssl":
        return SSL[T[1]].format(rust(D, T[2]))
    if k == "sstr":
        return SSTR[T[1]]
    if k == "sdyn":
        return SDYN[T[1]]
    if k == "nz":
        return "::core::num::NonZero" + T[1][0].upper() + T[1][1:]
    if k == "ord":
        return "::core::cmp::Ordering"
    if k == "bytes":
        return "::safer_ffi::bytes::Bytes<'static>"
    if k == "vp":
        return f"VirtualPtr<dyn Vp{T[1]}>"
    if k == "vtbl":
        return f"<dyn Vp{T[1]} as ::safer_ffi::dyn_traits::ReprCTrait>::VTable"
    if k == "vtdrop":
        return "::stabby::abi::vtable::VtDrop"
    if k == "cp":
        return CP[T[1]]
    if k == "clo":
        gs = (["'static"] if T[1] == "ref" else []) + [rust(D, T[3])] + [rust(D, t) for t in T[2]]
        return "::safer_ffi::closure::" + CLO[T[1]].format(len(T[2])) + "<" + ", ".join(gs) + ">"
    if k == "mark":
        return "::core::marker::PhantomData<u32>"
    if k == "var":
        return f"V{T[1]}"
    if k == "d":
        return dname(D, T[1]) + ("<" + ", ".join(rust(D, t) for t in T[2]) + ">" if T[2] else "")
    raise KeyError(k)


def le(b, signed):
    return int.from_bytes(bytes(b), "little", signed=signed)


def variant(j):
    return VARIANTS[j] if j < len(VARIANTS) else f"V{j}"


def fname(d, j):
    """The name of the j-th field (from 0)."""
    return (f"f{j}" if j != 2 else "r#type") if d["named"] else str(j)


def decl(D, i, rename=False, docs=""):
    d = D[i - 1]
    n = dname(D, i)
    if "ext" in d:
        return f"use {EXT[d['ext']]} as {n};"
    at = f'#[derive_ReprC(rename = "Ren{n}")]' if rename else "#[derive_ReprC]"
    if d["k"] == "opaque":
        f = {1: "u8", 2: "u16", 4: "u32", 8: "u64"}[d["align"]]
        return f"{docs}{at} #[repr(opaque)] pub struct {n} {{ pub a: {f} }}"
    if d["k"] == "enum":
        vs = []
        for j, (form, x) in enumerate(d["forms"]):
            e = {"imp": "", "lit": f" = {le(d['discs'][j], d['repr'] in SIGNED)}", "not": f" = !{x}",
                 "shl": f" = 1 << {x}", "max": f" = {le(d['discs'][j], d['repr'] in SIGNED)}",
                 "min": f" = {le(d['discs'][j], d['repr'] in SIGNED)}"}[form]
            vs.append(f"{docs}{variant(j)}{e}")
        r = "C" if d["repr"] == "c_int" else d["repr"]
        return f"{docs}{at} #[repr({r})] #[derive(Clone, Copy)] pub enum {n} {{ {', '.join(vs)} }}"
    g = "<" + ", ".join(f"V{j + 1}: 'static + ConcreteReprC" for j in range(d["params"])) + ">" if d["params"] else ""
    fs = [(f"{docs}pub {fname(d, j)}: " if d["named"] else "pub ") + rust(D, t) for j, t in enumerate(d["fields"])]
    body = " { " + ", ".join(fs) + " }" if d["named"] else "(" + ", ".join(fs) + ");"
    r = "C" if d["k"] == "struct" else "transparent"
    return f"{docs}{at} #[repr({r})] pub struct {n}{g}{body}"


PRELUDE = """#![allow(warnings)]
use ::safer_ffi::prelude::*;
use ::safer_ffi::layout::{CLayoutOf, CType, ConcreteReprC, ReprC};
use ::safer_ffi::option::TaggedOption;
use ::vharness::abi::{self, Probe};
""" + VP_TRAITS


def accessible(D, T):
    """Names of the fields of a type, in order, where they can be named."""
    if T[0] == "tup":
        return [f"_{j}" for j in range(len(T[1]))]
    if T[0] == "d" and D[T[1] - 1]["k"] == "struct":
        d = D[T[1] - 1]
        return [fname(d, j) for j in range(len(d["fields"]))]
    return None


def c_field(x, tuple_struct):
    """The same field in the C layout: markers are left out of C, not of the Rust layout."""
    return "_" + x if tuple_struct else x


def probes(D, roots, names=False):
    out = ["pub static PROBES: &[Probe] = &["]
    for r in roots:
        T = r["type"]
        t = rust(D, T)
        fs = accessible(D, T)
        if fs is None:
            off = "(vec![], vec![])"
        else:
            def offs(ty, names):
                return ("{ let u = ::std::mem::MaybeUninit::<%s>::uninit(); let p = u.as_ptr(); "
                        "unsafe { vec![%s] } }") % (ty, ", ".join(
                            f"::std::ptr::addr_of!((*p).{f}) as usize - p as usize" for f in names))
            ts = T[0] == "d" and not D[T[1] - 1]["named"]
            off = f"({offs(t, fs)}, {offs(f'CLayoutOf<{t}>', [c_field(f, ts) for f in fs])})"
        nm = ("{ use ::safer_ffi::headers::languages as l; use ::safer_ffi::headers::languages::*; type C = CLayoutOf<%s>; "
              "[<C as CType>::name(&C_), <C as CType>::name(&l::CSharp), <C as CType>::name(&l::Python)] }"
              % t).replace("C_", "l::C") if names else "Default::default()"
        out.append(f"  Probe {{ layout: abi::layout::<{t}>, judge: abi::judge::<{t}>, offsets: || {off}, names: || {nm} }},")
    out.append("];")
    return "\n".join(out)


def universe(heads, types, uid):
    h = heads[uid]
    roots = [types[uid][j + 1] for j in range(h[5])]
    return {"id": uid, "D": h[2], "fns": h[3], "consts": h[4], "roots": roots}


def generate(chk, name, seeds=(), families=(), vecs=True, pairs=1, ndecls=10, nroots=24, nfns=20,
             nconsts=8, workers=2, timeout=600,
             foreign=False):
    """Runs the specification; returns the universes it describes."""
    r = vlib.tlc(chk, "MCAbi", dict(Seeds=set(seeds), Families=set(families), NDecls=ndecls, NRoots=nroots,
                                    NFns=nfns, NConsts=nconsts, WithVecs=vecs, Pairs=pairs, WithForeign=foreign),
                 ["SPECIFICATION Spec", "INVARIANTS Sound Wrapping EnumsSound ForeignSound ParamsSound"], name=name,
                 workers=workers, timeout=timeout, heap="3g")
    chk.states += r.distinct
    chk.transitions += r.states
    heads = {p[1]: p for p in r.prints if p[0] == "head"}
    types = {}
    for p in r.prints:
        if p[0] == "type":
            types.setdefault(p[1], {})[p[2]] = p[3]
    us = [universe(heads, types, u) for u in heads]
    for u in us:
        for p in r.prints:
            if p[0] in ("foreign", "forms", "declared") and p[1] == u["id"]:
                u[p[0]] = p[2]
    return us
