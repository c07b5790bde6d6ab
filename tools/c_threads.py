"""C16: the specifications Threads.tla and Loans.tla against what the compiler accepts."""
from vlib import *

PRELUDE = """#![allow(warnings)]
use ::safer_ffi::prelude::*;
use ::safer_ffi::closure::*;
use ::safer_ffi::dyn_traits::*;
use ::safer_ffi::dyn_traits::dyn_drop::*;
use ::safer_ffi::dyn_traits::futures::*;
use ::safer_ffi::bytes::Bytes;
use ::safer_ffi::layout::ReprC;
use ::safer_ffi::ptr::{NonNullRef, NonNullMut, NonNullOwned};
use ::safer_ffi::tuple::*;
use ::std::{future::Future, pin::Pin, rc::Rc, sync::Arc, marker::PhantomData};
fn is_send<T : Send>() {}
fn is_sync<T : Sync>() {}
fn make<T>() -> T { loop {} }
fn use_<T>(t: &T) {}
fn change<T>(t: &mut T) {}
"""


def leaves():
    out = ""
    for k, imp in (("B", "Send Sync"), ("S", "Send"), ("Y", "Sync"), ("N", "")):
        out += f"#[derive_ReprC] #[repr(transparent)] pub struct L{k}(*const u8);\n"
        out += f"#[derive(Clone)] pub struct P{k}<'a>(u8, PhantomData<*const ()>, PhantomData<&'a ()>, ::core::marker::PhantomPinned);\n"
        for i in imp.split():
            out += f"unsafe impl {i} for L{k} {{}} unsafe impl<'a> {i} for P{k}<'a> {{}}\n"
        out += f"""impl<'a> P{k}<'a> {{ fn get(&self) -> u8 {{ self.0 }} }}
impl AsRef<[u8]> for P{k}<'_> {{ fn as_ref(&self) -> &[u8] {{ ::core::slice::from_ref(&self.0) }} }}
impl Nothing for P{k}<'_> {{}}
impl NothingClone for P{k}<'_> {{}}
impl Shr for P{k}<'_> {{ fn get(&self) -> u8 {{ self.0 }} }}
impl ShrClone for P{k}<'_> {{ fn get(&self) -> u8 {{ self.0 }} }}
impl Mutable for P{k}<'_> {{ fn set(&mut self, x: u8) {{ self.0 = x }} }}
impl MutableClone for P{k}<'_> {{ fn set(&mut self, x: u8) {{ self.0 = x }} }}
impl Pinned for P{k}<'_> {{ fn set(self: Pin<&mut Self>, x: u8) {{ }} }}
"""
        if "Send" in imp:
            out += f"impl SupSend for P{k}<'_> {{ fn get(&self) -> u8 {{ self.0 }} }} impl SupSendMut for P{k}<'_> {{ fn set(&mut self, x: u8) {{ self.0 = x }} }}\n"
        if "Sync" in imp:
            out += f"impl SupSync for P{k}<'_> {{ fn get(&self) -> u8 {{ self.0 }} }}\n"
        if k == "B":
            out += f"impl SupBoth for P{k}<'_> {{ fn get(&self) -> u8 {{ self.0 }} }} impl SupBehind for P{k}<'_> {{ fn get(&self) -> u8 {{ self.0 }} }}\n"
    return out + """
#[derive_ReprC(dyn)] pub trait Nothing {}
#[derive_ReprC(dyn, Clone)] pub trait NothingClone {}
#[derive_ReprC(dyn)] pub trait Shr { fn get(&self) -> u8; }
#[derive_ReprC(dyn, Clone)] pub trait ShrClone { fn get(&self) -> u8; }
#[derive_ReprC(dyn)] pub trait Mutable { fn set(&mut self, x: u8); }
#[derive_ReprC(dyn, Clone)] pub trait MutableClone { fn set(&mut self, x: u8); }
#[derive_ReprC(dyn)] pub trait Pinned { fn set(self: Pin<&mut Self>, x: u8); }
#[derive_ReprC(dyn, Clone)] pub trait SupBoth : Send + Sync { fn get(&self) -> u8; }
#[derive_ReprC(dyn, Clone)] pub trait SupSend : ::core::marker::Send { fn get(&self) -> u8; }
#[derive_ReprC(dyn, Clone)] pub trait SupSync : Sync { fn get(&self) -> u8; }
#[derive_ReprC(dyn)] pub trait SupSendMut : Send { fn set(&mut self, x: u8); }
pub trait Both : Send + Sync {} impl<T : ?Sized + Send + Sync> Both for T {}
#[derive_ReprC(dyn, Clone)] pub trait SupBehind : Both { fn get(&self) -> u8; }
"""


EX = "VirtualPtr<dyn 'static + FfiFutureExecutor + Send + Sync>"
ATOMS = {
    "virtual": ("VirtualPtr<dyn 'static + Shr>", "Box<dyn Shr>"),
    "virtual_send": ("VirtualPtr<dyn 'static + Mutable + Send>", "Box<dyn Mutable + Send>"),
    "virtual_both": ("VirtualPtr<dyn 'static + Shr + Send + Sync>", "Box<dyn Shr + Send + Sync>"),
    "virtual_sup": ("VirtualPtr<dyn 'static + SupBoth>", "Box<dyn SupBoth>"),
    "virtual_sup_send": ("VirtualPtr<dyn 'static + SupSendMut>", "Box<dyn SupSendMut>"),
    "virtual_sup_sync": ("VirtualPtr<dyn 'static + SupSync>", "Box<dyn SupSync>"),
    "virtual_plain_executor": ("VirtualPtr<dyn 'static + FfiFutureExecutor>", "Box<dyn SupBoth>"),
    "future": ("VirtualPtr<dyn 'static + FfiFuture>", "Pin<Box<dyn Future<Output = ()>>>"),
    "future_send": ("VirtualPtr<dyn 'static + Send + FfiFuture>", "Pin<Box<dyn Future<Output = ()> + Send>>"),
    "executor": (EX, "Box<dyn Shr + Send + Sync>"),
    "drop_glue": ("VirtualPtr<dyn 'static + DropGlue>", "Box<dyn Shr>"),
    "dyn_drop": ("DynDrop", "Arc<dyn Shr + Send + Sync>"),
    "bytes": ("Bytes<'static>", "::std::borrow::Cow<'static, [u8]>"),
    "string": ("repr_c::String", "String"),
    "str_ref": ("str::Ref<'static>", "&'static ::core::primitive::str"),
    "str_box": ("str::Box", "Box<::core::primitive::str>"),
    "char_p_ref": ("char_p::Ref<'static>", "&'static ::std::ffi::CStr"),
    "char_p_box": ("char_p::Box", "::std::ffi::CString"),
}
CTORS = {
    "box": ("repr_c::Box<{0}>", "Box<{0}>"), "vec": ("repr_c::Vec<{0}>", "Vec<{0}>"),
    "slice_box": ("c_slice::Box<{0}>", "Box<[{0}]>"), "tagged": ("repr_c::TaggedOption<{0}>", "Option<{0}>"),
    "tuple1": ("Tuple1<{0}>", "({0},)"), "tuple2": ("Tuple2<{0}, {1}>", "({0}, {1})"), "array": ("[{0}; 2]", "[{0}; 2]"),
    "slice_ref": ("c_slice::Ref<{o}, {0}>", "&{o} [{0}]"), "ref": ("&{o} {0}", "&{o} {0}"),
    "slice_mut": ("c_slice::Mut<{o}, {0}>", "&{o} mut [{0}]"), "mut": ("&{o} mut {0}", "&{o} mut {0}"),
    "slice_raw": ("c_slice::Raw<{0}>", "::std::ptr::NonNull<[{0}]>"), "nonnull_ref": ("NonNullRef<{0}>", "::std::ptr::NonNull<{0}>"),
    "nonnull_mut": ("NonNullMut<{0}>", "*mut {0}"), "nonnull_owned": ("NonNullOwned<{0}>", "::std::ptr::NonNull<{0}>"),
    "fn": ('extern "C" fn({1}) -> {0}', "fn({1}) -> {0}"),
    "box_fn": ("BoxDynFnMut1<{0}, {1}>", "Box<dyn Send + FnMut({1}) -> {0}>"),
    "ref_fn": ("RefDynFnMut1<{o}, {0}, {1}>", "&{o} mut (dyn Send + FnMut({1}) -> {0})"),
    "arc_fn": ("ArcDynFn1<{0}, {1}>", "Arc<dyn Send + Sync + Fn({1}) -> {0}>"),
}


def ty(t, side, o="'static"):
    if t[0] == "leaf":
        return "L" + t[1]
    if t[0] in ATOMS:
        return ATOMS[t[0]][side]
    return CTORS[t[0]][side].format(*(ty(x, side, o) for x in t[1:]), o=o)


class Batch:
    """Programs of one line each; the compiler says which of them it accepts."""

    def __init__(self, prelude, variant="A"):
        self.prelude, self.variant, self.items = prelude, variant, []

    def add(self, text, ident, want):
        self.items.append((text.replace("\n", " "), ident, want))

    def run(self, sub, name, right=None, final=True):
        """Yields (text, ident, want, got, messages)."""
        errors = {}
        base = self.prelude.count("\n") + 1
        live = list(range(len(self.items)))
        for rnd in range(12):
            code = self.prelude + "".join(f"{self.items[i][0]}\n" for i in live)
            ok, errs, _ = rustc(sub, f"{name}{rnd}", code, self.variant, timeout=600)
            if ok:
                break
            new = {}
            for c, line, msg in errs:
                if msg.startswith("aborting due to"):
                    continue
                k = line - base
                if not 0 <= k < len(live):
                    raise ToolError(f"{name}: error outside of the programs: {c} {msg} (line {line}: "
                                    f"{code.splitlines()[line - 1][:200] if line else ''})")
                new.setdefault(live[k], []).append((c, msg))
            if not new:
                raise ToolError(f"{name}: no usable errors")
            errors.update(new)
            live = [i for i in live if i not in errors]
        else:
            raise ToolError(f"{name}: errors keep coming")
        os.unlink(os.path.join(sub.work, f"{name}{rnd}.rs"))
        sub.evals += len(self.items)
        return [(*it, "refused" if i in errors else "accepted", errors.get(i, [])) for i, it in enumerate(self.items)]


def report(sub, what, rows, expect_codes=None, maxviol=4):
    counts = {}
    n = 0
    seen, known = set(), known_findings()
    for text, ident, want, got, msgs in rows:
        counts[got] = counts.get(got, 0) + 1
        for c, m in msgs:
            if expect_codes and c not in expect_codes:
                raise ToolError(f"{what}: unexpected error {c} {m} for {text}")
        if want in ("either", got):
            continue
        if ident[0] == "counterpart":
            raise ToolError(f"{what}: the specification says {want} but the compiler {got} {text} ({msgs[:1]})")
        sig = f"{what}:{ident[1]}"
        if sig in seen:
            continue
        seen.add(sig)
        n += not any(k["property"] == sub.prop and k["match"] == sig for k in known)
        if n <= maxviol:
            sub.violation(what, {"what": f"{got} but should be {want}: {text[:160]}", "program": text, "expected": want,
                                 "observed": got, "messages": msgs[:3], "signature": sig})
    sub.traces += len(rows)
    for k, v in counts.items():
        sub.extra[f"{what} {k}"] = sub.extra.get(f"{what} {k}", 0) + v


# ---------------------------------------------------------------------------------- threads

def thread_programs(qs, variant):
    b = Batch(PRELUDE + leaves(), variant)
    for _, t, (send, sync) in qs:
        for side in (0, 1):
            who = ("handle", "counterpart")[side]
            for f, v in (("is_send", send), ("is_sync", sync)):
                b.add(f"fn f{len(b.items)}() {{ {f}::<{ty(t, side)}>() }}", (who, f"{f}:{json.dumps(t)}"), "accepted" if v else "refused")
    return b


LENT = {"ref": ("&{l} u8", "&{l} u8"), "slice_ref": ("c_slice::Ref<{l}, u8>", "&{l} [u8]"), "slice_mut": ("c_slice::Mut<{l}, u8>", "&{l} mut [u8]"),
        "str_ref": ("str::Ref<{l}>", "&{l} ::core::primitive::str"), "char_p_ref": ("char_p::Ref<{l}>", "&{l} ::std::ffi::CStr"),
        "bytes": ("Bytes<{l}>", "::std::borrow::Cow<{l}, [u8]>"), "ref_fn": ("RefDynFnMut0<{l}, u8>", "&{l} mut (dyn 'static + Fn())"),
        "virtual": ("VirtualPtr<dyn {l} + Shr>", "Box<dyn {l} + Shr>"), "erased": ("ErasedRef<{l}>", "&{l} ()"),
        "tagged": ("repr_c::TaggedOption<&{l} u8>", "Option<&{l} u8>")}


def nest(cs, leaf, side):
    out = leaf
    for c, i in reversed(cs):
        args = ["u8", "u8"]
        args[i - 2] = out
        out = CTORS[c][side].format(*args, o="'o")
    return out


def lifetime_programs(qs, variant, every):
    b = Batch(PRELUDE + leaves(), variant)
    for n, (_, cs, (shorten, lengthen)) in enumerate(qs):
        names = list(LENT)
        if len(cs) > 1 and not every:
            names = ["ref"]
        for lent in names:
            for side in (0, 1):
                who = ("handle", "counterpart")[side]
                call = any(c in ("box_fn", "ref_fn", "arc_fn") for c, _ in cs)
                for kind, a, z, may in (("shorten", "'static", "'s", shorten), ("lengthen", "'s", "'static", lengthen)):
                    # Nothing is said about what is sound but refused: not of virtual objects, nor of closures.
                    want = "refused" if not may else "accepted" if lent != "virtual" and not call else "either"
                    if side and call and may:
                        want = "either"
                    f = nest(cs, LENT[lent][side].format(l=a), side), nest(cs, LENT[lent][side].format(l=z), side)
                    b.add(f"fn f{len(b.items)}<'o, 's : 'o>(x: {f[0]}) -> {f[1]} {{ x }}", (who, f"{kind}:{json.dumps(cs)}:{lent}"), want)
    return b


TRAITS = {"nothing": "Nothing", "nothing_clone": "NothingClone", "shr": "Shr", "shr_clone": "ShrClone", "mutable": "Mutable", "mutable_clone": "MutableClone", "pinned": "Pinned",
          "sup_both": "SupBoth", "sup_send": "SupSend", "sup_sync": "SupSync", "sup_send_mut": "SupSendMut",
          "sup_behind": "SupBehind"}


def hide_programs(qs, variant):
    b = Batch(PRELUDE + leaves(), variant)
    for _, h, want in qs:
        lt = "'static" if h["long"] else "'a"
        p = {"Box": "Box<{}>", "Rc": "Rc<{}>", "Arc": "Arc<{}>", "ref": "&" + lt + " {}", "mut": "&" + lt + " mut {}"}[h["p"]]
        p = p.format(f"P{h['k']}<{lt}>")
        if h["pin"]:
            p = f"Pin<{p}>"
        want_lt = "'static" if h["wants"] else "'a"
        sig = f"hide:{h['p']}:{h['tr']}:{'+'.join(h['promises']) or 'plain'}:{h['k']}" + (":pin" if h["pin"] else "") + (":longer" if h["wants"] and not h["long"] else "")
        d = " + ".join([want_lt, TRAITS[h["tr"]], *h["promises"]])
        b.add(f"fn f{len(b.items)}<'a>(x: {p}) -> VirtualPtr<dyn {d}> {{ x.into() }}", ("handle", sig), want)
    return b


DOORS = {
    "box_fn_new": "fn {f}<'a>(p: {P}) -> BoxDynFnMut0<u8> {{ BoxDynFnMut0::new(Box::new(move || p.get())) }}",
    "box_fn_from": "fn {f}<'a>(p: {P}) -> repr_c::Box<dyn 'static + Send + FnMut() -> u8> {{ Box::new(move || p.get()).into() }}",
    "box_fn_2": "fn {f}<'a>(p: {P}) -> BoxDynFnMut2<u8, u8, u16> {{ BoxDynFnMut2::new(Box::new(move |_, _| p.get())) }}",
    "ref_fn_from": "fn {f}<'a>(p: {P}) {{ let mut g = move || p.get(); use_(&RefDynFnMut0::<u8>::from(&mut g)); }}",
    "arc_fn_new": "fn {f}<'a>(p: {P}) -> ArcDynFn0<u8> {{ ArcDynFn0::new(Arc::new(move || p.get())) }}",
    "arc_fn_from": "fn {f}<'a>(p: {P}) -> repr_c::Arc<dyn 'static + Send + Sync + Fn(u8) -> u8> {{ Arc::new(move |_: u8| p.get()).into() }}",
    "bytes_arc": "fn {f}<'a>(p: {P}) -> Bytes<'static> {{ Arc::new(p).into() }}",
    "bytes_stabby_arc": "fn {f}<'a>(p: {P}) -> Bytes<'static> {{ ::stabby::sync::Arc::new(p).into() }}",
    "dyn_drop": "fn {f}<'a>(p: {P}) -> DynDrop {{ DynDrop::new(p) }}",
    "future_box": "fn {f}<'a>(p: {P}) -> VirtualPtr<dyn 'a + FfiFuture> {{ Box::pin(async move {{ drop(p) }}).into() }}",
    "future_box_send": "fn {f}<'a>(p: {P}) -> VirtualPtr<dyn 'a + Send + FfiFuture> {{ Box::pin(async move {{ drop(p) }}).into() }}",
    "future_static": "fn {f}<'a>(p: {P}) -> VirtualPtr<dyn 'static + FfiFuture> {{ Box::pin(async move {{ drop(p) }}).into() }}",
    "bytes_ref": "fn {f}<'a>(p: &{l} [u8]) -> Bytes<'static> {{ p.into() }}",
    "bytes_array": "fn {f}<'a>(p: &{l} [u8; 4]) -> Bytes<'static> {{ p.into() }}",
    "bytes_str": "fn {f}<'a>(p: &{l} ::core::primitive::str) -> Bytes<'static> {{ p.into() }}",
    "bytes_static": "fn {f}<'a>(p: &{l} [u8]) -> Bytes<'static> {{ Bytes::from_static(p) }}",
    "bytes_lend": "fn {f}<'a>(p: &{l} [u8]) -> Bytes<'a> {{ Bytes::from_slice(p) }}",
    "bytes_slice_keep": "fn {f}<'a>(p: &{l} [u8]) -> Bytes<'static> {{ Bytes::from_slice(p) }}",
    "bytes_upgrade": "fn {f}<'a>(p: &{l} [u8]) -> Bytes<'static> {{ Bytes::from_slice(p).upgrade() }}",
    "bytes_copy": "fn {f}<'a>(p: &{l} [u8]) -> Bytes<'static> {{ Bytes::copied_from_slice(p) }}",
    "bytes_inline": "fn {f}<'a>(p: &{l} [u8]) -> Option<Bytes<'static>> {{ Bytes::inline_slice(p) }}",
    "slice_lend": "fn {f}<'a>(p: &{l} [u8]) -> c_slice::Ref<'a, u8> {{ p.into() }}",
    "slice_keep": "fn {f}<'a>(p: &{l} [u8]) -> c_slice::Ref<'static, u8> {{ p.into() }}",
    "slice_mut_keep": "fn {f}<'a>(p: &{l} mut [u8]) -> c_slice::Mut<'static, u8> {{ p.into() }}",
    "str_keep": "fn {f}<'a>(p: &{l} ::core::primitive::str) -> str::Ref<'static> {{ p.into() }}",
    "char_p_keep": "fn {f}<'a>(p: &{l} ::std::ffi::CStr) -> char_p::Ref<'static> {{ p.into() }}",
    "ref_fn_keep": "fn {f}<'a>(p: &{l} mut (impl 'static + Send + Fn() -> u8)) -> RefDynFnMut0<'static, u8> {{ p.into() }}",
    "spawn": "fn {f}<'a>(e: &{E}, p: {P}) {{ drop(e.spawn(async move {{ drop(p); }})) }}",
    "spawn_result": "fn {f}<'a>(e: &{E}) {{ drop(e.spawn(async move {{ make::<{P}>() }})) }}",
    "spawn_blocking": "fn {f}<'a>(e: &{E}, p: {P}) {{ drop(e.spawn_blocking(move || {{ p.get(); }})) }}",
    "spawn_blocking_result": "fn {f}<'a>(e: &{E}) {{ drop(e.spawn_blocking(move || make::<{P}>())) }}",
    "block_on": "fn {f}<'a>(e: &{E}, p: {P}) {{ e.block_on(async move {{ drop(p); }}) }}",
    "block_on_result": "fn {f}<'a>(e: &{E}) -> {P} {{ e.block_on(async move {{ make::<{P}>() }}) }}",
}


def door_programs(qs, variant):
    b = Batch(PRELUDE + leaves(), variant)
    for _, (d, k, long), want in qs:
        if d == "bytes_stabby_arc" and variant != "A":
            continue
        for E in ([EX, "VirtualPtr<dyn 'static + FfiFutureExecutor>"] if "{E}" in DOORS[d] else [""]):
            text = DOORS[d].format(f=f"f{len(b.items)}", P=f"P{k}<{chr(39)}{'static' if long else 'a'}>", E=E, l="'static" if long else "'a")
            if k != "B" and "{P}" not in DOORS[d]:
                continue
            b.add(text, ("handle", f"door:{d}:{k}:{long}"), want)
    return b


# ---------------------------------------------------------------------------------- loans
# owner; handle made from it; using a handle; reading, writing, moving the owner; deriving; using that
SH = dict(excl=False, copy=False, glue=False, own=False, tied=False, dexcl=False, dglue=False, derives=False)
VEC = ("let mut o = vec![1u32, 2];", "use_(&o.len())", "o.push(3)")
CP = ("let mut o = char_p::new(\"a\");", "use_(&o.to_str().len())", "o = char_p::new(\"b\")")
CV = ("let mut o = repr_c::Vec::from(vec![1u32]);", "use_(&o.len())", "o.with_rust_mut(|v| v.push(1))")
CB = ("let mut o = c_slice::Box::from(vec![1u32].into_boxed_slice());", "use_(&o.len())", "o[0] = 3")
ST = ("let mut o = String::from(\"ab\");", "use_(&o.len())", "o.push('c')")
BY = ("let mut o = vec![1u8, 2];", "use_(&o.len())", "o.push(3)")
PB = ("let mut o = PB(1, PhantomData, PhantomData, ::core::marker::PhantomPinned);", "use_(&o.0)", "o.0 = 2")
FN = ("let mut o = { let x = make::<u8>(); move || x };", "use_(&o())", "change(&mut o)")
DB = ("let mut o = Bytes::from(Arc::<[u8]>::from(vec![1u8]));", "use_(&o.len())", "o.shrink_to(1..)")
ROWS = [
    # name, owner, handle, use of {h}, derive from {h}, use of {d}, parameters, counterpart?
    ("native &", VEC, "&o[..]", "{h}.len()", "&{h}[1..]", "{d}.len()", dict(copy=True, derives=True), True),
    ("native &mut", VEC, "&mut o[..]", "{h}[0] = 1", "&mut {h}[1..]", "{d}[0] = 1", dict(excl=True, tied=True, dexcl=True, derives=True), True),
    ("native &mut shared", VEC, "&mut o[..]", "{h}[0] = 1", "&{h}[1..]", "{d}.len()", dict(excl=True, tied=True, derives=True), True),
    ("native &mut given up", VEC, "&mut o[..]", "{h}[0] = 1", "{ let s: &[u32] = {h}; s }", "{d}.len()", dict(excl=True, own=True, derives=True), True),
    ("native dyn", VEC, "{ let o = &o; Box::new(move || o.len()) as Box<dyn '_ + Fn() -> usize> }", "{h}()", "&*{h}", "{d}()", dict(glue=True, tied=True, derives=True), True),
    ("native dyn mut", VEC, "{ let o = &mut o; Box::new(move || o.push(1)) as Box<dyn '_ + FnMut()> }", "{h}()", "&mut *{h}", "{d}()", dict(excl=True, glue=True, tied=True, dexcl=True, derives=True), True),
    ("c_slice::Ref", VEC, "c_slice::Ref::from(&o[..])", "{h}.as_slice()", "{h}.as_slice()", "{d}.len()", dict(copy=True, derives=True), False),
    ("c_slice::Ref clone", VEC, "c_slice::Ref::from(&o[..])", "{h}.as_slice()", "{h}.clone()", "{d}.as_slice()", dict(copy=True, derives=True), False),
    ("c_slice::Mut as_mut", VEC, "c_slice::Mut::from(&mut o[..])", "{h}[0] = 1", "{h}.as_mut()", "{d}[0] = 2", dict(excl=True, tied=True, dexcl=True, derives=True), False),
    ("c_slice::Mut as_ref", VEC, "c_slice::Mut::from(&mut o[..])", "{h}[0] = 1", "{h}.as_ref()", "{d}.as_slice()", dict(excl=True, tied=True, derives=True), False),
    ("c_slice::Mut deref", VEC, "c_slice::Mut::from(&mut o[..])", "{h}[0] = 1", "&{h}[..]", "{d}.len()", dict(excl=True, tied=True, derives=True), False),
    ("c_slice::Mut deref_mut", VEC, "c_slice::Mut::from(&mut o[..])", "{h}[0] = 1", "&mut {h}[..]", "{d}[0] = 1", dict(excl=True, tied=True, dexcl=True, derives=True), False),
    ("c_slice::Mut as_slice", VEC, "c_slice::Mut::from(&mut o[..])", "{h}[0] = 1", "{h}.as_slice()", "{d}[0] = 1", dict(excl=True, own=True, dexcl=True, derives=True), False),
    ("c_slice::Mut into Ref", VEC, "c_slice::Mut::from(&mut o[..])", "{h}[0] = 1", "c_slice::Ref::from({h})", "{d}.as_slice()", dict(excl=True, own=True, derives=True), False),
    ("str::Ref", ST, "str::Ref::from(&o[..])", "{h}.as_str()", "{h}.as_str()", "{d}.len()", dict(copy=True, derives=True), False),
    ("char_p::Ref", CP, "o.as_ref()", "{h}.to_str()", "{h}.to_str()", "{d}.len()", dict(copy=True, derives=True), False),
    ("char_p::Ref bytes", CP, "o.as_ref()", "{h}.to_bytes()", "{h}.to_bytes_with_null()", "{d}.len()", dict(copy=True, derives=True), False),
    ("char_p::Ref nonzero", CP, "o.as_ref()", "{h}.to_str_with_null()", "{h}.to_nonzero_bytes()", "{d}.len()", dict(copy=True, derives=True), False),
    ("char_p::Ref bytes iterator", CP, "o.as_ref()", "{h}.bytes()", "{h}.bytes()", "{d}.next()", dict(copy=True, dglue=True, derives=True), False),
    ("char_p::Box to_str", CP, "o.to_str()", "{h}.len()", None, None, dict(copy=True), False),
    ("char_p::Box to_bytes", CP, "o.to_bytes_with_null()", "{h}.len()", None, None, dict(copy=True), False),
    ("char_p::Box to_bytes 2", CP, "o.to_bytes()", "{h}.len()", None, None, dict(copy=True), False),
    ("char_p::Box to_nonzero_bytes", CP, "o.to_nonzero_bytes()", "{h}.len()", None, None, dict(copy=True), False),
    ("char_p::Box to_str_with_null", CP, "o.to_str_with_null()", "{h}.len()", None, None, dict(copy=True), False),
    ("char_p::Box bytes", CP, "o.bytes()", "{h}.next()", None, None, dict(glue=True), False),
    ("char_p::Ref of str", ("let mut o = String::from(\"a\\0\");", "use_(&o.len())", "o.push('c')"), "char_p::Ref::try_from(&o[..]).unwrap()", "{h}.to_str()", "{h}.to_str()", "{d}.len()", dict(copy=True, derives=True), False),
    ("char_p::Ref of CStr", ("let mut o = ::std::ffi::CString::new(\"a\").unwrap();", "use_(&o.as_bytes())", "o = Default::default()"), "char_p::Ref::from(&*o)", "{h}.to_str()", "{h}.to_str()", "{d}.len()", dict(copy=True, derives=True), False),
    ("Bytes from_slice", BY, "Bytes::from_slice(&o)", "{h}.as_slice()", "{h}.as_slice()", "{d}.len()", dict(glue=True, tied=True, derives=True), False),
    ("Bytes from", BY, "Bytes::from_slice(&o[..])", "{h}.as_slice()", "&{h}[..]", "{d}.len()", dict(glue=True, tied=True, derives=True), False),
    ("Bytes clone", BY, "Bytes::from_slice(&o)", "{h}.len()", "{h}.clone()", "{d}.len()", dict(glue=True, dglue=True, derives=True), False),
    ("Bytes noalloc_clone", BY, "Bytes::from_slice(&o)", "{h}.len()", "{h}.noalloc_clone()", "{d}.as_ref().unwrap().len()", dict(glue=True, dglue=True, derives=True), False),
    ("Bytes subsliced", BY, "Bytes::from_slice(&o)", "{h}.len()", "{h}.subsliced(1..)", "{d}.len()", dict(glue=True, own=True, dglue=True, derives=True), False),
    ("Bytes split_at", BY, "Bytes::from_slice(&o)", "{h}.len()", "{h}.split_at(1).unwrap().1", "{d}.len()", dict(glue=True, own=True, dglue=True, derives=True), False),
    ("Bytes of str", ST, "Bytes::from_slice(o.as_bytes())", "{h}.len()", "{h}.clone()", "{d}.len()", dict(glue=True, dglue=True, derives=True), False),
    ("Bytes as_slice", DB, "o.as_slice()", "{h}.len()", None, None, dict(copy=True), False),
    ("Bytes deref", DB, "&o[..]", "{h}.len()", None, None, dict(copy=True), False),
    ("TaggedOption of &", VEC, "repr_c::TaggedOption::Some(&o)", "{h}.as_ref().unwrap().len()", "{h}.into_rust().unwrap()", "{d}.len()", dict(copy=True, derives=True), False),
    ("TaggedOption as_ref", ("let mut o = repr_c::TaggedOption::Some(vec![1u8]);", "use_(&o.as_ref().unwrap().len())", "change(&mut o)"), "o.as_ref()", "{h}.unwrap().len()", "{h}.unwrap()", "{d}.len()", dict(copy=True, derives=True), False),
    ("TaggedOption as_mut", ("let mut o = repr_c::TaggedOption::Some(vec![1u8]);", "use_(&o.as_ref().unwrap().len())", "change(&mut o)"), "o.as_mut()", "{h}.as_mut().unwrap().push(1)", "{h}.unwrap()", "{d}.push(1)", dict(excl=True, own=True, dexcl=True, derives=True), False),
    ("Tuple of slices", VEC, "Tuple2 { _0: c_slice::Ref::from(&o[..]), _1: 0u8 }", "{h}._0.as_slice()", "{h}._0", "{d}.as_slice()", dict(copy=True, derives=True), False),
    ("repr_c::Vec as_ref", CV, "o.as_ref()", "{h}.as_slice()", "{h}.as_slice()", "{d}.len()", dict(copy=True, derives=True), False),
    ("repr_c::Vec as_mut", CV, "o.as_mut()", "{h}[0] = 1", "{h}.as_mut()", "{d}[0] = 2", dict(excl=True, tied=True, dexcl=True, derives=True), False),
    ("repr_c::Vec deref", CV, "&o[..]", "{h}.len()", None, None, dict(copy=True), False),
    ("repr_c::Vec deref_mut", CV, "&mut o[..]", "{h}[0] = 1", None, None, dict(excl=True), False),
    ("c_slice::Box as_ref", CB, "o.as_ref()", "{h}.as_slice()", "{h}.as_slice()", "{d}.len()", dict(copy=True, derives=True), False),
    ("c_slice::Box as_mut", CB, "o.as_mut()", "{h}[0] = 1", "{h}.as_ref()", "{d}.as_slice()", dict(excl=True, tied=True, derives=True), False),
    ("c_slice::Box as_slice", CB, "o.as_slice()", "{h}.len()", None, None, dict(copy=True), False),
    ("c_slice::Box as_slice_mut", CB, "o.as_slice_mut()", "{h}[0] = 1", None, None, dict(excl=True), False),
    ("repr_c::String deref", ("let mut o = repr_c::String::from(\"a\");", "use_(&o.len())", "o.with_rust_mut(|s| s.push('c'))"), "&o[..]", "{h}.len()", None, None, dict(copy=True), False),
    ("str::Box as_ref", ("let mut o = str::Box::from(String::from(\"a\"));", "use_(&o.len())", "change(&mut o)"), "str::Box::as_ref(&o)", "{h}.len()", None, None, dict(copy=True), False),
    ("repr_c::Box deref", ("let mut o: repr_c::Box<Vec<u8>> = Box::new(vec![1u8]).into();", "use_(&o.len())", "o.push(1)"), "&*o", "{h}.len()", None, None, dict(copy=True), False),
    ("repr_c::Box deref_mut", ("let mut o: repr_c::Box<Vec<u8>> = Box::new(vec![1u8]).into();", "use_(&o.len())", "o.push(1)"), "&mut *o", "{h}.push(2)", None, None, dict(excl=True), False),
    ("closure by reference", FN, "RefDynFnMut0::from(&mut o)", "{h}.call()", None, None, dict(excl=True), False),
    ("virtual &", PB, "VirtualPtr::<dyn '_ + Shr>::from(&o)", "{h}.get()", "&{h}", "{d}.get()", dict(glue=True, tied=True, derives=True), False),
    ("virtual & clone", PB, "VirtualPtr::<dyn '_ + ShrClone>::from(&o)", "ShrClone::get(&{h})", "{h}.clone()", "ShrClone::get(&{d})", dict(glue=True, dglue=True, derives=True), False),
    ("virtual &mut", PB, "VirtualPtr::<dyn '_ + Mutable>::from(&mut o)", "{h}.set(2)", "&mut {h}", "{d}.set(3)", dict(excl=True, glue=True, tied=True, dexcl=True, derives=True), False),
    ("virtual & shared", PB, "VirtualPtr::<dyn '_ + Send + Sync + Shr>::from(&o)", "{h}.get()", None, None, dict(glue=True), False),
    ("future of &", VEC, "{ let o = &o; VirtualPtr::<dyn '_ + FfiFuture>::from(Box::pin(async move { o.len(); })) }", "&{h}", "{h}.into_future()", "&{d}", dict(glue=True, own=True, dglue=True, derives=True), False),
    ("entered executor", (f"let mut o: {EX} = make();", "use_(&o)", "change(&mut o)"), "o.dyn_enter()", "&{h}", None, None, dict(glue=True), False),
]


def loan_programs(rows, scripts, variant):
    b = Batch(PRELUDE + leaves(), variant)
    for name, (owner, read, write), mk, use, der, dused, params, native in rows:
        p = dict(SH, **params)
        for script, want in scripts[key(p)]:
            body = [owner]
            for op, i in script:
                h = "d" if i == 2 else f"h{i}"
                body.append({
                    "make": lambda: f"let mut {h} = {mk};",
                    "use": lambda: f"use_(&({(dused if i == 2 else use).replace('{h}', h).replace('{d}', h)}));",
                    "move": lambda: f"drop({h});",
                    "derive": lambda: f"let mut d = {der.replace('{h}', 'h0')};",
                    "read": lambda: read + ";", "write": lambda: write + ";", "leave": lambda: "drop(o);"}[op]())
            b.add(f"fn f{len(b.items)}() {{ {' '.join(body)} }}", ("counterpart" if native else "handle", f"loan:{name}:{cmdline(sum(script, []))}"), want)
    return b


BORROW = {"E0382", "E0499", "E0502", "E0505", "E0506", "E0503", "E0597", "E0716", "E0507"}


def check(chk):
    res = {}

    def threads(sub):
        r = tlc(sub, "MCThreads", dict(Depth=3 if chk.thorough else 2), ["SPECIFICATION Spec", "INVARIANT Tell"], workers=2)
        sub.states += r.distinct
        sub.transitions += r.states
        return r.prints

    def loans(sub):
        r = tlc(sub, "MCLoans", dict(MaxLen=6 if chk.thorough else 5, Emit=True),
                ["CONSTANT Rows <- MyRows", "SPECIFICATION Spec", "INVARIANTS TypeOK NoDangling Alone Tell", "PROPERTY Sticky"], workers=4, heap="6g")
        sub.states += r.distinct
        sub.transitions += r.states
        used = {key(dict(SH, **x[6])) for x in ROWS}
        out = {}
        for row, script, want in r.prints:
            k = key({f: row[f] for f in SH})
            if k in used:
                out.setdefault(k, []).append((script, want))
        if set(out) != used:
            raise ToolError("rows without scripts")
        return out

    externs("A")
    externs("B")
    qs, scripts = pool(chk, [threads, loans], n=2)
    by = {}
    for x in qs:
        by.setdefault(x[0], []).append(x)
    jobs = []

    def compile_(name, batch, codes):
        jobs.append(lambda sub: report(sub, name.split("-")[0], batch.run(sub, name), codes))

    vs = "AB" if chk.thorough else "A"
    n = 10 if chk.thorough else 3
    for v in vs:
        for k in range(n):
            compile_(f"threads-{v}{k}", thread_programs(by["thread"][k::n], v), {"E0277"})
        for k in range(n):
            compile_(f"lifetimes-{v}{k}", lifetime_programs(by["lifetime"][k::n], v, chk.thorough), {""})
        compile_(f"hiding-{v}", hide_programs(by["hide"], v), {"E0277", "E0271", "", "E0521"})
        compile_(f"doors-{v}", door_programs(by["door"], v), {"E0277", "", "E0521", "E0373", "E0310"})
    # Every short script; of the longer ones, a selection.
    pick = {}
    top = max(len(s) for ss in scripts.values() for s, _ in ss)
    for k, ss in scripts.items():
        short = [x for x in ss if len(x[0]) < top]
        long = [x for x in ss if len(x[0]) == top]
        chk.rng.shuffle(long)
        pick[k] = short + long[:200 if chk.thorough else 60]
    m = 16
    for v in vs:
        for k in range(m):
            compile_(f"loans-{v}{k}", loan_programs(ROWS[k::m], pick, v), BORROW)
    chk.sample({"question": by["hide"][0], "script": next(iter(pick.values()))[-1]})
    pool(chk, jobs)
    for w in ("threads", "lifetimes", "hiding", "doors", "loans"):
        if not chk.violations and not (chk.extra.get(f"{w} accepted") and chk.extra.get(f"{w} refused")):
            raise ToolError(f"{w}: one of the answers never occurs")


if __name__ == "__main__":
    main(check, sys.argv[1])
