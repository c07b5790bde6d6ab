"""C18: the specification Programs.tla against what the compiler accepts."""
from vlib import *
from c_threads import Batch, report

PRELUDE = """#![allow(warnings)]
use ::safer_ffi::prelude::*;
use ::safer_ffi::{c_char, closure::*, bytes::Bytes, layout::*, dyn_traits::*, tuple::*, ptr};
use ::std::{marker::PhantomData, rc::Rc, pin::Pin, sync::Arc, num::NonZeroU8, cell::Cell, ptr::NonNull, mem::{size_of, align_of}};
type Str = ::core::primitive::str;
#[derive_ReprC] #[repr(opaque)] pub struct Op { x: String }
#[derive_ReprC] #[repr(opaque)] pub struct OpG<T> { x: T }
#[derive_ReprC] #[repr(opaque)] pub enum OpE { A(String), B }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy, Debug)] pub struct St { x: u8, y: u32 }
#[derive_ReprC] #[repr(C)] pub struct G<T> { x: T }
#[derive_ReprC] #[repr(transparent)] pub struct Tr<T>(T);
#[derive_ReprC] #[repr(transparent)] pub struct Nt(u16);
#[derive_ReprC] #[repr(transparent)] pub struct Cb(pub extern "C" fn(u8) -> u8);
#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy, Debug)] pub enum En { A, B }
#[derive_ReprC] #[repr(transparent)] #[derive(Clone, Copy, Debug)] pub struct Z(PhantomData<u8>);
#[derive_ReprC(dyn)] pub trait Tt { fn m(&self); }
pub struct Plain(u8);
pub struct PlainOf<T>(T);
fn is_reprc<T : ReprC>() {}
fn make<T>() -> T { loop {} }
extern "C" fn ident(x: u8) -> u8 { x }
fn ex<R>(_: impl ::std::future::Future<Output = R>) -> R { loop {} }
"""

LEAVES = {
    "u8": "u8", "i64": "i64", "usize": "usize", "f32": "f32", "bool": "bool", "c_char": "c_char", "struct": "St", "enum": "En", "newtype": "Nt",
    "callback": "Cb", "char_p_ref": "char_p::Ref<'static>", "char_p_box": "char_p::Box", "str_ref": "str::Ref<'static>", "str_box": "str::Box",
    "string": "repr_c::String", "bytes": "Bytes<'static>", "virtual": "VirtualPtr<dyn 'static + Tt>",
    "unit": "()", "phantom": "PhantomData<u8>", "marker": "PhantomData<Plain>",
    "opaque": "Op", "opaque_of": "OpG<Plain>", "opaque_enum": "OpE", "rust_string": "String", "rust_vec": "Vec<u8>", "rust_box": "Box<u8>",
    "rust_str_ref": "&'static Str", "rust_slice_ref": "&'static [u8]",
    "u128": "u128", "i128": "i128", "char": "char", "str": "Str", "slice": "[u8]", "plain": "Plain", "plain_of": "PlainOf<u8>", "rust_tuple": "(u8, u16)",
    "rust_fn": "fn(u8) -> u8", "system_fn": 'extern "system" fn(u8) -> u8', "nonzero": "NonZeroU8", "dyn": "(dyn 'static + Tt)",
    "cell": "Cell<u8>", "array0": "[u8; 0]", "array33": "[u8; 33]", "rust_arc": "Arc<u8>",
}
CTORS = {
    "vec": "repr_c::Vec<{}>", "slice_ref": "c_slice::Ref<'static, {}>", "slice_mut": "c_slice::Mut<'static, {}>", "slice_box": "c_slice::Box<{}>",
    "ref": "&'static {}", "mut": "&'static mut {}", "nonnull": "NonNull<{}>", "owned": "ptr::NonNullOwned<{}>", "out": "Out<'static, {}>", "box": "repr_c::Box<{}>",
    "const_ptr": "*const {}", "mut_ptr": "*mut {}", "array": "[{}; 3]", "tagged": "repr_c::TaggedOption<{}>", "tuple1": "Tuple1<{}>", "generic": "G<{}>",
    "option": "Option<{}>", "transparent": "Tr<{}>", "tuple2": "Tuple2<{}, {}>",
    "fn": 'extern "C" fn({1}) -> {0}', "unsafe_fn": 'unsafe extern "C" fn({1}) -> {0}', "box_fn": "BoxDynFnMut1<{}, {}>", "arc_fn": "ArcDynFn1<{}, {}>",
    "ref_fn": "RefDynFnMut1<'static, {}, {}>",
}


def ty(t):
    return LEAVES[t[0]] if len(t) == 1 else CTORS[t[0]].format(*map(ty, t[1:]))


SAME = "const _: () = assert!(size_of::<{0}>() == size_of::<CLayoutOf<{0}>>() && align_of::<{0}>() == align_of::<CLayoutOf<{0}>>());"
POSITIONS = {
    "param": "#[ffi_export] fn {f}(x: {t}) {{}}",
    "second_param": "#[ffi_export] fn {f}(y: u8, x: {t}) {{}}",
    "returned": "#[ffi_export] fn {f}() -> {t} {{ loop {{}} }}",
    "field": "#[derive_ReprC] #[repr(C)] pub struct {F} {{ y: u8, x: {t} }} const _: () = assert!(size_of::<{F}>() == size_of::<CLayoutOf<{F}>>() && align_of::<{F}>() == align_of::<CLayoutOf<{F}>>());",
    "lifetime_field": "#[derive_ReprC] #[repr(C)] pub struct {F}<'a, 'b> {{ y: &'a u8, w: &'b u8, x: {t}, a: {ta}, b: {tb} }}",
    "generic_field": "#[derive_ReprC] #[repr(C)] pub struct {F}<T> {{ y: T, x: {t} }} fn {f}() {{ is_reprc::<{F}<u8>>() }}",
    "pointee": "#[ffi_export] fn {f}(x: *const {t}) {{}}",
    "mut_pointee": "#[ffi_export] fn {f}(x: &'static mut {t}) {{}}",
    "method_param": "#[derive_ReprC(dyn)] pub trait {F} {{ fn m(&self, x: {t}); }}",
    "method_returned": "#[derive_ReprC(dyn)] pub trait {F} {{ fn m(&self) -> {t}; }}",
    "newtype_param": '#[derive_ReprC] #[repr(transparent)] pub struct {F}(pub extern "C" fn(y: u8, x: {t})); fn {f}() {{ is_reprc::<{F}>() }}',
    "newtype_returned": '#[derive_ReprC] #[repr(transparent)] pub struct {F}(pub extern "C" fn(y: u8) -> {t}); fn {f}() {{ is_reprc::<{F}>() }}',
    "async_param": "#[ffi_export(executor = ex)] async fn {f}(x: {t}) {{ ffi_await!(async move {{}}) }}",
    "async_returned": "#[ffi_export(executor = ex)] async fn {f}() -> {t} {{ ffi_await!(async move {{ loop {{}} }}) }}",
}


def type_program(b, q, want):
    _, p, t = q
    n = len(b.items)
    text = POSITIONS[p].format(f=f"f{n}", F=f"F{n}", t=ty(t), ta=ty(t).replace("'static", "'a"), tb=ty(t).replace("'static", "'b"))
    if p == "field" and want == "accepted":
        text += SAME.format(ty(t))
    b.add(text, ("handle", json.dumps([p, t])), want)


FIELDS = {"u8": "u8", "u32": "u32", "ref": "&'static u8", "marker": "PhantomData<u16>", "unit": "()", "zero": "Z", "opaque": "Op", "plain": "Plain",
          "param": "T", "hidden": "u32", "shown": "u32"}
CFG = {"hidden": "#[cfg(any())] ", "shown": "#[cfg(all())] "}


def struct_program(b, q, want):
    x = q[1]
    n = len(b.items)
    hs = ["#[repr(" + h + ")]" for h in (x["hints"] if x["split"] else [", ".join(x["hints"])])] if x["hints"] else []
    hs = [h.replace("align", "align(16)") for h in hs]
    fs = [CFG.get(f, "") + ("" if x["kind"] == "tuple" else f"x{i}: ") + FIELDS[f] for i, f in enumerate(x["fields"])]
    gen = "param" in x["fields"]
    body = {"unit": ";", "tuple": f"({', '.join(fs)});", "named": f" {{ {', '.join(fs)} }}"}[x["kind"]]
    b.add(f"#[derive_ReprC] {' '.join(hs)} pub struct F{n}{'<T>' if gen else ''}{body} fn f{n}() {{ is_reprc::<F{n}{'<u8>' if gen else ''}>() }}", ("handle", json.dumps(x, sort_keys=True)), want)


VARIANTS = {"unit": "", "zero": " = 0", "neg": " = -1", "big": " = 300", "wide": " = 70000", "tuple": "(u8)", "named": " {{ x: u8 }}", "brace": " {{}}"}


def enum_program(b, q, want):
    x = q[1]
    n = len(b.items)
    hs = ["#[repr(" + h + ")]" for h in (x["hints"] if x["split"] else [", ".join(x["hints"])])] if x["hints"] else []
    wide = "0x1_0000_0000" if not set(x["hints"]) & {"u8", "i8", "u16", "i16", "u32", "i32"} else "70000"
    vs = ", ".join("AB"[i] + VARIANTS[v].replace("70000", wide).replace("{{", "{").replace("}}", "}") for i, v in enumerate(x["variants"]))
    g = {"": "", "type": "<T>", "lifetime": "<'a>", "const": "<const N: usize>", "where": " where u8: Copy"}[x["generics"]]
    b.add(f"#[derive_ReprC] {' '.join(hs)} pub enum F{n}{g} {{ {vs} }}", ("handle", json.dumps(x, sort_keys=True)), want)


SHAPES = {
    "C": ("#[repr(C)] pub struct {F}<T> {{ x: T, y: u8 }}", "{F}<{t}>"),
    "C_bounded": ("#[repr(C)] pub struct {F}<T> where T: ReprC {{ x: T, y: u8 }}", "{F}<{t}>"),
    "transparent": ("#[repr(transparent)] pub struct {F}<T>(T);", "{F}<{t}>"),
    "transparent_marker": ("#[repr(transparent)] pub struct {F}<T> {{ m: PhantomData<u16>, x: T }}", "{F}<{t}>"),
    "opaque": ("#[repr(opaque)] pub struct {F}<T> {{ x: T, y: u8 }}", "{F}<{t}>"),
    "lifetime": ("#[repr(transparent)] pub struct {F}<'a>({t}, PhantomData<&'a ()>);", "{F}<'static>"),
    "const": ("#[repr(C)] pub struct {F}<const N: usize> {{ x: {t}, y: [u8; N] }}", "{F}<3>"),
}


def shape_program(b, q, want):
    _, s, p, t = q
    n = len(b.items)
    item, use = SHAPES[s]
    text = f"#[derive_ReprC] {item.format(F=f'S{n}', t=ty(t))} " + POSITIONS[p].format(use.format(F=f"S{n}", t=ty(t)), f=f"f{n}", F=f"F{n}", t=use.format(F=f"S{n}", t=ty(t)))
    b.add(text, ("handle", json.dumps(q[1:])), want)


ATTRS = {"": "", "rename": '(rename = "renamed{n}")', "rename_bad": '(rename = "a-b{n}")', "rename_empty": '(rename = "")', "rename_ident": "(rename = renamed{n})",
         "rename_twice": '(rename = "renamed{n}", rename = "again{n}")', "unknown": "(whatever)", "executor": "(executor = ex)", "untyped": "(untyped)"}
GENERICS = {"": "", "lifetime": "<'a>", "bounded_lifetime": "<'a, 'b : 'a>", "type": "<T>", "used_type": "<T : ReprC>", "const": "<const N: usize>",
            "where": "", "impl_param": "", "impl_ret": ""}


def function_program(b, q, want):
    f = q[1]
    n = len(b.items)
    quals = [w for w in ("const", "async", "unsafe") if f[w]]
    if f["abi"]:
        quals.append("extern" if f["abi"] == "extern" else f'extern "{f["abi"]}"')
    args = [{"": "", "ref": "&self", "mut": "&mut self", "value": "self"}[f["receiver"]],
            {"lifetime": "x: &'a u8", "bounded_lifetime": "x: &'a &'b u8", "used_type": "x: &'static T", "impl_param": "x: impl ReprC"}.get(f["generics"], "x: u8"),
            "..." if f["variadic"] else ""]
    ret = {"lifetime": " -> &'a u8", "impl_ret": " -> impl Sized"}.get(f["generics"], "")
    where = " where u8: Copy" if f["generics"] == "where" else ""
    b.add(f"#[ffi_export{ATTRS[f['attr']].format(n=n)}] pub {' '.join(quals)} fn f{n}{GENERICS[f['generics']]}({', '.join(a for a in args if a)}){ret}{where} {{ loop {{}} }}",
          ("handle", json.dumps(f, sort_keys=True)), want)


def async_program(b, q, want):
    f = q[1]
    n = len(b.items)
    body = {"last": "let y = x; ffi_await!(async move {{ {v} }})", "none": "{v}", "first": "ffi_await!(async move {{ {v} }}); {v}",
            "twice": "ffi_await!(async move {{}}); ffi_await!(async move {{ {v} }})", "macro_args": "ffi_await!({v})"}[f["await"]].format(v="1u8" if f["ret"] else "()")
    quals = ("async " if f["async"] else "") + ("unsafe " if f["unsafe"] else "") + (f'extern "{f["abi"]}" ' if f["abi"] else "")
    b.add(f"#[ffi_export{'(executor = ex)' if f['executor'] else ''}] pub {quals}fn f{n}(x: u8){' -> u8' if f['ret'] else ''} {{ {body} }}",
          ("handle", json.dumps(f, sort_keys=True)), want)


RECEIVERS = {"ref": "&self", "mut": "&mut self", "pin_ref": "self: Pin<&Self>", "pin_mut": "self: Pin<&mut Self>", "typed_ref": "self: &Self", "typed_mut": "self: &mut Self",
             "value": "self", "none": "", "box": "self: Box<Self>", "rc": "self: Rc<Self>", "arc": "self: Arc<Self>", "pin_arc": "self: Pin<Arc<Self>>", "twice_pinned": "self: Pin<Pin<&mut Self>>", "pin_box": "self: Pin<Box<Self>>"}


def method(r, name, quals="", generics="", args="x: u8", body=";"):
    return f"{quals}fn {name}{generics}({', '.join(a for a in (RECEIVERS[r], args) if a)}) -> u8{body}"


def method_program(b, q, want):
    m = q[1]
    n = len(b.items)
    quals = ("async " if m["async"] else "") + ("unsafe " if m["unsafe"] else "")
    g, a = {"": ("", "x: u8"), "lifetime": ("<'a>", "x: &'a u8"), "type": ("<T : ReprC>", "x: &'static T"), "const": ("<const N: usize>", "x: u8")}[m["generics"]]
    b.add(f"#[derive_ReprC(dyn)] pub trait F{n} {{ {method(m['receiver'], 'm', quals, g, a, ' { loop {} }' if m['body'] else ';')} }}",
          ("handle", json.dumps(m, sort_keys=True)), want)


def pair_program(b, q, want):
    n = len(b.items)
    b.add(f"#[derive_ReprC(dyn)] pub trait F{n} {{ {method(q[1], 'm')} {method(q[2], 'k')} }}", ("handle", json.dumps(q[1:])), want)


TRAITS = {"type": "pub trait {F} {{ type T; fn m(&self); }}", "const": "pub trait {F} {{ const N: u8; fn m(&self); }}", "generic": "pub trait {F}<T> {{ fn m(&self, x: &'static T); }}",
          "lifetime": "pub trait {F}<'a> {{ fn m(&self, x: &'a u8); }}", "supertrait_clone": "pub trait {F} : Clone {{ fn m(&self); }}",
          "macro": "pub trait {F} {{ println!(); fn m(&self); }}"}


def trait_program(b, q, want):
    b.add(f"#[derive_ReprC(dyn)] {TRAITS[q[1]].format(F=f'F{len(b.items)}')}", ("handle", json.dumps(q[1:])), want)


def virtual_program(b, q, want):
    v = q[1]
    n = f"V{len(b.items)}"
    g = v["generics"]
    params = (["'a"] if "lifetime" in g else []) + (["'b : 'a"] if "bounded" in g else []) + (["const N : usize"] if "const" in g else [])
    names = [x.split(" : ")[0].replace("const ", "") for x in params]
    intro, fwd = (f"<{', '.join(params)}>", f"<{', '.join(names)}>") if params else ("", "")
    args = f"<{', '.join(dict(N='3').get(x, x) for x in names)}>" if params else ""
    lts = f"<{', '.join(['u', *[x for x in params if x[0] == chr(39)]])}>".replace("<u", "<'u")
    sup = {"": "", "send": ": Send", "sync": ": ::core::marker::Sync", "both": ": Send + Sync", "static": ": 'static"}[v["super"]]
    where = "where u8 : Copy" if "where" in g else ""
    recv = {"ref": "&self", "mut": "&mut self", "pin": "self: Pin<&mut Self>"}[v["receiver"]]
    x = "&'b u8" if "bounded" in g else "&'a u8" if "lifetime" in g else "u8"
    form = {"plain": "", "send": " + Send", "both": " + Send + Sync"}[v["form"]]
    uns, vis = "unsafe " if v["unsafe"] else "", "pub " if v["public"] else ""
    ptr = "Pin<Box<{}>>" if v["receiver"] == "pin" else "Box<{}>"
    call = {"ref": "v.m(x)", "mut": "v.m(x)", "pin": "unsafe { Pin::new_unchecked(&mut v) }.m(x)"}[v["receiver"]]
    lt = "'static" if v["super"] == "static" else "'u"
    b.add(f"#[derive_ReprC(dyn{', Clone' if v['clone'] else ''})] {vis}{uns}trait {n}{intro} {sup} {where} {{ fn m({recv}, x: {x}) -> u8; }} "
          f"#[derive(Clone)] {vis}struct I{n}; {uns}impl{intro} {n}{fwd} for I{n} {where} {{ fn m({recv}, x: {x}) -> u8 {{ 3 }} }} "
          f"fn f{n}{lts}(p: {ptr.format('I' + n)}, x: {x}) {{ let mut v: VirtualPtr<dyn {lt}{form} + {n}{args}> = p.into(); {call}; "
          f"{'let w = v.clone(); drop(v); drop(w)' if v['clone'] else 'drop(v)'} }}", ("handle", json.dumps(v)), want)


CONSTANTS = {
    "u8": ("u8", "1"), "i64": ("i64", "-1"), "usize": ("usize", "1"), "f32": ("f32", "1.5"), "f64": ("f64", "1.5"), "bool": ("bool", "true"),
    "struct": ("St", "St { x: 1, y: 2 }"), "enum": ("En", "En::A"), "newtype": ("Nt", "Nt(3)"), "unit": ("()", "()"), "phantom": ("PhantomData<u8>", "PhantomData"),
    "rust_string": ("String", "String::new()"), "rust_vec": ("Vec<u8>", "Vec::new()"), "rust_str_ref": ("&'static Str", '"a"'), "rust_slice_ref": ("&'static [u8]", "&[1]"),
    "ref": ("&'static u8", "&3"), "array": ("[u8; 3]", "[1, 2, 3]"), "option": ("Option<&'static u8>", "None"), "fn": ('extern "C" fn(u8) -> u8', "ident"),
    "option_fn": ('Option<extern "C" fn(u8) -> u8>', "None"), "plain": ("Plain", "Plain(1)"), "u128": ("u128", "1"), "char": ("char", "'a'"), "option_u8": ("Option<u8>", "None"),
    "rust_tuple": ("(u8, u16)", "(1, 2)"), "const_ptr": ("*const u8", "::std::ptr::null()"), "char_p_ref": ("char_p::Ref<'static>", 'c!("a")'), "option_opaque": ("Option<Op>", "None"),
}


def constant_program(b, q, want):
    n = len(b.items)
    t, v = CONSTANTS[q[1]]
    b.add(f"#[ffi_export] pub const X{n}: {t} = {v};", ("handle", q[1]), want)


def callback_program(b, q, want):
    c = q[1]
    n = len(b.items)
    abi = {"": "", "extern": "extern "}.get(c["abi"], f'extern "{c["abi"]}" ')
    lt = "<'a>" if c["lifetime"] == "param" else ""
    arg = {"": "u8", "param": "&'a u8", "bound": "&'_ u8"}[c["lifetime"]]
    fs = [("pub " if c["public_field"] else "") + ("x: " if c["named"] else "") + f"{'unsafe ' if c['unsafe'] else ''}{abi}fn(y: {arg}{', ...' if c['variadic'] else ''}) -> u8"]
    fs += [("m: " if c["named"] else "") + "PhantomData<u16>"] if c["marker"] else []
    body = f" {{ {', '.join(fs)} }}" if c["named"] else f"({', '.join(fs)});"
    repr_ = f"#[repr({c['repr']})]" if c["repr"] else ""
    b.add(f"#[derive_ReprC] {repr_} {'pub' if c['public'] else ''} struct F{n}{lt}{body} fn f{n}() {{ is_reprc::<F{n}>() }}", ("handle", json.dumps(c, sort_keys=True)), want)


ITEMS = {
    "static": "pub static X{n}: u8 = 1;", "static_mut": "pub static mut X{n}: u8 = 1;", "union": "#[repr(C)] pub union X{n} {{ x: u8 }}",
    "trait": "pub trait X{n} {{ fn m(&self); }}", "impl": "impl St {{ fn x{n}() {{}} }}", "mod": "mod x{n} {{}}", "alias": "type X{n} = u8;", "use": "use ::std::mem as x{n};",
    "extern_block": 'extern "C" {{ fn x{n}(); }}', "macro": "macro_rules! x{n} {{ () => {{}} }}", "struct_without_layout": "#[repr(C)] pub struct X{n} {{ x: u8 }}",
    "enum_without_layout": "#[repr(u8)] pub enum X{n} {{ A }}", "generic_struct": "#[derive_ReprC] #[repr(C)] pub struct X{n}<T> {{ x: T }}",
    "struct": "#[derive_ReprC] #[repr(C)] pub struct X{n} {{ x: u8 }}", "enum": "#[derive_ReprC] #[repr(u8)] pub enum X{n} {{ A }}",
    "opaque": "#[derive_ReprC] #[repr(opaque)] pub struct X{n} {{ x: String }}",
    "fn": "pub fn x{n}() {{}}", "const": "pub const X{n}: u8 = 1;",
}
DERIVED = {"dyn_struct": "#[derive_ReprC(dyn)] #[repr(C)] pub struct X{n} {{ x: u8 }}", "dyn_enum": "#[derive_ReprC(dyn)] #[repr(u8)] pub enum X{n} {{ A }}",
           "dyn_fn": "#[derive_ReprC(dyn)] pub fn x{n}() {{}}", "dyn_twice": "#[derive_ReprC(dyn, dyn)] pub trait X{n} {{ fn m(&self); }}",
           "other": "#[derive_ReprC(whatever)] #[repr(C)] pub struct X{n} {{ x: u8 }}", "dyn_other": "#[derive_ReprC(dyn, Whatever)] pub trait X{n} {{ fn m(&self); }}",
           "renamed": '#[derive_ReprC(rename = "Y{n}")] #[repr(C)] pub struct X{n} {{ x: u8 }}',
           "renamed_twice": '#[derive_ReprC(rename = "Y{n}", rename = "Z{n}")] #[repr(C)] pub struct X{n} {{ x: u8 }}',
           "renamed_to_number": "#[derive_ReprC(rename = {n})] #[repr(C)] pub struct X{n} {{ x: u8 }}"}


def item_program(b, q, want):
    n = len(b.items)
    if q[1] == "export":
        text = ITEMS[q[2]]
        text = text.replace("#[derive_ReprC]", "#[derive_ReprC] #[ffi_export]") if "#[derive_ReprC]" in text else "#[ffi_export] " + text
    else:
        text = DERIVED.get(q[2]) or "#[derive_ReprC] " + ITEMS[q[2]]
    b.add(text.format(n=n), ("handle", json.dumps(q[1:])), want)


RENDER = dict(callback=callback_program, item=item_program, constant=constant_program, generic=struct_program, type=type_program, struct=struct_program, enum=enum_program, shape=shape_program, function=function_program, method=method_program,
              pair=pair_program, trait=trait_program, virtual=virtual_program)
RENDER["async"] = async_program


def check(chk):
    r = tlc(chk, "MCPrograms", dict(Depth=2 if chk.thorough else 1, Slack=3 if chk.thorough else 2), ["SPECIFICATION Spec", "INVARIANT Tell"], workers=4, heap="6g")
    chk.states += r.distinct
    chk.transitions += r.states
    by = {}
    for q, want in sorted(r.prints, key=json.dumps):   # several workers print in no particular order
        by.setdefault(q[0], []).append((q, want))
    if set(by) != set(RENDER):
        raise ToolError("questions are missing")
    externs("A")
    externs("B")
    if not chk.thorough:
        # Of the less central positions, every other type.
        main_ = {"param", "returned", "field", "pointee"}
        by["type"] = [x for i, x in enumerate(by["type"]) if x[0][1] in main_ or (i + chk.seed) % 3 == 0 or len(x[0][2]) == 1]
    jobs = []

    def job(kind, qs, v, k):
        def go(sub):
            b = Batch(PRELUDE, v)
            for q, want in qs:
                RENDER[kind](b, q, want)
            # The known defects have a name instead of an answer: it is "refused" that would be right.
            b.items = [(text, (i[0], want), "refused") if want.startswith("unseen:") else (text, i, want) for text, i, want in b.items]
            report(sub, kind, b.run(sub, f"{kind}-{v}{k}"))
        jobs.append(go)

    for v in "AB" if chk.thorough else "A":
        for kind, qs in sorted(by.items()):
            n = max(1, len(qs) // 1500)
            for k in range(n):
                job(kind, qs[k::n], v, k)
    chk.sample(by["type"][len(by["type"]) // 2])
    pool(chk, jobs)
    for w in RENDER:
        if not chk.violations and w not in ("trait", "virtual") and not (chk.extra.get(f"{w} accepted") and chk.extra.get(f"{w} refused")):
            raise ToolError(f"{w}: one of the answers never occurs")


if __name__ == "__main__":
    main(check, sys.argv[1])
