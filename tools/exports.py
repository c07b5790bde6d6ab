"""Programs that export the functions, constants and types of a universe (spec/MCAbi.tla), their
generated headers, and what the specification says those have to declare."""
import json
import subprocess

import abi
import vlib

DOCS = ["", "/// Plain docs.\n", "/** Block docs\n * of `two` lines */\n", '#[doc = " ends */ the comment /* and <b> & \\"quotes\\" \\\\"]\n',
        "/// Several\n///\n/// paragraphs ```with code```\n"]
FLOAT = {"f32", "f64"}


def const_value(c):
    """The value of a constant and how Rust spells it."""
    b = c["bytes"]
    if c["ty"] == "bool":
        return bool(b[0]), "true" if b[0] else "false"
    if c["ty"] in FLOAT:
        v = b[0] / (1 << b[1])
        return v, f"{v}_{c['ty']}"
    signed = c["ty"] in abi.SIGNED
    v = int.from_bytes(bytes(b), "little", signed=signed)
    if v and v == -(1 << (8 * len(b) - 1)) and signed:
        return v, f"{c['ty']}::MIN"
    return v, str(v)


class Param(str):
    """The name of a parameter, with the pattern it comes from."""

    def __new__(cls, q):
        kind, binds, name = q
        self = str.__new__(cls, name)
        self.pat = {"mut": "mut ", "ref": "ref "}.get(kind, "") + binds
        return self


class Program:
    """One exporting program."""

    def __init__(self, u, rng, per_root=True, docs=False, renames=False, modules=False, exports=False, untyped=False):
        D, roots = u["D"], u["roots"]
        self.u, self.D = u, D
        self.renamed = set()
        for i, d in enumerate(D):
            if renames and "ext" not in d and (d["k"] in ("enum", "opaque", "struct") and d["params"] == 0 and rng.random() < 0.5):
                self.renamed.add(i + 1)
        doc = (lambda: rng.choice(DOCS)) if docs else (lambda: "")
        self.decls = []
        self.exported_types = []
        for i, d in enumerate(D):
            t = abi.decl(D, i + 1, rename=i + 1 in self.renamed, docs=doc())
            if exports and "ext" not in d and d["params"] == 0 and rng.random() < 0.5:
                t = "#[ffi_export]\n" + t
                self.exported_types.append(i + 1)
            self.decls.append(t)
        # functions: (exported name, rust name, [(param, root)], result root or 0)
        self.fns = []
        for j, f in enumerate(u["fns"]):
            self.fns.append([f"fn_{j}", f"fn_{j}", [(Param(q), a) for q, a in zip(f["params"], f["args"])], f["ret"]])
        if per_root:
            for k in range(1, len(roots) + 1):
                self.fns.append([f"take_{k}", f"take_{k}", [("x", k)], k if k % 2 else 0])
        if renames:
            for f in self.fns:
                if rng.random() < 0.3:
                    f[0] = "other_" + f[0]
        self.consts = [(f"K{j}", c, untyped and j % 3 == 0) for j, c in enumerate(u["consts"])]
        items = []
        for ex, n, ps, r in self.fns:
            a = f'(rename = "{ex}")' if ex != n else ""
            ret = f" -> {abi.rust(D, roots[r - 1]['type'])}" if r else ""
            args = ", ".join(f"{getattr(p, 'pat', p)}: {abi.rust(D, roots[k - 1]['type'])}" for p, k in ps)
            items.append(f"{doc()}#[ffi_export{a}] fn {n}({args}){ret} {{ ::std::process::abort() }}")
        for n, c, un in self.consts:
            ty = "::std::os::raw::c_int" if c["ty"] == "c_int" else c["ty"]
            items.append(f"{doc()}#[ffi_export{'(untyped)' if un else ''}] pub const {n}: {ty} = {const_value(c)[1]};")
        rng.shuffle(items)
        if modules:
            third = len(items) // 3 + 1
            parts = [items[i:i + third] for i in range(0, len(items), third)]
            items = ["mod m%d { use super::*; %s }" % (i, "\n".join(p)) for i, p in enumerate(parts)]
        self.items = items
        # the named things whose foreign names we ask for
        self.named = [e for e in u["foreign"]]
        self.by_key = {json.dumps(e["foreign"]): e for e in self.named}

    def rust_of(self, f):
        return abi.rust(self.D, f[1]) if f[0] == "ca" else abi.rust(self.D, ["d", f[1], []])

    def code(self, guard, text):
        names = []
        for e in self.named:
            t = self.rust_of(e["foreign"])
            names.append("{ type C = CLayoutOf<%s>; names.push([<C as CType>::name(&l::C), "
                         "<C as CType>::name(&l::CSharp), <C as CType>::name(&l::Python)]); }" % t)
        b = ("safer_ffi::headers::builder().with_language(lang)"
             + (f".with_guard({json.dumps(guard)})" if guard else "")
             + (f".with_text_after_guard({json.dumps(text)})" if text else ""))
        return abi.PRELUDE + "\n".join(self.decls) + "\n" + "\n".join(self.items) + """
fn gen(lang: ::safer_ffi::headers::Language, stable: Option<bool>) -> String {
    let mut out = Vec::new();
    let b = %s;
    let b = match stable { Some(s) => b.with_stable_header(s), None => b };
    b.to_writer(&mut out).generate().unwrap();
    String::from_utf8(out).unwrap()
}
fn main() {
    ::std::env::set_var("CARGO_PKG_NAME", "some_lib");
    ::std::env::remove_var("CARGO_CRATE_NAME");
    use ::safer_ffi::headers::languages as l;
    use ::safer_ffi::headers::languages::*;
    use ::safer_ffi::headers::Language as L;
    let mut names: Vec<[String; 3]> = vec![];
    %s
    let hs = vec![gen(L::C, None), gen(L::C, None), gen(L::C, Some(false)), gen(L::C, Some(true)),
                  gen(L::CSharp, None), gen(L::CSharp, None), gen(L::CSharp, Some(false)),
                  gen(L::Python, None), gen(L::Python, None), gen(L::Python, Some(false))];
    println!("{}", ::serde_json::to_string(&(names, hs)).unwrap());
}
""" % (b, "\n    ".join(names))

    def run(self, chk, name, guard=None, text=None, variant="A"):
        """Compiles and runs the program. Returns (error or None)."""
        ok, errs, exe = vlib.rustc(chk, name, self.code(guard, text), variant, emit="link")
        if not ok:
            return f"rejected by the compiler: {errs[:3]}"
        outs = []
        for _ in range(2):
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
            if p.returncode != 0:
                return f"generation failed ({p.returncode}): {p.stderr[-600:]}"
            outs.append(p.stdout)
        import os
        os.unlink(exe)
        names, hs = json.loads(outs[0])
        self.headers = dict(zip(("C", "C2", "Cfree", "Cstable", "CSharp", "CSharp2", "CSharpfree", "Python", "Python2",
                                 "Pythonfree"), hs))
        self.names = {json.dumps(e["foreign"]): n for e, n in zip(self.named, names)}
        self.again = json.loads(outs[1])[1] == hs
        return None

    # ------------------------------------------------------------------ what has to be declared

    def needed(self):
        """The named foreign types the exports mention, transitively, in the order of the universe."""
        seen = set()

        def visit(f):
            if f[0] == "cp":
                visit(f[2])
            elif f[0] == "cn":
                visit(f[1])
            elif f[0] == "cf":
                for a in f[1]:
                    visit(a)
                visit(f[2])
            elif f[0] != "c":
                k = json.dumps(f)
                if k not in seen:
                    seen.add(k)
                    for m in self.by_key[k]["members"]:
                        visit(m[1])

        for _, _, ps, r in self.fns:
            for _, k in ps:
                visit(self.u["forms"][k - 1])
            if r:
                visit(self.u["forms"][r - 1])
        for i in self.exported_types:
            visit(self.u["declared"][i - 1])  # (an exported transparent type is its field)
        return [e for e in self.named if json.dumps(e["foreign"]) in seen]

    def expected_name(self, f):
        """The C name of a declared type, where the rules leave no choice."""
        if f[0] == "ca" and f[1][0] != "d":
            return None
        i = f[1][1] if f[0] == "ca" else f[1]
        if self.D[i - 1]["params"]:
            return None
        if "ext" in self.D[i - 1]:
            return self.D[i - 1]["ext"] + "_t"
        n = abi.dname(self.D, i)
        return ("Ren" + n if i in self.renamed else n) + "_t"

    def short(self, i):
        n = abi.dname(self.D, i)
        return "Ren" + n if i in self.renamed else n

    def member(self, f, m):
        """The name of a member as printed by the specification."""
        if isinstance(m, str):
            return m
        d = self.D[f[1][1] - 1]
        return {"named": lambda: abi.fname(d, m[1]).replace("r#", ""), "positional": lambda: f"_{m[1]}"}[m[0]]()

    def fn_form(self, ps, r):
        return [self.u["forms"][k - 1] for _, k in ps], (self.u["forms"][r - 1] if r else ["c", "void"])

    def enumerators(self, i):
        d = self.D[i - 1]
        signed = d["repr"] in abi.SIGNED
        return [(abi.variant(j), int.from_bytes(bytes(b), "little", signed=signed)) for j, b in enumerate(d["discs"])]
