"""C17: generated C# and Python bindings against what spec/Abi.tla says they have to declare."""
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import abi
import c_header
import exports
import vlib

# ------------------------------------------------------------------------------------------- C#

CS = {"bool": "bool", "u8": "byte", "i8": "sbyte", "u16": "UInt16", "i16": "Int16", "u32": "UInt32", "i32": "Int32",
      "u64": "UInt64", "i64": "Int64", "usize": "UIntPtr", "isize": "IntPtr", "f32": "float", "f64": "double",
      "c_int": "int", "char": "byte", "void": "void"}
SIZE = {"byte": 1, "sbyte": 1, "UInt16": 2, "Int16": 2, "UInt32": 4, "Int32": 4, "UInt64": 8, "Int64": 8, "UIntPtr": 8,
        "IntPtr": 8, "float": 4, "double": 8, "int": 4, "uint": 4, "short": 2, "ushort": 2, "long": 8, "ulong": 8,
        "nint": 8, "nuint": 8}
SAME = {"Int32": "int", "UInt32": "uint", "Int16": "short", "UInt16": "ushort", "Int64": "long", "UInt64": "ulong",
        "IntPtr": "nint", "UIntPtr": "nuint"}
MARSHAL_SIZE = {"UnmanagedType.U1": 1, "UnmanagedType.I1": 1, "UnmanagedType.I4": 4, "UnmanagedType.U4": 4,
                "UnmanagedType.FunctionPtr": 8, "UnmanagedType.I8": 8, "UnmanagedType.U8": 8, "UnmanagedType.I2": 2,
                "UnmanagedType.U2": 2, "UnmanagedType.SysInt": 8, "UnmanagedType.SysUInt": 8, "UnmanagedType.Bool": 4}


class Bad(Exception):
    pass


class CSharp:
    """A reader of the subset of C# that bindings are written in."""

    def __init__(self, text):
        text = re.sub(r'("(?:[^"\\\n]|\\.)*")|//[^\n]*|/\*.*?\*/', lambda m: m.group(1) or " ", text, flags=re.S)
        lines, keep = [], True
        for l in text.splitlines():
            d = l.strip()
            if d.startswith("#if"):
                keep = False  # the iOS branch
            elif d.startswith("#else"):
                keep = True
            elif d.startswith("#endif"):
                keep = True
            elif d.startswith("#"):
                pass
            elif keep:
                lines.append(l)
        self.t = re.findall(r'"(?:[^"\\]|\\.)*"|-?\d[\w.]*(?:[eE][+-]?\d+)?f?|[A-Za-z_]\w*(?:\.[A-Za-z_]\w*)*|\S', "\n".join(lines))
        self.i = 0
        self.structs, self.enums, self.delegates, self.fns, self.consts = {}, {}, {}, {}, {}
        self.expect("namespace")
        self.ns = self.next()
        self.expect("{")
        while self.peek() == "using":
            while self.next() != ";":
                pass
        while self.peek() != "}":
            self.item()
        self.expect("}")
        if self.i != len(self.t):
            raise Bad(f"text after the namespace: {self.t[self.i:self.i + 5]}")

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Bad("the text ends early")
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Bad(f"expected {x} but found {y} near {' '.join(self.t[max(0, self.i - 8):self.i + 5])}")

    def attributes(self):
        out = {}
        while self.peek() == "[":
            self.next()
            k = self.next()
            if k == "return":
                self.expect(":")
                k = "return:" + self.next()
            args = []
            if self.peek() == "(":
                self.next()
                cur = []
                while self.peek() != ")":
                    x = self.next()
                    if x == ",":
                        args.append("".join(cur))
                        cur = []
                    else:
                        cur.append(x)
                args.append("".join(cur))
                self.next()
            self.expect("]")
            if k in out:
                raise Bad(f"attribute {k} twice")
            out[k] = args
        return out

    def mods(self):
        out = []
        while self.peek() in ("public", "private", "unsafe", "static", "extern", "partial", "const", "fixed"):
            out.append(self.next())
        return out

    def type(self):
        t = self.next()
        if not re.match(r"[A-Za-z_]", t):
            raise Bad(f"{t} is no type")
        while self.peek() == "*":
            self.next()
            t += "*"
        return t

    def params(self):
        ps = []
        self.expect("(")
        while self.peek() != ")":
            at = self.attributes()
            t = self.type()
            ps.append((self.next(), t, at.get("MarshalAs", [None])[0]))
            if self.peek() == ",":
                self.next()
                if self.peek() == ")":
                    raise Bad("a trailing comma")
        self.next()
        return ps

    def add(self, to, k, v):
        for m in ((self.fns, self.consts) if to in (self.fns, self.consts) else (self.structs, self.enums, self.delegates)):
            if k in m:
                raise Bad(f"{k} is declared twice")
        to[k] = v

    def item(self):
        at = self.attributes()
        m = self.mods()
        kind = self.next()
        if kind == "class":
            self.expect("Ffi")
            self.expect("{")
            while self.peek() != "}":
                self.member()
            self.next()
        elif kind == "struct":
            n = self.next()
            self.expect("{")
            fs = []
            while self.peek() != "}":
                a2 = self.attributes()
                m2 = self.mods()
                t = self.type()
                f = self.next()
                cnt = None
                if self.peek() == "[":
                    self.next()
                    cnt = int(self.next())
                    self.expect("]")
                self.expect(";")
                if (cnt is not None) != ("fixed" in m2):
                    raise Bad(f"field {f} of {n}: `fixed` and a length go together")
                fs.append((f, t, a2.get("MarshalAs", [None])[0], cnt, "public" in m2))
            self.next()
            if len({f[0] for f in fs}) != len(fs):
                raise Bad(f"{n} has a field twice")
            self.add(self.structs, n, (at.get("StructLayout"), fs))
        elif kind == "enum":
            n = self.next()
            base = "int"
            if self.peek() == ":":
                self.next()
                base = self.next()
            self.expect("{")
            vs, nxt = [], 0
            while self.peek() != "}":
                v = self.next()
                if self.peek() == "=":
                    self.next()
                    x = self.next()
                    if x == "-":
                        x += self.next()
                    nxt = int(x)
                vs.append((v, nxt))
                nxt += 1
                if self.peek() == ",":
                    self.next()
            self.next()
            self.add(self.enums, n, (base, vs))
        elif kind == "delegate":
            ret = self.type()
            n = self.next()
            ps = self.params()
            self.expect(";")
            if "UnmanagedFunctionPointer" not in at:
                raise Bad(f"delegate {n} has no calling convention")
            self.add(self.delegates, n, (ret, at.get("return:MarshalAs", [None])[0], ps))
        else:
            raise Bad(f"unknown item: {kind} after {m}")

    def member(self):
        at = self.attributes()
        m = self.mods()
        t = self.type()
        n = self.next()
        if "const" in m:
            self.expect("=")
            v = self.next()
            if v == "-":
                v += self.next()
            self.expect(";")
            if n != "RustLib":
                self.add(self.consts, n, (t, v))
            return
        ps = self.params()
        self.expect(";")
        if "DllImport" not in at or at["DllImport"][0] != "RustLib" or "ExactSpelling=true" not in at["DllImport"]:
            raise Bad(f"{n} is not imported")
        if not {"public", "static", "extern"} <= set(m):
            raise Bad(f"{n} is not a public extern function")
        self.add(self.fns, n, (t, at.get("return:MarshalAs", [None])[0], ps))

    # ---------------------------------------------------------------------------- sizes

    def layout(self, t, marshal):
        """Size and alignment of an unmanaged value of a C# type."""
        if t.endswith("*"):
            if marshal:
                raise Bad(f"a pointer marshalled as {marshal}")
            base = t.rstrip("*")
            if base not in SIZE and base not in ("void", "bool") and not any(
                    base in m for m in (self.structs, self.enums, self.delegates)):
                raise Bad(f"{base} is not declared")
            return 8, 8
        if t == "bool":
            n = MARSHAL_SIZE[marshal] if marshal else 4
            return n, n
        if t in self.delegates:
            if marshal != "UnmanagedType.FunctionPtr":
                raise Bad(f"delegate {t} marshalled as {marshal}")
            return 8, 8
        if t in self.enums:
            n = SIZE[self.enums[t][0]]
            return n, n
        if t in SIZE:
            n = SIZE[t]
            if marshal and MARSHAL_SIZE[marshal] != n:
                raise Bad(f"{t} marshalled as {marshal}")
            return n, n
        if t in self.structs:
            at, fs = self.structs[t]
            if at is None:
                raise Bad(f"opaque {t} by value")
            offs, end, al = self.offsets(t)
            size = (end + al - 1) // al * al
            for a in at:
                if a.startswith("Size="):
                    if int(a[5:]) != size:
                        raise Bad(f"{t} has size {size} by its fields and {a}")
            if at[0] != "LayoutKind.Sequential":
                raise Bad(f"{t} is not sequential")
            return size, al
        raise Bad(f"{t} is not declared")

    def offsets(self, t):
        end, al, offs = 0, 1, []
        for f, ft, m, cnt, _ in self.structs[t][1]:
            if cnt is not None:
                if ft not in SIZE and ft != "bool":
                    raise Bad(f"fixed buffer of {ft}")
                n = SIZE.get(ft, 1)
                sz, a = n * cnt, n
            else:
                sz, a = self.layout(ft, m)
            o = (end + a - 1) // a * a
            offs.append(o)
            end, al = o + sz, max(al, a)
        return offs, end, al


def norm(t):
    b = t.rstrip("*")
    return SAME.get(b, b) + t[len(b):]


def same_type(p, cs, f, t, marshal, where):
    """Is the C# type the foreign type of the specification?"""
    def bad(what):
        raise Bad(f"{where}: {t} (marshalled as {marshal}) is no {what}")
    if f[0] == "c":
        if norm(t) != norm(CS[f[1]]):
            bad(CS[f[1]])
        want = {"bool": "UnmanagedType.U1"}.get(f[1])
        if f[1] == "bool" and marshal != want:
            bad("one-byte bool")
    elif f[0] == "cp":
        if not t.endswith("*"):
            bad("pointer")
        g = f[2]
        if g[0] in ("c", "cp", "ce", "co", "ca"):
            u = t[:-1]
            if g == ["c", "bool"]:
                if u != "bool":
                    bad("pointer to bool")
            else:
                same_type(p, cs, g, u, None, where)
        else:
            same_type(p, cs, g, t[:-1], "UnmanagedType.FunctionPtr", where)
    elif f[0] == "cf":
        if t not in cs.delegates:
            bad("delegate")
        if marshal != "UnmanagedType.FunctionPtr":
            bad("function pointer")
        ret, rm, ps = cs.delegates[t]
        if len(ps) != len(f[1]):
            raise Bad(f"{where}: delegate {t} takes {len(ps)} instead of {len(f[1])}")
        same_type(p, cs, f[2], ret, rm, where + ": result")
        for i, (x, q) in enumerate(zip(f[1], ps)):
            same_type(p, cs, x, q[1], q[2], where + f": parameter {i}")
    else:
        if t != p.names[json.dumps(f)][1]:
            bad(p.names[json.dumps(f)][1])


def check_csharp(p, text):
    cs = CSharp(text)
    if cs.ns != "SomeLib":
        raise Bad(f"namespace {cs.ns}")
    needed = p.needed()
    for e in needed:
        f = e["foreign"]
        n = p.names[json.dumps(f)][1]
        want = p.expected_name(f)
        if want and n != want:
            raise Bad(f"{want} is named {n}")
        if f[0] == "ce":
            if n not in cs.enums:
                raise Bad(f"{n} is not declared as an enum")
            d = p.D[f[1] - 1]
            base, vs = cs.enums[n]
            if norm(base) != norm(CS[d["repr"]]):
                raise Bad(f"{n} has the underlying type {base}")
            if vs != p.enumerators(f[1]):
                raise Bad(f"{n} has the enumerators {vs[:8]} instead of {p.enumerators(f[1])[:8]}")
            continue
        if n not in cs.structs:
            raise Bad(f"{n} is not declared as a struct")
        at, fs = cs.structs[n]
        if f[0] == "co":
            if at is not None and len(fs) > 1:
                raise Bad(f"{n} is not opaque")
            continue
        if cs.layout(n, None) != (e["size"], e["align"]):
            raise Bad(f"{n} has size and alignment {cs.layout(n, None)} instead of {e['size']}, {e['align']}")
        offs = cs.offsets(n)[0]
        ms = e["members"]
        if f[1][0] == "arr":
            el, cnt = ms[0][1][1], ms[0][1][2]
            if len(fs) == 1 and fs[0][3] is not None:
                same_type(p, cs, el, fs[0][1], None, n)
                if fs[0][3] != cnt or not fs[0][4]:
                    raise Bad(f"{n} has {fs[0][3]} elements")
            else:
                if [x[0] for x in fs] != [f"_{j}" for j in range(cnt)]:
                    raise Bad(f"{n} has the fields {[x[0] for x in fs][:8]}")
                for x in fs:
                    same_type(p, cs, el, x[1], x[2], n)
            continue
        if [x[0] for x in fs] != [p.member(f, m[0]) for m in ms]:
            raise Bad(f"{n} has the fields {[x[0] for x in fs]}")
        if offs != [m[2] for m in ms]:
            raise Bad(f"{n} has the offsets {offs}")
        for x, m in zip(fs, ms):
            same_type(p, cs, m[1], x[1], x[2], f"{n}.{x[0]}")
            if not x[4]:
                raise Bad(f"{n}.{x[0]} is not public")
    want = {ex: (ps, r) for ex, _, ps, r in p.fns}
    if set(want) != set(cs.fns):
        raise Bad(f"functions: {sorted(set(want) ^ set(cs.fns))[:5]}")
    for n, (ps, r) in want.items():
        args, ret = p.fn_form(ps, r)
        t, rm, qs = cs.fns[n]
        if [q[0] for q in qs] != [x.replace("r#", "") for x, _ in ps]:
            raise Bad(f"{n} has the parameters {[q[0] for q in qs]}")
        same_type(p, cs, ret, t, rm, f"{n}: result")
        for x, q in zip(args, qs):
            same_type(p, cs, x, q[1], q[2], f"{n}: {q[0]}")
    typed = {n: c for n, c, untyped in p.consts if not untyped}
    if set(cs.consts) - {n for n, _, _ in p.consts} or set(typed) - set(cs.consts):
        raise Bad(f"constants: {sorted(set(typed) ^ set(cs.consts))[:5]}")
    for n, c in typed.items():
        t, x = cs.consts[n]
        v = exports.const_value(c)[0]
        if norm(t) != norm(CS[c["ty"]]):
            raise Bad(f"constant {n} has type {t}")
        if c["ty"] == "bool":
            ok = x == ("true" if v else "false")
        elif c["ty"] in exports.FLOAT:
            ok = float(x.rstrip("f")) == v and x.endswith("f") == (c["ty"] == "f32")
        else:
            ok = int(x) == v
        if not ok:
            raise Bad(f"constant {n} is {x} instead of {v}")


# --------------------------------------------------------------------------------------- Python

def check_python(chk, p, which, tag, bad):
    import cffi
    text = p.headers[which]
    needed = p.needed()
    body = "\n".join(l for l in text.splitlines() if not l.lstrip().startswith("#include"))
    ffi = cffi.FFI()
    try:
        ffi.cdef(body)
    except Exception as e:  # whatever cffi objects to
        return bad("cdef", f"cffi rejects the Python header ({which})", f"{type(e).__name__}: {e}"[:800], text)
    for e in needed:
        f = e["foreign"]
        n = p.names[json.dumps(f)][2]
        if f[0] == "co":
            continue
        got = (ffi.sizeof(n), ffi.alignof(n))
        if got != (e["size"], e["align"]):
            return bad("python-size", f"cffi gives {n} another size or alignment", [got, e["size"], e["align"]], text)
        for m in e["members"]:
            if ffi.offsetof(n, p.member(f, m[0])) != m[2]:
                return bad("python-offset", f"cffi puts {n}.{p.member(f, m[0])} elsewhere", m[2], text)
    chk.evals += len(needed)
    macros = re.findall(r"^\s*#define\s+(\w+)\s+\.\.\.\s*$", body, re.M)
    if sorted(macros) != sorted(n for n, _, _ in p.consts):
        return bad("python-constants", "the constants declared are not those exported", macros, text)
    # The same text as C, with what is particular to cffi's dialect spelled out.
    c = re.sub(r"typedef \.\.\. (\w+);", r"typedef struct opaque_\1 \1;", re.sub(r"(?m)^\s*#define.*\.\.\.\s*$", "", text))
    with open(os.path.join(chk.work, f"{tag}.h"), "w") as f:
        f.write(c)
    err = c_header.gcc(chk, f"{tag}_check", f'#include "{tag}.h"\n' + c_header.checks(p, needed, 2), "gnu11")
    if err:
        return bad("python-abi", f"the Python header contradicts the specified ABI ({which})", err, text)
    q = list(p.consts)
    p.consts = []
    try:
        c_header.check_declared(chk, p, tag, c, which, needed, bad)
    finally:
        p.consts = q


def one(chk, u, i):
    rng = chk.rng
    flags = dict(per_root=i % 3 != 1, docs=rng.random() < 0.6, renames=i % 4 == 1, modules=i % 3 == 0, exports=i % 2 == 0,
                 untyped=i % 2 == 1)
    p = exports.Program(u, rng, **flags)
    tag = f"b{u['id']}"

    def bad(sig, what, detail=None, text=None):
        chk.violation(sig, {"what": what, "universe": u["id"], "options": flags, "detail": detail, "signature": sig,
                            "program": p.code(None, None)[:20000], "header": text and text[:20000]})

    e = p.run(chk, tag, variant="BA"[i % 2])
    if e:
        return bad("generate", e)
    chk.traces += 1
    h = p.headers
    if not p.again or h["CSharp"] != h["CSharp2"] or h["Python"] != h["Python2"]:
        return bad("unstable", "bindings differ between two generations")
    for which in ("CSharp", "CSharpfree"):
        try:
            check_csharp(p, h[which])
            chk.evals += len(p.needed()) + len(p.fns) + len(p.consts)
        except Bad as x:
            return bad("csharp", f"C# ({which}): {x}", None, h[which])
    for which in ("Python", "Pythonfree"):
        check_python(chk, p, which, tag + which[6:], bad)
        if chk.violations:
            return
    chk.sample({"universe": u["id"], "options": {k: v for k, v in flags.items() if v}, "functions": len(p.fns),
                "types": len(p.needed())})


def run(chk):
    vlib.externs("A"), vlib.externs("B")
    jobs = []
    fams = ["prims", "ptrs", "opts", "optmore", "arrs", "tags", "tups", "fns", "own", "enums", "stabby"] + (["structs", "bigarrs"] if chk.thorough else [])
    for i, f in enumerate(fams):
        def job(sub, i=i, f=f):
            if sub.left() > 60:
                for u in abi.generate(sub, f"fam-{f}", families=[f], vecs=False, foreign=True):
                    one(sub, u, 3 * i if f not in ("enums", "stabby") else (2, 3)[f == "stabby"])
        jobs.append(job)
    n = 150 if chk.thorough else 30
    for i in range(n):
        def job(sub, i=i):
            if sub.left() > 60:
                s = (chk.seed * 613 + 409 * i + 40013) % 65537
                for u in abi.generate(sub, f"seed-{s}", seeds=[s], vecs=False, foreign=True, ndecls=4 + i % 11,
                                      nroots=6 + (i * 7) % 25, nfns=4 + i % 17, nconsts=i % 9):
                    one(sub, u, i)
        jobs.append(job)
    vlib.pool(chk, jobs)
    chk.extra["programs"] = len(jobs)


if __name__ == "__main__":
    vlib.with_tools()
    vlib.main(run, sys.argv[1])
