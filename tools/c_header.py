"""C11: generated C headers against what spec/Abi.tla says they have to declare, judged by C compilers."""
import json
import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import abi
import exports
import vlib

PRIM = {"bool": "bool", "f32": "float", "f64": "double", "usize": "size_t", "isize": "ssize_t", "c_int": "int",
        "char": "char", "void": "void"}
STUB = ("typedef unsigned char uint8_t; typedef signed char int8_t; typedef unsigned short uint16_t; typedef short int16_t;"
        "typedef unsigned int uint32_t; typedef int int32_t; typedef unsigned long uint64_t; typedef long int64_t;"
        "typedef unsigned long size_t; typedef long ssize_t; typedef _Bool bool;\n")


def spell(names, f, var, lang=0):
    """The C declaration of `var` with a foreign type."""
    if f[0] == "c":
        return (PRIM.get(f[1]) or f"{'u' if f[1][0] == 'u' else ''}int{f[1][1:]}_t") + " " + var
    if f[0] == "cp":
        return spell(names, f[2], ("const " if f[1] else "") + "*" + var, lang)
    if f[0] == "cf":
        return spell(names, f[2], "(*" + var + ")(" + (", ".join(spell(names, a, "", lang) for a in f[1]) or "void") + ")",
                     lang)
    if f[0] == "cn":
        return spell(names, f[1], f"{var}[{f[2]}]", lang)
    return names[json.dumps(f)][lang] + " " + var


def screaming(short, v):
    return re.sub(r"(?<!^)([A-Z])", r"_\1", short + v).upper()


def c_int(v, ty):
    if ty == "bool":
        return str(int(v))
    if ty in exports.FLOAT:
        return repr(v)
    if v < 0:
        return f"(-{-v - 1}LL - 1)"
    return f"{v}ULL" if v > 2 ** 31 else str(v)


def checks(p, needed, lang=0):
    """Static assertions about everything the program needs declared."""
    out = ["#include <stddef.h>", "#include <stdint.h>", "#include <stdbool.h>", "#include <sys/types.h>",
           "#define SAME(e, ...) __builtin_types_compatible_p(__typeof__(e), __VA_ARGS__)"]

    def a(cond, msg):
        out.append(f"_Static_assert({cond}, {json.dumps(msg)});")

    for e in needed:
        f = e["foreign"]
        n = p.names[json.dumps(f)][lang]
        want = p.expected_name(f)
        if want and n != want:
            a("0", f"{want} is named {n}")
        if f[0] == "co":
            out.append(f"extern {n} *opaque_{n};")
            continue
        a(f"sizeof({n}) == {e['size']}", f"size of {n} is {e['size']}")
        a(f"_Alignof({n}) == {e['align']}", f"alignment of {n} is {e['align']}")
        if f[0] == "ce":
            d = p.D[f[1] - 1]
            ty = spell(p.names, ["c", d["repr"]], "", lang)
            if d["repr"] != "c_int":
                a(f"SAME(({n})0, {ty})", f"{n} is {ty}")
            for v, x in p.enumerators(f[1]):
                s = screaming(p.short(f[1]), v)
                a(f"({ty}){s} == ({ty}){c_int(x, d['repr'])}", f"{s} is {x}")
        for m in e["members"]:
            x = p.member(f, m[0])
            a(f"offsetof({n}, {x}) == {m[2]}", f"offset of {n}.{x} is {m[2]}")
            a(f"SAME(&(({n} *)0)->{x}, {spell(p.names, m[1], '(*)', lang)})", f"{n}.{x} is a {spell(p.names, m[1], '', lang)}")
    for ex, _, ps, r in p.fns:
        args, ret = p.fn_form(ps, r)
        t = spell(p.names, ret, "(*)(" + (", ".join(spell(p.names, x, "", lang) for x in args) or "void") + ")", lang)
        a(f"SAME(&{ex}, {t})", f"{ex} has type {t}")
    for n, c, untyped in p.consts if lang == 0 else []:
        v = exports.const_value(c)[0]
        ty = spell(p.names, ["c", c["ty"]], "")
        a(f"({ty})({n}) == ({ty}){c_int(v, c['ty'])}", f"{n} is {v}")
        if not untyped:
            a(f"SAME({n}, {ty})", f"{n} has type {ty}")
        if c["ty"] not in exports.FLOAT:
            a(f"{n} {'<' if v < 0 else '>='} 0", f"{n} keeps its sign")
    return "\n".join(out) + "\n"


def gcc(chk, tag, text, std, lang="c"):
    src = os.path.join(chk.work, f"{tag}.{'c' if lang == 'c' else 'cpp'}")
    with open(src, "w") as f:
        f.write(text)
    r = subprocess.run(["gcc" if lang == "c" else "g++", f"-std={std}", "-fsyntax-only", "-Wall", "-Werror=implicit",
                        "-I", chk.work, src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    if r.returncode == 0:
        return None
    bad = [l for l in r.stderr.splitlines() if "error" in l]
    return bad[:4] or [r.stderr[-400:]]


def declared(chk, tag, text):
    """Everything the header declares: functions with parameter names, tags, typedefs, enumerators, macros."""
    from pycparser import c_parser, c_ast
    body = "\n".join(l for l in text.splitlines() if not l.lstrip().startswith("#include"))
    path = os.path.join(chk.work, f"{tag}_bare.h")
    with open(path, "w") as f:
        f.write(body)
    pre = subprocess.run(["gcc", "-E", "-P", "-xc", path], stdout=subprocess.PIPE, text=True, check=True).stdout
    keep = subprocess.run(["gcc", "-fpreprocessed", "-dD", "-E", "-P", "-xc", path], stdout=subprocess.PIPE, text=True,
                          check=True).stdout
    macros = re.findall(r"^\s*#define +(\w+)", keep, re.M)
    fns, types, tags, enums = [], [], [], []

    def spec(t):
        if isinstance(t, c_ast.TypeDecl):
            spec(t.type)
        elif isinstance(t, c_ast.Struct) and t.decls is not None:
            if t.name:
                tags.append(t.name)
        elif isinstance(t, c_ast.Enum) and t.values is not None:
            tags.append(t.name)
            enums.extend(x.name for x in t.values.enumerators)

    for x in c_parser.CParser().parse(STUB + pre).ext[11:]:
        if isinstance(x, c_ast.Typedef):
            types.append(x.name)
            spec(x.type)
        elif isinstance(x.type, c_ast.FuncDecl):
            ps = x.type.args.params if x.type.args else []
            fns.append((x.name, [q.name for q in ps if q.name]))
        else:
            spec(x.type)
    return fns, types, tags, enums, macros


def check_declared(chk, p, tag, text, which, needed, bad):
    fns, types, tags, enums, macros = declared(chk, tag, text)
    for kind, xs in (("function", [f[0] for f in fns]), ("type", types), ("tag", tags), ("enumerator", enums),
                     ("constant", macros)):
        twice = sorted({x for x in xs if xs.count(x) > 1})
        if twice:
            return bad("twice", f"{kind} declared more than once ({which}): {twice}", None, text)
    want = sorted((ex, [q.replace("r#", "") for q, _ in ps]) for ex, _, ps, _ in p.fns)
    if sorted(fns) != want:
        return bad("functions", f"the functions declared are not those exported ({which})",
                   [[x for x in want if x not in fns][:4], [x for x in fns if x not in want][:4]], text)
    miss = [n for n, _, _ in p.consts if n not in macros]
    if miss:
        return bad("constants", f"constants not declared: {miss}", None, text)
    per = {}
    for e in needed:
        if e["foreign"][0] == "ce":
            per.update({screaming(p.short(e["foreign"][1]), v): e for v, _ in p.enumerators(e["foreign"][1])})
    if sorted(per) != sorted(enums):
        return bad("enumerators", "the enumerators declared are not those of the enums", sorted(set(per) ^ set(enums))[:6], text)



def check_header(chk, p, which, tag, guard, after, bad):
    text = p.headers[which]
    with open(os.path.join(chk.work, f"{tag}.h"), "w") as f:
        f.write(text)
    inc = f'#include "{tag}.h"\n'
    g = guard or "__RUST_SOME_LIB__"
    for std, lang in (("c99", "c"), ("c++17", "cpp")):
        e = gcc(chk, f"{tag}_alone", inc + inc + f"#ifndef {g}\n#error guard\n#endif\n"
                + ("#ifndef AFTER_GUARD\n#error text after guard\n#endif\n" if after else "") + "int main(void) { return 0; }\n",
                std, lang)
        chk.evals += 1
        if e:
            return bad("alone", f"the header does not compile on its own ({std}, {which})", e, text)
    needed = p.needed()
    e = gcc(chk, f"{tag}_check", inc + checks(p, needed), "gnu11")
    chk.evals += sum(1 for _ in needed) + len(p.fns) + len(p.consts)
    if e:
        return bad("abi", f"the header contradicts the specified ABI ({which})", e, text)
    check_declared(chk, p, tag, text, which, needed, bad)


def one(chk, u, i):
    rng = chk.rng
    flags = dict(per_root=i % 3 != 1, docs=rng.random() < 0.6, renames=i % 4 == 1, modules=i % 3 == 0, exports=i % 2 == 0,
                 untyped=i % 2 == 1)
    p = exports.Program(u, rng, **flags)
    guard = "MY_GUARD_H" if i % 5 == 1 else None
    after = "#define AFTER_GUARD 1" if i % 5 == 2 else None
    tag = f"h{u['id']}"

    def bad(sig, what, detail=None, text=None):
        chk.violation(sig, {"what": what, "universe": u["id"], "options": flags, "detail": detail, "signature": sig,
                            "program": p.code(guard, after)[:20000], "header": text and text[:20000]})

    e = p.run(chk, tag, guard, after, "AB"[i % 2])
    if e:
        return bad("generate", e)
    chk.traces += 1
    if not p.again:
        return bad("unstable", "two runs of the same program generated different headers")
    if p.headers["C"] != p.headers["C2"] or p.headers["C"] != p.headers["Cstable"]:
        return bad("unstable", "generating twice in one run gave different headers")
    check_header(chk, p, "C", tag, guard, after, bad)
    if not chk.violations:
        check_header(chk, p, "Cfree", tag + "f", guard, after, bad)
    chk.sample({"universe": u["id"], "options": {k: v for k, v in flags.items() if v}, "functions": len(p.fns),
                "types": len(p.needed())})


def run(chk):
    vlib.externs("A"), vlib.externs("B")
    jobs = []
    fams = ["prims", "ptrs", "opts", "optmore", "arrs", "tags", "tups", "fns", "own", "enums", "stabby"] + (["structs", "bigarrs"] if chk.thorough else [])
    for i, f in enumerate(fams):
        def job(sub, i=i, f=f):
            if sub.left() > 60:
                for u in abi.generate(sub, f"fam-{f}", families=[f], vecs=False, foreign=True):
                    one(sub, u, 2 if f in ("enums", "stabby") else 3 * i)
        jobs.append(job)
    n = 150 if chk.thorough else 30
    for i in range(n):
        def job(sub, i=i):
            if sub.left() > 60:
                s = (chk.seed * 613 + 409 * i + 20011) % 65537
                for u in abi.generate(sub, f"seed-{s}", seeds=[s], vecs=False, foreign=True, ndecls=4 + i % 11,
                                      nroots=6 + (i * 7) % 25, nfns=4 + i % 17, nconsts=i % 9):
                    one(sub, u, i)
        jobs.append(job)
    vlib.pool(chk, jobs)
    chk.extra["programs"] = len(jobs)


if __name__ == "__main__":
    vlib.with_tools()
    vlib.main(run, sys.argv[1])
