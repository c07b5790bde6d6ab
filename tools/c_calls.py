"""C12: calls of exported functions.  Scripts of spec/Calls.tla (calls, panics, catches, async segments,
bad arguments) followed by real exported functions called from C++; and argument and result patterns of
spec/Abi.tla passed to generated functions of every signature."""
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import abi
import c_header
import exports
import vlib

CALLS = os.path.join(vlib.HARNESS, "calls")
NATIVE = ["-lpthread", "-ldl", "-lm", "-lgcc_s", "-lutil", "-lrt"]


def link(chk, name, cpp, lib, args=()):
    exe = os.path.join(chk.work, name)
    r = subprocess.run(["g++", "-std=c++17", "-O0", "-w", "-I", chk.work, cpp, lib, *NATIVE, "-o", exe, *args],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
    return exe if r.returncode == 0 else None, r.stderr


def scripts(chk, variant):
    name = f"calls_{variant}"
    ok, errs, lib = vlib.rustc(chk, name, open(os.path.join(CALLS, "lib.rs")).read(), variant, emit="link",
                               crate_type="staticlib")
    if not ok:
        chk.violation("rejected", {"what": f"a program of supported exports is rejected: {errs[:3]}", "signature": "rejected"})
        return
    exe, err = link(chk, name, os.path.join(CALLS, "driver.cpp"), lib)
    os.unlink(lib)
    if not exe:
        chk.violation("link", {"what": "an exported function is not there under its name", "detail": err[-1500:],
                               "signature": "link"})
        return
    models = [({"plain", "async"}, 2), ({"renamed", "inner"}, 2), ({"unsafe", "local"}, 2), ({"asyncren", "plain"}, 2)]
    if chk.thorough:
        models += [({"plain", "async", "renamed"}, 3), ({"asyncren", "inner", "unsafe", "local"}, 2)]
    else:
        models += [({"plain"}, 3)]
    jobs = []
    for kinds, depth in models:
        def job(sub, kinds=kinds, depth=depth):
            n = f"{variant}-{'-'.join(sorted(kinds))}-{depth}"
            r = vlib.tlc(sub, "MCCalls", dict(Kinds=kinds, MaxDepth=depth, Debug=variant == "A", Emit=True),
                         ["SPECIFICATION Spec", "VIEW View", "ACTION_CONSTRAINT EmitEdge", "INVARIANTS SegmentsInOrder",
                          "PROPERTIES FramesLeftByReturn NeverUnwinds BadNeverRuns"], name=n)
            sub.states += r.distinct
            sub.transitions += r.states
            g = vlib.Graph(r.prints)
            ws = g.walks(g.init(), sub.rng, maxlen=30)
            ws += g.random_walks(g.init(), sub.rng, 2000 if sub.thorough else 200, 40)
            ws = [w for w in ws if w]
            play(sub, exe, g, ws, n, variant)
        jobs.append(job)
    return jobs


def play(chk, exe, g, walks, name, variant):
    lines = [";".join(vlib.cmdline(g.edges[e][2]) for e in w) for w in walks]
    p = subprocess.run([exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=700)
    got, cur = [], []
    for l in p.stdout.splitlines():
        try:
            x = json.loads(l)
        except ValueError:
            x = ["unreadable", l[:200]]
        if x == ["done"]:
            got.append(cur)
            cur = []
        else:
            cur.append(x)
    if p.returncode != 0 or len(got) != len(walks):
        raise vlib.ToolError(f"the driver of scripts ended with {p.returncode} after {len(got)} of {len(walks)}")
    for w, line, o in zip(walks, lines, got):
        want = [x for e in w for x in g.edges[e][3]]
        if ["abort"] not in want:
            want.append(["end"])
        else:  # locals dropped by an unwinding that ends in the abort are not looked at
            o = clean(o, want)
        chk.traces += 1
        chk.evals += len(w)
        if o != want:
            k = next((i for i, (a, b) in enumerate(zip(o, want)) if a != b), min(len(o), len(want)))
            chk.violation("script", {"what": f"an exported function behaved differently ({variant})", "script": line,
                                     "expected": want[k:k + 4], "observed": o[k:k + 4], "events before": o[:k],
                                     "signature": "script:" + str((o + [["nothing"]])[k:k + 1])[:60]})
            if len(chk.violations) > 3:
                return
    chk.sample({"model": name, "edges": len(g.edges), "scripts": len(walks), "script": lines[0]})


def clean(o, want):
    n = len(want) - 1
    return o[:n] + [x for x in o[n:] if x[0] != "dropped"]


# ------------------------------------------------------------------- arguments and results by bits

RUST = """
static mut LOG: Vec<Vec<u8>> = Vec::new();
static mut PRESET: Vec<u8> = Vec::new();
static mut PANIC: i32 = 0;
static mut RUN: i32 = 0;
unsafe fn seen<T>(x: T) {
    let m = ::std::mem::MaybeUninit::new(x);
    let p = m.as_ptr().cast::<u8>();
    LOG.push((0..::std::mem::size_of::<T>()).map(|i| ::std::ptr::read_volatile(p.add(i))).collect());
}
unsafe fn begin() { RUN += 1; if PANIC == 3 { ::std::process::exit(77) } if PANIC == 1 { panic!("early") } }
unsafe fn end<R>() -> R {
    if PANIC == 2 { panic!("late") }
    if ::std::mem::size_of::<R>() != 0 { assert_eq!(PRESET.len(), ::std::mem::size_of::<R>(), "preset"); }
    PRESET.as_ptr().cast::<R>().read_unaligned()
}
#[no_mangle] unsafe extern "C" fn vh_reset(panic: i32, p: *const u8, n: usize) {
    ::std::panic::set_hook(Box::new(|_| ()));
    LOG.clear(); PANIC = panic; RUN = 0; PRESET = ::std::slice::from_raw_parts(p, n).to_vec();
}
#[no_mangle] unsafe extern "C" fn vh_run() -> i32 { RUN }
#[no_mangle] unsafe extern "C" fn vh_seen(i: usize, n: *mut usize) -> *const u8 {
    match LOG.get(i) { Some(v) => { *n = v.len(); v.as_ptr() }, None => ::std::ptr::null() }
}
"""

CPP = """
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
void vh_reset(int, const uint8_t *, size_t);
int vh_run();
const uint8_t *vh_seen(size_t, size_t *);
%(decls)s
}
typedef std::vector<std::vector<uint8_t>> Vs;
%(calls)s
static void (*const table[])(const Vs &, std::vector<uint8_t> &) = { %(table)s };
static std::vector<uint8_t> unhex(const std::string &s) {
    std::vector<uint8_t> v;
    for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back(std::stoi(s.substr(i, 2), nullptr, 16));
    return v;
}
static void hex(const uint8_t *p, size_t n) { putchar(' '); putchar('x'); while (n--) printf("%%02x", *p++); }
int main() {
    struct rlimit no = {0, 0};
    setrlimit(RLIMIT_CORE, &no);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string mode, fn, ret, a;
        in >> mode >> fn >> ret;
        Vs args;
        while (in >> a) args.push_back(unhex(a.substr(1)));
        auto preset = unhex(ret.substr(1));
        fflush(stdout);
        pid_t p = 0;
        bool own = mode != "call";
        if (own) p = fork();
        if (p == 0) {
            if (own) { alarm(20); if (!freopen("/dev/null", "w", stderr)) _exit(99); }
            vh_reset(mode == "early" ? 1 : mode == "late" ? 2 : mode == "bad" ? 3 : 0, preset.data(), preset.size());
            std::vector<uint8_t> out;
            try { table[std::stoi(fn)](args, out); } catch (...) { _exit(78); }
            if (own) _exit(0);
            printf("ran %%d", vh_run());
            for (size_t i = 0, n; const uint8_t *q = vh_seen(i, &n); i++) hex(q, n);
            printf(" =");
            hex(out.data(), out.size());
            printf("\\n");
        } else {
            int st;
            waitpid(p, &st, 0);
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) printf("abort\\n");
            else printf("ended %%d %%d\\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
        }
        fflush(stdout);
    }
}
"""


def hexs(b):
    return "x" + "".join(f"{x:02x}" for x in b)


def owns(D, T):
    """Does dropping a value of this type free something?"""
    k = T[0]
    if k == "d":
        d = D[T[1] - 1]
        return any(owns(D, t) for t in list(d.get("fields", [])) + list(T[2]))
    return (k == "box" or k == "clo" and T[1] != "ref" or k == "sl" and T[1] in ("box", "vec") or k == "cp" and T[1] == "box"
            or k == "str" and T[1] != "ref" or k in ("opt", "tag", "arr") and owns(D, T[1])
            or k == "tup" and any(owns(D, t) for t in T[1]))


def declare(u):
    """C++ declarations of everything foreign, from the specification alone."""
    names, out = {}, []
    for i, e in enumerate(u["foreign"]):
        f = e["foreign"]
        names[json.dumps(f)] = [f"F{i}"]
    for e in u["foreign"]:
        f = e["foreign"]
        n = names[json.dumps(f)][0]
        if f[0] == "co":
            out.append(f"struct {n};")
        elif f[0] == "ce":
            out.append(f"typedef {c_header.spell(names, ['c', u['D'][f[1] - 1]['repr']], n)};")
        else:
            out.append(f"struct {n};")
    for e in u["foreign"]:
        f = e["foreign"]
        if f[0] == "ca":
            n = names[json.dumps(f)][0]
            ms = " ".join(c_header.spell(names, m[1], f"m{j}") + ";" for j, m in enumerate(e["members"]))
            out.append(f"struct {n} {{ {ms} }}; static_assert(sizeof({n}) == {e['size']}, \"\");")
    for k, f in enumerate(u["forms"]):
        out.append(f"typedef {c_header.spell(names, f, f'R{k + 1}')};")
    return out


def bits(chk, u, variant):
    D, roots = u["D"], u["roots"]
    name = f"bits_{u['id']}_{variant}"
    items, decls, calls, fns = [], declare(u), [], []
    for j, f in enumerate(u["fns"]):
        fns.append((f["args"], f["ret"]))
    fns += [([k], k) for k in range(1, len(roots) + 1)]
    for j, (ps, r) in enumerate(fns):
        ret = f" -> {abi.rust(D, roots[r - 1]['type'])}" if r else ""
        args = ", ".join(f"a{i}: {abi.rust(D, roots[k - 1]['type'])}" for i, k in enumerate(ps))
        at = f'(rename = "c_{j}")' if j % 3 == 1 else ""
        n = f"f_{j}" if at else f"c_{j}"
        keep = " ".join(f"let a{i} = ::std::mem::ManuallyDrop::new(a{i});" for i in range(len(ps)))
        log = " ".join(f"seen(a{i});" for i in range(len(ps)))
        items.append(f"#[ffi_export{at}] fn {n}({args}){ret} {{ {keep} unsafe {{ begin(); {log} end() }} }}")
        R = f"R{r}" if r else "void"
        decls.append(f"{R} c_{j}({', '.join(f'R{k}' for k in ps) or 'void'});")
        # (copied into what is returned or passed as such: C++ may not look at invalid values)
        body = " ".join(f"R{k} a{i}; memcpy((void *)&a{i}, v[{i}].data(), sizeof a{i});" for i, k in enumerate(ps))
        callx = f"c_{j}({', '.join(f'a{i}' for i in range(len(ps)))});"
        if r:
            callx = f"R{r} r = {callx} out.resize(sizeof r); memcpy(out.data(), (void *)&r, sizeof r);"
        calls.append(f"static void call_{j}(const Vs &v, std::vector<uint8_t> &out) {{ {body} {callx} }}")
    code = (abi.PRELUDE + "\n".join(abi.decl(D, i + 1) for i in range(len(D))) + RUST + "\n".join(items))
    ok, errs, lib = vlib.rustc(chk, name, code, variant, emit="link", crate_type="staticlib")

    def bad(sig, what, **kw):
        chk.violation(sig, {"what": what, "universe": u["id"], "variant": variant, "signature": sig,
                            "declarations": [abi.decl(D, i + 1) for i in range(len(D))] if len(D) < 20 else None, **kw})

    if not ok:
        return bad("rejected", f"a program of supported exports is rejected by the compiler: {errs[:3]}")
    cpp = os.path.join(chk.work, name + ".cpp")
    with open(cpp, "w") as f:
        f.write(CPP % dict(decls="\n".join(decls), calls="\n".join(calls),
                           table=", ".join(f"call_{j}" for j in range(len(fns)))))
    exe, err = link(chk, name, cpp, lib)
    os.unlink(lib)
    if not exe:
        if "undefined reference" in err:
            return bad("link", "an exported function is not there under its name", detail=err[-1500:])
        raise vlib.ToolError(f"g++ rejects the driver {name}: {err[:1500]}")
    good, wrong = [], []
    for r in roots:
        vs = {bytes(v[0]): v for v in list(r["bases"]) + list(r["vecs"])}
        good.append([v for v in vs.values() if v[1]])
        wrong.append([v for v in vs.values() if not v[1]])
    plan = []
    rng = chk.rng
    for j, (ps, r) in enumerate(fns):
        n = max([len(good[k - 1]) for k in ps + ([r] if r else [])] or [1])
        n = min(n, (60 if chk.thorough else 24))
        orders = [rng.sample(good[k - 1], len(good[k - 1])) for k in ps]
        ro = rng.sample(good[r - 1], len(good[r - 1])) if r else None
        for x in range(n):
            vs = [o[x % len(o)] for o in orders]
            plan.append(("call", j, vs, ro[x % len(ro)] if r else None))
        one = [o[0] for o in orders]
        for m in ("early", "late"):
            plan.append((m, j, one, ro[0] if r else None))
        if variant == "A":
            # (a panic drops what has been converted: nothing that frees what these addresses do not own)
            at = [i for i, k in enumerate(ps) if wrong[k - 1]
                  and not any(owns(D, roots[q - 1]["type"]) for x, q in enumerate(ps) if x != i)]
            rng.shuffle(at)
            for i in at[:3]:
                w = rng.choice(wrong[ps[i] - 1])
                plan.append(("bad", j, one[:i] + [w] + one[i + 1:], ro[0] if r else None))
    lines = [" ".join([m, str(j), hexs(r[0]) if r else "x", *[hexs(v[0]) for v in vs]]) for m, j, vs, r in plan]
    p = subprocess.run([exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=400)
    got = p.stdout.splitlines()
    for (m, j, vs, r), o, line in zip(plan, got, lines):
        chk.evals += 1
        sig = f"fn({', '.join(abi.rust(D, roots[k - 1]['type']) for k in fns[j][0])})" + (
            f" -> {abi.rust(D, roots[fns[j][1] - 1]['type'])}" if fns[j][1] else "")
        if m != "call":
            if o != "abort":
                bad("no-abort", {"early": "a panic in the body did not abort the process",
                                 "late": "a late panic in the body did not abort the process",
                                 "bad": "an invalid argument was not caught before the body"}[m],
                    function=sig, command=line, observed=o)
        else:
            want = [v for v in vs]
            parts = o.split(" ")
            if len(parts) != 4 + len(vs) or parts[:2] != ["ran", "1"] or parts[-2] != "=":
                bad("call", "the body did not run once with every argument", function=sig, command=line, observed=o)
            else:
                for i, (v, x) in enumerate(zip(want + ([r] if r else []), parts[2:2 + len(vs)] + parts[-1:])):
                    x = bytes.fromhex(x[1:])
                    if len(x) != len(v[0]) or any(x[c] != v[0][c] for c in v[2]):
                        bad("argument" if i < len(vs) else "result", "an argument or result changed on its way" +
                            f" ({'argument %d' % i if i < len(vs) else 'result'})", function=sig, command=line, observed=o)
                        break
        if len(chk.violations) > 4:
            return
    if len(got) != len(plan) or p.returncode != 0:
        bad("crash", f"calling ended the process ({p.returncode}) after {len(got)} of {len(plan)} calls", command=lines[min(len(got), len(lines) - 1)])
    chk.traces += len(fns)
    chk.sample({"universe": u["id"], "variant": variant, "functions": len(fns), "calls": len(plan), "example": lines[0][:200]})
    os.unlink(exe)


def run(chk):
    vlib.externs("A"), vlib.externs("B")
    jobs = []
    for v in "AB":
        jobs += scripts(chk, v) or []
    if chk.violations:
        return
    fams = ["prims", "ptrs", "opts", "optmore", "arrs", "tags", "tups", "fns"] + (["enums", "structs", "bigarrs"] if chk.thorough else [])
    for i, f in enumerate(fams):
        def job(sub, i=i, f=f):
            if sub.left() > 60:
                for u in abi.generate(sub, f"fam-{f}", families=[f], vecs=True, foreign=True):
                    bits(sub, u, "AB"[i % 2])
        jobs.append(job)
    n = 100 if chk.thorough else 16
    for i in range(n):
        def job(sub, i=i):
            if sub.left() > 60:
                s = (chk.seed * 719 + 409 * i + 50021) % 65537
                for u in abi.generate(sub, f"seed-{s}", seeds=[s], foreign=True, ndecls=4 + i % 11,
                                      nroots=8 + (i * 7) % 18, nfns=30, nconsts=0):
                    bits(sub, u, "AB"[i % 2])
        jobs.append(job)
    vlib.pool(chk, jobs)


if __name__ == "__main__":
    vlib.main(run, sys.argv[1])
