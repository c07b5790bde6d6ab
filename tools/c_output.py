"""C14: the specifications HeaderOut.tla and Headers.tla against generated headers, faulty writers and definers."""
import re
import subprocess

from vlib import *

# The exports of harness/src/bin/headers.rs (sorted by name), and the types they need.
LIBRARY = [
    ("ANSWER", "const", []), ("Alone_t", "texport", []), ("LIMIT", "const", []),
    ("ctx_use", "fn", ["Ctx_t", "Point_t"]), ("holder_make", "fn", ["Line_t", "Holder_t"]),
    ("line_len", "fn", ["Line_t"]), ("zero", "fn", []),
    ("Ctx_t", "type", []), ("Point_t", "type", []), ("Color_t", "type", []),
    ("Line_t", "type", ["Point_t", "Color_t"]), ("Holder_t", "type", ["Line_t", "Point_t", "Color_t"]),
]
NAMES = [n for n, _, _ in LIBRARY]
LANGS = ["c", "cs", "py"]


def ask(chk, binary, reqs, **kw):
    ans, died = drive(binary, [json.dumps(r) for r in reqs], **kw)
    if died:
        chk.violation("driver", {"what": died, "request": reqs[len(ans)] if len(ans) < len(reqs) else None, "signature": "died"})
    return ans


# ------------------------------------------------------------------------------------- faulty writers

def schedules(chk, faults):
    r = tlc(chk, "MCHeaderOut", dict(Pieces=2, MaxFaults=faults, Emit=True),
            ["SPECIFICATION MCSpec", "INVARIANTS NeverHalf Reported", "PROPERTIES Grows"], name=f"out{faults}")
    chk.states += r.distinct
    chk.transitions += r.states
    return sorted({(tuple(s), tuple(f)) for s, f, _ in r.prints})


CONFIGS = [{"lang": l, "stable": st} for l in LANGS for st in (True, False)] + [
    {"lang": l, "banner": "// hi", "guard": "G_H", "after": "#define AFTER 1"} for l in LANGS]


def judge(chk, reqs, ans, name):
    """Everything the writers saw goes through the trace specification."""
    events = []
    for q, a in zip(reqs, ans):
        if not a["prefix"]:
            chk.violation(name, {"what": "the writer accepted something else than the text", "request": q, "observed": a,
                                 "signature": "text"})
            return
        events += [{"cmd": e} for e in a["events"]]
    if events:
        trace_check(chk, "TraceHeaderOut", {}, events, name, len(reqs))


def faults_one(chk, binary, cfg, scheds, name):
    base = {"do": "faults", **cfg, "sched": [], "flush": [], "base": 0}
    clean = {s: a["calls"] for s, a in zip(
        SINKS, ask(chk, binary, [{**base, "sink": s} for s in SINKS]))}
    reqs = [{**base, "sink": s} for s in SINKS]
    single = [s for s in scheds if sum(x != "all" for x in s[0]) + sum(x != "ok" for x in s[1]) == 1]
    multi = [s for s in scheds if s not in single and any(x != "all" for x in s[0])]
    for sink in SINKS:
        n = clean[sink]
        full = sink in ("direct", "buf16")
        at = range(n) if full else sorted(chk.rng.sample(range(n), min(n, 12)) + [0, n - 1])
        answers = sorted({next(x for x in s if x != "all") for s, _ in single if any(x != "all" for x in s)})
        if not chk.thorough and full:
            # every call meets an interruption, a short write and two failures; the kinds take turns
            kinds = [x for x in answers if x not in ("intr", "one", "half")]
            for k in at:
                for x in ("intr", "one", "half") if k % 2 else ("one", "intr"):
                    reqs.append({**base, "sink": sink, "base": k, "sched": [x]})
                for x in (kinds[k % len(kinds)], kinds[(k + 2) % len(kinds)]):
                    reqs.append({**base, "sink": sink, "base": k, "sched": [x]})
        else:
            reqs += [{**base, "sink": sink, "base": k, "sched": [x]} for k in at for x in answers]
        for s, f in scheds:
            if all(x == "all" for x in s):
                reqs.append({**base, "sink": sink, "flush": list(f)})
        for s, f in chk.rng.sample(multi, min(len(multi), 1500 if chk.thorough else 120)):
            reqs.append({**base, "sink": sink, "base": chk.rng.randrange(n), "sched": list(s), "flush": list(f)})
    ans = ask(chk, binary, reqs)
    chk.sample({"config": cfg, "requests": len(reqs), "calls": clean, "history": ans[-1]["events"] if ans else None})
    judge(chk, reqs, ans, name)


SINKS = ["direct", "dyn", "box", "line", "definer", "own", "buf16", "buf100", "buf100000"]


# ---------------------------------------------------------------------------------------- definers

def scripts(chk, binary):
    r = tlc(chk, "MCScripts", dict(NNames=2, MaxOps=7 if chk.thorough else 6, MaxDepth=2 if not chk.thorough else 3, Emit=True),
            ["SPECIFICATION MCSpec", "ACTION_CONSTRAINT Tell", "INVARIANTS BegunOnce", "PROPERTIES KnownStays"],
            name="scripts", workers=4, heap="4g")
    chk.states += r.distinct
    chk.transitions += r.states
    hist = r.prints
    for own, style in ((False, 0), (False, 1), (False, 2), (True, 0)):
        reqs = [{"do": "script", "own": own, "style": style, "script": log} for log, _ in hist]
        ans = ask(chk, binary, reqs)
        for (log, known), q, a in zip(hist, reqs, ans):
            chk.evals += 1
            want = {"log": log, "res": "ok", "names": len(known),
                    "text": "".join(f"<{e[1]}>" for e in log if e[0] == "text")}
            if a != want:
                chk.violation("scripts", {"what": "define_once does not follow the specification", "request": q,
                                          "expected": want, "observed": a, "signature": "scripts"})
                return
        chk.traces += len(ans)
    chk.sample({"script": hist[len(hist) // 2][0]})


def declared(lang, text):
    """How often each name of the library is declared."""
    out = {}
    for n, kind, _ in LIBRARY:
        if kind == "fn":
            pat = rf"^(?:\S.*)?\b{n} \("
        elif kind == "const":
            pat = rf"\b{n} = " if lang == "cs" else rf"^#define {n}\b"
        else:
            pat = rf"^public (?:unsafe )?(?:struct|enum) {n}\b" if lang == "cs" else rf"^(?:\}} |typedef .* )?{n};$"
        if lang == "cs" and kind == "fn":
            pat = rf"\b{n} \("
        out[n] = len(re.findall(pat, text, re.M))
    return out


def library(chk, binary):
    path = os.path.join(chk.work, "library.ndjson")
    with open(path, "w") as f:
        for n, k, d in LIBRARY:
            f.write(json.dumps({"n": n, "k": k, "d": d}) + "\n")
    r = tlc(chk, "MCLibrary", dict(MaxPre=3 if chk.thorough else 2, Emit=True),
            ["SPECIFICATION LSpec", "ACTION_CONSTRAINT Tell", "INVARIANTS BegunOnce WrittenOnce UseAfterDecl Complete FailsIff"],
            name="library", workers=4, env={"LIBRARY": path})
    chk.states += r.distinct
    chk.transitions += r.states
    deps = {n: d for n, _, d in LIBRARY}

    def reach(n):
        return {n}.union(*[reach(d) for d in deps[n]])

    for lang in LANGS:
        for cfg in ({"stable": True}, {"stable": False}, {"own": True}):
            cases = [p for p in r.prints if len(p[0]) < 2 or cfg == {"stable": True} or chk.rng.random() < 0.3]
            reqs = [{"do": "library", "lang": lang, "pre": pre, **cfg} for pre, _, _ in cases]
            ans = ask(chk, binary, reqs)
            for (pre, status, written), q, a in zip(cases, reqs, ans):
                chk.evals += 1
                n = declared(lang, a["text"])
                bad = None
                if (a["res"] == "ok") != (status == "ok"):
                    bad = f"{a['res']} instead of {status}"
                elif [x for x in NAMES if n[x] > 1 or n[x] and x in pre]:
                    bad = f"emitted twice: {[x for x in NAMES if n[x] > 1 or n[x] and x in pre]}"
                elif status == "ok":
                    # What only a type that is known already needs may be declared, or not.
                    spare = set().union(*[reach(p) for p in pre])
                    diff = [x for x in NAMES if x not in pre and n[x] != (x in written) and x not in spare]
                    if diff:
                        bad = f"not declared: {diff}"
                    elif set(a["names"]) & set(NAMES) != set(pre) | {x for x in NAMES if n[x]}:
                        bad = "the definer knows other names than those declared"
                if bad:
                    chk.violation(f"library-{lang}", {"what": bad, "request": q, "expected": [status, written],
                                                      "observed": {"res": a["res"], "declared": n}, "text": a["text"],
                                                      "signature": f"library:{bad}"})
                    return
            chk.traces += len(ans)


# Two exports of one name: (items, whether it is refused).
TWICE = {
    "consts": "mod a { #[super::ffi_export] pub const SAME: u8 = 1; } mod b { #[super::ffi_export] pub const SAME: u8 = 1; }",
    "const-fn": "mod a { #[super::ffi_export] pub const SAME: u8 = 1; } mod b { #[super::ffi_export] fn SAME() {} }",
    "rename": "mod a { #[super::ffi_export] pub const same: u8 = 1; } mod b { #[super::ffi_export(rename = \"same\")] fn other() {} }",
}


def twice(chk, name):
    code = "#![allow(warnings)]\nuse safer_ffi::prelude::*;\n" + TWICE[name] + """
fn main() {
    std::env::set_var("CARGO_PKG_NAME", "uu");
    use safer_ffi::headers::{builder, Language::*};
    for l in [C, CSharp, Python] { for s in [true, false] {
        let mut v = vec![];
        let r = builder().with_language(l).with_stable_header(s).to_writer(&mut v).generate();
        println!("{} {}", r.is_err(), String::from_utf8(v).unwrap().lines().filter(|l| !l.contains("enum") && !l.trim_start().starts_with(&['*', '/'][..])
            && (l.contains("SAME") || l.contains("same") || l.contains("Same_t ") || l.contains("Same_t;"))).count());
    } }
}"""
    ok, errs, out = rustc(chk, f"twice-{name}", code, emit="link")
    if not ok:
        raise ToolError(f"twice-{name}: {errs[:3]}")
    r = run([out], timeout=60)
    chk.traces += 1
    for l in r.stdout.splitlines():
        chk.evals += 1
        if not l.startswith("true"):
            chk.violation(f"twice-{name}", {"what": "a second export of a name is not reported", "program": code, "observed": r.stdout,
                                            "signature": f"twice:{name}"})
            return
    if r.returncode or len(r.stdout.splitlines()) != 6:
        chk.violation(f"twice-{name}", {"what": f"generation ended with {r.returncode}: {r.stderr[-500:]}", "program": code,
                                        "signature": f"twice:{name}:end"})


# ------------------------------------------------------------------------------------------- files

def files(chk, binary):
    """The file system as the writer: openings that fail, files that exist, devices that are full, and files that must not grow."""
    d = os.path.join(chk.work, "files")
    os.makedirs(d, exist_ok=True)
    for lang in LANGS:
        req = lambda p: {"do": "file", "lang": lang, "path": p}
        full = ask(chk, binary, [{"do": "text", "lang": lang}])[0]["text"].encode()

        def see(what, path, before, want, limit=None):
            if before is not None:
                with open(path, "wb") as f:
                    f.write(before)
            elif os.path.isfile(path) and path.startswith(d):
                os.unlink(path)
            pre = f"trap '' XFSZ; ulimit -f {limit}; " if limit is not None else ""
            r = subprocess.run(["bash", "-c", f"{pre}exec {binary}"], input=json.dumps(req(path)) + "\n",
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
            try:
                a = json.loads(r.stdout)
            except ValueError:
                a = {"res": f"died: {r.stderr[-300:]}"}
            chk.evals += 1
            got = None
            if os.path.isfile(path):
                with open(path, "rb") as f:
                    got = f.read()
            bad = None
            if (a["res"] == "ok") != want or a["res"].startswith("died"):
                bad = f"generation into {what} reports {a['res']}"
            elif want and got != full:
                bad = f"{what} does not contain the header"
            elif not want and got is not None and (got == full or not full.startswith(got)):
                bad = f"{what} contains something else than the beginning of the header"
            if bad:
                chk.violation("files", {"what": bad, "language": lang, "path": path, "limit": limit, "observed": a,
                                        "signature": f"files:{bad}"})

        see("a new file", os.path.join(d, "new"), None, True)
        see("an empty file", os.path.join(d, "old"), b"", True)
        see("a longer file", os.path.join(d, "old"), b"y" * (2 * len(full) + 10), True)
        see("a file of the same length", os.path.join(d, "old"), b"z" * len(full), True)
        see("a missing directory", os.path.join(d, "missing", "file"), None, False)
        see("a directory", d, None, False)
        see("a full device", "/dev/full", None, False)
        see("a file that must not grow", os.path.join(d, "lim"), None, False, limit=0)
        for k in range(1, len(full) // 1024 + 2):   # (blocks of 1024 bytes)
            see("a file that must not grow", os.path.join(d, "lim"), None, k * 1024 >= len(full), limit=k)
    chk.traces += 1


def check(chk):
    bins = {v: build(["headers"], v)["headers"] for v in ("A", "B")}
    externs("A")
    scheds = schedules(chk, 3 if chk.thorough else 2)
    jobs = [lambda sub, c=c, v=v, i=i: faults_one(sub, bins[v], c, scheds, f"faults-{c['lang']}-{i}-{v}")
            for i, c in enumerate(CONFIGS) for v in ("AB" if chk.thorough else "AB"[i % 2])]
    jobs += [lambda sub: scripts(sub, bins["A"]), lambda sub: library(sub, bins["A"]), lambda sub: files(sub, bins["B"])]
    jobs += [lambda sub, n=n: twice(sub, n) for n in TWICE]
    pool(chk, jobs)


if __name__ == "__main__":
    main(check, sys.argv[1])
