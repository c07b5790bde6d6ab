"""C05: the specification CStrings.tla against safer_ffi::char_p and the c! macro."""
from vlib import *


def cls(pre, cmd, obs):
    i = cmd[1] - 1
    if cmd[0] == "mk":
        return tuple(cmd[2:]) + (str(pre[1 - i][0]),)
    other = pre[cmd[2] - 1] if cmd[0] == "eq" else [""]
    return (cmd[0], str(cmd[2:]), str(pre[i]), str(other), str(obs["res"]))


def same(want, got):
    if [want["res"][0], list(want["res"][1])] != got["res"]:
        return f"result {got['res']} instead of {want['res']}"
    if want["sl"] != got["sl"]:
        return f"strings {got['sl']} instead of {want['sl']}"
    return "invalid free" if got["aerr"] else None


def model(chk, maxlen, chars, emit=True, lits=False):
    name = f"mc-{maxlen}-{len(chars)}" + ("-lits" if lits else "")
    r = tlc(chk, "MCCStrings", dict(NSlots=2, MaxLen=maxlen, Chars=set(chars), Emit=emit and not lits,
                                    MakeSlots={1}),
            ["SPECIFICATION Spec", "VIEW View", "ACTION_CONSTRAINTS EmitEdge OnlyMake", "INVARIANTS NoInnerNul",
             "PROPERTIES RefusalIsNeutral SameText"] if not lits else
            ["INIT Init", "NEXT Stay", "INVARIANT EmitLits"], name=name, workers=4, heap="4g")
    chk.states += r.distinct
    chk.transitions += r.states
    return r


def replayed(chk, bins, variants, maxlen, chars):
    r = model(chk, maxlen, chars)
    g = Graph(r.prints)
    for v in variants:
        rng = random.Random(f"{chk.seed}-{v}-{maxlen}")
        w = g.walks(g.init(), rng, cls=cls)
        w += g.random_walks(g.init(), rng, 100 if not chk.thorough else 800, 60)
        chk.sample({"edges": len(g.edges), "walks": len(w), "classes": g.classes,
                    "history": [cmdline(g.edges[e][2]) for e in w[0][:10]]})
        replay(chk, bins[v], None, g, w, lambda e: e[3], same, f"cstrings-{v}-{maxlen}-{len(chars)}", v,
               env={"VH_SLOTS": "2"})


def literals(chk, maxlen):
    r = model(chk, maxlen, {0, 1, 2, 4}, lits=True)
    lits = [p[1] for p in r.prints if p[0] == "lits"][0]
    lits.sort()
    quote = lambda b: '"' + bytes(b).decode().replace("\0", "\\0").replace("\x7f", "\\x7f") + '"'
    bad = [l for l in lits if not l[1]]
    good = [l for l in lits if l[1]]
    code = "use safer_ffi::prelude::*;\n" + "".join(
        f"pub static L{k}: fn() -> char_p::Ref<'static> = || safer_ffi::c!({quote(b)});\n"
        for k, (b, _, _) in enumerate(bad))
    ok, errs, _ = rustc(chk, "literals_bad", code)
    refused = {e[1] for e in errs}
    for k, (b, _, _) in enumerate(bad):
        chk.evals += 1
        if k + 2 not in refused:
            chk.violation("literal", {"what": f"the literal {quote(b)} with an inner NUL compiles",
                                      "input": b, "signature": f"literal:{b}"})
    code = "use safer_ffi::prelude::*;\nfn main() {\n" + "".join(
        f"  const L{k}: char_p::Ref<'static> = safer_ffi::c!({quote(b)}); "
        f"println!(\"{{:?}}\", L{k}.to_bytes_with_null());\n"
        for k, (b, _, _) in enumerate(good)) + \
        "  println!(\"{:?}\", safer_ffi::c!().to_bytes_with_null());\n}\n"
    ok, errs, out = rustc(chk, "literals_good", code, emit="link")
    if not ok:
        at = errs[0]
        b = good[at[1] - 3][0] if 3 <= at[1] < 3 + len(good) else None
        chk.violation("literal", {"what": f"a well-formed literal is refused: {at[2]}", "input": b,
                                  "signature": f"literal:{b}"})
        return
    r = run([out], timeout=60)
    got = [json.loads(l) for l in r.stdout.splitlines()]
    want = [list(s) + [0] for _, _, s in good] + [[0]]
    chk.evals += len(want)
    chk.traces += 1
    for k, (w, g) in enumerate(zip(want, got + [None] * len(want))):
        if w != g:
            chk.violation("literal", {"what": f"c!({good[k][0] if k < len(good) else ''}) shows {g} instead of {w}",
                                      "signature": f"literal:{w}"})
            break
    os.unlink(out)


def check(chk):
    bins = {v: build(["cstrings"], v)["cstrings"] for v in ("A", "B")}
    externs("A")
    models = [(2, {0, 1, 2, 3, 4}), (3, {0, 1, 2}), (3, {0, 4}), (4, {0, 1}), (2, {0, 5, 6, 7})]
    if chk.thorough:
        models += [(3, {0, 1, 2, 3}), (5, {0, 2}), (6, {0, 1}), (4, {0, 1, 4})]
    jobs = [lambda k, m=m: replayed(k, bins, "AB", *m) for m in models]
    jobs.append(lambda k: literals(k, 5 if chk.thorough else 3))
    pool(chk, jobs, 4)


if __name__ == "__main__":
    main(check, sys.argv[1])
