"""C15: the specifications Views.tla and Maps.tla against byte strings, slices, vectors and strings."""
from vlib import *

ELEMS = {"u8": ["0", "1", "128", "255"], "i16": ["0", "-300", "7", "-1"], "f64": ["-0.0", "0.0", "1.5", "NaN"],
         "key": ["K0", "K1", "K2", "K3"]}
CHARS = ["\t", "\n", '"', "'", "\\", "a", "é", "😀"]
ESCAPED = {0: "\\t", 1: "\\n", 2: '\\"', 4: "\\\\"}


def elems(kind, pieces):
    return "".join(ELEMS[kind][int(p[1:])] if p[0] == "e" else p.replace("|", "\n") for p in pieces)


def chars(pieces):
    out = ""
    for p in pieces:
        out += {"'": '"', "f": "*"}.get(p) or (ESCAPED if p[0] == "x" else CHARS)[int(p[1:])]
    return out


def judge(q, want, got):
    """What is wrong with the answers to one question, or None."""
    kind = q["k"]
    if q["do"] == "pair":
        for n, v in got.items():
            if v != want:
                return f"{n}: {v} instead of {want}"
    elif q["do"] == "texts":
        for n, v in got.items():
            w = [want[0], True] if n in ("char_p box", "char_p ref", "char_p copy") else want
            if v != w:
                return f"{n}: {v} instead of {w}"
    elif q["do"] == "one":
        d, p = elems(kind, want[0]), elems(kind, want[1])
        for n, v in got.items():
            if n == "round trips":
                if v:
                    return f"round trips: {v[:4]}"
            elif n == "alternate":
                nested = p.replace("\n", "\n    ")
                for rep, text, owned, shared in v:
                    b = lambda x: "true" if x else "false"
                    w = f"Bytes {{\n    data: {nested},\n    owned: {b(owned)},\n    shared: {b(shared)},\n}}"
                    if text != w:
                        return f"{{:#?}} of bytes {rep} is {text!r} instead of {w!r}"
            elif v != [d, None if n.startswith("bytes") else p, True]:
                return f"{n} is formatted as {v} instead of {[d, p]}"
    elif q["do"] == "show":
        d, p = chars(want[0]), chars(want[1])
        for n, v in got.items():
            if v != [[d, d, d], p]:
                return f"{n} is formatted as {v} instead of {[[d, d, d], p]}"
    elif got[:1] != want[:1] or want[0] == "ok" and got[1] != [int(ELEMS["u8"][x]) for x in want[1]]:
        return f"deserialized as {got} instead of {want}"
    return None


def questions(chk, bins, maxlen, maxtext, pads):
    r = tlc(chk, "MCViews", dict(MaxLen=maxlen, Pads=set(pads), BigPads={63, 64, 65, 255, 256, 257, 4095, 4096, 4097, 5000}, MaxText=maxtext, Emit=True),
            ["SPECIFICATION MCSpec", "INVARIANTS Laws Tell"], workers=4, heap="6g")
    chk.states += r.distinct
    chk.transitions += r.states
    qs = r.prints
    counts = {}
    for q, _ in qs:
        counts[q["do"]] = counts.get(q["do"], 0) + 1
    if min(counts.get(d, 0) for d in ("pair", "texts", "one", "show", "de")) < 50:
        raise ToolError(f"too few questions: {counts}")
    chk.extra["questions"] = counts
    chk.sample({"question": qs[0][0], "answer": qs[0][1]})

    def job(sub, v, part):
        mine = qs[part::8]
        lines = ["ask " + json.dumps(q, separators=(",", ":")) for q, _ in mine]
        ans, died = drive(bins[v], lines, timeout=600)
        seen = set()
        for (q, want), a in zip(mine, ans):
            sub.evals += 1
            d = judge(q, want, a["ans"])
            if d:
                sig = f"{q['do']}:{q['k']}:{d.split(':')[0][:40]}"
                if sig not in seen:
                    seen.add(sig)
                    sub.violation(f"views-{q['do']}", {"what": d, "variant": v, "question": q, "expected": want,
                                                       "observed": a["ans"], "signature": sig})
                if len(seen) > 3:
                    return
        sub.traces += len(ans)
        if died:
            sub.violation("views", {"what": died, "question": lines[min(len(ans), len(lines) - 1)], "signature": "died"})

    return [lambda sub, v=v, p=p: job(sub, v, p) for v in "AB" for p in range(8)]


def maps(chk, bins):
    r = tlc(chk, "MCMaps", dict(NReps=12, Emit=True),
            ["CONSTANT Keys <- KeysSmall", "SPECIFICATION Spec", "VIEW View", "ACTION_CONSTRAINT EmitEdge", "INVARIANTS SortedOnce"],
            name="maps", workers=4, heap="4g")
    chk.states += r.distinct
    chk.transitions += r.states
    g = Graph(r.prints)

    def same(want, got):
        want = [["".join(map(str, k)) for k in x] if isinstance(x, list) else x for x in want["res"]]
        got = [["".join(map(str, k)) for k in x] if isinstance(x, list) else x for x in got["res"]]
        return None if want == got else f"{got} instead of {want}"

    def job(sub, v):
        cls = None if chk.thorough else (lambda pre, cmd, obs: (cmd[0], str(cmd[1:3]), str(obs["res"])[:40]))
        w = g.walks(g.init(), sub.rng, cls=cls, per_class=2)
        w += g.random_walks(g.init(), sub.rng, 400 if chk.thorough else 60, 100)
        sub.sample({"edges": len(g.edges), "walks": len(w), "history": [cmdline(g.edges[e][2]) for e in w[0][:10]]})
        replay(sub, bins[v], None, g, w, lambda e: e[3], same, f"maps-{v}", v)

    return [lambda sub, v=v: job(sub, v) for v in "AB"]


def check(chk):
    bins = {v: build(["views"], v)["views"] for v in ("A", "B")}
    jobs = questions(chk, bins, *((4, 5, [11, 12, 13, 14, 15, 16, 17, 22, 23, 24, 25, 31, 33, 64, 200]) if chk.thorough
                                  else (3, 3, [13, 14, 15, 16, 22, 23, 40])))
    pool(chk, maps(chk, bins) + jobs)


if __name__ == "__main__":
    main(check, sys.argv[1])
