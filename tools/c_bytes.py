"""C01-C03: the specification Bytes.tla against safer_ffi::bytes."""
import zlib

from vlib import *

CTORS = ["static", "static_from", "static_str", "static_arr", "slice", "inline", "copied", "arc",
         "arct", "box", "vec", "cust_rr", "cust_r", "cust_n", "cust_t"]
STABBY = ["sarc", "sarct", "sbox", "svec"]
INVS = "TypeOK RefCountsExact UniqueIsUnique WithinStorage NoStaticBorrow InlineFits"
PROPS = "Untouched FailureIsNeutral"


def bytes_of(win):
    s, o, n = win
    if s not in CONTENT:
        CONTENT[s] = content(s)
    b = CONTENT[s][o:o + n]
    return b.hex() if n <= 2000 else f"{n}:{zlib.crc32(b):08x}"


CONTENT = {}


def content(s):
    return bytes((i * i * 3 + i * 5 + s * 53 + 1 + i // 256 * 7 + i // 65536 * 11) & 255 for i in range(200000))


def scaled(edge, k):
    """The same step with k bytes for each of the model's."""
    key, nkey, cmd, obs = edge
    c, r = list(cmd), list(obs["res"])
    start = lambda b, v: v if v == TOP else (v + 1) * k - 1 if b == "exc" else v * k
    end = lambda b, v: v if v == TOP else (v + 1) * k - 1 if b == "inc" else v * k
    if c[0] == "mk":
        c[4] *= k
    elif c[0] in ("shrink", "subs"):
        c[3], c[5] = start(c[2], c[3]), end(c[4], c[5])
    elif c[0] == "split" and c[3] != TOP:
        c[3] *= k
    elif c[0] == "read":
        c[2] *= k
        r[1], r[2] = r[1] * k, [r[2][0], r[2][1] * k, r[2][2] * k]
    sl = [[w[0], w[1] * k, w[2] * k] if w else w for w in obs["sl"]]
    return [key, nkey, c, dict(obs, res=r, sl=sl)]


TOP = 2000000000
BIG = {"A": {"static", "cust_n", "box", "sarc", "sarct"}, "B": {"slice", "copied", "arc", "vec", "cust_rr"}}


def expect(edge):
    obs = edge[3]
    res = list(obs["res"])
    if edge[2][0] == "read":
        res[2] = bytes_of(res[2])
    return {"res": res, "sl": [bytes_of(w) if w else None for w in obs["sl"]], "st": obs["st"]}


def same(want, got):
    if got["res"] != want["res"]:
        return f"result {got['res']} instead of {want['res']}"
    if got["sl"] != want["sl"]:
        return "a value does not show what it should"
    for w, g in zip(want["st"], got["st"]):
        if w != g and not (w == -1 or (w == 0 and g == -1)):
            return f"storage references {got['st']} instead of {want['st']}"
    if got["aerr"]:
        return "invalid free, or release past the last reference"
    return None


def check(chk):
    bins = {v: build(["bytes"], v)["bytes"] for v in ("A", "B")}
    lens = {34} if not chk.thorough else {35}

    def one(chk, ctors, variant, lens, sizes=(1,)):
        """Sizes: how many bytes each byte of the model stands for."""
        name = f"mc-{variant}-" + "-".join(sorted(ctors))[:40] + "-" + "_".join(map(str, lens))
        if sizes != (1,):
            name += "-large"
        r = tlc(chk, "MCBytes",
                dict(NSlots=2, NStor=3, Ctors=set(ctors), Lens=set(lens), Stabby=variant == "A",
                     MaxInl=32 // sizes[0], CopyStors={1, 2, 3}, Emit=True,
                     MakeSlots={1, 2} if len(ctors) > 1 or chk.thorough else {1}),
                ["SPECIFICATION Spec", "VIEW View", "CONSTRAINT Bounded",
                 "ACTION_CONSTRAINT EmitEdge", "INVARIANTS " + INVS, "PROPERTIES " + PROPS],
                name=name, workers=2)
        chk.states += r.distinct
        chk.transitions += r.states
        g = Graph(r.prints)
        rng = random.Random(f"{chk.seed}-{name}")
        root = g.init()
        threaded = (lambda wi, si, c: "t " + c if (wi * 7 + si) % 5 == 0 else c)
        small = g.edges
        for k in sizes:
            g.edges = small
            w = g.walks(root, rng, cls=None if chk.thorough and k == 1 else cls)
            w += g.random_walks(root, rng, (60 if k == 1 else 15) if not chk.thorough else 500, 100)
            chk.sample({"model": name, "times": k, "edges": len(g.edges), "walks": len(w),
                        "history": [cmdline(g.edges[e][2]) for e in w[0][:10]]})
            if k > 1:
                g.edges = [scaled(e, k) for e in small]
            if k > 2000:
                rng.shuffle(w)
                w = w[:10 if not chk.thorough else 200]
            replay(chk, bins[variant], "cfg 2 3", g, w, expect, same, f"bytes-{name}-{k}", variant,
                   prefix=threaded)

    jobs = []
    for v in ("A", "B"):
        for c in CTORS + (STABBY if v == "A" else []):
            jobs.append(lambda k, c=c, v=v: one(k, [c], v, {0} if c == "empty" else lens))
        for pair in (["arc", "slice"], ["box", "arct"], ["empty", "cust_rr"]):
            jobs.append(lambda k, p=pair, v=v: one(k, p, v, {0, 33} if "empty" in p else {33}))
        # The same at large sizes; nothing fits inline.
        for c in CTORS + (STABBY if v == "A" else []):
            if c != "empty":
                jobs.append(lambda k, c=c, v=v: one(k, [c], v, {2}, (300, 50000) if c in BIG[v] or k.thorough
                                                    else (300,)))
    nhist, nev = (14, 130) if not chk.thorough else (60, 400)
    for v in ("A", "B"):
        for part in range(4 if not chk.thorough else 16):
            jobs.append(lambda k, v=v, p=part: recorded(k, bins[v], v, p, nhist, nev))
    pool(chk, jobs, 7)


NSTOR = 130


def recorded(chk, binary, variant, part, nhist, nev):
    """Random histories run by the driver, validated by TLC."""
    lines = ["cfg 5 100"]
    for h in range(nhist):
        lines += ["reset", f"rand {chk.seed * 7919 + part * 1009 + h + 1} {nev}"]
    lines.append("reset")
    name = f"trace-{variant}-{part}"
    ans, died = drive(binary, lines)
    if died:
        chk.violation(name, {"what": died, "history": lines[:len(ans) + 1], "signature": name})
        return
    ev = []
    for a in ans[1:]:
        if isinstance(a, dict):
            if a["leaked"] or a["aerr"]:
                chk.violation(name, {"what": f"leak or invalid free after a history: {a}",
                                     "history": [cmdline(e["cmd"]) for e in ev[-nev:]],
                                     "signature": name})
                return
            ev.append({"cmd": ["reset"]})
            continue
        for e in a:
            cmd = [int(c) if c.isdigit() else c for c in e["cmd"]]
            x = e["ans"]
            res = list(x["res"])
            if cmd[0] == "read" and res[0] == "ok":
                res[2] = list(bytes.fromhex(res[2]))
            ev.append({"cmd": cmd, "res": res, "aerr": x["aerr"], "st": x["st"],
                       "sl": [[len(s) // 2] + list(bytes.fromhex(s)) if s is not None else []
                              for s in x["sl"]]})
    chk.extra["recorded_events"] = len(ev)
    trace_check(chk, "TraceBytes",
                dict(NSlots=5, NStor=NSTOR, Ctors=set(), Lens=set(), Stabby=variant == "A", MaxInl=32,
                     CopyStors=set(range(101, NSTOR + 1))),
                ev, name, nhist, extra=["INVARIANTS " + INVS])


def cls(pre, cmd, obs):
    """What matters of an edge: the command, the values it names, whether they share a storage."""
    sl, st = pre
    named = [sl[i - 1] for i in cmd[1:3] if isinstance(i, int) and 1 <= i <= len(sl)]
    own = sl[cmd[1] - 1][4] if len(cmd) > 1 else 0
    return (cmd[0], str(cmd[3:]), str([v[:1] + v[2:4] + v[5:] for v in named[:1]]),
            st[own - 1][1] if own else 0, str(obs["res"]))


if __name__ == "__main__":
    main(check, sys.argv[1])
