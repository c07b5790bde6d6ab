"""C06: the specification Closures.tla against safer_ffi::closure."""
from vlib import *

FAMILIES = {"box": {"box", "own", "ref"}, "arc": {"arc", "rarc"}, "c": {"cbox", "carc", "carcn"},
            "all": {"box", "own", "ref", "arc", "rarc", "carc"}}


SHAPES = ["env", "zst", "wide", "plain"]


def cls(pre, cmd, obs):
    sl, env = pre
    me = sl[cmd[1] - 1]
    e = env[me[1] - 1] if me[1] else 0
    return (cmd[0], str(cmd[2:4] if cmd[0] != "call" else cmd[2]), str(me[0]), str(e), str(obs["res"][0]))


def same(want, got):
    for f in ("res", "sl", "live", "strong"):
        w = sorted(want[f]) if f == "live" else want[f]
        if w != got[f]:
            return f"{f}: {got[f]} instead of {w}"
    return "invalid free or release" if got["aerr"] else None


def one(chk, bins, fam, arity, slots, envs, calls, full=False):
    name = f"{fam}-{arity}-{slots}-{envs}-{calls}"
    r = tlc(chk, "MCClosures", dict(NSlots=slots, NEnv=envs, MaxCalls=calls, Arity=arity,
                                    Kinds=FAMILIES[fam], Emit=True),
            ["SPECIFICATION Spec", "VIEW View", "ACTION_CONSTRAINT EmitEdge",
             "INVARIANTS CountsExact UniqueOwners RefsValid", "PROPERTIES CallsOnly"], name=name,
            workers=2, heap="3g")
    chk.states += r.distinct
    chk.transitions += r.states
    g = Graph(r.prints)
    for vi, v in enumerate("AB"):
        for si, sig in enumerate(("same", "mix")):
            # what is captured makes no difference
            shape = SHAPES[(arity + vi + 2 * si) % len(SHAPES)] if fam != "c" else "env"
            rng = random.Random(f"{chk.seed}-{name}-{v}-{sig}")
            w = g.walks(g.init(), rng, cls=None if full else cls, per_class=2)
            w += g.random_walks(g.init(), rng, 40 if not chk.thorough else 300, 60)
            chk.sample({"model": name, "edges": len(g.edges), "walks": len(w),
                        "history": [cmdline(g.edges[e][2]) for e in w[0][:10]]})
            threaded = (lambda wi, si, c: "t " + c if (wi * 7 + si) % 4 == 0 else c)
            replay(chk, bins[v], None, g, w, lambda e: e[3], same, f"closures-{name}-{v}-{sig}-{shape}", v, prefix=threaded,
                   env={"VH_SLOTS": str(slots), "VH_ARITY": str(arity), "VH_SIG": sig,
                        "VH_SHAPE": shape})


def check(chk):
    bins = {v: build(["closures"], v)["closures"] for v in ("A", "B")}
    jobs = []
    for arity in range(10):
        for fam in ("box", "arc", "c"):
            args = (fam, arity, 2, 2, 2) if not chk.thorough else (fam, arity, 3, 2, 2)
            jobs.append(lambda k, a=args: one(k, bins, *a))
    jobs.append(lambda k: one(k, bins, "all", 2, 2 + chk.thorough, 2, 1, full=True))
    pool(chk, jobs, 5)


if __name__ == "__main__":
    main(check, sys.argv[1])
