"""C04: the specification Containers.tla against safer_ffi's owned containers and slices."""
from vlib import *

INVS = "TypeOK OwnedOnce BoxHasOne"
PROPS = "ConvPreserves PanicKeeps"


def cls(pre, cmd, obs):
    sl = pre[0]
    i = cmd[1] - 1
    named = sl[i]
    # Tokens are interchangeable: what matters is how many there are.
    n = 4 if cmd[0] in ("wm", "set") else 5 if cmd[0] == "swap" else 3
    return (cmd[0], str(cmd[2:n + 1] if cmd[0] == "wm" else cmd[2:n]), len(cmd), named[0],
            len(named[1]), str(obs["res"]))


def check(chk):
    bins = {v: build(["containers"], v)["containers"] for v in ("A", "B")}
    full = chk.thorough

    def one(chk, family, elem, variant, nslots, maxlen, ntoks, times=1):
        name = f"{family}-{elem}-{variant}-{nslots}-{maxlen}-{ntoks}" + (f"-times-{times}" if times > 1 else "")
        r = tlc(chk, "MCContainers",
                dict(NSlots=nslots, MaxLen=maxlen, Toks=set(range(1, ntoks + 1)), Family=family, Emit=True),
                ["SPECIFICATION Spec", "VIEW View", "ACTION_CONSTRAINT EmitEdge",
                 "INVARIANTS " + INVS, "PROPERTIES " + PROPS], name=name, workers=2, heap="3g")
        chk.states += r.distinct
        chk.transitions += r.states
        g = Graph(r.prints)
        rng = random.Random(f"{chk.seed}-{name}")
        root = g.init()
        w = g.walks(root, rng, cls=None if full else cls, per_class=2)
        w += g.random_walks(root, rng, 150 if not full else 1000, 100)
        if times > 1:
            rng.shuffle(w)
            w = w[:20 if times > 1000 else 100]
        chk.sample({"model": name, "edges": len(g.edges), "walks": len(w),
                    "history": [cmdline(g.edges[e][2]) for e in w[0][:10]]})

        def expect(edge):
            obs = edge[3]
            z = (lambda ids: [0] * len(ids)) if elem == "zst" else (lambda ids: list(ids))
            # (Bytes have no destructor that could panic.)
            res = "ok" if elem == "byte" and edge[2][0] == "dropbomb" else obs["res"]
            return {"res": res, "sl": [[k, z(s)] for k, s in obs["sl"]],
                    "live": z(sorted(obs["live"])) if elem not in ("str", "byte") else []}

        def same(want, got):
            if got["res"] != want["res"]:
                return f"result {got['res']} instead of {want['res']}"
            if got["sl"] != want["sl"]:
                return f"containers {got['sl']} instead of {want['sl']}"
            if got["live"] != want["live"]:
                return f"live elements {got['live']} instead of {want['live']}"
            if got["aerr"]:
                return "an element or a block was freed twice, late, or with another layout"
            return None

        replay(chk, bins[variant], None, g, w, expect, same, "containers-" + name, variant,
               env={"VH_ELEM": elem, "VH_SLOTS": str(nslots), "VH_TIMES": str(times)})

    jobs = []
    for v in ("A", "B"):
        for e in ("tok", "big", "zst", "byte"):
            jobs.append(lambda k, e=e, v=v: one(k, "vec", e, v, 2, 3 if full else 2, 5 if full else 4))
            jobs.append(lambda k, e=e, v=v: one(k, "box", e, v, 2 + full, 1, 3))
        jobs.append(lambda k, v=v: one(k, "str", "str", v, 2, 2 + full, 4 + full))
        # A character repeated: long texts.
        jobs.append(lambda k, v=v: one(k, "str", "str", v, 2, 2, 4, 300))
        jobs.append(lambda k, v=v: one(k, "str", "str", v, 2, 2, 3, 30000))
    pool(chk, jobs, 4)


if __name__ == "__main__":
    main(check, sys.argv[1])
