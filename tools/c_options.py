"""C13: the specification Options.tla against option::TaggedOption, and against the standard Option."""
import abi
import c_layout
from vlib import *

PAYLOADS = ("small", "wide", "float", "owned", "nested")


def cls(pre, cmd, obs):
    sl, obj = pre
    me = sl[cmd[1] - 1]
    other = sl[cmd[2] - 1] if cmd[0] in ("take", "clone", "cmp", "clone_from") else None
    show = lambda s: s and (s[0], obj[s[1] - 1] if s[1] else 0)
    return (cmd[0], str(show(me)), str(show(other)), str(cmd[3:] if cmd[0] in ("mk", "clone") else cmd[2:] if other is None else ""))


def same(want, got):
    for f in ("res", "sl", "obj"):
        if want[f] != got[f]:
            return f"{f}: {got[f]} instead of {want[f]}"
    return "invalid free or drop" if got["aerr"] else None


def one(chk, bins, slots, objs):
    name = f"{slots}-{objs}"
    r = tlc(chk, "MCOptions", dict(NSlots=slots, NObj=objs, Emit=True),
            ["SPECIFICATION Spec", "VIEW View", "ACTION_CONSTRAINT EmitEdge", "INVARIANTS HeldOnce", "PROPERTIES KindsKept ValuesKept"],
            name=name, workers=4, heap="4g")
    chk.states += r.distinct
    chk.transitions += r.states
    g = Graph(r.prints)

    def job(sub, p, v):
        full = slots == 2 and not chk.thorough and p in ("wide", "owned") or chk.thorough
        w = g.walks(g.init(), sub.rng, cls=None if full else cls, per_class=3)
        w += g.random_walks(g.init(), sub.rng, 300 if chk.thorough else 40, 80)
        sub.sample({"model": name, "payload": p, "edges": len(g.edges), "walks": len(w),
                    "history": [cmdline(g.edges[e][2]) for e in w[0][:10]]})
        replay(sub, bins[v], None, g, w, lambda e: e[3], same, f"options-{name}-{p}-{v}", v,
               env={"VH_SLOTS": str(slots), "VH_OBJS": str(objs), "VH_PAYLOAD": p})

    pool(chk, [lambda sub, p=p, v=v: job(sub, p, v) for p in PAYLOADS for v in "AB"])


def bits(chk, aspect):
    """The C form of tagged options of every family of payloads: validity, and what survives."""
    c_layout.PROP = aspect
    for u in abi.generate(chk, f"tags-{aspect}", families=["tags"], pairs=2):
        for v in "AB":
            c_layout.check_universe(chk, u, v)


def check(chk):
    bins = {v: build(["options"], v)["options"] for v in ("A", "B")}
    externs("A"), externs("B")
    one(chk, bins, 2, 3)
    pool(chk, [lambda sub, p=p: bits(sub, p) for p in ("C09", "C10")])
    if chk.thorough:
        one(chk, bins, 3, 3)


if __name__ == "__main__":
    main(check, sys.argv[1])
