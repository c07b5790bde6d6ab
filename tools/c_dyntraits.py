"""C07: the specification DynTraits.tla against derive_ReprC(dyn) and VirtualPtr."""
from vlib import *

ALL = {"get", "bump", "mix", "default", "unit"}
# family: (virtual pointers, Clone, methods, may cross threads)
FAMILIES = {
    "clone": ({"vbox", "vref", "vrc"}, True, ALL, False),
    "clonesync": ({"vbox", "vref", "varc"}, True, ALL, True),
    "noclone": ({"vbox", "vref", "vmut", "vrc"}, False, ALL, False),
    "noclonesync": ({"vbox", "vref", "vmut", "varc"}, False, ALL, True),
    "mutable": ({"vbox", "vmut"}, False, {"add", "get", "mix"}, False),
    "mutablesync": ({"vbox", "vmut"}, False, {"add", "get", "mix"}, True),
    "onlymut": ({"vbox", "vmut"}, False, {"add"}, False),
    "onlymutsend": ({"vbox", "vmut"}, False, {"add"}, True),
    "pinned": ({"vpbox", "vpmut"}, False, {"add", "get"}, False),
    "pinshr": ({"vpbox", "vpref", "vprc"}, True, {"bump", "get"}, False),
    "pinshrsync": ({"vpbox", "vpref", "vparc"}, True, {"bump", "get"}, True),
    "args": ({"vbox", "vref", "vmut", "vrc"}, False, {"bump", "get"}, False),
    "clonemut": ({"vbox"}, True, {"add", "get", "mix"}, False),
    "sup": ({"vbox", "vref", "varc"}, True, ALL, True),
    "gen": ({"vbox", "vref", "vrc"}, True, {"bump", "get", "mix"}, False),
    "drop": ({"ddrop"}, True, set(), True),
}


def cls(pre, cmd, obs):
    sl, ob = pre
    me = sl[cmd[1] - 1]
    o = ob[me[1] - 1] if me[1] else 0
    return (cmd[0], str(cmd[2:4] + (cmd[4:] if cmd[0] in ("mk", "borrow") else [])), str(me[0]), str(o),
            str(len(obs["res"])))


def same(want, got):
    for f in ("res", "sl", "live", "strong"):
        w = sorted(want[f]) if f == "live" else want[f]
        if w != got[f]:
            return f"{f}: {got[f]} instead of {w}"
    return "invalid free, or an object dropped twice" if got["aerr"] else None


def one(chk, bins, fam, slots, objs, maxval, tags, part=""):
    vk, cl, methods, send = FAMILIES[fam]
    name = f"{fam}-{slots}-{objs}-{maxval}-{len(tags)}{part}"
    r = tlc(chk, "MCDynTraits", dict(NSlots=slots, NObj=objs, MaxVal=maxval, Tags=tags, VKinds=vk,
                                     Cloneable=cl, Methods=methods, Emit=True),
            ["SPECIFICATION Spec", "VIEW View", "ACTION_CONSTRAINT EmitEdge",
             "INVARIANTS CountsExact UniqueOwners BorrowsValid", "PROPERTIES Stable"], name=name,
            workers=2, heap="3g")
    chk.states += r.distinct
    chk.transitions += r.states
    g = Graph(r.prints)
    for v in "AB":
        rng = random.Random(f"{chk.seed}-{name}-{v}")
        w = g.walks(g.init(), rng, cls=cls, per_class=1 if not chk.thorough else 8)
        w += g.random_walks(g.init(), rng, 60 if not chk.thorough else 500, 60)
        chk.sample({"model": name, "edges": len(g.edges), "walks": len(w),
                    "history": [cmdline(g.edges[e][2]) for e in w[0][:10]]})
        threaded = (lambda wi, si, c: "t " + c if send and (wi * 7 + si) % 4 == 0 else c)
        replay(chk, bins[v], None, g, w, lambda e: e[3], same, f"dyn-{name}-{v}", v, prefix=threaded,
               env={"VH_SLOTS": str(slots), "VH_FAM": fam})


def check(chk):
    bins = {v: build(["dyntraits"], v)["dyntraits"] for v in ("A", "B")}
    jobs = []
    for i, fam in enumerate(FAMILIES):
        if not chk.thorough:
            jobs.append(lambda k, f=fam: one(k, bins, f, 2, 2, 1, {1, 2, 3, 4, 5}))
            jobs.append(lambda k, f=fam, i=i: one(k, bins, f, 3, 2, 1, {(2, 4, 5)[i % 3]}))
        else:
            jobs.append(lambda k, f=fam: one(k, bins, f, 3, 2, 1, {1, 2, 3}))
            jobs.append(lambda k, f=fam: one(k, bins, f, 3, 3, 1, {1, 4}))
            jobs.append(lambda k, f=fam: one(k, bins, f, 3, 2, 1, {3, 4, 5}, "z"))
    pool(chk, jobs, 4)


if __name__ == "__main__":
    main(check, sys.argv[1])
