"""C08: the specification Futures.tla against FfiFuture and FfiFutureExecutor."""
from vlib import *


def cls(pre, cmd, obs):
    ts, inn = pre
    if cmd[0] in ("blockon", "enter", "leave"):
        return str(cmd + [inn])
    return str([cmd[0]] + cmd[2:]) + str(ts[cmd[1] - 1])


def same(want, got):
    for f in ("res", "woken", "inn", "fut", "out"):
        if want[f] != got[f]:
            return f"{f}: {got[f]} instead of {want[f]}"
    return "invalid free, or something dropped twice" if got["aerr"] else None


def one(chk, bins, tasks, left, wakers, kinds, routes):
    name = f"fut-{tasks}-{left}-{len(wakers)}-{'-'.join(sorted(kinds))}"
    r = tlc(chk, "MCFutures", dict(NTasks=tasks, MaxLeft=left, Wakers=wakers, Kinds=kinds, Routes=routes, Emit=True),
            ["SPECIFICATION Spec", "VIEW View", "ACTION_CONSTRAINT EmitEdge",
             "INVARIANTS OutputsExact NoStaleWaker", "PROPERTIES NoLostWakeup OnlyRealValues"],
            name=name, workers=2, heap="3g")
    chk.states += r.distinct
    chk.transitions += r.states
    g = Graph(r.prints)
    for v in "AB":
        rng = random.Random(f"{chk.seed}-{name}-{v}")
        w = g.walks(g.init(), rng, cls=cls, per_class=1 if not chk.thorough else 10)
        w += g.random_walks(g.init(), rng, 100 if not chk.thorough else 1500, 60)
        chk.sample({"model": name, "edges": len(g.edges), "walks": len(w),
                    "history": [cmdline(g.edges[e][2]) for e in w[0][:10]]})
        threaded = lambda wi, si, c: "t " + c if c.split()[0] in ("wake",) and (wi + si) % 3 == 0 else c
        replay(chk, bins[v], None, g, w, lambda e: e[3], same, f"{name}-{v}", v, prefix=threaded)


def runtime(chk, binary, v, n, first):
    """Random tasks on tokio's multi-threaded runtime, recorded and judged by TraceFutures.tla."""
    ev, hist = [], 0
    lines = [f"tokio {chk.seed * 100003 + first + k}" for k in range(n)]
    ans, died = drive(binary, lines, timeout=150 if not chk.thorough else 400)
    for line, a in zip(lines, ans):
        ev.append({"cmd": ["reset", line]})
        ev += [{"cmd": e} for e in a["events"]]
        ev.append({"cmd": ["end", a["fut"], a["out"], a["aerr"], a["inn"]]})
        hist += 1
    if died:
        chk.violation(f"tokio-{v}", {"what": died, "history": lines[len(ans):len(ans) + 1], "variant": v})
        return
    trace_check(chk, "TraceFutures", {}, ev, f"tokio-{v}-{first}", hist)


def check(chk):
    bins = {v: build(["futures"], v)["futures"] for v in ("A", "B")}
    R = {"clone", "now", "helper"}
    jobs = [lambda k, kd=kd: one(k, bins, *( (1, 2, {1, 2}) if not k.thorough else (2, 1, {1, 2})), kd, R)
            for kd in ({"bare", "wrap"}, {"spawn"}, {"block"})]
    jobs.append(lambda k: one(k, bins, 2, 1, {1}, {"bare", "spawn", "block"}, {"clone", "helper"}))
    if chk.thorough:
        jobs.append(lambda k: one(k, bins, 3, 1, {1}, {"spawn"}, {"clone"}))
        jobs.append(lambda k: one(k, bins, 2, 2, {1, 2}, {"spawn", "block"}, R))
    m = 150 if not chk.thorough else 1500
    for v in "AB":
        for f in range(2):
            jobs.append(lambda k, v=v, f=f: runtime(k, bins[v], v, m, f * 10**5))
    pool(chk, jobs, 6)


if __name__ == "__main__":
    main(check, sys.argv[1])
