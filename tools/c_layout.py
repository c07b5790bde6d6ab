"""C09 and C10: every type of the generated universes against the bit patterns and the layout that
spec/Abi.tla gives it."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import abi
import vlib

PROP = "C09"


def hexs(b):
    return "".join(f"{x:02x}" for x in b)


def stabby_niche(T):
    """Stabbied<NonZero..>, Stabbied<&T>: see known-findings.txt."""
    return T[0] == "stb" and T[1][0] in ("nz", "sref")


def check_universe(chk, u, variant):
    D, roots = u["D"], u["roots"]
    code = (abi.PRELUDE + "\n".join(abi.decl(D, i + 1) for i in range(len(D))) + "\n" + abi.probes(D, roots)
            + "\nfn main() { ::vharness::run(&mut abi::Abi { probes: PROBES }); }\n")
    name = f"u{u['id']}_{variant}_{PROP}"
    ok, errs, exe = vlib.rustc(chk, name, code, variant, emit="link")

    def bad(sig, what, r=None, want=None, got=None):
        chk.violation(sig, {"what": what, "universe": u["id"], "variant": variant, "type": r and abi.rust(D, r["type"]),
                            "declarations": [abi.decl(D, i + 1) for i in range(len(D))] if len(D) < 20 else None,
                            "expected": want, "observed": got, "signature": sig})

    if not ok:
        bad("rejected", f"a program of supported types is rejected by the compiler: {errs[:3]}")
        return
    lines, plan = ["reset"], [None]
    for i, r in enumerate(roots):
        lines.append(f"layout {i}")
        plan.append(("layout", r, None))
        vs = list(r["bases"]) + list(r["vecs"])
        seen, uniq = set(), []
        for v in vs:
            if bytes(v[0]) not in seen:
                seen.add(bytes(v[0]))
                uniq.append(v)
        if PROP == "C10":
            uniq = [v for v in uniq if v[1]]
        for k in range(0, len(uniq), 64):
            part = uniq[k:k + 64]
            lines.append(f"judge {i} " + " ".join(hexs(v[0]) for v in part))
            plan.append(("judge", r, part))
        if r["all"] and PROP == "C09":
            lines.append(f"all {i}")
            plan.append(("all", r, r["all"][0]))
    ans, died = vlib.drive(exe, lines, timeout=200)
    for p, got in zip(plan, ans):
        if p is None or len(chk.violations) > 4:
            continue
        kind, r, arg = p
        if kind == "layout":
            if PROP != "C10":
                continue
            chk.evals += 1
            want = [r["size"], r["align"], r["size"], r["align"]]
            offs = list(r["offsets"]) if abi.accessible(D, r["type"]) is not None else []
            if got != [want, [offs, offs]]:
                bad("layout", "sizes, alignments or offsets of the type and its C layout", r,
                    [want, [offs, offs]], got)
        elif kind == "judge":
            for v, j in zip(arg, got):
                chk.evals += 1
                b, valid, cover = v
                deb = variant == "A"
                if PROP == "C09":
                    want = [valid, bool(valid), bool(valid)]
                    obs = [j[0], j[1] is not None, j[2] is not None]
                    if stabby_niche(r["type"]) and not any(b) and obs == [1, False, False]:
                        bad("stabbied-zero", "null accepted for the content of Stabbied", r, want, obs)
                    elif obs != want:
                        bad("validity", "bit pattern judged differently (is_valid, from_raw, from_raw_unchecked)", r,
                            {"bytes": hexs(b), "verdicts": want}, obs)
                        break
                elif valid:
                    for way, o in (("from_raw", j[1]), ("from_raw_unchecked", j[2])):
                        o = bytes.fromhex(o) if o is not None else None
                        if o is None or len(o) != len(b) or any(o[c] != b[c] for c in cover):
                            bad("roundtrip", f"a value changed between C and Rust and back ({way})", r,
                                {"bytes": hexs(b), "bytes that matter": sorted(cover)}, o and hexs(o))
                            break
        else:
            chk.evals += 1
            want = sorted(vlib_int(b) for b in arg)
            if stabby_niche(r["type"]) and got == [sorted(want + [0]), [0]]:
                bad("stabbied-zero", "null accepted for the content of Stabbied", r, want, got)
            elif got != [want, []]:
                x = sorted(set(want) ^ set(got[0]))[:5] or got[1][:5]
                bad("validity-all", f"exhaustively judged bit patterns differ, first at {x}", r, want[:300], got)
    if died:
        bad("crash", died, plan[min(len(ans), len(plan) - 1)] and plan[min(len(ans), len(plan) - 1)][1])
    chk.traces += len(roots)
    chk.sample({"universe": u["id"], "variant": variant, "types": len(roots), "example": abi.rust(D, roots[-1]["type"])})
    os.unlink(exe)


def vlib_int(b):
    return int.from_bytes(bytes(b), "little")


def run(chk):
    vlib.externs("A"), vlib.externs("B")
    if PROP == "C09":
        fams = ["prims", "ptrs", "opts", "optmore", "arrs", "tags", "tups", "fns", "own", "stabby", "enums"] + (["bigarrs"] if chk.thorough else [])
    else:
        fams = ["prims", "structs", "tags", "tups", "fns", "optmore", "own", "stabby", "enums", "arrs"] + (["bigarrs"] if chk.thorough else [])
    nseed = 96 if chk.thorough else 22
    base = (chk.seed * 977 + (0 if PROP == "C09" else 31337)) % 60000
    seeds = [(base + 401 * i) % 65537 for i in range(nseed)]
    jobs = []
    for f in fams:
        def job(sub, f=f):
            if sub.left() < 60:
                return
            for u in abi.generate(sub, f"fam-{f}", families=[f], vecs=f != "structs"):
                for v in (["A", "B"] if PROP == "C09" and f != "stabby" else ["A"]):
                    check_universe(sub, u, v)
        jobs.append(job)
    for i, s in enumerate(seeds):
        def job(sub, i=i, s=s):
            if sub.left() < 60:
                return
            for u in abi.generate(sub, f"seed-{s}", seeds=[s], nfns=0, nconsts=0, pairs=2 if chk.thorough else 1,
                                  ndecls=12, nroots=28):
                check_universe(sub, u, "AB"[i % 2])
        jobs.append(job)
    vlib.pool(chk, jobs)
    chk.extra["universes"] = len(jobs)


if __name__ == "__main__":
    PROP = sys.argv[1]
    vlib.main(run, PROP)
