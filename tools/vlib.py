"""Shared machinery of the checks: staging and building, running TLC, turning its state graph into
histories, replaying them in a driver, validating recorded traces, evidence and verdicts."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stage as staging

VERIF = staging.VERIF
BUILD = staging.BUILD
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(
    os.environ,
    RUSTUP_TOOLCHAIN="1.72.1",
    RUSTC_BOOTSTRAP="1",
    CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never",
    CARGO_INCREMENTAL="1",
    RUSTC_WRAPPER="",
    CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
    RUST_BACKTRACE="0",
)
ENV.pop("RUSTFLAGS", None)
# Build variants: the feature set and profile of /repo's crate and of the driver.
VARIANTS = {
    "A": ["--features", "stabby"],  # debug assertions on
    "B": ["--release"],  # debug assertions and overflow checks off, no stabby
}


class ToolError(Exception):
    pass


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.rng = random.Random(self.seed)

    FIELDS = ("states", "transitions", "traces", "evals")

    def child(self, k):
        import copy
        c = copy.copy(self)
        for f in self.FIELDS:
            setattr(c, f, 0)
        c.samples, c.violations, c.known, c.extra = [], [], [], {}
        c.rng = random.Random(f"{self.seed}/{k}")
        return c

    def dump(self):
        return ({f: getattr(self, f) for f in self.FIELDS}, self.samples[:1], self.violations,
                self.known, self.extra)

    def merge(self, d):
        fields, samples, viol, known, extra = d
        for f, v in fields.items():
            setattr(self, f, getattr(self, f) + v)
        for x in samples:
            self.sample(x)
        self.violations += viol
        self.known += known
        for k, v in extra.items():
            self.extra[k] = self.extra.get(k, 0) + v if isinstance(v, (int, float)) else v

    def left(self, total=840):
        return total - (time.time() - self.t0)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def violation(self, name, payload):
        """A confirmed divergence of the code from the specification (known findings are filtered)."""
        sig = payload.get("signature", name)
        for k in known_findings():
            if k["property"] == self.prop and k["match"] == sig:
                self.known.append(k["text"])
                return
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(payload, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, f"{self.prop}-{name}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, **payload}, f, indent=1, default=str)
        self.violations.append((path, payload))

    def finish(self):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "evaluations": self.evals,
            "samples": self.samples or ["none"],
            **self.extra,
        }
        ev = {
            "property": self.prop,
            "tier": "thorough" if self.thorough else "quick",
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for t in sorted(set(self.known)):
            print(f"KNOWN-FINDING: property={self.prop} {t}")
        for path, p in self.violations[:5]:
            what = p.get("what", "")
            print(f"VIOLATION property={self.prop} replay={path}" + (f"  # {what}" if what else ""))
        print(
            f"{self.prop}: states={self.states} transitions={self.transitions} "
            f"traces={self.traces} evaluations={self.evals} violations={len(self.violations)} "
            f"wall={ev['wall_s']}s"
        )
        sys.stdout.flush()
        os._exit(1 if self.violations else 0)


def known_findings():
    """Lines `known: property=<id> match=<signature> <text>` of known-findings.txt."""
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
            if m:
                out.append({"property": m[1], "match": m[2], "text": m[3]})
    return out


# ------------------------------------------------------------------------------------------ build

def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                          timeout=timeout, **kw)


def build(bins, variant, crate=HARNESS, extra=()):
    """Builds drivers against /repo's working tree; returns {bin: path}."""
    staging.stage()
    cmd = ["cargo", "build", "--offline", *VARIANTS[variant], *extra]
    for b in bins:
        cmd += ["--bin", b]
    r = run(cmd, cwd=crate, env=ENV)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-6000:])
        raise ToolError("cargo build failed")
    prof = "release" if "--release" in VARIANTS[variant] else "debug"
    out = {}
    for b in bins:
        # A copy: another variant of the same profile may be built later.
        src = os.path.join(ENV["CARGO_TARGET_DIR"], prof, b)
        dst = os.path.join(BUILD, "bin", variant, b)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        tmp = dst + f".{os.getpid()}"
        shutil.copy2(src, tmp)
        os.replace(tmp, dst)
        out[b] = dst
    return out


_EXTERNS = {}


def externs(variant):
    """rustc arguments that make the crates of a variant available to a single-file program."""
    if variant in _EXTERNS:
        return _EXTERNS[variant]
    staging.stage()
    r = run(["cargo", "build", "--offline", "--lib", "--message-format=json", *VARIANTS[variant]],
            cwd=HARNESS, env=ENV)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-6000:])
        raise ToolError("cargo build failed")
    prof = "release" if "--release" in VARIANTS[variant] else "debug"
    args = ["-L", "dependency=" + os.path.join(ENV["CARGO_TARGET_DIR"], prof, "deps")]
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] in (
                "safer_ffi", "safer-ffi", "serde_json", "vharness", "tokio", "stabby"):
            f = [f for f in m["filenames"] if f.endswith(".rlib")]
            if f:
                args += ["--extern", m["target"]["name"].replace("-", "_") + "=" + f[0]]
    _EXTERNS[variant] = args
    return args


def rustc(chk, name, code, variant="A", emit="metadata", args=(), timeout=300, crate_type=None):
    """Compiles one file; returns (ok, [(code or message, line, message)] errors, output path)."""
    src = os.path.join(chk.work, name + ".rs")
    with open(src, "w") as f:
        f.write(code)
    out = os.path.join(chk.work, name + (".out" if emit == "link" else ".rmeta"))
    a = ["-C", "debug-assertions=" + ("on" if variant == "A" else "off"), "-C", "opt-level=0"]
    r = run(["rustc", "--edition", "2021", "--crate-name", re.sub(r"\W", "_", name), "--error-format=json",
             "--cap-lints", "allow", "--crate-type", crate_type or ("bin" if emit == "link" else "lib"),
             "--emit", emit, "-o", out, *a, *externs(variant), *args, src], env=ENV, timeout=timeout)
    errs = []
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") == "error" and m.get("spans"):
            sp = [s for s in m["spans"] if s["is_primary"]] or m["spans"]
            s = sp[0]
            while s.get("expansion") and not s["file_name"].endswith(os.path.basename(src)):
                s = s["expansion"]["span"]
            errs.append(((m.get("code") or {}).get("code", ""), s["line_start"], m["message"]))
        elif m.get("level", "").startswith("error"):
            errs.append(("", 0, m.get("message", "")))
    if r.returncode not in (0, 1):
        raise ToolError(f"rustc crashed on {name}: {r.stderr[-1500:]}")
    return r.returncode == 0, errs, out


# -------------------------------------------------------------------------------------------- TLC

def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    raise TypeError(v)


class TlcResult:
    def __init__(self):
        self.prints = []
        self.states = self.distinct = self.depth = 0
        self.ok = False
        self.text = ""


def tlc(chk, module, consts, lines, name=None, workers=2, timeout=600, heap="2g", args=(),
        env=None, deadlock=False, must_pass=True):
    """Runs TLC on spec/<module>.tla. `lines`: further lines of the .cfg. Returns a TlcResult whose
    .prints are the JSON values printed by the specification."""
    name = name or module
    cfg = os.path.join(chk.work, f"{name}.cfg")
    with open(cfg, "w") as f:
        if consts:
            f.write("CONSTANTS\n" + "".join(f"  {k} = {tla(v)}\n" for k, v in consts.items()))
        f.write("\n".join(lines) + "\n")
        if not deadlock:
            f.write("CHECK_DEADLOCK FALSE\n")
    meta = os.path.join(chk.work, f"meta-{name}")
    tmp = os.path.join(chk.work, f"tmp-{name}")
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", f"-Xmx{heap}", "-Xss32m", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1, workers)}",
           f"-Djava.io.tmpdir={tmp}", "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", cfg, *args, os.path.join(SPEC, module + ".tla")]
    out = os.path.join(chk.work, f"{name}.out")
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout,
                               env=dict(os.environ, **(env or {})), cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {name}")
    r = TlcResult()
    text = []
    with open(out) as f:
        for line in f:
            if line.startswith('"') and line.rstrip().endswith('"'):
                try:
                    r.prints.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            text.append(line)
    r.text = "".join(text)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.text)
    if m:
        r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"depth of the complete state graph search is (\d+)", r.text)
    r.depth = int(m[1]) if m else 0
    r.ok = p.returncode == 0
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    os.unlink(out)
    if must_pass and not r.ok:
        sys.stderr.write(r.text[-4000:])
        raise ToolError(f"TLC rejected the specification: {name}")
    return r


# ------------------------------------------------------------------------------ graphs and walks

def key(x):
    return json.dumps(x, separators=(",", ":"))


class Graph:
    """The labelled state graph printed by a specification: [pre, post, cmd, obs] per edge."""

    def __init__(self, prints):
        ids = {}
        self.edges = []
        self.out = []
        seen = set()
        for pre, post, cmd, obs in prints:
            a, b = key(pre), key(post)
            for k in (a, b):
                if k not in ids:
                    ids[k] = len(self.out)
                    self.out.append([])
            e = (ids[a], ids[b], key(cmd))
            k = (e, key(obs))
            if k in seen:
                continue
            seen.add(k)
            self.out[e[0]].append(len(self.edges))
            self.edges.append((e[0], e[1], cmd, obs))
        self.ids = ids

    def init(self):
        has_in = {e[1] for e in self.edges if e[1] != e[0]}
        roots = [n for n in range(len(self.out)) if n not in has_in]
        return roots[0] if roots else 0

    def walks(self, root, rng, maxlen=120, budget=None, cls=None, per_class=1):
        """Walks from `root` that together take every edge (until `budget` steps are used).
        With `cls`, only `per_class` edges of each class cls(pre-state key, cmd, obs) are aimed at."""
        out, edges = self.out, self.edges
        if cls is None:
            todo = [list(o) for o in out]
        else:
            names = {v: k for k, v in self.ids.items()}
            by = {}
            order = list(range(len(edges)))
            rng.shuffle(order)
            todo = [[] for _ in out]
            for e in order:
                a, _, cmd, obs = edges[e]
                k = cls(json.loads(names[a]), cmd, obs)
                if by.get(k, 0) < per_class:
                    by[k] = by.get(k, 0) + 1
                    todo[a].append(e)
            self.classes = len(by)
        for t in todo:
            rng.shuffle(t)
        left = sum(len(t) for t in todo)
        # BFS tree from the root, to come back to a node with edges left.
        parent = {root: None}
        order = [root]
        for n in order:
            for e in out[n]:
                m = edges[e][1]
                if m not in parent:
                    parent[m] = e
                    order.append(m)

        def path(n):
            p = []
            while parent[n] is not None:
                p.append(parent[n])
                n = edges[parent[n]][0]
            return p[::-1]

        def near(n, limit=60):
            seen = {n: None}
            q = [n]
            for x in q:
                if todo[x]:
                    p = []
                    while seen[x] is not None:
                        p.append(seen[x])
                        x = edges[seen[x]][0]
                    return p[::-1]
                for e in out[x]:
                    m = edges[e][1]
                    if m not in seen and len(q) < limit:
                        seen[m] = e
                        q.append(m)
            return None

        res, used = [], 0
        cursor = 0
        while left and (budget is None or used < budget):
            while cursor < len(order) and not todo[order[cursor]]:
                cursor += 1
            if cursor == len(order):
                break
            walk, n = [], root
            if not todo[root]:
                walk = path(order[cursor])
                n = order[cursor]
            while len(walk) < maxlen:
                if todo[n]:
                    e = todo[n].pop()
                    left -= 1
                    walk.append(e)
                    n = edges[e][1]
                    continue
                p = near(n)
                if p is None:
                    break
                walk += p
                if p:
                    n = edges[p[-1]][1]
            for e in walk:
                t = todo[edges[e][0]]
                if e in t:
                    t.remove(e)
                    left -= 1
            res.append(walk)
            used += len(walk)
        return res

    def random_walks(self, root, rng, n, length):
        res = []
        for _ in range(n):
            x, w = root, []
            while len(w) < length and self.out[x]:
                e = rng.choice(self.out[x])
                w.append(e)
                x = self.edges[e][1]
            res.append(w)
        return res


def cmdline(cmd):
    return " ".join(str(c).lower() if isinstance(c, bool) else str(c) for c in cmd)


def drive(binary, lines, timeout=300, env=None, cwd=None):
    """Feeds a driver; returns (answers, exit description or None)."""
    try:
        p = subprocess.run([binary], input="\n".join(lines) + "\n", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=cwd,
                           env=dict(ENV, VH_FLUSH="1", **(env or {})))
        code, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        code, so, se = "timeout", (e.stdout or b""), (e.stderr or b"")
        so = so.decode() if isinstance(so, bytes) else so
        se = se.decode(errors="replace") if isinstance(se, bytes) else se
    ans = []
    for line in so.splitlines():
        try:
            ans.append(json.loads(line))
        except ValueError:
            break
    if code == 0 and len(ans) == len(lines):
        return ans, None
    return ans, f"driver ended with {code} after {len(ans)} of {len(lines)} answers: {se[-800:]}"


def replay(chk, binary, cfgline, graph, walks, expect, same, name, variant, maxviol=3, prefix=None,
           timeout=400, env=None):
    """Replays walks in the driver. expect(edge) -> expected answer; same(expected, got) -> None or a
    description of the difference."""
    lines, index = [], []
    if cfgline:
        lines.append(cfgline)
        index.append(None)
    for wi, w in enumerate(walks):
        lines.append("reset")
        index.append(None)
        for si, e in enumerate(w):
            c = cmdline(graph.edges[e][2])
            lines.append(prefix(wi, si, c) if prefix else c)
            index.append((wi, si))
    lines.append("reset")
    index.append(None)
    ans, died = drive(binary, lines, timeout=timeout, env=env)
    chk.traces += len(walks)
    nviol = 0

    def report(at, what, want=None, got=None):
        nonlocal nviol
        nviol += 1
        start = max((k for k in range(at + 1) if lines[k] == "reset" and k < at), default=0)
        chk.violation(name, {
            "what": what, "variant": variant, "driver": os.path.basename(binary),
            "history": ([cfgline] if cfgline else []) + lines[start:at + 1],
            "expected": want, "observed": got, "signature": name + ":" + str(what)[:60]})

    skip = None
    for k, got in enumerate(ans):
        if nviol >= maxviol:
            return
        if index[k] is None:
            skip = None
            if got.get("reset") and (got.get("leaked") or got.get("aerr")):
                report(k, f"after the end of a history: {got['leaked']} blocks leaked, "
                          f"{got['aerr']} invalid frees or releases", None, got)
                return  # the counters are global: what follows cannot be judged
            continue
        if skip == index[k][0]:
            continue
        wi, si = index[k]
        chk.evals += 1
        want = expect(graph.edges[walks[wi][si]])
        d = same(want, got)
        if d:
            report(k, d, want, got)
            skip = wi
            if got.get("aerr"):
                return
    if died and nviol < maxviol:
        k = min(len(ans), len(lines) - 1)
        report(k, died)


def trace_check(chk, module, consts, events, name, histories, timeout=600, extra=(), describe=None):
    """Validates recorded events (dicts with a "cmd") with the trace specification `module`; a
    rejected event is a violation. `events` starts and is separated by ["reset"] events."""
    path = os.path.join(chk.work, f"{name}.ndjson")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    r = tlc(chk, module, consts, ["SPECIFICATION TraceSpec", "POSTCONDITION Accepted", *extra],
            name=name, workers=1, timeout=timeout, env={"TRACE": path}, must_pass=False)
    m = re.search(r"Assumption|Parsing or semantic analysis failed|Attempted to|evaluating", r.text)
    chk.states += r.distinct
    chk.transitions += r.states
    if r.ok:
        chk.traces += histories
        chk.evals += len(events)
        os.unlink(path)
        return True
    if "is violated" not in r.text and "violated" not in r.text and "POSTCONDITION" not in r.text.upper():
        sys.stderr.write(r.text[-3000:])
        raise ToolError(f"trace specification failed: {name}")
    at = max(0, r.depth - 1)
    if at >= len(events):
        at = len(events) - 1
    start = max((k for k in range(at + 1) if events[k]["cmd"][0] == "reset"), default=0)
    chk.violation(name, {
        "what": f"recorded event is not a behaviour of the specification: {cmdline(events[at]['cmd'])}",
        "history": [cmdline(e["cmd"]) for e in events[start:at + 1]],
        "rejected": events[at], "tlc": r.text[-1500:], "signature": name})
    return False


def pool(chk, jobs, n=8):
    """Runs jobs (functions of a Check) in forked processes and merges what they found."""
    import pickle
    running, todo, errs = {}, list(enumerate(jobs)), []
    while todo or running:
        while todo and len(running) < n:
            k, job = todo.pop(0)
            path = os.path.join(chk.work, f"job-{k}")
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    sub = chk.child(k)
                    res = None
                    try:
                        res = job(sub)
                        err = None
                    except ToolError as e:
                        err = str(e)
                    with open(path, "wb") as f:
                        pickle.dump((sub.dump(), res, err), f)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            running[pid] = (k, path)
        pid, status = os.wait()
        if pid not in running:
            continue
        k, path = running.pop(pid)
        if status != 0 or not os.path.exists(path):
            errs.append(f"job {k} ended with status {status}")
            continue
        with open(path, "rb") as f:
            dump, res, err = pickle.load(f)
        os.unlink(path)
        chk.merge(dump)
        jobs[k] = res
        if err:
            errs.append(err)
    if errs and not chk.violations:
        raise ToolError("; ".join(errs))
    return jobs


def with_tools():
    """Runs the calling script under the Python that has the verification libraries."""
    try:
        import pycparser  # noqa: F401
    except ImportError:
        sys.stdout.flush()
        os.execvp("python3-vt", ["python3-vt", *sys.argv])


def main(fn, prop, level="model_checking"):
    chk = Check(prop, level)
    try:
        fn(chk)
    except ToolError as e:
        print(f"{prop}: tool error: {e}", file=sys.stderr)
        sys.stderr.flush()
        os._exit(2)
    chk.finish()
