"""Shared machinery of the checks: build a harness against /repo, run TLC, compare, report.

A check is a module checks/<id>.py with `run(ctx)`.  Everything a check decides comes from a TLA+
module in spec/: TLC checks the module's own properties and prints, as JSON, the behaviours (cases
or labelled transitions) that are then replayed into the real code; or a trace recorded from the
real code is handed to TLC, which decides whether the specification allows it.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, collections
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def cargo_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTFLAGS="-Awarnings", RUST_BACKTRACE="0")
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.distinct = 0
        self.samples, self.assumptions, self.notes = [], [], []
        self.extra = {}
        self.violations = []
        self.level = "model_checking"
        self.rng = random.Random(seed)
        self.work = tempfile.mkdtemp(prefix=f"vp-{prop}-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.known = load_known(prop)
        self.known_hit = {}

    # ---------------------------------------------------------------- building
    def build(self, crate, bin=None, timeout=840):
        ws = os.path.join(BUILD, "ws-" + crate)
        r = subprocess.run([sys.executable, os.path.join(VERIF, "tools/mkws.py"), ws, crate],
                           capture_output=True, text=True)
        if r.returncode:
            raise ToolError("mkws: " + r.stderr)
        t = time.time()
        r = subprocess.run(["cargo", "build", "--message-format", "short", "-p", crate], cwd=ws, env=cargo_env(),
                           capture_output=True, text=True, timeout=timeout)
        if r.returncode:
            raise ToolError("build of %s failed:\n%s" % (crate, r.stderr[-6000:]))
        self.notes.append("built %s in %.0fs" % (crate, time.time() - t))
        return os.path.join(BUILD, "target/debug", bin or crate)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=None, timeout=600, simulate=None, depth=None, coverage=False,
            allow_violation=False, heap="8g", dfs=False, seed=None):
        """Runs TLC on spec/<module>.tla.  Returns .emits (JSON values printed), .states, .distinct, .ok.
        The workers of a simulation are processes of their own: within one, all of them draw the same random values."""
        if simulate and (workers or 1) > 1:
            with ThreadPoolExecutor(workers) as ex:
                rs = list(ex.map(lambda i: self.tlc(module, cfg, env, 1, timeout, -(-simulate // workers), depth, coverage, allow_violation,
                                                    "3g", dfs, self.seed * 1000 + i), range(workers)))
            for r in rs[1:]:
                rs[0].emits += r.emits
                rs[0].generated += r.generated
                rs[0].distinct += r.distinct
                rs[0].ok = rs[0].ok and r.ok
            return rs[0]
        d = tempfile.mkdtemp(dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m"]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", TLC_CP, "tlc2.TLC", "-metadir", d, "-noGenerateSpecTE", "-nowarning",
                "-config", os.path.join(VERIF, "spec", cfg or module + ".cfg"),
                "-workers", str(workers or "auto")]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed if seed is None else seed)]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd.append(os.path.join(VERIF, "spec", module + ".tla"))
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        out = os.path.join(d, "out")
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=os.path.join(VERIF, "spec"))
            except subprocess.TimeoutExpired:
                raise ToolError("TLC on %s exceeded %ds" % (module, timeout))
        res = TlcResult()
        text = []
        for line in open(out, errors="replace"):
            if line.startswith('"{') or line.startswith('"['):
                try:
                    res.emits.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            text.append(line)
        res.text = "".join(text)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", res.text)
        if m:
            res.generated, res.distinct = int(m[1]), int(m[2])
        m = re.search(r"The number of states generated: (\d+)", res.text)
        if m and not res.generated:
            res.generated = int(m[1])
        res.rc, res.wall = r.returncode, time.time() - t
        res.ok = r.returncode == 0
        if not res.ok and not allow_violation:
            raise ToolError("TLC on %s (%s) ended %d:\n%s" % (module, cfg, r.returncode, res.text[-4000:]))
        shutil.rmtree(d, ignore_errors=True)
        self.states += res.distinct
        self.transitions += res.generated
        return res

    # ---------------------------------------------------------------- running the harness
    def run_bin(self, cmd, cases, timeout=600, env=None, args=(), shards=1):
        """Feeds JSON lines to the harness, gets one JSON line per case back (in order)."""
        if isinstance(cmd, str):
            cmd = [cmd]
        cases = list(cases)
        if shards > 1 and len(cases) > 200:

            n = (len(cases) + shards - 1) // shards
            parts = [cases[i:i + n] for i in range(0, len(cases), n)]
            with ThreadPoolExecutor(shards) as ex:
                rs = list(ex.map(lambda p: self.run_bin(cmd, p, timeout, env, args), parts))
            return [x for r in rs for x in r]
        e = dict(os.environ)
        e["RUST_BACKTRACE"] = "0"
        e.update(env or {})
        out = []
        todo = cases
        while todo:
            data = "".join(json.dumps(c, separators=(",", ":")) + "\n" for c in todo)
            fo = tempfile.TemporaryFile("w+", dir=self.work)
            try:
                r = subprocess.run(cmd + list(args), input=data, stdout=fo, stderr=subprocess.PIPE, text=True, env=e, timeout=timeout, cwd=self.work)
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                rc, err = "timeout", ""
            fo.seek(0)
            got = []
            for line in fo:
                if line.startswith("{") or line.startswith("["):
                    try:
                        got.append(json.loads(line))
                    except ValueError:
                        break
            out += got[:len(todo)]
            if len(got) >= len(todo):
                break
            # the harness died in the middle of a case: that is an observation about the code, not a tool failure
            if rc == 0:
                raise ToolError("harness %s answered %d of %d cases" % (cmd, len(got), len(todo)))
            out.append({"died": str(rc), "stderr": (err or "")[-400:]})
            todo = todo[len(got) + 1:]
            self.deaths = getattr(self, "deaths", 0) + 1
            if self.deaths > 5:
                out += [{"died": "skipped"}] * len(todo)
                break
        return out

    # ---------------------------------------------------------------- verdicts
    def fail(self, what, replay, key=None):
        """Reports a violation unless known-findings lists exactly this one."""
        for k in self.known:
            if key is not None and k["key"] == key:
                self.known_hit[key] = k
                return
        if len(self.violations) >= 20:
            self.violations.append(None)
            return
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "key": key, "replay": replay}, f, indent=1, default=str)
        self.violations.append(p)
        if len(self.violations) <= 5:
            print("  %s" % what[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def compare(self, cases, expected, actual, label="case", key=None):
        """Equality between what the specification says and what the code did, case by case."""
        for c, e, a in zip(cases, expected, actual):
            self.traces += 1
            if e != a:
                where, x, y = first_diff(e, a)
                self.fail("%s: at %s the specification says %s, the code did %s; case %s" % (label, where or "the top", short(x), short(y), short(c, 700)),
                          {"case": c, "expected": e, "actual": a}, key(c) if key else None)

    def sample(self, *xs):
        for x in xs:
            if len(self.samples) < 6:
                self.samples.append(x)

    def finish(self):
        for k, v in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, v["what"]))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"]}
        cov.update(self.extra)
        cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d states, %d transitions, %d replayed/validated, %d violations, %.1fs" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


class TlcResult:
    def __init__(self):
        self.emits, self.text, self.generated, self.distinct, self.ok = [], "", 0, 0, True


def short(x, n=400):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "…"


def first_diff(e, a, at=""):
    if isinstance(e, dict) and isinstance(a, dict):
        for k in list(e) + [k for k in a if k not in e]:
            if k not in e or k not in a:
                return at + "/" + str(k), e.get(k, "(absent)"), a.get(k, "(absent)")
            if e[k] != a[k]:
                return first_diff(e[k], a[k], at + "/" + str(k))
    if isinstance(e, list) and isinstance(a, list) and len(e) == len(a):
        for i, (x, y) in enumerate(zip(e, a)):
            if x != y:
                return first_diff(x, y, at + "/%d" % i)
    return at, e, a


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Graph:
    """The labelled state graph TLC printed: edges {from, act, to} plus the initial states."""

    def __init__(self, edges, inits):
        self.succ = collections.OrderedDict()
        self.inits = [canon(i) for i in inits]
        self.val = {canon(i): i for i in inits}
        for e in edges:
            a, b = canon(e["from"]), canon(e["to"])
            self.val[a], self.val[b] = e["from"], e["to"]
            self.succ.setdefault(a, {})[canon([e["act"], b])] = (e["act"], b)
        self.n_edges = sum(len(s) for s in self.succ.values())

    def cover(self, rng=None, max_len=40):
        """Paths from initial states that together take every edge at least once."""
        parent, order = {}, []
        q = collections.deque(self.inits)
        seen = set(self.inits)
        while q:
            s = q.popleft()
            order.append(s)
            for act, t in self.succ.get(s, {}).values():
                if t not in seen:
                    seen.add(t)
                    parent[t] = (s, act)
                    q.append(t)
        done = set()
        paths = []

        def prefix(s):
            p = []
            while s in parent:
                ps, act = parent[s]
                p.append((act, s))
                s = ps
            return s, p[::-1]
        for s in order:
            for k in list(self.succ.get(s, {})):
                if (s, k) in done:
                    continue
                init, p = prefix(s)
                cur, cur_k = s, k
                while True:
                    done.add((cur, cur_k))
                    act, t = self.succ[cur][cur_k]
                    p.append((act, t))
                    cur = t
                    if len(p) >= max_len:
                        break
                    nxt = [k2 for k2 in self.succ.get(cur, {}) if (cur, k2) not in done]
                    if not nxt:
                        break
                    cur_k = nxt[0] if rng is None else rng.choice(nxt)
                paths.append({"init": self.val[init], "steps": [{"act": a, "state": self.val[t]} for a, t in p]})
        return paths

    def walks(self, rng, n, length):
        out = []
        for _ in range(n):
            s = rng.choice(self.inits)
            init, p = s, []
            for _ in range(length):
                opts = list(self.succ.get(s, {}).values())
                if not opts:
                    break
                act, s = rng.choice(opts)
                p.append({"act": act, "state": self.val[s]})
            out.append({"init": self.val[init], "steps": p})
        return out
