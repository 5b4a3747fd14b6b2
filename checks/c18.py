"""C18: the workspace after any history of manifests, sources and folders changing; Workspace.tla's histories on the running server."""
import concurrent.futures as cf, os, re, shutil, time
import lspc
from vlib import short

DIR = {"a": "one/a", "b": "one/deep/b", "c": "two/c"}
FOLDER = {1: "one", 2: "two"}
BAD = ["[package]\nname = \n", "[package\n", "name", "[dependencies]\nX = { local = \"../x\"\n"]


class Project:
    def __init__(self, root):
        self.root = root
        self.n = 0
        for f in FOLDER.values():
            os.makedirs(os.path.join(root, f))

    def toml(self, p):
        return os.path.join(self.root, DIR[p], "Move.toml")

    def src(self, p, rel="sources/in/m.move"):
        return os.path.join(self.root, DIR[p], rel)

    def folder(self, i):
        return os.path.join(self.root, FOLDER[i])

    def write(self, path, text):
        new = not os.path.exists(path)
        if text is None:
            if not new:
                os.unlink(path)
            return path, 3
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)
        return path, 1 if new else 2

    def man(self, p, x):
        self.n += 1
        if x["st"] == "none":
            text = None
        elif x["st"] == "bad":
            text = BAD[self.n % len(BAD)] + "# %d\n" % self.n
        else:
            deps = "".join('%s = { local = "%s" }\n' % (d.upper(), os.path.relpath(os.path.join(self.root, DIR[d]), os.path.join(self.root, DIR[p]))) for d in x["deps"])
            text = '[package]\nname = "%s"\n# %d\n[dependencies]\n%s' % (p.upper(), self.n, deps)
        return self.write(self.toml(p), text)

    def mod(self, p, x):
        self.n += 1
        names = [q for q in ("a", "b", "c", "x") if q != (p if x == "own" else "x")]
        text = None if x == "absent" else "module 0x1::m%s {\n%s    // %d\n}\n" % (p if x == "own" else "x", "".join("    use 0x1::m%s;\n" % q for q in names), self.n)
        return self.write(self.src(p), text)


def glob_match(g, path):
    if isinstance(g, dict):
        base = g["baseUri"] if isinstance(g["baseUri"], str) else g["baseUri"]["uri"]
        g = base[len("file://"):].rstrip("/") + "/" + g["pattern"]
    rx = re.escape(g).replace(r"/\*\*/", "/(?:.*/)?").replace(r"\*\*", "[^/]*").replace(r"\*", "[^/]*")
    return re.fullmatch(rx, path) is not None


def progress_ok(log):
    """Each kind of progress is created, begun, reported and ended, in that order."""
    st = {}
    for m in log:
        if m.get("method") == "window/workDoneProgress/create":
            t = m["params"]["token"]
            if st.get(t, "end") != "end":
                return "created again: %s" % t
            st[t] = "create"
        elif m.get("method") == "$/progress":
            t, k = m["params"]["token"], m["params"]["value"]["kind"]
            was = st.get(t)
            if (k == "begin") != (was == "create") or (k != "begin" and was not in ("begin", "report")):
                return "%s after %s: %s" % (k, was, t)
            v = m["params"]["value"].get("percentage")
            if v is not None and not 0 <= v <= 100:
                return "percentage %s" % v
            st[t] = k
    return None if all(v == "end" for v in st.values()) else "not ended: %s" % st


def want_of(step):
    return {"health": step["health"], "files": {p: sorted(u) for p, u in step["obs"]}}


class Session:
    def __init__(self, bin, work, proj, folders, watch):
        caps = {"window": {"workDoneProgress": True}}
        if watch:
            caps["workspace"] = {"didChangeWatchedFiles": {"dynamicRegistration": True, "relativePatternSupport": watch == 2}, "workspaceFolders": True}
        self.watch, self.proj = watch, proj
        self.s = lspc.Server(bin, proj.root, folders=[proj.folder(i) for i in folders], caps=caps, env={"VP_WORK": work})

    def loads(self):
        return sum(1 for m in list(self.s.log) if m.get("method") == "$/progress" and m["params"]["value"]["kind"] == "end" and m["params"]["token"].endswith("/Fetching"))

    def observe(self, want):
        s, files = self.s, {}
        ids = {p: s.send("textDocument/diagnostic", {"textDocument": {"uri": lspc.uri(self.proj.src(p))}}) for p in want["files"]}
        for p, i in ids.items():
            r = s.wait(i)
            if "error" in r:
                files[p] = r["error"]["message"]
            else:
                files[p] = sorted(m.group(1) + ("*" if "multiple elements" in d["message"] else "") for d in r["result"]["items"] if d.get("code") == "unresolved-reference" for m in [re.search(r"`m(\w)`", d["message"])] if m)
        return {"health": s.status["health"], "files": files}

    def settle(self, want, reload, before, limit=40):
        """Waits until the server has settled; what it answers then."""
        end = time.time() + limit
        if reload:
            self.s.wait_for(lambda: self.loads() > before, limit)
        got = None
        while time.time() < end:
            self.s.quiescent(limit)
            got = self.observe(want)
            if got == want:
                self.s.quiescent(limit)
                again = self.observe(want)
                if again == got:
                    return got
                got = again
            elif time.time() > end - limit + 6:
                return got
            time.sleep(.02)
        return got

    def globs(self):
        w = [m["params"]["registrations"] for m in list(self.s.log) if m.get("method") == "client/registerCapability"]
        return [x["globPattern"] for r in w[-1] for x in r["registerOptions"]["watchers"]] if w else []


def replay(job):
    bin, work, k, log, watch = job
    root = os.path.join(work, "ws%d" % k)
    proj = Project(root)
    bad, n, s, fresh = [], 0, None, None
    st = log[0]["act"]
    for p, x in st["man"]:
        proj.man(p, x)
    for p, x in st["mod"]:
        proj.mod(p, x)
    open_ = set(st["open"])
    where = lambda i: {"history": [x["act"] for x in log[:i + 1]], "watch": watch}
    i = 0
    try:
        s = Session(bin, work, proj, sorted(open_), watch)
        for i, step in enumerate(log):
            a, want = step["act"], want_of(step)
            before = s.loads() if i else 0
            if a["a"] == "man":
                s.s.touched(proj.man(a["p"], a["x"]))
            elif a["a"] == "mod":
                s.s.touched(proj.mod(a["p"], a["x"]))
            elif a["a"] == "open":
                new = set(a["x"])
                f = lambda xs: [{"uri": lspc.uri(proj.folder(j)), "name": "f"} for j in sorted(xs)]
                s.s.notify("workspace/didChangeWorkspaceFolders", {"event": {"added": f(new - open_), "removed": f(open_ - new)}})
                open_ = new
            got = s.settle(want, step["reload"], before)
            n += 1
            if got != want:
                bad.append(("what the server answers after %s" % short(a), want, got, where(i)))
                break
            if watch and s.globs():
                g = s.globs()
                for p in DIR:
                    for rel, w in (("sources/in/m.move", 1), ("sources/m.move", 1), ("tests/t.move", 1), ("scripts/x/y/s.move", 1), ("Move.toml", 1), ("build/x/m.move", 0), ("sources/a.txt", 0)):
                        f = proj.src(p, rel)
                        watched = any(glob_match(x, f) for x in g)
                        if watched != bool(w and p in step["pkgs"]):
                            bad.append(("files the client is asked to watch after %s" % short(a), {f: not watched}, {f: watched}, where(i)))
                            return bad, n
        e = progress_ok(s.s.log)
        if e and not bad:
            bad.append(("progress reports", "create, begin, report.., end", e, where(len(log))))
        s.s.stop()
        if not bad and log[-1]["fresh"]:
            fresh = Session(bin, work, proj, sorted(open_), 0)
            want = want_of(log[-1])
            got = fresh.settle(want, True, 0)
            n += 1
            if got != want:
                bad.append(("what a server started now answers", want, got, where(len(log))))
            fresh.s.stop()
    except lspc.ServerDied as e:
        bad.append(("the server died", "alive", str(e)[-600:], where(i)))
    except lspc.Timeout as e:
        bad.append(("no answer", "an answer", str(e), where(i)))
    finally:
        for x in (s, fresh):
            if x:
                x.s.kill()
        shutil.rmtree(root, ignore_errors=True)
    return bad, n


def run(ctx):
    bin = ctx.build("aptos-language-server")
    ctx.tlc("WorkspaceMC", cfg="WorkspaceMCDeep.cfg" if ctx.thorough else "WorkspaceMC.cfg", timeout=800)
    num = 6000 if ctx.thorough else 400
    logs = [e["log"] for e in ctx.tlc("WorkspaceMC", cfg="WorkspaceSim.cfg", simulate=num, depth=16, workers=1, timeout=800).emits]
    seen = set()
    logs = [l for l in logs if not (str(l) in seen or seen.add(str(l)))]
    n = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for bad, k in ex.map(replay, [(bin, ctx.work, i, l, i % 3) for i, l in enumerate(logs)]):
            n += k
            for b in bad:
                ctx.fail("%s: expected %s, got %s" % (b[0], short(b[1]), short(b[2])), b[3])
    ctx.traces += n
    ctx.sample({"history": [x["act"] for x in logs[0]]})
    ctx.assumptions.append("the client reports every change of a file it makes, also outside the folders it was asked to watch")
