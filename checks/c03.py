"""C03: the text the server works on is the client's text; positions are in the negotiated encoding."""
import concurrent.futures as cf, os, shutil, time
import lspc
from vlib import Graph, first_diff, short

REAL = {"a": "a", "b": "b", "e": "é", "u": "€", "g": "🦀", "n": "\n", "r": "\r\n", "X": "X"}
ENC = {"utf-8": [["utf-8"], ["utf-16", "utf-8"]], "utf-16": [["utf-16"], None, [], ["x-other"]], "utf-32": [["utf-32"], ["utf-16", "utf-32", "utf-8"]]}
NDOC = 40


def real(t):
    return "".join(REAL[c] for c in t)


def rng(ch):
    return {"range": {"start": {"line": ch["s"]["l"], "character": ch["s"]["c"]}, "end": {"line": ch["e"]["l"], "character": ch["e"]["c"]}}, "text": real(ch["t"])}


def change(ch):
    return {"text": real(ch["whole"])} if "whole" in ch else rng(ch)


def run_docs(job):
    """Replays documents (each: an opening text and batches of edits) on one server; returns mismatches."""
    bin, fmt, work, k, enc, enclist, cases = job
    root = os.path.join(work, "doc%d" % k)
    lspc.package(root, files={"sources/d%d.move" % i: "// on disk %d\n" % i for i in range(NDOC)})
    bad, n = [], 0
    s = lspc.Server(bin, root, encodings=enclist, options={"movefmt": {"path": fmt}}, env={"VP_WORK": work})
    try:
        got = s.init["result"]["capabilities"].get("positionEncoding")
        if got != enc:
            bad.append(("encoding for the client's list %s" % enclist, enc, got, {"positionEncodings": enclist}))
            return bad, 1
        s.quiescent()
        paths = [os.path.join(root, "sources/d%d.move" % i) for i in range(NDOC)]
        for base in range(0, len(cases), NDOC):
            part = cases[base:base + NDOC]
            for c, p in zip(part, paths):
                s.open(p, real(c["init"]))
            for step in range(max(len(c["batches"]) for c in part)):
                live = [(c, p) for c, p in zip(part, paths) if step < len(c["batches"])]
                for c, p in live:
                    s.change(p, [change(x) for x in c["batches"][step]["ch"]], step + 2)
                todo = live
                for attempt in range(5):
                    ids = [(c, p, s.format_(p)) for c, p in todo]
                    todo = []
                    for c, p, i in ids:
                        r = s.wait(i)
                        if r.get("error", {}).get("code") == -32801:
                            todo.append((c, p))
                            continue
                        b = c["batches"][step]
                        want = [{"range": {"start": {"line": 0, "character": 0}, "end": {"line": b["fmt"]["e"]["l"], "character": b["fmt"]["e"]["c"]}},
                                 "newText": real(b["fmt"]["t"])}]
                        n += 1
                        if r.get("result") != want:
                            bad.append(("document edits (%s)" % enc, want, r.get("result", r.get("error")), {"init": real(c["init"]), "batches": [[change(x) for x in y["ch"]] for y in c["batches"][:step + 1]]}))
                    if not todo:
                        break
                if len(bad) > 5:
                    return bad, n
            for c, p in zip(part, paths):
                s.close(p)
        s.stop()
    except lspc.ServerDied as e:
        bad.append(("the server died during document edits", "alive", str(e)[-600:], None))
    except lspc.Timeout as e:
        bad.append(("no answer during document edits", "an answer", str(e), None))
    finally:
        s.kill()
        shutil.rmtree(root, ignore_errors=True)
    return bad, n


TEXT = {"lf": "module 0x1::a {\n    fun f() {}\n}\n", "lf2": "// second\nmodule 0x1::b {}", "crlf": "module 0x1::c {\r\n    // é\r\n}\r\n", "uni": "// €🦀é\nscript {}\n\n// 🦀", "none": None}


def formatted(t):
    """The formatting answer for a document with this text (uniform line ends), in UTF-16 units."""
    lines = t.split("\n")
    col = len(lines[-1].encode("utf-16-le")) // 2
    return [{"range": {"start": {"line": 0, "character": 0}, "end": {"line": len(lines) - 1, "character": col}}, "newText": "X" + t}]


class Sync:
    """One server and the files of DocSync, with a sentinel file to know when the loader has caught up."""

    def __init__(self, bin, fmt, work, k, disk):
        self.root = os.path.join(work, "sync%d" % k)
        self.pkg = os.path.join(self.root, "p")
        lspc.package(self.pkg, files={"sources/zz.move": "// 0"})
        self.path = {"A": os.path.join(self.pkg, "sources/a.move"), "B": os.path.join(self.pkg, "sources/sub/b é.move"), "O": os.path.join(self.root, "elsewhere/o.move")}
        for p in self.path.values():
            os.makedirs(os.path.dirname(p), exist_ok=True)
        for f, c in disk.items():
            if TEXT[c] is not None:
                open(self.path[f], "wb").write(TEXT[c].encode())
        self.zz, self.n = os.path.join(self.pkg, "sources/zz.move"), 0
        self.s = lspc.Server(bin, self.root, options={"movefmt": {"path": fmt}}, env={"VP_WORK": work})
        self.s.quiescent()

    def do(self, a):
        p, c = self.path[a["f"]], TEXT.get(a["c"])
        k = a["a"]
        if k == "open":
            self.s.open(p, c)
        elif k in ("change", "orphan"):
            self.s.change(p, [{"text": c}])
        elif k == "close":
            self.s.close(p)
        elif k == "save":
            open(p, "wb").write(TEXT[a["t"]].encode())
            self.s.notify("textDocument/didSave", {"textDocument": {"uri": lspc.uri(p)}})
            self.s.touched((p, 2))
        elif k == "write":
            new = not os.path.exists(p)
            open(p, "wb").write(c.encode())
            self.s.touched((p, 1 if new else 2))
        elif k == "delete":
            os.unlink(p)
            self.s.touched((p, 3))
        elif k == "silent":
            if c is None:
                if os.path.exists(p):
                    os.unlink(p)
            else:
                open(p, "wb").write(c.encode())

    def ask(self, p):
        for i in range(50):
            r = self.s.wait(self.s.format_(p))
            if r.get("error", {}).get("code") != -32801:
                return r
            time.sleep(.01)
        return r

    def settle(self):
        self.n += 1
        open(self.zz, "w").write("// %d" % self.n)
        self.s.touched((self.zz, 2))
        end = time.time() + 30
        while True:
            r = self.ask(self.zz)
            if (r.get("result") or [{}])[0].get("newText") == "X// %d" % self.n:
                break
            if time.time() > end:
                raise lspc.Timeout("a reported change of a file never reached the server: %s" % r)
            time.sleep(.002)
        self.s.quiescent()

    def observe(self):
        self.settle()
        out = {}
        for f, p in self.path.items():
            r = self.ask(p)
            e = r.get("error")
            out[f] = ("absent" if "panicked" not in e.get("message", "") else e) if e else r["result"]
        return out

    def stop(self):
        self.s.stop()
        shutil.rmtree(self.root, ignore_errors=True)


def run_sync(job):
    bin, fmt, work, k, cases, seed = job
    import random
    rnd = random.Random(seed * 1000 + k)
    bad, n = [], 0
    for c in cases:
        y = None
        done = []
        try:
            y = Sync(bin, fmt, work, k, c["disk"])
            for i, st in enumerate(c["steps"]):
                y.do(st["act"])
                done.append(st["act"])
                if c["every"] or i + 1 == len(c["steps"]) or rnd.random() < .25:
                    want = {f: "absent" if t == "none" else formatted(TEXT[t]) for f, t in st["text"].items()}
                    got = {f: v for f, v in y.observe().items() if f in want}
                    n += 1
                    if got != want:
                        w, a, b = first_diff(want, got)
                        bad.append(("document history, file %s" % w, a, b, {"disk": c["disk"], "steps": done}))
                        break
            y.stop()
        except lspc.ServerDied as e:
            bad.append(("the server died", "alive", str(e)[-600:], {"disk": c["disk"], "steps": done}))
        except lspc.Timeout as e:
            bad.append(("the server did not settle", "settled", str(e), {"disk": c["disk"], "steps": done}))
        finally:
            if y:
                y.s.kill()
                shutil.rmtree(y.root, ignore_errors=True)
        if len(bad) > 3:
            break
    return bad, n


def sync_cases(ctx):
    r = ctx.tlc("DocSync")
    g = Graph([e for e in r.emits if "from" in e], [e["start"] for e in r.emits if "start" in e])
    cases = []
    for p in g.cover(max_len=60):
        prev, steps = p["init"], []
        for st in p["steps"]:
            a = dict(st["act"])
            if a["a"] == "save":
                a["t"] = prev["o"]["A"]
            prev = st["state"]
            t = prev["o"]["A"] if prev["o"]["A"] != "none" else prev["s"]["A"]
            steps.append({"act": a, "text": {"A": t}})
        cases.append({"disk": p["init"]["d"], "steps": steps, "every": True})
    sim = ctx.tlc("DocSync", cfg="DocSyncSim.cfg", simulate=1500 if ctx.thorough else 150, depth=31, workers=1).emits
    for c in sim:
        op = {}
        for st in c["log"]:
            a = st["act"]
            if a["a"] in ("open", "change"):
                op[a["f"]] = a["c"]
            elif a["a"] == "save":
                a["t"] = op[a["f"]]
        cases.append({"disk": c["start"]["d"], "steps": c["log"], "every": False})
    ctx.sample({"history": [s["act"] for s in cases[-1]["steps"]], "last": cases[-1]["steps"][-1]["text"]})
    return cases


def report(ctx, results):
    for bad, n in results:
        ctx.traces += n
        for what, want, got, case in bad:
            ctx.fail("%s: the specification says %s, the server %s; case %s" % (what, short(want), short(got), short(case, 900)), {"case": case, "expected": want, "actual": got})


def run(ctx):
    ctx.tlc("DocSyncMech", cfg="DocSyncMechDeep.cfg" if ctx.thorough else None, timeout=3000)
    bin = ctx.build("aptos-language-server")
    fmt = lspc.build_fmt(ctx.work)
    jobs, k = [], 0
    for enc, lists in ENC.items():
        cases = ctx.tlc("DocText", env={"ENC": enc}).emits
        cases += ctx.tlc("DocText", cfg="DocTextSim.cfg", env={"ENC": enc}, simulate=12000 if ctx.thorough else 1500, depth=40, workers=1).emits
        ctx.sample({"encoding": enc, "case": cases[-1]})
        n = 3
        for j in range(n):
            jobs.append((bin, fmt, ctx.work, k, enc, lists[j % len(lists)], cases[j::n]))
            k += 1
        for l in lists[n:]:
            jobs.append((bin, fmt, ctx.work, k, enc, l, cases[:5]))
            k += 1
    cases = sync_cases(ctx)
    sync = [(bin, fmt, ctx.work, i, cases[i::16], ctx.seed) for i in range(16)]
    with cf.ProcessPoolExecutor(8) as ex:
        report(ctx, ex.map(run_docs, jobs))
        report(ctx, ex.map(run_sync, sync))
