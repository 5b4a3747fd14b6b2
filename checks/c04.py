"""C04: every request gets exactly one answer, never about an older text; Lsp.tla judges recorded sessions."""
import concurrent.futures as cf, json, os, random, re, shutil, time
import lspc
from vlib import short

HEAVY = "".join("    fun h%d(a: u64, b: u64): u64 { let c = a + b * %d; let d = c - a; if (d > c) { d } else { c + h%d(d, c) } }\n" % (i, i, max(0, i - 1)) for i in range(60))
FMT = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
int main(int c, char **v){
  for(int i=1;i<c;i++) if(!strcmp(v[i],"--version")){ puts("movefmt v1.2.1"); return 0; }
  static char b[1<<20]; size_t n=fread(b,1,sizeof b-1,stdin); b[n]=0;
  if(strstr(b,"slow fmt")) usleep(1500000); else usleep(3000);
  fputc('X',stdout); fwrite(b,1,n,stdout); return 0; }
'''


def doc(v, slow=False):
    return "/*" + "v" * (v % 400) + "*/\nmodule 0x1::m {\n    fun v%d(): u8 { u%d }\n    fun w(): u8 { v%d() }\n%s}\n%s" % (v, v, v, HEAVY, "// slow fmt\n" if slow else "")


class Session:
    def __init__(self, bin, fmt, work, k, wait):
        self.root = os.path.join(work, "req%d" % k)
        self.path = os.path.join(self.root, "p/sources/a.move")
        lspc.package(os.path.join(self.root, "p"), files={"sources/a.move": doc(0), "sources/slow.move": "// slow fmt"})
        self.s = lspc.Server(bin, self.root, options={"movefmt": {"path": fmt}}, env={"VP_WORK": work})
        self.v = self.base = 0
        self.n = 0
        self.ids, self.kinds = {}, {}
        self.loaded = False
        if wait:
            self.s.quiescent()
            self.loaded = True
        self.s.open(self.path, doc(0), version=0)
        self.slow = os.path.join(self.root, "p/sources/slow.move")
        self.s.open(self.slow, "// slow fmt, please")
        self.mark = len(self.s.log)

    def ev(self, **e):
        with self.s.cv:
            self.s.log.append({"ev": e})

    def req(self, kind, var=0):
        self.n += 1
        wire = [lambda n: n + 100000, lambda n: "s-%d" % n, lambda n: n + 100000, lambda n: str(n + 99999)][self.n % 4](self.n)   # "100002" next to 100002 …
        td = {"textDocument": {"uri": lspc.uri(self.path)}}
        pos = {"position": {"line": 2, "character": 9}}
        fmt = {"options": {"tabSize": 4, "insertSpaces": True}}
        m, p = {
            "sync": [("textDocument/selectionRange", dict(td, positions=[{"line": 0, "character": 2}]))],
            "pool": [("textDocument/hover", dict(td, **pos)), ("textDocument/rename", dict(td, newName="zz", **pos))],
            "retry": [("textDocument/documentSymbol", td), ("workspace/symbol", {"query": "v"}), ("textDocument/completion", dict(td, position={"line": 3, "character": 19})),
                      ("textDocument/semanticTokens/full", td)],
            "diag": [("textDocument/diagnostic", td)],
            "fmt": [("textDocument/formatting", dict(td, **fmt))],
            "slow": [("textDocument/formatting", dict({"textDocument": {"uri": lspc.uri(self.slow)}}, **fmt))],
            "unknown": [("vp/unknown", {}), ("$/vp", None)],
            "bad": [("textDocument/selectionRange", {"textDocument": 5}), ("textDocument/formatting", {})],
            "badpool": [("textDocument/hover", {}), ("textDocument/diagnostic", {"textDocument": []})],
            "identity": [("inlayHint/resolve", {"label": "x%d" % self.n, "position": {"line": 1, "character": 2}})],
            "shutdown": [("shutdown", None)],
        }[kind][var % {"pool": 2, "retry": 4, "unknown": 2, "bad": 2, "badpool": 2}.get(kind, 1)]
        self.ids[wire] = self.n
        self.kinds[self.n] = (kind, m, p)
        self.ev(e="req", id=self.n, kind=kind, early=not self.loaded)
        self.s.send(m, p, wire)
        return wire

    def edit(self):
        self.v += 1
        self.ev(e="chg")
        self.s.change(self.path, [{"text": doc(self.v)}], self.v)

    def cancel(self, wire):
        self.ev(e="cancel", id=self.ids[wire])
        self.s.notify("$/cancelRequest", {"id": wire})

    def outcome(self, n, r):
        kind, m, p = self.kinds[n]
        e = r.get("error")
        if e:
            d = e.get("data") or {}
            o = {-32800: "cancelled", -32801: "modified", -32600: "invalid", -32601: "nomethod", -32602: "badparams"}.get(e["code"])
            if e["code"] == -32802 and d.get("retriggerRequest") is True:
                o = "servercancelled"
            return o or "error %s %s" % (e["code"], e["message"][:200]), 0
        x = r.get("result")
        if kind == "shutdown":
            return ("null" if x is None else "ok"), 0
        if kind == "identity":
            return ("same" if {k: v for k, v in (x or {}).items() if v not in (None, False)} == p else "other"), 0
        if x in (None, []) or (isinstance(x, dict) and (x.get("items") == [] or x.get("data") == [])):
            return "default", 0
        v = None
        if m.endswith("selectionRange"):
            c = x[0]
            while c:
                if c["range"]["start"] == {"line": 0, "character": 0} and c["range"]["end"]["line"] == 0:
                    v = ("len", c["range"]["end"]["character"] - 4)
                    break
                c = c.get("parent")
        elif m.endswith("full"):
            v = ("len", x["data"][2] - 4)
        elif m.endswith("rename"):
            v = x["documentChanges"][0]["textDocument"]["version"]
        elif m.endswith("diagnostic"):
            g = re.findall(r"`u(\d+)`", json.dumps(x))
            v = int(g[0]) if len(set(g)) == 1 else None
        else:
            t = x[0]["newText"] if m.endswith("formatting") else json.dumps(x)
            g = set(re.findall(r"\bv(\d+)\b", t))
            v = int(g.pop()) if len(g) == 1 else None
        if isinstance(v, tuple):
            # the comment's length is the version modulo 400: the candidate closest to the current one
            v = next((w for w in range(self.v, max(-1, self.v - 400), -1) if w % 400 == v[1]), None)
        if v is None:
            return "unreadable answer to %s: %s" % (m, json.dumps(x)[:600]), 0
        return "ok", v - self.base

    def take(self, wires, timeout=60):
        """Waits for all answers and returns the events since the last call, as the specification names them."""
        for w in wires:
            try:
                self.s.wait(w, timeout)
            except lspc.Timeout:
                pass
        self.s.barrier()
        with self.s.cv:
            part = self.s.log[self.mark:]
            self.mark = len(self.s.log)
        out = []
        for m in part:
            if "ev" in m:
                out.append(m["ev"])
            elif "method" not in m and m["id"] in self.ids:
                n = self.ids[m["id"]]
                o, v = self.outcome(n, m)
                out.append({"e": "resp", "id": n, "o": o, "v": v})
        self.base = self.v
        return out


def run_session(job):
    bin, fmt, work, k, scripts, seed = job
    rnd = random.Random(seed * 100 + k)
    traces, info, y = [], [], None
    try:
        y = Session(bin, fmt, work, k, wait=k % 4 != 0)
        for sc in scripts:
            wires = []
            for st in sc:
                if st["a"] == "req":
                    wires.append(y.req(st["kind"], st["var"]))
                elif st["a"] == "edit":
                    y.edit()
                elif st["a"] == "cancel" and wires:
                    y.cancel(wires[-1 - min(st["var"] - 1, len(wires) - 1)] if rnd.random() < .8 else rnd.choice(list(y.ids)))
                elif st["a"] == "pause":
                    time.sleep(st["var"] ** 2 * .0006)
            traces.append(y.take(wires))
            if not y.loaded and y.s.status and y.s.status["quiescent"]:
                y.s.quiescent()
                y.loaded = True
        # a running formatter is abandoned at once when its request is cancelled
        w = y.req("slow")
        time.sleep(.05)
        y.cancel(w)
        traces.append(y.take([w]))
        # shutdown: what came before is answered, what comes after is refused
        pre = [y.req(rnd.choice(["pool", "retry", "fmt", "sync", "diag"]), rnd.randrange(8)) for _ in range(rnd.randrange(4))]
        if rnd.random() < .5:
            y.edit()
        ws = pre + [y.req("shutdown")]
        if rnd.random() < .5:
            y.edit()
        ws += [y.req(rnd.choice(["pool", "retry", "fmt", "sync", "diag", "unknown", "bad", "identity", "shutdown"]), rnd.randrange(8)) for _ in range(4)]
        for w in ws:
            y.s.wait(w)
        time.sleep(.05)
        w = y.req("unknown")
        y.s.wait(w)
        with y.s.cv:
            part = y.s.log[y.mark:]
        tr = []
        for m in part:
            if "ev" in m:
                tr.append(m["ev"])
            elif "method" not in m and m["id"] in y.ids:
                o, v = y.outcome(y.ids[m["id"]], m)
                tr.append({"e": "resp", "id": y.ids[m["id"]], "o": o, "v": v})
        traces.append(tr)
        y.s.notify("exit", None)
        try:
            rc = y.s.p.wait(20)
        except Exception:
            rc = "still running after exit"
        if rc != 0:
            info.append(("exit after shutdown", 0, rc))
    except lspc.ServerDied as e:
        info.append(("the server ended", "running", str(e)[-500:]))
    except lspc.Timeout as e:
        info.append(("an answer within a minute", "answer", str(e)))
    finally:
        if y:
            y.s.kill()
            shutil.rmtree(y.root, ignore_errors=True)
    return traces, info


def run(ctx):
    ctx.tlc("LspMC", cfg="LspMCDeep.cfg" if ctx.thorough else "LspMC.cfg", timeout=3000)
    bin = ctx.build("aptos-language-server")
    src, fmt = os.path.join(ctx.work, "f.c"), os.path.join(ctx.work, "movefmt")
    open(src, "w").write(FMT)
    import subprocess
    subprocess.run(["gcc", "-O1", "-o", fmt, src], check=True)
    scripts = [e["script"] for e in ctx.tlc("Lsp", cfg="LspScript.cfg", simulate=6000 if ctx.thorough else 960, depth=26, workers=1).emits]
    n = 64 if ctx.thorough else 32
    traces, outcomes = [], {}
    with cf.ProcessPoolExecutor(8) as ex:
        for trs, info in ex.map(run_session, [(bin, fmt, ctx.work, k, scripts[k::n], ctx.seed) for k in range(n)]):
            traces += trs
            for what, want, got in info:
                ctx.fail("%s: expected %s, got %s" % (what, want, got), {"expected": want, "actual": got})
    for tr in traces:
        for e in tr:
            if e["e"] == "resp":
                outcomes[e["o"][:16]] = outcomes.get(e["o"][:16], 0) + 1
    ctx.extra["outcomes"] = outcomes
    p = os.path.join(ctx.work, "traces.json")
    json.dump(traces, open(p, "w"))
    r = ctx.tlc("Lsp", cfg="LspTrace.cfg", env={"TRACES": p}, timeout=1500)
    ctx.traces += len(traces)
    ctx.sample(traces[0][:12], outcomes)
    for b in r.emits:
        tr = traces[b["t"] - 1]
        e = tr[b["i"] - 1] if b["i"] <= len(tr) else None
        rel = [x for x in tr if e and x.get("id") == e.get("id") or x["e"] == "chg"]
        ctx.fail("session not allowed by the specification (%s) at event %s: %s; about this request: %s" % (b["bad"], b["i"], e, short(rel)), {"trace": tr, "event": b["i"]})
