"""C19: what the command line prints about a workspace, how it exits and what its fixes make of the files (Cli.tla)."""
import collections, concurrent.futures as cf, json, os, re, shutil, subprocess
from vlib import short

TOML = {"d": "", "p": '[dependencies]\nd = { local = "../d" }\n', "p/q": "", "x/move-examples/scripts/too_large": ""}
SEV = {"error": "error", "warn": "warning", "note": "note"}
PRINTED = re.compile(r"^(\w+)\[([\w-]+)\]: .*\n  --> (.+):(\d+) \[(\d+)\.\.(\d+)\]", re.M)


def plain(marked, n):
    """The text of a construct, and where its problems are."""
    out, places, open_ = "", [], []
    for c in marked.replace("$", str(n)):
        if c == "«":
            open_.append(len(places))
            places.append([len(out), 0])
        elif c == "»":
            places[open_.pop()][1] = len(out)
        else:
            out += c
    return out, places


def render(cat, name, x):
    text, at = "module 0x1::%s {\n" % name, {}
    for i, it in enumerate(x["items"]):
        c = cat[it["k"] - 1]
        t, places = plain(c["fixed"] if it["done"] else c["t"], i)
        if t:
            at[i + 1] = [(text.count("\n") + 1, len(text) + 4 + a, len(text) + 4 + b) for a, b in places]
            text += "    " + t + "\n"
    return text + "    fun end() {}\n}\n", at


def replay(args):
    bin, work, n, cat, log = args
    root = os.path.join(work, "ws%d" % n)
    for p, deps in TOML.items():
        os.makedirs(os.path.join(root, p, "sources"))
        open(os.path.join(root, p, "Move.toml"), "w").write('[package]\nname = "%s"\nversion = "0.0.0"\n%s' % (re.sub(r"\W", "_", p), deps))
    os.makedirs(os.path.join(root, "e/sources"))
    open(os.path.join(root, "e/sources/m.move"), "w").write("module 0x1::m { fun f() { missing(); } }")
    open(os.path.join(root, "d/sources/lib.move"), "w").write("module 0xd::lib {\n    public fun call() {}\n}\n")
    open(os.path.join(root, "p/sources/notes.txt"), "w").write("module 0x1::notes { fun f() { missing(); } }")
    known, bad, steps = {}, [], 0
    path = lambda f: os.path.join(root, *f)
    name = lambda f: "m" + re.sub(r"\W", "_", f[0] + f[1])

    def put(f, x):
        os.makedirs(os.path.dirname(path(f)), exist_ok=True)
        if not x["st"]:
            if os.path.exists(path(f)):
                os.unlink(path(f))
            known.pop(f, None)
        else:
            text, _ = render(cat, name(f), x)
            open(path(f), "w", newline="").write(text.replace("\n", "\r\n") if x["crlf"] else text)
            known[f] = x

    def check(what, want, got, k):
        if want != got:
            bad.append((what, want, got, {"history": log[:k + 1]}))

    try:
        for k, s in enumerate(log):
            if s["a"] == "write":
                put(tuple(s["f"]), s["x"])
                continue
            steps += 1
            o = s["o"]
            target = {"ws": root, "empty": root + "/e", "missing": root + "/nowhere"}.get(o["path"], os.path.join(root, o["path"]))
            cmd = [bin, "diagnostics", target] + ["--quiet"] * o["quiet"] + ["--verbose"] * o["verbose"]
            for flag, key in (("--kinds", "kinds"), ("--disable", "disable"), ("--enable-only", "only"), ("--apply-fixes", "fixes")):
                if o[key]:
                    cmd += [flag, ",".join(o[key])]
            before = {f: render(cat, name(f), x)[1] for f, x in known.items()}
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=60)
            want, got = collections.Counter(), collections.Counter()
            exact = s["a"] == "report"
            for w in s["out"]:
                f = tuple(w["f"])
                place = before[f][w["i"]][w["j"] - 1] if exact else ()
                want[(path(f), SEV[w["sev"]], w["code"]) + tuple(place)] += 1
            for m in PRINTED.finditer(r.stderr):
                sev, code, file, line, a, b = m.groups()
                got[(file, sev, code) + ((int(line), int(a), int(b)) if exact else ())] += 1
            what = " ".join(cmd[1:]).replace(root, "ROOT")
            if "panicked at" in r.stderr:
                check("panic in " + what, "", r.stderr[-500:], k)
            check("exit status of " + what, 0 if s["ok"] else 1, r.returncode, k)
            check("what is printed by %s but should not" % what, [], sorted((got - want).elements(), key=str), k)
            check("what is not printed by " + what, [], sorted((want - got).elements(), key=str), k)
            if o["path"] not in ("empty", "missing"):
                check("last line of " + what, not s["ok"], "Error: diagnostic error detected" in r.stdout, k)
            for f, x in s.get("files", []):
                known[tuple(f)] = x
            for f, x in known.items():
                text = render(cat, name(f), x)[0]
                check("%s after %s" % ("/".join(f), what), (text.replace("\n", "\r\n") if x["crlf"] else text), open(path(f), newline="").read(), k)
            if bad:
                break
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return bad, steps


def run(ctx):
    bin = ctx.build("aptos-language-server")
    r = ctx.tlc("Cli", simulate=40000 if ctx.thorough else 1600, depth=9, workers=8, timeout=800)
    cat = [e["catalogue"] for e in r.emits if "catalogue" in e][0]
    logs = list({json.dumps(e["log"], sort_keys=True): e["log"] for e in r.emits if "log" in e}.values())
    n = runs = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for bad, k in ex.map(replay, [(bin, ctx.work, i, cat, l) for i, l in enumerate(logs)]):
            n += 1
            runs += k
            for b in bad[:1]:
                ctx.fail("%s: expected %s, got %s" % (b[0], short(b[1]), short(b[2])), b[3])
    ctx.traces += runs
    ctx.notes.append("%d histories, %d runs of the command line" % (n, runs))
    ctx.sample({"history": logs[0]})
