"""C05 package graph / C06 owners of files: PackageGraph.tla's file systems are written out and loaded by the real code."""
import os, random

REAL = {"g_git_main": "https___g_io_x_g_git_main", "h_git_main": "git_g_io_x_h_git_fe_at"}
DIRS = {"a": "w/A", "b": "w/b", "c": "v/c", "n": "w/A/n", "m": "w/A/sources/m", "f": "w/aptos-move/framework/f",
        "g": "home/.move/https___g_io_x_g_git_main", "h": "home/.move/git_g_io_x_h_git_fe_at/sub"}
SMALL = dict(DIRS, b="w/A/b")
GIT = {"g": ("https://g.io/x/g.git", "main", None), "h": ("git@g.io:x/h.git", "fe/at", "sub")}
SUB = ["sources", "tests", "scripts", "other"]
BAD = ["[package\nname=", "[package]\nname = 'X'\n[package]\nname = 'Y'\n", "[dependencies]\na = { local = \n", "NOTUTF8"]


def relpath(dirs, frm, to, rng):
    r = os.path.relpath("/" + to, "/" + dirs[frm])
    return r + rng.choice(["", "/", "/."]) if rng.random() < .7 else "./" + r


def dep_line(dirs, p, d, rng):
    t, via = d["t"], d["via"]
    if via == "local":
        return {"local": relpath(dirs, p, dirs.get(t, "w/gone"), rng)}
    if t in GIT:
        git, rev, sub = GIT[t]
    elif t == "gone":
        git, rev, sub = "https://gone", "main", None
    else:
        # any folder can be named from inside the (empty) checkout folder .move/x_main
        git, rev, sub = "x", "main", "../../../" + dirs[t]
    out = {"git": git}
    if via == "git":
        out["rev"] = rev
    if sub:
        out["subdir"] = sub
    return out


def q(s):
    return '"%s"' % s


def manifest(dirs, p, m, rng):
    if m["st"] == "bad":
        return rng.choice(BAD)
    parts = []
    if m["name"]:
        parts.append("[package]\nname = %s\n%s" % (q(m["name"]), rng.choice(["", "version = '1.0.0'\n", "authors = []\n"])))
    else:
        parts.append(rng.choice(["", "[package]\nversion = '0'\n", "[package]\n"]))
    for tab, pre in (("dependencies", "k"), ("dev-dependencies", "d")):
        ds = m["deps" if tab == "dependencies" else "dev"]
        lines = [("%s%d" % (pre, i + 1), dep_line(dirs, p, d, rng)) for i, d in enumerate(ds)]
        rng.shuffle(lines)
        if rng.random() < .5:
            if lines or rng.random() < .3:
                parts.append("[%s]\n" % tab + "".join("%s = { %s }\n" % (k, ", ".join("%s = %s" % (a, q(b)) for a, b in v.items())) for k, v in lines))
        else:
            for k, v in lines:
                parts.append("[%s.%s]\n" % (tab, k) + "".join("%s = %s\n" % (a, q(b)) for a, b in v.items()))
    a = {"a1": 'a1 = "0x1"\n', "a2": 'a2 = "_"\n', "a3": "a3 = 5\n"}
    main = [a[x] for x in m["addrs"] if x != "a2"]
    if main:
        parts.append("[addresses]\n" + "".join(main))
    if "a2" in m["addrs"]:
        parts.append("[dev-addresses]\n" + a["a2"])
    rng.shuffle(parts)
    return "\n".join(parts)


ADDR = {"a1": ["a1", "0x1"], "a2": ["a2", "_"], "a3": ["a3", "_"]}


def case_of(dirs, roots, e, rng):
    fs = e["fs"]
    here = [p for p in sorted(fs) if fs[p]["st"] != "none"]
    files = {dirs[p] + "/Move.toml": manifest(dirs, p, fs[p], rng) for p in here}
    d = ["home/.move/x_main", "w", "v", "w/A", "w/b", "w/A/sources"] + (["w/aptos-move/framework"] if e["aptos"] else [])
    # things that are not manifests
    files["w/move.toml"] = "[package]\nname='Z'\n"
    d.append("w/b/tests/Move.toml")
    return {"dirs": d, "files": files, "roots": roots, "probes": [dirs[p] + "/" + s + "/deep/m.move" for p in sorted(fs) for s in SUB]}


def lst(x):
    return x if isinstance(x, list) else []


def expected(dirs, e):
    fs, man = e["fs"], lambda p: dirs[p] + "/Move.toml"
    pkgs, errs, graph, watch = {}, [], {}, []
    P = e["pkgs"] if isinstance(e["pkgs"], dict) else {}
    for p, d in P.items():
        if d["st"] == "error":
            errs.append(man(p))
            continue
        nd = len(fs[p]["deps"])
        miss = ["k%d" % i if i <= nd else "d%d" % (i - nd) for i in lst(d["missing"])]
        addrs = sorted(ADDR[a] for a in lst(d["addrs"]))
        deps = lst(d["deps"])
        pkgs[man(p)] = {"name": d["name"] or None, "kind": d["kind"], "resolve": d["resolve"], "missing": miss, "addrs": addrs,
                        "deps": [[dirs[x], k] for x, k in deps]}
        graph[man(p)] = {"name": d["name"] or None, "deps": [man(x) for x, _ in deps], "resolve": d["resolve"], "addrs": addrs, "missing": miss}
        w = d["kind"] == "local"
        watch.append([dirs[p], ["toml"], w])
        watch += [[dirs[p] + "/" + s, ["move"], w] for s in ("sources", "tests", "scripts")]
    own, forf = {}, {}
    for p in fs:
        for s in SUB:
            k = dirs[p] + "/" + s + "/deep/m.move"
            o = e["own"][p][s]
            own[k] = [man(o), P[o]["kind"] == "git"] if o != "none" else [None, True]
            f = e["for"][p][s]
            forf[k] = [man(f), True] if f != "none" else None
    return {"disc": [[man(p), r] for p, r in lst(e["disc"])], "pkgs": pkgs, "errors": sorted(errs), "graph": graph, "own": own, "for": forf,
            "watch": sorted(watch)}


def observe(a, exp):
    if "pkgs" not in a:
        return a
    a = dict(a)
    a["errors"] = sorted(next((m for m in exp["errors"] if "/" + m in x), x) for x in a["errors"])
    for t in (a["pkgs"], a["graph"] or {}):
        for v in t.values():
            v["addrs"] = sorted(v["addrs"])
    a["watch"] = sorted(a["watch"])
    return a


def replay(ctx, parts, label):
    h = ctx.build("h-proj")
    n = 3000 if ctx.thorough else 260
    big = ctx.tlc("PackageGraphMC", cfg="PackageGraphL.cfg", simulate=n, depth=30, workers=1, timeout=800).emits
    small = ctx.tlc("PackageGraphMC", cfg="PackageGraphS.cfg").emits
    if not ctx.thorough:
        small = sorted(small, key=lambda e: str(e))
        small = ctx.rng.sample(small, 5000)
    for dirs, roots, emits in ((DIRS, ["w", "v", "w/A"], big), (SMALL, ["w"], small)):
        rng = random.Random(ctx.seed)
        cases = [case_of(dirs, roots, e, rng) for e in emits]
        exp = [expected(dirs, e) for e in emits]
        got = [observe(a, x) for a, x in zip(ctx.run_bin(h, cases, shards=8), exp)]
        pick = lambda d: {k: d[k] for k in parts} if "pkgs" in d else d
        ctx.compare(cases, [pick(x) for x in exp], [pick(a) for a in got], label)
        ctx.sample({"fs": emits[-1]["fs"], "code": pick(got[-1])})


def run(ctx):
    replay(ctx, ["disc", "pkgs", "errors", "graph"], "loading packages")
    ctx.assumptions.append("folder names and manifest spellings stand for all others")
