"""C10: every name in a program leads to the declaration it refers to (Names.tla)."""
TOML = {
    "P/Move.toml": '[package]\nname = "P"\nversion = "0.0.0"\n[addresses]\npa = "0x5"\n[dependencies]\nM = { local = "../M" }\n',
    "M/Move.toml": '[package]\nname = "M"\nversion = "0.0.0"\n[dependencies]\nD = { local = "../D" }\n',
    "D/Move.toml": '[package]\nname = "D"\nversion = "0.0.0"\n[addresses]\nda = "0x6"\n',
    "U/Move.toml": '[package]\nname = "U"\nversion = "0.0.0"\n',
}
PATHS = ["P/sources/ma.move", "P/sources/mb.move", "D/sources/mc.move", "U/sources/decoy.move", "P/sources/ma.spec.move"]


class Program:
    """The text of a behaviour, and what the specification says about its names."""

    def __init__(self, e, ids=None, new=None):
        self.files, self.decls, self.refs = dict(TOML), {}, []
        self.name, self.short, self.offers = {}, [], []
        for path, toks in zip(PATHS, e["files"]):
            text, skip = "", 0
            for i, t in enumerate(toks):
                s = t["s"]
                if skip:
                    skip -= 1
                    if skip:
                        continue
                if t["k"] in ("d", "psh") and t["id"] == ids:
                    s = new if t["k"] == "d" else s + ": " + new
                elif t["k"] == "r" and ids and t["to"] == [ids] and s == self_name(e, ids):
                    s = new
                    if [x["s"] for x in toks[i + 1:i + 4]] == [":", new, "}"]:
                        skip = 2  # field and variable are spelled alike now: shorthand
                        continue
                elif t["k"] == "sh" and ids and t["to"] == [ids]:
                    s = new if t["fl"] == [ids] else s + ": " + new
                elif t["k"] in ("sh", "psh") and ids and t["fl"] == [ids]:
                    s = new + ": " + s
                at = [len(text), len(text) + len(s)]
                if t["k"] in ("d", "psh"):
                    assert t["id"] not in self.decls, t["id"]
                    self.decls[t["id"]] = [path, at]
                    self.name[t["id"]] = s
                if t["k"] == "r":
                    self.refs.append((path, at, s, t["to"]))
                elif t["k"] in ("sh", "psh"):
                    self.short.append((path, at, s, [t["id"]] if t["k"] == "psh" else t["to"], t["fl"], t["k"] == "psh"))
                if "off" in t:
                    self.offers.append((path, at, s, t["off"], t.get("imp")))
                text += s + ("\n" if s[-1] in ";{}" else " ")
            self.files[path] = text

    def unresolved(self, e):
        """Per file, which names are reported: of each path the first which leads to none or several, unless that is not said."""
        out = {}
        for path, toks in zip(PATHS, e["files"]):
            at, w, lost, group = 0, {}, False, False
            for i, t in enumerate(toks):
                s, k = t["s"], t["k"]
                place = (at, at + len(s))
                at += len(s) + 1
                before = toks[i - 1]["s"] if i else ""
                if k == "use":
                    group = False
                elif s == "{" and before == "::":
                    group = lost  # the items of a group belong to the path before it
                elif k == "sh":
                    w[place] = len(t["to"]) + len(t["fl"]) == 0 if len(t["to"]) < 2 else None
                elif k == "psh":
                    w[place] = False
                elif k == "r" and (before == "." or s[0] == "'"):
                    w[place] = False if t["to"] else None
                elif k == "r":
                    lost = group and before in ("{", ",") or lost and before == "::" and toks[i - 2]["k"] == "r"
                    w[place] = len(t["to"]) != 1 and not lost
                    lost = lost or w[place]
                if s == ";":
                    group = False
            out[path] = w
        return out

    def places(self, ids):
        return sorted([self.decls[i] for i in set(ids)], key=str_of)


def str_of(x):
    import json
    return json.dumps(x, separators=(",", ":"))


NAMES = {}


def self_name(e, ids):
    if NAMES.get("of") is not e:
        NAMES.clear()
        NAMES.update(of=e, names={t["id"]: t["s"] for f in e["files"] for t in f if t["k"] in ("d", "psh")})
    return NAMES["names"][ids]


def programs(ctx, num, workers=8, cfg=None):
    r = ctx.tlc("Names", cfg, simulate=num, depth=600, workers=workers, timeout=800)
    return list({str_of(e): e for e in r.emits if "files" in e}.values())


def run(ctx):
    h = ctx.build("h-ide")
    es = programs(ctx, 6000 if ctx.thorough else 400)
    cases, exp, told = [], [], []
    n = 0
    for e in es:
        p = Program(e)
        qs, want = [], []
        told.append((p.unresolved(e), [f for f in PATHS if f in p.files]))
        for path, at, s, to in p.refs:
            qs.append({"q": "goto", "f": path, "o": at[0] + n % len(s)})
            want.append(p.places(to))
            n += 1
        for path, at, s, to, fl, psh in p.short:
            qs.append({"q": "goto", "f": path, "o": at[0]})
            want.append(p.places(fl or to) if psh else p.places(to + fl))
        cases.append({"files": p.files, "queries": qs + [{"q": "diags", "f": f} for f in told[-1][1]]})
        exp.append([want])
    got = ctx.run_bin(h, cases, shards=8)
    report(ctx, cases, exp, got)
    reports(ctx, cases, told, got)
    ctx.notes.append("%d programs, %d names" % (len(cases), sum(len(c["queries"]) for c in cases)))
    ctx.sample({"program": cases[0]["files"], "question": cases[0]["queries"][0], "answer": exp[0][0][0]})


def report(ctx, cases, exp, got):
    for c, e, g in zip(cases, exp, got):
        if isinstance(g, dict):
            ctx.fail("the harness ended: %s" % g, c)
            continue
        for q, w, a in zip(c["queries"], e[0], g[0]):
            ctx.traces += 1
            if w != (dedup(a) if q["q"] == "goto" else a):
                text = c["files"][q["f"]]
                o = q["o"]
                show = lambda l: [x if isinstance(x, str) else (x[0], x[1][0], around(c["files"].get(x[0], ""), x[1][0])) for x in l] if isinstance(l, list) else l
                ctx.fail("%s at %s %d %r: the specification says %s, the code %s" % (q["q"], q["f"], o, around(text, o), show(w), show(a)),
                         {"case": {"files": c["files"], "queries": [q]}, "expected": w, "actual": a})


def reports(ctx, cases, told, got):
    """Unresolved references: exactly the names which lead to none (or to several) are reported."""
    for c, (w, fs), g in zip(cases, told, got):
        if isinstance(g, dict):
            continue
        for f, a in zip(fs, g[0][-len(fs):]):
            ctx.traces += 1
            where = {"case": {"files": c["files"], "queries": [{"q": "diags", "f": f}]}}
            if isinstance(a, dict):
                ctx.fail("diagnostics of %s: %s" % (f, a), where)
                continue
            said = {tuple(d[1]) for d in a if d[0] == "unresolved-reference"}
            text = c["files"][f]
            for at in sorted(said - {x for x, v in w[f].items() if v is None} ^ {x for x, v in w[f].items() if v}):
                ctx.fail("unresolved reference in %s %d %r: %s" % (f, at[0], around(text, at[0]), "reported, but it leads somewhere (or is no name)" if at in said else "not reported"), where)
                break


def dedup(a):
    return [x for i, x in enumerate(a) if i == 0 or a[i - 1] != x] if isinstance(a, list) else a


def around(t, o):
    return t[max(0, o - 40):o] + "<>" + t[o:o + 40]
