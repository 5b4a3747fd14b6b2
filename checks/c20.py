"""C20: completion offers exactly what may be written at a place, and what it writes leads there (Names.tla)."""
import re
from checks import c10

KINDS = {"Local": "local", "Field": "local", "GlobalVariableDecl": "local", "TypeParam": "tparam", "Module": "module", "Struct": "struct", "Enum": "enum",
         "EnumVariant": "variant", "Const": "const", "Function": "fun", "Schema": "schema", "Label": "label"}
OURS = {"tuple": "struct", "specfun": "fun"}


def pair(x):
    return x[0], OURS.get(x[1], x[1])


def told(items, place, o, end):
    """What is offered: names with their kinds, in scope and to be imported; and what is wrong with the edits."""
    out, far, bad = [], [], None
    for i in items:
        m = re.fullmatch(r"SymbolKind\((\w+)\)", i["kind"])
        text = i["edits"][0][1] if len(i["edits"]) == 1 else None
        if text is None or i["edits"][0][0] != i["range"] or i["range"] not in ([place, o], [place, end]):
            bad = i
            continue
        if not m or m[1] not in KINDS:
            continue
        name = re.match(r"'?\w*", text)[0]
        if not i["label"].startswith(name) or not (i["lookup"] or i["label"]).startswith(name):
            bad = i
        (far if i["import"] else out).append((name, KINDS[m[1]], i))
    return out, far, bad


def edited(text, edits):
    for r, new in sorted(edits, reverse=True):
        text = text[:r[0]] + new + text[r[1]:]
    return text


def moved(p, edits):
    return p + sum(len(new) - (r[1] - r[0]) for r, new in edits if r[1] <= p)


def run(ctx):
    h = ctx.build("h-ide")
    es = c10.programs(ctx, 3000 if ctx.thorough else 250, cfg="NamesOffers.cfg")
    cases, exp, ps = [], [], []
    n = 0
    ours = {"Self"}  # what is always there (built-in functions, constants) is not
    for e in es:
        p = c10.Program(e)
        ps.append(p)
        qs, want = [], []
        ours |= {t["s"] for f in e["files"] for t in f if t["k"] != "t"} | {t["s"] for f in e["files"] for a, t in zip(f, f[1:]) if a["s"] == "as"}
        for path, at, s, off, imp in p.offers:
            n += 1
            fly = imp is not None and n % 4 == 0
            o = at[1] if fly else at[0] + 1 + n % len(s)
            qs.append({"q": "complete", "f": path, "o": o, "at": at[0], "end": at[1], "snip": n % 3 == 0, "fly": fly})
            want.append((off, imp if fly else []))
        cases.append({"files": p.files, "queries": qs})
        exp.append(want)
    got = ctx.run_bin(h, cases, shards=8)
    taken, then, accepted = [], [], 0
    for p, c, w, g in zip(ps, cases, exp, got):
        if isinstance(g, dict):
            ctx.fail("the harness ended: %s" % g, c)
            continue
        took = 0
        for q, (off, imp), a in zip(c["queries"], w, g[0]):
            ctx.traces += 1
            text = c["files"][q["f"]]
            what = "completion at %s %d %r" % (q["f"], q["o"], c10.around(text, q["o"]))
            where = {"case": {"files": c["files"], "queries": [q]}, "expected": [off, imp], "actual": a}
            if isinstance(a, dict):
                ctx.fail("%s: %s" % (what, a), where)
                continue
            here, far, bad = told(a or [], q["at"], q["o"], q["end"])
            if bad:
                ctx.fail("%s: %r does not replace what is at the cursor" % (what, bad), where)
            want = {pair(x) for x in off}
            offered = {x[:2] for x in here if x[0] in ours}
            if text[:q["at"]].rstrip()[-2:] != "::":
                # variants of the enums around may be offered for the case that such a one is expected
                offered = {x for x in offered if x[1] != "variant"}
            if offered != want:
                ctx.fail("%s: not offered: %s; offered in vain: %s" % (what, sorted(want - offered), sorted(offered - want)), where)
            # what is in scope may be there under another name
            could = {pair(x) for x in imp}
            must = {pair(x) for x in imp if x[3] and x[:3] not in off}
            offered = {x[:2] for x in far if x[0] in ours}
            if not must <= offered <= could:
                ctx.fail("%s: not offered to be imported: %s; in vain: %s" % (what, sorted(must - offered), sorted(offered - could)), where)
            # accept one
            names = {x[0] for x in off} | set(re.findall(r"\w+", " ".join(re.findall(r"\buse [^;]*;", text))))
            ok = [x for x in far if x[0] in ours and x[0] not in names and [y[4] for y in imp if pair(y) == x[:2]] == [True]]
            if ok and took < (12 if ctx.thorough else 6):
                took += 1
                x = ok[n % len(ok)]
                n += 1
                target = [y[2] for y in imp if pair(y) == x[:2]]
                edits = [[[q["at"], q["end"]], x[2]["edits"][0][1].replace("$0", "") + ("::it" if x[1] == "module" else "")]] + x[2]["import"][1]
                files = dict(c["files"])
                files[q["f"]] = edited(text, edits)
                d = p.decls[target[0]]
                there = q["at"] + sum(len(t) - (r[1] - r[0]) for r, t in x[2]["import"][1] if r[1] <= q["at"])
                then.append({"files": files, "queries": [{"q": "goto", "f": q["f"], "o": there}, {"q": "errs", "f": q["f"]}]})
                taken.append((what, x, [[d[0], [moved(v, edits) for v in d[1]] if d[0] == q["f"] else d[1]]], where))
    for (what, x, want, where), c, g in zip(taken, then, ctx.run_bin(h, then, shards=8)):
        ctx.traces += 1
        if isinstance(g, dict) or g[0][0] != want or any(e["code"] == "syntax-error" for e in g[0][1]):
            ctx.fail("%s: after %s is accepted with its import, the name leads to %s instead of %s, errors: %s" % (what, x[:2], g if isinstance(g, dict) else g[0][0], want, g if isinstance(g, dict) else [e for e in g[0][1] if e["code"] == "syntax-error"]),
                     {"case": c, "before": where})
    ctx.notes.append("%d programs, %d places, %d imports" % (len(cases), sum(len(c["queries"]) for c in cases), len(then)))
    ctx.sample({"program": cases[0]["files"], "question": cases[0]["queries"][0], "answer": exp[0][0]})
