"""C11: usages of a declaration are the places which lead to it, and renaming it changes these and nothing else (Names.tla)."""
import random
from checks import c10


def spelled(p, ids):
    """Where the declaration is used under its own name."""
    name = p.name[ids]
    out = [[f, at] for f, at, s, to in p.refs if to == [ids] and s == name]
    out += [[f, at] for f, at, s, to, fl, psh in p.short if (not psh and to == [ids]) or fl == [ids]]
    return sorted(out, key=c10.str_of)


def run(ctx):
    h = ctx.build("h-ide")
    rng = random.Random(ctx.seed)
    es = c10.programs(ctx, 2000 if ctx.thorough else 80)
    cases, exp = [], []
    for e in es:
        p = c10.Program(e)
        qs, want = [], []
        for ids, (f, at) in p.decls.items():
            if p.name[ids][0] == "'":
                continue  # labels are not looked for
            used = spelled(p, ids)
            qs.append({"q": "refs", "f": f, "o": at[0]})
            want.append({"decl": [f, at], "refs": used})
            if rng.random() < .4:
                qs.append({"q": "rename", "f": f, "o": at[0], "to": new_name(p, ids)})
                want.append(renamed(e, p, ids))
            if ids.count(".") > 1 and p.name[ids] in ("a", "f", "g") and rng.random() < .6:
                # to the name of a variable it may be given
                to = rng.choice("bbcd")
                qs.append({"q": "rename", "f": f, "o": at[0], "to": to})
                want.append(renamed(e, p, ids, to))
            if used and rng.random() < .5:
                g, b = rng.choice(used)
                short = [x for x in p.short if x[0] == g and x[1] == b]
                if not short:
                    qs.append({"q": "refs", "f": g, "o": b[0]})
                    want.append({"decl": [f, at], "refs": used})
                if not short or not short[0][5] and (short[0][3] == [ids] or not short[0][3] or short[0][3] == short[0][4]):
                    qs.append({"q": "rename", "f": g, "o": b[0], "to": new_name(p, ids)})
                    want.append(renamed(e, p, ids))
        cases.append({"files": p.files, "queries": qs})
        exp.append([want])
    got = ctx.run_bin(h, cases, shards=8)
    c10.report(ctx, cases, exp, got)
    ctx.notes.append("%d programs, %d questions" % (len(cases), sum(len(c["queries"]) for c in cases)))
    ctx.sample({"question": cases[0]["queries"][0], "answer": exp[0][0][0]})


def new_name(p, ids):
    return "Fresh" if p.name[ids][0].isupper() else "fresh"


def renamed(e, p, ids, to=None):
    q = c10.Program(e, ids, to or new_name(p, ids))
    return {"texts": {f: t for f, t in q.files.items() if t != p.files[f]}}
