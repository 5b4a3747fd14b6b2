"""C12: what is said of a workspace is a function of the workspace, not of its past (History.tla, texts of Names.tla)."""
import random, re
from checks import c10

FILES = c10.PATHS + ["P/tests/ma.move", "D/sources/ma.spec.move", "M/sources/mx.move", "P/scripts/deep/mb.spec.move"]
DEPS = {"P": [["M"], [], ["M", "U"], ["D"]], "M": [["D"], [], ["P"], ["U", "D"]], "D": [[], [], ["U"], ["M"]], "U": [[], ["D"], [], ["P"]]}
ADDRS = {"P": [("pa", "0x5"), ("pa", "0x5"), ("pa", "0x9"), None], "M": [None, None, ("ma", "0x7"), None],
         "D": [("da", "0x6"), None, ("da", "0x6"), ("da", "0x5")], "U": [None, ("ua", "0x6"), None, None]}
OTHER = {
    5: ["module pa::mt { use pa::ma; use da::mc; fun t(b: ma::S) { ma::a(); ma::b(1); mc::a(b); } }",
        "module 0x5::mt { #[test_only] use 0x5::mb::a; #[test] fun t() { a(); mb::b(); } spec module { a(); } }",
        "#[test_only] module pa::mb { public fun a(b: u8): u8 { b } spec a { ensures result == b; } }"],
    6: ["spec da::mc { spec a { } spec module { c(); } }", "spec da::ma { spec a { } }", "spec da::mc { spec fun extra(x: num): num { x } spec a { requires extra(1) == 1; }"],
    7: ["module 0x7::mx { use 0x6::mc; friend da::mc; fun f() { mc::a(); mc::b(1, 2); let a = mc::c; } }",
        "module ma::mx { public fun f(a: u8) { f(a); f(true); } }", "module 0x7::mx { public fun f(a: u64): u64 { a + }"],
    8: ["spec pa::mb { spec a { ensures b == 1; } spec schema Sc { x: u8; } }", "spec pa::mb { use pa::ma; spec b { ma::a(); } }", "spec 0x5::mb { spec module { invariant forall x: num: x > 0; } }"],
}


def toml(p, v):
    a = ADDRS[p][v - 1]
    return ('[package]\nname = "%s"\nversion = "0.0.0"\n' % p + ("[addresses]\n%s = \"%s\"\n" % a if a else "")
            + "[dependencies]\n" + "".join('%s = { local = "../%s" }\n' % (d, d) for d in DEPS[p][v - 1]))


def run(ctx):
    h = ctx.build("h-ide")
    progs = [c10.Program(e) for e in c10.programs(ctx, 40 if ctx.thorough else 12)]
    r = ctx.tlc("History", simulate=(300 if ctx.thorough else 8), depth=20, workers=8, timeout=300)
    trails = list({c10.str_of(e): e["trail"] for e in r.emits}.values())
    rnd = random.Random(ctx.seed)
    past, fresh, meta = [], {}, []
    for t in trails:
        abc = rnd.sample(progs, 2)
        broken = {f: abc[0].files[f][:int(len(abc[0].files[f]) * rnd.random())] for f in c10.PATHS if f in abc[0].files}

        def text(i, v):
            if v == 0:
                return None
            if i >= 5:
                return OTHER[i][v - 1]
            return (broken if v == 3 else abc[v - 1].files).get(FILES[i])

        def disk(ws):
            w = {p + "/Move.toml": toml(p, v) if v else None for p, v in ws["toml"].items()}
            w.update({f: text(i, ws["file"][i]) for i, f in enumerate(FILES)})
            return {f: c for f, c in w.items() if c is not None}

        steps, now = [], None
        for s in t:
            d = disk(s["ws"])
            means = [m if FILES[i] in d else {"package": ""} for i, m in enumerate(s["means"])]
            # a text which one of the programs lacks is no file
            for m in means:
                for k in ("specs", "sees", "seen"):
                    if k in m:
                        m[k] = sorted(x for x in m[k] if x in d)
            qs = []
            for i, m in enumerate(means):
                if m["package"] == "":
                    continue
                f = FILES[i]
                qs.append({"q": "inputs", "f": f})
                if s["ask"]:
                    qs += [{"q": k, "f": f} for k in ("diags", "hl", "symbols")]
                    names = [x.start() for x in re.finditer(r"[A-Za-z_]\w*", d[f])]
                    for o in rnd.sample(names, min(len(names), 5)):
                        qs += [{"q": k, "f": f, "o": o} for k in ("goto", "refs", "hover", "type", "related")]
            steps.append((d, None if now is None else {f: d.get(f) for f in sorted(set(d) | set(now)) if d.get(f) != now.get(f)}, qs, means))
            now = d
        past.append({"files": steps[0][0], "queries": steps[0][2], "steps": [{"write": w, "queries": q} for _, w, q, _ in steps[1:]]})
        meta.append(steps)
    cases = list(past)
    for steps in meta:
        for d, _, qs, _ in steps[1:]:
            if any(q["q"] != "inputs" for q in qs):
                cases.append({"files": d, "queries": qs})
    got = ctx.run_bin(h, cases, shards=8)
    told, k = got[:len(past)], len(past)
    for case, steps, g in zip(past, meta, told):
        if isinstance(g, dict):
            ctx.fail("the harness ended: %s" % g, case)
            continue
        for i, ((d, w, qs, means), a) in enumerate(zip(steps, g)):
            upto = {"case": {**case, "steps": case["steps"][:i]}}
            for q, x in zip(qs, a):
                ctx.traces += 1
                if q["q"] == "inputs":
                    m = means[FILES.index(q["f"])]
                    want = {"package": m["package"] + "/Move.toml", "specs": m["specs"], "sees": m["sees"], "seen": m["seen"], "missing": sorted(m["missing"]),
                            "addresses": {"std": "0x1", "aptos_std": "0x1", "aptos_framework": "0x1", "aptos_token": "0x1", **dict(m["addresses"])}}
                    if x != want:
                        ctx.fail("project around %s after %d changes: the specification says %s, the code %s" % (q["f"], i, diff(want, x), diff(x, want)), upto)
            if i and any(q["q"] != "inputs" for q in qs):
                f = got[k]
                k += 1
                if isinstance(f, dict):
                    ctx.fail("the harness ended: %s" % f, cases[k - 1])
                    continue
                for q, x, y in zip(qs, a, f[0]):
                    x, y = (order(q, v) for v in (x, y))
                    if x != y:
                        ctx.fail("%s at %s %s after %d changes (the last: %s): %s, of the same files opened afresh: %s" % (q["q"], q["f"], q.get("o"), i, sorted(w), short(x, y), short(y, x)),
                                 {**upto, "question": q, "after": x, "afresh": y})
    ctx.notes.append("%d histories, %d fresh projects" % (len(past), len(cases) - len(past)))
    ctx.sample({"history": [sorted(w or {}) for _, w, _, _ in meta[0]], "question": meta[0][-1][2][0]})


def order(q, v):
    """Neither places of a name nor repairs of one problem come in an order that means anything."""
    if q["q"] == "related" and isinstance(v, list):
        return sorted(v)
    if q["q"] == "diags" and isinstance(v, list):
        told = lambda m: re.sub(r"(resolves to )(.*)\)", lambda x: x[1] + ", ".join(sorted(x[2].split(", "))) + ")", m)
        return sorted((d[:2] + [told(d[2]), sorted(d[3], key=c10.str_of)] for d in v), key=c10.str_of)
    return v


def diff(a, b):
    return {k: v for k, v in a.items() if b.get(k) != v} if isinstance(a, dict) and isinstance(b, dict) else a


def short(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return [x for x in a if x not in b][:2]
    return a
