"""C17: every question about a text under somebody's hands gets a sound answer, and undoing brings the old ones back (Typing.tla)."""
import json, os, random, re
from checks import c09, c10, c16

TOKEN = re.compile(r"\s+|[A-Za-z_0-9]+|\"[^\"\n]*\"|::|=>|.", re.S)
JUNK = ["..", "::", "<", ">", "(", ")", "{", "}", "let ", "fun ", "|", "&", "&mut ", "#[", "'a ", "spec ", "match ", "=>", ",", ".", "[", "]", "*",
        "==>", "use ", "module ", "script ", "struct ", "enum ", "const ", "friend ", "public ", "if ", "else ", "while ", "for ", "loop ", "return ", "abort ",
        "as ", "is ", "has ", "forall ", "choose ", "include ", "apply ", "schema ", "invariant ", "pragma ", "ensures ", "old(", "acquires ", "move ", "copy ",
        "inline ", "native ", "\"", "/*", "//", "\n", "б☃", "0x", "self", "Self", "@"]
ABOUT_FILE = ("errs", "diags", "types", "symbols", "hl", "organize", "inlay", "runnables", "annotations", "tree")
ABOUT_PLACE = ("goto", "refs", "rename", "prepare", "type", "calltype", "related", "select", "hover", "sighelp", "spec", "complete", "hlrange")
SPECS = """module 0x5::sp {
    use std::vector;
    // a ☃word, «quoted» комментарий (два), b"x☃y"
    struct R has key { x: u64, b: bool }
    enum E has drop { A { x: u8 }, B(u8, bool), C }
    const K: u64 = 3;
    public fun f(self: &R, v: vector<u8>): u64 acquires R { let (a, b) = (1u64, v); self.x + a + vector::length(&b) }
    #[test(a = @0x1)] fun t(a: signer) { for (i in 0..10) { let R { x, b: _ } = R[@0x1]; x; }; 'l: loop { break 'l } }
    fun g(e: E, h: |u64, bool|u64): u64 { match (e) { E::A { x } if x > 1 => h(1, true), B(_, ..) => 2, _ => K } }
    /// doc ☃of a `spec` «n»
    spec module { /* 🦀crab ☃☃two */ pragma verify = true; fun sf(n: num): num { n + 1 } use std::vector as w; invariant forall i: u64, a: address: i > 0 ==> exists<R>(a); }
    spec R { invariant x > 0; b: num; }
    spec f { let y = self.x; let post z = result; include S1 { p: y }; ensures z == old(global<R>(@0x1).x); aborts_if exists j in 0..3: j == y with 3; modifies global<R>(@0x1); }
    spec schema S1<T> { p: u64; requires p > 0; include p == 1 ==> S2; local q: T; }
    spec schema S2 { }
    spec fun sg(r: R): bool { R { x: 1, b: true } == r && choose k: u64 where k > 1 == 2 }
    spec g { apply S2 to *<T> except g*; assume [abstract] sf(1) == 2; assert update_field(e, x, 1) == e; while (true) { invariant true; } }
}
"""


def shapes(q, a, held, f):
    """What is unsound about an answer, given all texts (as bytes), if anything."""
    if isinstance(a, dict) and "panic" in a:
        yield "panicked: %s" % a["panic"]
        return
    n, o, k = len(held[f]), q.get("o"), q["q"]

    def inside(r, t=held[f]):
        # and not in the middle of a character
        return r[0] <= r[1] <= len(t) and not any(i < len(t) and t[i] & 0xc0 == 0x80 for i in r)

    mine = {"errs": lambda x: [x["range"]], "diags": lambda x: [x[1]] + [y[1] for y in x[3]], "types": lambda x: [x[0]], "symbols": lambda x: [x[1], x[2]],
            "hl": lambda x: [x[0]], "hlrange": lambda x: [x[0]], "inlay": lambda x: [x[0]], "runnables": lambda x: [x[1]], "annotations": lambda x: [x[0]],
            "related": lambda x: [x], "complete": lambda x: [x["range"]] + [e[0] for e in x["edits"]]}
    if a is None:
        return
    if k in mine:
        bad = [r for x in a for r in mine[k](x) if not inside(r)]
        if bad:
            yield "places outside of the text: %s" % bad[:3]
    if k in ("goto", "spec", "refs"):
        for p, r in (a["refs"] + ([a["decl"]] if a["decl"] else []) if k == "refs" else a):
            if p in held and not inside(r, held[p]):
                yield "a place outside of the text of %s: %s" % (p, r)
    if k in ("hl", "hlrange"):
        for x, y in zip(a, a[1:]):
            if y[0][0] < x[0][1]:
                yield "highlighted places overlap or are out of order: %s %s" % (x, y)
                break
        if any(x[0][0] == x[0][1] for x in a):
            yield "an empty place is highlighted"
    if k == "symbols":
        for i, x in enumerate(a):
            if not (x[1][0] <= x[2][0] and x[2][1] <= x[1][1]):
                yield "the name of a symbol lies outside of the symbol: %s" % x
            if x[3] is not None and not (x[3] < i and a[x[3]][1][0] <= x[1][0] and x[1][1] <= a[x[3]][1][1]):
                yield "a symbol lies outside of its parent: %s %s" % (x, a[x[3]])
    if k == "select" and not (a[0] <= o and q["e"] <= a[1] and inside(a)):
        yield "selection %s does not extend %s" % (a, o)
    if k == "prepare" and isinstance(a, list) and not (a[0] <= o <= a[1] and inside(a)):
        yield "what would be renamed at %s is elsewhere: %s" % (o, a)
    if k == "hover" and not (a[0][0] <= o <= a[0][1] and inside(a[0])):
        yield "hover at %s is about %s" % (o, a[0])
    if k == "complete":
        for x in a:
            if not (x["range"][0] <= o <= x["range"][1]):
                yield "completion %s at %s replaces %s" % (x["label"], o, x["range"])
                break


def run(ctx):
    h = ctx.build("h-ide")
    rng = random.Random(ctx.seed * 31 + 7)
    texts = []  # files, which of them
    th = ctx.thorough
    es = [e for e in ctx.tlc("Types", simulate=600 if th else 60, depth=20000, workers=8, timeout=300).emits if "out" in e]
    texts += [(c16.Program(e, i % 2).files, "P/sources/m.move") for i, e in enumerate(es)]
    for e in c10.programs(ctx, 200 if th else 24):
        fs = c10.Program(e).files
        texts.append((fs, rng.choice(sorted(f for f in fs if f.endswith(".move")))))
    r = ctx.tlc("Grammar", env=dict(MODE="file", DEPTH=9, BUDGET=90), simulate=400 if th else 40, depth=4000, timeout=300, workers=8)
    texts += [({**c16.TOML, "P/sources/g.move": c09.render(e["o"], rng)[0]}, "P/sources/g.move") for e in r.emits]
    texts += [({**c16.TOML, "P/sources/sp.move": SPECS, "P/sources/vector.move": c16.VECTOR}, "P/sources/sp.move")] * (len(texts) // 4)
    texts = [(fs, f, t) for fs, f in texts for t in [TOKEN.findall(fs[f])] if t]
    sizes = os.path.join(ctx.work, "sizes.json")
    json.dump([len(t) for _, _, t in texts], open(sizes, "w"))
    ctx.tlc("Typing", cfg="TypingMC.cfg", timeout=200)
    logs = list({c10.str_of(e): e for e in ctx.tlc("Typing", env=dict(SIZES=sizes), simulate=2200 if th else 280, depth=30, workers=8, timeout=500).emits}.values())
    cases = []
    for e in logs:
        fs, f, toks = texts[e["i"] - 1]
        now = list(toks)

        def questions(first):
            s = "".join(now)
            ends = [0]
            for t in now:
                ends.append(ends[-1] + len(t.encode()))
            qs = [{"q": q, "f": f} for q in ABOUT_FILE]
            qs += [{"q": "diags", "f": x} for x in sorted(fs) if x.endswith(".move") and x != f]
            at = {min(len(now), max(0, j + rng.choice([-2, -1, 0, 0, 1, 2, 3]))) for j in places[-2:]} | {rng.randrange(len(now) + 1) for _ in range(3)}
            for j in sorted(at):
                o = ends[j]
                qs += [{"q": q, "f": f, "o": o} for q in ABOUT_PLACE]
            for q in qs:
                if q["q"] == "rename":
                    q["to"] = "zz"
                if q["q"] in ("hlrange", "select"):
                    q["e"] = rng.choice([x for x in ends if x >= q["o"]][:40]) if rng.random() < .6 else q["o"]
                if q["q"] == "complete":
                    q["fly"] = rng.random() < .5
                    q["snip"] = rng.random() < .5
            return qs

        places = [e["log"][0]["at"] - 1]
        first = questions(True)
        half = len(e["log"]) // 2
        steps, sz = [], ["".join(now).encode()]
        for j, x in enumerate(e["log"]):
            new = [toks[w - 1] if w > 0 else JUNK[-w - 1] for w in x["new"]]
            now[x["at"] - 1:x["at"] - 1 + x["len"]] = new
            places.append(x["at"] - 1)
            last = j + 1 == len(e["log"])
            steps.append({"change": {f: "".join(now)}, "queries": first if last else questions(False) if j < half else []})
            sz.append("".join(now).encode())
        if now != toks:
            raise Exception("the log does not lead back: %s" % e)
        cases.append(({"files": fs, "queries": first, "steps": steps}, f, sz))
    got = ctx.run_bin(h, [c for c, _, _ in cases], shards=8)
    asked = 0
    for (case, f, sz), g in zip(cases, got):
        if isinstance(g, dict):
            ctx.fail("the harness ended: %s" % str(g)[:300], case)
            continue
        told = False
        base = {p: t.encode() for p, t in case["files"].items()}
        for k, (a, qs) in enumerate(zip(g, [case["queries"]] + [s["queries"] for s in case["steps"]])):
            base[f] = sz[k]
            asked += len(qs)
            for q, x in zip(qs, a):
                for bad in shapes(q, x, base, q["f"]):
                    if told:
                        break
                    told = True
                    text = case["steps"][k - 1]["change"][f] if k else case["files"][f]
                    key = "include-and" if "include_schema_expr" in bad or "arker" in bad and re.search(r"\binclude\b[^;]*&&", text) else None
                    ctx.fail("%s at %s of a text of %d bytes after %d edits: %s" % (q["q"], q.get("o"), len(sz[k]), k, bad[:300]),
                             {"files": {**case["files"], f: text}, "queries": [q], "whole": case}, key=key)
        if not told:
            for q, x, y in zip(case["queries"], g[0], g[-1]):
                if order(q, x) != order(q, y):
                    ctx.fail("%s at %s, with all %d edits undone: %s, before them: %s" % (q["q"], q.get("o"), len(case["steps"]) // 2, str(y)[:200], str(x)[:200]), case)
                    break
    ctx.traces += asked
    ctx.notes.append("%d texts, %d histories of edits, %d questions" % (len(texts), len(cases), asked))
    if cases:
        ctx.sample({"text": cases[0][0]["steps"][0]["change"][cases[0][1]][:600], "asked": cases[0][0]["queries"][-1]})


def order(q, v):
    from checks import c12
    return c12.order(q, v)
