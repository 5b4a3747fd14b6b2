"""C08: any text at all gets a lossless tree whose tokens are the ones Lexer.tla cuts it into."""
import random
from concurrent.futures import ThreadPoolExecutor

from checks import c09

CH = {"SP": " ", "TAB": "\t", "NL": "\n", "CR": "\r", "DQ": '"', "BS": "\\", "PCT": "%", "U2": "я", "U3": "☃", "U4": "🦀", "CM": "\u0301"}
FINE = {"whole": True, "tiled": True, "errs_in": True}


def text(s):
    return "".join(CH.get(c, c) for c in s)


def leaves(s, toks):
    out, i = [], 0
    for k, n in toks:
        out.append([k, text(s[i:i + n])])
        i += n
    return out


def lexing(ctx, h):
    deep = ctx.thorough
    sets = {"comments": 7 if deep else 6, "clusters": 5 if deep else 4, "numbers": 6 if deep else 5,
            "strings": 6 if deep else 5, "puncts": 4 if deep else 3}
    jobs = [("Lexer", None, dict(N=n, ALPHABET=a, RANDOM=0), {}) for a, n in sets.items()]
    jobs.append(("Lexer", None, dict(N=16, ALPHABET="mixed", RANDOM=1), dict(simulate=4000 if deep else 700, depth=17, workers=1)))
    with ThreadPoolExecutor(3) as ex:
        rs = list(ex.map(lambda j: ctx.tlc(j[0], env=j[2], timeout=800, **j[3]), jobs))
    for j, r in zip(jobs, rs):
        cases = [{"s": text(e["s"]), "leaves": True, "twice": i % 16 == 0} for i, e in enumerate(r.emits)]
        exp = [leaves(e["s"], e["t"]) for e in r.emits]
        got = ctx.run_bin(h, cases, shards=8)
        act = [g.get("leaves", g) if all(g.get(k) for k in FINE) and g.get("same", True) else {k: g.get(k) for k in g if k != "leaves"} for g in got]
        ctx.compare(cases, exp, act, "cutting a text into tokens")
        ctx.notes.append("%s: %d texts" % (j[2]["ALPHABET"], len(cases)))
        ctx.sample({"text": cases[-1]["s"], "spec": exp[-1]})


OPEN, CLOSE = dict(zip("([{", ")]}")), set(")]}")
JUNK = ["'", '"', "b\"", "/*", "*/", "//", "`", "\\", "@", "#", "$", "0x", "я", "🦀", "{", "}", "(", ")", "[", "]", ";", ",", "<", ">", "::", ":", "=>", "==>", "|", "||", "..",
        ".", "&", "!", "=", "-", "fun", "struct", "enum", "module", "spec", "use", "let", "if", "else", "while", "for", "match", "has", "as", "is", "forall", "apply", "proof", "lemma",
        "include", "pragma", "public", "native", "friend", "const", "vector", "copy", "move", "mut", "_", "1", "x", "'a", "abort", "return", "break", "schema", "script", "address"]


def balanced(toks):
    st = []
    for t in toks:
        if t in OPEN:
            st.append(OPEN[t])
        elif t in CLOSE and (not st or st.pop() != t):
            return False
    return not st


def damage(toks, rng):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        i = rng.randrange(len(toks)) if toks else 0
        how = rng.randrange(7)
        if how == 0:
            del toks[i:i + 1]
        elif how == 1:
            toks[i:i] = toks[i:i + 1]
        elif how == 2:
            j = rng.randrange(len(toks)) if toks else 0
            toks[i:i + 1], toks[j:j + 1] = toks[j:j + 1], toks[i:i + 1]
        elif how == 3:
            toks[i:i] = [rng.choice(JUNK)]
        elif how == 4:
            toks[i:i + 1] = [rng.choice(JUNK)]
        elif how == 5:
            del toks[i:i + rng.randrange(1, 8)]
        else:
            del toks[i:]
    return toks


MARKER = "Marker must be either completed"
INCLUDE = "module 0x1::m { spec f { include a == b && T; } }"


def include_and(ctx, h, texts):
    """Which of the texts fail for the listed reason: an `include` whose part before `&&` is not a schema."""
    without = [{"s": t.replace("include", "assume")} for t in texts] + [{"s": t.replace("&&", ",")} for t in texts]
    got = ctx.run_bin(h, without, shards=8) if texts else []
    n = len(texts)
    return {t for i, t in enumerate(texts) if "panic" not in got[i] and "panic" not in got[n + i] and "include" in t and "&&" in t}


def damaged(ctx, h):
    """Programs of Grammar.tla after typing mistakes: the tree stays lossless, and lost brackets do not go unnoticed."""
    rng = random.Random(ctx.seed * 31 + 7)
    cases = []
    for depth, budget, num in ((6, 30, 8000),) if not ctx.thorough else ((6, 30, 90000), (9, 90, 24000)):
        r = ctx.tlc("Grammar", env=dict(MODE="file", DEPTH=depth, BUDGET=budget), simulate=num, depth=4000, timeout=700, workers=8)
        for e in r.emits:
            toks = [c09.CLASS[s[1:]](rng) if s[1:] in c09.CLASS else s[1:] for s in e["o"] if s[0] in "=~"]
            for k in range(3):
                t = damage(toks, rng)
                # comments and strings hide brackets, and what follows an unclosed one
                plain = not any(c in x for x in t for c in ('"', "/*", "*/", "//"))
                cases.append(({"s": rng.choice([" ", " ", "\n", ""]).join(t) if plain and k else " ".join(t), "twice": k == 0}, plain and not balanced(t)))
    cases.append(({"s": INCLUDE, "twice": False}, False))
    got = ctx.run_bin(h, [c for c, _ in cases], shards=8)
    exp, act = [], []
    known = include_and(ctx, h, [c["s"] for (c, _), g in zip(cases, got) if MARKER in g.get("panic", "")])
    for (c, bad), g in zip(cases, got):
        ok = all(g.get(k) for k in FINE) and g.get("same", True)
        exp.append({"lossless": True, "noticed": True})
        act.append({"lossless": bool(ok), "noticed": not bad or bool(g.get("n")), **({} if ok else {"got": g})})
    ctx.compare([c for c, _ in cases], exp, act, "a damaged program", key=lambda c: "include-and" if c["s"] in known else None)
    ctx.notes.append("damaged programs: %d, with unbalanced brackets %d" % (len(cases), sum(b for _, b in cases)))


def run(ctx):
    h = ctx.build("h-syntax")
    lexing(ctx, h)
    damaged(ctx, h)
