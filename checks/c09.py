"""C09: every derivable program parses, with no complaint, to the tree it was derived with (Grammar.tla)."""
import random

CONDS = ["assume", "assert", "requires", "ensures", "decreases", "modifies"]
IDS = ["a", "b1", "x", "y_2", "foo", "Bar", "T", "u8", "long_name_of_a_thing", "_under", "Self", "self", "aa", "Vec", "r2d2", "is_ok", "as_ref", "iffy",
       "module_", "x0"]
# minimal programs keep plain names only
CLASS = {
    "$id": lambda r: r.choice(IDS),
    "$int": lambda r: r.choice(["0", "1", "42", "0xff", "0x1", "1_000", "10u8", "0x1u64", "255u256", "7i64"]),
    "$addr": lambda r: r.choice(["0x1", "0x42", "0xCAFE", "1"]),
    "$bytes": lambda r: r.choice(['b""', 'b"abc"', 'b"a b // c"', 'b"\\"q\\""']),
    "$hex": lambda r: r.choice(['x""', 'x"00"', 'x"C0FFEE"']),
    "$label": lambda r: r.choice(["'a", "'outer", "'l1"]),
    "$idx": lambda r: r.choice(["0", "1", "12"]),
    "$ability": lambda r: r.choice(["copy", "drop", "store", "key"]),
    "$assert": lambda r: r.choice(["assert", "assert_eq", "assert_ne", "debug_assert"]),
    "$behavior": lambda r: r.choice(["requires_of", "aborts_of", "ensures_of", "result_of"]),
    "$cond": lambda r: r.choice(CONDS),
    "$wild": lambda r: r.choice(["*", "foo*", "*bar", "*a*", "foo", "x*y"]),
}
SEPS = [" ", " ", " ", "\n", "\t", "  ", "\n\n    ", " /* c */ ", " // line }\n", " /// doc {\n", " /** d ; */\n", " /* комментарий ☃ /* вложенный */ */ ", " //🦀 `|\n"]


BRACKETS = set("()[]{},;")


def is_word(c):
    return c.isalnum() or c == "_"


def may_touch(a, b, opens_args):
    """Can token b follow token a with nothing in between, and still be the same two tokens?"""
    if any(q in t for t in (a, b) for q in "\"'*"):
        return False
    if is_word(a[-1]) or is_word(b[0]):
        return not (is_word(a[-1]) and is_word(b[0])) and (b != "<" or opens_args)
    return a in BRACKETS or b in BRACKETS or a == b == ">"


def render(o, rng, plain=False):
    """The text of a derivation, with trivia of every kind between its tokens, and the expected tree."""
    out, text, prev, glue = [], [], None, False
    for i, s in enumerate(o):
        if s == "^":
            glue = True
            continue
        if s[0] == "<" or s == ">":
            out.append(s)
            continue
        t = s[1:]
        if t in CLASS:
            t = CLASS[t](rng)
            # how the harness prints it: a token which starts like a word but is not an identifier
            s = ("~" if s[0] == "~" or s in ("=$wild", "=$bytes", "=$hex") and is_word(t[0]) else "=") + t
        if prev is not None and not glue:
            touch = may_touch(prev, t, o[i - 1].startswith("<TYPE"))
            if not (touch and (plain or rng.random() < .6)):
                text.append(" " if plain or rng.random() < .7 else rng.choice(SEPS))
        text.append(t)
        out.append(s)
        prev, glue = t, False
    return "".join(text), out


def check_programs(ctx, h, emits, label, tag, variants=1):
    rng = random.Random(ctx.seed * 7919 + len(emits))
    cases, exp = [], []
    for e in emits:
        for k in range(variants):
            s, want = render(e["o"], rng, plain=k == 0)
            cases.append({"s": s, "tree": True, "twice": k == 1})
            exp.append(want)
    got = ctx.run_bin(h, cases, shards=8)
    act, ok = [], ("whole", "tiled", "errs_in")
    for g in got:
        if all(g.get(k) for k in ok) and g.get("same", True) and g.get("n") == 0:
            act.append(g["tree"])
        else:
            act.append({k: v for k, v in g.items() if k != "leaves"})
    ctx.compare(cases, exp, act, label)
    ctx.notes.append("%s: %d programs" % (tag, len(cases)))
    if cases:
        ctx.sample({"text": cases[-1]["s"], "tree": " ".join(exp[-1])[:400]})
    return cases


def run(ctx):
    h = ctx.build("h-syntax")
    r = ctx.tlc("Grammar", env=dict(MODE="ops", DEPTH=50, BUDGET=4 if not ctx.thorough else 5), timeout=700)
    check_programs(ctx, h, r.emits, "operators", "operators, exhaustively")
    for depth, budget, num in ((5, 25, 9000), (8, 60, 4500)) if not ctx.thorough else ((4, 15, 120000), (6, 40, 120000), (9, 90, 48000), (14, 200, 12000)):
        r = ctx.tlc("Grammar", env=dict(MODE="file", DEPTH=depth, BUDGET=budget), simulate=num, depth=4000, timeout=700, workers=8)
        check_programs(ctx, h, r.emits, "programs", "random programs of depth %d" % depth, variants=2)
