"""C21: what can be written in a shorter way, or is never used, is reported, and the fix gives the program which Types.tla says.

Types.tla writes well-typed programs and says about them where there is a shorter way to write something, what the program
is after that, and which variable every name stands for.  So the warnings of a program are known, and so is what it
becomes when a fix is applied: the same tokens (parentheses aside) with the same types, and no errors."""
import random
import re

from checks import c16
from checks.c10 import str_of

F = "P/sources/m.move"
CODES = {"meth": ("replace-with-method-call", "Can be replaced with method call"),
         "index": ("replace-with-index-expr", "Can be replaced with index expr"),
         "res": ("replace-with-resource-index-expr", "Replace with resource index expr"),
         "comp": ("replace-with-compound-expr", "Can be replaced with compound assignment"),
         "cast": ("redundant-cast", "No cast needed"),
         "lit": ("lit-field-init-shorthand", "Expression can be simplified"),
         "pat": ("pat-field-init-shorthand", "Expression can be simplified"),
         "turbo": ("redundant-coloncolon", "`::` in method type arguments is deprecated")}


def mark(e):
    return e[0][0] if isinstance(e[0], list) else ""


def expected(p):
    """The warnings of the body: (code, range, message, how the tokens of the fixed program follow from the events)."""
    ev, res, open_ = p.events, [], []
    end = lambda i: ev[i][1] + len(ev[i][2])
    words = [i for i, e in enumerate(ev) if e[2] is not None and mark(e) != "+"]
    match, stack = {}, []
    for i, e in enumerate(ev):
        if mark(e) == "~":
            stack.append(i)
        elif mark(e) == "~~":
            match[stack.pop()] = i
    indexed = {operand(ev, i) for i in match if ev[i][0][2] == "index"}
    for i, j in match.items():
        kind, ident = ev[i][0][2], ev[i][0][1]
        inner = [k for k in words if i < k < j]
        at = ev[inner[0]][1], end(inner[-1])
        if kind == "lit":
            # the value is the variable of this name, and nothing else
            if len(inner) != 3 or ev[inner[0]][2] != ev[inner[2]][2]:
                continue
            fix = set(inner[1:]), ()
        elif kind == "index":
            # the operand is the call of vector::borrow itself
            k = operand(ev, i)
            if k is None:
                continue
            other = tuple(ev[k][0][1])
            fix = fixed(ev, i, j, {tuple(ident), other})
        else:
            fix = fixed(ev, i, j, {tuple(ident)})
        if kind == "meth" and i - 1 in indexed:
            continue
        if kind == "res":
            k = j + 1
            while mark(ev[k]) == ">":
                k += 1
            if ev[k][2] == ".":
                fix = fix[0], tuple(x for x in fix[1] if ev[x][2][0] != "&")
        res.append(CODES[kind][:1] + (at, CODES[kind][1], fix, None))
    used = {tuple(e[0][-1]) for e in ev if mark(e) in ("u", "-u")}
    for i, e in enumerate(ev):
        if mark(e) == "b" and tuple(e[0][1]) not in used:
            how = e[0][3] if len(e[0]) > 3 else ""
            res.append(("unused-variable", (e[1], end(i)), "Unused %s '%s'" % ("parameter" if how == "param" else "variable", e[2]), (set(), ()),
                        (i, (e[2] + ":" if how == "short" else "") + "_" + e[2])))
    head = p.text[:p.start]
    sig = head.rindex("fun body")
    for n, ident in p.params:
        if tuple(ident) not in used:
            at = sig + re.search(r"[(,] ?(%s):" % n, head[sig:]).start(1)
            res.append(("unused-variable", (at, at + len(n)), "Unused parameter '%s'" % n, (set(), ()), (at, "_" + n)))
    return res


def operand(ev, i):
    """Where the operand of `*` begins, if it is a call of vector::borrow itself."""
    k = next(k for k in range(i + 1, len(ev)) if ev[k][2] is not None)
    return k + 2 if mark(ev[k + 1]) == "<" and mark(ev[k + 2]) == "v" else None


def fixed(ev, i, j, ids):
    """What goes and what comes: the numbers of the tokens."""
    gone, come = set(), []
    for k in range(i, j):
        m = mark(ev[k])
        if m in ("-", "-u") and any(tuple(x) in ids for x in ev[k][0][1]):
            gone.add(k)
        elif m == "+" and tuple(ev[k][0][1]) in ids:
            come.append(k)
        elif m == "^" and any(tuple(x) in ids for x in ev[k][0][1]):
            # a borrow as the first argument goes
            q = first(ev, k + 1)
            if ev[q][2].strip() in ("&", "&mut"):
                gone.add(q)
    return gone, tuple(come)


def first(ev, k):
    while ev[k][2] is None or mark(ev[k]) == "+":
        k += 1
    return k


BLANK = re.compile(r"[\s()]")


def bare(text, start=0):
    """The characters which count, and where they are."""
    at = [i for i in range(start, len(text)) if not BLANK.match(text[i])]
    return "".join(text[i] for i in at), at


def after(p, fix, name):
    """The characters of the body after the fix, and the expressions of it with their types."""
    gone, come = fix
    out, regions, opened = [], [], []
    for i, e in enumerate(p.events):
        m = mark(e)
        if m == "<":
            opened.append((len(out), e[0][1], i))
        elif m == ">":
            at, t, k = opened.pop()
            regions.append((at, len(out), c16.shown(t), k, i))
        elif e[2] is not None and (m != "+" or i in come) and i not in gone:
            word = name[1] if name and isinstance(name[0], int) and name[0] == i else e[2]
            out += [c for c in word if not BLANK.match(c)]
    return "".join(out), regions


def run(ctx):
    h = ctx.build("h-ide")
    r = ctx.tlc("Types", simulate=16000 if ctx.thorough else 1200, depth=20000, workers=8, timeout=800)
    es = list({str_of(e): e for e in r.emits if "out" in e}.values())
    ps = [p for p in (c16.Program(e, i % 2) for i, e in enumerate(es)) if p.bad is None]
    got = ctx.run_bin(h, [{"files": p.files, "queries": [{"q": "diags", "f": F}]} for p in ps], shards=8)
    rng, later, counts = random.Random(ctx.seed), [], {}
    for p, g in zip(ps, got):
        case = {"files": p.files, "queries": [{"q": "diags", "f": F}]}
        if isinstance(g, dict):
            ctx.fail("the harness ended: %s" % g, case)
            continue
        ctx.traces += 1
        later += judge(ctx, p, case, g[0][0], rng, counts)
    cases = [{"files": {**p.files, F: text}, "queries": [{"q": "errs", "f": F}, {"q": "types", "f": F}]} for p, text, _, _ in later]
    for (p, text, w, fix), c, g in zip(later, cases, ctx.run_bin(h, cases, shards=8)):
        if isinstance(g, dict):
            ctx.fail("the harness ended: %s" % g, c)
            continue
        typed(ctx, p, c, text, w, g[0])
    ctx.notes.append("%d programs; reported: %s; %d fixes applied" % (len(ps), ", ".join("%s %d" % x for x in sorted(counts.items())), len(later)))


def judge(ctx, p, case, diags, rng, counts):
    say = lambda what, exp, act: ctx.fail(what, {"case": case, "expected": exp, "actual": act})
    if isinstance(diags, dict):
        say("the question panics: %s" % diags.get("panic"), None, diags)
        return []
    sig = p.text[:p.start].rindex("fun body")
    want = {(w[0], tuple(w[1]), w[2]): w for w in expected(p)}
    have = {(d[0], tuple(d[1]), d[2]): d for d in diags if d[1][0] >= sig}
    show = lambda k: "%s at %r (%s)" % (k[0], p.text[k[1][0]:k[1][1]][:150], k[2])
    for k in sorted(want.keys() - have.keys())[:1]:
        say("not reported: " + show(k), list(k), sorted(have))
        return []
    for k in sorted(have.keys() - want.keys())[:1]:
        say("reported without reason: " + show(k), sorted(want), list(k))
        return []
    res = []
    for k, w in want.items():
        counts[k[0]] = counts.get(k[0], 0) + 1
        fixes = have[k][3]
        if len(fixes) != 1 or list(fixes[0][2]) != [F]:
            say("one fix of this file is expected for " + show(k), None, fixes)
            return []
        text = fixes[0][2][F]
        head = p.text[:p.start]
        name = w[4]
        if name and name[0] < p.start and k[1][0] < p.start:
            head, name = head[:name[0]] + name[1] + head[k[1][1]:], None
        chars, regions = after(p, w[3], name)
        exp = bare(head)[0] + chars + "}"
        act = bare(text)[0]
        if exp != act:
            i = next((i for i, (a, b) in enumerate(zip(exp, act)) if a != b), min(len(exp), len(act)))
            say("the fix of %s should give %r, not %r" % (show(k), exp[max(0, i - 20):i + 60], act[max(0, i - 20):i + 60]), exp, act)
            return []
        res.append((p, text, (show(k), len(bare(head)[0]), regions, w, k), None))
    rng.shuffle(res)
    return sorted(res, key=lambda x: x[2][3][0] == "unused-variable")[:3]


def typed(ctx, p, c, text, w, g):
    what, off, regions, want, key = w
    say = lambda what, exp, act: ctx.fail(what, {"case": c, "expected": exp, "actual": act})
    for a in g:
        if isinstance(a, dict):
            say("the question panics: %s" % a.get("panic"), None, a)
            return
    errors = [(d["code"], text[d["range"][0]:d["range"][1]][:80], d["message"]) for d in g[0] if d["severity"] == "Error"]
    if errors:
        say("after the fix of %s there is an error: %s" % (what, errors[0]), None, errors)
        return
    _, at = bare(text)
    place = {x: i for i, x in enumerate(at)}
    known = {}
    for (a, b), t in g[1]:
        inside = [place[x] for x in range(a, b) if x in place]
        if inside:
            known.setdefault((inside[0], inside[-1] + 1), []).append(t)
    gone, come = want[3]
    ev = p.events
    lo, hi = key[1]
    for a, b, t, i, j in regions:
        mine = [q for q in range(i, j) if ev[q][2] is not None and mark(ev[q]) != "+"]
        if not mine or all(q in gone for q in mine) or a == b:
            continue
        # the borrow which has gone, and the expression which has become another one
        if mine[0] in gone and ev[mine[0]][2].strip() in ("&", "&mut"):
            continue
        if gone and ev[mine[0]][1] == lo and ev[mine[-1]][1] + len(ev[mine[-1]][2]) == hi and want[0] == CODES["res"][0]:
            continue
        if want[0] == CODES["index"][0] and mine[0] == first(ev, next(q for q, e in enumerate(ev) if e[1] == lo and e[2] == "*") + 1) and ev[mine[-1]][1] + len(ev[mine[-1]][2]) == hi:
            continue
        ts = known.get((off + a, off + b), [])
        if t not in ts and not (text[at[off + a]] == "{" and ts == [None]):
            say("after the fix of %s the type of %r should be %s, not %s" % (what, text[at[off + a]:at[off + b - 1] + 1][:120], t, ts), t, ts)
            return
