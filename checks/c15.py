"""C15: unused imports are those nobody leads through; repairing imports leaves every name leading where it did (Names.tla)."""
from checks import c10

RULES = ("unused-import", "too-broad-scoped-import")


class Use:
    """A `use` statement of a program: where it is, and the imports it is made of."""

    def __init__(self, prog, path, toks, spans, i):
        self.path, self.uid, self.sc, self.parts = path, toks[i]["uid"], toks[i]["sc"], []
        self.first = i - 1 if i and toks[i - 1]["s"] == "#[test_only]" else i
        self.attr = self.first < i
        j = next(j for j in range(i, len(toks)) if toks[j]["s"] == ";")
        self.last = j
        self.span = [spans[self.first][0], spans[j][1]]
        body = list(range(i + 1, j))
        self.mod = (toks[i + 1]["s"], toks[i + 3]["s"])
        rest = body[3:]
        if rest and toks[rest[0]]["s"] == "::":
            rest = rest[1:]
            self.group = toks[rest[0]]["s"] == "{"
            if self.group:
                rest = rest[1:-1]
            specks, cur = [], []
            for k in rest + [None]:
                if k is None or toks[k]["s"] == ",":
                    specks.append(cur)
                    cur = []
                else:
                    cur.append(k)
        else:
            self.group, specks = False, [[i + 3] + rest]
        for s in specks:
            n = toks[s[0]]["s"]
            ns = "m" if n == "Self" or s[0] == i + 3 else "i"
            name = toks[s[-1]]["s"] if len(s) == 3 else self.mod[1] if ns == "m" else n
            self.parts.append({"id": (self.uid, ns), "ns": ns, "name": name, "item": n if ns == "i" else None, "to": toks[s[0]]["to"],
                               "span": [spans[s[0]][0], spans[s[-1]][1]] if self.group else self.span,
                               "alias": toks[s[-1]]["s"] if len(s) == 3 else None})


class Imports(c10.Program):
    def __init__(self, e):
        super().__init__(e)
        self.toks = dict(zip(c10.PATHS, e["files"]))
        self.spans, self.uses, self.heads = {}, [], []
        self.kind = {}
        for path, toks in self.toks.items():
            at, sp = 0, []
            for t in toks:
                s = t["s"]
                sp.append([at, at + len(s)])
                at += len(s) + 1
            self.spans[path] = sp
            assert self.files[path][sp[-1][0]:sp[-1][1]] == toks[-1]["s"]
            blocks, ends = [], {}
            for i, t in enumerate(toks):
                for ch in t["s"]:
                    if ch == "{":
                        blocks.append(i)
                    elif ch == "}":
                        ends[blocks.pop()] = i
            opened = []
            for i, t in enumerate(toks):
                for ch in t["s"]:
                    if ch == "{":
                        opened.append(i)
                    elif ch == "}":
                        opened.pop()
                if t["k"] == "use":
                    u = Use(self, path, toks, sp, i)
                    u.block = (opened[-1], ends[opened[-1]]) if len(opened) > 1 else None
                    self.uses.append(u)
                if t["k"] == "sh" or "via" in t:
                    t["at"] = path
                    self.heads.append((path, i, t))

    def reach(self, u):
        for path, i, t in self.heads:
            if u.block:
                if path == u.path and u.block[0] < i < u.block[1]:
                    yield t
            elif path == u.path or {path, u.path} == {c10.PATHS[0], c10.PATHS[4]}:
                yield t

    def lent(self, path, t):
        """Led through (or spelled like) an import of the specification of the module, from code: not said."""
        return path == c10.PATHS[0] and t["sc"] != "verify" and any(u.path == c10.PATHS[4] and any(list(x["id"]) in t["via"] or x["name"] == t["s"] for x in u.parts) for u in self.uses)

    def verdict(self, u, p):
        """Is the import unused, and is it too broad: yes, no, or not said."""
        heads = list(self.reach(u))
        through = [t for t in heads if list(p["id"]) in t["via"] and (t["k"] == "sh" or t["to"])]
        enum = any(i + ".Va" in self.decls for i in p["to"])
        named = [t for t in heads if t["s"] == p["name"] and (u.sc == "main" or t["sc"] == u.sc)
                 and (t.get("more", False) if p["ns"] == "m" else enum or not p["to"] or not t.get("more", False))]
        # a specification sees what is test_only (so the code), but whether that counts as a use is not said
        lent = bool(through)
        through = [t for t in through if (u.sc == "main" or t["sc"] == u.sc) and not (u.path == c10.PATHS[4] and self.lent(t["at"], t))]
        # of several imports which lead the same way any can be the one which is used
        alone = [t for t in through if len(t["via"]) == 1]
        unused = "no" if alone else "?" if through or lent else "yes" if not named else "?"
        broad = "no" if u.sc != "main" or any(t["sc"] != "test" for t in alone) or not named else "yes" if alone and all(t["sc"] == "test" for t in named) else "?"
        return {"unused-import": unused, "too-broad-scoped-import": broad}


def reported(ctx, p, path, diags):
    """Which imports a report is about."""
    out = {r: set() for r in RULES}
    for d in diags:
        if d[0] in RULES:
            ids = [x["id"] for u in p.uses if u.path == path for x in u.parts if d[1] in (u.span, x["span"])]
            if not ids:
                return None
            out[d[0]].update(ids)
    return out


def imports_of(text):
    """The imports of a text (module, item, name, test) one by one, and the tokens of everything else."""
    toks = text.replace("{", " { ").replace("}", " } ").replace(";", " ; ").replace(",", " , ").replace("::", " :: ").replace("#[test_only]", " #[test_only] ").split()
    out, rest, i = [], [], 0
    while i < len(toks):
        if toks[i] != "use":
            rest.append(toks[i])
            i += 1
            continue
        test = bool(rest) and rest[-1] == "#[test_only]"
        if test:
            rest.pop()
        j = toks.index(";", i)
        b = toks[i + 1:j]
        mod, tail = (b[0], b[2]), b[3:]
        if tail[:1] == ["::"]:
            tail = tail[1:]
            if tail[0] == "{":
                assert tail[-1] == "}"
                tail = tail[1:-1]
            specks = " ".join(tail).split(" , ")
        else:
            specks = [" ".join(["Self"] + tail)]
        for s in specks:
            s = s.strip(" ,").split()
            assert len(s) in (0, 1, 3), (s, toks[i:j])
            if s:
                out.append((mod, s[0], s[2] if len(s) == 3 else mod[1] if s[0] == "Self" else s[0], test, len(rest) if "}" in rest[-1:] else 0))
        i = j + 1
    return out, rest


def bag(xs):
    return sorted([(m, i, n, t) for m, i, n, t, _ in xs])


def judge(ctx, c, p, g):
    """First round: reports and the texts of their repairs; gives the changed programs to look at once more."""
    again = []
    for q, a in zip(c["queries"], g):
        path = q["f"]
        ctx.traces += 1
        where = {"case": {"files": c["files"], "queries": [q]}}
        if isinstance(a, dict):
            ctx.fail("%s of %s: %s" % (q["q"], path, a), where)
            continue
        before, rest = imports_of(c["files"][path])
        verdicts = {x["id"]: p.verdict(u, x) for u in p.uses if u.path == path for x in u.parts}
        part = {x["id"]: (u.mod, x["item"] or "Self", x["name"], u.attr) for u in p.uses if u.path == path for x in u.parts}
        if q["q"] == "diags":
            rep = reported(ctx, p, path, a)
            if rep is None:
                ctx.fail("a report of %s is about no import: %s" % (path, [d[:3] for d in a if d[0] in RULES]), where)
                continue
            for rule in RULES:
                for i, v in verdicts.items():
                    v = v[rule]
                    if v != "?" and (v == "yes") != (i in rep[rule]):
                        ctx.fail("%s in %s: import %s: the specification says %s, the code %s" % (rule, path, part[i], v, i in rep[rule]), where)
                        break
            for d in a:
                if d[0] not in RULES:
                    continue
                ids = [x["id"] for u in p.uses if u.path == path for x in u.parts if d[1] in (u.span, x["span"])]
                for label, target, texts in d[3]:
                    want = [x for k, x in part.items() if k not in ids]
                    if d[0] != "unused-import":
                        want += [x[:3] + (True,) for k, x in part.items() if k in ids]
                    if set(texts) != {path}:
                        ctx.fail("the repair %s of %s changes %s" % (label, path, sorted(texts)), where)
                        continue
                    after, rest2 = imports_of(texts[path])
                    if bag(after) != sorted(want) or rest != rest2:
                        ctx.fail("the repair %s %s of %s: the specification says imports %s, the code %s; the rest is %s" % (label, c["files"][path][target[0]:target[1]], path, sorted(want), bag(after), "the same" if rest == rest2 else "changed"), where)
                        continue
                    again.append((path, texts[path]))
        else:
            text = a.get(path, c["files"][path]) if isinstance(a, dict) else c["files"][path]
            again.append((path, text))
    return again


def run(ctx):
    h = ctx.build("h-ide")
    es = c10.programs(ctx, 2000 if ctx.thorough else 100)
    progs = [Imports(e) for e in es]
    cases = []
    for p in progs:
        qs = [{"q": k, "f": f} for f in c10.PATHS if f in p.files and f != c10.PATHS[3] for k in ("diags", "organize")]
        cases.append({"files": p.files, "queries": qs})
    got = ctx.run_bin(h, cases, shards=8)
    second = []
    for c, p, g in zip(cases, progs, got):
        if isinstance(g, dict):
            ctx.fail("the harness ended: %s" % g, c)
            continue
        organized = [x for x in g[0]]
        for k, q in enumerate(c["queries"]):
            if q["q"] == "organize" and isinstance(organized[k], dict) and "panic" not in organized[k]:
                organized[k] = [organized[k]]
        steps = []
        for path, text in judge2(ctx, c, p, organized):
            steps.append((path, text))
        second.append((p, steps))
    cases2, exp2 = [], []
    for p, steps in second:
        qs0, seen = [], set()
        st, ex = [], []
        for path, text in steps:
            if text in seen or text == p.files[path]:
                continue
            seen.add(text)
            move = mapping(p.files[path], text)
            tests = {x["id"] for u in p.uses for x in u.parts if u.sc == "test"}
            hidden = {x["name"] for u in p.uses if u.path == path for x in u.parts if x["id"] in tests}
            place = lambda f, at: [f, [move[at[0]], move[at[0]] + at[1] - at[0]]] if f == path else [f, at]
            qs, want = [], []
            for f, i, t in p.heads:
                at = p.spans[f][i]
                if f == path or {f, path} == {c10.PATHS[0], c10.PATHS[4]}:
                    if t["s"] in hidden or p.lent(f, t) or t["k"] == "sh" and t["sc"] == "verify" and tests or t["sc"] == "verify" and any(tuple(v) in tests for v in t["via"]):
                        continue  # not said: what an import for tests means to specifications and to what it hides
                    qs.append({"q": "goto", "f": f, "o": place(f, at)[1][0]})
                    to = t["to"] + t.get("fl", [])
                    want.append(sorted([place(*p.decls[x]) for x in set(to)], key=c10.str_of))
            st.append({"change": {path: text}, "queries": qs})
            ex.append(want)
            st.append({"change": {path: p.files[path]}, "queries": []})
            ex.append([])
        if st:
            cases2.append({"files": p.files, "queries": qs0, "steps": st})
            exp2.append(ex)
    got2 = ctx.run_bin(h, cases2, shards=8)
    n = 0
    for c, e, g in zip(cases2, exp2, got2):
        if isinstance(g, dict):
            ctx.fail("the harness ended: %s" % g, c)
            continue
        for s, ws, as_ in zip(c["steps"], e, g[1:]):
            for q, w, a in zip(s["queries"], ws, as_):
                n += 1
                ctx.traces += 1
                if w != c10.dedup(a):
                    path, text = list(s["change"].items())[0]
                    t = text if q["f"] == path else c["files"][q["f"]]
                    ctx.fail("after a repair of the imports of %s, %s %d %r leads to %s instead of %s" % (path, q["f"], q["o"], c10.around(t, q["o"]), a, w),
                             {"case": {"files": c["files"], "queries": [], "steps": [{"change": s["change"], "queries": [q]}]}, "expected": w, "actual": a})
                    break
    ctx.notes.append("%d programs, %d imports; %d repaired files with %d names" % (len(cases), sum(len(u.parts) for p in progs for u in p.uses), sum(len(s) for _, s in second), n))
    ctx.sample({"imports": [[x["name"], progs[0].verdict(u, x)] for u in progs[0].uses for x in u.parts][:5]})


def judge2(ctx, c, p, g):
    out = []
    ks = [k for k, q in enumerate(c["queries"]) if q["q"] == "diags"]
    out += judge(ctx, {"files": c["files"], "queries": [c["queries"][k] for k in ks]}, p, [g[k] for k in ks])
    for k, q in enumerate(c["queries"]):
        if q["q"] != "organize":
            continue
        path, a = q["f"], g[k]
        ctx.traces += 1
        where = {"case": {"files": c["files"], "queries": [q]}}
        if isinstance(a, dict):
            ctx.fail("organize of %s: %s" % (path, a), where)
            continue
        text = a[0].get(path, c["files"][path]) if isinstance(a, list) else c["files"][path]
        before, rest = imports_of(c["files"][path])
        after, rest2 = imports_of(text)
        if rest != rest2:
            ctx.fail("organizing the imports of %s changes more than imports" % path, where)
            continue
        left = bag(after)
        for u in p.uses:
            if u.path == path:
                for x in u.parts:
                    v = p.verdict(u, x)
                    plain = (u.mod, x["item"] or "Self", x["name"])
                    main, test = plain + (u.attr,) in left, plain + (True,) in left
                    if v["unused-import"] == "no" and not (main or test):
                        ctx.fail("organizing the imports of %s removes %s, which is used" % (path, plain), where)
                    elif v["unused-import"] == "yes" and (main or test) and bag(before).count(plain + (u.attr,)) == 1 and not (test and plain + (True,) in bag(before) and not u.attr):
                        ctx.fail("organizing the imports of %s keeps %s, which is unused" % (path, plain), where)
                    elif v["too-broad-scoped-import"] == "yes" and not test:
                        ctx.fail("organizing the imports of %s does not make %s test_only" % (path, plain), where)
        if any(x not in [y[:3] for y in bag(before)] for x in [y[:3] for y in left]):
            ctx.fail("organizing the imports of %s invents %s" % (path, left), where)
        out.append((path, text))
    return out


def mapping(old, new):
    """Where the tokens outside of imports went."""
    def tokens(t):
        out, i, skip = [], 0, False
        for m in TOKEN.finditer(t):
            s = m.group()
            if s == "use":
                if out and out[-1][0] == "#[test_only]":
                    out.pop()
                skip = True
            if not skip:
                out.append((s, m.start()))
            if s == ";":
                skip = False
        return out
    return {a[1]: b[1] for a, b in zip(tokens(old), tokens(new))}


import re
TOKEN = re.compile(r"#\[test_only\]|'?\w+|::|\.\.|=>|==>|[^\s\w]")
