"""C16: every expression has the type which the rules of the language give to it (Types.tla)."""
from checks.c10 import str_of

TOML = {"P/Move.toml": '[package]\nname = "P"\nversion = "0.0.0"\n[addresses]\nstd = "0x1"\n'}
VECTOR = """module std::vector {
public native fun length<Element>(self: &vector<Element>): u64;
public native fun borrow<Element>(self: &vector<Element>, i: u64): &Element;
public native fun borrow_mut<Element>(self: &mut vector<Element>, i: u64): &mut Element;
public native fun push_back<Element>(self: &mut vector<Element>, e: Element);
public native fun pop_back<Element>(self: &mut vector<Element>): Element;
public native fun contains<Element>(self: &vector<Element>, e: &Element): bool;
}
"""
THERE = ("S1", "TS", "O")  # what is declared in the other file


def ty(t, adt=lambda n: n):
    h, a = t[0], [ty(x, adt) for x in t[1:]]
    if h in ("&", "&mut"):
        return h + ("" if h == "&" else " ") + a[0]
    if h == "tuple":
        return "(" + ", ".join(a) + ")"
    if h == "fn":
        return "|%s|%s" % (", ".join(a[:-1]), a[-1])
    if h[0] == "$":
        return h[1:]
    if h == "vector":
        return "vector<" + a[0] + ">"
    if h in ("S0", "S1", "TS", "E", "B", "D", "PB", "O"):
        h = adt(h)
    return h + ("<" + ", ".join(a) + ">" if a else "")


def shown(t):
    return ty(t, lambda n: "0x5::%s::%s" % ("n" if n in THERE else "m", n))


class Program:
    def __init__(self, e, via=0):
        d = e["dec"]
        there = {"m": "n::" if via else "", "n": ""}
        here = {"m": "", "n": "m::"}

        def src(mod):
            return lambda t: ty(t, lambda n: (there if n in THERE else here)[mod] + n)

        def fields(v, mod, semi):
            if v["pos"]:
                return "(" + ", ".join(src(mod)(f[1]) for f in v["fs"]) + ")"
            return " { " + ", ".join("%s: %s" % (f[0], src(mod)(f[1])) for f in v["fs"]) + " }" if v["fs"] or not semi else ""

        def tps(l, bounds=": copy + drop + store"):
            return "<" + ", ".join(x[1:] + bounds for x in l) + ">" if l else ""

        def fun(f, mod, vis, names):
            ps = ", ".join("%s: %s" % (names[min(i, 1)] if i < 1 else "a%d" % i, src(mod)(p)) for i, p in enumerate(f["ps"]))
            r = "" if f["r"] == ["()"] else ": " + src(mod)(f["r"])
            return "%sfun %s%s(%s)%s { abort 0 }" % (vis, f["n"].split("::")[-1], tps(sorted(f["tps"])), ps, r)

        mods = {"m": [], "n": []}
        for n, s in d["st"].items():
            mod, vis = ("n", "public ") if n in THERE else ("m", "public ")
            text = vis + "struct " + n + tps(s["tps"], "")
            mods[mod].append(text + (fields(s, mod, True) + " has copy, drop, store, key;" if s["pos"] else " has copy, drop, store, key" + fields(s, mod, False)))
        for n, s in d["en"].items():
            mod = "n" if n in THERE else "m"
            mods[mod].append("public enum %s%s has copy, drop, store, key { %s }" % (
                n, tps(s["tps"], ""), ", ".join(v["n"] + fields(v, mod, True) for v in s["vs"])))
        mods["m"] += ["const %s: %s = %s;" % (c["n"], ty(c["t"]), {"b": "true", "a": "@0x1", "v": 'b""'}.get(c["t"][0][0], "1")) for c in d["cs"]]
        for f in d["fs"]:
            if f["n"] in ("exists", "move_from", "borrow_global", "borrow_global_mut", "freeze") or f["n"][:5] == "std::":
                continue
            mod = "n" if "::" in f["n"] else "m"
            mods[mod].append(fun(f, mod, "public ", ["a0"]))
        owner = {"S0": "m", "B": "m", "E": "m", "S1": "n", "O": "n"}
        others = []
        for f in d["ms"]:
            t = f["ps"][0]
            t = t[1] if t[0] in ("&", "&mut") else t
            if t[0] != "vector":
                (mods if 1 else others)[owner[t[0]]].append((t[0], f))
        for mod in mods:
            names = {}
            for i, x in enumerate(mods[mod]):
                if isinstance(x, tuple):
                    mods[mod][i] = fun(x[1], mod, "public ", ["self"])
        h = d["hi"]
        for f in d["ss"]:
            if f["n"][:5] != "std::":
                mod = "n" if "::" in f["n"] else "m"
                mods[mod].append(fun(f, mod, "public ", ["self"]))
        mods["m"].append("inline fun hi(a: |%s|%s, b: %s): %s { abort 0 }" % (ty(h["a"]), ty(h["r"]), ty(h["b"]), ty(h["r"])))
        mods["m"].append("inline fun ap<T, U>(b: T, a: |T|U): U { abort 0 }")
        head = "module 0x5::m {\nuse 0x5::n%s;\n" % ("" if via else "::{Self, S1, TS, O}")
        head += "\n".join(mods["m"]) + "\n"
        head += "fun body<T: copy + drop + store>(%s): %s " % (", ".join("%s: %s" % (p["n"], src("m")(p["t"])) for p in d["ps"]), src("m")(d["r"]))
        text, self.types, opened, self.bad = head, [], [], None
        self.params = [(p["n"], [0, i + 1]) for i, p in enumerate(d["ps"])]
        self.start, self.events = len(head), []  # where the body begins; its tokens and what is said about them
        for t in e["out"]:
            mark = t
            if isinstance(t, list) and t[0] in ("~", "~~", "+", "^", "^^", "v"):
                self.events.append((t, len(text), (t[2] if isinstance(t[2], str) else src("m")(t[2][1])) if t[0] == "+" else None))
                continue
            if isinstance(t, list) and t[0] in ("-", "-u", "b", "u"):
                t = t[1] if t[0] == "u" else t[2]
            if isinstance(t, str):
                if t in THERE and via:
                    t = "n::" + t
                word = t
            elif t[0] == ":":
                word = src("m")(t[1])
            elif t[0] == "<":
                opened.append([len(text), t[1]])
                self.events.append((t, len(text), None))
                continue
            elif t[0] == "!":
                opened.append([len(text), t])
                continue
            else:
                at, what = opened.pop()
                at += len(text[at:]) - len(text[at:].lstrip())
                self.events.append((t, len(text), None))
                if t[0] == ">":
                    self.types.append(((at, len(text.rstrip())), shown(what)))
                else:
                    self.bad = (at, len(text.rstrip())), what
                continue
            if word in ("<.", "::."):
                text, word = text.rstrip(), word[:-1]
            self.events.append((mark, len(text), word))
            text += word + ("\n" if word[-1] in ";{}" else " ")
        assert not opened
        self.text = text + "\n}\n"
        self.files = dict(TOML)
        self.files["P/sources/vector.move"] = VECTOR
        self.files["P/sources/n.move"] = "module 0x5::n {\nuse 0x5::m;\n" + "\n".join(mods["n"]) + "\n}\n"
        self.files["P/sources/m.move"] = self.text

    def message(self):
        _, k, a, b = self.bad[1][:4]
        if k == "is":
            return "Incompatible type '%s', expected '%s'" % (shown(a), shown(b))
        if k == "any":
            return "Incompatible type '%s', expected any of ['u64', 'vector<u8>']" % shown(a)
        if k == "op":
            return "Invalid argument to '%s': expected integer type, but found '%s'" % (a[0], shown(b))
        if k in ("bin", "abin"):
            return "Incompatible arguments to '%s': '%s' and '%s'" % (self.bad[1][4], shown(a), shown(b))
        if k == "deref":
            return "Invalid dereference. Expected '&_' but found '%s'" % shown(a)
        return None


def run(ctx):
    h = ctx.build("h-ide")
    r = ctx.tlc("Types", simulate=20000 if ctx.thorough else 1500, depth=20000, workers=8, timeout=800)
    es = list({str_of(e): e for e in r.emits if "out" in e}.values())
    ps = [Program(e, i % 2) for i, e in enumerate(es)]
    f = "P/sources/m.move"
    cases = [{"files": p.files, "queries": [{"q": "errs", "f": g} for g in (f, "P/sources/n.move")] + [{"q": "types", "f": f}]} for p in ps]
    got = ctx.run_bin(h, cases, shards=8)
    marks = 0
    for p, c, g in zip(ps, cases, got):
        if isinstance(g, dict):
            ctx.fail("the harness ended: %s" % g, c)
            continue
        ctx.traces += 1
        n = judge(ctx, p, c, g[0])
        marks += n
    ctx.notes.append("%d programs, %d with a mistake, %d expressions" % (len(ps), sum(p.bad is not None for p in ps), marks))


def judge(ctx, p, c, g):
    say = lambda what, exp, act: ctx.fail(what, {"case": c, "expected": exp, "actual": act})
    for a in g:
        if isinstance(a, dict) and "panic" in a:
            say("the question panics: %s" % a["panic"], None, a)
            return 0
    errors = [(d["code"], d["range"], d["message"]) for d in g[0] + g[1] if d["severity"] == "Error"]
    if p.bad is None:
        if errors:
            show(p, say, "a well-typed program is reported", errors)
            return 0
    else:
        want = p.message()
        ok = len(errors) == 1 and errors[0][0] == "type-error" and (want is None or errors[0][2] == want) and tuple(errors[0][1]) == p.bad[0]
        if not ok:
            show(p, say, "the mistake %r %r should be reported as %r" % (p.text[p.bad[0][0]:p.bad[0][1]], p.bad[1], want), errors)
            return 0
    if p.bad is not None and p.bad[1][1] not in ("is", "any", "bin"):
        return 0
    known = {}
    for r, t in g[2]:
        known.setdefault(tuple(r), []).append(t)
    n = 0
    for at, t in p.types:
        n += 1
        if t not in known.get(at, []) and not (p.text[at[0]] == "{" and known.get(at) == [None]):
            say("the type of %r at %d should be %s, not %s" % (p.text[at[0]:at[1]][:120], at[0], t, known.get(at)), t, known.get(at))
            break
    return n


def show(p, say, what, errors):
    say(what + ": " + "; ".join("%s %r %s" % (k, p.text[r[0]:r[1]][:80], m) for k, r, m in errors[:3]), p.bad, errors)
