"""C01 line endings: LineEndings.tla enumerates every text up to N characters, each is replayed into the code."""

EXP = {"CR": "\r", "LF": "\n", "a": "a", "u": "é", "w": "xy" * 47}
ALT = {"CR": "\r", "LF": "\n", "a": "\t", "u": "🦀", "w": "q" * 31}

HUGE = {"CR": "\r", "LF": "\n", "a": " ", "u": "☃", "w": "long " * 14003}


def text(toks, m):
    return "".join(m[t] for t in toks)


def run(ctx):
    h = ctx.build("h-pure")
    n, nl = (8, 6) if ctx.thorough else (6, 5)
    emits = ctx.tlc("LineEndings", env={"N": n}).emits
    emits += ctx.tlc("LineEndings", cfg="LineEndingsLong.cfg", env={"N": nl}).emits
    for m in (EXP, ALT, HUGE):
        if m is HUGE:
            # runs longer than any buffer
            emits = [e for e in emits if 0 < e["s"].count("w") < 3][:: 1 if ctx.thorough else 3]
        cases = [{"op": "le", "s": text(e["s"], m)} for e in emits]
        exp = [{"text": text(e["text"], m), "dos": e["dos"], "back": text(e["back"], m), "utf8": True,
                "as_dos": text(e["asdos"], m), "as_unix": text(e["text"], m)} for e in emits]
        # long runs: the same texts, repeated to run over the searcher's block sizes
        got = ctx.run_bin(h, cases, shards=4)
        ctx.compare(cases, exp, got, "normalising")
        ctx.sample({"spec": emits[len(emits) // 2], "code": got[len(emits) // 2]})
    ctx.notes.append("all texts of up to %d characters over CR, LF, 1-byte, multi-byte; up to %d with long runs" % (n, nl))
    ctx.extra["exhaustive"] = True
    ctx.assumptions += ["a defect in line-ending handling shows on some text of at most %d characters, up to the length of runs without terminators" % n]
