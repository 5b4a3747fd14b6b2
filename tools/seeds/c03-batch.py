ID="C03-stale-line-index"; PROP="C03"; KIND="server"
NEEDS="a batch of two edits where the second ends on the line where the first starts, and the first put a multi-byte character into that line before it"
BREAKS="the second edit of a batch is applied with positions of the text before the first"
EDITS=[("crates/aptos-language-server/src/lsp/utils.rs","        if index_valid <= change.range.end.line {","        if index_valid < change.range.end.line {")]
DEMO='''
import os, sys, lspc
bin, w = sys.argv[1:]
lspc.package(w, files={"sources/m.move": "module 0x1::m {}\\n"})
s = lspc.Server(bin, w, options={"movefmt": {"path": lspc.build_fmt(w)}})
s.quiescent()
f = os.path.join(w, "sources/m.move")
s.open(f, "aaa\\nbbb\\nccc\\n")
r = lambda a, b, c, d, t: {"range": {"start": {"line": a, "character": b}, "end": {"line": c, "character": d}}, "text": t}
s.change(f, [r(1, 0, 1, 0, "é"), r(1, 2, 1, 3, "Z")])
ans = s.wait(s.format_(f))
text = ans["result"][0]["newText"]
s.stop()
assert text == "Xaaa\\nébZb\\nccc\\n", repr(text)
'''
