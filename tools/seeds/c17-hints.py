ID="C17-hints"; PROP="C17"; KIND="server"
NEEDS="a call with more arguments than parameters, of a function with none or at least two parameters, and inlay hints asked for"
BREAKS="inlay hints of a file panic while one of its calls has too many arguments"
EDITS=[("crates/ide/src/inlay_hints/param_name.rs",'''    for (param_name, arg_expr) in params.into_iter().map(|it| it.name).zip(arg_exprs) {
        if let (Some(param_name), Some(arg_expr)) = (param_name, arg_expr) {
''','''    for (i, arg_expr) in arg_exprs.into_iter().enumerate() {
        if let (Some(param_name), Some(arg_expr)) = (&params[i].name, arg_expr) {
''')]
DEMO='''
import os, sys, lspc
bin, w = sys.argv[1:]
f = os.path.join(w, "a/sources/a.move")
lspc.package(os.path.join(w, "a"), name="A", files={"sources/a.move": "module 0x1::a {\\n    fun f(first: u8, second: u8) { }\\n    fun g() { f(1, 2); f(1, 2, 3); }\\n}\\n"})
s = lspc.Server(bin, w)
s.quiescent()
r = s.request("textDocument/inlayHint", {"textDocument": {"uri": lspc.uri(f)}, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 4, "character": 0}}})
s.stop()
assert "result" in r, r
print(r["result"])
assert len(r["result"]) == 4, r
'''
