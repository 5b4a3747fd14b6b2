ID="C10-friend-name"; PROP="C10"; KIND="server"
NEEDS="two modules of the same name at different addresses, one of them a friend, and the other one using an item open to friends"
BREAKS="a module which merely has the name of a friend is let into what is open to friends only"
EDITS=[("crates/lang/src/nameres/is_visible.rs",'''                if let (Some(item_module), Some(context_module)) = (item_module, context_module) {
                    let friend_decls = item_module.friend_decls();''','''                if let (Some(item_module), Some(context_module)) = (item_module, context_module) {
                    let context_name = context_module.name().map(|it| it.as_string());
                    let friend_decls = item_module.friend_decls();'''),
("crates/lang/src/nameres/is_visible.rs",'''                        if friend_module.value == context_module {''','''                        // `spec m` and `m` are the same friend
                        if friend_module.value.name().map(|it| it.as_string()) == context_name {''')]
DEMO='''
import os, sys, lspc
bin, w = sys.argv[1:]
lspc.package(os.path.join(w, "a"), name="A", files={"sources/a.move": """module 0x1::a {
    friend 0x1::b;
    public(friend) fun f() { }
}
module 0x1::b { fun main() { 0x1::a::f(); } }
""", "sources/b.move": """module 0x2::b { fun main() { 0x1::a::f(); } }
module 0x2::c { fun main() { 0x1::a::f(); } }
"""})
s = lspc.Server(bin, w)
s.quiescent()
def errors(name):
    r = s.request("textDocument/diagnostic", {"textDocument": {"uri": lspc.uri(os.path.join(w, name))}})
    return [d["range"]["start"]["line"] for d in r["result"]["items"] if d.get("code") == "unresolved-reference"]
a, b = errors("a/sources/a.move"), errors("a/sources/b.move")
s.stop()
assert (a, b) == ([], [0, 1]), (a, b)
'''
