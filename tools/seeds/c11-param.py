ID="C11-spec-file"; PROP="C11"; KIND="server"
NEEDS="a function whose `spec` block stands in another file, and a question about its parameter"
BREAKS="usages of a parameter in a specification of another file are not found and not renamed"
EDITS=[("crates/ide-db/src/search.rs",'''            for item_spec_loc in item_specs::get_item_specs_for_fun(db, fun.in_file(file_id).loc()) {
                search_scope.add_file_range(item_spec_loc.file_range());
            }''','''            for item_spec_loc in item_specs::get_item_specs_for_fun(db, fun.in_file(file_id).loc()) {
                let FileRange { range, .. } = item_spec_loc.file_range();
                search_scope.add_range(file_id, range);
            }''')]
DEMO='''
import os, sys, lspc
bin, w = sys.argv[1:]
f, g = os.path.join(w, "a/sources/m.move"), os.path.join(w, "a/sources/m.spec.move")
lspc.package(os.path.join(w, "a"), name="A", files={"sources/m.move": """module 0x1::m {
    fun f(value: u8): u8 { value }
    spec f { ensures value == value; }
}
""", "sources/m.spec.move": """spec 0x1::m {
    spec f { requires value > 0; }
}
"""})
s = lspc.Server(bin, w)
s.quiescent()
r = s.request("textDocument/references", {"textDocument": {"uri": lspc.uri(f)}, "position": {"line": 1, "character": 11}, "context": {"includeDeclaration": False}})
s.stop()
got = sorted((os.path.basename(x["uri"]), x["range"]["start"]["line"], x["range"]["start"]["character"]) for x in r["result"])
assert got == [("m.move", 1, 27), ("m.move", 2, 21), ("m.move", 2, 30), ("m.spec.move", 1, 22)], got
'''
