ID="C15-scopes"; PROP="C15"; KIND="server"
NEEDS="an import used both in a specification and in tests, and nowhere else"
BREAKS="an import which a specification needs is said to be for tests only"
EDITS=[("crates/ide-diagnostics/src/handlers/reduced_scope_import.rs",'''        .map(|(use_item, scope)| match scope {
            ItemScope::Verify => (use_item, ItemScope::Main),
            _ => (use_item, scope),
        })
        .collect::<HashSet<_>>();
''','''        .sorted_by_key(|(_, scope)| *scope == ItemScope::Verify)
        .unique_by(|(use_item, scope)| (use_item.clone(), *scope == ItemScope::Main))
        .map(|(use_item, scope)| match scope {
            ItemScope::Verify => (use_item, ItemScope::Main),
            _ => (use_item, scope),
        })
        .collect::<HashSet<_>>();
''')]
DEMO='''
import os, sys, lspc
bin, w = sys.argv[1:]
f = os.path.join(w, "a/sources/m.move")
TESTS, SPEC = "    #[test_only] fun t() { n::g(); }\\n", "    spec module { let x = n::g(); }\\n"
def warnings(*parts):
    open(f, "w").write("module 0x1::m {\\n    use 0x1::n;\\n" + "".join(parts) + "}\\n")
    s = lspc.Server(bin, w)
    s.quiescent()
    r = s.request("textDocument/diagnostic", {"textDocument": {"uri": lspc.uri(f)}})
    s.stop()
    return [(d["code"], d["range"]["start"]["line"], "test" in d["message"]) for d in r["result"]["items"] if "import" in d["code"]]
lspc.package(os.path.join(w, "a"), name="A", files={"sources/m.move": "", "sources/n.move": "module 0x1::n { public fun g(): u8 { 1 } }\\n"})
assert warnings(TESTS) == [("too-broad-scoped-import", 1, True)], warnings(TESTS)
assert warnings(SPEC) == [], warnings(SPEC)
assert warnings(TESTS, SPEC) == [], warnings(TESTS, SPEC)
'''
