ID="C18-same-packages"; PROP="C18"; KIND="server"
NEEDS="a manifest edited so that the set of loaded packages stays the same and only the dependencies change"
BREAKS="a dependency added to a manifest on a package that is already loaded is not noticed until something else changes"
EDITS=[("crates/aptos-language-server/src/reload.rs",'''        let project_folders = ProjectFolders::new(&packages_from_fs);
''','''        // nothing to do if the same packages were loaded again
        let same_packages = !switching_from_empty_workspace
            && packages_from_fs.len() == self.all_packages.len()
            && packages_from_fs.iter().all(|it| {
                self.all_packages
                    .iter()
                    .any(|old| old.manifest_path() == it.manifest_path() && old.is_local() == it.is_local())
            });
        if same_packages {
            self.recreate_package_graph(cause);
            return;
        }

        let project_folders = ProjectFolders::new(&packages_from_fs);
''')]
DEMO='''
import os, sys, time, lspc
bin, w = sys.argv[1:]
lspc.package(os.path.join(w, "a"), name="A", files={"sources/m.move": "module 0x1::a { use 0x1::b; }\\n"})
lspc.package(os.path.join(w, "b"), name="B", files={"sources/m.move": "module 0x1::b { }\\n"})
s = lspc.Server(bin, w)
s.quiescent()
f = os.path.join(w, "a/sources/m.move")
def errors():
    s.quiescent()
    r = s.request("textDocument/diagnostic", {"textDocument": {"uri": lspc.uri(f)}})
    return [d["code"] for d in r["result"]["items"] if d.get("code") == "unresolved-reference"]
assert errors() == ["unresolved-reference"]
lspc.package(os.path.join(w, "a"), name="A", deps='B = { local = "../b" }')
s.touched((os.path.join(w, "a/Move.toml"), 2))
for _ in range(40):
    time.sleep(.1)
    e = errors()
    if not e:
        break
s.stop()
assert not e, e
'''
