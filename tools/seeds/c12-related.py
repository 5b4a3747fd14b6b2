ID="C12-new-spec-file"; PROP="C12"; KIND="server"
NEEDS="a `.spec.move` file created (or removed) after the sources of its module were loaded"
BREAKS="a specification file which is created later has nothing to do with the module it specifies"
EDITS=[("crates/base-db/src/inputs.rs",'''                outdated_file_ids.remove(&file_id);
''','''                let is_known = outdated_file_ids.remove(&file_id)
                    && self.try_file_package_id(db, file_id).map(|it| it.idx(db)) == Some(idx as u32);
'''),("crates/base-db/src/inputs.rs",'''                self.set_spec_related_files(
                    db,
                    file_id,
                    find_spec_file_set(file_id, package_root.clone()).unwrap_or(vec![]),
                );
            }''','''                // files which stay where they are keep their specs
                if !is_known {
                    self.set_spec_related_files(
                        db,
                        file_id,
                        find_spec_file_set(file_id, package_root.clone()).unwrap_or(vec![]),
                    );
                }
            }''')]
DEMO='''
import os, sys, time, lspc
bin, w = sys.argv[1:]
f, g = os.path.join(w, "a/sources/m.move"), os.path.join(w, "a/sources/m.spec.move")
lspc.package(os.path.join(w, "a"), name="A", files={"sources/m.move": "module 0x1::m {\\n    fun f(value: u8): u8 { value }\\n}\\n"})
s = lspc.Server(bin, w)
s.quiescent()
def params():
    r = s.request("textDocument/references", {"textDocument": {"uri": lspc.uri(f)}, "position": {"line": 1, "character": 11}, "context": {"includeDeclaration": False}})
    return sorted((os.path.basename(x["uri"]), x["range"]["start"]["line"]) for x in r["result"] or [])
assert params() == [("m.move", 1)], params()
open(g, "w").write("spec 0x1::m {\\n    spec f { requires value > 0; }\\n}\\n")
s.touched((g, 1))
for _ in range(60):
    time.sleep(.1)
    got = params()
    if len(got) > 1:
        break
s.stop()
assert got == [("m.move", 1), ("m.spec.move", 1)], got
'''
