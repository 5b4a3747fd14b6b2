ID="C06-outer-manifest"; PROP="C06"; KIND="crate"
NEEDS="a file inside a nested package, outside its source folders but inside a source folder of the outer package"
BREAKS="the file is answered for by the manifest of an outer package instead of by none"
EDITS=[("crates/project-model/src/lib.rs",'''            if let Some(move_toml_file) = try_find_move_toml_at_root(candidate_dir) {
                break DiscoveredManifest::new(move_toml_file, true);
            }
            candidate_dir''','''            if let Some(move_toml_file) = try_find_move_toml_at_root(candidate_dir) {
                let is_source_dir = |dir: &str| fpath.starts_with(&candidate_dir.join(dir));
                if ["sources", "tests", "scripts"].into_iter().any(is_source_dir) {
                    break DiscoveredManifest::new(move_toml_file, true);
                }
            }
            candidate_dir''')]
DEPS='project-model = { path = "../project-model" }\npaths = { workspace = true }\n'
DEMO='''
use paths::AbsPathBuf;
use project_model::DiscoveredManifest;
fn main() {
    let w = std::env::current_dir().unwrap();
    let put = |f: &str, t: &str| {
        let p = w.join(f);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    };
    put("a/Move.toml", "[package]\\nname = \\"A\\"\\n");
    put("a/tests/n/Move.toml", "[package]\\nname = \\"N\\"\\n");
    let of = |f: &str| DiscoveredManifest::discover_for_file(&AbsPathBuf::assert_utf8(w.join(f))).map(|m| m.content_root().to_string());
    let a = Some(w.join("a").to_str().unwrap().to_string());
    let n = Some(w.join("a/tests/n").to_str().unwrap().to_string());
    assert_eq!(of("a/tests/t.move"), a);
    assert_eq!(of("a/doc/t.move"), None);
    assert_eq!(of("a/tests/n/sources/t.move"), n);
    assert_eq!(of("a/tests/n/doc/t.move"), None);
}
'''
