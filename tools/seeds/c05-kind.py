ID="C05-nested-in-git"; PROP="C05"; KIND="crate"
NEEDS="a package inside the folder of a package that was reached through a git dependency, and is its local dependency"
BREAKS="a package reached only through a git dependency is treated as local project code when it lies inside another reached package"
EDITS=[("crates/project-model/src/aptos_package/load_from_fs.rs","                for (dep_manifest, dep_kind) in dep_manifests.clone() {\n","                for (dep_manifest, dep_kind) in dep_manifests.clone() {\n                    // packages inside of this one are a part of it, whatever they are declared as\n                    let dep_kind = if dep_manifest.content_root().starts_with(&package_root) {\n                        PackageKind::Local\n                    } else {\n                        dep_kind\n                    };\n")]
DEPS='project-model = { path = "../project-model" }\npaths = { workspace = true }\n'
DEMO='''
use paths::AbsPathBuf;
use project_model::DiscoveredManifest;
use project_model::aptos_package::load_from_fs::load_aptos_packages;
fn main() {
    let w = std::env::current_dir().unwrap();
    unsafe { std::env::set_var("HOME", w.join("home")) };
    let put = |f: &str, t: &str| {
        let p = w.join(f);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    };
    put("ws/Move.toml", "[package]\\nname = \\"A\\"\\n[dependencies]\\nG = { git = \\"https://g.io/x/g.git\\", rev = \\"main\\" }\\n");
    put("home/.move/https___g_io_x_g_git_main/Move.toml", "[package]\\nname = \\"G\\"\\n[dependencies]\\nS = { local = \\"sub\\" }\\n");
    put("home/.move/https___g_io_x_g_git_main/sub/Move.toml", "[package]\\nname = \\"S\\"\\n");
    let found = DiscoveredManifest::discover_all(&[AbsPathBuf::assert_utf8(w.join("ws"))]);
    let packages = load_aptos_packages(found).valid_packages();
    assert_eq!(packages.len(), 3);
    for p in packages {
        assert_eq!(p.is_local(), p.package_name.as_deref() == Some("A"), "{:?}", p.package_name);
    }
}
'''
