//! Manifests on disk -> discovered manifests, loaded packages, package graph, owners of files.
use hlib::{json, Value};
use paths::{AbsPath, AbsPathBuf};
use project_model::aptos_package::load_from_fs::{load_aptos_packages, LoadedPackage};
use project_model::aptos_package::PackageKind;
use project_model::project_folders::ProjectFolders;
use project_model::DiscoveredManifest;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

fn rel(base: &Path, p: &AbsPath) -> String {
    let p: &Path = p.as_ref();
    p.strip_prefix(base).map(|p| p.to_string_lossy().into_owned()).unwrap_or_else(|_| format!("OUTSIDE {}", p.display()))
}

fn load(base: &Path, v: &Value) -> Value {
    let abs = |s: &str| AbsPathBuf::assert_utf8(base.join(s));
    for d in v["dirs"].as_array().unwrap() {
        std::fs::create_dir_all(base.join(d.as_str().unwrap())).unwrap();
    }
    for (f, c) in v["files"].as_object().unwrap() {
        let p = base.join(f);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        let c = c.as_str().unwrap();
        if c == "NOTUTF8" { std::fs::write(p, b"[package]\nname = \"\xff\"\n").unwrap() } else { std::fs::write(p, c).unwrap() }
    }
    let roots: Vec<_> = v["roots"].as_array().unwrap().iter().map(|r| abs(r.as_str().unwrap())).collect();
    let found = DiscoveredManifest::discover_all(&roots);
    let disc: Vec<_> = found.iter().map(|m| json!([rel(base, &m.move_toml_file), m.resolve_deps])).collect();
    let loaded = load_aptos_packages(found);
    let (mut pkgs, mut errors) = (BTreeMap::new(), vec![]);
    let kind = |k: PackageKind| if k == PackageKind::Git { "git" } else { "local" };
    for p in &loaded.packages {
        match p {
            LoadedPackage::ManifestParseError(e) => errors.push(format!("{e:#}").replace(base.to_str().unwrap(), "")),
            LoadedPackage::Package(p) => {
                let old = pkgs.insert(
                    rel(base, p.manifest_path()),
                    json!({
                        "name": p.package_name, "kind": if p.is_local() { "local" } else { "git" }, "resolve": p.resolve_deps,
                        "missing": p.missing_dependencies, "addrs": p.named_addresses,
                        "deps": p.dep_roots().iter().map(|(d, k)| json!([rel(base, d), kind(*k)])).collect::<Vec<_>>(),
                    }),
                );
                assert!(old.is_none(), "package listed twice");
            }
        }
    }
    let valid = loaded.valid_packages();
    let mut vfs = vfs::Vfs::default();
    let graph = project_model::dep_graph::collect_initial(&valid, &mut vfs);
    let graph = graph.map(|g| {
        g.iter()
            .map(|(f, m)| {
                let deps: Vec<_> = m.dep_manifest_ids.iter().map(|d| rel(base, vfs.file_path(*d).as_path().unwrap())).collect();
                (
                    rel(base, vfs.file_path(*f).as_path().unwrap()),
                    json!({"name": m.package_name, "deps": deps, "resolve": m.resolve_deps, "addrs": m.named_addresses, "missing": m.missing_dependencies}),
                )
            })
            .collect::<BTreeMap<_, _>>()
    });
    let folders = ProjectFolders::new(&valid);
    // which folders are loaded and watched
    let mut watch = vec![];
    for (i, e) in folders.load.iter().enumerate() {
        if let vfs::loader::Entry::Directories(d) = e {
            for inc in &d.include {
                watch.push(json!([rel(base, inc), d.extensions, folders.watch.contains(&i)]));
            }
        }
    }
    let (mut own, mut forf) = (BTreeMap::new(), BTreeMap::new());
    let probes: Vec<String> = v["probes"].as_array().unwrap().iter().map(|p| p.as_str().unwrap().to_owned()).collect();
    for p in &probes {
        vfs.set_file_contents(abs(p).into(), Some(vec![]));
    }
    let parts = folders.package_root_config.partition_into_package_roots(&vfs);
    for p in &probes {
        let vp = vfs::VfsPath::from(abs(p));
        let hits: Vec<_> = parts.iter().filter(|r| r.file_for_path(&vp).is_some()).collect();
        let root = match hits[..] {
            [r] => r,
            _ => { own.insert(p.clone(), json!(["count", hits.len()])); continue }
        };
        let o = root.manifest_file_id.map(|m| rel(base, vfs.file_path(m).as_path().unwrap()));
        own.insert(p.clone(), json!([o, root.is_library()]));
        forf.insert(p.clone(), DiscoveredManifest::discover_for_file(&abs(p)).map(|m| json!([rel(base, &m.move_toml_file), m.resolve_deps])));
    }
    json!({"disc": disc, "pkgs": pkgs, "errors": errors, "graph": graph, "own": own, "for": forf, "watch": watch})
}

fn main() {
    // HOME is where the git dependency cache lives
    let base: PathBuf = std::env::current_dir().unwrap().join(format!("fs-{}", std::process::id()));
    unsafe { std::env::set_var("HOME", base.join("home")) };
    hlib::serve(move |v| {
        let _ = std::fs::remove_dir_all(&base);
        std::fs::create_dir_all(&base).unwrap();
        load(&base, v)
    });
}
