//! Packages on disk -> loaded database -> changes of texts -> questions of an editor.
use base_db::change::FileChanges;
use base_db::SourceDatabase;
use hlib::{guarded, json, Value};
use ide::{Analysis, AnalysisHost};
use ide_db::assists::AssistResolveStrategy;
use ide_diagnostics::config::DiagnosticsConfig;
use paths::AbsPathBuf;
use project_model::aptos_package::load_from_fs::load_aptos_packages;
use project_model::aptos_package::AptosPackage;
use project_model::dep_graph::collect_initial;
use project_model::project_folders::{PackageRootConfig, ProjectFolders};
use project_model::DiscoveredManifest;
use stdext::line_endings::LineEndings;
use std::collections::BTreeMap;
use std::path::Path;
use syntax::files::{FilePosition, FileRange};
use syntax::{AstNode, TextRange, TextSize};
use vfs::{FileId, Vfs};

struct W<'a> {
    base: &'a Path,
    vfs: Vfs,
    host: AnalysisHost,
    roots: PackageRootConfig,
}

fn packages(base: &Path) -> Vec<AptosPackage> {
    load_aptos_packages(DiscoveredManifest::discover_all(&[AbsPathBuf::assert_utf8(base.to_owned())])).valid_packages()
}

fn rng(r: TextRange) -> Value {
    json!([u32::from(r.start()), u32::from(r.end())])
}

impl W<'_> {
    /// What the server does when files were written, created or removed: texts, then package roots, and for a manifest
    /// everything of the project once more.
    fn write(&mut self, files: &Value) {
        let files = files.as_object().unwrap();
        for (f, c) in files {
            let p = self.base.join(f);
            match c.as_str() {
                Some(t) => {
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(&p, t).unwrap();
                }
                None => std::fs::remove_file(&p).unwrap(),
            }
            self.vfs.set_file_contents(AbsPathBuf::assert_utf8(p).into(), c.as_str().map(|t| t.as_bytes().to_vec()));
        }
        self.changed(false);
        if files.keys().any(|f| f.ends_with("Move.toml")) {
            let pkgs = packages(self.base);
            self.roots = ProjectFolders::new(&pkgs).package_root_config;
            let graph = collect_initial(&pkgs, &mut self.vfs).unwrap_or_default();
            self.changed(true);
            let mut ch = FileChanges::new();
            ch.set_package_graph(graph);
            self.host.apply_change(ch);
        }
    }
    fn changed(&mut self, roots: bool) {
        let mut ch = FileChanges::new();
        let mut structure = roots;
        for (_, c) in self.vfs.take_changes() {
            structure |= c.is_created_or_deleted();
            let text = match c.change {
                vfs::Change::Create(v, _) | vfs::Change::Modify(v, _) => String::from_utf8(v).ok().map(|t| LineEndings::normalize(t).0),
                vfs::Change::Delete => None,
            };
            ch.change_file(c.file_id, text);
        }
        if structure {
            ch.set_package_roots(self.roots.partition_into_package_roots(&self.vfs));
        }
        self.host.apply_change(ch);
    }
    fn path(&self, f: FileId) -> String {
        match self.vfs.file_path(f).as_path() {
            Some(p) => {
                let p: &Path = p.as_ref();
                p.strip_prefix(self.base).map(|p| p.to_string_lossy().into_owned()).unwrap_or_else(|_| "OUTSIDE".into())
            }
            None => "builtins".into(),
        }
    }
    fn id(&self, p: &str) -> FileId {
        self.vfs.file_id(&AbsPathBuf::assert_utf8(self.base.join(p)).into()).unwrap_or_else(|| panic!("no file {p}")).0
    }
    fn edits(&self, c: &ide_db::source_change::SourceChange) -> Value {
        assert!(c.file_system_edits.is_empty());
        let mut out = BTreeMap::new();
        for (f, e) in &c.source_file_edits {
            let es: Vec<_> = e.iter().map(|i| json!([rng(i.range), i.new_text])).collect();
            out.insert(self.path(*f), es);
        }
        json!(out)
    }
    fn texts(&self, a: &Analysis, c: &ide_db::source_change::SourceChange) -> Value {
        let mut out = BTreeMap::new();
        for (f, e) in &c.source_file_edits {
            let mut t = a.file_text(*f).unwrap().to_string();
            e.apply(&mut t);
            out.insert(self.path(*f), t);
        }
        json!(out)
    }
    fn ask(&self, a: &Analysis, q: &Value) -> Value {
        let f = self.id(q["f"].as_str().unwrap());
        let off = TextSize::new(q["o"].as_u64().unwrap_or(0) as u32);
        let pos = FilePosition { file_id: f, offset: off };
        let cfg = DiagnosticsConfig::test_sample();
        match q["q"].as_str().unwrap() {
            "goto" => {
                let r = a.goto_definition_multi(pos).unwrap();
                let mut v: Vec<_> = r.map(|r| r.info).unwrap_or_default().iter().map(|t| json!([self.path(t.file_id), rng(t.focus_or_full_range())])).collect();
                v.sort_by_key(|v| v.to_string());
                json!(v)
            }
            "refs" => match a.find_all_refs(pos, None).unwrap() {
                None => Value::Null,
                Some(r) => {
                    let mut v: Vec<Value> = vec![];
                    for (f, rs) in &r.references {
                        v.extend(rs.iter().map(|r| json!([self.path(*f), rng(*r)])));
                    }
                    v.sort_by_key(|v| v.to_string());
                    json!({"decl": r.declaration.map(|t| json!([self.path(t.file_id), rng(t.focus_or_full_range())])), "refs": v})
                }
            },
            "rename" => match a.rename(pos, q["to"].as_str().unwrap()).unwrap() {
                Err(e) => json!({"err": e.to_string()}),
                Ok(c) => json!({"texts": self.texts(a, &c)}),
            },
            "prepare" => match a.prepare_rename(pos).unwrap() {
                Err(e) => json!({"err": e.to_string()}),
                Ok(r) => rng(r.range),
            },
            "diags" => {
                let d = a.full_diagnostics(&cfg, AssistResolveStrategy::All, f).unwrap();
                let mut v: Vec<_> = d.iter().map(|d| json!([d.code.as_str(), rng(d.range.range), d.message,
                    d.fixes.iter().flatten().map(|x| json!([x.label.to_string(), rng(x.target), x.source_change.as_ref().map(|c| self.texts(a, c))])).collect::<Vec<_>>()])).collect();
                v.sort_by_key(|v| v.to_string());
                json!(v)
            }
            "errs" => {
                let d = a.full_diagnostics(&cfg, AssistResolveStrategy::None, f).unwrap();
                let v: Vec<_> = d.iter().map(|d| json!({"code": d.code.as_str(), "range": rng(d.range.range), "message": d.message, "severity": format!("{:?}", d.severity)})).collect();
                json!(v)
            }
            // the types of all the expressions
            "types" => {
                let sema = lang::Semantics::new(self.host.raw_database(), f);
                let v: Vec<_> = sema.parse(f).syntax().descendants().filter_map(syntax::ast::Expr::cast).map(|e| {
                    let r = rng(e.syntax().text_range());
                    let t = sema.get_expr_type(&syntax::files::InFile::new(f, e)).map(|t| t.render(self.host.raw_database(), None));
                    json!([r, t])
                }).collect();
                json!(v)
            }
            "organize" => match a.organize_imports(f).unwrap() {
                None => Value::Null,
                Some(x) => x.source_change.map(|c| self.texts(a, &c)).unwrap_or(json!("nochange")),
            },
            "organize_edits" => match a.organize_imports(f).unwrap() {
                None => Value::Null,
                Some(x) => x.source_change.map(|c| self.edits(&c)).unwrap_or(json!("nochange")),
            },
            "type" => json!(a.expr_type_info(pos).unwrap()),
            "calltype" => json!(a.call_expr_type_info(pos).unwrap()),
            "hl" => json!(a.highlight(f).unwrap().iter().map(|h| json!([rng(h.range), h.highlight.to_string()])).collect::<Vec<_>>()),
            "related" => json!(a.highlight_related(pos).unwrap().map(|v| v.into_iter().map(rng).collect::<Vec<_>>())),
            "select" => {
                let e = q["e"].as_u64().unwrap_or(u32::from(off) as u64) as u32;
                rng(a.extend_selection(FileRange { file_id: f, range: TextRange::new(off, TextSize::new(e)) }).unwrap())
            }
            "hover" => json!(a.hover(pos).unwrap().map(|h| json!([rng(h.range), format!("{:?}", h.info)]))),
            "symbols" => json!(a.file_structure(f).unwrap().iter().map(|s| json!([s.label, rng(s.node_range), rng(s.navigation_range), s.parent])).collect::<Vec<_>>()),
            "sighelp" => json!(a.signature_help(pos).unwrap().map(|s| format!("{s:?}"))),
            "spec" => {
                let r = a.goto_specification(pos).unwrap();
                json!(r.map(|r| r.info).unwrap_or_default().iter().map(|t| json!([self.path(t.file_id), rng(t.focus_or_full_range())])).collect::<Vec<_>>())
            }
            // what the analysis knows of the project around a file
            "inputs" => {
                let db = self.host.raw_database();
                let Some(p) = db.try_file_package_id(f) else { return Value::Null };
                let sorted = |v: Vec<FileId>| {
                    let mut v: Vec<_> = v.into_iter().map(|f| self.path(f)).filter(|p| p.ends_with(".move")).collect();
                    v.sort();
                    v.dedup();
                    v
                };
                let sees = |p| lang::hir_db::transitive_dep_package_ids(db, p).into_iter().flat_map(|p| lang::hir_db::source_file_ids_in_package(db, p).iter().copied()).collect();
                let seen = lang::hir_db::reverse_transitive_dep_package_ids(db, p).into_iter().flat_map(|p| lang::hir_db::source_file_ids_in_package(db, p).iter().copied()).collect();
                json!({
                    "package": a.manifest_file_id(p).unwrap().map(|f| self.path(f)),
                    "specs": sorted(db.spec_related_files(f).data(db).into_iter().filter(|x| *x != f).collect()),
                    "sees": sorted(sees(p)),
                    "seen": sorted(seen),
                    "missing": lang::hir_db::missing_dependencies(db, p),
                    "addresses": lang::hir_db::named_addresses(db).into_iter().collect::<BTreeMap<_, _>>(),
                })
            }
            "complete" => {
                let cfg = ide_completion::config::CompletionConfig { allow_snippets: ide_db::AllowSnippets::new(q["snip"].as_bool().unwrap_or(false)), enable_imports_on_the_fly: q["fly"].as_bool().unwrap_or(false) };
                let text = a.file_text(f).unwrap();
                match a.completions(&cfg, pos, None).unwrap() {
                    None => Value::Null,
                    Some(v) => json!(v.into_iter().map(|i| {
                        let mut t = text.to_string();
                        i.text_edit.apply(&mut t);
                        let after = i.import_to_add.clone().map(|(p, s)| a.resolve_completion_edits(&cfg, pos, p.clone(), s).map(|es| json!([p, es.iter().flat_map(|e| e.iter()).map(|e| json!([rng(e.range), e.new_text])).collect::<Vec<_>>()])).unwrap());
                        json!({"label": i.label.primary, "kind": format!("{:?}", i.kind), "lookup": i.lookup, "range": rng(i.source_range),
                            "edits": i.text_edit.iter().map(|e| json!([rng(e.range), e.new_text])).collect::<Vec<_>>(), "import": after})
                    }).collect::<Vec<_>>()),
                }
            }
            "inlay" => {
                let all = q["all"].as_bool().unwrap_or(true);
                let cfg = ide::inlay_hints::InlayHintsConfig { render_colons: true, type_hints: all, tuple_type_hints: all, parameter_hints: all, range_exclusive_hints: all,
                    hide_closure_parameter_hints: false, fields_to_resolve: ide::inlay_hints::InlayFieldsToResolve::empty() };
                let r = q["e"].as_u64().map(|e| TextRange::new(off, TextSize::new(e as u32)));
                json!(a.inlay_hints(&cfg, f, r).unwrap().iter().map(|h| json!([rng(h.range), h.label.parts.iter().map(|p| p.text.clone()).collect::<String>(), format!("{:?}", h.kind), format!("{:?}", h.position)])).collect::<Vec<_>>())
            }
            "runnables" => json!(a.runnables(f).unwrap().iter().map(|r| json!([r.label(), rng(r.nav_item.focus_or_full_range())])).collect::<Vec<_>>()),
            "annotations" => {
                let cfg = ide::annotations::AnnotationConfig { annotate_runnables: true, annotate_fun_specs: true, location: ide::annotations::AnnotationLocation::AboveName };
                let v = a.annotations(&cfg, f).unwrap();
                json!(v.into_iter().map(|x| a.resolve_annotation(x).unwrap()).map(|x| json!([rng(x.range), match x.kind {
                    ide::annotations::AnnotationKind::Runnable(r) => json!(r.label()),
                    ide::annotations::AnnotationKind::HasSpecs { item_spec_refs, .. } => json!(item_spec_refs.map(|v| v.iter().map(|t| json!([self.path(t.file_id), rng(t.focus_or_full_range())])).collect::<Vec<_>>())),
                }])).collect::<Vec<_>>())
            }
            "hlrange" => {
                let e = q["e"].as_u64().unwrap_or(u32::from(off) as u64) as u32;
                json!(a.highlight_range(FileRange { file_id: f, range: TextRange::new(off, TextSize::new(e)) }).unwrap().iter().map(|h| json!([rng(h.range), h.highlight.to_string()])).collect::<Vec<_>>())
            }
            "tree" => json!(a.view_syntax_tree(f).unwrap().len()),
            "search" => {
                let mut v: Vec<_> = a.symbol_search(ide_db::symbol_index::Query::new(q["to"].as_str().unwrap(), None)).unwrap().iter()
                    .map(|t| json!([t.name, self.path(t.file_id), rng(t.focus_or_full_range())])).collect();
                v.sort_by_key(|v| v.to_string());
                json!(v)
            }
            "text" => json!(a.file_text(f).unwrap().to_string()),
            x => panic!("unknown question {x}"),
        }
    }
    fn answers(&self, qs: &Value) -> Value {
        let a = self.host.analysis();
        json!(qs
            .as_array()
            .map(|v| v.iter().map(|q| guarded(|| self.ask(&a, q)).unwrap_or_else(|m| json!({ "panic": m }))).collect::<Vec<_>>())
            .unwrap_or_default())
    }
}

fn case(base: &Path, v: &Value) -> Value {
    for (f, c) in v["files"].as_object().unwrap() {
        let p = base.join(f);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, c.as_str().unwrap()).unwrap();
    }
    let pkgs = packages(base);
    let (db, vfs) = ide_db::load::load_db(pkgs.as_slice()).unwrap();
    let mut w = W { base, vfs, host: AnalysisHost::with_database(db), roots: ProjectFolders::new(&pkgs).package_root_config };
    // the server has the builtins before the first package roots
    w.changed(true);
    let mut out = vec![w.answers(&v["queries"])];
    for s in v["steps"].as_array().into_iter().flatten() {
        if s["write"].is_object() {
            w.write(&s["write"]);
        }
        let mut ch = FileChanges::new();
        for (p, t) in s["change"].as_object().into_iter().flatten() {
            ch.change_file(w.id(p), t.as_str().map(|t| t.to_owned()));
        }
        w.host.apply_change(ch);
        out.push(w.answers(&s["queries"]));
    }
    json!(out)
}

fn main() {
    let root = std::path::PathBuf::from(std::env::args().nth(1).unwrap_or("/dev/shm".into()));
    let n = std::cell::Cell::new(0u64);
    hlib::serve(move |v| {
        n.set(n.get() + 1);
        let base = root.join(format!("h-ide-{}-{}", std::process::id(), n.get()));
        std::fs::create_dir_all(&base).unwrap();
        let r = guarded(|| case(&base, v));
        std::fs::remove_dir_all(&base).unwrap();
        r.unwrap_or_else(|m| json!({ "panic": m }))
    });
}
