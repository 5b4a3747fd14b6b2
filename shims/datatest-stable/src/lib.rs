//! Offline stand-in: run a function over every matching file below a root.
use std::path::{Path, PathBuf};
pub type Result<T> = std::result::Result<T, Box<dyn std::error::Error>>;
fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    es.sort();
    for e in es { if e.is_dir() { walk(&e, out) } else { out.push(e) } }
}
#[doc(hidden)]
pub fn run(tests: &[(&str, fn(&Path) -> Result<()>, &str, &str)]) -> ! {
    let filter = std::env::args().skip(1).find(|a| !a.starts_with('-'));
    let (mut ok, mut bad) = (0, 0);
    std::panic::set_hook(Box::new(|_| ()));
    for (name, f, root, pat) in tests {
        let re = regex::Regex::new(pat).unwrap();
        let mut files = Vec::new();
        walk(Path::new(root), &mut files);
        for p in files {
            if !re.is_match(p.to_str().unwrap()) { continue; }
            let id = format!("{name}::{}", p.display());
            if filter.as_ref().is_some_and(|x| !id.contains(x.as_str())) { continue; }
            let r = std::panic::catch_unwind(|| f(&p).map_err(|e| e.to_string()));
            match r { Ok(Ok(())) => ok += 1, _ => { bad += 1; println!("test {id} ... FAILED") } }
        }
    }
    println!("test result: {}. {ok} passed; {bad} failed", if bad == 0 { "ok" } else { "FAILED" });
    std::process::exit(if bad == 0 { 0 } else { 101 })
}
#[macro_export]
macro_rules! harness {
    ( $( { test = $f:path, root = $root:expr, pattern = $pat:expr $(,)? } ),* $(,)? ) => {
        fn main() { $crate::run(&[ $( (stringify!($f), $f as fn(&::std::path::Path) -> $crate::Result<()>, $root, $pat) ),* ]) }
    };
}
