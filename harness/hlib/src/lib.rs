//! JSON lines in, one JSON line out per case; a panic in the code under test is an answer.
pub use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local!(static LAST: RefCell<String> = RefCell::new(String::new()));

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("HLIB_BT").is_some() {
            eprintln!("{m} @ {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST.with(|l| *l.borrow_mut() = format!("{m} @ {loc}"));
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

/// Runs `f` on every line of stdin, on a thread with a large stack.
pub fn serve(f: impl Fn(&Value) -> Value + Send + 'static) {
    quiet_panics();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let out = std::io::stdout();
            for line in std::io::stdin().lock().lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let v: Value = serde_json::from_str(&line).expect("harness input is JSON");
                let r = match guarded(|| f(&v)) {
                    Ok(v) => v,
                    Err(m) => json!({ "panic": m }),
                };
                let mut o = out.lock();
                writeln!(o, "{r}").unwrap();
                o.flush().unwrap();
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
