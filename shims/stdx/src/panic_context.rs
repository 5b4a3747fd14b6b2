use std::{cell::RefCell, panic, sync::Once};
#[must_use]
#[non_exhaustive]
pub struct PanicContext;
impl Drop for PanicContext {
    fn drop(&mut self) {
        with_ctx(|ctx| assert!(ctx.pop().is_some()));
    }
}
pub fn enter(frame: String) -> PanicContext {
    fn set_hook() {
        let default_hook = panic::take_hook();
        panic::set_hook(Box::new(move |info| {
            with_ctx(|ctx| {
                if !ctx.is_empty() {
                    eprintln!("Panic context:");
                    for frame in ctx.iter() {
                        eprintln!("> {frame}\n");
                    }
                }
            });
            default_hook(info);
        }));
    }
    static SET_HOOK: Once = Once::new();
    SET_HOOK.call_once(set_hook);
    with_ctx(|ctx| ctx.push(frame));
    PanicContext
}
fn with_ctx(f: impl FnOnce(&mut Vec<String>)) {
    thread_local! { static CTX: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
    CTX.with(|ctx| f(&mut ctx.borrow_mut()));
}
