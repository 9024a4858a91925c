use std::cell::RefCell;
thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn note_panic(i: &std::panic::PanicHookInfo) {
    let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
    LAST.with(|l| *l.borrow_mut() = format!("panicked at {loc}: {msg}"));
}
/// Runs `f`; a panic becomes Err with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}
pub fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn stmts(p: fajt_ast::Program) -> Vec<fajt_ast::Stmt> {
    match p {
        fajt_ast::Program::Script(l) | fajt_ast::Program::Module(l) => l.body,
    }
}
