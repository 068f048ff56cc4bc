//! The code under test, in process.
use crate::rt::*;
use std::cell::RefCell;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

static mut SHM: *mut Shm = std::ptr::null_mut();
fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}

pub fn init(s: &mut Shm) {
    unsafe {
        SHM = s;
        am_attach(s);
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    // the first println allocates the buffer of the standard output
    let _ = std::io::stdout().flush();
}

/// What one run of a program text showed.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Value(String), // Debug text of the value
    Error,
    ParseError,
    Panic(String),
}
impl End {
    pub fn ok(&self) -> bool {
        matches!(self, End::Value(_))
    }
}

pub struct Session {
    pub ctx: lib::Context,
}
impl Session {
    pub fn new() -> Session {
        Session { ctx: lib::Context::new() }
    }
    /// Parses and evaluates `text` in this session, as `basjoofan eval` and the REPL do.
    pub fn eval(&mut self, text: &str) -> End {
        let ctx = &mut self.ctx;
        let r = catch_unwind(AssertUnwindSafe(|| match lib::Parser::new(text).parse() {
            Ok(lib::Source { exprs, requests, .. }) => {
                ctx.extend(requests);
                match lib::eval_block(&exprs, ctx) {
                    Ok(v) => End::Value(format!("{:?}", v)),
                    Err(_) => End::Error,
                }
            }
            Err(_) => End::ParseError,
        }));
        let r = r.unwrap_or_else(|_| End::Panic(last_panic()));
        let _ = std::io::stdout().flush();
        r
    }
    /// Display text of the value of `text`.
    pub fn text(&mut self, text: &str) -> Result<String, String> {
        let ctx = &mut self.ctx;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let s = lib::Parser::new(text).parse()?;
            ctx.extend(s.requests);
            lib::eval_block(&s.exprs, ctx).map(|v| v.to_string())
        }));
        let _ = std::io::stdout().flush();
        r.unwrap_or_else(|_| Err(format!("panic: {}", last_panic())))
    }
    pub fn var(&self, name: &str) -> Option<String> {
        self.ctx.get(name).map(|v| format!("{:?}", v))
    }
    /// The reports of the calls since the last time, and the record file they make.
    pub fn take(&mut self, test: &str, thread: u32, number: u32) -> (Vec<String>, Vec<u8>) {
        let records = self.ctx.records();
        let shown = records.iter().map(|r| r.to_string()).collect();
        let buf = Sink::default();
        let mut w = lib::Writer::new(buf.clone());
        w.write(&records, test, thread, number);
        let v = buf.0.borrow().clone();
        (shown, v)
    }
    /// The record file the calls so far produce.
    pub fn records_avro(&mut self, test: &str, thread: u32, number: u32) -> Vec<u8> {
        let records = self.ctx.records();
        let buf = Sink::default();
        let mut w = lib::Writer::new(buf.clone());
        w.write(&records, test, thread, number);
        let v = buf.0.borrow().clone();
        v
    }
}
#[derive(Clone, Default)]
pub struct Sink(pub std::rc::Rc<RefCell<Vec<u8>>>);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Begins a virtual-environment run; `end` stops it. Everything in between sees the configured world.
pub fn begin() {
    unsafe { am_begin() }
}
pub fn end() {
    let _ = std::io::stdout().flush();
    unsafe { am_end() }
}
pub fn trace() -> &'static Trace {
    &shm().tr
}
