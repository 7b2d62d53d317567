//! The process's tracing subscriber: formats every field of every span and event into a sink
//! while the thread is in verbose mode, as a trace-level log would, and is off otherwise.

use std::cell::Cell;
use std::fmt::{self, Write};
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event, Metadata, Subscriber};

thread_local! {
    static VERBOSE: Cell<bool> = const { Cell::new(false) };
    static FORMATTED: Cell<u64> = const { Cell::new(0) };
}

pub fn set(verbose: bool) {
    VERBOSE.with(|v| v.set(verbose));
}

/// Bytes of log text formatted on this thread so far.
pub fn formatted() -> u64 {
    FORMATTED.with(|f| f.get())
}

struct Sink;

struct Counter(u64);

impl Write for Counter {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

impl Visit for Counter {
    fn record_debug(&mut self, field: &Field, value: &dyn fmt::Debug) {
        let _ = write!(self, "{}={:?} ", field.name(), value);
    }
}

impl Counter {
    fn done(self) {
        FORMATTED.with(|f| f.set(f.get() + self.0));
    }
}

impl Subscriber for Sink {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        VERBOSE.with(|v| v.get()) && !m.target().starts_with("mio")
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        let mut c = Counter(0);
        a.record(&mut c);
        c.done();
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        let mut c = Counter(0);
        r.record(&mut c);
        c.done();
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut c = Counter(0);
        e.record(&mut c);
        c.done();
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

pub fn init() {
    tracing::subscriber::set_global_default(Sink).expect("first subscriber");
}
