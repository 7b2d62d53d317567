//! A simulated rig on a serial line.

use crate::hist::Ev;
use crate::kernel::*;
use crate::tape::Lane;
use std::cell::RefCell;
use std::io::ErrorKind;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct RigCfg {
    /// How many pieces of noise it sends by itself.
    pub noise: u32,
    pub noise_gap: u64,
    /// Answers each order with something about once every so many (0: never).
    pub answers: u32,
    /// Noise may come in one very large piece.
    pub big: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LineFault {
    /// The line reaches its end: reads give nothing more.
    Eof,
    ReadError(ErrorKind),
    WriteError(ErrorKind),
    Stall(u64),
}

pub struct Rig {
    pub cfg: RigCfg,
    pub ep: Option<u64>,
    /// Everything the rig received.
    pub got: Vec<u8>,
    /// History position at which the stream had reached a length.
    pub got_at: Vec<(usize, usize)>,
    pub closed: bool,
    pub faults: Vec<(u64, LineFault)>,
    me: Option<std::rc::Weak<RefCell<Rig>>>,
    over: bool,
}

pub type RigRef = Rc<RefCell<Rig>>;

const NOISE: &[&[u8]] = &[
    b"?;",
    b";",
    b"ID017;",
    b";;",
    b"RX;",
    b"FA00007040000;",
    b"TX;",
    b"\xff\xfe;",
    b"\xe2\x82",
    b"\x00",
    b"AI0;TQ1;;",
    b"\xe2\x82\xac;\xf0\x9f",
    b"no end in sight",
    b"\r\n;\r",
];

impl Rig {
    pub fn new(cfg: RigCfg, faults: Vec<(u64, LineFault)>) -> RigRef {
        let r = Rc::new(RefCell::new(Rig { cfg, ep: None, got: Vec::new(), got_at: Vec::new(), closed: false, faults, me: None, over: false }));
        r.borrow_mut().me = Some(Rc::downgrade(&r));
        r
    }

    fn later(&self, k: &Rc<Kernel>, d: u64, f: impl FnOnce(&mut Rig, &Rc<Kernel>) + 'static) {
        let me = self.me.clone().unwrap();
        k.after(d, move |k| {
            if let Some(r) = me.upgrade() {
                f(&mut r.borrow_mut(), k)
            }
        });
    }

    fn opened(&mut self, k: &Rc<Kernel>) {
        if self.cfg.noise > 0 {
            let gap = k.range(Lane::Peer, 0, 4) * self.cfg.noise_gap / 2;
            self.later(k, gap, |r, k| r.chatter(k));
        }
        for (at, f) in std::mem::take(&mut self.faults) {
            self.later(k, at, move |r, k| r.fault(k, f));
        }
    }

    fn noise(&mut self, k: &Rc<Kernel>) {
        let Some(ep) = self.ep else { return };
        let l = Lane::Peer;
        let mut bytes = k.pick(l, NOISE).to_vec();
        if k.chance(l, 1, 4) {
            bytes.extend_from_slice(k.pick(l, NOISE));
        }
        if k.chance(l, 1, 8) {
            for _ in 0..k.range(l, 1, 60) {
                bytes.push(k.choose(l, 256) as u8);
            }
        }
        if k.chance(l, 1, 64) {
            // More than any buffer would be made for.
            let b = k.pick(l, b"x\0\xff");
            let n = 3000.max(std::mem::take(&mut self.cfg.big));
            bytes.extend(std::iter::repeat(b).take(n));
            if k.chance(l, 1, 2) {
                bytes.push(b';');
            }
        }
        k.log(Ev::SentBytes { ep, bytes: bytes.clone(), end: k.sent_total(ep) + bytes.len() as u64 });
        k.send_to_sut(ep, &bytes);
    }

    fn chatter(&mut self, k: &Rc<Kernel>) {
        if self.closed || self.over || self.cfg.noise == 0 {
            return;
        }
        self.cfg.noise -= 1;
        self.noise(k);
        let gap = k.range(Lane::Peer, 0, 4) * self.cfg.noise_gap / 2;
        self.later(k, gap, |r, k| r.chatter(k));
    }

    fn fault(&mut self, k: &Rc<Kernel>, f: LineFault) {
        let Some(ep) = self.ep else { return };
        if self.closed {
            return;
        }
        match f {
            LineFault::Eof => {
                k.fault("serial-end");
                self.over = true;
                k.end_to_sut(ep, None, false, false);
            }
            LineFault::ReadError(e) => {
                k.fault("serial-read-error");
                self.over = true;
                k.end_to_sut(ep, Some(e), false, false);
            }
            LineFault::WriteError(e) => {
                k.fault("serial-write-error");
                k.fail_writes(ep, e);
            }
            LineFault::Stall(d) => {
                k.fault("serial-stall");
                k.stall(ep, true);
                self.later(k, d, move |_, k| k.stall(ep, false));
            }
        }
    }
}

impl Peer for Rig {
    fn on_bytes(&mut self, k: &Rc<Kernel>, ep: u64, bytes: &[u8]) {
        if self.ep.is_none() {
            self.ep = Some(ep);
            self.opened(k);
            return;
        }
        for &b in bytes {
            self.got.push(b);
            if b == b';' && self.cfg.answers > 0 && !self.over && k.chance(Lane::Peer, 1, self.cfg.answers) {
                self.later(k, 0, |r, k| r.noise(k));
            }
        }
        self.got_at.push((self.got.len(), k.hist_len()));
    }

    fn on_close(&mut self, k: &Rc<Kernel>, _ep: u64) {
        self.closed = true;
        k.log(Ev::PeerState { state: "serial line closed".into() });
    }
}

/// The orders a rig was given, and what is left of an unfinished one.
pub fn orders(got: &[u8]) -> (Vec<String>, String) {
    let mut parts: Vec<String> = got.split(|&b| b == b';').map(|p| String::from_utf8_lossy(p).into_owned()).collect();
    let rest = parts.pop().unwrap_or_default();
    (parts, rest)
}

pub fn draw_faults(k: &Rc<Kernel>, weight: u32, span: u64) -> Vec<(u64, LineFault)> {
    let l = Lane::Fault;
    let mut out = Vec::new();
    if k.chance(l, weight, 16) {
        let at = k.range(l, 0, 40) * span / 40;
        let e = k.pick(l, &[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::NotConnected, ErrorKind::TimedOut]);
        out.push((at, k.pick(l, &[LineFault::Eof, LineFault::ReadError(e), LineFault::WriteError(e)])));
    }
    for _ in 0..2 {
        if k.chance(l, 3, 16) {
            out.push((k.range(l, 0, 40) * span / 40, LineFault::Stall(k.pick(l, &[10 * MILLI, 300 * MILLI, 4 * SEC, 40 * SEC, 900 * SEC]))));
        }
    }
    out
}
