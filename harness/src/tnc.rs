//! The simulated modem: a state machine on the other side of the control and data connections.

use crate::hist::Ev;
use crate::kernel::*;
use crate::tape::Lane;
use std::cell::RefCell;
use std::io::ErrorKind;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Link {
    Idle,
    Connecting(usize),
    Connected(usize),
    Disconnecting(usize),
}

/// What the modem put on its control connection.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Said {
    Reply { cmd: usize, ok: bool },
    Alive,
    Buffer(u64),
    Busy(bool),
    Ptt(bool),
    Registered(String),
    Connected(usize),
    Disconnected(Option<usize>),
    Pending,
    Canceled,
    /// What a modem should not say there (only with `wild`).
    Stray,
    /// Not a line the program knows.
    Bad,
}

impl Said {
    pub fn is_state(&self) -> bool {
        matches!(self, Said::Connected(_) | Said::Disconnected(_) | Said::Pending | Said::Canceled)
    }
}

#[derive(Clone, Debug)]
pub struct Line {
    pub said: Said,
    /// Position in the control stream after the line.
    pub end: u64,
    pub idx: usize,
}

#[derive(Clone, Debug)]
pub struct Cmd {
    pub text: Vec<u8>,
    pub idx: usize,
    pub handled_idx: Option<usize>,
    /// Which line answered, and how.
    pub reply: Option<(usize, bool)>,
    /// The attempt open at the modem when the command was carried out.
    pub during: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct Attempt {
    pub cmd: usize,
    /// Data stream position (towards the program) when the link came up, and at its end.
    pub up_at: Option<u64>,
    pub up_idx: Option<usize>,
    pub data_end: u64,
    pub down_idx: Option<usize>,
    /// The modem ended it by itself (remote disconnect, failure), not because it was told to.
    pub ended_by_modem: bool,
    /// Line index of the DISCONNECTED report that ended it.
    pub down_line: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct TncCfg {
    pub wrong: u32,
    pub reply_delay: u64,
    pub flush_delay: u64,
    pub idle_disconnect_ok: bool,
    pub chatter: u32,
    pub chatter_gap: u64,
    pub outcome_delay: u64,
    /// Weights of connect outcomes: connected, failed, pending first, canceled, nothing.
    pub outcomes: [u32; 5],
    pub refuse_disconnect: bool,
    pub down_delay: u64,
    pub remote_bytes: u32,
    pub remote_gap: u64,
    /// Whether the remote station ends sessions by itself.
    pub remote_ends: u32,
    pub register: bool,
    pub ptt_around: bool,
    pub exact_data: Option<Vec<u8>>,
    pub echo_buffer: bool,
    /// Whether garbage may be any line, even one that is understood.
    pub wild: bool,
    /// So many lines of one kind at some time (only with `wild`).
    pub flood: u32,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum LinkFault {
    Eof,
    Reset,
    Garbage,
    DataEof,
    DataReset,
    StallControl(u64),
    StallData(u64),
    Silent,
}

/// When an injected link fault strikes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Trigger {
    Command(usize),
    LineOut(usize),
    Time(u64),
    Up(u64),
    DataOut(u64),
}

pub struct Tnc {
    pub cfg: TncCfg,
    pub ctl: Option<u64>,
    pub data: Option<u64>,
    inbuf: Vec<u8>,
    outbuf: Vec<u8>,
    flush_pending: bool,
    queue_busy: bool,
    queue: std::collections::VecDeque<usize>,
    pub link: Link,
    pub lines: Vec<Line>,
    pub cmds: Vec<Cmd>,
    pub attempts: Vec<Attempt>,
    pub data_in: Vec<u8>,
    pub data_out: Vec<u8>,
    pub lost: bool,
    pub lost_idx: Option<usize>,
    pub data_lost: bool,
    pub data_lost_idx: Option<usize>,
    silent: bool,
    pub recovered: bool,
    chatter_left: u32,
    buffer_value: u64,
    busy: bool,
    ptt: bool,
    pub faults: Vec<(Trigger, LinkFault)>,
    pub ctl_closed: bool,
    pub data_closed: bool,
    pub on_connected: Option<Rc<dyn Fn(&Rc<Kernel>, usize, &[u8], &[u8])>>,
    pub on_data: Option<Rc<dyn Fn(&Rc<Kernel>, usize, &[u8])>>,
    me: std::rc::Weak<RefCell<Tnc>>,
}

pub type TncRef = Rc<RefCell<Tnc>>;

/// The byte at position `i` of everything the modem ever sends as session data.
pub fn data_byte(i: u64) -> u8 {
    let x = i.wrapping_mul(0x9e3779b97f4a7c15);
    (x >> 56) as u8 ^ (x >> 24) as u8
}

impl Tnc {
    pub fn new(k: &Rc<Kernel>, cfg: TncCfg, faults: Vec<(Trigger, LinkFault)>) -> TncRef {
        let t = Rc::new_cyclic(|me| {
            RefCell::new(Tnc {
                chatter_left: cfg.chatter,
                cfg,
                ctl: None,
                data: None,
                inbuf: Vec::new(),
                outbuf: Vec::new(),
                flush_pending: false,
                queue_busy: false,
                queue: Default::default(),
                link: Link::Idle,
                lines: Vec::new(),
                cmds: Vec::new(),
                attempts: Vec::new(),
                data_in: Vec::new(),
                data_out: Vec::new(),
                lost: false,
                lost_idx: None,
                data_lost: false,
                data_lost_idx: None,
                silent: false,
                recovered: false,
                buffer_value: 0,
                busy: false,
                ptt: false,
                faults,
                ctl_closed: false,
                data_closed: false,
                on_connected: None,
                on_data: None,
                me: me.clone(),
            })
        });
        let _ = k;
        t
    }

    fn later(&self, k: &Rc<Kernel>, delay: u64, f: impl FnOnce(&mut Tnc, &Rc<Kernel>) + 'static) {
        let me = self.me.clone();
        k.after(delay, move |k| {
            if let Some(t) = me.upgrade() {
                f(&mut t.borrow_mut(), k)
            }
        });
    }

    /// Both connections are up (or just the control connection).
    pub fn attach_control(&mut self, k: &Rc<Kernel>, ep: u64) {
        self.ctl = Some(ep);
        if self.chatter_left > 0 {
            let gap = self.gap(k);
            self.later(k, gap, |t, k| t.chatter(k));
        }
        if self.cfg.flood > 0 {
            let at = k.range(Lane::Peer, 0, 30) * 100_000_000;
            let kind = if self.cfg.wild { k.choose(Lane::Peer, 13) } else { k.range(Lane::Peer, 3, 7) as u32 };
            let n = self.cfg.flood;
            self.later(k, at, move |t, k| t.flood(k, kind, n));
        }
        let timed: Vec<_> = self.faults.iter().filter_map(|(t, _)| if let Trigger::Time(at) = t { Some(*at) } else { None }).collect();
        for at in timed {
            self.later(k, at, move |t, k| t.trigger(k, |tr| tr == Trigger::Time(at)));
        }
    }

    pub fn attach_data(&mut self, _: &Rc<Kernel>, ep: u64) {
        self.data = Some(ep);
    }

    fn gap(&self, k: &Rc<Kernel>) -> u64 {
        match k.choose(Lane::Peer, 4) {
            0 => self.cfg.chatter_gap,
            1 => 0,
            2 => self.cfg.chatter_gap / 8,
            _ => self.cfg.chatter_gap * 3,
        }
    }

    fn trigger(&mut self, k: &Rc<Kernel>, hit: impl Fn(Trigger) -> bool) {
        let mut i = 0;
        while i < self.faults.len() {
            if hit(self.faults[i].0) {
                let (_, f) = self.faults.remove(i);
                self.strike(k, f);
            } else {
                i += 1;
            }
        }
    }

    fn strike(&mut self, k: &Rc<Kernel>, f: LinkFault) {
        if self.lost && !matches!(f, LinkFault::DataEof | LinkFault::DataReset | LinkFault::StallData(_)) {
            return;
        }
        match f {
            LinkFault::Eof | LinkFault::Reset => {
                let Some(ep) = self.ctl else { return };
                if self.ctl_closed {
                    return;
                }
                let reset = f == LinkFault::Reset;
                k.fault(if reset { "control-reset" } else { "control-eof" });
                if !reset || k.chance(Lane::Fault, 1, 2) {
                    self.flush(k);
                } else {
                    self.outbuf.clear();
                }
                let full = reset || k.chance(Lane::Fault, 1, 2);
                let now = reset && k.chance(Lane::Fault, 1, 2);
                k.end_to_sut(ep, if reset { Some(ErrorKind::ConnectionReset) } else { None }, full, now);
                self.lost = true;
                self.lost_idx = Some(k.hist_len());
                self.chatter_left = 0;
            }
            LinkFault::Garbage => {
                if self.ctl_closed || self.ctl.is_none() {
                    return;
                }
                k.fault("garbage-line");
                let text = if self.cfg.wild && k.chance(Lane::Fault, 2, 3) { wild(k) } else { k.pick(Lane::Fault, GARBAGE).to_vec() };
                self.emit_raw(k, Said::Bad, &text);
                self.flush(k);
                // The modem itself goes on; what it says from here on is lost on the program.
                self.lost = true;
                self.lost_idx = Some(k.hist_len());
            }
            LinkFault::DataEof | LinkFault::DataReset => {
                let Some(ep) = self.data else { return };
                if self.data_closed || self.data_lost {
                    return;
                }
                let reset = f == LinkFault::DataReset;
                k.fault(if reset { "data-reset" } else { "data-eof" });
                k.end_to_sut(ep, if reset { Some(ErrorKind::ConnectionReset) } else { None }, true, false);
                self.data_lost = true;
                self.data_lost_idx = Some(k.hist_len());
            }
            LinkFault::StallControl(d) => {
                let Some(ep) = self.ctl else { return };
                k.fault("control-stall");
                k.stall(ep, true);
                k.after(d, move |k| k.stall(ep, false));
            }
            LinkFault::StallData(d) => {
                let Some(ep) = self.data else { return };
                k.fault("data-stall");
                k.stall(ep, true);
                k.after(d, move |k| k.stall(ep, false));
            }
            LinkFault::Silent => {
                k.fault("modem-silent");
                self.silent = true;
            }
        }
    }

    /// The modem gets over whatever held it up: everything outstanding is answered.
    pub fn recover(&mut self, k: &Rc<Kernel>) {
        self.recovered = true;
        self.silent = false;
        self.faults.clear();
        if let Some(ep) = self.ctl {
            k.stall(ep, false);
        }
        if let Some(ep) = self.data {
            k.stall(ep, false);
        }
        if let Link::Connecting(n) = self.link {
            self.down(k, n, true);
        }
        self.work(k);
    }

    // ---- output

    fn emit(&mut self, k: &Rc<Kernel>, said: Said, text: &str) {
        self.emit_raw(k, said, text.as_bytes())
    }

    fn emit_raw(&mut self, k: &Rc<Kernel>, said: Said, text: &[u8]) {
        let Some(ep) = self.ctl else { return };
        if self.ctl_closed {
            return;
        }
        self.outbuf.extend_from_slice(text);
        self.outbuf.push(b'\r');
        let end = k.sent_total(ep) + self.outbuf.len() as u64;
        let idx = k.log(Ev::Sent { ep, line: String::from_utf8_lossy(text).into_owned(), end });
        self.lines.push(Line { said, end, idx });
        let n = self.lines.len();
        if !self.flush_pending {
            self.flush_pending = true;
            let d = match self.cfg.flush_delay {
                0 => 0,
                d => d / 4 * k.choose(Lane::Peer, 5) as u64,
            };
            self.later(k, d, |t, k| t.flush(k));
        }
        self.trigger(k, |t| t == Trigger::LineOut(n));
    }

    fn flush(&mut self, k: &Rc<Kernel>) {
        self.flush_pending = false;
        let Some(ep) = self.ctl else { return };
        if self.outbuf.is_empty() {
            return;
        }
        let out = std::mem::take(&mut self.outbuf);
        k.send_to_sut(ep, &out);
    }

    fn chatter(&mut self, k: &Rc<Kernel>) {
        if self.chatter_left == 0 || self.ctl_closed {
            return;
        }
        self.chatter_left -= 1;
        // Sometimes a whole burst at once.
        let burst = if k.chance(Lane::Peer, 1, 6) { k.range(Lane::Peer, 2, 6) } else { 1 };
        for _ in 0..burst {
            match k.choose(Lane::Peer, 10) {
                0 | 1 => {
                    self.buffer_value += k.range(Lane::Peer, 1, 3);
                    // Back to an earlier level now and then.
                    let v = match k.choose(Lane::Peer, 12) {
                        0..=3 => self.buffer_value % 3,
                        4 | 5 => self.buffer_value * 7_919,
                        6 => self.buffer_value * 100_000_007,
                        // The edges of the number types it may be kept in.
                        7 => k.pick(Lane::Peer, &[u64::MAX, i64::MAX as u64, 1 << 63, u32::MAX as u64, 1 << 32, i32::MAX as u64, 1 << 31, u16::MAX as u64, 255, 256]),
                        _ => self.buffer_value * 7,
                    };
                    self.emit(k, Said::Buffer(v), &format!("BUFFER {}", v));
                }
                2 | 3 => self.emit(k, Said::Alive, "IAMALIVE"),
                4 | 5 => {
                    self.busy = if k.chance(Lane::Peer, 1, 6) { self.busy } else { !self.busy };
                    self.emit(k, Said::Busy(self.busy), if self.busy { "BUSY ON" } else { "BUSY OFF" });
                }
                6 | 7 => self.ptt(k),
                8 => {
                    let id = self.some_call(k);
                    self.emit(k, Said::Registered(id.clone()), &format!("REGISTERED {}", id));
                }
                _ => {
                    if k.chance(Lane::Peer, 1, 3) && self.cfg.outcomes[2] > 0 {
                        self.emit(k, Said::Pending, "PENDING");
                        self.emit(k, Said::Canceled, "CANCELPENDING");
                    } else {
                        self.emit(k, Said::Alive, "IAMALIVE");
                    }
                }
            }
        }
        let gap = self.gap(k);
        self.later(k, gap, |t, k| t.chatter(k));
    }

    /// Says the same kind of thing many times over, also what a modem should not say.
    fn flood(&mut self, k: &Rc<Kernel>, kind: u32, left: u32) {
        if left == 0 || self.ctl_closed {
            return;
        }
        k.fault("report-flood");
        let n = left.min(50);
        for i in 0..n {
            match kind {
                0 | 1 => self.emit(k, Said::Stray, "OK"),
                2 => self.emit(k, Said::Stray, "WRONG"),
                3 => self.emit(k, Said::Alive, "IAMALIVE"),
                4 => self.emit(k, Said::Buffer((left - i) as u64), &format!("BUFFER {}", left - i)),
                5 => self.ptt(k),
                6 => {
                    self.busy = !self.busy;
                    self.emit(k, Said::Busy(self.busy), if self.busy { "BUSY ON" } else { "BUSY OFF" });
                }
                7 => {
                    let id = format!("K{}ABC", left - i);
                    self.emit(k, Said::Registered(id.clone()), &format!("REGISTERED {}", id));
                }
                8 => self.emit(k, Said::Stray, "DISCONNECTED"),
                9 => self.emit(k, Said::Pending, "PENDING"),
                10 => self.emit(k, Said::Stray, "CONNECTED N1ME W1REM"),
                11 => self.emit(k, Said::Stray, if i % 2 == 0 { "LINK REGISTERED" } else { "LINK UNREGISTERED" }),
                _ => self.emit(k, Said::Stray, if i % 2 == 0 { "DISCONNECTED" } else { "CONNECTED N1ME W1REM" }),
            }
        }
        let gap = self.gap(k) / 4;
        self.later(k, gap, move |t, k| t.flood(k, kind, left - n));
    }

    fn ptt(&mut self, k: &Rc<Kernel>) {
        self.ptt = !self.ptt;
        self.emit(k, Said::Ptt(self.ptt), if self.ptt { "PTT ON" } else { "PTT OFF" });
    }

    fn some_call(&self, k: &Rc<Kernel>) -> String {
        k.pick(Lane::Peer, &["KC1GSL", "KC1GSL-7", "N1A", "K1ABCDE", "KW1U-10"]).to_string()
    }

    // ---- commands

    fn command(&mut self, k: &Rc<Kernel>, text: Vec<u8>) {
        let ep = self.ctl.unwrap();
        let idx = k.log(Ev::Got { ep, line: String::from_utf8_lossy(&text).into_owned() });
        self.cmds.push(Cmd { text, idx, handled_idx: None, reply: None, during: None });
        let n = self.cmds.len();
        self.queue.push_back(n - 1);
        self.trigger(k, |t| t == Trigger::Command(n));
        self.work(k);
    }

    fn work(&mut self, k: &Rc<Kernel>) {
        if self.queue_busy || self.silent || self.queue.is_empty() {
            return;
        }
        self.queue_busy = true;
        let d = match self.cfg.reply_delay {
            0 => 0,
            d => d / 4 * k.choose(Lane::Peer, 5) as u64,
        };
        self.later(k, d, |t, k| {
            t.queue_busy = false;
            if t.silent {
                return;
            }
            if let Some(c) = t.queue.pop_front() {
                t.carry_out(k, c);
            }
            t.work(k);
        });
    }

    fn reply(&mut self, k: &Rc<Kernel>, cmd: usize, ok: bool) {
        if self.ctl_closed {
            return;
        }
        let line = self.lines.len();
        self.cmds[cmd].reply = Some((line, ok));
        self.emit(k, Said::Reply { cmd, ok }, if ok { "OK" } else { "WRONG" });
    }

    fn wrong(&self, k: &Rc<Kernel>) -> bool {
        self.cfg.wrong > 0 && k.chance(Lane::Fault, self.cfg.wrong, 16)
    }

    fn carry_out(&mut self, k: &Rc<Kernel>, c: usize) {
        if self.ctl_closed && self.cfg.register {
            // Answers into a closed connection go nowhere.
        }
        self.cmds[c].handled_idx = Some(k.hist_len());
        self.cmds[c].during = match self.link {
            Link::Idle => None,
            Link::Connecting(n) | Link::Connected(n) | Link::Disconnecting(n) => Some(n),
        };
        let text = String::from_utf8_lossy(&self.cmds[c].text).into_owned();
        let word = text.split(' ').next().unwrap_or("");
        match word {
            // Nobody would own a link through relays, so none ever comes about.
            "CONNECT" if text.split(' ').count() > 3 => {
                let ok = !self.wrong(k);
                if !ok {
                    k.fault("command-refused");
                }
                self.reply(k, c, ok);
            }
            "CONNECT" => {
                if self.link != Link::Idle || self.wrong(k) {
                    self.reply(k, c, false);
                    return;
                }
                let n = self.attempts.len();
                self.attempts.push(Attempt { cmd: c, up_at: None, up_idx: None, data_end: 0, down_idx: None, ended_by_modem: false, down_line: None });
                self.cmds[c].during = Some(n);
                self.link = Link::Connecting(n);
                k.log(Ev::PeerState { state: format!("connecting {}", n) });
                self.reply(k, c, true);
                let d = match self.cfg.outcome_delay {
                    0 => 0,
                    d => d / 8 * k.choose(Lane::Peer, 9) as u64,
                };
                if self.cfg.ptt_around && d > 0 {
                    self.ptt(k);
                    self.later(k, d / 2, |t, k| t.ptt(k));
                }
                if self.recovered {
                    self.cfg.outcomes[4] = 0;
                    self.cfg.outcomes[3] = 0;
                }
                let total: u32 = self.cfg.outcomes.iter().sum();
                let mut pick = k.choose(Lane::Peer, total);
                let mut kind = 0;
                while pick >= self.cfg.outcomes[kind] {
                    pick -= self.cfg.outcomes[kind];
                    kind += 1;
                }
                let words: Vec<String> = text.split(' ').map(|s| s.to_string()).collect();
                if d == 0 {
                    self.outcome(k, n, kind, words);
                } else {
                    self.later(k, d, move |t, k| t.outcome(k, n, kind, words));
                }
            }
            "DISCONNECT" | "ABORT" => match self.link {
                Link::Connecting(n) | Link::Connected(n) => {
                    if self.cfg.refuse_disconnect && k.chance(Lane::Fault, 1, 2) {
                        k.fault("disconnect-refused");
                        self.reply(k, c, false);
                        return;
                    }
                    self.link = Link::Disconnecting(n);
                    k.log(Ev::PeerState { state: format!("disconnecting {}", n) });
                    self.reply(k, c, true);
                    let d = if word == "ABORT" {
                        0
                    } else {
                        match self.cfg.down_delay {
                            0 => 0,
                            d => d / 4 * k.choose(Lane::Peer, 5) as u64,
                        }
                    };
                    if d == 0 {
                        self.down(k, n, false);
                    } else {
                        self.later(k, d, move |t, k| t.down(k, n, false));
                    }
                }
                _ => {
                    let ok = self.cfg.idle_disconnect_ok;
                    self.reply(k, c, ok);
                }
            },
            "MYCALL" | "COMPRESSION" | "LISTEN" | "BW500" | "BW2300" | "BW2750" => {
                let ok = !self.wrong(k);
                if !ok {
                    k.fault("command-refused");
                }
                self.reply(k, c, ok);
                if ok && word == "MYCALL" && self.cfg.register && k.chance(Lane::Peer, 1, 2) {
                    let call = text.split(' ').nth(1).unwrap_or("").to_string();
                    if reportable(&call) {
                        self.emit(k, Said::Registered(call.clone()), &format!("REGISTERED {}", call));
                    }
                }
            }
            _ => self.reply(k, c, false),
        }
    }

    fn outcome(&mut self, k: &Rc<Kernel>, n: usize, kind: usize, words: Vec<String>) {
        if self.link != Link::Connecting(n) {
            return;
        }
        match kind {
            0 => self.up(k, n, words),
            1 => self.down(k, n, true),
            2 => {
                self.emit(k, Said::Pending, "PENDING");
                let d = self.cfg.outcome_delay / 2;
                self.later(k, d, move |t, k| t.outcome(k, n, 0, words));
            }
            3 => {
                self.emit(k, Said::Canceled, "CANCELPENDING");
                let d = self.cfg.outcome_delay / 2;
                self.later(k, d, move |t, k| t.outcome(k, n, 1, words));
            }
            _ => k.fault("connect-without-outcome"),
        }
    }

    fn up(&mut self, k: &Rc<Kernel>, n: usize, words: Vec<String>) {
        self.link = Link::Connected(n);
        k.log(Ev::PeerState { state: format!("connected {}", n) });
        let a = words.get(1).cloned().unwrap_or_default();
        let b = words.get(2).cloned().unwrap_or_default();
        let line = if reportable(&a) && reportable(&b) { format!("CONNECTED {} {}", a, b) } else { "CONNECTED KC1GSL KW1U".to_string() };
        let at = self.data.map_or(0, |ep| k.sent_total(ep));
        self.attempts[n].up_at = Some(at);
        self.attempts[n].data_end = at;
        self.attempts[n].up_idx = Some(k.hist_len());
        self.emit(k, Said::Connected(n), &line);
        if let Some(f) = self.on_connected.clone() {
            let me = self.me.clone();
            k.after(0, move |k| {
                let _keep = me.upgrade();
                f(k, n, a.as_bytes(), b.as_bytes())
            });
        } else {
            self.remote_step(k, n);
        }
        let timed: Vec<_> = self.faults.iter().filter_map(|(t, _)| if let Trigger::Up(at) = t { Some(*at) } else { None }).collect();
        for at in timed {
            self.later(k, at, move |t, k| t.trigger(k, |tr| tr == Trigger::Up(at)));
        }
    }

    /// The remote station sends something, waits, or ends the session.
    fn remote_step(&mut self, k: &Rc<Kernel>, n: usize) {
        if self.link != Link::Connected(n) {
            return;
        }
        let d = match self.cfg.remote_gap {
            0 => 0,
            g => g / 4 * k.choose(Lane::Peer, 6) as u64,
        };
        self.later(k, d, move |t, k| {
            if t.link != Link::Connected(n) || t.data_closed || t.recovered {
                return;
            }
            if t.cfg.remote_ends > 0 && k.chance(Lane::Peer, t.cfg.remote_ends, 16) {
                k.count("remote-disconnect");
                t.down(k, n, true);
                return;
            }
            if t.cfg.remote_bytes > 0 {
                let len = match k.choose(Lane::Peer, 8) {
                    0..=3 => k.range(Lane::Peer, 1, 20),
                    4 | 5 => k.range(Lane::Peer, 1, 200),
                    6 => 1,
                    _ if t.cfg.remote_bytes > 20_000 => k.range(Lane::Peer, 200, 40_000),
                    _ => k.range(Lane::Peer, 200, 3000),
                } as u32;
                let len = len.min(t.cfg.remote_bytes);
                t.cfg.remote_bytes -= len;
                t.send_data_n(k, len as usize);
                t.remote_step(k, n);
            } else if t.cfg.remote_ends > 0 && k.chance(Lane::Peer, 1, 2) {
                k.count("remote-disconnect");
                t.down(k, n, true);
            }
        });
    }

    fn send_data_n(&mut self, k: &Rc<Kernel>, len: usize) {
        let Some(ep) = self.data else { return };
        let at = k.sent_total(ep);
        let bytes: Vec<u8> = (0..len as u64).map(|i| data_byte(at + i)).collect();
        self.send_data(k, &bytes);
    }

    /// Session data from the remote station.
    pub fn send_data(&mut self, k: &Rc<Kernel>, bytes: &[u8]) {
        let Some(ep) = self.data else { return };
        if self.data_closed || self.data_lost {
            return;
        }
        k.send_to_sut(ep, bytes);
        let end = k.sent_total(ep);
        self.data_out.extend_from_slice(bytes);
        if let Link::Connected(n) = self.link {
            self.attempts[n].data_end = end;
        }
        k.log(Ev::SentBytes { ep, bytes: bytes.to_vec(), end });
        self.trigger(k, |t| matches!(t, Trigger::DataOut(at) if at <= end));
    }

    /// The link goes down.
    pub fn down(&mut self, k: &Rc<Kernel>, n: usize, by_modem: bool) {
        match self.link {
            Link::Connecting(m) | Link::Connected(m) | Link::Disconnecting(m) if m == n => {}
            _ => return,
        }
        self.link = Link::Idle;
        k.log(Ev::PeerState { state: "idle".into() });
        let line = self.lines.len();
        self.attempts[n].down_idx = Some(k.hist_len());
        self.attempts[n].ended_by_modem = by_modem;
        if !self.ctl_closed {
            self.attempts[n].down_line = Some(line);
        }
        self.emit(k, Said::Disconnected(Some(n)), "DISCONNECTED");
    }
}

/// A callsign as modems report them.
/// Lines that mean nothing in the command protocol.
const GARBAGE: &[&[u8]] = &[
    b"FOO BAR",
    // Cut off where a longer line would go on.
    b"IAMALIV",
    b"BUFFER",
    b"REGISTERED",
    b"O",
    b"WRON",
    b"DISCONNECT",
    b"CANCELPENDIN",
    b"PENDIN",
    b"BUSY O",
    b"PTT OF",
    b"\xff\xfe\x80",
    b"OK WRONG",
    b"MISSING SOUNDCARD",
    b"caf\xe9",
    b"BUFFER -1",
    b"CONNECTED",
    b"BUFFER 99999999999999999999999999999999",
    b"BUFFER 12x",
    b"CONNECTED KC1GSL",
    b"BUSY MAYBE",
    b"PTT",
    b"\0\0\0\0",
    b"REGISTERED ?",
    b"ENCRYPTION DISABLED \xc3",
];

/// Any line, understood or not.
fn wild(k: &Rc<Kernel>) -> Vec<u8> {
    let l = Lane::Fault;
    let mut text: Vec<u8> = match k.choose(l, 4) {
        0 => (0..k.range(l, 1, 40)).map(|_| k.choose(l, 256) as u8).collect(),
        1 => {
            let b = k.choose(l, 256) as u8;
            vec![b; k.pick(l, &[31, 32, 33, 200, 5000])]
        }
        _ => {
            let line: &[u8] = k.pick(l, &[&b"OK"[..], b"WRONG", b"IAMALIVE", b"BUFFER 18446744073709551616", b"BUFFER 00000000000000000000000000000000000001", b"BUSY ON", b"PTT OFF", b"PENDING", b"CANCELPENDING", b"DISCONNECTED", b"CONNECTED KC1GSL-12 W1AW-3", b"CONNECTED KC1GSL W1AW", b"REGISTERED KC1GSL-12"]);
            let mut v = line.to_vec();
            for _ in 0..k.range(l, 0, 3) {
                let i = k.choose(l, v.len() as u32) as usize;
                match k.choose(l, 5) {
                    3 if i > 0 => v.truncate(i),
                    0 => v[i] = k.choose(l, 256) as u8,
                    1 if v.len() > 1 => {
                        v.remove(i);
                    }
                    2 => v.insert(i, b' '),
                    _ => v.extend_from_slice("\u{e9}\u{65e5}".as_bytes()),
                }
            }
            v
        }
    };
    for b in &mut text {
        if *b == b'\r' {
            *b = b'\n';
        }
    }
    text
}

pub fn reportable(c: &str) -> bool {
    let mut parts = c.splitn(2, '-');
    let base = parts.next().unwrap();
    let ok = (3..=7).contains(&base.len()) && base.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit());
    ok && match parts.next() {
        None => true,
        Some(s) => (1..=2).contains(&s.len()) && s.bytes().all(|b| b.is_ascii_digit() || b == b'R' || b == b'T'),
    }
}

impl Peer for Tnc {
    fn on_bytes(&mut self, k: &Rc<Kernel>, ep: u64, bytes: &[u8]) {
        if Some(ep) == self.ctl {
            for &b in bytes {
                if b == b'\r' {
                    let line = std::mem::take(&mut self.inbuf);
                    self.command(k, line);
                } else {
                    self.inbuf.push(b);
                }
            }
        } else if Some(ep) == self.data {
            self.data_in.extend_from_slice(bytes);
            if let Some(f) = self.on_data.clone() {
                let n = match self.link {
                    Link::Connected(n) => n,
                    _ => usize::MAX,
                };
                let bytes = bytes.to_vec();
                k.after(0, move |k| f(k, n, &bytes));
            }
            if self.cfg.echo_buffer && matches!(self.link, Link::Connected(_)) && k.chance(Lane::Peer, 1, 3) {
                let v = bytes.len() as u64;
                self.emit(k, Said::Buffer(v), &format!("BUFFER {}", v));
                if k.chance(Lane::Peer, 1, 2) {
                    self.later(k, 30 * MILLI, |t, k| {
                        if !t.ctl_closed {
                            t.emit(k, Said::Buffer(0), "BUFFER 0")
                        }
                    });
                }
            }
        }
    }

    fn on_close(&mut self, k: &Rc<Kernel>, ep: u64) {
        if Some(ep) == self.ctl {
            self.ctl_closed = true;
            self.chatter_left = 0;
            // A modem whose host goes away drops its link.
            match self.link {
                Link::Connecting(n) | Link::Connected(n) | Link::Disconnecting(n) => {
                    k.log(Ev::PeerState { state: format!("host gone in {:?}", self.link) });
                    let _ = n;
                }
                Link::Idle => {}
            }
        } else if Some(ep) == self.data {
            self.data_closed = true;
        }
    }
}

impl Tnc {
    /// Bytes of an incomplete command line.
    pub fn partial(&self) -> &[u8] {
        &self.inbuf
    }
}
