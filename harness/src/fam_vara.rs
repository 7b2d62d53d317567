//! The modem client against a simulated modem: clients that call, share, abandon and drop the
//! handle, sessions with readers and writers, and a modem that answers late, in pieces, in
//! bursts, wrongly or not at all, or goes away.

use crate::clients::*;
use crate::kernel::*;
use crate::run::*;
use crate::tape::{Lane, Tape};
use crate::tnc::*;
use plusendi::modem::vara::*;
use plusendi::real_tokio::io::{split, AsyncReadExt, AsyncWriteExt, ReadBuf};
use plusendi::StationId;
use std::cell::RefCell;
use std::future::Future;
use std::io::{ErrorKind, IoSlice};
use std::net::{IpAddr, SocketAddr};
use std::num::NonZeroU16;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CallKind {
    Plain,
    /// `send_disconnect` or `send_abort` outside a session.
    Explicit,
    Connect,
    /// `disconnect` or `abort` of a session.
    Close,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok,
    Err(String),
    Abandoned,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub kind: CallKind,
    /// The line this call stands for, without the line end.
    pub line: Vec<u8>,
    pub begin: usize,
    pub end: Option<usize>,
    pub out: Option<Out>,
    /// When the caller gave up, if it did.
    pub given_up: Option<usize>,
}

impl Call {
    pub fn open_at(&self, idx: usize) -> bool {
        self.begin < idx && self.end.map_or(true, |e| e >= idx)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Io {
    Bytes(Vec<u8>),
    Wrote(usize),
    Done,
    End,
    Err(ErrorKind),
    Abandoned,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Read,
    Write,
    Flush,
    Shutdown,
}

#[derive(Clone, Debug)]
pub struct IoRec {
    pub op: Op,
    pub len: usize,
    pub begin: usize,
    pub end: Option<usize>,
    pub out: Option<Io>,
    /// The latest moment before `begin` at which nothing was left to run, as far as the client knows.
    pub quiet: Option<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CloseKind {
    Drop,
    Disconnect,
    Abort,
}

#[derive(Clone, Debug)]
pub struct Sess {
    pub call: usize,
    pub opened: usize,
    pub io: Vec<IoRec>,
    pub close: Option<(CloseKind, usize)>,
    /// When dropping it was over.
    pub dropped: Option<usize>,
    pub close_call: Option<usize>,
    /// Quiet moment directly before closing.
    pub close_quiet: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct See {
    pub what: &'static str,
    pub key: String,
    pub value: String,
    pub idx: usize,
    pub quiet: Option<usize>,
    pub blocked: bool,
}

#[derive(Clone, Debug)]
pub struct Snap {
    pub idx: usize,
    pub ctl_arrived: u64,
    pub ctl_read: u64,
    pub data_arrived: u64,
    pub data_read: u64,
    pub ctl_blocked: bool,
    pub link: Link,
    pub live: Vec<String>,
    pub open_ends: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct Build {
    pub begin: usize,
    pub begin_at: u64,
    pub end: Option<usize>,
    pub end_at: u64,
    pub ok: Option<bool>,
    pub abandoned: bool,
    pub control: (IpAddr, u16),
    pub data: Option<u16>,
    pub snap: Option<Snap>,
}

#[derive(Default)]
pub struct VLog {
    pub calls: Vec<Call>,
    pub sess: Vec<Sess>,
    pub sees: Vec<See>,
    pub snaps: Vec<Snap>,
    pub builds: Vec<Build>,
    /// Handles set up and dropped before with the same builder.
    pub earlier: Vec<Build>,
    pub tnc_dropped: Option<usize>,
    /// Bytes that session writes reported as accepted.
    pub accepted: u64,

    pub owner_done: bool,
    pub rejected_ids: u64,
}

pub type LogRef = Rc<RefCell<VLog>>;

/// The byte at position `i` of everything clients ever write in sessions.
pub fn write_byte(i: u64) -> u8 {
    data_byte(i ^ 0x5555_0000_0000)
}

#[derive(Clone)]
struct Plan {
    /// A long run with large pieces.
    big: bool,
    /// Calls that can be given up, to a modem that is far behind.
    pile: bool,
    rounds: u32,
    clients: u32,
    ops: u32,
    abandon_cmd: u32,
    abandon_connect: u32,
    abandon_io: u32,
    explicit: u32,
    connect: u32,
    nasty: u32,
    chunks: u32,
    think: u64,
    close: [u32; 4],
    ssid: bool,
    ptt_watchers: u32,
    readings: u32,
    sequential: bool,
    quiet_often: bool,
    no_pause: bool,
    relays: u32,
    vias: bool,
    /// Whether sessions are shut down while they are up.
    shut: bool,
}

struct Ctx {
    k: Rc<Kernel>,
    log: LogRef,
    tnc: TncRef,
    plan: Plan,
    next_id: RefCell<u32>,
    busy_texts: RefCell<Vec<String>>,
}

impl Ctx {
    fn begin(&self, kind: CallKind, line: &str) -> usize {
        let begin = self.k.hist_len();
        let mut log = self.log.borrow_mut();
        log.calls.push(Call { kind, line: line.as_bytes().to_vec(), begin, end: None, out: None, given_up: None });
        let id = log.calls.len() - 1;
        drop(log);
        self.k.log(crate::hist::Ev::Begin { call: id as u32, what: line.to_string() });
        id
    }

    fn end(&self, call: usize, out: Out) {
        let ev = match &out {
            Out::Ok => crate::hist::Ev::Ok { call: call as u32 },
            Out::Err(text) => crate::hist::Ev::Err { call: call as u32, text: text.clone() },
            Out::Abandoned => crate::hist::Ev::Abandon { call: call as u32 },
        };
        let idx = self.k.log(ev);
        let mut log = self.log.borrow_mut();
        log.calls[call].end = Some(idx);
        if out == Out::Abandoned {
            log.calls[call].given_up = Some(self.k.gave_up.get());
        }
        log.calls[call].out = Some(out);
    }

    /// A well-formed identity nobody used before.
    fn id(&self) -> (StationId, String) {
        loop {
            let n = {
                let mut n = self.next_id.borrow_mut();
                *n += 1;
                *n
            };
            let mut text = format!("K{}{}{}{}", n % 10, (b'A' + (n / 10 % 26) as u8) as char, (b'A' + (n / 260 % 26) as u8) as char, ["", "X", "YZ"][(n % 3) as usize]);
            if self.plan.ssid && self.k.chance(Lane::Work, 1, 3) {
                text.push_str(&format!("-{}", self.k.range(Lane::Work, 1, 15)));
            }
            // Identities that go beyond a plain callsign.
            if self.k.chance(Lane::Work, 1, 12) {
                text.push_str(self.k.pick(Lane::Work, &["/P", "/MM", "-\u{c9}", "\u{65e5}\u{672c}\u{8a9e}", "-\u{df}\u{df}\u{df}\u{df}\u{df}\u{df}\u{df}\u{df}", "#_@", "/AVERYLONGSUFFIXTHATNOBODYWOULDEVERUSEBUTMAYBE"]));
            }
            let mut given = text.clone();
            if self.k.chance(Lane::Work, 1, 5) {
                given = given.to_ascii_lowercase();
            }
            if self.plan.nasty > 0 && self.k.chance(Lane::Work, self.plan.nasty, 16) {
                let c = self.k.pick(Lane::Work, &["\r", "\n", "\rABORT\r", "\0", "\r\n", " X\rDISCONNECT", "\x7f", "\u{85}"]);
                let bad = match self.k.choose(Lane::Work, 3) {
                    0 => format!("{}{}", given, c),
                    1 => format!("{}{}", c, given),
                    _ => format!("{}{}N0CALL", given, c),
                };
                match StationId::new(bad.clone()) {
                    Ok(id) => return (id, bad.to_ascii_uppercase()),
                    Err(_) => {
                        self.log.borrow_mut().rejected_ids += 1;
                        continue;
                    }
                }
            }
            let id = StationId::new(given).expect("a well-formed callsign is accepted");
            return (id, text);
        }
    }

    fn giving_up(&self, weight: u32, long: u64) -> GiveUp {
        if weight == 0 || !self.k.chance(Lane::Work, weight, 16) {
            return GiveUp::Never;
        }
        match self.k.choose(Lane::Work, 4) {
            0 => GiveUp::Polls(1),
            1 => GiveUp::Polls(self.k.range(Lane::Work, 2, 4) as u32),
            2 => GiveUp::After(self.k.range(Lane::Work, 0, 60) * MILLI),
            _ => GiveUp::After(long / 16 * self.k.range(Lane::Work, 0, 24)),
        }
    }

    async fn think(&self) {
        if self.plan.think == 0 || self.plan.no_pause {
            return;
        }
        match self.k.choose(Lane::Work, 5) {
            0 | 1 => {}
            2 => self.k.sleep(self.plan.think / 8 * self.k.range(Lane::Work, 0, 8)).await,
            3 => {
                self.k.quiet().await;
            }
            _ => self.k.sleep(self.plan.think * self.k.range(Lane::Work, 1, 4)).await,
        }
    }

    fn see(&self, what: &'static str, key: &str, value: String, quiet: Option<usize>) {
        let idx = self.k.log(crate::hist::Ev::See { what, key: 0, value: value.clone() });
        let blocked = self.tnc.borrow().ctl.map_or(false, |c| self.k.is_write_blocked(c));
        self.log.borrow_mut().sees.push(See { what, key: key.to_string(), value, idx, quiet, blocked });
    }

    async fn readings(&self, v: &VaraTnc) {
        let quiet = if self.k.chance(Lane::Work, 1, 3) { Some(self.k.quiet().await) } else { None };
        for _ in 0..self.k.range(Lane::Work, 1, 3) {
            match self.k.choose(Lane::Work, 5) {
                0 => self.see("buffer", "", v.buffer().to_string(), quiet),
                1 => self.see("busy", "", format!("{:?}", v.busy_state()), quiet),
                2 => {
                    let t = self.k.nanos_of(v.last_heartbeat());
                    self.see("heartbeat", "", t.to_string(), quiet)
                }
                3 => {
                    let mut id = self.k.pick(Lane::Work, &["KC1GSL", "KC1GSL-7", "N1A", "K1ABCDE", "KW1U-10"]).to_string();
                    let flood = self.tnc.borrow().cfg.flood;
                    if flood > 0 && self.k.chance(Lane::Work, 2, 3) {
                        id = format!("K{}ABC", if self.k.chance(Lane::Work, 1, 2) { 1 } else { self.k.range(Lane::Work, 1, flood as u64) });
                    }
                    let s = StationId::new(&id).unwrap();
                    self.see("registered", &id, format!("{:?}", v.local_registration(&s)), quiet)
                }
                _ => {
                    let rx = v.subscribe_rig_command();
                    let c = *rx.borrow();
                    self.see("ptt", "", format!("{:?}", c), quiet)
                }
            }
        }
    }
}

fn err_text(e: &dyn std::fmt::Display) -> String {
    e.to_string()
}

async fn command(c: &Ctx, v: &VaraTnc) {
    let k = &c.k;
    if c.plan.explicit > 0 && k.chance(Lane::Work, c.plan.explicit, 16) {
        let abort = k.chance(Lane::Work, 1, 2);
        let g = c.giving_up(c.plan.abandon_cmd, SEC);
        let call = c.begin(CallKind::Explicit, if abort { "ABORT" } else { "DISCONNECT" });
        let r = if abort { give_up(k, v.send_abort(), g).await } else { give_up(k, v.send_disconnect(), g).await };
        c.end(call, result(r));
        return;
    }
    if c.plan.relays > 0 && k.chance(Lane::Work, c.plan.relays, 16) {
        relayed(c, v).await;
        return;
    }
    let kind = if c.plan.pile && k.chance(Lane::Work, 15, 16) { 0 } else { k.choose(Lane::Work, 4) };
    match kind {
        0 | 1 => {
            let (id, first) = c.id();
            let mut line = format!("MYCALL {}", first);
            let mut more = Vec::new();
            if k.chance(Lane::Work, 1, 4) {
                for _ in 0..k.pick(Lane::Work, &[1, 2, 1, 2, 4, 9]) {
                    // Nobody says that they have to be different.
                    let (id, text) = if k.chance(Lane::Work, 1, 8) { (id.clone(), first.clone()) } else { c.id() };
                    line.push(' ');
                    line.push_str(&text);
                    more.push(id);
                }
            }
            let g = c.giving_up(c.plan.abandon_cmd, SEC);
            let call = c.begin(CallKind::Plain, &line);
            let r = give_up(k, v.send_callsign(MyCallSigns(id, more)), g).await;
            c.end(call, result(r));
        }
        2 => {
            let (mode, text) = k.pick(Lane::Work, &[(CompressionMode::Text, "COMPRESSION TEXT"), (CompressionMode::Off, "COMPRESSION OFF"), (CompressionMode::Files, "COMPRESSION FILES")]);
            if !take_text(c, text) {
                return;
            }
            let call = c.begin(CallKind::Plain, text);
            let r = Some(v.send_compression(mode).await);
            c.end(call, result(r));
            c.busy_texts.borrow_mut().retain(|t| t != text);
        }
        _ => {
            let (mode, text) = k.pick(Lane::Work, &[(BandwidthMode::Wide, "BW2300"), (BandwidthMode::Narrow, "BW500"), (BandwidthMode::Tactical, "BW2750")]);
            if !take_text(c, text) {
                return;
            }
            let call = c.begin(CallKind::Plain, text);
            let r = Some(v.send_bandwidth(mode).await);
            c.end(call, result(r));
            c.busy_texts.borrow_mut().retain(|t| t != text);
        }
    }
}

/// Commands that no public call issues: connects through relays, and listening.
async fn relayed(c: &Ctx, v: &VaraTnc) {
    if !crate::hooks::COMMANDS {
        return;
    }
    let k = &c.k;
    let g = c.giving_up(c.plan.abandon_cmd, SEC);
    if !c.plan.vias || k.chance(Lane::Work, 1, 4) {
        let (mode, text) = k.pick(Lane::Work, &[(ListenMode::Disable, "LISTEN OFF"), (ListenMode::CQ, "LISTEN CQ"), (ListenMode::Enable, "LISTEN ON")]);
        if !take_text(c, text) {
            return;
        }
        let call = c.begin(CallKind::Plain, text);
        let r = Some(crate::hooks::send(v, Command::Listen(mode)).await);
        c.end(call, result(r));
        c.busy_texts.borrow_mut().retain(|t| t != text);
        return;
    }
    let ((origin, a), (target, b), (first, d)) = (c.id(), c.id(), c.id());
    let mut line = format!("CONNECT {} {} via {}", a, b, d);
    let path = if k.chance(Lane::Work, 1, 2) {
        let (second, e) = if k.chance(Lane::Work, 1, 6) { (first.clone(), d.clone()) } else { c.id() };
        line.push(' ');
        line.push_str(&e);
        ConnectPath::TwoHops { first, second }
    } else {
        ConnectPath::OneHop { digipeater: first }
    };
    let call = c.begin(CallKind::Plain, &line);
    let r = give_up(k, crate::hooks::send(v, Command::Connect(ConnectCommand { origin, target, path })), g).await;
    c.end(call, result(r));
}

/// Calls with the same text never overlap, so that a line always belongs to one call.
fn take_text(c: &Ctx, text: &str) -> bool {
    let mut busy = c.busy_texts.borrow_mut();
    if busy.iter().any(|t| t == text) {
        return false;
    }
    busy.push(text.to_string());
    true
}

fn result<T, E: std::fmt::Display>(r: Option<Result<T, E>>) -> Out {
    match r {
        None => Out::Abandoned,
        Some(Ok(_)) => Out::Ok,
        Some(Err(e)) => Out::Err(err_text(&e)),
    }
}

async fn caller(c: Rc<Ctx>, v: Rc<VaraTnc>) {
    for _ in 0..c.k.range(Lane::Work, 1, c.plan.ops as u64) {
        if c.plan.readings > 0 && c.k.chance(Lane::Work, c.plan.readings, 16) {
            c.readings(&v).await;
        } else {
            command(&c, &v).await;
        }
        c.think().await;
    }
}

async fn ptt_watcher(c: Rc<Ctx>, n: u32, mut rx: tokio::sync::watch::Receiver<TransceiverCommand>) {
    let key = format!("watch{}", n);
    loop {
        if rx.changed().await.is_err() {
            c.see("ptt-end", &key, String::new(), None);
            break;
        }
        let v = *rx.borrow();
        c.see("ptt", &key, format!("{:?}", v), None);
        if c.k.chance(Lane::Work, 1, 8) {
            c.k.sleep(20 * MILLI).await;
        }
    }
}

// ---- sessions

impl Ctx {
    fn io_begin(&self, s: usize, op: Op, len: usize, quiet: Option<usize>) -> usize {
        let begin = self.k.hist_len();
        let mut log = self.log.borrow_mut();
        log.sess[s].io.push(IoRec { op, len, begin, end: None, out: None, quiet });
        log.sess[s].io.len() - 1
    }

    fn io_end(&self, s: usize, i: usize, out: Io) {
        let idx = self.k.log(crate::hist::Ev::Did {
            what: "io",
            key: s as u32,
            bytes: format!("{:?} {:?}", self.log.borrow().sess[s].io[i].op, out).into_bytes(),
        });
        let mut log = self.log.borrow_mut();
        if let Io::Wrote(n) = out {
            log.accepted += n as u64;
        }
        let rec = &mut log.sess[s].io[i];
        rec.end = Some(idx);
        rec.out = Some(out);
    }

    async fn pause(&self) -> Option<usize> {
        match self.k.choose(Lane::Work, 8) {
            0..=4 => None,
            5 => Some(self.k.quiet().await),
            6 => {
                self.k.sleep(self.k.range(Lane::Work, 0, 30) * MILLI).await;
                None
            }
            _ if self.plan.quiet_often => Some(self.k.quiet().await),
            _ => {
                self.k.sleep(300 * MILLI).await;
                Some(self.k.quiet().await)
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Until {
    End,
    Reads(u32),
    Time(u64),
}

async fn reader<R: plusendi::real_tokio::io::AsyncRead + Unpin>(c: &Ctx, s: usize, r: &mut R, until: Until) {
    let k = &c.k;
    let size = if c.plan.big { k.pick(Lane::Work, &[65536usize, 4096, 200_000, 1000]) } else { k.pick(Lane::Work, &[2048usize, 64, 1, 5, 300, 16]) };
    let started = k.now();
    let mut n = 0;
    let mut ended = 0;
    let mut quiet = None;
    loop {
        match until {
            Until::Reads(m) if n >= m => return,
            Until::Time(t) if k.now() >= started + t => return,
            _ => {}
        }
        n += 1;
        if k.now() > started + 120 * SEC {
            return;
        }
        let len = if k.chance(Lane::Work, 1, 6) { k.range(Lane::Work, 1, 40) as usize } else { size };
        let mut buf = vec![0; len];
        let mut g = c.giving_up(c.plan.abandon_io, 100 * MILLI);
        if g == GiveUp::Never {
            g = match until {
                Until::Time(t) => GiveUp::After((started + t).saturating_sub(k.now()).max(1)),
                _ => GiveUp::After(100 * SEC),
            };
        }
        let i = c.io_begin(s, Op::Read, len, quiet);
        quiet = None;
        let first = k.chance(Lane::Work, 1, 10);
        let got = if k.chance(Lane::Work, 1, 5) {
            let before = k.pick(Lane::Work, &[3usize, 1, 200]);
            give_up(k, elsewhere(first, read_behind(r, &mut buf, before)), g).await
        } else {
            give_up(k, elsewhere(first, r.read(&mut buf)), g).await
        };
        let out = match got {
            None => Io::Abandoned,
            Some(Ok(0)) => Io::End,
            Some(Ok(n)) => Io::Bytes(buf[..n].to_vec()),
            Some(Err(e)) => Io::Err(e.kind()),
        };
        c.io_end(s, i, out.clone());
        match out {
            Io::End | Io::Err(_) => {
                ended += 1;
                if ended > 2 {
                    return;
                }
                if k.chance(Lane::Work, 1, 3) {
                    k.sleep(10 * MILLI).await;
                }
            }
            _ => {}
        }
        if k.chance(Lane::Work, 1, 3) {
            quiet = c.pause().await;
        }
    }
}

/// Reads behind what a buffer holds already, as `read_to_end` does.
async fn read_behind<R: plusendi::real_tokio::io::AsyncRead + Unpin>(r: &mut R, buf: &mut [u8], before: usize) -> std::io::Result<usize> {
    let mut room = vec![0; before + buf.len()];
    let mut whole = ReadBuf::new(&mut room);
    whole.put_slice(&vec![0xa5; before]);
    std::future::poll_fn(|cx| Pin::new(&mut *r).poll_read(cx, &mut whole)).await?;
    let all = whole.filled();
    if all.len() < before || all[..before].iter().any(|&b| b != 0xa5) {
        return Err(std::io::Error::new(ErrorKind::InvalidData, "what the buffer held is gone"));
    }
    let n = all.len() - before;
    buf[..n].copy_from_slice(&all[before..]);
    Ok(n)
}

/// Polled once by another task, which then hands it over.
async fn elsewhere<F: Future>(first: bool, fut: F) -> F::Output {
    let mut fut = Box::pin(fut);
    if first {
        if let Poll::Ready(out) = fut.as_mut().poll(&mut Context::from_waker(std::task::Waker::noop())) {
            return out;
        }
    }
    fut.await
}

async fn writer<W: plusendi::real_tokio::io::AsyncWrite + Unpin>(c: &Ctx, s: usize, w: &mut W, chunks: u32) {
    let k = &c.k;
    let mut failed = 0;
    let mut quiet = None;
    for _ in 0..chunks {
        if k.chance(Lane::Work, 1, 2) {
            quiet = c.pause().await;
        }
        let from = c.log.borrow().accepted;
        let op = k.choose(Lane::Work, 12);
        let g = c.giving_up(c.plan.abandon_io, 100 * MILLI);
        let g = if g == GiveUp::Never { GiveUp::After(100 * SEC) } else { g };
        let out = match op {
            9 => {
                let i = c.io_begin(s, Op::Flush, 0, quiet);
                let out = unit(give_up(k, w.flush(), g).await);
                c.io_end(s, i, out.clone());
                out
            }
            10 if failed > 0 || c.plan.shut => {
                let i = c.io_begin(s, Op::Shutdown, 0, quiet);
                let out = unit(give_up(k, w.shutdown(), g).await);
                c.io_end(s, i, out.clone());
                if out == Io::Done {
                    return;
                }
                out
            }
            _ => {
                let len = match k.choose(Lane::Work, 6) {
                    0..=2 => k.range(Lane::Work, 1, 30),
                    3 | 4 => k.range(Lane::Work, 1, 300),
                    _ if c.plan.big => k.range(Lane::Work, 5000, 150_000),
                    _ => k.range(Lane::Work, 300, 5000),
                };
                let bytes: Vec<u8> = (from..from + len).map(write_byte).collect();
                let i = c.io_begin(s, Op::Write, bytes.len(), quiet);
                let first = k.chance(Lane::Work, 1, 10);
                let r = if k.chance(Lane::Work, 1, 3) {
                    let cut = k.choose(Lane::Work, bytes.len() as u32) as usize;
                    let (a, b) = bytes.split_at(cut);
                    let (b, d) = b.split_at(b.len() / 2);
                    let parts = [IoSlice::new(a), IoSlice::new(b), IoSlice::new(&[]), IoSlice::new(d)];
                    give_up(k, elsewhere(first, w.write_vectored(&parts)), g).await
                } else {
                    give_up(k, elsewhere(first, w.write(&bytes)), g).await
                };
                let out = match r {
                    None => Io::Abandoned,
                    Some(Ok(n)) => Io::Wrote(n),
                    Some(Err(e)) => Io::Err(e.kind()),
                };
                c.io_end(s, i, out.clone());
                out
            }
        };
        quiet = None;
        if let Io::Err(_) = out {
            failed += 1;
            if failed > 4 {
                return;
            }
        }
    }
}

fn unit(r: Option<std::io::Result<()>>) -> Io {
    match r {
        None => Io::Abandoned,
        Some(Ok(())) => Io::Done,
        Some(Err(e)) => Io::Err(e.kind()),
    }
}

async fn session(c: &Ctx, call: usize, stream: VaraStream<'_>) {
    let k = &c.k;
    let s = {
        let opened = k.hist_len();
        let mut log = c.log.borrow_mut();
        log.sess.push(Sess { call, opened, io: Vec::new(), close: None, dropped: None, close_call: None, close_quiet: None });
        log.sess.len() - 1
    };
    let until = match k.choose(Lane::Work, 6) {
        0 | 1 => Until::Reads(k.range(Lane::Work, 0, 6) as u32),
        2 | 3 => Until::End,
        4 => Until::Time(k.range(Lane::Work, 0, 40) * 100 * MILLI),
        _ => Until::Reads(0),
    };
    let chunks = if c.plan.chunks == 0 { 0 } else { k.range(Lane::Work, 0, c.plan.chunks as u64) as u32 };
    let stream = if c.plan.sequential {
        let mut stream = stream;
        if k.chance(Lane::Work, 1, 2) {
            writer(c, s, &mut stream, chunks).await;
            reader(c, s, &mut stream, until).await;
        } else {
            reader(c, s, &mut stream, until).await;
            writer(c, s, &mut stream, chunks).await;
        }
        stream
    } else {
        let (mut r, mut w) = split(stream);
        both(reader(c, s, &mut r, until), writer(c, s, &mut w, chunks)).await;
        r.unsplit(w)
    };
    let quiet = match k.choose(Lane::Work, 4) {
        0 if !c.plan.no_pause => {
            k.sleep(k.range(Lane::Work, 0, 20) * 50 * MILLI).await;
            None
        }
        1 => Some(k.quiet().await),
        _ => None,
    };
    let total: u32 = c.plan.close.iter().sum();
    let mut pick = k.choose(Lane::Work, total);
    let mut kind = 0;
    while pick >= c.plan.close[kind] {
        pick -= c.plan.close[kind];
        kind += 1;
    }
    let kind = [CloseKind::Drop, CloseKind::Disconnect, CloseKind::Abort, CloseKind::Drop][kind];
    c.log.borrow_mut().sess[s].close_quiet = quiet;
    let begin = k.log(crate::hist::Ev::Note { text: format!("close session {} by {:?}", s, kind) });
    c.log.borrow_mut().sess[s].close = Some((kind, begin));
    match kind {
        CloseKind::Drop => {
            drop(stream);
            let dropped = k.hist_len();
            c.log.borrow_mut().sess[s].dropped = Some(dropped);
        }
        _ => {
            let g = c.giving_up(c.plan.abandon_cmd, SEC);
            let line = if kind == CloseKind::Abort { "ABORT" } else { "DISCONNECT" };
            let call = c.begin(CallKind::Close, line);
            c.log.borrow_mut().sess[s].close_call = Some(call);
            let r = if kind == CloseKind::Abort { give_up(k, stream.abort(), g).await } else { give_up(k, stream.disconnect(), g).await };
            c.end(call, result(r));
        }
    }
}

async fn connect(c: &Ctx, v: &mut VaraTnc) {
    let k = &c.k;
    let (from, from_text) = c.id();
    let (to, to_text) = c.id();
    let g = c.giving_up(c.plan.abandon_connect, 2 * SEC);
    let call = c.begin(CallKind::Connect, &format!("CONNECT {} {}", from_text, to_text));
    let r = give_up(k, v.connect(from, to), g).await;
    match r {
        None => c.end(call, Out::Abandoned),
        Some(Err(e)) => c.end(call, Out::Err(err_text(&e))),
        Some(Ok(stream)) => {
            c.end(call, Out::Ok);
            session(c, call, stream).await;
        }
    }
}

// ---- setting up

/// What answers a connection that is not used.
struct Silent;

impl Peer for Silent {
    fn on_bytes(&mut self, _: &Rc<Kernel>, _: u64, _: &[u8]) {}
    fn on_close(&mut self, _: &Rc<Kernel>, _: u64) {}
}

async fn build(c: &Ctx, b: &mut VaraTncBuilder, control: (IpAddr, u16), data: Option<u16>, g: GiveUp, earlier: bool) -> Option<VaraTnc> {
    let k = &c.k;
    let begin = k.log(crate::hist::Ev::Note { text: "build".into() });
    {
        let at = k.now();
        let mut log = c.log.borrow_mut();
        let list = if earlier { &mut log.earlier } else { &mut log.builds };
        list.push(Build { begin, begin_at: at, end: None, end_at: 0, ok: None, abandoned: false, control, data, snap: None });
    }
    let r = give_up(k, b.build(), g).await;
    let end = k.log(crate::hist::Ev::Note { text: format!("built {:?}", r.as_ref().map(|r| r.is_ok())) });
    let mut log = c.log.borrow_mut();
    let bl = if earlier { &mut log.earlier } else { &mut log.builds }.last_mut().unwrap();
    bl.end = Some(end);
    bl.end_at = k.now();
    bl.ok = r.as_ref().map(|r| r.is_ok());
    bl.abandoned = r.is_none();
    match r {
        Some(Ok(v)) => Some(v),
        _ => None,
    }
}

async fn owner(c: Rc<Ctx>, mut b: VaraTncBuilder, control: (IpAddr, u16), data: Option<u16>) {
    let k = &c.k;
    let Some(mut v) = build(&c, &mut b, control, data, GiveUp::Never, false).await else {
        c.log.borrow_mut().owner_done = true;
        return;
    };
    for n in 0..c.plan.ptt_watchers {
        k.client("ptt-watcher", ptt_watcher(c.clone(), n, v.subscribe_rig_command()));
    }
    for _ in 0..k.range(Lane::Work, if c.plan.big { c.plan.rounds as u64 } else { 1 }, c.plan.rounds as u64) {
        let shared = c.plan.ops > 0 && k.chance(Lane::Work, 2, 3);
        if shared {
            let rc = Rc::new(v);
            let n = k.range(Lane::Work, 1, c.plan.clients as u64);
            let mut joins = Vec::new();
            for i in 1..n {
                joins.push(spawn_join(k, &format!("caller-{}", i), caller(c.clone(), rc.clone())));
            }
            caller(c.clone(), rc.clone()).await;
            for j in joins {
                j.wait().await;
            }
            v = Rc::try_unwrap(rc).expect("only the owner holds the handle");
        }
        for _ in 0..2 {
            if c.plan.connect > 0 && k.chance(Lane::Work, c.plan.connect, 16) {
                connect(&c, &mut v).await;
                c.think().await;
            }
        }
        if c.plan.readings > 0 && k.chance(Lane::Work, 1, 4) {
            c.readings(&v).await;
        }
    }
    let idx = k.log(crate::hist::Ev::Note { text: "drop handle".into() });
    c.log.borrow_mut().tnc_dropped = Some(idx);
    drop(v);
    c.log.borrow_mut().owner_done = true;
}

fn snap(c: &Ctx) -> Snap {
    let k = &c.k;
    let t = c.tnc.borrow();
    let pos = |e: Option<u64>, f: &dyn Fn(u64) -> u64| e.map_or(0, f);
    Snap {
        idx: k.log(crate::hist::Ev::Note { text: "settled".into() }),
        ctl_arrived: pos(t.ctl, &|e| k.arrived(e)),
        ctl_read: pos(t.ctl, &|e| k.read_total(e)),
        data_arrived: pos(t.data, &|e| k.arrived(e)),
        data_read: pos(t.data, &|e| k.read_total(e)),
        ctl_blocked: t.ctl.map_or(false, |e| k.is_write_blocked(e)),
        link: t.link,
        live: k.live(Kind::Sut).into_iter().map(|t| k.task_name(t)).collect(),
        open_ends: (0..k.ends()).filter(|&e| !k.is_closed(e)).collect(),
    }
}

async fn supervisor(c: Rc<Ctx>) {
    let look = c.clone();
    let look = move || {
        let s = snap(&look);
        look.log.borrow_mut().snaps.push(s);
    };
    c.k.settled(look.clone()).await;
    c.tnc.borrow_mut().recover(&c.k);
    c.k.settled(look).await;
}

// ---- a run

pub fn draw_cfg(k: &Rc<Kernel>, f: &Focus, big: bool) -> TncCfg {
    let p = Lane::Peer;
    let fast = k.chance(p, 1, 3);
    let ms = |k: &Rc<Kernel>, of: &[u64]| k.pick(p, of) * MILLI;
    let status = f.is(&["C04", "C05"]);
    let pendings = f.is(&["C06", "S03", "S05"]) && k.chance(p, 1, 3) || k.chance(p, 1, 6);
    TncCfg {
        wrong: k.pick(p, &[0, 0, 1, 3]),
        reply_delay: if fast { 0 } else { ms(k, &[0, 2, 20, 100, 400]) },
        flush_delay: if fast { 0 } else { ms(k, &[0, 0, 5, 50, 300]) },
        idle_disconnect_ok: k.chance(p, 1, 2),
        chatter: if big { k.pick(p, &[0, 100, 700]) } else { k.pick(p, if status { &[10, 30, 60, 120] } else { &[0, 5, 20, 40] }) },
        chatter_gap: ms(k, &[40, 3, 200]),
        outcome_delay: ms(k, &[0, 30, 300, 1500]),
        outcomes: if f.is(&["C06", "C07"]) {
            if pendings { [8, 4, 2, 2, 2] } else { [8, 5, 0, 0, 3] }
        } else if pendings {
            [10, 2, 1, 1, 1]
        } else {
            [12, 2, 0, 0, 1]
        },
        refuse_disconnect: k.chance(p, 1, 10),
        down_delay: ms(k, &[0, 5, 60, 600]),
        remote_bytes: if big { k.pick(p, &[3000, 30_000, 200_000]) } else { k.pick(p, &[0, 100, 1000, 6000]) },
        remote_gap: ms(k, &[0, 4, 40, 400]),
        remote_ends: k.pick(p, if f.is(&["S03", "S05"]) { &[1, 2, 6] } else { &[0, 1, 3] }),
        register: k.chance(p, 1, 2),
        ptt_around: k.chance(p, 1, 2),
        exact_data: None,
        echo_buffer: k.chance(p, 1, 3),
        wild: f.is(&["X01", "X02"]),
        flood: if k.chance(p, 1, if f.is(&["X01", "X02"]) { 60 } else if f.is(&["C04", "C05"]) { 150 } else { 400 }) { k.pick(p, &[300, 70, 700]) } else { 0 },
    }
}

pub fn draw_faults(k: &Rc<Kernel>, f: &Focus) -> Vec<(Trigger, LinkFault)> {
    let l = Lane::Fault;
    let mut out = Vec::new();
    let loss = if f.is(&["C03", "S04"]) {
        14
    } else if f.is(&["C01", "C02", "C06", "X02"]) {
        6
    } else {
        3
    };
    let trigger = |k: &Rc<Kernel>| match k.choose(l, 4) {
        0 => Trigger::Command(k.range(l, 1, 8) as usize),
        1 => Trigger::LineOut(k.range(l, 1, 25) as usize),
        2 => Trigger::Time(k.range(l, 0, 100) * 40 * MILLI),
        _ => Trigger::Up(k.range(l, 0, 20) * 20 * MILLI),
    };
    if k.chance(l, loss, 16) {
        let t = if f.is(&["S04"]) && k.chance(l, 2, 3) { Trigger::Up(k.range(l, 0, 30) * 20 * MILLI) } else { trigger(k) };
        out.push((t, k.pick(l, &[LinkFault::Eof, LinkFault::Reset, LinkFault::Garbage])));
    }
    let data = if f.is(&["S01", "S02", "S03"]) { 3 } else { 1 };
    if k.chance(l, data, 16) {
        out.push((trigger(k), k.pick(l, &[LinkFault::DataEof, LinkFault::DataReset])));
    }
    let stalls = if f.is(&["C01", "S02", "C08"]) { 6 } else { 2 };
    for _ in 0..2 {
        if k.chance(l, stalls, 16) {
            let d = k.pick(l, &[50 * MILLI, 500 * MILLI, 5 * SEC, 75 * SEC]);
            out.push((trigger(k), if k.chance(l, 1, 2) { LinkFault::StallData(d) } else { LinkFault::StallControl(d) }));
        }
    }
    if k.chance(l, if f.is(&["C08", "C03"]) { 4 } else { 1 }, 16) {
        out.push((trigger(k), LinkFault::Silent));
    }
    out
}

fn draw_plan(k: &Rc<Kernel>, f: &Focus, big: bool) -> Plan {
    let w = Lane::Work;
    let (rounds, ops) = if big { (k.pick(w, &[2, 12, 40]), k.pick(w, &[4, 12])) } else { (0, 0) };
    let sessions = f.property.starts_with('S') || f.is(&["C06", "C07"]);
    Plan {
        big,
        pile: false,
        rounds: if big { rounds } else { k.pick(w, if f.thorough { &[2, 4, 8] } else { &[1, 2, 3] }) },
        clients: k.pick(w, if f.is(&["C01", "C02"]) { &[3, 4, 2] } else { &[2, 1, 3] }),
        ops: if big { ops } else { 0 } + k.pick(w, if sessions { &[0, 1, 2] } else { &[3, 2, 6] }),
        abandon_cmd: k.pick(w, if f.is(&["C01", "C02", "C08"]) { &[0, 4, 8] } else { &[0, 0, 4] }),
        abandon_connect: k.pick(w, if f.is(&["C07", "S06"]) { &[8, 4, 12] } else { &[0, 1, 3] }),
        abandon_io: k.pick(w, &[0, 0, 3, 8]),
        explicit: k.pick(w, &[0, 0, 1, 3]),
        connect: if f.is(&["N03"]) { 0 } else if sessions { 15 } else { k.pick(w, &[8, 4, 14]) },
        nasty: if f.is(&["C01"]) { k.pick(w, &[0, 0, 3]) } else { 0 },
        chunks: k.pick(w, if f.is(&["S02"]) { &[8, 3, 20] } else { &[3, 0, 8] }),
        think: k.pick(w, &[0, 20 * MILLI, 200 * MILLI, SEC]),
        close: k.pick(w, &[[1, 0, 0, 0], [4, 2, 1, 0], [2, 2, 2, 0], [0, 1, 1, 0]]),
        ssid: k.chance(w, 1, 2),
        ptt_watchers: k.pick(w, &[1, 0, 2]),
        readings: k.pick(w, if f.is(&["C04", "C05"]) { &[10, 8, 13] } else { &[2, 0, 5] }),
        sequential: k.chance(w, 1, 4),
        quiet_often: f.is(&["S03", "S04"]),
        relays: if f.is(&["N03"]) { 10 } else if f.is(&["C01", "C02"]) { 1 } else { 0 },
        vias: f.is(&["N03"]),
        shut: k.chance(Lane::Work, 1, 4),
        no_pause: f.is(&["S06"]) && k.chance(w, 1, 2),
    }
}

pub fn run(f: &Focus, tape: Tape) -> RunOut {
    let k = Kernel::new(tape);
    let _world = plusendi::sim::install(Some(k.clone()));
    let drawn_verbose = k.chance(Lane::Work, 1, 4);
    crate::vtrace::set(f.verbose.unwrap_or(drawn_verbose));
    k.draw_policy();
    let big = k.chance(Lane::Work, 1, 400);
    let mut plan = draw_plan(&k, f, big);
    let mut cfg = draw_cfg(&k, f, big);
    // A modem that is far behind with its answers while callers come and give up.
    if !big && k.chance(Lane::Work, if f.is(&["C02", "C08"]) { 4 } else { 1 }, 240) {
        plan.pile = true;
        plan.ops = k.pick(Lane::Work, &[40, 16, 80]);
        plan.rounds = plan.rounds.max(2);
        plan.abandon_cmd = k.pick(Lane::Work, &[14, 12]);
        cfg.wrong = k.pick(Lane::Peer, &[4, 8, 1]);

        plan.think = k.pick(Lane::Work, &[0, 20 * MILLI]);
        cfg.reply_delay = k.pick(Lane::Peer, &[20 * SEC, 2 * SEC, 90 * SEC]);
    }
    let faults = if big && k.chance(Lane::Fault, 3, 4) { Vec::new() } else { draw_faults(&k, f) };
    let log: LogRef = Default::default();
    let tnc = Tnc::new(&k, cfg, faults);
    let c = Rc::new(Ctx { k: k.clone(), log: log.clone(), tnc: tnc.clone(), plan, next_id: RefCell::new(0), busy_texts: Default::default() });

    let set_up = f.is(&["C09"]) || k.chance(Lane::Work, 1, 24);
    let hosts = ["10.3.2.1", "2001:db8::7", "127.0.0.2", "::1", "255.255.255.254", "0.0.0.0", "fe80::1"];
    let control = if set_up { k.pick(Lane::Work, &[8300u16, 1, 65534, 65535, 12345]) } else { 8300 };
    let data = if set_up { k.pick(Lane::Work, &[None, Some(9000u16), Some(65535), Some(1), None]) } else { None };
    let data = if data == Some(control) { Some(9001) } else { data };
    let host = if set_up && k.chance(Lane::Work, 2, 3) { Some(k.pick(Lane::Work, &hosts).parse::<IpAddr>().unwrap()) } else { None };
    let mut b = VaraTnc::builder();
    let told_control = set_up || k.chance(Lane::Work, 1, 2);
    if let Some(h) = host {
        b.host(h);
    }
    if told_control {
        b.control_port(NonZeroU16::new(control).unwrap());
    }
    if let Some(d) = data {
        b.data_port(NonZeroU16::new(d).unwrap());
    }
    let host = host.unwrap_or("127.0.0.1".parse().unwrap());
    // Handles set up before with the same builder, for now configured like this.
    let earlier = if set_up && k.chance(Lane::Work, 1, 3) { k.range(Lane::Work, 1, 2) } else { 0 };
    let mut before = (control, data);
    if earlier > 0 && told_control && k.chance(Lane::Work, 1, 2) {
        before.0 = k.pick(Lane::Work, &[8300u16, 2, 65535, 40000]);
        b.control_port(NonZeroU16::new(before.0).unwrap());
    }
    if earlier > 0 && data.is_some() && k.chance(Lane::Work, 1, 2) {
        before.1 = Some(k.pick(Lane::Work, &[9002u16, 65534, 3]));
        b.data_port(NonZeroU16::new(before.1.unwrap()).unwrap());
    }
    let preliminary = Rc::new(std::cell::Cell::new(earlier > 0));
    {
        let tnc = tnc.clone();
        let preliminary = preliminary.clone();
        let fail = set_up;
        k.set_dialer(move |k, addr: SocketAddr, ep| {
            let l = Lane::Fault;
            let delay = if fail { k.pick(l, &[0, 5, 100, 2000]) * MILLI } else { k.pick(l, &[0, 0, 5]) * MILLI };
            let refuse = fail && k.chance(l, 1, 4);
            if refuse {
                k.fault("connection-refused");
                return DialPlan { delay, result: Err(k.pick(l, &[ErrorKind::ConnectionRefused, ErrorKind::TimedOut])), line_end: b'\r' };
            }
            if preliminary.get() {
                return DialPlan { delay, result: Ok((Rc::new(RefCell::new(Silent)), k.draw_net(true))), line_end: b'\r' };
            }
            // The control port is whichever is dialed first of a pair.
            let mut cfg = k.draw_net(true);
            let is_ctl = addr.port() == control;
            if !is_ctl && cfg.split == 3 {
                cfg.split = 1;
            }
            let t = tnc.clone();
            k.after(delay, move |k| {
                if k.is_closed(ep) {
                    return;
                }
                let mut t = t.borrow_mut();
                if is_ctl {
                    t.attach_control(k, ep)
                } else {
                    t.attach_data(k, ep)
                }
            });
            DialPlan { delay, result: Ok((tnc.clone(), cfg)), line_end: b'\r' }
        });
    }

    let sup = c.clone();
    if set_up {
        let c = c.clone();
        k.client("owner", async move {
            let patience = |k: &Rc<Kernel>| match k.choose(Lane::Work, 4) {
                0 | 1 => GiveUp::Never,
                2 => GiveUp::Polls(k.range(Lane::Work, 1, 3) as u32),
                _ => GiveUp::After(k.range(Lane::Work, 0, 50) * 50 * MILLI),
            };
            for _ in 0..earlier {
                let g = patience(&c.k);
                let v = build(&c, &mut b, (host, before.0), before.1, g, true).await;
                if v.is_some() && c.k.chance(Lane::Work, 1, 2) {
                    c.k.quiet().await;
                }
                drop(v);
                c.k.quiet().await;
                let s = snap(&c);
                c.log.borrow_mut().earlier.last_mut().unwrap().snap = Some(s);
            }
            preliminary.set(false);
            if before.0 != control {
                b.control_port(NonZeroU16::new(control).unwrap());
            }
            if before.1 != data {
                b.data_port(NonZeroU16::new(data.unwrap()).unwrap());
            }
            let g = patience(&c.k);
            let v = build(&c, &mut b, (host, control), data, g, false).await;
            if v.is_none() {
                // Nothing may be left behind.
                c.k.quiet().await;
                let s = snap(&c);
                c.log.borrow_mut().builds[0].snap = Some(s);
            } else if let Some(v) = v {
                let v = Rc::new(v);
                caller(c.clone(), v.clone()).await;
                let idx = c.k.log(crate::hist::Ev::Note { text: "drop handle".into() });
                c.log.borrow_mut().tnc_dropped = Some(idx);
                drop(v);
            }
            c.log.borrow_mut().owner_done = true;
        });
    } else {
        k.client("owner", owner(c.clone(), b, (host, control), data));
    }
    k.client("supervisor", supervisor(sup));
    drop(c);
    k.run();
    let live = k.live(Kind::Sut).into_iter().map(|t| k.task_name(t)).collect::<Vec<_>>();
    let fatal = k.fatal();
    k.tear_down();
    plusendi::sim::install(None);
    crate::vtrace::set(false);
    let mut out = RunOut::default();
    out.take(k.into_parts());
    let log = log.borrow();
    let t = tnc.borrow();
    crate::vara_check::check(&mut out, &log, &t, fatal, &live);
    out
}
