//! The whole program: its real main function with the modem, the remote station, the rig and
//! the operator simulated.

use crate::fam_vara::{draw_cfg, draw_faults as draw_link_faults};
use crate::hist::Ev;
use crate::kernel::*;
use crate::rig::{draw_faults as draw_line_faults, orders, Rig, RigCfg};
use crate::run::*;
use crate::tape::{Lane, Tape};
use crate::tnc::*;
use crate::vara_check::Track;
use std::cell::RefCell;
use std::io::ErrorKind;
use std::net::SocketAddr;
use std::rc::Rc;

const NEVER: usize = usize::MAX;

/// Standard input, or where standard output goes if the program opens it as a stream.
#[derive(Default)]
struct Terminal {
    ep: Option<u64>,
    out: Option<u64>,
    /// Stream position after each line given.
    lines: Vec<u64>,
    eof: bool,
}

impl Terminal {
    fn line(&mut self, k: &Rc<Kernel>) {
        let Some(ep) = self.ep else { return };
        if self.eof {
            return;
        }
        let text: &[u8] = k.pick(Lane::Peer, &[&b"\n"[..], b"go ahead\n", b"\r\n", "73 d\u{e9}\n".as_bytes()]);
        let end = k.sent_total(ep) + text.len() as u64;
        k.log(Ev::SentBytes { ep, bytes: text.to_vec(), end });
        self.lines.push(end);
        k.send_to_sut(ep, text);
    }
    fn end(&mut self, k: &Rc<Kernel>) {
        let Some(ep) = self.ep else { return };
        if !self.eof {
            self.eof = true;
            k.count("stdin-end");
            k.end_to_sut(ep, None, false, false);
        }
    }
}

struct StdStream(Rc<RefCell<Terminal>>, bool);

impl Peer for StdStream {
    fn on_bytes(&mut self, k: &Rc<Kernel>, ep: u64, bytes: &[u8]) {
        if self.1 {
            self.0.borrow_mut().ep = Some(ep);
        } else if bytes.is_empty() {
            self.0.borrow_mut().out = Some(ep);
        } else {
            k.log(Ev::Print { text: String::from_utf8_lossy(bytes).into_owned() });
        }
    }
    fn on_close(&mut self, _: &Rc<Kernel>, _: u64) {}
}

#[derive(Default)]
struct ALog {
    /// When the program ended, and how.
    ended: Option<(usize, Result<(), String>)>,
    snaps: Vec<ASnap>,
    /// An endpoint the program could not open.
    refused: Option<usize>,
    /// Places the program went to that its command line does not name.
    astray: Vec<String>,
}

struct ASnap {
    idx: usize,
    data_blocked: bool,
    rig_blocked: bool,
    stdin_lines: usize,
    stdin_eof: bool,
}

/// What the remote station does.
struct Remote {
    /// Sent once the link is up: (delay, bytes).
    before: Vec<(u64, Vec<u8>)>,
    /// Sent once it has got the login (or without waiting for it).
    after: Vec<(u64, Vec<u8>)>,
    /// Sends the second part without waiting for the login.
    impatient: bool,
    /// Ends the session when it has sent everything.
    ends: Option<u64>,
    /// Ends the session this long after it began, whatever happens.
    cuts: Option<u64>,
    started: bool,
    got: Vec<u8>,
}

fn some_line(k: &Rc<Kernel>, out: &mut Vec<u8>, prompt: bool, big: bool) {
    let l = Lane::Peer;
    match k.choose(l, 8) {
        0 => {}
        1 | 2 => out.extend_from_slice(k.pick(l, &[&b"[WL2K-5.0-B2FWIHJM$]"[..], b";PQ: 12345678", b"CMS", b"*** 1.2.3.4", b"FF", b";FW: KC1GSL"])),
        3 => out.extend_from_slice(k.pick(l, &[&b"\xff\xfe"[..], b"caf\xe9", "\u{20ac}\u{1f4e1}".as_bytes(), b"\xe2\x82", b"\n", b"a\nb", b"\0"])),
        4 => {
            for _ in 0..k.range(l, 1, 30) {
                let b = k.choose(l, 256) as u8;
                out.push(if b == b'\r' { b'.' } else { b });
            }
        }
        5 => {
            for i in 0..k.pick(l, if big { &[700u64, 2500, 5000, 9000, 70_000] } else { &[63u64, 64, 65, 255, 700] }) {
                out.push(b'a' + (i % 26) as u8);
            }
        }
        _ => {
            for _ in 0..k.range(l, 1, 12) {
                out.push(b' ' + k.choose(l, 90) as u8);
            }
        }
    }
    while !prompt && out.last() == Some(&b'>') {
        out.pop();
    }
    if prompt {
        out.push(b'>');
    }
    out.push(b'\r');
}

fn lines(k: &Rc<Kernel>, n: u64, out: &mut Vec<u8>, prompts: bool, big: bool) {
    for _ in 0..n {
        let mut one = Vec::new();
        let prompt = prompts && k.chance(Lane::Peer, 1, 6);
        some_line(k, &mut one, prompt, big && k.chance(Lane::Peer, 1, 32));
        out.extend(one);
    }
}

fn chunks(k: &Rc<Kernel>, mut bytes: &[u8], gap: u64) -> Vec<(u64, Vec<u8>)> {
    let l = Lane::Peer;
    let mut out = Vec::new();
    let style = k.choose(l, 3);
    while !bytes.is_empty() {
        let n = match style {
            0 => bytes.len(),
            1 => k.range(l, 1, bytes.len().min(40) as u64) as usize,
            _ => bytes.iter().position(|b| *b == b'\r').map_or(bytes.len(), |p| p + 1),
        };
        let d = gap / 4 * k.choose(l, 5) as u64;
        out.push((d, bytes[..n].to_vec()));
        bytes = &bytes[n..];
    }
    out
}

impl Remote {
    fn draw(k: &Rc<Kernel>, big: bool) -> Remote {
        let l = Lane::Peer;
        let gap = k.pick(l, &[0, 4 * MILLI, 60 * MILLI, 600 * MILLI]);
        let mut first = Vec::new();
        let n = k.range(l, 0, if big { 100 } else { 5 });
        lines(k, n, &mut first, false, big);
        let prompts = k.chance(l, 9, 10);
        if prompts {
            some_line(k, &mut first, true, big && k.chance(l, 1, 8));
            if k.chance(l, 1, 2) {
                let n = k.range(l, 1, 4);
                lines(k, n, &mut first, true, big);
            }
        }
        if k.chance(l, 1, 4) {
            first.extend_from_slice(b"half a li");
        }
        let mut second = Vec::new();
        let n = k.range(l, 0, if big { 400 } else { 6 });
        lines(k, n, &mut second, true, big);
        if k.chance(l, 1, 6) {
            second.extend_from_slice(b"no end");
        }
        Remote {
            before: chunks(k, &first, gap),
            after: chunks(k, &second, gap),
            impatient: k.chance(l, 1, 4),
            ends: if k.chance(l, 2, 3) { Some(k.pick(l, &[0, 0, 20 * MILLI, SEC])) } else { None },
            cuts: if k.chance(l, 1, 5) { Some(k.range(l, 0, 40) * 30 * MILLI) } else { None },
            started: false,
            got: Vec::new(),
        }
    }
}

type RemoteRef = Rc<RefCell<Remote>>;

fn play(k: &Rc<Kernel>, t: TncRef, r: RemoteRef, n: usize, mut left: Vec<(u64, Vec<u8>)>, second: bool) {
    if left.is_empty() {
        if second {
            let e = r.borrow().ends;
            if let Some(d) = e {
                k.after(d, move |k| {
                    k.count("remote-disconnect");
                    t.borrow_mut().down(k, n, true)
                });
            }
        } else if r.borrow().impatient {
            answer(k, t, r, n);
        }
        return;
    }
    let (d, bytes) = left.remove(0);
    k.after(d, move |k| {
        if t.borrow().link != Link::Connected(n) {
            return;
        }
        t.borrow_mut().send_data(k, &bytes);
        play(k, t, r, n, left, second);
    });
}

fn answer(k: &Rc<Kernel>, t: TncRef, r: RemoteRef, n: usize) {
    let a = {
        let mut r = r.borrow_mut();
        if r.started {
            return;
        }
        r.started = true;
        std::mem::take(&mut r.after)
    };
    play(k, t, r, n, a, true);
}

pub fn run(f: &Focus, tape: Tape) -> RunOut {
    let k = Kernel::new(tape);
    let _world = plusendi::sim::install(Some(k.clone()));
    let drawn_verbose = k.chance(Lane::Work, 1, 4);
    crate::vtrace::set(f.verbose.unwrap_or(drawn_verbose));
    k.draw_policy();
    let big = k.chance(Lane::Work, 1, 300);
    let mut cfg = draw_cfg(&k, f, big);
    let p = Lane::Peer;
    cfg.wrong = k.pick(p, &[0, 0, 0, 0, 2]);
    cfg.remote_bytes = 0;
    cfg.remote_ends = 0;
    cfg.outcomes = k.pick(p, &[[1, 0, 0, 0, 0], [1, 0, 0, 0, 0], [12, 2, 1, 1, 1]]);
    if f.is(&["A01"]) {
        cfg.chatter = k.pick(p, if big { &[700, 100] } else { &[20, 60, 5] });
        cfg.ptt_around = true;
    }
    let faults = if f.is(&["A02", "A04"]) && k.chance(Lane::Fault, 3, 4) { Vec::new() } else { draw_link_faults(&k, f) };
    let log: Rc<RefCell<ALog>> = Default::default();
    let tnc = Tnc::new(&k, cfg, faults);
    let remote: RemoteRef = Rc::new(RefCell::new(Remote::draw(&k, big)));
    let term: Rc<RefCell<Terminal>> = Default::default();
    let rig = Rig::new(
        RigCfg { noise: k.pick(p, &[0, 2, 12]), noise_gap: k.pick(p, &[10 * MILLI, 200 * MILLI]), answers: k.pick(p, &[0, 1, 3]), big: 0 },
        draw_line_faults(&k, if f.is(&["A03", "X02"]) { 4 } else { 1 }, 3 * SEC),
    );
    // The program's command line.
    let w = Lane::Work;
    let call = k.pick(w, &["KC1GSL", "N1A", "KC1GSL-7", "KW1U-10"]);
    let target = k.pick(w, &["KW1U", "W1AW-10", "K1ABCDE"]);
    let control = k.pick(w, &[8300u16, 8300, 1, 40000]);
    let data = k.pick(w, &[None, None, Some(9000u16), Some(65535)]);
    let mut args: Vec<String> = ["plusendi", "--log", "info", "-d", call].iter().map(|s| s.to_string()).collect();
    if control != 8300 || k.chance(w, 1, 2) {
        args.push(format!("--modem-control-port={}", control));
    }
    if let Some(d) = data {
        args.push(format!("--modem-data-port={}", d));
    }
    let host = k.pick(w, &["127.0.0.1", "10.3.2.1", "::1", "127.0.0.2", "2001:db8::7"]);
    if host != "127.0.0.1" || k.chance(w, 1, 2) {
        args.push(format!("--modem-address={}", host));
    }
    let baud = k.pick(w, &["38400", "4800", "9600", "19200"]);
    args.push(format!("--rig-baud={}", baud));
    let device = k.pick(w, &["/dev/rig", "/dev/ttyUSB3"]);
    args.push(format!("--rig-control={}", device));
    let rig_name = format!("serial:{}:{}", device, baud);
    args.push(target.to_string());
    k.set_arguments(args);
    let expect_addr = |port: u16| SocketAddr::new(host.parse().unwrap(), port);
    let want = [expect_addr(control), expect_addr(data.unwrap_or(control.wrapping_add(1)))];
    {
        let (tnc, log) = (tnc.clone(), log.clone());
        k.set_dialer(move |k, addr, ep| {
            let l = Lane::Fault;
            let delay = k.pick(l, &[0, 0, 5 * MILLI]);
            if !want.contains(&addr) {
                log.borrow_mut().astray.push(format!("it dialed {} where {:?} were given", addr, want));
                log.borrow_mut().refused = Some(k.hist_len());
                return DialPlan { delay, result: Err(ErrorKind::ConnectionRefused), line_end: b'\r' };
            }
            if k.chance(l, 1, 64) {
                k.fault("connection-refused");
                log.borrow_mut().refused = Some(k.hist_len());
                return DialPlan { delay, result: Err(ErrorKind::ConnectionRefused), line_end: b'\r' };
            }
            let cfg = k.draw_net(true);
            let is_ctl = addr == want[0];
            let t = tnc.clone();
            k.after(delay, move |k| {
                if k.is_closed(ep) {
                    return;
                }
                let mut t = t.borrow_mut();
                if is_ctl {
                    t.attach_control(k, ep)
                } else {
                    t.attach_data(k, ep)
                }
            });
            DialPlan { delay, result: Ok((tnc.clone(), cfg)), line_end: b'\r' }
        });
    }
    {
        let mut serial_net = k.draw_net(false);
        serial_net.window = k.pick(Lane::Net, &[4096, 1, 2, 3]);
        let stdin_net = NetCfg { window: 4096, ..k.draw_net(false) };
        let (rig, term, log) = (rig.clone(), term.clone(), log.clone());
        k.set_devices(move |k, name| {
            if name == "stdin" {
                Ok((Rc::new(RefCell::new(StdStream(term.clone(), true))), stdin_net.clone(), b'\n'))
            } else if name == rig_name {
                if k.chance(Lane::Fault, 1, 64) {
                    k.fault("serial-open-failed");
                    log.borrow_mut().refused = Some(k.hist_len());
                    return Err(ErrorKind::NotFound.into());
                }
                Ok((rig.clone(), serial_net.clone(), b';'))
            } else if name == "stdout" {
                Ok((Rc::new(RefCell::new(StdStream(term.clone(), false))), NetCfg::default(), b'\n'))
            } else {
                log.borrow_mut().astray.push(format!("it opened {} where {} was given", name, rig_name));
                log.borrow_mut().refused = Some(k.hist_len());
                Err(ErrorKind::NotFound.into())
            }
        });
    }
    {
        let (t, r) = (Rc::downgrade(&tnc), remote.clone());
        tnc.borrow_mut().on_connected = Some(Rc::new(move |k, n, _, _| {
            let Some(t) = t.upgrade() else { return };
            let b = std::mem::take(&mut r.borrow_mut().before);
            if let Some(d) = r.borrow().cuts {
                let t = t.clone();
                k.after(d, move |k| {
                    k.count("remote-disconnect");
                    t.borrow_mut().down(k, n, true)
                });
            }
            play(k, t, r.clone(), n, b, false);
        }));
        let (t, r) = (Rc::downgrade(&tnc), remote.clone());
        tnc.borrow_mut().on_data = Some(Rc::new(move |k, n, bytes| {
            let Some(t) = t.upgrade() else { return };
            r.borrow_mut().got.extend_from_slice(bytes);
            if n != usize::MAX && r.borrow().got.ends_with(b"FF\r") {
                answer(k, t, r.clone(), n);
            }
        }));
    }
    {
        let (k2, log) = (k.clone(), log.clone());
        k.sut("main", async move {
            let r = crate::program::app::main().await.map_err(|e| e.to_string());
            let idx = k2.log(Ev::Note { text: format!("the program ended: {:?}", r) });
            log.borrow_mut().ended = Some((idx, r));
            // Its runtime goes away with it.
            for t in k2.live(Kind::Sut) {
                if k2.task_name(t) != "main" {
                    k2.abort_task(t);
                }
            }
        });
    }
    // The operator answers after some time, before or after being asked, or goes away.
    {
        let (k2, term) = (k.clone(), term.clone());
        let plan: Vec<(u64, bool)> = (0..k.range(w, 0, 3)).map(|_| (k.pick(w, &[0, 30 * MILLI, 400 * MILLI, 3 * SEC]), k.chance(w, 1, 12))).collect();
        let waits = k.chance(w, 1, 2);
        k.client("operator", async move {
            if waits {
                // Until there is something to answer.
                while term.borrow().ep.is_none() {
                    k2.quiet().await;
                    if k2.now() > 60 * SEC {
                        return;
                    }
                    k2.sleep(50 * MILLI).await;
                }
            }
            for (d, eof) in plan {
                k2.sleep(d).await;
                if eof {
                    term.borrow_mut().end(&k2);
                } else {
                    term.borrow_mut().line(&k2);
                }
            }
        });
    }
    {
        let (k2, log, rig, tnc, term) = (k.clone(), log.clone(), rig.clone(), tnc.clone(), term.clone());
        k.client("supervisor", async move {
            let look = {
                let (k, log, rig, tnc, term) = (k2.clone(), log.clone(), rig.clone(), tnc.clone(), term.clone());
                move || {
                    let term = term.borrow();
                    let s = ASnap {
                        idx: k.log(Ev::Note { text: "settled".into() }),
                        data_blocked: tnc.borrow().data.map_or(false, |e| k.is_write_blocked(e)),
                        rig_blocked: rig.borrow().ep.map_or(false, |e| k.is_write_blocked(e)),
                        stdin_lines: term.ep.map_or(0, |e| term.lines.iter().filter(|p| **p <= k.arrived(e)).count()),
                        stdin_eof: term.eof,
                    };
                    log.borrow_mut().snaps.push(s);
                }
            };
            k2.settled(look.clone()).await;
            // The operator gives the go-ahead.
            if term.borrow().lines.is_empty() {
                term.borrow_mut().line(&k2);
            }
            k2.settled(look.clone()).await;
            // The modem gets over its troubles and the session comes to its end.
            tnc.borrow_mut().recover(&k2);
            k2.settled(look.clone()).await;
            let link = tnc.borrow().link;
            if let Link::Connected(n) = link {
                tnc.borrow_mut().down(&k2, n, true);
            }
            k2.settled(look.clone()).await;
            if k2.chance(Lane::Work, 1, 2) {
                term.borrow_mut().line(&k2);
                k2.settled(look.clone()).await;
                term.borrow_mut().line(&k2);
            } else {
                term.borrow_mut().end(&k2);
            }
            k2.settled(look).await;
        });
    }
    k.run();
    let fatal = k.fatal();
    let rig_ep = rig.borrow().ep;
    k.tear_down();
    plusendi::sim::install(None);
    crate::vtrace::set(false);
    {
        let mut t = tnc.borrow_mut();
        t.on_connected = None;
        t.on_data = None;
    }
    let mut out = RunOut::default();
    out.take(k.into_parts());
    check(&mut out, &log.borrow(), &tnc.borrow(), &rig.borrow(), rig_ep, &term.borrow(), call, target, fatal);
    out
}

#[allow(clippy::too_many_arguments)]
fn check(out: &mut RunOut, log: &ALog, t: &Tnc, rig: &Rig, rig_ep: Option<u64>, term: &Terminal, call: &str, target: &str, fatal: bool) {
    let hist = std::mem::take(&mut out.hist);
    let ctl = Track::of(&hist, t.ctl);
    let data = Track::of(&hist, t.data);
    let line = Track::of(&hist, rig_ep);
    let stdin = Track::of(&hist, term.ep);
    let ended = log.ended.as_ref().map_or(NEVER, |e| e.0);
    let end_ok = matches!(&log.ended, Some((_, Ok(()))));

    // What the modem said, as far as the program can have got it.
    let bad_from = t.lines.iter().find(|l| l.said == Said::Bad).map_or(u64::MAX, |l| l.end);
    let lost = ctl.end.min(ctl.write_err).min(if bad_from == u64::MAX { NEVER } else { ctl.arrived(bad_from) });
    let said: Vec<(&Said, usize)> = t.lines.iter().filter(|l| l.end < bad_from).map(|l| (&l.said, ctl.arrived(l.end))).filter(|x| x.1 != NEVER).collect();
    let up = said.iter().find(|x| matches!(x.0, Said::Connected(_))).map_or(NEVER, |x| x.1);
    let down = said.iter().filter(|x| x.1 > up || up == NEVER).find(|x| matches!(x.0, Said::Disconnected(Some(_)))).map_or(NEVER, |x| x.1);
    let down = if up == NEVER { down } else { said.iter().position(|x| matches!(x.0, Said::Connected(_))).and_then(|i| said[i..].iter().find(|x| matches!(x.0, Said::Disconnected(Some(_)))).map(|x| x.1)).unwrap_or(NEVER) };
    let over = lost.min(down).min(data.end).min(data.write_err);
    let wrong = said.iter().find(|x| matches!(x.0, Said::Reply { ok: false, .. })).map_or(NEVER, |x| x.1);
    // Reports that are neither connected nor disconnected may decide an attempt that is just succeeding.
    let odd = said.iter().find(|x| matches!(x.0, Said::Pending | Said::Canceled | Said::Disconnected(None))).map_or(NEVER, |x| x.1);
    let refused = log.refused.unwrap_or(NEVER);

    // ---- what the remote station sent, line by line
    let mut sent: Vec<(String, u64)> = Vec::new();
    let mut from = 0;
    for (i, b) in t.data_out.iter().enumerate() {
        if *b == b'\r' {
            sent.push((String::from_utf8_lossy(&t.data_out[from..i]).into_owned(), i as u64 + 1));
            from = i + 1;
        }
    }
    let prompt = sent.iter().position(|s| s.0.ends_with('>'));
    let mut printed = String::new();
    for r in &hist {
        if let Ev::Print { text } = &r.ev {
            printed.push_str(text);
        }
    }
    let mut expected = String::new();
    let mut upto = vec![0];
    for s in &sent {
        expected.push_str(&s.0);
        expected.push('\n');
        upto.push(expected.len());
    }
    // A02
    if !expected.as_bytes().starts_with(printed.as_bytes()) {
        let same = expected.bytes().zip(printed.bytes()).take_while(|(a, b)| a == b).count();
        let show = |s: &str| String::from_utf8_lossy(&s.as_bytes()[same.saturating_sub(20)..(same + 20).min(s.len())]).into_owned();
        out.fail("A02", "wrong", format!("the terminal shows {:?} where the remote station sent {:?}", show(&printed), show(&expected)));
    }
    let answered = |i: usize| stdin.end < i || term.lines.first().map_or(false, |p| stdin.arrived(*p) < i);
    let shown_at = |i: usize| {
        let mut n = 0;
        for r in &hist[..i.min(hist.len())] {
            if let Ev::Print { text } = &r.ev {
                n += text.len();
            }
        }
        n
    };
    let data_err = hist.iter().any(|r| matches!(&r.ev, Ev::End { ep, err: Some(_) } if Some(*ep) == t.data));
    for s in &log.snaps {
        if fatal || data_err || refused < NEVER || up == NEVER {
            break;
        }
        if ended < s.idx && !end_ok {
            break;
        }
        let cut = s.idx.min(over);
        let arrived = data.arrived_by(cut);
        let mut need = sent.iter().take_while(|x| x.1 <= arrived).count();
        if let Some(p) = prompt {
            if !answered(s.idx) || s.data_blocked {
                need = need.min(p + 1);
            }
        }
        let shown = shown_at(s.idx);
        if shown < upto[need] {
            out.fail("A02", "missing", format!("{} lines had arrived and had to be shown, but only {} of their {} bytes were", need, shown, upto[need]));
            break;
        }
    }
    // A03
    if let Some((at, r)) = &log.ended {
        let reason = over.min(wrong).min(odd).min(refused);
        if reason > *at {
            out.fail("A03", "early", format!("the program ended ({:?}) although nothing had ended the session or its set-up", r));
        }
        if r.is_ok() && prompt.map_or(false, |p| upto[p + 1] <= printed.len()) && data.write_err > *at {
            let n = term.lines.iter().filter(|p| stdin.arrived(**p) < *at).count();
            if n == 0 && stdin.end > *at {
                out.fail("A03", "unasked", "the program ended without waiting for the operator".to_string());
            }
        }
    }
    for s in &log.snaps {
        if fatal {
            break;
        }
        if ended > s.idx && over < s.idx && (s.stdin_eof || s.stdin_lines >= 2) {
            out.fail("A03", "hang", "the program goes on although the session is over and the operator has answered".to_string());
            break;
        }
        if ended > s.idx && up == NEVER && wrong.min(odd).min(refused).min(lost).min(down) < s.idx && (s.stdin_eof || s.stdin_lines >= 2) {
            out.fail("A03", "hang", "the program goes on although setting up the session failed".to_string());
            break;
        }
    }
    // A04
    if let Some(a) = log.astray.first() {
        out.fail("A04", "astray", a.clone());
    }
    let want = [format!("MYCALL {}", call), "COMPRESSION TEXT".to_string(), "BW2300".to_string(), format!("CONNECT {} {}", call, target)];
    for (i, c) in t.cmds.iter().enumerate() {
        let text = String::from_utf8_lossy(&c.text);
        let ok = want.get(i).map_or(text == "DISCONNECT", |w| *w == text);
        if !ok {
            out.fail("A04", "commands", format!("command {} to the modem is {:?} instead of {:?}", i, text, want.get(i)));
            break;
        }
        if i > 0 && i < 4 {
            let before = t.cmds[i - 1].reply.map_or(NEVER, |(l, ok)| if ok { ctl.arrived(t.lines[l].end) } else { NEVER });
            if before > c.idx {
                out.fail("A04", "unanswered", format!("{:?} was sent before the command before it had been answered with OK", text));
            }
        }
    }
    let login = format!("[{}-{}-B2FWIHJM$]\rFF\r", env!("CARGO_BIN_NAME"), env!("CARGO_PKG_VERSION"));
    if !login.as_bytes().starts_with(&t.data_in) {
        out.fail("A04", "login", format!("the remote station got {:?}", String::from_utf8_lossy(&t.data_in)));
    }
    let first_write = hist.iter().position(|r| matches!(&r.ev, Ev::Write { ep, n, .. } if Some(*ep) == t.data && *n > 0)).unwrap_or(NEVER);
    if first_write != NEVER {
        let prompt_at = prompt.map_or(NEVER, |p| data.read(sent[p].1));
        if prompt_at > first_write {
            out.fail("A04", "before-prompt", "something was sent to the remote station before its prompt".to_string());
        }
        if !answered(first_write) {
            out.fail("A04", "unasked", "something was sent to the remote station before the operator's go-ahead".to_string());
        }
    }
    for s in &log.snaps {
        if fatal || ended < s.idx || over < s.idx || s.data_blocked || up > s.idx {
            continue;
        }
        let prompted = prompt.map_or(false, |p| data.arrived(sent[p].1) < s.idx);
        let written = hist[..s.idx].iter().rev().find_map(|r| if let Ev::Write { ep, total, .. } = &r.ev { (Some(*ep) == t.data).then_some(*total) } else { None }).unwrap_or(0);
        if prompted && answered(s.idx) && (written as usize) < login.len() {
            out.fail("A04", "missing", format!("only {} bytes of the login were sent after the prompt and the go-ahead", written));
            break;
        }
    }
    // A01
    let ptt: Vec<(bool, usize)> = said.iter().filter_map(|x| if let Said::Ptt(on) = x.0 { Some((*on, x.1)) } else { None }).collect();
    let (got, rest) = orders(&rig.got);
    let mut next = 0;
    let mut pos = 0;
    for g in &got {
        pos += g.len() + 1;
        let at = rig.got_at.iter().find(|x| x.0 >= pos).map_or(NEVER, |x| x.1);
        let on = match &g[..] {
            "TX" => true,
            "RX" => false,
            _ => {
                out.fail("A01", "garbled", format!("the rig got the order {:?}", g));
                break;
            }
        };
        // An order may repeat the report the one before it followed.
        match ptt[next.min(ptt.len())..].iter().position(|p| p.0 == on && p.1 < at) {
            Some(i) => next += i,
            None if !on && lost < at => {}
            None => {
                out.fail("A01", "unfounded", format!("the rig was ordered to {} without a report asking for it", g));
                break;
            }
        }
    }
    if !rest.is_empty() && ended == NEVER && line.end == NEVER && line.write_err == NEVER && !fatal && !log.snaps.last().map_or(false, |s| s.rig_blocked) {
        out.fail("A01", "partial", format!("the rig was left with the unfinished order {:?}", rest));
    }
    let serial_fault = hist.iter().position(|r| matches!(&r.ev, Ev::Fault { kind } if kind.starts_with("serial-") && *kind != "serial-stall")).unwrap_or(NEVER);
    for s in &log.snaps {
        if fatal || ended < s.idx || s.rig_blocked || serial_fault < s.idx || rig_ep.is_none() {
            continue;
        }
        let opened = hist[..s.idx].iter().any(|r| matches!(&r.ev, Ev::Dial { ep, .. } if Some(*ep) == rig_ep));
        if !opened {
            continue;
        }
        let n = rig.got_at.iter().rev().find(|x| x.1 <= s.idx).map_or(0, |x| x.0);
        let last = orders(&rig.got[..n]).0.pop();
        let asked = ptt.iter().rev().find(|p| p.1 < s.idx).map(|p| p.0);
        let ok = if lost < s.idx {
            match asked {
                Some(_) => last.as_deref() == Some("RX") || asked == Some(false) && last.is_none(),
                None => last.is_none() || last.as_deref() == Some("RX"),
            }
        } else {
            match asked {
                Some(true) => last.as_deref() == Some("TX"),
                Some(false) => last.as_deref() == Some("RX"),
                None => last.is_none(),
            }
        };
        if !ok {
            out.fail("A01", if lost < s.idx { "lost" } else { "stale" }, format!("the modem's last transmit report was {:?}{} but the rig's last order is {:?}", asked, if lost < s.idx { " before its link was lost" } else { "" }, last));
            break;
        }
    }
    for (cond, name) in [
        (prompt.is_some() && up != NEVER, "prompt-sent"),
        (first_write != NEVER, "login-sent"),
        (end_ok, "program-ended-well"),
        (ended != NEVER && !end_ok, "program-ended-with-error"),
        (lost != NEVER && up != NEVER, "control-lost-in-session"),
        (prompt.map_or(false, |p| sent.len() > p + 1), "lines-after-prompt"),
        (over < NEVER && prompt.map_or(true, |p| data.arrived(sent[p].1) > over) && up != NEVER, "session-over-before-prompt"),
        (ptt.len() > 4, "several-ptt-reports"),
        (ptt.len() > 256, "many-ptt-reports"),
        (sent.len() > 256, "many-lines"),
        (sent.iter().any(|s| s.0.len() > 8192), "long-line"),
        (sent.iter().any(|s| s.0.is_empty()), "empty-line"),
    ] {
        if cond {
            out.probe(name);
        }
    }
    out.nontrivial = up != NEVER && out.switches > 10;
    out.hist = hist;
}
