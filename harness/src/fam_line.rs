//! Proposal and selection lines through a session: a remote station that offers messages or
//! answers offers, a link that cuts its lines anywhere and may damage them, and a receiver that
//! parses again after every read.

use crate::fam_vara::{draw_cfg, draw_faults};
use crate::hist::Ev;
use crate::kernel::*;
use crate::lzref::Rng;
use crate::run::*;
use crate::tape::{Lane, Tape};
use crate::tnc::*;
use plusendi::modem::vara::*;
use plusendi::real_tokio::io::AsyncReadExt;
use crate::hooks::{forwarding, Forwarding, Parsed, Want};
use plusendi::StationId;
use std::cell::RefCell;
use std::net::SocketAddr;
use std::rc::Rc;

// ---- the reference: what a line says, and whether what has come so far can become one

#[derive(Clone, Copy, PartialEq)]
enum El {
    Lit(&'static [u8]),
    /// One byte of these.
    One(&'static [u8]),
    /// 1 to n bytes of text without blanks and line ends.
    Text(usize),
    /// 1 to 6 digits.
    Number,
}

#[derive(Clone, Debug, PartialEq)]
enum Item {
    Text(String),
    Number(u64),
    One(u8),
}

#[derive(Clone, Debug, PartialEq)]
enum Fit {
    /// A whole line of this length that says this.
    Whole(usize, Vec<Item>),
    /// May still become one.
    Open,
    /// Cannot become one.
    Dead,
}

/// Whether bytes cut at the end may still become text of at most `max` bytes.
fn text_open(b: &[u8], max: usize) -> bool {
    match std::str::from_utf8(b) {
        Ok(_) => b.len() <= max,
        Err(e) if e.error_len().is_none() => {
            let lead = b[e.valid_up_to()];
            let need = if lead >= 0xf0 { 4 } else if lead >= 0xe0 { 3 } else { 2 };
            e.valid_up_to() + need <= max
        }
        Err(_) => false,
    }
}

fn fit(els: &[El], data: &[u8]) -> Fit {
    let mut at = 0;
    let mut items = Vec::new();
    for el in els {
        let rest = &data[at..];
        match el {
            El::Lit(l) => {
                let n = l.len().min(rest.len());
                if rest[..n] != l[..n] {
                    return Fit::Dead;
                }
                if n < l.len() {
                    return Fit::Open;
                }
                at += n;
            }
            El::One(set) => match rest.first() {
                None => return Fit::Open,
                Some(b) if set.contains(b) => {
                    items.push(Item::One(*b));
                    at += 1;
                }
                Some(_) => return Fit::Dead,
            },
            El::Text(max) => {
                let end = rest.iter().position(|b| matches!(b, b' ' | b'\r'));
                match end {
                    None if text_open(rest, *max) => return Fit::Open,
                    None => return Fit::Dead,
                    Some(n) if n >= 1 && n <= *max => match std::str::from_utf8(&rest[..n]) {
                        Ok(t) => {
                            items.push(Item::Text(t.to_string()));
                            at += n;
                        }
                        Err(_) => return Fit::Dead,
                    },
                    Some(_) => return Fit::Dead,
                }
            }
            El::Number => {
                let n = rest.iter().take(6).take_while(|b| b.is_ascii_digit()).count();
                let value: u64 = std::str::from_utf8(&rest[..n]).unwrap().parse().unwrap_or(0);
                if n == rest.len() && n < 6 {
                    return Fit::Open;
                }
                if n == 0 {
                    return Fit::Dead;
                }
                items.push(Item::Number(value));
                at += n;
            }
        }
    }
    Fit::Whole(at, items)
}

/// The best of several forms.
fn best(fits: impl IntoIterator<Item = Fit>) -> Fit {
    let mut result = Fit::Dead;
    for f in fits {
        match f {
            Fit::Whole(..) => return f,
            Fit::Open => result = Fit::Open,
            Fit::Dead => {}
        }
    }
    result
}

const SP: El = El::Lit(b" ");

fn proposal(data: &[u8]) -> Fit {
    let form = |tag| [El::Lit(tag), SP, El::One(b"PBT"), SP, El::Text(6), SP, El::Text(40), SP, El::Text(6), SP, El::Text(12), SP, El::Number, El::Lit(b"\r")];
    best([fit(&form(b"FA"), data), fit(&form(b"FB"), data)])
}

fn winlink(data: &[u8]) -> Fit {
    let short = [El::Lit(b"FC EM "), El::Text(12), SP, El::Number, SP, El::Number, El::Lit(b"\r")];
    let long = [El::Lit(b"FC EM "), El::Text(12), SP, El::Number, SP, El::Number, SP, El::Text(6), SP, El::Text(40), SP, El::Text(6), El::Lit(b"\r")];
    best([fit(&short, data), fit(&long, data)])
}

fn selection(data: &[u8], count: usize) -> Fit {
    let mut at = match fit(&[El::Lit(b"FS ")], data) {
        Fit::Whole(n, _) => n,
        other => return other,
    };
    let mut items = Vec::new();
    for _ in 0..count {
        let Some(b) = data.get(at) else { return Fit::Open };
        at += 1;
        match b {
            b'+' | b'Y' | b'H' => items.extend([Item::One(b'+'), Item::Number(0)]),
            b'=' | b'L' => items.push(Item::One(b'=')),
            b'-' | b'N' | b'R' | b'E' => items.push(Item::One(b'-')),
            b'!' | b'A' => match fit(&[El::Number], &data[at..]) {
                Fit::Whole(n, x) => {
                    items.push(Item::One(b'+'));
                    items.extend(x);
                    at += n;
                }
                other => return other,
            },
            _ => return Fit::Dead,
        }
    }
    Fit::Whole(at, items)
}

fn reference(want: Want, data: &[u8]) -> Fit {
    match want {
        Want::Proposal => proposal(data),
        Want::Winlink => winlink(data),
        Want::Selection(n) => selection(data, n),
        Want::NoMore => fit(&[El::Lit(b"FF")], data),
        Want::AllDone => fit(&[El::Lit(b"FQ")], data),
        Want::EndOfProposal => fit(&[El::Lit(b"F>")], data),
    }
}

fn items(f: &Forwarding) -> Vec<Item> {
    let t = |s: &String| Item::Text(s.clone());
    match f {
        Forwarding::Proposal { kind, sender, mbo, recipient, id, size } => vec![Item::One(*kind), t(sender), t(mbo), t(recipient), t(id), Item::Number(*size)],
        Forwarding::Winlink { id, uncompressed, compressed, bqp } => {
            let mut v = vec![t(id), Item::Number(*uncompressed), Item::Number(*compressed)];
            if let Some((a, b, c)) = bqp {
                v.extend([t(a), t(b), t(c)]);
            }
            v
        }
        Forwarding::Selection(choices) => choices
            .iter()
            .flat_map(|c| match c {
                (b'+', n) => vec![Item::One(b'+'), Item::Number(*n)],
                (x, _) => vec![Item::One(*x)],
            })
            .collect(),
        Forwarding::Control => Vec::new(),
    }
}

// ---- what the remote station sends

fn word(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(5) {
        0 => 1,
        1 => max,
        _ => 1 + r.below(max),
    };
    let odd = r.below(12) == 0;
    let mut w: Vec<u8> = Vec::new();
    while w.len() < n {
        if odd && r.below(3) == 0 && n - w.len() >= 3 {
            w.extend_from_slice(["\u{e9}x", "\u{65e5}", "\u{df}_"][r.below(3)].as_bytes());
        } else {
            w.push(b"ABCXYZ0123456789_-@/.$#*:+!"[r.below(27)]);
        }
    }
    w.truncate(n.max(1));
    w
}

fn number(r: &mut Rng) -> Vec<u8> {
    let n = [0, 1, 9, 10, 527, 65535, 65536, 131072, 999999, r.below(65536), r.below(1000), r.below(1000000)][r.below(12)];
    if r.below(6) == 0 { format!("{:06}", n).into_bytes() } else { n.to_string().into_bytes() }
}

fn draw_line(r: &mut Rng, want: Want) -> Vec<u8> {
    match want {
        Want::Proposal => {
            let mut l = [&b"FA "[..], b"FB "][r.below(2)].to_vec();
            l.push(b"PBT"[r.below(3)]);
            for max in [6, 40, 6, 12] {
                l.push(b' ');
                l.extend(word(r, max));
            }
            l.push(b' ');
            l.extend(number(r));
            l.push(b'\r');
            l
        }
        Want::Winlink => {
            let mut l = b"FC EM ".to_vec();
            l.extend(word(r, 12));
            for _ in 0..2 {
                l.push(b' ');
                l.extend(number(r));
            }
            if r.below(2) == 0 {
                for max in [6, 40, 6] {
                    l.push(b' ');
                    l.extend(word(r, max));
                }
            }
            l.push(b'\r');
            l
        }
        Want::Selection(n) => {
            let mut l = b"FS ".to_vec();
            for _ in 0..n {
                let c = b"+YH=L-NRE!A"[r.below(11)];
                l.push(c);
                if matches!(c, b'!' | b'A') {
                    l.extend(number(r));
                }
            }
            l.push(b'\r');
            l
        }
        Want::NoMore => b"FF\r".to_vec(),
        Want::AllDone => b"FQ\r".to_vec(),
        Want::EndOfProposal => b"F> 4A\r".to_vec(),
    }
}

fn damage(k: &Rc<Kernel>, l: &mut Vec<u8>) {
    let f = Lane::Fault;
    let n = l.len();
    let i = k.choose(f, n as u32) as usize;
    let name = match k.choose(f, 10) {
        0 => {
            l[i] ^= 1 << k.choose(f, 8);
            "bit-flipped"
        }
        1 => {
            l.remove(i);
            "bytes-lost"
        }
        2 => {
            let b = l[i];
            l.insert(i, b);
            "bytes-duplicated"
        }
        3 => {
            l.insert(i, k.pick(f, &[b' ', b'\r', b'0', b'\n', 0xff, b'+', b'-', 0]));
            "bytes-inserted"
        }
        4 => {
            // Part of a line, and the next one begins.
            l.truncate(i);
            "tail-lost"
        }
        5 => {
            let j = k.choose(f, n as u32) as usize;
            l.swap(i, j);
            "bytes-swapped"
        }
        6 => {
            // A number that is too large.
            if let Some(d) = l.iter().rposition(|b| b.is_ascii_digit()) {
                let with = k.pick(f, &[&b"65536"[..], b"999999", b"1000000", b"9999999", b"4294967296", b"99999999999999999999"]);
                l.splice(d..=d, with.iter().copied());
            }
            "number-too-large"
        }
        7 => {
            // A field that is too long.
            let part: Vec<u8> = (0..k.range(f, 1, 50)).map(|j| b'A' + (j % 26) as u8).collect();
            l.splice(i..i, part);
            "field-too-long"
        }
        8 => {
            // A field left out.
            let gaps: Vec<usize> = (0..n).filter(|j| l[*j] == b' ').collect();
            if let Some(&g) = gaps.get(k.choose(f, gaps.len().max(1) as u32) as usize) {
                let end = (g + 1..n).find(|j| matches!(l[*j], b' ' | b'\r')).unwrap_or(n);
                l.drain(g + k.choose(f, 2) as usize..end);
            }
            "field-lost"
        }
        _ => {
            l.make_ascii_lowercase();
            "lower-case"
        }
    };
    k.fault(name);
}

// ---- the run

struct Line {
    want: Want,
    bytes: Vec<u8>,
    proper: bool,
}

struct Seen {
    from: usize,
    have: usize,
    want: Want,
    got: Parsed,
}

#[derive(Default)]
struct LLog {
    seen: Vec<Seen>,
    inbound: Vec<u8>,
    opened: bool,
}

/// What a station expects from the first bytes of a line (and how many offers it made).
fn expects(data: &[u8], offered: usize) -> Option<Want> {
    match data {
        [b'F', b'A' | b'B', ..] => Some(Want::Proposal),
        [b'F', b'C', ..] => Some(Want::Winlink),
        [b'F', b'S', ..] => Some(Want::Selection(offered)),
        [b'F', b'F', ..] => Some(Want::NoMore),
        [b'F', b'Q', ..] => Some(Want::AllDone),
        [b'F', b'>', ..] => Some(Want::EndOfProposal),
        _ => None,
    }
}

fn note(w: Want, p: &Parsed) -> Vec<u8> {
    format!("{:?} {:?}", w, p).into_bytes()
}

pub fn run(f: &Focus, tape: Tape) -> RunOut {
    let k = Kernel::new(tape);
    let _world = plusendi::sim::install(Some(k.clone()));
    let drawn_verbose = k.chance(Lane::Work, 1, 4);
    crate::vtrace::set(f.verbose.unwrap_or(drawn_verbose));
    k.draw_policy();
    let (w, l, p) = (Lane::Work, Lane::Fault, Lane::Peer);
    let mut cfg = draw_cfg(&k, f, false);
    cfg.remote_bytes = 0;
    cfg.remote_ends = 0;
    cfg.wrong = 0;
    cfg.outcomes = [1, 0, 0, 0, 0];
    cfg.chatter = cfg.chatter.min(20);
    let faults = if k.chance(l, 1, 8) { draw_faults(&k, f) } else { Vec::new() };
    let noisy = k.pick(l, &[8, 0, 3, 14]);
    let offered = k.range(p, 1, 5) as usize;
    let mut r = Rng(k.choose(p, 1 << 20) as u64);
    let mut lines = Vec::new();
    for _ in 0..k.range(p, 1, 8) {
        let want = match k.choose(p, 8) {
            0..=2 => Want::Proposal,
            3 | 4 => Want::Winlink,
            5 | 6 => Want::Selection(offered),
            _ => k.pick(p, &[Want::NoMore, Want::AllDone, Want::EndOfProposal]),
        };
        let mut bytes = draw_line(&mut r, want);
        let mut proper = true;
        if k.chance(l, noisy, 16) {
            damage(&k, &mut bytes);
            proper = false;
        }
        lines.push(Line { want, bytes, proper });
    }
    let stream: Vec<u8> = lines.iter().flat_map(|l| l.bytes.iter().copied()).collect();
    let log: Rc<RefCell<LLog>> = Default::default();
    let tnc = Tnc::new(&k, cfg, faults);
    {
        let tnc = tnc.clone();
        k.set_dialer(move |k, addr: SocketAddr, ep| {
            let cfg = k.draw_net(true);
            let is_ctl = addr.port() == 8300;
            let t = tnc.clone();
            k.after(0, move |k| {
                if k.is_closed(ep) {
                    return;
                }
                if is_ctl {
                    t.borrow_mut().attach_control(k, ep)
                } else {
                    t.borrow_mut().attach_data(k, ep)
                }
            });
            DialPlan { delay: 0, result: Ok((tnc.clone(), cfg)), line_end: b'\r' }
        });
    }
    {
        let gap = k.pick(p, &[0, 0, 3 * MILLI, 40 * MILLI]);
        let style = k.choose(p, 3);
        let mut parts: Vec<(u64, Vec<u8>)> = Vec::new();
        let mut rest = &stream[..];
        while !rest.is_empty() {
            let n = match style {
                0 => rest.len(),
                1 => 1 + r.below(60),
                _ => 1 + r.below(6),
            }
            .min(rest.len());
            parts.push((if gap == 0 { 0 } else { gap / 4 * r.below(5) as u64 }, rest[..n].to_vec()));
            rest = &rest[n..];
        }
        let ends = k.chance(p, 1, 2);
        let parts = RefCell::new(Some(parts));
        let t = Rc::downgrade(&tnc);
        tnc.borrow_mut().on_connected = Some(Rc::new(move |k, n, _, _| {
            let Some(t) = t.upgrade() else { return };
            crate::fam_fbb::play(k, t, n, parts.borrow_mut().take().unwrap_or_default().into(), ends);
        }));
    }
    {
        let (k2, log) = (k.clone(), log.clone());
        k.client("owner", async move {
            let mut b = VaraTnc::builder();
            let Ok(mut v) = b.build().await else { return };
            let (from, to) = (StationId::new("KC1GSL").unwrap(), StationId::new("KW1U").unwrap());
            let Ok(mut s) = v.connect(from, to).await else { return };
            log.borrow_mut().opened = true;
            let size = k2.pick(w, &[1usize, 4096, 64, 7, 2]);
            let mut buf = vec![0; size];
            let mut from = 0;
            // Inside of a line that was rejected.
            let mut skipping = false;
            loop {
                let n = match s.read(&mut buf).await {
                    Ok(0) | Err(_) => break,
                    Ok(n) => n,
                };
                log.borrow_mut().inbound.extend_from_slice(&buf[..n]);
                loop {
                    let data = log.borrow().inbound[from..].to_vec();
                    if skipping {
                        match data.iter().position(|b| *b == b'\r') {
                            Some(i) => {
                                from += i + 1;
                                skipping = false;
                                continue;
                            }
                            None => {
                                from += data.len();
                                break;
                            }
                        }
                    }
                    if data.len() < 2 {
                        if data.is_empty() || !k2.chance(w, 1, 2) {
                            break;
                        }
                    }
                    let Some(want) = expects(&data, offered).or_else(|| {
                        (data.len() < 2 && data[0] == b'F').then(|| k2.pick(w, &[Want::Proposal, Want::Winlink, Want::Selection(offered), Want::NoMore, Want::AllDone, Want::EndOfProposal]))
                    }) else {
                        skipping = true;
                        continue;
                    };
                    let got = forwarding(want, &data);
                    k2.log(Ev::Did { what: "parse", key: data.len() as u32, bytes: note(want, &got) });
                    let have = from + data.len();
                    let step = match &got {
                        Parsed::Done { consumed, .. } => Some(*consumed),
                        Parsed::Rejected => {
                            skipping = true;
                            Some(0)
                        }
                        Parsed::Incomplete(_) => None,
                    };
                    let control = !matches!(want, Want::Proposal | Want::Winlink);
                    let done = matches!(got, Parsed::Done { .. });
                    log.borrow_mut().seen.push(Seen { from, have, want, got });
                    match step {
                        Some(n) => from += n.min(data.len()),
                        None => break,
                    }
                    // The rest of these lines is nothing to the parsers.
                    if control && done {
                        skipping = true;
                    }
                }
            }
        });
    }
    {
        let (k2, tnc) = (k.clone(), tnc.clone());
        k.client("supervisor", async move {
            let look = {
                let k = k2.clone();
                move || {
                    k.log(Ev::Note { text: "settled".into() });
                }
            };
            k2.settled(look.clone()).await;
            tnc.borrow_mut().recover(&k2);
            k2.settled(look.clone()).await;
            let link = tnc.borrow().link;
            if let Link::Connected(n) = link {
                tnc.borrow_mut().down(&k2, n, true);
            }
            k2.settled(look).await;
        });
    }
    k.run();
    k.tear_down();
    plusendi::sim::install(None);
    crate::vtrace::set(false);
    {
        let mut t = tnc.borrow_mut();
        t.on_connected = None;
        t.on_data = None;
    }
    let mut out = RunOut::default();
    out.take(k.into_parts());
    check(&mut out, &log.borrow(), &lines, &stream);
    out
}

fn check(out: &mut RunOut, log: &LLog, lines: &[Line], stream: &[u8]) {
    if !stream.starts_with(&log.inbound) {
        // That is for S01 to tell.
        return;
    }
    for s in &log.seen {
        let data = &stream[s.from..s.have];
        let show = String::from_utf8_lossy(data).into_owned();
        let name = format!("{:?}", s.want);
        match (reference(s.want, data), &s.got) {
            (Fit::Whole(n, want), Parsed::Done { consumed, what }) => {
                let got = items(what);
                if got != want {
                    out.fail("N02", "wrong", format!("{:?} was parsed as {:?} instead of {:?}", show, got, want));
                } else if *consumed != n {
                    out.fail("N02", "end", format!("{:?} was taken to end after {} bytes instead of {}", show, consumed, n));
                }
                out.probe("line-parsed");
            }
            (Fit::Whole(..), got) => out.fail("N02", "not-parsed", format!("the whole line {:?} gave {:?} ({})", show, got, name)),
            (Fit::Open, Parsed::Incomplete(hint)) => {
                // The shortest way it could still end.
                let whole = shortest(s.want, &stream[s.from..], data.len());
                if let (Some(h), Some(n)) = (hint, whole) {
                    if *h > n - data.len() {
                        out.fail("N02", "asks-too-much", format!("after {:?} the parser asks for {} more bytes but {} complete the line", show, h, n - data.len()));
                    }
                }
                out.probe("line-incomplete");
            }
            (Fit::Open, Parsed::Rejected) => out.fail("N02", "rejected-early", format!("{:?} was rejected although it may begin a proper line ({})", show, name)),
            (Fit::Open, Parsed::Done { what, .. }) => out.fail("N02", "early", format!("{:?}, which is incomplete, was parsed as {:?}", show, items(what))),
            (Fit::Dead, Parsed::Done { what, .. }) => out.fail("N02", "accepted", format!("{:?}, which is no proper line ({}), was parsed as {:?}", show, name, items(what))),
            (Fit::Dead, Parsed::Incomplete(_)) => {
                if data.contains(&b'\r') {
                    out.fail("N02", "waits", format!("{:?} is a whole line and no proper one ({}), but the parser still waits", show, name));
                }
            }
            (Fit::Dead, Parsed::Rejected) => out.probe("line-rejected"),
        }
    }
    if lines.iter().any(|l| !l.proper) {
        out.probe("damaged-line");
    }
    if lines.iter().any(|l| matches!(l.want, Want::Selection(_))) {
        out.probe("selection");
    }
    out.nontrivial = out.switches > 10 && !log.seen.is_empty();
}

/// Where the line ends that is being received, if it is a proper one.
fn shortest(want: Want, rest: &[u8], have: usize) -> Option<usize> {
    (have + 1..=rest.len().min(have + 200)).find_map(|n| match reference(want, &rest[..n]) {
        Fit::Whole(end, _) => Some(end.max(n)),
        _ => None,
    })
}
