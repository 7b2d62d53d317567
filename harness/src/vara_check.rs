//! What must hold of every run of the modem client, judged from the recorded history.

use crate::fam_vara::*;
use crate::hist::{Ev, Rec};
use crate::run::*;
use crate::tnc::*;
use std::collections::BTreeMap;
use std::io::ErrorKind;

const NEVER: usize = usize::MAX;

/// Where in the history the positions of one endpoint's streams were reached.
pub struct Track {
    arrive: Vec<(u64, usize)>,
    read: Vec<(u64, usize)>,
    handled: Vec<(u64, usize)>,
    pub end: usize,
    pub read_end: usize,
    pub read_err: usize,
    pub write_err: usize,
    wrote: Vec<usize>,
    pub close: usize,
    pub shut: usize,
}

fn first(v: &[(u64, usize)], pos: u64) -> usize {
    if pos == 0 {
        return 0;
    }
    let i = v.partition_point(|x| x.0 < pos);
    v.get(i).map_or(NEVER, |x| x.1)
}

impl Track {
    pub fn of(hist: &[Rec], ep: Option<u64>) -> Track {
        let mut t = Track { arrive: vec![], read: vec![], handled: vec![], end: NEVER, read_end: NEVER, read_err: NEVER, write_err: NEVER, wrote: vec![], close: NEVER, shut: NEVER };
        let Some(me) = ep else { return t };
        for (i, r) in hist.iter().enumerate() {
            match &r.ev {
                Ev::Arrive { ep, total, .. } if *ep == me => t.arrive.push((*total, i)),
                Ev::Read { ep, total, .. } if *ep == me => t.read.push((*total, i)),
                Ev::Handled { ep, total } if *ep == me => {
                    if t.handled.last().map_or(true, |x| x.0 < *total) {
                        t.handled.push((*total, i))
                    }
                }
                Ev::End { ep, .. } if *ep == me => t.end = t.end.min(i),
                Ev::ReadEnd { ep, err } if *ep == me => {
                    t.read_end = t.read_end.min(i);
                    if err.is_some() {
                        t.read_err = t.read_err.min(i);
                    }
                }
                Ev::Write { ep, n, .. } if *ep == me && *n > 0 => t.wrote.push(i),
                Ev::WriteErr { ep, .. } if *ep == me => t.write_err = t.write_err.min(i),
                Ev::Close { ep } if *ep == me => t.close = t.close.min(i),
                Ev::Shut { ep } if *ep == me => t.shut = t.shut.min(i),
                _ => {}
            }
        }
        t
    }
    pub fn arrived(&self, pos: u64) -> usize {
        first(&self.arrive, pos)
    }
    pub fn read(&self, pos: u64) -> usize {
        first(&self.read, pos)
    }
    pub fn handled(&self, pos: u64) -> usize {
        first(&self.handled, pos)
    }
    /// How far the stream had arrived at a moment.
    pub fn arrived_by(&self, idx: usize) -> u64 {
        let i = self.arrive.partition_point(|x| x.1 < idx);
        if i == 0 { 0 } else { self.arrive[i - 1].0 }
    }
}

struct View<'a> {
    log: &'a VLog,
    t: &'a Tnc,
    hist: Vec<Rec>,
    ctl: Track,
    data: Track,
    /// The earliest moment the program could know the control link as lost.
    lost: usize,
    /// Stream position of the end of the first line the program cannot understand.
    bad_from: u64,
    /// Lines the program got to see, in order, with their history positions.
    lines: Vec<L>,
    ended: bool,
}

struct L {
    said: Said,
    arrived: usize,
    read: usize,
    handled: usize,
}

pub fn check(out: &mut RunOut, log: &VLog, t: &Tnc, fatal: bool, live: &[String]) {
    let hist = std::mem::take(&mut out.hist);
    let ctl = Track::of(&hist, t.ctl);
    let data = Track::of(&hist, t.data);
    let bad = t.lines.iter().find(|l| l.said == Said::Bad).map(|l| l.end);
    let bad_from = bad.unwrap_or(u64::MAX);
    let lost = ctl.end.min(ctl.write_err).min(bad.map_or(NEVER, |b| ctl.arrived(b)));
    let lines: Vec<L> = t
        .lines
        .iter()
        .filter(|l| l.end < bad_from)
        .map(|l| L { said: l.said.clone(), arrived: ctl.arrived(l.end), read: ctl.read(l.end), handled: ctl.handled(l.end) })
        .collect();
    let v = View { log, t, ctl, data, lost, bad_from, lines, ended: !fatal, hist };
    let _ = v.bad_from;
    commands(out, &v);
    answers(out, &v);
    if v.ended {
        losses(out, &v);
    }
    status(out, &v);
    heartbeat(out, &v);
    connects(out, &v);
    sessions(out, &v);
    orders(out, &v);
    if v.ended {
        shut_down(out, &v, live);
        set_up(out, &v);
    }
    probes(out, &v);
    out.nontrivial = log.calls.len() > 1 && (out.switches > 8 || !log.sess.is_empty()) || !log.builds.is_empty() && log.builds[0].ok != Some(true);
    out.hist = v.hist;
}

fn show(b: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(b))
}

fn is_order(text: &[u8]) -> bool {
    text == b"DISCONNECT" || text == b"ABORT"
}

/// Which command line at the modem belongs to which call, where that is certain.
fn owners(v: &View) -> BTreeMap<usize, usize> {
    let mut map = BTreeMap::new();
    let mut by_text: BTreeMap<&[u8], Vec<usize>> = BTreeMap::new();
    for (i, c) in v.log.calls.iter().enumerate() {
        if !is_order(&c.line) {
            by_text.entry(&c.line).or_default().push(i);
        }
    }
    let mut seen: BTreeMap<&[u8], usize> = BTreeMap::new();
    for (j, c) in v.t.cmds.iter().enumerate() {
        let n = seen.entry(&c.text).or_default();
        if let Some(calls) = by_text.get(&c.text[..]) {
            if let Some(&call) = calls.get(*n) {
                map.insert(call, j);
            }
        }
        *n += 1;
    }
    map
}

// ---- C01, N03

fn is_relayed(line: &[u8]) -> bool {
    line.starts_with(b"CONNECT ") && line.windows(5).any(|w| w == b" via ")
}

fn commands(out: &mut RunOut, v: &View) {
    let mut allowed: BTreeMap<&[u8], Vec<&Call>> = BTreeMap::new();
    for c in &v.log.calls {
        allowed.entry(&c.line).or_default().push(c);
    }
    let mut seen: BTreeMap<&[u8], usize> = BTreeMap::new();
    for c in &v.t.cmds {
        let n = seen.entry(&c.text).or_default();
        *n += 1;
        if is_order(&c.text) {
            continue;
        }
        match allowed.get(&c.text[..]) {
            None if c.text.starts_with(b"CONNECT ") && v.log.calls.iter().any(|x| is_relayed(&x.line)) => {
                out.fail("N03", "stranger", format!("the modem got the line {}, which no connect through relays stands for", show(&c.text)))
            }
            None => out.fail("C01", "stranger", format!("the modem got the line {}, which no call stands for", show(&c.text))),
            Some(calls) => {
                let begun = calls.iter().filter(|x| x.begin < c.idx).count();
                if *n > begun {
                    out.fail("C01", "repeated", format!("the modem got {} {} times, but only {} calls for it had begun", show(&c.text), n, begun));
                }
            }
        }
    }
    let map = owners(v);
    // Commands of finished calls come before commands of calls begun afterwards.
    let mut prev: Option<(usize, usize)> = None;
    let mut spans: Vec<(usize, usize, usize)> = Vec::new();
    for (i, c) in v.log.calls.iter().enumerate() {
        if let (Some(&j), Some(end), true) = (map.get(&i), c.end, c.out != Some(Out::Abandoned)) {
            spans.push((end, v.t.cmds[j].idx, i));
        }
    }
    for (i, c) in v.log.calls.iter().enumerate() {
        let Some(&j) = map.get(&i) else { continue };
        for &(end, got, other) in &spans {
            if end <= c.begin && got > v.t.cmds[j].idx {
                prev = Some((other, i));
            }
        }
    }
    if let Some((a, b)) = prev {
        out.fail("C01", "order", format!("{} was issued after {} had completed but reached the modem before it", show(&v.log.calls[b].line), show(&v.log.calls[a].line)));
    }
    for (i, c) in v.log.calls.iter().enumerate() {
        if c.out == Some(Out::Ok) && is_relayed(&c.line) && !map.contains_key(&i) {
            out.fail("N03", "dropped", format!("{} succeeded but its line never reached the modem", show(&c.line)));
        } else if c.out == Some(Out::Ok) && !is_order(&c.line) && !map.contains_key(&i) {
            out.fail("C01", "dropped", format!("{} succeeded but its line never reached the modem", show(&c.line)));
        }
        if let (Some(&j), Some(end)) = (map.get(&i), c.end) {
            if c.out == Some(Out::Ok) && v.t.cmds[j].idx > end {
                out.fail("C01", "late", format!("{} succeeded before its line reached the modem", show(&c.line)));
            }
        }
    }
    if v.ended && !v.t.partial().is_empty() {
        let p = v.t.partial();
        let known = v.log.calls.iter().any(|c| c.line.starts_with(p)) || b"DISCONNECT".starts_with(p) || b"ABORT".starts_with(p);
        let broken = v.lost != NEVER;
        if !broken || !known {
            out.fail("C01", "partial", format!("the modem was left with the unfinished line {}", show(p)));
        }
    }
    // Calls that are still waiting although nothing is left to happen must at least have been sent.
    for s in &v.log.snaps {
        if v.lost <= s.idx || v.t.ctl.is_none() {
            continue;
        }
        for (i, c) in v.log.calls.iter().enumerate() {
            // A new connect may wait for the answer to the disconnect before it.
            let held = c.kind == CallKind::Connect && v.t.cmds.iter().any(|x| is_order(&x.text) && x.idx < s.idx && x.handled_idx.map_or(true, |h| h > s.idx));
            if !held && c.open_at(s.idx) && !is_order(&c.line) && !map.get(&i).map_or(false, |&j| v.t.cmds[j].idx < s.idx) && v.ended {
                out.fail("C01", "stuck", format!("{} was issued but not sent although nothing was left to wait for", show(&c.line)));
            }
        }
    }
}

// ---- C02

fn answers(out: &mut RunOut, v: &View) {
    let map = owners(v);
    for (i, c) in v.log.calls.iter().enumerate() {
        if c.kind == CallKind::Connect {
            // A refusal must come back; the rest is decided elsewhere.
            if let Some(&j) = map.get(&i) {
                if let (Some((line, false)), Some(o)) = (v.t.cmds[j].reply, &c.out) {
                    if *o == Out::Ok && v.t.lines[line].end < v.bad_from {
                        out.fail("C02", "refused-ok", format!("{} succeeded although the modem refused it", show(&c.line)));
                    }
                }
            }
            continue;
        }
        // The lines that can have been this call's answer.
        let replies: Vec<(usize, bool, usize)> = if is_order(&c.line) {
            v.t.cmds
                .iter()
                .enumerate()
                .filter(|(_, x)| x.text == c.line && x.idx > c.begin)
                .filter_map(|(j, x)| x.reply.map(|(line, ok)| (line, ok, j)))
                .collect()
        } else {
            map.get(&i).and_then(|&j| v.t.cmds[j].reply.map(|(line, ok)| (line, ok, j))).into_iter().collect()
        };
        let seen = |line: usize| if v.t.lines[line].end < v.bad_from { v.ctl.read(v.t.lines[line].end) } else { NEVER };
        let end = c.end.unwrap_or(NEVER);
        match &c.out {
            Some(Out::Ok) => {
                if !replies.iter().any(|&(line, ok, _)| ok && seen(line) < end) {
                    out.fail("C02", "ok-unanswered", format!("{} succeeded without the modem's OK to it having been received", show(&c.line)));
                    if v.lost < end {
                        out.fail("C03", "lost-ok", format!("{} succeeded although the control link was lost before the modem answered it", show(&c.line)));
                    }
                }
            }
            Some(Out::Err(e)) => {
                let refused = replies.iter().any(|&(line, ok, _)| !ok && seen(line) < end);
                if !refused && v.lost > end {
                    out.fail("C02", "err-unfounded", format!("{} failed ({}) although the modem neither refused it nor went away", show(&c.line), e));
                }
                if !is_order(&c.line) {
                    if let Some(&(line, true, _)) = replies.first() {
                        if seen(line) < end {
                            out.fail("C02", "ok-lost", format!("{} failed ({}) although the modem's OK to it had been received", show(&c.line), e));
                        }
                    }
                }
            }
            _ => {}
        }
        if v.ended {
            for s in &v.log.snaps {
                if c.open_at(s.idx) && v.lost > s.idx {
                    // An order may be somebody else's, unless all of them are answered.
                    let sent = v.t.cmds.iter().filter(|x| is_order(&c.line) && x.text == c.line && x.idx > c.begin && x.idx < s.idx).count();
                    let answered = replies.iter().filter(|&&(line, ..)| v.ctl.arrived(v.t.lines[line].end) < s.idx).count();
                    if let Some(&(line, ..)) = replies.first().filter(|_| answered >= sent) {
                        if v.ctl.arrived(v.t.lines[line].end) < s.idx {
                            out.fail("C02", "unanswered", format!("{} still waits although the modem's answer to it arrived", show(&c.line)));
                        }
                    }
                }
            }
            if c.end.is_none() && v.lost == NEVER && v.log.snaps.len() == 2 {
                out.fail("C02", "never", format!("{} never completed", show(&c.line)));
            }
        }
    }
}

// ---- C03

fn losses(out: &mut RunOut, v: &View) {
    if v.lost == NEVER || v.t.ctl.is_none() {
        return;
    }
    for s in &v.log.snaps {
        if s.idx < v.lost || s.ctl_blocked {
            continue;
        }
        for c in &v.log.calls {
            if c.open_at(s.idx) {
                out.fail("C03", "hang", format!("{} still waits although the control link is lost", show(&c.line)));
            }
        }
        if v.ctl.close > s.idx {
            out.fail("C03", "open", "the control connection was not released although it is lost".to_string());
        }
    }
    // Calls begun after the loss was known.
    let known = v.ctl.close;
    for c in &v.log.calls {
        if c.begin > known && c.out == Some(Out::Ok) {
            out.fail("C03", "late-ok", format!("{} succeeded after the control link was lost", show(&c.line)));
        }
    }
}

// ---- C04

fn status(out: &mut RunOut, v: &View) {
    let mut series: BTreeMap<(&str, String), Vec<(String, usize, usize)>> = BTreeMap::new();
    series.insert(("buffer", String::new()), vec![("0".into(), 0, 0)]);
    series.insert(("busy", String::new()), vec![("NotBusy".into(), 0, 0)]);
    series.insert(("ptt", String::new()), vec![("Receive".into(), 0, 0)]);
    for l in &v.lines {
        let (key, value) = match &l.said {
            Said::Buffer(n) => (("buffer", String::new()), n.to_string()),
            Said::Busy(b) => (("busy", String::new()), if *b { "Busy" } else { "NotBusy" }.to_string()),
            Said::Ptt(b) => (("ptt", String::new()), if *b { "Transmit" } else { "Receive" }.to_string()),
            Said::Registered(id) => (("registered", id.clone()), "Registered".to_string()),
            _ => continue,
        };
        let s = series.entry(key.clone()).or_insert_with(|| vec![("Unregistered".into(), 0, 0)]);
        if key.0 == "registered" && s.len() > 1 {
            continue;
        }
        s.push((value, l.arrived, l.read));
    }
    let mut at: BTreeMap<(&str, String), usize> = BTreeMap::new();
    let none = vec![("Unregistered".to_string(), 0, 0)];
    for see in &v.log.sees {
        if see.what == "heartbeat" || see.what == "ptt-end" {
            continue;
        }
        let key = if see.what == "registered" { (see.what, see.key.clone()) } else { (see.what, String::new()) };
        let s = series.get(&key).unwrap_or(&none);
        let from = at.get(&key).copied().unwrap_or(0);
        let hit = (from..s.len()).find(|&j| s[j].0 == see.value && s[j].2 < see.idx);
        match hit {
            None => {
                let known: Vec<&str> = s.iter().filter(|x| x.2 < see.idx).map(|x| &x.0[..]).collect();
                let past = (0..from).any(|j| s[j].0 == see.value);
                out.fail("C04", if past { "backwards" } else { "stranger" }, format!("{} {} read as {} after reports {:?}", see.what, see.key, see.value, tail(&known)));
            }
            Some(j) => {
                at.insert(key.clone(), j);
                if let Some(q) = see.quiet {
                    if !see.blocked && !v.blocked_at(q) && v.lost > see.idx {
                        let due = (0..s.len()).rev().find(|&j| s[j].1 < q).unwrap_or(0);
                        if !(due..s.len()).any(|j| s[j].0 == see.value && s[j].2 < see.idx) {
                            out.fail("C04", "stale", format!("{} {} read as {} although {} had been reported and everything was processed", see.what, see.key, see.value, s[due].0));
                        }
                    }
                }
            }
        }
    }
    // Whoever watches the transmit/receive orders ends up with the last one.
    if v.ended && v.log.snaps.len() == 2 {
        let s = &series[&("ptt", String::new())];
        let last = s.iter().filter(|x| x.2 != NEVER).last().unwrap();
        let mut watchers: BTreeMap<&str, &str> = BTreeMap::new();
        for see in &v.log.sees {
            if see.key.starts_with("watch") && see.what == "ptt" {
                watchers.insert(&see.key, &see.value);
            }
        }
        for (w, value) in watchers {
            if value != last.0 {
                out.fail("C04", "last", format!("{} was last told {} but the last order was {}", w, value, last.0));
            }
        }
    }
}

fn tail<'a>(v: &'a [&'a str]) -> &'a [&'a str] {
    &v[v.len().saturating_sub(6)..]
}

// ---- C05

fn heartbeat(out: &mut RunOut, v: &View) {
    let Some(b) = v.log.builds.first() else { return };
    // (earliest, latest, arrival index, read index)
    let mut windows = vec![(b.begin_at, b.end_at, 0, 0)];
    for l in &v.lines {
        if l.said == Said::Alive && l.read != NEVER {
            let lo = v.hist[l.read].at;
            let hi = if l.handled == NEVER { u64::MAX } else { v.hist[l.handled].at };
            windows.push((lo, hi, l.arrived, l.read));
        }
    }
    let mut from = 0;
    let mut last = 0;
    for see in v.log.sees.iter().filter(|s| s.what == "heartbeat") {
        let t: u64 = see.value.parse().unwrap();
        if t < last {
            out.fail("C05", "backwards", format!("the last heartbeat moved back from {} to {}", last, t));
        }
        last = t;
        match (from..windows.len()).find(|&j| windows[j].0 <= t && t <= windows[j].1 && windows[j].3 < see.idx) {
            None => out.fail("C05", "stranger", format!("the last heartbeat reads as {} ns, when no alive message was received (the latest known: {:?})", t, windows.iter().filter(|w| w.3 < see.idx).last().map(|w| w.0))),
            Some(j) => {
                from = j;
                if let Some(q) = see.quiet {
                    let due = (0..windows.len()).rev().find(|&j| windows[j].2 < q).unwrap();
                    if !see.blocked && !v.blocked_at(q) && v.lost > see.idx && t < windows[due].0 {
                        out.fail("C05", "stale", format!("the last heartbeat reads as {} ns although one was received at {} ns", t, windows[due].0));
                    }
                }
            }
        }
    }
}

// ---- C06, C07

/// The attempt a connect call led to, the line that accepted it, and what was reported after that.
struct Try {
    cmd: Option<usize>,
    attempt: Option<usize>,
    accepted: Option<usize>,
    refused: bool,
}

fn tries(v: &View) -> BTreeMap<usize, Try> {
    let map = owners(v);
    let mut out = BTreeMap::new();
    for (i, c) in v.log.calls.iter().enumerate() {
        if c.kind != CallKind::Connect {
            continue;
        }
        let cmd = map.get(&i).copied();
        let reply = cmd.and_then(|j| v.t.cmds[j].reply);
        let reply = reply.filter(|r| v.t.lines[r.0].end < v.bad_from);
        out.insert(
            i,
            Try {
                cmd,
                attempt: v.t.attempts.iter().position(|a| Some(a.cmd) == cmd),
                accepted: reply.filter(|r| r.1).map(|r| r.0),
                refused: matches!(reply, Some((_, false))),
            },
        );
    }
    out
}

fn connects(out: &mut RunOut, v: &View) {
    let tries = tries(v);
    for (&i, t) in &tries {
        let c = &v.log.calls[i];
        let end = c.end.unwrap_or(NEVER);
        let after: Vec<&L> = t.accepted.map_or(Vec::new(), |a| v.lines[a + 1..].iter().collect());
        match &c.out {
            Some(Out::Ok) => {
                let up = after.iter().any(|l| matches!(l.said, Said::Connected(n) if Some(n) == t.attempt) && l.read < end);
                if !up {
                    out.fail("C06", "ok-unfounded", format!("{} gave a session although the modem had not reported that link as connected after accepting the request", show(&c.line)));
                    if v.lost < end {
                        out.fail("C03", "lost-ok", format!("{} gave a session although the control link was lost before the modem had reported it", show(&c.line)));
                    }
                }
            }
            Some(Out::Err(e)) => {
                let refused = t.refused && v.ctl.read(v.t.lines[v.t.cmds[t.cmd.unwrap()].reply.unwrap().0].end) < end;
                let failed = after.iter().any(|l| l.said.is_state() && !matches!(l.said, Said::Connected(_)) && l.read < end);
                if !refused && !failed && v.lost > end {
                    out.fail("C06", "err-unfounded", format!("{} failed ({}) although the modem neither refused it, nor reported another outcome than connected, nor went away", show(&c.line), e));
                }
            }
            _ => {}
        }
        if !v.ended {
            continue;
        }
        for s in &v.log.snaps {
            if c.open_at(s.idx) && v.lost > s.idx {
                let decided = after.iter().any(|l| l.said.is_state() && l.arrived < s.idx) || t.refused && v.ctl.arrived(v.t.lines[v.t.cmds[t.cmd.unwrap()].reply.unwrap().0].end) < s.idx;
                if decided {
                    out.fail("C06", "undecided", format!("{} still waits although the modem reported the outcome", show(&c.line)));
                }
            }
        }
        if c.end.is_none() && v.lost == NEVER && v.log.snaps.len() == 2 {
            out.fail("C06", "never", format!("{} never completed", show(&c.line)));
        }
    }
    // C07: once all is said and done nothing keeps the modem on the air for nobody.
    if !v.ended || v.lost != NEVER || v.log.snaps.len() != 2 {
        return;
    }
    for (which, s) in v.log.snaps.iter().enumerate() {
        let (Link::Connecting(n) | Link::Connected(n)) = s.link else { continue };
        if which == 0 && s.ctl_blocked {
            continue;
        }
        let Some((&call, _)) = tries.iter().find(|(_, t)| t.attempt == Some(n)) else { continue };
        let c = &v.log.calls[call];
        let refused = v.t.cmds.iter().any(|x| is_order(&x.text) && x.during == Some(n) && matches!(x.reply, Some((_, false))));
        // Commands the modem has not answered yet may include the order.
        let pending = v.t.cmds.iter().any(|x| x.idx < s.idx && x.handled_idx.map_or(true, |h| h > s.idx));
        let given_up = match &c.out {
            Some(Out::Abandoned) | Some(Out::Err(_)) => c.end.unwrap() < s.idx,
            _ => false,
        };
        if given_up && !refused && !pending {
            out.fail("C07", "left-calling", format!("{} was given up, but the modem was left {:?}", show(&c.line), s.link));
        }
        if c.out == Some(Out::Ok) {
            let sess = v.log.sess.iter().find(|x| x.call == call);
            if sess.map_or(false, |x| x.close.map_or(false, |(_, at)| at < s.idx)) && !refused && !pending {
                let waiting = sess.unwrap().close_call.map_or(false, |c| v.log.calls[c].open_at(s.idx));
                if !waiting {
                    out.fail("S05", "left-up", format!("the session of {} was closed, but the modem was left {:?}", show(&c.line), s.link));
                }
            }
        }
    }
}

// ---- S01, S02, S03, S04, part of S06

fn sessions(out: &mut RunOut, v: &View) {
    let tries = tries(v);
    let data_lost = v.data.end;
    for (n, s) in v.log.sess.iter().enumerate() {
        let Some(attempt) = tries.get(&s.call).and_then(|t| t.attempt) else { continue };
        let a = &v.t.attempts[attempt];
        let Some(up_at) = a.up_at else { continue };
        let call = &v.log.calls[s.call];
        // S01 and S06: one unbroken piece of the stream, from where this session may begin.
        let got: Vec<u8> = s.io.iter().filter_map(|r| if let Some(Io::Bytes(b)) = &r.out { Some(&b[..]) } else { None }).flatten().copied().collect();
        let old = v.data.arrived_by(call.begin);
        let fits = |k: u64| got.iter().enumerate().all(|(i, &b)| v.t.data_out.get(k as usize + i) == Some(&b));
        // Where reading began; `None` if it was nowhere.
        let arrived = v.data.arrived_by(s.io.iter().filter_map(|r| r.end).max().unwrap_or(0));
        let start = if got.is_empty() {
            Some(up_at)
        } else {
            let fit: Vec<u64> = (old.min(up_at)..=up_at).rev().filter(|&k| fits(k)).collect();
            fit.iter().copied().find(|k| k + got.len() as u64 <= arrived).or(fit.first().copied())
        };
        if start.is_none() {
            match (0..old).find(|&k| got.len() > 3 && fits(k)) {
                Some(k) => out.fail("S06", "old-bytes", format!("session {} read bytes from position {}, which had arrived before its connect request (position {})", n, k, old)),
                None => {
                    // Which part is wrong?
                    let good = (0..got.len()).rev().find(|&len| (old.min(up_at)..=up_at).any(|k| got[..len].iter().enumerate().all(|(i, &b)| v.t.data_out.get(k as usize + i) == Some(&b)))).unwrap_or(0);
                    if got.len() <= 3 && old < up_at {
                        out.fail("S06", "old-bytes", format!("session {} read bytes that were not its own", n))
                    } else if good == 0 && old > 0 {
                        out.fail("S06", "foreign-bytes", format!("session {} began with bytes that were not its own", n));
                        out.fail("S01", "altered", format!("session {} read {} bytes that are not what the modem delivered", n, got.len()))
                    } else {
                        out.fail("S01", "altered", format!("session {}: of {} bytes read only the first {} are what the modem delivered", n, got.len(), good))
                    }
                }
            }
        }
        if let Some(k) = start.filter(|_| !got.is_empty()) {
            if k + got.len() as u64 > arrived {
                out.fail("S01", "early", format!("session {} read more than had arrived", n));
            }
        }
        // When did the program learn that the session is over?
        let up_line = v.lines.iter().position(|l| l.said == Said::Connected(attempt));
        let down = up_line.and_then(|u| v.lines[u..].iter().find(|l| matches!(l.said, Said::Disconnected(_))));
        let down_arrived = down.map_or(NEVER, |l| l.arrived);
        let over = down_arrived.min(v.lost);
        let (prop, why): (&'static str, &str) = if down_arrived <= v.lost { ("S03", "the link was reported as disconnected") } else { ("S04", "the control link was lost") };
        let mut delivered = start.unwrap_or(up_at);
        let mut known_over = NEVER;
        for r in &s.io {
            let end = r.end.unwrap_or(NEVER);
            if let Some(Io::Bytes(b)) = &r.out {
                delivered += b.len() as u64;
            }
            // Known for certain once everything was processed.
            let processed = r.quiet.map_or(false, |q| over < q) && !v.blocked_at(r.begin);
            let must_end = known_over < r.begin || processed;
            match (r.op, &r.out) {
                (Op::Read, Some(Io::End)) if r.len > 0 => {
                    if over > end && data_lost > end {
                        out.fail("S03", "end-while-up", format!("session {}: end of stream was reported while the link was up", n));
                    }
                    // This very read met the failure of the data connection.
                    if over > end && r.begin < v.data.read_err && v.data.read_err < end {
                        out.fail("S03", "end-for-error", format!("session {}: end of stream was reported while the link was up, when the data connection had failed", n));
                    }
                    // Everything that had arrived by then comes first.
                    let due = v.data.arrived_by(r.begin).min(a.data_end);
                    if delivered < due && start.is_some() {
                        out.fail("S01", "tail-lost", format!("session {}: end of stream was reported although {} received bytes had not been delivered", n, due - delivered));
                    }
                    if data_lost > end {
                        known_over = known_over.min(end);
                    }
                }
                (Op::Read, Some(Io::Err(ErrorKind::InvalidData))) => {
                    out.fail("S01", "buffer-damaged", format!("session {}: a read changed what its buffer held before, or took back what it had been given", n));
                }
                (Op::Read, Some(Io::Err(e))) => {
                    if v.data.end > end {
                        out.fail("S03", "read-error", format!("session {}: a read failed with {:?} while the data connection was fine", n, e));
                    }
                }
                (Op::Read, Some(Io::Bytes(_))) => {}
                (Op::Read, _) => {}
                (_, Some(Io::Err(e))) => {
                    if *e == ErrorKind::ConnectionAborted {
                        if over > end {
                            out.fail("S03", "abort-while-up", format!("session {}: {:?} failed as aborted while the link was up", n, r.op));
                        }
                        known_over = known_over.min(end);
                    } else if data_lost > end {
                        out.fail(if must_end { prop } else { "S03" }, "wrong-error", format!("session {}: {:?} failed with {:?}", n, r.op, e));
                    } else if must_end {
                        out.fail(prop, "wrong-error", format!("session {}: {:?} failed with {:?} instead of as aborted after {}", n, r.op, e, why));
                    }
                }
                (op, Some(Io::Wrote(_) | Io::Done)) => {
                    if must_end && over < r.begin {
                        out.fail(prop, "write-after-end", format!("session {}: {:?} succeeded after {} and this had been processed", n, op, why));
                    }
                    if let Some(Io::Wrote(w)) = r.out {
                        if w > r.len {
                            out.fail("S02", "count", format!("session {}: a write of {} bytes reported {} accepted", n, r.len, w));
                        }
                        // This very write met the failure of the data connection.
                        let met = r.begin < v.data.write_err && v.data.write_err < end;
                        if w > 0 && met && !v.data.wrote.iter().any(|&i| r.begin < i && i < end) {
                            out.fail("S02", "error-swallowed", format!("session {}: {:?} reported {} bytes as accepted when writing them failed", n, op, w));
                        }
                        if w == 0 && r.len > 0 && data_lost > end {
                            out.fail("S02", "zero", format!("session {}: a write of {} bytes reported none accepted", n, r.len));
                        }
                    }
                }
                _ => {}
            }
        }
        if !v.ended {
            continue;
        }
        for snap in &v.log.snaps {
            for r in &s.io {
                let open = r.begin < snap.idx && r.end.map_or(true, |e| e > snap.idx);
                if !open {
                    continue;
                }
                if over < snap.idx && !snap.ctl_blocked {
                    out.fail(prop, "hang", format!("session {}: {:?} still waits although {}", n, r.op, why));
                } else if r.op == Op::Read && v.data.arrived_by(snap.idx) > snap.data_read {
                    out.fail("S01", "hang", format!("session {}: a read still waits although bytes arrived", n));
                } else if r.op == Op::Read && data_lost < snap.idx {
                    out.fail("S01", "hang", format!("session {}: a read still waits although the data connection ended", n));
                } else if r.op != Op::Read {
                    out.fail("S02", "hang", format!("session {}: {:?} still waits although nothing is left to wait for", n, r.op));
                }
            }
        }
    }
    // S02: what the modem got is what was accepted.
    let got = &v.t.data_in;
    let accepted = v.log.accepted as usize;
    if let Some(i) = got.iter().enumerate().find(|(i, &b)| *i >= accepted || b != write_byte(*i as u64)).map(|x| x.0) {
        let what = if i >= accepted { "more bytes than were accepted" } else { "other bytes than were accepted" };
        out.fail("S02", "altered", format!("the modem got {} (position {} of {})", what, i, accepted));
    } else if got.len() < accepted && v.ended && data_lost == NEVER && v.log.snaps.len() == 2 {
        out.fail("S02", "lost", format!("the modem got {} of {} accepted bytes", got.len(), accepted));
    }
}

impl<'a> View<'a> {
    /// The program was held up by a modem that takes no bytes.
    fn blocked_at(&self, idx: usize) -> bool {
        // Conservative: between a refused write and the next taken one nothing is read.
        let Some(ctl) = self.t.ctl else { return false };
        let mut blocked = false;
        for r in &self.hist[..idx.min(self.hist.len())] {
            match &r.ev {
                Ev::Write { ep, .. } if *ep == ctl => blocked = true,
                Ev::GotBytes { ep, .. } if *ep == ctl => blocked = false,
                _ => {}
            }
        }
        blocked
    }
}

// ---- S05, S06

fn orders(out: &mut RunOut, v: &View) {
    let tries = tries(v);
    // The connect requests in the order the modem got them; the orders between two belong to the first.
    let mut segs: Vec<(Option<usize>, Vec<usize>)> = vec![(None, Vec::new())];
    let by_cmd: BTreeMap<usize, usize> = tries.iter().filter_map(|(&i, t)| t.cmd.map(|c| (c, i))).collect();
    for (j, c) in v.t.cmds.iter().enumerate() {
        if let Some(&call) = by_cmd.get(&j) {
            segs.push((Some(call), Vec::new()));
        } else if is_order(&c.text) {
            segs.last_mut().unwrap().1.push(j);
        }
    }
    let explicit: Vec<&Call> = v.log.calls.iter().filter(|c| c.kind == CallKind::Explicit).collect();
    for (n, (call, orders)) in segs.iter().enumerate() {
        let from = call.map_or(0, |c| v.log.calls[c].begin);
        let to = segs.get(n + 1).map_or(NEVER, |s| v.log.calls[s.0.unwrap()].begin);
        let ours: Vec<&&Call> = explicit.iter().filter(|c| c.begin > from && c.begin < to).collect();
        let e_max = ours.len();
        let e_min = ours.iter().filter(|c| c.out == Some(Out::Ok) || matches!(c.out, Some(Out::Err(_))) && v.lost == NEVER).count();
        let Some(call) = *call else {
            if orders.len() > e_max {
                out.fail("S06", "unfounded", format!("the modem got {} orders to disconnect before any connect request", orders.len() - e_max));
            }
            continue;
        };
        let c = &v.log.calls[call];
        let t = &tries[&call];
        let name = show(&c.line);
        // When an order on behalf of this attempt can be sent at the earliest, and how many there are.
        let sess = v.log.sess.iter().find(|s| s.call == call);
        let (since, lo, hi) = match (&c.out, sess) {
            (Some(Out::Ok), Some(s)) => {
                let up_line = v.lines.iter().position(|l| t.attempt.map_or(false, |a| l.said == Said::Connected(a)));
                let down = up_line.and_then(|u| v.lines[u..].iter().find(|l| matches!(l.said, Said::Disconnected(_))));
                match s.close {
                    None => (NEVER, 0, 0),
                    Some((kind, at)) => {
                        let down_arrived = down.map_or(NEVER, |l| l.arrived);
                        let down_handled = down.map_or(NEVER, |l| l.handled);
                        // The reader may have told the owner before the poll that handled it ended.
                        let told = s.io.iter().any(|r| matches!(r.out, Some(Io::End)) && v.data.end > r.end.unwrap());
                        let over = down_handled < at && s.close_quiet.map_or(false, |q| q > down_handled) || told && v.lost > at;
                        let done = s.dropped.unwrap_or(at);
                        let live = down_arrived >= done && v.lost >= done;
                        match kind {
                            CloseKind::Drop if over => (at, 0, 0),
                            CloseKind::Drop if live => (at, 1, 1),
                            CloseKind::Drop => (at, 0, 1),
                            _ => {
                                let o = s.close_call.and_then(|c| v.log.calls[c].out.clone());
                                match o {
                                    Some(Out::Ok) => (at, 1, 1),
                                    // Refused: dropping the session gives the order once more.
                                    Some(Out::Err(_)) if v.lost == NEVER && s.close_call.and_then(|c| v.log.calls[c].end).map_or(false, |e| down_arrived > e) => (at, 2, 2),
                                    Some(Out::Err(_)) if v.lost == NEVER => (at, 1, 2),
                                    Some(Out::Err(_)) => (at, 0, 2),
                                    _ if live => (at, 1, 2),
                                    _ => (at, 0, 2),
                                }
                            }
                        }
                    }
                }
            }
            (Some(Out::Abandoned), _) => (c.given_up.unwrap_or(c.begin), 0, 1),
            (Some(Out::Err(_)), _) => {
                if t.refused {
                    (NEVER, 0, 0)
                } else {
                    // Only an outcome that is neither connected nor disconnected is called off.
                    let after: &[L] = t.accepted.map_or(&[], |a| &v.lines[a + 1..]);
                    let odd = after.iter().find(|l| matches!(l.said, Said::Pending | Said::Canceled));
                    match odd {
                        Some(l) if l.read < c.end.unwrap() => (l.read, 0, 1),
                        _ if v.lost != NEVER => (v.lost, 0, 1),
                        _ => (NEVER, 0, 0),
                    }
                }
            }
            _ => (NEVER, 0, 0),
        };
        let early = orders.iter().filter(|&&j| v.t.cmds[j].idx <= since).count();
        let early_explicit = ours.iter().filter(|c| c.begin < since).count();
        if early > early_explicit {
            out.fail("S06", "disturbed", format!("after {} the modem got an order to disconnect that nobody had given for it", name));
        } else if orders.len() > hi + e_max {
            if sess.is_some() {
                out.fail("S05", "too-many", format!("closing the session of {} sent {} orders to disconnect", name, orders.len() - e_min.min(orders.len())));
            } else {
                out.fail("S06", "too-many", format!("the failed or abandoned {} caused {} orders to disconnect", name, orders.len()));
            }
        }
        let settled = v.ended && v.log.snaps.len() == 2;
        if orders.len() < lo + e_min && settled && v.lost == NEVER && to == NEVER {
            out.fail("S05", "none", format!("closing the session of {} sent no order to disconnect", name));
        }
        if orders.len() < lo + e_min && to != NEVER && v.lost == NEVER {
            out.fail("S05", "none-in-time", format!("closing the session of {} sent no order to disconnect before the next connect request", name));
        }
    }
}

// ---- C08

fn shut_down(out: &mut RunOut, v: &View, live: &[String]) {
    if v.log.snaps.len() != 2 {
        return;
    }
    // Nothing may be left running or open once the handle is gone.
    if let Some(d) = v.log.tnc_dropped {
        let s = &v.log.snaps[1];
        if d < s.idx {
            if !s.live.is_empty() || !live.is_empty() {
                out.fail("C08", "left-running", format!("background tasks were left after the handle was dropped: {:?}", s.live));
            }
            if !s.open_ends.is_empty() {
                out.fail("C08", "left-open", "connections were left open after the handle was dropped".to_string());
            }
        }
        if v.lost == NEVER && v.ctl.close != NEVER {
            let late: Vec<String> = v
                .t
                .cmds
                .iter()
                .filter(|c| c.reply.map_or(true, |(line, _)| v.ctl.read(v.t.lines[line].end) > v.ctl.close))
                .map(|c| show(&c.text))
                .collect();
            if !late.is_empty() {
                out.fail("C08", "unanswered", format!("the control connection was closed before the answers to {:?}", late));
            }
        }
    }
    // The control connection stays up for as long as the handle exists.
    let dropped = v.log.tnc_dropped.unwrap_or(NEVER);
    if v.lost == NEVER && v.ctl.close < dropped && v.log.builds.first().map_or(false, |b| b.ok == Some(true)) {
        out.fail("C08", "closed-early", "the control connection was closed although it was fine and the handle in use".to_string());
    }
    if v.data.shut < dropped.min(v.data.end) && v.log.sess.iter().any(|s| s.opened < v.data.shut) {
        out.fail("S06", "shut", "the data connection, which later sessions need, was shut down while the handle was in use".to_string());
    }
    if v.data.close < dropped && v.log.builds.first().map_or(false, |b| b.ok == Some(true)) {
        out.fail("C08", "data-closed", "the data connection was closed while the handle was in use".to_string());
    }
}

// ---- C09

fn set_up(out: &mut RunOut, v: &View) {
    let all: Vec<&Build> = v.log.earlier.iter().chain(v.log.builds.first()).collect();
    for (n, b) in all.iter().enumerate() {
        let to = all.get(n + 1).map_or(NEVER, |b| b.begin);
        set_up_once(out, v, b, to);
        if n + 1 < all.len() {
            out.probe("builder-used-again");
        }
    }
}

fn set_up_once(out: &mut RunOut, v: &View, b: &Build, to: usize) {
    let mut dials = Vec::new();
    for r in v.hist.iter().take(to).skip(b.begin) {
        match &r.ev {
            Ev::Dial { ep, addr } => dials.push((*ep, addr.clone(), None)),
            Ev::Dialed { ep, ok } => {
                if let Some(d) = dials.iter_mut().find(|d| d.0 == *ep) {
                    d.2 = Some(*ok);
                }
            }
            _ => {}
        }
    }
    let want = |port: u16| std::net::SocketAddr::new(b.control.0, port).to_string();
    let data = b.data.or(b.control.1.checked_add(1));
    let mut expect = vec![want(b.control.1)];
    expect.extend(data.map(want));
    for (_, addr, _) in &dials {
        if !expect.contains(addr) {
            out.fail("C09", "wrong-address", format!("dialed {}, expected {:?}", addr, expect));
        }
    }
    if let Some(e) = expect.iter().find(|e| dials.iter().filter(|d| d.1 == **e).count() > if expect[0] == expect[expect.len() - 1] { 2 } else { 1 }) {
        out.fail("C09", "dialed-twice", format!("dialed {} more than once", e));
    }
    let up = |addr: &str| dials.iter().any(|d| d.1 == addr && d.2 == Some(true));
    match b.ok {
        Some(true) => {
            if data.is_none() || !expect.iter().all(|e| up(e)) {
                out.fail("C09", "ok-unfounded", "setting up succeeded without both connections".to_string());
            }
        }
        Some(false) => {
            let refused = dials.iter().any(|d| d.2 == Some(false));
            if data.is_some() && !refused {
                out.fail("C09", "err-unfounded", "setting up failed although no connection was refused".to_string());
            }
        }
        None if !b.abandoned => out.fail("C09", "hang", "setting up never finished".to_string()),
        None => {}
    }
    if b.ok != Some(true) {
        if data.is_none() && !dials.is_empty() {
            out.fail("C09", "dialed", "a connection was dialed although the data port does not exist".to_string());
        }
        if let Some(s) = &b.snap {
            if !s.open_ends.is_empty() || !s.live.is_empty() {
                out.fail("C09", "left-behind", format!("after setting up failed or was abandoned there were left: connections {:?}, tasks {:?}", s.open_ends, s.live));
            }
        }
    } else if let Some(s) = &b.snap {
        if !s.open_ends.is_empty() || !s.live.is_empty() {
            out.fail("C08", "left-unused", format!("after a handle that was never used was dropped there were left: connections {:?}, tasks {:?}", s.open_ends, s.live));
        }
    }
}

fn probes(out: &mut RunOut, v: &View) {
    for c in &v.log.calls {
        match (&c.kind, &c.out) {
            (CallKind::Connect, Some(Out::Abandoned)) => out.probe("connect-abandoned"),
            (CallKind::Connect, Some(Out::Ok)) => out.probe("session-opened"),
            (CallKind::Connect, Some(Out::Err(_))) => out.probe("connect-failed"),
            (_, Some(Out::Abandoned)) => out.probe("command-abandoned"),
            (_, Some(Out::Err(_))) => out.probe("command-failed"),
            (_, Some(Out::Ok)) => out.probe("command-ok"),
            _ => {}
        }
    }
    if v.log.calls.iter().filter(|c| c.kind == CallKind::Plain && matches!(c.out, Some(Out::Ok))).count() > 256 {
        out.probe("many-commands");
    }
    let mut moves: Vec<(usize, i32)> = v.t.cmds.iter().map(|c| (c.idx, 1)).collect();
    moves.extend(v.t.cmds.iter().filter_map(|c| c.handled_idx).map(|i| (i, -1)));
    moves.sort();
    let (mut open, mut most) = (0, 0);
    for (_, by) in moves {
        open += by;
        most = most.max(open);
    }
    if most > 16 {
        out.probe("many-unanswered");
    }
    if v.log.sess.len() > 16 {
        out.probe("many-sessions");
    }
    let read = |r: &IoRec| if let Some(Io::Bytes(b)) = &r.out { b.len() as u64 } else { 0 };
    if v.log.sess.iter().any(|s| s.io.iter().map(read).sum::<u64>() > 1 << 16) {
        out.probe("long-read");
    }
    if v.log.accepted > 1 << 16 {
        out.probe("long-write");
    }
    let mut overlaps = false;
    for (i, a) in v.log.calls.iter().enumerate() {
        if v.log.calls[..i].iter().any(|b| b.end.map_or(true, |e| e > a.begin)) {
            overlaps = true;
        }
    }
    if overlaps {
        out.probe("calls-overlapped");
    }
    if v.lost != NEVER {
        out.probe("control-lost");
        if v.log.sess.iter().any(|s| s.opened < v.lost && s.close.map_or(true, |c| c.1 > v.lost)) {
            out.probe("control-lost-in-session");
        }
        if v.log.calls.iter().any(|c| c.begin < v.lost && c.end.map_or(true, |e| e > v.lost)) {
            out.probe("control-lost-with-calls-waiting");
        }
    }
    for s in &v.log.sess {
        for r in &s.io {
            match &r.out {
                Some(Io::End) => out.probe("session-end-seen"),
                Some(Io::Err(ErrorKind::ConnectionAborted)) => out.probe("write-aborted"),
                Some(Io::Bytes(_)) => out.probe("session-read"),
                Some(Io::Wrote(_)) => out.probe("session-write"),
                Some(Io::Abandoned) => out.probe("session-io-abandoned"),
                _ => {}
            }
        }
    }
    for s in &v.log.sees {
        out.probe(if s.quiet.is_some() { "reading-at-rest" } else { "reading-in-motion" });
    }
    if v.log.rejected_ids > 0 {
        out.probe("identity-rejected");
    }
    if v.log.sess.len() > 1 {
        out.probe("several-sessions");
    }
}
