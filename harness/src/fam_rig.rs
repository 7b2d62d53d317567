//! Rig control on a simulated serial line: orders are queued while the rig sends noise, takes
//! bytes slowly or not at all, and the line ends or fails.

use crate::clients::*;
use crate::hist::Ev;
use crate::kernel::*;
use crate::rig::*;
use crate::run::*;
use crate::tape::{Lane, Tape};
use crate::vara_check::Track;
use plusendi::rig::elecraft::kx3::{manage_rig_thread, Command, TransmitState};
use std::cell::RefCell;
use std::rc::Rc;
use tokio::sync::mpsc;

#[derive(Clone, Copy, Debug)]
struct Order {
    transmit: bool,
    begin: usize,
    /// When it was queued; never if that failed or was given up.
    queued: Option<usize>,
}

#[derive(Default)]
struct RLog {
    orders: Vec<Order>,
    /// The queue was closed.
    closed: Option<usize>,
    result: Option<(usize, Result<(), String>)>,
    snaps: Vec<Snap>,
    refused: Option<usize>,
}

struct Snap {
    idx: usize,
    written: usize,
    blocked: bool,
    ended: bool,
}

type LogRef = Rc<RefCell<RLog>>;

async fn orderer(k: Rc<Kernel>, log: LogRef, tx: mpsc::Sender<Command>, n: u64, pace: u64, abandon: u32, keep: Rc<RefCell<Option<mpsc::Sender<Command>>>>, close: bool) {
    for _ in 0..n {
        match k.choose(Lane::Work, 4) {
            0 | 1 => {}
            2 => k.sleep(pace / 4 * k.range(Lane::Work, 0, 8)).await,
            _ => {
                k.quiet().await;
            }
        }
        let transmit = k.chance(Lane::Work, 1, 2);
        let i = {
            let mut log = log.borrow_mut();
            log.orders.push(Order { transmit, begin: k.hist_len(), queued: None });
            log.orders.len() - 1
        };
        let state = if transmit { TransmitState::Transmit } else { TransmitState::Receive };
        let g = if abandon > 0 && k.chance(Lane::Work, abandon, 16) { GiveUp::Polls(k.range(Lane::Work, 1, 2) as u32) } else { GiveUp::Never };
        match give_up(&k, tx.send(Command::SetTransmitState(state)), g).await {
            Some(Ok(())) => {
                let idx = k.log(Ev::Note { text: format!("queued {:?}", state) });
                log.borrow_mut().orders[i].queued = Some(idx);
            }
            Some(Err(_)) => {
                let idx = k.log(Ev::Note { text: "queue refused the order".into() });
                log.borrow_mut().refused.get_or_insert(idx);
                break;
            }
            None => {
                k.log(Ev::Note { text: format!("gave up queueing {:?}", state) });
            }
        }
    }
    if close {
        let idx = k.log(Ev::Note { text: "queue closed".into() });
        log.borrow_mut().closed = Some(idx);
        drop(tx);
    } else {
        *keep.borrow_mut() = Some(tx);
    }
}

pub fn run(f: &Focus, tape: Tape) -> RunOut {
    let k = Kernel::new(tape);
    let _world = plusendi::sim::install(Some(k.clone()));
    let drawn_verbose = k.chance(Lane::Work, 1, 4);
    crate::vtrace::set(f.verbose.unwrap_or(drawn_verbose));
    k.draw_policy();
    let w = Lane::Work;
    let big = k.chance(w, 1, 800);
    let n = if big { k.range(w, 250, 700) } else { k.range(w, 0, if f.thorough { 60 } else { 20 }) };
    let pace = k.pick(w, &[0, MILLI, 20 * MILLI, 200 * MILLI]);
    let room = k.pick(w, if big { &[1usize, 16, 300] } else { &[1usize, 1, 2, 16] });
    let abandon = k.pick(w, &[0, 0, 4]);
    let close = k.chance(w, 1, 2);
    let cfg = RigCfg {
        noise: k.pick(Lane::Peer, if big { &[0, 60, 150] } else if f.is(&["R02", "X01", "X02"]) { &[10, 30, 3] } else { &[0, 3, 20] }),
        noise_gap: k.pick(Lane::Peer, &[10 * MILLI, MILLI, 100 * MILLI]),
        big: if big { k.pick(Lane::Peer, &[10_000, 70_000, 300_000]) } else { 0 },
        answers: k.pick(Lane::Peer, &[0, 1, 3]),
    };
    let rig_big = cfg.big;
    let faults = draw_faults(&k, if f.is(&["R03"]) { 10 } else { 3 }, (n.max(2)) * pace.max(MILLI));
    let rig = Rig::new(cfg, faults);
    let net = {
        let mut net = k.draw_net(false);
        // Serial lines are slow and have small buffers.
        net.window = k.pick(Lane::Net, &[4096, 1, 2, 3, 8]);
        if big && net.split != 0 && rig_big > 10_000 {
            // Byte by byte, this much would keep the simulator busy for many seconds.
            net.split = 0;
        }
        net
    };
    {
        let rig = rig.clone();
        k.set_devices(move |_, _| Ok((rig.clone(), net.clone(), b';')));
    }
    let log: LogRef = Default::default();
    let (tx, rx) = mpsc::channel(room);
    let line = tokio_serial::SerialStream::open(&tokio_serial::new("rig", 38400)).expect("opens");
    let manager = {
        let (k2, log) = (k.clone(), log.clone());
        k.sut("rig-control", async move {
            let r = manage_rig_thread(rx, line).await;
            let r = r.map_err(|e| e.to_string());
            let idx = k2.log(Ev::Note { text: format!("rig control ended: {:?}", r) });
            log.borrow_mut().result = Some((idx, r));
        })
    };
    let keep: Rc<RefCell<Option<mpsc::Sender<Command>>>> = Default::default();
    k.client("orderer", orderer(k.clone(), log.clone(), tx, n, pace, abandon, keep.clone(), close));
    {
        let (k2, log, rig, keep) = (k.clone(), log.clone(), rig.clone(), keep.clone());
        k.client("supervisor", async move {
            let look = {
                let (k, log, rig) = (k2.clone(), log.clone(), rig.clone());
                move || {
                    let ep = rig.borrow().ep.unwrap();
                    let s = Snap {
                        idx: k.log(Ev::Note { text: "settled".into() }),
                        written: rig.borrow().got.len(),
                        blocked: k.is_write_blocked(ep),
                        ended: k.task_done(manager),
                    };
                    log.borrow_mut().snaps.push(s);
                }
            };
            k2.settled(look.clone()).await;
            if let Some(tx) = keep.borrow_mut().take() {
                let idx = k2.log(Ev::Note { text: "queue closed".into() });
                log.borrow_mut().closed = Some(idx);
                drop(tx);
            }
            k2.settled(look).await;
        });
    }
    drop(keep);
    k.run();
    let fatal = k.fatal();
    let ep = rig.borrow().ep;
    k.tear_down();
    plusendi::sim::install(None);
    crate::vtrace::set(false);
    let mut out = RunOut::default();
    out.take(k.into_parts());
    let log = log.borrow();
    let rig = rig.borrow();
    check(&mut out, &log, &rig, ep, fatal);
    out
}

fn check(out: &mut RunOut, log: &RLog, rig: &Rig, ep: Option<u64>, fatal: bool) {
    let hist = std::mem::take(&mut out.hist);
    let t = Track::of(&hist, ep);
    let never = usize::MAX;
    // When the line was no longer fine, for reading and for writing.
    let read_lost = t.end;
    let writes_fail = hist.iter().position(|r| matches!(&r.ev, Ev::Fault { kind: "serial-write-error" })).unwrap_or(never);
    let write_err = t.write_err;
    let first_fault = read_lost.min(writes_fail);
    let queued: Vec<&Order> = log.orders.iter().filter(|o| o.queued.is_some()).collect();
    let want: Vec<&str> = queued.iter().map(|o| if o.transmit { "TX" } else { "RX" }).collect();
    let (got, rest) = orders(&rig.got);
    // R01
    for (i, g) in got.iter().enumerate() {
        match want.get(i) {
            Some(w) if w == g => {}
            Some(w) => {
                out.fail("R01", "wrong", format!("the rig's order {} was {:?} instead of {:?}", i, g, w));
                break;
            }
            None => {
                out.fail("R01", "extra", format!("the rig got {} orders but only {} had been queued", got.len(), want.len()));
                break;
            }
        }
    }
    if !rest.is_empty() && !fatal {
        let fits = want.get(got.len()).map_or(false, |w| w.starts_with(&rest[..]));
        if !fits || first_fault == never {
            out.fail("R01", "partial", format!("the rig was left with the unfinished order {:?}", rest));
        }
    }
    // An order reaches the rig only after somebody asked for it.
    let mut end = 0;
    for (i, g) in got.iter().enumerate() {
        end += g.len() + 1;
        let at = rig.got_at.iter().find(|x| x.0 >= end).map_or(never, |x| x.1);
        if let Some(o) = queued.get(i) {
            if at < o.begin {
                out.fail("R01", "early", format!("order {} reached the rig before it was given", i));
            }
        }
    }
    let total: usize = want.len() * 3;
    let result = log.result.as_ref();
    let ended = result.map_or(never, |r| r.0);
    for s in &log.snaps {
        if fatal {
            break;
        }
        if first_fault > s.idx && !s.blocked {
            let due = queued.iter().filter(|o| o.queued.unwrap() < s.idx).count() * 3;
            if s.written < due {
                let prop = if ended < s.idx { "R02" } else { "R01" };
                out.fail(prop, "undelivered", format!("{} bytes of orders were queued but only {} reached the rig", due, s.written));
                if prop == "R02" {
                    out.fail("R01", "undelivered", format!("{} bytes of orders were queued but only {} reached the rig", due, s.written));
                }
            }
        }
        // R03: a line that has ended is noticed.
        if read_lost < s.idx && !s.ended && !s.blocked {
            out.fail("R03", "hang", "rig control goes on although the serial line has ended".to_string());
        }
        if write_err < s.idx && !s.ended {
            out.fail("R03", "hang", "rig control goes on although the serial line has failed".to_string());
        }
        if log.closed.map_or(false, |c| c < s.idx) && !s.ended && !s.blocked {
            out.fail("R03", "hang", "rig control goes on although the queue is closed".to_string());
        }
    }
    match result {
        Some((at, Ok(()))) => {
            if log.closed.map_or(true, |c| c > *at) {
                out.fail("R03", "ended", "rig control ended although the queue was open".to_string());
            }
            if read_lost < *at && t.read_end < *at || write_err < *at {
                out.fail("R03", "ok", "rig control reported success although it had met the failure of the serial line".to_string());
            }
            let written = hist.iter().rev().find_map(|r| if let Ev::Write { ep: e, total, .. } = &r.ev { (Some(*e) == ep).then_some(*total) } else { None }).unwrap_or(0);
            if (written as usize) < total {
                out.fail("R01", "unwritten", format!("rig control ended successfully after writing {} of {} queued bytes", written, total));
                out.fail("R03", "unwritten", format!("rig control ended successfully after writing {} of {} queued bytes", written, total));
            }
        }
        Some((at, Err(e))) => {
            if read_lost > *at && write_err > *at {
                out.fail("R02", "stopped", format!("rig control ended with an error ({}) although the serial line was fine", e));
                out.fail("R03", "error", format!("rig control ended with an error ({}) although the serial line was fine", e));
            }
        }
        None => {}
    }
    if let Some(r) = log.refused {
        if r < ended && !fatal {
            out.fail("R01", "refused", "the queue was closed by rig control before it ended".to_string());
        }
    }
    if rig.closed && ended == never && !fatal {
        out.fail("R03", "closed", "the serial line was closed while rig control was running".to_string());
    }
    for (cond, name) in [
        (read_lost != never, "rig-line-ended"),
        (write_err != never, "rig-write-failed"),
        (log.closed.map_or(false, |c| queued.iter().any(|o| o.queued.unwrap() < c && first(&t, rig, o, &queued) > c)), "rig-queue-closed-with-orders-left"),
        (queued.len() > 3, "rig-several-orders"),
        (queued.len() > 256, "rig-many-orders"),
    ] {
        if cond {
            out.probe(name);
        }
    }
    out.nontrivial = log.orders.len() > 1 && out.switches > 4;
    out.hist = hist;
}

/// When the rig had got the order.
fn first(_: &Track, rig: &Rig, o: &Order, queued: &[&Order]) -> usize {
    let n = queued.iter().position(|q| q.begin == o.begin).unwrap_or(0);
    rig.got_at.iter().find(|x| x.0 >= (n + 1) * 3).map_or(usize::MAX, |x| x.1)
}
