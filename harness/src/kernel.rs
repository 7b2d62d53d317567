//! The simulator: one thread runs every task, peer, timer and byte in flight of a run, and a
//! choice tape decides everything that could go more than one way.

use crate::clock;
use crate::hist::{Ev, Rec};
use crate::tape::{Lane, Record, Tape};
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use plusendi::sim::World;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::io;
use std::net::SocketAddr;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::{Rc, Weak};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Instant;

pub const MICRO: u64 = 1_000;
pub const MILLI: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

/// More scheduling points than this within one poll is a loop that never yields.
const OPS_PER_POLL: u64 = 30_000;
/// More task steps than this without any input, timer or peer event is spinning.
const STEPS_PER_EVENT: u64 = 20_000;
/// More than this in one run is a run that never comes to rest.
const STEPS_PER_RUN: u64 = 1_500_000;
const EVENTS_PER_RUN: u64 = 400_000;

#[derive(Clone, Copy)]
enum Cmd {
    Poll,
    Drop,
}

enum Out {
    Pending,
    Preempted,
    /// Waits for a lock that another task holds.
    Locked,
}

enum Fin {
    Done,
    Dropped,
    Panicked(String),
    Spun,
}

type Co = Coroutine<Cmd, Out, Fin, DefaultStack>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum TState {
    Idle,
    Ready,
    /// Preempted within a poll.
    Suspended,
    Running,
    Done,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Code under test.
    Sut,
    /// A simulated client of it.
    Client,
}

struct Task {
    co: Option<Co>,
    state: TState,
    woken: bool,
    abort: bool,
    kind: Kind,
    name: String,
    prio: u32,
    polls: u64,
    ops: u64,
    yielder: *const (),
    reads: Vec<(u64, u64)>,
}

struct TaskWaker {
    epoch: u64,
    task: u64,
}

thread_local! {
    static WAKES: RefCell<Vec<(u64, u64)>> = const { RefCell::new(Vec::new()) };
    static EPOCH: Cell<u64> = const { Cell::new(0) };
    static YIELDER: Cell<*const ()> = const { Cell::new(std::ptr::null()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let _ = WAKES.try_with(|w| w.borrow_mut().push((self.epoch, self.task)));
    }
}

/// Begins the text of panics that are the simulator's own.
pub const HARNESS: &str = "(in the simulator) ";

/// Whether a simulated task is running on this thread.
pub fn in_task() -> bool {
    YIELDER.try_with(|y| !y.get().is_null()).unwrap_or(false)
}

/// The running task waits for a lock that another simulated task holds: the others run first.
pub fn wait_for_lock() {
    let y = YIELDER.with(|y| y.get());
    if !y.is_null() && !std::thread::panicking() {
        // Safety: the pointer was set by the body of the coroutine this runs in.
        let yielder = unsafe { &*(y as *const Yielder<Cmd, Out>) };
        yielder.suspend(Out::Locked);
    }
}

/// Unwinds a task found spinning.
struct SpinAbort;

/// Keeps panics of simulated tasks quiet and remembers their text.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if in_task() {
            let _ = LAST_PANIC.try_with(|p| {
                let text = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
                let text: String = text.chars().take(200).collect();
                let place = info.location().map(|l| format!("{}:{}", l.file().rsplit("src/").next().unwrap_or(""), l.line())).unwrap_or_default();
                let harness = info.location().map_or(false, |l| l.file().starts_with("src/") && !l.file().contains("..") || l.file().contains("/shims/"));
                *p.borrow_mut() = format!("{}{} at {}", if harness { HARNESS } else { "" }, text.replace('\n', " "), place);
            });
        } else {
            default(info);
        }
    }));
}

type Action = Box<dyn FnOnce(&Rc<Kernel>)>;

struct Scheduled {
    at: u64,
    seq: u64,
    action: Action,
}

impl PartialEq for Scheduled {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Scheduled {}
impl PartialOrd for Scheduled {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Scheduled {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

/// The other side of an endpoint.
pub trait Peer {
    fn on_bytes(&mut self, k: &Rc<Kernel>, ep: u64, bytes: &[u8]);
    /// The code under test closed the endpoint (all it wrote has been delivered before).
    fn on_close(&mut self, k: &Rc<Kernel>, ep: u64);
}

pub type PeerRef = Rc<RefCell<dyn Peer>>;

/// How bytes travel on one endpoint.
#[derive(Clone, Debug)]
pub struct NetCfg {
    /// 0: as sent; 1: cut at random places; 2: byte by byte; 3: just before or after line ends.
    pub split: u32,
    pub rx_delay: u64,
    pub tx_delay: u64,
    /// How many bytes the peer's side takes before the writer has to wait.
    pub window: usize,
    pub partial_writes: bool,
    pub spurious: bool,
    /// Readiness is forgotten as soon as the buffer is drained (newer tokio) or only on a failed read.
    pub clear_on_drain: bool,
    /// A read may return less than there is.
    pub short_reads: bool,
}

impl Default for NetCfg {
    fn default() -> Self {
        NetCfg { split: 0, rx_delay: 0, tx_delay: 0, window: 65536, partial_writes: false, spurious: false, clear_on_drain: false, short_reads: false }
    }
}

struct End {
    cfg: NetCfg,
    line_end: u8,
    peer: Option<PeerRef>,
    // towards the code under test
    rx: VecDeque<u8>,
    rx_end: Option<Option<io::ErrorKind>>,
    rx_err_given: bool,
    rx_ready: bool,
    rx_wakers: Vec<Waker>,
    arrived: u64,
    read: u64,
    sent: u64,
    last_rx_at: u64,
    // from the code under test
    tx_inflight: usize,
    tx_ready: bool,
    tx_wakers: Vec<Waker>,
    tx_err: Option<io::ErrorKind>,
    tx_stalled: bool,
    tx_held: VecDeque<Vec<u8>>,
    written: u64,
    last_tx_at: u64,
    closed: bool,
    dialed: Option<Result<(), io::ErrorKind>>,
    dial_wakers: Vec<Waker>,
    /// (stream position, time, history index) of arrivals.
    arrivals: Vec<(u64, u64, usize)>,
}

pub struct DialPlan {
    pub delay: u64,
    pub result: Result<(PeerRef, NetCfg), io::ErrorKind>,
    pub line_end: u8,
}

#[derive(Clone, Debug, Default)]
pub struct Policy {
    /// 0: first come first served; 1: uniformly random; 2: random priorities; 3: sticky.
    pub pick: u32,
    /// A task may be preempted about every so many operations (0: never).
    pub preempt: u32,
    /// An event at most this far in the future may overtake a task that could run.
    pub eager: u64,
    /// A task is polled without reason about every so many steps (0: never).
    pub spurious_poll: u32,
}

struct St {
    now: u64,
    seq: u64,
    events: BinaryHeap<Scheduled>,
    tasks: Vec<Task>,
    ready: Vec<u64>,
    ends: Vec<End>,
    timers: BTreeMap<u64, Waker>,
    next_timer: u64,
    hist: Vec<Rec>,
    hash: std::collections::hash_map::DefaultHasher,
    policy: Policy,
    ops_left: u32,
    ops_armed: bool,
    event_prio: u32,
    last_task: u64,
    steps: u64,
    steps_since_event: u64,
    events_run: u64,
    quiet_at: usize,
    switches: u64,
    preemptions: u64,
    quiet: Vec<Waker>,
    /// Tasks waiting for a lock; they try again once another task has run.
    locked: Vec<u64>,
    lock_tries: u32,
    settled: VecDeque<(Waker, Box<dyn FnOnce()>)>,
    fatal: bool,
    frozen: bool,
    dialer: Option<Rc<dyn Fn(&Rc<Kernel>, SocketAddr, u64) -> DialPlan>>,
    devices: Option<Rc<dyn Fn(&Rc<Kernel>, &str) -> io::Result<(PeerRef, NetCfg, u8)>>>,
    arguments: Vec<String>,
    counts: BTreeMap<&'static str, u64>,
}

pub struct Kernel {
    me: Weak<Kernel>,
    st: RefCell<St>,
    tape: RefCell<Tape>,
    current: Cell<u64>,
    ops_in_poll: Cell<u64>,
    no_preempt: Cell<bool>,
    epoch: u64,
    base: Instant,
    /// The moment a client last gave up on a call.
    pub gave_up: Cell<usize>,
}

pub const NO_TASK: u64 = u64::MAX;

impl Kernel {
    pub fn new(tape: Tape) -> Rc<Kernel> {
        let epoch = EPOCH.with(|e| {
            e.set(e.get() + 1);
            e.get()
        });
        WAKES.with(|w| w.borrow_mut().clear());
        clock::set(Some(0));
        Rc::new_cyclic(|me| Kernel {
            me: me.clone(),
            st: RefCell::new(St {
                now: 0,
                seq: 0,
                events: BinaryHeap::new(),
                tasks: Vec::new(),
                ready: Vec::new(),
                ends: Vec::new(),
                timers: BTreeMap::new(),
                next_timer: 1,
                hist: Vec::new(),
                hash: Default::default(),
                policy: Policy::default(),
                ops_left: 0,
                ops_armed: false,
                event_prio: 0,
                last_task: NO_TASK,
                steps: 0,
                steps_since_event: 0,
                events_run: 0,
                quiet_at: 0,
                switches: 0,
                preemptions: 0,
                quiet: Vec::new(),
                locked: Vec::new(),
                lock_tries: 0,
                settled: VecDeque::new(),
                fatal: false,
                frozen: false,
                dialer: None,
                devices: None,
                arguments: Vec::new(),
                counts: BTreeMap::new(),
            }),
            tape: RefCell::new(tape),
            current: Cell::new(NO_TASK),
            ops_in_poll: Cell::new(0),
            no_preempt: Cell::new(false),
            epoch,
            base: Instant::now(),
            gave_up: Cell::new(0),
        })
    }

    // ---- choices, log, time

    pub fn choose(&self, lane: Lane, n: u32) -> u32 {
        self.tape.borrow_mut().choose(lane, n)
    }

    /// True with probability `num`/`den`; 0 on the tape is false.
    pub fn chance(&self, lane: Lane, num: u32, den: u32) -> bool {
        self.choose(lane, den) >= den - num
    }

    /// `lo..=hi`, plainest `lo`.
    pub fn range(&self, lane: Lane, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        lo + self.choose(lane, (hi - lo + 1) as u32) as u64
    }

    pub fn pick<T: Clone>(&self, lane: Lane, of: &[T]) -> T {
        of[self.choose(lane, of.len() as u32) as usize].clone()
    }

    pub fn log(&self, ev: Ev) -> usize {
        let mut st = self.st.borrow_mut();
        let st = &mut *st;
        if st.frozen || (matches!(ev, Ev::ReadEnd { .. }) && st.hist.last().map_or(false, |r| r.ev == ev)) {
            return st.hist.len();
        }
        let task = self.current.get();
        (st.now, task, &ev).hash(&mut st.hash);
        st.hist.push(Rec { at: st.now, task, ev });
        st.hist.len() - 1
    }

    pub fn count(&self, what: &'static str) {
        *self.st.borrow_mut().counts.entry(what).or_default() += 1;
    }

    pub fn fault(&self, kind: &'static str) {
        self.count(kind);
        self.log(Ev::Fault { kind });
    }

    pub fn now(&self) -> u64 {
        self.st.borrow().now
    }

    pub fn hist_len(&self) -> usize {
        self.st.borrow().hist.len()
    }

    pub fn after(&self, delay: u64, action: impl FnOnce(&Rc<Kernel>) + 'static) {
        let mut st = self.st.borrow_mut();
        let at = st.now + delay;
        st.seq += 1;
        let seq = st.seq;
        st.events.push(Scheduled { at, seq, action: Box::new(action) });
    }

    pub fn at(&self, at: u64, action: impl FnOnce(&Rc<Kernel>) + 'static) {
        let now = self.now();
        self.after(at.saturating_sub(now), action)
    }

    pub fn set_policy(&self, p: Policy) {
        let mut st = self.st.borrow_mut();
        st.policy = p;
        st.ops_left = 0;
    }

    /// Draws a scheduling policy for the run.
    pub fn draw_policy(&self) {
        let pick = self.pick(Lane::Sched, &[0, 1, 1, 2, 2, 3]);
        let preempt = self.pick(Lane::Sched, &[0, 0, 4, 16, 64, 24]);
        let eager = self.pick(Lane::Sched, &[0, 0, MILLI, 20 * MILLI]);
        let spurious_poll = self.pick(Lane::Sched, &[0, 0, 0, 12, 40]);
        self.set_policy(Policy { pick, preempt, eager, spurious_poll });
    }

    pub fn draw_net(&self, slow: bool) -> NetCfg {
        NetCfg {
            split: self.pick(Lane::Net, &[0, 0, 1, 2, 3]),
            rx_delay: self.pick(Lane::Net, &[0, 0, 300 * MICRO, 5 * MILLI, if slow { 200 * MILLI } else { 20 * MILLI }]),
            tx_delay: self.pick(Lane::Net, &[0, 0, 300 * MICRO, 5 * MILLI, if slow { 200 * MILLI } else { 20 * MILLI }]),
            window: self.pick(Lane::Net, &[65536, 65536, 1, 7, 40, 300]),
            partial_writes: self.chance(Lane::Net, 1, 3),
            spurious: self.chance(Lane::Net, 1, 4),
            clear_on_drain: self.chance(Lane::Net, 1, 2),
            short_reads: self.chance(Lane::Net, 1, 6),
        }
    }

    pub fn set_dialer(&self, f: impl Fn(&Rc<Kernel>, SocketAddr, u64) -> DialPlan + 'static) {
        self.st.borrow_mut().dialer = Some(Rc::new(f));
    }

    pub fn set_devices(&self, f: impl Fn(&Rc<Kernel>, &str) -> io::Result<(PeerRef, NetCfg, u8)> + 'static) {
        self.st.borrow_mut().devices = Some(Rc::new(f));
    }

    pub fn set_arguments(&self, a: Vec<String>) {
        self.st.borrow_mut().arguments = a;
    }

    // ---- endpoints

    fn new_end(&self) -> u64 {
        let mut st = self.st.borrow_mut();
        st.ends.push(End {
            cfg: NetCfg::default(),
            line_end: b'\r',
            peer: None,
            rx: VecDeque::new(),
            rx_end: None,
            rx_err_given: false,
            rx_ready: false,
            rx_wakers: Vec::new(),
            arrived: 0,
            read: 0,
            sent: 0,
            last_rx_at: 0,
            tx_inflight: 0,
            tx_ready: true,
            tx_wakers: Vec::new(),
            tx_err: None,
            tx_stalled: false,
            tx_held: VecDeque::new(),
            written: 0,
            last_tx_at: 0,
            closed: false,
            dialed: None,
            dial_wakers: Vec::new(),
            arrivals: Vec::new(),
        });
        st.ends.len() as u64 - 1
    }

    pub fn ends(&self) -> u64 {
        self.st.borrow().ends.len() as u64
    }

    pub fn is_closed(&self, ep: u64) -> bool {
        self.st.borrow().ends[ep as usize].closed
    }

    /// The code under test could not write to the endpoint the last time it tried.
    pub fn is_write_blocked(&self, ep: u64) -> bool {
        !self.st.borrow().ends[ep as usize].tx_ready
    }

    pub fn arrived(&self, ep: u64) -> u64 {
        self.st.borrow().ends[ep as usize].arrived
    }

    pub fn read_total(&self, ep: u64) -> u64 {
        self.st.borrow().ends[ep as usize].read
    }

    pub fn sent_total(&self, ep: u64) -> u64 {
        self.st.borrow().ends[ep as usize].sent
    }

    /// Puts bytes on the wire towards the code under test.
    pub fn send_to_sut(&self, ep: u64, bytes: &[u8]) {
        let (cfg, line_end) = {
            let mut st = self.st.borrow_mut();
            let e = &mut st.ends[ep as usize];
            e.sent += bytes.len() as u64;
            (e.cfg.clone(), e.line_end)
        };
        let mut rest = bytes;
        while !rest.is_empty() {
            let n = match cfg.split {
                0 => rest.len(),
                1 => {
                    // 0 on the tape: no cut.
                    let c = self.choose(Lane::Net, rest.len().min(24) as u32) as usize;
                    if c == 0 || self.chance(Lane::Net, 1, 4) {
                        rest.len()
                    } else {
                        c
                    }
                }
                2 => 1,
                _ => match rest.iter().position(|&b| b == line_end) {
                    Some(i) if self.chance(Lane::Net, 1, 2) => i.max(1),
                    Some(i) => (i + 1 + self.choose(Lane::Net, 2) as usize).min(rest.len()),
                    None => rest.len(),
                },
            };
            let (seg, tail) = rest.split_at(n);
            rest = tail;
            let delay = self.delay(cfg.rx_delay);
            let at = {
                let mut st = self.st.borrow_mut();
                let at = (st.now + delay).max(st.ends[ep as usize].last_rx_at);
                st.ends[ep as usize].last_rx_at = at;
                at
            };
            let seg = seg.to_vec();
            self.at(at, move |k| k.arrive(ep, &seg));
        }
    }

    fn delay(&self, max: u64) -> u64 {
        if max == 0 {
            return 0;
        }
        // Mostly short, sometimes the full length.
        match self.choose(Lane::Net, 8) {
            0..=2 => 0,
            3..=6 => max / 16 * self.choose(Lane::Net, 4) as u64,
            _ => max / 4 * self.range(Lane::Net, 1, 4),
        }
    }

    fn arrive(&self, ep: u64, seg: &[u8]) {
        let wakers = {
            let mut st = self.st.borrow_mut();
            let now = st.now;
            let idx = st.hist.len();
            let e = &mut st.ends[ep as usize];
            if e.closed || e.rx_end.is_some() {
                return;
            }
            e.rx.extend(seg);
            e.arrived += seg.len() as u64;
            e.rx_ready = true;
            e.arrivals.push((e.arrived, now, idx));
            std::mem::take(&mut e.rx_wakers)
        };
        let total = self.arrived(ep);
        self.log(Ev::Arrive { ep, n: seg.len(), total });
        wakers.into_iter().for_each(Waker::wake);
    }

    /// Ends the stream towards the code under test (after what is already on the wire unless
    /// `now`), and makes its writes fail if `err` or `full` is set.
    pub fn end_to_sut(&self, ep: u64, err: Option<io::ErrorKind>, full: bool, now: bool) {
        let at = {
            let st = self.st.borrow();
            if now { st.now } else { st.now.max(st.ends[ep as usize].last_rx_at) }
        };
        self.at(at, move |k| {
            let wakers = {
                let mut st = k.st.borrow_mut();
                let e = &mut st.ends[ep as usize];
                if e.closed || e.rx_end.is_some() {
                    return;
                }
                e.rx_end = Some(err);
                e.rx_ready = true;
                let mut w = std::mem::take(&mut e.rx_wakers);
                if err.is_some() || full {
                    e.tx_err = Some(err.unwrap_or(io::ErrorKind::BrokenPipe));
                    e.tx_ready = true;
                    w.append(&mut e.tx_wakers);
                }
                w
            };
            k.log(Ev::End { ep, err: err.map(|e| format!("{:?}", e)) });
            wakers.into_iter().for_each(Waker::wake);
        });
    }

    /// Makes writes of the code under test fail from now on.
    pub fn fail_writes(&self, ep: u64, err: io::ErrorKind) {
        let wakers = {
            let mut st = self.st.borrow_mut();
            let e = &mut st.ends[ep as usize];
            e.tx_err = Some(err);
            e.tx_ready = true;
            std::mem::take(&mut e.tx_wakers)
        };
        wakers.into_iter().for_each(Waker::wake);
    }

    /// Stops or resumes taking bytes from the code under test.
    pub fn stall(&self, ep: u64, stalled: bool) {
        if stalled {
            let mut st = self.st.borrow_mut();
            let e = &mut st.ends[ep as usize];
            // What was written before the code under test closed its end is on its way already.
            e.tx_stalled |= !e.closed;
            return;
        }
        self.after(0, move |k| {
            let held = {
                let mut st = k.st.borrow_mut();
                let Some(e) = st.ends.get_mut(ep as usize) else { return };
                e.tx_stalled = false;
                std::mem::take(&mut e.tx_held)
            };
            for seg in held {
                k.take(ep, seg);
            }
        });
    }

    /// A segment from the code under test reaches the peer.
    fn take(&self, ep: u64, seg: Vec<u8>) {
        let (peer, wakers) = {
            let mut st = self.st.borrow_mut();
            let e = &mut st.ends[ep as usize];
            if e.tx_stalled {
                e.tx_held.push_back(seg);
                return;
            }
            e.tx_inflight -= seg.len();
            e.tx_ready = true;
            (e.peer.clone(), std::mem::take(&mut e.tx_wakers))
        };
        self.log(Ev::GotBytes { ep, bytes: seg.clone() });
        if let Some(p) = peer {
            let k = self.me.upgrade().unwrap();
            p.borrow_mut().on_bytes(&k, ep, &seg);
        }
        wakers.into_iter().for_each(Waker::wake);
    }

    // ---- tasks

    fn add_task(&self, kind: Kind, name: String, fut: Pin<Box<dyn Future<Output = ()>>>) -> u64 {
        let id = self.st.borrow().tasks.len() as u64;
        let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(1 << 20).expect("stack"));
        let waker = Waker::from(Arc::new(TaskWaker { epoch: self.epoch, task: id }));
        let co = Co::with_stack(stack, move |y: &Yielder<Cmd, Out>, cmd: Cmd| {
            let mut fut = Some(fut);
            let mut cmd = cmd;
            loop {
                YIELDER.with(|c| c.set(y as *const _ as *const ()));
                match cmd {
                    Cmd::Drop => {
                        return match catch_unwind(AssertUnwindSafe(|| drop(fut.take()))) {
                            Ok(()) => Fin::Dropped,
                            Err(p) => fin_of(p),
                        }
                    }
                    Cmd::Poll => {
                        let mut cx = Context::from_waker(&waker);
                        let f = fut.as_mut().unwrap();
                        match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx))) {
                            Ok(Poll::Pending) => {}
                            Ok(Poll::Ready(())) => {
                                return match catch_unwind(AssertUnwindSafe(|| drop(fut.take()))) {
                                    Ok(()) => Fin::Done,
                                    Err(p) => fin_of(p),
                                }
                            }
                            Err(p) => {
                                let fin = fin_of(p);
                                let _ = catch_unwind(AssertUnwindSafe(|| drop(fut.take())));
                                return fin;
                            }
                        }
                    }
                }
                cmd = y.suspend(Out::Pending);
            }
        });
        let prio = if self.st.borrow().policy.pick == 2 { self.choose(Lane::Sched, 1000) } else { 0 };
        let mut st = self.st.borrow_mut();
        st.tasks.push(Task { co: Some(co), state: TState::Ready, woken: false, abort: false, kind, name, prio, polls: 0, ops: 0, yielder: std::ptr::null(), reads: Vec::new() });
        st.ready.push(id);
        id
    }

    pub fn client(&self, name: &str, fut: impl Future<Output = ()> + 'static) -> u64 {
        self.add_task(Kind::Client, name.to_string(), Box::pin(fut))
    }

    /// Runs `fut` as a task of the code under test.
    pub fn sut(&self, name: &str, fut: impl Future<Output = ()> + 'static) -> u64 {
        self.add_task(Kind::Sut, name.to_string(), Box::pin(fut))
    }

    pub fn task_done(&self, id: u64) -> bool {
        self.st.borrow().tasks[id as usize].state == TState::Done
    }

    pub fn live(&self, kind: Kind) -> Vec<u64> {
        let st = self.st.borrow();
        (0..st.tasks.len()).filter(|&i| st.tasks[i].kind == kind && st.tasks[i].state != TState::Done).map(|i| i as u64).collect()
    }

    pub fn task_name(&self, id: u64) -> String {
        self.st.borrow().tasks[id as usize].name.clone()
    }

    pub fn abort_task(&self, id: u64) {
        let mut st = self.st.borrow_mut();
        let t = &mut st.tasks[id as usize];
        if t.state != TState::Done {
            t.abort = true;
            if t.state == TState::Idle {
                t.state = TState::Ready;
                st.ready.push(id);
            }
        }
    }

    fn resume(&self, id: u64) {
        let (mut co, cmd) = {
            let mut st = self.st.borrow_mut();
            let t = &mut st.tasks[id as usize];
            let cmd = if t.abort && t.state != TState::Suspended { Cmd::Drop } else { Cmd::Poll };
            if t.state != TState::Suspended {
                t.polls += 1;
                t.ops = 0;
                t.woken = false;
            }
            self.ops_in_poll.set(t.ops);
            YIELDER.with(|c| c.set(t.yielder));
            t.state = TState::Running;
            (t.co.take().unwrap(), cmd)
        };
        self.current.set(id);
        let r = co.resume(cmd);
        let yielder = YIELDER.with(|c| c.replace(std::ptr::null()));
        let fin = match r {
            CoroutineResult::Yield(out) => {
                let mut st = self.st.borrow_mut();
                let t = &mut st.tasks[id as usize];
                t.co = Some(co);
                t.yielder = yielder;
                t.ops = self.ops_in_poll.get();
                let woken = match out {
                    Out::Preempted => {
                        st.tasks[id as usize].state = TState::Suspended;
                        st.ready.push(id);
                        None
                    }
                    Out::Locked => {
                        st.tasks[id as usize].state = TState::Suspended;
                        st.locked.push(id);
                        *st.counts.entry("lock-wait").or_default() += 1;
                        None
                    }
                    Out::Pending => {
                        let t = &mut st.tasks[id as usize];
                        let again = t.woken || t.abort;
                        t.state = if again { TState::Ready } else { TState::Idle };
                        let reads = std::mem::take(&mut t.reads);
                        if again {
                            st.ready.push(id);
                        }
                        Some(reads)
                    }
                };
                drop(st);
                for (ep, total) in woken.into_iter().flatten() {
                    self.log(Ev::Handled { ep, total });
                }
                None
            }
            CoroutineResult::Return(fin) => {
                STACKS.with(|s| {
                    let mut s = s.borrow_mut();
                    if s.len() < 64 {
                        s.push(co.into_stack());
                    }
                });
                let (name, kind, reads) = {
                    let mut st = self.st.borrow_mut();
                    let t = &mut st.tasks[id as usize];
                    t.state = TState::Done;
                    (t.name.clone(), t.kind, std::mem::take(&mut t.reads))
                };
                for (ep, total) in reads {
                    self.log(Ev::Handled { ep, total });
                }
                Some((fin, name, kind))
            }
        };
        if let Some((fin, name, _)) = fin {
            match fin {
                Fin::Done | Fin::Dropped => {
                    self.log(Ev::TaskEnd { task: id, name });
                }
                Fin::Panicked(text) => {
                    self.log(Ev::Panic { task: id, text });
                    self.st.borrow_mut().fatal = true;
                }
                Fin::Spun => {
                    self.log(Ev::Spin { task: id, text: format!("task {} never gives up the processor", name) });
                    self.st.borrow_mut().fatal = true;
                }
            }
        }
        self.current.set(NO_TASK);
    }

    fn drain_wakes(&self) {
        let wakes = WAKES.with(|w| std::mem::take(&mut *w.borrow_mut()));
        let mut st = self.st.borrow_mut();
        for (epoch, id) in wakes {
            if epoch != self.epoch {
                continue;
            }
            let t = &mut st.tasks[id as usize];
            match t.state {
                TState::Idle => {
                    t.state = TState::Ready;
                    st.ready.push(id);
                }
                TState::Running | TState::Suspended => t.woken = true,
                _ => {}
            }
        }
    }

    /// One step of the run; false when nothing is left to do.
    fn step(&self) -> bool {
        self.drain_wakes();
        let (ready, next_event, now, policy) = {
            let st = self.st.borrow();
            (st.ready.len(), st.events.peek().map(|e| e.at), st.now, st.policy.clone())
        };
        if ready == 0 && !self.st.borrow().locked.is_empty() {
            if next_event.is_some() {
                self.run_event();
                self.unlock();
                return true;
            }
            let id = self.st.borrow().locked[0];
            let tries = {
                let mut st = self.st.borrow_mut();
                st.lock_tries += 1;
                st.lock_tries
            };
            if tries < 5 {
                std::thread::sleep(std::time::Duration::from_millis(100));
                self.unlock();
                return true;
            }
            let name = self.st.borrow().tasks[id as usize].name.clone();
            self.log(Ev::Spin { task: id, text: format!("task {} waits for a lock that nobody will release", name) });
            self.st.borrow_mut().fatal = true;
            return false;
        }
        if ready == 0 {
            let quiet = std::mem::take(&mut self.st.borrow_mut().quiet);
            if !quiet.is_empty() {
                let mut st = self.st.borrow_mut();
                st.quiet_at = st.hist.len();
                drop(st);
                quiet.into_iter().for_each(Waker::wake);
                return true;
            }
            if next_event.is_some() {
                self.run_event();
                return true;
            }
            let settled = self.st.borrow_mut().settled.pop_front();
            if let Some((w, look)) = settled {
                look();
                w.wake();
                return true;
            }
            return false;
        }
        if policy.spurious_poll > 0 && self.choose(Lane::Sched, policy.spurious_poll) == policy.spurious_poll - 1 {
            let idle: Vec<u64> = {
                let st = self.st.borrow();
                (0..st.tasks.len()).filter(|&i| st.tasks[i].state == TState::Idle).map(|i| i as u64).collect()
            };
            if !idle.is_empty() {
                let id = idle[self.choose(Lane::Sched, idle.len() as u32) as usize];
                let mut st = self.st.borrow_mut();
                st.tasks[id as usize].state = TState::Ready;
                st.ready.push(id);
                *st.counts.entry("spurious-poll").or_default() += 1;
            }
        }
        let ready: Vec<u64> = self.st.borrow().ready.clone();
        let n = ready.len() as u32;
        let event_ok = next_event.map_or(false, |t| t <= now + policy.eager) && policy.pick != 0;
        let picked = match policy.pick {
            0 => Some(0),
            1 => {
                let c = self.choose(Lane::Sched, n + event_ok as u32);
                if c < n { Some(c) } else { None }
            }
            2 => {
                let st = self.st.borrow();
                let best = (0..n).max_by_key(|&i| (st.tasks[ready[i as usize] as usize].prio, std::cmp::Reverse(i))).unwrap();
                let best_prio = st.tasks[ready[best as usize] as usize].prio;
                let event_prio = st.event_prio;
                drop(st);
                if event_ok && event_prio > best_prio {
                    if self.chance(Lane::Sched, 1, 8) {
                        let p = self.choose(Lane::Sched, 1000);
                        self.st.borrow_mut().event_prio = p;
                    }
                    None
                } else {
                    if self.chance(Lane::Sched, 1, 16) {
                        let p = self.choose(Lane::Sched, 1000);
                        self.st.borrow_mut().tasks[ready[best as usize] as usize].prio = p;
                        if event_ok {
                            let p = self.choose(Lane::Sched, 1000);
                            self.st.borrow_mut().event_prio = p;
                        }
                    }
                    Some(best)
                }
            }
            _ => {
                let last = self.st.borrow().last_task;
                match ready.iter().position(|&t| t == last) {
                    Some(i) if !self.chance(Lane::Sched, 1, 8) => Some(i as u32),
                    _ => {
                        let c = self.choose(Lane::Sched, n + event_ok as u32);
                        if c < n { Some(c) } else { None }
                    }
                }
            }
        };
        match picked {
            Some(i) => {
                let id = {
                    let mut st = self.st.borrow_mut();
                    let id = st.ready.remove(i as usize);
                    st.steps += 1;
                    st.steps_since_event += 1;
                    if st.last_task != id {
                        st.switches += 1;
                        st.last_task = id;
                    }
                    id
                };
                let (stuck, endless) = {
                    let st = self.st.borrow();
                    (st.steps_since_event > STEPS_PER_EVENT, st.steps > STEPS_PER_RUN || st.events_run > EVENTS_PER_RUN)
                };
                if endless {
                    let name = self.st.borrow().tasks[id as usize].name.clone();
                    self.log(Ev::Spin { task: id, text: format!("the run never comes to rest (task {} was running)", name) });
                    self.st.borrow_mut().ready.push(id);
                    self.st.borrow_mut().fatal = true;
                    return false;
                }
                if stuck {
                    let name = self.st.borrow().tasks[id as usize].name.clone();
                    self.log(Ev::Spin { task: id, text: format!("task {} keeps running without anything happening", name) });
                    self.st.borrow_mut().ready.push(id);
                    self.st.borrow_mut().fatal = true;
                    return false;
                }
                self.resume(id);
                if self.st.borrow().locked.last() != Some(&id) {
                    self.st.borrow_mut().lock_tries = 0;
                    self.unlock();
                }
            }
            None => {
                self.count("event-overtakes-task");
                self.run_event()
            }
        }
        !self.st.borrow().fatal
    }

    fn unlock(&self) {
        let mut st = self.st.borrow_mut();
        let locked = std::mem::take(&mut st.locked);
        st.ready.extend(locked);
    }

    fn run_event(&self) {
        let e = {
            let mut st = self.st.borrow_mut();
            let e = st.events.pop().unwrap();
            st.now = st.now.max(e.at);
            st.steps_since_event = 0;
            st.events_run += 1;
            clock::set(Some(st.now));
            e
        };
        (e.action)(&self.me.upgrade().unwrap());
    }

    /// Runs until nothing is left to do, or the code under test panicked or spins.
    pub fn run(&self) {
        while self.step() {}
    }

    pub fn fatal(&self) -> bool {
        self.st.borrow().fatal
    }

    /// Drops every task that is left, with the world still in place.
    pub fn tear_down(&self) {
        self.no_preempt.set(true);
        self.st.borrow_mut().frozen = true;
        let n = self.st.borrow().tasks.len() as u64;
        for round in 0.. {
            let mut held_up = false;
            for id in 0..n {
                loop {
                    let live = {
                        let mut st = self.st.borrow_mut();
                        st.locked.clear();
                        let t = &mut st.tasks[id as usize];
                        t.abort = true;
                        t.state != TState::Done
                    };
                    if !live {
                        break;
                    }
                    self.resume(id);
                    if !self.st.borrow().locked.is_empty() {
                        held_up = true;
                        break;
                    }
                }
            }
            if !held_up {
                break;
            }
            if round > 50 {
                // A real deadlock: what is left can never be unwound.
                self.st.borrow_mut().tasks.iter_mut().for_each(|t| std::mem::forget(t.co.take()));
                break;
            }
        }
        let mut st = self.st.borrow_mut();
        st.events.clear();
        st.timers.clear();
        st.quiet.clear();
        st.settled.clear();
        st.dialer = None;
        st.devices = None;
        let ends = std::mem::take(&mut st.ends);
        drop(st);
        drop(ends);
    }

    pub fn into_parts(self: Rc<Self>) -> Parts {
        clock::set(None);
        let mut st = self.st.borrow_mut();
        Parts {
            hist: std::mem::take(&mut st.hist),
            hash: st.hash.finish(),
            record: self.tape.borrow().record.clone(),
            counts: std::mem::take(&mut st.counts),
            sim_ns: st.now,
            steps: st.steps,
            switches: st.switches,
            preemptions: st.preemptions,
        }
    }

    pub fn hist(&self) -> std::cell::Ref<'_, Vec<Rec>> {
        std::cell::Ref::map(self.st.borrow(), |s| &s.hist)
    }

    /// Simulated nanoseconds of an `Instant`.
    pub fn nanos_of(&self, i: Instant) -> u64 {
        i.saturating_duration_since(self.base).as_nanos() as u64
    }

    // ---- things clients wait for

    pub async fn sleep(self: &Rc<Self>, d: u64) {
        let deadline = self.now() + d;
        let mut armed = false;
        std::future::poll_fn(|cx| {
            if self.now() >= deadline {
                return Poll::Ready(());
            }
            if !armed {
                armed = true;
                let w = cx.waker().clone();
                self.at(deadline, move |_| w.wake());
            }
            Poll::Pending
        })
        .await
    }

    /// Resolves when no task can run, before the next event; the history index of that moment.
    pub async fn quiet(self: &Rc<Self>) -> usize {
        let mut armed = false;
        let flag = Rc::new(Cell::new(false));
        std::future::poll_fn(move |cx| {
            if flag.get() {
                return Poll::Ready(());
            }
            if !armed {
                armed = true;
                let w = flag_waker(cx.waker().clone(), flag.clone());
                self.st.borrow_mut().quiet.push(w);
            }
            Poll::Pending
        })
        .await;
        self.st.borrow().quiet_at
    }

    /// Resolves when nothing at all is left to happen by itself.
    /// `look` is called at that very moment.
    pub async fn settled(self: &Rc<Self>, look: impl FnOnce() + 'static) {
        let mut look = Some(look);
        let flag = Rc::new(Cell::new(false));
        std::future::poll_fn(move |cx| {
            if flag.get() {
                return Poll::Ready(());
            }
            if let Some(look) = look.take() {
                let w = flag_waker(cx.waker().clone(), flag.clone());
                self.st.borrow_mut().settled.push_back((w, Box::new(look)));
            }
            Poll::Pending
        })
        .await
    }
}

/// A waker that also sets a flag. Only ever used on the simulation's own thread.
fn flag_waker(inner: Waker, flag: Rc<Cell<bool>>) -> Waker {
    struct W(Waker, Rc<Cell<bool>>);
    unsafe impl Send for W {}
    unsafe impl Sync for W {}
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.1.set(true);
            self.0.wake_by_ref();
        }
    }
    Waker::from(Arc::new(W(inner, flag)))
}

fn fin_of(p: Box<dyn std::any::Any + Send>) -> Fin {
    if p.is::<SpinAbort>() {
        Fin::Spun
    } else {
        Fin::Panicked(LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
    }
}

pub struct Parts {
    pub hist: Vec<Rec>,
    pub hash: u64,
    pub record: Record,
    pub counts: BTreeMap<&'static str, u64>,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
}

impl World for Kernel {
    fn dial(&self, addr: SocketAddr) -> u64 {
        let ep = self.new_end();
        self.log(Ev::Dial { ep, addr: addr.to_string() });
        let dialer = self.st.borrow().dialer.clone();
        let plan = match dialer {
            Some(d) => d(&self.me.upgrade().unwrap(), addr, ep),
            None => DialPlan { delay: 0, result: Err(io::ErrorKind::ConnectionRefused), line_end: b'\r' },
        };
        self.after(plan.delay, move |k| {
            let (wakers, ok) = {
                let mut st = k.st.borrow_mut();
                let e = &mut st.ends[ep as usize];
                if e.closed {
                    return;
                }
                e.line_end = plan.line_end;
                let ok = plan.result.is_ok();
                match plan.result {
                    Ok((peer, cfg)) => {
                        e.peer = Some(peer);
                        e.cfg = cfg;
                        e.dialed = Some(Ok(()));
                    }
                    Err(kind) => e.dialed = Some(Err(kind)),
                }
                (std::mem::take(&mut e.dial_wakers), ok)
            };
            k.log(Ev::Dialed { ep, ok });
            wakers.into_iter().for_each(Waker::wake);
        });
        ep
    }

    fn poll_dialed(&self, ep: u64, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut st = self.st.borrow_mut();
        let e = &mut st.ends[ep as usize];
        match &e.dialed {
            Some(Ok(())) => Poll::Ready(Ok(())),
            Some(Err(kind)) => Poll::Ready(Err((*kind).into())),
            None => {
                e.dial_wakers = vec![cx.waker().clone()];
                Poll::Pending
            }
        }
    }

    fn open_device(&self, name: &str) -> io::Result<u64> {
        let f = self.st.borrow().devices.clone();
        let (peer, cfg, line_end) = match f {
            Some(f) => f(&self.me.upgrade().unwrap(), name)?,
            None => return Err(io::ErrorKind::NotFound.into()),
        };
        let ep = self.new_end();
        self.log(Ev::Dial { ep, addr: name.to_string() });
        {
            let mut st = self.st.borrow_mut();
            let e = &mut st.ends[ep as usize];
            e.peer = Some(peer.clone());
            e.cfg = cfg;
            e.line_end = line_end;
            e.dialed = Some(Ok(()));
        }
        // The peer learns its endpoint's number.
        peer.borrow_mut().on_bytes(&self.me.upgrade().unwrap(), ep, &[]);
        Ok(ep)
    }

    fn poll_read_ready(&self, ep: u64, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let (ready, spurious) = {
            let st = self.st.borrow();
            let e = &st.ends[ep as usize];
            (e.rx_ready, e.cfg.spurious)
        };
        if ready {
            return Poll::Ready(Ok(()));
        }
        if spurious && self.chance(Lane::Net, 1, 12) {
            self.count("spurious-readiness");
            return Poll::Ready(Ok(()));
        }
        let mut st = self.st.borrow_mut();
        let wakers = &mut st.ends[ep as usize].rx_wakers;
        if !wakers.iter().any(|w| w.will_wake(cx.waker())) {
            wakers.push(cx.waker().clone());
        }
        Poll::Pending
    }

    fn poll_write_ready(&self, ep: u64, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut st = self.st.borrow_mut();
        let e = &mut st.ends[ep as usize];
        if e.tx_ready {
            return Poll::Ready(Ok(()));
        }
        if !e.tx_wakers.iter().any(|w| w.will_wake(cx.waker())) {
            e.tx_wakers.push(cx.waker().clone());
        }
        Poll::Pending
    }

    fn try_read(&self, ep: u64, buf: &mut [u8], peek: bool) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let have = {
            let st = self.st.borrow();
            let e = &st.ends[ep as usize];
            if e.cfg.short_reads { e.rx.len().min(buf.len()) } else { 0 }
        };
        let mut most = buf.len();
        if have > 1 && self.chance(Lane::Net, 1, 4) {
            most = self.range(Lane::Net, 1, (have as u64 - 1).min(2000)) as usize;
            self.fault("short-read");
        }
        let got = {
            let mut st = self.st.borrow_mut();
            let e = &mut st.ends[ep as usize];
            if e.rx.is_empty() {
                match e.rx_end {
                    None => {
                        e.rx_ready = false;
                        return Err(io::ErrorKind::WouldBlock.into());
                    }
                    Some(Some(kind)) if !e.rx_err_given => {
                        e.rx_err_given = true;
                        Err(kind)
                    }
                    Some(_) => Ok((0, e.read)),
                }
            } else {
                let n = e.rx.len().min(buf.len()).min(most);
                if peek {
                    for (b, v) in buf.iter_mut().zip(e.rx.iter()) {
                        *b = *v;
                    }
                    return Ok(n);
                }
                for (b, v) in buf.iter_mut().zip(e.rx.drain(..n)) {
                    *b = v;
                }
                e.read += n as u64;
                if e.rx.is_empty() && e.rx_end.is_none() && e.cfg.clear_on_drain {
                    e.rx_ready = false;
                }
                Ok((n, e.read))
            }
        };
        match got {
            Ok((0, _)) => {
                self.log(Ev::ReadEnd { ep, err: None });
                Ok(0)
            }
            Ok((n, total)) => {
                self.log(Ev::Read { ep, n, total });
                let t = self.current.get();
                if t != NO_TASK {
                    let mut st = self.st.borrow_mut();
                    let reads = &mut st.tasks[t as usize].reads;
                    reads.retain(|r| r.0 != ep);
                    reads.push((ep, total));
                }
                Ok(n)
            }
            Err(kind) => {
                self.log(Ev::ReadEnd { ep, err: Some(format!("{:?}", kind)) });
                Err(kind.into())
            }
        }
    }

    fn try_write(&self, ep: u64, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let len: usize = bufs.iter().map(|b| b.len()).sum();
        let (space, err, partial, tx_delay) = {
            let mut st = self.st.borrow_mut();
            let e = &mut st.ends[ep as usize];
            let space = e.cfg.window.saturating_sub(e.tx_inflight);
            if e.tx_err.is_none() && space == 0 && len > 0 {
                e.tx_ready = false;
                *st.counts.entry("write-back-pressure").or_default() += 1;
                return Err(io::ErrorKind::WouldBlock.into());
            }
            (space, e.tx_err, e.cfg.partial_writes, e.cfg.tx_delay)
        };
        if let Some(kind) = err {
            self.log(Ev::WriteErr { ep, err: format!("{:?}", kind) });
            return Err(kind.into());
        }
        if len == 0 {
            return Ok(0);
        }
        let mut n = len.min(space);
        if partial && n > 1 && self.chance(Lane::Net, 1, 2) {
            n -= self.choose(Lane::Net, n.min(16) as u32) as usize;
        }
        if n < len {
            self.count("partial-write");
        }
        let mut seg = Vec::with_capacity(n);
        for b in bufs {
            let take = b.len().min(n - seg.len());
            seg.extend_from_slice(&b[..take]);
        }
        let delay = self.delay(tx_delay);
        let (at, total) = {
            let mut st = self.st.borrow_mut();
            let now = st.now;
            let e = &mut st.ends[ep as usize];
            e.tx_inflight += n;
            e.written += n as u64;
            let at = (now + delay).max(e.last_tx_at);
            e.last_tx_at = at;
            (at, e.written)
        };
        self.log(Ev::Write { ep, n, total });
        self.at(at, move |k| k.take(ep, seg));
        Ok(n)
    }

    fn shutdown(&self, ep: u64) -> io::Result<()> {
        let mut st = self.st.borrow_mut();
        let e = &mut st.ends[ep as usize];
        if e.tx_err.is_none() {
            e.tx_err = Some(io::ErrorKind::BrokenPipe);
        }
        drop(st);
        self.log(Ev::Shut { ep });
        Ok(())
    }

    fn close(&self, ep: u64) {
        let at = {
            let mut st = self.st.borrow_mut();
            let now = st.now;
            match st.ends.get_mut(ep as usize) {
                Some(e) if !e.closed => {
                    e.closed = true;
                    e.rx.clear();
                    now.max(e.last_tx_at)
                }
                _ => return,
            }
        };
        self.log(Ev::Close { ep });
        self.at(at, move |k| {
            // Whatever a stalled peer has not taken yet reaches it before the end.
            let held = {
                let mut st = k.st.borrow_mut();
                let e = &mut st.ends[ep as usize];
                e.tx_stalled = false;
                std::mem::take(&mut e.tx_held)
            };
            for seg in held {
                k.take(ep, seg);
            }
            let peer = k.st.borrow_mut().ends[ep as usize].peer.take();
            if let Some(p) = peer {
                p.borrow_mut().on_close(k, ep);
            }
        });
    }

    fn spawn(&self, task: Pin<Box<dyn Future<Output = ()> + Send>>) -> u64 {
        let n = self.st.borrow().tasks.len();
        self.add_task(Kind::Sut, format!("spawned-{}", n), task)
    }

    fn abort(&self, task: u64) {
        self.abort_task(task);
    }

    fn poll_timer(&self, timer: &mut u64, deadline: Instant, cx: &mut Context<'_>) -> Poll<()> {
        let at = self.nanos_of(deadline);
        if self.now() >= at {
            self.cancel_timer(*timer);
            return Poll::Ready(());
        }
        if *timer == 0 {
            let id = {
                let mut st = self.st.borrow_mut();
                let id = st.next_timer;
                st.next_timer += 1;
                st.timers.insert(id, cx.waker().clone());
                id
            };
            *timer = id;
            self.count("timer-armed");
            self.at(at, move |k| {
                let w = k.st.borrow_mut().timers.remove(&id);
                if let Some(w) = w {
                    w.wake();
                }
            });
        } else if let Some(w) = self.st.borrow_mut().timers.get_mut(timer) {
            *w = cx.waker().clone();
        }
        Poll::Pending
    }

    fn cancel_timer(&self, timer: u64) {
        self.st.borrow_mut().timers.remove(&timer);
    }

    fn select_start(&self, n: u32) -> u32 {
        self.choose(Lane::Sched, n)
    }

    fn preempt(&self) {
        let y = YIELDER.with(|y| y.get());
        if y.is_null() || std::thread::panicking() {
            return;
        }
        let ops = self.ops_in_poll.get() + 1;
        self.ops_in_poll.set(ops);
        if ops > OPS_PER_POLL {
            resume_unwind(Box::new(SpinAbort));
        }
        if self.no_preempt.get() {
            return;
        }
        let every = self.st.borrow().policy.preempt;
        if every == 0 {
            return;
        }
        if self.st.borrow().ops_left == 0 {
            let c = self.choose(Lane::Sched, every * 2);
            let mut st = self.st.borrow_mut();
            st.ops_armed = c > 0;
            st.ops_left = if c > 0 { c } else { 500 };
        }
        let now = {
            let mut st = self.st.borrow_mut();
            st.ops_left -= 1;
            st.ops_left == 0 && st.ops_armed
        };
        if now {
            self.st.borrow_mut().preemptions += 1;
            // Safety: the pointer was set by the body of the coroutine this runs in.
            let yielder = unsafe { &*(y as *const Yielder<Cmd, Out>) };
            yielder.suspend(Out::Preempted);
        }
    }

    fn print(&self, text: String) {
        self.log(Ev::Print { text });
    }

    fn arguments(&self) -> Vec<String> {
        self.st.borrow().arguments.clone()
    }
}
