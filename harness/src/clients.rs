//! Helpers for simulated clients.

use crate::kernel::Kernel;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// When a client gives up on a call.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum GiveUp {
    Never,
    /// After it has been polled this often.
    Polls(u32),
    /// After this much simulated time.
    After(u64),
}

/// `None` if the future was dropped before it finished.
pub async fn give_up<F: Future>(k: &Rc<Kernel>, fut: F, when: GiveUp) -> Option<F::Output> {
    if when == GiveUp::Never {
        return Some(fut.await);
    }
    let mut fut = Box::pin(fut);
    let mut timer: Option<Pin<Box<dyn Future<Output = ()>>>> = match when {
        GiveUp::After(t) => {
            let k = k.clone();
            Some(Box::pin(async move { k.sleep(t).await }))
        }
        _ => None,
    };
    let mut polls = 0;
    std::future::poll_fn(|cx| {
        if let Poll::Ready(out) = fut.as_mut().poll(cx) {
            return Poll::Ready(Some(out));
        }
        polls += 1;
        if matches!(when, GiveUp::Polls(n) if polls >= n) {
            k.gave_up.set(k.hist_len());
            return Poll::Ready(None);
        }
        if let Some(t) = &mut timer {
            if t.as_mut().poll(cx).is_ready() {
                k.gave_up.set(k.hist_len());
                return Poll::Ready(None);
            }
        }
        Poll::Pending
    })
    .await
}

/// A client task that another one can wait for.
pub struct Join(Rc<(Cell<bool>, RefCell<Vec<Waker>>)>);

pub fn spawn_join(k: &Rc<Kernel>, name: &str, fut: impl Future<Output = ()> + 'static) -> Join {
    let state = Rc::new((Cell::new(false), RefCell::new(Vec::<Waker>::new())));
    let s = state.clone();
    k.client(name, async move {
        fut.await;
        s.0.set(true);
        s.1.borrow_mut().drain(..).for_each(Waker::wake);
    });
    Join(state)
}

impl Join {
    pub async fn wait(self) {
        std::future::poll_fn(|cx| {
            if self.0 .0.get() {
                return Poll::Ready(());
            }
            self.0 .1.borrow_mut().push(cx.waker().clone());
            Poll::Pending
        })
        .await
    }
}

/// Wakes the task it belongs to and remembers that it did.
struct Side {
    due: AtomicBool,
    outer: Mutex<Option<Waker>>,
}

impl Wake for Side {
    fn wake(self: Arc<Self>) {
        self.due.store(true, Ordering::Relaxed);
        let outer = self.outer.lock().unwrap().clone();
        if let Some(w) = outer {
            w.wake();
        }
    }
}

/// Polls both until both are done, each only when it was woken itself, as separate tasks would.
pub async fn both<A: Future<Output = ()>, B: Future<Output = ()>>(a: A, b: B) {
    let mut sides: Vec<(Option<Pin<Box<dyn Future<Output = ()> + '_>>>, Arc<Side>)> = Vec::new();
    let side = || Arc::new(Side { due: AtomicBool::new(true), outer: Mutex::new(None) });
    sides.push((Some(Box::pin(a)), side()));
    sides.push((Some(Box::pin(b)), side()));
    std::future::poll_fn(|cx| {
        for (f, side) in &mut sides {
            *side.outer.lock().unwrap() = Some(cx.waker().clone());
            if f.is_some() && side.due.swap(false, Ordering::Relaxed) {
                let waker = Waker::from(side.clone());
                if f.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker)).is_ready() {
                    *f = None;
                }
            }
        }
        if sides.iter().all(|s| s.0.is_none()) { Poll::Ready(()) } else { Poll::Pending }
    })
    .await
}
