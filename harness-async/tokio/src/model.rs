//! Threads that run one future each.
use std::cell::RefCell;
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::thread::{self, Thread};
use std::time::Instant;

struct Unpark(Thread, AtomicBool);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.1.store(true, SeqCst);
        self.0.unpark();
    }
}
thread_local! {
    static TIMERS: RefCell<Vec<(Instant, Waker)>> = const { RefCell::new(Vec::new()) };
}
pub(crate) fn timer(at: Instant, cx: &Context<'_>) {
    TIMERS.with(|t| {
        let mut t = t.borrow_mut();
        if !t.iter().any(|x| x.0 == at && x.1.will_wake(cx.waker())) {
            t.push((at, cx.waker().clone()))
        }
    })
}
/// Wakes what is due; when is the next?
fn due() -> Option<Instant> {
    TIMERS.with(|t| {
        let mut t = t.borrow_mut();
        if t.is_empty() {
            return None;
        }
        let now = Instant::now();
        t.retain(|x| {
            if x.0 <= now {
                x.1.wake_by_ref();
            }
            x.0 > now
        });
        t.iter().map(|x| x.0).min()
    })
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    block_on_unless(f, &AtomicBool::new(false)).unwrap()
}
pub(crate) fn block_on_unless<F: Future>(f: F, abort: &AtomicBool) -> Option<F::Output> {
    let mut f = pin!(f);
    let u = Arc::new(Unpark(thread::current(), AtomicBool::new(false)));
    let w = Waker::from(u.clone());
    loop {
        if abort.load(SeqCst) {
            return None;
        }
        if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            TIMERS.with(|t| t.borrow_mut().clear());
            return Some(r);
        }
        loop {
            let next = due();
            if u.1.swap(false, SeqCst) {
                break;
            }
            match next {
                None => thread::park(),
                Some(t) => thread::park_timeout(t.saturating_duration_since(Instant::now())),
            }
        }
    }
}
pub(crate) static TASKS: Mutex<Vec<thread::JoinHandle<()>>> = Mutex::new(Vec::new());
/// Waits until every task spawned so far, and by those, has ended.
pub fn settle() {
    loop {
        let t = TASKS.lock().unwrap().pop();
        match t {
            None => return,
            Some(t) => drop(t.join()),
        }
    }
}
