use crate::model;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::thread;

struct Shared<T> {
    out: Mutex<(Option<Result<T, JoinError>>, Option<Waker>, bool)>,
    abort: AtomicBool,
    thread: Mutex<Option<thread::Thread>>,
}
pub struct JoinHandle<T>(Arc<Shared<T>>);
#[derive(Debug)]
pub struct JoinError(());
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        true
    }
    pub fn is_panic(&self) -> bool {
        false
    }
}
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("cancelled")
    }
}
impl std::error::Error for JoinError {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        self.0.abort.store(true, SeqCst);
        if let Some(t) = &*self.0.thread.lock().unwrap() {
            t.unpark();
        }
    }
    pub fn abort_handle(&self) -> AbortHandle
    where
        T: Send + 'static,
    {
        let s = self.0.clone();
        AbortHandle(Arc::new(move || JoinHandle(s.clone()).abort()))
    }
    pub fn is_finished(&self) -> bool {
        self.0.out.lock().unwrap().2
    }
}
#[derive(Clone)]
pub struct AbortHandle(Arc<dyn Fn() + Send + Sync>);
impl AbortHandle {
    pub fn abort(&self) {
        (self.0)()
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut o = self.0.out.lock().unwrap();
        match o.0.take() {
            Some(r) => Poll::Ready(r),
            None => {
                o.1 = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let s = Arc::new(Shared { out: Mutex::new((None, None, false)), abort: AtomicBool::new(false), thread: Mutex::new(None) });
    let t = s.clone();
    let h = thread::spawn(move || {
        let r = model::block_on_unless(f, &t.abort);
        let w = {
            let mut o = t.out.lock().unwrap();
            o.0 = Some(r.ok_or(JoinError(())));
            o.2 = true;
            o.1.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    });
    *s.thread.lock().unwrap() = Some(h.thread().clone());
    model::TASKS.lock().unwrap().push(h);
    JoinHandle(s)
}
pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        if done {
            return Poll::Ready(());
        }
        done = true;
        cx.waker().wake_by_ref();
        nd::yield_now();
        Poll::Pending
    })
    .await
}
