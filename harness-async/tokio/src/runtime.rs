pub use crate::task::JoinHandle;
use std::future::Future;
#[derive(Clone, Debug)]
pub struct Handle(());
#[derive(Debug)]
pub struct TryCurrentError(());
impl Handle {
    pub fn current() -> Handle {
        Handle(())
    }
    pub fn try_current() -> Result<Handle, TryCurrentError> {
        Ok(Handle(()))
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::spawn(f)
    }
}
