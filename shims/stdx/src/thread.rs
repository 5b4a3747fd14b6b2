use crossbeam_channel::{Receiver, Sender};
use std::fmt;
use std::marker::PhantomData;
use std::panic::{self, UnwindSafe};
use std::sync::{
    atomic::{AtomicUsize, Ordering},
    Arc,
};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum ThreadIntent {
    Worker,
    LatencySensitive,
}
pub fn spawn<F, T>(intent: ThreadIntent, name: String, f: F) -> JoinHandle<T>
where
    F: (FnOnce() -> T) + Send + 'static,
    T: Send + 'static,
{
    Builder::new(intent, name).spawn(f).expect("failed to spawn thread")
}
pub struct Builder {
    inner: jod::Builder,
    allow_leak: bool,
}
mod jod {
    pub use std::thread::Builder;
}
impl Builder {
    pub fn new(_intent: ThreadIntent, name: impl Into<String>) -> Self {
        Self { inner: jod::Builder::new().name(name.into()), allow_leak: false }
    }
    pub fn stack_size(self, size: usize) -> Self { Self { inner: self.inner.stack_size(size), ..self } }
    pub fn allow_leak(self, allow_leak: bool) -> Self { Self { allow_leak, ..self } }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: (FnOnce() -> T) + Send + 'static,
        T: Send + 'static,
    {
        Ok(JoinHandle { inner: Some(self.inner.spawn(f)?), allow_leak: self.allow_leak })
    }
}
pub struct JoinHandle<T = ()> {
    inner: Option<std::thread::JoinHandle<T>>,
    allow_leak: bool,
}
impl<T> JoinHandle<T> {
    pub fn join(mut self) -> T { self.inner.take().unwrap().join().unwrap_or_else(|e| panic::resume_unwind(e)) }
    pub fn is_finished(&self) -> bool { self.inner.as_ref().is_none_or(|h| h.is_finished()) }
}
impl<T> Drop for JoinHandle<T> {
    fn drop(&mut self) {
        if !self.allow_leak {
            if let Some(j) = self.inner.take() {
                let _ = j.join();
            }
        }
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad("JoinHandle { .. }") }
}

pub struct Pool {
    job_sender: Sender<Job>,
    _handles: Box<[JoinHandle]>,
    extant_tasks: Arc<AtomicUsize>,
    _p: PhantomData<()>,
}
struct Job {
    f: Box<dyn FnOnce() + Send + UnwindSafe + 'static>,
}
impl Pool {
    pub fn new(threads: usize) -> Self {
        let (job_sender, job_receiver) = crossbeam_channel::unbounded();
        let extant_tasks = Arc::new(AtomicUsize::new(0));
        let mut handles = Vec::new();
        for idx in 0..threads {
            let handle = Builder::new(ThreadIntent::Worker, format!("Worker{idx}"))
                .stack_size(16 * 1024 * 1024)
                .allow_leak(true)
                .spawn({
                    let extant = Arc::clone(&extant_tasks);
                    let rx: Receiver<Job> = job_receiver.clone();
                    move || {
                        for job in rx {
                            extant.fetch_add(1, Ordering::SeqCst);
                            // discard the panic, we should've logged the backtrace already
                            drop(panic::catch_unwind(job.f));
                            extant.fetch_sub(1, Ordering::SeqCst);
                        }
                    }
                })
                .expect("failed to spawn thread");
            handles.push(handle);
        }
        Self { _handles: handles.into_boxed_slice(), extant_tasks, job_sender, _p: PhantomData }
    }
    pub fn spawn<F>(&self, _intent: ThreadIntent, f: F)
    where
        F: FnOnce() + Send + UnwindSafe + 'static,
    {
        self.job_sender.send(Job { f: Box::new(f) }).unwrap();
    }
    pub fn len(&self) -> usize { self.extant_tasks.load(Ordering::SeqCst) }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
}
