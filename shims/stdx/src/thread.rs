//! Threads with an intent; the intent (an OS scheduling hint upstream) is ignored here.
use std::fmt;
use std::io;
use std::panic::{self, UnwindSafe};
use std::sync::{
    atomic::{AtomicUsize, Ordering},
    Arc,
};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum ThreadIntent {
    Worker,
    LatencySensitive,
}

pub fn spawn<F, T>(_intent: ThreadIntent, name: String, f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new(_intent, name).spawn(f).expect("failed to spawn thread")
}

pub struct Builder {
    inner: std::thread::Builder,
    allow_leak: bool,
}
impl Builder {
    pub fn new(_intent: ThreadIntent, name: impl Into<String>) -> Self {
        Self { inner: std::thread::Builder::new().name(name.into()), allow_leak: false }
    }
    pub fn stack_size(self, size: usize) -> Self {
        Self { inner: self.inner.stack_size(size), ..self }
    }
    pub fn allow_leak(self, allow_leak: bool) -> Self {
        Self { allow_leak, ..self }
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let inner = self.inner.spawn(f)?;
        Ok(JoinHandle { inner: Some(inner), allow_leak: self.allow_leak })
    }
}

pub struct JoinHandle<T = ()> {
    inner: Option<std::thread::JoinHandle<T>>,
    allow_leak: bool,
}
impl<T> JoinHandle<T> {
    pub fn join(mut self) -> T {
        self.inner.take().unwrap().join().unwrap()
    }
}
impl<T> Drop for JoinHandle<T> {
    fn drop(&mut self) {
        if !self.allow_leak {
            if let Some(join_handle) = self.inner.take() {
                let _ = join_handle.join();
            }
        }
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("JoinHandle { .. }")
    }
}

pub struct Pool {
    job_sender: Option<crossbeam_channel::Sender<Job>>,
    handles: Vec<JoinHandle>,
    extant_tasks: Arc<AtomicUsize>,
}
struct Job {
    f: Box<dyn FnOnce() + Send + UnwindSafe + 'static>,
}
impl Pool {
    pub fn new(threads: usize) -> Self {
        const STACK_SIZE: usize = 8 * 1024 * 1024;
        let (job_sender, job_receiver) = crossbeam_channel::unbounded::<Job>();
        let extant_tasks = Arc::new(AtomicUsize::new(0));
        let mut handles = Vec::with_capacity(threads);
        for idx in 0..threads {
            let job_receiver = job_receiver.clone();
            let extant_tasks = Arc::clone(&extant_tasks);
            let handle = Builder::new(ThreadIntent::Worker, format!("Worker{idx}"))
                .stack_size(STACK_SIZE)
                .allow_leak(true)
                .spawn(move || {
                    for job in job_receiver {
                        extant_tasks.fetch_add(1, Ordering::SeqCst);
                        // discard the panic, we should've logged the backtrace already
                        drop(panic::catch_unwind(job.f));
                        extant_tasks.fetch_sub(1, Ordering::SeqCst);
                    }
                })
                .expect("failed to spawn thread");
            handles.push(handle);
        }
        Self { job_sender: Some(job_sender), handles, extant_tasks }
    }
    pub fn spawn<F>(&self, _intent: ThreadIntent, f: F)
    where
        F: FnOnce() + Send + UnwindSafe + 'static,
    {
        self.job_sender.as_ref().unwrap().send(Job { f: Box::new(f) }).unwrap();
    }
    pub fn len(&self) -> usize {
        self.extant_tasks.load(Ordering::SeqCst)
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
/// Upstream detaches the workers; glibc's `pthread_detach` reads the thread's memory after it may have exited
/// (glibc bug 19951), which crashes a process that makes thousands of pools. They are joined here.
impl Drop for Pool {
    fn drop(&mut self) {
        self.job_sender = None;
        let me = std::thread::current().id();
        for mut h in self.handles.drain(..) {
            if let Some(t) = h.inner.take() {
                if t.thread().id() == me {
                    std::mem::forget(t);
                } else {
                    let _ = t.join();
                }
            }
        }
    }
}
