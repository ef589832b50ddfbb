//! Simulated processes. Each incarnation of a node is a thread of its own, so everything the
//! library could keep per thread or take from the hash seed starts anew with it; the simulator
//! runs one step on one node at a time and waits for it.

use std::sync::mpsc::{channel, Sender};
use std::thread::JoinHandle;

use crate::seam;

type Job = Box<dyn FnOnce() + Send>;

pub struct Proc {
    tx: Option<Sender<Job>>,
    th: Option<JoinHandle<()>>,
    pub seed: u64,
}

impl Proc {
    pub fn spawn(seed: u64) -> Self {
        let (tx, rx) = channel::<Job>();
        let th = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                seam::set_hash_seed(seed);
                while let Ok(j) = rx.recv() {
                    j();
                }
            })
            .expect("harness: no thread");
        Proc {
            tx: Some(tx),
            th: Some(th),
            seed,
        }
    }
    /// Runs one step of the node; `Err` is the message of the panic it ended in.
    pub fn call<'s, R: Send + 's>(&self, f: impl FnOnce() -> R + Send + 's) -> Result<R, String> {
        let (tx, rx) = channel();
        let job: Box<dyn FnOnce() + Send + 's> = Box::new(move || {
            let r = seam::catching(f);
            let _ = tx.send(r);
        });
        // The step is over before this returns, so what it borrows outlives it.
        let job: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + 's>, Job>(job) };
        self.tx
            .as_ref()
            .expect("harness: dead process")
            .send(job)
            .expect("harness: process is gone");
        rx.recv().expect("harness: process is gone")
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        self.tx = None;
        if let Some(t) = self.th.take() {
            let _ = t.join();
        }
    }
}
