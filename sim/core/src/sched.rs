//! The scheduler for code that runs concurrently inside one process. Every task is a thread of
//! its own, but exactly one runs at a time: at each yield point (a transfer on a stream, a call
//! of extension code, the boundary between two operations) it hands the baton back, and the
//! run's tape decides who goes on and with what fault.

use std::{
    cell::RefCell,
    sync::mpsc::{channel, Receiver, Sender},
};

const LONG: std::time::Duration = std::time::Duration::from_secs(3);
const SHORT: std::time::Duration = std::time::Duration::from_millis(300);
/// The exit status of a process whose tasks wait for each other for ever.
pub const DEADLOCK: i32 = 77;

pub enum FromTask {
    /// At a yield point, described by its kind and a size.
    At(&'static str, u64),
    Done,
}

thread_local! {
    static ME: RefCell<Option<(usize, Sender<(usize, FromTask)>, Receiver<u64>)>> = const { RefCell::new(None) };
}

/// Hands the baton back; the answer is what the scheduler decided for this point.
pub fn yield_at(kind: &'static str, size: u64) -> u64 {
    ME.with(|m| {
        let m = m.borrow();
        match &*m {
            None => 0,
            Some((id, tx, rx)) => {
                let _ = tx.send((*id, FromTask::At(kind, size)));
                rx.recv().unwrap_or(0)
            }
        }
    })
}

pub type Task<'s> = Box<dyn FnOnce() + Send + 's>;

/// Runs the tasks to their end. `choose(runnable)` picks the next one; `decide(task, kind, size)`
/// answers the yield point it stood at. `start` runs first on each task's thread.
pub fn run<'s>(
    tasks: Vec<Task<'s>>,
    start: &(dyn Fn(usize) + Sync),
    choose: &mut dyn FnMut(&[usize]) -> usize,
    decide: &mut dyn FnMut(usize, &'static str, u64) -> u64,
) {
    let n = tasks.len();
    let (tx, rx) = channel();
    std::thread::scope(|scope| {
        let mut go = Vec::new();
        for (id, task) in tasks.into_iter().enumerate() {
            let (gtx, grx) = channel();
            let tx = tx.clone();
            go.push(gtx);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(scope, move || {
                    start(id);
                    ME.with(|m| *m.borrow_mut() = Some((id, tx.clone(), grx)));
                    yield_at("start", 0);
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(task));
                    ME.with(|m| *m.borrow_mut() = None);
                    let _ = tx.send((id, FromTask::Done));
                })
                .expect("harness: no thread");
        }
        // Every task reports its start; from then on only one moves at a time.
        let mut at: Vec<Option<(&'static str, u64)>> = vec![None; n];
        let mut live = n;
        let mut stuck = 0usize;
        for _ in 0..n {
            if let Ok((id, FromTask::At(k, s))) = rx.recv() {
                at[id] = Some((k, s));
            }
        }
        while live > 0 {
            let ready: Vec<usize> = (0..n).filter(|i| at[*i].is_some()).collect();
            let wait = if ready.is_empty() {
                LONG
            } else {
                let id = ready[choose(&ready).min(ready.len() - 1)];
                let (k, s) = at[id].take().unwrap_or(("start", 0));
                let d = decide(id, k, s);
                let _ = go[id].send(d);
                if stuck > 0 {
                    SHORT
                } else {
                    LONG
                }
            };
            // A task that does not come back waits for another one (a lock in the code under
            // test): the others go on without it.
            let mut first = true;
            loop {
                let got = rx.recv_timeout(if first { wait } else { std::time::Duration::ZERO });
                match got {
                    Ok((id, FromTask::At(k, s))) => at[id] = Some((k, s)),
                    Ok((_, FromTask::Done)) => live -= 1,
                    Err(_) if first && ready.is_empty() => {
                        // Nobody moves and nobody will.
                        eprintln!("deadlock: {live} tasks wait for each other");
                        std::process::exit(DEADLOCK);
                    }
                    Err(_) => {
                        if first {
                            stuck += 1;
                        }
                        break;
                    }
                }
                first = false;
                if stuck == 0 {
                    break;
                }
            }
        }
    });
}
