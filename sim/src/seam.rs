//! Seams that replace the sources of nondeterminism the library can reach: the operating
//! system's randomness (the hash seeds of `HashMap`), and panics.

use std::cell::{Cell, RefCell};

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0x1234_5678) };
    static DRAWS: Cell<u64> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// std asks this symbol for the keys of `RandomState`; it is answered from the simulated node's
/// own seed, so the iteration order of every map is a function of the run's seed.
///
/// # Safety
/// Called by std with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let n = DRAWS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let mut r = simcore::tape::Rng::new(HASH_SEED.with(|c| c.get()).wrapping_mul(31).wrapping_add(n));
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}

pub fn set_hash_seed(seed: u64) {
    HASH_SEED.with(|c| c.set(seed));
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Runs `f`, giving the message of the panic it ended in, if any.
pub fn catching<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}
