//! The seeds of hash tables come from here instead of from the system: every thread that has not
//! got its seed yet gets the current one.
use std::sync::atomic::{AtomicU64, Ordering};

static SEED: AtomicU64 = AtomicU64::new(1);

pub fn set(seed: u64) {
    SEED.store(seed, Ordering::SeqCst);
}

/// stands in for the function of the C library
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: libc::c_uint) -> isize {
    let mut x = SEED.load(Ordering::SeqCst).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let b = std::slice::from_raw_parts_mut(buf.cast::<u8>(), len);
    for b in b {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *b = (x >> 32) as u8;
    }
    len as isize
}

/// run `f` in a thread of its own, with this seed
pub fn with<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> std::thread::Result<R> {
    set(seed);
    std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).expect("a thread").join())
}
