//! Environment answers which the harness decides: the keys of hash maps, and the time.

use std::sync::atomic::{AtomicU64, Ordering};

static KEYS: AtomicU64 = AtomicU64::new(0);

/// Choose the answers of `getrandom`, from which each new thread draws the keys of its hash maps.
pub fn set_keys(keys: u64) {
    KEYS.store(keys, Ordering::SeqCst);
}

fn mix(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// Takes the place of the C library's function for the whole program.
#[no_mangle]
pub extern "C" fn getrandom(buffer: *mut u8, len: usize, _flags: u32) -> isize {
    let keys = KEYS.load(Ordering::SeqCst);
    for at in 0..len {
        let word = mix(keys.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(at as u64 / 8 + 1));
        unsafe { buffer.add(at).write((word >> (at % 8 * 8)) as u8) };
    }
    len as isize
}

static CLOCK: AtomicU64 = AtomicU64::new(0);
static TICKS: AtomicU64 = AtomicU64::new(0);

/// What the clock does: the first one is the real clock.
pub const CLOCKS: [&str; 7] = [
    "the real clock",
    "a clock which stands still at zero",
    "a clock which a nanosecond passes on at each look",
    "a clock which a millisecond passes on at each look",
    "a clock which a minute passes on at each look",
    "a clock which stands still, and a year later from the third look on",
    "a clock far in the future, which stands still",
];

pub fn set_clock(kind: u64) {
    CLOCK.store(kind, Ordering::SeqCst);
}

/// Takes the place of the C library's function for the whole program.
///
/// # Safety
/// As that function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, out: *mut libc::timespec) -> i32 {
    let kind = CLOCK.load(Ordering::SeqCst);
    if kind == 0 {
        return libc::syscall(libc::SYS_clock_gettime, id, out) as i32;
    }
    let look = TICKS.fetch_add(1, Ordering::SeqCst);
    let (seconds, nanos) = match kind {
        1 => (0, 0),
        2 => (1000, look % 1_000_000_000),
        3 => (1000 + look / 1000, look % 1000 * 1_000_000),
        4 => (1000 + look * 60, 0),
        5 => (1000 + if look < 2 { 0 } else { 31_536_000 }, 0),
        _ => (1 << 36, 999_999_999),
    };
    (*out).tv_sec = seconds as libc::time_t;
    (*out).tv_nsec = nanos as libc::c_long;
    0
}
