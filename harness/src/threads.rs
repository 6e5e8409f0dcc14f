//! A controlled scheduler for two and more threads of the real code.
//!
//! Each execution runs in a forked process of its own, so that all static memory is fresh. Of the
//! threads only the one whose turn it is runs. The turn may pass at *points*:
//!
//! - every heap operation (this is the allocator of the program);
//! - every access to writable static memory of the program: its pages are made inaccessible, each
//!   access faults, is a point, and is then carried out by a single step of the processor;
//! - every wait on a futex, which is how the standard library blocks: it always gives the turn
//!   away, and returns as a spurious wakeup.
//!
//! Threads of safe Rust can influence each other only through static memory and what hangs off it,
//! so that these points are where an interleaving can matter.
//!
//! Nothing in here may touch static memory while an execution is under way: the state of the
//! scheduler lives at a fixed address.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

const STATE_AT: usize = 0x6f00_0000_0000;
/// No more threads than these.
pub const THREADS: usize = 20;
const MAX_PLAN: usize = THREADS + 1;
const MAX_RANGES: usize = 8;
const MAX_STATIC: usize = 128;
const TEXT: usize = 1 << 16;
/// After so many accesses to static memory in one execution they are no points any more.
const MOST_FAULTS: u64 = 20_000;
/// So many accesses by one instruction in a row are a spinning wait.
const SPIN: u32 = 200;
const MOST_YIELDS: u64 = 20_000;

#[repr(C)]
struct State {
    active: AtomicU32,
    free: AtomicU32,
    turn: AtomicI32,
    ready: AtomicU32,
    /// Whether a thread which is done hands over to the one before it.
    backwards: AtomicU32,
    done: [AtomicU32; THREADS],
    points: [AtomicU64; THREADS],
    plan_len: AtomicUsize,
    plan_at: AtomicUsize,
    plan: [(AtomicUsize, AtomicU64); MAX_PLAN],
    n_ranges: AtomicUsize,
    ranges: [(AtomicUsize, AtomicUsize); MAX_RANGES],
    open: AtomicU32,
    faults: AtomicU64,
    yields: AtomicU64,
    last_rip: AtomicUsize,
    last_count: AtomicU32,
    statics: [AtomicUsize; THREADS],
    static_points: [[AtomicU64; MAX_STATIC]; THREADS],
    text_len: [AtomicUsize; THREADS],
    text: [[u8; TEXT]; THREADS],
}

fn state() -> &'static State {
    unsafe { &*(STATE_AT as *const State) }
}

thread_local! {
    /// 0 outside of executions, otherwise the number of the thread plus one.
    static ME: Cell<usize> = const { Cell::new(0) };
    static MAPPED: Cell<bool> = const { Cell::new(false) };
}

unsafe fn raw(number: i64, a: [usize; 6]) -> isize {
    let result: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") number as isize => result,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5],
        out("rcx") _, out("r11") _,
    );
    result
}

const SYS_FUTEX: i64 = 202;
const SYS_MPROTECT: i64 = 10;
const SYS_EXIT_GROUP: i64 = 231;

fn sleep_on(word: *const u32, value: u32) {
    // At most 50 ms, so that a missed wakeup is no harm.
    let timeout = [0i64, 50_000_000];
    unsafe {
        raw(SYS_FUTEX, [word as usize, 0, value as usize, timeout.as_ptr() as usize, 0, 0]);
    }
}

fn wake(word: *const u32) {
    unsafe {
        raw(SYS_FUTEX, [word as usize, 1, i32::MAX as usize, 0, 0, 0]);
    }
}

pub const EXIT_DEADLOCK: i32 = 21;

fn leave(code: i32) -> ! {
    unsafe {
        raw(SYS_EXIT_GROUP, [code as usize, 0, 0, 0, 0, 0]);
    }
    loop {}
}

fn protect(open: bool) {
    let s = state();
    for range in &s.ranges[..s.n_ranges.load(SeqCst)] {
        let (at, len) = (range.0.load(SeqCst), range.1.load(SeqCst));
        unsafe {
            raw(SYS_MPROTECT, [at, len, if open { 3 } else { 0 }, 0, 0, 0]);
        }
    }
}

fn await_turn(me: usize) {
    let s = state();
    let word = s.turn.as_ptr() as *const u32;
    let mut tries = 0;
    while s.free.load(SeqCst) == 0 {
        let turn = s.turn.load(SeqCst);
        if turn == me as i32 {
            return;
        }
        tries += 1;
        if tries < 200 {
            std::hint::spin_loop();
        } else {
            sleep_on(word, turn as u32);
        }
    }
}

fn give(to: usize) {
    let s = state();
    s.turn.store(to as i32, SeqCst);
    wake(s.turn.as_ptr() as *const u32);
}

/// The next thread after this one which is not done.
fn next(me: usize) -> Option<usize> {
    let s = state();
    (1..THREADS)
        .map(|d| (me + d) % THREADS)
        .find(|&t| s.done[t].load(SeqCst) == 0)
}

/// The thread to go on after this one is done.
fn follower(me: usize) -> Option<usize> {
    let s = state();
    if s.backwards.load(SeqCst) == 0 {
        return next(me);
    }
    (1..THREADS)
        .map(|d| (me + THREADS - d) % THREADS)
        .find(|&t| s.done[t].load(SeqCst) == 0)
}

/// Hand the turn to the next thread, unless all others are done, and wait for it to come back.
fn switch(me: usize) -> bool {
    let Some(other) = next(me) else {
        return false;
    };
    give(other);
    await_turn(me);
    true
}

/// Give the turn away because this thread can do nothing useful.
fn give_way(me: usize, counted: bool) {
    let s = state();
    let moved = switch(me);
    if counted {
        let yields = s.yields.fetch_add(1, SeqCst);
        if yields > MOST_YIELDS || (!moved && yields > MOST_YIELDS / 4) {
            leave(EXIT_DEADLOCK);
        }
    }
}

fn point(me: usize, is_static: bool) {
    let s = state();
    let n = s.points[me].fetch_add(1, SeqCst) + 1;
    if is_static {
        let at = s.statics[me].fetch_add(1, SeqCst);
        if at < MAX_STATIC {
            s.static_points[me][at].store(n, SeqCst);
        }
    }
    let at = s.plan_at.load(SeqCst);
    if at < s.plan_len.load(SeqCst)
        && s.plan[at].0.load(SeqCst) == me
        && s.plan[at].1.load(SeqCst) == n
    {
        s.plan_at.store(at + 1, SeqCst);
        switch(me);
    }
}

fn me() -> Option<usize> {
    let me = ME.with(Cell::get);
    if me == 0 {
        return None;
    }
    let s = state();
    (s.active.load(SeqCst) != 0 && s.free.load(SeqCst) == 0).then_some(me - 1)
}

struct Points;

#[global_allocator]
static ALLOCATOR: Points = Points;

unsafe impl GlobalAlloc for Points {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if let Some(me) = me() {
            point(me, false);
        }
        System.alloc(layout)
    }

    unsafe fn dealloc(&self, at: *mut u8, layout: Layout) {
        if let Some(me) = me() {
            point(me, false);
        }
        System.dealloc(at, layout)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if let Some(me) = me() {
            point(me, false);
        }
        System.alloc_zeroed(layout)
    }

    unsafe fn realloc(&self, at: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        if let Some(me) = me() {
            point(me, false);
        }
        System.realloc(at, layout, size)
    }
}

/// Takes the place of the C library's function for the whole program.
///
/// # Safety
/// As the system call.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    number: i64,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> i64 {
    if number == SYS_FUTEX && matches!(b & 127, 0 | 9) {
        if let Some(me) = me() {
            give_way(me, d == 0);
            return 0;
        }
    }
    let result = raw(number, [a, b, c, d, e, f]);
    if (-4095..0).contains(&result) {
        *libc::__errno_location() = -result as i32;
        return -1;
    }
    result as i64
}

const TRAP_FLAG: i64 = 0x100;

unsafe extern "C" fn on_fault(_: i32, info: *mut libc::siginfo_t, context: *mut libc::c_void) {
    let s = state();
    let address = (*info).si_addr() as usize;
    let ours = s.active.load(SeqCst) != 0
        && s.ranges[..s.n_ranges.load(SeqCst)]
            .iter()
            .any(|r| (r.0.load(SeqCst)..r.0.load(SeqCst) + r.1.load(SeqCst)).contains(&address));
    if !ours {
        // A crash of the code under test.
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
        return;
    }
    let context = context.cast::<libc::ucontext_t>();
    let registers = &mut (*context).uc_mcontext.gregs;
    if let Some(me) = me() {
        let rip = registers[libc::REG_RIP as usize] as usize;
        if s.last_rip.swap(rip, SeqCst) == rip {
            if s.last_count.fetch_add(1, SeqCst) >= SPIN {
                s.last_count.store(0, SeqCst);
                give_way(me, true);
            }
        } else {
            s.last_count.store(0, SeqCst);
        }
        point(me, true);
    }
    protect(true);
    if s.faults.fetch_add(1, SeqCst) < MOST_FAULTS {
        registers[libc::REG_EFL as usize] |= TRAP_FLAG;
    }
}

unsafe extern "C" fn on_step(_: i32, _: *mut libc::siginfo_t, context: *mut libc::c_void) {
    let context = context.cast::<libc::ucontext_t>();
    (*context).uc_mcontext.gregs[libc::REG_EFL as usize] &= !TRAP_FLAG;
    let s = state();
    if s.active.load(SeqCst) != 0 && s.faults.load(SeqCst) < MOST_FAULTS {
        protect(false);
    }
}

unsafe extern "C" fn on_alarm(_: i32) {
    // Something waits in a way which this scheduler does not see: let everything run freely.
    let s = state();
    if s.free.swap(1, SeqCst) != 0 {
        leave(EXIT_DEADLOCK);
    }
    s.active.store(0, SeqCst);
    protect(true);
    wake(s.turn.as_ptr() as *const u32);
    libc::alarm(20);
}

unsafe fn handle(signal: i32, handler: usize, flags: i32) {
    let mut action: libc::sigaction = std::mem::zeroed();
    action.sa_sigaction = handler;
    action.sa_flags = flags;
    libc::sigaction(signal, &action, std::ptr::null_mut());
}

extern "C" {
    static __verif_benign_start: u8;
    static __verif_benign_end: u8;
}

/// The writable static memory of this program, except for the library's notes about the processor,
/// which it would look up for every single pixel.
fn writable() -> Vec<(usize, usize)> {
    let exe = std::fs::read_link("/proc/self/exe").expect("exe");
    let exe = exe.to_string_lossy().into_owned();
    let maps = std::fs::read_to_string("/proc/self/maps").expect("maps");
    let mut out: Vec<(usize, usize)> = Vec::new();
    let mut end = 0;
    for line in maps.lines() {
        let mut fields = line.split_whitespace();
        let span = fields.next().unwrap_or("");
        let rights = fields.next().unwrap_or("");
        let name = fields.nth(3).unwrap_or("");
        let Some((from, to)) = span.split_once('-') else {
            continue;
        };
        let parse = |t: &str| usize::from_str_radix(t, 16).unwrap_or(0);
        let (from, to) = (parse(from), parse(to));
        let ours = name == exe || (name.is_empty() && from == end);
        if ours {
            end = to;
        }
        if ours && rights.starts_with("rw") {
            let benign = (
                std::ptr::addr_of!(__verif_benign_start) as usize,
                std::ptr::addr_of!(__verif_benign_end) as usize,
            );
            for (from, to) in [(from, to.min(benign.0)), (from.max(benign.1), to)] {
                if from < to {
                    out.push((from, to - from));
                }
            }
        }
    }
    assert!(!out.is_empty() && out.len() <= MAX_RANGES, "static memory: {maps}");
    out
}

fn map() {
    if MAPPED.with(|m| m.replace(true)) {
        return;
    }
    let at = unsafe {
        libc::mmap(
            STATE_AT as *mut libc::c_void,
            std::mem::size_of::<State>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        )
    };
    assert_eq!(at as usize, STATE_AT, "no memory for the scheduler");
    for (at, (from, len)) in writable().into_iter().enumerate() {
        let s = state();
        s.ranges[at].0.store(from, SeqCst);
        s.ranges[at].1.store(len, SeqCst);
        s.n_ranges.store(at + 1, SeqCst);
    }
}

/// What an execution was.
#[derive(Clone, Debug)]
pub struct Execution {
    /// What each thread computed, as text; None if it did not come to an end.
    pub results: [Option<String>; THREADS],
    pub points: [u64; THREADS],
    /// Which of the points were accesses to static memory (the first of them).
    pub static_points: [Vec<u64>; THREADS],
    pub switches: usize,
    pub status: Status,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Finished,
    /// All threads wait for each other.
    Blocked,
    Crashed(i32),
}

/// Run the bodies under a plan: at the n-th point of a thread the turn passes to the next one.
/// A thread which is done passes the turn for good. Threads without a body are done from
/// the start.
pub fn execute(bodies: &[&(dyn Fn() -> String + Sync)], plan: &[(usize, u64)]) -> Execution {
    execute_in(bodies, plan, false)
}

/// Likewise; a thread which is done may pass the turn to the one before it instead.
pub fn execute_in(
    bodies: &[&(dyn Fn() -> String + Sync)],
    plan: &[(usize, u64)],
    backwards: bool,
) -> Execution {
    map();
    let s = state();
    assert!(plan.len() <= MAX_PLAN && !bodies.is_empty() && bodies.len() <= THREADS);
    for word in [&s.active, &s.free, &s.ready, &s.last_count, &s.open] {
        word.store(0, SeqCst);
    }
    s.backwards.store(u32::from(backwards), SeqCst);
    s.turn.store(-1, SeqCst);
    s.plan_len.store(plan.len(), SeqCst);
    s.plan_at.store(0, SeqCst);
    s.faults.store(0, SeqCst);
    s.yields.store(0, SeqCst);
    s.last_rip.store(0, SeqCst);
    for (slot, (thread, at)) in s.plan.iter().zip(plan) {
        slot.0.store(*thread, SeqCst);
        slot.1.store(*at, SeqCst);
    }
    for t in 0..THREADS {
        s.done[t].store(u32::from(t >= bodies.len()), SeqCst);
        s.points[t].store(0, SeqCst);
        s.statics[t].store(0, SeqCst);
        s.text_len[t].store(usize::MAX, SeqCst);
    }
    let child = unsafe { libc::fork() };
    assert!(child >= 0, "fork failed");
    if child == 0 {
        child_main(bodies);
        leave(0);
    }
    let mut status = 0;
    unsafe {
        libc::waitpid(child, &mut status, 0);
    }
    let results = std::array::from_fn(|t| {
        let len = s.text_len[t].load(SeqCst);
        (len <= TEXT).then(|| {
            let at = std::ptr::addr_of!(s.text[t]).cast::<u8>();
            let bytes = unsafe { std::slice::from_raw_parts(at, len) };
            String::from_utf8_lossy(bytes).into_owned()
        })
    });
    Execution {
        results,
        points: std::array::from_fn(|t| s.points[t].load(SeqCst)),
        static_points: std::array::from_fn(|t| {
            let n = s.statics[t].load(SeqCst).min(MAX_STATIC);
            s.static_points[t][..n].iter().map(|p| p.load(SeqCst)).collect()
        }),
        switches: s.plan_at.load(SeqCst),
        status: if libc::WIFEXITED(status) {
            match libc::WEXITSTATUS(status) {
                0 => Status::Finished,
                EXIT_DEADLOCK => Status::Blocked,
                code => Status::Crashed(code),
            }
        } else {
            Status::Crashed(-libc::WTERMSIG(status))
        },
    }
}

fn child_main(bodies: &[&(dyn Fn() -> String + Sync)]) {
    crate::engine::die_with_parent();
    let s = state();
    unsafe {
        handle(libc::SIGSEGV, on_fault as usize, libc::SA_SIGINFO | libc::SA_NODEFER);
        handle(libc::SIGTRAP, on_step as usize, libc::SA_SIGINFO | libc::SA_NODEFER);
        handle(libc::SIGALRM, on_alarm as usize, libc::SA_NODEFER);
        libc::alarm(10);
    }
    std::thread::scope(|scope| {
        for (t, body) in bodies.iter().enumerate() {
            scope.spawn(move || {
                s.ready.fetch_add(1, SeqCst);
                wake(s.ready.as_ptr());
                await_turn(t);
                ME.with(|m| m.set(t + 1));
                let text = body();
                ME.with(|m| m.set(0));
                let len = text.len().min(TEXT);
                unsafe {
                    let at = std::ptr::addr_of!(s.text[t]).cast::<u8>().cast_mut();
                    std::ptr::copy_nonoverlapping(text.as_ptr(), at, len);
                }
                s.text_len[t].store(len, SeqCst);
                s.done[t].store(1, SeqCst);
                wake(s.done[t].as_ptr());
                give(follower(t).unwrap_or((t + 1) % THREADS));
                // Static memory is accessible again when everything is done.
                while s.active.load(SeqCst) != 0 && s.done.iter().any(|d| d.load(SeqCst) == 0) {
                    // Another thread may be done in the meantime: wakes up by itself.
                    sleep_on(s.turn.as_ptr() as *const u32, s.turn.load(SeqCst) as u32);
                }
            });
        }
        loop {
            let ready = s.ready.load(SeqCst);
            if ready == bodies.len() as u32 {
                break;
            }
            sleep_on(s.ready.as_ptr(), ready);
        }
        s.active.store(1, SeqCst);
        protect(false);
        give(0);
        while s.done.iter().any(|d| d.load(SeqCst) == 0) {
            let turn = s.turn.load(SeqCst);
            sleep_on(s.turn.as_ptr() as *const u32, turn as u32);
        }
        // Whoever is not done by now is only on its way out.
        leave(0);
    });
}
