//! Exploration of two-thread interleavings at machine-instruction granularity, on the real code with
//! the real number types: the first thread is single-stepped (trap flag) to the chosen instruction,
//! the other one runs there to its end (or, with a second bound, to its own chosen instruction), then
//! the first one goes on. No privileges needed; x86-64 Linux.
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::SeqCst};

#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
unsafe extern "C" {
    fn sigaction(sig: i32, a: *const Action, old: *mut Action) -> i32;
}
const TF: u64 = 0x100;

/// One controlled thread.
pub struct Ctl {
    /// instruction at which to hand over (counted from 1); u64::MAX: never
    target: AtomicU64,
    count: AtomicU64,
    /// where to hand over to: run by the handler
    turn: AtomicPtr<AtomicUsize>,
    give: AtomicUsize,
    /// set when nobody gave the turn back in time
    pub stuck: AtomicUsize,
}
impl Ctl {
    pub fn new() -> Ctl {
        Ctl {
            target: AtomicU64::new(u64::MAX),
            count: AtomicU64::new(0),
            turn: AtomicPtr::new(std::ptr::null_mut()),
            give: AtomicUsize::new(0),
            stuck: AtomicUsize::new(0),
        }
    }
    /// Instructions executed in the last `stepped`.
    pub fn count(&self) -> u64 {
        self.count.load(SeqCst)
    }
}
impl Default for Ctl {
    fn default() -> Self {
        Self::new()
    }
}

thread_local! {
    static ME: Cell<*const Ctl> = const { Cell::new(std::ptr::null()) };
}

/// Waits until the condition holds; false after about twenty seconds.
pub fn wait(ok: impl Fn() -> bool) -> bool {
    let mut n = 0u64;
    let mut t: Option<std::time::Instant> = None;
    while !ok() {
        n += 1;
        if n < 500 {
            std::hint::spin_loop();
        } else {
            std::thread::yield_now();
            if n % 256 == 0 && t.get_or_insert_with(std::time::Instant::now).elapsed().as_secs() >= 20 {
                return false;
            }
        }
    }
    true
}

extern "C" fn on_trap(_sig: i32, _info: *mut u8, uc: *mut u8) {
    let flags = unsafe { &mut *(uc.add(40 + 17 * 8) as *mut u64) };
    let c = ME.with(|m| m.get());
    if c.is_null() {
        *flags &= !TF;
        return;
    }
    let c = unsafe { &*c };
    let n = c.count.load(SeqCst) + 1;
    c.count.store(n, SeqCst);
    if n >= c.target.load(SeqCst) {
        *flags &= !TF;
        let turn = unsafe { &*c.turn.load(SeqCst) };
        let give = c.give.load(SeqCst);
        turn.store(give, SeqCst);
        if !wait(|| turn.load(SeqCst) != give) {
            c.stuck.store(1, SeqCst);
        }
    }
}

/// Installs the trap handler; false if single-stepping does not work here.
pub fn available() -> bool {
    let a = Action { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
    if unsafe { sigaction(5, &a, std::ptr::null_mut()) } != 0 {
        return false;
    }
    let c = Ctl::new();
    let mut s = 0u64;
    stepped(&c, u64::MAX, &AtomicUsize::new(0), 0, || {
        for i in 0..50 {
            s = std::hint::black_box(s + i);
        }
    });
    c.count.load(SeqCst) > 50
}

/// Runs `f` single-stepped; at instruction `target` stores `give` into `turn` and waits until it changes.
/// Returns whether the instruction was reached.
pub fn stepped<R>(c: &Ctl, target: u64, turn: &AtomicUsize, give: usize, f: impl FnOnce() -> R) -> (R, bool) {
    c.target.store(target, SeqCst);
    c.count.store(0, SeqCst);
    c.turn.store(turn as *const _ as *mut _, SeqCst);
    c.give.store(give, SeqCst);
    ME.with(|m| m.set(c));
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = f();
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    ME.with(|m| m.set(std::ptr::null()));
    (r, c.count.load(SeqCst) >= target)
}
