//! Preemption of the code under test after any number of machine instructions.
//!
//! The processor is told to trap after each instruction. The handler counts, and once the chosen
//! instruction has been executed it makes another thread do its part, and only then lets the
//! preempted thread go on. There is nothing to be prepared in the code under test.

use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Once, OnceLock};
use std::thread::Thread;
use std::time::{Duration, Instant};

/// How one thread makes another do its next part.
pub struct Hand {
    asked: AtomicU64,
    done: AtomicU64,
    /// The thread that asks.
    asks: Thread,
    follows: OnceLock<Thread>,
}

impl Hand {
    /// To be called on the thread that asks.
    pub fn new() -> Self {
        Hand { asked: AtomicU64::new(0), done: AtomicU64::new(0), asks: std::thread::current(), follows: OnceLock::new() }
    }

    /// Ask for the next part, and wait for it; not longer than some time, if it is given.
    pub fn ask(&self, patience: Option<Duration>) {
        self.wait();
        self.asked.store(self.asked.load(SeqCst) + 1, SeqCst);
        if let Some(thread) = self.follows.get() {
            thread.unpark();
        }
        let Some(patience) = patience else { return self.wait() };
        let started = Instant::now();
        while !self.idle() && started.elapsed() < patience {
            std::thread::park_timeout(patience);
        }
    }

    fn idle(&self) -> bool {
        self.done.load(SeqCst) == self.asked.load(SeqCst)
    }

    /// Wait for what was asked for.
    pub fn wait(&self) {
        while !self.idle() {
            std::thread::park();
        }
    }

    /// On the other thread: do a part when asked for it.
    pub fn follow(&self, part: impl FnOnce()) {
        self.follows.get_or_init(std::thread::current);
        let number = self.done.load(SeqCst) + 1;
        while self.asked.load(SeqCst) < number {
            std::thread::park();
        }
        part();
        self.done.store(number, SeqCst);
        self.asks.unpark();
    }
}

/// How many times the other thread could not do its part right away.
pub static LATE: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static HAND: Cell<*const Hand> = const { Cell::new(std::ptr::null()) };
    static EVERY: Cell<bool> = const { Cell::new(false) };
}

#[cfg(all(target_arch = "x86_64", target_os = "linux", target_env = "gnu"))]
mod machine {
    use super::*;

    const SIGTRAP: i32 = 5;
    const SA_SIGINFO: i32 = 4;
    const TRAP_FLAG: u64 = 0x100;
    /// Where the flags are in the context: after two words, the stack, and 17 registers.
    const FLAGS: usize = 16 + 24 + 17 * 8;

    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }

    extern "C" {
        fn sigaction(signal: i32, action: *const Action, old: *mut Action) -> i32;
    }

    extern "C" fn trap(_: i32, _: *mut u8, context: *mut u8) {
        if ON.get() {
            STEPS.set(STEPS.get() + 1);
            LEFT.set(LEFT.get() - 1);
            if LEFT.get() > 0 {
                return;
            }
            // The other thread may need what the preempted one holds: then the latter goes on.
            let hand = unsafe { &*HAND.get() };
            if hand.idle() {
                hand.ask(Some(Duration::from_millis(2)));
            }
            if !hand.idle() {
                LATE.fetch_add(1, SeqCst);
            }
            if EVERY.get() {
                LEFT.set(1);
                return;
            }
            ON.set(false);
        }
        unsafe { *(context.add(FLAGS) as *mut u64) &= !TRAP_FLAG };
    }

    pub fn install() {
        let action = Action { handler: trap as extern "C" fn(i32, *mut u8, *mut u8) as usize, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
        unsafe { sigaction(SIGTRAP, &action, std::ptr::null_mut()) };
    }

    #[inline(always)]
    pub fn start() {
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    }
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux", target_env = "gnu")))]
mod machine {
    pub fn install() {}
    pub fn start() {}
}

/// Do something, and make another thread do its next part after so many instructions, and, if wanted,
/// after each one from there on.
///
/// The second value says how many instructions there were up to then, the third one whether the
/// other thread was asked at all.
pub fn run<R>(hand: &Hand, after: u64, every: bool, section: impl FnOnce() -> R) -> (R, u64, bool) {
    static INSTALL: Once = Once::new();
    INSTALL.call_once(machine::install);
    let asked = hand.asked.load(SeqCst);
    HAND.set(hand);
    LEFT.set(after);
    STEPS.set(0);
    EVERY.set(every);
    ON.set(true);
    machine::start();
    let result = section();
    ON.set(false);
    (result, STEPS.get(), hand.asked.load(SeqCst) != asked)
}

/// Count the instructions of something.
pub fn measure<R>(section: impl FnOnce() -> R) -> u64 {
    let hand = Hand::new();
    run(&hand, u64::MAX, false, section).1
}
