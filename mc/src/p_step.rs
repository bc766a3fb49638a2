//! Preemption at every machine instruction: one walk is single-stepped (trap flag); at each of its instructions in the
//! executable's own code the process forks, and in the fork another walk runs to its end on a thread of its own before the
//! first one goes on. The results of both have to be those of walking alone.
//! Runs as a process of its own (`mc step ...`) so that nothing else shares its memory.
use crate::p_iso::{make, Spec};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::*};

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}
static POINTS: AtomicU64 = AtomicU64::new(0);
static TRAPS: AtomicU64 = AtomicU64::new(0);
static CHILD: AtomicBool = AtomicBool::new(false);
static B_DONE: AtomicI32 = AtomicI32::new(-1);
static mut SHARD: (u64, u64) = (0, 1);
static mut ONLY: u64 = u64::MAX;
static mut FAILED: (u64, i32) = (u64::MAX, 0);
static mut FORKS: u64 = 0;
static mut SPEC_B: Spec = (0, 0, 0);
static mut WANT_B: Vec<u8> = vec![];

fn trap_flag(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq")
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq")
        }
    }
}
const REPORTS: usize = 1;

extern "C" fn other(_: *mut libc::c_void) -> *mut libc::c_void {
    let r = catch_unwind(|| unsafe {
        let mut y = make(SPEC_B, REPORTS);
        y.walk();
        #[allow(static_mut_refs)]
        let same = y.bytes() == WANT_B;
        same
    });
    B_DONE.store(match r { Ok(true) => 0, Ok(false) => 2, Err(_) => 3 }, SeqCst);
    std::ptr::null_mut()
}
/// waits for the other walk, at most `ms`
fn await_b(ms: u64) -> bool {
    let t0 = std::time::Instant::now();
    while B_DONE.load(SeqCst) < 0 {
        if t0.elapsed().as_millis() as u64 > ms {
            return false;
        }
        unsafe { libc::usleep(20) };
    }
    true
}
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let ip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        TRAPS.fetch_add(1, Relaxed);
        if ip < &__executable_start as *const u8 as u64 || ip >= &etext as *const u8 as u64 {
            return;
        }
        let n = POINTS.fetch_add(1, Relaxed);
        let here = if ONLY != u64::MAX { n == ONLY } else { n % SHARD.1 == SHARD.0 };
        if !here || FAILED.0 != u64::MAX {
            return;
        }
        FORKS += 1;
        let pid = libc::fork();
        if pid == 0 {
            CHILD.store(true, SeqCst);
            // the other walk was preempted here: go on at full speed afterwards
            uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
            libc::alarm(50);
            let mut t: libc::pthread_t = std::mem::zeroed();
            if libc::pthread_create(&mut t, std::ptr::null(), other, std::ptr::null_mut()) != 0 {
                libc::_exit(9);
            }
            // (it may have to wait for something the preempted walk holds: then both go on)
            await_b(300);
            return;
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if pid < 0 || st != 0 {
            FAILED = (n, if pid < 0 { 9 << 8 } else { st });
        }
    }
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// mc step: reads "k s v k s v shard shards only" and the expected bytes of both walks in hexadecimal from standard input
pub fn main() -> i32 {
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    let w: Vec<u64> = lines[0].split(' ').map(|x| x.parse().unwrap()).collect();
    let a: Spec = (w[0] as usize, w[1] as usize, w[2] as usize);
    let want = unhex(&lines[1]);
    unsafe {
        SPEC_B = (w[3] as usize, w[4] as usize, w[5] as usize);
        WANT_B = unhex(&lines[2]);
        SHARD = (w[6], w[7]);
        ONLY = w[8];
        let mut s: libc::sigaction = std::mem::zeroed();
        s.sa_sigaction = on_trap as *const () as usize;
        s.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &s, std::ptr::null_mut());
    }
    let mut y = make(a, REPORTS);
    let r = catch_unwind(AssertUnwindSafe(|| {
        trap_flag(true);
        y.walk();
        trap_flag(false);
    }));
    trap_flag(false);
    let mine = match r {
        Ok(()) if y.bytes() == want => 0,
        Ok(()) => 1,
        Err(_) => 3,
    };
    if CHILD.load(SeqCst) {
        let theirs = if await_b(40_000) { B_DONE.load(SeqCst) } else { 4 };
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(if mine != 0 { mine } else { theirs }) }
    }
    unsafe {
        let (at, st) = FAILED;
        println!("{} {} {} {mine} {} {st}", POINTS.load(Relaxed), TRAPS.load(Relaxed), { FORKS }, if at == u64::MAX { -1 } else { at as i64 });
    }
    0
}
