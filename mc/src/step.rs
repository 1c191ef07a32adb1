//! Interrupts a computation between any two of its machine instructions, with
//! the trap flag of the processor: the SIGTRAP handler runs something else.
use std::cell::Cell;

#[repr(C)]
struct SigAct {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAct, old: *mut SigAct) -> i32;
}
const SIGTRAP: i32 = 5;
const SA_SIGINFO: i32 = 4;
const TF: usize = 0x100;
/// Offset of the flags register in ucontext_t (Linux).
const EFL: usize = if cfg!(target_arch = "x86_64") { 40 + 17 * 8 } else { 20 + 16 * 4 };

struct Now {
    every: u64,
    rest: u64,
    steps: Cell<u64>,
    during: *const dyn Fn(),
}

#[cfg(target_arch = "x86_64")]
macro_rules! trace {
    ($op:literal, $with:literal) => {
        unsafe { std::arch::asm!("pushfq", concat!($op, " qword ptr [rsp], ", $with), "popfq") }
    };
}
#[cfg(target_arch = "x86")]
macro_rules! trace {
    ($op:literal, $with:literal) => {
        unsafe { std::arch::asm!("pushfd", concat!($op, " dword ptr [esp], ", $with), "popfd") }
    };
}

thread_local! {
    static NOW: Cell<*const Now> = const { Cell::new(std::ptr::null()) };
}

extern "C" fn trap(_: i32, _: *mut u8, ctx: *mut u8) {
    let now = NOW.with(|n| n.get());
    if now.is_null() {
        unsafe { *(ctx.add(EFL) as *mut usize) &= !TF };
        return;
    }
    // The checker's own allocator is not made for being interrupted.
    if crate::alloc::busy() {
        return;
    }
    let now = unsafe { &*now };
    let k = now.steps.get();
    now.steps.set(k + 1);
    if k % now.every == now.rest {
        unsafe { (*now.during)() }
    }
}

/// Runs `f`; after each of its instructions whose number leaves `rest` when
/// divided by `every`, runs `during`. Gives the number of instructions seen
/// (0: the trap flag does not work here).
pub fn interrupted<'a>(f: &mut dyn FnMut(), every: u64, rest: u64, during: &'a (dyn Fn() + 'a)) -> u64 {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let a = SigAct { handler: trap as extern "C" fn(i32, *mut u8, *mut u8) as usize, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
        assert!(unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) } == 0, "sigaction");
    });
    let during: *const (dyn Fn() + 'a) = during;
    let now = Now { every, rest, steps: Cell::new(0), during: unsafe { std::mem::transmute::<*const (dyn Fn() + 'a), *const (dyn Fn() + 'static)>(during) } };
    NOW.with(|n| n.set(&now));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        trace!("or", "0x100");
        f();
        trace!("and", "-257");
    }));
    NOW.with(|n| n.set(std::ptr::null()));
    if let Err(p) = r {
        std::panic::resume_unwind(p)
    }
    now.steps.get()
}
