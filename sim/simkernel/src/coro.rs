//! Preemption: every poll of a task (and of the main future) may run on a stack
//! of its own, so that it can be suspended where a worker thread of a
//! multi-threaded runtime could be descheduled, while other tasks run.
use crate::k;
use libc::*;
use std::any::Any;

const STACK: usize = 1 << 20;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Run {
    Done,
    Suspended,
}

struct Coro {
    id: u64,
    ctx: ucontext_t,
    stack: *mut c_void,
    f: Option<Box<dyn FnOnce()>>,
    done: bool,
    panic: Option<Box<dyn Any + Send>>,
    blocked: usize,
}

static mut SCHED: Option<Box<ucontext_t>> = None;
static mut CUR: *mut Coro = std::ptr::null_mut();
static mut SUSPENDED: Vec<Box<Coro>> = Vec::new();
static mut POOL: Vec<*mut c_void> = Vec::new();

pub fn enabled() -> bool {
    crate::running() && k().plan.policy.preempt > 0
}

extern "C" fn entry() {
    unsafe {
        let c = CUR;
        let f = (*c).f.take().unwrap();
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            (*c).panic = Some(e);
        }
        (*c).done = true;
        setcontext(&**SCHED.as_ref().unwrap());
    }
    unreachable!()
}

fn switch_to(mut c: Box<Coro>) -> Run {
    unsafe {
        if SCHED.is_none() {
            SCHED = Some(Box::new(std::mem::zeroed()));
        }
        let p: *mut Coro = &mut *c;
        CUR = p;
        swapcontext(&mut **SCHED.as_mut().unwrap(), &(*p).ctx);
        CUR = std::ptr::null_mut();
        if c.done {
            POOL.push(c.stack);
            if let Some(e) = c.panic.take() {
                std::panic::resume_unwind(e);
            }
            Run::Done
        } else {
            SUSPENDED.push(c);
            Run::Suspended
        }
    }
}

/// Runs `f` on a stack of its own until it ends or is preempted.
pub fn run(id: u64, f: Box<dyn FnOnce() + '_>) -> Run {
    unsafe {
        let stack = POOL.pop().unwrap_or_else(|| {
            let p = mmap(
                std::ptr::null_mut(),
                STACK,
                PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != MAP_FAILED);
            p
        });
        let mut c = Box::new(Coro {
            id,
            ctx: std::mem::zeroed(),
            stack,
            f: Some(std::mem::transmute::<Box<dyn FnOnce() + '_>, Box<dyn FnOnce() + 'static>>(f)),
            done: false,
            panic: None,
            blocked: 0,
        });
        getcontext(&mut c.ctx);
        c.ctx.uc_stack.ss_sp = stack;
        c.ctx.uc_stack.ss_size = STACK;
        c.ctx.uc_link = std::ptr::null_mut();
        makecontext(&mut c.ctx, entry, 0);
        switch_to(c)
    }
}

/// The suspended polls that can go on.
pub fn suspended() -> Vec<u64> {
    unsafe { SUSPENDED.iter().filter(|c| c.blocked == 0).map(|c| c.id).collect() }
}

pub fn is_suspended(id: u64) -> bool {
    unsafe { SUSPENDED.iter().any(|c| c.id == id) }
}

pub fn resume(id: u64) -> Run {
    unsafe {
        let i = SUSPENDED.iter().position(|c| c.id == id).unwrap();
        switch_to(SUSPENDED.remove(i))
    }
}

unsafe fn suspend() {
    let c = CUR;
    swapcontext(&mut (*c).ctx, &**SCHED.as_ref().unwrap());
}

/// A point where the running task may be preempted.
#[no_mangle]
pub extern "C" fn sim_preempt() {
    unsafe {
        if CUR.is_null() || std::thread::panicking() {
            return;
        }
        let k = k();
        let p = k.plan.policy.preempt;
        if k.rng_pre.chance(p) {
            k.fault("preemption");
            // until everything else at this instant is done
            if k.rng_pre.chance(20) {
                k.held.insert((*CUR).id, k.now + 1);
                k.fault("preempted_until_others_are_done");
            }
            let until = k.now + k.plan.policy.park * 1000;
            if k.parks < simtypes::PARKS
                && k.plan.policy.park > 0
                && until <= k.plan.settle_at * 1000
                && k.rng_pre.chance(2)
            {
                k.parks += 1;
                k.held.insert((*CUR).id, until);
                k.fault("preempted_for_long");
            }
            suspend();
        }
    }
}

/// Waits for a lock; false when the caller is not a task.
#[no_mangle]
pub extern "C" fn sim_block(addr: usize) -> bool {
    unsafe {
        if CUR.is_null() {
            return false;
        }
        (*CUR).blocked = addr;
        suspend();
        true
    }
}

#[no_mangle]
pub extern "C" fn sim_unblock(addr: usize) {
    unsafe {
        for c in SUSPENDED.iter_mut() {
            if c.blocked == addr {
                c.blocked = 0;
            }
        }
    }
}
