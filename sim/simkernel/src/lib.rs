//! Deterministic simulation kernel.
//!
//! Linked into the programs under test.  It interposes the libc calls that
//! tokio, mio, hyper and std make (sockets, epoll, eventfd, clocks, files,
//! entropy) and gives the patched tokio its scheduling decisions.  A process
//! is a fork server: it reads one plan per line on stdin, forks, the child
//! executes the program's main future against the simulated world and writes
//! one history line.
#![allow(static_mut_refs)]
#![allow(unknown_lints)]
#![allow(invalid_runtime_symbol_definitions)]
use simtypes::*;

pub mod coro;
mod kernel;
mod sys;
mod world;

pub use kernel::Pick;
use kernel::Kernel;

static mut KERNEL: Option<Box<Kernel>> = None;
static mut ACTIVE: bool = false;

pub(crate) fn k() -> &'static mut Kernel {
    unsafe { KERNEL.as_mut().expect("simkernel not initialised") }
}

/// Called from `Builder::build`.
pub fn init() {
    unsafe {
        if !ACTIVE {
            KERNEL = Some(Box::new(Kernel::new()));
            ACTIVE = true;
        }
    }
}

pub fn active() -> bool {
    unsafe { ACTIVE }
}

pub fn running() -> bool {
    active() && k().running
}

/// Called from `Runtime::block_on`: returns in the child, once per plan.
pub fn block_on_enter() {
    if running() || (active() && k().ended) {
        return;
    }
    sys::fork_server();
}

pub fn main_ended(panicked: bool) {
    let k = k();
    if !panicked && k.plan.start.is_some() {
        // let the process end by itself: its exit status is part of the outcome
        kernel::write_history("exit");
        k.ended = true;
        k.running = false;
        unsafe { libc::alarm(20) };
        return;
    }
    let msg = if panicked {
        format!("panic:{}", k.hist.panics.last().cloned().unwrap_or_default())
    } else {
        "exit".to_string()
    };
    kernel::finish(&msg);
}

pub fn schedule(main: bool, ids: &[u64]) -> Pick {
    let suspended = coro::suspended();
    k().schedule(main && !coro::is_suspended(0), ids, &suspended)
}

pub fn coop_budget() -> u8 {
    if !running() {
        return 0;
    }
    k().plan.policy.budget
}

pub fn rng_seed() -> u64 {
    if !running() {
        return 0x5eed;
    }
    k().rng_sel.u64()
}

pub fn rng_below(n: u32) -> Option<u32> {
    if !running() {
        return None;
    }
    Some(k().rng_sel.below(n as u64) as u32)
}

// ---- services for /verif's own main (sim-lib)

pub fn plan() -> &'static Plan {
    &k().plan
}
pub fn now() -> u64 {
    k().now
}
pub fn record_api(rec: ApiRec) {
    k().hist.api.push(rec);
}
pub fn record_event(kind: &str, handle: u64, mac: &str) {
    let t = k().now;
    k().hist.events.push((t, kind.to_string(), handle, mac.to_string()));
}
/// Handle of the nth device connected so far, the probe of the oracle apart.
pub fn nth_handle(n: u64) -> Option<u64> {
    let k = k();
    let all: Vec<u64> = k
        .hist
        .handles
        .iter()
        .filter(|(c, _)| k.plan.hosts[*c].role != "probe")
        .map(|x| x.1)
        .collect();
    all.get(n as usize).copied()
}
/// Connection record index of the socket accepted last.
pub fn record_handle(port: u16, handle: u64) {
    let k = k();
    if let Some(c) = k.conns.iter().find(|c| c.client_port == port) {
        let idx = c.h.idx;
        k.hist.handles.push((idx, handle));
    }
}
