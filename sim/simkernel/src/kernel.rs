use crate::world::*;
use simtypes::*;
use std::collections::{BTreeMap, BTreeSet};

pub const MS: u64 = 1_000_000;

pub enum Pick {
    Main,
    Task(usize),
    /// go on with a preempted poll
    Resume(u64),
    Poll,
    Idle,
}

pub struct Kernel {
    pub running: bool,
    pub out_fd: i32,
    pub now: u64,
    pub plan: Plan,
    /// scheduling choices
    pub rng: Rng,
    /// select!/entropy
    pub rng_sel: Rng,
    /// world choices (delivery batches, ties)
    pub rng_net: Rng,
    /// preemptions, coincidences
    pub rng_pre: Rng,
    pub parks: u64,
    /// the next timer of the server
    pub timer_at: u64,
    pub fds: BTreeMap<i32, Fd>,
    pub next_fd: i32,
    pub epoll: BTreeMap<i32, Interest>,
    pub conns: Vec<Conn>,
    pub listeners: BTreeMap<u16, Listener>,
    /// calls of each kind made to set up listeners
    pub start_calls: BTreeMap<&'static str, u64>,
    /// the history is written, the process is ending
    pub ended: bool,
    pub events: BTreeMap<(u64, u64, u64), Ev>,
    pub ev_seq: u64,
    pub hosts: Vec<HostActor>,
    pub https: Vec<HttpActor>,
    pub files: Vec<SimFile>,
    pub hist: History,
    // scheduler
    pub step: u64,
    /// bytes the server wrote to sockets
    pub written: u64,
    pub instant_steps: u64,
    /// steps since the time advanced or bytes moved
    pub idle_steps: u64,
    pub instant: u64,
    pub since_poll: u64,
    pub prio: BTreeMap<u64, u64>,
    pub held: BTreeMap<u64, u64>,
    pub next_hold: usize,
    pub sched_hash: u64,
    pub choices: u64,
    pub sock_calls: u64,
    pub single_accept_done: BTreeSet<usize>,
}

pub enum Fd {
    Epoll,
    Event { count: u64 },
    Sock { port: u16, addr: u32 },
    Listen { port: u16 },
    Conn(usize),
    File(usize),
    Random,
}

pub struct Interest {
    pub events: u32,
    pub data: u64,
    pub pending: bool,
}

pub struct SimFile {
    pub data: Vec<u8>,
    pub pos: usize,
    pub calls: u64,
    pub h: FileHist,
}

pub const EMPTY_PLAN: &str = r#"{"bin":"pica","pcapng":false,"seed":0,"policy":{"kind":"fifo","io_percent":0,"budget":0,"change_percent":0,"partial":false},"settle_at":0,"end_at":0}"#;

impl Kernel {
    pub fn new() -> Self {
        Kernel {
            running: false,
            out_fd: 1,
            now: 0,
            plan: serde_json::from_str(EMPTY_PLAN).unwrap(),
            rng: Rng::new(0),
            rng_sel: Rng::new(1),
            rng_net: Rng::new(2),
            rng_pre: Rng::new(3),
            parks: 0,
            timer_at: u64::MAX,
            fds: BTreeMap::new(),
            next_fd: 1000,
            epoll: BTreeMap::new(),
            conns: vec![],
            listeners: BTreeMap::new(),
            start_calls: BTreeMap::new(),
            ended: false,
            events: BTreeMap::new(),
            ev_seq: 0,
            hosts: vec![],
            https: vec![],
            files: vec![],
            hist: History::default(),
            step: 0,
            written: 0,
            instant_steps: 0,
            idle_steps: 0,
            instant: 0,
            since_poll: 0,
            prio: BTreeMap::new(),
            held: BTreeMap::new(),
            next_hold: 0,
            sched_hash: 0xcbf29ce484222325,
            choices: 0,
            sock_calls: 0,
            single_accept_done: BTreeSet::new(),
        }
    }

    pub fn start(&mut self, plan: Plan) {
        self.rng = Rng::new(plan.seed ^ 0x1111);
        self.rng_sel = Rng::new(plan.seed ^ 0x2222);
        self.rng_net = Rng::new(plan.seed ^ 0x3333);
        self.rng_pre = Rng::new(plan.seed ^ 0x4444);
        self.plan = plan;
        self.plan.holds.sort_by_key(|h| h.step);
        self.running = true;
        self.now = 0;
        self.setup_world();
    }

    pub fn fault(&mut self, kind: &str) {
        *self.hist.faults.entry(kind.to_string()).or_insert(0) += 1;
    }

    pub fn alloc_fd(&mut self, f: Fd) -> i32 {
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, f);
        fd
    }

    fn mix(&mut self, v: u64) {
        self.sched_hash = (self.sched_hash ^ v).wrapping_mul(0x100000001b3);
    }

    pub fn schedule(&mut self, main: bool, ids: &[u64], suspended: &[u64]) -> Pick {
        self.step += 1;
        if self.now != self.instant {
            self.instant = self.now;
            self.instant_steps = 0;
            self.idle_steps = 0;
        }
        self.instant_steps += 1;
        self.idle_steps += 1;
        // a backlog may take many steps, but then bytes move
        if self.idle_steps > 300_000 || self.instant_steps > 4_000_000 {
            finish("livelock");
        }
        if self.step > 6_000_000 || self.written > 64 << 20 {
            finish("overflow");
        }
        // candidates: Option<index>, id
        let now = self.now;
        if !self.held.is_empty() {
            self.held.retain(|_, t| *t > now);
        }
        let mut cand: Vec<(Option<usize>, u64)> = Vec::with_capacity(ids.len() + 1);
        if main && !self.held.contains_key(&0) {
            cand.push((None, 0));
        }
        for (i, id) in ids.iter().enumerate() {
            if !self.held.contains_key(id) {
                cand.push((Some(i), *id));
            }
        }
        // preempted polls: as likely to be overtaken as to go on
        if !suspended.is_empty() {
            let at = if self.rng_pre.chance(50) { 0 } else { cand.len() };
            for id in suspended {
                if !self.held.contains_key(id) {
                    cand.insert(at.min(cand.len()), (Some(usize::MAX), *id));
                }
            }
        }
        if cand.is_empty() {
            self.since_poll = 0;
            return Pick::Idle;
        }
        let pol = self.plan.policy.clone();
        self.since_poll += 1;
        if self.since_poll > 61 || (self.since_poll > 1 && pol.io_percent > 0 && self.rng.chance(pol.io_percent)) {
            self.since_poll = 0;
            self.mix(u64::MAX);
            return Pick::Poll;
        }
        let n = cand.len();
        let c = match pol.kind {
            PolicyKind::Fifo => 0,
            PolicyKind::Lifo => n - 1,
            PolicyKind::Rand => self.rng.below(n as u64) as usize,
            PolicyKind::Pct => {
                let mut best = 0;
                let mut bp = 0;
                for (j, (_, id)) in cand.iter().enumerate() {
                    let p = match self.prio.get(id) {
                        Some(p) => *p,
                        None => {
                            let p = (self.rng.u64() >> 2) | (1 << 62);
                            self.prio.insert(*id, p);
                            p
                        }
                    };
                    if p >= bp {
                        bp = p;
                        best = j;
                    }
                }
                if self.rng.chance(pol.change_percent) {
                    // demote below everything seen so far
                    let p = self.rng.u64() >> 3;
                    self.prio.insert(cand[best].1, p);
                }
                best
            }
        };
        if n > 1 {
            self.choices += 1;
            self.mix(((n as u64) << 32) | c as u64);
        }
        let (idx, id) = cand[c];
        if self.next_hold < self.plan.holds.len() && self.plan.holds[self.next_hold].step <= self.step {
            let h = self.plan.holds[self.next_hold].clone();
            self.next_hold += 1;
            if now + h.dur * 1000 <= self.plan.settle_at * 1000 {
                self.held.insert(id, now + h.dur * 1000);
                self.fault("task_hold");
                return self.schedule(main, ids, suspended);
            }
        }
        match idx {
            None => Pick::Main,
            Some(usize::MAX) => Pick::Resume(id),
            Some(i) => Pick::Task(i),
        }
    }

    /// epoll_wait emulation.
    pub fn wait(&mut self, max: usize, timeout_ms: i32) -> Vec<(u32, u64)> {
        let deadline = if timeout_ms < 0 {
            u64::MAX
        } else {
            self.now + timeout_ms as u64 * MS
        };
        let end = self.plan.end_at * 1000;
        self.timer_at = deadline;
        loop {
            // deliver what is due
            let mut quota = u64::MAX;
            if self.plan.policy.partial {
                quota = if timeout_ms == 0 {
                    self.rng_net.below(4)
                } else {
                    1 + self.rng_net.below(4)
                };
            }
            loop {
                let key = match self.events.keys().next() {
                    Some(k) if k.0 <= self.now => *k,
                    _ => break,
                };
                if quota == 0 {
                    break;
                }
                quota -= 1;
                let ev = self.events.remove(&key).unwrap();
                self.deliver(ev);
            }
            let ready = self.collect_ready(max);
            if !ready.is_empty() || timeout_ms == 0 {
                return ready;
            }
            let next_ev = self.events.keys().next().map(|k| k.0).unwrap_or(u64::MAX).max(self.now);
            let hold = self.held.values().min().copied().unwrap_or(u64::MAX);
            if next_ev <= self.now {
                continue;
            }
            let next = next_ev.min(deadline).min(hold);
            if next == u64::MAX || next >= end {
                self.now = end.max(self.now);
                self.hist.armed = Some(timeout_ms >= 0);
                finish("done");
            }
            self.now = next;
            if hold <= next {
                return vec![];
            }
            if deadline <= next && (next_ev > next || self.rng_net.chance(50)) {
                return vec![];
            }
        }
    }

    /// The thread blocks: the world goes on without it.
    pub fn block_for(&mut self, ns: u64) {
        let end = self.plan.end_at * 1000;
        let target = self.now.saturating_add(ns);
        loop {
            let key = match self.events.keys().next() {
                Some(k) if k.0 <= target.min(end) => *k,
                _ => break,
            };
            self.now = self.now.max(key.0);
            let ev = self.events.remove(&key).unwrap();
            self.deliver(ev);
        }
        if target >= end {
            self.now = end.max(self.now);
            finish("done");
        }
        self.now = target;
    }

    fn collect_ready(&mut self, max: usize) -> Vec<(u32, u64)> {
        let fds: Vec<i32> = self.epoll.iter().filter(|(_, i)| i.pending).map(|(f, _)| *f).collect();
        let mut out: Vec<(u32, u64)> = vec![];
        for fd in fds {
            if out.len() >= max {
                break;
            }
            let r = self.readiness(fd);
            let i = self.epoll.get_mut(&fd).unwrap();
            i.pending = false;
            let ev = r & (i.events | libc::EPOLLERR as u32 | libc::EPOLLHUP as u32);
            if ev != 0 {
                out.push((ev, i.data));
            }
        }
        // delivery order is a choice
        for j in (1..out.len()).rev() {
            let x = self.rng_net.below(j as u64 + 1) as usize;
            out.swap(j, x);
        }
        out
    }

    pub fn readiness(&self, fd: i32) -> u32 {
        let mut r = 0;
        match self.fds.get(&fd) {
            Some(Fd::Event { count }) => {
                if *count > 0 {
                    r |= libc::EPOLLIN;
                }
                r |= libc::EPOLLOUT;
            }
            Some(Fd::Listen { port }) => {
                if let Some(l) = self.listeners.get(port) {
                    if !l.queue.is_empty() {
                        r |= libc::EPOLLIN;
                    }
                }
            }
            Some(Fd::Conn(c)) => {
                let c = &self.conns[*c];
                if c.rx_avail() > 0 || c.rx_fin || c.rx_rst {
                    r |= libc::EPOLLIN;
                }
                if c.rx_fin || c.rx_rst {
                    r |= libc::EPOLLRDHUP;
                }
                if c.tx_free() > 0 || c.rx_rst {
                    r |= libc::EPOLLOUT;
                }
                if c.rx_rst {
                    r |= libc::EPOLLERR | libc::EPOLLHUP;
                }
                if c.rx_fin && c.h.srv_fin.is_some() {
                    r |= libc::EPOLLHUP;
                }
            }
            _ => (),
        }
        r as u32
    }

    pub fn notify_fd(&mut self, fd: i32) {
        if let Some(i) = self.epoll.get_mut(&fd) {
            i.pending = true;
        }
    }

    pub fn notify_conn(&mut self, c: usize) {
        let fd = self.conns[c].fd;
        if fd >= 0 {
            self.notify_fd(fd);
        }
    }
}

pub fn finish(outcome: &str) -> ! {
    write_history(outcome);
    unsafe {
        libc::syscall(libc::SYS_exit_group, 0);
    }
    loop {}
}

pub fn write_history(outcome: &str) {
    let k = crate::k();
    let mut h = std::mem::take(&mut k.hist);
    h.outcome = outcome.to_string();
    h.t_end = k.now;
    h.steps = k.step;
    h.sched_hash = k.sched_hash;
    h.choices = k.choices;
    h.sock_calls = k.sock_calls;
    for c in std::mem::take(&mut k.conns) {
        h.conns.push(c.into_hist());
    }
    for a in &mut k.https {
        h.http.append(&mut a.reqs);
    }
    for f in &mut k.files {
        let mut x = std::mem::take(&mut f.h);
        x.hex = hex(&f.data);
        h.files.push(x);
    }
    let mut s = serde_json::to_string(&h).unwrap();
    s.push('\n');
    crate::sys::raw_write_all(k.out_fd, s.as_bytes());
}
