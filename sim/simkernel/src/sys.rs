//! libc interposition and the fork server.
use crate::kernel::{finish, Fd, Interest, SimFile};
use crate::world::{Ev, Listener};
use crate::{active, k, running};
use libc::*;
use simtypes::*;

unsafe fn set_errno(e: c_int) -> c_int {
    *__errno_location() = e;
    -1
}
unsafe fn ret(r: c_long) -> c_long {
    r // libc::syscall already sets errno
}

pub fn raw_write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { syscall(SYS_write, fd, b.as_ptr(), b.len()) };
        if n <= 0 {
            unsafe {
                if *__errno_location() == EINTR {
                    continue;
                }
            }
            return;
        }
        b = &b[n as usize..];
    }
}

fn raw_read(fd: i32, b: &mut [u8]) -> isize {
    loop {
        let n = unsafe { syscall(SYS_read, fd, b.as_mut_ptr(), b.len()) };
        if n < 0 && unsafe { *__errno_location() } == EINTR {
            continue;
        }
        return n as isize;
    }
}

pub fn fork_server() {
    let mut buf: Vec<u8> = vec![];
    let mut tmp = vec![0u8; 1 << 16];
    loop {
        let nl = loop {
            if let Some(p) = buf.iter().position(|b| *b == b'\n') {
                break p;
            }
            let n = raw_read(0, &mut tmp);
            if n <= 0 {
                unsafe {
                    syscall(SYS_exit_group, 0);
                }
            }
            buf.extend_from_slice(&tmp[..n as usize]);
        };
        let line: Vec<u8> = buf.drain(..=nl).collect();
        let mut p = [0i32; 2];
        unsafe {
            if syscall(SYS_pipe2, p.as_mut_ptr(), 0) < 0 {
                syscall(SYS_exit_group, 3);
            }
            let pid = fork();
            if pid == 0 {
                syscall(SYS_close, p[0]);
                let cpu = rlimit { rlim_cur: 30, rlim_max: 31 };
                setrlimit(RLIMIT_CPU, &cpu);
                let mem = rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
                setrlimit(RLIMIT_AS, &mem);
                k().out_fd = p[1];
                let plan: Plan = match serde_json::from_slice(&line) {
                    Ok(p) => p,
                    Err(e) => {
                        k().hist.panics.push(format!("bad plan: {e}"));
                        finish("badplan");
                    }
                };
                std::panic::set_hook(Box::new(|info| {
                    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                    let msg = info
                        .payload()
                        .downcast_ref::<&str>()
                        .map(|s| s.to_string())
                        .or_else(|| info.payload().downcast_ref::<String>().cloned())
                        .unwrap_or_default();
                    if running() {
                        k().hist.panics.push(format!("{loc}: {msg}"));
                    }
                }));
                k().start(plan);
                return;
            }
            syscall(SYS_close, p[1]);
            let mut out: Vec<u8> = vec![];
            loop {
                let n = raw_read(p[0], &mut tmp);
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&tmp[..n as usize]);
            }
            syscall(SYS_close, p[0]);
            let mut st = 0i32;
            while syscall(SYS_wait4, pid, &mut st as *mut i32, 0, 0) < 0 && *__errno_location() == EINTR {}
            if out.starts_with(b"{\"outcome\":\"exit\"") {
                // ended by itself after writing its history: add the status
                let mut h: History = serde_json::from_slice(&out).unwrap();
                h.outcome = if WIFSIGNALED(st) { format!("crash:signal {}", WTERMSIG(st)) } else { format!("exit:{}", WEXITSTATUS(st)) };
                out = serde_json::to_vec(&h).unwrap();
                out.push(b'\n');
            }
            if out.last() != Some(&b'\n') {
                let why = if WIFSIGNALED(st) {
                    match WTERMSIG(st) {
                        SIGXCPU | SIGKILL => "hang:cpu".to_string(),
                        s => format!("crash:signal {s}"),
                    }
                } else {
                    format!("crash:exit {}", WEXITSTATUS(st))
                };
                let h = History { outcome: why, ..Default::default() };
                out = serde_json::to_vec(&h).unwrap();
                out.push(b'\n');
            }
            raw_write_all(1, &out);
        }
    }
}

fn sim_fd(fd: c_int) -> bool {
    active() && fd >= 1000 && k().fds.contains_key(&fd)
}

// ------------------------------------------------------------------ time

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if running() {
        let n = k().now;
        let base: i64 = if id == CLOCK_REALTIME { 1_700_000_000 } else { 1_000_000 };
        (*ts).tv_sec = base + (n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    if active() {
        // before a plan starts: frozen clock, the same as the start of a run
        (*ts).tv_sec = if id == CLOCK_REALTIME { 1_700_000_000 } else { 1_000_000 };
        (*ts).tv_nsec = 0;
        return 0;
    }
    syscall(SYS_clock_gettime, id, ts) as c_int
}

fn sim_sleep(ns: u64) {
    let k = k();
    k.fault("blocking_sleep");
    k.block_for(ns);
}

/// A sleep that blocks the thread: virtual time goes on, nothing else does.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if running() {
        let t = ((*req).tv_sec as u64).saturating_mul(1_000_000_000) + (*req).tv_nsec as u64;
        if flags & TIMER_ABSTIME != 0 {
            let base: u64 = if id == CLOCK_REALTIME { 1_700_000_000 } else { 1_000_000 };
            sim_sleep(t.saturating_sub(base * 1_000_000_000 + k().now));
        } else {
            sim_sleep(t);
        }
        return 0;
    }
    if syscall(SYS_clock_nanosleep, id, flags, req, rem) == 0 {
        0
    } else {
        *__errno_location()
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if running() {
        sim_sleep(((*req).tv_sec as u64).saturating_mul(1_000_000_000) + (*req).tv_nsec as u64);
        return 0;
    }
    syscall(SYS_nanosleep, req, rem) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    let _ = flags;
    if running() {
        let k = k();
        for i in 0..len {
            *(buf as *mut u8).add(i) = k.rng_sel.u64() as u8;
        }
        return len as ssize_t;
    }
    for i in 0..len {
        *(buf as *mut u8).add(i) = (i as u8).wrapping_mul(37) ^ 0x5a;
    }
    len as ssize_t
}

// --------------------------------------------------------------- sockets

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    if !active() {
        return syscall(SYS_socket, domain, ty, proto) as c_int;
    }
    if let Some(e) = start_fault("socket") {
        return set_errno(e);
    }
    k().alloc_fd(Fd::Sock { port: 0, addr: 0 })
}

/// A call made to set up a listener: whether it fails, according to the plan.
fn start_fault(call: &'static str) -> Option<c_int> {
    let k = k();
    let n = k.start_calls.entry(call).or_insert(0);
    *n += 1;
    let i = *n - 1;
    let e = k.plan.start.as_ref()?.faults.iter().find(|f| f.call == call && f.nth == i)?.errno;
    k.fault(&format!("start_{call}_{e}"));
    Some(e)
}

/// The IPv4 address that a listener is bound to; 0 is any address.
unsafe fn addr_of(addr: *const sockaddr) -> u32 {
    match (*addr).sa_family as c_int {
        AF_INET => u32::from_be((*(addr as *const sockaddr_in)).sin_addr.s_addr),
        _ if (*(addr as *const sockaddr_in6)).sin6_addr.s6_addr == [0; 16] => 0,
        _ => u32::MAX,
    }
}

unsafe fn port_of(addr: *const sockaddr) -> u16 {
    let a = addr as *const sockaddr_in;
    u16::from_be((*a).sin_port)
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    if !sim_fd(fd) {
        return syscall(SYS_bind, fd, addr, len) as c_int;
    }
    let p = port_of(addr);
    if let Some(e) = start_fault("bind") {
        return set_errno(e);
    }
    let k = k();
    if k.plan.start.as_ref().map_or(false, |s| s.used.contains(&p)) {
        k.fault("start_port_used");
        return set_errno(EADDRINUSE);
    }
    if k.listeners.contains_key(&p) {
        return set_errno(EADDRINUSE);
    }
    k.fds.insert(fd, Fd::Sock { port: p, addr: addr_of(addr) });
    0
}

#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if !sim_fd(fd) {
        return syscall(SYS_listen, fd, n) as c_int;
    }
    let (port, addr) = match k().fds.get(&fd) {
        Some(Fd::Sock { port, addr }) => (*port, *addr),
        _ => return set_errno(EINVAL),
    };
    if let Some(e) = start_fault("listen") {
        return set_errno(e);
    }
    if k().listeners.contains_key(&port) {
        return set_errno(EADDRINUSE);
    }
    k().fds.insert(fd, Fd::Listen { port });
    k().listeners.insert(port, Listener { fd, addr, queue: Default::default() });
    0
}

unsafe fn fill_addr(addr: *mut sockaddr, len: *mut socklen_t, port: u16) {
    if addr.is_null() {
        return;
    }
    let mut a: sockaddr_in = std::mem::zeroed();
    a.sin_family = AF_INET as u16;
    a.sin_port = port.to_be();
    a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
    let n = (*len as usize).min(std::mem::size_of::<sockaddr_in>());
    std::ptr::copy_nonoverlapping(&a as *const _ as *const u8, addr as *mut u8, n);
    *len = std::mem::size_of::<sockaddr_in>() as u32;
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t, flags: c_int) -> c_int {
    if !sim_fd(fd) {
        return syscall(SYS_accept4, fd, addr, len, flags) as c_int;
    }
    let k = k();
    k.sock_calls += 1;
    let port = match k.fds.get(&fd) {
        Some(Fd::Listen { port }) => *port,
        _ => return set_errno(EINVAL),
    };
    let now = k.now;
    if k.listeners[&port].queue.is_empty() {
        return set_errno(EAGAIN);
    }
    let faults = k.plan.accept_faults.clone();
    for (i, f) in faults.iter().enumerate() {
        if f.port != port || now < f.at * 1000 {
            continue;
        }
        if f.dur == 0 {
            if k.single_accept_done.insert(i) {
                k.fault(&format!("accept_errno_{}", f.errno));
                if f.errno == ECONNABORTED {
                    let c = k.listeners.get_mut(&port).unwrap().queue.pop_front().unwrap();
                    k.conns[c].h.aborted = true;
                    k.conns[c].peer_closed = true;
                    let t = now + k.conns[c].latency;
                    k.push_ev(t, c as u64, Ev::SrvRst(c));
                }
                return set_errno(f.errno);
            }
        } else if now < (f.at + f.dur) * 1000 {
            k.fault(&format!("accept_errno_{}", f.errno));
            return set_errno(f.errno);
        }
    }
    let c = k.listeners.get_mut(&port).unwrap().queue.pop_front().unwrap();
    let nfd = k.alloc_fd(Fd::Conn(c));
    k.conns[c].fd = nfd;
    k.conns[c].h.accepted_at = Some(now);
    let seq = k.conns.iter().filter(|x| x.h.kind == k.conns[c].h.kind && x.h.accept_seq.is_some()).count() as u64;
    k.conns[c].h.accept_seq = Some(seq);
    fill_addr(addr, len, k.conns[c].client_port);
    nfd
}

#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t) -> c_int {
    accept4(fd, addr, len, 0)
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, l: c_int, n: c_int, v: *const c_void, len: socklen_t) -> c_int {
    if !sim_fd(fd) {
        return syscall(SYS_setsockopt, fd, l, n, v, len) as c_int;
    }
    if matches!(k().fds.get(&fd), Some(Fd::Sock { .. })) {
        if let Some(e) = start_fault("setsockopt") {
            return set_errno(e);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, l: c_int, n: c_int, v: *mut c_void, len: *mut socklen_t) -> c_int {
    if !sim_fd(fd) {
        return syscall(SYS_getsockopt, fd, l, n, v, len) as c_int;
    }
    if *len >= 4 {
        *(v as *mut c_int) = 0;
        *len = 4;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if !sim_fd(fd) {
        return syscall(SYS_getsockname, fd, addr, len) as c_int;
    }
    let port = match k().fds.get(&fd) {
        Some(Fd::Sock { port, .. }) | Some(Fd::Listen { port }) => *port,
        Some(Fd::Conn(c)) => k().plan.port(k().conns[*c].h.kind),
        _ => 0,
    };
    fill_addr(addr, len, port);
    0
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if !sim_fd(fd) {
        return syscall(SYS_getpeername, fd, addr, len) as c_int;
    }
    match k().fds.get(&fd) {
        Some(Fd::Conn(c)) => {
            if k().conns[*c].rx_rst {
                return set_errno(ENOTCONN);
            }
            fill_addr(addr, len, k().conns[*c].client_port);
            0
        }
        _ => set_errno(ENOTCONN),
    }
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !sim_fd(fd) {
        return syscall(SYS_shutdown, fd, how) as c_int;
    }
    let k = k();
    k.sock_calls += 1;
    if let Some(Fd::Conn(c)) = k.fds.get(&fd) {
        let c = *c;
        if k.conns[c].rx_rst {
            return set_errno(ENOTCONN);
        }
        if how != SHUT_RD && k.conns[c].h.srv_fin.is_none() {
            k.conns[c].h.srv_fin = Some(k.now);
            let t = k.now + k.conns[c].latency;
            k.push_ev(t, c as u64, Ev::SrvFin(c));
        }
        return 0;
    }
    set_errno(ENOTCONN)
}

unsafe fn conn_read(c: usize, iov: &[(*mut u8, usize)], peek: bool) -> ssize_t {
    let k = k();
    k.sock_calls += 1;
    let now = k.now;
    let total: usize = iov.iter().map(|x| x.1).sum();
    let conn = &mut k.conns[c];
    let avail = conn.rx_avail();
    if avail == 0 {
        if conn.rx_rst {
            if !conn.rst_reported {
                conn.rst_reported = true;
                return set_errno(ECONNRESET) as ssize_t;
            }
            return 0;
        }
        if conn.rx_fin || total == 0 {
            return 0;
        }
        return set_errno(EAGAIN) as ssize_t;
    }
    let n = avail.min(total);
    let mut off = conn.rx_read;
    let mut left = n;
    for (p, l) in iov {
        let m = left.min(*l);
        std::ptr::copy_nonoverlapping(conn.rx[off..].as_ptr(), *p, m);
        off += m;
        left -= m;
    }
    if !peek {
        k.idle_steps = 0;
        conn.rx_read = off;
        conn.h.rx_read.push(Mark { end: off as u64, t: now, lb: 0 });
    }
    n as ssize_t
}

unsafe fn conn_write(c: usize, iov: &[(*const u8, usize)]) -> ssize_t {
    let k = k();
    k.sock_calls += 1;
    let now = k.now;
    let total: usize = iov.iter().map(|x| x.1).sum();
    let hold: u64 = k.plan.hold_ns();
    let conn = &mut k.conns[c];
    if conn.rx_rst {
        k.fault("write_after_reset");
        let conn = &mut k.conns[c];
        if !conn.rst_reported {
            conn.rst_reported = true;
            return set_errno(ECONNRESET) as ssize_t;
        }
        return set_errno(EPIPE) as ssize_t;
    }
    if conn.h.srv_fin.is_some() {
        return set_errno(EPIPE) as ssize_t;
    }
    if !conn.blocked && conn.blocked_since.is_some() && now > conn.unblocked_at {
        // the backlog left when the peer made room may be late only because of a hold
        if now <= conn.resume_until.saturating_add(hold) {
            if let Some(w) = conn.h.blocked.last_mut() {
                w.1 = now;
            }
            conn.unblocked_at = now;
        } else {
            conn.blocked_since = None;
        }
    }
    let free = conn.tx_free();
    let n = free.min(total);
    if n > 0 {
        k.idle_steps = 0;
        let mut left = n;
        for (p, l) in iov {
            let m = left.min(*l);
            conn.tx.extend_from_slice(std::slice::from_raw_parts(*p, m));
            left -= m;
        }
        let lb = conn.blocked_since.unwrap_or(0);
        let end = conn.tx.len();
        conn.h.tx.push(Mark { end: end as u64, t: now, lb });
        let t = now + conn.latency;
        k.written += n as u64;
        k.push_ev(t, c as u64, Ev::CliRx(c, end));
    }
    let conn = &mut k.conns[c];
    if n < total {
        if conn.blocked_since.is_none() {
            conn.blocked_since = Some(now);
        }
        conn.blocked = true;
        k.fault(if n > 0 { "partial_send" } else { "send_blocked" });
        if n == 0 {
            return set_errno(EAGAIN) as ssize_t;
        }
    }
    n as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    if !sim_fd(fd) {
        return ret(syscall(SYS_recvfrom, fd, buf, len, flags, 0usize, 0usize)) as ssize_t;
    }
    match k().fds.get(&fd) {
        Some(Fd::Conn(c)) => conn_read(*c, &[(buf as *mut u8, len)], flags & MSG_PEEK != 0),
        _ => set_errno(ENOTCONN) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    if !sim_fd(fd) {
        return ret(syscall(SYS_sendto, fd, buf, len, flags, 0usize, 0usize)) as ssize_t;
    }
    match k().fds.get(&fd) {
        Some(Fd::Conn(c)) => conn_write(*c, &[(buf as *const u8, len)]),
        _ => set_errno(ENOTCONN) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    if !sim_fd(fd) {
        return ret(syscall(SYS_read, fd, buf, len)) as ssize_t;
    }
    match k().fds.get_mut(&fd) {
        Some(Fd::Conn(c)) => conn_read(*c, &[(buf as *mut u8, len)], false),
        Some(Fd::Event { count }) => {
            if *count == 0 {
                return set_errno(EAGAIN) as ssize_t;
            }
            let v = *count;
            *count = 0;
            *(buf as *mut u64) = v;
            8
        }
        Some(Fd::Random) => getrandom(buf, len, 0),
        Some(Fd::File(f)) => {
            let f = &mut k().files[*f];
            let n = len.min(f.data.len().saturating_sub(f.pos));
            std::ptr::copy_nonoverlapping(f.data[f.pos..].as_ptr(), buf as *mut u8, n);
            f.pos += n;
            n as ssize_t
        }
        _ => set_errno(EINVAL) as ssize_t,
    }
}

unsafe fn file_write(fi: usize, b: &[u8]) -> ssize_t {
    let k = k();
    k.files[fi].calls += 1;
    let call = k.files[fi].calls;
    let mut n = b.len();
    let faults = k.plan.fs_faults.clone();
    for f in faults.iter().filter(|f| f.file == fi && f.call > 0) {
        match f.kind {
            FsKind::Short { n: m } if f.call == call && m < n => {
                n = m.max(1);
            }
            FsKind::Eintr if f.call == call => {
                k.fault("fs_eintr");
                k.files[fi].h.eintrs += 1;
                return set_errno(EINTR) as ssize_t;
            }
            FsKind::Err { errno, count } if call >= f.call && (count == 0 || call < f.call + count) => {
                k.fault(&format!("fs_write_errno_{errno}"));
                k.files[fi].h.errors += 1;
                return set_errno(errno) as ssize_t;
            }
            _ => (),
        }
    }
    if n == b.len() && n > 1 && k.plan.fs_short_percent > 0 && k.rng_net.chance(k.plan.fs_short_percent) {
        n = 1 + k.rng_net.below(n as u64 - 1) as usize;
    }
    if n < b.len() {
        k.fault("fs_short_write");
        k.files[fi].h.shorts += 1;
    }
    let f = &mut k.files[fi];
    let pos = f.pos;
    if f.data.len() < pos + n {
        f.data.resize(pos + n, 0);
    }
    f.data[pos..pos + n].copy_from_slice(&b[..n]);
    f.pos += n;
    n as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    if running() && (fd == 1 || fd == 2) {
        return len as ssize_t;
    }
    if !sim_fd(fd) {
        return ret(syscall(SYS_write, fd, buf, len)) as ssize_t;
    }
    match k().fds.get_mut(&fd) {
        Some(Fd::Conn(c)) => conn_write(*c, &[(buf as *const u8, len)]),
        Some(Fd::Event { count }) => {
            *count += *(buf as *const u64);
            k().notify_fd(fd);
            8
        }
        Some(Fd::File(f)) => file_write(*f, std::slice::from_raw_parts(buf as *const u8, len)),
        _ => set_errno(EINVAL) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if !sim_fd(fd) {
        return ret(syscall(SYS_readv, fd, iov, n)) as ssize_t;
    }
    let v: Vec<(*mut u8, usize)> =
        std::slice::from_raw_parts(iov, n as usize).iter().map(|i| (i.iov_base as *mut u8, i.iov_len)).collect();
    match k().fds.get(&fd) {
        Some(Fd::Conn(c)) => conn_read(*c, &v, false),
        _ => set_errno(EINVAL) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    let v: Vec<(*const u8, usize)> =
        std::slice::from_raw_parts(iov, n as usize).iter().map(|i| (i.iov_base as *const u8, i.iov_len)).collect();
    if running() && (fd == 1 || fd == 2) {
        return v.iter().map(|x| x.1).sum::<usize>() as ssize_t;
    }
    if !sim_fd(fd) {
        return ret(syscall(SYS_writev, fd, iov, n)) as ssize_t;
    }
    match k().fds.get(&fd) {
        Some(Fd::Conn(c)) => conn_write(*c, &v),
        Some(Fd::File(f)) => {
            let mut all = vec![];
            for (p, l) in v {
                all.extend_from_slice(std::slice::from_raw_parts(p, l));
            }
            file_write(*f, &all)
        }
        _ => set_errno(EINVAL) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !sim_fd(fd) {
        return syscall(SYS_close, fd) as c_int;
    }
    let k = k();
    if k.ended {
        return 0;
    }
    k.epoll.remove(&fd);
    match k.fds.remove(&fd) {
        Some(Fd::Conn(c)) => {
            let now = k.now;
            let unread = k.conns[c].rx_avail() > 0;
            let conn = &mut k.conns[c];
            conn.h.srv_close = Some(now);
            conn.fd = -1;
            let t = now + conn.latency;
            if !conn.rx_rst {
                if unread {
                    k.push_ev(t, c as u64, Ev::SrvRst(c));
                } else if conn.h.srv_fin.is_none() {
                    k.push_ev(t, c as u64, Ev::SrvFin(c));
                }
            }
            if k.conns[c].h.srv_fin.is_none() {
                k.conns[c].h.srv_fin = Some(now);
            }
        }
        Some(Fd::Listen { port }) => {
            if let Some(l) = k.listeners.remove(&port) {
                for c in l.queue {
                    k.conns[c].h.refused = true;
                    k.conns[c].peer_closed = true;
                }
            }
        }
        Some(Fd::File(f)) => {
            k.files[f].h.closed = Some(k.now);
        }
        _ => (),
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if !sim_fd(fd) {
        return syscall(SYS_fcntl, fd, cmd, arg) as c_int;
    }
    match cmd {
        F_DUPFD_CLOEXEC | F_DUPFD => match k().fds.get(&fd) {
            // one epoll instance: clones alias it
            Some(Fd::Epoll) => k().alloc_fd(Fd::Epoll),
            _ => set_errno(EINVAL),
        },
        F_GETFL => O_RDWR | O_NONBLOCK,
        _ => 0,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_void) -> c_int {
    if !sim_fd(fd) {
        return syscall(SYS_ioctl, fd, req, arg) as c_int;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if !active() {
        return syscall(SYS_epoll_create1, flags) as c_int;
    }
    k().alloc_fd(Fd::Epoll)
}

#[no_mangle]
pub unsafe extern "C" fn eventfd(init: c_uint, flags: c_int) -> c_int {
    if !active() {
        return syscall(SYS_eventfd2, init, flags) as c_int;
    }
    k().alloc_fd(Fd::Event { count: init as u64 })
}

#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    if !sim_fd(ep) {
        return syscall(SYS_epoll_ctl, ep, op, fd, ev) as c_int;
    }
    let k = k();
    if k.ended {
        return 0;
    }
    match op {
        EPOLL_CTL_ADD | EPOLL_CTL_MOD => {
            let i = Interest { events: (*ev).events, data: (*ev).u64, pending: true };
            k.epoll.insert(fd, i);
        }
        _ => {
            if k.epoll.remove(&fd).is_none() {
                return set_errno(ENOENT);
            }
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
    if !sim_fd(ep) {
        return syscall(SYS_epoll_pwait, ep, evs, max, timeout, 0usize, 8usize) as c_int;
    }
    let ready = k().wait(max as usize, timeout);
    for (i, (e, d)) in ready.iter().enumerate() {
        (*evs.add(i)).events = *e;
        (*evs.add(i)).u64 = *d;
    }
    ready.len() as c_int
}

// ----------------------------------------------------------------- files

unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if active() {
        let p = std::ffi::CStr::from_ptr(path).to_string_lossy().to_string();
        if p == "/dev/urandom" || p == "/dev/random" {
            return k().alloc_fd(Fd::Random);
        }
        if p.starts_with("/simfs") {
            let k = k();
            let idx = k.files.len();
            let mut h = FileHist { path: p, opened_at: k.now, ..Default::default() };
            let faults = k.plan.fs_faults.clone();
            let mut err = None;
            for f in faults.iter().filter(|f| f.file == idx && f.call == 0) {
                if let FsKind::Err { errno, .. } = f.kind {
                    err = Some(errno);
                }
            }
            // what an earlier run of the server left behind
            let mut data = vec![];
            if k.plan.stale_traces {
                k.fault("stale_trace");
                if flags & O_EXCL != 0 {
                    err = err.or(Some(EEXIST));
                } else if flags & O_TRUNC == 0 {
                    data = (0..3000u32).map(|i| (i * 7) as u8).collect();
                }
            }
            let pos = if flags & O_APPEND != 0 { data.len() } else { 0 };
            h.open_err = err;
            k.files.push(SimFile { data, pos, calls: 0, h });
            if let Some(e) = err {
                k.fault(&format!("fs_open_errno_{e}"));
                return set_errno(e);
            }
            return k.alloc_fd(Fd::File(idx));
        }
    }
    syscall(SYS_openat, AT_FDCWD, path, flags, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(path, flags | O_LARGEFILE, mode)
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !sim_fd(fd) {
        return syscall(SYS_fsync, fd) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if !sim_fd(fd) {
        return syscall(SYS_fdatasync, fd) as c_int;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if !sim_fd(fd) {
        return syscall(SYS_lseek, fd, off, whence);
    }
    if let Some(Fd::File(f)) = k().fds.get(&fd) {
        let f = &mut k().files[*f];
        let base = match whence {
            SEEK_SET => 0,
            SEEK_CUR => f.pos as i64,
            _ => f.data.len() as i64,
        };
        f.pos = (base + off).max(0) as usize;
        return f.pos as i64;
    }
    set_errno(ESPIPE) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}

/// mkdir/stat below /simfs always succeed (directories only).
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if active() && std::ffi::CStr::from_ptr(path).to_string_lossy().starts_with("/simfs") {
        return 0;
    }
    syscall(SYS_mkdir, path, mode) as c_int
}
