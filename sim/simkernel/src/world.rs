//! The simulated network, its clients and their faults.
use crate::kernel::{Kernel, MS};
use simtypes::*;
use std::collections::VecDeque;

pub enum Ev {
    HostStep(usize),
    Syn(usize),
    /// bytes reach the server
    RxArrive(usize, Vec<u8>),
    RxFin(usize),
    RxRst(usize),
    /// server bytes up to this offset reach the client
    CliRx(usize, usize),
    SrvFin(usize),
    SrvRst(usize),
    HttpStep(usize),
    HttpAbort(usize, usize),
    /// stalled http client resumes
    HttpResume(usize),
    HttpStall(usize),
}

pub struct Listener {
    /// bound address; 0 is any
    pub addr: u32,
    pub fd: i32,
    pub queue: VecDeque<usize>,
}

pub struct Conn {
    pub client_port: u16,
    pub fd: i32,
    pub latency: u64,
    pub cap: usize,
    pub rst_discard: bool,
    pub rx: Vec<u8>,
    pub rx_read: usize,
    pub rx_fin: bool,
    pub rx_rst: bool,
    pub rst_reported: bool,
    pub tx: Vec<u8>,
    pub tx_arrived: usize,
    pub tx_consumed: usize,
    pub stalled: bool,
    /// client closed: any data reaching it is answered by RST
    pub client_gone: bool,
    pub rst_sent: bool,
    pub blocked_since: Option<u64>,
    pub blocked: bool,
    pub unblocked_at: u64,
    /// no write happened since the peer made room
    pub resume_until: u64,
    pub last_arrival: u64,
    pub peer_closed: bool,
    pub h: ConnHist,
}

impl Conn {
    pub fn rx_avail(&self) -> usize {
        self.rx.len() - self.rx_read
    }
    pub fn tx_free(&self) -> usize {
        self.cap.saturating_sub(self.tx.len() - self.tx_consumed)
    }
    pub fn into_hist(mut self) -> ConnHist {
        if self.blocked {
            if let Some(b) = self.blocked_since {
                self.h.blocked.push((b, u64::MAX));
            }
        }
        self.h.rx_hex = hex(&self.rx);
        self.h.tx_hex = hex(&self.tx);
        self.h
    }
}

#[derive(Default)]
pub struct Parser {
    buf: Vec<u8>,
    pub answers: u64,
}
impl Parser {
    fn push(&mut self, b: &[u8]) {
        self.buf.extend_from_slice(b);
        loop {
            if self.buf.len() < 4 {
                return;
            }
            let mt = self.buf[0] >> 5;
            let pbf = (self.buf[0] >> 4) & 1;
            let len = if mt == 0 {
                u16::from_le_bytes([self.buf[2], self.buf[3]]) as usize
            } else {
                self.buf[3] as usize
            };
            if self.buf.len() < 4 + len {
                return;
            }
            let gid = self.buf[0] & 15;
            let oid = self.buf[1] & 0x3f;
            let p0 = self.buf.get(4).copied().unwrap_or(0);
            if mt == 2 && pbf == 0 {
                self.answers += 1;
            }
            if mt == 3 && gid == 0 && oid == 1 && len == 1 && p0 == 0xff {
                self.answers += 1;
            }
            if mt == 3 && gid == 2 && (oid == 4 || oid == 5) {
                self.answers += 1;
            }
            self.buf.drain(..4 + len);
        }
    }
}

pub struct HostActor {
    pub plan: HostPlan,
    pub conn: Option<usize>,
    pub step: usize,
    pub parser: Parser,
    pub expected: u64,
    pub last_send: u64,
    pub coalesce: Vec<u8>,
    pub timer: Option<u64>,
    pub deferred: Option<usize>,
    pub closed: bool,
    pub rng: Rng,
}

pub struct HttpActor {
    pub plan: HttpPlan,
    pub conn: Option<usize>,
    pub step: usize,
    /// the requests before this one are answered or given up
    pub done: usize,
    pub reqs: Vec<HttpReq>,
    pub buf_start: usize,
    pub rng: Rng,
    pub timer: Option<u64>,
    pub deferred: Option<usize>,
    pub streaming: bool,
}

pub fn encode_uci(msg: &[u8], frag: &[usize]) -> Vec<u8> {
    if msg.len() < 4 {
        return msg.to_vec();
    }
    let data = msg[0] >> 5 == 0;
    let max = if data { 1024 } else { 255 };
    let payload = &msg[4..];
    let mut out = vec![];
    let mut pos = 0;
    let mut i = 0;
    loop {
        let rest = payload.len() - pos;
        let mut n = rest.min(max);
        if i < frag.len() {
            n = n.min(frag[i]);
        }
        i += 1;
        // a list of sizes that goes on after the payload gives empty fragments
        let last = pos + n == payload.len() && i >= frag.len();
        let b0 = (msg[0] & !0x10) | if last { 0 } else { 0x10 };
        out.push(b0);
        out.push(msg[1]);
        if data {
            out.extend_from_slice(&(n as u16).to_le_bytes());
        } else {
            out.push(msg[2]);
            out.push(n as u8);
        }
        out.extend_from_slice(&payload[pos..pos + n]);
        pos += n;
        if last {
            return out;
        }
    }
}

impl Kernel {
    pub fn setup_world(&mut self) {
        for (i, h) in self.plan.hosts.clone().into_iter().enumerate() {
            let at = h.connect_at * 1000;
            self.hosts.push(HostActor {
                rng: Rng::new(self.plan.seed ^ (0x4000 + i as u64)),
                plan: h,
                conn: None,
                step: 0,
                parser: Parser::default(),
                expected: 0,
                last_send: 0,
                coalesce: vec![],
                timer: None,
                deferred: None,
                closed: false,
            });
            self.push_ev(at, 0x10000 + i as u64, Ev::HostStep(i));
        }
        for (i, h) in self.plan.http.clone().into_iter().enumerate() {
            let at = h.steps.first().map(|s| s.at * 1000).unwrap_or(0);
            if let Some((a, b)) = h.stall {
                self.push_ev(a * 1000, 0x20000 + i as u64, Ev::HttpStall(i));
                self.push_ev(b * 1000, 0x20000 + i as u64, Ev::HttpResume(i));
            }
            self.https.push(HttpActor {
                rng: Rng::new(self.plan.seed ^ (0x5000 + i as u64)),
                plan: h,
                conn: None,
                step: 0,
                done: 0,
                reqs: vec![],
                buf_start: 0,
                timer: None,
                deferred: None,
                streaming: false,
            });
            self.push_ev(at, 0x20000 + i as u64, Ev::HttpStep(i));
        }
    }

    /// Events of one stream keep their order, simultaneous events of
    /// different streams are ordered pseudo-randomly.
    pub fn push_ev(&mut self, t: u64, stream: u64, ev: Ev) {
        let t = t.max(self.now);
        let mut r = Rng::new(self.plan.seed ^ stream.wrapping_mul(0x9E3779B97F4A7C15) ^ t);
        let rank = r.u64();
        self.ev_seq += 1;
        self.events.insert((t, rank, self.ev_seq), ev);
    }

    fn new_conn(&mut self, kind: u8, idx: usize, port: u16, cap: usize, latency: u64, rst_discard: bool) -> usize {
        let c = self.conns.len();
        let client_port = 40000 + c as u16;
        let h = ConnHist { kind, idx, syn_at: self.now, ..Default::default() };
        let _ = port;
        self.conns.push(Conn {
            client_port,
            fd: -1,
            latency,
            cap,
            rst_discard,
            rx: vec![],
            rx_read: 0,
            rx_fin: false,
            rx_rst: false,
            rst_reported: false,
            tx: vec![],
            tx_arrived: 0,
            tx_consumed: 0,
            stalled: false,
            client_gone: false,
            rst_sent: false,
            blocked_since: None,
            blocked: false,
            unblocked_at: 0,
            resume_until: 0,
            last_arrival: self.now + latency,
            peer_closed: false,
            h,
        });
        self.push_ev(self.now + latency, c as u64, Ev::Syn(c));
        c
    }

    /// client -> server bytes, cut as the plan says
    fn client_send(&mut self, c: usize, bytes: &[u8], seg: &Seg, rng: &mut Rng) {
        let mut pieces: Vec<(u64, Vec<u8>)> = vec![];
        match seg {
            Seg::Whole | Seg::Coalesce => pieces.push((0, bytes.to_vec())),
            Seg::Fixed { size, gap } => {
                for p in bytes.chunks((*size).max(1)) {
                    pieces.push((*gap * 1000, p.to_vec()));
                }
            }
            Seg::Random { max, gap, .. } => {
                let mut pos = 0;
                while pos < bytes.len() {
                    let n = (1 + rng.below(*max as u64) as usize).min(bytes.len() - pos);
                    pieces.push((rng.below(gap * 1000 + 1), bytes[pos..pos + n].to_vec()));
                    pos += n;
                }
            }
        }
        let mut t = (self.now + self.conns[c].latency).max(self.conns[c].last_arrival);
        for (g, p) in pieces {
            t += g;
            self.push_ev(t, c as u64, Ev::RxArrive(c, p));
        }
        self.conns[c].last_arrival = t;
    }

    fn client_close(&mut self, c: usize, kind: &CloseKind) {
        let t = (self.now + self.conns[c].latency).max(self.conns[c].last_arrival);
        self.conns[c].last_arrival = t;
        let unread = self.conns[c].tx_consumed < self.conns[c].tx_arrived;
        match kind {
            CloseKind::Half => self.push_ev(t, c as u64, Ev::RxFin(c)),
            CloseKind::Fin if !unread => {
                self.conns[c].client_gone = true;
                self.push_ev(t, c as u64, Ev::RxFin(c))
            }
            _ => {
                self.conns[c].client_gone = true;
                self.conns[c].rst_sent = true;
                self.push_ev(t, c as u64, Ev::RxRst(c))
            }
        }
    }

    pub fn deliver(&mut self, ev: Ev) {
        match ev {
            Ev::HostStep(h) => {
                self.hosts[h].timer = None;
                self.host_advance(h)
            }
            Ev::Syn(c) => {
                let h = &self.conns[c].h;
                let port = self.plan.port(h.kind);
                let remote = match h.kind {
                    0 => self.plan.hosts[h.idx].role == REMOTE,
                    _ => self.plan.http[h.idx].remote,
                };
                let to = if remote { 0xc000_0201 } else { 0x7f00_0001 };
                match self.listeners.get_mut(&port).filter(|l| l.addr == 0 || l.addr == to) {
                    Some(l) => {
                        l.queue.push_back(c);
                        let fd = l.fd;
                        self.notify_fd(fd);
                    }
                    None => {
                        self.conns[c].h.refused = true;
                        self.conns[c].peer_closed = true;
                    }
                }
            }
            Ev::RxArrive(c, b) => {
                let now = self.now;
                let k = &mut self.conns[c];
                if k.h.srv_close.is_some() || k.h.refused || k.h.aborted {
                    // RST back; the client notices through SrvRst
                    if !k.peer_closed && !k.client_gone {
                        let lat = k.latency;
                        self.push_ev(now + lat, c as u64, Ev::SrvRst(c));
                    }
                    return;
                }
                k.rx.extend_from_slice(&b);
                k.h.rx_arrive.push(Mark { end: k.rx.len() as u64, t: now, lb: 0 });
                self.notify_conn(c);
            }
            Ev::RxFin(c) => {
                let now = self.now;
                let k = &mut self.conns[c];
                k.rx_fin = true;
                k.h.fin_arrived = Some(now);
                self.notify_conn(c);
            }
            Ev::RxRst(c) => {
                let now = self.now;
                let k = &mut self.conns[c];
                if k.h.srv_close.is_some() {
                    return;
                }
                k.rx_rst = true;
                k.h.rst_arrived = Some(now);
                if k.rst_discard {
                    k.rx_read = k.rx.len();
                }
                self.unblock(c);
                self.notify_conn(c);
            }
            Ev::CliRx(c, upto) => {
                let k = &mut self.conns[c];
                k.tx_arrived = k.tx_arrived.max(upto);
                if k.client_gone {
                    if !k.rst_sent {
                        k.rst_sent = true;
                        let t = self.now + k.latency;
                        self.push_ev(t, c as u64, Ev::RxRst(c));
                        self.fault("rst_on_data_after_close");
                    }
                    return;
                }
                if !k.stalled {
                    self.client_consume(c);
                }
            }
            Ev::SrvFin(c) | Ev::SrvRst(c) => {
                self.conns[c].peer_closed = true;
                let (kind, idx) = (self.conns[c].h.kind, self.conns[c].h.idx);
                if kind == 1 {
                    self.http_advance(idx, Some(c));
                }
            }
            Ev::HttpStep(i) => {
                self.https[i].timer = None;
                self.http_advance(i, None)
            }
            Ev::HttpAbort(i, req) => {
                let a = &mut self.https[i];
                if a.done == req && a.reqs.len() == req + 1 {
                    let kind = match a.plan.steps[a.reqs[req].step].abort {
                        HttpAbort::Fin { .. } => CloseKind::Fin,
                        _ => CloseKind::Rst,
                    };
                    a.reqs[req].aborted_at = Some(self.now);
                    a.done = a.reqs.len();
                    a.streaming = false;
                    let c = a.conn.take();
                    if let Some(c) = c {
                        self.fault("http_abort");
                        self.client_close(c, &kind);
                    }
                    self.http_advance(i, None);
                }
            }
            Ev::HttpStall(i) => {
                if let Some(c) = self.https[i].conn {
                    self.conns[c].stalled = true;
                    self.fault("http_stall");
                }
            }
            Ev::HttpResume(i) => {
                if let Some(c) = self.https[i].conn {
                    self.conns[c].stalled = false;
                    self.client_consume(c);
                }
            }
        }
    }

    fn unblock(&mut self, c: usize) {
        let now = self.now;
        let k = &mut self.conns[c];
        if k.blocked {
            k.blocked = false;
            k.unblocked_at = now;
            k.resume_until = now;
            if let Some(b) = k.blocked_since {
                k.h.blocked.push((b, now));
            }
        }
    }

    fn client_consume(&mut self, c: usize) {
        let now = self.now;
        let k = &mut self.conns[c];
        let (a, b) = (k.tx_consumed, k.tx_arrived);
        if a == b {
            return;
        }
        let free0 = k.tx_free();
        k.tx_consumed = b;
        k.h.tx_client.push(Mark { end: b as u64, t: now, lb: 0 });
        let bytes = k.tx[a..b].to_vec();
        let (kind, idx) = (k.h.kind, k.h.idx);
        if free0 == 0 || k.blocked {
            self.unblock(c);
            self.notify_conn(c);
        }
        if kind == 0 {
            self.hosts[idx].parser.push(&bytes);
            self.host_advance(idx);
        } else {
            self.http_advance(idx, None);
        }
    }

    fn host_flush(&mut self, h: usize) {
        let b = std::mem::take(&mut self.hosts[h].coalesce);
        if b.is_empty() {
            return;
        }
        let c = self.hosts[h].conn.unwrap();
        self.client_send(c, &b, &Seg::Whole, &mut Rng::new(0));
    }

    fn host_timer(&mut self, h: usize, t: u64) {
        let a = &mut self.hosts[h];
        if a.timer.map_or(true, |x| x > t) {
            a.timer = Some(t);
            self.push_ev(t, 0x10000 + h as u64, Ev::HostStep(h));
        }
    }

    /// Some time when what is sent then arrives together with the next timer
    /// the server waits for, when the plan wants such coincidences.
    fn coincide(&mut self, latency: u64) -> Option<u64> {
        let settle = self.plan.settle_at * 1000;
        let at = self.timer_at;
        if self.plan.policy.coincide == 0
            || at > settle.min(self.now + 1000 * MS)
            || at <= self.now + latency
            || !self.rng_pre.chance(self.plan.policy.coincide)
        {
            return None;
        }
        self.fault("coincidence");
        Some(at - latency)
    }

    fn host_advance(&mut self, h: usize) {
        if self.hosts[h].conn.is_none() {
            if self.now < self.hosts[h].plan.connect_at * 1000 {
                return;
            }
            let p = self.hosts[h].plan.clone();
            let c = self.new_conn(0, h, self.plan.port(0), p.cap, p.latency * 1000, p.rst_discard);
            self.hosts[h].conn = Some(c);
            if p.rst_discard {
                self.conns[c].rst_discard = true;
            }
        }
        let c = self.hosts[h].conn.unwrap();
        loop {
            let a = &self.hosts[h];
            if a.closed || self.conns[c].peer_closed || a.step >= a.plan.steps.len() {
                if !a.closed && !self.conns[c].peer_closed {
                    self.host_flush(h);
                }
                return;
            }
            let step = a.plan.steps[a.step].clone();
            if self.now < step.at * 1000 {
                self.host_flush(h);
                self.host_timer(h, step.at * 1000);
                return;
            }
            if self.hosts[h].deferred != Some(self.hosts[h].step) {
                self.hosts[h].deferred = Some(self.hosts[h].step);
                if let Some(t) = self.coincide(self.conns[c].latency) {
                    self.host_flush(h);
                    self.host_timer(h, t);
                    return;
                }
            }
            if step.sync {
                self.host_flush(h);
                let a = &self.hosts[h];
                let lat = self.conns[c].latency;
                let limit = self.conns[c].last_arrival.max(a.last_send) + 50 * MS + 2 * lat;
                if a.parser.answers < a.expected && self.now < limit {
                    self.host_timer(h, limit);
                    return;
                }
                if a.parser.answers < a.expected {
                    // give up on the missing answers
                    self.hosts[h].expected = self.hosts[h].parser.answers;
                }
            }
            self.hosts[h].step += 1;
            match &step.act {
                Act::Send { hex, frag } => {
                    let msg = unhex(hex);
                    let bytes = encode_uci(&msg, frag);
                    if msg.first().map_or(false, |b| b >> 5 < 2) {
                        self.hosts[h].expected += 1;
                    }
                    self.host_send(h, c, bytes);
                }
                Act::Raw { hex } => {
                    let bytes = unhex(hex);
                    self.host_send(h, c, bytes);
                }
                Act::Close { kind } => {
                    self.host_flush(h);
                    let name = match kind {
                        CloseKind::Fin => "host_fin",
                        CloseKind::Rst => "host_rst",
                        CloseKind::Half => "host_half_close",
                    };
                    self.fault(name);
                    if *kind != CloseKind::Half {
                        self.hosts[h].closed = true;
                    }
                    self.client_close(c, kind);
                }
                Act::Stall => {
                    self.fault("host_stall");
                    self.conns[c].stalled = true;
                }
                Act::Resume => {
                    self.conns[c].stalled = false;
                    self.client_consume(c);
                }
                Act::Nop => (),
            }
        }
    }

    fn host_send(&mut self, h: usize, c: usize, bytes: Vec<u8>) {
        self.hosts[h].last_send = self.now;
        let seg = self.hosts[h].plan.seg.clone();
        if let Seg::Coalesce = seg {
            self.hosts[h].coalesce.extend_from_slice(&bytes);
            return;
        }
        let mut rng = self.hosts[h].rng.clone();
        self.client_send(c, &bytes, &seg, &mut rng);
        self.hosts[h].rng = rng;
    }

    // ------------------------------------------------------------- http

    fn http_advance(&mut self, i: usize, closed: Option<usize>) {
        // progress of the answers
        while self.https[i].done < self.https[i].reqs.len() {
            let a = &mut self.https[i];
            let Some(c) = a.conn else { return };
            let (start, consumed) = (a.buf_start, self.conns[c].tx_consumed);
            let st = parse_http(&self.conns[c].tx[start..consumed]);
            let r = &mut a.reqs[a.done];
            r.tx_start = start as u64;
            if let Some((status, _)) = st.head {
                r.status = Some(status);
            }
            if let Some(len) = st.end {
                r.complete = true;
                r.tx_end = Some((start + len) as u64);
                a.done += 1;
                a.buf_start = start + len;
            } else if closed == Some(c) {
                r.tx_end = Some(consumed as u64);
                a.done = a.reqs.len();
                a.conn = None;
            } else {
                break;
            }
        }
        if closed.is_some() && self.https[i].conn == closed {
            self.https[i].conn = None;
        }
        loop {
            let a = &self.https[i];
            if a.step >= a.plan.steps.len() || a.done < a.reqs.len() && !a.plan.pipeline {
                return;
            }
            let step = a.plan.steps[a.step].clone();
            if self.now < step.at * 1000 {
                if a.timer.map_or(true, |t| t > step.at * 1000) {
                    self.https[i].timer = Some(step.at * 1000);
                    self.push_ev(step.at * 1000, 0x20000 + i as u64, Ev::HttpStep(i));
                }
                return;
            }
            let (cap, lat, seg) = (a.plan.cap, a.plan.latency * 1000, a.plan.seg.clone());
            if a.deferred != Some(a.step) {
                self.https[i].deferred = Some(self.https[i].step);
                if let Some(t) = self.coincide(lat) {
                    if self.https[i].timer.map_or(true, |x| x > t) {
                        self.https[i].timer = Some(t);
                        self.push_ev(t, 0x20000 + i as u64, Ev::HttpStep(i));
                    }
                    return;
                }
            }
            let a = &self.https[i];
            let c = match a.conn {
                Some(c) if !self.conns[c].peer_closed => c,
                _ => {
                    let c = self.new_conn(1, i, self.plan.port(1), cap, lat, false);
                    self.https[i].conn = Some(c);
                    self.https[i].done = self.https[i].reqs.len();
                    self.https[i].buf_start = 0;
                    c
                }
            };
            let mut req = format!("{} {} HTTP/1.1\r\nhost: pica\r\n", step.method, step.path);
            if step.chunked {
                req += "transfer-encoding: chunked\r\n\r\n";
                if !step.body.is_empty() {
                    let m = step.body.len() / 2;
                    for p in [&step.body[..m], &step.body[m..]] {
                        if !p.is_empty() {
                            req += &format!("{:x}\r\n{}\r\n", p.len(), p);
                        }
                    }
                }
                req += "0\r\n\r\n";
            } else {
                req += &format!("content-length: {}\r\n\r\n{}", step.body.len(), step.body);
            }
            let mut bytes = req.into_bytes();
            let idx = self.https[i].step;
            self.https[i].step += 1;
            let mut rng = self.https[i].rng.clone();
            let mut rec = HttpReq {
                client: i,
                step: idx,
                conn: c,
                t_send: self.now,
                // known once the earlier answers are there
                tx_start: if self.https[i].done < self.https[i].reqs.len() { u64::MAX } else { self.https[i].buf_start as u64 },
                ..Default::default()
            };
            if let HttpAbort::Partial { bytes: n } = step.abort {
                bytes.truncate(n.min(bytes.len().saturating_sub(1)));
                self.client_send(c, &bytes, &seg, &mut rng);
                self.https[i].rng = rng;
                rec.aborted_at = Some(self.now);
                self.https[i].reqs.push(rec);
                self.https[i].conn = None;
                self.fault("http_partial_request");
                self.client_close(c, &CloseKind::Rst);
                continue;
            }
            self.client_send(c, &bytes, &seg, &mut rng);
            self.https[i].rng = rng;
            rec.t_arrive = Some(self.conns[c].last_arrival);
            self.https[i].reqs.push(rec);
            let req_idx = self.https[i].reqs.len() - 1;
            if self.https[i].done < req_idx {
                self.fault("http_pipelined");
            }
            match step.abort {
                HttpAbort::Rst { after } | HttpAbort::Fin { after } => {
                    let t = self.now + after * 1000;
                    self.push_ev(t, 0x20000 + i as u64, Ev::HttpAbort(i, req_idx));
                }
                _ => (),
            }
        }
    }
}

pub struct HttpState {
    /// (status, body offset)
    pub head: Option<(u16, usize)>,
    /// total length once complete
    pub end: Option<usize>,
}

pub fn parse_http(b: &[u8]) -> HttpState {
    let mut st = HttpState { head: None, end: None };
    let hl = match b.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(p) => p + 4,
        None => return st,
    };
    let head = String::from_utf8_lossy(&b[..hl]).to_ascii_lowercase();
    let status: u16 = head.split_whitespace().nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    st.head = Some((status, hl));
    let mut len = None;
    let mut chunked = false;
    for l in head.lines() {
        if let Some(v) = l.strip_prefix("content-length:") {
            len = v.trim().parse::<usize>().ok();
        }
        if l.starts_with("transfer-encoding:") && l.contains("chunked") {
            chunked = true;
        }
    }
    if chunked {
        let mut p = hl;
        loop {
            let e = match b[p..].windows(2).position(|w| w == b"\r\n") {
                Some(e) => p + e,
                None => return st,
            };
            let n = usize::from_str_radix(String::from_utf8_lossy(&b[p..e]).trim(), 16).unwrap_or(0);
            let next = e + 2 + n + 2;
            if b.len() < next {
                return st;
            }
            p = next;
            if n == 0 {
                st.end = Some(p);
                return st;
            }
        }
    }
    let n = len.unwrap_or(0);
    if b.len() >= hl + n {
        st.end = Some(hl + n);
    }
    st
}
