//! Per-host walk: replays what the server read from a host through the model
//! and matches it against what the server wrote to it.
use crate::codec::*;
use crate::model::*;
use crate::report::*;
use simtypes::*;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub const MS: u64 = 1_000_000;

#[derive(Clone, Debug)]
pub struct Meas {
    pub mac: u64,
    pub status: u8,
    pub nlos: u8,
    pub dist: u16,
    pub az: i16,
    pub el: i16,
    pub daz: i16,
    pub del: i16,
    pub foms: [u8; 4],
    pub slot: u8,
    pub rssi: u8,
}

#[derive(Clone, Debug)]
pub struct Report {
    pub a: u64,
    pub b: u64,
    pub sid: u32,
    pub own: Rc<Session>,
    pub ext: bool,
    pub meas: Vec<Meas>,
}

#[derive(Clone, Debug)]
pub struct Change {
    pub lo: u64,
    pub hi: u64,
    pub snap: Option<Rc<Session>>,
}

#[derive(Clone, Debug)]
pub struct Submission {
    pub lo: u64,
    pub hi: u64,
    pub sid: u32,
    pub inc: u64,
    pub app: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Delivery {
    pub a: u64,
    pub t: u64,
    pub sid: u32,
    pub src: u64,
    pub app: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct StopWindow {
    pub lo: u64,
    pub hi: u64,
    /// The command was answered, so it was executed.
    pub sure: bool,
    pub req: StopReq,
}

#[derive(Clone, Debug)]
pub struct Inband {
    pub lo: u64,
    pub hi: u64,
    pub sid: u32,
    pub mac: Vec<u8>,
}

pub struct HostView {
    pub host: usize,
    pub conn: usize,
    pub items: Vec<Item>,
    pub outs: Vec<Out>,
    pub alive_lo: u64,
    /// earliest time something justified the end of the connection
    pub cause: Option<u64>,
    pub dead_hi: Option<u64>,
    pub timeline: BTreeMap<u32, Vec<Change>>,
    pub reports: Vec<Report>,
    pub subs: Vec<Submission>,
    pub delivs: Vec<Delivery>,
    pub stops: Vec<StopWindow>,
    pub inband: Vec<Inband>,
    /// from here on the session states are not known
    pub uncertain: Option<u64>,
    pub answered: usize,
    /// time windows the server's writes were blocked
    pub blocked: Vec<(u64, u64)>,
}

pub struct Ctx<'a> {
    pub plan: &'a Plan,
    pub hist: &'a History,
    /// total injected hold time
    pub hold: u64,
    /// connections whose trace file failed
    pub trace_err: Vec<bool>,
}

impl Ctx<'_> {
    /// The server was still starting up: not listening yet.
    pub fn too_early(&self, k: &ConnHist) -> bool {
        k.refused && k.syn_at < self.hold + 5 * MS
    }

    /// A failed accept may be followed by a pause of about a second.
    pub fn accept_slack(&self) -> u64 {
        if self.plan.accept_faults.is_empty() {
            20 * MS
        } else {
            1_250 * MS
        }
    }
    /// how much earlier/later than observed something may have happened
    pub fn w(&self) -> u64 {
        self.hold + MS
    }
    /// lateness allowance
    pub fn late(&self) -> u64 {
        self.hold + 5 * MS
    }
    pub fn ann_late(&self) -> u64 {
        self.hold + 25 * MS
    }
}

fn blocked_in(bl: &[(u64, u64)], a: u64, b: u64) -> Option<u64> {
    // end of the last blocked window that overlaps [a, b]
    bl.iter().filter(|w| w.0 <= b && w.1 >= a).map(|w| w.1).max()
}

/// Cadence state of one started session.
struct Cadence {
    start_lo: u64,
    start_hi: u64,
    /// last report (lower, upper bound of its generation), if known exactly
    last: Option<(u64, u64)>,
    /// reports were disabled since `last`
    gap_unknown: bool,
    interval: u64,
}

struct Walk<'a> {
    c: &'a Ctx<'a>,
    v: HostView,
    dev: Device,
    status: VecDeque<(u64, Vec<Ann>)>,
    multicast: VecDeque<(u64, Ann)>,
    cad: BTreeMap<u32, Cadence>,
    out: Vec<Violation>,
    i: usize,
    /// sessions (and incarnations) whose controlee list was updated
    listed: std::collections::BTreeSet<(u32, u64)>,
    /// sessions stopped by an update of a controlee list
    list_stopped: std::collections::BTreeSet<u32>,
    /// Past the last answer.
    rest: bool,
}

impl Walk<'_> {
    fn fail(&mut self, props: &[&str], t: u64, what: String) {
        if !self.out.is_empty() {
            return;
        }
        let mut p: Vec<String> = props.iter().map(|s| s.to_string()).collect();
        if self.dev.resets >= 2 && !p.iter().any(|x| x == "C04") && props.iter().any(|x| ["C03", "C10", "C01", "C05"].contains(x)) {
            p.push("C04".into());
        }
        self.out.push(Violation::new(p, Some(self.v.host), t, what));
    }

    fn snap(&mut self, sid: u32, lo: u64, hi: u64) {
        let s = self.dev.sessions.get(&sid).map(|s| Rc::new(s.clone()));
        self.v.timeline.entry(sid).or_default().push(Change { lo, hi, snap: s });
    }

    /// A session stopped ranging (or is gone): the gap since its last report
    /// must not exceed the interval.
    fn end_cadence(&mut self, sid: u32, lo: u64, hi: u64) {
        let Some(k) = self.cad.remove(&sid) else { return };
        self.check_gap_upper(sid, &k, lo, hi);
    }

    fn check_gap_upper(&mut self, sid: u32, k: &Cadence, lo: u64, _hi: u64) {
        if k.gap_unknown || k.interval == 0 {
            return;
        }
        let (_, since) = k.last.unwrap_or((k.start_lo, k.start_hi));
        // allow one interval and the tick granularity
        if lo > since + k.interval + 2 * MS + MS / 2 + self.c.hold
            && blocked_in(&self.v.blocked, since, lo).is_none()
        {
            self.fail(
                &["C05", "C14"],
                lo,
                format!(
                    "no ranging report of session {sid:#x} (interval {} ms) between {} us and {} us",
                    k.interval / MS,
                    since / 1000,
                    lo / 1000
                ),
            );
        }
    }

    fn apply_answer(&mut self, a: &Answer, lo: u64, hi: u64, t: u64) {
        let before: Vec<(u32, bool)> = a.touched.iter().map(|s| (*s, self.cad.contains_key(s))).collect();
        for (sid, was) in before {
            let now = self.dev.sessions.get(&sid).map_or(false, |s| s.state == ACTIVE);
            if was && !now {
                self.end_cadence(sid, lo, hi);
            }
            if !was && now {
                let interval = self.dev.sessions[&sid].interval as u64 * MS;
                self.cad.insert(sid, Cadence { start_lo: lo, start_hi: hi, last: None, gap_unknown: false, interval });
            }
            if now && !self.dev.sessions[&sid].cfg.ntf_enabled() {
                if let Some(k) = self.cad.get_mut(&sid) {
                    // the round before the change may still be pending
                    k.gap_unknown = true;
                }
            }
            self.snap(sid, lo, hi);
        }
        for s in &a.stops {
            self.v.stops.push(StopWindow { lo, hi, sure: !self.rest, req: s.clone() });
        }
        for x in a.status.iter().flatten() {
            match x {
                Ann::Session { id, state: IDLE, reason: 0x33 } => {
                    self.list_stopped.insert(*id);
                }
                Ann::Session { id, .. } => {
                    self.list_stopped.remove(id);
                }
                _ => (),
            }
        }
        // announcements caused by the same command come in any order
        let g: Vec<Ann> = a.status.concat();
        if !g.is_empty() {
            self.status.push_back((t, g));
        }
        for m in &a.multicast {
            self.multicast.push_back((t, m.clone()));
        }
    }

    fn area_props(area: &str) -> Vec<&'static str> {
        match area {
            "session" => vec!["C03"],
            "config" => vec!["C10"],
            "multicast" => vec!["C11"],
            "count" => vec!["C05"],
            "core" => vec!["C04", "C01"],
            _ => vec!["C01"],
        }
    }

    /// Skip items that are answered by nothing.
    fn skip_silent(&mut self) {
        while self.i < self.v.items.len() {
            let silent = match &self.v.items[self.i].what {
                In::Ctrl { mt, .. } => *mt != 1,
                In::Data { dpf, payload } => {
                    let (d, p) = (*dpf, payload.clone());
                    self.dev.data(d, &p) == DataAnswer::None
                }
                In::Bad => false,
            };
            if !silent {
                break;
            }
            self.i += 1;
        }
    }

    fn check_late(&mut self, it: &Item, o: &Out, what: &str) {
        let base = it.arrive.max(self.v.alive_lo);
        let mut limit = base + self.c.late();
        if let Some(e) = blocked_in(&self.v.blocked, base, o.t0) {
            limit = limit.max(e.saturating_add(self.c.late()));
        }
        if o.t0 > limit {
            self.fail(
                &["C01", "C14"],
                o.t0,
                format!("{what} answered {} us after it arrived", (o.t0 - base) / 1000),
            );
        }
    }

    fn window(&self, it: &Item, o: &Out) -> (u64, u64) {
        let lo = it.read;
        (lo, o.t0.min(lo + self.c.w()).max(lo))
    }

    fn answer_command(&mut self, o: &Out, is_ntf: bool) {
        self.skip_silent();
        let Some(it) = self.v.items.get(self.i).cloned() else {
            return self.fail(&["C01"], o.t0, format!("{} without a pending command", show(o)));
        };
        let In::Ctrl { gid, oid, payload, .. } = &it.what else {
            return self.fail(&["C01"], o.t0, format!("{} while a data message is pending", show(o)));
        };
        let (gid, oid) = (*gid, *oid);
        if !is_ntf && (gid, oid) != (o.gid, o.oid) {
            return self.fail(
                &["C01"],
                o.t0,
                format!("{} answers pending command {gid:x}/{oid:02x}", show(o)),
            );
        }
        self.check_late(&it, o, &format!("command {gid:x}/{oid:02x}"));
        let a = self.dev.command(gid, oid, payload);
        if a.area == "multicast" {
            for id in &a.touched {
                if let Some(s) = self.dev.sessions.get(id) {
                    self.listed.insert((*id, s.inc));
                }
            }
        }
        let (lo, hi) = self.window(&it, o);
        let ok = match a.rsp.as_ref().unwrap() {
            Rsp::Exact(p) => !is_ntf && *p == o.payload,
            Rsp::AnyError => !is_ntf && !o.payload.is_empty() && o.payload[0] != 0,
            Rsp::DevError { or_response } => {
                is_ntf || (*or_response && !o.payload.is_empty() && o.payload[0] != 0)
            }
        };
        if !ok {
            let mut p = Self::area_props(a.area);
            if a.area == "config" && oid == 4 && payload.len() >= 4 {
                let id = u32le(payload);
                if self.dev.sessions.get(&id).map_or(false, |s| self.listed.contains(&(id, s.inc))) {
                    p.push("C11");
                }
            }
            if let Rsp::Exact(e) = a.rsp.as_ref().unwrap() {
                // the status of session commands belongs to the state machine
                let at = if oid == 5 && gid == 2 { 4 } else { 0 };
                if gid == 1 && [3, 7].contains(&oid) && e.get(at) != o.payload.get(at) {
                    p.push("C03");
                }
                if e.len() > 255 || o.payload.len() > 255 {
                    p.push("C09");
                }
            }
            if payload.len() > 255 {
                p.push("C09");
            }
            let exp = match a.rsp.as_ref().unwrap() {
                Rsp::Exact(p) => hex(p),
                x => format!("{x:?}"),
            };
            self.fail(
                &p,
                o.t0,
                format!("command {gid:x}/{oid:02x} {} answered {} expected {exp}", hex(payload), hex(&o.payload)),
            );
            return;
        }
        self.i += 1;
        self.apply_answer(&a, lo, hi, o.t0);
    }

    fn answer_data(&mut self, o: &Out) {
        self.skip_silent();
        let Some(it) = self.v.items.get(self.i).cloned() else {
            return self.fail(&["C01", "C07"], o.t0, format!("{} without a pending data message", show(o)));
        };
        let In::Data { dpf, payload } = &it.what else {
            return self.fail(&["C01", "C07"], o.t0, format!("{} while a command is pending", show(o)));
        };
        self.check_late(&it, o, "data message");
        let want = self.dev.data(*dpf, payload);
        let (lo, hi) = self.window(&it, o);
        let ok = match &want {
            DataAnswer::None => false,
            DataAnswer::Status { session, seq, status } => {
                let mut p = session.to_le_bytes().to_vec();
                p.extend([*seq, *status, 1]);
                // the sequence number and retry count of a refusal are not
                // part of what is promised
                o.oid == 5 && o.payload.len() == 7 && o.payload[..4] == p[..4] && o.payload[5] == *status
            }
            DataAnswer::Credit { session, .. } => {
                let mut p = session.to_le_bytes().to_vec();
                p.push(1);
                o.oid == 4 && o.payload == p
            }
        };
        if !ok {
            return self.fail(
                &["C07", "C01"],
                o.t0,
                format!("data message for session {:x?} answered {} expected {want:?}", &payload[..4.min(payload.len())], show(o)),
            );
        }
        if let DataAnswer::Credit { session, app } = want {
            let inc = self.dev.sessions[&session].inc;
            self.v.subs.push(Submission { lo, hi, sid: session, inc, app });
        }
        self.i += 1;
    }

    fn status_ntf(&mut self, o: &Out, ann: Ann) {
        let props: &[&str] = match ann {
            Ann::Device { .. } => &["C04"],
            Ann::Session { state: IDLE, reason: 0x33, .. } => &["C03", "C11"],
            _ => &["C03"],
        };
        if let Some((base, group)) = self.status.front_mut() {
            let base = *base;
            if let Some(p) = group.iter().position(|x| *x == ann) {
                group.remove(p);
                if group.is_empty() {
                    self.status.pop_front();
                }
                self.check_ann_late(base, o, props);
                return;
            }
        }
        if let Ann::Session { id, state: IDLE, reason: 5 } = ann {
            let mac = self.dev.sessions.get(&id).and_then(|s| s.cfg.mac().cloned());
            let lo = o.lb.saturating_sub(self.c.w());
            if let Some(more) = self.dev.inband_stop(id) {
                self.end_cadence(id, lo, o.t0);
                self.snap(id, lo, o.t0);
                self.list_stopped.insert(id);
                self.v.inband.push(Inband { lo, hi: o.t0, sid: id, mac: mac.unwrap_or_default() });
                let g: Vec<Ann> = more.concat();
                if !g.is_empty() {
                    self.status.push_back((o.t0, g));
                }
                return;
            }
            return self.fail(&["C03", "C11"], o.t0, format!("in-band stop announced for session {id:#x} that is not active"));
        }
        let exp = self.status.front().map(|x| x.1.clone());
        let mut p = props.to_vec();
        // an announcement overtaking its response
        self.skip_silent();
        if self.i < self.v.items.len() && !p.contains(&"C01") {
            if let In::Ctrl { gid, oid, payload, .. } = self.v.items[self.i].what.clone() {
                let mut d = self.dev.clone();
                let a = d.command(gid, oid, &payload);
                if a.status.iter().any(|g| g.contains(&ann)) {
                    p.push("C01");
                }
            }
        }
        // both kinds involved when the order between them is wrong
        if let Some(g) = &exp {
            for a in g {
                let q = if matches!(a, Ann::Device { .. }) { "C04" } else { "C03" };
                if !p.contains(&q) {
                    p.push(q);
                }
            }
        }
        self.fail(&p, o.t0, format!("unexpected announcement {ann:?}, expected {exp:?}"));
    }

    fn check_ann_late(&mut self, base: u64, o: &Out, props: &[&str]) {
        let mut limit = base + self.c.ann_late();
        if let Some(e) = blocked_in(&self.v.blocked, base, o.t0) {
            limit = limit.max(e.saturating_add(self.c.ann_late()));
        }
        if o.t0 > limit {
            self.fail(props, o.t0, format!("announcement {} comes {} us after its cause", show(o), (o.t0 - base) / 1000));
        }
    }

    fn report(&mut self, o: &Out) {
        let p = &o.payload;
        let bad = |w: &mut Self, why: &str| {
            w.fail(&["C06", "C09"], o.t0, format!("malformed ranging report ({why}): {}", hex(p)))
        };
        if p.len() < 25 {
            return bad(self, "short");
        }
        let seq = u32le(p);
        let sid = u32le(&p[4..]);
        if p[13] != 1 {
            return bad(self, "measurement type");
        }
        let ext = match p[15] {
            0 => false,
            1 => true,
            _ => return bad(self, "address indicator"),
        };
        let n = p[24] as usize;
        let size = 31;
        let alen = if ext { 8 } else { 2 };
        if p.len() != 25 + n * size {
            return bad(self, "length");
        }
        let Some(s) = self.dev.sessions.get(&sid).cloned() else {
            return self.fail(&["C05"], o.t0, format!("ranging report for session {sid:#x} that does not exist"));
        };
        if s.state != ACTIVE {
            let p: &[&str] = if self.list_stopped.contains(&sid) { &["C05", "C11"] } else { &["C05"] };
            return self.fail(p, o.t0, format!("ranging report for session {sid:#x} in state {}", s.state));
        }
        if !s.cfg.ntf_enabled() {
            return self.fail(&["C05"], o.t0, format!("ranging report for session {sid:#x} with reports disabled"));
        }
        if seq != s.count {
            return self.fail(
                &["C05"],
                o.t0,
                format!("ranging report of session {sid:#x} numbered {seq}, expected {}", s.count),
            );
        }
        let own = Rc::new(s);
        self.dev.sessions.get_mut(&sid).unwrap().count += 1;
        let a = o.lb.saturating_sub(self.c.w());
        let exact_lb = o.lb;
        // cadence
        if let Some(k) = self.cad.get(&sid) {
            if k.interval > 0 {
                let blocked = blocked_in(&self.v.blocked, k.last.map_or(k.start_lo, |l| l.0), o.t0).is_some();
                let (l0, l1) = k.last.unwrap_or((k.start_lo, k.start_hi));
                let unknown = k.gap_unknown;
                let iv = k.interval;
                let gap_max = o.t0.saturating_sub(l0);
                let gap_min = exact_lb.saturating_sub(l1);
                if !blocked {
                    if gap_max + self.c.hold + MS + MS / 2 < iv {
                        self.fail(
                            &["C05"],
                            o.t0,
                            format!("ranging report of session {sid:#x} {} us after the previous one, interval {} ms", gap_max / 1000, iv / MS),
                        );
                    } else if !unknown && gap_min > iv + 2 * MS + MS / 2 + self.c.hold {
                        self.fail(
                            &["C05", "C14"],
                            o.t0,
                            format!("ranging report of session {sid:#x} {} us after the previous one, interval {} ms", gap_min / 1000, iv / MS),
                        );
                    }
                }
            }
        }
        if let Some(k) = self.cad.get_mut(&sid) {
            k.last = Some((exact_lb, o.t0));
            k.gap_unknown = false;
        }
        let mut meas = vec![];
        for m in p[25..].chunks(size) {
            let mac = if ext { u64::from_le_bytes(m[..8].try_into().unwrap()) } else { u16le(m) as u64 };
            let r = &m[alen..];
            meas.push(Meas {
                mac,
                status: r[0],
                nlos: r[1],
                dist: u16le(&r[2..]),
                az: u16le(&r[4..]) as i16,
                el: u16le(&r[7..]) as i16,
                daz: u16le(&r[10..]) as i16,
                del: u16le(&r[13..]) as i16,
                foms: [r[6], r[9], r[12], r[15]],
                slot: r[16],
                rssi: r[17],
            });
        }
        self.v.reports.push(Report { a, b: o.t0, sid, own, ext, meas });
    }

    fn data_rcv(&mut self, o: &Out) {
        // dpf is in the gid position
        let p = &o.payload;
        if o.gid != 2 || p.len() < 17 || p.len() != 17 + u16le(&p[15..]) as usize {
            return self.fail(&["C07", "C09"], o.t0, format!("malformed data message {}", hex(&p[..p.len().min(40)])));
        }
        let sid = u32le(p);
        let src = u64::from_le_bytes(p[5..13].try_into().unwrap());
        let recv = self.dev.sessions.get(&sid).map_or(false, |s| s.receives_data());
        if p[4] != 0 {
            return self.fail(&["C07"], o.t0, format!("data message with status {}", p[4]));
        }
        if !recv {
            return self.fail(
                if p.len() > 1024 { &["C07", "C09"] } else { &["C07"] },
                o.t0,
                format!("data delivered on session {sid:#x} that is not an active responder"),
            );
        }
        let a = o.lb.saturating_sub(self.c.w());
        self.v.delivs.push(Delivery { a, t: o.t0, sid, src, app: p[17..].to_vec() });
    }

    fn run(&mut self) {
        self.status.push_back((self.v.alive_lo, vec![Ann::Device { state: READY }]));
        let outs = self.v.outs.clone();
        for o in &outs {
            if !self.out.is_empty() {
                return;
            }
            match (o.mt, o.gid, o.oid) {
                (2, _, _) => self.answer_command(o, false),
                (3, 0, 1) if o.payload == [DEV_ERROR] => {
                    if self.dev.reset {
                        self.fail(&["C01", "C04"], o.t0, "device-status error announced after reset".into());
                    } else {
                        self.answer_command(o, true)
                    }
                }
                (3, 0, 1) if o.payload.len() == 1 => self.status_ntf(o, Ann::Device { state: o.payload[0] }),
                (3, 1, 2) if o.payload.len() == 6 => self.status_ntf(
                    o,
                    Ann::Session { id: u32le(&o.payload), state: o.payload[4], reason: o.payload[5] },
                ),
                (3, 1, 7) if o.payload.len() >= 5 && o.payload.len() == 5 + 3 * o.payload[4] as usize => {
                    let list = o.payload[5..].chunks(3).map(|c| ([c[0], c[1]], c[2])).collect();
                    let ann = Ann::Multicast { id: u32le(&o.payload), list };
                    match self.multicast.pop_front() {
                        Some((base, x)) if x == ann => self.check_ann_late(base, o, &["C11"]),
                        x => self.fail(&["C11"], o.t0, format!("multicast notification {ann:?}, expected {x:?}")),
                    }
                }
                (3, 2, 4) | (3, 2, 5) => self.answer_data(o),
                (3, 2, 0) => self.report(o),
                (0, _, _) => self.data_rcv(o),
                _ => self.fail(&["C01"], o.t0, format!("unexpected {}", show(o))),
            }
        }
        if !self.out.is_empty() {
            return;
        }
        self.v.answered = self.i;
        // ---- what is still owed
        let stuck = self.v.blocked.iter().find(|b| b.1 == u64::MAX).map(|b| b.0);
        let end = [Some(self.c.hist.t_end), self.v.cause, stuck].into_iter().flatten().min().unwrap();
        self.skip_silent();
        if let Some(it) = self.v.items.get(self.i).cloned() {
            let base = it.arrive.max(self.v.alive_lo);
            let after = blocked_in(&self.v.blocked, base, end).unwrap_or(0);
            if !matches!(it.what, In::Bad) && base.max(after).saturating_add(self.c.late()) < end {
                let p: &[&str] = match it.what {
                    In::Data { .. } => &["C01", "C07"],
                    _ => &["C01", "C14"],
                };
                self.fail(p, end, format!("{:?} that arrived at {} us was never answered", it.what, base / 1000));
                return;
            }
        }
        let last_block = |bl: &[(u64, u64)], base: u64| blocked_in(bl, base, end).unwrap_or(0);
        if let Some((base, g)) = self.status.front().cloned() {
            if base.max(last_block(&self.v.blocked, base)).saturating_add(self.c.ann_late()) < end {
                let p: &[&str] = match g[0] {
                    Ann::Device { .. } => &["C04"],
                    Ann::Session { reason: 0x33, .. } => &["C03", "C11"],
                    _ => &["C03"],
                };
                self.fail(p, end, format!("announcement {:?} due since {} us never came", g, base / 1000));
                return;
            }
        }
        if let Some((base, g)) = self.multicast.front().cloned() {
            if base.max(last_block(&self.v.blocked, base)).saturating_add(self.c.ann_late()) < end {
                self.fail(&["C11"], end, format!("notification {:?} due since {} us never came", g, base / 1000));
                return;
            }
        }
        // read but unanswered items still took effect
        let rest: Vec<Item> = self.v.items[self.i..].to_vec();
        self.rest = true;
        for it in rest {
            match &it.what {
                In::Ctrl { mt: 1, gid, oid, payload } => {
                    // no cadence claims beyond this point
                    self.cad.clear();
                    let a = self.dev.command(*gid, *oid, payload);
                    self.apply_answer(&a, it.read, it.read + self.c.w(), it.read);
                }
                In::Data { dpf, payload } => {
                    if let DataAnswer::Credit { session, app } = self.dev.data(*dpf, payload) {
                        let inc = self.dev.sessions[&session].inc;
                        self.v.subs.push(Submission { lo: it.read, hi: it.read + self.c.w(), sid: session, inc, app });
                    }
                }
                _ => (),
            }
        }
        self.v.uncertain = stuck;
        // sessions still ranging at the end
        let cads = std::mem::take(&mut self.cad);
        for (sid, k) in cads {
            self.check_gap_upper(sid, &k, end, end);
        }
    }
}

pub fn show(o: &Out) -> String {
    format!(
        "{} {:x}/{:02x} {}",
        ["data", "?", "response", "notification"][o.mt as usize & 3],
        o.gid,
        o.oid,
        hex(&o.payload[..o.payload.len().min(24)])
    )
}

/// When the embedding program told the engine to disconnect this host.
pub fn kicked(c: &Ctx, host: usize) -> Option<u64> {
    let hd = c.hist.handles.iter().find(|x| x.0 == host)?.1;
    let name = format!("disconnect:{hd}");
    c.hist.api.iter().filter(|r| r.result == name).map(|r| r.t_call).min()
}

pub fn view(c: &Ctx, ci: usize) -> (Option<HostView>, Vec<Violation>) {
    let h = &c.hist.conns[ci];
    let Some(acc) = h.accepted_at else { return (None, vec![]) };
    let rx = unhex(&h.rx_hex);
    let tx = unhex(&h.tx_hex);
    let read = h.rx_read.last().map_or(0, |m| m.end as usize);
    let (mut items, mixed) = client_items(h, &rx, read);
    let mut cause: Option<u64> = [h.fin_arrived, h.rst_arrived].into_iter().flatten().min();
    if mixed {
        items.pop();
    }
    let bad = bad_header(h, &rx, read);
    if let Some(t) = bad {
        cause = Some(cause.map_or(t, |x| x.min(t)));
    }
    // the embedding program disconnected the device
    let kicked = kicked(c, h.idx);
    if let Some(t) = kicked {
        cause = Some(cause.map_or(t, |x| x.min(t)));
    }
    // a failing trace file may end the connection
    if c.trace_err[ci] {
        if let Some(t) = h.srv_close.or(h.srv_fin) {
            cause = Some(cause.map_or(t, |x| x.min(t)));
        }
    }
    let (outs, framing) = server_msgs(h, &tx, no_reserved(&rx));
    let v = HostView {
        host: h.idx,
        conn: ci,
        items,
        outs,
        alive_lo: acc,
        cause,
        dead_hi: h.srv_close.map(|t| t + c.w()),
        timeline: BTreeMap::new(),
        reports: vec![],
        subs: vec![],
        delivs: vec![],
        stops: vec![],
        inband: vec![],
        uncertain: None,
        answered: 0,
        blocked: h.blocked.clone(),
    };
    let mut w = Walk {
        c,
        v,
        dev: Device::new(),
        status: VecDeque::new(),
        multicast: VecDeque::new(),
        cad: BTreeMap::new(),
        out: vec![],
        i: 0,
        listed: Default::default(),
        list_stopped: Default::default(),
        rest: false,
    };
    if mixed {
        // unspecified from the mixed fragments on: only framing is judged
        let t = w.v.items.last().map_or(acc, |i| i.read);
        w.v.uncertain = Some(t.saturating_sub(1));
        w.v.outs.retain(|o| o.t0 <= t);
        w.v.uncertain = Some(acc);
    } else {
        w.run();
    }
    let mut out = w.out;
    if let Some((t, e)) = framing {
        if out.is_empty() {
            out.push(Violation::new(vec!["C09".into()], Some(h.idx), t, e));
        }
    }
    // a connection must not end without a reason, and must end with one
    if out.is_empty() {
        let closed = [h.srv_close, h.srv_fin].into_iter().flatten().min();
        // what was sent before an intended disconnection is written first
        let stuck = kicked.map_or(false, |t| blocked_in(&h.blocked, t, u64::MAX).is_some());
        match (closed, cause) {
            (None, Some(_)) if stuck => (),
            (Some(x), Some(t)) if stuck && x > t => (),
            (Some(t), None) => out.push(Violation::new(
                vec!["C01".into(), "C02".into(), "C08".into()],
                Some(h.idx),
                t,
                format!("connection closed by the server at {} us without a reason", t / 1000),
            )),
            (None, Some(t)) if t.max(acc) + c.late() < c.hist.t_end => out.push(Violation::new(
                vec!["C08".into()],
                Some(h.idx),
                t,
                format!("connection ended at {} us is never closed by the server", t / 1000),
            )),
            (Some(x), Some(t)) if x > t.max(acc) + c.late() && bad.is_none() => out.push(Violation::new(
                vec!["C08".into()],
                Some(h.idx),
                t,
                format!("connection ended at {} us closed only at {} us", t / 1000, x / 1000),
            )),
            (Some(x), Some(_)) if x + c.late() < h.srv_close.unwrap_or(c.hist.t_end) => out.push(Violation::new(
                vec!["C08".into()],
                Some(h.idx),
                x,
                format!("connection ended by the server at {} us but not closed in both directions", x / 1000),
            )),
            _ => (),
        }
    }
    (Some(w.v), out)
}
