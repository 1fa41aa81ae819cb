//! Seeded generation of plans: workload, schedule policy and faults.
use crate::codec::*;
use crate::model::*;
use crate::oracle::PROBE;
use simtypes::*;

#[derive(Clone, Debug)]
pub struct Prof {
    /// weights of http, pica, lib
    pub bins: [u64; 3],
    pub hosts: (u64, u64),
    pub steps: (u64, u64),
    pub w: [u64; NK],
    /// percent chances
    pub close: u64,
    pub stall: u64,
    pub pcap: u64,
    pub fs: u64,
    pub accept: u64,
    pub hold: u64,
    pub seg: u64,
    pub frag: u64,
    pub anchors: u64,
    pub http_ops: u64,
    pub bad: u64,
    pub ext: u64,
    pub sync: u64,
    pub setup: u64,
    pub garbage: u64,
    pub typ1: u64,
    pub one2many: u64,
    pub ntf_off: u64,
    pub hurry: u64,
    pub none: u64,
    pub prereset: u64,
    pub http_abort: u64,
}

pub const NK: usize = 24;
pub const INITC: usize = 0;
pub const DEINITC: usize = 1;
pub const SETUP: usize = 2;
pub const SETCFG: usize = 3;
pub const GETCFG: usize = 4;
pub const COUNT: usize = 5;
pub const STATE: usize = 6;
pub const MADD: usize = 7;
pub const MDEL: usize = 8;
pub const START: usize = 9;
pub const STOP: usize = 10;
pub const RCOUNT: usize = 11;
pub const DATA: usize = 12;
pub const RESET: usize = 13;
pub const INFO: usize = 14;
pub const CAPS: usize = 15;
pub const DSET: usize = 16;
pub const DGET: usize = 17;
pub const ANDROID: usize = 18;
pub const UNKNOWN: usize = 19;
pub const MALFORMED: usize = 20;
pub const SILENT: usize = 21;
pub const WAIT: usize = 22;
pub const BADDATA: usize = 23;

pub fn profile(prop: &str) -> Prof {
    let mut w = [2u64; NK];
    w[UNKNOWN] = 1;
    w[MALFORMED] = 1;
    w[SILENT] = 1;
    w[RESET] = 1;
    w[BADDATA] = 0;
    w[WAIT] = 4;
    let mut p = Prof {
        bins: [1, 2, 2],
        hosts: (1, 3),
        steps: (6, 30),
        w,
        close: 20,
        stall: 5,
        pcap: 5,
        fs: 0,
        accept: 0,
        hold: 25,
        seg: 25,
        frag: 10,
        anchors: 20,
        http_ops: 20,
        bad: 0,
        ext: 10,
        sync: 50,
        setup: 70,
        garbage: 0,
        typ1: 25,
        one2many: 40,
        ntf_off: 10,
        hurry: 40,
        none: 20,
        prereset: 5,
        http_abort: 0,
    };
    let set = |p: &mut Prof, l: &[(usize, u64)]| {
        for (k, v) in l {
            p.w[*k] = *v;
        }
    };
    match prop {
        "C01" => {
            p.prereset = 25;
            p.hurry = 60;
            p.sync = 30;
            p.stall = 10;
            set(&mut p, &[(UNKNOWN, 4), (MALFORMED, 5), (SILENT, 3), (DATA, 4), (BADDATA, 2)]);
        }
        "C02" => {
            p.bins = [2, 2, 1];
            p.hosts = (1, 4);
            p.pcap = 35;
            p.fs = 50;
            p.accept = 25;
            p.garbage = 50;
            p.close = 50;
            p.stall = 20;
            p.http_ops = 70;
            p.http_abort = 30;
            p.prereset = 20;
            p.anchors = 40;
            p.ext = 20;
            set(&mut p, &[(UNKNOWN, 4), (MALFORMED, 6), (SILENT, 3), (DATA, 4), (BADDATA, 3), (START, 4)]);
        }
        "C03" => {
            p.hosts = (1, 3);
            p.steps = (10, 50);
            set(&mut p, &[
                (INITC, 5), (DEINITC, 5), (START, 7), (STOP, 6), (STATE, 5), (COUNT, 3), (SETUP, 7), (MDEL, 5),
                (MADD, 3), (CAPS, 1), (INFO, 1), (DATA, 1), (UNKNOWN, 0), (MALFORMED, 0),
            ]);
            p.one2many = 60;
        }
        "C04" => {
            p.steps = (10, 50);
            set(&mut p, &[
                (RESET, 5), (INITC, 4), (DEINITC, 4), (START, 8), (STOP, 5), (DGET, 4), (DSET, 3), (SETUP, 7),
                (MDEL, 4), (STATE, 2), (GETCFG, 3), (UNKNOWN, 0), (MALFORMED, 0),
            ]);
            p.one2many = 60;
        }
        "C05" => {
            p.hosts = (1, 3);
            p.steps = (8, 35);
            p.hold = 10;
            p.close = 25;
            p.ntf_off = 15;
            p.hurry = 20;
            set(&mut p, &[
                (WAIT, 16), (START, 8), (STOP, 5), (DEINITC, 2), (RCOUNT, 6), (SETCFG, 6), (SETUP, 7), (RESET, 1),
                (CAPS, 0), (ANDROID, 0), (UNKNOWN, 0), (MALFORMED, 0), (DATA, 2),
            ]);
        }
        "C06" => {
            p.bins = [3, 1, 6];
            p.hosts = (2, 4);
            p.anchors = 75;
            p.http_ops = 70;
            p.ext = 35;
            p.one2many = 60;
            p.hurry = 25;
            p.setup = 95;
            p.none = 50;
            set(&mut p, &[
                (WAIT, 14), (START, 6), (STOP, 4), (DEINITC, 2), (SETCFG, 5), (MADD, 6), (MDEL, 2), (CAPS, 0),
                (ANDROID, 0), (INFO, 0), (UNKNOWN, 0), (MALFORMED, 0), (COUNT, 0), (DSET, 0), (DGET, 0),
            ]);
        }
        "C07" => {
            p.hosts = (2, 4);
            p.typ1 = 85;
            p.setup = 95;
            p.ext = 10;
            p.hurry = 30;
            p.ntf_off = 25;
            set(&mut p, &[
                (WAIT, 8), (DATA, 24), (START, 5), (STOP, 3), (DEINITC, 1), (SETCFG, 2), (CAPS, 0), (ANDROID, 0),
                (INFO, 0), (UNKNOWN, 0), (MALFORMED, 0), (COUNT, 0), (DSET, 0), (DGET, 0), (GETCFG, 0),
            ]);
        }
        "C08" => {
            p.bins = [2, 1, 3];
            p.hosts = (2, 5);
            p.close = 85;
            p.setup = 85;
            p.garbage = 25;
            p.stall = 20;
            p.steps = (4, 20);
            set(&mut p, &[(WAIT, 6), (START, 6)]);
        }
        "C09" => {
            p.seg = 90;
            p.frag = 60;
            p.stall = 15;
            set(&mut p, &[(CAPS, 5), (GETCFG, 8), (SETCFG, 5), (DATA, 5), (SETUP, 6), (MALFORMED, 2), (UNKNOWN, 2)]);
        }
        "C10" => {
            p.steps = (10, 50);
            set(&mut p, &[
                (SETCFG, 22), (GETCFG, 18), (SETUP, 6), (INITC, 3), (DEINITC, 2), (START, 4), (STOP, 3), (MADD, 2),
                (MDEL, 2), (CAPS, 0), (DATA, 0), (UNKNOWN, 0), (MALFORMED, 0), (ANDROID, 0),
            ]);
            p.ext = 30;
        }
        "C11" => {
            p.hosts = (2, 4);
            p.one2many = 95;
            p.setup = 95;
            p.steps = (8, 40);
            p.ext = 5;
            set(&mut p, &[
                (MADD, 12), (MDEL, 14), (GETCFG, 6), (START, 8), (STOP, 3), (SETUP, 6), (STATE, 3), (WAIT, 6),
                (CAPS, 0), (UNKNOWN, 0), (MALFORMED, 0), (DATA, 0), (ANDROID, 0), (RESET, 1), (DEINITC, 1),
            ]);
        }
        "C12" => {
            p.bins = [4, 0, 5];
            p.hosts = (0, 4);
            p.steps = (1, 10);
            p.anchors = 100;
            p.http_ops = 100;
            p.close = 50;
            p.hold = 40;
            p.http_abort = 12;
        }
        "C13" => {
            p.bins = [1, 0, 0];
            p.hosts = (0, 4);
            p.steps = (2, 16);
            p.anchors = 100;
            p.http_ops = 100;
            p.close = 50;
            p.http_abort = 10;
            p.hold = 35;
            set(&mut p, &[(WAIT, 8), (START, 4)]);
        }
        "C14" => {
            p.hosts = (1, 3);
            p.bad = 100;
            p.stall = 35;
            p.hold = 10;
            p.setup = 85;
            p.hurry = 25;
            set(&mut p, &[(WAIT, 8), (START, 6), (CAPS, 4)]);
        }
        "C15" => {
            p.pcap = 100;
            p.fs = 60;
            p.close = 50;
            p.seg = 40;
            p.stall = 15;
            p.garbage = 15;
            set(&mut p, &[(CAPS, 4), (DATA, 4), (START, 5)]);
        }
        "C20" => {
            p.bins = [1, 0, 0];
            p.hosts = (0, 2);
            p.steps = (1, 6);
            p.anchors = 100;
            p.http_ops = 100;
            p.close = 30;
            p.http_abort = 6;
            set(&mut p, &[(WAIT, 6), (START, 4)]);
        }
        _ => (),
    }
    p
}

struct Rel {
    /// typical addresses of the peers for each session id
    sids: Vec<u32>,
    /// per host and session: (controller, initiator)
    ctrl: Vec<Vec<bool>>,
    init: Vec<Vec<bool>>,
    ext: bool,
    n: usize,
    anchors: Vec<Vec<u8>>,
    counter: u32,
    typ1: bool,
    /// slow motion: everything takes this many times longer
    slow: u64,
}

impl Rel {
    fn mac(&self, i: usize) -> Vec<u8> {
        if self.ext {
            vec![i as u8 + 1, 0xe0, 3, 4, 5, 6, 7, 0x10 + i as u8]
        } else {
            vec![i as u8 + 1, 0x51]
        }
    }
}

pub fn gen(prop: &str, seed: u64) -> Plan {
    if prop == "C22" {
        return crate::startup::gen(seed);
    }
    let mut r = Rng::new(seed);
    let mut p = profile(prop);
    // a share of the runs mixes everything
    if r.chance(30) {
        let all = ["C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C20"];
        let o = *r.pick(&all);
        let q = profile(o);
        let need_pcap = prop == "C15";
        p.w = q.w;
        p.hosts = q.hosts;
        if !["C12", "C13", "C20"].contains(&prop) {
            p.bins = q.bins;
        }
        p.close = p.close.max(q.close);
        p.bad = p.bad.max(q.bad);
        if need_pcap {
            p.pcap = 100;
        }
    }
    // swarm: switch a few command kinds off
    for k in 0..NK {
        if ![INITC, SETUP, START].contains(&k) && r.chance(12) {
            p.w[k] = 0;
        }
    }
    let bin = match pick_w(&mut r, &p.bins) {
        0 => Bin::Http,
        1 => Bin::Pica,
        _ => Bin::Lib,
    };
    let policy = Policy {
        kind: match r.below(10) {
            0 => PolicyKind::Fifo,
            1 => PolicyKind::Lifo,
            2..=5 => PolicyKind::Rand,
            _ => PolicyKind::Pct,
        },
        io_percent: *r.pick(&[0, 10, 30, 61, 100]),
        budget: *r.pick(&[0, 0, 1, 2, 8, 128]),
        change_percent: *r.pick(&[0, 2, 10, 30]),
        partial: r.chance(60),
        preempt: if r.chance(30) { *r.pick(&[2, 10, 30, 60]) } else { 0 },
        park: if r.chance(60) { *r.pick(&[200, 1000, 3000, 8000]) } else { 0 },
        coincide: if r.chance(35) { *r.pick(&[10, 30, 60]) } else { 0 },
    };
    let mut plan = Plan {
        start: None,
        bin: bin.clone(),
        pcapng: r.chance(p.pcap),
        seed: r.u64(),
        policy,
        holds: vec![],
        hosts: vec![],
        http: vec![],
        api: vec![],
        accept_faults: vec![],
        fs_faults: vec![],
        fs_short_percent: 0,
        stale_traces: false,
        est_none_percent: if r.chance(p.none) { *r.pick(&[10, 30, 60]) } else { 0 },
        settle_at: 0,
        end_at: 0,
        profile: prop.into(),
    };
    if r.chance(p.hold) {
        for _ in 0..r.range(1, 3) {
            plan.holds.push(Hold { step: r.below(*r.clone().pick(&[50, 400, 2500])), dur: r.range(50, 2500) });
        }
    }
    // ---- hosts
    let n = r.range(p.hosts.0, p.hosts.1) as usize;
    let nsid = r.range(1, 3) as usize;
    let mut rel = Rel {
        sids: (0..nsid).map(|i| [1, 0x2a, 0xdead_beef][i]).collect(),
        ctrl: vec![],
        init: vec![],
        ext: r.chance(p.ext),
        n,
        anchors: vec![],
        counter: 1,
        typ1: r.chance(p.typ1),
        slow: if r.chance(if prop == "C15" { 4 } else { 1 }) {
            10_000
        } else if r.chance(8) { *r.pick(&[30, 200, 1000]) } else { 1 },
    };
    for i in 0..n.max(1) {
        let mut a = vec![];
        let mut b = vec![];
        for _ in 0..nsid {
            // usually one controller/initiator and several controlees
            let c = if r.chance(85) { i == 0 } else { r.chance(50) };
            a.push(c);
            b.push(if r.chance(85) { c } else { r.chance(50) });
        }
        rel.ctrl.push(a);
        rel.init.push(b);
    }
    if r.chance(p.anchors) {
        let many = r.chance(if prop == "C06" { 12 } else { 4 });
        for k in 0..if many { r.range(5, 14) } else { r.range(1, 4) } {
            let m = if rel.ext && r.chance(65) {
                vec![0xa0 + k as u8, 1, 2, 3, 4, 5, 6, 7]
            } else if bin != Bin::Pica && r.chance(if ["C12", "C13"].contains(&prop) { 25 } else { 8 }) {
                // may collide with the address of a connecting host
                vec![0, r.below(6) as u8]
            } else {
                vec![0xa0 + k as u8, 0x0a]
            };
            rel.anchors.push(m);
        }
    }
    let mut end = 20_000;
    // more participants of one session than a report can carry
    let crowd = n > 0
        && r.below(match prop {
            "C06" => 150,
            "C02" => 400,
            _ => 20_000,
        }) == 0;
    if crowd {
        end = end.max(crowd_hosts(&mut r, &mut plan));
    }
    let n = if crowd { 0 } else { n };
    for i in 0..n {
        let h = good_host(&mut r, &p, &mut rel, i, &bin, 0);
        end = end.max(last_at(&h));
        plan.hosts.push(h);
    }
    // reconnecting hosts
    if r.chance(p.close / 2) && n > 0 {
        for _ in 0..r.range(1, 2) {
            let i = r.below(n as u64) as usize;
            let at = last_at(&plan.hosts[i]) + r.range(0, 60_000);
            let h = good_host(&mut r, &p, &mut rel, i, &bin, at);
            end = end.max(last_at(&h));
            plan.hosts.push(h);
        }
    }
    if r.chance(p.bad) {
        for _ in 0..r.range(1, 2) {
            let h = bad_host(&mut r, end, rel.slow as u32);
            end = end.max(last_at(&h));
            plan.hosts.push(h);
        }
    }
    if r.chance(match prop {
        "C08" => 12,
        "C02" | "C14" => 6,
        _ => 1,
    }) && n > 0
    {
        // a flood that fills the server's queues just when another host leaves
        let i = r.below(n as u64) as usize;
        let at = last_at(&plan.hosts[i]).saturating_sub(r.below(300));
        let h = flood(&mut r, at);
        end = end.max(last_at(&h));
        plan.hosts.push(h);
    }
    if r.chance(p.garbage) {
        for _ in 0..r.range(1, 2) {
            let h = garbage_host(&mut r, end);
            end = end.max(last_at(&h));
            plan.hosts.push(h);
        }
    }
    let survey = match prop {
        "C10" => 30,
        "C01" => 20,
        "C03" | "C04" | "C09" | "C11" => 4,
        _ => 0,
    };
    if survey > 0 && r.chance(survey) {
        let h = survey_host(&mut r, prop);
        end = end.max(last_at(&h));
        plan.hosts.push(h);
    }
    // ---- anchors and http
    match bin {
        Bin::Lib if !rel.anchors.is_empty() || r.chance(30) => {
            let k = r.range(1, if prop == "C12" { 4 } else { 2 });
            for _ in 0..k {
                let a = api_actor(&mut r, prop, &rel, end);
                plan.api.push(a);
            }
        }
        Bin::Http => http_clients(&mut r, prop, &p, &rel, &mut plan, &mut end),
        _ => (),
    }
    // ---- faults
    if r.chance(p.accept) {
        // one per port: each may cost the server a pause of a second
        let ports: &[u16] = match (&bin, r.below(3)) {
            (Bin::Http, 0) => &[3000],
            (Bin::Http, 1) => &[7000, 3000],
            _ => &[7000],
        };
        for port in ports.iter().copied() {
            let errno = *r.pick(&[24, 23, 103, 104, 12, 105, 4, 71]);
            // an error of one pending connection (or an interruption) is reported once,
            // an exhausted resource until it is available again
            let once = r.chance(50) || [103, 104, 4, 71].contains(&errno);
            let dur = if once { 0 } else { r.range(100, 20_000) };
            plan.accept_faults.push(AcceptFault { port, at: r.below(end.min(100_000)), dur, errno });
        }
    }
    plan.stale_traces = plan.pcapng && r.chance(20);
    if plan.pcapng && r.chance(p.fs) {
        if r.chance(60) {
            plan.fs_short_percent = *r.pick(&[5, 30, 80]);
        }
        let nf = (plan.hosts.len() as u64).max(1);
        for _ in 0..r.below(4) {
            let kind = match r.below(4) {
                0 => FsKind::Short { n: r.below(8) as usize },
                1 => FsKind::Eintr,
                _ => FsKind::Err { errno: *r.pick(&[28, 5, 122, 27]), count: r.below(3) },
            };
            let call = if r.chance(25) { 0 } else { r.range(1, 200) };
            let kind = if call == 0 { FsKind::Err { errno: *r.pick(&[13, 2, 24, 28]), count: 1 } } else { kind };
            plan.fs_faults.push(FsFault { file: r.below(nf) as usize, call, kind });
        }
    }
    if rel.slow > 1 && !crowd {
        end = slow_motion(&mut r, &mut plan, end, rel.slow);
    }
    plan.settle_at = end + 5_000;
    let acc = !plan.accept_faults.is_empty();
    let probe_at = plan.settle_at + if acc { 30_000 } else { 1_000 };
    // ---- after the faults: a new host and a new state query must be served
    plan.hosts.push(HostPlan {
        connect_at: probe_at,
        cap: 65536,
        latency: 10,
        seg: Seg::Whole,
        steps: vec![
            step(probe_at, false, cmd(0, 0, &[0])),
            step(probe_at, true, cmd(0, 2, &[])),
            step(probe_at, true, cmd(1, 5, &[])),
        ],
        rst_discard: false,
        role: PROBE.into(),
    });
    if bin == Bin::Http {
        plan.http.push(HttpPlan {
            cap: 65536,
            latency: 10,
            seg: Seg::Whole,
            steps: vec![get(probe_at + 40_000, "/get-state")],
            stall: None,
            pipeline: false,
            remote: false,
        });
    }
    plan.end_at = probe_at + 100_000 + if acc { 1_300_000 } else { 0 };
    plan
}

/// Stretch the plan: pauses, idle times, stalls and intervals of seconds to
/// hours instead of milliseconds.  Some hosts also send slowly.
fn slow_motion(r: &mut Rng, plan: &mut Plan, end: u64, k: u64) -> u64 {
    let mut end = end * k;
    for h in &mut plan.hosts {
        h.connect_at *= k;
        let mut bytes = 0;
        for s in &mut h.steps {
            s.at *= k;
            bytes += match &s.act {
                Act::Send { hex, .. } | Act::Raw { hex } => hex.len() as u64 / 2,
                _ => 0,
            };
        }
        if let Seg::Random { max, gap, .. } = &mut h.seg {
            if r.chance(60) {
                *max = (*max).max(r.range(20, 255) as usize);
                // at most some minutes in all
                let budget = (2 * end).max(60_000_000).min(600_000_000);
                *gap = r.range(50_000, 8_000_000).min(budget * *max as u64 / (bytes + 1));
                end += (bytes / *max as u64 + h.steps.len() as u64) * *gap;
            }
        }
    }
    for c in &mut plan.http {
        for s in &mut c.steps {
            s.at *= k;
        }
        c.stall = c.stall.map(|(a, b)| (a * k, b * k));
    }
    for a in &mut plan.api {
        for s in a {
            s.at *= k;
        }
    }
    for a in &mut plan.accept_faults {
        a.at *= k;
    }
    end
}

fn pick_w(r: &mut Rng, w: &[u64]) -> usize {
    let t: u64 = w.iter().sum();
    let mut x = r.below(t.max(1));
    for (i, v) in w.iter().enumerate() {
        if x < *v {
            return i;
        }
        x -= v;
    }
    0
}

pub fn step(at: u64, sync: bool, b: Vec<u8>) -> Step {
    Step { at, sync, act: Act::Send { hex: hex(&b), frag: vec![] }, note: String::new() }
}

fn last_at(h: &HostPlan) -> u64 {
    h.steps.last().map_or(h.connect_at, |s| s.at)
}

struct B<'a> {
    r: &'a mut Rng,
    p: &'a Prof,
    dev: Device,
    t: u64,
    steps: Vec<Step>,
    stalled: bool,
}

impl B<'_> {
    fn tick(&mut self) {
        let d = if self.r.chance(self.p.hurry) {
            if self.r.chance(50) { 0 } else { self.r.below(1500) }
        } else {
            match self.r.below(4) {
                0 => self.r.below(3_000),
                1 | 2 => self.r.below(20_000),
                _ => self.r.below(80_000),
            }
        };
        self.t += d;
    }
    fn put(&mut self, msg: Vec<u8>) {
        self.tick();
        let sync = self.r.chance(self.p.sync) && !self.stalled;
        let len = msg.len() - 4.min(msg.len());
        let mut frag = vec![];
        if msg[0] >> 5 == 1 && self.r.chance(self.p.frag) && self.r.chance(10) {
            // the last fragment (or two) is empty
            let mut left = len;
            while left > 0 {
                let f = self.r.range(1, (left as u64).min(255)) as usize;
                frag.push(f);
                left -= f;
            }
            frag.extend([0, 0]);
            if self.r.chance(50) && len > 0 {
                frag.pop();
            }
        } else if msg[0] >> 5 == 1 && self.r.chance(self.p.frag) && len > 0 {
            let mut left = len;
            while left > 1 && frag.len() < 6 {
                let lo = if self.r.chance(10) { 0 } else { 1 };
                let f = self.r.range(lo, (left as u64).min(255)) as usize;
                frag.push(f);
                left -= f;
            }
        }
        let payload = &msg[4.min(msg.len())..];
        if msg[0] >> 5 == 1 {
            self.dev.command(msg[0] & 15, msg[1] & 0x3f, payload);
        } else if msg[0] >> 5 == 0 {
            self.dev.data(msg[0] & 15, payload);
        }
        let act = if msg[0] >> 5 == 0 && (len > 1024 || msg[0] & 0x10 != 0) {
            Act::Raw { hex: hex(&msg) }
        } else {
            Act::Send { hex: hex(&msg), frag }
        };
        self.steps.push(Step { at: self.t, sync, act, note: String::new() });
    }
    fn c(&mut self, gid: u8, oid: u8, p: &[u8]) {
        // control message of any length: the header length byte is fixed up by
        // the client's fragmentation
        let mut m = vec![0x20 | gid, oid, 0, p.len() as u8];
        m.extend_from_slice(p);
        self.put(m);
    }
}

/// One controller and about 256 controlees that it measures, several with the
/// same address.
fn crowd_hosts(r: &mut Rng, plan: &mut Plan) -> u64 {
    plan.policy.preempt = 0;
    plan.pcapng = false;
    let total = if r.chance(30) { r.range(20, 240) } else { r.range(252, 262) };
    let addrs = r.range(1, 100);
    let addr = |k: u64| vec![0x10, (k % addrs) as u8];
    let list: Vec<u8> = (0..addrs).flat_map(addr).collect();
    let interval = *r.pick(&[10u32, 20, 50]);
    let start = 60_000;
    let mut last = start;
    for k in 0..=total {
        let me = k == total;
        let at = 100 + k * r.below(120);
        let t = vec![
            (0x00, vec![me as u8]),
            (0x01, vec![2]),
            (0x03, vec![1]),
            (0x06, if me { vec![0x20, 0] } else { addr(k) }),
            (0x05, vec![if me { addrs as u8 } else { 1 }]),
            (0x07, if me { list.clone() } else { vec![0x20, 0] }),
            (0x11, vec![me as u8]),
            (0x22, vec![1]),
            (0x09, (if me { interval } else { 600_000 }).to_le_bytes().to_vec()),
        ];
        let mut steps = vec![
            step(at, false, cmd(0, 0, &[0])),
            step(at, true, cmd(1, 0, &[1, 0, 0, 0, 0])),
            step(at, true, cmd(1, 3, &tlv_cmd(1, &t))),
            step(if me { start } else { at }, true, cmd(2, 0, &[1, 0, 0, 0])),
        ];
        if !me && r.chance(3) {
            // some leave while ranging goes on
            let t = start + r.below(200_000);
            last = last.max(t);
            steps.push(step(t, true, cmd(2, 1, &[1, 0, 0, 0])));
        }
        plan.hosts.push(HostPlan { connect_at: at, cap: 65536, latency: 10, seg: Seg::Whole, steps, rst_discard: false, role: String::new() });
    }
    last + 4 * interval as u64 * 1000
}

fn tlv_cmd(sid: u32, t: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut v = sid.to_le_bytes().to_vec();
    v.push(t.len() as u8);
    for (i, b) in t {
        v.push(*i);
        v.push(b.len() as u8);
        v.extend(b);
    }
    v
}

fn peers(r: &mut Rng, rel: &Rel, me: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for i in 0..rel.n {
        if i != me && r.chance(88) {
            v.push(rel.mac(i));
        }
    }
    for a in &rel.anchors {
        if a.len() == if rel.ext { 8 } else { 2 } && r.chance(75) {
            v.push(a.clone());
        }
    }
    if r.chance(10) {
        let x = r.below(250) as u8;
        v.push(if rel.ext { vec![0xee, x, 1, 1, 1, 1, 1, 1] } else { vec![0xee, x] });
    }
    if r.chance(4) && !v.is_empty() {
        let d = v[0].clone();
        v.push(d);
    }
    v
}

fn duration(r: &mut Rng, rel: &Rel) -> u32 {
    let k = rel.slow as u32;
    match r.below(40) {
        0 => if k > 1000 { 4 * k } else { 0 },
        1 => if k > 1 { 4 * k } else { 1 },
        2 => 1000 * k,
        // beyond 16 and 24 bits: no report within the run
        3 | 4 => *r.pick(&[65_536 + 10, 65_536 + 50, 0x0100_0000, 0x0100_0032, 0x8000_0000, u32::MAX]),
        _ => k * *r.pick(&[4, 7, 10, 15, 20, 33, 50, 50, 100, 200]),
    }
}

fn full_config(r: &mut Rng, p: &Prof, rel: &Rel, me: usize, k: usize) -> Vec<(u8, Vec<u8>)> {
    let me_ = me.min(rel.ctrl.len() - 1);
    let (c, i) = (rel.ctrl[me_][k], rel.init[me_][k]);
    let mut t: Vec<(u8, Vec<u8>)> = vec![];
    if rel.ext {
        t.push((0x26, vec![2]));
    }
    t.push((0x00, vec![c as u8]));
    t.push((0x01, vec![*r.pick(&[1, 2, 2, 3, 4])]));
    t.push((0x03, vec![r.chance(p.one2many) as u8]));
    t.push((0x06, rel.mac(me)));
    let d = peers(r, rel, me);
    t.push((0x05, vec![d.len() as u8]));
    t.push((0x07, d.concat()));
    if rel.ext && !c && r.chance(15) {
        // a short address of its own next to a list of extended ones
        t.push((0x26, vec![0]));
        t.push((0x06, rel.mac(me)[..2].to_vec()));
    }
    t.push((0x11, vec![i as u8]));
    t.push((0x22, vec![1]));
    t.push((0x09, duration(r, rel).to_le_bytes().to_vec()));
    if r.chance(p.ntf_off) {
        t.push((0x0e, vec![0]));
    }
    if r.chance(20) {
        t.push((0x2f, vec![*r.pick(&[0, 1, 2, 3, 10])]));
    }
    if r.chance(10) {
        t.push((0x02, vec![*r.pick(&[0, 4])]));
    }
    if r.chance(15) {
        let extra = rand_tlv(r, rel, me, true);
        if ![0x26, 0x05, 0x07, 0x06].contains(&extra.0) {
            t.push(extra);
        }
    }
    t
}

fn rand_tlv(r: &mut Rng, rel: &Rel, me: usize, valid: bool) -> (u8, Vec<u8>) {
    let id = *r.pick(SUPPORTED);
    if !valid && r.chance(30) {
        // identifiers this UWBS does not support, or wrong values and lengths
        return match r.below(3) {
            0 => (*r.pick(&[0x3d, 0x49, 0x60, 0x9f, 0xa0, 0xc5, 0xe3, 0xff]), vec![0; r.below(4) as usize]),
            1 => (id, vec![0xfe; 1]),
            _ => (id, vec![1; r.below(12) as usize]),
        };
    }
    let v = match id {
        0x06 => rel.mac(me),
        0x07 => peers(r, rel, me).concat(),
        0x09 => duration(r, rel).to_le_bytes().to_vec(),
        _ => match enum_values(id) {
            Some(e) => vec![*r.pick(e)],
            None => {
                let l = value_lens(id);
                let n = *r.pick(&l);
                (0..n).map(|_| r.below(256) as u8).collect()
            }
        },
    };
    // own addresses and small controlee counts keep later lists plausible
    if id == 0x05 {
        return (id, vec![r.below(9) as u8]);
    }
    (id, v)
}

fn sid(b: &mut B, rel: &Rel) -> (u32, usize) {
    if b.r.chance(4) {
        return (0x7777, 0);
    }
    let k = b.r.below(rel.sids.len() as u64) as usize;
    (rel.sids[k], k)
}

fn multicast_body(b: &mut B, rel: &Rel, me: usize, action: u8, sid: u32) -> Vec<u8> {
    let n = match b.r.below(40) {
        0..=3 => 0,
        4..=6 => b.r.range(4, 10),
        7 => b.r.range(11, 45),
        _ => b.r.range(1, 3),
    };
    let dst = b.dev.sessions.get(&sid).map(|s| s.cfg.dst.clone()).unwrap_or_default();
    let mut v = sid.to_le_bytes().to_vec();
    v.push(action);
    v.push(n as u8);
    for _ in 0..n {
        let inlist: Vec<&Vec<u8>> = dst.iter().filter(|d| d.len() == 2).collect();
        let a: Vec<u8> = if !inlist.is_empty() && b.r.chance(if action == 1 { 75 } else { 20 }) {
            inlist[b.r.below(inlist.len() as u64) as usize].to_vec()
        } else if b.r.chance(if rel.ext { 65 } else { 30 }) && rel.anchors.iter().any(|a| a.len() == 2) {
            let l: Vec<&Vec<u8>> = rel.anchors.iter().filter(|a| a.len() == 2).collect();
            b.r.pick(&l).to_vec()
        } else if b.r.chance(60) && rel.n > 1 {
            let mut i = b.r.below(rel.n as u64) as usize;
            if i == me {
                i = (i + 1) % rel.n;
            }
            let m = rel.mac(i);
            m[..2].to_vec()
        } else {
            vec![0xcc, b.r.below(if n > 10 { 50 } else { 12 }) as u8]
        };
        v.extend(a);
        v.extend(b.r.u64().to_le_bytes()[..4].iter());
        match action {
            2 => v.extend([7; 16]),
            3 => v.extend([9; 32]),
            _ => (),
        }
    }
    v
}

/// A configuration query whose response has (almost) a multiple of 255 bytes.
fn exact_get(b: &mut B, sid: u32) -> Vec<u8> {
    let target = b.r.range(1, 3) as usize * 255 + b.r.below(3) as usize - 1;
    let mut sizes: Vec<(u8, usize)> = vec![];
    if let Some(s) = b.dev.sessions.get(&sid) {
        for id in SUPPORTED {
            if let Some(v) = s.cfg.get(*id) {
                sizes.push((*id, 2 + v.len()));
            }
        }
    }
    let mut ids = vec![];
    let mut n = 2;
    while n < target && ids.len() < 250 && !sizes.is_empty() {
        let left = target - n;
        // 3 and 4 bytes are always available and make every sum from 6 on
        let fit: Vec<&(u8, usize)> =
            sizes
            .iter()
            .filter(|x| x.1 <= left && (matches!(left - x.1, 0 | 3 | 4) || left - x.1 >= 6))
            .collect();
        if fit.is_empty() {
            break;
        }
        let x = **b.r.pick(&fit);
        ids.push(x.0);
        n += x.1;
    }
    let mut v = sid.to_le_bytes().to_vec();
    v.push(ids.len() as u8);
    v.extend(ids);
    v
}

fn one(b: &mut B, rel: &mut Rel, me: usize) {
    let w = b.p.w;
    let k = pick_w(b.r, &w);
    let (s, ki) = sid(b, rel);
    let le = s.to_le_bytes();
    match k {
        INITC => {
            let typ = if rel.typ1 { 1 } else { *b.r.pick(&[0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 0xa0, 0xd0]) };
            let mut v = le.to_vec();
            v.push(typ);
            b.c(1, 0, &v);
        }
        DEINITC => b.c(1, 1, &le),
        SETUP => {
            if !b.dev.sessions.contains_key(&s) {
                let mut v = le.to_vec();
                v.push(rel.typ1 as u8);
                b.c(1, 0, &v);
            }
            let t = full_config(b.r, b.p, rel, me, ki);
            b.c(1, 3, &tlv_cmd(s, &t));
            if b.r.chance(70) {
                b.c(2, 0, &le);
            }
        }
        SETCFG => {
            let n = b.r.range(1, 4);
            let valid = b.r.chance(65);
            let mut t = vec![];
            for _ in 0..n {
                let x = if b.r.chance(12) {
                    (0x0e, vec![*b.r.pick(&[0, 1, 1])])
                } else {
                    rand_tlv(b.r, rel, me, valid)
                };
                t.push(x);
            }
            if b.r.chance(30) {
                let mut f = full_config(b.r, b.p, rel, me, ki);
                let d = b.r.below(f.len() as u64 + 4) as usize;
                if d < f.len() {
                    f.remove(d);
                }
                f.extend(t);
                t = f;
            }
            if b.r.chance(7) {
                // several packets long: everything is repeated, the last value counts
                let n = b.r.range(60, 255) as usize;
                while t.len() < n {
                    let again = b.r.below(t.len() as u64) as usize;
                    let x = if b.r.chance(70) { t[again].clone() } else { rand_tlv(b.r, rel, me, true) };
                    t.push(x);
                }
            }
            b.c(1, 3, &tlv_cmd(s, &t));
        }
        GETCFG if b.r.chance(12) => {
            // a response that just fits its packets
            let v = exact_get(b, s);
            b.c(1, 4, &v);
        }
        GETCFG => {
            let n = match b.r.below(6) {
                0 => 0,
                1 => 40,
                _ => b.r.range(1, 6),
            };
            let mut ids = vec![];
            for _ in 0..n {
                ids.push(match b.r.below(12) {
                    0 if n < 10 => *b.r.pick(&[0x3d, 0x60, 0xe3]),
                    1..=4 => *b.r.pick(&[0x05, 0x07, 0x09, 0x06, 0x0e, 0x11]),
                    _ => *b.r.pick(SUPPORTED),
                });
            }
            let mut v = le.to_vec();
            v.push(ids.len() as u8);
            v.extend(ids);
            b.c(1, 4, &v);
        }
        COUNT => b.c(1, 5, &[]),
        STATE => b.c(1, 6, &le),
        MADD | MDEL => {
            let action = if k == MDEL { 1 } else { *b.r.pick(&[0, 0, 0, 2, 3]) };
            let mut v = multicast_body(b, rel, me, action, s);
            if b.r.chance(4) {
                v.pop();
            }
            b.c(1, 7, &v);
            if b.r.chance(35) {
                let mut v = le.to_vec();
                v.extend([2, 0x05, 0x07]);
                b.c(1, 4, &v);
            }
        }
        START => b.c(2, 0, &le),
        STOP => b.c(2, 1, &le),
        RCOUNT => b.c(2, 3, &le),
        DATA => {
            let n = match b.r.below(20) {
                0 => 0,
                1..=10 => b.r.range(1, 40),
                11..=13 => b.r.range(41, 1008),
                14 => *b.r.pick(&[1006, 1007, 1008, 2030, 2031, 2032, 4079]),
                15..=17 => b.r.range(1009, 5000),
                18 => 20_000,
                _ => *b.r.pick(&[40_000, 65_519]),
            } as usize;
            let id = rel.counter;
            rel.counter += 1;
            let app: Vec<u8> =
                (0..n).map(|i| if i < 4 { id.to_le_bytes()[i] } else { (i as u8).wrapping_mul(31) ^ id as u8 }).collect();
            let seq = b.r.below(65536) as u16;
            let mut m = data_snd(s, 0x1122, seq, &app);
            if b.r.chance(15) {
                // sent as one part of a longer transfer, as the console does
                m[0] |= 0x10;
            }
            b.put(m);
        }
        RESET => b.c(0, 0, &[0]),
        INFO => b.c(0, 2, &[]),
        CAPS => b.c(0, 3, &[]),
        DSET => {
            let n = b.r.range(0, 3);
            let mut v = vec![n as u8];
            for _ in 0..n {
                let l = b.r.below(3);
                v.push(*b.r.pick(&[0, 1, 1, 1, 4, 6, 9, 0xa0, 0xd0, 0xd1, 0xff]));
                v.push(l as u8);
                v.extend((0..l).map(|_| b.r.below(2) as u8));
            }
            b.c(0, 4, &v);
            if b.r.chance(60) {
                b.c(0, 5, &[1, 1]);
            }
        }
        DGET => {
            let n = b.r.range(0, 3);
            let mut v = vec![n as u8];
            v.extend((0..n).map(|_| *b.r.pick(&[0, 0, 1, 1, 1, 0x33])));
            b.c(0, 5, &v);
        }
        ANDROID => {
            if b.r.chance(50) {
                b.c(0xc, 0, &[])
            } else {
                b.c(0xc, 1, b"FR")
            }
        }
        UNKNOWN => {
            let n = b.r.below(6) as usize;
            let v = vec![0x41; n];
            match b.r.below(3) {
                0 => {
                    let g = *b.r.pick(&[3, 4, 7, 9, 0xb, 0xd, 0xf]);
                    let o = b.r.below(64) as u8;
                    b.c(g, o, &v)
                }
                1 => {
                    let (g, o) = *b.r.pick(&[(0, 1), (0, 6), (0, 7), (0, 0x3f), (1, 2), (1, 8), (1, 9), (1, 0x20), (1, 0x3f)]);
                    b.c(g, o, &v)
                }
                _ => {
                    let (g, o) = *b.r.pick(&[(2, 2), (2, 4), (2, 5), (2, 0x3e), (0xc, 2), (0xc, 3), (0xc, 0x30)]);
                    b.c(g, o, &v)
                }
            }
        }
        MALFORMED => {
            let (g, o) = *b.r.pick(&[
                (0, 0), (0, 2), (0, 4), (0, 5), (1, 0), (1, 1), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7), (2, 0), (2, 1),
                (2, 3), (0xc, 0), (0xc, 1),
            ]);
            let n = b.r.below(12) as usize;
            let v: Vec<u8> = (0..n).map(|_| *b.r.pick(&[0, 1, 2, 0xff, 0x10])).collect();
            b.c(g, o, &v);
        }
        SILENT => {
            let m = match b.r.below(3) {
                0 => msg(2, 0, 0, &[0]),
                1 => msg(3, 0, 1, &[1]),
                _ => msg(3, 2, 0, &[1, 2, 3]),
            };
            b.put(m);
        }
        BADDATA => {
            let mut m = data_snd(s, 1, 2, &[1, 2, 3]);
            match b.r.below(5) {
                0 => m[0] = *b.r.pick(&[0x00, 0x03, 0x04, 0x0f]),
                1 => m.truncate(m.len() - 1),
                2 => m.extend([1, 2]),
                3 => m.truncate(6),
                _ => {
                    // a received-data message sent by the host
                    let mut q = le.to_vec();
                    q.extend([0; 11]);
                    q.extend([1, 0, 9]);
                    let mut x = vec![2, 0, q.len() as u8, 0];
                    x.extend(q);
                    m = x;
                }
            }
            let n = (m.len() - 4) as u16;
            m[2..4].copy_from_slice(&n.to_le_bytes());
            b.put(m);
        }
        _ => {
            let d = match b.r.below(4) {
                0 => 5_000,
                1 | 2 => 60_000,
                _ => 250_000,
            };
            b.t += b.r.below(d);
        }
    }
}

fn seg(r: &mut Rng, percent: u64) -> Seg {
    if !r.chance(percent) {
        return Seg::Whole;
    }
    match r.below(4) {
        0 => Seg::Fixed { size: r.range(1, 7) as usize, gap: *r.pick(&[0, 0, 3, 40]) },
        1 | 2 => Seg::Random { max: *r.pick(&[1, 3, 9, 60]), gap: *r.pick(&[0, 5, 200]), seed: 0 },
        _ => Seg::Coalesce,
    }
}

fn good_host(r: &mut Rng, p: &Prof, rel: &mut Rel, me: usize, bin: &Bin, at: u64) -> HostPlan {
    let start = at + r.below(*r.clone().pick(&[1, 3_000, 40_000]));
    let steps = r.range(p.steps.0, p.steps.1);
    let stall = r.chance(p.stall);
    let setup = r.chance(p.setup);
    let closes = r.chance(p.close);
    let prereset = r.chance(p.prereset);
    let sg = seg(r, p.seg);
    let latency = *r.pick(&[0, 5, 50, 700]);
    let rst_discard = r.chance(50);
    let cap = if stall { r.range(64, 3000) as usize } else { *r.pick(&[65536, 65536, 65536, 262144]) };
    let _ = bin;
    let mut b = B { r, p, dev: Device::new(), t: start, steps: vec![], stalled: false };
    if prereset {
        for _ in 0..b.r.range(1, 4) {
            one(&mut b, rel, me);
        }
    }
    b.c(0, 0, &[0]);
    if setup {
        let n = b.r.range(1, rel.sids.len() as u64) as usize;
        for k in 0..n {
            let s = rel.sids[k];
            let mut v = s.to_le_bytes().to_vec();
            v.push(rel.typ1 as u8);
            b.c(1, 0, &v);
            let t = full_config(b.r, b.p, rel, me, k);
            b.c(1, 3, &tlv_cmd(s, &t));
            if b.r.chance(85) {
                b.c(2, 0, &s.to_le_bytes());
            }
        }
    }
    if b.p.w[INITC] >= 5 && b.r.chance(3) {
        // the session limit
        let n = b.r.range(250, 262) as u32;
        let h = b.p.hurry;
        let t = b.t;
        for i in 0..n {
            let mut v = (0x1000 + i).to_le_bytes().to_vec();
            v.push(0);
            b.c(1, 0, &v);
            b.t = t + i as u64 * 20;
        }
        let _ = h;
        b.c(1, 5, &[]);
    }
    let stall_at = b.r.below(steps.max(1));
    let mut since = 0;
    for i in 0..steps {
        if stall && i == stall_at {
            b.tick();
            b.stalled = true;
            since = b.t;
            b.steps.push(Step { at: b.t, sync: false, act: Act::Stall, note: String::new() });
        }
        one(&mut b, rel, me);
        if b.stalled && b.r.chance(15) {
            b.stalled = false;
            b.t = b.t.max(since + 2000);
            b.steps.push(Step { at: b.t, sync: false, act: Act::Resume, note: String::new() });
        }
    }
    if b.stalled && !(closes && b.r.chance(50)) {
        b.t += 5_000;
        b.steps.push(Step { at: b.t, sync: false, act: Act::Resume, note: String::new() });
    }
    if closes {
        b.tick();
        if b.r.chance(25) {
            // cut in the middle of a packet
            let s = rel.sids[0];
            let m = match b.r.below(3) {
                0 => {
                    let v = multicast_body(&mut b, rel, me, 1, s);
                    cmd(1, 7, &v)
                }
                1 => data_snd(s, 0x1122, 7, &[0x55; 30]),
                _ => cmd(1, 4, &[1, 0, 0, 0, 3, 1, 2, 3]),
            };
            let n = if b.r.chance(50) { b.r.range(1, m.len() as u64 - 1) as usize } else { m.len() - 1 };
            b.steps.push(Step { at: b.t, sync: false, act: Act::Raw { hex: hex(&m[..n]) }, note: "cut".into() });
        }
        let kind = match b.r.below(5) {
            0 | 1 => CloseKind::Fin,
            2 | 3 => CloseKind::Rst,
            _ => CloseKind::Half,
        };
        b.steps.push(Step { at: b.t, sync: false, act: Act::Close { kind }, note: String::new() });
    }
    HostPlan {
        connect_at: start,
        cap,
        latency,
        seg: sg,
        steps: std::mem::take(&mut b.steps),
        rst_discard,
        role: "good".into(),
    }
}

/// A host that misbehaves without breaking the protocol rules that would end
/// its connection.
fn bad_host(r: &mut Rng, end: u64, slow: u32) -> HostPlan {
    let at = r.below(end.min(60_000));
    let mut steps = vec![];
    let mut t = at;
    let push = |steps: &mut Vec<Step>, at: u64, act: Act| steps.push(Step { at, sync: false, act, note: String::new() });
    let send = |b: Vec<u8>| Act::Send { hex: hex(&b), frag: vec![] };
    let mut cap = 65536;
    match r.below(5) {
        0 => {
            // floods commands without reading
            cap = r.range(32, 2000) as usize;
            push(&mut steps, t, Act::Stall);
            push(&mut steps, t, send(cmd(0, 0, &[0])));
            // now and then more than any queue inside the server holds
            let burst = r.chance(6);
            let n = if burst { r.range(1000, 1600) } else { r.range(20, 300) };
            for _ in 0..n {
                let c = match r.below(3) {
                    0 => cmd(0, 3, &[]),
                    1 => cmd(1, 5, &[]),
                    _ => cmd(0, 2, &[]),
                };
                push(&mut steps, t, send(c));
                t += if burst { r.below(3) } else { r.below(300) };
            }
        }
        1 => {
            // a packet that is never finished
            push(&mut steps, t, send(cmd(0, 0, &[0])));
            let m = cmd(1, 3, &[1, 0, 0, 0, 9, 1, 2, 3, 4, 5, 6]);
            let n = r.range(1, m.len() as u64 - 1) as usize;
            push(&mut steps, t + 100, Act::Raw { hex: hex(&m[..n]) });
        }
        2 => {
            // unknown and malformed commands
            push(&mut steps, t, send(cmd(0, 0, &[0])));
            for _ in 0..r.range(5, 60) {
                let n = r.below(20) as usize;
                let v: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
                let g = r.below(16) as u8;
                let o = r.below(64) as u8;
                if (g, o) != (1, 7) {
                    push(&mut steps, t, send(msg(*r.pick(&[1, 1, 1, 2, 3]), g, o, &v)));
                }
                t += r.below(2000);
            }
        }
        3 => {
            // silent
        }
        _ => {
            // starts a private session, stops reading
            cap = r.range(32, 600) as usize;
            push(&mut steps, t, send(cmd(0, 0, &[0])));
            push(&mut steps, t, send(cmd(1, 0, &[0x99, 0, 0, 0, 0])));
            let tl: Vec<(u8, Vec<u8>)> = vec![
                (0x00, vec![1]), (0x01, vec![2]), (0x03, vec![0]), (0x06, vec![0x77, 0x77]), (0x11, vec![1]),
                (0x22, vec![1]), (0x09, (2 * slow).to_le_bytes().to_vec()),
            ];
            push(&mut steps, t, send(cmd(1, 3, &tlv_cmd(0x99, &tl))));
            push(&mut steps, t, send(cmd(2, 0, &[0x99, 0, 0, 0])));
            push(&mut steps, t + 3000, Act::Stall);
            t += 3000;
        }
    }
    if r.chance(40) {
        t = t.max(end.saturating_sub(r.below(end + 1)));
        let kind = if r.chance(50) { CloseKind::Rst } else { CloseKind::Fin };
        push(&mut steps, t, Act::Close { kind });
    }
    HostPlan { connect_at: at, cap, latency: 20, seg: seg(r, 20), steps, rst_discard: true, role: "bad".into() }
}

/// More commands at once than any queue inside the server holds.
fn flood(r: &mut Rng, at: u64) -> HostPlan {
    let mut steps = vec![step(at.saturating_sub(5_000), false, cmd(0, 0, &[0]))];
    let gap = r.below(2);
    let stall = r.chance(50);
    if stall {
        steps.push(Step { at: at.saturating_sub(2_000), sync: false, act: Act::Stall, note: String::new() });
    }
    for i in 0..r.range(1000, 1500) {
        steps.push(step(at + i * gap / 4, false, if i % 7 == 3 { cmd(0, 2, &[]) } else { cmd(1, 5, &[]) }));
    }
    let t = last_at(&HostPlan { connect_at: at, cap: 0, latency: 0, seg: Seg::Whole, steps: steps.clone(), rst_discard: true, role: String::new() });
    match r.below(3) {
        0 => steps.push(Step { at: t + r.below(3_000), sync: false, act: Act::Close { kind: CloseKind::Rst }, note: String::new() }),
        _ if stall => steps.push(Step { at: t + r.below(5_000), sync: false, act: Act::Resume, note: String::new() }),
        _ => (),
    }
    HostPlan {
        connect_at: at.saturating_sub(6_000),
        cap: *r.pick(&[500, 20_000, 262_144]),
        latency: *r.pick(&[0, 5, 700]),
        seg: Seg::Whole,
        steps,
        rst_discard: r.chance(50),
        role: "bad".into(),
    }
}

/// A host that goes through the identifiers and values of parameters, or
/// through the groups and opcodes of commands, on a session of its own.
fn survey_host(r: &mut Rng, prop: &str) -> HostPlan {
    let at = r.below(20_000);
    let mut t = at;
    let mut steps = vec![];
    let sid = 0x5a5a_0001u32;
    let sync = r.chance(50);
    let gap = *r.pick(&[20, 400]);
    let mut go = |r: &mut Rng, steps: &mut Vec<Step>, m: Vec<u8>| {
        steps.push(step(t, sync, m));
        t += r.below(gap);
    };
    if r.chance(85) {
        go(r, &mut steps, cmd(0, 0, &[0]));
    }
    let mut init = sid.to_le_bytes().to_vec();
    init.push(0);
    go(r, &mut steps, cmd(1, 0, &init));
    let params = prop == "C10" || r.chance(40);
    for _ in 0..r.range(20, 120) {
        if !params || r.chance(6) {
            let n = r.below(9) as usize;
            let mut p: Vec<u8> = (0..n).map(|_| if r.chance(60) { r.below(4) as u8 } else { r.below(256) as u8 }).collect();
            if r.chance(40) {
                p.splice(0..0, sid.to_le_bytes());
            }
            let g = if r.chance(60) { r.below(4) } else { r.below(16) } as u8;
            let o = if r.chance(70) { r.below(13) } else { r.below(64) } as u8;
            go(r, &mut steps, cmd(g, o, &p));
            continue;
        }
        let id = match r.below(8) {
            0 => r.below(256) as u8,
            1 => *r.pick(&[
                0x1c, 0x1e, 0x33, 0x34, 0x36, 0x39, 0x3d, 0x44, 0x49, 0x4b, 0x4d, 0x4e, 0x9f, 0xa0, 0xa7, 0xdf, 0xe0, 0xe1, 0xe2,
                0xe3, 0xe5, 0xff,
            ]),
            _ => *r.pick(SUPPORTED),
        };
        let v: Vec<u8> = if enum_values(id).is_some() {
            let x = if r.chance(95) { r.below(16) as u8 } else { r.below(256) as u8 };
            let n = if r.chance(95) { 1 } else { r.below(4) as usize };
            vec![x; n]
        } else {
            let l = value_lens(id);
            let n = match r.below(8) {
                0 => r.below(40) as usize,
                1 => *r.pick(&l) + 1,
                2 => r.pick(&l).saturating_sub(1),
                _ => *r.pick(&l),
            };
            (0..n.min(255)).map(|_| r.below(256) as u8).collect()
        };
        if v.len() <= 240 {
            go(r, &mut steps, cmd(1, 3, &tlv_cmd(sid, &[(id, v)])));
        }
        if r.chance(50) {
            let mut p = sid.to_le_bytes().to_vec();
            p.extend([1, id]);
            go(r, &mut steps, cmd(1, 4, &p));
        }
    }
    HostPlan { connect_at: at, cap: 65536, latency: 20, seg: seg(r, 30), steps, rst_discard: true, role: String::new() }
}

/// A host that sends arbitrary bytes.
fn garbage_host(r: &mut Rng, end: u64) -> HostPlan {
    let at = r.below(end.min(60_000));
    let mut t = at;
    let mut steps = vec![];
    if r.chance(60) {
        steps.push(step(t, false, cmd(0, 0, &[0])));
    }
    for _ in 0..r.range(1, 30) {
        let n = r.range(1, 40) as usize;
        let mut v: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
        match r.below(4) {
            0 => (),
            1 => v[0] = 0x20 | (v[0] & 0x1f),
            _ => {
                // well framed, random content
                let g = *r.pick(&[0, 1, 1, 1, 2, 2, 0xc, 5]);
                let o = r.below(10) as u8;
                v = cmd(g, o, &v);
                if r.chance(20) {
                    v[0] &= 0x0f;
                    let l = (v.len() - 4) as u16;
                    v[2..4].copy_from_slice(&l.to_le_bytes());
                }
            }
        }
        steps.push(Step { at: t, sync: false, act: Act::Raw { hex: hex(&v) }, note: String::new() });
        t += r.below(3000);
    }
    if r.chance(50) {
        steps.push(Step { at: t, sync: false, act: Act::Close { kind: CloseKind::Rst }, note: String::new() });
    }
    HostPlan { connect_at: at, cap: 65536, latency: 20, seg: seg(r, 40), steps, rst_discard: true, role: "garbage".into() }
}

fn mac_text(r: &mut Rng, m: &[u8]) -> String {
    let h: Vec<String> = m.iter().map(|b| format!("{b:02X}")).collect();
    match r.below(4) {
        0 => h.concat().to_lowercase(),
        1 => h.join("%3A"),
        _ => h.join(":"),
    }
}

fn api_actor(r: &mut Rng, prop: &str, rel: &Rel, end: u64) -> Vec<ApiStep> {
    let n = if prop == "C12" { r.range(2, 14) } else { r.range(1, 8) };
    let mut t = r.below(3000);
    let gap = *r.pick(&[1, 1_000, end / (n + 1)]);
    let mut v = vec![];
    for i in 0..n {
        let kick = i > 0 && r.chance(if prop == "C08" { 30 } else { 5 });
        if kick || rel.anchors.is_empty() {
            v.push(ApiStep { at: t, op: ApiOp::Disconnect { nth: r.below(6) } });
            t += r.below(gap + 1);
            continue;
        }
        let m = rel.anchors[r.below(rel.anchors.len() as u64) as usize].clone();
        let mac = mac_text(r, &m).replace("%3A", ":");
        let op = match r.below(20) {
            0 => ApiOp::CreateAnchorDrop { mac },
            1 => ApiOp::DestroyAnchorDrop { mac },
            x if i < 2 && x < 18 => ApiOp::CreateAnchor { mac },
            x if x < 12 => ApiOp::CreateAnchor { mac },
            _ => ApiOp::DestroyAnchor { mac },
        };
        v.push(ApiStep { at: t, op });
        t += r.below(gap + 1);
    }
    v
}

pub fn get(at: u64, path: &str) -> HttpStep {
    HttpStep { at, method: "GET".into(), path: path.into(), body: String::new(), chunked: false, abort: HttpAbort::No }
}

fn rand_pos(r: &mut Rng) -> String {
    let big = r.chance(10);
    let corner = r.chance(8);
    let mut c = || {
        if corner {
            *r.pick(&[-32768, -32768, 32767, 32767, 0])
        } else if big {
            r.range(0, 65535) as i64 - 32768
        } else {
            r.range(0, 1000) as i64 - 500
        }
    };
    let (x, y, z) = (c(), c(), c());
    let (yaw, pitch, roll) = if r.chance(40) {
        (0, 0, 0)
    } else {
        (r.range(0, 358) as i64 - 179, r.range(0, 160) as i64 - 80, r.range(0, 358) as i64 - 179)
    };
    let pad = if r.chance(12) { " ".repeat(r.range(50, 9000) as usize) } else { String::new() };
    format!("{pad}{{\"x\":{x},\"y\":{y},\"z\":{z},\"yaw\":{yaw},\"pitch\":{pitch},\"roll\":{roll}}}")
}

/// Pages, unknown paths, and requests that have to be refused.
fn odd_request(r: &mut Rng, dev: &[u8], anchor: &[u8]) -> (String, String) {
    let pages = [
        "/", "/openapi", "/openapi.yaml", "/src/components/Map.js", "/src/components/DeviceInfo.js",
        "/src/components/Orientation.js", "/?x=1",
    ];
    let nowhere = [
        "/nowhere", "/get-state/", "/get-state/x", "/src/components/None.js", "/src/", "/openapi/", "/openapi.yml",
        "/create-anchor", "/static/index.html", "/index.html", "/events/x", "/src/components/../../Cargo.toml",
    ];
    let m = if r.chance(50) { dev } else { anchor };
    let text = mac_text(r, m);
    let op = *r.pick(&["set-position", "create-anchor", "init-uci-device"]);
    let none = String::new();
    match r.below(12) {
        0..=3 => (r.pick(&pages).to_string(), none),
        4 => (r.pick(&nowhere).to_string(), none),
        5 => {
            let op = *r.pick(&["set-position", "create-anchor", "init-uci-device", "destroy-anchor"]);
            let path = match r.below(2) {
                0 => format!("/{op}/{text}/{}", r.pick(&["", "x", "00:01"])),
                _ => format!("/{op}"),
            };
            (path, rand_pos(r))
        }
        6 | 7 => {
            let op = *r.pick(&["set-position", "create-anchor", "init-uci-device", "destroy-anchor"]);
            let bad = ["zz:01", "0", "00:0", "00:01:02", "000102030405", "00:01:02:03:04:05:06:07:08", "0x01", "+1:02", "00.01", "0x0001", "00:0g", "00_01", "000102030405060g", ""];
            (format!("/{op}/{}", r.pick(&bad)), if op == "destroy-anchor" { none } else { rand_pos(r) })
        }
        8..=10 => {
            let good = rand_pos(r);
            let field = *r.pick(&["x", "y", "z", "yaw", "pitch", "roll"]);
            let to = |v: &str| {
                let j: serde_json::Value = serde_json::from_str(&good).unwrap();
                good.trim().replace(&format!("\"{field}\":{}", j[field]), v)
            };
            let body = match r.below(10) {
                0 => good.trim()[..r.range(1, good.trim().len() as u64 - 1) as usize].to_string(),
                1 => to(&format!("\"{field}\":{}", r.pick(&["32768", "-32769", "99999999999", "1e9"]))),
                2 => to(&format!("\"{field}\":{}", r.pick(&["1.5", "\"1\"", "null", "true", "[1]", "{}"]))),
                3 => to(&format!("\"{}q\":1", field)),
                4 => format!("{good}{}", r.pick(&["x", "{}", "}", ",", "0"])),
                5 => "{}".into(),
                6 => r.pick(&["nope", "[]", "1", "null", "\"\"", "{\"x\":1}", "{", "[1,2"]).to_string(),
                7 => to(&format!("\"pitch\":{}", r.pick(&["128", "-129"]))),
                8 => format!("{}{}", " ".repeat(r.range(1, 9000) as usize), &good.trim()[..r.range(1, 10) as usize]),
                _ => "x".repeat(r.range(1, 5000) as usize),
            };
            (format!("/{op}/{text}"), body)
        }
        _ => (format!("/{}/{text}", r.pick(&["set-position", "init-uci-device", "create-anchor"])), none),
    }
}

fn http_clients(r: &mut Rng, prop: &str, p: &Prof, rel: &Rel, plan: &mut Plan, end: &mut u64) {
    let observer = r.chance(88);
    if observer {
        plan.http.push(HttpPlan {
            cap: 1 << 20,
            latency: 0,
            seg: Seg::Whole,
            steps: vec![get(0, "/events")],
            stall: None,
            pipeline: false,
            remote: false,
        });
        // nobody connects before the subscription stands
        for h in &mut plan.hosts {
            h.connect_at += 1000;
            for s in &mut h.steps {
                s.at += 1000;
            }
        }
        *end += 1000;
    } else {
        plan.http.push(HttpPlan { cap: 65536, latency: 0, seg: Seg::Whole, steps: vec![get(50, "/get-state")], stall: None, pipeline: false, remote: false });
    }
    if !r.chance(p.http_ops) {
        return;
    }
    // a crowd of anchors
    if rel.anchors.len() > 4 || r.chance(if prop == "C13" { 6 } else { 1 }) {
        let mut all = rel.anchors.clone();
        if all.is_empty() || r.chance(50) {
            all.extend((0..r.range(10, 45)).map(|k| vec![0xc0, k as u8]));
        }
        let mut steps: Vec<HttpStep> = vec![];
        let mut t = 300;
        for m in &all {
            let path = format!("/create-anchor/{}", mac_text(r, m));
            steps.push(HttpStep { at: t, method: "POST".into(), path, body: rand_pos(r), chunked: false, abort: HttpAbort::No });
            t += 10;
        }
        steps.push(get(t + 2000, "/get-state"));
        let path = format!("/set-position/{}", mac_text(r, &all[0]));
        steps.push(HttpStep { at: t + 2500, method: "POST".into(), path, body: rand_pos(r), chunked: false, abort: HttpAbort::No });
        steps.push(get(*end, "/get-state"));
        plan.http.push(HttpPlan { cap: 65536, latency: 0, seg: Seg::Whole, steps, stall: None, pipeline: r.chance(50), remote: false });
    }
    // all clients at the same time
    let burst = r.chance(if ["C12", "C13"].contains(&prop) { 35 } else { 15 }).then(|| 1000 + r.below(*end));
    // and when a host leaves
    let leave: Vec<u64> = plan
        .hosts
        .iter()
        .flat_map(|h| h.steps.iter().filter(|s| matches!(s.act, Act::Close { .. })).map(|s| s.at + h.latency))
        .collect();
    let at_leave = burst.is_some() && !leave.is_empty() && r.chance(50);
    let burst = if at_leave { Some(*r.pick(&leave)) } else { burst };
    let dense = *r.pick(&[false, true]);
    let n = r.range(1, if ["C12", "C13", "C20"].contains(&prop) { 4 } else { 2 });
    for _ in 0..n {
        let mut steps = vec![];
        let pipeline = r.chance(25);
        let odd = r.chance(if prop == "C20" { 80 } else { 10 });
        let mut t = burst.unwrap_or(1000 + r.below(4000));
        let gap = if burst.is_some() { 0 } else if dense { *r.pick(&[1, 200, 4000]) } else { *end / 10 + 1 };
        let abort = !pipeline && r.chance(p.http_abort * 3);
        for _ in 0..r.range(1, 12) {
            let dev = vec![0, r.below(plan.hosts.len() as u64 + 2) as u8];
            let anchor = if rel.anchors.is_empty() || r.chance(8) {
                vec![0xbb, r.below(3) as u8]
            } else {
                rel.anchors[r.below(rel.anchors.len() as u64) as usize].clone()
            };
            let any = if r.chance(55) { dev.clone() } else { anchor.clone() };
            let bad_mac = r.chance(3);
            let txt = |r: &mut Rng, m: &[u8]| if bad_mac { "zz:01".to_string() } else { mac_text(r, m) };
            let state = burst.is_some() && r.chance(25);
            let (path, body) = match if state { 15 } else { r.below(16) } {
                0..=3 => {
                    let m = if r.chance(if at_leave { 50 } else { 6 }) { dev.clone() } else { anchor.clone() };
                    (format!("/create-anchor/{}", txt(r, &m)), if r.chance(70) { rand_pos(r) } else { String::new() })
                }
                4..=6 => (format!("/destroy-anchor/{}", txt(r, &anchor)), String::new()),
                7..=11 => (format!("/set-position/{}", txt(r, &any)), rand_pos(r)),
                12 => (format!("/init-uci-device/{}", txt(r, &any)), rand_pos(r)),
                13 if r.chance(50) => match r.below(4) {
                    0 => ("/nowhere".to_string(), String::new()),
                    1 => (format!("/set-position/{}", mac_text(r, &any)), "nope".to_string()),
                    2 => (format!("/create-anchor/{}", mac_text(r, &anchor)), "{\"x\":1,\"y\":99999999}".to_string()),
                    _ => ("/openapi".to_string(), String::new()),
                },
                _ => ("/get-state".to_string(), String::new()),
            };
            let (mut path, body) = if odd && r.chance(60) { odd_request(r, &any, &anchor) } else { (path, body) };
            if r.chance(3) && !path.contains('?') && path != "/events" {
                path.push_str(*r.pick(&["?", "?t=1", "?a=/b&c"]));
            }
            let ab = if abort && r.chance(40) {
                match r.below(3) {
                    0 => HttpAbort::Rst { after: r.below(300) },
                    1 => HttpAbort::Fin { after: r.below(300) },
                    _ => HttpAbort::Partial { bytes: r.range(1, 120) as usize },
                }
            } else {
                HttpAbort::No
            };
            let post = ["set-position", "create-anchor", "destroy-anchor", "init-uci-device"];
            let method = if post.iter().any(|p| path.contains(p)) { "POST" } else { "GET" };
            steps.push(HttpStep { at: t, method: method.into(), path, body, chunked: r.chance(15), abort: ab });
            t += r.below(gap + 1);
        }
        *end = (*end).max(t);
        let (latency, seg) =
            if burst.is_some() { (0, Seg::Whole) } else { (*r.pick(&[0, 5, 100]), seg(r, 25)) };
        let cap = if odd { *r.pick(&[1000, 4000, 65536]) } else { 65536 };
        let stall = (odd && burst.is_none() && r.chance(30)).then(|| {
            let a = steps[0].at + r.below(*end);
            (a, a + r.below(40_000))
        });
        plan.http.push(HttpPlan { cap, latency, seg, steps, stall, pipeline, remote: false });
    }
    // later subscribers
    for _ in 0..r.below(3) {
        let at = 1000 + r.below(*end);
        let mut s = get(at, "/events");
        if r.chance(30) {
            s.abort = HttpAbort::Rst { after: r.below(50_000) };
        }
        let stall = r.chance(15).then(|| (at + 500, at + 500 + r.below(50_000)));
        plan.http.push(HttpPlan {
            cap: if stall.is_some() { 2000 } else { 1 << 20 },
            latency: *r.pick(&[0, 5, 100]),
            seg: Seg::Whole,
            steps: vec![s],
            stall,
            pipeline: false,
            remote: false,
        });
    }
    let mut t = *end;
    if let Some(f) = plan.http.iter().filter_map(|h| h.stall).map(|s| s.1).max() {
        t = t.max(f);
    }
    *end = t;
}
