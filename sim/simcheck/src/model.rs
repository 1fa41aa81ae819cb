//! Executable reference model of one UWBS (device, sessions, configuration)
//! written from the UCI rules.  Used by the oracle to decide every answer and
//! by the generator to steer command sequences.
use crate::codec::{u16le, u32le};
use std::collections::BTreeMap;

pub const INIT: u8 = 0;
pub const DEINIT: u8 = 1;
pub const ACTIVE: u8 = 2;
pub const IDLE: u8 = 3;
pub const READY: u8 = 1;
pub const DEV_ACTIVE: u8 = 2;
pub const DEV_ERROR: u8 = 0xff;

#[derive(Clone, Debug, PartialEq)]
pub enum Rsp {
    /// exact payload
    Exact(Vec<u8>),
    /// any payload starting with a status other than OK
    AnyError,
    /// device-status error notification, or an error response when the
    /// command is not even recognisable
    DevError { or_response: bool },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ann {
    Session { id: u32, state: u8, reason: u8 },
    Device { state: u8 },
    Multicast { id: u32, list: Vec<([u8; 2], u8)> },
}

/// In-band stop requests sent to a controlee.
#[derive(Clone, Debug)]
pub struct StopReq {
    pub addr: Vec<u8>,
    pub session: u32,
    pub attempts: u8,
}

#[derive(Clone, Debug, Default)]
pub struct Answer {
    pub rsp: Option<Rsp>,
    /// status announcements; entries of an inner vector may come in any order
    pub status: Vec<Vec<Ann>>,
    pub multicast: Vec<Ann>,
    pub stops: Vec<StopReq>,
    /// sessions whose state or configuration changed
    pub touched: Vec<u32>,
    /// what kind of command this was, for attributing mismatches
    pub area: &'static str,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub v: BTreeMap<u8, Vec<u8>>,
    pub dst: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Session {
    pub id: u32,
    pub typ: u8,
    pub state: u8,
    pub cfg: Cfg,
    pub count: u32,
    /// incarnation number, distinguishes re-created sessions
    pub inc: u64,
    /// interval in force when the session was started, milliseconds
    pub interval: u32,
}

enum Kind {
    Enum(&'static [u8]),
    Len(&'static [usize]),
    Any,
    Mac,
    Dst,
    InitTime,
    Bad,
}

const CHANNELS: &[u8] = &[5, 6, 8, 9, 10, 12, 13, 14];

fn kind(id: u8) -> Option<Kind> {
    use Kind::*;
    Some(match id {
        0x00 => Enum(&[0, 1]),
        0x01 => Enum(&[1, 2, 3, 4, 5, 6, 7, 8]),
        0x02 => Enum(&[0, 1, 2, 3, 4]),
        0x03 => Enum(&[0, 1]),
        0x04 => Enum(CHANNELS),
        0x05 => Len(&[1]),
        0x06 => Mac,
        0x07 => Dst,
        0x08 => Len(&[2]),
        0x09 | 0x0a => Len(&[4]),
        0x0b => Enum(&[0, 1]),
        0x0c => Len(&[1]),
        0x0d => Enum(&[0, 1, 2, 3]),
        0x0e => Enum(&[0, 1, 2, 3, 4, 5, 6, 7]),
        0x0f | 0x10 => Len(&[2]),
        0x11 => Enum(&[0, 1, 5, 6, 7, 8]),
        0x12 => Enum(&[0, 1, 3]),
        0x13 => Enum(&[0, 1]),
        0x14 | 0x15 => Len(&[1]),
        0x16 => Enum(&[0, 1, 2, 3]),
        0x17 => Enum(&[0, 1]),
        0x18 => Enum(&[0]),
        0x19 => Len(&[1]),
        0x1a => Enum(&[1]),
        0x1b => Len(&[1]),
        0x1d => Len(&[8]),
        0x1f => Enum(&[0, 1, 2]),
        0x20 => Len(&[2]),
        0x21 => Len(&[1]),
        0x22 => Enum(&[0, 1]),
        0x23 => Enum(&[0, 1]),
        0x24 | 0x25 => Len(&[1]),
        0x26 => Enum(&[0, 1, 2]),
        0x27 => Len(&[2]),
        0x28 => Len(&[6]),
        0x29 => Len(&[1]),
        0x2a => Len(&[2]),
        0x2b => InitTime,
        0x2c => Enum(&[0, 1]),
        0x2d | 0x2e | 0x2f => Len(&[1]),
        0x30 => Len(&[4]),
        0x31 => Enum(&[0, 1]),
        0x32 => Len(&[2]),
        0x35 => Enum(&[0, 1, 2]),
        0x3a => Len(&[1]),
        0x3b => Len(&[2]),
        0x3c => Len(&[1]),
        0x45 => Any,
        0x46 => Len(&[16, 32]),
        0x47 => Enum(&[0, 1]),
        0x48 => Len(&[9]),
        0x4c => Len(&[1]),
        // identifiers the protocol defines but this UWBS does not support
        0x3d..=0x44 | 0x49..=0x4b | 0x4d..=0x9f | 0xa0..=0xff => Bad,
        // not identifiers at all
        _ => return None,
    })
}

/// Is this an identifier the protocol knows (supported or not)?
pub fn known_id(id: u8) -> bool {
    kind(id).is_some()
}
pub fn supported_id(id: u8) -> bool {
    !matches!(kind(id), None | Some(Kind::Bad))
}
pub const SUPPORTED: &[u8] = &[
    0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x11, 0x12,
    0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1d, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27,
    0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x31, 0x32, 0x35, 0x3a, 0x3b, 0x3c, 0x45, 0x46, 0x47, 0x48,
    0x4c,
];
/// Values the generator may pick for a parameter (None: free form of that length).
pub fn enum_values(id: u8) -> Option<&'static [u8]> {
    match kind(id) {
        Some(Kind::Enum(v)) => Some(v),
        _ => None,
    }
}
pub fn value_lens(id: u8) -> Vec<usize> {
    match kind(id) {
        Some(Kind::Len(l)) => l.to_vec(),
        Some(Kind::Any) => vec![0, 1, 16, 32, 100, 246, 255],
        Some(Kind::InitTime) => vec![4, 8],
        _ => vec![1],
    }
}

impl Default for Cfg {
    fn default() -> Self {
        let mut v = BTreeMap::new();
        let mut put = |id: u8, b: &[u8]| {
            v.insert(id, b.to_vec());
        };
        put(0x02, &[0]);
        put(0x04, &[9]);
        put(0x05, &[1]);
        put(0x08, &2400u16.to_le_bytes());
        put(0x09, &200u32.to_le_bytes());
        put(0x0a, &[0; 4]);
        put(0x0b, &[0]);
        put(0x0c, &[6]);
        put(0x0d, &[1]);
        put(0x0e, &[1]);
        put(0x0f, &[0; 2]);
        put(0x10, &20000u16.to_le_bytes());
        put(0x12, &[3]);
        put(0x13, &[0]);
        put(0x14, &[10]);
        put(0x15, &[2]);
        put(0x16, &[0]);
        put(0x17, &[1]);
        put(0x18, &[0]);
        put(0x19, &[0]);
        put(0x1a, &[1]);
        put(0x1b, &[25]);
        put(0x1d, &[0; 8]);
        put(0x1f, &[0]);
        put(0x20, &[24, 5]);
        put(0x21, &[0]);
        put(0x23, &[0]);
        put(0x24, &[0]);
        put(0x25, &[50]);
        put(0x26, &[0]);
        put(0x27, &[0; 2]);
        put(0x28, &[0; 6]);
        put(0x29, &[1]);
        put(0x2a, &[0; 2]);
        put(0x2b, &[0; 8]);
        put(0x2c, &[0]);
        put(0x2d, &[0]);
        put(0x2e, &[1]);
        put(0x2f, &[1]);
        put(0x30, &[0; 4]);
        put(0x31, &[0]);
        put(0x32, &[0; 2]);
        put(0x35, &[1]);
        put(0x3a, &[4]);
        put(0x3b, &[0; 2]);
        put(0x3c, &[1]);
        put(0x45, &[]);
        put(0x46, &[]);
        put(0x47, &[0]);
        put(0x48, &[0; 9]);
        put(0x4c, &[0]);
        Cfg { v, dst: vec![] }
    }
}

impl Cfg {
    pub fn u8(&self, id: u8) -> Option<u8> {
        self.v.get(&id).and_then(|b| b.first().copied())
    }
    pub fn mac(&self) -> Option<&Vec<u8>> {
        self.v.get(&0x06)
    }
    pub fn set(&mut self, id: u8, val: &[u8]) -> bool {
        let mode = self.u8(0x26).unwrap_or(0);
        let size = match mode {
            0 => Some(2),
            2 => Some(8),
            _ => None,
        };
        match kind(id) {
            Some(Kind::Enum(vals)) => {
                if val.len() != 1 || !vals.contains(&val[0]) {
                    return false;
                }
            }
            Some(Kind::Len(l)) => {
                if !l.contains(&val.len()) {
                    return false;
                }
            }
            Some(Kind::Any) => (),
            Some(Kind::Mac) => {
                if Some(val.len()) != size {
                    return false;
                }
            }
            Some(Kind::Dst) => {
                let Some(size) = size else { return false };
                let n = self.u8(0x05).unwrap_or(0) as usize;
                if val.len() != n * size {
                    return false;
                }
                self.dst = val.chunks(size).map(|c| c.to_vec()).collect();
                return true;
            }
            Some(Kind::InitTime) => match val.len() {
                4 => {
                    let mut x = val.to_vec();
                    x.extend_from_slice(&[0; 4]);
                    self.v.insert(id, x);
                    return true;
                }
                8 => (),
                _ => return false,
            },
            Some(Kind::Bad) | None => return false,
        }
        self.v.insert(id, val.to_vec());
        true
    }
    pub fn get(&self, id: u8) -> Option<Vec<u8>> {
        if id == 0x07 {
            return Some(self.dst.concat());
        }
        self.v.get(&id).cloned()
    }
    pub fn interval(&self) -> u32 {
        self.v.get(&0x09).map_or(0, |b| u32le(b))
    }
    pub fn ntf_enabled(&self) -> bool {
        self.u8(0x0e) != Some(0)
    }
    fn mandatory(&self) -> bool {
        [0x11, 0x03, 0x01, 0x06, 0x22].iter().all(|i| self.v.contains_key(i))
    }
}

pub fn compatible(a: &Cfg, b: &Cfg) -> bool {
    let (Some(ma), Some(mb)) = (a.mac(), b.mac()) else { return false };
    a.u8(0x11) != b.u8(0x11) && a.u8(0x00) != b.u8(0x00) && b.dst.contains(ma) && a.dst.contains(mb)
}

impl Session {
    pub fn sends_data(&self) -> bool {
        self.state == ACTIVE && self.typ == 1 && self.cfg.u8(0x11) == Some(1)
    }
    pub fn receives_data(&self) -> bool {
        self.state == ACTIVE && self.typ == 1 && self.cfg.u8(0x11) == Some(0)
    }
}

#[derive(Clone, Debug)]
pub struct Device {
    pub reset: bool,
    pub resets: u32,
    pub state: u8,
    pub low_power: bool,
    pub sessions: BTreeMap<u32, Session>,
    pub next_inc: u64,
}

impl Default for Device {
    fn default() -> Self {
        Self::new()
    }
}

impl Device {
    pub fn new() -> Self {
        Device { reset: false, resets: 0, state: READY, low_power: true, sessions: BTreeMap::new(), next_inc: 0 }
    }

    pub fn active(&self) -> usize {
        self.sessions.values().filter(|s| s.state == ACTIVE).count()
    }

    /// Session leaves the active state; returns the device announcement.
    fn settle(&mut self) -> Vec<Vec<Ann>> {
        let want = if self.active() > 0 { DEV_ACTIVE } else { READY };
        if self.state != want {
            self.state = want;
            return vec![vec![Ann::Device { state: want }]];
        }
        vec![]
    }

    /// An in-band stop reached the session.
    pub fn inband_stop(&mut self, id: u32) -> Option<Vec<Vec<Ann>>> {
        let s = self.sessions.get_mut(&id)?;
        if s.state != ACTIVE {
            return None;
        }
        s.state = IDLE;
        Some(self.settle())
    }

    pub fn data(&mut self, dpf: u8, p: &[u8]) -> DataAnswer {
        if dpf == 2 {
            if p.len() < 17 || p.len() != 17 + u16le(&p[15..17]) as usize {
                return DataAnswer::None;
            }
            // status is open ended, every value parses
            return DataAnswer::Status { session: u32le(p), seq: 0, status: 7 };
        }
        if dpf != 1 || p.len() < 16 || p.len() != 16 + u16le(&p[14..16]) as usize {
            return DataAnswer::None;
        }
        let id = u32le(p);
        let seq = p[12];
        match self.sessions.get(&id) {
            None => DataAnswer::Status { session: id, seq: 0, status: 4 },
            Some(s) if s.typ != 1 => DataAnswer::Status { session: id, seq, status: 5 },
            Some(_) => DataAnswer::Credit { session: id, app: p[16..].to_vec() },
        }
    }

    pub fn command(&mut self, gid: u8, oid: u8, p: &[u8]) -> Answer {
        let recognised = recognised(gid, oid, p);
        if !self.reset && !(gid == 0 && oid == 0) {
            let or_response = recognised != Recog::Yes;
            return Answer { rsp: Some(Rsp::DevError { or_response }), area: "prereset", ..Default::default() };
        }
        let mut a = Answer { area: "unknown", ..Default::default() };
        match recognised {
            Recog::UnknownGid => {
                a.rsp = Some(Rsp::Exact(vec![7]));
                return a;
            }
            Recog::Malformed => {
                a.rsp = Some(if !self.reset { Rsp::DevError { or_response: true } } else { Rsp::AnyError });
                return a;
            }
            Recog::Yes => (),
        }
        let st = |s: u8| Some(Rsp::Exact(vec![s]));
        match (gid, oid) {
            (0, 0) => {
                a.area = "core";
                self.reset = true;
                self.resets += 1;
                let gone: Vec<Ann> = self
                    .sessions
                    .keys()
                    .map(|id| Ann::Session { id: *id, state: DEINIT, reason: 0 })
                    .collect();
                a.touched = self.sessions.keys().copied().collect();
                if !gone.is_empty() {
                    a.status.push(gone);
                }
                a.status.push(vec![Ann::Device { state: READY }]);
                self.sessions.clear();
                self.state = READY;
                self.low_power = true;
                a.rsp = st(0);
            }
            (0, 2) => {
                a.area = "core";
                a.rsp = Some(Rsp::Exact(vec![0, 2, 0, 1, 0x30, 1, 0x30, 1, 0x10, 0]));
            }
            (0, 3) => {
                a.area = "core";
                a.rsp = Some(Rsp::Exact(caps()));
            }
            (0, 4) => {
                a.area = "core";
                let mut inv = vec![];
                for (id, v) in tlvs(&p[1..]).unwrap() {
                    match id {
                        0 => inv.push([0, 0x09]),
                        1 => self.low_power = v.first().copied().unwrap_or(1) != 0,
                        _ => inv.push([id, 0x04]),
                    }
                }
                let mut r = vec![if inv.is_empty() { 0 } else { 4 }, inv.len() as u8];
                r.extend(inv.concat());
                a.rsp = Some(Rsp::Exact(r));
            }
            (0, 5) => {
                a.area = "core";
                let ids = &p[1..];
                let inv: Vec<u8> = ids.iter().copied().filter(|i| *i > 1).collect();
                let mut r;
                if inv.is_empty() {
                    r = vec![0, ids.len() as u8];
                    for i in ids {
                        r.extend([*i, 1, if *i == 0 { self.state } else { self.low_power as u8 }]);
                    }
                } else {
                    r = vec![4, inv.len() as u8];
                    for i in inv {
                        r.extend([i, 0]);
                    }
                }
                a.rsp = Some(Rsp::Exact(r));
            }
            (1, 0) => {
                a.area = "session";
                let id = u32le(p);
                if self.sessions.len() >= 255 {
                    a.rsp = st(0x14);
                } else if self.sessions.contains_key(&id) {
                    a.rsp = st(0x12);
                } else {
                    self.next_inc += 1;
                    self.sessions.insert(
                        id,
                        Session {
                            id,
                            typ: p[4],
                            state: INIT,
                            cfg: Cfg::default(),
                            count: 0,
                            inc: self.next_inc,
                            interval: 0,
                        },
                    );
                    a.touched.push(id);
                    a.status.push(vec![Ann::Session { id, state: INIT, reason: 0 }]);
                    a.rsp = st(0);
                }
            }
            (1, 1) => {
                a.area = "session";
                let id = u32le(p);
                if self.sessions.remove(&id).is_some() {
                    a.touched.push(id);
                    a.status.push(vec![Ann::Session { id, state: DEINIT, reason: 0 }]);
                    a.status.extend(self.settle());
                    a.rsp = st(0);
                } else {
                    a.rsp = st(0x11);
                }
            }
            (1, 3) => {
                a.area = "config";
                let id = u32le(p);
                let list = tlvs(&p[5..]).unwrap();
                let none = |s: u8| Some(Rsp::Exact(vec![s, 0]));
                let Some(s) = self.sessions.get_mut(&id) else {
                    a.rsp = none(0x11);
                    return a;
                };
                if s.typ > 1 {
                    a.rsp = Some(Rsp::AnyError);
                    return a;
                }
                if s.state == ACTIVE && list.iter().any(|t| t.0 == 0x0d) {
                    a.rsp = none(0x13);
                    return a;
                }
                if s.state != INIT && s.state != ACTIVE {
                    a.rsp = none(1);
                    return a;
                }
                let mut cfg = s.cfg.clone();
                let mut inv = vec![];
                for (t, v) in &list {
                    if !cfg.set(*t, v) {
                        inv.push([*t, 4]);
                    }
                }
                if !cfg.mandatory() {
                    a.rsp = none(1);
                } else if inv.is_empty() {
                    s.cfg = cfg;
                    a.touched.push(id);
                    if s.state == INIT {
                        s.state = IDLE;
                        a.status.push(vec![Ann::Session { id, state: IDLE, reason: 0 }]);
                    }
                    a.rsp = none(0);
                } else {
                    let mut r = vec![4, inv.len() as u8];
                    r.extend(inv.concat());
                    a.rsp = Some(Rsp::Exact(r));
                }
            }
            (1, 4) => {
                a.area = "config";
                let id = u32le(p);
                let Some(s) = self.sessions.get(&id) else {
                    a.rsp = Some(Rsp::Exact(vec![0x11, 0]));
                    return a;
                };
                let vals: Option<Vec<(u8, Vec<u8>)>> = p[5..].iter().map(|i| s.cfg.get(*i).map(|v| (*i, v))).collect();
                a.rsp = Some(Rsp::Exact(match vals {
                    None => vec![2, 0],
                    Some(v) => {
                        let mut r = vec![0, v.len() as u8];
                        for (i, b) in v {
                            r.extend([i, b.len() as u8]);
                            r.extend(b);
                        }
                        r
                    }
                }));
            }
            (1, 5) => {
                a.area = "session";
                a.rsp = Some(Rsp::Exact(vec![0, self.sessions.len() as u8]));
            }
            (1, 6) => {
                a.area = "session";
                a.rsp = Some(Rsp::Exact(match self.sessions.get(&u32le(p)) {
                    Some(s) => vec![0, s.state],
                    None => vec![0x11, 0],
                }));
            }
            (1, 7) => self.multicast(p, &mut a),
            (2, 0) => {
                a.area = "session";
                let id = u32le(p);
                match self.sessions.get_mut(&id) {
                    None => a.rsp = st(0x11),
                    Some(s) if s.state != IDLE => a.rsp = st(0x15),
                    Some(s) => {
                        s.state = ACTIVE;
                        s.interval = s.cfg.interval();
                        a.touched.push(id);
                        a.status.push(vec![Ann::Session { id, state: ACTIVE, reason: 0 }]);
                        a.status.extend(self.settle());
                        a.rsp = st(0);
                    }
                }
            }
            (2, 1) => {
                a.area = "session";
                let id = u32le(p);
                match self.sessions.get_mut(&id) {
                    None => a.rsp = st(0x11),
                    Some(s) if s.state != ACTIVE => a.rsp = st(0x13),
                    Some(s) => {
                        s.state = IDLE;
                        a.touched.push(id);
                        a.status.push(vec![Ann::Session { id, state: IDLE, reason: 0 }]);
                        a.status.extend(self.settle());
                        a.rsp = st(0);
                    }
                }
            }
            (2, 3) => {
                a.area = "count";
                let (s, n) = match self.sessions.get(&u32le(p)) {
                    Some(s) => (0, s.count),
                    None => (0x11, 0),
                };
                let mut r = vec![s];
                r.extend(n.to_le_bytes());
                a.rsp = Some(Rsp::Exact(r));
            }
            (0xc, 0) => {
                a.area = "core";
                a.rsp = Some(Rsp::Exact(vec![0; 17]));
            }
            (0xc, 1) => {
                a.area = "core";
                a.rsp = st(0);
            }
            _ => unreachable!(),
        }
        a
    }

    fn multicast(&mut self, p: &[u8], a: &mut Answer) {
        a.area = "multicast";
        let id = u32le(p);
        let none = |s: u8| Some(Rsp::Exact(vec![s, 0]));
        let Some(s) = self.sessions.get_mut(&id) else {
            a.rsp = none(0x11);
            return;
        };
        if (s.state != ACTIVE && s.state != IDLE) || s.cfg.u8(0x00) != Some(1) || s.cfg.u8(0x03) != Some(1) {
            a.rsp = none(1);
            return;
        }
        let action = p[4];
        let size = match action {
            2 => 22,
            3 => 38,
            _ => 6,
        };
        let body = &p[5..];
        if body.is_empty() || body.len() != 1 + body[0] as usize * size {
            a.rsp = none(3);
            return;
        }
        let addrs: Vec<[u8; 2]> = body[1..].chunks(size).map(|c| [c[0], c[1]]).collect();
        let mut status = 0;
        let mut rsp: Vec<([u8; 2], u8)> = vec![];
        let mut ntf: Vec<([u8; 2], u8)> = vec![];
        for x in addrs {
            let v = x.to_vec();
            if action != 1 {
                if action >= 2 && s.cfg.u8(0x02) != Some(4) {
                    status = 2;
                    continue;
                }
                if s.cfg.dst.contains(&v) {
                    status = 2;
                    rsp.push((x, 8));
                } else if s.cfg.dst.len() >= 8 {
                    status = 0x17;
                    rsp.push((x, 1));
                } else {
                    s.cfg.dst.push(v);
                    rsp.push((x, 0));
                }
            } else if s.cfg.dst.contains(&v) {
                s.cfg.dst.retain(|y| *y != v);
                rsp.push((x, 0));
                ntf.push((x, 0));
                let attempts = s.cfg.u8(0x2f).unwrap_or(1);
                if attempts > 0 {
                    a.stops.push(StopReq { addr: v, session: id, attempts });
                }
            } else {
                status = 2;
                rsp.push((x, 7));
            }
        }
        if action == 1 && s.state == ACTIVE {
            a.multicast.push(Ann::Multicast { id, list: ntf });
        }
        let n = s.cfg.dst.len() as u8;
        s.cfg.v.insert(0x05, vec![n]);
        a.touched.push(id);
        if s.cfg.dst.is_empty() && s.state == ACTIVE {
            s.state = IDLE;
            a.status.push(vec![Ann::Session { id, state: IDLE, reason: 0x33 }]);
            a.status.extend(self.settle());
        }
        let mut r = vec![status, rsp.len() as u8];
        for (x, st) in rsp {
            r.extend(x);
            r.push(st);
        }
        a.rsp = Some(Rsp::Exact(r));
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum DataAnswer {
    None,
    Status { session: u32, seq: u8, status: u8 },
    Credit { session: u32, app: Vec<u8> },
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Recog {
    Yes,
    UnknownGid,
    Malformed,
}

/// Parse a counted list of (id, length, value); None when malformed.
pub fn tlvs(mut p: &[u8]) -> Option<Vec<(u8, Vec<u8>)>> {
    let mut v = vec![];
    while !p.is_empty() {
        if p.len() < 2 || p.len() < 2 + p[1] as usize {
            return None;
        }
        let n = p[1] as usize;
        v.push((p[0], p[2..2 + n].to_vec()));
        p = &p[2 + n..];
    }
    Some(v)
}

pub fn recognised(gid: u8, oid: u8, p: &[u8]) -> Recog {
    let ok = match (gid, oid) {
        (4..=8, _) | (3, _) | (9..=0xb, _) | (0xd..=0xf, _) => return Recog::UnknownGid,
        (0, 0) => p == [0],
        (0, 2) | (0, 3) | (1, 5) | (0xc, 0) => p.is_empty(),
        (0, 4) => !p.is_empty() && tlvs(&p[1..]).map_or(false, |l| l.len() == p[0] as usize),
        (0, 5) => !p.is_empty() && p.len() == 1 + p[0] as usize,
        (1, 0) => p.len() == 5 && matches!(p[4], 0..=5 | 0xa0 | 0xd0),
        (1, 1) | (1, 6) | (2, 0) | (2, 1) | (2, 3) => p.len() == 4,
        (1, 3) => {
            p.len() >= 5
                && tlvs(&p[5..]).map_or(false, |l| l.len() == p[4] as usize && l.iter().all(|t| known_id(t.0)))
        }
        (1, 4) => p.len() >= 5 && p.len() == 5 + p[4] as usize && p[5..].iter().all(|i| known_id(*i)),
        (1, 7) => p.len() >= 5 && p[4] <= 3,
        (0xc, 1) => p.len() == 2,
        _ => false,
    };
    if ok {
        Recog::Yes
    } else {
        Recog::Malformed
    }
}

pub fn caps() -> Vec<u8> {
    simtypes::unhex(include_str!("caps.hex").trim())
}
