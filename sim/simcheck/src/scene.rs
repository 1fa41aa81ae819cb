//! Who is where: anchors, devices and their positions over time, as far as the
//! recorded history determines them.
use crate::report::*;
use crate::sse::*;
use crate::uci::*;
use simtypes::*;

pub const NEVER: u64 = u64::MAX;

pub fn parse_mac(s: &str) -> Option<Vec<u8>> {
    let s = s.replace(':', "").replace("%3A", "");
    if s.len() != 4 && s.len() != 16 || !s.bytes().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    Some(unhex(&s.to_ascii_lowercase()))
}

pub fn mac_u64(m: &[u8]) -> u64 {
    m.iter().rev().fold(0, |a, b| a << 8 | *b as u64)
}

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Pos {
    pub x: i64,
    pub y: i64,
    pub z: i64,
    pub yaw: i64,
    pub pitch: i64,
    pub roll: i64,
}

/// Ok(None): empty body
pub fn parse_pos(body: &str) -> Result<Option<Pos>, ()> {
    if body.trim().is_empty() {
        return Ok(None);
    }
    let v: serde_json::Value = serde_json::from_str(body).map_err(|_| ())?;
    let g = |n: &str, lo: i64, hi: i64| {
        v.get(n).and_then(|x| x.as_i64()).filter(|x| *x >= lo && *x <= hi).ok_or(())
    };
    let (a, b) = (i16::MIN as i64, i16::MAX as i64);
    Ok(Some(Pos {
        x: g("x", a, b)?,
        y: g("y", a, b)?,
        z: g("z", a, b)?,
        yaw: g("yaw", a, b)?,
        pitch: g("pitch", -128, 127)?,
        roll: g("roll", a, b)?,
    }))
}

impl Pos {
    fn rot(&self) -> [[f64; 3]; 3] {
        // roll about z, pitch about x, yaw about y, applied right to left
        let (r, p, y) =
            ((self.roll as f64).to_radians(), (self.pitch as f64).to_radians(), (self.yaw as f64).to_radians());
        let rz = [[r.cos(), -r.sin(), 0.], [r.sin(), r.cos(), 0.], [0., 0., 1.]];
        let rx = [[1., 0., 0.], [0., p.cos(), -p.sin()], [0., p.sin(), p.cos()]];
        let ry = [[y.cos(), 0., y.sin()], [0., 1., 0.], [-y.sin(), 0., y.cos()]];
        let mul = |a: &[[f64; 3]; 3], b: &[[f64; 3]; 3]| {
            let mut m = [[0.; 3]; 3];
            for i in 0..3 {
                for j in 0..3 {
                    m[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
                }
            }
            m
        };
        mul(&mul(&rz, &rx), &ry)
    }
    /// distance, azimuth, elevation (angles None where ill-conditioned)
    pub fn see(&self, o: &Pos) -> (u16, Option<f64>, Option<f64>) {
        let d = [(o.x - self.x) as f64, (o.y - self.y) as f64, (o.z - self.z) as f64];
        let dist = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
        let m = self.rot();
        let v: Vec<f64> = (0..3).map(|i| (0..3).map(|j| m[i][j] * d[j]).sum()).collect();
        let h = (v[0] * v[0] + v[2] * v[2]).sqrt();
        let az = (h > 0.01 * dist && dist > 0.).then(|| v[0].atan2(v[2]).to_degrees());
        let el = (dist > 0.).then(|| v[1].atan2(h).to_degrees());
        (dist.min(65535.) as u16, az, el)
    }
}

pub fn angle_ok(want: Option<f64>, got: i64) -> bool {
    let Some(w) = want else { return (-180..=180).contains(&got) };
    let d = (w - got as f64).rem_euclid(360.);
    d.min(360. - d) <= 1.01
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Create,
    Destroy,
    SetPos,
}

/// A request on the scene.
#[derive(Clone, Debug)]
pub struct SceneOp {
    pub op: Op,
    pub mac: Vec<u8>,
    pub lo: u64,
    /// NEVER when unanswered
    pub hi: u64,
    /// Some(true): done; Some(false): conflict / not found
    pub res: Option<bool>,
    pub handle: Option<u64>,
    pub pos: Pos,
    /// api actor and step
    pub by: Option<(usize, usize)>,
    pub label: String,
}

impl SceneOp {
    /// Surely takes effect after the other one.
    pub fn after(&self, o: &SceneOp) -> bool {
        self.lo > o.hi
            || match (self.by, o.by) {
                (Some(x), Some(y)) => x.0 == y.0 && x.1 > y.1,
                _ => false,
            }
    }
}

#[derive(Clone, Debug, Default)]
pub struct DevInfo {
    pub conn: usize,
    pub mac: Option<Vec<u8>>,
    pub handle: Option<u64>,
    pub add: Option<u64>,
    pub rm: Option<u64>,
}

pub struct Scene {
    pub ops: Vec<SceneOp>,
    /// indexed by connection
    pub devs: Vec<DevInfo>,
    /// complete event log as seen by the first subscriber
    pub log: Option<Vec<Event>>,
    /// when the log starts
    pub log_from: u64,
}

/// Expected measurement values.
#[derive(Clone, Debug)]
pub enum Val {
    Any,
    Exact(u16, i16, i16, i16, i16),
    Geo(Pos, Pos),
}

impl Val {
    pub fn ok(&self, m: &Meas) -> bool {
        match self {
            Val::Any => true,
            Val::Exact(d, a, e, da, de) => (m.dist, m.az, m.el, m.daz, m.del) == (*d, *a, *e, *da, *de),
            Val::Geo(p, q) => {
                let (d, a, e) = p.see(q);
                let (_, da, de) = q.see(p);
                (m.dist as i64 - d as i64).abs() <= 1
                    && angle_ok(a, m.az as i64)
                    && angle_ok(e, m.el as i64)
                    && angle_ok(da, m.daz as i64)
                    && angle_ok(de, m.del as i64)
            }
        }
    }
}

impl Scene {
    pub fn build(c: &Ctx, out: &mut Vec<Violation>) -> Scene {
        let h = c.hist;
        let mut s = Scene { ops: vec![], devs: vec![DevInfo::default(); h.conns.len()], log: None, log_from: 0 };
        for (i, d) in s.devs.iter_mut().enumerate() {
            d.conn = i;
        }
        for r in &h.api {
            let Some(st) = c.plan.api.get(r.actor).and_then(|a| a.get(r.step)) else { continue };
            let (op, mac) = match &st.op {
                ApiOp::CreateAnchor { mac } | ApiOp::CreateAnchorDrop { mac } => (Op::Create, mac),
                ApiOp::DestroyAnchor { mac } | ApiOp::DestroyAnchorDrop { mac } => (Op::Destroy, mac),
                ApiOp::Disconnect { .. } | ApiOp::Nop => continue,
            };
            let mut o = SceneOp {
                op,
                mac: parse_mac(mac).unwrap_or_default(),
                lo: r.t_call,
                // a command that was handed over takes effect, whoever waits for it
                hi: if r.result == "dropped" { r.t_call + c.late() } else { r.t_ret.unwrap_or(NEVER) },
                res: None,
                handle: None,
                pos: Pos::default(),
                by: Some((r.actor, r.step)),
                label: format!("api actor {} step {} {:?}", r.actor, r.step, st.op),
            };
            if let Some(x) = r.result.strip_prefix("ok:") {
                o.res = Some(true);
                o.handle = x.parse().ok();
            } else if (r.result == "exists" && op == Op::Create) || (r.result == "notfound" && op == Op::Destroy) {
                o.res = Some(false);
            } else if r.result != "dropped" {
                out.push(Violation::of(
                    &["C12", "C02"],
                    None,
                    r.t_ret.unwrap_or(r.t_call),
                    format!("{} returned {}", o.label, r.result),
                ));
            }
            if o.hi != NEVER && o.hi > o.lo + c.late() {
                out.push(Violation::of(
                    &["C12", "C02"],
                    None,
                    o.hi,
                    format!("{} answered {} us after the call", o.label, (o.hi - o.lo) / 1000),
                ));
            }
            s.ops.push(o);
        }
        // calls that never returned are not recorded at all
        for (i, a) in c.plan.api.iter().enumerate() {
            let n = h.api.iter().filter(|r| r.actor == i).count();
            let want = a.iter().filter(|x| x.at * 1000 + c.late() + 50 * MS < h.t_end && x.op_is_call()).count();
            if n < want && h.outcome == "done" {
                out.push(Violation::of(
                    &["C12", "C02"],
                    None,
                    h.t_end,
                    format!("api actor {i}: call {n} of {} never returned", a.len()),
                ));
            }
        }
        for (hi, hd) in &h.handles {
            for (ci, k) in h.conns.iter().enumerate() {
                if k.kind == 0 && k.idx == *hi {
                    s.devs[ci].handle = Some(*hd);
                }
            }
        }
        for (t, kind, hd, mac) in &h.events {
            if let Some(d) = s.devs.iter_mut().find(|d| d.handle == Some(*hd)) {
                if kind == "connected" {
                    d.mac = parse_mac(mac);
                    d.add.get_or_insert(*t);
                } else if kind == "disconnected" {
                    d.rm.get_or_insert(*t);
                }
            }
        }
        if c.plan.bin == Bin::Http {
            s.http_ops(c);
            s.http_log(c, out);
        }
        s
    }

    fn http_ops(&mut self, c: &Ctx) {
        for r in &c.hist.http {
            let st = &c.plan.http[r.client].steps[r.step];
            let parts = crate::http::route(&st.path);
            let (op, mac) = match parts[..] {
                ["create-anchor", m] => (Op::Create, m),
                ["destroy-anchor", m] => (Op::Destroy, m),
                // the position is mandatory
                ["set-position", _] if st.body.trim().is_empty() => continue,
                ["set-position", m] | ["init-uci-device", m] => (Op::SetPos, m),
                _ => continue,
            };
            let Some(mac) = parse_mac(mac) else { continue };
            let pos = match parse_pos(&st.body) {
                Ok(p) => p.unwrap_or_default(),
                Err(()) if op != Op::Destroy => continue,
                Err(()) => Pos::default(),
            };
            if matches!(st.abort, HttpAbort::Partial { .. }) {
                continue;
            }
            let conn = &c.hist.conns[r.conn];
            let answered = http_answer(conn, r);
            let res = match (op, answered.map(|a| a.0)) {
                (_, Some(200)) => Some(true),
                (Op::Create, Some(409)) | (Op::Destroy, Some(404)) | (Op::SetPos, Some(404)) => Some(false),
                _ => None,
            };
            self.ops.push(SceneOp {
                op,
                mac,
                lo: r.t_send,
                hi: if res.is_some() { answered.unwrap().1 } else { NEVER },
                res,
                handle: None,
                pos,
                by: None,
                label: format!("http client {} step {} {}", r.client, r.step, st.path),
            });
        }
    }

    fn http_log(&mut self, c: &Ctx, out: &mut Vec<Violation>) {
        // the observer is client 0 when it subscribes as its first request
        let Some(p) = c.plan.http.first() else { return };
        if p.steps.is_empty() || p.steps[0].path != "/events" || p.stall.is_some() || p.steps[0].at > 0 {
            return;
        }
        let Some(r) = c.hist.http.iter().find(|r| r.client == 0 && r.step == 0) else { return };
        let k = &c.hist.conns[r.conn];
        // complete only when nothing happened before it was subscribed
        let from = k.tx.first().map_or(NEVER, |m| m.t);
        if k.accepted_at.is_none()
            || c.hist.conns.iter().any(|x| x.kind == 0 && x.accepted_at.map_or(false, |t| t <= from))
            || self.ops.iter().any(|o| o.lo <= from)
        {
            return;
        }
        if let (None, Some(end)) = (r.aborted_at, [k.srv_close, k.srv_fin].into_iter().flatten().min()) {
            if !self.may_lag(c, k, end) {
                out.push(Violation::of(&["C13"], None, end, "event stream of client 0 ended by the server".into()));
            }
            return;
        }
        match events(k, r.tx_start as usize) {
            Ok(l) => {
                let mut added = 0;
                let acc = accepted(c);
                let mut map: Vec<usize> = vec![];
                for e in &l {
                    if e.uci_added() {
                        if let Some(ci) = acc.get(added) {
                            self.devs[*ci].mac = Some(e.mac.clone());
                            self.devs[*ci].add = Some(e.t);
                            map.push(*ci);
                        } else {
                            out.push(Violation::of(
                                &["C13", "C08"],
                                None,
                                e.t,
                                format!("{} host connections accepted but device {added} announced", acc.len()),
                            ));
                        }
                        added += 1;
                    }
                    if e.name == "device-removed" && e.uci {
                        if let Some(ci) = map.iter().rev().find(|ci| self.devs[**ci].mac.as_ref() == Some(&e.mac)) {
                            self.devs[*ci].rm = Some(e.t);
                        }
                    }
                }
                self.log_from = k.tx.first().map_or(NEVER, |m| m.t);
                self.log = Some(l);
            }
            Err(e) => out.push(Violation::of(&["C13", "C20"], None, c.hist.t_end, e)),
        }
    }

    /// Whether so many events may have piled up while the task of this
    /// subscriber was kept from running that some were dropped.
    pub fn may_lag(&self, c: &Ctx, k: &ConnHist, end: u64) -> bool {
        let from = k.tx.last().map_or(0, |m| m.t).saturating_sub(c.w());
        let hosts = accepted(c).len();
        let all = hosts + self.ops.iter().filter(|o| matches!(o.op, Op::Create) && o.res != Some(false)).count();
        let n: usize = self
            .ops
            .iter()
            .filter(|o| o.hi >= from && o.lo <= end)
            .map(|o| if matches!(o.op, Op::SetPos) { 1 + 2 * all } else { 1 })
            .sum();
        n + 2 * hosts >= 900
    }

    /// possible positions of an entity that appeared as (lo, hi, pos)
    fn positions(&self, mac: &[u8], lo: u64, hi: u64, pos: Pos, gone: u64, a: u64, b: u64) -> Vec<Pos> {
        let mut l = vec![(lo, hi, pos, true)];
        for o in &self.ops {
            if o.op == Op::SetPos && o.mac == mac && o.res != Some(false) && o.hi >= lo && o.lo <= gone {
                l.push((o.lo, o.hi, o.pos, o.res == Some(true) && o.lo > hi));
            }
        }
        let mut v = vec![];
        for i in &l {
            if i.0 <= b && !l.iter().any(|j| j.3 && j.0 > i.1 && j.1 < a) && !v.contains(&i.2) {
                v.push(i.2);
            }
        }
        v
    }

    pub fn dev_positions(&self, c: &Ctx, ci: usize, a: u64, b: u64) -> Vec<Pos> {
        let d = &self.devs[ci];
        let Some(mac) = &d.mac else { return vec![] };
        let lo = c.hist.conns[ci].accepted_at.unwrap_or(0);
        self.positions(mac, lo, d.add.unwrap_or(NEVER), Pos::default(), d.rm.unwrap_or(NEVER), a, b)
    }
}

trait IsCall {
    fn op_is_call(&self) -> bool;
}
impl IsCall for ApiStep {
    fn op_is_call(&self) -> bool {
        !matches!(self.op, ApiOp::Nop)
    }
}

/// (status, time the response started to be written)
pub fn http_answer(conn: &ConnHist, r: &HttpReq) -> Option<(u16, u64)> {
    if conn.tx_hex.len() / 2 <= r.tx_start as usize {
        return None;
    }
    let b = unhex(&conn.tx_hex[r.tx_start as usize * 2..]);
    let line = b.split(|c| *c == b'\r').next()?;
    let st: u16 = String::from_utf8_lossy(line).split_whitespace().nth(1)?.parse().ok()?;
    let m = crate::codec::time_at(&conn.tx, r.tx_start as usize + 1)?;
    Some((st, m.t))
}

/// accepted uci connections in accept order
pub fn accepted(c: &Ctx) -> Vec<usize> {
    let mut v: Vec<usize> = (0..c.hist.conns.len())
        .filter(|i| c.hist.conns[*i].kind == 0 && c.hist.conns[*i].accepted_at.is_some())
        .collect();
    v.sort_by_key(|i| c.hist.conns[*i].accept_seq);
    v
}

/// Anchor candidates for an address during [a, b]: (must, possible values)
pub fn anchor_at(c: &Ctx, s: &Scene, me: usize, mac: &[u8], a: u64, b: u64) -> Option<(bool, Vec<Val>)> {
    let ok_or_maybe = |o: &&SceneOp| o.mac == mac && o.res != Some(false);
    let creates: Vec<&SceneOp> = s.ops.iter().filter(|o| o.op == Op::Create).filter(ok_or_maybe).collect();
    let destroys: Vec<&SceneOp> = s.ops.iter().filter(|o| o.op == Op::Destroy).filter(ok_or_maybe).collect();
    let mut vals = vec![];
    let mut may = false;
    let mut must = false;
    for k in &creates {
        let gone = destroys.iter().any(|d| d.res == Some(true) && d.after(k) && d.hi < a);
        if k.lo > b || gone {
            continue;
        }
        may = true;
        let kmust = k.res == Some(true) && k.hi <= a && !destroys.iter().any(|d| !k.after(d) && d.lo <= b);
        match c.plan.bin {
            Bin::Pica => vals.push(Val::Exact(0, 0, 0, 0, 0)),
            Bin::Lib => match (s.devs[me].handle, k.handle) {
                (Some(x), Some(y)) => {
                    let p = c.plan.est_none_percent;
                    if let (Some(l), Some(r)) = (estimate(p, x, y), estimate(p, y, x)) {
                        vals.push(Val::Exact(l.0, l.1, l.2 as i16, r.1, r.2 as i16));
                        must |= kmust;
                    }
                }
                _ => vals.push(Val::Any),
            },
            Bin::Http => {
                let end = destroys.iter().filter(|d| d.lo > k.hi).map(|d| d.hi).min().unwrap_or(NEVER);
                let theirs = s.positions(mac, k.lo, k.hi, k.pos, end, a, b);
                let mine = s.dev_positions(c, me, a, b);
                if mine.is_empty() {
                    vals.push(Val::Any);
                }
                for p in &mine {
                    for q in &theirs {
                        vals.push(Val::Geo(*p, *q));
                    }
                }
                must |= kmust && scene_sure(c, s, me, a, b);
            }
        }
    }
    (may && !vals.is_empty()).then_some((must, vals))
}

/// The scene surely contains this device throughout [a, b].
pub fn scene_sure(c: &Ctx, s: &Scene, ci: usize, a: u64, b: u64) -> bool {
    let k = &c.hist.conns[ci];
    let d = &s.devs[ci];
    let in_by = d.add.unwrap_or(k.accepted_at.unwrap_or(NEVER).saturating_add(c.late()));
    let out = [k.fin_arrived, k.rst_arrived, k.srv_fin, k.srv_close].into_iter().flatten().min().unwrap_or(NEVER);
    in_by <= a && out > b
}

/// Values of the pair of devices; None: the estimator yields nothing.
pub fn dev_vals(c: &Ctx, s: &Scene, me: usize, other: usize, a: u64, b: u64) -> Option<(bool, Vec<Val>)> {
    match c.plan.bin {
        Bin::Pica => Some((true, vec![Val::Exact(0, 0, 0, 0, 0)])),
        Bin::Lib => match (s.devs[me].handle, s.devs[other].handle) {
            (Some(x), Some(y)) => {
                let p = c.plan.est_none_percent;
                match (estimate(p, x, y), estimate(p, y, x)) {
                    (Some(l), Some(r)) => Some((true, vec![Val::Exact(l.0, l.1, l.2 as i16, r.1, r.2 as i16)])),
                    _ => None,
                }
            }
            _ => Some((false, vec![Val::Any])),
        },
        Bin::Http => {
            let sure = scene_sure(c, s, me, a, b) && scene_sure(c, s, other, a, b);
            let mine = s.dev_positions(c, me, a, b);
            let theirs = s.dev_positions(c, other, a, b);
            if mine.is_empty() || theirs.is_empty() {
                return Some((sure, vec![Val::Any]));
            }
            let mut v = vec![];
            for p in &mine {
                for q in &theirs {
                    v.push(Val::Geo(*p, *q));
                }
            }
            Some((sure, v))
        }
    }
}
