//! Checks that relate several hosts: measurements, in-band data, in-band
//! stops, connection events, the anchor registry.
use crate::model::*;
use crate::report::*;
use crate::scene::*;
use crate::uci::*;
use simtypes::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

/// States session `sid` of the host may have had at some point of [a, b].
/// The flag is false when the history does not determine them.
pub fn possible(c: &Ctx, v: &HostView, sid: u32, a: u64, b: u64) -> (Vec<Option<Rc<Session>>>, bool) {
    let sure = v.uncertain.map_or(true, |u| u > b);
    let mut out: Vec<Option<Rc<Session>>> = vec![];
    let death_lo = death_lo(c, v);
    if v.dead_hi.map_or(false, |d| d < a) {
        return (vec![None], true);
    }
    let mut cur: Option<Rc<Session>> = None;
    if let Some(t) = v.timeline.get(&sid) {
        for ch in t {
            if ch.hi < a {
                cur = ch.snap.clone();
            }
        }
        out.push(cur);
        for ch in t {
            if ch.hi >= a && ch.lo <= b {
                out.push(ch.snap.clone());
            }
        }
    } else {
        out.push(None);
    }
    if death_lo.map_or(false, |d| d <= b) {
        out.push(None);
    }
    (out, sure)
}

pub fn death_lo(c: &Ctx, v: &HostView) -> Option<u64> {
    let k = &c.hist.conns[v.conn];
    [v.cause, k.srv_fin, k.srv_close].into_iter().flatten().min()
}

struct Cand {
    mac: u64,
    must: bool,
    vals: Vec<Val>,
    what: String,
}

fn matching(left: usize, right: usize, edge: &dyn Fn(usize, usize) -> bool) -> Result<Vec<usize>, usize> {
    let mut of: Vec<Option<usize>> = vec![None; right];
    fn aug(
        l: usize,
        right: usize,
        edge: &dyn Fn(usize, usize) -> bool,
        of: &mut Vec<Option<usize>>,
        seen: &mut Vec<bool>,
    ) -> bool {
        for r in 0..right {
            if edge(l, r) && !seen[r] {
                seen[r] = true;
                if of[r].is_none() || aug(of[r].unwrap(), right, edge, of, seen) {
                    of[r] = Some(l);
                    return true;
                }
            }
        }
        false
    }
    for l in 0..left {
        let mut seen = vec![false; right];
        if !aug(l, right, edge, &mut of, &mut seen) {
            return Err(l);
        }
    }
    Ok(of.into_iter().map(|x| x.unwrap_or(usize::MAX)).collect())
}

pub fn reports(c: &Ctx, s: &Scene, views: &[HostView], out: &mut Vec<Violation>, meas: &mut u64) {
    for v in views {
        for r in &v.reports {
            let mut cands: Vec<Cand> = vec![];
            let own = &r.own.cfg;
            let mut seen: HashSet<&Vec<u8>> = HashSet::new();
            for d in &own.dst {
                // an address configured twice may be measured once or twice
                let again = !seen.insert(d);
                if let Some((must, vals)) = anchor_at(c, s, v.conn, d, r.a, r.b) {
                    let must = must && !again;
                    cands.push(Cand { mac: mac_u64(d), must, vals, what: format!("anchor {}", hex(d)) });
                }
            }
            let mut ext_must = false;
            for p in views {
                if p.conn == v.conn {
                    continue;
                }
                let (poss, sure) = possible(c, p, r.sid, r.a, r.b);
                let comp = |x: &Option<Rc<Session>>| {
                    x.as_ref().map_or(false, |x| x.state == ACTIVE && compatible(own, &x.cfg))
                };
                if !sure {
                    for d in &seen {
                        cands.push(Cand {
                            mac: mac_u64(d),
                            must: false,
                            vals: vec![Val::Any],
                            what: format!("host {} (undetermined)", p.host),
                        });
                    }
                    continue;
                }
                if !poss.iter().any(comp) {
                    continue;
                }
                let Some((est, vals)) = dev_vals(c, s, v.conn, p.conn, r.a, r.b) else { continue };
                let macs: BTreeSet<&Vec<u8>> =
                    poss.iter().filter(|x| comp(x)).map(|x| x.as_ref().unwrap().cfg.mac().unwrap()).collect();
                let must = est && macs.len() == 1 && poss.iter().all(comp);
                for m in macs {
                    cands.push(Cand {
                        mac: mac_u64(m),
                        must,
                        vals: vals.clone(),
                        what: format!("host {} address {}", p.host, hex(m)),
                    });
                }
            }
            for d in own.dst.iter() {
                if d.len() == 8 && cands.iter().any(|x| x.must && x.mac == mac_u64(d)) {
                    ext_must = true;
                }
            }
            *meas += r.meas.len() as u64;
            let ms = &r.meas;
            let where_ = || format!("ranging report {} of session {:#x}", r.own.count, r.sid);
            for m in ms {
                if m.status != 0 || m.nlos != 0 || m.foms != [100; 4] {
                    out.push(Violation::of(
                        &["C06"],
                        Some(v.host),
                        r.b,
                        format!("{}: measurement status/nlos/foms {} {} {:?}", where_(), m.status, m.nlos, m.foms),
                    ));
                    return;
                }
            }
            let dead_tag = |mac: u64| {
                // a host known to be gone had this address
                views.iter().any(|p| {
                    p.dead_hi.map_or(false, |d| d < r.a)
                        && p.timeline.get(&r.sid).map_or(false, |t| {
                            t.iter().any(|x| {
                                x.snap.as_ref().and_then(|s| s.cfg.mac()).map_or(false, |m| mac_u64(m) == mac)
                            })
                        })
                })
            };
            let edge = |m: usize, k: usize| ms[m].mac == cands[k].mac && cands[k].vals.iter().any(|x| x.ok(&ms[m]));
            if let Err(l) = matching(ms.len(), cands.len(), &edge) {
                let m = &ms[l];
                let cs: Vec<String> =
                    cands.iter().filter(|k| k.mac == m.mac).map(|k| format!("{}: {:?}", k.what, k.vals)).collect();
                let mut props = vec!["C06"];
                if cs.is_empty() && dead_tag(m.mac) {
                    props.push("C08");
                }
                if c.plan.bin == Bin::Http && !cs.is_empty() {
                    props.push("C13");
                }
                out.push(Violation::of(
                    &props,
                    Some(v.host),
                    r.b,
                    format!("{}: measurement {m:?} has no participant to match ({cs:?})", where_()),
                ));
                return;
            }
            let musts: Vec<usize> = (0..cands.len()).filter(|i| cands[*i].must).collect();
            // the most a report can carry
            let musts = if ms.len() == 255 && cands.len() > 255 { vec![] } else { musts };
            let edge2 = |l: usize, m: usize| edge(m, musts[l]);
            if let Err(l) = matching(musts.len(), ms.len(), &edge2) {
                let k = &cands[musts[l]];
                out.push(Violation::of(
                    &["C06"],
                    Some(v.host),
                    r.b,
                    format!("{}: no measurement of {} (expected {:?}, got {ms:?})", where_(), k.what, k.vals),
                ));
                return;
            }
            if (ext_must && !r.ext) || (!ms.is_empty() && r.ext && own.dst.iter().all(|d| d.len() == 2)) {
                out.push(Violation::of(
                    &["C06"],
                    Some(v.host),
                    r.b,
                    format!("{}: address format {} does not fit the addresses", where_(), r.ext as u8),
                ));
                return;
            }
        }
    }
}

pub fn data(c: &Ctx, sc: &Scene, views: &[HostView], out: &mut Vec<Violation>, bytes: &mut u64) {
    // which hosts ever send with a given (session, address)
    let sender = |x: &Session| x.sends_data();
    for v in views {
        let mut by_src: BTreeMap<(u32, u64), Vec<&Delivery>> = BTreeMap::new();
        for d in &v.delivs {
            if !d.app.is_empty() {
                by_src.entry((d.sid, d.src)).or_default().push(d);
            }
        }
        // every sender host that may reach v
        for p in views {
            if p.conn == v.conn {
                continue;
            }
            let sids: BTreeSet<u32> = p.subs.iter().map(|s| s.sid).collect();
            for sid in sids {
                let Some(t) = p.timeline.get(&sid) else { continue };
                let macs: BTreeSet<u64> = t
                    .iter()
                    .filter_map(|x| x.snap.as_ref())
                    .filter(|x| sender(x))
                    .map(|x| mac_u64(x.cfg.mac().unwrap()))
                    .collect();
                if macs.len() != 1 {
                    continue;
                }
                let mac = *macs.iter().next().unwrap();
                let shared = views.iter().any(|q| {
                    q.conn != p.conn
                        && q.conn != v.conn
                        && q.timeline.get(&sid).map_or(false, |t| {
                            t.iter().filter_map(|x| x.snap.as_ref()).any(|x| {
                                sender(x) && x.cfg.mac().map_or(false, |m| mac_u64(m) == mac)
                            })
                        })
                });
                if shared || p.uncertain.is_some() || v.uncertain.is_some() {
                    by_src.remove(&(sid, mac));
                    continue;
                }
                let ds = by_src.remove(&(sid, mac)).unwrap_or_default();
                let subs: Vec<&Submission> = p.subs.iter().filter(|s| s.sid == sid).collect();
                one_stream(c, sc, v, p, sid, &subs, &ds, out, bytes);
                if !out.is_empty() {
                    return;
                }
            }
        }
        // left over deliveries come from nobody
        for ((sid, src), ds) in by_src {
            let undetermined = views.iter().any(|p| p.uncertain.is_some())
                || views.iter().filter(|p| p.conn != v.conn).any(|p| {
                    p.timeline.get(&sid).map_or(false, |t| {
                        let macs: BTreeSet<u64> = t
                            .iter()
                            .filter_map(|x| x.snap.as_ref())
                            .filter(|x| sender(x))
                            .map(|x| mac_u64(x.cfg.mac().unwrap()))
                            .collect();
                        macs.len() > 1 && macs.contains(&src)
                    })
                });
            if undetermined {
                continue;
            }
            out.push(Violation::of(
                &["C07"],
                Some(v.host),
                ds[0].t,
                format!("{} bytes delivered on session {sid:#x} from {src:x}, which submitted nothing", ds[0].app.len()),
            ));
            return;
        }
    }
}

fn one_stream(
    c: &Ctx,
    sc: &Scene,
    v: &HostView,
    p: &HostView,
    sid: u32,
    subs: &[&Submission],
    ds: &[&Delivery],
    out: &mut Vec<Violation>,
    bytes: &mut u64,
) {
    let round = |s: &Submission| -> Option<u64> {
        // by when a round surely took place: the session ranged throughout, or
        // ranges again after it was stopped
        let (ps, _) = possible(c, p, sid, s.lo, s.hi);
        if !ps.iter().all(|x| x.as_ref().map_or(false, |x| x.sends_data())) {
            return None;
        }
        let changes = p.timeline.get(&sid)?.iter().map(|x| x.hi).filter(|t| *t > s.hi);
        for from in std::iter::once(s.hi).chain(changes) {
            let (ps, _) = possible(c, p, sid, from, from);
            let iv = ps.iter().flatten().map(|x| x.interval as u64 * MS).max()?;
            let end = from + iv + 3 * MS + c.w();
            let (ps, sure) = possible(c, p, sid, s.lo, end);
            let same = |x: &Session| x.inc == s.inc && x.typ == 1 && x.cfg.u8(0x11) == Some(1);
            if !sure || !ps.iter().all(|x| x.as_ref().map_or(false, |x| same(x))) {
                return None;
            }
            let (ps, _) = possible(c, p, sid, from, end);
            if ps.iter().all(|x| x.as_ref().map_or(false, |x| x.sends_data())) {
                return Some(end);
            }
        }
        None
    };
    let mut got = vec![false; subs.len()];
    let mut ptr = 0;
    let mut i = 0;
    while i < ds.len() {
        let d = ds[i];
        *bytes += d.app.len() as u64;
        // where does this delivery start?
        let mut best: Option<(usize, usize, usize)> = None;
        'start: for q in ptr..subs.len() {
            if subs[q].lo > d.t {
                break;
            }
            if subs[q].app.is_empty() {
                continue;
            }
            let mut j = i;
            let mut off = 0;
            let mut r = q;
            let mut pos = 0;
            loop {
                // match ds[j].app[off..] with subs[r].app[pos..]
                let n = (ds[j].app.len() - off).min(subs[r].app.len() - pos);
                if ds[j].app[off..off + n] != subs[r].app[pos..pos + n] {
                    continue 'start;
                }
                off += n;
                pos += n;
                if pos == subs[r].app.len() {
                    r += 1;
                    pos = 0;
                    while r < subs.len() && subs[r].app.is_empty() {
                        r += 1;
                    }
                }
                if off == ds[j].app.len() {
                    j += 1;
                    off = 0;
                    if pos == 0 {
                        best = Some((q, r, j));
                        break 'start;
                    }
                    if j == ds.len() {
                        // the rest may still be under way
                        if cut_off(c, v, ds[j - 1].t) && best.is_none() {
                            best = Some((q, r, j));
                        }
                        continue 'start;
                    }
                } else if r == subs.len() {
                    continue 'start;
                }
            }
        }
        let Some((q, r, j)) = best else {
            out.push(Violation::of(
                &["C07"],
                Some(v.host),
                d.t,
                format!(
                    "{} bytes delivered on session {sid:#x} are not the next bytes host {} submitted: {}...",
                    d.app.len(),
                    p.host,
                    hex(&d.app[..d.app.len().min(24)])
                ),
            ));
            return;
        };
        for k in q..r.min(subs.len()) {
            got[k] = true;
        }
        // was the sender entitled to send, and was it not too late?
        let (ps, _) = possible(c, p, sid, d.a, d.t);
        if !ps.iter().any(|x| x.as_ref().map_or(false, |x| x.sends_data())) {
            out.push(Violation::of(
                &["C07"],
                Some(v.host),
                d.t,
                format!("data delivered on session {sid:#x} while host {} is not an active initiator", p.host),
            ));
            return;
        }
        if let Some(e) = round(subs[q]) {
            if e < d.a {
                out.push(Violation::of(
                    &["C07"],
                    Some(v.host),
                    d.t,
                    format!(
                        "data submitted by host {} on session {sid:#x} at {} us delivered only at {} us",
                        p.host,
                        subs[q].lo / 1000,
                        d.t / 1000
                    ),
                ));
                return;
            }
        }
        ptr = r;
        i = j;
    }
    for (k, s) in subs.iter().enumerate() {
        if got[k] || s.app.is_empty() {
            continue;
        }
        let Some(e) = round(s) else { continue };
        let (ps, sure) = possible(c, v, sid, s.lo, e);
        let ready = sure && ps.iter().all(|x| x.as_ref().map_or(false, |x| x.receives_data()));
        // out of range: may or may not be reached
        let near = matches!(dev_vals(c, sc, p.conn, v.conn, s.lo, e), Some((true, _)));
        if !near || !ready || e + c.late() > c.hist.t_end || cut_off(c, v, s.lo) {
            continue;
        }
        out.push(Violation::of(
            &["C07"],
            Some(v.host),
            e,
            format!(
                "{} bytes submitted by host {} on session {sid:#x} at {} us were never delivered to host {}",
                s.app.len(),
                p.host,
                s.lo / 1000,
                v.host
            ),
        ));
        return;
    }
}

/// Output to this host may have been cut off after `t`.
fn cut_off(c: &Ctx, v: &HostView, t: u64) -> bool {
    v.blocked.iter().any(|b| b.1 == u64::MAX)
        || death_lo(c, v).is_some()
        || t + c.late() > c.hist.t_end
}

pub fn stops(c: &Ctx, views: &[HostView], out: &mut Vec<Violation>, n: &mut u64) {
    for v in views {
        for ib in &v.inband {
            *n += 1;
            let ok = views.iter().any(|p| {
                p.uncertain.is_some()
                    || p.stops.iter().any(|s| {
                        s.req.session == ib.sid && s.req.addr == ib.mac && s.lo <= ib.hi && s.hi + c.w() >= ib.lo
                    })
            });
            if !ok {
                out.push(Violation::of(
                    &["C11", "C03"],
                    Some(v.host),
                    ib.hi,
                    format!(
                        "session {:#x} of {} stopped by an in-band signal nobody sent",
                        ib.sid,
                        hex(&ib.mac)
                    ),
                ));
                return;
            }
        }
        for s in &v.stops {
            let (lo, hi) = (s.lo, s.hi + c.w() + MS);
            if !s.sure || hi + c.ann_late() > c.hist.t_end {
                continue;
            }
            for p in views {
                if p.uncertain.is_some() || cut_off(c, p, hi) {
                    continue;
                }
                let (ps, sure) = possible(c, p, s.req.session, lo, hi);
                let still = |x: &Option<Rc<Session>>| {
                    x.as_ref().map_or(false, |x| x.state == ACTIVE && x.cfg.mac() == Some(&s.req.addr))
                };
                if sure && ps.iter().all(still) {
                    out.push(Violation::of(
                        &["C11"],
                        Some(p.host),
                        hi,
                        format!(
                            "controlee {} was removed from session {:#x} by host {} at {} us but keeps ranging",
                            hex(&s.req.addr),
                            s.req.session,
                            v.host,
                            lo / 1000
                        ),
                    ));
                    return;
                }
            }
        }
    }
}

/// Connected / disconnected events of the library.
pub fn lib_events(c: &Ctx, s: &Scene, views: &[HostView], out: &mut Vec<Violation>) {
    if c.plan.bin != Bin::Lib {
        return;
    }
    let f = |out: &mut Vec<Violation>, t: u64, h: Option<usize>, w: String| {
        out.push(Violation::of(&["C08"], h, t, w));
    };
    let mut seen: BTreeMap<u64, (usize, usize, String)> = BTreeMap::new();
    for (t, kind, hd, mac) in &c.hist.events {
        let e = seen.entry(*hd).or_insert((0, 0, mac.clone()));
        match kind.as_str() {
            "connected" => {
                e.0 += 1;
                if e.0 > 1 || e.1 > 0 {
                    return f(out, *t, None, format!("second connected event for handle {hd}"));
                }
            }
            "disconnected" => {
                e.1 += 1;
                if e.1 > 1 || e.0 == 0 {
                    return f(out, *t, None, format!("unexpected disconnected event for handle {hd}"));
                }
                if e.2 != *mac {
                    return f(out, *t, None, format!("disconnected event for handle {hd} names {mac}, not {}", e.2));
                }
            }
            "lagged" => return f(out, *t, None, format!("{hd} connection events lost")),
            _ => return f(out, *t, None, format!("event stream {kind}")),
        }
        if kind != "lagged" && !c.hist.handles.iter().any(|h| h.1 == *hd) {
            return f(out, *t, None, format!("{kind} event for unknown handle {hd}"));
        }
    }
    let mut used: HashSet<u64> = HashSet::new();
    for (_, h) in &c.hist.handles {
        if !used.insert(*h) {
            out.push(Violation::of(&["C08", "C12"], None, 0, format!("device handle {h} used twice")));
            return;
        }
    }
    for o in &s.ops {
        if let (Op::Create, Some(h)) = (o.op, o.handle) {
            if !used.insert(h) {
                out.push(Violation::of(&["C12"], None, o.hi, format!("{}: handle {h} used before", o.label)));
                return;
            }
        }
    }
    for v in views {
        let k = &c.hist.conns[v.conn];
        let acc = k.accepted_at.unwrap();
        let d = &s.devs[v.conn];
        match d.add {
            Some(t) if t <= acc + c.late() => (),
            Some(t) => return f(out, t, Some(v.host), format!("connected event {} us late", (t - acc) / 1000)),
            None if acc + c.late() < c.hist.t_end => {
                return f(out, acc, Some(v.host), "no connected event".into())
            }
            None => (),
        }
        let base = v.cause.map(|x| x.max(acc));
        match (d.rm, base) {
            (Some(t), None) => return f(out, t, Some(v.host), "disconnected event without a reason".into()),
            (Some(t), Some(x)) if t + c.w() < x => {
                return f(out, t, Some(v.host), "disconnected event before the connection ended".into())
            }
            (Some(t), Some(x)) if t > x + c.late() => {
                return f(out, t, Some(v.host), format!("disconnected event {} us after the end", (t - x) / 1000))
            }
            (None, Some(x)) if x + c.late() < c.hist.t_end => {
                return f(out, x, Some(v.host), format!("connection ended at {} us, no disconnected event", x / 1000))
            }
            _ => (),
        }
    }
}

#[derive(Clone, Debug)]
enum Lin {
    Create(Option<bool>, Option<u64>),
    Destroy(Option<bool>, Option<u64>),
    Connect,
    Disconnect(usize),
}

/// Linearizability of the anchor registry, per address.
pub fn registry(c: &Ctx, s: &Scene, views: &[HostView], out: &mut Vec<Violation>, n: &mut u64) {
    let mut macs: BTreeSet<Vec<u8>> = s.ops.iter().filter(|o| o.op != Op::SetPos).map(|o| o.mac.clone()).collect();
    macs.extend(s.devs.iter().filter_map(|d| d.mac.clone()));
    // connections whose address is not known may hold any address
    for mac in macs {
        let mut ops: Vec<(u64, u64, Lin, String)> = vec![];
        for o in s.ops.iter().filter(|o| o.mac == mac && o.op != Op::SetPos) {
            let l = match o.op {
                Op::Create => Lin::Create(o.res, o.handle),
                _ => Lin::Destroy(o.res, o.handle),
            };
            ops.push((o.lo, o.hi, l, o.label.clone()));
            *n += 1;
        }
        let mut unknown = false;
        for v in views {
            let d = &s.devs[v.conn];
            if d.mac.is_none() {
                unknown = true;
            }
            if d.mac.as_ref() != Some(&mac) {
                continue;
            }
            let acc = c.hist.conns[v.conn].accepted_at.unwrap();
            let i = ops.len();
            ops.push((acc, d.add.unwrap_or(NEVER), Lin::Connect, format!("host {} connects", v.host)));
            if let Some(dl) = death_lo(c, v) {
                ops.push((dl.max(acc), d.rm.unwrap_or(NEVER), Lin::Disconnect(i), format!("host {} leaves", v.host)));
            }
        }
        if unknown || ops.len() > 60 {
            continue;
        }
        if !linearize(&ops) {
            let l: Vec<String> = ops
                .iter()
                .map(|o| {
                    let r = match &o.2 {
                        Lin::Create(r, h) | Lin::Destroy(r, h) => format!("{r:?} {h:?}"),
                        _ => String::new(),
                    };
                    let hi = if o.1 == NEVER { "-".into() } else { (o.1 / 1000).to_string() };
                    format!("[{} {}..{} {}]", o.3, o.0 / 1000, hi, r)
                })
                .collect();
            out.push(Violation::of(
                &["C12"],
                None,
                ops.iter().map(|o| o.1).filter(|t| *t != NEVER).max().unwrap_or(0),
                format!("operations on {} have no sequential explanation: {}", hex(&mac), l.join(" ")),
            ));
            return;
        }
    }
}

fn linearize(ops: &[(u64, u64, Lin, String)]) -> bool {
    // state: (done mask, anchor handle: 0 none, 1 unknown, h+2; device count)
    fn go(ops: &[(u64, u64, Lin, String)], done: u64, anchor: u64, dev: u32, memo: &mut HashSet<(u64, u64, u32)>) -> bool {
        let must = |i: usize| ops[i].1 != NEVER;
        if (0..ops.len()).all(|i| done >> i & 1 == 1 || !must(i)) {
            return true;
        }
        if memo.len() > 200_000 {
            // undecided: not a violation
            return true;
        }
        if !memo.insert((done, anchor, dev)) {
            return false;
        }
        let min_hi = (0..ops.len()).filter(|i| done >> i & 1 == 0).map(|i| ops[i].1).min().unwrap();
        // a failing operation that fits here can as well be done here
        for i in 0..ops.len() {
            if done >> i & 1 == 1 || ops[i].0 > min_hi {
                continue;
            }
            let fits = match &ops[i].2 {
                Lin::Create(Some(false), _) => anchor != 0 || dev != 0,
                Lin::Destroy(Some(false), _) => anchor == 0,
                _ => false,
            };
            if fits {
                return go(ops, done | 1 << i, anchor, dev, memo);
            }
        }
        for i in 0..ops.len() {
            if done >> i & 1 == 1 || ops[i].0 > min_hi {
                continue;
            }
            let nd = done | 1 << i;
            let next: Vec<(u64, u32)> = match &ops[i].2 {
                Lin::Create(res, h) => {
                    let free = anchor == 0 && dev == 0;
                    let to = h.map_or(1, |h| h + 2);
                    match res {
                        Some(true) if free => vec![(to, dev)],
                        Some(false) if !free => vec![(anchor, dev)],
                        None if free => vec![(1, dev)],
                        None => vec![(anchor, dev)],
                        _ => vec![],
                    }
                }
                Lin::Destroy(res, h) => match res {
                    Some(true) if anchor != 0 && (anchor == 1 || h.map_or(true, |h| h + 2 == anchor)) => vec![(0, dev)],
                    Some(false) if anchor == 0 => vec![(0, dev)],
                    None => vec![(0, dev)],
                    _ => vec![],
                },
                Lin::Connect if anchor == 0 && dev == 0 => vec![(0, 1)],
                Lin::Connect => vec![],
                Lin::Disconnect(k) if done >> k & 1 == 1 => vec![(anchor, dev.saturating_sub(1))],
                Lin::Disconnect(_) => vec![],
            };
            for (a, d) in next {
                if go(ops, nd, a, d, memo) {
                    return true;
                }
            }
        }
        false
    }
    go(ops, 0, 0, 0, &mut HashSet::new())
}
