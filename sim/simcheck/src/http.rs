//! The HTTP front end: answers, the event stream and the state query.
use crate::report::*;
use crate::scene::*;
use crate::sse::*;
use crate::uci::*;
use simtypes::*;
use std::collections::BTreeMap;

type State = BTreeMap<(Vec<u8>, bool), Pos>;

fn same_rot(a: &Pos, b: &Pos) -> bool {
    let m = |p: &Pos| {
        let (r, x, y) =
            ((p.roll as f64).to_radians(), (p.pitch as f64).to_radians(), (p.yaw as f64).to_radians());
        // images of the z and x axes under Rz(r) Rx(x) Ry(y)
        let f = |v: [f64; 3]| {
            let v = [v[0] * y.cos() + v[2] * y.sin(), v[1], -v[0] * y.sin() + v[2] * y.cos()];
            let v = [v[0], v[1] * x.cos() - v[2] * x.sin(), v[1] * x.sin() + v[2] * x.cos()];
            [v[0] * r.cos() - v[1] * r.sin(), v[0] * r.sin() + v[1] * r.cos(), v[2]]
        };
        (f([1., 0., 0.]), f([0., 0., 1.]))
    };
    let (p, q) = (m(a), m(b));
    let d = |u: [f64; 3], v: [f64; 3]| (0..3).map(|i| (u[i] - v[i]).powi(2)).sum::<f64>().sqrt();
    d(p.0, q.0) < 0.06 && d(p.1, q.1) < 0.06
}
pub fn same_pos(a: &Pos, b: &Pos) -> bool {
    (a.x, a.y, a.z) == (b.x, b.y, b.z) && same_rot(a, b)
}

fn apply(st: &mut State, e: &Event) -> Result<(), String> {
    let key = (e.mac.clone(), e.uci);
    match e.name.as_str() {
        "device-added" => {
            if st.keys().any(|k| k.0 == e.mac) {
                return Err(format!("{} of an address that is already there", e.brief()));
            }
            st.insert(key, e.pos);
        }
        "device-removed" => {
            if st.remove(&key).is_none() {
                return Err(format!("{} of something that is not there", e.brief()));
            }
        }
        "device-updated" => match st.get_mut(&key) {
            Some(p) => *p = e.pos,
            None => return Err(format!("{} of something that is not there", e.brief())),
        },
        _ => {
            let (Some(p), Some(q)) = (st.get(&key), st.get(&(e.dst.clone(), e.dst_uci))) else {
                return Err(format!("{} between things that are not there", e.brief()));
            };
            let (d, a, el) = p.see(q);
            if (e.meas.0 - d as i64).abs() > 1 || !angle_ok(a, e.meas.1) || !angle_ok(el, e.meas.2) {
                return Err(format!("{} but the positions say {d} {a:?} {el:?}", e.brief()));
            }
        }
    }
    Ok(())
}

/// The segments of a path, without the query.
pub fn route(path: &str) -> Vec<&str> {
    path.split('?').next().unwrap().trim_start_matches('/').split('/').collect()
}

/// What is served as it is: (content type, content).
fn page(path: &str) -> Option<(&'static str, &'static Option<Vec<u8>>)> {
    use std::sync::OnceLock;
    static PAGES: OnceLock<Vec<(&str, &str, Option<Vec<u8>>)>> = OnceLock::new();
    let all = PAGES.get_or_init(|| {
        [
            ("/", "text/html", "index.html"),
            ("/openapi", "text/html", "openapi.html"),
            ("/openapi.yaml", "text/yaml", "openapi.yaml"),
            ("/src/components/Map.js", "application/javascript", "src/components/Map.js"),
            ("/src/components/DeviceInfo.js", "application/javascript", "src/components/DeviceInfo.js"),
            ("/src/components/Orientation.js", "application/javascript", "src/components/Orientation.js"),
        ]
        .map(|(u, t, f)| (u, t, std::fs::read(format!("/repo/static/{f}")).ok()))
        .into()
    });
    let path = path.split('?').next().unwrap();
    all.iter().find(|p| p.0 == path).map(|p| (p.1, &p.2))
}

struct Resp {
    status: u16,
    head: String,
    body: Vec<u8>,
    /// total length
    len: usize,
}

/// The answer at the start of `b`: an error if it cannot become one, None if it
/// is not complete.
fn response(b: &[u8]) -> Result<Option<Resp>, String> {
    let start = b"HTTP/1.1 ";
    if !start.starts_with(&b[..b.len().min(start.len())]) {
        return Err(format!("{:?} is not an answer", String::from_utf8_lossy(&b[..b.len().min(40)])));
    }
    let Some(hl) = b.windows(4).position(|w| w == b"\r\n\r\n") else { return Ok(None) };
    let head = String::from_utf8_lossy(&b[..hl]).to_ascii_lowercase();
    let status = head[9..].split(' ').next().and_then(|s| s.parse().ok()).ok_or("no status")?;
    let (body, _, done) = dechunk(b, 0);
    if !done {
        return Ok(None);
    }
    let mut len = hl + 4 + body.len();
    if head.contains("transfer-encoding: chunked") {
        len = hl + 4;
        loop {
            let e = len + b[len..].windows(2).position(|w| w == b"\r\n").ok_or("chunk")?;
            let n = usize::from_str_radix(String::from_utf8_lossy(&b[len..e]).trim(), 16).map_err(|_| "chunk size")?;
            len = e + 2 + n + 2;
            if n == 0 {
                break;
            }
        }
        if len > b.len() {
            return Ok(None);
        }
    }
    Ok(Some(Resp { status, head, body, len }))
}

/// Every request has exactly one complete answer, in order, and what is served as
/// it is arrives as it is.
fn answers(c: &Ctx, ci: usize, k: &ConnHist) -> Result<u64, (u64, String)> {
    let tx = unhex(&k.tx_hex);
    let reqs: Vec<&HttpReq> = c.hist.http.iter().filter(|r| r.conn == ci).collect();
    let (mut pos, mut prev, mut n) = (0, 0, 0);
    for r in reqs {
        let st = &c.plan.http[r.client].steps[r.step];
        let label = format!("http client {} step {} {} {}", r.client, r.step, st.method, st.path);
        if matches!(st.abort, HttpAbort::Partial { .. }) {
            return Ok(n);
        }
        let arrive = r.t_arrive.unwrap_or(r.t_send).max(k.accepted_at.unwrap_or(NEVER)).max(prev);
        if route(&st.path) == ["events"] {
            let head = String::from_utf8_lossy(&tx[pos..]).to_ascii_lowercase();
            let Some(hl) = head.find("\r\n\r\n") else { return Ok(n) };
            if !head[..hl].contains("content-type: text/event-stream") {
                return Err((arrive, format!("{label}: not an event stream")));
            }
            return Ok(n + 1);
        }
        let end = k.tx.last().map_or(0, |m| m.t);
        let a = match response(&tx[pos..]).map_err(|e| (end, format!("{label}: {e}")))? {
            Some(a) => a,
            None => {
                let until = k.blocked.iter().map(|b| b.1).fold(arrive, u64::max).saturating_add(c.late());
                let gone = r.aborted_at.map_or(false, |t| t <= until) || k.accepted_at.is_none();
                // a server may close a connection between two requests
                let between = pos == tx.len() && k.srv_fin.map_or(false, |t| t <= r.t_send + c.plan.http[r.client].latency * 1000);
                if !gone && !between && until < c.hist.t_end {
                    return Err((until, format!("{label}: no complete answer ({} bytes)", tx.len() - pos)));
                }
                return Ok(n);
            }
        };
        if let Some((mime, Some(want))) = page(&st.path) {
            if a.status == 200 && a.body != *want {
                let at = a.body.iter().zip(want).position(|(x, y)| x != y).unwrap_or(a.body.len().min(want.len()));
                return Err((end, format!("{label}: {} bytes instead of {}, different at {at}", a.body.len(), want.len())));
            }
            if !a.head.lines().any(|l| l.strip_prefix("content-type:").map_or(false, |v| v.trim().starts_with(mime))) {
                return Err((end, format!("{label}: not served as {mime}")));
            }
        }
        pos += a.len;
        prev = crate::codec::time_at(&k.tx, pos).map_or(prev, |m| m.t);
        n += 1;
    }
    if pos < tx.len() {
        return Err((prev, format!("{} bytes after the answers to all {n} requests", tx.len() - pos)));
    }
    Ok(n)
}

pub fn check(c: &Ctx, s: &Scene, views: &[HostView], out: &mut Vec<Violation>, n: &mut u64) {
    if c.plan.bin != Bin::Http {
        return;
    }
    let f = |out: &mut Vec<Violation>, p: &[&str], t: u64, w: String| out.push(Violation::of(p, None, t, w));
    let w = c.w();
    for (ci, k) in c.hist.conns.iter().enumerate().filter(|k| k.1.kind == 1) {
        match answers(c, ci, k) {
            Ok(m) => *n += m,
            Err((t, m)) => f(out, &["C20"], t, m),
        }
    }
    // ---- states after each prefix of the log
    let mut states: Vec<State> = vec![];
    if let Some(log) = &s.log {
        let mut st = State::new();
        states.push(st.clone());
        for e in log {
            if let Err(m) = apply(&mut st, e) {
                return f(out, &["C13"], e.t, m);
            }
            states.push(st.clone());
        }
    }
    let range = |log: &Vec<Event>, a: u64, b: u64| {
        let lo = log.iter().filter(|e| e.t < a).count();
        let hi = log.iter().filter(|e| e.t.saturating_sub(w) <= b).count();
        (lo, hi.max(lo))
    };
    // ---- answers
    for r in &c.hist.http {
        let st = &c.plan.http[r.client].steps[r.step];
        let k = &c.hist.conns[r.conn];
        if matches!(st.abort, HttpAbort::Partial { .. }) {
            continue;
        }
        *n += 1;
        let label = format!("http client {} step {} {} {}", r.client, r.step, st.method, st.path);
        let arrive = r.t_arrive.unwrap_or(r.t_send).max(k.accepted_at.unwrap_or(NEVER));
        // an earlier request on the same connection is answered first
        let arrive = c
            .hist
            .http
            .iter()
            .filter(|q| q.conn == r.conn && q.step < r.step)
            .filter_map(|q| http_answer(k, q))
            .map(|a| a.1)
            .fold(arrive, u64::max);
        let stuck = !k.blocked.is_empty() || r.aborted_at.map_or(false, |t| t < arrive.saturating_add(c.late()));
        let ans = http_answer(k, r);
        // a server may close a connection between two requests (hyper does when it
        // answered before the body of the request had arrived)
        let between = r.tx_start == k.tx.last().map_or(0, |m| m.end)
            && k.srv_fin.map_or(false, |t| t <= r.t_send + c.plan.http[r.client].latency * 1000);
        match ans {
            None if between => continue,
            None => {
                if !stuck && arrive.saturating_add(c.late()) < c.hist.t_end {
                    return f(out, &["C13", "C20", "C02", "C14"], arrive, format!("{label} was never answered"));
                }
                if !stuck && k.accepted_at.is_none() && !c.too_early(k) && r.t_send + c.late() + c.accept_slack() < c.hist.t_end && !k.aborted {
                    return f(out, &["C13", "C20", "C02", "C14"], r.t_send, format!("{label}: connection never accepted"));
                }
                continue;
            }
            Some((_, t)) => {
                if !stuck && t > arrive + c.late() {
                    return f(
                        out,
                        &["C13", "C20", "C02", "C14"],
                        t,
                        format!("{label} answered {} us after it arrived", (t - arrive) / 1000),
                    );
                }
            }
        }
        let (status, t) = ans.unwrap();
        let parts = route(&st.path);
        let want: &[u16] = match parts[..] {
            ["events"] | ["get-state"] => &[200],
            _ if page(&st.path).is_some() => &[200],
            ["set-position", m] if st.body.trim().is_empty() && parse_mac(m).is_some() => &[406],
            ["create-anchor", m] | ["set-position", m] | ["init-uci-device", m] => {
                if parse_mac(m).is_none() || parse_pos(&st.body).is_err() {
                    &[406]
                } else if parts[0] == "create-anchor" {
                    &[200, 409]
                } else {
                    &[200, 404]
                }
            }
            ["destroy-anchor", m] => {
                if parse_mac(m).is_none() {
                    &[406]
                } else {
                    &[200, 404]
                }
            }
            _ => &[404],
        };
        if !want.contains(&status) {
            let p: &[&str] =
                if parts[0].ends_with("-anchor") { &["C12", "C13", "C20"] } else { &["C13", "C20"] };
            return f(out, p, t, format!("{label} answered {status}, expected {want:?}"));
        }
        let Some(log) = &s.log else { continue };
        if s.log_from > r.t_send {
            continue;
        }
        if parts.len() == 2 && ["set-position", "init-uci-device"].contains(&parts[0]) && status != 406 {
            let mac = parse_mac(parts[1]).unwrap();
            let (a, b) = range(log, r.t_send, t);
            let here = |i: usize| states[i].keys().any(|k| k.0 == mac);
            let ok = (a..=b).any(|i| here(i) == (status == 200));
            if !ok {
                return f(
                    out,
                    &["C13"],
                    t,
                    format!("{label} answered {status} although the address is {}there", if status == 200 { "not " } else { "" }),
                );
            }
        }
        if parts == ["get-state"] && r.complete {
            let tx = unhex(&k.tx_hex);
            let (body, ends, done) = dechunk(&tx[r.tx_start as usize..], r.tx_start as usize);
            if !done {
                continue;
            }
            let _ = ends;
            let j: serde_json::Value = serde_json::from_slice(&body).unwrap_or_default();
            let mut got = State::new();
            let list = j.get("devices").and_then(|x| x.as_array()).cloned();
            let mut bad = list.is_none();
            for d in list.unwrap_or_default() {
                let cat = match d.get("category").and_then(|x| x.as_str()) {
                    Some("Uci") => true,
                    Some("Anchor") => false,
                    _ => {
                        bad = true;
                        continue;
                    }
                };
                let mac = d.get("mac_address").and_then(|x| x.as_str()).and_then(parse_mac);
                match (mac, json_pos(&d)) {
                    (Some(m), Some(p)) => bad |= got.insert((m, cat), p).is_some(),
                    _ => bad = true,
                }
            }
            if bad {
                return f(out, &["C13"], t, format!("{label}: bad state {}", String::from_utf8_lossy(&body)));
            }
            let (a, b) = range(log, r.t_send, t);
            if !(a..=b).any(|i| states[i] == got) {
                return f(
                    out,
                    &["C13"],
                    t,
                    format!("{label} returned {got:?}, the events so far say {:?}", states[b]),
                );
            }
        }
    }
    let Some(log) = &s.log else { return };
    // ---- every operation has its event and the other way round
    let mut used = vec![false; log.len()];
    let find = |used: &[bool], name: &str, mac: &[u8], uci: Option<bool>, pos: Option<&Pos>, a: u64, b: u64| {
        log.iter().enumerate().position(|(i, e)| {
            !used[i]
                && e.name == name
                && e.mac == mac
                && uci.map_or(true, |u| u == e.uci)
                && pos.map_or(true, |p| same_pos(p, &e.pos))
                && e.t >= a
                && e.t.saturating_sub(w) <= b
        })
    };
    let mut order: Vec<&SceneOp> = s.ops.iter().collect();
    order.sort_by_key(|o| (o.res != Some(true), o.hi));
    for o in order {
        if o.res == Some(false) {
            continue;
        }
        let (name, uci) = match o.op {
            Op::Create => ("device-added", Some(false)),
            Op::Destroy => ("device-removed", Some(false)),
            Op::SetPos => ("device-updated", None),
        };
        let pos = (o.op != Op::Destroy).then_some(&o.pos);
        match find(&used, name, &o.mac, uci, pos, o.lo, o.hi) {
            Some(i) => {
                used[i] = true;
                if o.op == Op::SetPos {
                    // one pair of neighbour events per other device
                    let others: Vec<(Vec<u8>, bool)> =
                        states[i + 1].keys().filter(|k| k.0 != o.mac).cloned().collect();
                    let mut want: Vec<(Vec<u8>, Vec<u8>)> = vec![];
                    for (m, _) in &others {
                        want.push((o.mac.clone(), m.clone()));
                        want.push((m.clone(), o.mac.clone()));
                    }
                    for (x, e) in log[i + 1..].iter().enumerate().take(want.len()) {
                        let key = (e.mac.clone(), e.dst.clone());
                        match want.iter().position(|k| e.name == "neighbor-updated" && *k == key) {
                            Some(p) => {
                                want.remove(p);
                                used[i + 1 + x] = true;
                            }
                            None => {
                                return f(
                                    out,
                                    &["C13"],
                                    e.t,
                                    format!("{}: expected neighbour updates, got {}", o.label, e.brief()),
                                )
                            }
                        }
                    }
                    if log.len() < i + 1 + 2 * others.len() {
                        return f(out, &["C13"], log[i].t, format!("{}: neighbour updates missing", o.label));
                    }
                }
            }
            None if o.res == Some(true) && o.lo >= s.log_from && o.hi + c.late() < c.hist.t_end => {
                let p: &[&str] = if o.pos == Pos::default() { &["C13", "C20"] } else { &["C13"] };
                return f(out, p, o.hi, format!("{}: no {name} event", o.label))
            }
            None => (),
        }
    }
    let mut fw = vec![];
    for v in views {
        let k = &c.hist.conns[v.conn];
        let acc = k.accepted_at.unwrap();
        let d = &s.devs[v.conn];
        let Some(mac) = &d.mac else {
            if acc > s.log_from && acc + c.late() < c.hist.t_end {
                return f(out, &["C13", "C08"], acc, format!("no device-added event for host {}", v.host));
            }
            continue;
        };
        match find(&used, "device-added", mac, Some(true), Some(&Pos::default()), acc, acc + c.late()) {
            Some(i) => used[i] = true,
            None => {
                return f(
                    out,
                    &["C13", "C08"],
                    acc,
                    format!("host {}: device-added event late, early or with a wrong position", v.host),
                )
            }
        }
        fw.push((v, mac.clone()));
    }
    for (v, mac) in fw {
        let acc = c.hist.conns[v.conn].accepted_at.unwrap();
        let Some(x) = v.cause.map(|x| x.max(acc)) else { continue };
        match find(&used, "device-removed", &mac, Some(true), None, x, x + c.late()) {
            Some(i) => used[i] = true,
            None if x + c.late() < c.hist.t_end => {
                return f(
                    out,
                    &["C13", "C08"],
                    x,
                    format!("host {} left at {} us, no device-removed event in time", v.host, x / 1000),
                )
            }
            None => (),
        }
    }
    if let Some(i) = used.iter().position(|u| !u) {
        let refused = c.hist.http.iter().any(|r| {
            let st = &c.plan.http[r.client].steps[r.step];
            let to = route(&st.path).get(1).and_then(|m| parse_mac(m));
            to.as_ref() == Some(&log[i].mac) && http_answer(&c.hist.conns[r.conn], r).map_or(false, |a| a.0 == 404 || a.0 == 406)
        });
        let p: &[&str] = if refused { &["C13", "C20"] } else { &["C13"] };
        return f(out, p, log[i].t, format!("event without a cause: {}", log[i].brief()));
    }
    // ---- other subscribers see a suffix of the log
    for r in &c.hist.http {
        let st = &c.plan.http[r.client].steps[r.step];
        if st.path != "/events" || (r.client == 0 && r.step == 0) {
            continue;
        }
        let k = &c.hist.conns[r.conn];
        let stalled = c.plan.http[r.client].stall.is_some();
        let Some((200, t0)) = http_answer(k, r) else { continue };
        let l = match events(k, r.tx_start as usize) {
            Ok(l) => l,
            Err(e) => return f(out, &["C13", "C20"], t0, e),
        };
        let (a, b) = range(log, r.t_send, t0);
        let end = [r.aborted_at, k.srv_close, k.srv_fin].into_iter().flatten().min();
        if end.is_some() && r.aborted_at.is_none() && !stalled && !s.may_lag(c, k, end.unwrap()) {
            return f(
                out,
                &["C13"],
                end.unwrap(),
                format!("event stream of client {} ended by the server", r.client),
            );
        }
        let complete = end.is_none() && !stalled && k.blocked.is_empty();
        let last = log.iter().filter(|e| e.t + c.late() < c.hist.t_end).count();
        let fits = (a..=b).any(|x| {
            l.len() <= log.len() - x
                && l.iter().zip(&log[x..]).all(|(p, q)| p.same(q))
                && (!complete || x + l.len() >= last)
        });
        if !fits {
            let i = l.iter().zip(&log[a..]).position(|(p, q)| !p.same(q)).unwrap_or(l.len());
            return f(
                out,
                &["C13"],
                l.get(i).map_or(c.hist.t_end, |e| e.t),
                format!(
                    "subscriber {} saw {} events from {} us on, the first subscriber {} (position {i}: {:?})",
                    r.client,
                    l.len(),
                    t0 / 1000,
                    log.len() - a,
                    l.get(i).map(|e| e.brief())
                ),
            );
        }
    }
}
