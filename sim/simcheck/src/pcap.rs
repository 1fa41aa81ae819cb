//! The packet traces.
use crate::codec::*;
use crate::report::*;
use crate::scene::accepted;
use crate::uci::*;
use simtypes::*;

/// file index -> connection
pub fn files(c: &Ctx) -> Vec<Option<usize>> {
    let acc = accepted(c);
    let mut order: Vec<(u64, usize)> = c
        .hist
        .files
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let d: String = f.path.chars().filter(|x| x.is_ascii_digit()).collect();
            (d.parse().unwrap_or(u64::MAX), i)
        })
        .collect();
    order.sort();
    let mut v = vec![None; c.hist.files.len()];
    for (k, (_, i)) in order.iter().enumerate() {
        v[*i] = acc.get(k).copied();
    }
    v
}

fn le32(b: &[u8], p: usize) -> Option<u32> {
    b.get(p..p + 4).map(u32le)
}

/// (timestamp, packet) per record, whether the file ends inside a block
fn parse(b: &[u8]) -> Result<(Vec<(u64, Vec<u8>)>, bool), String> {
    let mut shb = vec![];
    for x in [0x0A0D0D0Au32, 28, 0x1A2B3C4D, 1, 0xffffffff, 0xffffffff, 28, 1, 20, 293, 0, 20] {
        shb.extend(x.to_le_bytes());
    }
    let n = b.len().min(shb.len());
    if b[..n] != shb[..n] {
        return Err("bad section header or interface description".into());
    }
    if b.len() < shb.len() {
        return Ok((vec![], true));
    }
    let mut p = shb.len();
    let mut v = vec![];
    while p < b.len() {
        // fixed part: type, total length, interface, ts, ts, caplen, len
        let rest = &b[p..];
        if rest.len() < 28 {
            return Ok((v, true));
        }
        if le32(rest, 0) != Some(6) {
            return Err(format!("block type {:x?} at offset {p}", le32(rest, 0)));
        }
        let total = le32(rest, 4).unwrap() as usize;
        let cap = le32(rest, 20).unwrap() as usize;
        if le32(rest, 8) != Some(0) || le32(rest, 24) != Some(cap as u32) {
            return Err(format!("bad packet block fields at offset {p}"));
        }
        let pad = total.wrapping_sub(32 + cap);
        if total % 4 != 0 || pad > 4 || (cap + pad) % 4 != 0 {
            return Err(format!("packet block of length {total} for {cap} bytes at offset {p}"));
        }
        if rest.len() < total {
            return Ok((v, true));
        }
        if le32(rest, total - 4) != Some(total as u32) {
            return Err(format!("block length not repeated at offset {p}"));
        }
        let ts = (le32(rest, 12).unwrap() as u64) << 32 | le32(rest, 16).unwrap() as u64;
        v.push((ts, rest[28..28 + cap].to_vec()));
        p += total;
    }
    Ok((v, false))
}

pub fn check(c: &Ctx, out: &mut Vec<Violation>, n: &mut u64) {
    if !c.plan.pcapng {
        return;
    }
    let map = files(c);
    let acc = accepted(c);
    let settled = |ci: &usize| c.hist.conns[*ci].accepted_at.unwrap() + c.late() < c.hist.t_end;
    let due = acc.iter().filter(|ci| settled(ci)).count();
    if c.hist.files.len() < due || c.hist.files.len() > acc.len() {
        out.push(Violation::of(
            &["C15"],
            None,
            c.hist.t_end,
            format!("{} trace files for {} connections", c.hist.files.len(), acc.len()),
        ));
        return;
    }
    for (i, file) in c.hist.files.iter().enumerate() {
        let Some(ci) = map[i] else { continue };
        let k = &c.hist.conns[ci];
        let fail = |out: &mut Vec<Violation>, w: String| {
            out.push(Violation::of(&["C15"], Some(k.idx), c.hist.t_end, format!("{}: {w}", file.path)))
        };
        if file.open_err.is_some() {
            continue;
        }
        let b = unhex(&file.hex);
        let (recs, torn) = match parse(&b) {
            Ok(x) => x,
            Err(e) => return fail(out, e),
        };
        if torn && file.errors == 0 {
            return fail(out, format!("ends inside a block ({} bytes)", b.len()));
        }
        if recs.windows(2).any(|x| x[0].0 > x[1].0) {
            return fail(out, "timestamps go backwards".into());
        }
        *n += recs.len() as u64;
        let rx = unhex(&k.rx_hex);
        let read = k.rx_read.last().map_or(0, |m| m.end as usize).min(rx.len());
        let (rxp, _) = packets(&rx[..read]);
        let tx = unhex(&k.tx_hex);
        let (txp, txend) = packets(&tx);
        let part = &tx[txend..];
        // merge: positions (rx, tx) reachable after each record
        let mut cur: Vec<(usize, usize)> = vec![(0, 0)];
        // a record that can only be one packet received, and when that was read
        let mut first: Option<(u64, u64)> = None;
        for (x, (ts, r)) in recs.iter().enumerate() {
            if let [(p, q)] = cur[..] {
                let tx = txp.get(q).map_or(r.starts_with(part), |x| x.bytes == *r);
                let at = rxp
                    .get(p)
                    .filter(|x| x.bytes == *r && !tx)
                    .and_then(|x| crate::codec::time_at(&k.rx_read, x.end))
                    .map(|m| m.t);
                if let Some(m) = at {
                    let (t0, m0) = *first.get_or_insert((*ts, m));
                    let (dt, dm) = (ts.saturating_sub(t0) * 1000, m.saturating_sub(m0));
                    if dt.abs_diff(dm) > 2 * c.late() {
                        return fail(
                            out,
                            format!("record {x} is {} us after another one, but that packet was received {} us after", dt / 1000, dm / 1000),
                        );
                    }
                }
            }
            let mut next: Vec<(usize, usize)> = vec![];
            for (p, q) in &cur {
                if rxp.get(*p).map_or(false, |k| k.bytes == *r) {
                    next.push((p + 1, *q));
                }
                let t = match txp.get(*q) {
                    Some(k) => k.bytes == *r,
                    // recorded, then not or only partly written
                    None => *q == txp.len() && r.starts_with(part),
                };
                if t {
                    next.push((*p, q + 1));
                }
            }
            next.sort();
            next.dedup();
            if next.is_empty() {
                return fail(
                    out,
                    format!("record {x} {} is not the next packet exchanged", hex(&r[..r.len().min(24)])),
                );
            }
            cur = next;
        }
        if file.errors > 0 {
            continue;
        }
        let ended = k.srv_close.is_some() || k.fin_arrived.is_some() || k.rst_arrived.is_some();
        let blocked = k.blocked.iter().any(|b| b.1 == u64::MAX);
        let slack_tx = usize::from(ended || blocked || !part.is_empty());
        let ok = cur.iter().any(|(p, q)| {
            *p >= rxp.len() && *q >= txp.len() && *q <= txp.len() + slack_tx
        });
        if !ok {
            return fail(
                out,
                format!(
                    "{} records, but {} packets were received and {} sent",
                    recs.len(),
                    rxp.len(),
                    txp.len()
                ),
            );
        }
        if let Some(t) = k.srv_close {
            if file.closed.is_none() && t + c.late() < c.hist.t_end {
                return fail(out, format!("not closed although the connection was closed at {} us", t / 1000));
            }
        }
    }
}
