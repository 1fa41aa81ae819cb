//! Decoding of the server-sent event stream.
use crate::scene::{parse_mac, Pos};
use simtypes::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Event {
    pub t: u64,
    pub name: String,
    pub uci: bool,
    pub mac: Vec<u8>,
    pub pos: Pos,
    pub dst: Vec<u8>,
    pub dst_uci: bool,
    /// distance, azimuth, elevation
    pub meas: (i64, i64, i64),
}
impl Event {
    pub fn uci_added(&self) -> bool {
        self.name == "device-added" && self.uci
    }
    pub fn same(&self, o: &Event) -> bool {
        let mut e = self.clone();
        e.t = o.t;
        e == *o
    }
    pub fn brief(&self) -> String {
        match self.name.as_str() {
            "neighbor-updated" => format!("{} {} -> {} {:?}", self.name, hex(&self.mac), hex(&self.dst), self.meas),
            "device-removed" => format!("{} {}", self.name, hex(&self.mac)),
            _ => format!("{} {} {:?}", self.name, hex(&self.mac), self.pos),
        }
    }
}

pub fn json_pos(v: &serde_json::Value) -> Option<Pos> {
    let g = |n: &str| v.get(n).and_then(|x| x.as_i64());
    Some(Pos { x: g("x")?, y: g("y")?, z: g("z")?, yaw: g("yaw")?, pitch: g("pitch")?, roll: g("roll")? })
}

/// (body bytes with the stream offset of each byte's end, complete)
pub fn dechunk(b: &[u8], base: usize) -> (Vec<u8>, Vec<usize>, bool) {
    let mut body = vec![];
    let mut ends = vec![];
    let Some(hl) = b.windows(4).position(|w| w == b"\r\n\r\n") else { return (body, ends, false) };
    let head = String::from_utf8_lossy(&b[..hl]).to_ascii_lowercase();
    let mut p = hl + 4;
    if !head.contains("transfer-encoding: chunked") {
        let len = head
            .lines()
            .find_map(|l| l.strip_prefix("content-length:").and_then(|v| v.trim().parse::<usize>().ok()))
            .unwrap_or(0);
        let end = (p + len).min(b.len());
        for i in p..end {
            body.push(b[i]);
            ends.push(base + i + 1);
        }
        return (body, ends, end == p + len);
    }
    loop {
        let Some(e) = b[p..].windows(2).position(|w| w == b"\r\n") else { return (body, ends, false) };
        let n = usize::from_str_radix(String::from_utf8_lossy(&b[p..p + e]).trim(), 16).unwrap_or(0);
        p += e + 2;
        if n == 0 {
            return (body, ends, true);
        }
        let end = (p + n).min(b.len());
        for i in p..end {
            body.push(b[i]);
            ends.push(base + i + 1);
        }
        if end < p + n || b.len() < p + n + 2 {
            return (body, ends, false);
        }
        p += n + 2;
    }
}

/// The events on an event-stream response that starts at `start`.
pub fn events(k: &ConnHist, start: usize) -> Result<Vec<Event>, String> {
    let tx = unhex(&k.tx_hex);
    let (body, ends, _) = dechunk(&tx[start.min(tx.len())..], start);
    let mut v = vec![];
    let mut p = 0;
    while let Some(e) = body[p..].windows(2).position(|w| w == b"\n\n") {
        let block = String::from_utf8_lossy(&body[p..p + e]).to_string();
        let end = ends[p + e + 1];
        p += e + 2;
        let t = crate::codec::time_at(&k.tx, end).map_or(0, |m| m.t);
        let mut name = String::new();
        let mut data = String::new();
        for l in block.lines() {
            if let Some(x) = l.strip_prefix("event:") {
                name = x.trim().to_string();
            }
            if let Some(x) = l.strip_prefix("data:") {
                data.push_str(x.trim());
            }
        }
        let bad = || format!("malformed event {block:?}");
        let j: serde_json::Value = serde_json::from_str(&data).map_err(|_| bad())?;
        let cat = |n: &str| match j.get(n).and_then(|x| x.as_str()) {
            Some("Uci") => Ok(true),
            Some("Anchor") => Ok(false),
            _ => Err(bad()),
        };
        let mac = |n: &str| j.get(n).and_then(|x| x.as_str()).and_then(parse_mac).ok_or_else(bad);
        let mut ev = Event {
            t,
            name: name.clone(),
            uci: false,
            mac: vec![],
            pos: Pos::default(),
            dst: vec![],
            dst_uci: false,
            meas: (0, 0, 0),
        };
        match name.as_str() {
            "device-added" | "device-updated" => {
                ev.uci = cat("category")?;
                ev.mac = mac("mac_address")?;
                ev.pos = json_pos(&j).ok_or_else(bad)?;
            }
            "device-removed" => {
                ev.uci = cat("category")?;
                ev.mac = mac("mac_address")?;
            }
            "neighbor-updated" => {
                ev.uci = cat("source_category")?;
                ev.mac = mac("source_mac_address")?;
                ev.dst_uci = cat("destination_category")?;
                ev.dst = mac("destination_mac_address")?;
                let g = |n: &str| j.get(n).and_then(|x| x.as_i64()).ok_or_else(bad);
                ev.meas = (g("distance")?, g("azimuth")?, g("elevation")?);
            }
            _ => return Err(bad()),
        }
        v.push(ev);
    }
    Ok(v)
}
