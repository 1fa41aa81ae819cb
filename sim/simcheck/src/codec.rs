//! Independent UCI framing and message helpers (written from the wire format,
//! not from the generated parsers).

/// A complete message as sent by the server.
#[derive(Clone, Debug)]
pub struct Out {
    pub mt: u8,
    pub gid: u8,
    pub oid: u8,
    pub payload: Vec<u8>,
    /// time the first / last byte was written
    pub t0: u64,
    pub t1: u64,
    /// lower bound of the time it was produced
    pub lb: u64,
    pub off: usize,
    pub end: usize,
}

/// A message as read by the server.
#[derive(Clone, Debug)]
pub enum In {
    /// reassembled control message (header of first fragment + payload)
    Ctrl { mt: u8, gid: u8, oid: u8, payload: Vec<u8> },
    Data { dpf: u8, payload: Vec<u8> },
    /// packet with an unknown message type: the stream ends here
    Bad,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub what: In,
    /// arrival of the last byte, and when it was read
    pub arrive: u64,
    pub read: u64,
    pub end: usize,
    /// more than one fragment
    pub frags: usize,
}

/// One packet of the wire in either direction.
#[derive(Clone, Debug, PartialEq)]
pub struct Pkt {
    pub bytes: Vec<u8>,
    pub end: usize,
}

pub fn packets(b: &[u8]) -> (Vec<Pkt>, usize) {
    let mut v = vec![];
    let mut p = 0;
    while b.len() - p >= 4 {
        let mt = b[p] >> 5;
        if mt > 3 {
            break;
        }
        let len = if mt == 0 { u16::from_le_bytes([b[p + 2], b[p + 3]]) as usize } else { b[p + 3] as usize };
        if b.len() - p < 4 + len {
            break;
        }
        v.push(Pkt { bytes: b[p..p + 4 + len].to_vec(), end: p + 4 + len });
        p += 4 + len;
    }
    (v, p)
}

/// Time stream offset `off` (exclusive end) was covered by the marks.
pub fn time_at(marks: &[simtypes::Mark], off: usize) -> Option<&simtypes::Mark> {
    let i = marks.partition_point(|m| (m.end as usize) < off);
    marks.get(i)
}

/// Reassemble client messages from the first `read` bytes.
/// The second value tells whether fragments of different messages were mixed
/// (behaviour unspecified from that item on).
pub fn client_items(h: &simtypes::ConnHist, rx: &[u8], read: usize) -> (Vec<Item>, bool) {
    let b = &rx[..read.min(rx.len())];
    let mut items = vec![];
    let mut p = 0;
    let mut cur: Option<(u8, u8, Vec<u8>, usize)> = None;
    let mut mixed = false;
    while b.len() - p >= 4 {
        let mt = b[p] >> 5;
        let end;
        let what;
        let mut frags = 1;
        if mt > 3 {
            what = In::Bad;
            end = p + 4;
        } else {
            let pbf = (b[p] >> 4) & 1;
            let len = if mt == 0 { u16::from_le_bytes([b[p + 2], b[p + 3]]) as usize } else { b[p + 3] as usize };
            if b.len() - p < 4 + len {
                break;
            }
            end = p + 4 + len;
            let pl = &b[p + 4..end];
            match &mut cur {
                Some(c) => {
                    if (c.0 & 0xef) != (b[p] & 0xef) || c.1 & 0x3f != b[p + 1] & 0x3f {
                        mixed = true;
                    }
                    c.2.extend_from_slice(pl);
                    c.3 += 1;
                }
                None if mt == 0 => {
                    items.push(mk(h, In::Data { dpf: b[p] & 15, payload: pl.to_vec() }, end, 1));
                    p = end;
                    continue;
                }
                None => cur = Some((b[p], b[p + 1], pl.to_vec(), 1)),
            }
            if pbf == 1 && mt != 0 {
                p = end;
                continue;
            }
            let c = cur.take().unwrap();
            frags = c.3;
            what = In::Ctrl { mt: c.0 >> 5, gid: c.0 & 15, oid: c.1 & 0x3f, payload: c.2 };
        }
        let bad = matches!(what, In::Bad);
        items.push(mk(h, what, end, frags));
        p = end;
        if bad || mixed {
            break;
        }
    }
    (items, mixed)
}

/// Time the header of a packet with an unknown message type is read.
pub fn bad_header(h: &simtypes::ConnHist, rx: &[u8], read: usize) -> Option<u64> {
    let b = &rx[..read.min(rx.len())];
    let (_, p) = packets(b);
    (b.len() - p >= 4 && b[p] >> 5 > 3).then(|| mk(h, In::Bad, p + 4, 1).read)
}

fn mk(h: &simtypes::ConnHist, what: In, end: usize, frags: usize) -> Item {
    let arrive = time_at(&h.rx_arrive, end).map_or(0, |m| m.t);
    let read = time_at(&h.rx_read, end).map_or(arrive, |m| m.t);
    Item { what, arrive, read, end, frags }
}

/// Parse and reassemble the server's output.  Err(description) at the first
/// framing violation.
/// `strict`: the reserved bits of control packets must be zero.
pub fn server_msgs(h: &simtypes::ConnHist, tx: &[u8], strict: bool) -> (Vec<Out>, Option<(u64, String)>) {
    let mut v: Vec<Out> = vec![];
    let mut p = 0;
    let mut cur: Option<Out> = None;
    while tx.len() - p >= 4 {
        let b0 = tx[p];
        let mt = b0 >> 5;
        let t = time_at(&h.tx, p + 1).map_or(0, |m| m.t);
        if mt != 0 && mt != 2 && mt != 3 {
            return (v, Some((t, format!("packet with message type {mt} at offset {p}"))));
        }
        let pbf = (b0 >> 4) & 1;
        let len = if mt == 0 { u16::from_le_bytes([tx[p + 2], tx[p + 3]]) as usize } else { tx[p + 3] as usize };
        let max = if mt == 0 { 1024 } else { 255 };
        if len > max {
            return (v, Some((t, format!("packet payload of {len} bytes at offset {p}"))));
        }
        if strict && mt != 0 && (tx[p + 1] & 0xc0 != 0 || tx[p + 2] != 0) {
            return (v, Some((t, format!("reserved bits set in the header {} at offset {p}", simtypes::hex(&tx[p..p + 4])))));
        }
        if tx.len() - p < 4 + len {
            break;
        }
        let end = p + 4 + len;
        let m0 = time_at(&h.tx, p + 1).cloned().unwrap_or_default();
        let t1 = time_at(&h.tx, end).map_or(0, |m| m.t);
        let (gid, oid) = (b0 & 15, tx[p + 1] & 0x3f);
        match &mut cur {
            Some(c) => {
                if (c.mt, c.gid, c.oid) != (mt, gid, oid) {
                    return (
                        v,
                        Some((t, format!("fragment of {mt}/{gid}/{oid} inside message {}/{}/{}", c.mt, c.gid, c.oid))),
                    );
                }
                c.payload.extend_from_slice(&tx[p + 4..end]);
                c.end = end;
                c.t1 = t1;
            }
            None => {
                cur = Some(Out {
                    mt,
                    gid,
                    oid,
                    payload: tx[p + 4..end].to_vec(),
                    t0: m0.t,
                    t1,
                    lb: if m0.lb > 0 { m0.lb.min(m0.t) } else { m0.t },
                    off: p,
                    end,
                })
            }
        }
        if pbf == 1 && len == 0 {
            return (v, Some((t, format!("empty incomplete fragment at offset {p}"))));
        }
        if pbf == 0 {
            v.push(cur.take().unwrap());
        }
        p = end;
    }
    (v, None)
}

/// Whether a client never set the reserved bits of a control packet.
pub fn no_reserved(rx: &[u8]) -> bool {
    packets(rx).0.iter().all(|p| p.bytes[0] >> 5 == 0 || (p.bytes[1] & 0xc0 == 0 && p.bytes[2] == 0))
}

pub fn msg(mt: u8, gid: u8, oid: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![mt << 5 | gid, oid, 0, payload.len() as u8];
    v.extend_from_slice(payload);
    v
}
pub fn cmd(gid: u8, oid: u8, payload: &[u8]) -> Vec<u8> {
    msg(1, gid, oid, payload)
}
pub fn data_snd(session: u32, dst: u64, seq: u16, app: &[u8]) -> Vec<u8> {
    let mut p = vec![];
    p.extend_from_slice(&session.to_le_bytes());
    p.extend_from_slice(&dst.to_le_bytes());
    p.extend_from_slice(&seq.to_le_bytes());
    p.extend_from_slice(&(app.len() as u16).to_le_bytes());
    p.extend_from_slice(app);
    let mut v = vec![0x01, 0];
    v.extend_from_slice(&(p.len() as u16).to_le_bytes());
    v.extend_from_slice(&p);
    v
}

pub fn u32le(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
pub fn u16le(b: &[u8]) -> u16 {
    u16::from_le_bytes([b[0], b[1]])
}
