//! Starting the server: it serves everything it was asked to, or it ends with
//! an error.  Options, ports used by others, and failing system calls.
use crate::codec::cmd;
use crate::gen::{get, step};
use crate::oracle::Stats;
use crate::report::*;
use simtypes::*;

fn flag(r: &mut Rng, args: &mut Vec<String>, long: &str, short: char, v: &str) {
    match r.below(4) {
        0 => args.push(format!("--{long}={v}")),
        1 => args.extend([format!("-{short}"), v.to_string()]),
        2 => args.push(format!("-{short}{v}")),
        _ => args.extend([format!("--{long}"), v.to_string()]),
    }
}

pub fn gen(seed: u64) -> Plan {
    // the arguments come from a small set, each is a process of its own
    let mut r = Rng::new(seed);
    let mut o = Rng::new(r.below(if r.clone().chance(50) { 12 } else { 400 }));
    let bin = if o.chance(70) { Bin::Http } else { Bin::Pica };
    let mut s = Start { args: vec![], uci_port: 7000, web_port: 3000, dir: None, valid: true, used: vec![], faults: vec![] };
    let ports = [7001u16, 3001, 7000, 3000, 1, 1023, 80, 8080, 9999, 32767, 32768, 65535, 256, 0x1234, 40000, 50000];
    if o.chance(50) {
        s.uci_port = *o.pick(&ports);
        let v = s.uci_port.to_string();
        flag(&mut o, &mut s.args, "uci-port", 'u', &v);
    }
    if bin == Bin::Http {
        if o.chance(50) {
            s.web_port = if o.chance(25) { s.uci_port } else { *o.pick(&ports) };
            let v = s.web_port.to_string();
            flag(&mut o, &mut s.args, "web-port", 'w', &v);
        }
        s.valid = s.web_port != s.uci_port;
    }
    if o.chance(40) {
        let d = *o.pick(&["/simfs", "/simfs/traces", "/simfs/a b/", "/simfs/x/../y"]);
        s.dir = Some(d.to_string());
        flag(&mut o, &mut s.args, "pcapng-dir", 'p', d);
    }
    if o.chance(12) {
        // arguments that mean nothing
        let bad: &[&str] = match o.below(6) {
            0 => &["--uci-port", "65536"],
            1 => &["--uci-port=-1"],
            2 => &["-u", "seven"],
            3 => &["--no-such-option"],
            4 => &["--pcapng-dir"],
            _ => &["extra"],
        };
        if !(bad[0].contains("-u") && s.args.iter().any(|a| a.starts_with("-u") || a.starts_with("--uci"))) {
            s.args.extend(bad.iter().map(|x| x.to_string()));
            s.valid = false;
        }
    }
    // the environment
    match r.below(10) {
        0..=2 => s.used.push(s.uci_port),
        3 | 4 => s.used.push(s.web_port),
        5 => s.used.extend([s.uci_port, s.web_port]),
        _ => (),
    }
    if r.chance(40) {
        for _ in 0..r.range(1, 2) {
            let call = *r.pick(&["socket", "setsockopt", "bind", "listen"]);
            let errno = match call {
                "socket" => *r.pick(&[24, 23, 12, 105, 97]),
                "setsockopt" => *r.pick(&[92, 12]),
                "bind" => *r.pick(&[98, 13, 99, 12]),
                _ => *r.pick(&[98, 105]),
            };
            s.faults.push(StartFault { call: call.into(), nth: r.below(3), errno });
        }
    }
    let policy = Policy {
        kind: if r.chance(30) { PolicyKind::Fifo } else { PolicyKind::Rand },
        io_percent: *r.pick(&[0, 10, 30, 61, 100]),
        budget: *r.pick(&[0, 1, 2, 128]),
        change_percent: 0,
        partial: r.chance(50),
        preempt: 0,
        park: 0,
        coincide: 0,
    };
    let mut plan = Plan {
        pcapng: s.dir.is_some(),
        seed: r.u64(),
        policy,
        holds: vec![],
        hosts: vec![],
        http: vec![],
        api: vec![],
        accept_faults: vec![],
        fs_faults: vec![],
        fs_short_percent: 0,
        stale_traces: false,
        est_none_percent: 0,
        settle_at: 0,
        end_at: 0,
        profile: "C22".into(),
        bin,
        start: None,
    };
    // clients, from this machine and from another one, before and after five seconds
    let base = if r.chance(30) { 5_000_000 } else { 50_000 };
    for k in 0..r.range(1, 3) {
        let at = base + k * 1000 + r.below(1000);
        plan.hosts.push(HostPlan {
            connect_at: at,
            cap: 65536,
            latency: 10,
            seg: Seg::Whole,
            steps: vec![step(at, false, cmd(0, 0, &[0])), step(at, true, cmd(0, 2, &[])), step(at, true, cmd(1, 5, &[]))],
            rst_discard: false,
            role: if r.chance(30) { REMOTE.into() } else { String::new() },
        });
    }
    if plan.bin == Bin::Http {
        for k in 0..r.range(1, 2) {
            let at = base + k * 1000 + r.below(1000);
            let path = *r.pick(&["/get-state", "/", "/openapi.yaml"]);
            plan.http.push(HttpPlan {
                cap: 262144,
                latency: 10,
                seg: Seg::Whole,
                steps: vec![get(at, path)],
                stall: None,
                pipeline: false,
                remote: r.chance(40),
            });
        }
    }
    plan.settle_at = base;
    plan.end_at = base + 200_000;
    plan.start = Some(s);
    plan
}

/// Answers to commands in what the server sent.
fn answers(tx: &[u8]) -> usize {
    let (mut p, mut n) = (0, 0);
    while p + 4 <= tx.len() {
        let len = if tx[p] >> 5 == 0 { u16::from_le_bytes([tx[p + 2], tx[p + 3]]) as usize } else { tx[p + 3] as usize };
        // the last fragment of a response
        n += (tx[p] >> 5 == 2 && tx[p] & 0x10 == 0) as usize;
        p += 4 + len;
    }
    n
}

pub fn check(plan: &Plan, hist: &History, out: &mut Vec<Violation>, st: &mut Stats) {
    let s = plan.start.as_ref().unwrap();
    let mut bad = |m: String| out.push(Violation::of(&["C22"], None, hist.t_end, m));
    let how = format!("started as `{} {}`", if plan.bin == Bin::Http { "pica-http" } else { "pica" }, s.args.join(" "));
    let faults: Vec<&str> = hist.faults.keys().filter(|k| k.starts_with("start_")).map(|k| k.as_str()).collect();
    let code = match hist.outcome.as_str() {
        "done" => None,
        x if x.starts_with("panic:") => Some(101),
        x => match x.strip_prefix("exit:").or(x.strip_prefix("crash:exit ")).and_then(|c| c.parse::<i32>().ok()) {
            Some(c) => Some(c),
            None => return bad(format!("{how}: {x} {}", hist.panics.last().cloned().unwrap_or_default())),
        },
    };
    if let Some(code) = code {
        st.add("stops", 1);
        // what happened is not known when it ended abruptly
        let crash = hist.outcome.starts_with("crash:") && !(s.used.is_empty() && s.faults.is_empty());
        if s.valid && faults.is_empty() && !crash {
            bad(format!("{how}: ends ({}) although nothing prevents it from serving", hist.outcome));
        } else if code == 0 {
            bad(format!("{how}: ends with status 0 although it could not serve ({faults:?})"));
        }
        return;
    }
    if !s.valid {
        return bad(format!("{how}: keeps running although the options cannot be satisfied"));
    }
    let why = if faults.is_empty() { String::new() } else { format!(" after {faults:?} it keeps running, but") };
    let mut served = 0;
    for (i, h) in plan.hosts.iter().enumerate() {
        let k = hist.conns.iter().find(|k| k.kind == 0 && k.idx == i);
        let remote = h.role == REMOTE;
        let accepted = k.map_or(false, |k| k.accepted_at.is_some());
        if remote {
            if accepted {
                return bad(format!("{how}:{why} a UCI host on another machine is accepted"));
            }
            continue;
        }
        let tx = k.map(|k| unhex(&k.tx_hex)).unwrap_or_default();
        if !accepted || answers(&tx) != h.steps.len() {
            return bad(format!(
                "{how}:{why} a UCI host connecting to port {} at {} us is {}",
                s.uci_port,
                h.connect_at,
                if accepted { "not answered" } else { "not accepted" }
            ));
        }
        served += 1;
    }
    st.add("served_hosts", served as u64);
    for (i, h) in plan.http.iter().enumerate() {
        let ok = hist.http.iter().any(|r| r.client == i && r.complete && r.status == Some(200));
        if !ok {
            return bad(format!(
                "{how}:{why} a {} request to port {} at {} us has no answer with status 200",
                if h.remote { "remote" } else { "local" },
                s.web_port,
                h.steps[0].at
            ));
        }
        st.add("served_requests", 1);
    }
    // one trace for each connection in the directory asked for, and none without
    let dir = s.dir.as_ref().map(|d| std::path::PathBuf::from(d));
    for f in &hist.files {
        match &dir {
            None => return bad(format!("{how}: writes {} without being asked to", f.path)),
            Some(d) if std::path::Path::new(&f.path).parent() != Some(d.as_path()) => {
                return bad(format!("{how}: writes {} outside the directory", f.path))
            }
            _ => (),
        }
    }
    if dir.is_some() {
        let n = hist.files.iter().filter(|f| f.hex.len() > 2 * 48).count();
        if n != served {
            return bad(format!("{how}: {n} traces are written for {served} connections"));
        }
        st.add("traces", n as u64);
    }
}
