//! All checks over one recorded history.
use crate::report::*;
use crate::scene::*;
use crate::uci::*;
use crate::*;
use simtypes::*;
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct Stats(pub BTreeMap<&'static str, u64>);
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.0.entry(k).or_default() += n;
        }
    }
    pub fn get(&self, k: &str) -> u64 {
        self.0.get(k).copied().unwrap_or(0)
    }
}

pub const PROBE: &str = "probe";

/// An error of the checker itself is counted, and decides nothing.
pub fn judge(plan: &Plan, hist: &History) -> (Vec<Violation>, Stats) {
    std::panic::catch_unwind(|| judge_all(plan, hist)).unwrap_or_else(|_| {
        let mut st = Stats::default();
        st.add("oracle_errors", 1);
        (vec![], st)
    })
}

fn judge_all(plan: &Plan, hist: &History) -> (Vec<Violation>, Stats) {
    let mut out = vec![];
    let mut st = Stats::default();
    if plan.start.is_some() {
        startup::check(plan, hist, &mut out, &mut st);
        return (out, st);
    }
    let hold: u64 = plan.hold_ns();
    let mut c = Ctx { plan, hist, hold, trace_err: vec![false; hist.conns.len()] };
    // a long plan with a high report rate may use up the step limit: that says
    // nothing (a server that spins does so without simulated time passing)
    if hist.outcome == "overflow" && hist.t_end > 20_000 * MS {
        st.add("undecided_runs", 1);
        return (out, st);
    }
    if hist.outcome != "done" {
        out.push(Violation::of(
            &["*"],
            None,
            hist.t_end,
            format!("the service died: {} {}", hist.outcome, hist.panics.last().cloned().unwrap_or_default()),
        ));
        return (out, st);
    }
    if plan.pcapng {
        for (i, ci) in pcap::files(&c).into_iter().enumerate() {
            if let Some(ci) = ci {
                c.trace_err[ci] = hist.files[i].errors > 0 || hist.files[i].open_err.is_some();
            }
        }
    }
    let c = c;
    let mut views: Vec<HostView> = vec![];
    for ci in 0..hist.conns.len() {
        if hist.conns[ci].kind != 0 {
            continue;
        }
        let k = &hist.conns[ci];
        if k.accepted_at.is_none() {
            if c.too_early(k) {
                continue;
            }
            // accept faults may delay by a bounded time once over
            let slack = c.late() + c.accept_slack();
            if k.syn_at + slack < hist.t_end
                && !k.aborted
                && plan.accept_faults.iter().all(|f| (f.at + f.dur) * 1000 + slack < hist.t_end)
            {
                out.push(Violation::of(
                    &["C02", "C08"],
                    Some(k.idx),
                    k.syn_at,
                    format!("connection attempt at {} us is never accepted", k.syn_at / 1000),
                ));
            }
            continue;
        }
        let (v, mut o) = view(&c, ci);
        if plan.hosts[k.idx].role == PROBE {
            for x in &mut o {
                x.props.push("C02".into());
            }
        }
        out.extend(o);
        if let Some(v) = v {
            st.add("commands_answered", v.answered as u64);
            st.add("messages", v.outs.len() as u64);
            st.add("reports", v.reports.len() as u64);
            st.add("mixed_address_reports", v.reports.iter().filter(|r| r.ext && r.meas.iter().any(|m| m.mac <= 0xffff)).count() as u64);
            st.add("submissions", v.subs.len() as u64);
            st.add("inband_stops", v.inband.len() as u64);
            st.add("stop_requests", v.stops.len() as u64);
            st.add("states", v.timeline.values().map(|t| t.len() as u64).sum());
            st.add("announcements", v.outs.iter().filter(|o| o.mt == 3 && o.gid < 2).count() as u64);
            st.add("device_announcements", v.outs.iter().filter(|o| (o.mt, o.gid, o.oid) == (3, 0, 1)).count() as u64);
            st.add("multi_fragment_out", v.outs.iter().filter(|o| o.payload.len() > 255).count() as u64);
            st.add("multi_fragment_in", v.items.iter().filter(|i| i.frags > 1).count() as u64);
            st.add("segments_in", hist.conns[ci].rx_arrive.len() as u64);
            st.add("config_commands", v.items.iter().filter(|i| matches!(i.what, codec::In::Ctrl { gid: 1, oid: 3 | 4, .. })).count() as u64);
            st.add("multicast_commands", v.items.iter().filter(|i| matches!(i.what, codec::In::Ctrl { gid: 1, oid: 7, .. })).count() as u64);
            st.add("resets", v.items.iter().filter(|i| matches!(i.what, codec::In::Ctrl { gid: 0, oid: 0, .. })).count() as u64);
            st.add("starts", v.items.iter().filter(|i| matches!(i.what, codec::In::Ctrl { gid: 2, oid: 0, .. })).count() as u64);
            st.add("ends", v.cause.is_some() as u64);
            st.add("ends_by_command", crate::uci::kicked(&c, v.host).is_some() as u64);
            st.add("blocked_windows", v.blocked.len() as u64);
            views.push(v);
        }
    }
    let bad: Vec<usize> = out.iter().filter_map(|v| v.host).collect();
    // relations between hosts only make sense when each one was understood
    let scene = Scene::build(&c, &mut out);
    if bad.is_empty() {
        let mut n = 0;
        cross::reports(&c, &scene, &views, &mut out, &mut n);
        st.add("measurements", n);
        n = 0;
        cross::data(&c, &scene, &views, &mut out, &mut n);
        st.add("delivered_bytes", n);
        st.add("deliveries", views.iter().flat_map(|v| &v.delivs).filter(|d| !d.app.is_empty()).count() as u64);
        n = 0;
        cross::stops(&c, &views, &mut out, &mut n);
    }
    // once every host is gone, nothing is left that runs on its own
    let gone = |v: &HostView| plan.hosts[v.host].role == PROBE || v.dead_hi.map_or(false, |t| t + 100 * MS < hist.t_end);
    if plan.accept_faults.is_empty() && !views.is_empty() && views.iter().all(gone) {
        st.add("idle_ends", 1);
        if hist.armed == Some(true) {
            out.push(Violation::of(
                &["C08"],
                None,
                hist.t_end,
                "every host with a session is gone, but a timer is still armed".into(),
            ));
        }
    }
    cross::lib_events(&c, &scene, &views, &mut out);
    let mut n = 0;
    cross::registry(&c, &scene, &views, &mut out, &mut n);
    st.add("registry_ops", n);
    n = 0;
    http::check(&c, &scene, &views, &mut out, &mut n);
    st.add("http_answers", n);
    st.add("scene_events", scene.log.as_ref().map_or(0, |l| l.len() as u64));
    n = 0;
    pcap::check(&c, &mut out, &mut n);
    st.add("trace_records", n);
    st.add("connections", views.len() as u64);
    (out, st)
}
