//! Shrinks a failing plan while the same property stays violated.
use crate::worker::Workers;
use crate::{evaluate, Eval};
use simtypes::*;
use std::time::{Duration, Instant};

struct M<'a> {
    w: &'a mut Workers,
    prop: &'a str,
    skip: &'a [String],
    best: Plan,
    eval: Option<Eval>,
    end: Instant,
}

impl M<'_> {
    fn attempt(&mut self, p: Plan) -> bool {
        if Instant::now() > self.end {
            return false;
        }
        let Ok(mut e) = evaluate(self.w, self.prop, &p) else { return false };
        e.hits.retain(|v| !self.skip.iter().any(|s| v.what.contains(s)));
        if e.hits.is_empty() {
            return false;
        }
        self.best = p;
        self.eval = Some(e);
        true
    }
    /// ddmin over a list inside the plan
    fn shrink<T: Clone>(&mut self, get: &dyn Fn(&mut Plan) -> Option<&mut Vec<T>>) -> bool {
        let mut any = false;
        let len = match get(&mut self.best.clone()) {
            Some(v) => v.len(),
            None => return false,
        };
        let mut chunk = len.next_power_of_two().max(1);
        while chunk >= 1 {
            let mut i = 0;
            loop {
                let mut p = self.best.clone();
                let Some(v) = get(&mut p) else { break };
                if i >= v.len() {
                    break;
                }
                let e = (i + chunk).min(v.len());
                v.drain(i..e);
                if self.attempt(p) {
                    any = true;
                } else {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
        any
    }
    fn edit(&mut self, f: &dyn Fn(&mut Plan)) -> bool {
        let mut p = self.best.clone();
        f(&mut p);
        if serde_json::to_string(&p).unwrap() == serde_json::to_string(&self.best).unwrap() {
            return false;
        }
        self.attempt(p)
    }
}

pub fn minimise(w: &mut Workers, prop: &str, plan: Plan, skip: &[String], cap: Duration) -> (Plan, Option<Eval>) {
    let mut m = M { w, prop, skip, best: plan.clone(), eval: None, end: Instant::now() + cap };
    if !m.attempt(plan.clone()) {
        return (plan, None);
    }
    for _ in 0..4 {
        let mut any = false;
        any |= m.shrink(&|p| Some(&mut p.hosts));
        any |= m.shrink(&|p| Some(&mut p.http));
        any |= m.shrink(&|p| Some(&mut p.api));
        any |= m.shrink(&|p| Some(&mut p.holds));
        any |= m.shrink(&|p| Some(&mut p.accept_faults));
        any |= m.shrink(&|p| Some(&mut p.fs_faults));
        any |= m.shrink(&|p| p.start.as_mut().map(|s| &mut s.faults));
        any |= m.shrink(&|p| p.start.as_mut().map(|s| &mut s.used));
        for i in 0..m.best.hosts.len() {
            any |= m.shrink(&move |p: &mut Plan| p.hosts.get_mut(i).map(|h| &mut h.steps));
        }
        for i in 0..m.best.http.len() {
            any |= m.shrink(&move |p: &mut Plan| p.http.get_mut(i).map(|h| &mut h.steps));
        }
        for i in 0..m.best.api.len() {
            any |= m.shrink(&move |p: &mut Plan| p.api.get_mut(i));
        }
        any |= m.edit(&|p| p.fs_short_percent = 0);
        any |= m.edit(&|p| p.est_none_percent = 0);
        any |= m.edit(&|p| p.pcapng = false);
        any |= m.edit(&|p| p.policy.preempt = 0);
        any |= m.edit(&|p| p.policy.coincide = 0);
        any |= m.edit(&|p| p.policy.park = 0);
        any |= m.edit(&|p| {
            p.policy = Policy { kind: PolicyKind::Fifo, io_percent: 30, budget: 0, change_percent: 0, partial: false, preempt: p.policy.preempt, coincide: p.policy.coincide, park: p.policy.park }
        });
        any |= m.edit(&|p| p.policy.kind = PolicyKind::Fifo);
        any |= m.edit(&|p| p.policy.partial = false);
        any |= m.edit(&|p| p.policy.budget = 0);
        for i in 0..m.best.hosts.len() {
            any |= m.edit(&move |p: &mut Plan| p.hosts[i].seg = Seg::Whole);
            any |= m.edit(&move |p: &mut Plan| {
                for s in &mut p.hosts[i].steps {
                    if let Act::Send { frag, .. } = &mut s.act {
                        frag.clear();
                    }
                }
            });
            any |= m.edit(&move |p: &mut Plan| {
                for s in &mut p.hosts[i].steps {
                    s.sync = false;
                }
            });
            any |= m.edit(&move |p: &mut Plan| p.hosts[i].cap = 65536);
            any |= m.edit(&move |p: &mut Plan| p.hosts[i].latency = 10);
        }
        for i in 0..m.best.http.len() {
            any |= m.edit(&move |p: &mut Plan| p.http[i].seg = Seg::Whole);
            any |= m.edit(&move |p: &mut Plan| p.http[i].stall = None);
        }
        if !any || Instant::now() > m.end {
            break;
        }
    }
    (m.best.clone(), m.eval)
}
