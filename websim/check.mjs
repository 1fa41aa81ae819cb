// Driver of the web page simulations: seeds, workers, minimisation, evidence.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fork } from "node:child_process";
import { fileURLToPath } from "node:url";
import { gen, execute } from "./sim.mjs";

const PROP = "C19";
const HERE = path.dirname(fileURLToPath(import.meta.url));
const BATCH = 100;
const PER_PROCESS = 15; // batches: every simulated page load leaves its modules in memory

function args() {
  const a = { tier: "quick", seed: "1", evidence: "", known: "", replays: path.join(HERE, "..", "replays"), secs: "0", count: "0" };
  const v = process.argv.slice(2);
  for (let i = 0; i < v.length; i += 2) a[v[i].replace(/^--/, "")] = v[i + 1] ?? "";
  return a;
}

function mix(seed, i) {
  const M = 0xffffffffffffffffn;
  let x = (BigInt(seed) * 0x9e3779b97f4a7c15n + BigInt(i) * 0xd6e8feb86659fd93n + 0x7654321n) & M;
  x ^= x >> 32n;
  x = (x * 0xd6e8feb86659fd93n) & M;
  return x ^ (x >> 32n);
}

function add(to, from) {
  for (const k in from) to[k] = (to[k] || 0) + from[k];
}

async function work({ seed, lo, hi }) {
  const res = { runs: 0, hashes: [], faults: {}, work: {}, sim: 0, steps: 0, bad: [], sample: null };
  for (let i = lo; i < hi; i++) {
    const sd = mix(seed, i);
    const plan = gen(sd);
    const r = await execute(plan);
    res.runs++;
    const s = r.stats();
    add(res.faults, s.faults);
    add(res.work, s.work);
    res.sim += r.now;
    res.steps += r.steps;
    if ((s.work.events || 0) >= 2 && (Object.keys(s.faults).length || s.work.user_changes || plan.lat)) {
      res.hashes.push(r.digest);
      if (!res.sample) res.sample = { seed: String(sd), plan, trace_hash: r.digest, faults: s.faults, observed: s.work };
    }
    if (r.bad.length) res.bad.push([String(sd), r.bad[0]]);
  }
  return res;
}

async function minimise(plan, secs) {
  const t0 = Date.now();
  const late = () => Date.now() - t0 > secs * 1000;
  let best = structuredClone(plan);
  const attempt = async (f) => {
    const c = structuredClone(best);
    f(c);
    if (!(await execute(c)).bad.length) return false;
    best = c;
    return true;
  };
  for (const key of ["faults", "user", "ops", "initial"]) {
    let n = Math.max(1, best[key].length >> 1);
    for (; n >= 1 && !late(); n >>= 1)
      for (let i = 0; i < best[key].length && !late(); )
        if (!(await attempt((c) => c[key].splice(i, n)))) i += n;
  }
  for (const key of ["lat", "sse_lat", "load_at"]) if (best[key]) await attempt((c) => (c[key] = 0));
  return best;
}

function known(file) {
  try {
    return [...fs.readFileSync(file, "utf8").matchAll(/^finding: property=(\w+) match="([^"]*)" (.*)$/gm)]
      .filter((m) => m[1] === PROP)
      .map((m) => [m[2], m[3]]);
  } catch {
    return [];
  }
}

async function search(a) {
  const quick = a.tier === "quick";
  const secs = +a.secs || (quick ? 45 : 780);
  const count = +a.count || (quick ? 20_000 : 1e9);
  const t0 = Date.now();
  const tot = { runs: 0, faults: {}, work: {}, sim: 0, steps: 0 };
  const hashes = new Set();
  const samples = [];
  const kf = known(a.known);
  const kfSeen = {};
  let bad = null;
  let error = null;
  let next = 0;
  const job = () => {
    if (bad || error || next >= count || Date.now() - t0 > secs * 1000) return null;
    const j = { seed: a.seed, lo: next, hi: Math.min(count, next + BATCH) };
    next = j.hi;
    return j;
  };
  const merge = (res) => {
    tot.runs += res.runs;
    tot.sim += res.sim;
    tot.steps += res.steps;
    add(tot.faults, res.faults);
    add(tot.work, res.work);
    for (const h of res.hashes) hashes.add(h);
    if (res.sample && samples.length < 3) samples.push(res.sample);
    for (const b of res.bad) {
      const k = kf.find((x) => b[1].what.includes(x[0]));
      if (k) kfSeen[k[1]] = (kfSeen[k[1]] || 0) + 1;
      else bad ??= b;
    }
  };
  const lane = async () => {
    for (;;) {
      let j = job();
      if (!j) return;
      await new Promise((resolve) => {
        const child = fork(fileURLToPath(import.meta.url), ["--worker", "1"], { stdio: ["ignore", "ignore", "inherit", "ipc"] });
        let left = PER_PROCESS;
        child.on("message", (m) => {
          if (m.error) error = m.error;
          else merge(m);
          j = --left > 0 ? job() : null;
          if (j) child.send(j);
          else child.disconnect();
        });
        child.on("exit", (code) => {
          if (j) error ??= `a worker ended with ${code} in runs ${j.lo} to ${j.hi}`;
          resolve();
        });
        child.send(j);
      });
    }
  };
  await Promise.all(Array.from({ length: os.availableParallelism() }, lane));
  if (error) {
    process.stderr.write(error + "\n");
    return 2;
  }
  for (const k in kfSeen) console.log(`KNOWN-FINDING: property=${PROP} ${k}`);
  const wall = (Date.now() - t0) / 1000;
  if (bad) {
    const plan = await minimise(gen(BigInt(bad[0])), 40);
    const r = await execute(plan, true);
    fs.mkdirSync(a.replays, { recursive: true });
    const file = path.resolve(a.replays, `${PROP}-${BigInt(bad[0]).toString(16).padStart(16, "0")}.json`);
    fs.writeFileSync(file, JSON.stringify({ property: PROP, seed: bad[0], violation: r.bad[0], trace_hash: r.digest, plan, trace: r.trace }, null, 1));
    console.log(`seed ${bad[0]}: at ${r.bad[0].t_ms} ms: ${r.bad[0].what}`);
    console.log(`VIOLATION property=${PROP} replay=${file}`);
  }
  if (a.evidence) {
    fs.mkdirSync(path.dirname(a.evidence), { recursive: true });
    const evidence = {
      property: PROP, tier: a.tier, seed: +a.seed, level: "exploration", wall_s: wall, violations: bad ? 1 : 0,
      assumptions: [
        "the simulated browser delivers events, responses and timers as browsers do: the events of one stream in order, requests in any order, a lost stream reopened after its retry time",
        "lit is replaced by a stub with the part of its behaviour that the components use",
      ],
      coverage: {
        evaluations: tot.runs, distinct_nontrivial: hashes.size,
        rule: "One case = one simulated life of the page under a plan generated from (VERIF_SEED, index): devices added, removed, moved and measured by others, latencies of requests and of the event stream, dropped streams, outages and restarts of the server, and the actions of the user. Non-trivial when at least two events were sent and latencies, faults or changes by the user were part of the run; distinct by the hash of all requests, responses, events and user actions with their times.",
        samples, simulated_seconds: tot.sim / 1000, seeds_per_hour: Math.floor((tot.runs / Math.max(wall, 0.01)) * 3600),
        loop_iterations: tot.steps, faults_injected: tot.faults, workload: tot.work,
        known_findings_seen: Object.values(kfSeen).reduce((x, y) => x + y, 0),
        real_components: ["static/index.html (script)", "static/src/components/Map.js", "static/src/components/DeviceInfo.js", "static/src/components/Orientation.js"],
        stub_components: ["lit", "DOM, EventSource, fetch and timers of the browser", "the user", "the server (its HTTP interface over a scene)"],
      },
    };
    fs.writeFileSync(a.evidence, JSON.stringify(evidence, null, 1));
  }
  console.log(`${PROP}: ${tot.runs} runs, ${hashes.size} distinct non-trivial, ${(tot.sim / 1000).toFixed(1)} simulated s, ${wall.toFixed(1)} s wall`);
  return bad ? 1 : 0;
}

async function main() {
  const a = args();
  if (a.replay) {
    const rep = JSON.parse(fs.readFileSync(a.replay, "utf8"));
    const r = await execute(rep.plan, true);
    for (const e of r.trace) console.log(JSON.stringify(e));
    if (!r.bad.length) {
      console.log("not reproduced");
      return 0;
    }
    console.log(`at ${r.bad[0].t_ms} ms: ${r.bad[0].what}`);
    const same = r.digest === rep.trace_hash && JSON.stringify(r.bad[0]) === JSON.stringify(rep.violation);
    console.log(same ? "reproduced exactly" : "reproduced, but differently");
    console.log(`VIOLATION property=${PROP} replay=${a.replay}`);
    return 1;
  }
  if (a.one) {
    const plan = gen(BigInt(a.one));
    const r = await execute(plan, true);
    for (const e of r.trace) console.log(JSON.stringify(e).slice(0, 200));
    console.log(r.bad, r.errors, JSON.stringify(plan));
    return 0;
  }
  return search(a);
}

if (process.argv.includes("--worker")) {
  process.on("message", async (j) => {
    try {
      process.send(await work(j));
    } catch (e) {
      process.send({ error: String(e?.stack || e) });
    }
  });
} else process.exit(await main());
