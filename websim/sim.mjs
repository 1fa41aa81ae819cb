// One simulated execution of the web page: the real script of index.html and
// its components against a simulated browser, network and server.
import fs from "node:fs";
import path from "node:path";
import { createHash } from "node:crypto";
import { registerHooks } from "node:module";
import { fileURLToPath, pathToFileURL } from "node:url";

const HERE = path.dirname(fileURLToPath(import.meta.url));
const STATIC = process.env.VERIF_STATIC || "/repo/static";
const ROOT = pathToFileURL(STATIC + "/").href;
globalThis.RealMap = Map;
const realConsole = console;
const realTimers = { setImmediate, setTimeout, clearTimeout };

export class Rng {
  constructor(seed) {
    this.s = BigInt(seed) & 0xffffffffffffffffn;
    this.u();
  }
  u() {
    this.s = (this.s + 0x9e3779b97f4a7c15n) & 0xffffffffffffffffn;
    let z = this.s;
    z = ((z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n) & 0xffffffffffffffffn;
    z = ((z ^ (z >> 27n)) * 0x94d049bb133111ebn) & 0xffffffffffffffffn;
    return z ^ (z >> 31n);
  }
  below(n) {
    return Number((this.u() >> 11n) % BigInt(Math.max(1, Math.floor(n))));
  }
  range(a, b) {
    return a + this.below(b - a + 1);
  }
  chance(p) {
    return this.below(100) < p;
  }
  pick(l) {
    return l[this.below(l.length)];
  }
}

// ------------------------------------------------------------------ plans
const macOf = (i) => (i % 5 === 4 ? `0A:0B:0C:0D:0E:0F:10:${(i + 16).toString(16).toUpperCase()}` : `00:0${i}`);
function pos(r) {
  return {
    x: r.range(-600, 600), y: r.range(0, 300), z: r.range(-600, 600),
    yaw: r.range(-179, 180), pitch: r.range(-90, 90), roll: r.range(-179, 180),
  };
}

export function gen(seed) {
  const r = new Rng(seed);
  const plan = { seed: String(seed), net: String(r.u()), ops: [], user: [], faults: [] };
  const span = r.pick([50, 1000, 10000, 60000]);
  plan.lat = r.pick([0, 1, 20, 500, 3000]);
  plan.sse_lat = r.pick([0, 1, 20, 500]);
  plan.retry = r.pick([500, 3000]);
  plan.load_at = r.pick([0, r.below(50), r.below(3000)]);
  plan.initial = [];
  const n = r.range(1, 7);
  for (let i = 0; i < n; i++) if (r.chance(50)) plan.initial.push({ i, ...pos(r) });
  const nops = r.pick([0, 2, 5, 12, 40]);
  let t = 0;
  const start = r.pick([0, 0, plan.lat, 2000]);
  for (let k = 0; k < nops; k++) {
    t += r.below((2 * span) / nops + 1);
    const i = r.below(n);
    const kind = r.below(10);
    const at = start + t;
    if (kind < 3) plan.ops.push({ at, do: "add", i, ...pos(r) });
    else if (kind < 5) plan.ops.push({ at, do: "remove", i });
    else if (kind < 8) plan.ops.push({ at, do: "move", i, ...pos(r), near: r.chance(80) });
    else plan.ops.push({ at, do: "near", i, j: r.below(n), d: r.below(60000), a: r.range(-179, 180), e: r.range(-90, 90) });
  }
  let end = start + t;
  const nuser = r.pick([0, 0, 1, 4, 10]);
  t = r.below(span);
  for (let k = 0; k < nuser; k++) {
    t += r.below((2 * span) / nuser + 1);
    const dur = r.pick([0, 1, 50, 800]);
    const w = r.below(10);
    if (w < 5) plan.user.push({ at: t, do: "drag", pick: r.below(100), x: r.range(-700, 700), y: r.range(-700, 700), moves: r.below(4), dur });
    else if (w < 7) plan.user.push({ at: t, do: "lift", dy: r.range(-60, 60), dur });
    else if (w < 9) plan.user.push({ at: t, do: "turn", what: r.pick(["Yaw", "Pitch", "Roll"]), v: r.range(-90, 90), dur });
    else plan.user.push({ at: t, do: "deselect" });
    if (r.chance(30)) plan.user.push({ at: t + dur + 1, do: "hover", x: r.range(-700, 700), y: r.range(-700, 700), dy: r.range(-60, 60), click: r.chance(50) });
    t += dur + 1;
  }
  end = Math.max(end, t);
  if (r.chance(45)) {
    for (let k = r.range(1, 2); k > 0; k--) {
      const at = r.below(end + 2000);
      if (r.chance(50)) plan.faults.push({ at, do: "drop" });
      else plan.faults.push({ at, do: "outage", dur: r.pick([1, 200, 5000]), wipe: r.chance(30) });
      end = Math.max(end, at + 5000);
    }
  }
  plan.end = end + 60000;
  return plan;
}

// ---------------------------------------------------------------- modules
let current = 0;
const inline = new Map();
function pageScripts() {
  const page = fs.readFileSync(path.join(STATIC, "index.html"), "utf8");
  const out = [];
  for (const m of page.matchAll(/<script\b([^>]*)>([\s\S]*?)<\/script>/g)) {
    if (!/type\s*=\s*["']module["']/.test(m[1])) continue;
    const src = /src\s*=\s*["']([^"']+)["']/.exec(m[1]);
    if (src) out.push(new URL(src[1].replace(/^\//, "./"), ROOT).href);
    else {
      const url = `${ROOT}__inline${out.length}.mjs`;
      inline.set(url, m[2]);
      out.push(url);
    }
  }
  return { page, scripts: out };
}
const sources = new Map();
registerHooks({
  resolve(spec, ctx, next) {
    const fresh = (url) => ({ url: `${url.split("?")[0]}?r=${current}`, format: "module", shortCircuit: true });
    if (/^lit(\/|$)/.test(spec)) return fresh(pathToFileURL(path.join(HERE, "lit.mjs")).href);
    if (ctx.parentURL?.startsWith(ROOT)) {
      if (spec.startsWith("/")) return fresh(new URL("." + spec, ROOT).href);
      if (spec.startsWith(".")) return fresh(new URL(spec, ctx.parentURL).href);
    }
    if (spec.startsWith(ROOT)) return fresh(spec);
    return next(spec, ctx);
  },
  load(url, ctx, next) {
    const base = url.split("?")[0];
    if (base.startsWith(ROOT) || base.endsWith("/websim/lit.mjs")) {
      let source = inline.get(base) ?? sources.get(base);
      if (source === undefined) {
        source = fs.readFileSync(fileURLToPath(base), "utf8");
        sources.set(base, source);
      }
      return { format: "module", source, shortCircuit: true };
    }
    return next(url, ctx);
  },
});

// ---------------------------------------------------------------- browser
function classList(names) {
  const s = new Set(names);
  return { contains: (x) => s.has(x), add: (x) => s.add(x), remove: (x) => s.delete(x), toggle: (x) => (s.has(x) ? s.delete(x) : s.add(x)) };
}
class HTMLElement extends EventTarget {
  constructor() {
    super();
    this.attributes_ = {};
    this.classList = classList([]);
    this.style = {};
    this.fakeRoot = {
      children: [],
      querySelector: () => this.fakeRoot.children[0],
      querySelectorAll: () => this.fakeRoot.children,
      firstElementChild: null,
    };
    const svg = {
      createSVGPoint: () => ({
        x: 0, y: 0,
        matrixTransform() {
          return { x: this.x, y: this.y };
        },
      }),
      getScreenCTM: () => ({ inverse: () => ({}) }),
      getBoundingClientRect: () => ({ left: 0, top: 0, width: 1200, height: 1200 }),
    };
    this.fakeRoot.children.push(svg);
    this.fakeRoot.firstElementChild = svg;
  }
  getAttribute(n) {
    return this.attributes_[n] ?? null;
  }
  setAttribute(n, v) {
    this.attributes_[n] = String(v);
  }
  hasAttribute(n) {
    return n in this.attributes_;
  }
  attachShadow() {
    return this.fakeRoot;
  }
}
class DOMMatrix {
  constructor() {
    Object.assign(this, { a: 0.7, b: 0.4, c: -0.7, d: 0.4, e: 0, f: 0 });
  }
  rotateAxisAngleSelf() {
    return this;
  }
  scaleSelf() {
    return this;
  }
  toString() {
    return "matrix(0.7, 0.4, -0.7, 0.4, 0, 0)";
  }
}

const WIRE = ["x", "y", "z", "yaw", "pitch", "roll"];

export class Run {
  constructor(plan) {
    this.plan = plan;
    this.rng = new Rng(BigInt(plan.net));
    this.now = 0;
    this.queue = [];
    this.seq = 0;
    this.bad = [];
    this.errors = [];
    this.faults = {};
    this.work = {};
    this.hash = createHash("sha256");
    this.steps = 0;
    // server
    this.scene = new Map();
    for (const d of plan.initial) this.scene.set(macOf(d.i), this.fields(d));
    this.streams = [];
    this.down = false;
    this.inflight = new Set();
    // expectations
    this.posts = [];
    this.neighbors = new Map();
    this.removedAt = new Map();
    this.opens = 0;
    this.acting = 0;
    this.waiting = false;
    this.everRemoved = new Set();
  }
  fields(d) {
    return Object.fromEntries(WIRE.map((k) => [k, d[k]]));
  }
  count(o, k, n = 1) {
    o[k] = (o[k] || 0) + n;
  }
  note(...a) {
    this.hash.update(JSON.stringify([this.now, ...a]) + "\n");
    if (this.trace) this.trace.push([this.now, ...a]);
  }
  fail(what) {
    this.bad.push({ t_ms: this.now, what });
  }
  at(t, f) {
    const e = { t: Math.max(t, this.now), tie: this.rng.below(1 << 20), n: this.seq++, f, off: false };
    this.queue.push(e);
    return e;
  }
  lat(base) {
    return base === 0 ? 0 : this.rng.below(2 * base + 1);
  }

  // ------------------------------------------------------------ network
  fetch(input, init = {}) {
    const url = new URL(typeof input === "string" ? input : input.url || String(input), "http://pica/");
    const method = (init.method || input.method || "GET").toUpperCase();
    this.note("fetch", method, url.pathname, init.body ?? null);
    const req = { done: false, state: url.pathname === "/get-state", removed: new Set() };
    if (method === "POST") this.posts.push({ t: this.now, path: decodeURIComponent(url.pathname), body: init.body });
    const p = new Promise((resolve, reject) => {
      req.reject = () => {
        if (req.done) return;
        req.done = true;
        this.inflight.delete(req);
        this.count(this.faults, "request_failed");
        this.note("request fails", url.pathname);
        for (const m of req.removed) this.everRemoved.add(m);
        reject(new TypeError("Failed to fetch"));
      };
      const up = this.now + this.lat(this.plan.lat);
      this.at(up, () => {
        if (req.done) return;
        if (this.down) return req.reject();
        const [status, body] = this.serve(method, decodeURIComponent(url.pathname), init.body);
        this.at(this.now + this.lat(this.plan.lat), () => {
          if (req.done) return;
          req.done = true;
          this.inflight.delete(req);
          this.note("response", url.pathname, status);
          // what left for the server before the page hears of it here
          for (const m of req.removed) this.everRemoved.add(m);
          if (url.pathname === "/get-state" && status === 200) {
            const there = new Set(JSON.parse(body).devices.map((d) => d.mac_address));
            for (const d of this.map?.devices ?? []) if (!there.has(d.mac_address)) this.everRemoved.add(d.mac_address);
          }
          resolve({
            ok: status >= 200 && status < 300, status, statusText: "", headers: new Headers(), url: url.href,
            json: async () => JSON.parse(body), text: async () => body,
          });
        });
      });
    });
    this.inflight.add(req);
    return p;
  }
  serve(method, p, body) {
    let m;
    if (method === "GET" && p === "/get-state") {
      this.count(this.work, "states");
      return [200, JSON.stringify({ devices: [...this.scene].map(([mac_address, d]) => ({ category: "Uci", mac_address, ...d })) })];
    }
    if (method === "POST" && (m = /^\/set-position\/(.+)$/.exec(p))) {
      let d;
      try {
        d = JSON.parse(body);
      } catch {
        return [400, ""];
      }
      if (!WIRE.every((k) => Number.isInteger(d[k]))) return [400, ""];
      if (!this.scene.has(m[1])) return [404, ""];
      this.count(this.work, "set_positions");
      this.move(m[1], this.fields(d), true);
      return [200, ""];
    }
    return [404, ""];
  }
  emit(name, data) {
    this.count(this.work, "events");
    for (const s of this.streams) s.send(name, data);
  }
  move(mac, d, near) {
    this.scene.set(mac, d);
    this.emit("device-updated", { category: "Uci", mac_address: mac, ...d });
    if (near)
      for (const [other, o] of this.scene) {
        if (other === mac) continue;
        const dist = Math.floor(Math.hypot(o.x - d.x, o.y - d.y, o.z - d.z));
        this.near(mac, other, dist, this.rng.range(-179, 180), 3);
        this.near(other, mac, dist, this.rng.range(-179, 180), -3);
      }
  }
  near(s, d, distance, azimuth, elevation) {
    this.emit("neighbor-updated", {
      source_category: "Uci", source_mac_address: s, destination_category: "Uci", destination_mac_address: d, distance, azimuth, elevation,
    });
  }
  op(o) {
    const mac = macOf(o.i);
    const has = this.scene.has(mac);
    if (this.down && !o.offline) return;
    if (o.do === "add" && !has) {
      this.scene.set(mac, this.fields(o));
      this.emit("device-added", { category: "Uci", mac_address: mac, ...this.fields(o) });
    } else if (o.do === "remove" && has) {
      this.scene.delete(mac);
      this.everRemoved.add(mac);
      this.emit("device-removed", { category: "Uci", mac_address: mac });
    } else if (o.do === "move" && has) this.move(mac, this.fields(o), o.near);
    else if (o.do === "near" && has && o.i !== o.j && this.scene.has(macOf(o.j))) this.near(mac, macOf(o.j), o.d, o.a, o.e);
  }
  fault(f) {
    if (f.do === "drop") {
      if (this.streams.length) this.count(this.faults, "stream_dropped");
      for (const s of [...this.streams]) s.drop();
    } else {
      this.count(this.faults, f.wipe ? "server_restarted" : "outage");
      this.down = true;
      for (const s of [...this.streams]) s.drop();
      for (const s of this.sources) s.lost();
      for (const q of [...this.inflight]) q.reject();
      if (f.wipe) {
        for (const m of this.scene.keys()) this.everRemoved.add(m);
        this.scene.clear();
      }
      this.at(this.now + f.dur, () => (this.down = false));
    }
  }

  // ------------------------------------------------------------ browser
  install() {
    const run = this;
    const saved = {};
    const classes = new Map();
    const body = [...this.page.matchAll(/<([\w-]+)\b[^>]*\bid\s*=\s*["']([\w-]+)["']/g)];
    const elements = new Map();
    const byId = (id) => {
      const m = body.find((x) => x[2] === id);
      if (!m) return null;
      if (!elements.has(id)) {
        const C = classes.get(m[1]) || HTMLElement;
        const e = new C();
        e.id = id;
        elements.set(id, e);
        e.connectedCallback?.();
      }
      return elements.get(id);
    };
    const byTag = (tag) => byId(body.find((x) => x[1] === tag)?.[2]);
    this.elements = elements;
    this.byTag = byTag;
    const windowTarget = new EventTarget();
    this.window = windowTarget;
    this.loaded = false;
    const timers = new Map();
    let timerId = 0;
    const setTimer = (f, ms, args, every) => {
      const id = ++timerId;
      const go = () => {
        timers.delete(id);
        if (every) timers.set(id, run.at(run.now + Math.max(1, ms || 0), go));
        f(...args);
      };
      timers.set(id, run.at(run.now + Math.max(every ? 1 : 0, Math.floor(ms || 0)), go));
      return id;
    };
    const clear = (id) => {
      const e = timers.get(id);
      if (e) e.off = true;
      timers.delete(id);
    };
    class EventSource extends EventTarget {
      static CONNECTING = 0;
      static OPEN = 1;
      static CLOSED = 2;
      constructor(url) {
        super();
        this.url = url;
        this.readyState = 0;
        this.gen = 0;
        run.sources.push(this);
        this.connect();
      }
      connect() {
        const gen = ++this.gen;
        run.at(run.now + run.lat(run.plan.lat), () => {
          if (gen !== this.gen || this.readyState === 2) return;
          if (run.down) return this.lost();
          const es = this;
          // what the server sent on this connection arrives in order
          let last = 0;
          const stream = {
            gen,
            push(f) {
              last = Math.max(last, run.now + run.lat(run.plan.sse_lat));
              run.at(last, f).tie = -1;
            },
            send(name, data) {
              stream.push(() => {
                if (gen !== es.gen || es.readyState !== 1) return;
                run.note("event", name, data);
                run.delivered(name, data);
                es.fire(new MessageEvent(name, { data: JSON.stringify(data) }));
              });
            },
            drop() {
              run.streams = run.streams.filter((s) => s !== stream);
              if (run.down) return;
              stream.push(() => gen === es.gen && es.lost());
            },
          };
          run.streams.push(stream);
          stream.push(() => {
            if (gen !== es.gen || es.readyState === 2) return;
            es.readyState = 1;
            run.opens++;
            run.neighbors.clear();
            run.note("open");
            es.fire(new Event("open"));
          });
        });
      }
      lost() {
        if (this.readyState === 2) return;
        this.gen++;
        this.readyState = 0;
        run.note("stream lost");
        run.at(run.now + run.plan.retry, () => this.readyState === 0 && this.connect());
        this.fire(new Event("error"));
      }
      fire(e) {
        this.dispatchEvent(e);
        const h = this["on" + e.type];
        if (typeof h === "function") h.call(this, e);
      }
      close() {
        this.readyState = 2;
        this.gen++;
        run.streams = run.streams.filter((s) => s.es !== this);
      }
    }
    this.sources = [];
    const quiet = new Proxy({}, { get: () => () => {} });
    const g = {
      HTMLElement,
      DOMMatrix,
      EventSource,
      fetch: (a, b) => run.fetch(a, b),
      customElements: {
        define: (n, c) => classes.set(n, c),
        get: (n) => classes.get(n),
        whenDefined: async (n) => classes.get(n),
      },
      document: {
        getElementById: byId,
        querySelector: (s) => (s.startsWith("#") ? byId(s.slice(1)) : byTag(s)),
        addEventListener: windowTarget.addEventListener.bind(windowTarget),
        removeEventListener: windowTarget.removeEventListener.bind(windowTarget),
        get readyState() {
          return run.loaded ? "complete" : "interactive";
        },
        visibilityState: "visible",
      },
      location: { href: "http://pica/", origin: "http://pica", host: "pica", pathname: "/" },
      addEventListener: windowTarget.addEventListener.bind(windowTarget),
      removeEventListener: windowTarget.removeEventListener.bind(windowTarget),
      dispatchEvent: windowTarget.dispatchEvent.bind(windowTarget),
      setTimeout: (f, ms, ...a) => setTimer(f, ms, a, false),
      setInterval: (f, ms, ...a) => setTimer(f, ms, a, true),
      clearTimeout: clear,
      clearInterval: clear,
      requestAnimationFrame: (f) => setTimer(f, 16, [run.now], false),
      console: quiet,
    };
    g.window = new Proxy(g, {
      get: (t, k) => (k in t ? t[k] : globalThis[k]),
      set: (t, k, v) => {
        t[k] = v;
        return true;
      },
    });
    g.self = g.window;
    this.g = g;
    for (const k of Object.keys(g)) {
      saved[k] = Object.getOwnPropertyDescriptor(globalThis, k);
      Object.defineProperty(globalThis, k, { value: g[k], configurable: true, writable: true });
    }
    return () => {
      for (const k of Object.keys(saved)) {
        if (saved[k]) Object.defineProperty(globalThis, k, saved[k]);
        else delete globalThis[k];
      }
    };
  }
  get map() {
    return this.byTag("pika-map");
  }
  get info() {
    return this.byTag("pika-device-info");
  }
  // an event handler found in the rendered template
  listener(el, type, label) {
    let found = null;
    let seen = "";
    this.lit.walk(el.template, (kind, a, f) => {
      if (kind === "text") seen += a;
      else if (a === type && !found) {
        if (label) {
          const l = [...seen.matchAll(/\b(Yaw|Pitch|Roll)\b/g)].pop();
          if (l?.[1] !== label) return;
        }
        found = f;
      }
    });
    return found && ((e) => (typeof found === "function" ? found.call(el, e) : found.handleEvent(e)));
  }
  markers() {
    const t = this.map.lastText || "";
    return [...t.matchAll(/<g\b([^>]*?class="[^"]*\bmarker\b[^"]*"[^>]*)>/g)].map((m) => {
      const attr = (n) => (new RegExp(`(?:^|\\s)${n}="?([^"\\s>]*)`).exec(m[1]) || [])[1] ?? null;
      return { classList: classList((/class="([^"]*)"/.exec(m[1])[1] || "").split(/\s+/)), getAttribute: attr, dataset: { key: attr("key") } };
    });
  }
  device(mac) {
    return this.map.devices.find((d) => d.mac_address === mac);
  }
  async user(a) {
    const map = this.map;
    const down = this.listener(map, "mousedown");
    const plain = { classList: classList([]), getAttribute: () => null };
    const shown = (d) => d && { ...d.position, yaw: d.yaw, pitch: d.pitch, roll: d.roll };
    const expect = (mac, before) => {
      // one request, with what the page shows
      const got = this.posts.slice(before);
      const gone = this.everRemoved.has(mac);
      if (got.length > 1 || (got.length === 0 && !gone)) {
        this.fail(`a change of ${mac} by the user caused ${got.length} requests`);
        return;
      }
      if (!got.length) return;
      this.count(this.work, "user_changes");
      const d = this.device(mac);
      let b;
      try {
        b = JSON.parse(got[0].body);
      } catch {
        b = null;
      }
      if (got[0].path !== `/set-position/${mac}`) this.fail(`a change of ${mac} by the user is sent to ${got[0].path}`);
      else if (d && !gone && (!b || WIRE.some((k) => b[k] !== shown(d)[k])))
        this.fail(`the change of ${mac} to ${JSON.stringify(shown(d))} is sent as ${got[0].body}`);
    };
    if (a.do === "hover") {
      // no button was pressed: nothing may move
      const was = JSON.stringify(map.devices);
      const before = this.posts.length;
      this.listener(map, "mousemove")?.({ clientX: a.x, clientY: a.y, movementX: 1, movementY: a.dy, target: plain, composedPath: () => [plain] });
      if (a.click) this.release();
      if (JSON.stringify(map.devices) !== was) this.fail(`a device moves with the mouse although no button is pressed`);
      await this.drain();
      if (this.posts.length !== before) this.fail(`a change is sent although the user made none: ${this.posts.at(-1).path}`);
    } else if (a.do === "deselect") {
      down?.({ target: plain, composedPath: () => [plain], clientX: 0, clientY: 0 });
      this.selected = null;
      await this.drain();
      this.release();
    } else if (a.do === "drag") {
      const ms = this.markers();
      if (!ms.length) return;
      const k = a.pick % ms.length;
      const mac = map.devices[k]?.mac_address;
      this.count(this.work, "drags");
      down({ target: plain, composedPath: () => [plain, ms[k], plain], clientX: 0, clientY: 0 });
      await this.drain();
      this.selected = mac;
      this.everRemoved.delete(mac);
      if (!this.scene.has(mac)) this.everRemoved.add(mac);
      if (this.info.device?.mac_address !== mac)
        this.fail(`${mac} was selected, the details show ${this.info.device?.mac_address}`);
      this.note("select", mac);
      const moves = [];
      for (let i = 0; i < a.moves; i++) {
        await this.wait(this.now + Math.floor(a.dur / (a.moves + 1)));
        this.listener(map, "mousemove")?.({ clientX: a.x + i * 10, clientY: a.y, movementX: 1, movementY: 1, target: plain, composedPath: () => [plain] });
        await this.drain();
        const d = this.device(mac);
        if (d && !this.everRemoved.has(mac)) {
          const c = (v) => Math.min(Math.max(v, -560), 560);
          const want = { x: c(-(a.x + i * 10) + d.position.y), z: c(a.y + d.position.y) };
          if (d.position.x !== want.x || d.position.z !== want.z)
            this.fail(`${mac} dragged to ${JSON.stringify(want)} is shown at ${JSON.stringify(d.position)}`);
        }
      }
      await this.wait(this.now + Math.floor(a.dur / (a.moves + 1)));
      const before = this.posts.length;
      this.release();
      await this.drain();
      expect(mac, before);
    } else if (a.do === "lift") {
      if (!/class="[^"]*\bhandle\b/.test(map.lastText || "")) return;
      const mac = this.selected;
      const h = { classList: classList(["handle"]), getAttribute: () => null };
      down({ target: h, composedPath: () => [h], clientX: 0, clientY: 0 });
      await this.wait(this.now + a.dur);
      this.listener(map, "mousemove")?.({ clientX: 0, clientY: 0, movementX: 0, movementY: a.dy, target: plain, composedPath: () => [plain] });
      await this.drain();
      const before = this.posts.length;
      this.release();
      await this.drain();
      if (mac) expect(mac, before);
    } else if (a.do === "turn") {
      const mac = this.info.device?.mac_address;
      if (!mac) return;
      const input = this.listener(this.info, "input", a.what);
      if (!input) return;
      input({ target: { value: String(a.v) } });
      await this.drain();
      const d = this.info.device;
      if (d && d[a.what.toLowerCase()] !== a.v) this.fail(`${a.what} of ${mac} set to ${a.v} shows ${d[a.what.toLowerCase()]}`);
      await this.wait(this.now + a.dur);
      if (this.info.device?.mac_address !== mac) return;
      const before = this.posts.length;
      this.listener(this.info, "change", a.what)?.({ target: { value: String(a.v) } });
      await this.drain();
      expect(mac, before);
    }
  }
  release() {
    this.window.dispatchEvent(new Event("mouseup"));
  }
  // events that reached the page since its stream was opened
  delivered(name, d) {
    if (name === "neighbor-updated") {
      const k = d.source_mac_address + ">" + d.destination_mac_address;
      this.neighbors.set(k, d);
    } else if (name === "device-removed") {
      for (const [k, v] of this.neighbors)
        if (v.source_mac_address === d.mac_address || v.destination_mac_address === d.mac_address) this.neighbors.delete(k);
      this.everRemoved.add(d.mac_address);
      for (const q of this.inflight) if (q.state) q.removed.add(d.mac_address);
    }
  }

  // ------------------------------------------------------------ schedule
  async drain() {
    await new Promise((r) => realTimers.setImmediate(r));
  }
  async wait(t) {
    // lets the simulation run on up to t (only used by the user's actions)
    if (t > this.now) {
      this.waiting = true;
      await new Promise((r) =>
        this.at(t, () => {
          this.waiting = false;
          r();
        }),
      );
    }
  }
  async run() {
    const undo = this.install();
    const onError = (e) => this.errors.push(String(e?.stack || e).split("\n")[0]);
    process.on("uncaughtException", onError);
    process.on("unhandledRejection", onError);
    try {
      current++;
      this.lit = await import("lit");
      for (const s of this.scripts) await import(s);
      await this.drain();
      if (!this.map || !this.info) throw new Error("the page has no map or no details");
      for (const o of this.plan.ops) this.at(o.at, () => this.op(o));
      for (const f of this.plan.faults) this.at(f.at, () => this.fault(f));
      this.at(this.plan.load_at, () => {
        this.loaded = true;
        this.window.dispatchEvent(new Event("load"));
        const h = this.g.onload ?? globalThis.onload;
        if (typeof h === "function") h(new Event("load"));
      });
      // the user does one thing at a time
      let busy = Promise.resolve();
      for (const a of this.plan.user)
        this.at(a.at, () => {
          this.acting++;
          busy = busy
            .then(() => this.user(a))
            .catch((e) => {
              this.fail(`an action of the user (${a.do}) fails: ${e}`);
            })
            .then(() => this.acting--);
        });
      while (this.queue.length && !this.bad.length) {
        let b = 0;
        for (let i = 1; i < this.queue.length; i++) {
          const x = this.queue[i], y = this.queue[b];
          if (x.t < y.t || (x.t === y.t && (x.tie < y.tie || (x.tie === y.tie && x.n < y.n)))) b = i;
        }
        const e = this.queue[b];
        this.queue.splice(b, 1);
        if (e.t > this.plan.end) break;
        if (e.off) continue;
        this.now = e.t;
        this.steps++;
        if (this.steps > 50_000) {
          this.fail("the page does not come to rest");
          break;
        }
        e.f();
        await this.drain();
        // until the user waits or has nothing to do
        while (this.acting && !this.waiting) await this.drain();
      }
      this.now = this.plan.end;
      if (!this.bad.length) this.judge();
    } finally {
      process.off("uncaughtException", onError);
      process.off("unhandledRejection", onError);
      undo();
    }
    this.digest = this.hash.digest("hex").slice(0, 16);
    return this;
  }

  judge() {
    const devices = this.map.devices;
    const show = (d) => (d ? `${d.mac_address} ${JSON.stringify({ ...d.position, yaw: d.yaw, pitch: d.pitch, roll: d.roll })}` : "nothing");
    const seen = new Set();
    for (const d of devices) {
      if (seen.has(d.mac_address)) return this.fail(`${d.mac_address} is on the map twice`);
      seen.add(d.mac_address);
      const s = this.scene.get(d.mac_address);
      if (!s) return this.fail(`${d.mac_address} is on the map but not in the scene`);
      const p = { ...d.position, yaw: d.yaw, pitch: d.pitch, roll: d.roll };
      if (WIRE.some((k) => p[k] !== s[k])) return this.fail(`the map shows ${show(d)}, the scene has ${JSON.stringify(s)}`);
      const names = d.neighbors.map((n) => n.mac_address);
      for (const n of names) {
        if (!this.scene.has(n)) return this.fail(`${d.mac_address} has the removed neighbour ${n}`);
      }
      if (new Set(names).size !== names.length) return this.fail(`${d.mac_address} has a neighbour twice: ${names}`);
    }
    for (const m of this.scene.keys()) if (!seen.has(m)) return this.fail(`${m} is in the scene but not on the map`);
    for (const v of this.neighbors.values()) {
      const d = this.device(v.source_mac_address);
      if (!d || !this.scene.has(v.destination_mac_address)) continue;
      const n = d.neighbors.find((x) => x.mac_address === v.destination_mac_address);
      if (!n || n.distance !== v.distance || n.azimuth !== v.azimuth || n.elevation !== v.elevation)
        return this.fail(`${d.mac_address} shows its neighbour ${v.destination_mac_address} as ${JSON.stringify(n)}, measured ${v.distance} ${v.azimuth} ${v.elevation}`);
    }
    const sel = this.info.device;
    if (sel) {
      if (!this.scene.has(sel.mac_address)) return this.fail(`the details show ${sel.mac_address}, which was removed`);
      if (this.selected === null || this.selected === undefined || sel.mac_address !== this.selected)
        return this.fail(`the details show ${sel.mac_address}, selected is ${this.selected ?? "nothing"}`);
      const d = this.device(sel.mac_address);
      if (show(sel) !== show(d)) return this.fail(`the details show ${show(sel)}, the map ${show(d)}`);
      const near = (x) => JSON.stringify(x.neighbors.map((n) => [n.mac_address, n.distance, n.azimuth, n.elevation]).sort());
      if (near(sel) !== near(d)) return this.fail(`the details show the neighbours ${near(sel)}, known are ${near(d)}`);
    } else if (this.selected && !this.everRemoved.has(this.selected)) {
      return this.fail(`${this.selected} is selected, the details show nothing`);
    }
    for (const [name, el] of [["map", this.map], ["details", this.info]]) {
      const fresh = this.lit.text(el.render());
      if (el.lastText !== fresh) {
        let i = 0;
        while (fresh[i] === el.lastText?.[i]) i++;
        const cut = (s) => (s ?? "").slice(Math.max(0, i - 20), i + 40).replace(/\s+/g, " ");
        return this.fail(`the ${name} on the screen are out of date: "${cut(el.lastText)}" instead of "${cut(fresh)}"`);
      }
    }
    const at = [...(this.map.lastText || "").matchAll(/translate\(\s*(-?[\d.]+)[ ,]+(-?[\d.]+)\s*\)/g)].map((m) => `${+m[1]},${+m[2]}`).sort();
    const want = devices.map((d) => `${-d.position.x + d.position.y + 0},${d.position.z - d.position.y + 0}`).sort();
    if (JSON.stringify(at) !== JSON.stringify(want)) return this.fail(`the markers are at ${at}, the devices at ${want}`);
    const words = (this.info.lastText || "").replace(/<[^>]*>/g, " ").replace(/\s+/g, " ");
    const shows = (label, v) => new RegExp(`${label}[\\s:(]*${String(v).replace(/[^\w]/g, "\\$&")}(?![\\w.])`).test(words);
    if (sel) {
      const wanted = [["Mac Address", sel.mac_address], ["X", sel.position.x], ["Y", sel.position.y], ["Z", sel.position.z],
        ["Yaw", sel.yaw], ["Pitch", sel.pitch], ["Roll", sel.roll]];
      for (const n of sel.neighbors)
        wanted.push(["Mac", n.mac_address], ["Distance", n.distance], ["Azimuth", n.azimuth], ["Elevation", n.elevation]);
      for (const [k, v] of wanted)
        if (!shows(k, v)) return this.fail(`the details of ${sel.mac_address} do not show ${k} ${v}: ${words.slice(0, 300)}`);
    } else if (/\d\d:\d\d/.test(words)) return this.fail(`nothing is selected, the details show ${words.slice(0, 300)}`);
  }
  stats() {
    return { faults: this.faults, work: this.work };
  }
}

export async function execute(plan, trace = false) {
  const run = new Run(plan);
  Object.assign(run, pageScripts());
  if (trace) run.trace = [];
  return run.run();
}
