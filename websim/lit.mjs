// The part of lit that pages built on it rely on: reactive properties, update(),
// asynchronous rendering.  Templates are kept as values; text() flattens them.
const RESULT = Symbol("template");
const make = (strings, ...values) => ({ [RESULT]: true, strings: [...strings], values });
export const html = make;
export const svg = make;
export const css = (strings, ...values) => ({ cssText: strings.join("") });
export const unsafeCSS = (value) => ({ cssText: String(value) });
export const nothing = Symbol("nothing");
export const noChange = Symbol("noChange");

export function walk(node, visit, before = "") {
  if (node === null || node === undefined || node === nothing || node === false) {
    if (node === false) visit("text", "false");
  } else if (node[RESULT]) {
    node.strings.forEach((s, i) => {
      visit("text", s);
      if (i < node.values.length) {
        const v = node.values[i];
        const m = /@([\w-]+)=["']?$/.exec(s);
        if (m) visit("listener", m[1], v);
        else walk(v, visit);
      }
    });
  } else if (typeof node !== "string" && typeof node[Symbol.iterator] === "function") {
    for (const x of node) walk(x, visit);
  } else if (typeof node !== "function") {
    visit("text", String(node));
  }
}

export function text(node) {
  let out = "";
  walk(node, (kind, a) => {
    out += kind === "text" ? a : "";
  });
  return out;
}

export class ReactiveElement extends globalThis.HTMLElement {
  constructor() {
    super();
    const cls = this.constructor;
    if (!Object.hasOwn(cls, "finalizedProps")) {
      cls.finalizedProps = true;
      for (const name of Object.keys(cls.properties || {})) {
        const key = Symbol(name);
        Object.defineProperty(cls.prototype, name, {
          configurable: true,
          get() {
            return this[key];
          },
          set(v) {
            const old = this[key];
            this[key] = v;
            // lit compares with Object.is: the same object is no change
            if (!Object.is(old, v)) this.requestUpdate(name, old);
          },
        });
      }
    }
    this.isUpdatePending = false;
    this.lastText = null;
    this.template = null;
    this.updateComplete = Promise.resolve(true);
    this.requestUpdate();
  }
  requestUpdate() {
    if (this.isUpdatePending) return;
    this.isUpdatePending = true;
    this.updateComplete = Promise.resolve().then(() => {
      if (!this.isUpdatePending) return true;
      this.performUpdate();
      return true;
    });
  }
  performUpdate() {
    this.willUpdate?.(new globalThis.RealMap());
    this.update(new globalThis.RealMap());
    this.updated?.(new globalThis.RealMap());
  }
  update() {
    this.isUpdatePending = false;
    const r = this.render();
    this.template = r;
    this.lastText = text(r);
  }
  render() {
    return null;
  }
  connectedCallback() {}
  disconnectedCallback() {}
  get renderRoot() {
    return this.fakeRoot;
  }
  get shadowRoot() {
    return this.fakeRoot;
  }
}
export class LitElement extends ReactiveElement {}
