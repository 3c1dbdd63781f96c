// Simulated browser for checks_page.py: pages of the interactive mode run in node's vm with a small document, virtual timers
// and a websocket that is driven from outside. One JSON request per line on stdin, one JSON answer per line on stdout.
"use strict";
const vm = require("vm");
const readline = require("readline");
const compiled = new Map();
let pages = new Map();

function compile(code, name) {
  const key = name + "\u0000" + code;
  if (!compiled.has(key)) {
    if (compiled.size > 500) compiled.clear();
    compiled.set(key, new vm.Script(code, { filename: name }));
  }
  return compiled.get(key);
}

class Element {
  constructor(page, tag, id) {
    this.page = page; this.tagName = tag; this.id = id || ""; this.children = []; this.innerText = ""; this.value = "";
    this.listeners = {}; this.attributes = {}; this.html = ""; this.style = {}; this.parent = null; this.classList = { add() {}, remove() {}, toggle() {}, contains() { return false; } }; this.dataset = {};
  }
  get firstElementChild() {
    if (!this.children.length) this.appendChild(new Element(this.page, "a", ""));
    return this.children[0];
  }
  appendChild(c) { c.parent = this; this.children.push(c); this.page.register(c.html); return c; }
  append(...cs) { for (const c of cs) typeof c === "string" ? (this.innerHTML = this.html + c) : this.appendChild(c); }
  prepend(...cs) { for (const c of cs) typeof c === "string" ? (this.innerHTML = c + this.html) : (c.parent = this, this.children.unshift(c), this.page.register(c.html)); }
  insertBefore(c, ref) { const k = this.children.indexOf(ref); c.parent = this; this.children.splice(k < 0 ? this.children.length : k, 0, c); this.page.register(c.html); return c; }
  insertAdjacentElement(_, c) { return this.appendChild(c); }
  removeChild(c) { this.children = this.children.filter((x) => x !== c); c.parent = null; return c; }
  remove() { if (this.parent) this.parent.removeChild(this); }
  querySelector(q) { return q[0] === "#" ? this.page.find(q.slice(1)) : this.children.find((c) => c.tagName === q) || null; }
  insertAdjacentHTML(_, h) { this.innerHTML = this.html + h; }
  get innerHTML() { return this.html; }
  set innerHTML(h) { this.html = String(h); if (this.attached()) this.page.register(this.html); }
  get textContent() { return this.innerText; }
  set textContent(t) { this.innerText = t; }
  setAttribute(k, v) { this.attributes[k] = v; if (k === "id") this.id = v; }
  getAttribute(k) { return this.attributes[k]; }
  addEventListener(e, f) { (this.listeners[e] = this.listeners[e] || []).push(f); }
  dispatch(e, extra) {
    const ev = Object.assign({ type: e, currentTarget: this, target: this, preventDefault() {}, stopPropagation() {} }, extra);
    if (typeof this["on" + e] === "function") this["on" + e](ev);
    for (const f of this.listeners[e] || []) f.call(this, ev);
  }
  click() { this.dispatch("click"); }
  attached() { let e = this; while (e.parent) e = e.parent; return this.page.ids.get(e.id) === e || e === this.page.body; }
  getContext(kind) { return this.context || (this.context = { canvas: this, kind }); }
}

class Page {
  constructor(req) {
    this.ids = new Map(); this.sent = []; this.errors = []; this.notes = []; this.timers = []; this.nextTimer = 1;
    this.charts = []; this.changed = new Set(); this.inputs = new Map(); this.socket = null; this.now = 0;
    this.body = new Element(this, "body", "");
    let s = req.seed >>> 0;
    const page = this;
    const random = () => { s = (Math.imul(s, 1664525) + 1013904223) >>> 0; return s / 4294967296; };
    this.register(req.html);
    const document = {
      body: this.body,
      getElementById: (id) => page.find(id),
      querySelector: (q) => (q[0] === "#" ? page.find(q.slice(1)) : null),
      querySelectorAll: () => [],
      createElement: (tag) => new Element(page, tag, ""),
      createTextNode: (t) => Object.assign(new Element(page, "#text", ""), { innerText: t }),
      addEventListener: (e, f) => page.body.addEventListener(e, f),
    };
    const location = { protocol: "http:", host: "127.0.0.1:8521", href: "http://127.0.0.1:8521/" };
    const g = {
      document, location,
      console: { log: (...a) => page.notes.push(a.map(String).join(" ")), error: (...a) => page.notes.push(a.map(String).join(" ")), warn() {}, info() {}, debug() {} },
      setTimeout: (f, ms, ...a) => { const id = page.nextTimer++; page.timers.push({ id, due: page.now + delay(ms), delay: delay(ms), f: () => f(...a) }); return id; },
      clearTimeout: (id) => { page.timers = page.timers.filter((t) => t.id !== id); },
      setInterval: (f, ms, ...a) => {
        const id = page.nextTimer++;
        const again = () => { page.timers.push({ id, due: page.now + delay(ms), delay: delay(ms), f: () => { again(); f(...a); } }); };
        again(); return id;
      },
      clearInterval: (id) => { page.timers = page.timers.filter((t) => t.id !== id); },
      requestAnimationFrame: (f) => g.setTimeout(f, 16),
      WebSocket: class { constructor(url) { this.url = url; this.readyState = 1; this.listeners = {}; if (page.socket) page.errors.push("two sockets"); page.socket = this; }
        send(m) { page.sent.push(String(m)); }
        close() { this.readyState = 3; }
        addEventListener(e, f) { (this.listeners[e] = this.listeners[e] || []).push(f); } },
      addEventListener: (e, f) => page.body.addEventListener(e, f),
      alert: (m) => page.notes.push(String(m)),
      structuredClone: (x) => JSON.parse(JSON.stringify(x)), queueMicrotask: (f) => f(),
      performance: { now: () => page.now },
    };
    g.window = g;
    const libs = req.libs;
    if (libs.chart) g.Chart = this.chartClass();
    if (libs.slider) g.Slider = this.sliderClass();
    if (libs.jquery) g.$ = g.jQuery = this.jquery(libs);
    this.context = vm.createContext(g);
    vm.runInContext("Math.random", this.context);
    vm.runInContext("(function (r) { Math.random = r; })", this.context)(random);
    for (const sc of req.scripts) this.guard(() => compile(sc.code, sc.name).runInContext(this.context));
    if (!this.socket) this.errors.push("the page opens no connection");
  }
  guard(f) { try { f(); } catch (e) { this.errors.push(String((e && e.stack) || e).split("\n").slice(0, 3).join(" | ")); } }
  register(html) {  // elements written as HTML; those whose place in the page matters (charts) are created by scripts
    for (const m of String(html).matchAll(/<([a-zA-Z0-9]+)\b[^>]*?(?<![-\w])id\s*=\s*['"]([^'"]+)['"][^>]*>/g)) {
      if (!this.ids.has(m[2])) this.ids.set(m[2], new Element(this, m[1].toLowerCase(), m[2]));
    }
  }
  find(id) {
    if (this.ids.has(id)) return this.ids.get(id);
    const stack = [this.body, ...this.ids.values()];
    while (stack.length) { const e = stack.pop(); for (const c of e.children) { if (c.id === id) return c; stack.push(c); } }
    return null;
  }
  chartClass() {
    const page = this;
    class Chart {
      constructor(item, config) {
        const canvas = item && (item.canvas || item);
        if (!(canvas instanceof Element) || canvas.tagName !== "canvas") throw new Error("Failed to create chart: can't acquire context from the given item");
        config = config || {};
        config.data = config.data || {};
        config.data.datasets = config.data.datasets || [];
        config.data.labels = config.data.labels || [];
        config.options = config.options || {};
        this.config = config; this.canvas = canvas; this.ctx = item; this.drawn = null;
        page.charts.push(this);
        this.update();
      }
      get data() { return this.config.data; }
      set data(d) { this.config.data = d; }
      get options() { return this.config.options; }
      set options(o) { this.config.options = o; }
      update() { page.changed.add(this); this.drawn = true; this.snapshot = page.snapshot(this); }
      resize() {} stop() { return this; } clear() { return this; } destroy() { page.charts = page.charts.filter((c) => c !== this); }
      render() {} toBase64Image() { return "data:,"; }
    }
    Chart.defaults = { global: {} };
    return Chart;
  }
  snapshot(chart) {  // what the canvas shows
    const d = chart.data, sets = [];
    for (let i = 0; i < d.datasets.length; i++) {
      const ds = d.datasets[i];
      if (ds.data && ds.data.length && !ds.hidden) sets.push([i, Array.from(ds.data, (x) => (x && typeof x === "object" ? Object.assign({}, x) : x))]);
    }
    const first = d.datasets[0] || {};
    return { type: chart.config.type, labels: Array.from(d.labels || []), sets, count: d.datasets.length,
      size: [chart.canvas.width, chart.canvas.height], placed: chart.canvas.attached(), colours: null, label: first.label };
  }
  tooltip(chart, index) {  // texts that the page's callbacks give for one position, as Chart.js asks for them
    const t = chart.options.tooltips || (chart.options.plugins && chart.options.plugins.tooltip);
    const cb = t && t.callbacks;
    if (!cb) return null;
    let items = [];
    const d = chart.data;
    d.datasets.forEach((ds, k) => {
      if (index >= ds.data.length) return;
      const p = ds.data[index];
      items.push(p && typeof p === "object" ? { datasetIndex: k, index, xLabel: p.x, yLabel: p.y } : { datasetIndex: k, index, xLabel: d.labels[index], yLabel: p });
    });
    if (t.filter) items = items.filter((x) => t.filter(x, d));
    if (!items.length) return [];
    return [cb.title ? cb.title(items, d) : null, items.map((x) => [x.datasetIndex, cb.label ? cb.label(x, d) : null])];
  }
  sliderClass() {
    const page = this;
    return class Slider {
      constructor(sel, options) { this.id = String(sel).replace("#", ""); this.options = options || {}; this.v = this.options.value; this.handlers = {}; page.inputs.set(this.id, this); }
      on(e, f) { (this.handlers[e] = this.handlers[e] || []).push(f); return this; }
      getValue() { return this.v; }
      setValue(v) { this.v = v; return this; }
      user(v) { this.v = v; for (const f of this.handlers.change || []) f({ oldValue: null, newValue: v }); }
      shown() { return { kind: "slider", value: this.v, min: this.options.min, max: this.options.max, step: this.options.step }; }
    };
  }
  jquery(libs) {
    const page = this;
    const wrap = (el) => {
      const w = {
        0: el, length: el ? 1 : 0, el,
        on(e, f) { if (el) { if (el.widget && e === "change") el.widget.changed.push(f); else el.addEventListener(e, function (ev) { f.call(el, ev); }); } return w; },
        click(f) { return w.on("click", f); },
        val(v) { if (!el) return undefined; if (v === undefined) return el.widget && el.widget.kind === "slider" ? String(el.widget.v) : String(el.value); el.value = v; return w; },
        html(h) { if (h === undefined) return el.innerHTML; el.innerHTML = h; return w; },
        text(t) { if (t === undefined) return el.innerText; el.innerText = t; return w; },
        attr(k, v) { if (v === undefined) return el && el.getAttribute(k); if (el) el.setAttribute(k, v); return w; },
        append(x) { if (!el) return w; if (typeof x === "string") el.innerHTML = el.html + x; else el.appendChild(x.el || x); return w; },
        tooltip() { return w; },
        each(f) { if (el) f.call(el, 0, el); return w; },
      };
      if (libs.slider) w.slider = (options) => {
        if (!el) return w;
        el.widget = { kind: "slider", v: options.value, options, changed: [],
          user(v) { this.v = v; for (const f of this.changed) f.call(el, { target: el, currentTarget: el }); },
          shown() { return { kind: "slider", value: this.v, min: options.min, max: options.max, step: options.step }; } };
        page.inputs.set(el.id, el.widget);
        return w;
      };
      if (libs.switch) w.bootstrapSwitch = (options) => {
        if (!el) return w;
        page.inputs.set(el.id, { kind: "checkbox", user(v) { options.onSwitchChange({ type: "switchChange" }, v); }, shown() { return { kind: "checkbox", value: options.state }; } });
        return w;
      };
      return new Proxy(w, { get: (t, k) => (k in t || typeof k === "symbol" || k === "then" ? t[k] : () => w) });
    };
    return (sel) => {
      if (sel instanceof Element) return wrap(sel);
      if (typeof sel === "function") { sel(); return wrap(null); }
      sel = String(sel);
      if (sel[0] === "<") { const e = new Element(page, "div", ""); e.innerHTML = sel; return wrap(e); }
      if (sel[0] === "#") return wrap(page.find(sel.slice(1)));
      return wrap(null);
    };
  }
  input(param) {  // the control with which the user sets a parameter
    const id = param + "_id", page = this;
    if (this.inputs.has(id)) return this.inputs.get(id);
    const el = this.find(id);
    if (!el) return null;
    if (el.type === "checkbox") return { user(v) { el.checked = v; el.dispatch("change"); }, shown() { return { kind: "checkbox", value: el.checked }; } };
    if (el.tagName === "select") return { user(v, index) { el.value = String(index); el.dispatch("change"); }, shown() { return { kind: "choice" }; } };
    if (el.tagName === "button") return { user(v, index) { const c = page.find(id + "_choice_" + index); c.dispatch("click"); },
      shown() {
        const text = page.written(), m = text.match(new RegExp("<button[^>]*(?<![-\\w])id\\s*=\\s*['\"]" + id + "['\"][^>]*>([^<]*)"));
        return { kind: "choice", value: (el.html || (m && m[1]) || "").split("<")[0].trim() || undefined, choices: (text.match(new RegExp("(?<![-\\w])id\\s*=\\s*['\"]" + id + "_choice_", "g")) || []).length };
      } };
    return { user(v) { el.value = String(v); el.dispatch("change"); }, shown() { return { kind: "number", value: Number(el.value) }; } };
  }
  written() {  // everything written into the page by scripts and its own text
    const seen = new Set(), out = [], stack = [this.body, ...this.ids.values()];
    while (stack.length) {
      const e = stack.pop();
      if (seen.has(e)) continue;
      seen.add(e);
      if (e.attached()) out.push(e.html, e.innerText);
      stack.push(...e.children);
    }
    return out.join("\n");
  }
  report() {
    const step = this.find("currentStep"), play = this.find("play-pause");
    const out = { sent: this.sent, errors: this.errors, notes: this.notes, tick: step && step.innerText, play: play && play.children.length ? play.firstElementChild.innerText : null,
      timers: this.timers.map((t) => [t.id, t.delay]), charts: null };
    if (this.changed.size) out.charts = this.charts.map((c) => c.snapshot);
    this.sent = []; this.errors = []; this.notes = []; this.changed.clear();
    return out;
  }
}

function delay(ms) { ms = Number(ms); return Number.isFinite(ms) && ms > 0 ? ms : 0; }

function handle(req) {
  if (req.op === "clear") { pages = new Map(); return {}; }
  if (req.op === "open") { const p = new Page(req); pages.set(req.page, p); return p.report(); }
  const p = pages.get(req.page);
  switch (req.op) {
    case "message":
      p.guard(() => { const s = p.socket, ev = { data: req.text, type: "message" };
        if (typeof s.onmessage === "function") s.onmessage(ev);
        for (const f of s.listeners.message || []) f.call(s, ev); });
      break;
    case "click":
      p.guard(() => { const e = p.find(req.id); if (!e) throw new Error("no button " + req.id); e.dispatch("click"); });
      break;
    case "timer": {
      const k = p.timers.findIndex((t) => t.id === req.id);
      if (k >= 0) { const t = p.timers.splice(k, 1)[0]; p.now = Math.max(p.now, t.due); p.guard(t.f); }
      break;
    }
    case "set":
      p.guard(() => { const e = p.input(req.param); if (!e) throw new Error("no input for " + req.param); e.user(req.value, req.index); });
      break;
    case "fps":
      p.guard(() => { const e = p.inputs.get("fps"); if (!e) throw new Error("no control for the frames"); e.user(req.value); });
      break;
    case "shown": {
      const out = {};
      const text = p.written();
      for (const q of req.params) {
        const e = p.input(q);
        out[q] = e ? e.shown() : null;
        if (e) out[q].copies = (text.match(new RegExp("(?<![-\\w])id\\s*=\\s*['\"]" + q + "_id['\"]", "g")) || []).length;
      }
      return { inputs: out, text };
    }
    case "tooltip": {
      let out = null;
      p.guard(() => { out = p.tooltip(p.charts[req.chart], req.index); });
      return { text: out, errors: p.errors.splice(0) };
    }
    default: throw new Error("unknown request " + req.op);
  }
  return p.report();
}

const rl = readline.createInterface({ input: process.stdin });
rl.on("line", (line) => {
  let out;
  try { out = handle(JSON.parse(line)); } catch (e) { out = { harness: String((e && e.stack) || e) }; }
  process.stdout.write(JSON.stringify(out) + "\n");
});
