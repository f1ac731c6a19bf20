// Simulates programs using the JavaScript binding: one seeded trace is one exactly repeatable execution.
//   jssim.mjs gen PROP SEED RUN TIER | run PROP SEED FROM TO STRIDE TIER STATUS DEADLINE | replay PROP FILE
// Environment: SIM_JS (compiled wasm/index.ts), SIM_WASM (binding and core), SIM_REF (core alone).
// Real: wasm/index.ts, wasm/main.c, the C core.  Simulated: the Emscripten loader and heap, memory growth, failing allocations,
// the garbage collector (when, and in which order, unreachable detectors are finalised).
import fs from "node:fs";
import vm from "node:vm";
import crypto from "node:crypto";
import os from "node:os";
import path from "node:path";
import { spawnSync } from "node:child_process";
import { Worker } from "node:worker_threads";

const NSLOT = 4;
const LIMIT = 1 << 22;   // one block
const PAGE = 65536;
const RealRegistry = globalThis.FinalizationRegistry;

// ------------------------------------------------------------------ randomness
class Rng {
  constructor(text) {
    const h = crypto.createHash("md5").update(text).digest();
    this.s = [h.readUInt32LE(0), h.readUInt32LE(4), h.readUInt32LE(8), h.readUInt32LE(12) | 1];
  }
  u32() {
    const s = this.s;
    let t = s[3];
    t ^= t << 11; t ^= t >>> 8;
    s[3] = s[2]; s[2] = s[1]; s[1] = s[0];
    t ^= s[0]; t ^= s[0] >>> 19;
    s[0] = t;
    return t >>> 0;
  }
  f() { return (this.u32() * 2097152 + (this.u32() >>> 11)) / 9007199254740992; }
  p(x) { return this.f() < x; }
  n(k) { return Math.floor(this.f() * k); }
  int(a, b) { return a + this.n(b - a + 1); }
  pick(a) { return a[this.n(a.length)]; }
  gauss() { let s = 0; for (let i = 0; i < 12; i++) s += this.f(); return s - 6; }
}

// ------------------------------------------------------------------ generation
const VIEWS = ["full", "full", "sub", "sub", "head", "shared", "resizable", "subclass"];
function gen(prop, seed, run, tier) {
  const r = new Rng(`${prop}/${seed}/${run}`);
  const faults = prop === "C21";
  const T = [];
  const nslots = r.int(1, 3);
  const fMem = faults && r.p(0.7), fLife = r.p(faults ? 0.8 : 0.3), fGrow = r.p(0.5), fBad = r.p(0.5);
  const cfg = () => {
    const level = r.p(0.8) ? r.pick([0, 0.5, 0.8, 0.9, 0.98, 0.99]) : r.f();
    let q = Math.min(Math.pow(10, -r.int(1, 7)), (1 - level) / 3);
    let lv = level === 0.98 && r.p(0.6) ? "-" : level;
    let low = r.p(0.5) ? "-" : r.p(0.1) ? "u" : r.pick([0, 1, 1, 7, 256, -65536]);
    let disc = r.p(0.5) ? "-" : r.p(0.1) ? "u" : r.pick([0, 0, 1, 512]);
    let cap = r.p(0.25) ? "-" : r.p(0.05) ? "u" : r.pick([1, 2, 3, 5, 8, 20, 50, 200]);
    if (r.p(fBad ? 0.25 : 0.04)) {
      switch (r.n(3)) {
        case 0: q = r.pick([NaN, 0, 1, -0.5, Infinity, 2]); break;
        case 1: lv = r.pick([NaN, 1, -0.1, Infinity]); break;
        case 2: cap = r.pick([0, 536870912, 4294967295, 100000000, 4294967296]); break;
      }
    }
    return [q, low, disc, lv, cap];
  };
  const fit = (s) => {
    let n = r.p(0.93) ? r.pick([5, 6, 8, 10, 20, 30, 60, 100]) : r.int(0, 4);
    if (r.p(0.05)) n = r.pick([255, 256, 257, 1000, 1024, 3000, 4096, 5000]);
    if (r.p(0.004)) n = r.pick([8192, 16384, 20000, 40000, 70000, 132000]);
    const o = ["fit", s, r.pick(VIEWS), r.n(1 << 20), n, r.pick(["gauss", "expo", "unif", "cauchy", "ints"]), r.p(0.3) ? Math.pow(10, r.int(-3, 4)) : 1, r.p(0.4) ? r.int(-50, 50) : 0, r.int(1, 9), r.int(0, 9)];
    if (r.p(0.08)) o.push(`${r.n(Math.max(1, n))}@${r.pick(["NaN", "Infinity", "-Infinity"])}`);
    return o;
  };
  const x = () => {
    if (r.p(0.7)) {
      const z = r.f();
      if (z < 0.15) return `T:${r.int(-1, 1)}`;
      if (z < 0.5) return `Q:${r.f()}`;
      if (z < 0.85) return `S:${-Math.log(1 - r.f())}`;
      return `f:${r.pick([NaN, NaN, Infinity, -Infinity, 1e300, 0, -1])}`;
    }
    return `f:${r.gauss() * 3}`;
  };
  const op = () => {
    const s = r.n(nslots), z = r.f();
    if (z < 0.40) return ["step", s, x()];
    if (z < 0.48) return ["quant", s, r.p(0.12) ? r.pick([0, -0, 1, 2, -1, NaN, Infinity, -Infinity, 5e-324, 1e-300, 0.5]) : r.p(0.6) ? Math.pow(10, -r.int(1, 6)) : Math.pow(10, -8 * r.f())];
    if (z < 0.56) return ["prob", s, x()];
    if (z < 0.72) return fit(s);
    if (z < 0.76) return r.pick([["ver"], ["err", r.int(990, 1012)], ["err", r.int(1000, 1004)], ["size"], ["const"]]);
    if (z < 0.86 && fLife) return r.pick([["drop", s], ["drop", s], ["gc", r.n(8)], ["gc", r.n(8)], ["gcall", r.n(1000)]]);
    if (z < 0.90) return ["new", s, ...cfg()];
    return ["step", s, x()];
  };
  for (let s = 0; s < nslots; s++) {
    T.push(["new", s, ...cfg()]);
    T.push(fit(s));
  }
  const n = r.int(6, tier === "quick" ? 70 : 150);
  for (let i = 0; i < n; i++) {
    if (fMem && r.p(0.3)) T.push(["failm", r.pick([1, 1, 1, 2, 2, 3])]);
    if (fGrow && r.p(0.15)) T.push(["grow", r.pick([1, 1, 2])]);
    T.push(op());
  }
  return T.map((o) => o.join(" "));
}

// ------------------------------------------------------------------ the module heap
class Heap {
  // an allocator over the linear memory: canaries around blocks, poison in released blocks, released blocks reused late
  constructor(instance, onGrow) {
    this.mem = instance.exports.memory;
    this.base = (instance.exports.__heap_base.value + 15) & ~15;
    this.top = this.base;
    this.live = new Map();
    this.free_ = [];
    this.err = null;
    this.onGrow = onGrow;
    this.fail = 0; this.failed = 0; this.grow = 0; this.grown = 0;
    this.count = 0;
    this.curop = -1;
    this.u8 = new Uint8Array(this.mem.buffer);
  }
  refresh() {
    if (this.u8.buffer !== this.mem.buffer || this.u8.length === 0) { this.u8 = new Uint8Array(this.mem.buffer); this.onGrow(); }
  }
  bad(m) { this.err ??= m; }
  malloc(n) {
    n = n >>> 0;
    this.count++;
    if (this.fail > 0 && --this.fail === 0) { this.failed++; return 0; }
    if (n > LIMIT) return 0;
    if (this.grow > 0 && --this.grow === 0 && this.grown < 64) { this.mem.grow(1); this.grown++; this.refresh(); }
    const size = (n + 15) & ~15;
    // reuse a released block of the same size, but not one released recently
    let b = null;
    for (let i = 0; i + 4 < this.free_.length; i++)
      if (this.free_[i].size === size) { b = this.free_[i]; this.checkPoison(b); this.free_.splice(i, 1); break; }
    if (!b) {
      const p = this.top + 32;
      const end = p + size + 32;
      if (end > this.mem.buffer.byteLength) {
        const pages = Math.ceil((end - this.mem.buffer.byteLength) / PAGE);
        if (this.mem.buffer.byteLength + pages * PAGE > 64 << 20) return 0;
        this.mem.grow(pages); this.refresh();
      }
      this.top = end;
      b = { p, size };
    }
    b.n = n; b.op = this.curop;
    this.u8.fill(0xa5, b.p - 32, b.p);
    this.u8.fill(0x5e, b.p, b.p + n);
    this.u8.fill(0xa5, b.p + n, b.p + b.size + 32);
    this.live.set(b.p, b);
    return b.p;
  }
  free(p) {
    p = p >>> 0;
    if (p === 0) return;
    const b = this.live.get(p);
    if (!b) { this.bad("memory is released that is not allocated (released twice, or never allocated)"); return; }
    this.checkCanary(b);
    this.live.delete(p);
    this.u8.fill(0xdd, b.p, b.p + b.size);
    this.free_.push(b);
  }
  checkCanary(b) {
    const u = this.u8;
    for (let i = b.p - 32; i < b.p; i++) if (u[i] !== 0xa5) { this.bad("memory before an allocated block was written"); return; }
    for (let i = b.p + b.n; i < b.p + b.size + 32; i++) if (u[i] !== 0xa5) { this.bad("memory behind an allocated block was written"); return; }
  }
  checkPoison(b) {
    const u = this.u8;
    for (let i = b.p; i < b.p + b.size; i++) if (u[i] !== 0xdd) { this.bad("memory was written after it was released"); return; }
  }
  check() {
    this.refresh();
    for (const b of this.live.values()) this.checkCanary(b);
    for (const b of this.free_.slice(-6)) this.checkPoison(b);
    const u = this.u8;
    for (let i = 0; i < 1024; i++) if (u[i] !== 0) { this.bad("memory at the null address was written"); break; }
    return this.err;
  }
}

const wasmModules = {};
function instantiate(file, getHeap) {
  wasmModules[file] ??= new WebAssembly.Module(fs.readFileSync(file));
  const env = {
    malloc: (n) => getHeap().malloc(n),
    free: (p) => getHeap().free(p),
    calloc: (a, b) => { const h = getHeap(), n = (a >>> 0) * (b >>> 0); const p = n > LIMIT ? 0 : h.malloc(n); if (p) h.u8.fill(0, p, p + n); return p; },
    realloc: (q, n) => {
      const h = getHeap(); n = n >>> 0;
      if (!q) return h.malloc(n);
      const b = h.live.get(q >>> 0);
      if (!b) { h.bad("memory is resized that is not allocated"); return 0; }
      const p = h.malloc(n);
      if (p) { h.u8.copyWithin(p, b.p, b.p + Math.min(n, b.n)); h.free(q); }
      return p;
    },
  };
  return new WebAssembly.Instance(wasmModules[file], { env });
}

// what the Emscripten loader gives the binding
function loader(instance, heap) {
  const ex = instance.exports;
  const M = {};
  const views = () => {
    const b = ex.memory.buffer;
    M.HEAP8 = new Int8Array(b); M.HEAPU8 = new Uint8Array(b); M.HEAP16 = new Int16Array(b); M.HEAPU16 = new Uint16Array(b);
    M.HEAP32 = new Int32Array(b); M.HEAPU32 = new Uint32Array(b); M.HEAPF32 = new Float32Array(b); M.HEAPF64 = new Float64Array(b);
    M.HEAP64 = new BigInt64Array(b); M.HEAPU64 = new BigUint64Array(b);
  };
  heap.onGrow = views;
  views();
  for (const [k, f] of Object.entries(ex)) if (typeof f === "function") M["_" + k] = f;
  M._malloc = (n) => heap.malloc(Number(n) | 0);
  M._free = (p) => { heap.free(Number(p) | 0); };
  const func = (name) => {
    const f = name === "malloc" ? M._malloc : name === "free" ? M._free : ex[name];
    if (typeof f !== "function") throw new Error("Cannot call unknown function " + name + ", make sure it is exported");
    return f;
  };
  M.ccall = (name, ret, types, args) => {
    const f = func(name), tmp = [];
    const put = (bytes) => { const p = heap.malloc(bytes.length); heap.u8.set(bytes, p); tmp.push(p); return p; };
    const a = (args ?? []).map((v, i) => {
      if (types?.[i] === "string") return v === null || v === undefined || v === 0 ? 0 : put(new TextEncoder().encode(v + "\0"));
      if (types?.[i] === "array") return put(v);
      return v;
    });
    let r = f(...a);
    if (ret === "string") { let e = r; while (heap.u8[e]) e++; r = new TextDecoder().decode(heap.u8.slice(r, e)); }
    if (ret === "boolean") r = Boolean(r);
    for (const p of tmp) heap.free(p);
    return r;
  };
  M.cwrap = (name, ret, types) => {
    const numeric = !types || types.every((t) => t === "number" || t === "boolean");
    if (ret !== "string" && numeric) return func(name);
    return (...args) => M.ccall(name, ret, types, args);
  };
  return M;
}

// ------------------------------------------------------------------ the simulated collector
let HELD = null;    // what a registry keeps alive
let REG = null;     // of the current run: [{ registry, target, held, token }]
class SimRegistry {
  constructor(cb) { this.cb = cb; }
  register(target, held, token) {
    if (target === held) throw new TypeError("FinalizationRegistry.prototype.register: target and holdings must not be same");
    HELD?.push(held);
    REG?.push({ registry: this, target, held, token });
  }
  unregister(token) {
    let any = false;
    if (REG) for (let i = REG.length - 1; i >= 0; i--) if (REG[i].registry === this && REG[i].token === token && token !== undefined) { REG.splice(i, 1); any = true; }
    return any;
  }
}

let jsText = null;
async function loadBinding(core) {
  jsText ??= fs.readFileSync(process.env.SIM_JS, "utf-8");
  globalThis.FinalizationRegistry = SimRegistry;
  const m = new vm.SourceTextModule(jsText, { identifier: "libspot" });
  await m.link(async () => {
    const s = new vm.SyntheticModule(["default"], function () { this.setExport("default", async () => core); });
    return s;
  });
  await m.evaluate();
  return m.namespace;
}

const same = (a, b) => Object.is(a, b) || a === b;
const conv = new DataView(new ArrayBuffer(8));
function next(x, up) {
  if (!Number.isFinite(x)) return x;
  if (x === 0) return up ? 5e-324 : -5e-324;
  conv.setFloat64(0, x);
  conv.setBigInt64(0, conv.getBigInt64(0) + ((x > 0) === up ? 1n : -1n));
  return conv.getFloat64(0);
}

class Sim {
  constructor(prop, lines, binding, heap, ref, refHeap) {
    Object.assign(this, { prop, lines, b: binding, heap, ref, refHeap });
    this.slots = new Array(NSLOT).fill(null);
    this.viol = null; this.stop = false;
    this.cnt = {}; this.states = new Set(); this.log_ = []; this.steps = 0; this.cur = 0;
    this.weak = [];
  }
  c(k) { this.cnt[k] = (this.cnt[k] ?? 0) + 1; }
  log(...a) { this.log_.push(a.map(String).join(",")); }
  bad(prop, msg) {
    if (!this.viol && !this.stop) {
      if (prop === this.prop || prop === "*") this.viol = [this.prop, msg, this.cur];
      else {
        this.c("p:diverged");
        if (this.prop === "C21" && prop === "C20") return;   // the memory is still ours to watch
      }
    }
    this.stop = true;
  }
  text(code) {
    const R = this.ref, p = this.refHeap.malloc(256);
    this.refHeap.u8.fill(0, p, p + 256);
    R.libspot_error(code, p, 256);
    const u = this.refHeap.u8; let e = p; while (e < p + 256 && u[e]) e++;
    const s = new TextDecoder().decode(u.slice(p, e));
    this.refHeap.free(p);
    return s;
  }
  // calls f in the binding
  call(f) {
    const h = this.heap, f0 = h.failed, g0 = h.grown;
    h.curop = this.cur;
    let res;
    try { res = { ok: true, v: f() }; }
    catch (e) { res = { ok: false, e }; }
    h.fail = 0; h.grow = 0;
    res.inj = h.failed - f0;
    if (res.inj) this.c("malloc-failure");
    if (h.grown > g0) this.c("memory-growth");
    if (!res.ok && res.e instanceof WebAssembly.RuntimeError) this.bad("*", "the module trapped: " + res.e.message);
    const err = h.check();
    if (err) this.memory(err);
    return res;
  }
  show(res) { return res.ok ? `returned ${String(res.v)}` : `threw ${res.e?.name}(${res.e?.message})`; }
  mustThrow(what, res, msg) {
    if (res.ok || !(res.e instanceof Error)) { this.bad(res.inj ? "C21" : "C20", `${what} should throw but ${this.show(res)}`); return; }
    if (!res.inj && res.e.message !== msg) this.bad("C20", `${what} should throw Error(${msg}) but ${this.show(res)}`);
  }
  x(t, d) {
    const i = t.indexOf(":"), k = t.slice(0, i), v = Number(t.slice(i + 1));
    if (k === "f") return v;
    const R = this.ref;
    let t0 = R.ref_excess(d.ref), z0 = R.ref_anomaly(d.ref), sg = R.ref_sigma(d.ref), dir = R.ref_low(d.ref) ? -1 : 1;
    if (!Number.isFinite(t0)) t0 = 0;
    if (!Number.isFinite(z0)) z0 = t0 + dir;
    if (!(Number.isFinite(sg) && sg > 0)) sg = 1;
    if (k === "T") { let y = t0; for (let j = 0; j < Math.abs(v); j++) y = next(y, v * dir > 0); return y; }
    if (k === "Q") return t0 + (z0 - t0) * v;
    return t0 + dir * sg * v;
  }
  batch(w) {
    const [, , view, seed, n_, dist, scale, off, pre_, post_] = w;
    const n = Number(n_), r = new Rng("b" + seed), pre = Number(pre_ ?? 1), post = Number(post_ ?? 1);
    const vals = new Float64Array(n);
    for (let i = 0; i < n; i++) {
      let v;
      if (dist === "gauss") v = r.gauss();
      else if (dist === "expo") v = -Math.log(1 - r.f());
      else if (dist === "unif") v = r.f();
      else if (dist === "cauchy") v = Math.tan(1.5 * (r.f() * 2 - 1));
      else v = r.int(-8, 8);
      vals[i] = v * Number(scale) + Number(off);
    }
    for (const s of w.slice(10)) { const [i, v] = s.split("@"); if (Number(i) < n) vals[Number(i)] = Number(v); }
    let a;
    const embed = (buf, skip) => { const all = new Float64Array(buf); for (let i = 0; i < all.length; i++) all[i] = 1e6 + i; const v = new Float64Array(buf, skip * 8, n); v.set(vals); return v; };
    if (view === "sub") a = embed(new ArrayBuffer((n + pre + post) * 8), pre);
    else if (view === "head") a = embed(new ArrayBuffer((n + post) * 8), 0);
    else if (view === "shared") a = embed(new SharedArrayBuffer((n + pre) * 8), pre);
    else if (view === "resizable") a = embed(new ArrayBuffer((n + pre) * 8, { maxByteLength: (n + pre + 64) * 8 }), pre);
    else if (view === "subclass") { a = new (class Mine extends Float64Array {})(n); a.set(vals); }
    else a = Float64Array.from(vals);
    return [a, vals];
  }
  refFit(d, vals) {
    const h = this.refHeap, p = h.malloc(vals.length * 8);
    h.u8.set(new Uint8Array(vals.buffer), p);
    const code = this.ref.spot_fit(d.ref, p, vals.length);
    h.free(p);
    return code;
  }
  diff(d) {
    const R = this.ref, js = d.js;
    const pairs = [["anomaly threshold", js.anomaly_threshold(), R.ref_anomaly(d.ref)], ["excess threshold", js.excess_threshold(), R.ref_excess(d.ref)],
      ["quantile(0.001)", js.quantile(0.001), R.spot_quantile(d.ref, 0.001)]];
    const z = R.ref_excess(d.ref) + (R.ref_low(d.ref) ? -1 : 1) * R.ref_sigma(d.ref);
    pairs.push([`probability(${z})`, js.probability(z), R.spot_probability(d.ref, z)]);
    for (const [k, a, b] of pairs) if (!same(a, b)) return `${k} is ${a} but C has ${b}`;
    return null;
  }
  checkAll(op) {
    for (const d of this.slots) {
      if (!d) continue;
      let x;
      try { x = this.diff(d); }
      catch (e) { this.bad("*", `reading a detector threw ${e?.name}(${e?.message})`); return; }
      if (x) { this.bad("C20", `after ${op}: ${x}`); return; }
    }
    const err = this.heap.check();
    if (err) this.memory(err);
  }
  memory(err) {
    if (this.prop === "C21") { this.bad("C21", err); return; }
    this.c("p:memory-error"); this.heap.err = null;     // C20 goes on: what do the users see?
  }
  reachable() { return new Set(this.slots.filter((d) => d).map((d) => d.js)); }
  pending() { const live = this.reachable(); return REG.filter((r) => !live.has(r.target)); }
  finalise(r) {
    REG.splice(REG.indexOf(r), 1);
    this.c("finalisation");
    const res = this.call(() => r.registry.cb(r.held));
    if (!res.ok) this.bad("C21", `finalising a detector threw ${res.e?.name}(${res.e?.message})`);
  }
  drop(s) {
    const d = this.slots[s];
    this.slots[s] = null;
    if (d) { this.ref.spot_free(d.ref); this.refHeap.free(d.ref); d.js = null; }
  }
  op(w) {
    const k = w[0], R = this.ref, B = this.b;
    this.steps++;
    let failed = false, what = k;
    if (k === "failm") { this.heap.fail = Number(w[1]); return; }
    if (k === "grow") { this.heap.grow = Number(w[1]); return; }
    if (k === "gc") {
      const p = this.pending();
      if (p.length) this.finalise(p[Number(w[1]) % p.length]);
    } else if (k === "gcall") {
      const r = new Rng("g" + w[1]);
      for (let p = this.pending(); p.length && !this.stop; p = this.pending()) this.finalise(p[r.n(p.length)]);
    } else if (k === "drop") {
      this.drop(Number(w[1]) % NSLOT); this.c("drop");
    } else if (k === "ver" || k === "err") {
      let want;
      if (k === "err") want = this.text(Number(w[1]));
      else {
        const p = this.refHeap.malloc(64); R.libspot_version(p, 64);
        let e = p; while (this.refHeap.u8[e]) e++;
        want = new TextDecoder().decode(this.refHeap.u8.slice(p, e)); this.refHeap.free(p);
      }
      const res = this.call(() => (k === "err" ? B.libspotError(Number(w[1])) : B.libspotVersion()));
      if (!res.inj && (!res.ok || res.v !== want)) this.bad("C20", `${k} should give ${JSON.stringify(want)} but ${this.show(res)}`);
      if (res.inj && res.ok && res.v !== want && res.v !== "") this.bad("C21", `${k} without memory ${this.show(res)}`);
      failed = res.inj > 0;
    } else if (k === "size") {
      const res = this.call(() => B.spotSize());
      if (!res.ok || res.v !== R.ref_sizeof()) this.bad("C20", `spotSize ${this.show(res)}`);
    } else if (k === "const") {
      if (B.NORMAL !== 0 || B.EXCESS !== 1 || B.ANOMALY !== 2) this.bad("C20", `the constants are ${B.NORMAL} ${B.EXCESS} ${B.ANOMALY}`);
      if (B.default !== B.Spot) this.bad("C20", "the default export is not Spot");
    } else if (k === "new") {
      const s = Number(w[1]) % NSLOT;
      const names = ["q", "low", "discardAnomalies", "level", "maxExcess"], c = {}, v = [NaN, 0, 1, 0.98, 500];
      w.slice(2, 7).forEach((t, i) => { if (t === "u") c[names[i]] = undefined; else if (t !== "-") v[i] = c[names[i]] = Number(t); });
      this.drop(s);
      const res = this.call(() => new B.Spot(c));
      const p = R.ref_new();
      const code = R.spot_init(p, ...v);
      this.c("p:new");
      if (code < 0 || res.inj) {
        failed = true;
        this.c(code < 0 ? "p:refused-init" : "p:injected-init");
        if (code < 0) this.refHeap.free(p); else { R.spot_free(p); this.refHeap.free(p); }
        this.mustThrow("new Spot", res, code < 0 ? this.text(-code) : "");
        if (this.wantWeak && !res.ok) res.e.stack = "";
      } else if (!res.ok) {
        R.spot_free(p); this.refHeap.free(p);
        this.bad("C20", `new Spot ${this.show(res)} although the C library accepts it`);
      } else {
        this.slots[s] = { js: res.v, ref: p };
        if (this.wantWeak) this.weak.push(new WeakRef(res.v));
      }
    } else {
      const d = this.slots[Number(w[1]) % NSLOT];
      if (!d) return;
      if (k === "fit") {
        const [a, vals] = this.batch(w);
        this.c("p:view-" + w[2]);
        const res = this.call(() => d.js.fit(a));
        if (this.stop) return;
        if (res.inj) {
          failed = true;
          this.c("p:injected-fit");
          if (res.ok || !(res.e instanceof Error)) this.bad("C21", `fit without memory ${this.show(res)}`);
          else if (this.diff(d)) this.refFit(d, vals);    // trained, but the text of the refusal could not be had
        } else {
          const code = this.refFit(d, vals);
          if (code < 0) { failed = true; this.c("p:refused-fit"); this.mustThrow("fit", res, this.text(-code)); }
          else if (!res.ok || res.v !== code) this.bad("C20", `fit (${w[2]}) ${this.show(res)} although the C library accepts it`);
        }
        for (let i = 0; i < vals.length; i++) if (!same(a[i], vals[i])) { this.bad("C20", "fit changes the data it is given"); break; }
      } else if (k === "step") {
        const x = this.x(w[2], d);
        const res = this.call(() => d.js.step(x));
        const code = R.spot_step(d.ref, x);
        this.c("v:" + code);
        if (code < 0) { failed = true; this.mustThrow(`step(${x})`, res, this.text(-code)); }
        else if (!res.ok || res.v !== code) this.bad("C20", `step(${x}) ${this.show(res)} but C returns ${code}`);
        this.log(code);
      } else if (k === "quant" || k === "prob") {
        const x = k === "quant" ? Number(w[2]) : this.x(w[2], d);
        const res = this.call(() => (k === "quant" ? d.js.quantile(x) : d.js.probability(x)));
        const want = k === "quant" ? R.spot_quantile(d.ref, x) : R.spot_probability(d.ref, x);
        if (!res.ok || !same(res.v, want)) this.bad("C20", `${k}(${x}) ${this.show(res)} but C returns ${want}`);
        this.log(want);
      }
    }
    this.states.add(`${k} ${failed} ${k === "fit" ? w[2] : ""} ${this.slots.filter((d) => d).length} ${Math.min(3, this.pending().length)} ${this.heap.grown > 0}`);
    this.log(k, failed);
    if (!this.stop) this.checkAll(k);
  }
  execute() {
    for (let i = 0; i < this.lines.length && !this.stop; i++) {
      const w = this.lines[i].split(/\s+/).filter((x) => x);
      if (!w.length || w[0][0] === "#") continue;
      this.cur = i;
      this.op(w);
    }
  }
  // the program lets go of everything and the collector gets its way
  finish() {
    for (let s = 0; s < NSLOT; s++) this.drop(s);
    for (let p = this.pending(); p.length && !this.stop; p = this.pending()) this.finalise(p[p.length - 1]);
  }
}

async function runTrace(prop, lines, weak) {
  let heap = null, refHeap = null;
  const inst = instantiate(process.env.SIM_WASM, () => heap);
  heap = new Heap(inst, () => {});
  const core = loader(inst, heap);
  inst.exports.spot_main_();
  const rinst = instantiate(process.env.SIM_REF, () => refHeap);
  refHeap = new Heap(rinst, () => {});
  rinst.exports.ref_setup();
  REG = []; HELD = [];
  const binding = await loadBinding(core);
  let sim = new Sim(prop, lines, binding, heap, rinst.exports, refHeap);
  sim.wantWeak = weak;
  sim.execute(); sim.finish();
  const res = { viol: sim.viol, cnt: sim.cnt, states: sim.states, steps: sim.steps, hash: crypto.createHash("md5").update(sim.log_.join("\n")).digest("hex").slice(0, 16) };
  if (prop === "C21" && !sim.stop) {
    // again: what is allocated now and was not after the first pass grows with use
    const before = heap.live.size, kinds = {};
    for (const b of heap.live.values()) {
      // one block per purpose may be kept for the next use, more are lost
      const k = (lines[b.op] ?? "?").split(" ")[0];
      kinds[k] = (kinds[k] ?? 0) + 1;
      if (kinds[k] > 1) { res.viol = [prop, `memory allocated during '${k}' is never released`, b.op]; REG = HELD = null; return res; }
    }
    const w = sim.weak;
    sim = new Sim(prop, lines, binding, heap, rinst.exports, refHeap);
    sim.weak = w; sim.wantWeak = weak;
    sim.execute(); sim.finish();
    res.cnt["p:leak-checked"] = 1;
    if (sim.viol) res.viol = sim.viol;
    else if (!sim.stop && heap.live.size > before) {
      const op = Math.max(...[...heap.live.values()].map((b) => b.op));
      res.viol = [prop, `memory allocated during '${(lines[op] ?? "?").split(" ")[0]}' is never released`, op];
    }
    if (weak && !sim.stop && !res.viol) {
      const refs = sim.weak;
      sim = null; REG = [];      // HELD stays: a registry keeps what it was given, but not the detectors
      // background compilation may hold on to an object for a while: only one that stays is kept by the binding
      const kept = () => refs.some((r) => r.deref() !== undefined);
      for (let i = 0; i < 16; i++) {
        await new Promise((r) => (i < 4 ? setImmediate(r) : setTimeout(r, 10 * i)));
        globalThis.gc();
        if (i > 0) {
          await new Promise((r) => setImmediate(r));
          globalThis.gc();
          if (!kept()) break;
          await new Promise((r) => setImmediate(r));
        }
      }
      res.cnt["p:collector-checked"] = 1;
      res.collector = true;
      if (kept()) res.viol = [prop, "the binding keeps a dropped detector reachable, so that its memory is never released", lines.length - 1];
    }
  }
  REG = HELD = null;
  return res;
}

// the collector is the one thing that is not under control here: what it kept must be kept in a fresh process too
function collectedElsewhere(prop, trace) {
  const d = fs.mkdtempSync(path.join(os.tmpdir(), "simjs-"));
  try {
    fs.writeFileSync(path.join(d, "t"), trace.join("\n") + "\n");
    return spawnSync(process.execPath, [...process.execArgv, process.argv[1], "replay", prop, path.join(d, "t")]).status === 1;
  } finally { fs.rmSync(d, { recursive: true }); }
}

function fmt(v, run) { return `VIOL run=${run} op=${v[2]} prop=${v[0]} :: ${String(v[1]).replace(/\n/g, " ")}`; }

async function main() {
  const [cmd, prop, ...a] = process.argv.slice(2);
  const out = [];
  const emit = (s) => out.push(s);
  const flush = () => { fs.writeSync(1, out.join("\n") + (out.length ? "\n" : "")); };
  if (cmd === "gen") { gen(prop, a[0], Number(a[1]), a[2] ?? "quick").forEach(emit); flush(); return 0; }
  // a run that does not end is ended from outside this thread
  const beat = new Int32Array(new SharedArrayBuffer(4));
  const limit = Number(process.env.SIM_ALARM ?? "60");
  new Worker(`const { workerData: w } = require("node:worker_threads"); const cpu = () => { const c = process.cpuUsage(); return (c.user + c.system) / 1e6; }; let last = -1, since = 0, start = 0; setInterval(() => { const n = Atomics.load(w.beat, 0); if (n !== last) { last = n; since = Date.now(); start = cpu(); } else if (cpu() - start > ${limit} || Date.now() - since > ${4000 * limit}) process.kill(process.pid, "SIGALRM"); }, 250);`, { eval: true, workerData: { beat } }).unref();
  if (cmd === "replay") {
    const lines = fs.readFileSync(a[0], "utf-8").split("\n").filter((l) => l.trim() && !l.startsWith("#"));
    const res = await runTrace(prop, lines, true);
    if (res.viol) emit(fmt(res.viol, 0));
    emit(`HASH ${res.hash} steps=${res.steps}`);
    flush();
    return res.viol ? 1 : 0;
  }
  const [seed, from, to, stride, tier, stf, dl] = a;
  const fd = fs.openSync(stf, "w+");
  const st = new BigInt64Array(2);
  const end = Date.now() + Number(dl) * 1000;
  let done = 0, steps = 0, rc = 0;
  const cnt = {}, states = new Set(), traces = new Set();
  for (let run = Number(from); run < Number(to); run += Number(stride)) {
    if (Date.now() > end) break;
    Atomics.add(beat, 0, 1);
    st[0] = BigInt(run); fs.writeSync(fd, st, 0, 16, 0);
    const trace = gen(prop, seed, run, tier);
    const res = await runTrace(prop, trace, (run - Number(from)) % (32 * Number(stride)) === 0);
    if (res.viol && res.collector && !collectedElsewhere(prop, trace)) { res.viol = null; res.cnt["p:collector-undecided"] = 1; }
    done++; steps += res.steps;
    for (const [k, v] of Object.entries(res.cnt)) cnt[k] = (cnt[k] ?? 0) + v;
    for (const s of res.states) states.add(s);
    if (res.steps > 6) traces.add(res.hash);
    if (process.env.SIM_HASHES) emit(`RH ${run} ${res.hash}`);
    if (res.viol) { emit(fmt(res.viol, run)); rc = 1; break; }
  }
  emit(`DONE runs=${done} nontrivial=${traces.size} steps=${steps} hash=0 states=${states.size}`);
  for (const [k, v] of Object.entries(cnt)) emit(`CNT ${k} ${v}`);
  for (const [env, data] of [["SIM_STATES", [...states].map((s) => crypto.createHash("md5").update(s).digest().subarray(0, 8))], ["SIM_TRACES", [...traces].map((s) => Buffer.from(s, "hex"))]])
    if (process.env[env]) fs.writeFileSync(process.env[env], Buffer.concat(data));
  flush();
  return rc;
}

main().then((c) => process.exit(c), (e) => { fs.writeSync(1, "HARNESS " + (e?.stack ?? e) + "\n"); process.exit(3); });
