// Deterministic simulation core: PRNG, virtual clock, seeded event queue,
// decision log (every random choice that matters), trace and digests.
import { AsyncResource } from "node:async_hooks";

const realSetImmediate = setImmediate;

export function hash32(str) {
  // FNV-1a with an avalanche finish; plain string hash used for keyed decisions.
  let h = 0x811c9dc5;
  for (let i = 0; i < str.length; i++) {
    h ^= str.charCodeAt(i);
    h = Math.imul(h, 0x01000193);
  }
  h ^= h >>> 16;
  h = Math.imul(h, 0x85ebca6b);
  h ^= h >>> 13;
  h = Math.imul(h, 0xc2b2ae35);
  h ^= h >>> 16;
  return h >>> 0;
}

export class Rng {
  constructor(seed) {
    this.s = (typeof seed === "string" ? hash32(seed) : seed) >>> 0;
    for (let i = 0; i < 4; i++) this.u32();
  }
  u32() {
    // mulberry32
    let t = (this.s = (this.s + 0x6d2b79f5) >>> 0);
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return (t ^ (t >>> 14)) >>> 0;
  }
  float() {
    return this.u32() / 4294967296;
  }
  int(lo, hi) {
    return lo + Math.floor(this.float() * (hi - lo + 1));
  }
  bool(p = 0.5) {
    return this.float() < p;
  }
  pick(arr) {
    return arr[this.int(0, arr.length - 1)];
  }
  // pairs: [[weight, value], ...]
  weighted(pairs) {
    let tot = 0;
    for (const [w] of pairs) tot += w;
    let x = this.float() * tot;
    for (const [w, v] of pairs) {
      x -= w;
      if (x < 0) return v;
    }
    return pairs[pairs.length - 1][1];
  }
  shuffle(arr) {
    const a = arr.slice();
    for (let i = a.length - 1; i > 0; i--) {
      const j = this.int(0, i);
      [a[i], a[j]] = [a[j], a[i]];
    }
    return a;
  }
  sample(arr, n) {
    return this.shuffle(arr).slice(0, n);
  }
}

// Binary heap ordered by (time, tie, seq).
class Heap {
  constructor() {
    this.a = [];
  }
  less(x, y) {
    if (x.time !== y.time) return x.time < y.time;
    if (x.tie !== y.tie) return x.tie < y.tie;
    return x.seq < y.seq;
  }
  push(e) {
    const a = this.a;
    a.push(e);
    let i = a.length - 1;
    while (i > 0) {
      const p = (i - 1) >> 1;
      if (!this.less(a[i], a[p])) break;
      [a[i], a[p]] = [a[p], a[i]];
      i = p;
    }
  }
  pop() {
    const a = this.a;
    const top = a[0];
    const last = a.pop();
    if (a.length) {
      a[0] = last;
      let i = 0;
      for (;;) {
        const l = 2 * i + 1;
        const r = l + 1;
        let m = i;
        if (l < a.length && this.less(a[l], a[m])) m = l;
        if (r < a.length && this.less(a[r], a[m])) m = r;
        if (m === i) break;
        [a[i], a[m]] = [a[m], a[i]];
        i = m;
      }
    }
    return top;
  }
  get size() {
    return this.a.length;
  }
}

export class Violation extends Error {
  constructor(clause, detail) {
    super(`${clause}: ${detail}`);
    this.clause = clause;
    this.detail = detail;
  }
}

/**
 * One simulated execution. All time, randomness and ordering come from here.
 *  - `overrides`: map key -> value replacing the seeded decision for that key (used by replay and minimisation)
 */
export class Sim {
  constructor({ seed, overrides = null, faultsOff = false, maxSteps = 60000 }) {
    this.seed = seed;
    this.now = 0; // monotonic virtual ms since process start
    this.wallBase = 1_760_000_000_000; // wall clock at now = 0
    this.wallSkew = 0; // changed by clock-jump faults
    this.heap = new Heap();
    this.seq = 0;
    this.steps = 0;
    this.maxSteps = maxSteps;
    this.overrides = overrides;
    this.faultsOff = faultsOff;
    this.decisions = new Map(); // key -> value, exactly what this run used
    this.counters = new Map(); // per-key occurrence numbers
    this.faultCounts = {};
    this.trace = [];
    this.traceOn = false;
    this.digest = 0x12345678;
    this.interleave = 0x9e3779b9;
    this.violations = [];
    this.unhandled = [];
    this.appRng = new Rng(hash32("app" + seed)); // Math.random / crypto of the code under test
    this.tieRng = new Rng(hash32("tie" + seed));
    this.lastTimerDue = -1;
    this.crashed = false;
    this.logs = [];
    this.obligations = {}; // oracle evaluations by name: guards against vacuous runs
    this.cleanups = [];
    this.covered = {}; // scenario-defined situations reached
  }

  oblige(name, n = 1) {
    this.obligations[name] = (this.obligations[name] ?? 0) + n;
  }

  cover(name) {
    this.covered[name] = (this.covered[name] ?? 0) + 1;
  }

  wall() {
    return Math.floor(this.wallBase + this.now + this.wallSkew);
  }

  note(kind, info = "") {
    const s = `${this.now}|${kind}|${info}`;
    this.digest = (Math.imul(this.digest, 31) + hash32(s)) >>> 0;
    if (this.traceOn) this.trace.push(`t=${this.now}ms ${kind} ${info}`);
  }

  // Ordering-only digest: which kind of event followed which (no timings).
  order(kind) {
    this.interleave = (Math.imul(this.interleave, 33) ^ hash32(kind)) >>> 0;
  }

  fail(clause, detail, sig = clause) {
    const text = typeof detail === "string" ? detail : JSON.stringify(detail);
    this.note("VIOLATION", `${clause}: ${text}`);
    this.violations.push({ clause, sig, detail: text.slice(0, 2000), at: this.now });
  }

  /** Occurrence-numbered key for a decision point. */
  nth(name) {
    const n = (this.counters.get(name) ?? 0) + 1;
    this.counters.set(name, n);
    return `${name}#${n}`;
  }

  /**
   * A recorded decision. `draw(rng)` gives the seeded value; an override wins.
   * `neutral` is the value minimisation may substitute.
   */
  decide(name, draw, neutral) {
    const key = this.nth(name);
    let v;
    if (this.overrides && key in this.overrides) v = this.overrides[key];
    else if (this.faultsOff) v = neutral;
    else v = draw(new Rng(hash32(`${this.seed}/${key}`)));
    this.decisions.set(key, { v, neutral });
    return v;
  }

  countFault(kind) {
    this.faultCounts[kind] = (this.faultCounts[kind] ?? 0) + 1;
  }

  /** Schedule fn at now+delay. kind "timer" keeps FIFO order among equal deadlines, others tie-break by seed. */
  schedule(delay, label, fn, { timer = false, proc = true } = {}) {
    const d = Number.isFinite(delay) && delay > 0 ? delay : 0;
    const ev = {
      time: this.now + d,
      tie: timer ? 0.5 : this.tieRng.float(),
      seq: ++this.seq,
      label,
      fn: AsyncResource.bind(fn),
      cancelled: false,
      proc,
    };
    this.heap.push(ev);
    return ev;
  }

  cancel(ev) {
    if (ev) ev.cancelled = true;
  }

  sleep(ms, label = "sleep") {
    return new Promise((r) => this.schedule(ms, label, () => r()));
  }

  drain() {
    return new Promise((r) => realSetImmediate(r));
  }

  /** Crash: the process's own events never run again. Network events already on the wire still reach the server. */
  crash() {
    this.crashed = true;
    this.note("crash");
    this.countFault("crash");
  }

  /**
   * Run until no events remain, `until()` is true, or virtual time passes `horizon`.
   * Returns "idle" | "until" | "horizon" | "steps".
   */
  async run({ until = null, horizon = Infinity, stallProb = 0 } = {}) {
    await this.drain();
    for (;;) {
      if (until && until()) return "until";
      if (this.heap.size === 0) return "idle";
      const ev = this.heap.pop();
      if (ev.cancelled) continue;
      if (this.crashed && ev.proc) continue;
      if (ev.time > horizon) {
        this.heap.push(ev);
        this.now = Math.max(this.now, horizon);
        return "horizon";
      }
      if (++this.steps > this.maxSteps) {
        this.note("step-limit");
        return "steps";
      }
      if (ev.time > this.now) this.now = ev.time;
      if (stallProb > 0) {
        const stall = this.decide("stall", (r) => (r.bool(stallProb) ? r.pick([5, 50, 400, 1500, 7000]) : 0), 0);
        if (stall) {
          this.now += stall; // the event loop was blocked: everything due meanwhile is now overdue
          this.countFault("event-loop-stall");
          this.note("stall", String(stall));
        }
      }
      this.note("ev", ev.label);
      this.order(ev.label);
      try {
        ev.fn();
      } catch (e) {
        this.unhandled.push({ kind: "uncaughtException", message: String(e?.stack ?? e), at: this.now });
        this.note("uncaughtException", String(e?.message ?? e));
      }
      await this.drain();
    }
  }
}

export { realSetImmediate };
