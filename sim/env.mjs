// Seams around the code under test: every global it could use for time, randomness, I/O or
// scheduling is shadowed by a simulated one (see SHADOWED in bundle.mjs). No hooks in /repo.
import { createRequire } from "node:module";
import nodeCrypto from "node:crypto";
import nodeAsyncHooks, { AsyncResource, AsyncLocalStorage } from "node:async_hooks";
import { compileBundle } from "./bundle.mjs";
import { opContext } from "./net.mjs";

const realRequire = createRequire(import.meta.url);
const RealDate = Date;
const RealAbortSignal = AbortSignal;

export function makeTimers(sim) {
  class SimTimeout {
    constructor(fn, ms, args, repeat) {
      this.fn = fn;
      this.args = args;
      this.ms = normMs(ms);
      this.repeat = repeat;
      this.refd = true;
      this.done = false;
      this.op = opContext.getStore(); // user operation that armed it
      sim.liveTimers?.add(this);
      this.bound = AsyncResource.bind((...a) => this.fn(...a));
      this.arm();
    }
    arm() {
      this.ev = sim.schedule(this.ms, "timer", () => this.fire(), { timer: true });
    }
    fire() {
      if (this.repeat) this.arm();
      else {
        this.done = true;
        sim.liveTimers?.delete(this);
      }
      try {
        this.bound(...this.args);
      } catch (e) {
        // an exception out of a timer callback is an uncaughtException in Node
        sim.unhandled.push({ kind: "uncaughtException", message: String(e?.stack ?? e), at: sim.now });
        sim.note("uncaughtException", String(e));
      }
    }
    unref() {
      this.refd = false;
      return this;
    }
    ref() {
      this.refd = true;
      return this;
    }
    hasRef() {
      return this.refd;
    }
    refresh() {
      sim.cancel(this.ev);
      this.done = false;
      sim.liveTimers?.add(this);
      this.arm();
      return this;
    }
    close() {
      sim.cancel(this.ev);
      sim.liveTimers?.delete(this);
      return this;
    }
    [Symbol.toPrimitive]() {
      return this.ev.seq;
    }
    [Symbol.dispose]() {
      this.close();
    }
  }
  const byId = new Map();
  const setTimeout = (fn, ms, ...args) => {
    if (typeof fn !== "function") throw new TypeError("callback must be a function");
    const t = new SimTimeout(fn, ms, args, false);
    byId.set(t.ev.seq, t);
    return t;
  };
  const setInterval = (fn, ms, ...args) => {
    const t = new SimTimeout(fn, ms, args, true);
    byId.set(t.ev.seq, t);
    return t;
  };
  const clear = (t) => {
    if (t == null) return;
    const x = typeof t === "object" ? t : byId.get(Number(t));
    if (x && x.ev) {
      sim.cancel(x.ev);
      sim.liveTimers?.delete(x);
      x.repeat = false;
    }
  };
  const setImmediate = (fn, ...args) => {
    const ev = sim.schedule(0, "immediate", AsyncResource.bind(() => fn(...args)));
    return { ev, unref() { return this; }, ref() { return this; }, hasRef: () => true };
  };
  const clearImmediate = (h) => h && sim.cancel(h.ev);
  return { setTimeout, clearTimeout: clear, setInterval, clearInterval: clear, setImmediate, clearImmediate };
}

function normMs(ms) {
  const n = Number(ms);
  // Node: NaN, <1 and >2^31-1 all become 1
  if (!(n >= 1 && n <= 2147483647)) return 1;
  return Math.trunc(n);
}

function makeDate(sim) {
  return new Proxy(RealDate, {
    construct(t, args, nt) {
      if (args.length === 0) return Reflect.construct(t, [sim.wall()], nt === SimDateRef.d ? t : nt);
      return Reflect.construct(t, args, nt === SimDateRef.d ? t : nt);
    },
    apply() {
      return new RealDate(sim.wall()).toString();
    },
    get(t, p, r) {
      if (p === "now") return () => sim.wall();
      return Reflect.get(t, p);
    },
  });
}
const SimDateRef = { d: null };

function makeMath(sim) {
  const m = Object.create(Math);
  Object.defineProperty(m, "random", { value: () => sim.appRng.float(), writable: true });
  return m;
}

function makeCrypto(sim) {
  const fill = (arr) => {
    const u8 = new Uint8Array(arr.buffer, arr.byteOffset, arr.byteLength);
    for (let i = 0; i < u8.length; i++) u8[i] = sim.appRng.u32() & 255;
    return arr;
  };
  const randomUUID = () => {
    const b = fill(new Uint8Array(16));
    b[6] = (b[6] & 15) | 64;
    b[8] = (b[8] & 63) | 128;
    const h = Buffer.from(b).toString("hex");
    return `${h.slice(0, 8)}-${h.slice(8, 12)}-${h.slice(12, 16)}-${h.slice(16, 20)}-${h.slice(20)}`;
  };
  const subtle = {
    digest(alg, data) {
      const name = (typeof alg === "string" ? alg : alg.name).toLowerCase().replace("-", "");
      const buf = ArrayBuffer.isView(data) ? Buffer.from(data.buffer, data.byteOffset, data.byteLength) : Buffer.from(data);
      const out = nodeCrypto.createHash(name).update(buf).digest();
      const ab = out.buffer.slice(out.byteOffset, out.byteOffset + out.byteLength);
      // In Node this completes on the thread pool: when it does is up to the schedule.
      const d = sim.decide("digest", (r) => r.weighted([[6, 0], [3, 1], [1, r.int(2, 12)]]), 0);
      return new Promise((res) => sim.schedule(d, "digest", () => res(ab)));
    },
  };
  return { getRandomValues: fill, randomUUID, subtle };
}

function makeAbortSignal(timers) {
  return new Proxy(RealAbortSignal, {
    get(t, p, r) {
      if (p === "timeout")
        return (ms) => {
          const c = new AbortController();
          timers.setTimeout(() => c.abort(new DOMException("The operation was aborted due to timeout", "TimeoutError")), ms).unref();
          return c.signal;
        };
      const v = Reflect.get(t, p, t);
      return typeof v === "function" && p !== "prototype" ? v.bind(t) : v;
    },
  });
}

/**
 * Instantiate a fresh copy of a bundle in its own simulated process environment.
 * Returns the bundle's exports plus the simulated globals.
 */
export function loadProcess(sim, bundleFile, { env = {}, net, extraGlobals = {} } = {}) {
  const timers = makeTimers(sim);
  const SimDate = makeDate(sim);
  SimDateRef.d = SimDate;
  const math = makeMath(sim);
  const crypto = makeCrypto(sim);
  const performance = {
    now: () => sim.now,
    get timeOrigin() {
      return sim.wallBase;
    },
    mark() {},
    measure() {},
  };
  const consoleShim = {};
  for (const k of ["log", "info", "warn", "error", "debug", "trace", "dir", "group", "groupEnd", "table"])
    consoleShim[k] = (...a) => {
      sim.onLog?.(k, a);
      if (sim.logs.length < 400) sim.logs.push(`${k}: ${a.map((x) => (typeof x === "string" ? x : safeStr(x))).join(" ")}`.slice(0, 400));
    };
  const processShim = new Proxy(process, {
    get(t, p) {
      if (p === "env") return env;
      if (p === "hrtime") {
        const f = () => [Math.floor(sim.now / 1000), Math.floor((sim.now % 1000) * 1e6)];
        f.bigint = () => BigInt(Math.round(sim.now * 1e6));
        return f;
      }
      if (p === "uptime") return () => sim.now / 1000;
      if (p === "exit") return (c) => sim.note("process.exit", String(c));
      if (p === "on" || p === "once" || p === "off" || p === "emitWarning") return () => processShim;
      const v = Reflect.get(t, p, t);
      return typeof v === "function" ? v.bind(t) : v;
    },
  });
  const AbortSignalShim = makeAbortSignal(timers);
  const fetchImpl = net ? net.fetch : () => Promise.reject(new TypeError("fetch failed"));
  const g = Object.create(globalThis);
  const overrides = {
    ...timers,
    Date: SimDate,
    Math: math,
    performance,
    crypto,
    fetch: (...a) => (g.__fetch ?? fetchImpl)(...a),
    AbortSignal: AbortSignalShim,
    process: processShim,
    console: consoleShim,
    ...extraGlobals,
  };
  for (const [k, v] of Object.entries(overrides))
    Object.defineProperty(g, k, { value: v, writable: true, configurable: true, enumerable: true });
  Object.defineProperty(g, "globalThis", { value: g });
  Object.defineProperty(g, "global", { value: g });

  const httpShim = net ? net.httpModule(timers) : {};
  const mods = {
    http: httpShim,
    https: httpShim,
    timers,
    "timers/promises": {
      setTimeout: (ms, v) => new Promise((r) => timers.setTimeout(() => r(v), ms)),
      setImmediate: (v) => new Promise((r) => timers.setImmediate(() => r(v))),
    },
    perf_hooks: { performance },
    crypto: {
      ...nodeCrypto,
      randomBytes: (n) => Buffer.from(crypto.getRandomValues(new Uint8Array(n))),
      randomUUID: crypto.randomUUID,
      randomFillSync: crypto.getRandomValues,
      getRandomValues: crypto.getRandomValues,
      webcrypto: crypto,
    },
    process: processShim,
    async_hooks: {
      ...nodeAsyncHooks,
      // real AsyncLocalStorage; instances are disabled when the run ends so that runs cannot leak into each other
      AsyncLocalStorage: class extends AsyncLocalStorage {
        constructor(...a) {
          super(...a);
          sim.cleanups.push(() => this.disable());
        }
      },
    },
  };
  const req = (name) => {
    const n = name.startsWith("node:") ? name.slice(5) : name;
    if (Object.prototype.hasOwnProperty.call(mods, n)) return mods[n];
    return realRequire(name);
  };
  const module = { exports: {} };
  const fn = compileBundle(bundleFile);
  fn.call(
    module.exports,
    module, module.exports, req, g, g, undefined, undefined,
    timers.setTimeout, timers.clearTimeout, timers.setInterval, timers.clearInterval, timers.setImmediate, timers.clearImmediate,
    SimDate, math, performance, crypto, overrides.fetch, AbortSignalShim, processShim, consoleShim,
  );
  return { ...module.exports, g, timers };
}

function safeStr(x) {
  try {
    if (x instanceof Error) return `${x.name}: ${x.message}`;
    return JSON.stringify(x) ?? String(x);
  } catch {
    return String(x);
  }
}
