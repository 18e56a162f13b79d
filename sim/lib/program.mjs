// Random traced programs (nested and concurrent observations, attribute scopes, calls to a second
// service) executed by the real SDK, with an explicit reference model of the context they run in.
// The model context is passed as an argument; the SDK's travels through AsyncLocalStorage.
import { World, MIX, clip } from "../harness.mjs";
import { A, TYPES, attrModel, eq, sendsBySpan } from "./tracing.mjs";

const LONG = "x".repeat(201);

export function genProps(rng, tag) {
  const p = {};
  if (rng.bool(0.5)) p.userId = rng.weighted([[8, `u-${tag}`], [2, `u=${tag};x y/%41"é,z`], [1, LONG], [1, ""], [0.7, "ü".repeat(150)], [0.3, "日".repeat(200)]]);
  if (rng.bool(0.4)) p.sessionId = rng.weighted([[8, `s-${tag}`], [1, LONG], [1, "x".repeat(200)]]);
  if (rng.bool(0.25)) p.version = `v-${tag}`;
  if (rng.bool(0.25)) p.traceName = `tn ${tag} ☃`;
  if (rng.bool(0.25)) p.environment = rng.weighted([[6, `env-${tag}`], [1, "UPPER"], [1, "langfuse-x"], [1, "e".repeat(41)], [1, "e".repeat(40)], [1, ""]]);
  if (rng.bool(0.35)) p.tags = rng.weighted([[5, [`t-${tag}`]], [2, [`t-${tag}`, "shared"]], [1.5, [`t-${tag}0`, `t-${tag}`]], [1, ["t", `t-${tag}x`]], [0.7, ["é".repeat(120), "T"]], [1, ["shared", LONG]], [1, [LONG]]]);
  if (rng.bool(0.45)) p.metadata = rng.weighted([[5, { [`m${tag}`]: `mv-${tag}` }], [3, { shared: `mv-${tag}` }], [1, { bad: 5, ok: `o-${tag}` }], [1, { long: LONG }], [1, { shared: "" }]]);
  if (rng.bool(0.25)) p.prompt = rng.weighted([[6, { name: `p-${tag}`, version: rng.int(1, 9) }], [1, { name: `p-${tag}`, version: "7" }], [1, { name: `p-${tag}`, version: 0 }], [1.5, { name: `fb-${tag}`, version: 2, isFallback: true }], [0.7, { name: `p-${tag}`.padEnd(240, "z"), version: 4 }], [1, { name: "", version: 1 }], [1, { name: "n", version: 1.5 }], [1.5, { name: `p-${tag}`, version: rng.pick(["", "1e1", "0x3", " 7 ", "3.0", "-2", "09"]) }]]);
  return p;
}

/** Reference: validated result of one scope's parameters. */
export function validProps(p) {
  const okStr = (v) => typeof v === "string" && v.length <= 200;
  const out = {};
  for (const k of ["userId", "sessionId", "version", "traceName"]) if (p[k] && okStr(p[k])) out[k] = p[k];
  if (typeof p.environment === "string" && p.environment.length <= 40 && /^(?!langfuse)[a-z0-9_-]+$/.test(p.environment)) out.environment = p.environment;
  const tags = (p.tags ?? []).filter(okStr);
  if (tags.length) out.tags = tags;
  const md = Object.fromEntries(Object.entries(p.metadata ?? {}).filter(([, v]) => okStr(v)));
  if (Object.keys(md).length) out.metadata = md;
  if (p.prompt && !p.prompt.isFallback && p.prompt.name) {
    const v = typeof p.prompt.version === "string" && /^\d+$/.test(p.prompt.version) ? Number(p.prompt.version) : p.prompt.version;
    if (Number.isInteger(v)) out.prompt = { name: p.prompt.name, version: v };
  }
  return out;
}

export function mergeProps(base, add) {
  const out = { ...base, ...add };
  if (base.metadata || add.metadata) out.metadata = { ...(base.metadata ?? {}), ...(add.metadata ?? {}) };
  if (base.tags && add.tags) out.tags = [...new Set([...base.tags, ...add.tags])];
  return out;
}

const WIRE = { userId: A.userId, sessionId: A.sessionId, version: A.version, traceName: A.traceName, environment: A.environment, tags: A.tags };
export function propAttrs(props) {
  const o = {};
  for (const [k, w] of Object.entries(WIRE)) if (props[k] !== undefined) o[w] = props[k];
  for (const [k, v] of Object.entries(props.metadata ?? {})) o[`${A.traceMetadata}.${k}`] = v;
  if (props.prompt) {
    o[A.promptName] = props.prompt.name;
    o[A.promptVersion] = props.prompt.version;
  }
  return o;
}

const RAW_SCOPES = ["@opentelemetry/instrumentation-http", "next.js", "ai", "langfuse-sdk", "litellm", "my-app"];

export function genProgram(rng, w) {
  let budget = w.budget ?? rng.int(4, 26);
  let n = 0;
  // functions wrapped once and called from everywhere: name and options are theirs, not the call's
  const pool = Array.from({ length: 3 }, (_, i) => ({ sname: `fn${i}s`, type: rng.pick(TYPES), a: {}, noIn: rng.bool(0.15), noOut: rng.bool(0.15), endOnExit: rng.bool(0.15) }));
  const node = (depth) => {
    budget--;
    const tag = `n${n++}`;
    const k = rng.weighted([[w.scope ?? 0, "scope"], [w.start ?? 2, "start"], [w.active ?? 3, "active"], [w.observe ?? 3, "observe"], [w.raw ?? 1, "raw"], [w.event ?? 0.5, "event"], [w.hop ?? 0, "hop"], [w.crowd ?? 0, "crowd"], [w.storm ?? 0, "storm"]]);
    const o = { k, tag, pre: rng.weighted([[2, 0], [3, rng.int(0, 40)]]), post: rng.weighted([[2, 0], [3, rng.int(0, 60)]]), seq: rng.bool(0.4), kids: [] };
    if (k === "scope") {
      o.props = genProps(rng, tag);
      o.asBaggage = rng.bool(0.4);
      o.sync = rng.bool(0.2);
    }
    if (k === "hop") {
      o.net = rng.int(0, 80);
      if (rng.bool(0.2)) o.upper = true;
    }
    if (k === "crowd") {
      o.size = rng.weighted([[6, rng.int(10, 60)], [3, rng.int(100, 300)], [1.5, 1300], [0.15, 11000]]);
      o.hold = rng.int(0, 150);
      o.ours = o.size <= 300 && rng.bool(0.4);
    }
    if (k === "storm") {
      o.size = rng.weighted([[6, rng.int(2, 12)], [2, rng.int(20, 70)], [1, rng.int(150, 260)]]);
      o.async = rng.int(0, 2);
      Object.assign(o, rng.pick(pool));
    }
    if (["start", "active", "observe", "event"].includes(k)) {
      o.type = rng.pick(TYPES);
      o.a = rng.weighted([[4, {}], [2, { metadata: { own: tag } }], [1, { version: `ov-${tag}` }], [1, { environment: `oe-${tag}` }], [1, { prompt: { name: `op-${tag}`, version: 3, isFallback: false } }]]);
      o.via = rng.bool(0.3) ? "handle" : "context";
    }
    if (["start", "active", "observe", "event", "raw"].includes(k) && rng.bool(w.elsewhere ?? 0.07)) o.from = k === "raw" ? "root" : rng.pick(["remote", "other", "other"]);
    if (k === "raw") {
      o.scopeName = rng.pick(RAW_SCOPES);
      o.a = rng.weighted([[7, {}], [2, { "gen_ai.system": tag }], [1, { [A.promptName]: `rp-${tag}`, [A.promptVersion]: 3 }]]);
    }
    if (["active", "observe"].includes(k)) {
      o.sync = rng.bool(w.sync ?? 0.2);
      o.out = rng.weighted([[6, "ok"], [1, "error"], [0.7, "string"], [0.5, "undefined"], [0.4, "object"], [0.4, "abort"], [0.3, "blank"], [0.3, "subclass"]]);
      o.val = rng.weighted([[4, "object"], [2, "string"], [1, "undefined"], [1, "null"], [1, "zero"], [1, "circular"], [0.6, "thenable"], [o.sync ? 0.8 : 0, "lazy"], [0.4, "bigint"], [0.6, "identity"]]);
      if (rng.bool(w.endOnExit ?? 0.08)) o.keepOpen = rng.pick([-1, 0, 30, 500]); // endOnExit: false, ended by hand later (or never)
      else if (rng.bool(0.15)) o.endOnExit = true;
      if (rng.bool(0.06)) o.asEvent = k === "observe";
      if (k === "observe") {
        o.args = rng.weighted([[3, "one"], [2, "two"], [1, "none"], [1, "zero"], [0.5, "circular"], [0.5, "empty"], [0.6, "trailing"], [0.4, "nullish"]]);
        if (rng.bool(0.15)) o.noIn = true;
        if (rng.bool(0.15)) o.noOut = true;
        if (!o.from && rng.bool(0.35)) {
          Object.assign(o, rng.pick(pool), { shared: true });
          delete o.keepOpen;
          delete o.asEvent;
        }
      }
      if (rng.bool(w.act ?? 0.25)) o.act = rng.pick(["update", "updateEmpty", "updateTyped", "traceIO", "public", "ids"]);
    }
    if (rng.bool(0.15)) o.cv = true; // the application's own context value
    o.detach = !!o.sync || rng.bool(0.12);
    if (k !== "event" && k !== "storm" && depth < 6) {
      const more = k === "scope" || k === "hop" ? 0.85 : 0.55;
      while (budget > 0 && rng.bool(more) && o.kids.length < 4) o.kids.push(node(depth + 1));
    }
    return o;
  };
  const roots = [];
  while (budget > 0) roots.push({ t: rng.int(0, 300), k: "root", ...{ node: node(0) } });
  roots.sort((a, b) => a.t - b.t);
  return roots;
}

export function defaultAccept(scope, attrs) {
  return ["langfuse-sdk", "ai", "litellm"].includes(scope) || Object.keys(attrs).some((k) => k.startsWith("gen_ai."));
}

export async function runProgram({ sim, plan, bundleFile, check }) {
  const { cfg } = plan;
  const w = new World(sim, bundleFile, { mix: MIX.calm, env: {} });
  const procs = [];
  for (let i = 0; i < (cfg.procs ?? 1); i++) {
    const p = w.load();
    const params = { exportMode: cfg.mode === "immediate" ? "immediate" : "batched", flushInterval: 1, flushAt: 64 };
    if (cfg.env) params.environment = cfg.env;
    if (cfg.release) params.release = cfg.release;
    if (cfg.filter === "names") params.shouldExportSpan = ({ otelSpan }) => !/[02468]$/.test(otelSpan.name);
    // a mask that returns everything unchanged, after a while: ended spans linger inside the processor
    if (cfg.maskMs) params.mask = async ({ data }) => (await sim.sleep(sim.decide("mask", (r) => r.int(0, cfg.maskMs), 0), "mask"), data);
    const processor = new p.otel.LangfuseSpanProcessor(params);
    const { provider } = w.startTracing(p, { processor });
    p.api.propagation.setGlobalPropagator(new p.otcore.CompositePropagator({ propagators: [new p.otcore.W3CTraceContextPropagator(), new p.otcore.W3CBaggagePropagator()] }));
    procs.push({ p, processor, provider, live: new Map(), i });
  }
  for (const f of cfg.flushes ?? []) w.at(f.t, "op-flush", () => void w.op("flush", () => procs[f.proc % procs.length].processor.forceFlush()));
  const recs = new Map();
  const accept = (scope, name, attrs) => (cfg.filter === "names" ? !/[02468]$/.test(name) : defaultAccept(scope, attrs));

  const begin = (otelSpan, n, m, { scope = "langfuse-sdk", type, a = {}, parent, startAttrs = {} }) => {
    const c = otelSpan.spanContext();
    const par = parent === undefined ? m.rec : parent;
    const rec = { id: c.spanId, traceId: c.traceId, name: n.sname ?? n.tag, proc: m.proc, parentId: par?.id, want: {}, unsure: new Set(), startCount: 1, ended: false, otelSpan, scope };
    if (recs.has(rec.id)) sim.fail("unique-span-ids", `span id ${rec.id} reused`);
    recs.set(rec.id, rec);
    if (par ? c.traceId !== par.traceId : m.seenTraces.has(c.traceId)) sim.fail("structure", `${n.tag} started in trace ${c.traceId}, enclosing observation is in ${par?.traceId}`);
    m.seenTraces.add(c.traceId);
    if (cfg.env) rec.want[A.environment] = cfg.env;
    if (cfg.release) rec.want[A.release] = cfg.release;
    const eff = mergeProps(m.bag, m.props);
    if (m.bag.tags && m.props.tags && !m.sameProcTags) rec.unsure.add(A.tags);
    Object.assign(rec.want, propAttrs(eff));
    if (type) Object.assign(rec.want, attrModel(type, a));
    // app-root model
    const live = procs[m.proc].live;
    rec.expectExport = accept(scope, rec.name, startAttrs);
    rec.appRoot = rec.expectExport && live.get(par?.id) !== true && m.claim !== c.traceId;
    live.set(rec.id, rec.expectExport);
    return rec;
  };
  const ended = (rec) => {
    if (rec.ended) return;
    rec.ended = true;
    rec.tEnd = sim.now;
    rec.frozen = { ...rec.want };
    procs[rec.proc].live.delete(rec.id);
  };

  /** Explicit parent of a span that does not continue the current one: an id from another system, or an earlier observation. */
  const elsewhere = (n, m) => {
    if (!n.from) return undefined;
    sim.cover(`parent-${n.from}`);
    if (n.from === "root") return null;
    const own = [...recs.values()].filter((r) => r.proc === m.proc);
    if (n.from === "other" && own.length) return own[parseInt(n.tag.slice(1)) * 7 % own.length];
    const hex = parseInt(n.tag.slice(1)) + 1;
    return { id: hex.toString(16).padStart(16, "f"), traceId: hex.toString(16).padStart(32, "e"), name: "remote" };
  };
  const parentOpt = (par) => (par ? { parentSpanContext: { traceId: par.traceId, spanId: par.id, traceFlags: 1 } } : {});

  const kidsOf = async (n, m) => {
    if (n.seq) {
      for (const k of n.kids) await exec(k, m);
    } else await Promise.all(n.kids.map((k) => exec(k, m)));
  };
  const detached = new Set();
  const body = async (n, m) => {
    await sim.sleep(n.pre);
    probe(n, m);
    if (n.detach) {
      for (const k of n.kids) spawn(() => exec(k, m));
    } else await kidsOf(n, m);
    await sim.sleep(n.post);
    probe(n, m);
  };
  const spawn = (f) => {
    const t = (async () => {
      await sim.sleep(1);
      await f();
    })().catch((e) => sim.fail("transparent", `application code saw an SDK error: ${e?.stack ?? e}`));
    detached.add(t);
  };
  const bodySync = (n, m) => {
    probe(n, m);
    for (const k of n.kids) spawn(() => exec(k, m));
  };
  /** The active span must be the enclosing one, whatever else runs concurrently. */
  const probe = (n, m) => {
    const s = procs[m.proc].p.api.trace.getActiveSpan();
    const got = s?.spanContext().spanId;
    sim.oblige("active-span");
    const cv = procs[m.proc].p.api.context.active().getValue(CV);
    if (cv !== m.cv) sim.fail("active-context", `inside ${n.tag} the application's own context value is ${cv}, expected ${m.cv}`);
    if (got !== m.rec?.id) sim.fail("active-context", `inside ${n.tag} the active span is ${recs.get(got)?.name ?? got}, expected ${m.rec?.name ?? "none"}`);
  };

  const act = (n, m, o, rec) => {
    const T = procs[m.proc].p.tracing;
    if (!n.act || n.asEvent) return;
    if (n.act.startsWith("update")) {
      const a = { output: `act-${n.tag}`, metadata: { act: n.tag } };
      if (n.act === "update") T.updateActiveObservation(a);
      else if (n.act === "updateEmpty") T.updateActiveObservation(a, n.post % 2 ? {} : { asType: undefined });
      else {
        T.updateActiveObservation(a, { asType: "tool" });
        if (n.k === "observe") rec.unsure.add(A.type); // which of the two explicit types wins is unspecified
      }
      Object.assign(rec.want, attrModel(n.act === "updateTyped" ? "tool" : null, a));
    } else if (n.act === "traceIO") {
      T.setActiveTraceIO({ input: { i: n.tag }, output: `o-${n.tag}` });
      Object.assign(rec.want, { [A.traceInput]: JSON.stringify({ i: n.tag }), [A.traceOutput]: `o-${n.tag}` });
    } else if (n.act === "public") {
      T.setActiveTraceAsPublic();
      rec.want[A.tracePublic] = true;
    } else {
      if (T.getActiveTraceId() !== rec.traceId || T.getActiveSpanId() !== rec.id) sim.fail("active-context", `inside ${n.tag}: active ids ${T.getActiveTraceId()}/${T.getActiveSpanId()}`);
    }
  };

  const circular = () => {
    const c = { a: 1 };
    c.self = c;
    return c;
  };
  const value = (n) => {
    switch (n.val) {
      case "object": return { r: n.tag, list: [1] };
      case "string": return `r-${n.tag}`;
      case "undefined": return undefined;
      case "null": return null;
      case "zero": return 0;
      case "circular": return circular();
      case "bigint": return { big: 10n };
      case "thenable": return { then: undefined, tag: n.tag };
      // a lazy query: whoever calls then() runs it, so only the application may
      case "lazy": return { tag: n.tag, then() { sim.fail("transparent", `${n.tag}: the SDK consumed the thenable the function returned`); } };
      case "identity": return new Map([[n.tag, 1]]);
    }
  };
  const failure = (n) => (n.out === "error" ? new Error(`boom ${n.tag}`) : n.out === "string" ? `boom ${n.tag}` : n.out === "object" ? { code: n.tag } : n.out === "abort" ? Object.assign(new Error(`aborted ${n.tag}`), { name: "AbortError" }) : n.out === "blank" ? new Error("") : n.out === "subclass" ? new (class Custom extends TypeError {})(`custom ${n.tag}`) : undefined);

  const callWrapped = async (n, m, invoke) => {
    // invoke(fn) calls the SDK wrapper around fn(span/obs) and returns its result
    const P = procs[m.proc];
    let rec = null;
    let calls = 0;
    const par = elsewhere(n, m);
    const v = value(n);
    const err = n.out === "ok" ? null : { e: failure(n) };
    const inner = {
      enter(otelSpan, o) {
        calls++;
        if (calls > 1) {
          sim.fail("exactly-once", `${n.tag}: the wrapped function ran ${calls} times`);
        }
        rec = begin(otelSpan, n, m, { type: n.asEvent ? "event" : n.type, a: n.k === "observe" ? {} : undefined, parent: par });
        if (n.asEvent) P.live.delete(rec.id); // events end as soon as they start
        if (n.k === "active") {
          o.update?.(n.a);
          Object.assign(rec.want, attrModel(n.type, n.a));
        }
        return rec;
      },
      sync(otelSpan, o) {
        const r = this.enter(otelSpan, o);
        const m2 = { ...m, rec: r, handle: { o, rec: r }, claim: r.traceId };
        act(n, m2, o, r);
        bodySync(n, m2);
        if (err) throw err.e;
        return v;
      },
      async async(otelSpan, o) {
        const r = this.enter(otelSpan, o);
        const m2 = { ...m, rec: r, handle: { o, rec: r }, claim: r.traceId };
        await body(n, m2);
        if (otelSpan.isRecording()) act(n, m2, o, r);
        if (!n.asEvent && !otelSpan.isRecording()) sim.fail("end-after-work", `${n.tag} was ended while its function was still running`);
        if (err) throw err.e;
        return v;
      },
    };
    let threw = false;
    let got, gotErr;
    const before = P.p.api.trace.getActiveSpan()?.spanContext().spanId;
    try {
      const r = invoke(inner, parentOpt(par));
      if (n.sync) {
        if (r instanceof Promise) sim.fail("transparent", `${n.tag}: synchronous function became asynchronous`);
        got = r;
      } else {
        if (!(r instanceof Promise)) sim.fail("transparent", `${n.tag}: asynchronous function did not return a promise`);
        const now = P.p.api.trace.getActiveSpan()?.spanContext().spanId;
        if (now !== before) sim.fail("active-context", `${n.tag}: calling it changed the caller's active span`);
        got = await r;
      }
    } catch (e) {
      threw = true;
      gotErr = e;
    }
    sim.oblige("transparent");
    if (err ? !(threw && Object.is(gotErr, err.e)) : threw || !Object.is(got, v))
      sim.fail("transparent", `${n.tag} (${n.k}${n.sync ? " sync" : ""}): ${threw ? `threw ${clip(String(gotErr?.stack ?? gotErr), 400)}` : `returned ${typeof got}`}, function ${err ? `threw ${clip(String(err.e))}` : `returned ${n.val}`}`);
    if (calls !== 1) {
      sim.fail("exactly-once", `${n.tag}: the wrapped function ran ${calls} times`);
      return;
    }
    // expected final state
    if (n.k === "observe") {
      if (!n.noIn && rec.inputWire !== undefined) rec.want[A.input] = rec.inputWire;
      if (!n.asEvent) {
        if (err) {
          const msg = (err.e instanceof Error ? err.e.message : String(err.e)) || "Function threw an error";
          rec.want[A.level] = "ERROR";
          rec.want[A.statusMessage] = msg;
          if (!n.noOut) rec.want[A.output] = JSON.stringify({ error: String(err.e) });
        } else if (!n.noOut) {
          let s;
          try {
            s = v === undefined || v === null ? undefined : typeof v === "string" ? v : JSON.stringify(v);
          } catch {
            s = "<failed to serialize>";
          }
          if (s !== undefined) rec.want[A.output] = s;
        }
      }
    } else if (err) rec.status = err.e instanceof Error ? err.e.message : "Unknown error";
    if (n.keepOpen === undefined || n.asEvent) {
      sim.oblige("ended-on-exit");
      if (rec.otelSpan.isRecording()) sim.fail("end-after-work", `${n.tag} settled at ${sim.now} but its observation is still open`);
      ended(rec);
    } else {
      sim.oblige("kept-open");
      if (!rec.otelSpan.isRecording()) sim.fail("kept-open", `${n.tag} asked to stay open but was ended`);
      if (n.keepOpen >= 0) {
        await sim.sleep(n.keepOpen);
        rec.otelSpan.end();
        ended(rec);
      }
    }
  };

  const CV = Symbol.for("sim.app.value");
  const sharedFns = new Map();
  /** One observed function per name and process; what it does comes with the object it is called on. */
  const sharedFn = (P, n) => {
    const key = `${P.i}/${n.sname}`;
    if (!sharedFns.has(key))
      sharedFns.set(key, P.p.tracing.observe(function (...got) {
        return this.run(...got);
      }, { name: n.sname, asType: n.type, ...(n.noIn ? { captureInput: false } : {}), ...(n.noOut ? { captureOutput: false } : {}), ...(n.endOnExit ? { endOnExit: true } : {}) }));
    sim.cover("shared-function");
    return sharedFns.get(key);
  };

  const exec = async (n, m) => {
    const P = procs[m.proc];
    const T = P.p.tracing;
    const api = P.p.api;
    if (n.cv && m.cv !== n.tag) return api.context.with(api.context.active().setValue(CV, n.tag), () => exec(n, { ...m, cv: n.tag }));
    await sim.sleep(n.pre);
    switch (n.k) {
      case "scope": {
        const add = validProps(n.props);
        // merged against the context values only, exactly one level of nesting at a time
        const props = mergeProps(m.props, add);
        let bag = m.bag;
        if (n.asBaggage) {
          const out = { ...add };
          if (add.metadata) out.metadata = props.metadata;
          if (add.tags) out.tags = props.tags;
          bag = { ...m.bag, ...out };
          if (m.bag.metadata || out.metadata) bag.metadata = { ...(m.bag.metadata ?? {}), ...(out.metadata ?? {}) };
        }
        // the enclosing span also receives the values, while it is still open
        if (m.rec?.otelSpan?.isRecording?.()) {
          const set = { ...add };
          if (add.metadata) set.metadata = props.metadata;
          if (add.tags) set.tags = props.tags;
          Object.assign(m.rec.want, propAttrs(set));
          if (add.tags && m.bag.tags && !m.sameProcTags) m.rec.unsure.add(A.tags);
        }
        const m2 = { ...m, props, bag, sameProcTags: m.sameProcTags || !m.bag.tags };
        const marker = {};
        if (n.sync) {
          const r = T.propagateAttributes({ ...n.props, asBaggage: n.asBaggage }, () => {
            bodySync(n, m2);
            return marker;
          });
          if (r !== marker) sim.fail("transparent", `scope ${n.tag} changed the returned value`);
        } else {
          const r = await T.propagateAttributes({ ...n.props, asBaggage: n.asBaggage }, async () => {
            await body(n, m2);
            return marker;
          });
          if (r !== marker) sim.fail("transparent", `scope ${n.tag} changed the returned value`);
        }
        return;
      }
      case "hop": {
        const carrier = {};
        api.propagation.inject(api.context.active(), carrier);
        // values not marked for baggage must not travel: exact match against the decoded entries
        const dec = (x) => {
          try {
            return decodeURIComponent(x);
          } catch {
            return x;
          }
        };
        const carried = new Set();
        for (const e of String(carrier.baggage ?? "").split(",")) for (const x of dec(e.slice(e.indexOf("=") + 1).split(";")[0]).split(",")) carried.add(x);
        const allowed = new Set(Object.values(m.bag).flatMap((v) => (v && typeof v === "object" ? Object.values(v).map(String) : [String(v)])));
        const secret = [];
        for (const [k, v] of Object.entries(m.props)) for (const x of v && typeof v === "object" ? Object.values(v).map(String) : [String(v)]) if (x.length > 3 && !allowed.has(x)) secret.push([k, x]);
        for (const [k, x] of secret) if (x !== "" && carried.has(x)) sim.fail("baggage-opt-in", `${k}=${x} left the process in headers without being marked for baggage`);
        await sim.sleep(n.net);
        // an upstream service in another language may write its ids in capitals
        if (n.upper && carrier.baggage) carrier.baggage = carrier.baggage.replace(/(langfuse_trace_id=)([0-9a-f]+)/, (_, k, v) => (sim.cover("upper-case-claim"), k + v.toUpperCase()));
        const other = (m.proc + 1) % procs.length;
        const Q = procs[other].p.api;
        const ctx = Q.propagation.extract(Q.ROOT_CONTEXT, carrier);
        sim.cover("cross-process");
        // OpenTelemetry's baggage propagator skips entries with an empty value
        const bag = m.bag.metadata ? { ...m.bag, metadata: Object.fromEntries(Object.entries(m.bag.metadata).filter(([, v]) => v !== "")) } : m.bag;
        const m2 = { proc: other, rec: m.rec ? { id: m.rec.id, traceId: m.rec.traceId, name: m.rec.name } : null, props: {}, bag, claim: m.claim, handle: null, seenTraces: m.seenTraces, sameProcTags: false };
        await Q.context.with(ctx, () => body(n, m2));
        return;
      }
      case "crowd": {
        // many unrelated operations in flight at the same time
        sim.cover("crowd");
        const tr = P.provider.getTracer(n.ours ? "langfuse-sdk" : "my-app");
        const held = Array.from({ length: n.size }, () => tr.startSpan("crowd-0", { root: true }));
        spawn(async () => {
          await sim.sleep(n.hold);
          for (const s of held) s.end();
        });
        return body(n, m);
      }
      case "storm": {
        // one observed function called many times before any of the calls returns
        sim.cover("storm");
        const fn = sharedFn(P, n);
        const all = [];
        for (let i = 0; i < n.size; i++) {
          const arg = `arg-${n.tag}-${i}`;
          const out = `out-${n.tag}-${i}`;
          let rec = null;
          const enter = (got) => {
            if (rec) sim.fail("exactly-once", `${n.tag}: call ${i} ran twice`);
            if (got.length !== 1 || got[0] !== arg) sim.fail("transparent", `${n.tag}: call ${i} received ${clip(got)}`);
            rec = begin(api.trace.getActiveSpan(), n, m, { type: n.type });
            if (!n.noIn) rec.want[A.input] = arg;
            if (!n.noOut) rec.want[A.output] = out;
          };
          const later = n.async === 2 || (n.async === 1 && i % 2 === 1);
          const r = fn.call({ run: later ? async (...got) => (enter(got), await sim.sleep((i * 7) % 30), out) : (...got) => (enter(got), out) }, arg);
          all.push((async () => {
            const v = await r;
            sim.oblige("transparent");
            if (v !== out || !rec) return sim.fail("transparent", `${n.tag}: call ${i} gave ${clip(v)}, the function returned ${out}`);
            if (rec.otelSpan.isRecording()) sim.fail("end-after-work", `${n.tag}: call ${i} settled but its observation is still open`);
            ended(rec);
          })());
          if (!later) {
            if (r !== out) sim.fail("transparent", `${n.tag}: call ${i} gave ${clip(r)}, the function returned ${out}`);
            if (rec) ended(rec);
          }
        }
        await Promise.all(all);
        return;
      }
      case "event": {
        const par = elsewhere(n, m);
        const o = T.startObservation(n.tag, n.a, { asType: "event", ...parentOpt(par) });
        const rec = begin(o.otelSpan, n, m, { type: "event", a: n.a, parent: par });
        ended(rec);
        return;
      }
      case "raw": {
        const tr = P.provider.getTracer(n.scopeName);
        await tr.startActiveSpan(n.tag, { attributes: n.a, ...(n.from ? { root: true } : {}) }, async (s) => {
          const rec = begin(s, n, m, { scope: n.scopeName, startAttrs: n.a, parent: elsewhere(n, m) });
          Object.assign(rec.want, n.a);
          await body(n, { ...m, rec });
          s.end();
          ended(rec);
        });
        return;
      }
      case "start": {
        let o, parent;
        if (n.via === "handle" && m.handle?.o?.startObservation) {
          o = m.handle.o.startObservation(n.tag, n.a, { asType: n.type });
          parent = m.handle.rec;
        } else {
          parent = elsewhere(n, m);
          o = T.startObservation(n.tag, n.a, { asType: n.type, ...parentOpt(parent) });
        }
        const rec = begin(o.otelSpan, n, m, { type: n.type, a: n.a, parent });
        await body(n, { ...m, handle: { o, rec } });
        o.end();
        ended(rec);
        return;
      }
      case "active":
        return callWrapped(n, m, (inner, po) =>
          T.startActiveObservation(n.tag, (o) => (n.sync ? inner.sync(o.otelSpan, o) : inner.async(o.otelSpan, o)), { asType: n.type, ...po, ...(n.keepOpen !== undefined ? { endOnExit: false } : n.endOnExit ? { endOnExit: true } : {}) }));
      case "observe":
        return callWrapped(n, m, (inner, po) => {
          const self = { me: n.tag };
          const args = { one: [{ q: n.tag }], two: [`a-${n.tag}`, 2], none: [], zero: [0], empty: [""], circular: [circular()], trailing: [{ q: n.tag }, undefined], nullish: [null] }[n.args];
          const fn = function (...got) {
            const s = api.trace.getActiveSpan();
            if (this !== self || got.length !== args.length || got.some((x, i) => x !== args[i])) sim.fail("transparent", `observe changed this or the arguments of ${n.tag}`);
            const r = n.sync ? inner.sync(s, null) : inner.async(s, null);
            const rec = recs.get(s.spanContext().spanId);
            if (rec) setInput(rec);
            return r;
          };
          const setInput = (rec) => {
            const inp = args.length === 0 ? undefined : args.length === 1 ? args[0] : args;
            try {
              rec.inputWire = inp === undefined || inp === null ? undefined : typeof inp === "string" ? inp : JSON.stringify(inp);
            } catch {
              rec.inputWire = "<failed to serialize>";
            }
          };
          const wrapped = n.shared ? sharedFn(P, n) : T.observe(fn, { name: n.tag, asType: n.asEvent ? "event" : n.type, ...po, ...(n.noIn ? { captureInput: false } : {}), ...(n.noOut ? { captureOutput: false } : {}), ...(n.keepOpen !== undefined ? { endOnExit: false } : n.endOnExit ? { endOnExit: true } : {}) });
          // inputs are known even when the function throws synchronously
          const origEnter = inner.enter.bind(inner);
          inner.enter = (...x) => {
            const rec = origEnter(...x);
            setInput(rec);
            return rec;
          };
          if (n.shared) self.run = fn;
          return wrapped.apply(self, args);
        });
    }
  };

  const seenTraces = new Set();
  for (const r of plan.ops)
    w.at(r.t, "root", () => {
      exec(r.node, { proc: 0, rec: null, props: {}, bag: {}, claim: null, handle: null, seenTraces, sameProcTags: true }).catch((e) => sim.fail("transparent", `application code saw an SDK error: ${e?.stack ?? e}`));
    });
  const end = await sim.run({ horizon: 3_600_000, stallProb: cfg.stall ?? 0 });
  if (end === "steps") sim.fail("liveness", "no quiescence within the step limit");
  for (const P of procs) w.op("flush", () => P.processor.forceFlush());
  await sim.run({ horizon: 7_200_000 });
  check({ w, recs, procs, sends: sendsBySpan(w.net), accept });
}

export { A, eq, clip };
