// P22: trace ids derived from the application's own ids bring the work of many processes together.
import { createHash } from "node:crypto";
import { World, MIX, clip } from "../harness.mjs";
import { A, otlpRequests, sendsBySpan, checkNoDuplicates } from "../lib/tracing.mjs";

const SEEDS = ["order-1", "order-2", "order-10", "Order-1", " order-1", "é-日本-😀", "0", "a".repeat(5000), "line\nbreak", "order-1\u0000", "e\u0301-日本-😀", "null", "0123456789abcdef0123456789abcdef"];
/** Documented: the first 16 bytes of the SHA-256 of the seed, in hex, as in the other Langfuse SDKs. */
const idOf = (seed) => createHash("sha256").update(seed, "utf8").digest("hex").slice(0, 32);
const PARENT = "0123456789abcdef";

export default {
  id: "P22",
  bundles: ["app"],
  shrink: ["ops", "jumps"],
  runs: { quick: 6000, thorough: 80000 },
  components: {
    real: ["@langfuse/tracing createTraceId, observations under a given trace, active ids", "@langfuse/client scores and URLs", "@langfuse/otel span processor", "OpenTelemetry SDK, context manager and exporter — one instance per simulated process"],
    stub: ["network (seeded faults)", "Langfuse server (reference model)", "completion order of SHA-256 digests", "clock, timers, randomness, process restarts"],
  },
  generate(rng) {
    const procs = rng.int(1, 3);
    const span = rng.weighted([[3, 200], [3, 5000]]);
    const seeds = rng.sample(SEEDS.map((_, i) => i), rng.int(1, 5));
    const ops = [];
    const n = rng.int(2, 22);
    for (let i = 0; i < n; i++) {
      const k = rng.weighted([[6, "work"], [3, "score"], [2, "fresh"], [1, "url"], [2, "many"], [0.8, "restart"], [1, "flush"]]);
      const op = { t: rng.int(0, span), k, proc: rng.int(0, procs - 1), seed: rng.pick(seeds) };
      if (k === "work") Object.assign(op, { i, api: rng.pick(["start", "active", "observe"]), kids: rng.int(0, 2), d: rng.weighted([[2, 0], [3, rng.int(1, 60)]]), score: rng.bool(0.3), sampled: rng.bool(0.9) });
      if (k === "fresh") Object.assign(op, { i, how: rng.pick(["none", "empty", "undefined"]), n: rng.int(1, 20), use: rng.bool(0.4) });
      if (k === "many") op.list = Array.from({ length: rng.int(2, 30) }, () => rng.int(0, SEEDS.length - 1));
      ops.push(op);
    }
    ops.sort((a, b) => a.t - b.t);
    return { cfg: { procs, mode: rng.pick(["batched", "immediate"]), calm: rng.bool(0.6), until: rng.int(0, span + 5000) }, ops, jumps: rng.bool(0.2) ? [{ t: rng.int(0, span), by: rng.pick([-3600e3, 3600e3]) }] : [] };
  },

  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    const w = new World(sim, bundle("app"), { mix: cfg.calm ? MIX.calm : MIX.rough, until: cfg.until });
    const boot = () => {
      const p = w.load();
      const processor = new p.otel.LangfuseSpanProcessor({ exportMode: cfg.mode, flushInterval: 1 });
      w.startTracing(p, { processor });
      return { p, T: p.tracing, processor, client: new p.client.LangfuseClient() };
    };
    const procs = Array.from({ length: cfg.procs }, boot);
    w.clockJumps(plan.jumps);
    const want = new Map(); // span id -> {name, traceId, parent}
    const scores = []; // {name, traceId, observationId}
    const fresh = new Map(); // random id -> who got it
    let seq = 0;
    const valid = (id) => typeof id === "string" && /^[0-9a-f]{32}$/.test(id) && !/^0+$/.test(id);
    const derive = async (pr, seed) => {
      const s = SEEDS[seed];
      const id = await pr.T.createTraceId(s);
      sim.oblige("same-seed-same-id");
      if (id !== idOf(s)) sim.fail("same-seed-same-id", `createTraceId(${clip(JSON.stringify(s), 60)}) gave ${id}, expected ${idOf(s)}`);
      return id;
    };
    const note = (o, name, traceId, parent, sampled) => {
      const c = o.otelSpan?.spanContext() ?? o.spanContext();
      if (c.traceId !== traceId) sim.fail("one-trace", `${name} started in trace ${c.traceId}, asked for ${traceId}`);
      if (sampled) want.set(c.spanId, { name, traceId, parent });
      else sim.cover("unsampled"); // decided upstream: not recorded here, the ids still hold
      return c;
    };
    const put = (pr, extra, how) => {
      const name = `s${++seq}`;
      scores.push({ name, ...extra });
      how({ name, value: 1 });
    };
    const work = async (op, pr, traceId) => {
      const { T } = pr;
      const parentSpanContext = { traceId, spanId: PARENT, traceFlags: op.sampled === false ? 0 : 1 };
      const name = `w${op.i}-${++seq}`;
      const body = async (o) => {
        const c = note(o, name, traceId, PARENT, op.sampled !== false);
        if (op.api !== "start") {
          sim.oblige("active-ids");
          if (T.getActiveTraceId() !== traceId || T.getActiveSpanId() !== c.spanId) sim.fail("active-ids", `inside ${name} the active ids are ${T.getActiveTraceId()} ${T.getActiveSpanId()}`);
        }
        await sim.sleep(op.d);
        for (let k = 0; k < op.kids; k++) {
          const kid = o.startObservation ? o.startObservation(`${name}-k${k}`) : T.startObservation(`${name}-k${k}`);
          note(kid, `${name}-k${k}`, traceId, c.spanId, op.sampled !== false);
          await sim.sleep(op.d);
          kid.end();
        }
        if (op.score) {
          if (op.api === "start") put(pr, { traceId, observationId: c.spanId }, (d) => pr.client.score.observation(o, d));
          else put(pr, { traceId }, (d) => pr.client.score.activeTrace(d));
        }
      };
      if (op.api === "start") {
        const o = T.startObservation(name, {}, { parentSpanContext });
        await body(o);
        o.end();
      } else if (op.api === "active") await T.startActiveObservation(name, body, { parentSpanContext });
      else await T.observe(() => body(pr.p.api.trace.getActiveSpan()), { name, parentSpanContext })();
    };

    for (const op of plan.ops)
      w.at(op.t, `op-${op.k}`, () => {
        const pr = procs[op.proc];
        const go = async () => {
          switch (op.k) {
            case "work":
              return work(op, pr, await derive(pr, op.seed));
            case "score": {
              const traceId = await derive(pr, op.seed);
              return put(pr, { traceId }, (d) => pr.client.score.create({ ...d, traceId }));
            }
            case "many": {
              await Promise.all(op.list.map((s) => derive(pr, s)));
              return;
            }
            case "fresh": {
              const ids = await Promise.all(Array.from({ length: op.n }, () => (op.how === "none" ? pr.T.createTraceId() : pr.T.createTraceId(op.how === "empty" ? "" : undefined))));
              for (const id of ids) {
                sim.oblige("fresh-ids");
                if (!valid(id)) return sim.fail("fresh-ids", `an unseeded trace id is ${clip(String(id))}`);
                if (fresh.has(id) || SEEDS.some((s) => idOf(s) === id)) return sim.fail("fresh-ids", `trace id ${id} was handed out twice`);
                fresh.set(id, op.i);
              }
              if (op.use) await work({ ...op, api: "active", kids: 1, d: 3 }, pr, ids[0]);
              return;
            }
            case "url": {
              const traceId = await derive(pr, op.seed);
              const o = w.op("url", () => pr.client.getTraceUrl(traceId));
              o.onSettle = () => {
                if (o.ok && !String(o.value).endsWith(`/traces/${traceId}`)) sim.fail("one-trace", `the URL of trace ${traceId} is ${o.value}`);
              };
              return;
            }
            case "restart":
              // a new process takes over; the old one finishes what it has begun
              procs[op.proc] = boot();
              sim.countFault("restart");
              return;
            case "flush":
              w.op("flush", () => pr.processor.forceFlush());
          }
        };
        go().catch((e) => sim.fail("one-trace", `tracing threw ${e?.stack}`));
      });
    const end = await sim.run({ horizon: 3_600_000 });
    if (end === "steps") sim.fail("one-trace", "no quiescence within the step limit");

    const sends = sendsBySpan(w.net);
    checkNoDuplicates(sim, sends, (id) => want.get(id)?.name ?? id);
    for (const [id, s] of want) {
      const l = sends.get(id);
      if (!l) return sim.fail("one-trace", `${s.name} of trace ${s.traceId} was never exported`);
      sim.oblige("one-trace");
      if (l[0].s.traceId !== s.traceId || l[0].s.parentSpanId !== s.parent) return sim.fail("one-trace", `${s.name} was exported in trace ${l[0].s.traceId} under ${l[0].s.parentSpanId}, expected ${s.traceId} under ${s.parent}`);
    }
    for (const r of otlpRequests(w.net)) for (const s of r.spans) if (!want.has(s.spanId)) return sim.fail("one-trace", `unknown span ${s.name} ${s.attributes[A.type]} exported`);
    const got = new Map();
    for (const r of w.net.log) if (r.route === "POST /ingestion") for (const e of JSON.parse(r.body).batch) got.set(e.body.name, e.body);
    for (const s of scores) {
      const b = got.get(s.name);
      sim.oblige("score-linked");
      if (!b || b.traceId !== s.traceId || (s.observationId && b.observationId !== s.observationId)) return sim.fail("score-linked", `score ${s.name} for trace ${s.traceId} was sent as ${clip(b)}`);
    }
  },
};
