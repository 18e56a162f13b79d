// P08: score queue — conservation, flush barrier, liveness, attribution.
import { World, MIX, clip } from "../harness.mjs";

const INGEST = "POST /ingestion";

export default {
  id: "P08",
  bundles: ["app"],
  shrink: ["ops", "jumps"],
  runs: { quick: 6000, thorough: 60000 },
  components: {
    real: ["@langfuse/client ScoreManager + LangfuseClient", "@langfuse/core API client (fetcher, retries, timeouts)", "@langfuse/tracing", "OpenTelemetry API/SDK context and spans"],
    stub: ["network (seeded faults)", "Langfuse server (/api/public/ingestion reference model)", "clock, timers, randomness"],
  },

  generate(rng) {
    const n = rng.weighted([[3, rng.int(1, 6)], [5, rng.int(4, 25)], [1, rng.int(25, 60)]]);
    const flushAt = rng.weighted([[3, null], [2, 1], [2, rng.int(2, 5)], [2, rng.int(6, 40)], [1, 100000]]);
    const interval = rng.weighted([[4, null], [2, 0.2], [1, 5], [1, rng.int(1, 3)]]);
    const span = rng.weighted([[2, 300], [3, 4000], [2, 20000]]);
    const ops = [];
    for (let i = 0; i < n; i++) {
      const t = rng.int(0, span);
      const k = rng.weighted([[10, "create"], [2, "burst"], [3, "flush"], [1, "client-flush"], [1, "shutdown"], [2, "observation"], [1, "trace"], [3, "active"], [0.5, "big-burst"]]);
      const op = { t, k };
      if (k === "burst") op.n = rng.int(2, 30);
      if (k === "big-burst") op.n = rng.pick([101, 200, 250, 1201]);
      if (k === "active") {
        op.gap = rng.int(0, 60);
        op.gap2 = rng.int(0, 60);
        op.mode = rng.pick(["observation", "trace"]);
      }
      if (k === "create") {
        op.shape = rng.int(0, 11);
        if (rng.bool(0.15)) op.reuse = rng.int(0, 40); // the caller changes and reuses the same object afterwards
      }
      if ((k === "observation" || k === "trace") && rng.bool(0.4)) op.ended = true;
      if ((k === "observation" || k === "trace") && rng.bool(0.25)) op.stray = true;
      if (k === "active") {
        op.nested = rng.bool(0.5);
        op.unsampled = rng.bool(0.2);
      }
      // deliberately pair a flush with work right around it
      if ((k === "flush" || k === "shutdown") && rng.bool(0.5)) ops.push({ t: Math.max(0, t - rng.int(0, 30)), k: "create", shape: 0 });
      ops.push(op);
    }
    ops.sort((a, b) => a.t - b.t);
    const calm = rng.bool(0.3);
    return {
      cfg: { flushAt, interval, calm, until: rng.int(0, span + 30000), stall: rng.bool(0.15) ? 0.02 : 0, crash: rng.bool(0.15) ? rng.int(0, span + 2000) : null, reject: rng.bool(0.2), env: rng.bool(0.3) ? "staging" : null, debug: rng.bool(0.05) },
      jumps: rng.bool(0.2) ? [{ t: rng.int(0, span), by: rng.pick([-3600e3, 3600e3, 86400e3, -5000, 5000]) }] : [],
      ops,
    };
  },

  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    const env = {};
    if (cfg.flushAt != null) env.LANGFUSE_FLUSH_AT = String(cfg.flushAt);
    if (cfg.interval != null) env.LANGFUSE_FLUSH_INTERVAL = String(cfg.interval);
    if (cfg.env) env.LANGFUSE_TRACING_ENVIRONMENT = cfg.env;
    if (cfg.debug) env.LANGFUSE_LOG_LEVEL = "DEBUG";
    const w = new World(sim, bundle("app"), {
      mix: cfg.calm ? MIX.calm : MIX.rough,
      until: cfg.until,
      env,
      serverOpts: { rejectEvent: (e) => (cfg.reject && /-r$/.test(e.body?.name ?? "") ? 400 : 0) },
    });
    const p = w.load();
    w.startTracing(p, { processors: [] });
    const client = new p.client.LangfuseClient();
    const tracer = p.api.trace.getTracer("t");
    const created = []; // {name, t, expect, seq}
    let seq = 0;
    const flushes = [];
    w.clockJumps(plan.jumps);

    const rng0 = (i) => i % 2; // 0 and 1 are both values
    const mk = (shape = 0) => {
      const i = ++seq;
      const name = `s${i}${cfg.reject && i % 5 === 0 ? "-r" : ""}`;
      const d = { name, value: i, configId: `k${i}` }; // identifies the score: names may repeat
      if (shape === 1) d.comment = "c☃" + i;
      if (shape === 2) Object.assign(d, { id: `id-${i}`, dataType: "NUMERIC" });
      if (shape === 3) Object.assign(d, { value: "cat", dataType: "CATEGORICAL", environment: "explicit" });
      if (shape === 4) Object.assign(d, { metadata: { a: [1, { b: i }] }, traceId: `tr-${i}`, observationId: `ob-${i}` });
      if (shape === 6) Object.assign(d, { value: rng0(i), dataType: "BOOLEAN", traceId: "tr-shared" });
      if (shape === 7) Object.assign(d, { value: "", dataType: "CATEGORICAL", traceId: "tr-shared", datasetRunId: `dr-${i}` });
      if (shape === 5) Object.assign(d, { sessionId: `ss-${i}`, queueId: "cfg" });
      if (shape === 10) Object.assign(d, { name: "accuracy", traceId: "tr-shared", environment: i % 2 ? "" : "env-b" });
      if (shape === 11) Object.assign(d, { name: "accuracy", sessionId: "ss-shared", value: 1 });
      if (shape === 8) Object.assign(d, { name: ` ${name}\t Ünïcode  `, value: -0.5, comment: "  padded \n", id: ` id ${i}` });
      if (shape === 9) Object.assign(d, { value: 1e-12 * i, comment: "", metadata: {}, queueId: `q-${i}` });
      return d;
    };
    const rec = (d, extra = {}) => {
      created.push({ key: d.configId, name: d.name, t: sim.now, data: JSON.parse(JSON.stringify({ ...d, ...extra })), seq: created.length });
    };
    const guard = (what, fn) => {
      try {
        fn();
      } catch (e) {
        sim.fail("create-never-throws", `${what} threw ${e?.message}`);
      }
    };
    const doFlush = (k) => {
      const f = { k, before: created.length, t: sim.now };
      flushes.push(f);
      const call = k === "client-flush" ? () => client.flush() : k === "shutdown" ? () => client.shutdown() : () => client.score.flush();
      const o = w.op(k, call);
      f.op = o;
      if (o.settled) sim.fail("flush-never-rejects", `${k} threw synchronously: ${o.error?.message}`);
      o.onSettle = () => {
        f.done = sim.now;
        if (!o.ok) return sim.fail("flush-never-rejects", `${k} rejected: ${o.error?.message}`);
        sim.oblige("flush-barrier");
        if (w.net.inflight > 0) sim.cover("flush-resolved-with-other-traffic");
        // every score created before the call must be past its final attempt
        const st = states();
        for (let i = 0; i < f.before; i++) {
          const s = st.get(created[i].key);
          if (!s) {
            sim.fail("flush-barrier", `${k}() called at ${f.t} resolved at ${sim.now} but score ${created[i].name} (created ${created[i].t}) was never sent`);
            break;
          }
          if (s.pending) {
            sim.fail("flush-barrier", `${k}() called at ${f.t} resolved at ${sim.now} while score ${created[i].name} is still in flight (request ${s.rec.id})`);
            break;
          }
        }
      };
    };

    // name -> state of the latest request carrying it
    const states = () => {
      const m = new Map();
      for (const r of w.net.log) {
        if (r.route !== INGEST) continue;
        for (const e of parse(r).batch) m.set(e.body.configId, { rec: r, pending: r.tEnd === undefined });
      }
      return m;
    };

    for (const op of plan.ops)
      w.at(op.t, `op-${op.k}`, async () => {
        switch (op.k) {
          case "create": {
            const d = mk(op.shape);
            rec(d);
            guard("create", () => client.score.create(d));
            if (op.reuse !== undefined) {
              const keys = Object.keys(d).join();
              if (keys !== Object.keys(created[created.length - 1].data).join()) sim.fail("content", `create modified the caller's object: ${keys}`);
              if (op.reuse) await sim.sleep(op.reuse);
              const next = mk();
              Object.assign(d, { name: next.name, configId: next.configId, value: -1, comment: "second" });
              rec(d);
              guard("create", () => client.score.create(d));
              sim.cover("object-reused");
            }
            break;
          }
          case "burst":
          case "big-burst":
            for (let i = 0; i < op.n; i++) {
              const d = mk();
              rec(d);
              guard("create", () => client.score.create(d));
            }
            break;
          case "flush":
          case "client-flush":
          case "shutdown":
            doFlush(op.k);
            break;
          case "observation":
          case "trace": {
            const s = tracer.startSpan("x", {}, op.ended ? p.api.trace.setSpan(p.api.ROOT_CONTEXT, tracer.startSpan("parent")) : undefined);
            if (op.ended) s.end();
            const c = s.spanContext();
            const d = mk();
            if (op.stray) Object.assign(d, { traceId: "tr-stray" }, op.k === "observation" ? { observationId: "ob-stray" } : {}); // left over from the object's last use
            rec(d, op.k === "observation" ? { traceId: c.traceId, observationId: c.spanId } : { traceId: c.traceId });
            guard(op.k, () => client.score[op.k]({ otelSpan: s }, d));
            break;
          }
          case "active": {
            // concurrent scopes overlapping in time: scores go to the scope's own span
            // an upstream that did not sample the trace leaves a span here that records nothing; its ids hold all the same
            const hex = (++seq).toString(16);
            const upstream = { traceId: hex.padStart(32, "a"), spanId: hex.padStart(16, "b"), traceFlags: 0, isRemote: true };
            const under = (f) => p.api.context.with(p.api.trace.setSpanContext(p.api.ROOT_CONTEXT, upstream), () => (op.nested ? tracer.startActiveSpan("act", f) : f(p.api.trace.getActiveSpan())));
            await (op.unsampled ? under : op.nested ? (f) => tracer.startActiveSpan("outer", () => tracer.startActiveSpan("act", f)) : (f) => tracer.startActiveSpan("act", f))(async (s) => {
              const c = s.spanContext();
              const go = () => {
                const d = mk();
                rec(d, op.mode === "observation" ? { traceId: c.traceId, observationId: c.spanId } : { traceId: c.traceId });
                guard("active", () => (op.mode === "observation" ? client.score.activeObservation(d) : client.score.activeTrace(d)));
                sim.oblige("active-attribution");
              };
              await sim.sleep(op.gap);
              go();
              await sim.sleep(op.gap2);
              go();
              s.end();
            });
          }
        }
      });

    if (cfg.crash != null) w.at(cfg.crash, "crash", () => sim.crash());
    const end = await sim.run({ horizon: 3_600_000, stallProb: cfg.stall });
    if (end === "steps") sim.fail("liveness", "no quiescence within step limit");

    // ---- history checks ----
    const bodies = w.net.log.filter((r) => r.route === INGEST).map((r) => ({ r, batch: parse(r).batch }));
    const byName = new Map();
    const eventIds = new Map();
    const scoreIds = new Map();
    for (const { r, batch } of bodies) {
      if (batch.length > 100) sim.fail("batch-size", `request ${r.id} carried ${batch.length} events`);
      for (const e of batch) {
        const key = e.body.configId;
        const l = byName.get(key) ?? [];
        l.push({ r, e });
        byName.set(key, l);
        const prev = eventIds.get(e.id);
        if (prev && prev !== key) sim.fail("unique-event-ids", `event id ${e.id} used for ${prev} and ${key}`);
        eventIds.set(e.id, key);
      }
    }
    const names = new Set(created.map((c) => c.key));
    for (const n of byName.keys()) if (!names.has(n)) sim.fail("no-phantom-scores", `server got score ${n} that was never created`);
    for (const c of created) {
      const sends = byName.get(c.key);
      if (!sends) {
        if (!sim.crashed) {
          sim.fail("eventually-sent", `score ${c.name} created at ${c.t} was never sent (quiescent at ${sim.now})`);
          break;
        }
        continue;
      }
      sim.oblige("score-sent-once");
      // Exactly one logical submission: a repeat must be a retry of the same event after a retryable answer
      for (let i = 1; i < sends.length; i++) {
        const prev = sends[i - 1].r;
        const retryable = prev.tEnd !== undefined && prev.tEnd <= sends[i].r.t && (prev.status === 408 || prev.status === 429 || prev.status >= 500);
        if (sends[i].e.id !== sends[0].e.id || !retryable || sends[i].r.body !== prev.body)
          sim.fail("sent-once", `score ${c.name} re-sent in request ${sends[i].r.id} after request ${prev.id} ended with ${prev.status}`);
      }
      if (sends.length > 3) sim.fail("bounded-retries", `score ${c.name} attempted ${sends.length} times`);
      if (sends.length > 1) sim.cover("batch-retried");
      const b = sends[0].e.body;
      const want = c.data;
      for (const k of Object.keys(want))
        if (JSON.stringify(b[k]) !== JSON.stringify(want[k])) sim.fail("content", `score ${c.name} field ${k}: sent ${clip(b[k])} expected ${clip(want[k])}`);
      if (want.environment === undefined && (b.environment ?? null) !== (cfg.env ?? null)) sim.fail("content", `score ${c.name} environment ${b.environment}`);
      if (!want.observationId && b.observationId) sim.fail("content", `score ${c.name} has unexpected observationId`);
      for (const k of ["sessionId", "datasetRunId", "comment", "metadata", "queueId", "dataType"]) if (want[k] === undefined && b[k] !== undefined && b[k] !== null) sim.fail("content", `score ${c.name} has unexpected ${k} ${clip(b[k])}`);
      if (!want.id) {
        if (scoreIds.has(b.id)) sim.fail("own-score-id", `scores ${scoreIds.get(b.id)} and ${c.name} were given the same score id ${b.id}`);
        scoreIds.set(b.id, c.name);
      }
      if (!want.traceId && b.traceId) sim.fail("content", `score ${c.name} has unexpected traceId`);
      if (!b.id || sends[0].e.type !== "score-create") sim.fail("content", `score ${c.name} malformed event ${clip(sends[0].e)}`);
    }
    // timeliness: a queued score leaves within the flush interval
    if (!sim.crashed && cfg.stall === 0) {
      const intervalMs = (cfg.interval ?? 1) * 1000;
      for (const c of created) {
        const sends = byName.get(c.key);
        if (!sends) continue;
        const deadline = c.t + intervalMs + 100;
        const sentAt = sends[0].r.t;
        if (sentAt <= deadline) {
          sim.oblige("sent-within-interval");
          continue;
        }
        sim.fail("sent-within-interval", `score ${c.name} created at ${c.t} was first sent at ${sentAt}, interval ${intervalMs}ms`);
        break;
      }
    }
    // ... or as soon as the configured number of scores is waiting
    if (!sim.crashed && cfg.stall === 0) {
      const limit = cfg.flushAt ?? 10;
      const sentAt = (c) => byName.get(c.key)?.[0].r.t ?? Infinity;
      for (const t of new Set(created.map((c) => c.t))) {
        const waiting = created.filter((c) => c.t <= t && sentAt(c) > t);
        sim.oblige("sent-at-threshold");
        if (waiting.length >= limit) {
          sim.fail("sent-at-threshold", `${waiting.length} scores were waiting at ${t}, to be sent when there are ${limit}`);
          break;
        }
      }
    }
    if (!sim.crashed)
      for (const f of flushes) {
        sim.oblige("flush-settles");
        if (!f.op.settled) {
          sim.fail("flush-settles", `${f.k}() called at ${f.t} never settled`);
          break;
        }
      }
  },
};

function parse(r) {
  return (r.parsed ??= JSON.parse(r.body));
}
