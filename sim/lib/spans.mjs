// Common driver for the span-processor scenarios (filter, masking, media):
// a list of timed spans plus flush/shutdown calls, run against the real processor.
import { World, MIX } from "../harness.mjs";
import { sendsBySpan, checkNoDuplicates } from "./tracing.mjs";

export function genFlushOps(rng, ops, span) {
  const n = rng.int(0, 4);
  for (let i = 0; i < n; i++) {
    const near = rng.bool(0.6) && ops.length ? rng.pick(ops).t + rng.int(0, 150) : rng.int(0, span + 6000);
    ops.push({ t: near, k: "flush" });
  }
  if (rng.bool(0.25)) ops.push({ t: rng.bool(0.5) ? rng.int(0, span) : span + rng.int(0, 6000), k: "shutdown" });
  ops.sort((a, b) => a.t - b.t);
}

export function genCfg(rng, span) {
  return {
    mode: rng.weighted([[3, "batched"], [1, "immediate"]]),
    flushAt: rng.weighted([[3, null], [1, 1], [2, rng.int(2, 6)]]),
    interval: rng.weighted([[3, null], [2, 1], [1, 0.3]]),
    calm: rng.bool(0.45), until: rng.int(0, span + 15000),
    stall: rng.bool(0.1) ? 0.02 : 0,
    crash: rng.bool(0.08) ? rng.int(0, span + 3000) : null,
    debug: rng.bool(0.05),
  };
}

/**
 * hooks: params (extra processor params), runSpan(ctx, op, register, ended) performing one span op,
 * onFlush(flush) evaluated when a flush resolves.
 */
export async function drive({ sim, plan, bundleFile, params = () => ({}), runOp, onFlushResolved, mix, env = {}, serverOpts }) {
  const { cfg } = plan;
  const e = { ...env };
  if (cfg.debug) e.LANGFUSE_LOG_LEVEL = "DEBUG";
  const w = new World(sim, bundleFile, { mix: mix ?? (cfg.calm ? MIX.calm : MIX.rough), until: cfg.until, env: e, serverOpts });
  const p = w.load();
  const pp = { ...params(p) };
  if (cfg.mode === "immediate") pp.exportMode = "immediate";
  if (cfg.flushAt) pp.flushAt = cfg.flushAt;
  if (cfg.interval) pp.flushInterval = cfg.interval;
  const processor = new p.otel.LangfuseSpanProcessor(pp);
  const { provider } = w.startTracing(p, { processor });
  const ctx = { sim, plan, w, p, processor, provider, spans: new Map(), seq: 0, shutdownAt: null, flushes: [] };
  ctx.register = (otelSpan, rec) => {
    const c = otelSpan.spanContext();
    rec.id = c.spanId;
    rec.traceId = c.traceId;
    rec.otelSpan = otelSpan;
    ctx.spans.set(c.spanId, rec);
    return rec;
  };
  /** End a span inside its own attributed operation, so that requests it causes can be told apart. */
  ctx.end = (rec, fn) => {
    rec.ended = ++ctx.seq;
    rec.tEnd = sim.now;
    rec.afterShutdown = ctx.shutdownAt != null;
    rec.endOp = w.op(`end ${rec.name}`, () => {
      (fn ?? (() => rec.otelSpan.end()))();
    });
    if (rec.endOp.sync) sim.fail("end-never-throws", `ending ${rec.name} threw ${rec.endOp.error?.stack}`);
  };
  for (const op of plan.ops)
    w.at(op.t, `op-${op.k}`, async () => {
      if (op.k !== "flush" && op.k !== "shutdown") {
        try {
          await runOp(ctx, op);
        } catch (err) {
          sim.fail("transparent", `application code saw an SDK error: ${err?.stack ?? err}`);
        }
        return;
      }
      const f = { op, t: sim.now, before: ctx.seq };
      if (op.k === "shutdown" && ctx.shutdownAt == null) ctx.shutdownAt = ctx.seq;
      ctx.flushes.push(f);
      f.o = w.op(op.k, () => (op.k === "shutdown" ? processor.shutdown() : processor.forceFlush()));
      f.o.onSettle = () => {
        f.done = sim.now;
        if (!f.o.ok) return sim.cover("flush-rejected");
        const covered = [...ctx.spans.values()].filter((s) => s.ended != null && s.ended <= f.before && !s.afterShutdown);
        onFlushResolved?.(ctx, f, covered);
      };
    });
  if (cfg.crash != null) w.at(cfg.crash, "crash", () => sim.crash());
  const end = await sim.run({ horizon: 3_600_000, stallProb: cfg.stall });
  if (end === "steps") sim.fail("liveness", "no quiescence within the step limit");
  ctx.sends = sendsBySpan(w.net);
  checkNoDuplicates(sim, ctx.sends, (id) => ctx.spans.get(id)?.name ?? id);
  if (!sim.crashed)
    for (const f of ctx.flushes) {
      sim.oblige("flush-settles");
      if (!f.o.settled) sim.fail("flush-settles", `${f.o.name}() called at ${f.t} never settled`);
    }
  return ctx;
}

/** Everything that left the process, as text (bucket bytes included). */
export function outgoing(w) {
  return w.net.log.map((r) => ({ r, text: typeof r.body === "string" ? r.body : r.body ? Buffer.from(r.body).toString("latin1") : "" }));
}
