// P01: every ended observation is delivered exactly once, complete, and flush/shutdown are barriers.
import { World, MIX, clip } from "../harness.mjs";
import { A, TYPES, attrModel, genFields, ser, otlpRequests, sendsBySpan, checkNoDuplicates, eq, revive } from "../lib/tracing.mjs";

const APIS = ["start", "start", "active", "observe", "child", "otel", "event"];

export default {
  id: "P01",
  bundles: ["otel"],
  shrink: ["ops", "jumps"],
  runs: { quick: 6000, thorough: 80000 },
  components: {
    real: ["@langfuse/otel LangfuseSpanProcessor, media service", "@langfuse/tracing", "@langfuse/core", "OpenTelemetry SDK: tracer, batch/simple span processors, OTLP JSON serializer, retrying HTTP transport"],
    stub: ["network (seeded faults)", "Langfuse OTLP endpoint (reference model)", "clock, timers, randomness, SHA-256 completion order"],
  },

  generate(rng) {
    const big = rng.bool(0.08);
    const span = rng.weighted([[2, 300], [3, 6000], [2, 30000]]);
    const mode = rng.weighted([[3, "batched"], [1, "immediate"]]);
    // stay inside the exporter's own documented limits: 30 concurrent exports, 2048 queued spans
    const nSpans = big ? rng.int(60, 700) : rng.int(1, 26);
    const flushAt = mode === "immediate" ? null : big ? rng.pick([null, 50, 64, 200, 512]) : rng.weighted([[3, null], [1, 1], [2, rng.int(2, 5)], [1, rng.int(6, 30)]]);
    const ops = [];
    let left = mode === "immediate" ? Math.min(nSpans, 26) : nSpans;
    const node = (depth) => {
      left--;
      const tag = `n${left}`;
      const n = { tag, api: rng.pick(APIS), type: rng.pick(TYPES), a: genFields(rng, tag), g0: rng.int(0, 60), kids: [], dur: rng.weighted([[3, 0], [4, rng.int(0, 80)], [1, rng.int(500, 9000)]]) };
      if (rng.bool(0.3)) n.up = genFields(rng, `${tag}u`);
      if (rng.bool(0.15)) n.tio = rng.pick([{ input: `ti-${tag}`, output: { o: `to-${tag}` } }, { input: `ti-${tag}` }, { output: { o: `to-${tag}` } }, { input: rng.pick([0, false, ""]), output: rng.pick([0, false, ""]) }]);
      if (rng.bool(0.1)) n.media = rng.int(1, 4);
      if (rng.bool(0.1)) n.fail = rng.pick(["sync", "async"]);
      if (rng.bool(0.05)) n.after = true; // writes after end must not appear
      if (rng.bool(0.15)) n.from = -rng.pick([0, 1, 250, 5000, 90000]); // explicit start time, relative to now
      if (rng.bool(0.15)) n.to = rng.pick([0, 1, 700, -100]); // explicit end time
      if (rng.bool(0.1)) n.pub = true;
      if (rng.bool(0.1)) n.late = true; // a child started through the handle of an observation that has ended
      if (n.api === "otel") n.otel = { events: rng.int(0, 3), link: rng.bool(0.3), status: rng.bool(0.3) };
      if (n.api !== "event" && depth < 3) while (left > 0 && rng.bool(0.35)) n.kids.push(node(depth + 1));
      return n;
    };
    const pile = big && rng.bool(0.35) ? rng.int(0, span) : null; // everything at once
    if (big) {
      while (left > 0) {
        const k = Math.min(left, rng.int(20, 300));
        left -= k;
        ops.push({ t: pile ?? rng.int(0, span), k: "burst", n: k });
      }
    } else while (left > 0) ops.push({ t: rng.int(0, span), k: "trace", root: node(0) });
    const flushes = rng.int(0, big ? 6 : 5);
    for (let i = 0; i < flushes; i++) {
      const near = rng.bool(0.6) && ops.length ? rng.pick(ops).t + rng.int(0, 120) : rng.int(0, span + 6000);
      ops.push({ t: near, k: "flush", via: rng.pick(["processor", "provider"]) });
    }
    if (rng.bool(0.3)) ops.push({ t: rng.bool(0.5) ? rng.int(0, span) : span + rng.int(0, 6000), k: "shutdown", via: rng.pick(["processor", "provider"]) });
    ops.sort((a, b) => a.t - b.t);
    return {
      cfg: {
        mode, flushAt, big,
        interval: rng.weighted([[4, null], [2, 1], [1, 0.3], [1, 10]]),
        viaEnv: rng.bool(0.3),
        timeout: rng.weighted([[4, null], [1, 1], [1, 12]]),
        calm: rng.bool(0.35), until: rng.int(0, span + 20000),
        stall: rng.bool(0.12) ? 0.02 : 0,
        crash: rng.bool(0.1) ? rng.int(0, span + 3000) : null,
        env: rng.bool(0.4) ? "staging" : null, release: rng.bool(0.4) ? "r1" : null,
        mask: pile != null && rng.bool(0.6) ? 3000 : rng.bool(0.25) ? rng.int(1, 120) : !big && rng.bool(0.03) ? 45_000 : 0, // identity mask taking up to this many ms
        decoys: rng.bool(0.3), // the environment holds other values for everything configured in code
        isolated: rng.bool(0.15), debug: rng.bool(0.04), media: rng.bool(0.8),
      },
      jumps: rng.bool(0.15) ? [{ t: rng.int(0, span), by: rng.pick([-3600e3, 3600e3, -3000, 3000]) }] : [],
      ops,
    };
  },

  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    const env = {};
    const params = {};
    const opt = (v, envName, key) => {
      if (v == null) return;
      if (cfg.viaEnv) env[envName] = String(v);
      else {
        params[key] = v;
        if (cfg.decoys) env[envName] = { LANGFUSE_FLUSH_AT: v > 40 ? "7" : "400", LANGFUSE_FLUSH_INTERVAL: v > 5 ? "1" : "30", LANGFUSE_TIMEOUT: v > 5 ? "1" : "90", LANGFUSE_MEDIA_UPLOAD_ENABLED: "true" }[envName] ?? "decoy";
      }
    };
    opt(cfg.flushAt, "LANGFUSE_FLUSH_AT", "flushAt");
    opt(cfg.interval, "LANGFUSE_FLUSH_INTERVAL", "flushInterval");
    opt(cfg.timeout, "LANGFUSE_TIMEOUT", "timeout");
    opt(cfg.env, "LANGFUSE_TRACING_ENVIRONMENT", "environment");
    opt(cfg.release, "LANGFUSE_RELEASE", "release");
    if (!cfg.media) opt(false, "LANGFUSE_MEDIA_UPLOAD_ENABLED", "mediaUploadEnabled");
    if (cfg.debug) env.LANGFUSE_LOG_LEVEL = "DEBUG";
    if (cfg.mode === "immediate") params.exportMode = "immediate";
    if (cfg.mask) params.mask = async ({ data }) => {
      const d = sim.decide("mask-delay", (r) => r.int(0, cfg.mask), 0);
      if (d) await sim.sleep(d);
      return data;
    };
    const w = new World(sim, bundle("otel"), { mix: cfg.calm ? MIX.calm : MIX.rough, until: cfg.until, env });
    const p = w.load();
    const T = p.tracing;
    const processor = new p.otel.LangfuseSpanProcessor(params);
    const { provider } = w.startTracing(p, { processor, isolated: cfg.isolated });
    w.clockJumps(plan.jumps);

    const spans = new Map(); // spanId -> record
    let shutdownAt = null; // sequence number of the first shutdown call
    let seq = 0;
    const flushes = [];

    const register = (otelSpan, name, type, parent) => {
      const c = otelSpan.spanContext();
      const rec = { id: c.spanId, traceId: c.traceId, parent: parent?.id, name, want: {}, ended: null, tEnd: null, tStart: sim.now };
      if (type) rec.want[A.type] = type;
      if (spans.has(c.spanId)) sim.fail("unique-span-ids", `span id ${c.spanId} reused`);
      spans.set(c.spanId, rec);
      return rec;
    };
    const ended = (rec) => {
      if (rec.ended != null) return;
      rec.ended = ++seq;
      rec.tEnd = sim.now;
      rec.afterShutdown = shutdownAt != null;
    };
    const withMedia = (n, a) => {
      if (!n.media) return a;
      const uri = `data:image/png;base64,${Buffer.from(`png-${n.tag}-${"z".repeat(n.media * 7)}`).toString("base64")}`;
      return { ...a, input: { msg: `see ${n.tag}`, img: uri } };
    };
    const parentOf = (parent) => (parent ? { parentSpanContext: parent.obs.otelSpan?.spanContext?.() ?? parent.ctx } : {});

    // body shared by all API styles; runs inside the observation
    const body = async (n, rec, obs) => {
      rec.obs = obs;
      await sim.sleep(n.g0);
      if (n.up && obs?.update) {
        const up = revive(n.up);
        if (obs.update(up) !== obs) sim.fail("content", `update of ${rec.name} did not return the observation`);
        Object.assign(rec.want, attrModel(null, up));
      }
      if (n.pub && obs?.setTraceAsPublic) {
        obs.setTraceAsPublic();
        rec.want[A.tracePublic] = true;
      }
      if (n.tio && obs?.setTraceIO) {
        obs.setTraceIO(n.tio);
        for (const [k, v] of [[A.traceInput, n.tio.input], [A.traceOutput, n.tio.output]]) if (v !== undefined) rec.want[k] = ser(v);
      }
      const kids = n.kids.map((k) => run(k, rec));
      await sim.sleep(n.dur);
      await Promise.all(kids);
    };
    const run = async (n, parent) => {
      const name = `o-${n.tag}`;
      const a = withMedia(n, revive(n.a));
      const at = n.from === undefined ? undefined : new Date(sim.wall() + n.from);
      const timed = at ? { startTime: at } : {};
      const wallEnd = (rec, end) => {
        if (n.to === undefined) return end();
        rec.endAt = Math.max(sim.wall() + n.to, at ? +at : 0);
        end(new Date(rec.endAt));
      };
      if (n.api === "event") {
        const o = T.startObservation(name, a, { asType: "event", ...timed, ...parentOf(parent) });
        const rec = register(o.otelSpan, name, "event", parent);
        rec.startAt = rec.endAt = at ? +at : sim.wall();
        Object.assign(rec.want, attrModel("event", a));
        rec.obs = o;
        ended(rec);
        return;
      }
      if (n.api === "otel") {
        // an application span created directly on the Langfuse tracer
        const ctx = parent ? p.api.trace.setSpanContext(p.api.context.active(), parent.obs.otelSpan.spanContext()) : p.api.context.active();
        const s = T.getLangfuseTracer().startSpan(name, { attributes: { "app.k": n.tag }, ...timed, links: n.otel.link && parent ? [{ context: parent.obs.otelSpan.spanContext() }] : [] }, ctx);
        const rec = register(s, name, null, parent);
        rec.want["app.k"] = n.tag;
        rec.startAt = at && +at;
        rec.links = n.otel.link && parent ? [parent.id] : [];
        rec.events = [];
        await body(n, rec, { otelSpan: s });
        for (let i = 0; i < n.otel.events; i++) {
          s.addEvent(`ev-${n.tag}-${i}`, { i });
          rec.events.push(`ev-${n.tag}-${i}`);
        }
        if (n.otel.status) {
          s.setStatus({ code: 2, message: `st-${n.tag}` });
          rec.status = { code: 2, message: `st-${n.tag}` };
        }
        wallEnd(rec, (e) => s.end(e));
        ended(rec);
        return;
      }
      if (n.api === "child" && parent?.obs?.startObservation) {
        const o = parent.obs.startObservation(name, a, { asType: n.type });
        const rec = register(o.otelSpan, name, n.type, parent);
        Object.assign(rec.want, attrModel(n.type, a));
        await body(n, rec, o);
        wallEnd(rec, (e) => o.end(e));
        ended(rec);
        if (n.after) o.update({ output: "AFTER-END" });
        return;
      }
      if (n.api === "active") {
        let rec;
        const boom = new Error(`boom-${n.tag}`);
        const f = async (o) => {
          rec = register(o.otelSpan, name, n.type, parent);
          rec.startAt = at && +at;
          o.update(a);
          Object.assign(rec.want, attrModel(n.type, a));
          await body(n, rec, o);
          if (n.fail) throw boom;
        };
        try {
          const pr = T.startActiveObservation(name, f, { asType: n.type, ...timed, ...parentOf(parent) });
          await pr;
        } catch (e) {
          if (e !== boom) sim.fail("transparent", `active observation changed the error: ${e?.stack}`);
          if (rec) rec.status = { code: 2, message: boom.message };
        }
        ended(rec);
        return;
      }
      if (n.api === "observe") {
        let rec;
        const boom = new Error(`boom-${n.tag}`);
        const f = T.observe(
          async (x) => {
            const s = p.api.trace.getActiveSpan();
            rec = register(s, name, n.type, parent);
            Object.assign(rec.want, attrModel(n.type, { input: x }));
            await body(n, rec, { otelSpan: s });
            if (n.fail) throw boom;
            return { r: n.tag };
          },
          { name, asType: n.type, ...parentOf(parent) },
        );
        const x = a.input ?? { only: n.tag };
        try {
          const r = await f(x);
          rec.want[A.output] = JSON.stringify({ r: n.tag });
          if (r?.r !== n.tag) sim.fail("transparent", `observe changed the result of ${name}`);
        } catch (e) {
          if (e !== boom) sim.fail("transparent", `observe changed the error: ${e?.stack}`);
          Object.assign(rec.want, { [A.level]: "ERROR", [A.statusMessage]: boom.message, [A.output]: JSON.stringify({ error: String(boom) }) });
        }
        ended(rec);
        return;
      }
      const o = T.startObservation(name, a, { asType: n.type, ...timed, ...parentOf(parent) });
      const rec = register(o.otelSpan, name, n.type, parent);
      rec.startAt = at && +at;
      if (o.id !== rec.id || o.traceId !== rec.traceId || o.type !== n.type) sim.fail("content", `handle of ${name} says ${o.type} ${o.id} in ${o.traceId}`);
      Object.assign(rec.want, attrModel(n.type, a));
      await body(n, rec, o);
      wallEnd(rec, (e) => o.end(e));
      ended(rec);
      if (n.late) {
        await sim.sleep(n.g0);
        const k = o.startObservation(`${name}-late`, { input: `late-${n.tag}` });
        const kr = register(k.otelSpan, `${name}-late`, "span", rec);
        if (k.traceId !== rec.traceId) sim.fail("content", `a child started after ${name} ended is in trace ${k.traceId}`);
        kr.want[A.input] = `late-${n.tag}`;
        k.end();
        ended(kr);
      }
      if (n.after) {
        o.update({ output: "AFTER-END" });
        o.end();
      }
    };

    const label = (id) => spans.get(id)?.name ?? id;

    const doFlush = (op) => {
      const f = { op, t: sim.now, before: seq, shut: shutdownAt != null };
      if (op.k === "shutdown" && shutdownAt == null) shutdownAt = seq;
      flushes.push(f);
      const target = op.via === "provider" ? provider : processor;
      const o = w.op(`${op.k}/${op.via}`, () => (op.k === "shutdown" ? target.shutdown() : target.forceFlush()));
      f.o = o;
      o.onSettle = () => {
        f.done = sim.now;
        if (!o.ok) {
          sim.cover("flush-rejected");
          return;
        }
        sim.oblige("flush-barrier");
        const sends = sendsBySpan(w.net);
        for (const s of spans.values()) {
          if (s.ended == null || s.ended > f.before || s.afterShutdown) continue;
          const l = sends.get(s.id);
          if (!l) {
            sim.fail("flush-barrier", `${o.name}() called at ${f.t} resolved at ${sim.now}, but observation ${s.name} ended at ${s.tEnd} was never exported`);
            return;
          }
          const pend = l.find(({ r }) => r.tEnd === undefined);
          if (pend) {
            sim.fail("flush-barrier", `${o.name}() called at ${f.t} resolved at ${sim.now}, but the export of ${s.name} (ended ${s.tEnd}) is still in flight (request ${pend.r.id})`);
            return;
          }
          s.finalBy ??= sim.now;
        }
      };
    };

    for (const op of plan.ops)
      w.at(op.t, `op-${op.k}`, () => {
        if (op.k === "trace") {
          run(op.root, null).catch((e) => sim.fail("transparent", `tracing API threw: ${e?.stack ?? e}`));
        } else if (op.k === "burst") {
          for (let i = 0; i < op.n; i++) {
            const o = T.startObservation(`b-${i}`, { input: i });
            const rec = register(o.otelSpan, `b-${i}`, "span", null);
            rec.want[A.input] = String(i);
            o.end();
            ended(rec);
          }
        } else doFlush(op);
      });
    if (cfg.crash != null) w.at(cfg.crash, "crash", () => sim.crash());
    const end = await sim.run({ horizon: 3_600_000, stallProb: cfg.stall });
    if (end === "steps") sim.fail("liveness", "no quiescence within the step limit");

    // ---- history checks ----
    const sends = sendsBySpan(w.net);
    checkNoDuplicates(sim, sends, label);
    for (const id of sends.keys()) if (!spans.has(id)) return sim.fail("no-phantoms", `exported span ${id} was never created`);
    const maxBatch = cfg.mode === "immediate" ? 1 : cfg.flushAt ?? 512;
    for (const r of otlpRequests(w.net)) {
      if (r.spans.length > maxBatch) sim.fail("batch-size", `export request ${r.id} carries ${r.spans.length} spans, limit ${maxBatch}`);
      const auth = r.headers.Authorization ?? r.headers.authorization;
      if (auth !== "Basic " + Buffer.from("pk-sim:sk-sim").toString("base64")) sim.fail("authenticated", `export request ${r.id} Authorization ${auth}`);
    }
    for (const s of spans.values()) {
      const l = sends.get(s.id);
      if (s.ended == null) {
        if (l) sim.fail("only-ended", `observation ${s.name} was exported before it ended`);
        continue;
      }
      if (!l) {
        if (!sim.crashed && !s.afterShutdown) return sim.fail("delivered", `observation ${s.name} ended at ${s.tEnd} was never exported (quiescent at ${sim.now})`);
        continue;
      }
      if (l.some(({ r }) => r.t < s.tEnd)) sim.fail("only-ended", `observation ${s.name} exported before its end`);
      if (s.finalBy != null && l.some(({ r }) => r.t > s.finalBy)) sim.fail("flush-barrier", `observation ${s.name} was exported again at ${l[l.length - 1].r.t} after a flush covering it resolved at ${s.finalBy}`);
      sim.oblige("content");
      const got = l[0].s;
      if (got.name !== s.name || got.traceId !== s.traceId) sim.fail("content", `observation ${s.name} exported as ${got.name} in trace ${got.traceId}`);
      if ((got.parentSpanId ?? undefined) !== (s.parent ?? undefined)) sim.fail("content", `observation ${s.name} exported with parent ${got.parentSpanId}, expected ${s.parent}`);
      const at = got.attributes;
      for (const [k, v] of Object.entries(s.want)) {
        if (k === A.input && cfg.media && typeof v === "string" && v.includes(";base64,")) {
          if (!/@@@langfuseMedia:/.test(String(at[k]))) sim.fail("content", `observation ${s.name}: media not referenced`);
          continue;
        }
        if (!eq(at[k], v)) {
          sim.fail("content", `observation ${s.name} attribute ${k}: exported ${clip(at[k])}, set ${clip(v)}`);
          break;
        }
      }
      if (!s.want[A.environment] && (at[A.environment] ?? null) !== cfg.env) sim.fail("content", `observation ${s.name} environment ${at[A.environment]}, configured ${cfg.env}`);
      if ((at[A.release] ?? null) !== cfg.release) sim.fail("content", `observation ${s.name} release ${at[A.release]}, configured ${cfg.release}`);
      for (const k of [A.input, A.output, A.model, A.level, A.statusMessage, A.version, A.traceInput, A.traceOutput, A.promptName])
        if (at[k] !== undefined && s.want[k] === undefined) sim.fail("content", `observation ${s.name} carries ${k}=${clip(at[k])} which was never set`);
      if (s.status && (got.status?.code !== 2 || got.status?.message !== s.status.message)) sim.fail("content", `observation ${s.name} lost its error status: ${clip(got.status)}`);
      if (s.events && (!eq(got.events.map((e) => e.name), s.events) || !eq(got.links, s.links))) sim.fail("content", `span ${s.name}: exported events ${clip(got.events)} and links ${clip(got.links)}, had ${clip(s.events)} and ${clip(s.links)}`);
      // times: as given, otherwise when it was started and ended (unless the wall clock was moved meanwhile)
      const ms = (x) => Number(BigInt(x) / 1000n) / 1000;
      for (const [what, gotT, want] of [["start", got.start, s.startAt ?? (plan.jumps.length ? undefined : sim.wallBase + s.tStart)], ["end", got.end, s.endAt ?? (plan.jumps.length ? undefined : sim.wallBase + s.tEnd)]]) {
        if (want === undefined) continue;
        sim.oblige("times");
        if (Math.abs(ms(gotT) - want) > 2 && !(what === "end" && BigInt(got.end) === BigInt(got.start) && want <= ms(got.start))) sim.fail("content", `observation ${s.name} ${what} time exported as ${ms(gotT) - sim.wallBase}, expected ${want - sim.wallBase}`);
      }
      if (s.startAt === undefined && s.endAt === undefined && Math.abs(ms(got.end) - ms(got.start) - (s.tEnd - s.tStart)) > 2) sim.fail("content", `observation ${s.name} was open for ${s.tEnd - s.tStart} ms, exported as ${ms(got.end) - ms(got.start)} ms`);
      if (BigInt(got.end) < BigInt(got.start)) sim.fail("content", `observation ${s.name} ends before it starts`);
    }
    // timeliness on a healthy network
    if (cfg.calm && cfg.stall === 0 && !sim.crashed && !plan.jumps.length) {
      const interval = (cfg.interval ?? 5) * 1000;
      const batches = Math.ceil(spans.size / maxBatch) + flushes.length;
      const proc = 14 * cfg.mask + 400;
      // nothing was in flight before the first export: it waits for the interval alone
      const firsts = [...spans.values()].filter((s) => s.ended != null && !s.afterShutdown && sends.get(s.id)).sort((a, b) => a.tEnd - b.tEnd);
      if (firsts.length) {
        const s = firsts[0];
        const t0 = Math.min(...[...sends.values()].flat().map((x) => x.r.t));
        sim.oblige("timely");
        if (t0 > s.tEnd + 14 * cfg.mask + (cfg.mode === "immediate" ? 0 : interval) + 60) sim.fail("timely", `observation ${s.name} ended at ${s.tEnd}, the first export of the process was at ${t0}; interval ${interval} ms, healthy network`);
      }
      for (const s of spans.values()) {
        if (s.ended == null || s.afterShutdown) continue;
        const l = sends.get(s.id);
        if (!l) continue;
        sim.oblige("timely");
        const bound = s.tEnd + proc + (cfg.mode === "immediate" ? 0 : interval + batches * 700 + 700);
        if (l[0].r.t > bound) {
          sim.fail("timely", `observation ${s.name} ended at ${s.tEnd}, first exported at ${l[0].r.t}; interval ${interval} ms, healthy network`);
          break;
        }
      }
      for (const f of flushes)
        if (f.o.settled && !f.o.ok && !f.shut && cfg.mask < 5000) sim.fail("flush-resolves", `${f.o.name}() rejected on a healthy network: ${f.o.error?.message ?? clip(f.o.error)}`);
      if (otlpRequests(w.net).some((r) => r.status !== undefined && r.status !== 200)) sim.fail("timely", "request failed on a healthy network");
    }
    if (!sim.crashed)
      for (const f of flushes) {
        sim.oblige("flush-settles");
        if (!f.o.settled) {
          sim.fail("flush-settles", `${f.o.name}() called at ${f.t} never settled`);
          break;
        }
        // bounded: export timeout 30 s per batch plus media upload attempts
        if (f.o.settled && f.o.end - f.t > 900_000) sim.fail("flush-settles", `${f.o.name}() took ${f.o.end - f.t} ms`);
      }
  },
};
