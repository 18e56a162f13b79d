// P07: observing code never changes what it does, and every observation ends exactly once, correctly nested.
import { genProgram, runProgram, clip, eq, A } from "../lib/program.mjs";
import { checkNoDuplicates } from "../lib/tracing.mjs";

export default {
  id: "P07",
  bundles: ["otel"],
  shrink: ["ops"],
  runs: { quick: 6000, thorough: 80000 },
  components: {
    real: ["@langfuse/tracing (observe, startActiveObservation, startObservation, active-context helpers)", "@langfuse/otel span processor", "OpenTelemetry context manager (AsyncLocalStorage), SDK, exporter"],
    stub: ["network", "Langfuse server (reference model)", "the traced application: random nested, concurrent, failing and detached functions", "clock, timers, randomness and task order"],
  },
  generate(rng) {
    const mode = rng.pick(["batched", "immediate"]);
    return {
      cfg: { procs: 1, mode, stall: 0, maskMs: rng.bool(0.3) ? rng.pick([3, 40, 300]) : 0, flushes: rng.bool(0.4) ? Array.from({ length: rng.int(1, 6) }, () => ({ t: rng.int(0, 500), proc: rng.int(0, 1) })) : [] },
      ops: genProgram(rng, { scope: 0.4, start: 2, active: 5, observe: 5, raw: 1, event: 0.5, hop: 0, sync: 0.35, act: 0.3, endOnExit: 0.12, /* the OTLP exporter refuses more than 30 concurrent exports */ storm: mode === "batched" ? 0.6 : 0 }),
    };
  },
  async run({ sim, plan, bundle }) {
    await runProgram({
      sim, plan, bundleFile: bundle("otel"),
      check({ recs, sends, accept }) {
        checkNoDuplicates(sim, sends, (id) => recs.get(id)?.name ?? id);
        for (const id of sends.keys()) if (!recs.has(id)) return sim.fail("exactly-once", `an observation ${id} (${sends.get(id)[0].s.name}) was exported that no application code started`);
        for (const rec of recs.values()) {
          const l = sends.get(rec.id);
          if (!rec.ended) {
            if (l) sim.fail("kept-open", `${rec.name} was exported although it never ended`);
            continue;
          }
          if (!accept(rec.scope, rec.name, rec.frozen)) continue;
          if (!l) return sim.fail("ended-once", `${rec.name} ended at ${rec.tEnd} but was never exported`);
          sim.oblige("ended-once");
          const s = l[0].s;
          if (s.name !== rec.name || s.traceId !== rec.traceId || (s.parentSpanId ?? undefined) !== (rec.parentId ?? undefined)) return sim.fail("structure", `${rec.name} exported as child of ${recs.get(s.parentSpanId)?.name ?? s.parentSpanId}, enclosing observation is ${recs.get(rec.parentId)?.name ?? rec.parentId}`);
          for (const k of [A.type, A.input, A.output, A.level, A.statusMessage, A.traceInput, A.traceOutput, A.tracePublic, `${A.metadata}.act`, `${A.metadata}.own`])
            if (!rec.unsure.has(k) && !eq(s.attributes[k], rec.frozen[k])) return sim.fail("recorded", `${rec.name} ${k}: exported ${clip(s.attributes[k])}, expected ${clip(rec.frozen[k])}`);
          if (rec.status !== undefined && !rec.keptOpen && (s.status?.code !== 2 || (s.status?.message ?? "") !== rec.status)) return sim.fail("recorded", `${rec.name} failed with "${rec.status}" but has status ${clip(s.status)}`);
        }
      },
    });
  },
};
