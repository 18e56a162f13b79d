// P05: propagated attributes reach exactly the observations of their own scope, across concurrency and services.
import { genProgram, runProgram, clip, eq, A } from "../lib/program.mjs";

const KEYS = [A.userId, A.sessionId, A.version, A.traceName, A.environment, A.release, A.tags, A.promptName, A.promptVersion];

export default {
  id: "P05",
  bundles: ["otel"],
  shrink: ["ops"],
  runs: { quick: 6000, thorough: 80000 },
  components: {
    real: ["@langfuse/core propagation", "@langfuse/tracing", "@langfuse/otel span processor", "OpenTelemetry context manager (AsyncLocalStorage), W3C propagators, SDK, exporter — one instance per simulated service"],
    stub: ["network", "Langfuse server (reference model)", "clock, timers, randomness and task order"],
  },
  generate(rng) {
    return {
      cfg: { procs: 2, mode: rng.pick(["batched", "immediate", "batched"]), env: rng.bool(0.3) ? "base-env" : null, release: rng.bool(0.35) ? "rel" : null, stall: 0, maskMs: rng.bool(0.3) ? rng.pick([3, 40, 300]) : 0, flushes: rng.bool(0.4) ? Array.from({ length: rng.int(1, 6) }, () => ({ t: rng.int(0, 500), proc: rng.int(0, 1) })) : [] },
      ops: genProgram(rng, { scope: 5, start: 3, active: 3, observe: 2, raw: 2, event: 1, hop: 2, sync: 0.15, act: 0, endOnExit: 0.03 }),
    };
  },
  async run({ sim, plan, bundle }) {
    await runProgram({
      sim, plan, bundleFile: bundle("otel"),
      check({ recs, sends }) {
        for (const rec of recs.values()) {
          const l = sends.get(rec.id);
          if (!rec.ended || !l) continue;
          const at = l[0].s.attributes;
          const want = rec.frozen;
          const keys = new Set([...KEYS, ...Object.keys(want).filter((k) => k.startsWith(A.traceMetadata)), ...Object.keys(at).filter((k) => k.startsWith(A.traceMetadata))]);
          for (const k of keys) {
            if (rec.unsure.has(k)) continue;
            sim.oblige(want[k] !== undefined ? "attribute-present" : "attribute-absent");
            const g = k === A.tags && Array.isArray(at[k]) ? [...at[k]].sort() : at[k];
            const e = k === A.tags && Array.isArray(want[k]) ? [...want[k]].sort() : want[k];
            if (!eq(g, e)) return sim.fail(e === undefined ? "no-bleed" : "propagated", `observation ${rec.name} (service ${rec.proc}): ${k} is ${clip(g)}, its scope gives ${clip(e)}`);
          }
        }
      },
    });
  },
};
