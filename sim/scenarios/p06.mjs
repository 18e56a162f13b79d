// P06: app-root marking — exactly the topmost exported observation of each unit of work.
import { genProgram, runProgram, clip, A } from "../lib/program.mjs";

export default {
  id: "P06",
  bundles: ["otel"],
  shrink: ["ops"],
  runs: { quick: 6000, thorough: 80000 },
  components: {
    real: ["@langfuse/otel span processor (app-root classification)", "@langfuse/tracing claims, @langfuse/core baggage", "OpenTelemetry context manager, W3C propagators, SDK, exporter — one instance per simulated service"],
    stub: ["network", "Langfuse server (reference model)", "clock, timers, randomness and task order"],
  },
  generate(rng) {
    return {
      cfg: { procs: 2, mode: rng.pick(["batched", "immediate"]), filter: rng.bool(0.35) ? "names" : "default", stall: 0, maskMs: rng.bool(0.3) ? rng.pick([3, 40, 300]) : 0, flushes: rng.bool(0.4) ? Array.from({ length: rng.int(1, 6) }, () => ({ t: rng.int(0, 500), proc: rng.int(0, 1) })) : [] },
      ops: genProgram(rng, { scope: 0.5, start: 3, active: 3, observe: 2, raw: 4, event: 0.5, hop: 2, crowd: 0.35, sync: 0.2, act: 0, endOnExit: 0.06 }),
    };
  },
  async run({ sim, plan, bundle }) {
    await runProgram({
      sim, plan, bundleFile: bundle("otel"),
      check({ recs, sends }) {
        for (const rec of recs.values()) {
          const l = sends.get(rec.id);
          if (!rec.ended || !l) continue;
          const got = l[0].s.attributes[A.appRoot];
          sim.oblige(rec.appRoot ? "app-root" : "not-app-root");
          if (rec.appRoot && got !== true) return sim.fail("root-marked", `observation ${rec.name} (scope "${rec.scope}", service ${rec.proc}) is the topmost exported one but is not marked as application root`);
          if (!rec.appRoot && got !== undefined) return sim.fail("only-roots-marked", `observation ${rec.name} (scope "${rec.scope}", service ${rec.proc}, parent ${recs.get(rec.parentId)?.name ?? rec.parentId}) is marked as application root (${clip(got)})`);
        }
      },
    });
  },
};
