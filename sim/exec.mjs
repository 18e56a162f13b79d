// Executes one seeded run of a scenario and summarises it.
import { Sim, Rng, hash32 } from "./core.mjs";

let current = null;
process.on("unhandledRejection", (reason) => {
  if (current) {
    current.unhandled.push({ kind: "unhandledRejection", message: String(reason?.stack ?? reason), at: current.now });
    current.note("unhandledRejection", String(reason?.message ?? reason));
  }
});
process.on("uncaughtException", (e) => {
  if (current) {
    current.unhandled.push({ kind: "uncaughtException", message: String(e?.stack ?? e), at: current.now });
    current.note("uncaughtException", String(e?.message ?? e));
  } else {
    console.error("harness error", e);
    process.exit(3);
  }
});

export function planFor(scenario, seed, tier) {
  return scenario.generate(new Rng(hash32(`plan/${scenario.id}/${seed}`)), { tier, seed });
}

export async function runOnce(scenario, bundles, { seed, plan, overrides = null, faultsOff = false, trace = false }) {
  const sim = new Sim({ seed, overrides, faultsOff, maxSteps: scenario.maxSteps ?? 60000 });
  sim.traceOn = trace;
  const started = process.hrtime.bigint();
  current = sim;
  try {
    await scenario.run({ sim, plan, bundle: (k) => bundles[k] });
  } catch (e) {
    sim.fail("scenario-exception", String(e?.stack ?? e).slice(0, 1200));
  }
  await sim.drain();
  await sim.drain();
  if (scenario.checkUnhandled !== false && sim.unhandled.length && !scenario.ownUnhandled)
    sim.fail("no-unhandled-errors", `${sim.unhandled[0].kind} at t=${sim.unhandled[0].at}ms: ${sim.unhandled[0].message.slice(0, 600)}`);
  current = null;
  for (const c of sim.cleanups) c();
  return {
    seed,
    violations: sim.violations,
    digest: sim.digest,
    interleave: sim.interleave,
    simMs: sim.now,
    steps: sim.steps,
    faults: sim.faultCounts,
    obligations: sim.obligations,
    covered: sim.covered,
    decisions: sim.decisions,
    trace: sim.trace,
    logs: sim.logs,
    us: Number((process.hrtime.bigint() - started) / 1000n),
  };
}

export function decisionsObject(map, onlyNonNeutral = false) {
  const o = {};
  for (const [k, { v, neutral }] of map) {
    if (onlyNonNeutral && JSON.stringify(v) === JSON.stringify(neutral)) continue;
    o[k] = v;
  }
  return o;
}
