import fs from "node:fs";
import { runOnce, planFor } from "./exec.mjs";

process.on("message", async (msg) => {
  if (msg.type !== "start") return;
  const { id, tier, bundles, from, step, count, deadline, recheckEvery, stopOnViolation, knownSigs, heartbeat } = msg;
  const hb = fs.openSync(heartbeat, "w");
  const scenario = (await import(`./scenarios/${id.toLowerCase()}.mjs`)).default;
  const agg = { runs: 0, simMs: 0, steps: 0, faults: {}, obligations: {}, covered: {}, interleavings: [], nontrivial: 0, mismatches: [], violations: [], known: {}, us: 0, rechecked: 0, maxUs: 0 };
  const add = (a, b) => {
    for (const [k, v] of Object.entries(b)) a[k] = (a[k] ?? 0) + v;
  };
  const seen = new Set();
  for (let i = 0; i < count; i++) {
    if (Date.now() > deadline || (i % 20 === 0 && process.memoryUsage().heapUsed > 2.2e9)) {
      agg.cut = true;
      break;
    }
    const seed = from + i * step;
    fs.writeSync(hb, String(seed).padEnd(16), 0);
    const plan = planFor(scenario, seed, tier);
    const r = await runOnce(scenario, bundles, { seed, plan });
    agg.runs++;
    agg.simMs += r.simMs;
    agg.steps += r.steps;
    agg.us += r.us;
    agg.maxUs = Math.max(agg.maxUs, r.us);
    add(agg.faults, r.faults);
    add(agg.obligations, r.obligations);
    add(agg.covered, r.covered);
    const nObl = Object.values(r.obligations).reduce((x, y) => x + y, 0);
    if (nObl > 0 && !seen.has(r.interleave)) {
      seen.add(r.interleave);
      agg.interleavings.push(r.interleave);
    }
    if (i % recheckEvery === 0) {
      const r2 = await runOnce(scenario, bundles, { seed, plan: planFor(scenario, seed, tier) });
      agg.rechecked++;
      if (r2.digest !== r.digest || r2.violations.length !== r.violations.length) agg.mismatches.push({ seed, a: r.digest, b: r2.digest });
    }
    if (r.violations.length) {
      const fresh = r.violations.filter((v) => !knownSigs.includes(v.sig));
      for (const v of r.violations) if (knownSigs.includes(v.sig)) agg.known[v.sig] = (agg.known[v.sig] ?? 0) + 1;
      if (fresh.length) {
        agg.violations.push({ seed, violation: fresh[0], all: fresh.slice(0, 5) });
        process.send({ type: "violation", seed });
        if (stopOnViolation) break;
      }
    }
  }
  process.send({ type: "done", agg }, () => process.exit(0));
});
process.send({ type: "ready" });
