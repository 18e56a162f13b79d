// Shrinks a failing run: fewer operations in the plan, then fewer faults/delays, keeping the same violated clause.
import { runOnce, decisionsObject } from "./exec.mjs";

const clone = (x) => JSON.parse(JSON.stringify(x));
const get = (o, path) => path.split(".").reduce((a, k) => (a == null ? a : a[k]), o);
const set = (o, path, v) => {
  const ks = path.split(".");
  const last = ks.pop();
  ks.reduce((a, k) => a[k], o)[last] = v;
};

export async function minimise(scenario, bundles, { seed, plan, sig, budgetMs = 60000 }) {
  const t0 = Date.now();
  let tries = 0;
  const over = () => Date.now() - t0 > budgetMs;
  const fails = async (p, overrides, faultsOff = false) => {
    tries++;
    const r = await runOnce(scenario, bundles, { seed, plan: p, overrides, faultsOff });
    const v = r.violations.find((x) => x.sig === sig);
    return v ? r : null;
  };
  let best = clone(plan);
  let base = await fails(best, null);
  if (!base) return null;

  // 1. ddmin over the plan's shrinkable arrays
  for (let round = 0; round < 2; round++) {
    for (const path of scenario.shrink ?? ["ops"]) {
      let arr = get(best, path);
      if (!Array.isArray(arr)) continue;
      let chunk = Math.max(1, arr.length >> 1);
      while (chunk >= 1 && !over()) {
        let i = 0;
        let removed = false;
        while (i < get(best, path).length && !over()) {
          const cand = clone(best);
          const a = get(cand, path);
          a.splice(i, chunk);
          set(cand, path, a);
          if (await fails(cand, null)) {
            best = cand;
            removed = true;
          } else i += chunk;
        }
        if (chunk === 1 && !removed) break;
        chunk = chunk === 1 ? (removed ? 1 : 0) : chunk >> 1;
      }
    }
  }
  // 2. pin every decision, then neutralise as many as possible
  base = await fails(best, null);
  if (!base) return null; // cannot happen in a deterministic run
  let pinned = decisionsObject(base.decisions, true);
  let faultsOff = true; // anything not pinned is neutral
  let ok = await fails(best, pinned, true);
  if (!ok) {
    pinned = decisionsObject(base.decisions, false);
    ok = await fails(best, pinned, true);
    if (!ok) {
      faultsOff = false;
      pinned = decisionsObject(base.decisions, false);
    }
  }
  let keys = Object.keys(pinned);
  let chunk = Math.max(1, keys.length >> 1);
  while (chunk >= 1 && !over() && faultsOff) {
    let i = 0;
    let removed = false;
    keys = Object.keys(pinned);
    while (i < keys.length && !over()) {
      const drop = keys.slice(i, i + chunk);
      const cand = { ...pinned };
      for (const k of drop) delete cand[k];
      if (await fails(best, cand, true)) {
        pinned = cand;
        keys = Object.keys(pinned);
        removed = true;
      } else i += chunk;
    }
    if (chunk === 1 && !removed) break;
    chunk = chunk === 1 ? (removed ? 1 : 0) : chunk >> 1;
  }
  const final = await runOnce(scenario, bundles, { seed, plan: best, overrides: pinned, faultsOff, trace: true });
  return { plan: best, overrides: pinned, faultsOff, violation: final.violations.find((x) => x.sig === sig), digest: final.digest, trace: final.trace, logs: final.logs, tries };
}
