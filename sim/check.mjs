#!/usr/bin/env node
// node sim/check.mjs <PROPERTY> [--tier quick|thorough] [--runs N] [--from SEED]
// Exit 0: held on every simulated run. Exit 1: VIOLATION line + replay file. Exit 2: the machinery itself failed.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fork, spawnSync } from "node:child_process";
import { fileURLToPath } from "node:url";
import { buildBundle, REPO } from "./bundle.mjs";
import { planFor } from "./exec.mjs";
import { minimise } from "./minimise.mjs";

const HERE = path.dirname(fileURLToPath(import.meta.url));
const VERIF = path.dirname(HERE);
const args = process.argv.slice(2);
const id = args[0];
const opt = (n, d) => {
  const i = args.indexOf(`--${n}`);
  return i >= 0 ? args[i + 1] : d;
};
const tier = opt("tier", process.env.VERIF_TIER === "thorough" ? "thorough" : "quick");
const baseSeed = Number(opt("seed", process.env.VERIF_SEED ?? 1)) || 1;
const t0 = Date.now();
const HANG_MS = 60_000;

if (id === "--selftest") {
  const { ENTRIES } = await import("./bundle.mjs");
  const dir = path.join(VERIF, ".build", `selftest-${process.pid}`);
  for (const k of Object.keys(ENTRIES)) await buildBundle(k, dir);
  fs.rmSync(dir, { recursive: true, force: true });
  console.log(`setup ok: ${Object.keys(ENTRIES).join(", ")} bundle from ${REPO}`);
  process.exit(0);
}

const scenario = (await import(`./scenarios/${id.toLowerCase()}.mjs`)).default;
const outDir = path.join(VERIF, ".build", `${id}-${process.pid}`);
const cleanup = () => fs.rmSync(outDir, { recursive: true, force: true });
let code = 2;
try {
  code = await main();
} catch (e) {
  console.error(e);
  code = 2;
}
cleanup();
process.exit(code);

async function main() {
  const bundles = {};
  for (const k of scenario.bundles) bundles[k] = (await buildBundle(k, outDir)).outfile;
  const known = loadKnown();
  const knownSigs = known.filter((k) => k.property === id && k.status === "known").map((k) => k.sig);
  const workers = Math.max(1, Math.min(8, os.availableParallelism()));
  const runs = Number(opt("runs", scenario.runs?.[tier] ?? (tier === "quick" ? 2000 : 20000)));
  const capS = Number(opt("cap", tier === "quick" ? 240 : 800));
  const deadline = t0 + capS * 1000;
  const from = Number(opt("from", baseSeed * 1_000_000));
  const per = Math.ceil(runs / workers);
  const results = await Promise.all(
    Array.from({ length: workers }, (_, w) => runWorker({ type: "start", id, tier, bundles, from: from + w, step: workers, count: per, deadline, heartbeat: path.join(outDir, `hb-${w}`), recheckEvery: scenario.recheckEvery ?? 10, stopOnViolation: true, knownSigs })),
  );
  const agg = { runs: 0, simMs: 0, steps: 0, faults: {}, obligations: {}, covered: {}, mismatches: [], violations: [], known: {}, us: 0, rechecked: 0 };
  const inter = new Set();
  let cut = false;
  for (const r of results) {
    if (r.died) {
      const v = confirmHang(r);
      if (!v) throw new Error(`worker died at seed ${r.seed} (${r.died}) and the seed runs fine alone`);
      agg.violations.push(v);
      continue;
    }
    for (const k of ["runs", "simMs", "steps", "us", "rechecked"]) agg[k] += r[k];
    for (const k of ["faults", "obligations", "covered", "known"]) for (const [a, b] of Object.entries(r[k])) agg[k][a] = (agg[k][a] ?? 0) + b;
    agg.mismatches.push(...r.mismatches);
    agg.violations.push(...r.violations);
    for (const x of r.interleavings) inter.add(x);
    cut ||= !!r.cut;
  }
  agg.violations.sort((a, b) => a.seed - b.seed);
  const wall = (Date.now() - t0) / 1000;
  const evidence = {
    property: id,
    tier,
    seed: baseSeed,
    level: "exploration",
    wall_s: wall,
    coverage: {
      evaluations: agg.runs,
      distinct_nontrivial: inter.size,
      rule: "a run counts when its event-order digest (sequence of executed simulator event labels: timer, net delivery per route, user op, digest, crash) was not seen before and at least one oracle obligation was evaluated in it",
      samples: samplePlans(),
      seeds: { from, count: agg.runs, step: 1 },
      runs_per_hour: Math.round((agg.runs / wall) * 3600),
      simulated_time_s: Math.round(agg.simMs / 1000),
      simulator_steps: agg.steps,
      faults_injected: agg.faults,
      obligations_checked: agg.obligations,
      situations_reached: agg.covered,
      determinism_rechecks: agg.rechecked,
      determinism_mismatches: agg.mismatches.length,
      cut_by_time_cap: cut,
      components: scenario.components,
      workers,
    },
    known_findings_seen: agg.known,
    violations: agg.violations.length,
    violation: null,
  };
  let rc = 0;
  if (agg.mismatches.length) {
    console.error(`determinism mismatch: ${JSON.stringify(agg.mismatches.slice(0, 3))}`);
    rc = 2;
  }
  if (agg.violations.length) {
    const v = agg.violations[0];
    const replay = v.hang ?? (await report(v, bundles));
    evidence.violation = { seed: v.seed, clause: v.violation.clause, detail: v.violation.detail, replay };
    console.log(`VIOLATION property=${id} replay=${replay}`);
    console.log(`  seed=${v.seed} clause=${v.violation.clause}: ${v.violation.detail}`);
    rc = 1;
  }
  for (const k of known.filter((k) => k.property === id && k.status === "known")) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
  fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
  fs.writeFileSync(path.join(VERIF, "evidence", `${id}.json`), JSON.stringify(evidence, null, 2) + "\n");
  console.log(`${id} ${tier}: ${agg.runs} runs, ${inter.size} distinct interleavings, ${Math.round(agg.simMs / 1000)}s simulated, ${wall.toFixed(1)}s wall, exit ${rc}`);
  if (process.env.LF_VERBOSE) console.log(JSON.stringify({ faults: agg.faults, obligations: agg.obligations, covered: agg.covered }, null, 1));
  return rc;
}

function samplePlans() {
  const out = [];
  for (let i = 0; i < 3; i++) {
    const p = planFor(scenario, Number(opt("from", baseSeed * 1_000_000)) + i, tier);
    out.push({ seed: Number(opt("from", baseSeed * 1_000_000)) + i, plan: JSON.stringify(p).slice(0, 600) });
  }
  return out;
}

function loadKnown() {
  const f = path.join(VERIF, "known-findings.json");
  return fs.existsSync(f) ? JSON.parse(fs.readFileSync(f, "utf8")).findings : [];
}

/** A run that never finished (endless loop, out of memory) must do so again alone before it counts. */
function confirmHang(r) {
  const dir = path.join(VERIF, "replays");
  fs.mkdirSync(dir, { recursive: true });
  const file = path.join(dir, `${id}-${r.seed}.json`);
  fs.writeFileSync(file, JSON.stringify({ property: id, tier, seed: r.seed, clause: "terminates", sig: "terminates", plan: planFor(scenario, r.seed, tier), overrides: null, faultsOff: false, minimised: false, digest: null }, null, 1));
  const p = spawnSync(process.execPath, ["--max-old-space-size=3000", path.join(HERE, "replay.mjs"), file], { encoding: "utf8", timeout: HANG_MS, killSignal: "SIGKILL", env: { ...process.env, TZ: "UTC" } });
  if (p.status === 0 || p.status === 2) return null;
  return { seed: r.seed, hang: file, violation: { clause: "terminates", sig: "terminates", detail: `the run never finishes (${r.died}): the code under test loops or grows without bound` } };
}

function runWorker(msg) {
  return new Promise((resolve, reject) => {
    const c = fork(path.join(HERE, "worker.mjs"), [], { execArgv: ["--max-old-space-size=3000"], env: { ...process.env, TZ: "UTC" } });
    let done = null;
    c.on("message", (m) => {
      if (m.type === "ready") c.send(msg);
      if (m.type === "done") done = m.agg;
    });
    const killer = setTimeout(() => c.kill("SIGKILL"), msg.deadline - Date.now() + 90000);
    let last = null;
    let since = Date.now();
    const poll = setInterval(() => {
      let cur = "";
      try {
        cur = fs.readFileSync(msg.heartbeat, "utf8").trim();
      } catch {}
      if (cur !== last) {
        last = cur;
        since = Date.now();
      } else if (Date.now() - since > HANG_MS) c.kill("SIGKILL");
    }, 2000);
    c.on("exit", (codeNum, sigName) => {
      clearTimeout(killer);
      clearInterval(poll);
      if (done) return resolve(done);
      let seed = NaN;
      try {
        seed = Number(fs.readFileSync(msg.heartbeat, "utf8"));
      } catch {}
      if (seed) resolve({ died: `code=${codeNum} signal=${sigName}`, seed });
      else reject(new Error(`worker died code=${codeNum} signal=${sigName}`));
    });
  });
}

async function report(v, bundles) {
  const dir = path.join(VERIF, "replays");
  fs.mkdirSync(dir, { recursive: true });
  const file = path.join(dir, `${id}-${v.seed}.json`);
  const plan = planFor(scenario, v.seed, tier);
  let m = null;
  try {
    m = await minimise(scenario, bundles, { seed: v.seed, plan, sig: v.violation.sig, budgetMs: 45000 });
  } catch (e) {
    console.error("minimisation failed", e);
  }
  const doc = {
    property: id,
    tier,
    seed: v.seed,
    clause: v.violation.clause,
    sig: v.violation.sig,
    plan: m ? m.plan : plan,
    overrides: m ? m.overrides : null,
    faultsOff: m ? m.faultsOff : false,
    minimised: !!m,
    violation: m ? m.violation : v.violation,
    digest: m ? m.digest : null,
    trace: m ? m.trace.slice(-400) : null,
    logs: m ? m.logs.slice(-60) : null,
    howto: `node ${path.relative(VERIF, path.join(HERE, "replay.mjs"))} ${path.relative(VERIF, file)}`,
  };
  fs.writeFileSync(file, JSON.stringify(doc, null, 1) + "\n");
  const r = spawnSync(process.execPath, [path.join(HERE, "replay.mjs"), file], { encoding: "utf8", timeout: 120000, env: { ...process.env, TZ: "UTC" } });
  if (r.status !== 1) console.error(`warning: replay did not reproduce (status ${r.status}) ${r.stdout?.slice(-500)} ${r.stderr?.slice(-500)}`);
  else console.log(`  replay reproduced in a fresh process: ${file} (${doc.plan.ops?.length ?? "?"} ops, ${Object.keys(doc.overrides ?? {}).length} pinned decisions)`);
  return file;
}
