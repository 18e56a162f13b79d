#!/usr/bin/env node
// Debug helper: node sim/one.mjs <PROPERTY> <SEED> [--trace] [--plan]
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { buildBundle } from "./bundle.mjs";
import { runOnce, planFor } from "./exec.mjs";
const HERE = path.dirname(fileURLToPath(import.meta.url));
const [id, seedS] = process.argv.slice(2);
const scenario = (await import(`./scenarios/${id.toLowerCase()}.mjs`)).default;
const outDir = path.join(path.dirname(HERE), ".build", `one-${process.pid}`);
const bundles = {};
for (const k of scenario.bundles) bundles[k] = (await buildBundle(k, outDir)).outfile;
const plan = planFor(scenario, Number(seedS), "quick");
if (process.argv.includes("--plan")) console.log(JSON.stringify(plan, null, 1));
const r = await runOnce(scenario, bundles, { seed: Number(seedS), plan, trace: true });
if (process.argv.includes("--trace")) for (const l of r.trace) console.log(l);
for (const l of r.logs.slice(-30)) console.log("LOG", l);
console.log(JSON.stringify({ ...r, trace: undefined, logs: undefined, decisions: r.decisions.size }, null, 1));
fs.rmSync(outDir, { recursive: true, force: true });
process.exit(0);
