#!/usr/bin/env node
// node sim/replay.mjs <replay.json> : re-executes one recorded run against /repo's current tree.
// Exit 1 when the recorded violation reproduces, 0 when it does not.
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { buildBundle } from "./bundle.mjs";
import { runOnce } from "./exec.mjs";

const HERE = path.dirname(fileURLToPath(import.meta.url));
const doc = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const scenario = (await import(`./scenarios/${doc.property.toLowerCase()}.mjs`)).default;
const outDir = path.join(path.dirname(HERE), ".build", `replay-${process.pid}`);
let rc = 0;
try {
  const bundles = {};
  for (const k of scenario.bundles) bundles[k] = (await buildBundle(k, outDir)).outfile;
  const r = await runOnce(scenario, bundles, { seed: doc.seed, plan: doc.plan, overrides: doc.overrides, faultsOff: doc.faultsOff, trace: true });
  if (process.argv.includes("--trace")) {
    for (const l of r.trace) console.log(l);
    for (const l of r.logs) console.log("LOG", l);
  }
  const v = r.violations.find((x) => x.sig === doc.sig);
  if (v) {
    console.log(`REPRODUCED property=${doc.property} seed=${doc.seed} clause=${v.clause}: ${v.detail}`);
    if (doc.digest !== null) console.log(r.digest === doc.digest ? "execution digest identical" : `execution digest differs (${r.digest} vs ${doc.digest})`);
    rc = 1;
  } else console.log(`not reproduced; violations: ${JSON.stringify(r.violations.slice(0, 3))}`);
} finally {
  fs.rmSync(outDir, { recursive: true, force: true });
}
process.exit(rc);
