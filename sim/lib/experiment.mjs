// Experiment runs: P12 (execution semantics) and P13 (attribution and delivery) share one driver.
import nodeCrypto from "node:crypto";
import { World, MIX, clip } from "../harness.mjs";
import { A, ser, eq, sendsBySpan } from "./tracing.mjs";

const X = {
  id: "langfuse.experiment.id", name: "langfuse.experiment.name", description: "langfuse.experiment.description", metadata: "langfuse.experiment.metadata",
  datasetId: "langfuse.experiment.dataset.id", itemId: "langfuse.experiment.item.id", expected: "langfuse.experiment.item.expected_output",
  itemMetadata: "langfuse.experiment.item.metadata", root: "langfuse.experiment.item.root_observation_id",
};
/** answered 200 but without a usable body */
const cutOff = (r) => r.outcome === "truncated" || r.outcome === "nonjson";
/** The j-th evaluation an evaluator of the plan gives. */
function evalOf(e, tag, j) {
  if (e.k === "auto") return { name: `${tag}-${j}`, value: e.v % 3 === 0 ? 0 : e.v / 8, ...(e.v > 4 ? { metadata: { why: tag } } : {}) };
  const extra = [{ value: j + 0.5 }, { value: 0 }, { value: true, dataType: "BOOLEAN" }, { value: false, dataType: "BOOLEAN" }, { value: "cat", dataType: "CATEGORICAL" }, { value: "" }, { value: j - 3.25, metadata: { why: tag, n: 0 } }, { value: 1e9 + j, configId: `cfg-${j}`, metadata: { a: [1] } }][e.v];
  return { name: `${tag}-${j}`, ...extra, ...(e.comment ? { comment: `c ${tag}` } : {}) };
}
const INGEST = "POST /ingestion";
const LINK = "POST /dataset-run-items";

export function generateExperiment(rng) {
  const nRuns = rng.weighted([[5, 1], [2, 2], [1, 3]]);
  const ops = [];
  for (let r = 0; r < nRuns; r++) {
    const n = rng.weighted([[1, 0], [4, rng.int(1, 5)], [3, rng.int(4, 14)], [0.5, rng.int(50, 70)]]);
    const source = rng.weighted([[3, "local"], [2, "local-ids"], [4, "dataset"], [2, "items"]]);
    const items = [];
    for (let i = 0; i < n; i++) {
      const it = { out: rng.weighted([[8, "ok"], [1, "throw"], [0.6, "sync-throw"], [0.5, "undefined"], [0.5, "null"], [0.3, "zero"], [0.3, "empty"], [0.3, "false"], [0.4, "reject-string"]]), d: rng.weighted([[2, 0], [4, rng.int(0, 60)], [1, rng.int(100, 900)], [0.03, rng.pick([31_000, 305_000, 700_000])]]), kids: rng.int(0, 2), tail: rng.int(0, 30) };
      it.input = rng.weighted([[4, `q${r}-${i}`], [3, { q: i, r }], [1, { id: "u1", q: i, r }], [0.5, [i, r]], [1, "same"], [0.6, null], [0.4, "missing"], [0.5, 0]]);
      if (rng.bool(0.6)) it.expected = rng.pick([`e${r}-${i}`, { e: i }, 0, "", "x".repeat(300), "y".repeat(rng.int(900, 5000)), null, false]);
      if (rng.bool(0.4)) it.metadata = rng.weighted([[4, { im: `${r}-${i}` }], [1, { im: i, long: "m".repeat(rng.int(150, 900)), em: "item" }], [0.5, {}], [0.7, { im: { deep: [i, null] }, experiment_name: "mine" }]]);
      if (rng.bool(0.08)) it.selfScore = true;
      items.push(it);
    }
    const ev = () => ({ k: rng.weighted([[5, "one"], [2, "many"], [1, "twin"], [1, "empty"], [1, "throw"], [1, "sync-throw"], [0.7, "flaky"], [1, "auto"]]), v: rng.int(0, 7), d: rng.weighted([[2, 0], [3, rng.int(0, 80)]]), comment: rng.bool(0.3), vandal: rng.bool(0.12) });
    ops.push({
      t: rng.int(0, 400), k: "run", r, source, items,
      conc: rng.weighted([[3, null], [3, 1], [3, rng.int(2, 4)], [1, rng.int(5, 50)]]),
      evals: Array.from({ length: rng.weighted([[2, 0], [4, 1], [2, 2], [1, 3]]) }, ev),
      runEvals: Array.from({ length: rng.weighted([[3, 0], [3, 1], [1, 2]]) }, ev),
      desc: rng.bool(0.3), meta: rng.bool(0.4), named: rng.bool(0.5), version: rng.bool(0.2), ctx: rng.bool(0.25), ctxKind: rng.int(0, 7), inside: rng.bool(0.12), longDesc: rng.bool(0.3),
      format: rng.bool(0.4),
    });
  }
  const calm = rng.bool(0.4);
  const otherOps = Array.from({ length: rng.int(0, 4) }, () => ({ t: rng.int(0, 900), k: "other", d: rng.int(0, 200) }));
  return {
    cfg: { calm, tracing: rng.bool(0.93), until: rng.pick([200, 1500, 100000]), flushAt: rng.pick([null, 1, 5, 200]), projectsDown: !calm && rng.bool(0.25), env: rng.bool(0.2) ? "prod" : null },
    ops: [...ops, ...otherOps].sort((a, b) => a.t - b.t),
  };
}

export async function runExperiment({ sim, plan, bundle }, prop) {
  const { cfg } = plan;
  const fail = (p, clause, detail) => {
    if (p === prop) sim.fail(clause, detail);
  };
  const oblige = (p, n) => p === prop && sim.oblige(n);
  const env = {};
  if (cfg.flushAt) env.LANGFUSE_FLUSH_AT = String(cfg.flushAt);
  const mixOf = (route) => {
    if (cfg.calm || route === "POST /otel") return MIX.calm;
    if (route === "GET /projects" && cfg.projectsDown) return { 503: 3, reset: 2, 400: 1, ok: 1 };
    return { ok: 70, reset: 5, "lost-response": 4, 503: 5, 500: 3, 429: 3, 400: 3, stall: 1, "504-processed": 3, truncated: 2, nonjson: 1, slow: 5 };
  };
  const w = new World(sim, bundle("app"), { mix: mixOf, until: cfg.until, env });
  const p = w.load();
  const processor = cfg.tracing ? new p.otel.LangfuseSpanProcessor({ flushInterval: 1, ...(cfg.env ? { environment: cfg.env } : {}) }) : null;
  if (cfg.tracing) w.startTracing(p, { processor });
  const client = new p.client.LangfuseClient();
  const T = p.tracing;
  const runs = [];
  const others = new Set(); // spans started outside any experiment

  const evalImpl = (st, e, tag, log, onDone) => (params) => {
    log.push({ tag, params, t: sim.now });
    const mk = (j) => evalOf(e, tag, j);
    if (e.k === "sync-throw") throw new Error(`sync evaluator ${tag}`);
    return (async () => {
      await sim.sleep(e.d);
      if (e.k === "throw") throw new Error(`evaluator ${tag}`);
      if (e.k === "flaky" && String(JSON.stringify(params.input ?? "")).length % 2) throw `flaky ${tag}`;
      const out = e.k === "many" ? [mk(0), mk(1)] : e.k === "twin" ? [mk(0), mk(0)] : e.k === "empty" ? [] : mk(0);
      return out;
    })().finally(onDone ?? (() => {}));
  };
  const evalExpect = (e, tag, input) => {
    const mk = (j) => evalOf(e, tag, j);
    if (e.k === "throw" || e.k === "sync-throw") return [];
    if (e.k === "flaky" && String(JSON.stringify(input ?? "")).length % 2) return [];
    return e.k === "many" ? [mk(0), mk(1)] : e.k === "twin" ? [mk(0), mk(0)] : e.k === "empty" ? [] : [mk(0)];
  };

  const doRun = async (op) => {
    const st = { op, tasks: new Map(), evalLog: [], runEvalLog: [], given: [], active: 0, maxActive: 0, kids: [], start: sim.now, scoresExpected: [], reqFrom: w.net.log.length };
    runs.push(st);
    const dsName = `ds-${op.r}`;
    let data = op.items.map((it, i) => {
      const o = {};
      if (it.input !== "missing") o.input = it.input;
      if (it.expected !== undefined) o.expectedOutput = it.expected;
      if (it.metadata) o.metadata = it.metadata;
      if (op.source !== "local") o.id = `item-${op.r}-${i}`;
      if (op.source === "dataset" || op.source === "items") Object.assign(o, { datasetId: `dsid-${op.r}`, datasetName: dsName, status: "ACTIVE" });
      return o;
    });
    let dataset = null;
    if (op.source === "dataset") {
      w.server.datasets.set(dsName, { id: `dsid-${op.r}`, name: dsName, items: data.map((d) => JSON.parse(JSON.stringify(d))) });
      try {
        dataset = await client.dataset.get(dsName, op.version ? { version: "2026-01-01T00:00:00Z" } : undefined);
      } catch {
        st.skipped = true; // dataset could not be read: nothing to run (P14 decides reads)
        sim.cover("dataset-read-failed");
        return;
      }
      data = dataset.items;
      if (data.length !== op.items.length) return void (st.skipped = true);
    }
    st.data = data;
    const indexOf = (item) => {
      // identity for local data; dataset items are matched by id (runExperiment passes its own copies)
      const i = data.indexOf(item);
      if (i >= 0) return i;
      return op.source === "dataset" ? data.findIndex((d) => d.id === item.id) : -1;
    };
    const task = (item) => {
      const i = indexOf(item);
      if (i < 0) {
        fail("P12", "item-identity", `run ${op.r}: task called with an unknown item ${clip(item)}`);
        return Promise.resolve(null);
      }
      const it = op.items[i];
      const rec = { i, t: sim.now, span: p.api.trace.getActiveSpan()?.spanContext() };
      const l = st.tasks.get(i) ?? [];
      l.push(rec);
      st.tasks.set(i, l);
      st.active++;
      st.maxActive = Math.max(st.maxActive, st.active);
      rec.open = true;
      oblige("P12", "concurrency-bound");
      if (st.active > (op.conc ?? 50)) fail("P12", "concurrency-bound", `run ${op.r}: ${st.active} items in progress at ${sim.now}, limit ${op.conc ?? 50}`);
      const closeIfNoEvals = () => {
        rec.taskEnd = sim.now;
        if (op.evals.length === 0 || rec.failed) close(rec);
        else rec.pendingEvals = op.evals.length;
      };
      const close = (r) => {
        if (!r.open) return;
        r.open = false;
        st.active--;
      };
      rec.close = () => close(rec);
      if (it.out === "sync-throw") {
        rec.failed = true;
        closeIfNoEvals();
        throw new Error(`sync task ${i}`);
      }
      return (async () => {
        const kid = (name) => {
          const o = T.startObservation(name, { input: name }, { asType: "tool" });
          if (cfg.tracing) st.kids.push({ i, id: o.otelSpan.spanContext().spanId, traceId: o.otelSpan.spanContext().traceId, name });
          return o;
        };
        const ks = [];
        for (let k = 0; k < it.kids; k++) {
          ks.push(kid(`kid-${op.r}-${i}-${k}`));
          await sim.sleep(it.d);
        }
        if (it.kids === 0) await sim.sleep(it.d);
        await T.startActiveObservation(`inner-${op.r}-${i}`, async (o) => {
          if (cfg.tracing) st.kids.push({ i, id: o.otelSpan.spanContext().spanId, traceId: o.otelSpan.spanContext().traceId, name: `inner-${op.r}-${i}` });
          await sim.sleep(it.tail);
          if (it.selfScore && cfg.tracing) {
            client.score.activeTrace({ name: `self-${op.r}-${i}`, value: 1 });
            st.scoresExpected.push({ name: `self-${op.r}-${i}`, value: 1, i, self: true });
          }
        });
        for (const k of ks) k.end();
        if (["throw", "reject-string"].includes(it.out)) rec.failed = true;
        closeIfNoEvals();
        if (it.out === "throw") throw new Error(`task ${op.r}-${i}`);
        if (it.out === "reject-string") throw `task ${op.r}-${i}`;
        const plain = { undefined: undefined, null: null, zero: 0, empty: "", false: false };
        // items that share their input are told apart by their output
        const own = typeof it.input === "object" ? it.input !== null : String(it.input).startsWith("q");
        rec.output = own && it.out in plain ? plain[it.out] : { answer: `a-${op.r}-${i}` };
        return rec.output;
      })();
    };
    const mkEval = (e, j) => {
      const tag = `ev-${op.r}-${j}`;
      const impl = (params) => {
        // find the item by its output or input
        const cands = [...st.tasks.values()].map((l) => l[0]).filter((r) => r.open && r.pendingEvals > 0 && Object.is(r.output, params.output) && eq(data[r.i].input, params.input) && !(r.seen ??= new Set()).has(j));
        const cand = cands.find((r) => eq(params.expectedOutput, data[r.i].expectedOutput) && eq(params.metadata, data[r.i].metadata)) ?? cands[0];
        if (!cand) fail("P12", "evaluator-params", `evaluator ${tag} called at ${sim.now} with ${clip(params)} which no finished task produced`);
        else {
          cand.seen.add(j);
          oblige("P12", "evaluator-params");
          if (!eq(params.expectedOutput, data[cand.i].expectedOutput) || !eq(params.metadata, data[cand.i].metadata)) fail("P12", "evaluator-params", `evaluator ${tag} for item ${cand.i} got expected ${clip(params.expectedOutput)} metadata ${clip(params.metadata)}`);
        }
        const done = () => {
          if (cand && --cand.pendingEvals === 0) cand.close();
        };
        const key = cand ? cand.i : -1;
        const inner = evalImpl(st, e, `${tag}`, st.evalLog, done);
        st.evalLog.at(-1);
        try {
          const mine = { ...params };
          if (e.vandal) Object.assign(params, { input: "vandal", output: "vandal", expectedOutput: "vandal", metadata: "vandal" });
          const r = inner(mine);
          st.evalLog.at(-1).i = key;
          return r.then((x) => {
            // what an evaluator was handed stays its own while it works, whatever the others do with theirs
            for (const f of ["input", "output", "expectedOutput", "metadata"]) if (!Object.is(params[f], e.vandal ? "vandal" : mine[f])) fail("P12", "evaluator-params", `run ${op.r}: ${f} given to evaluator ${tag} for item ${key} turned from ${clip(mine[f])} into ${clip(params[f])} while it ran`);
            if (x === undefined) return x;
            const given = tagItem(x, key, op);
            st.given.push({ given, copy: JSON.stringify(given), tag });
            return given;
          });
        } catch (err) {
          st.evalLog.at(-1).i = key;
          done();
          throw err;
        }
      };
      return impl;
    };
    const wrapEval = (e, j) => {
      const impl = mkEval(e, j);
      if (e.k !== "auto") return impl;
      // an autoevals-style scorer through the SDK's adapter
      const scorer = async ({ input, output, expected, given }) => {
        if (given !== `g-${op.r}`) fail("P12", "evaluator-params", `run ${op.r}: adapter dropped its own parameters (${clip(given)})`);
        const cand = [...st.tasks.values()].map((l) => l[0]).find((x) => x.open && x.pendingEvals > 0 && Object.is(x.output, output) && eq(data[x.i].input, input) && eq(data[x.i].expectedOutput, expected) && !x.seen?.has(j));
        const out = await impl({ input, output, expectedOutput: expected, metadata: cand && data[cand.i].metadata });
        return { name: out.name, score: out.value === 0 ? null : out.value, metadata: out.metadata };
      };
      return p.client.createEvaluatorFromAutoevals(scorer, { given: `g-${op.r}` });
    };
    const tagItem = (x, i) => (Array.isArray(x) ? x.map((y) => ({ ...y, name: `${y.name}@${i}` })) : { ...x, name: `${x.name}@${i}` });
    const params = { name: `exp-${op.r}`, task, evaluators: op.evals.length ? op.evals.map(wrapEval) : undefined };
    if (op.conc !== null) params.maxConcurrency = op.conc;
    if (op.named) params.runName = `run-${op.r}`;
    const desc = (st.desc = op.desc ? `desc ${op.r}${op.longDesc ? " d".repeat(300) : ""}` : undefined);
    if (op.desc) params.description = desc;
    if (op.meta) params.metadata = { em: `m-${op.r}` };
    if (op.runEvals.length)
      params.runEvaluators = op.runEvals.map((e, j) => (x) => {
        st.runEvalSeen = x.itemResults;
        if (st.active > 0) fail("P12", "run-evaluators-last", `run ${op.r}: run evaluator started while ${st.active} items are in progress`);
        return evalImpl(st, e, `rev-${op.r}-${j}`, st.runEvalLog)(x);
      });
    let call;
    if (dataset) call = () => dataset.runExperiment(params);
    else if (op.ctx) {
      const k = op.ctxKind;
      const context = new p.client.RunnerContext({ client, data: k & 1 ? [{ input: "not this" }] : data, ...(k & 2 ? { metadata: { shared: "ctx", em: "ctx" } } : {}), ...(k & 4 ? { datasetVersion: "2026-02-02T00:00:00Z" } : {}) });
      st.version = op.version ? "2026-03-03T00:00:00Z" : k & 4 ? "2026-02-02T00:00:00Z" : undefined;
      call = () => context.runExperiment({ ...params, ...(k & 1 ? { data } : {}), ...(op.version ? { datasetVersion: "2026-03-03T00:00:00Z" } : {}) });
    }
    else call = () => client.experiment.run({ ...params, data });
    st.ctxMeta = !dataset && op.ctx;
    if (dataset && op.version) st.version = "2026-01-01T00:00:00Z";
    if (op.inside && cfg.tracing) {
      const inner = call;
      call = () =>
        T.startActiveObservation(`around-${op.r}`, (span) => {
          st.around = span.otelSpan.spanContext();
          others.add(st.around.spanId);
          return inner();
        });
    }
    const o = w.op(`run ${op.r}`, call);
    st.o = o;
    o.onSettle = () => settled(st);
  };

  const settled = (st) => {
    const { op, o } = st;
    oblige("P12", "run-settles");
    if (!o.ok) return fail("P12", "run-never-rejects", `run ${op.r} rejected: ${o.error?.stack ?? o.error}`);
    st.result = o.value;
    if (st.active > 0) fail("P12", "waits-for-all", `run ${op.r} resolved at ${sim.now} with ${st.active} items still in progress`);
    // all scores produced by the run are past their final attempt
    const res = o.value;
    const final = scoreStates();
    const names = [...res.itemResults.flatMap((x) => x.evaluations), ...(res.datasetRunId ? res.runEvaluations : [])].map((e) => e.name);
    for (const n of [...names, ...st.scoresExpected.map((s) => s.name)]) {
      oblige("P13", "scores-flushed");
      const s = final.get(n);
      if (!s) return fail("P13", "scores-flushed", `run ${op.r} resolved at ${sim.now} but score ${n} was never sent`);
      if (s.tEnd === undefined) return fail("P13", "scores-flushed", `run ${op.r} resolved at ${sim.now} while score ${n} is still being sent`);
    }
  };
  const scoreStates = () => {
    const m = new Map();
    for (const r of w.net.log) if (r.route === INGEST) for (const e of (r.parsed ??= JSON.parse(r.body)).batch) m.set(e.body.name, r);
    return m;
  };

  for (const op of plan.ops)
    w.at(op.t, `op-${op.k}`, () => {
      if (op.k === "run") doRun(op).catch((e) => sim.fail("harness", String(e?.stack ?? e)));
      else {
        // unrelated traced work next to the experiments
        T.startActiveObservation("other", async (o) => {
          others.add(o.otelSpan.spanContext().spanId);
          await sim.sleep(op.d);
          const c = T.startObservation("other-child");
          others.add(c.otelSpan.spanContext().spanId);
          c.end();
        }).catch((e) => sim.fail("harness", String(e)));
      }
    });
  const end = await sim.run({ horizon: 7_200_000 });
  if (end === "steps") fail("P12", "run-settles", "no quiescence");
  if (processor) {
    w.op("flush", () => processor.forceFlush());
    await sim.run({ horizon: 8_000_000 });
  }
  const sends = sendsBySpan(w.net);
  const scores = new Map();
  for (const r of w.net.log) if (r.route === INGEST) for (const e of (r.parsed ??= JSON.parse(r.body)).batch) (scores.get(e.body.name) ?? scores.set(e.body.name, []).get(e.body.name)).push({ r, e });
  const rootsSeen = new Map();

  for (const st of runs) {
    const { op } = st;
    if (st.skipped) continue;
    if (!st.o.settled) return fail("P12", "run-settles", `run ${op.r} started at ${st.start} never settled`);
    if (!st.o.ok) continue;
    const res = st.result;
    const links = w.net.log.filter((r) => r.route === LINK && r.id > st.reqFrom).map((r) => ({ r, b: (r.parsed ??= JSON.parse(r.body)) }));
    // --- P12 ---
    const expectOk = [];
    for (let i = 0; i < op.items.length; i++) {
      const it = op.items[i];
      const calls = st.tasks.get(i)?.length ?? 0;
      const wantCalls = it.input === "missing" ? 0 : 1;
      oblige("P12", "task-once");
      if (calls !== wantCalls) return fail("P12", "task-once", `run ${op.r}: the task ran ${calls} times for item ${i} (${clip(it)})`);
      if (wantCalls && !["throw", "sync-throw", "reject-string"].includes(it.out)) expectOk.push(i);
    }
    const gotIdx = res.itemResults.map((x) => st.data.findIndex((d, i) => d === x.item || (op.source === "dataset" && d.id === x.item?.id)));
    if (!eq(gotIdx, expectOk)) return fail("P12", "results-complete", `run ${op.r}: results for items ${gotIdx}, tasks succeeded for ${expectOk}`);
    for (let k = 0; k < expectOk.length; k++) {
      const i = expectOk[k];
      const r = res.itemResults[k];
      const t = st.tasks.get(i)[0];
      if (!Object.is(r.output, t.output)) return fail("P12", "results-complete", `run ${op.r} item ${i}: output ${clip(r.output)} is not what the task returned (${clip(t.output)})`);
      const want = op.evals.flatMap((e, j) => evalExpect(e, `ev-${op.r}-${j}`, st.data[i].input)).map((e) => ({ ...e, name: `${e.name}@${i}` }));
      oblige("P12", "evaluations");
      if (!eq(r.evaluations, want)) return fail("P12", "evaluations", `run ${op.r} item ${i}: evaluations ${clip(r.evaluations)}, evaluators gave ${clip(want)}`);
      const ne = st.evalLog.filter((x) => x.i === i).length;
      if (ne !== op.evals.length) return fail("P12", "evaluators-once", `run ${op.r} item ${i}: ${ne} evaluator calls, ${op.evals.length} evaluators`);
      if (cfg.tracing && t.span && r.traceId !== t.span.traceId) return fail("P13", "item-trace", `run ${op.r} item ${i}: result trace ${r.traceId}, the task ran in ${t.span.traceId}`);
    }
    for (const g of st.given) if (JSON.stringify(g.given) !== g.copy) return fail("P12", "evaluations", `run ${op.r}: what evaluator ${g.tag} returned was changed from ${clip(g.copy)} to ${clip(g.given)}`);
    if (st.runEvalLog.length !== op.runEvals.length) return fail("P12", "run-evaluators-once", `run ${op.r}: ${st.runEvalLog.length} run evaluator calls for ${op.runEvals.length} evaluators`);
    const wantRun = op.runEvals.flatMap((e, j) => evalExpect(e, `rev-${op.r}-${j}`, undefined));
    if (!eq(res.runEvaluations, wantRun)) return fail("P12", "run-evaluations", `run ${op.r}: run evaluations ${clip(res.runEvaluations)}, expected ${clip(wantRun)}`);
    if (st.runEvalSeen && !eq(st.runEvalSeen.map((x) => x.traceId), res.itemResults.map((x) => x.traceId))) return fail("P12", "run-evaluations", `run ${op.r}: run evaluators saw ${st.runEvalSeen.length} item results, the run returned ${res.itemResults.length}`);
    if (op.named ? res.runName !== `run-${op.r}` : !res.runName.startsWith(`exp-${op.r} - `)) return fail("P12", "run-name", `run ${op.r} is named ${res.runName}`);
    const wantMeta = st.ctxMeta && op.ctxKind & 2 ? { shared: "ctx", em: "ctx", ...(op.meta ? { em: `m-${op.r}` } : {}) } : op.meta ? { em: `m-${op.r}` } : undefined;

    // --- P13: links ---
    const mine = links.filter((l) => l.b.runName === res.runName);
    const ids = op.source !== "local";
    for (let i = 0; i < op.items.length; i++) {
      const t = st.tasks.get(i)?.[0];
      const l = ids ? mine.filter((x) => x.b.datasetItemId === `item-${op.r}-${i}`) : [];
      if (!t || !ids) continue;
      oblige("P13", "linked");
      if (!l.length) return fail("P13", "linked", `run ${op.r}: dataset item ${i} was never linked to the run`);
      for (let k = 1; k < l.length; k++) {
        const prev = l[k - 1].r;
        if (!(prev.tEnd <= l[k].r.t && (prev.status === 408 || prev.status === 429 || prev.status >= 500))) return fail("P13", "linked", `run ${op.r}: item ${i} linked again in request ${l[k].r.id} after request ${prev.id} ended with ${prev.status}`);
      }
      for (const { b } of l) {
        if (cfg.tracing && (b.traceId !== t.span?.traceId || b.observationId !== t.span?.spanId)) return fail("P13", "linked", `run ${op.r}: item ${i} linked to trace ${b.traceId}/${b.observationId}, its task ran in ${t.span?.traceId}/${t.span?.spanId}`);
        if (!eq(b.metadata, wantMeta) || (b.runDescription ?? undefined) !== st.desc) return fail("P13", "linked", `run ${op.r}: item ${i} linked with ${clip(b)}`);
        if ((b.datasetVersion ?? undefined) !== st.version) return fail("P13", "linked", `run ${op.r}: item ${i} linked with dataset version ${b.datasetVersion}, expected ${st.version}: ${clip(b)}`);
      }
      t.linked = l.at(-1).r.status === 200 && !cutOff(l.at(-1).r) ? w.server.runs.get(res.runName) : null;
      if (cutOff(l.at(-1).r)) t.unsure = true;
    }
    const okLinks = expectOk.map((i) => st.tasks.get(i)[0]);
    const anyUnsure = okLinks.some((t) => t.unsure);
    if (ids && !anyUnsure) {
      const want = okLinks.some((t) => t.linked) ? w.server.runs.get(res.runName) : undefined;
      if ((res.datasetRunId ?? undefined) !== want) return fail("P13", "run-id", `run ${op.r}: result has datasetRunId ${res.datasetRunId}, server has ${want}`);
    } else if (!ids && res.datasetRunId) return fail("P13", "run-id", `run ${op.r}: local data but datasetRunId ${res.datasetRunId}`);
    if (res.datasetRunUrl !== undefined) {
      const wantUrl = `https://lf.sim/project/proj-sim/datasets/dsid-${op.r}/runs/${res.datasetRunId}`;
      if (res.datasetRunUrl !== wantUrl) return fail("P13", "run-url", `run ${op.r}: ${res.datasetRunUrl}, expected ${wantUrl}`);
    } else if (cfg.calm && res.datasetRunId && ["dataset", "items"].includes(op.source)) return fail("P13", "run-url", `run ${op.r}: no run URL`);
    // --- P13: scores ---
    for (const i of expectOk) {
      const t = st.tasks.get(i)[0];
      for (const e of res.itemResults[expectOk.indexOf(i)].evaluations) {
        const s = scores.get(e.name);
        if (!s) return fail("P13", "scores", `run ${op.r} item ${i}: evaluation ${e.name} was never sent as a score`);
        oblige("P13", "score-attribution");
        const n = res.itemResults[expectOk.indexOf(i)].evaluations.filter((x) => x.name === e.name).length;
        const ids = new Set(s.map((x) => x.e.body.id));
        if (ids.size !== n || new Set(s.map((x) => x.e.id)).size !== n) return fail("P13", "scores", `evaluation ${e.name}, given ${n} times, was recorded as ${ids.size} scores`);
        const b = s[0].e.body;
        if (["value", "comment", "dataType", "metadata", "configId"].some((f) => !eq(b[f] ?? undefined, e[f]))) return fail("P13", "scores", `evaluation ${e.name}: sent ${clip(b)}, evaluator gave ${clip(e)}`);
        if (cfg.tracing && (b.traceId !== t.span.traceId || b.observationId !== t.span.spanId)) return fail("P13", "score-attribution", `evaluation ${e.name} of item ${i} recorded on ${b.traceId}/${b.observationId}, the item ran in ${t.span.traceId}/${t.span.spanId}`);
      }
    }
    for (const e of res.runEvaluations) {
      const s = scores.get(e.name);
      if (res.datasetRunId ? !s || s[0].e.body.datasetRunId !== res.datasetRunId : s) return fail("P13", "score-attribution", `run evaluation ${e.name} of run ${res.datasetRunId}: sent ${clip(s?.[0].e.body)}`);
      if (s && ["value", "comment", "dataType", "metadata", "configId"].some((f) => !eq(s[0].e.body[f] ?? undefined, e[f]))) return fail("P13", "scores", `run evaluation ${e.name}: sent ${clip(s[0].e.body)}, evaluator gave ${clip(e)}`);
      if (s && (s[0].e.body.traceId || s[0].e.body.observationId)) return fail("P13", "score-attribution", `run evaluation ${e.name} was recorded on trace ${s[0].e.body.traceId} instead of the run`);
      const n = res.runEvaluations.filter((x) => x.name === e.name).length;
      if (s && [(x) => x.e.id, (x) => x.e.body.id].some((f) => new Set(s.map(f)).size !== n)) return fail("P13", "scores", `run evaluation ${e.name}, given ${n} times, was recorded as ${new Set(s.map((x) => x.e.body.id)).size} scores`);
    }
    // --- P13: traces ---
    if (cfg.tracing) {
      const localIds = new Set();
      for (let i = 0; i < op.items.length; i++) {
        const t = st.tasks.get(i)?.[0];
        if (!t) continue;
        if (!t.span) return fail("P13", "item-trace", `run ${op.r} item ${i}: no active observation while the task runs`);
        if (st.around ? t.span.traceId !== st.around.traceId : rootsSeen.has(t.span.traceId)) return fail("P13", "item-trace", `run ${op.r} item ${i} shares trace ${t.span.traceId} with ${rootsSeen.get(t.span.traceId)}`);
        if (rootsSeen.has(t.span.spanId)) return fail("P13", "item-trace", `run ${op.r} item ${i} shares its observation with ${rootsSeen.get(t.span.spanId)}`);
        rootsSeen.set(t.span.spanId, `run ${op.r} item ${i}`);
        rootsSeen.set(t.span.traceId, `run ${op.r} item ${i}`);
        const l = sends.get(t.span.spanId);
        if (!l) return fail("P13", "item-trace", `run ${op.r} item ${i}: its observation was never exported`);
        const s = l[0].s;
        oblige("P13", "root-span");
        const failed = ["throw", "sync-throw", "reject-string"].includes(op.items[i].out);
        const item = st.data[i];
        if ((s.parentSpanId || undefined) !== st.around?.spanId) return fail("P13", "item-trace", `run ${op.r} item ${i}: its observation has the parent ${s.parentSpanId}, the run was started inside ${st.around?.spanId}`);
        const want = {
          [A.environment]: "sdk-experiment", [X.name]: res.runName, [X.metadata]: ser(wantMeta), [X.root]: t.span.spanId,
          [X.itemMetadata]: ser(item.metadata), [X.datasetId]: item.datasetId,
          [X.itemId]: item.id ?? nodeCrypto.createHash("sha256").update(ser(item.input) ?? "").digest("hex").slice(0, 16),
        };
        const rootWant = { ...want, [X.description]: st.desc, [X.expected]: ser(item.expectedOutput) || undefined };
        if (!failed) {
          rootWant[A.input] = ser(item.input);
          rootWant[A.output] = ser(t.output);
          const m = { ...item.metadata, ...wantMeta, experiment_name: `exp-${op.r}`, experiment_run_name: res.runName, ...(item.datasetId && item.id ? { dataset_id: item.datasetId, dataset_item_id: item.id } : {}) };
          for (const [k, v] of Object.entries(m)) rootWant[`${A.metadata}.${k}`] = ser(v);
          const odd = Object.keys(s.attributes).find((k) => k.startsWith(`${A.metadata}.`) && !(k in rootWant));
          if (odd) return fail("P13", "attributes", `run ${op.r} item ${i}: unexpected ${odd} = ${clip(s.attributes[odd])}`);
        } else if (s.status?.code !== 2) return fail("P13", "item-trace", `run ${op.r} item ${i}: failed task not recorded as an error (${clip(s.status)})`);
        for (const [k, v] of Object.entries(rootWant)) if (!eq(s.attributes[k], v)) return fail("P13", "attributes", `run ${op.r} item ${i}: ${k} is ${clip(s.attributes[k])}, expected ${clip(v)}`);
        if (!t.unsure) {
          const id = s.attributes[X.id];
          if (t.linked) {
            if (id !== t.linked) return fail("P13", "attributes", `run ${op.r} item ${i}: experiment id ${id}, server run is ${t.linked}`);
          } else localIds.add(id);
        }
        for (const kid of st.kids.filter((x) => x.i === i)) {
          const kl = sends.get(kid.id);
          if (!kl) return fail("P13", "attributes", `run ${op.r}: ${kid.name} was never exported`);
          oblige("P13", "child-span");
          if (kid.traceId !== t.span.traceId || kl[0].s.parentSpanId !== t.span.spanId) return fail("P13", "attributes", `run ${op.r}: ${kid.name} belongs to item ${i} but was recorded in ${rootsSeen.get(kid.traceId) ?? kid.traceId}`);
          for (const [k, v] of Object.entries({ ...want, [X.id]: s.attributes[X.id] })) if (!eq(kl[0].s.attributes[k], v)) return fail("P13", "attributes", `run ${op.r}: ${kid.name}: ${k} is ${clip(kl[0].s.attributes[k])}, its item gives ${clip(v)}`);
        }
      }
      if (localIds.size > 1) return fail("P13", "attributes", `run ${op.r}: unlinked items carry different experiment ids ${[...localIds]}`);
      if (!res.datasetRunId && localIds.size === 1 && ![...localIds].includes(res.experimentId)) return fail("P13", "attributes", `run ${op.r}: items carry experiment id ${[...localIds]}, the result says ${res.experimentId}`);
    }
    for (const s of st.scoresExpected) {
      const l = scores.get(s.name);
      if (!l || l[0].e.body.traceId !== st.tasks.get(s.i)[0].span.traceId) return fail("P13", "score-attribution", `score ${s.name} given inside the task of item ${s.i} recorded on ${l?.[0].e.body.traceId}`);
    }
    if (op.format && cfg.calm) {
      const f = w.op("format", () => res.format({ includeItemResults: true }));
      await sim.run({ horizon: sim.now + 600000 });
      if (!f.ok) return fail("P12", "format", `format() failed: ${f.error?.stack ?? f.error}`);
      if (expectOk.length) {
        oblige("P12", "format");
        const show = (v) => (typeof v === "string" ? (v.length > 50 ? `${v.slice(0, 47)}...` : v) : JSON.stringify(v));
        const byName = new Map();
        for (const e of res.itemResults.flatMap((x) => x.evaluations)) if (typeof e.value === "number") byName.set(e.name, [...(byName.get(e.name) ?? []), e.value]);
        const lines = [`\n${expectOk.length} items`, res.runName, ...[...byName].map(([n, v]) => `\n  • ${n}: ${(v.reduce((a, b) => a + b, 0) / v.length).toFixed(3)}`), ...res.runEvaluations.map((e) => `\n  • ${e.name}: ${typeof e.value === "number" ? e.value.toFixed(3) : e.value}`)];
        const overview = f.value.slice(f.value.lastIndexOf("🧪 Experiment:"));
        for (const x of lines) if (!overview.includes(x)) return fail("P12", "format", `report of run ${op.r} does not say ${clip(x)}: ${clip(overview, 600)}`);
        const blocks = f.value.split(/\n\d+\. Item \d+:\n/).slice(1);
        if (blocks.length !== expectOk.length) return fail("P12", "format", `report lists ${blocks.length} items, results have ${expectOk.length}`);
        for (let k = 0; k < blocks.length; k++) {
          const i = expectOk[k];
          const inp = st.data[i].input;
          const m = /Input: {4}(.*)/.exec(blocks[k])?.[1];
          const want = show(inp);
          if (m !== want) return fail("P12", "format", `report entry ${k + 1} shows input ${m} next to the output of item ${i} whose input is ${want}`);
          const exp = st.data[i].expectedOutput ?? null;
          const shown = exp === null ? "null" : show(exp);
          const gotExp = /Expected: (.*)/.exec(blocks[k])?.[1];
          if (gotExp !== shown) return fail("P12", "format", `report entry ${k + 1} expects ${gotExp}, item ${i} expects ${shown}`);
          for (const e of res.itemResults[k].evaluations) {
            const line = `     • ${e.name}: ${typeof e.value === "number" ? e.value.toFixed(3) : e.value}${e.comment ? `\n       💭 ${e.comment}` : ""}\n`;
            if (!blocks[k].includes(line)) return fail("P12", "format", `report entry ${k + 1} does not show ${clip(line)}`);
          }
          if (!blocks[k].includes(`/traces/${res.itemResults[k].traceId}\n`)) return fail("P12", "format", `report entry ${k + 1} does not link trace ${res.itemResults[k].traceId}`);
          const act = /Actual: {3}(.*)/.exec(blocks[k])?.[1];
          const out = st.tasks.get(i)[0].output;
          if (act !== String(show(out))) return fail("P12", "format", `report entry ${k + 1} shows output ${act}, item ${i} gave ${JSON.stringify(out)}`);
        }
      }
    }
  }
  for (const id of others) {
    const l = sends.get(id);
    if (l && Object.keys(l[0].s.attributes).some((k) => k.startsWith("langfuse.experiment"))) return fail("P13", "no-bleed", `an observation outside every experiment carries experiment attributes: ${clip(l[0].s.attributes)}`);
  }
}
