// P19: the Vercel AI SDK integration mirrors every AI SDK operation, with its runtime context and prompt links.
// The real `ai` package drives the integration; an unmodified @ai-sdk/otel instance on a separate tracer is the reference.
import { World, MIX, clip } from "../harness.mjs";
import { A, sendsBySpan, checkNoDuplicates } from "../lib/tracing.mjs";

const dur = (rng) => rng.weighted([[3, 0], [4, rng.int(0, 30)], [1, rng.int(40, 400)]]);

function genCtx(rng, i) {
  if (rng.bool(0.2)) return undefined;
  const c = {};
  const val = (k) =>
    rng.weighted([
      [3, `${k}-${i}`],
      [2, { a: `${k}-${i}`, n: rng.int(0, 9), deep: { l: [1, null] } }],
      [1, rng.int(-3, 9)],
      [1, rng.bool(0.5)],
      [1, null],
      [0.7, [`${k}-${i}`, "x"]],
      [0.5, ""],
      [0.3, "@bigint"],
      [0.4, "@long"],
      [0.4, "@date"],
      [0.3, "@undefined"],
      [0.3, "@function"],
    ]);
  for (const k of ["feature", "route", "dotted.key"]) if (rng.bool(0.55)) c[k] = { v: val(k), in: rng.bool(0.75) };
  if (rng.bool(0.6))
    c.langfusePrompt = {
      in: rng.bool(0.9),
      v: rng.weighted([
        [5, { name: `prompt-${i}`, version: rng.int(0, 9) }],
        [2, { name: `prompt-${i}`, version: rng.int(1, 9), isFallback: false }],
        [2, { name: `prompt-${i}`, version: 3, isFallback: true }],
        [1, { name: `prompt-${i}`, version: "3" }],
        [0.5, { version: 3 }],
        [0.5, `prompt-${i}`],
        [0.5, null],
        [0.5, [`prompt-${i}`, 3]],
        [2, { "@client": `prompt-${i}`, version: rng.int(1, 9), fallback: rng.bool(0.3) }], // what langfuse.prompt.get() returned
      ]),
    };
  return c;
}

function genOp(rng, i) {
  const kind = rng.weighted([[5, "generateText"], [5, "streamText"], [2, "generateObject"], [2, "streamObject"], [1.5, "embed"], [1.5, "embedMany"], [1.5, "rerank"]]);
  const text = kind === "generateText" || kind === "streamText";
  const op = {
    i, kind,
    t: rng.weighted([[2, 0], [3, rng.int(0, 200)]]),
    scope: rng.bool(0.6),
    attrs: rng.bool(0.4),
    integ: rng.weighted([[2, "own"], [3, "shared"], [2, "global"]]),
    refFirst: rng.bool(0.5),
    fid: rng.bool(0.7),
    rin: rng.weighted([[4, null], [1, false], [1, true]]),
    rout: rng.weighted([[4, null], [1, false], [1, true]]),
    twin: rng.bool(0.3),
    ctx: genCtx(rng, i),
    steps: [],
  };
  const n = text ? rng.weighted([[3, 1], [3, 2], [1, 3]]) : 1;
  for (let k = 0; k < n; k++) {
    const last = k === n - 1;
    op.steps.push({
      d: dur(rng),
      chunks: rng.int(1, 4),
      fail: rng.bool(last ? 0.12 : 0.04) ? rng.weighted([[3, "error"], [1, "string"], [2, "stream"]]) : null,
      retry: rng.bool(0.08),
      inner: rng.bool(0.5),
      system: rng.bool(0.3),
      fin: rng.weighted([[6, null], [1, "length"], [1, "content-filter"], [1, "error"], [1, "other"]]),
      tools: last && !rng.bool(0.08) ? [] : Array.from({ length: rng.int(1, 3) }, () => ({ d: dur(rng), fail: rng.bool(0.1), inner: rng.bool(0.5), unknown: rng.bool(0.04) })),
    });
  }
  if (text && rng.bool(0.15)) op.ctxAt = { step: rng.int(0, n - 1), ctx: genCtx(rng, `${i}b`) };
  if (text && rng.bool(0.15)) op.abortAt = rng.int(0, 300);
  if (kind === "streamText" || kind === "streamObject") op.stopAfter = rng.bool(0.12) ? rng.int(0, 3) : null;
  if (kind === "embedMany") {
    op.values = rng.int(1, 6);
    op.per = rng.int(1, 3);
    op.parallel = rng.bool(0.6);
  }
  return op;
}

class PromptClient {
  constructor(name, version, isFallback) {
    Object.assign(this, { name, version, isFallback, config: {}, labels: [] });
  }
  compile() {}
}
const special = (v) => {
  if (v === "@bigint") return { b: 10n };
  if (v === "@long") return { text: "lorem ipsum ".repeat(400) };
  if (v === "@date") return new Date(1_700_000_000_000);
  if (v?.["@client"]) return new PromptClient(v["@client"], v.version, v.fallback);
  if (v === "@undefined") return undefined;
  if (v === "@function") return () => 1;
  return v;
};
const ctxObj = (c) => c && Object.fromEntries(Object.entries(c).map(([k, x]) => [k, special(x.v)]));
const hidden = (c, i) => Object.keys(c ?? {}).filter((k) => !c[k].in);

/** Reference: what a runtime context (already restricted to the included keys) puts on a span of a kind. */
function model(type, ctx) {
  const out = {};
  for (const [k, v] of Object.entries(ctx ?? {})) {
    if (k === "langfusePrompt") {
      const ok = v && typeof v === "object" && !Array.isArray(v) && typeof v.name === "string" && typeof v.version === "number" && v.isFallback !== true;
      if (ok && ["languageModel", "embedding", "reranking"].includes(type)) Object.assign(out, { [A.promptName]: v.name, [A.promptVersion]: v.version });
      continue;
    }
    let s;
    if (typeof v === "string") s = v;
    else if (v !== null && v !== undefined) {
      try {
        s = JSON.stringify(v);
      } catch {
        s = "<failed to serialize>";
      }
    }
    if (s !== undefined) out[`${A.metadata}.${k}`] = s;
  }
  return out;
}

export default {
  id: "P19",
  bundles: ["vercel"],
  shrink: ["ops"],
  runs: { quick: 3000, thorough: 60000 },
  components: {
    real: ["@langfuse/vercel-ai-sdk integration", "ai 7 (generateText, streamText, generateObject, streamObject, embed, embedMany, rerank) and @ai-sdk/otel", "@langfuse/tracing, @langfuse/core propagation, @langfuse/otel span processor", "OpenTelemetry SDK, context manager and exporter"],
    stub: ["model providers and tool bodies (seeded delays, chunks, errors, aborts)", "network and Langfuse server (reference model)", "clock, timers, randomness"],
  },
  generate(rng) {
    const n = rng.weighted([[2, 1], [4, rng.int(2, 4)], [1, rng.int(4, 7)]]);
    const ops = Array.from({ length: n }, (_, i) => genOp(rng, i)).sort((a, b) => a.t - b.t);
    return { cfg: { tracerOption: rng.bool(0.2), all: rng.bool(0.2) }, ops };
  },
  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    const w = new World(sim, bundle("vercel"), { mix: MIX.calm });
    const p = w.load();
    const processor = new p.otel.LangfuseSpanProcessor({ exportMode: "batched", flushInterval: 1, ...(cfg.all ? { shouldExportSpan: () => true } : {}) });
    const { provider } = w.startTracing(p, { processor });
    const T = p.tracing;
    const { ai } = p;

    // ---- the reference: the plain OpenTelemetry integration on its own tracer, callbacks only ----
    const refSpans = [];
    const refProvider = new p.sdk.BasicTracerProvider({
      spanProcessors: [{ onStart() {}, onEnd: (s) => refSpans.push(s), forceFlush: async () => {}, shutdown: async () => {} }],
    });
    const makeRef = () => {
      const r = new ai.OpenTelemetry({
        tracer: refProvider.getTracer("ref"),
        enrichSpan: ({ spanType, runtimeContext, callId, operationId }) => ({ "ref.type": spanType, "ref.op": operationId, "ref.call": callId, "ref.ctx": JSON.stringify(model(spanType, runtimeContext)) }),
      });
      const o = {};
      for (const k of ["onStart", "onStepStart", "onLanguageModelCallStart", "onLanguageModelCallEnd", "onToolExecutionStart", "onToolExecutionEnd", "onStepEnd", "onObjectStepStart", "onObjectStepEnd", "onEmbedStart", "onEmbedEnd", "onRerankStart", "onRerankEnd", "onEnd", "onAbort", "onError"]) o[k] = (e) => r[k](e?.runtimeContext ? { ...e, runtimeContext: { ...e.runtimeContext } } : e); // a copy: whatever another integration does to its event
      return o;
    };
    const makeIntegration = () => new p.vercel.LangfuseVercelAiSdkIntegration(cfg.tracerOption ? { tracer: provider.getTracer("ai") } : undefined);
    const sharedI = makeIntegration();
    const sharedR = makeRef();
    ai.registerTelemetry(makeIntegration(), makeRef());

    // ---- scripted models and tools ----
    const usage = (n) => ({ inputTokens: { total: 10 + n, noCache: 10 + n, cacheRead: undefined, cacheWrite: undefined }, outputTokens: { total: 5 + n, text: 5 + n, reasoning: undefined } });
    const finish = (s) => ({ unified: s.tools.length ? "tool-calls" : (s.fin ?? "stop"), raw: s.fin ?? "raw" });
    const inners = []; // observations the application starts inside models and tools
    const inner = (rec, name, where) => {
      if (rec.isTwin) return;
      const o = T.startObservation(name, { input: name });
      inners.push({ rec, name, where, id: o.id });
      o.end();
    };
    const boom = (op, k, how) => (how === "string" ? `text boom-${op.i}-${k}` : new Error(`boom-${op.i}-${k}`));
    const makeModel = (op, rec) => {
      const object = op.kind.endsWith("Object");
      const tried = new Set();
      const next = async (signal) => {
        const k = rec.calls;
        const s = op.steps[Math.min(k, op.steps.length - 1)];
        if (s.inner) inner(rec, `in-model-${op.i}-${k}`, { kind: "model" });
        await sim.sleep(s.d);
        if (s.inner) inner(rec, `in-model-${op.i}-${k}-b`, { kind: "model" });
        signal?.throwIfAborted();
        if (s.retry && !tried.has(k)) {
          tried.add(k);
          throw new ai.APICallError({ message: "busy", url: "u", requestBodyValues: {}, statusCode: 503, isRetryable: true });
        }
        rec.calls++;
        if (s.fail && s.fail !== "stream") throw boom(op, k, s.fail);
        return { s, k };
      };
      const toolCalls = (s, k) => s.tools.map((tl, j) => ({ type: "tool-call", toolCallId: `tc-${op.i}${rec.isTwin ? "t" : ""}-${k}-${j}`, toolName: tl.unknown ? "nosuch" : `tool-${j}`, input: JSON.stringify({ q: `targ-${op.i}-${k}-${j}` }) }));
      return {
        specificationVersion: "v4",
        provider: "sim.chat",
        modelId: `m-${op.i}`,
        supportedUrls: {},
        async doGenerate({ abortSignal }) {
          const { s, k } = await next(abortSignal);
          if (s.fail) throw boom(op, k);
          const content = object ? [{ type: "text", text: JSON.stringify({ v: `out-${op.i}` }) }] : [{ type: "text", text: `out-${op.i}-${k}` }, ...toolCalls(s, k)];
          return { content, finishReason: finish(s), usage: usage(k), warnings: [], response: { id: `r-${op.i}-${k}`, modelId: `served-${op.i}` } };
        },
        async doStream({ abortSignal }) {
          const { s, k } = await next(abortSignal);
          const parts = [{ type: "stream-start", warnings: [] }, { type: "response-metadata", id: `r-${op.i}-${k}`, modelId: `served-${op.i}` }, { type: "text-start", id: "0" }];
          const whole = object ? JSON.stringify({ v: `out-${op.i}` }) : `out-${op.i}-${k}`;
          const at = Math.ceil(whole.length / s.chunks);
          for (let c = 0; c < whole.length; c += at) parts.push({ type: "text-delta", id: "0", delta: whole.slice(c, c + at) });
          if (s.fail) parts.push({ type: "error", error: boom(op, k) });
          else parts.push({ type: "text-end", id: "0" }, ...(object ? [] : toolCalls(s, k)), { type: "finish", finishReason: finish(s), usage: usage(k) });
          let n = 0;
          return {
            stream: new ReadableStream({
              async pull(c) {
                if (n && s.d) await sim.sleep(s.d >> 2);
                if (abortSignal?.aborted) return c.error(abortSignal.reason);
                if (n < parts.length) c.enqueue(parts[n++]);
                else c.close();
              },
            }),
          };
        },
      };
    };
    const makeTools = (op, rec) =>
      Object.fromEntries(
        [0, 1, 2].map((j) => [
          `tool-${j}`,
          ai.tool({
            description: "d",
            inputSchema: ai.jsonSchema({ type: "object", properties: { q: { type: "string" } } }),
            execute: async ({ q }, { toolCallId }) => {
              const [, , k, jj] = toolCallId.split("-");
              const tl = op.steps[Math.min(+k, op.steps.length - 1)].tools[jj];
              if (tl.inner) inner(rec, `in-tool-${toolCallId}`, { kind: "tool", toolCallId });
              await sim.sleep(tl.d);
              if (tl.inner) inner(rec, `in-tool-${toolCallId}-b`, { kind: "tool", toolCallId });
              if (tl.fail) throw new Error(`tool-boom-${toolCallId}`);
              return { r: `tres-${op.i}(${q})` };
            },
          }),
        ]),
      );

    // ---- the application ----
    const call = async (op, rec) => {
      rec.calls = 0;
      const telemetry = rec.isTwin
        ? { isEnabled: false }
        : {
            isEnabled: true,
            ...(op.fid ? { functionId: `fn-${op.i}` } : {}),
            ...(op.rin !== null ? { recordInputs: op.rin } : {}),
            ...(op.rout !== null ? { recordOutputs: op.rout } : {}),
            ...(op.integ === "global" ? {} : { integrations: op.integ === "shared" ? (op.refFirst ? [sharedR, sharedI] : [sharedI, sharedR]) : op.refFirst ? [makeRef(), makeIntegration()] : [makeIntegration(), makeRef()] }),
          };
      const ctx = ctxObj(op.ctx);
      const ctx2 = ctxObj(op.ctxAt?.ctx);
      const include = {};
      for (const c of [op.ctxAt?.ctx, op.ctx]) for (const [k, x] of Object.entries(c ?? {})) include[k] = x.in; // the first context decides
      const common = { telemetry, maxRetries: 1 };
      const model = makeModel(op, rec);
      const prompt = `prompt-text-${op.i}`;
      const ac = op.abortAt != null ? new AbortController() : null;
      if (ac) sim.schedule(op.abortAt, "abort", () => ac.abort(new DOMException(`abort-${op.i}`, "AbortError")));
      if (op.kind === "generateText" || op.kind === "streamText") {
        const args = {
          ...common,
          model, prompt,
          ...(op.steps[0].system ? { instructions: `sys-${op.i}` } : {}),
          tools: makeTools(op, rec),
          stopWhen: ai.isStepCount(op.steps.length),
          ...(ac ? { abortSignal: ac.signal } : {}),
          ...(ctx ? { runtimeContext: ctx } : {}),
          telemetry: { ...telemetry, includeRuntimeContext: include },
          ...(op.ctxAt ? { prepareStep: ({ stepNumber }) => (stepNumber >= op.ctxAt.step && ctx2 ? { runtimeContext: ctx2 } : undefined) } : {}),
        };
        if (op.kind === "generateText") {
          const r = await ai.generateText(args);
          return { text: r.text, steps: r.steps.map((s) => [s.text, s.toolResults.map((x) => x.output), s.finishReason]), usage: r.totalUsage };
        }
        const errors = [];
        const r = ai.streamText({ ...args, onError: ({ error }) => void errors.push(String(error?.message ?? error)) });
        const got = [];
        for await (const c of r.textStream) {
          got.push(c);
          if (op.stopAfter != null && got.length > op.stopAfter) return { stopped: got };
        }
        const t = await Promise.resolve(r.text).then((x) => x, (e) => `err:${e?.name}`);
        return { got, t, errors };
      }
      const schema = ai.jsonSchema({ type: "object", properties: { v: { type: "string" } } });
      if (op.kind === "generateObject") return { object: (await ai.generateObject({ ...common, model, prompt, schema })).object };
      if (op.kind === "streamObject") {
        const errors = [];
        const r = ai.streamObject({ ...common, model, prompt, schema, onError: ({ error }) => void errors.push(String(error?.message ?? error)) });
        Promise.resolve(r.object).catch(() => {});
        const got = [];
        for await (const c of r.partialObjectStream) {
          got.push(JSON.stringify(c));
          if (op.stopAfter != null && got.length > op.stopAfter) return { stopped: got };
        }
        return { got, errors };
      }
      const s = op.steps[0];
      const body = async (k) => {
        await sim.sleep(s.d * (k ? 2 : 1));
        rec.calls++;
        if (s.fail && (op.kind !== "embedMany" || k === 0)) throw boom(op, k, s.fail);
      };
      if (op.kind === "rerank")
        return {
          ranking: (
            await ai.rerank({ ...common, query: `query-${op.i}`, documents: [`doc-a-${op.i}`, `doc-b-${op.i}`], model: { specificationVersion: "v4", provider: "sim.rerank", modelId: `m-${op.i}`, async doRerank() { await body(0); return { ranking: [{ index: 1, relevanceScore: 0.9 }, { index: 0, relevanceScore: 0.1 }] }; } } })
          ).ranking,
        };
      let ec = 0;
      const em = {
        specificationVersion: "v4", provider: "sim.embed", modelId: `m-${op.i}`, maxEmbeddingsPerCall: op.per ?? 1, supportsParallelCalls: !!op.parallel,
        async doEmbed({ values }) {
          await body(ec++);
          return { embeddings: values.map((v) => [v.length, op.i]), usage: { tokens: values.length }, warnings: [] };
        },
      };
      if (op.kind === "embed") return { e: (await ai.embed({ ...common, model: em, value: `val-${op.i}` })).embedding };
      return { e: (await ai.embedMany({ ...common, model: em, values: Array.from({ length: op.values }, (_, k) => `val-${op.i}-${k}`) })).embeddings };
    };
    const attempt = async (op, rec) => {
      try {
        rec.value = await call(op, rec);
        rec.ok = true;
      } catch (e) {
        rec.ok = false;
        rec.error = e;
      }
    };
    const recs = [];
    const begin = (op) => {
      const rec = { op, scope: null };
      recs.push(rec);
      const run = async () => {
        if (!op.scope) await attempt(op, rec);
        else
          await T.startActiveObservation(`scope-${op.i}`, async (s) => {
            rec.scope = s.otelSpan.spanContext();
            await attempt(op, rec);
          });
        if (op.twin) {
          rec.twin = { isTwin: true };
          await attempt(op, rec.twin);
        }
        rec.tDone = sim.now;
      };
      const go = () => (op.attrs ? T.propagateAttributes({ userId: `au-${op.i}`, sessionId: `as-${op.i}` }, run) : run());
      go().catch((e) => sim.fail("harness", String(e?.stack ?? e)));
    };
    for (const t of new Set(plan.ops.map((o) => o.t))) w.at(t, "call", () => plan.ops.filter((o) => o.t === t).forEach(begin));
    const end = await sim.run({ horizon: 600_000 });
    if (end === "steps") sim.fail("settles", "no quiescence");
    w.op("flush", () => processor.forceFlush());
    await sim.run({ horizon: 700_000 });

    // ---- outcomes ----
    const show = (x) => (x.ok ? JSON.stringify(x.value) : `${x.error?.name ?? ""} ${x.error?.message ?? x.error}`);
    for (const rec of recs) {
      const { op } = rec;
      if (rec.tDone === undefined) return sim.fail("settles", `call ${op.i} (${op.kind}) never settled`);
      sim.oblige("settles");
      if (rec.twin) {
        const norm = (x) => show(x).replaceAll(`tc-${op.i}t-`, `tc-${op.i}-`);
        if (norm(rec) !== norm(rec.twin) && op.abortAt == null) return sim.fail("transparent", `${op.kind} ${op.i} gave ${clip(show(rec))} with telemetry and ${clip(show(rec.twin))} without`);
        sim.oblige("transparent");
      }
      sim.cover(`${op.kind}-${rec.ok ? "ok" : "failed"}`);
    }

    // ---- recording ----
    const sends = sendsBySpan(w.net);
    checkNoDuplicates(sim, sends, (x) => x);
    const spans = [...sends.values()].map((l) => l[0].s);
    const byId = new Map(spans.map((s) => [s.spanId, s]));
    const scopes = new Map(recs.filter((r) => r.scope).map((r) => [r.scope.spanId, r]));
    const innerIds = new Map(inners.map((x) => [x.id, x]));
    const mine = spans.filter((s) => !scopes.has(s.spanId) && !innerIds.has(s.spanId));
    const LF = /^(langfuse\.|user\.id$|session\.id$)/;
    const own = (o) => Object.fromEntries(Object.entries(o).filter(([k]) => !LF.test(k) && !k.startsWith("ref.")).sort());
    const plain = (v) => JSON.parse(JSON.stringify(v));
    const E = refSpans.map((s) => {
      const c = s.spanContext();
      return {
        id: c.spanId, parent: s.parentSpanContext?.spanId ?? s.parentSpanId, name: s.name, type: s.attributes["ref.type"],
        start: s.startTime[0] * 1e3 + s.startTime[1] / 1e6, end: s.endTime[0] * 1e3 + s.endTime[1] / 1e6,
        attrs: plain(own(s.attributes)), lf: JSON.parse(s.attributes["ref.ctx"]), failed: s.status.code === 2, i: null,
      };
    });
    const eById = new Map(E.map((e) => [e.id, e]));
    const kids = (list, parentOf, known) => {
      const m = new Map();
      for (const x of list) {
        const par = parentOf(x);
        const key = par === undefined || par === "" ? "top" : scopes.has(par) ? `scope:${par}` : known.has(par) ? par : "open";
        m.set(key, [...(m.get(key) ?? []), x]);
      }
      return m;
    };
    const kE = kids(E, (e) => e.parent, eById);
    const kA = kids(mine, (s) => s.parentSpanId, byId);
    const attrsOf = (s) => ({ attrs: plain(own(s.attributes)), lf: Object.fromEntries(Object.entries(s.attributes).filter(([k]) => k.startsWith(`${A.metadata}.`) || k === A.promptName || k === A.promptVersion)) });
    const canon = (o) => JSON.stringify(Object.entries(o).sort());
    const sigE = (e) => (e.sig ??= JSON.stringify([e.name, e.failed, canon(e.attrs), canon(e.lf), (kE.get(e.id) ?? []).map(sigE).sort()]));
    const sigA = (s) => {
      const x = attrsOf(s);
      return (s.sig ??= JSON.stringify([s.name, s.status?.code === 2, canon(x.attrs), canon(x.lf), (kA.get(s.spanId) ?? []).map(sigA).sort()]));
    };
    const match = (es, as, where, traceId) => {
      if (es.length !== as.length) return sim.fail("one-observation-each", `${where}: the AI SDK reported ${es.length} finished spans (${es.map((e) => e.name).sort().join(", ")}), ${as.length} were exported (${as.map((s) => s.name).sort().join(", ")})`);
      const left = new Set(as);
      for (const e of es) {
        const close = (s) => Math.abs(Number(s.start) / 1e6 - e.start) <= 2 && Math.abs(Number(s.end) / 1e6 - e.end) <= 2;
        const same = [...left].filter((s) => sigA(s) === sigE(e));
        const hit = same.find(close) ?? null;
        if (!hit && same.length) return sim.fail("ended-when-done", `${where}: ${e.name} has other start or end times than reported`);
        if (!hit) {
          const cand = [...left].filter((s) => s.name === e.name).sort((x, y) => Number(close(y)) - Number(close(x)))[0];
          if (!cand) return sim.fail("one-observation-each", `${where}: no observation for ${e.name}`);
          const x = attrsOf(cand);
          if (canon(x.lf) !== canon(e.lf)) return sim.fail("runtime-context", `${where}: ${e.type} span ${e.name} has ${clip(x.lf)}, expected ${clip(e.lf)}`);
          if (canon(x.attrs) !== canon(e.attrs)) {
            const k = [...new Set([...Object.keys(x.attrs), ...Object.keys(e.attrs)])].find((q) => JSON.stringify(x.attrs[q]) !== JSON.stringify(e.attrs[q]));
            return sim.fail("recorded", `${where}: ${e.name}: ${k} is ${clip(x.attrs[k] ?? null)}, expected ${clip(e.attrs[k] ?? null)}`);
          }
          if (match(kE.get(e.id) ?? [], kA.get(cand.spanId) ?? [], `under ${e.name}`, cand.traceId) !== true) return false;
          return sim.fail("recorded", `${where}: ${e.name} has another status than reported`);
        }
        left.delete(hit);
        e.span = hit;
        hit.ref = e;
        if (traceId && hit.traceId !== traceId) return sim.fail("nesting", `${where}: ${e.name} is in another trace`);
        sim.oblige(`recorded-${e.type}`);
        if (Object.keys(e.lf).length) sim.oblige("runtime-context");
        if (match(kE.get(e.id) ?? [], kA.get(hit.spanId) ?? [], `under ${e.name}`, hit.traceId) !== true) return false;
      }
      return true;
    };
    for (const key of new Set([...kE.keys(), ...kA.keys()])) {
      if (eById.has(key) || byId.has(key)) continue;
      const sc = key.startsWith("scope:") ? scopes.get(key.slice(6)) : null;
      if (match(kE.get(key) ?? [], kA.get(key) ?? [], sc ? `under the active observation of call ${sc.op.i}` : key === "top" ? "without an active observation" : "under spans that never ended", sc?.scope.traceId) !== true) return;
    }
    // each finished call has its own top span, where the application made the call
    const tops = new Map();
    for (const s of mine) if (s.ref?.type === "operation") tops.set(s.attributes["gen_ai.request.model"], [...(tops.get(s.attributes["gen_ai.request.model"]) ?? []), s]);
    for (const rec of recs) {
      const t = tops.get(`m-${rec.op.i}`) ?? [];
      if (rec.value?.stopped !== undefined && !t.length) {
        sim.cover("stopped-unfinished");
        continue;
      }
      if (t.length !== 1) return sim.fail("one-observation-each", `${rec.op.kind} ${rec.op.i} has ${t.length} operation spans`);
      if ((t[0].parentSpanId || undefined) !== rec.scope?.spanId) return sim.fail("nesting", `${rec.op.kind} ${rec.op.i} is not under the observation active at the call`);
      if (rec.op.fid && rec.op.kind !== "embed" && rec.op.kind !== "embedMany" && rec.op.kind !== "rerank" && t[0].attributes["gen_ai.agent.name"] !== `fn-${rec.op.i}`) return sim.fail("recorded", `function id of ${rec.op.i} is ${t[0].attributes["gen_ai.agent.name"]}`);
      sim.oblige("top-span");
    }
    // spans come from the tracer the application handed over
    if (cfg.tracerOption) for (const s of mine) if (s.scope !== "ai") return sim.fail("recorded", `${s.name} was made by tracer ${s.scope} instead of the one given`);
    // the application's own observations inside model calls and tools
    for (const x of inners) {
      const s = byId.get(x.id);
      if (!s) return sim.fail("inner", `observation ${x.name} was not exported`);
      const par = byId.get(s.parentSpanId);
      if (!par) {
        sim.cover("inner-under-open");
        continue;
      }
      if (x.rec.op.kind.endsWith("Object")) continue; // the AI SDK gives integrations no hook around these model calls
      const ok = x.where.kind === "tool" ? par.attributes["gen_ai.tool.call.id"] === x.where.toolCallId : ["languageModel", "step", "operation"].includes(par.ref?.type) && belongs(par, x.rec.op.i);
      if (!ok) return sim.fail("inner-nesting", `observation ${x.name} started inside ${x.where.kind === "tool" ? `tool call ${x.where.toolCallId}` : "a model call"} is under ${par.name}`);
      if (x.where.kind === "model" && par.ref.type !== "languageModel" && x.rec.op.kind !== "streamText") return sim.fail("inner-nesting", `observation ${x.name} started inside a model call is under the ${par.ref.type} span`);
      sim.oblige("inner-nesting");
    }
    function belongs(s, i) {
      for (let q = s; q; q = byId.get(q.parentSpanId)) if (q.attributes["gen_ai.request.model"]) return q.attributes["gen_ai.request.model"] === `m-${i}`;
      return false;
    }
    // attribution: what the application propagated around the call, and nobody else's
    for (const s of mine) {
      let q = s;
      while (q && !/^m-/.test(q.attributes["gen_ai.request.model"] ?? "")) q = byId.get(q.parentSpanId);
      if (!q) continue;
      const i = Number(q.attributes["gen_ai.request.model"].slice(2));
      const op = plan.ops.find((o) => o.i === i);
      if (s.attributes[A.userId] !== (op.attrs ? `au-${i}` : undefined)) return sim.fail("attribution", `${s.name} of call ${i} carries user ${s.attributes[A.userId]}`);
      sim.oblige("attribution");
    }
    // context keys not included for telemetry stay in the process
    const wire = w.net.log.map((r) => (typeof r.body === "string" ? r.body : r.body ? Buffer.from(r.body).toString("latin1") : "")).join("\n");
    for (const rec of recs) {
      if (!["generateText", "streamText"].includes(rec.op.kind) || rec.op.ctxAt) continue;
      for (const k of hidden(rec.op.ctx)) {
        const v = rec.op.ctx[k].v;
        const mark = k === "langfusePrompt" ? `prompt-${rec.op.i}` : `${k}-${rec.op.i}`;
        if (!JSON.stringify(v ?? null).includes(mark)) continue;
        if (new RegExp(`${mark.replace(".", "\\.")}(?!\\d|b)`).test(wire)) return sim.fail("only-included-context", `runtime context key ${k} of call ${rec.op.i} was not included for telemetry but left the process`);
        sim.oblige("only-included-context");
      }
    }
  },
};
