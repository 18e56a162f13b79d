// P02: the export filter decides, per span and at its end, what leaves the process.
import { clip } from "../harness.mjs";
import { drive, genCfg, genFlushOps, outgoing } from "../lib/spans.mjs";

const PREFIXES = [
  "agent_framework", "haystack", "langsmith", "litellm", "openinference", "opentelemetry.instrumentation.anthropic",
  "opentelemetry.instrumentation.aws_bedrock", "opentelemetry.instrumentation.bedrock", "opentelemetry.instrumentation.gemini",
  "opentelemetry.instrumentation.google_genai", "opentelemetry.instrumentation.google_generativeai", "opentelemetry.instrumentation.openai",
  "opentelemetry.instrumentation.openai_v2", "opentelemetry.instrumentation.vertex_ai", "opentelemetry.instrumentation.vertexai",
  "strands-agents", "vllm",
];

/** Reference: which spans the default filter lets through. */
function defaultAccepts(scope, attrs) {
  if (scope === "langfuse-sdk" || scope.startsWith("langfuse-sdk.")) return true;
  if (scope === "ai") return true;
  if (Object.keys(attrs).some((k) => k.startsWith("gen_ai."))) return true;
  return PREFIXES.some((p) => scope === p || scope.startsWith(p + "."));
}

function scopes(rng) {
  const p = rng.pick(PREFIXES);
  return rng.weighted([
    [3, "langfuse-sdk"], [2, "ai"], [3, p], [2, `${p}.sub`], [2, `${p}x`], [1, `x.${p}`], [1, "ai.foo"], [1, "aix"], [1, "langfuse-sdk.ext"], [1, "langfuse-sdkx"],
    [3, "@opentelemetry/instrumentation-http"], [1, "next.js"], [1, ""], [1, p.toUpperCase()], [1.5, `${p}${rng.pick(["/x", " x", ":x", "-x", "_x", "@1", "/"])}`], [0.7, `langfuse-sdk${rng.pick(["/x", " x", ":x"])}`], [0.3, "ai/x"], [0.3, " ai"],
  ]);
}

export default {
  id: "P02",
  bundles: ["otel"],
  shrink: ["ops"],
  runs: { quick: 6000, thorough: 80000 },
  components: {
    real: ["@langfuse/otel LangfuseSpanProcessor, export filter, media service", "@langfuse/core", "OpenTelemetry SDK and OTLP exporter"],
    stub: ["network (seeded faults)", "Langfuse server and media bucket (reference model)", "clock, timers, randomness"],
  },
  generate(rng) {
    const span = rng.weighted([[2, 300], [3, 6000]]);
    const ops = [];
    const n = rng.int(1, 24);
    for (let i = 0; i < n; i++) {
      const mk = `mk${i}x`;
      ops.push({
        t: rng.int(0, span), k: "span", i, mk, scope: scopes(rng),
        name: rng.pick(["keep", "drop", "boom", "other"]) + `-${mk}`,
        at: rng.weighted([[3, {}], [1, { "gen_ai.system": mk }], [1, { "gen_aix": mk }], [1, { "http.gen_ai.x": mk }]]),
        late: rng.weighted([[4, {}], [1, { "gen_ai.usage": 3 }], [0.7, { "gen_ai.usage.output_tokens": 0 }], [0.4, { "gen_ai.response.stream": false }], [0.4, { "gen_ai.response.id": "" }], [1, { keep: true }], [1, { keep: false }]]),
        dur: rng.weighted([[2, 0], [4, rng.int(0, 100)], [1, rng.int(200, 3000)]]),
        parent: i > 0 && rng.bool(0.5) ? rng.int(0, i - 1) : null,
        media: rng.bool(0.2),
        note: rng.weighted([[3, ""], [1, "internal"], [1, "public"]]),
        bare: rng.bool(0.2), // nothing but a name
        rename: rng.bool(0.2) ? rng.pick(["keep", "drop"]) + `-${mk}` : null,
        status: rng.weighted([[3, 0], [1, 1], [1, 2]]),
        event: rng.bool(0.35), evName: rng.pick(["gen_ai.choice", "gen_ai.user.message", "ev"]),
      });
    }
    const toggles = rng.bool(0.3) ? Array.from({ length: rng.int(1, 4) }, () => rng.int(0, span)) : [];
    for (const t of toggles) ops.push({ t, k: "toggle" });
    genFlushOps(rng, ops, span);
    return { cfg: { ...genCfg(rng, span), filter: rng.weighted([[5, "default"], [1, "name"], [1, "attr"], [1, "duration"], [1, "throws"], [1, "composed"], [1, "toggle"], [2, "content"], [1, "truthy"], [1, "status"], [1, "events"]]), mask: rng.weighted([[3, null], [1, "sync"], [1, "async"]]) }, ops };
  },

  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    let open = true;
    const filters = {
      name: () => ({ otelSpan }) => otelSpan.name.startsWith("keep"),
      attr: () => ({ otelSpan }) => otelSpan.attributes.keep === true,
      duration: () => ({ otelSpan }) => otelSpan.duration[0] * 1000 + otelSpan.duration[1] / 1e6 >= 50,
      throws: () => ({ otelSpan }) => {
        if (otelSpan.name.startsWith("boom")) throw new Error("filter bug");
        return !otelSpan.name.startsWith("drop");
      },
      composed: (p) => ({ otelSpan }) => p.otel.isDefaultExportSpan(otelSpan) || otelSpan.name.startsWith("keep"),
      toggle: () => () => open,
      truthy: () => ({ otelSpan }) => (otelSpan.name.startsWith("keep") ? [1, "yes", {}, true][otelSpan.name.length % 4] : false), // only false rejects
      status: () => ({ otelSpan }) => otelSpan.status.code === 2,
      events: () => ({ otelSpan }) => otelSpan.events.length > 0,
      content: () => ({ otelSpan }) => !String(otelSpan.attributes["langfuse.observation.input"]).includes("internal"),
    };
    const expected = (rec) => {
      const attrs = rec.op.bare ? {} : { ...rec.op.at, ...rec.op.late };
      switch (cfg.filter) {
        case "default": return defaultAccepts(rec.op.scope, attrs);
        case "status": return rec.op.status === 2;
        case "events": return rec.op.event;
        case "name": case "truthy": return rec.name.startsWith("keep");
        case "attr": return attrs.keep === true;
        case "duration": return rec.tEnd - rec.tStart >= 50;
        case "throws": return !rec.name.startsWith("boom") && !rec.name.startsWith("drop");
        case "composed": return defaultAccepts(rec.op.scope, attrs) || rec.name.startsWith("keep");
        case "toggle": return rec.openAtEnd;
        case "content": return rec.op.bare || rec.op.note !== "internal";
      }
    };
    // the mask turns one word into the other: a filter that saw its result would decide the other way round
    const swap = (d) => (typeof d === "string" ? d.replace(/internal|public/g, (x) => (x === "internal" ? "public" : "internal")) : d);
    const masks = { sync: ({ data }) => swap(data), async: async ({ data }) => (await sim.sleep(3), swap(data)) };
    const byIndex = new Map();
    const ctx = await drive({
      sim, plan, bundleFile: bundle("otel"),
      params: (p) => ({ ...(cfg.filter === "default" ? {} : { shouldExportSpan: filters[cfg.filter](p) }), ...(cfg.mask ? { mask: masks[cfg.mask] } : {}) }),
      async runOp(c, op) {
        if (op.k === "toggle") {
          open = !open;
          return;
        }
        const par = op.parent != null ? byIndex.get(op.parent) : null;
        let pc = c.p.api.ROOT_CONTEXT;
        if (par) pc = c.p.api.trace.setSpanContext(pc, par.otelSpan.spanContext());
        const s = c.provider.getTracer(op.scope).startSpan(op.name, op.bare ? {} : { attributes: { marker: op.mk, ...op.at } }, pc);
        const rec = c.register(s, { name: op.name, op, tStart: sim.now });
        byIndex.set(op.i, rec);
        if (!op.bare && (op.media || op.note)) s.setAttribute("langfuse.observation.input", JSON.stringify({ note: `${op.note} ${op.mk}`, img: op.media && `data:image/png;base64,${Buffer.from(`media-${op.mk}`).toString("base64")}` }));
        await sim.sleep(op.dur);
        if (!op.bare) s.setAttributes(op.late);
        if (op.rename) s.updateName((rec.name = op.rename));
        if (op.status) s.setStatus({ code: op.status });
        if (op.event) s.addEvent(op.evName ?? "something");
        rec.openAtEnd = open;
        c.end(rec);
      },
      onFlushResolved(c, f, covered) {
        sim.oblige("flush-barrier");
        const sent = new Set();
        for (const r of c.w.net.log) if (r.route === "POST /otel") for (const id of r.body.match(/"spanId":"[0-9a-f]+"/g) ?? []) sent.add(id.slice(10, -1));
        for (const s of covered) if (expected(s) && !sent.has(s.id)) return sim.fail("accepted-exported", `${f.op.k}() resolved at ${sim.now} but accepted span ${s.name} (scope "${s.op.scope}") was not exported`);
      },
    });
    const out = outgoing(ctx.w);
    const mediaOut = out.filter(({ r }) => r.route !== "POST /otel");
    for (const rec of ctx.spans.values()) {
      const sends = ctx.sends.get(rec.id);
      if (rec.ended == null) {
        if (sends) sim.fail("rejected-never-leave", `unfinished span ${rec.name} was exported`);
        continue;
      }
      const want = expected(rec);
      sim.oblige(want ? "accepted" : "rejected");
      if (want && !sends && !sim.crashed && !rec.afterShutdown) return sim.fail("accepted-exported", `span ${rec.name} (scope "${rec.op.scope}", ${clip({ ...rec.op.at, ...rec.op.late })}) passes the filter but was never exported`);
      if (want && sends && rec.op.media && !rec.op.bare && !sim.crashed && !mediaOut.some(({ r }) => r.route === "POST /media" && r.body.includes(rec.id))) sim.fail("accepted-exported", `media of accepted span ${rec.name} was not uploaded`);
      if (!want) {
        if (sends) return sim.fail("rejected-never-leave", `span ${rec.name} (scope "${rec.op.scope}", ${clip({ ...rec.op.at, ...rec.op.late })}) is rejected by the filter but was exported in request ${sends[0].r.id}`);
        const leak = out.find(({ r, text }) => text.includes(rec.op.mk) || (r.route === "POST /media" && text.includes(rec.id)));
        if (leak) return sim.fail("rejected-never-leave", `data of rejected span ${rec.name} left in request ${leak.r.id} ${leak.r.route}`);
      }
    }
    for (const id of ctx.sends.keys()) if (!ctx.spans.has(id)) sim.fail("no-phantoms", `exported span ${id} was never created`);
  },
};
