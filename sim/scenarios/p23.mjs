// P23: credentials and unmasked data appear in no log line and in no request they do not belong in.
import { formatWithOptions } from "node:util";
import { World, MIX, clip } from "../harness.mjs";
import { A, TYPES } from "../lib/tracing.mjs";
import { json } from "../server.mjs";

const PK = "pk-lf-0a1b2c3d4";
const SK = "sk-lf-9f8e7d6c-SECRETKEY";
const b64 = (s) => Buffer.from(s).toString("base64");
const NEEDLES = { "secret key": SK, "basic credentials": b64(`${PK}:${SK}`), "encoded secret key": b64(SK), "additional header": "team-token-TOKEN" };
const LEVELS = ["DEBUG", "INFO", "WARN", "ERROR", "NONE"];
const METHOD = { debug: 0, log: 1, info: 1, warn: 2, error: 3 };
const ROUGH = { ok: 45, reset: 6, "lost-response": 5, "503": 6, "500": 4, "429": 4, "400": 3, "401": 4, "404": 3, stall: 2, truncated: 3, nonjson: 3, slow: 4 };

export default {
  id: "P23",
  bundles: ["app"],
  shrink: ["ops"],
  runs: { quick: 6000, thorough: 80000 },
  components: {
    real: ["@langfuse/core logger and API client", "@langfuse/client: prompts, scores, datasets, experiments, media, traces", "@langfuse/otel span processor, masking, media upload", "@langfuse/tracing", "OpenTelemetry SDK and exporter"],
    stub: ["network (seeded faults)", "Langfuse server and media bucket (reference model)", "the console (records what would be printed)", "clock, timers, randomness"],
  },
  generate(rng) {
    const span = rng.weighted([[2, 300], [3, 6000]]);
    const ops = [];
    const n = rng.int(2, 22);
    for (let i = 0; i < n; i++) {
      const k = rng.weighted([[7, "span"], [4, "score"], [3, "prompt"], [1, "prompt-write"], [1.5, "trace"], [1, "dataset"], [1, "experiment"], [1, "resolve"], [2, "flush"], [1, "url"], [1, "level"], [0.4, "shutdown"], [1.5, "oddprop"], [1.5, "create-item"], [1, "unscoped"], [1.5, "log"], [0.7, "new-client"]]);
      const op = { t: rng.int(0, span), k, i };
      if (k === "span") Object.assign(op, { type: rng.pick(TYPES), io: rng.int(0, 3), media: rng.bool(0.4), fail: rng.bool(0.2), d: rng.int(0, 60) });
      if (k === "level") op.level = rng.int(0, 4);
      if (k === "prompt") Object.assign(op, { name: rng.pick(["a", "missing"]), fallback: rng.bool(0.3) });
      ops.push(op);
    }
    ops.sort((a, b) => a.t - b.t);
    return {
      cfg: {
        level: rng.weighted([[6, "DEBUG"], [1, "debug"], [1, "INFO"], [1, "WARN"], [2, "ERROR"], [1, "NONE"], [1, null], [0.5, "nonsense"]]),
        debug: rng.weighted([[8, null], [2, "true"], [1, "false"], [0.5, "TRUE"]]),
        configured: rng.bool(0.25) ? rng.int(0, 4) : null, // by the application, before anything else
        viaEnv: rng.bool(0.5), header: rng.bool(0.5), mask: rng.weighted([[4, "sync"], [3, "async"], [2, "flaky"], [2, null]]),
        mode: rng.pick(["batched", "immediate"]), filter: rng.weighted([[4, null], [1, "throws"]]), calm: rng.bool(0.25), until: rng.int(0, span + 20000),
      },
      ops,
    };
  },

  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    const env = {};
    if (cfg.level) env.LANGFUSE_LOG_LEVEL = cfg.level;
    if (cfg.debug) env.LANGFUSE_DEBUG = cfg.debug;
    const params = {};
    if (cfg.viaEnv) Object.assign(env, { LANGFUSE_PUBLIC_KEY: PK, LANGFUSE_SECRET_KEY: SK });
    else Object.assign(params, { publicKey: PK, secretKey: SK, baseUrl: "https://lf.sim" });
    if (cfg.header) params.additionalHeaders = { "x-team": NEEDLES["additional header"] };
    const w = new World(sim, bundle("app"), { mix: cfg.calm ? MIX.calm : ROUGH, until: cfg.until, env });
    if (!cfg.viaEnv) for (const k of ["LANGFUSE_PUBLIC_KEY", "LANGFUSE_SECRET_KEY", "LANGFUSE_BASE_URL"]) delete w.env[k];

    let level = cfg.debug?.toLowerCase() === "true" ? 0 : LEVELS.indexOf((cfg.level ?? "").toUpperCase());
    if (level < 0) level = 1; // the default
    sim.onLog = (method, args) => {
      sim.oblige("log-level");
      if (!(method in METHOD)) return sim.fail("log-level", `the SDK called console.${method}`);
      if (METHOD[method] < level) sim.fail("log-level", `console.${method} used at log level ${LEVELS[level]}: ${clip(String(args[0]), 120)}`);
      const text = formatWithOptions({ depth: 4, breakLength: Infinity, maxStringLength: null, maxArrayLength: null }, ...args);
      sim.oblige("clean-log");
      for (const [what, x] of Object.entries(NEEDLES)) if (text.includes(x)) sim.fail("clean-log", `the ${what} was logged: ${clip(text.slice(Math.max(0, text.indexOf(x) - 120)), 200)}`);
      if (cfg.mask) {
        const m = /PRIVATE-\d+/.exec(text);
        if (m) sim.fail("clean-log", `unmasked data was logged: ${clip(text.slice(Math.max(0, m.index - 150)), 260)}`);
      }
    };
    w.net.onSend = (rec) => {
      const origin = new URL(rec.url).origin;
      const own = origin === "https://lf.sim";
      sim.oblige("clean-request");
      const h = Object.fromEntries(Object.entries(rec.headers ?? {}).map(([k, v]) => [k.toLowerCase(), String(v)]));
      if (own && h.authorization !== `Basic ${b64(`${PK}:${SK}`)}`) sim.fail("authenticated", `${rec.route} carried Authorization ${clip(h.authorization)}`);
      for (const [what, x] of Object.entries(NEEDLES)) {
        const allowed = own ? (what === "basic credentials" ? "authorization" : what === "additional header" ? "x-team" : null) : null;
        for (const [k, v] of Object.entries(h)) if (v.includes(x) && k !== allowed) sim.fail("clean-request", `the ${what} was sent in header ${k} of ${rec.route} to ${origin}`);
        if (rec.url.includes(x) || decodeURIComponent(rec.url).includes(x)) sim.fail("clean-request", `the ${what} is in the URL of ${rec.route}`);
        if (typeof rec.body === "string" ? rec.body.includes(x) : rec.body && Buffer.from(rec.body).includes(x)) sim.fail("clean-request", `the ${what} is in the body of ${rec.route}`);
      }
      if (!own && h.authorization) sim.fail("clean-request", `${rec.route} to ${origin} carried Authorization ${clip(h.authorization)}`);
      if (!own) sim.oblige("storage-request");
    };
    w.server.custom = (req) => {
      const path = req.url.pathname;
      const last = decodeURIComponent(path.split("/").pop());
      if (path === "/api/public/projects") return json(200, { data: [{ id: "proj", name: "p", metadata: {}, organization: { id: "o", name: "o" } }] });
      if (path.startsWith("/api/public/v2/prompts") && req.method === "GET") return last === "missing" ? json(404, { message: "Prompt not found", error: "LangfuseNotFoundError" }) : json(200, { name: last, version: 1, labels: ["production"], tags: [], config: {}, type: "text", prompt: "hello {{x}}", commitMessage: null, resolutionGraph: null });
      if (path.startsWith("/api/public/traces/")) return json(200, { id: last, projectId: "proj", timestamp: "2025-10-01T00:00:00.000Z", htmlPath: "", latency: 0, totalCost: 0, observations: [], scores: [], tags: [], public: false, environment: "default" });
      return null;
    };

    // stored media and a dataset that refers to it
    const png = Buffer.from("stored image");
    for (let i = 0; i < 22; i++) w.server.media.set(`m${i}`, { id: `m${i}`, contentType: "image/png", sha: "", length: png.length, bytes: i % 4 ? png : null, reported: true, links: [] });
    const item = (i) => {
      const ref = `@@@langfuseMedia:type=image/png|id=m${i}|source=bytes@@@`;
      return { id: `it${i}`, status: "ACTIVE", input: { img: ref }, expectedOutput: 1, metadata: null, sourceTraceId: null, sourceObservationId: null, datasetId: "dsid", datasetName: "ds", createdAt: "2025-10-01T00:00:00.000Z", updatedAt: "2025-10-01T00:00:00.000Z", mediaReferences: [{ field: "input", jsonPath: i % 3 ? "$['img']" : "$['gone']", referenceString: ref, media: { mediaId: `m${i}`, contentType: "image/png", url: `https://bucket.sim/get/m${i}`, urlExpiry: "2030-01-01T00:00:00Z", contentLength: 3 } }] };
    };
    w.server.datasets.set("ds", { id: "dsid", name: "ds", items: [0, 1, 2].map(item) });

    const p = w.load();
    if (cfg.configured != null) {
      level = cfg.configured;
      p.core.configureGlobalLogger({ level: p.core.LogLevel[LEVELS[level]] });
    }
    const redact = (d) => (typeof d === "string" ? d.replace(/PRIVATE-\d+/g, "***") : d);
    const sp = { ...params, exportMode: cfg.mode, flushInterval: 1 };
    if (cfg.mask)
      sp.mask = cfg.mask === "sync" ? ({ data }) => redact(data) : async ({ data }) => {
        await sim.sleep(sim.decide("mask-delay", (r) => r.int(0, 90), 0));
        if (cfg.mask === "flaky" && String(data).length % 3 === 0) throw new Error("mask bug");
        return redact(data);
      };
    if (cfg.filter === "throws") sp.shouldExportSpan = ({ otelSpan }) => {
      if (/[37]$/.test(otelSpan.name)) throw new Error("filter bug");
      return true;
    };
    const processor = new p.otel.LangfuseSpanProcessor(sp);
    w.startTracing(p, { processor });
    const T = p.tracing;
    const client = new p.client.LangfuseClient(params);
    const errors = [];
    const call = (name, fn) => {
      const o = w.op(name, fn);
      o.onSettle = () => {
        if (!o.ok) errors.push([name, o.error]);
      };
    };

    for (const op of plan.ops)
      w.at(op.t, `op-${op.k}`, async () => {
        const { i } = op;
        switch (op.k) {
          case "span": {
            const text = [`plain PRIVATE-${i}`, { user: `PRIVATE-${i}`, nested: [{ deep: `PRIVATE-${i}` }] }, [`PRIVATE-${i}`, 2], `PRIVATE-${i}`][op.io];
            const a = { input: text, output: text, metadata: { m: `PRIVATE-${i}` } };
            if (op.media) a.input = { img: `data:image/png;base64,${b64(`png-${i}-${"z".repeat(i)}`)}`, text };
            await T.startActiveObservation(`span-${i}`, async (o) => {
              o.update(a);
              if (op.io === 1) o.setTraceIO({ input: text });
              await sim.sleep(op.d);
              if (op.fail) throw new Error(`boom ${i}`);
            }, { asType: op.type }).catch(() => {});
            break;
          }
          case "oddprop":
            // values the SDK drops with a warning
            T.propagateAttributes({ userId: "x".repeat(300), environment: "NOT VALID", metadata: { k: `PRIVATE-${i}` }, prompt: { name: "", version: 1 } }, () => T.startObservation(`odd-${i}`).end());
            break;
          case "score":
            client.score.create({ name: `s${i}`, value: i, traceId: `t${i}` });
            break;
          case "prompt":
            call("prompt.get", () => client.prompt.get(op.name, { maxRetries: 0, cacheTtlSeconds: i % 3, ...(op.fallback ? { fallback: "fb" } : {}) }));
            break;
          case "prompt-write":
            call("prompt.update", () => client.prompt.update({ name: "a", version: 1, newLabels: ["x"] }));
            break;
          case "trace":
            call("trace.get", () => client.api.trace.get(`t${i}`));
            break;
          case "dataset":
            call("dataset.get", async () => {
              const ds = await client.dataset.get(i % 5 ? "ds" : "missing");
              for (const it of ds.items) if (it.input.img?.fetchBytes) await it.input.img.fetchBytes();
              if (i % 2) await ds.runExperiment({ name: `dx${i}`, task: async () => "out" });
            });
            break;
          case "create-item":
            call("dataset.createItem", () => client.dataset.createItem({ datasetName: "ds", input: { img: new p.core.LangfuseMedia({ source: "bytes", contentBytes: Buffer.from(`item ${i}`), contentType: "image/png" }) } }));
            break;
          case "unscoped":
            // nothing is active: warned about, not sent
            client.score.activeTrace({ name: "none", value: 1 });
            client.score.activeObservation({ name: "none", value: 1 });
            T.updateActiveObservation({ output: `PRIVATE-${i}` });
            break;
          case "new-client":
            // one that lacks its keys
            new p.client.LangfuseClient(i % 2 ? { secretKey: "", ...params } : { baseUrl: "https://lf.sim", ...params });
            break;
          case "log": {
            // the application's own messages through the SDK's logger: written iff the level asks for them
            const logger = p.core.getGlobalLogger();
            const was = sim.onLog;
            const seen = [];
            sim.onLog = (m) => seen.push(m);
            for (const m of ["debug", "info", "warn", "error"]) logger[m](`m ${m}`);
            sim.onLog = was;
            const want = ["debug", "info", "warn", "error"].filter((m) => METHOD[m] >= level);
            sim.oblige("log-enabled");
            if (seen.join() !== want.join()) sim.fail("log-level", `at level ${LEVELS[level]} the logger wrote ${seen.join() || "nothing"} of debug,info,warn,error`);
            break;
          }
          case "experiment":
            call("experiment.run", () => client.experiment.run({ name: `x${i}`, data: [{ input: 1 }, { input: 2 }], task: async (it) => { if (it.input === 2 && i % 2) throw new Error("task"); return it.input; }, evaluators: [async () => { if (i % 3 === 0) throw new Error("evaluator"); return { name: "e", value: 1 }; }] }));
            break;
          case "resolve":
            call("resolveReferences", () => client.media.resolveReferences({ obj: { a: `@@@langfuseMedia:type=image/png|id=m${i}|source=base64_data_uri@@@` }, resolveWith: "base64DataUri" }));
            break;
          case "url":
            call("getTraceUrl", () => client.getTraceUrl("t"));
            break;
          case "level":
            level = op.level;
            p.core.getGlobalLogger().setLevel(p.core.LogLevel[LEVELS[op.level]]);
            break;
          case "flush":
            call("flush", () => processor.forceFlush());
            call("client.flush", () => client.flush());
            break;
          case "shutdown":
            call("shutdown", () => processor.shutdown());
            call("client.shutdown", () => client.shutdown());
        }
      });
    const end = await sim.run({ horizon: 3_600_000 });
    if (end === "steps") sim.fail("clean-log", "no quiescence within the step limit");
    // errors reach the application's own logs
    for (const [name, e] of errors) {
      sim.oblige("clean-error");
      const text = formatWithOptions({ depth: 4, breakLength: Infinity }, e);
      for (const [what, x] of Object.entries(NEEDLES)) if (text.includes(x)) return sim.fail("clean-error", `the error of ${name} contains the ${what}: ${clip(text.slice(Math.max(0, text.indexOf(x) - 120)), 200)}`);
    }
  },
};
