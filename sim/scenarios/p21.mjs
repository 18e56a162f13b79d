// P21: several Langfuse projects in one process stay apart, and trouble in one does not reach the others.
import { World, MIX, LangfuseServer, clip } from "../harness.mjs";
import { json } from "../server.mjs";
import { A, attrModel, otlpRequests, checkNoDuplicates } from "../lib/tracing.mjs";

const SICK = { ok: 10, reset: 8, "lost-response": 6, "503": 8, "500": 4, "429": 4, stall: 5, truncated: 3, "401": 4, slow: 6 };
const basic = (pr) => "Basic " + Buffer.from(`${pr.pk}:${pr.sk}`).toString("base64");

export default {
  id: "P21",
  bundles: ["app"],
  shrink: ["ops", "jumps"],
  runs: { quick: 6000, thorough: 60000 },
  components: {
    real: ["@langfuse/otel LangfuseSpanProcessor and media service, one per project", "@langfuse/client LangfuseClient, one per project", "@langfuse/tracing with isolated tracer providers", "@langfuse/core API client", "OpenTelemetry SDK"],
    stub: ["network (seeded faults on one project's server)", "one Langfuse server and bucket model per project", "clock, timers, randomness"],
  },

  generate(rng) {
    const n = rng.weighted([[3, 2], [1, 3]]);
    const span = rng.weighted([[2, 400], [3, 5000], [1, 30000]]);
    const style = rng.weighted([[3, "providers"], [2, "filters"]]);
    const projects = [];
    for (let i = 0; i < n; i++)
      projects.push({
        env: rng.bool(0.6) ? `env${i}` : null,
        release: rng.bool(0.5) ? `rel${i}` : null,
        mask: rng.bool(0.4),
        mode: rng.weighted([[3, "batched"], [1, "immediate"]]),
        flushAt: rng.weighted([[3, null], [2, rng.int(1, 5)]]),
        interval: rng.weighted([[2, null], [2, 1], [1, 0.3]]),
        media: rng.bool(0.8),
        header: rng.bool(0.4),
      });
    const ops = [];
    const N = rng.int(3, 24);
    for (let i = 0; i < N; i++) {
      const t = rng.int(0, span);
      const k = rng.weighted([[8, "obs"], [style === "providers" ? 4 : 0, "switch"], [1.5, "foreign"], [4, "score"], [3, "prompt"], [2, "url"], [2.5, "flush"], [1, "cflush"], [0.7, "shutdown"], [0.4, "cshutdown"], [1.5, "trace"]]);
      const op = { t, k, to: rng.int(0, n - 1) };
      if (k === "obs") {
        op.n = rng.int(1, 3);
        op.gap = rng.weighted([[2, 0], [3, rng.int(1, 60)], [1, rng.int(100, 2000)]]);
        op.active = rng.bool(0.5);
        if (rng.bool(0.3)) op.media = rng.int(0, 2); // the same few files turn up in every project
        if (rng.bool(0.3)) op.scored = true;
        if (style === "filters" && rng.bool(0.2) && op.media === undefined) op.both = true;
      }
      if (k === "switch" && rng.bool(0.25)) op.to = null;
      if (k === "prompt") op.name = rng.pick(["greeting", "other"]);
      if (k === "prompt" && rng.bool(0.3)) op.ttl = rng.pick([0, 1]);
      if (k === "score") op.id = rng.bool(0.3) ? rng.int(0, 2) : null;
      ops.push(op);
    }
    ops.sort((a, b) => a.t - b.t);
    return {
      cfg: {
        style, projects,
        oneHost: rng.bool(0.3), // projects of one server, told apart by their keys only
        global: rng.weighted([[3, 0], [1, null], [1, "unset"]]), // which project's provider is OpenTelemetry's global one
        envProject: rng.weighted([[2, null], [1, rng.int(0, n - 1)]]), // configured through the environment
        envEach: rng.bool(0.2), // every project is configured through the environment, which changes in between
        legacy: rng.bool(0.3), // the old name of the base URL setting is still around, with another value
        eflush: rng.bool(0.3) ? rng.int(2, 40) : null,
        einterval: rng.bool(0.3) ? rng.pick([1, 2, 9]) : null,
        penv: rng.bool(0.3) ? "fromenv" : null,
        prel: rng.bool(0.3) ? "relenv" : null,
        sick: rng.weighted([[1, null], [3, rng.int(0, n - 1)]]),
        until: rng.int(0, span + 20000),
        stall: rng.bool(0.08) ? 0.02 : 0,
      },
      ops,
      jumps: rng.bool(0.1) ? [{ t: rng.int(0, span), by: rng.pick([-3600e3, 3600e3]) }] : [],
    };
  },

  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    const env = { LANGFUSE_PUBLIC_KEY: undefined, LANGFUSE_SECRET_KEY: undefined, LANGFUSE_BASE_URL: undefined };
    const projects = cfg.projects.map((c, i) => ({
      ...c, i, pk: `pk-${i}`, sk: `sk-${i}`, base: cfg.oneHost ? "https://lf.sim" : `https://lf${i}.sim`,
      sick: cfg.sick === i, spans: new Map(), scores: [], down: false,
    }));
    if (cfg.envProject != null) {
      const e = projects[cfg.envProject];
      Object.assign(env, { LANGFUSE_PUBLIC_KEY: e.pk, LANGFUSE_SECRET_KEY: e.sk, LANGFUSE_BASE_URL: e.base });
      if (cfg.legacy) env.LANGFUSE_BASEURL = "https://legacy.sim";
    }
    if (cfg.eflush) env.LANGFUSE_FLUSH_AT = String(cfg.eflush);
    if (cfg.einterval) env.LANGFUSE_FLUSH_INTERVAL = String(cfg.einterval);
    if (cfg.penv) env.LANGFUSE_TRACING_ENVIRONMENT = cfg.penv;
    if (cfg.prel) env.LANGFUSE_RELEASE = cfg.prel;
    for (const k of Object.keys(env)) if (env[k] === undefined) delete env[k];

    const ofRequest = ({ url, headers }) => {
      const u = new URL(url);
      const b = /^p(\d)\.storage\.googleapis\.com$/.exec(u.hostname);
      if (b) return projects[Number(b[1])];
      const auth = headers.Authorization ?? headers.authorization;
      return projects.find((pr) => u.origin === pr.base && auth === basic(pr)) ?? null;
    };
    const w = new World(sim, bundle("app"), {
      mix: (route, req) => (ofRequest(req)?.sick ? SICK : MIX.calm),
      until: cfg.until,
    });
    w.env = env;
    for (const pr of projects) {
      pr.server = new LangfuseServer(sim, { bucketHost: `p${pr.i}.storage.googleapis.com` });
      pr.server.custom = (req) => {
        const path = req.url.pathname;
        if (path === "/api/public/projects") return json(200, { data: [{ id: `proj-${pr.i}`, name: `p${pr.i}`, metadata: {}, organization: { id: "o", name: "o" } }] });
        if (path.startsWith("/api/public/v2/prompts/")) {
          const name = decodeURIComponent(path.split("/").pop());
          return json(200, { name, version: pr.i + 1, labels: ["production"], tags: [], config: { of: pr.i }, type: "text", prompt: `${name} of project ${pr.i}`, commitMessage: null, resolutionGraph: null });
        }
        if (path.startsWith("/api/public/traces/")) {
          return json(200, { id: decodeURIComponent(path.split("/").pop()), projectId: `proj-${pr.i}`, timestamp: "2025-10-01T00:00:00.000Z", htmlPath: "", latency: 0, totalCost: 0, observations: [], scores: [], tags: [], public: false, environment: "default" });
        }
        return null;
      };
    }
    w.net.handler = (req) => {
      const pr = ofRequest({ url: String(req.url), headers: req.headers });
      if (!pr) return json(401, { message: "Invalid credentials. Confirm that you have configured the correct host." });
      return pr.server.handle(req);
    };
    // every request, while it is sent: one project's credentials to that project's server only
    w.net.onSend = (rec) => {
      if (/storage\.googleapis\.com/.test(rec.url)) {
        rec.project = ofRequest(rec);
        return;
      }
      sim.oblige("own-credentials");
      rec.project = ofRequest(rec);
      const h = Object.fromEntries(Object.entries(rec.headers).map(([k, v]) => [k.toLowerCase(), v]));
      if (!rec.project) return sim.fail("own-credentials", `${rec.route} to ${new URL(rec.url).origin} carried ${Buffer.from(String(h.authorization).slice(6), "base64")}`);
      if (h["x-langfuse-public-key"] !== rec.project.pk) sim.fail("own-credentials", `${rec.route} of project ${rec.project.i} carried public key ${h["x-langfuse-public-key"]}`);
      if ((h["x-team"] ?? null) !== (rec.project.header ? `team${rec.project.i}` : null)) sim.fail("own-credentials", `${rec.route} of project ${rec.project.i} carried the header of ${h["x-team"]}`);
    };

    const p = w.load();
    const T = p.tracing;
    const cm = new p.AsyncLocalStorageContextManager();
    cm.enable();
    p.api.context.setGlobalContextManager(cm);
    const providers = cfg.style === "providers";
    for (const pr of projects) {
      const params = {};
      if (cfg.envEach) {
        Object.assign(env, { LANGFUSE_PUBLIC_KEY: pr.pk, LANGFUSE_SECRET_KEY: pr.sk, LANGFUSE_BASE_URL: pr.base });
        delete env.LANGFUSE_BASEURL;
        sim.cover("env-each");
      } else if (pr.i !== cfg.envProject) Object.assign(params, { publicKey: pr.pk, secretKey: pr.sk, baseUrl: pr.base });
      if (pr.header) params.additionalHeaders = { "x-team": `team${pr.i}` };
      pr.client = new p.client.LangfuseClient(params);
      const sp = { ...params };
      if (providers) {
        if (pr.env) sp.environment = pr.env;
        if (pr.release) sp.release = pr.release;
        if (pr.mask)
          sp.mask = !pr.sick ? ({ data }) => `${data}|masked by ${pr.i}` : async ({ data }) => {
            const d = sim.decide("mask-delay", (r) => r.weighted([[2, 0], [2, r.int(1, 200)], [1, r.int(5000, 20000)]]), 0);
            if (d) await sim.sleep(d);
            return `${data}|masked by ${pr.i}`;
          };
      } else sp.shouldExportSpan = ({ otelSpan }) => otelSpan.name.startsWith(`p${pr.i}`) || otelSpan.name.startsWith("all");
      if (!pr.media) sp.mediaUploadEnabled = false;
      if (pr.mode === "immediate") sp.exportMode = "immediate";
      if (pr.flushAt) sp.flushAt = pr.flushAt;
      if (pr.interval) sp.flushInterval = pr.interval;
      pr.processor = new p.otel.LangfuseSpanProcessor(sp);
      if (providers) pr.provider = new p.sdk.BasicTracerProvider({ spanProcessors: [pr.processor] });
    }
    const foreign = []; // what the application's own, non-Langfuse processor saw
    let current = null; // isolated provider in force
    if (providers) {
      if (cfg.global === 0) p.api.trace.setGlobalTracerProvider(projects[cfg.global].provider);
      else if (cfg.global === null) {
        p.api.trace.setGlobalTracerProvider(new p.sdk.BasicTracerProvider({ spanProcessors: [{ onStart() {}, onEnd: (s) => foreign.push(s.name), forceFlush: async () => {}, shutdown: async () => {} }] }));
      }
    } else p.api.trace.setGlobalTracerProvider(new p.sdk.BasicTracerProvider({ spanProcessors: projects.map((x) => x.processor) }));
    w.clockJumps(plan.jumps);

    let seq = 0;
    const target = () => (providers ? current ?? (cfg.global === 0 ? projects[0] : null) : null);
    const own = (pr, otelSpan, name, input, parent) => {
      if (parent && /^0+$/.test(parent.id)) parent = null; // without any provider a span is a no-op
      const c = otelSpan.spanContext();
      const rec = { name, id: c.spanId, traceId: c.traceId, input, pr, ended: null, parent: parent?.id, root: !parent };
      pr.spans.set(c.spanId, rec);
      return rec;
    };
    const file = (k) => `data:image/png;base64,${Buffer.from(`shared-file-${k}`).toString("base64")}`;
    const ended = (recs) => {
      for (const r of recs) Object.assign(r, { ended: ++seq, tEnd: sim.now, late: r.pr.down });
    };
    const doObs = async (op) => {
      const ones = [];
      const body = async (parent) => {
        for (let j = 0; j < op.n; j++) {
          const pr = providers ? target() : projects[op.to];
          const label = pr ? `p${pr.i}` : "none";
          const name = op.both ? `all-${++seq}` : `${label}-${++seq}`;
          const input = op.media !== undefined ? `see ${file(op.media)} for ${name}` : `in ${name}`;
          const o = parent && j % 2 ? parent.startObservation(name, { input }) : T.startObservation(name, { input });
          const recs = op.both ? projects.map((x) => own(x, o.otelSpan, name, input, parent)) : pr ? [own(pr, o.otelSpan, name, input, parent)] : [];
          for (const r of recs) r.media = op.media;
          if (!pr && cfg.global === null) foreignWant.push(name);
          if (op.scored && pr) {
            const s = { name: `s${++seq}`, value: 1 };
            pr.scores.push({ ...s, traceId: o.traceId, observationId: o.id, t: sim.now });
            pr.client.score.observation(o, s);
          }
          if (op.gap) await sim.sleep(op.gap);
          o.end();
          ended(recs);
        }
      };
      if (!op.active) return body(null);
      const pr = providers ? target() : projects[op.to];
      const name = `${pr ? `p${pr.i}` : "none"}-${++seq}`;
      let recs = [];
      if (!pr && cfg.global === null) foreignWant.push(name);
      await T.startActiveObservation(name, async (o) => {
        o.update({ input: `in ${name}` });
        if (pr) recs = [own(pr, o.otelSpan, name, `in ${name}`)];
        await body(o);
        if (op.scored && pr) {
          const s = { name: `s${++seq}`, value: 1 };
          pr.scores.push({ ...s, traceId: o.traceId, observationId: o.id, t: sim.now });
          pr.client.score.activeObservation(s);
        }
      });
      ended(recs);
    };
    const foreignWant = [];
    const flushes = [];
    const calls = [];
    const call = (pr, name, fn, check) => {
      const o = w.op(`${name} of ${pr.i}`, fn);
      const c = { pr, name, o, t: sim.now };
      calls.push(c);
      o.onSettle = () => {
        if (o.ok) check?.(o.value);
        else if (!pr.sick && !cfg.stall) sim.fail("unaffected", `${name} of project ${pr.i} failed although its server is healthy: ${o.error?.message}`);
      };
      return c;
    };

    for (const op of plan.ops)
      w.at(op.t, `op-${op.k}`, () => {
        const pr = projects[op.to];
        switch (op.k) {
          case "obs":
            doObs(op).catch((e) => sim.fail("unaffected", `tracing threw ${e?.stack}`));
            break;
          case "switch":
            current = op.to == null ? null : pr;
            T.setLangfuseTracerProvider(current ? current.provider : null);
            sim.cover("provider-switched");
            break;
          case "foreign": {
            // a span of the application itself: goes to the global provider, whatever Langfuse uses
            const g = providers ? (cfg.global === 0 ? projects[0] : null) : pr;
            const name = `${g ? `p${g.i}` : "none"}-foreign-${++seq}`;
            const s = p.api.trace.getTracer("my-genai-lib").startSpan(name, { attributes: { "gen_ai.system": "x" } });
            const r = g ? own(g, s, name) : null;
            if (!g) foreignWant.push(name);
            s.end();
            if (r) ended([r]);
            break;
          }
          case "score": {
            const s = { name: `s${++seq}`, value: seq, traceId: `t-${op.to}` };
            if (op.id != null) s.id = `score-${op.id}`; // ids are unique per project only
            pr.scores.push({ ...s, t: sim.now });
            pr.client.score.create(s);
            break;
          }
          case "prompt":
            call(pr, "prompt.get", () => pr.client.prompt.get(op.name, op.ttl === undefined ? {} : { cacheTtlSeconds: op.ttl }), (v) => {
              sim.oblige("own-answers");
              if (v.prompt !== `${op.name} of project ${pr.i}` || v.version !== pr.i + 1 || v.config?.of !== pr.i) sim.fail("own-answers", `project ${pr.i} read prompt ${clip(v.prompt)}`);
            });
            break;
          case "url": {
            call(pr, "getTraceUrl", () => pr.client.getTraceUrl("t1"), (v) => {
              sim.oblige("own-answers");
              if (v !== `${pr.base}/project/proj-${pr.i}/traces/t1`) sim.fail("own-answers", `getTraceUrl of project ${pr.i} gave ${v}`);
            });
            break;
          }
          case "trace":
            call(pr, "trace.get", () => pr.client.api.trace.get("t1"), (v) => {
              sim.oblige("own-answers");
              if (v.projectId !== `proj-${pr.i}`) sim.fail("own-answers", `trace.get of project ${pr.i} gave a trace of ${v.projectId}`);
            });
            break;
          case "flush":
          case "shutdown": {
            const before = [...pr.spans.values()].filter((s) => s.ended != null && !s.late);
            if (op.k === "shutdown") pr.down = true;
            const c = call(pr, op.k, () => (op.k === "flush" ? pr.processor.forceFlush() : pr.processor.shutdown()), () => {
              sim.oblige("own-flush");
              const sent = new Set();
              for (const r of otlpRequests(w.net)) if (r.project === pr) for (const s of r.spans) sent.add(s.spanId);
              for (const s of before) if (!sent.has(s.id)) return sim.fail("own-flush", `${op.k} of project ${pr.i} resolved but ${s.name} was never exported`);
            });
            flushes.push(c);
            break;
          }
          case "cflush":
          case "cshutdown": {
            const before = pr.scores.slice();
            call(pr, `client ${op.k.slice(1)}`, () => (op.k === "cflush" ? pr.client.flush() : pr.client.shutdown()), () => {
              sim.oblige("own-flush");
              const sent = new Set(w.net.log.filter((r) => r.route === "POST /ingestion" && r.project === pr).flatMap((r) => JSON.parse(r.body).batch.map((e) => e.body.name)));
              for (const s of before) if (!sent.has(s.name)) return sim.fail("own-flush", `flush of client ${pr.i} resolved but score ${s.name} was never sent`);
            });
          }
        }
      });

    const end = await sim.run({ horizon: 3_600_000, stallProb: cfg.stall });
    if (end === "steps") sim.fail("unaffected", "no quiescence within the step limit");

    // ---- history: what each project's server was sent
    const nameOf = (id) => projects.map((pr) => pr.spans.get(id)?.name).find(Boolean) ?? id;
    for (const pr of projects) {
      const sends = new Map();
      for (const r of otlpRequests(w.net)) {
        if (r.project !== pr) continue;
        const limit = pr.mode === "immediate" ? 1 : pr.flushAt ?? cfg.eflush ?? 512;
        if (r.spans.length > limit) return sim.fail("own-settings", `one request of project ${pr.i} carries ${r.spans.length} observations, configured ${limit}`);
        for (const s of r.spans) sends.set(s.spanId, [...(sends.get(s.spanId) ?? []), { r, s }]);
      }
      checkNoDuplicates(sim, sends, nameOf);
      for (const [id, l] of sends) {
        sim.oblige("own-spans");
        if (!pr.spans.has(id)) return sim.fail("own-spans", `project ${pr.i} received ${l[0].s.name}`);
      }
      for (const s of pr.spans.values()) {
        const l = sends.get(s.id);
        if (!l) {
          if (s.ended != null && !s.late) return sim.fail("own-spans", `${s.name} of project ${pr.i} was never exported to it`);
          continue;
        }
        const at = l[0].s.attributes;
        const wantEnv = (providers ? pr.env : null) ?? cfg.penv;
        const wantRel = (providers ? pr.release : null) ?? cfg.prel;
        if ((at[A.environment] ?? null) !== wantEnv) return sim.fail("own-settings", `${s.name} of project ${pr.i} has environment ${at[A.environment]}, configured ${wantEnv}`);
        if ((at[A.release] ?? null) !== wantRel) return sim.fail("own-settings", `${s.name} of project ${pr.i} has release ${at[A.release]}, configured ${wantRel}`);
        if ((l[0].s.parentSpanId ?? undefined) !== s.parent || l[0].s.traceId !== s.traceId) return sim.fail("own-spans", `${s.name} of project ${pr.i} was exported with parent ${l[0].s.parentSpanId}, started under ${s.parent}`);
        if ((at[A.appRoot] === true) !== s.root) return sim.fail("own-roots", `${s.name} of project ${pr.i} ${s.root ? "starts its trace" : "is inside another observation"} but has ${A.appRoot} ${at[A.appRoot]}`);
        if (s.input) {
          sim.oblige("own-settings");
          const mask = providers && pr.mask ? `|masked by ${pr.i}` : "";
          const got = String(at[A.input]);
          if (s.media !== undefined && pr.media) {
            const ref = /^see @@@langfuseMedia:type=image\/png\|id=([^|@]+)\|source=base64_data_uri@@@ for (.*)$/.exec(got);
            if (!ref || ref[2] !== `${s.name}${mask}`) return sim.fail("own-settings", `${s.name} of project ${pr.i} has input ${clip(got)}`);
            const m = pr.server.media.get(ref[1]);
            if (!pr.sick && !cfg.stall) {
              sim.oblige("own-media");
              if (!m?.bytes || !Buffer.from(m.bytes).equals(Buffer.from(`shared-file-${s.media}`))) return sim.fail("own-media", `media of ${s.name} was not stored in project ${pr.i}`);
              if (!m.links.some((x) => x.traceId === s.traceId && x.observationId === s.id)) return sim.fail("own-media", `media of ${s.name} was not announced to project ${pr.i}`);
            }
          } else if (got !== s.input + mask) return sim.fail("own-settings", `${s.name} of project ${pr.i} has input ${clip(got)}, expected ${clip(s.input + mask)}`);
        }
        if (!pr.sick && !cfg.stall && !plan.jumps.length && !s.late) {
          sim.oblige("unaffected");
          const limit = s.tEnd + 1500 + (pr.mode === "immediate" ? 0 : (pr.interval ?? cfg.einterval ?? 5) * 1000 + pr.spans.size * 250);
          if (l[0].r.t > limit) return sim.fail("unaffected", `${s.name} of healthy project ${pr.i} ended at ${s.tEnd} and was first exported at ${l[0].r.t}`);
        }
      }
      // media of one project is only ever announced for that project's observations
      for (const m of pr.server.media.values())
        for (const x of m.links) if (x.observationId && !pr.spans.has(x.observationId)) return sim.fail("own-media", `project ${pr.i} was told about media of observation ${nameOf(x.observationId)}`);
      // scores
      const got = new Map();
      for (const r of w.net.log) if (r.route === "POST /ingestion" && r.project === pr) for (const e of JSON.parse(r.body).batch) got.set(e.body.name, e.body);
      for (const [name, b] of got) {
        const s = pr.scores.find((x) => x.name === name);
        sim.oblige("own-scores");
        if (!s) return sim.fail("own-scores", `project ${pr.i} received score ${name}`);
        if (b.traceId !== s.traceId || (s.observationId && b.observationId !== s.observationId) || (s.id && b.id !== s.id)) return sim.fail("own-scores", `score ${name} of project ${pr.i} arrived as ${clip(b)}`);
      }
      for (const s of pr.scores) if (!got.has(s.name)) return sim.fail("own-scores", `score ${s.name} of project ${pr.i} was never sent to it`);
    }
    for (const name of foreignWant.filter((x) => x.includes("foreign"))) if (cfg.global === null && providers && !foreign.includes(name)) return sim.fail("own-spans", `the application's own span ${name} did not reach its own provider`);
    for (const c of calls) {
      if (!c.o.settled) return sim.fail("unaffected", `${c.name} of project ${c.pr.i} called at ${c.t} never settled`);
      if (!c.pr.sick && !cfg.stall && !plan.jumps.length) {
        sim.oblige("unaffected");
        if (c.o.end - c.t > 3000 + c.pr.spans.size * 300) return sim.fail("unaffected", `${c.name} of healthy project ${c.pr.i} took ${c.o.end - c.t} ms`);
      }
    }
  },
};
