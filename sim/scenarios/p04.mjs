// P04: media in traced payloads is uploaded intact, referenced faithfully, and covered by flush.
import nodeCrypto from "node:crypto";
import { MIX, clip } from "../harness.mjs";
import { drive, genCfg, genFlushOps } from "../lib/spans.mjs";
import { A } from "../lib/tracing.mjs";
import { LangfuseServer, isBucket } from "../server.mjs";

const TYPES = ["image/png", "image/jpeg", "audio/wav", "application/pdf", "text/plain", "image/svg+xml"];
const shaOf = (b64) => nodeCrypto.createHash("sha256").update(Buffer.from(b64, "base64")).digest("base64");
const idOf = (b64) => LangfuseServer.mediaIdOf(shaOf(b64));
const b64 = (s) => Buffer.from(s, "latin1").toString("base64");

export default {
  id: "P04",
  bundles: ["otel"],
  shrink: ["ops"],
  runs: { quick: 3000, thorough: 60000 },
  components: {
    real: ["@langfuse/otel media service and span processor", "@langfuse/core media hashing, tags, upload with backoff, API client", "OpenTelemetry SDK and OTLP exporter"],
    stub: ["network (seeded faults)", "Langfuse media API and object storage (checksum-verifying reference model)", "SHA-256 completion order", "clock, timers, randomness"],
  },
  generate(rng) {
    const span = rng.weighted([[2, 300], [3, 5000]]);
    const pool = [];
    const np = rng.weighted([[8, rng.int(1, 5)], [1, rng.int(10, 16)]]);
    for (let i = 0; i < np; i++) {
      const base = rng.weighted([[6, `m${i}-`], [1, `\x85${i}-`], [1, `\xff\xd8\xff${i}-`], [0.6, `\x89PNG${i}-`]]) + Array.from({ length: rng.int(1, 12) }, () => String.fromCharCode(rng.int(0, 255))).join("");
      const padded = base + "=".repeat((3 - (base.length % 3)) % 3); // whole base64 groups, so one URI can be a prefix of another
      pool.push({ type: rng.pick(TYPES), b64: b64(rng.bool(0.5) ? padded : base), n: i });
      if (rng.bool(0.35)) pool.push({ type: pool[pool.length - 1].type, b64: b64(padded + "ext"), n: i + 100 });
    }
    const seg = () => rng.weighted([[4, { m: rng.int(0, pool.length - 1) }], [3, { s: rng.pick(["hello", "some data: then", "100% of the data", "data:", "☃ \"q\" \\ \n", "a;base64,b", "$& $1 $$", "data:image/png;base64,AAAAA", "data:text/plain;base64,A"]) }]]);
    const segs = () => Array.from({ length: rng.weighted([[9, rng.int(1, 4)], [1, pool.length + 4]]) }, (_, i) => (i > 4 && i < pool.length ? { m: i } : seg()));
    const ops = [];
    const n = rng.int(1, 14);
    for (let i = 0; i < n; i++) {
      const op = { t: rng.int(0, span), k: "span", i, name: `s${i}`, dur: rng.int(0, 60), f: {} };
      if (rng.bool(0.15)) {
        op.ai = rng.pick(["v6", "v7in", "v7out"]);
        op.scope = rng.pick(["ai", "gen_ai"]);
        op.m = rng.int(0, pool.length - 1);
        op.part = rng.pick(["data", "image"]);
        op.uri = rng.bool(0.5);
        op.before = rng.bool(0.4); // a message without parts before it
        op.opts = rng.bool(0.3); // provider options and other files beside it
        op.odd = rng.weighted([[5, null], [1, "before"], [1, "after"]]); // a part whose content is not base64
        op.attr = rng.pick(["ai.prompt.messages", "ai.prompt"]);
      } else {
        for (const f of ["input", "output", "traceInput", "traceOutput"]) if (rng.bool(0.35)) op.f[f] = { shape: rng.pick(["text", "list", "nested", "object"]), segs: segs() };
        if (rng.bool(0.3)) op.meta = { k1: { shape: "text", segs: segs() }, input: { shape: "list", segs: segs() } };
      }
      ops.push(op);
    }
    genFlushOps(rng, ops, span);
    if (rng.bool(0.4)) ops.push({ t: span + rng.int(2000, 60000), k: "flush" });
    return { cfg: { ...genCfg(rng, span), enabled: rng.bool(0.9), bucket: rng.weighted([[4, "bucket.sim"], [1, "storage.googleapis.com"], [1, "lf.storage.googleapis.com"]]), put: rng.weighted([[3, 200], [1, 201]]) }, pool, ops };
  },

  async run({ sim, plan, bundle }) {
    const { cfg, pool } = plan;
    const uri = (m) => `data:${m.type};base64,${m.b64}`;
    const tag = (m, source = "base64_data_uri") => `@@@langfuseMedia:type=${m.type}|id=${idOf(m.b64)}|source=${source}@@@`;
    let core;
    const build = (f, asTag) => {
      const parts = f.segs.map((s) => (s.s !== undefined ? s.s : asTag ? tag(pool[s.m]) : uri(pool[s.m])));
      if (f.shape === "text") return parts.join(" ");
      if (f.shape === "object") {
        // media objects of the SDK, their bytes a view into a larger buffer
        const view = (m) => {
          const b = Buffer.from(m.b64, "base64");
          return new Uint8Array([1, 2, ...b, 3]).subarray(2, 2 + b.length);
        };
        return JSON.stringify(f.segs.map((s, i) => (s.s !== undefined || asTag ? parts[i] : new (core().LangfuseMedia)({ source: "bytes", contentBytes: view(pool[s.m]), contentType: pool[s.m].type }))));
      }
      if (f.shape === "list") return JSON.stringify(parts);
      return JSON.stringify({ content: parts.map((x) => ({ x })) });
    };
    const rough = { ...MIX.rough, truncated: 0, nonjson: 0 };
    const linkPairs = (rec) => rec.media.map((x) => `${x.id}/${x.field}`);
    const ctx = await drive({
      sim, plan, bundleFile: bundle("otel"),
      serverOpts: { bucketHost: cfg.bucket, putStatus: cfg.put },
      mix: cfg.calm ? MIX.calm : (route) => (route.startsWith("PUT") && cfg.until % 3 === 0 ? { ok: 20, 503: 20, 500: 10, reset: 20, 403: 10, slow: 10 } : rough),
      params: () => (cfg.enabled ? {} : { mediaUploadEnabled: false }),
      async runOp(c, op) {
        core = () => c.p.core;
        const rec = { name: op.name, op, media: [], want: {} };
        const attributes = {};
        const put = (key, f, field) => {
          attributes[key] = build(f, false);
          rec.want[key] = build(f, cfg.enabled);
          for (const s of f.segs) if (s.m !== undefined) rec.media.push({ m: pool[s.m], id: idOf(pool[s.m].b64), field });
        };
        for (const [k, f] of Object.entries(op.f)) put(A[k], f, /input/i.test(k) ? "input" : "output");
        if (op.meta) for (const [k, f] of Object.entries(op.meta)) put(`${A.metadata}.${k}`, f, "metadata");
        if (op.ai) {
          attributes["gen_ai.system"] = "sim";
          const m = pool[op.m];
          const t = cfg.enabled ? tag(m, "bytes") : null;
          if (op.ai === "v6") {
            const mk = (x) => JSON.stringify([...(op.before ? [{ role: "system", content: "be kind" }, { role: "user" }] : []), { role: "user", content: [{ type: "text", text: "look" }, ...(op.odd === "before" ? [{ type: "file", mediaType: m.type, data: "file_0-not base64!" }] : []), ...(op.opts ? [{ type: "file", data: "no type" }, { type: "file", mediaType: m.type }, { type: "file", mediaType: 7, data: "AAAA" }] : []), { type: "file", mediaType: m.type, [op.part]: x, ...(op.opts ? { providerOptions: { sim: { cache: true } }, filename: "f" } : {}) }, ...(op.odd === "after" ? [{ type: "file", mediaType: m.type, data: "file_0-not base64!" }] : []), { type: "file", mediaType: m.type, data: "https://x.y/z.png" }] }]);
            attributes[op.attr] = mk(m.b64);
            rec.want[op.attr] = mk(t ?? m.b64);
          } else {
            const key = op.ai === "v7in" ? "gen_ai.input.messages" : "gen_ai.output.messages";
            const raw = op.uri ? uri(m) : m.b64;
            const mk = (x) => JSON.stringify([...(op.before ? [{ role: "system", content: "be kind" }, { role: "user", parts: null }] : []), { role: "user", parts: [{ type: "text", content: "look" }, ...(op.odd === "before" ? [{ type: "blob", mime_type: m.type, content: "file_0-not base64!" }] : []), ...(op.opts ? [{ type: "blob", mime_type: m.type, content: "https://x.y/z.png" }, { type: "blob", content: "AAAA" }, { type: "blob", mime_type: m.type, content: "" }, { type: "uri", mime_type: m.type, uri: "https://x.y" }, { type: "blob", mime_type: m.type, content: "data:text/plain,plain" }] : []), { type: "blob", mime_type: m.type, content: x, ...(op.opts ? { modality: "image" } : {}) }, ...(op.odd === "after" ? [{ type: "blob", mime_type: m.type, content: "file_0-not base64!" }] : [])] }]);
            attributes[key] = mk(raw);
            rec.want[key] = mk(t ?? raw);
          }
          rec.media.push({ m, id: idOf(m.b64), field: op.ai === "v7out" ? "output" : "input" });
        }
        const s = c.provider.getTracer(op.scope ?? "langfuse-sdk").startSpan(op.name, { attributes });
        c.register(s, rec);
        await sim.sleep(op.dur);
        c.end(rec);
      },
      onFlushResolved(c, f, covered) {
        if (!cfg.enabled) return;
        const coveredIds = new Set(covered.map((s) => s.id));
        const others = new Set();
        for (const s of c.spans.values()) if (!coveredIds.has(s.id)) for (const x of s.media) others.add(x.id);
        for (const s of covered) {
          for (const x of s.media) {
            sim.oblige("flush-barrier");
            const posts = c.w.net.log.filter((r) => r.route === "POST /media" && r.method === "POST" && JSON.parse(r.body).observationId === s.id && LangfuseServer.mediaIdOf(JSON.parse(r.body).sha256Hash) === x.id);
            if (!posts.length) return sim.fail("flush-barrier", `${f.op.k}() called at ${f.t} resolved at ${sim.now} but media ${x.id} of ${s.name} (ended ${s.tEnd}) was never uploaded`);
          }
          const pend = c.w.net.log.find((r) => r.tEnd === undefined && r.op === s.endOp && r.route !== "POST /otel");
          if (pend) return sim.fail("flush-barrier", `${f.op.k}() called at ${f.t} resolved at ${sim.now} while ${pend.route} (request ${pend.id}) of ${s.name} is in flight`);
          s.mediaFinalBy ??= sim.now;
        }
      },
    });
    const { w, spans } = ctx;
    const server = w.server;
    for (const m of server.media.values()) if (m.badUpload) sim.fail("bytes-intact", `media ${m.id}: ${m.badUpload} uploads whose bytes do not match the announced checksum`);
    if (server.unsignedUploads) sim.fail("checksum", `${server.unsignedUploads} uploads to ${cfg.bucket} were sent without the headers their signed URL needs (or with others)`);
    const reqs = w.net.log.filter((r) => r.route !== "POST /otel");
    if (!cfg.enabled && reqs.length) sim.fail("disabled", `media upload disabled but request ${reqs[0].id} ${reqs[0].route} was sent`);
    const known = new Map();
    for (const s of spans.values()) for (const x of s.media) known.set(`${s.id}/${x.id}/${x.field}`, { s, x });
    for (const r of reqs) {
      if (r.route === "POST /media" && r.method === "POST") {
        const b = JSON.parse(r.body);
        const key = `${b.observationId}/${LangfuseServer.mediaIdOf(b.sha256Hash)}/${b.field}`;
        const k = known.get(key);
        if (!k) return sim.fail("link", `upload request ${r.id} links media ${LangfuseServer.mediaIdOf(b.sha256Hash)} to observation ${b.observationId} field ${b.field}, which does not contain it`);
        if (b.traceId !== k.s.traceId || b.contentType !== k.x.m.type && ![...pool].some((m) => m.b64 === k.x.m.b64 && m.type === b.contentType) || b.contentLength !== Buffer.from(k.x.m.b64, "base64").length)
          sim.fail("link", `upload request ${r.id} for ${k.s.name}: ${clip(b)}`);
      }
      if (isBucket(new URL(r.url))) {
        if (JSON.stringify(r.headers).includes(Buffer.from("pk-sim:sk-sim").toString("base64"))) sim.fail("credentials", `API credentials sent to object storage in request ${r.id}`);
        if (r.headers["content-type"] !== server.media.get(decodeURIComponent(r.url.split("/").pop()))?.contentType) sim.fail("bytes-intact", `upload ${r.id} declares ${r.headers["content-type"]}`);
      }
      const s = [...spans.values()].find((x) => x.endOp === r.op);
      if (s?.mediaFinalBy != null && r.t > s.mediaFinalBy) return sim.fail("flush-barrier", `${r.route} (request ${r.id}) of ${s.name} was sent at ${r.t}, after a flush covering it resolved at ${s.mediaFinalBy}`);
    }
    for (const s of spans.values()) {
      if (s.ended == null) continue;
      const l = ctx.sends.get(s.id);
      if (!l) {
        if (!sim.crashed && !s.afterShutdown) sim.fail("exported", `span ${s.name} with media was never exported`);
        continue;
      }
      for (const [k, v] of Object.entries(s.want)) {
        sim.oblige("reference");
        if (l[0].s.attributes[k] !== v) return sim.fail("reference", `span ${s.name} ${k}: exported ${clip(l[0].s.attributes[k], 500)}, expected ${clip(v, 500)}`);
      }
      if (!cfg.enabled || sim.crashed) continue;
      for (const x of s.media) {
        const mine = reqs.filter((r) => r.op === s.endOp);
        const posts = mine.filter((r) => r.route === "POST /media" && LangfuseServer.mediaIdOf(JSON.parse(r.body).sha256Hash) === x.id && JSON.parse(r.body).field === x.field);
        if (!posts.length) return sim.fail("uploaded", `media ${x.id} referenced by ${s.name} ${x.field} was never announced to the server`);
        sim.oblige("uploaded");
        const m = server.media.get(x.id);
        const puts = mine.filter((r) => r.method === "PUT" && r.url.endsWith("/" + encodeURIComponent(x.id)));
        const patches = mine.filter((r) => r.method === "PATCH" && r.url.endsWith("/" + encodeURIComponent(x.id)));
        const granted = posts.filter((r) => r.status === 200).length;
        const okPuts = puts.filter((r) => r.status === cfg.put).length;
        if (okPuts && !patches.length) sim.fail("reported", `upload of ${x.id} for ${s.name} succeeded but was never reported`);
        if (okPuts && !patches.some((r) => JSON.parse(r.body).uploadHttpStatus === cfg.put)) sim.fail("reported", `upload of ${x.id} for ${s.name} succeeded but was reported as ${clip(patches.map((r) => JSON.parse(r.body).uploadHttpStatus))}`);
        for (const r of patches) {
          const st = JSON.parse(r.body).uploadHttpStatus;
          if (st >= 200 && st < 300 && !puts.some((q) => q.status === st)) sim.fail("reported", `media ${x.id} reported as uploaded although no upload of ${s.name} succeeded`);
        }
        if (granted && puts.length && !okPuts && puts.length < 4) sim.fail("retried", `upload of ${x.id} for ${s.name} was given up after ${puts.length} attempts`);
        // one upload = one granted URL: at most one attempt and three retries, and a refused upload is reported as such
        const grants = mine.filter((r) => r.route === "POST /media" && r.status === 200 && LangfuseServer.mediaIdOf(JSON.parse(r.body).sha256Hash) === x.id).length;
        sim.oblige("bounded");
        if (puts.length > 4 * grants) return sim.fail("bounded", `${puts.length} upload attempts of ${x.id} for ${s.name} after ${grants} granted uploads`);
        const last = puts[puts.length - 1];
        if (grants === 1 && puts.length === 4 && typeof last.status === "number" && last.status !== cfg.put) {
          sim.oblige("failure-reported");
          if (!patches.length || JSON.parse(patches[0].body).uploadHttpStatus !== last.status) return sim.fail("reported", `upload of ${x.id} for ${s.name} ended with status ${last.status} but ${patches.length ? `was reported as ${JSON.parse(patches[0].body).uploadHttpStatus}` : "this was not reported"}`);
        }
        if (grants === 1 && patches.length) {
          // what is reported about the upload is what happened
          const b = JSON.parse(patches[0].body);
          const from = posts.find((r) => r.status === 200)?.tEnd;
          const at = Date.parse(b.uploadedAt) - sim.wallBase;
          sim.oblige("truthful-report");
          if (from !== undefined && (!(b.uploadTimeMs >= puts[puts.length - 1]?.t - puts[0]?.t - 2 && b.uploadTimeMs <= patches[0].t - from + 1) || !(at >= from - 1 && at <= patches[0].t + 1))) return sim.fail("reported", `upload of ${x.id} for ${s.name} took place between ${from} and ${patches[0].t} but was reported at ${at}, taking ${b.uploadTimeMs} ms`);
        }
        // on a healthy network everything referenced is stored and reported
        if (cfg.calm && !(m?.bytes && m.reported)) return sim.fail("uploaded", `media ${x.id} referenced by ${s.name} is not stored although the network was healthy`);
        if (granted && !puts.length && !m?.bytes) return sim.fail("uploaded", `media ${x.id} of ${s.name}: upload was granted but no bytes were sent`);
      }
    }
  },
};
