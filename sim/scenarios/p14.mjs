// P14: dataset reads are complete or fail; dataset items are created once, after all their media is stored.
import nodeCrypto from "node:crypto";
import { World, MIX, clip, LangfuseServer } from "../harness.mjs";

const shaOf = (s) => nodeCrypto.createHash("sha256").update(Buffer.from(s, "latin1")).digest("base64");
const idOf = (s) => LangfuseServer.mediaIdOf(shaOf(s));
const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const CT = ["image/png", "audio/wav", "application/pdf"];

// object keys the server may name in a JSONPath (single-quoted, unescaped)
const KEYS = ["pic", "a.b", "it's", "x[0]", "ü ☃", "$", "__proto_", "9lives", "", "-1", "@@@"];

/** A stored field with media references at arbitrary places: [value, references]. */
function storedField(next, field, base) {
  const refs = [];
  const make = (path, depth) => {
    const k = next(depth > 3 ? 4 : 9);
    if (k === 0) return `text ${path}`;
    if (k === 1) return next(3) - 1;
    if (k <= 3 || (k === 4 && path === "$")) {
      const id = `mid-${base}-${next(6)}`;
      const referenceString = `@@@langfuseMedia:type=image/png|id=${id}|source=bytes@@@`;
      refs.push({ field, jsonPath: path, referenceString, media: { mediaId: id, contentType: next(2) ? "image/png" : "audio/wav", url: `https://bucket.sim/get/${id}?${refs.length}`, urlExpiry: `2030-01-0${1 + next(8)}T00:00:00Z`, contentLength: next(500) } });
      return referenceString;
    }
    if (k <= 6) {
      const o = {};
      for (let i = next(4); i >= 0; i--) {
        const key = KEYS[next(KEYS.length)];
        if (!(key in o)) o[key] = make(`${path}['${key}']`, depth + 1);
      }
      return o;
    }
    return Array.from({ length: 1 + next(12) }, (_, i) => (i > 3 && i !== 10 ? i : make(`${path}[${i}]`, depth + 1)));
  };
  return [make("$", 0), refs];
}
const at = (v, path) => {
  for (const m of path.matchAll(/\['(.*?)'\]|\[(\d+)\]/g)) v = v?.[m[1] ?? m[2]];
  return v;
};

function genValue(rng, tag, depth = 0) {
  const k = rng.weighted([[3, "str"], [1, "null"], [1, "num"], [1, "bool"], [depth < 4 ? 3 : 0, "obj"], [depth < 4 ? 2 : 0, "arr"], [2.5, "media"], [0.4, "date"], [0.4, "undef"], [0.06, "badmedia"], [0.5, "ref"], [depth < 2 ? 0.6 : 0, "deep"], [depth < 3 ? 0.6 : 0, "dup"]]);
  if (k === "deep") return { k, n: rng.int(3, 18 - 2 * depth), v: genValue(rng, `${tag}.d`, 9) };
  if (k === "dup") return { k, v: genValue(rng, `${tag}.s`, depth + 1) };
  if (k === "date" || k === "undef" || k === "badmedia") return { k };
  if (k === "str") return `v-${tag}`;
  if (k === "null") return null;
  if (k === "num") return rng.int(0, 99);
  if (k === "bool") return true;
  if (k === "obj") return { k, bare: rng.bool(0.15), v: Object.fromEntries(Array.from({ length: rng.int(0, 3) }, (_, i) => [rng.weighted([[8, `f${i}`], [1, ` pad ${i} `], [1, `${i}.a[0]`], [0.5, i ? `f${i}` : ""]]), genValue(rng, `${tag}.${i}`, depth + 1)])) };
  if (k === "arr") return { k, v: Array.from({ length: rng.int(0, 3) }, (_, i) => genValue(rng, `${tag}.${i}`, depth + 1)) };
  if (k === "media") return { k, c: rng.bool(0.6) ? `bytes-${tag}` : "shared-bytes", t: rng.int(0, 2), src: rng.pick(["bytes", "base64_data_uri"]) };
  return { k, c: `old-${tag}`, src: rng.pick(["bytes", "base64_data_uri", "file"]), t: rng.int(0, 2) };
}

export default {
  id: "P14",
  bundles: ["app"],
  shrink: ["ops"],
  runs: { quick: 5000, thorough: 100000 },
  components: {
    real: ["@langfuse/client dataset manager (pagination, hydration, item creation, linking), LangfuseClient", "@langfuse/core media upload, API client"],
    stub: ["network (seeded faults)", "Langfuse dataset and media API, object storage (checksum-verifying reference model)", "SHA-256 completion order", "clock, timers, randomness"],
  },
  generate(rng) {
    const ops = [];
    const n = rng.int(1, 9);
    const nds = rng.int(1, 3);
    for (let i = 0; i < n; i++) {
      const k = rng.weighted([[4, "get"], [5, "create"], [1, "link"]]);
      const op = { t: rng.int(0, 1500), k, i, ds: rng.int(0, nds - 1) };
      if (k === "get") Object.assign(op, { page: rng.weighted([[2, null], [2, 1], [3, rng.int(2, 7)], [1, 100], [0.5, 500]]), version: rng.bool(0.25), missing: rng.bool(0.05) });
      if (k === "create") Object.assign(op, { f: Object.fromEntries(["input", "expectedOutput", "metadata"].filter(() => rng.bool(0.6)).map((f) => [f, genValue(rng, `${i}${f[0]}`)])), id: rng.bool(0.4) ? `given-${i}` : null, extra: rng.bool(0.3) });
      ops.push(op);
    }
    ops.sort((a, b) => a.t - b.t);
    const sizes = Array.from({ length: nds }, () => rng.weighted([[1, 0], [4, rng.int(1, 8)], [2, rng.int(9, 40)], [1, rng.pick([50, 51, 100, 101, 149])]]));
    const calm = rng.bool(0.3);
    return { cfg: { calm, until: rng.pick([300, 2500, 1e9]), sizes, cap: rng.pick([100, 100, 30]), bucketDown: rng.bool(0.15), mseed: rng.int(0, 1e9), media: rng.bool(0.4), put: rng.weighted([[3, 200], [1, 201]]) }, ops };
  },
  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    const mix = (route) => (cfg.calm ? MIX.calm : cfg.bucketDown && route === "PUT /bucket" ? { ok: 1, 403: 4, 400: 1 } : { ok: 75, reset: 3, "lost-response": 3, 503: 4, 500: 3, 429: 3, 400: 2, stall: 1, "504-processed": 2, truncated: 2, nonjson: 1, slow: 4 });
    const w = new World(sim, bundle("app"), { mix, until: cfg.until, serverOpts: { pageCap: cfg.cap, putStatus: cfg.put } });
    const p = w.load();
    w.startTracing(p, { processors: [] });
    const client = new p.client.LangfuseClient();
    cfg.sizes.forEach((n, d) => {
      const items = Array.from({ length: n }, (_, i) => {
        const it = { id: `d${d}-i${i}`, datasetId: `dsid-${d}`, datasetName: `ds ${d}/x`, input: { q: i, nest: [{ a: "x" }] }, expectedOutput: i % 3 ? `e${i}` : null, metadata: { m: i }, status: "ACTIVE", mediaReferences: [] };
        if (cfg.media && i % 2 === 0) {
          let x = (cfg.mseed + d * 7919 + i * 104729) >>> 0;
          const next = (n) => {
            x = (Math.imul(x, 1664525) + 1013904223) >>> 0;
            return (x >>> 10) % n;
          };
          for (const f of ["input", "expectedOutput", "metadata"]) {
            if (f !== "input" && next(2)) continue;
            const [v, refs] = storedField(next, f, `${d}-${i}`);
            it[f] = v;
            for (const ref of refs) it.mediaReferences.splice(next(it.mediaReferences.length + 1), 0, ref);
          }
          // references that cannot be placed leave the item as it is
          const ref = (jsonPath, field, more) => ({ field, jsonPath, referenceString: "r", media: { mediaId: "lost", contentType: "image/png", url: "https://bucket.sim/get/lost", urlExpiry: "2030-01-01T00:00:00Z", contentLength: 3 }, lost: true, ...more });
          const lost = [ref("$['gone']['x']", "metadata"), ref("$", "futureField"), ref("$", "metadata", { media: null }), ref("$.dotted", "input"), ref("x", "input"), ref("$['open", "input")];
          it.mediaReferences.splice(next(it.mediaReferences.length + 1), 0, lost[next(lost.length)]);
          if (it.metadata && it.metadata.gone) delete it.metadata.gone;
        }
        return it;
      });
      w.server.datasets.set(`ds ${d}/x`, { id: `dsid-${d}`, name: `ds ${d}/x`, items });
    });
    const refText = (v) => `@@@langfuseMedia:type=${CT[v.t]}|id=${idOf(v.c)}|source=${v.src}@@@`;
    const creates = [];
    const gets = [];
    const reused = new Map();
    const build = (v) => {
      if (v === null || typeof v !== "object") return v;
      if (v.k === "obj") return Object.assign(v.bare ? Object.create(null) : {}, Object.fromEntries(Object.entries(v.v).map(([k, x]) => [k, build(x)])));
      if (v.k === "arr") return v.v.map(build);
      if (v.k === "deep") {
        let x = build(v.v);
        for (let i = 0; i < v.n; i++) x = i % 2 ? { in: x } : [x];
        return x;
      }
      if (v.k === "dup") {
        const x = build(v.v);
        return { a: x, b: [x] };
      }
      if (v.k === "date") return new Date(1.7e12);
      if (v.k === "undef") return undefined;
      if (v.k === "badmedia") return new p.core.LangfuseMedia({ source: "base64_data_uri", base64DataUri: "data:nothing" });
      if (v.k === "ref") return new p.core.LangfuseMediaReference({ mediaId: idOf(v.c), contentType: "image/png", url: "https://bucket.sim/get/x", referenceString: refText(v) });
      // an application may put one media object into several items
      if (v.c === "shared-bytes") {
        const key = `${v.t}${v.src}`;
        if (!reused.has(key)) reused.set(key, media(v));
        return reused.get(key);
      }
      return media(v);
    };
    const media = (v) => {
      // a view into a larger buffer, as Node's pooled buffers are
      const bytes = new Uint8Array(Buffer.from(`xx${v.c}yyy`, "latin1")).subarray(2, 2 + v.c.length);
      return v.src === "bytes" ? new p.core.LangfuseMedia({ source: "bytes", contentBytes: bytes, contentType: CT[v.t] }) : new p.core.LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${CT[v.t]};base64,${Buffer.from(v.c, "latin1").toString("base64")}` });
    };
    const expectWire = (v, media) => {
      if (v === null || typeof v !== "object") return v;
      if (v.k === "obj") return Object.fromEntries(Object.entries(v.v).map(([k, x]) => [k, expectWire(x, media)]));
      if (v.k === "arr") return v.v.map((x) => expectWire(x, media));
      if (v.k === "deep") {
        let x = expectWire(v.v, media);
        for (let i = 0; i < v.n; i++) x = i % 2 ? { in: x } : [x];
        return x;
      }
      if (v.k === "dup") {
        const x = expectWire(v.v, media);
        return { a: x, b: [x] };
      }
      if (v.k === "date") return new Date(1.7e12).toISOString();
      if (v.k === "undef") return undefined;
      if (v.k === "badmedia") return void media.bad.push(v);
      if (v.k === "media") media.set(idOf(v.c), v);
      return v.k === "ref" ? refText(v) : `@@@langfuseMedia:type=${CT[v.t]}|id=${idOf(v.c)}|source=${v.src}@@@`;
    };
    // durable state of media when a create request leaves the process
    w.net.onSend = (rec) => {
      if (rec.route === "POST /dataset-items") rec.stored = new Set([...w.server.media.values()].filter((m) => m.bytes).map((m) => m.id));
    };

    for (const op of plan.ops)
      w.at(op.t, `op-${op.k}`, () => {
        const name = `ds ${op.ds}/x`;
        if (op.k === "get") {
          const o = w.op(`get ${name}`, () => client.dataset.get(op.missing ? "nope" : name, { ...(op.page ? { fetchItemsPageSize: op.page } : {}), ...(op.version ? { version: "2026-01-01T00:00:00Z" } : {}) }));
          gets.push({ op, o, from: w.net.log.length });
        } else if (op.k === "create") {
          const req = { datasetName: name, ...Object.fromEntries(Object.entries(op.f).map(([k, v]) => [k, build(v)])) };
          if (op.id) req.id = op.id;
          if (op.extra) Object.assign(req, { sourceTraceId: `tr-${op.i}` }, op.i % 3 ? {} : { status: "ARCHIVED", sourceObservationId: `ob-${op.i}` });
          const snapshot = JSON.stringify(req);
          const o = w.op(`create ${op.i}`, () => (op.i % 2 ? client.createDatasetItem(req) : client.dataset.createItem(req)));
          const c = { op, o, req, snapshot };
          creates.push(c);
          o.onSettle = () => {
            if (!o.ok) return;
            const id = o.value?.id;
            if (!w.server.datasetItems.some((x) => x.id === id)) sim.fail("created", `createItem ${op.i} resolved with id ${id} which the server does not have`);
          };
        } else {
          const tracer = p.api.trace.getTracer("t");
          const s = tracer.startSpan("x");
          const runName = op.i % 2 ? `run-${op.i}` : ` Run  ${op.i}/ü\t`;
          const linkArgs = [undefined, { description: "d", metadata: { a: 1 } }, { metadata: { b: op.i } }, { description: "only" }, {}][op.i % 5];
          const o = w.op(`link ${op.i}`, async () => {
            const d = await client.dataset.get(name);
            if (!d.items.length) return null;
            const it = d.items[op.i % d.items.length];
            return { it, r: await it.link({ otelSpan: s }, runName, ...(linkArgs ? [linkArgs] : [])) };
          });
          o.onSettle = () => {
            if (!o.ok || !o.value) return;
            const sent = w.net.log.filter((r) => r.route === "POST /dataset-run-items" && JSON.parse(r.body).runName === runName).map((r) => JSON.parse(r.body));
            sim.oblige("link");
            const c = s.spanContext();
            if (!sent.length || sent.some((b) => b.datasetItemId !== o.value.it.id || b.traceId !== c.traceId || b.observationId !== c.spanId || (b.runDescription ?? undefined) !== linkArgs?.description || !eq(b.metadata ?? undefined, linkArgs?.metadata))) sim.fail("link", `link sent ${clip(sent)}`);
          };
        }
      });
    const end = await sim.run({ horizon: 3_600_000 });
    if (end === "steps") sim.fail("settles", "no quiescence");

    const reqsOf = (o, route) => w.net.log.filter((r) => r.op === o && r.route === route);
    const retryable = (r) => r.status === 408 || r.status === 429 || r.status >= 500;
    for (const o of w.ops) if (!o.settled) return sim.fail("settles", `${o.name} started at ${o.start} never settled`);
    for (const { op, o } of gets) {
      const ds = w.server.datasets.get(`ds ${op.ds}/x`);
      const mine = w.net.log.filter((r) => r.op === o);
      if (o.ok) {
        sim.oblige("complete-read");
        if (op.missing) return sim.fail("complete-read", `reading a missing dataset resolved`);
        const got = o.value.items.map((x) => x.id);
        const want = ds.items.map((x) => x.id);
        if (!eq(got, want)) return sim.fail("complete-read", `get("${ds.name}", page size ${op.page}) returned ${got.length} items ${clip(got)}, the dataset has ${want.length}`);
        if (o.value.id !== ds.id || o.value.name !== ds.name) return sim.fail("complete-read", `dataset fields ${clip({ id: o.value.id, name: o.value.name })}`);
        for (let i = 0; i < want.length; i++) {
          const { link, mediaReferences, ...rest } = o.value.items[i];
          const { mediaReferences: m2, ...w2 } = ds.items[i];
          if (!eq(rest, w2) || typeof link !== "function") return sim.fail("content", `item ${want[i]}: ${clip(rest)}, server has ${clip(w2)}`);
          if (m2.length) {
            sim.oblige("hydrated");
            for (const m of m2) {
              if (m.lost) continue;
              const x = at(o.value.items[i][m.field], m.jsonPath);
              if (!(x instanceof p.core.LangfuseMediaReference) || x.referenceString !== m.referenceString || ["mediaId", "contentType", "url", "urlExpiry", "contentLength"].some((k) => x[k] !== m.media[k])) return sim.fail("hydrated", `item ${want[i]}: media reference ${m.field} ${m.jsonPath} not resolved: ${clip(x)}`);
            }
          }
        }
        for (const r of mine.filter((r) => r.route === "GET /dataset-items")) {
          const q = new URL(r.url).searchParams;
          if ((q.get("version") ?? null) !== (op.version ? "2026-01-01T00:00:00Z" : null)) return sim.fail("content", `page request without the dataset version: ${r.url}`);
        }
      } else if (cfg.calm && !op.missing) return sim.fail("complete-read", `get rejected on a healthy network: ${o.error?.message}`);
      else if (!op.missing && !mine.some((r) => r.status !== 200 || ["truncated", "nonjson"].includes(r.outcome))) return sim.fail("complete-read", `get rejected although every request succeeded: ${o.error?.stack}`);
    }
    for (const c of creates) {
      const { op, o, req, snapshot } = c;
      const media = Object.assign(new Map(), { bad: [] });
      const wire = Object.fromEntries(Object.entries(op.f).map(([k, v]) => [k, expectWire(v, media)]));
      if (JSON.stringify(req) !== snapshot) return sim.fail("request-untouched", `createItem ${op.i} changed the caller's request object`);
      const posts = reqsOf(o, "POST /dataset-items");
      if (media.bad.length) {
        sim.oblige("invalid-media");
        if (o.ok || posts.length) return sim.fail("media-first", `createItem ${op.i} contains media that cannot be read but the item was sent`);
        continue;
      }
      const uploads = reqsOf(o, "POST /media");
      const puts = w.net.log.filter((r) => r.op === o && r.method === "PUT");
      sim.oblige(media.size ? "create-with-media" : "create-plain");
      if (!media.size && (uploads.length || puts.length)) return sim.fail("no-needless-uploads", `createItem ${op.i} has no media but sent ${uploads.length + puts.length} upload requests`);
      for (let k = 0; k < posts.length; k++) {
        const b = JSON.parse(posts[k].body);
        if (k && !(retryable(posts[k - 1]) && posts[k - 1].body === posts[k].body && posts[k - 1].tEnd <= posts[k].t)) return sim.fail("created-once", `createItem ${op.i}: item sent again in request ${posts[k].id} after request ${posts[k - 1].id} ended with ${posts[k - 1].status}`);
        for (const f of ["input", "expectedOutput", "metadata"]) if (!eq(b[f], wire[f])) return sim.fail("content", `createItem ${op.i} ${f}: sent ${clip(b[f])}, expected ${clip(wire[f])}`);
        if (b.datasetName !== req.datasetName || (op.id && b.id !== op.id) || !b.id || ["sourceTraceId", "status", "sourceObservationId"].some((f) => (b[f] ?? null) !== (req[f] ?? null))) return sim.fail("content", `createItem ${op.i}: sent ${clip(b)}`);
        for (const id of media.keys()) {
          sim.oblige("media-first");
          if (!posts[k].stored.has(id)) return sim.fail("media-first", `createItem ${op.i}: the item was sent at ${posts[k].t} while its media ${id} is not stored`);
        }
        for (const r of uploads) {
          const u = JSON.parse(r.body);
          if (u.datasetItemId !== b.id || u.datasetId !== `dsid-${op.ds}` || !(u.field in op.f)) return sim.fail("content", `createItem ${op.i}: media announced for ${clip(u)}`);
        }
      }
      const itemMedia = new Set(uploads.map((r) => LangfuseServer.mediaIdOf(JSON.parse(r.body).sha256Hash)));
      for (const id of itemMedia) if (!media.has(id)) return sim.fail("content", `createItem ${op.i} announced media ${id} it does not contain`);
      const mine = w.net.log.filter((r) => r.op === o);
      const troubled = mine.some((r) => !(r.status >= 200 && r.status < 300) || ["truncated", "nonjson"].includes(r.outcome));
      if (o.ok) {
        if (!posts.length) return sim.fail("created", `createItem ${op.i} resolved without creating the item`);
        for (const id of media.keys()) if (!itemMedia.has(id)) return sim.fail("media-first", `createItem ${op.i} resolved but its media ${id} was never announced for it`);
      } else if (!troubled) return sim.fail("created", `createItem ${op.i} rejected although every request succeeded: ${o.error?.stack}`);
    }
  },
};
