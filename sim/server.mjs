// Reference model of the Langfuse server: the durable state the SDK's guarantees are judged against.
import nodeCrypto from "node:crypto";

const json = (status, body, headers = {}) => ({ status, headers: { "content-type": "application/json", ...headers }, body: body === undefined ? "" : JSON.stringify(body) });

export function decodeAnyValue(v) {
  if (v == null) return undefined;
  if ("stringValue" in v) return v.stringValue;
  if ("boolValue" in v) return v.boolValue;
  if ("intValue" in v) return Number(v.intValue);
  if ("doubleValue" in v) return v.doubleValue;
  if ("arrayValue" in v) return (v.arrayValue.values ?? []).map(decodeAnyValue);
  if ("kvlistValue" in v) return Object.fromEntries((v.kvlistValue.values ?? []).map((kv) => [kv.key, decodeAnyValue(kv.value)]));
  return undefined;
}

export function decodeOtlp(bodyText) {
  const doc = JSON.parse(bodyText);
  const out = [];
  for (const rs of doc.resourceSpans ?? [])
    for (const ss of rs.scopeSpans ?? [])
      for (const s of ss.spans ?? [])
        out.push({
          traceId: s.traceId,
          spanId: s.spanId,
          parentSpanId: s.parentSpanId || undefined,
          name: s.name,
          scope: ss.scope?.name,
          attributes: Object.fromEntries((s.attributes ?? []).map((a) => [a.key, decodeAnyValue(a.value)])),
          status: s.status,
          events: (s.events ?? []).map((e) => ({ name: e.name, attributes: Object.fromEntries((e.attributes ?? []).map((a) => [a.key, decodeAnyValue(a.value)])) })),
          links: (s.links ?? []).map((l) => l.spanId),
          start: s.startTimeUnixNano,
          end: s.endTimeUnixNano,
        });
  return out;
}

export class LangfuseServer {
  constructor(sim, opts = {}) {
    this.sim = sim;
    this.opts = opts;
    this.spanArrivals = []; // every span in every accepted OTLP request, in order
    this.spans = new Map(); // spanId -> first accepted
    this.events = new Map(); // ingestion event id -> event (idempotent on event id)
    this.eventArrivals = [];
    this.media = new Map(); // mediaId -> {contentType, sha, length, uploadedBytes?, patched?}
    this.mediaPatches = [];
    this.mediaRequests = [];
    this.prompts = new Map(); // name -> [{version, labels, prompt, ...}]
    this.datasets = new Map(); // name -> {id,name,items:[]}
    this.datasetItems = [];
    this.runItems = [];
    this.runs = new Map();
    this.rawBodies = []; // every byte that left the process, for leak checks
    this.routes = [];
  }

  static routeName(u) {
    let p = u.pathname;
    if (isBucket(u)) return "/bucket";
    if (p.startsWith("/api/public/v2/prompts")) return "/prompts";
    if (p.startsWith("/api/public/media")) return "/media";
    if (p.startsWith("/api/public/otel")) return "/otel";
    return p.replace("/api/public", "").replace(/\/(dataset-items)\/.*/, "/$1/:id").replace(/\/v2\/datasets\/.*/, "/v2/datasets/:name").replace(/\/sessions\/.*/, "/sessions/:id");
  }

  handle(req) {
    const { method, url, body, headers } = req;
    const p = url.pathname;
    if (!isBucket(url)) this.rawBodies.push(typeof body === "string" ? body : "");
    if (this.custom) {
      const r = this.custom(req);
      if (r) return r;
    }
    if (isBucket(url)) return this.bucket(req);
    if (p === "/api/public/otel/v1/traces") {
      const spans = decodeOtlp(body);
      for (const s of spans) {
        const a = { ...s, t: this.sim.now, req: req.rec.id };
        this.spanArrivals.push(a);
        if (!this.spans.has(s.spanId)) this.spans.set(s.spanId, a);
      }
      return json(200, {});
    }
    if (p === "/api/public/ingestion") return this.ingestion(req);
    if (p === "/api/public/media" && method === "POST") return this.mediaUploadUrl(req);
    if (p.startsWith("/api/public/media/") && method === "PATCH") {
      const id = decodeURIComponent(p.split("/").pop());
      const b = JSON.parse(body);
      this.mediaPatches.push({ id, ...b, t: this.sim.now });
      const m = this.media.get(id);
      if (m && (b.uploadHttpStatus === 200 || b.uploadHttpStatus === 201)) m.reported = true;
      return { status: 204, headers: {}, body: null };
    }
    if (p.startsWith("/api/public/media/") && method === "GET") {
      const id = decodeURIComponent(p.split("/").pop());
      const m = this.media.get(id);
      if (!m) return json(404, { message: "not found", error: "LangfuseNotFoundError" });
      return json(200, { mediaId: id, contentType: m.contentType, contentLength: m.length, uploadedAt: new Date(this.sim.wall()).toISOString(), url: `https://bucket.sim/get/${id}${this.opts.urlTtl ? `?exp=${this.sim.wall() + this.opts.urlTtl}` : ""}`, urlExpiry: new Date(this.sim.wall() + (this.opts.urlTtl ?? 3600e3)).toISOString() });
    }
    if (p.startsWith("/api/public/v2/prompts")) return this.promptRoute(req);
    if (p === "/api/public/projects") return json(200, { data: [{ id: "proj-sim", name: "sim", metadata: {}, organization: { id: "o", name: "o" } }] });
    if (p.startsWith("/api/public/v2/datasets/") && method === "GET") {
      const name = decodeURIComponent(p.slice("/api/public/v2/datasets/".length));
      const d = this.datasets.get(name);
      if (!d) return json(404, { message: "Dataset not found", error: "LangfuseNotFoundError" });
      return json(200, { id: d.id, name: d.name, description: null, metadata: d.metadata ?? null, projectId: "proj-sim", createdAt: iso(0), updatedAt: iso(0) });
    }
    if (p === "/api/public/dataset-items" && method === "GET") return this.listItems(req);
    if (p === "/api/public/dataset-items" && method === "POST") {
      const b = JSON.parse(body);
      const d = this.datasets.get(b.datasetName);
      if (!d) return json(404, { message: "Dataset not found" });
      const item = { id: b.id ?? `srv-item-${this.datasetItems.length + 1}`, ...b, datasetId: d.id, status: b.status ?? "ACTIVE", createdAt: iso(0), updatedAt: iso(0), t: this.sim.now };
      this.datasetItems.push(item);
      const { t, ...pub } = item;
      return json(200, pub);
    }
    if (p === "/api/public/dataset-run-items" && method === "POST") {
      const b = JSON.parse(body);
      if (!this.runs.has(b.runName)) this.runs.set(b.runName, `run-${this.runs.size + 1}`);
      const it = { id: `ri-${this.runItems.length + 1}`, datasetRunId: this.runs.get(b.runName), datasetRunName: b.runName, datasetItemId: b.datasetItemId, traceId: b.traceId ?? "", observationId: b.observationId ?? null, createdAt: iso(0), updatedAt: iso(0) };
      this.runItems.push({ ...it, raw: b, t: this.sim.now });
      return json(200, it);
    }
    return json(404, { message: `no route ${method} ${p}`, error: "NotFound" });
  }

  ingestion(req) {
    const b = JSON.parse(req.body);
    const successes = [];
    const errors = [];
    for (const e of b.batch) {
      this.eventArrivals.push({ ...e, t: this.sim.now, req: req.rec.id });
      const rejected = this.opts.rejectEvent?.(e);
      if (rejected) {
        errors.push({ id: e.id, status: rejected, message: "rejected", error: "Invalid request data" });
        continue;
      }
      if (!this.events.has(e.id)) this.events.set(e.id, { ...e, t: this.sim.now });
      successes.push({ id: e.id, status: 201 });
    }
    return json(207, { successes, errors });
  }

  /** mediaId as the real server derives it: first 22 url-safe base64 chars of the SHA-256. */
  static mediaIdOf(sha256b64) {
    return sha256b64.replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
  }

  mediaUploadUrl(req) {
    const b = JSON.parse(req.body);
    const id = LangfuseServer.mediaIdOf(b.sha256Hash);
    this.mediaRequests.push({ ...b, id, t: this.sim.now });
    let m = this.media.get(id);
    if (!m) {
      m = { id, contentType: b.contentType, sha: b.sha256Hash, length: b.contentLength, bytes: null, reported: false, links: [] };
      this.media.set(id, m);
    }
    m.links.push({ traceId: b.traceId, observationId: b.observationId, field: b.field, datasetId: b.datasetId, datasetItemId: b.datasetItemId });
    if (m.bytes && m.reported) return json(200, { mediaId: id, uploadUrl: null });
    return json(200, { mediaId: id, uploadUrl: `https://${this.opts.bucketHost ?? "bucket.sim"}/put/${encodeURIComponent(id)}` });
  }

  bucket(req) {
    const id = decodeURIComponent(req.url.pathname.split("/").pop());
    if (req.method === "PUT") {
      const m = this.media.get(id);
      const bytes = typeof req.body === "string" ? new TextEncoder().encode(req.body) : req.body;
      if (!m) return { status: 403, headers: {}, body: "no such upload" };
      // presigned URLs: S3 signs the checksum header, Azure needs the blob type, Google storage refuses headers it did not sign
      const h = req.headers;
      const signed = req.url.hostname === "bucket.sim" ? h["x-amz-checksum-sha256"] === m.sha && h["x-ms-blob-type"] === "BlockBlob" : !Object.keys(h).some((k) => k.startsWith("x-amz") || k.startsWith("x-ms"));
      if (!signed) {
        this.unsignedUploads = (this.unsignedUploads ?? 0) + 1;
        return { status: 403, headers: {}, body: "SignatureDoesNotMatch" };
      }
      const sha = nodeCrypto.createHash("sha256").update(bytes).digest("base64");
      if (sha !== m.sha) {
        m.badUpload = (m.badUpload ?? 0) + 1;
        return { status: 400, headers: {}, body: "BadDigest" };
      }
      m.bytes = bytes;
      m.tStored = this.sim.now;
      return { status: this.opts.putStatus ?? 200, headers: {}, body: "" };
    }
    const exp = req.url.searchParams.get("exp");
    if (exp !== null && Number(exp) <= this.sim.wall()) return { status: 403, headers: {}, body: "Request has expired" };
    const m = this.media.get(id);
    if (!m || !m.bytes) return { status: 404, headers: {}, body: "NoSuchKey" };
    return { status: 200, headers: { "content-type": m.contentType }, body: m.bytes };
  }

  promptRoute(req) {
    return json(404, { message: "not modelled" });
  }

  listItems(req) {
    const q = req.url.searchParams;
    const d = this.datasets.get(q.get("datasetName"));
    const page = Number(q.get("page") ?? 1);
    const limit = Math.min(Number(q.get("limit") ?? 50), this.opts.pageCap ?? 100);
    const all = d ? d.items : [];
    const total = all.length;
    return json(200, { data: all.slice((page - 1) * limit, page * limit), meta: { page, limit, totalItems: total, totalPages: Math.ceil(total / limit) } });
  }
}

export const isBucket = (u) => u.hostname === "bucket.sim" || u.hostname.endsWith("storage.googleapis.com");
export const iso = (ms) => new Date(1_760_000_000_000 + ms).toISOString();
export { json };
