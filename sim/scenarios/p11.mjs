// P11: API calls are retried, timed out, aborted and answered exactly as documented.
import { readFileSync } from "node:fs";
import { World, MIX, clip, LangfuseServer } from "../harness.mjs";

const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const NAMES = ["plain", "with space", "a/b/c", "ünï☃", "q?x=1&y", "100%", "#frag", "dots..", "plus+eq=", "semi;colon,"];

/** Every operation of the public API: [operation, method, path, path parameters, query parameters
 *  (s string, n number, b boolean, a one or several strings), has a body, takes a request, answers nothing]. */
const API = JSON.parse(readFileSync(new URL("../lib/endpoints.json", import.meta.url), "utf8")).map(([name, method, path, args, query, body, request, none]) => ({ name, method, path, args, query, body, request, none }));
const BODIES = [
  (op) => ({ id: `o${op.x}`, text: `${NAMES[op.n]} "quoted" \u2028 ${"x".repeat(op.x)}`, n: null, deep: [{ v: 0, f: false, e: "" }, op.x, []] }),
  (op) => ({ batch: Array.from({ length: op.x % 4 }, (_, i) => ({ id: `e${i}`, type: "score-create", timestamp: "2026-01-01T00:00:00Z", body: { name: NAMES[op.n], value: i, drop: undefined } })), metadata: null }),
  () => ({}),
  (op) => ({ big: "ü".repeat(op.x * 500), newLabels: ["a", NAMES[op.n]] }),
];

// operations the client also offers under their older names
const OLD = { "trace.get": "fetchTrace", "trace.list": "fetchTraces", "legacy.observationsV1.get": "fetchObservation", "observations.getMany": "fetchObservations", "sessions.get": "fetchSessions", "datasets.getRun": "getDatasetRun", "datasets.getRuns": "getDatasetRuns", "datasets.create": "createDataset", "datasetItems.get": "getDatasetItem", "media.get": "fetchMedia" };
const ANSWERS = [undefined, "null", "0", "[]", '""', '{"a":{"__proto__":1,"d":"2026-01-01T00:00:00Z"}}'];
// errors the API definition declares without a body
const NOBODY = { "health.health": [503], "feedback.submit": [409] };
const TYPED = { 401: "UnauthorizedError", 403: "AccessDeniedError", 404: "NotFoundError", 405: "MethodNotAllowedError" };
const BASES = ["https://lf.sim/base/", "https://lf.sim/base", "https://lf.sim", "https://lf.sim/", "https://lf.sim:8443/a/b%20c/"];

/** The call one plan operation makes, and the request it should put on the wire. */
function call(client, op, o) {
  const { api } = client;
  const e = API[op.call];
  const vals = e.args.map((a, i) => (a.endsWith(":n") ? op.x : NAMES[(op.n + 3 * i) % NAMES.length]));
  let path = e.path;
  e.args.forEach((a, i) => (path = path.replace(`{${a.split(":")[0]}}`, encodeURIComponent(String(vals[i])))));
  const q = [];
  const args = [...vals];
  let b;
  if (e.request) {
    let r = {};
    if (e.body) r = b = BODIES[op.b](op);
    Object.keys(e.query).forEach((k, i) => {
      const kind = e.query[k];
      const pick = (op.q + i * 7) % 9; // which of the values below this parameter takes
      if (pick === 0) return; // not given
      if (pick === 1 && op.nulls) return void (r[k] = undefined);
      const v = kind === "n" ? (pick === 2 ? 0 : op.x + i) : kind === "b" ? pick % 2 === 0 : kind === "a" && pick > 4 ? [NAMES[op.n], op.nulls ? NAMES[op.n] : "", "b b"].slice(0, pick - 5) : pick === 3 && op.nulls ? "" : `${NAMES[(op.n + i) % NAMES.length]}${pick}`;
      r[k] = v;
      for (const x of Array.isArray(v) ? v : [v]) q.push([k, String(x)]);
    });
    args.push(r);
  }
  if (o) args.push(o);
  const path2 = e.name.split(".");
  const target = path2.slice(0, -1).reduce((t, k) => t[k], api);
  if (op.qp) q.push(["extra", `${NAMES[op.n]}&x`]);
  const compat = op.old && OLD[e.name];
  return { f: () => (compat ? client[compat](...args) : target[path2.at(-1)](...args)), m: e.method, p: path, q, b, void: e.none };
}

export default {
  id: "P11",
  bundles: ["client"],
  shrink: ["ops"],
  runs: { quick: 8000, thorough: 150000 },
  components: {
    real: ["@langfuse/core generated API client: resources, fetcher, retries, timeouts, auth", "@langfuse/client LangfuseClient wiring"],
    stub: ["network (seeded faults)", "Langfuse API (echoing model with scripted statuses and headers)", "clock, timers, randomness"],
  },
  generate(rng) {
    const n = rng.int(1, 7);
    const ops = Array.from({ length: n }, (_, i) => {
      const op = { t: rng.int(0, 3000), i, call: rng.int(0, API.length - 1), b: rng.int(0, BODIES.length - 1), q: rng.int(0, 8), nulls: rng.bool(0.5), n: rng.int(0, NAMES.length - 1), x: rng.int(1, 40) };
      op.script = [];
      const len = rng.weighted([[3, 0], [3, 1], [2, 2], [2, 3], [1, 6]]);
      for (let k = 0; k < len; k++) {
        const status = rng.weighted([[4, 429], [3, 503], [2, 500], [1, 502], [1, 504], [1, 408], [0.7, 400], [0.7, 404], [0.4, 401], [0.4, 403], [0.3, 405], [0.4, 409], [0.4, 422], [0.3, 599], [0.4, 501], [0.3, 505], [0.3, 529]]);
        const s = { s: status };
        const h = rng.weighted([[4, null], [3, "secs"], [2, "date"], [2, "reset"], [0.5, "junk"], [0.5, "zero"], [0.5, "both"]]);
        if (h) s.h = h;
        if (h) s.v = rng.weighted([[4, rng.int(1, 5)], [1, rng.int(6, 59)], [1, rng.int(60, 400)], [0.5, -rng.int(1, 100)]]);
        s.ct = rng.weighted([[6, "application/json"], [1, "application/json; charset=utf-8"], [1, "text/html"], [0.5, "none"]]);
        op.script.push(s);
      }
      op.retries = rng.weighted([[6, null], [1, 0], [1, 1], [1, rng.int(2, 6)]]);
      op.timeout = rng.weighted([[4, null], [2, 1], [1, 0.2], [1, 5]]);
      if (rng.bool(0.2)) op.abort = rng.int(0, 6000);
      op.ans = rng.weighted([[8, 0], [1, 1], [1, 2], [1, 3], [1, 4], [1, 5]]);
      if (rng.bool(0.15)) op.qp = 1;
      if (rng.bool(0.2)) op.raw = 1;
      if (rng.bool(0.3)) op.old = 1;
      if (rng.bool(0.1)) op.noExtra = 1;
      if (rng.bool(0.2)) op.hdr = `h${i}`;
      if (rng.bool(0.15)) op.slow = rng.int(500, 90000);
      return op;
    }).sort((a, b) => a.t - b.t);
    return { cfg: { calm: rng.bool(0.3), until: rng.pick([2000, 20000, 1e9]), extra: rng.bool(0.3), base: rng.int(0, BASES.length - 1), keys: rng.pick(["params", "params", "env", "both"]), url: rng.pick(["param", "param", "env", "legacy"]), clientTimeout: rng.bool(0.1) ? 2 : null }, ops, jumps: rng.bool(0.25) ? [{ t: rng.int(0, 6000), by: rng.pick([-3600e3, -5000, 5000, 3600e3]) }] : [] };
  },
  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    sim.liveTimers = new Set();
    const mix = cfg.calm ? MIX.calm : { ok: 70, reset: 3, "lost-response": 2, 503: 4, 500: 2, 429: 3, "504-processed": 2, stall: 4, truncated: 3, nonjson: 2, "400-cut": 2, "503-cut": 2, slow: 4 };
    const w = new World(sim, bundle("client"), { mix, until: cfg.until });
    const BASE = BASES[cfg.base];
    const env = {};
    if (cfg.keys !== "params") Object.assign(env, { LANGFUSE_PUBLIC_KEY: cfg.keys === "env" ? "pk:ü" : "other", LANGFUSE_SECRET_KEY: cfg.keys === "env" ? "sk☃" : "other" });
    if (cfg.url === "env") Object.assign(env, { LANGFUSE_BASE_URL: BASE, LANGFUSE_BASEURL: "https://wrong.sim" });
    else if (cfg.url === "legacy") env.LANGFUSE_BASEURL = BASE;
    else env.LANGFUSE_BASE_URL = "https://wrong.sim";
    w.env = env;
    const p = w.load();
    const client = new p.client.LangfuseClient({ ...(cfg.keys !== "env" ? { publicKey: "pk:ü", secretKey: "sk☃" } : {}), ...(cfg.url === "param" ? { baseUrl: BASE } : {}), ...(cfg.clientTimeout ? { timeout: cfg.clientTimeout } : {}), ...(cfg.extra ? { additionalHeaders: { "X-Extra": "e1" } } : {}) });
    w.clockJumps(plan.jumps);
    const byOp = new Map();
    const wallIso = (d) => new Date(sim.wall() + d).toUTCString();
    w.server.custom = ({ rec, method, url, body }) => {
      const c = byOp.get(rec.op);
      const k = c.served++;
      const s = c.op.script[k];
      if (!s) return { status: c.void ? 204 : 200, headers: { "content-type": "application/json" }, body: c.void ? null : ANSWERS[c.op.ans] ?? JSON.stringify({ echo: [method, url.pathname, url.search], body: body ?? null, nth: k, op: c.op.i }) };
      const headers = { "content-type": s.ct };
      if (s.ct === "none") delete headers["content-type"];
      if (s.h === "secs") headers["retry-after"] = String(s.v);
      if (s.h === "date") headers["retry-after"] = wallIso(s.v * 1000);
      if (s.h === "reset") headers["x-ratelimit-reset"] = String(Math.floor(sim.wall() / 1000) + s.v);
      if (s.h === "junk") Object.assign(headers, { "retry-after": "later", "x-ratelimit-reset": "never" });
      if (s.h === "zero") headers["retry-after"] = "0";
      if (s.h === "both") Object.assign(headers, { "retry-after": String(Math.abs(s.v)), "x-ratelimit-reset": String(Math.floor(sim.wall() / 1000) + 300) });
      return { status: s.s, headers, body: /json/.test(s.ct) ? JSON.stringify({ error: "Scripted", message: `m${k}`, n: c.op.i }) : "<p>scripted</p>" };
    };
    for (const op of plan.ops)
      w.at(op.t, `op-${API[op.call].name}`, () => {
        const ro = {};
        if (op.retries !== null) ro.maxRetries = op.retries;
        if (op.timeout !== null) ro.timeoutInSeconds = op.timeout;
        if (op.qp) ro.queryParams = { extra: `${NAMES[op.n]}&x` };
        if (op.hdr) ro.headers = { "X-Call": op.hdr };
        if (op.noExtra) ro.headers = { ...ro.headers, "X-Extra": `own${op.i}` };
        const c = { op, served: 0 };
        if (op.abort !== undefined) {
          const ac = new AbortController();
          ro.abortSignal = ac.signal;
          sim.schedule(op.abort, "abort", () => {
            c.abortedAt = sim.now;
            c.abortSettled = c.o?.settled;
            ac.abort();
          });
        }
        Object.assign(c, call(client, op, Object.keys(ro).length ? ro : undefined));
        const o = w.op(`${API[op.call].name} ${op.i}`, () => {
          const store = w.ops.at(-1);
          byOp.set(store, c);
          const r = c.f();
          if (!op.raw) return r;
          return Promise.resolve(r.withRawResponse()).then((x) => {
            c.rawResponse = x.rawResponse;
            return x.data;
          });
        });
        c.o = o;
        byOp.set(o, c);
        o.onSettle = () => {
          sim.oblige("no-lingering-timer");
          const t = [...sim.liveTimers].filter((x) => x.refd && x.op === o);
          if (t.length) sim.fail("no-lingering-timer", `${o.name} settled at ${sim.now} but left ${t.length} timer(s) running that keep the process alive`);
        };
      });
    const end = await sim.run({ horizon: 7_200_000 });
    if (end === "steps") sim.fail("settles", "no quiescence");
    const retryable = (st) => st === 408 || st === 429 || st >= 500;
    const auth = "Basic " + Buffer.from("pk:ü:sk☃", "utf8").toString("base64");
    for (const c of byOp.values()) {
      const { op, o } = c;
      if (!o.settled) return sim.fail("settles", `${o.name} started at ${op.t} never settled`);
      const reqs = w.net.log.filter((r) => r.op === o);
      const max = op.retries ?? 2;
      const timeout = op.timeout === null ? 60000 : op.timeout * 1000;
      if (!reqs.length) {
        if (c.abortedAt === undefined || c.abortedAt > op.t) return sim.fail("sent", `${o.name} sent no request: ${o.error?.stack}`);
        continue;
      }
      if (reqs.length > max + 1) return sim.fail("retry-limit", `${o.name} made ${reqs.length} attempts with maxRetries ${max}`);
      for (let k = 0; k < reqs.length; k++) {
        const r = reqs[k];
        sim.oblige("request-exact");
        const u = new URL(r.url);
        const q = [...u.searchParams.entries()];
        const sort = (x) => x.map((e) => e.join("=")).sort();
        if (r.method !== c.m || u.pathname !== new URL(BASE.replace(/\/$/, "") + c.p).pathname || !eq(sort(q), sort(c.q)) || u.host !== new URL(BASE).host) return sim.fail("request-exact", `${o.name} sent ${r.method} ${r.url}, expected ${c.m} ${c.p} ${clip(c.q)}`);
        if (!eq(r.body ?? null, c.b ? JSON.stringify(c.b) : null)) return sim.fail("request-exact", `${o.name} sent body ${clip(r.body)}`);
        const h = r.headers;
        if (h.authorization !== auth || h["x-langfuse-public-key"] !== "pk:ü" || h["x-langfuse-sdk-name"] !== "javascript" || (h["x-extra"] !== (op.noExtra ? `own${op.i}` : cfg.extra ? "e1" : undefined)) || (op.hdr && h["x-call"] !== op.hdr)) return sim.fail("request-exact", `${o.name} sent headers ${clip(h, 600)}`);
        if (c.b && !/application\/json/.test(h["content-type"] ?? "")) return sim.fail("request-exact", `${o.name} sent its body as ${h["content-type"]}`);
        if (c.abortedAt !== undefined && r.t > c.abortedAt) return sim.fail("abort", `${o.name} aborted at ${c.abortedAt} sent a request at ${r.t}`);
        if (r.tEnd - r.t > timeout + 1) return sim.fail("timeout", `${o.name} waited ${r.tEnd - r.t}ms for a response, timeout ${timeout}ms`);
        if (!k) continue;
        const prev = reqs[k - 1];
        if (prev.tEnd === undefined || prev.tEnd > r.t) return sim.fail("retry", `${o.name} sent attempt ${k + 1} while attempt ${k} was in flight`);
        if (!retryable(prev.status)) return sim.fail("retry", `${o.name} was repeated after attempt ${k} ended with ${prev.status}`);
        // backoff
        const gap = r.t - prev.tEnd;
        const hd = prev.resHeaders ?? {};
        let lo = 1000 * 2 ** (k - 1) * 0.85;
        let hi = 1000 * 2 ** (k - 1) * 1.15;
        const ra = hd["retry-after"];
        const secs = parseInt(ra ?? "", 10);
        const date = ra ? new Date(ra).getTime() - prev.wallEnd : NaN;
        const reset = hd["x-ratelimit-reset"] ? parseInt(hd["x-ratelimit-reset"], 10) * 1000 - prev.wallEnd : NaN;
        if (secs > 0) lo = hi = Math.min(secs * 1000, 60000);
        else if (date > 0) lo = hi = Math.min(date, 60000);
        else if (reset > 0) {
          lo = Math.min(reset, 60000);
          hi = lo * 1.2;
        }
        if (lo > 60000) lo = 60000 * 0.85;
        sim.oblige("backoff");
        if (gap < Math.floor(lo) - 1 || gap > hi + 2) return sim.fail("backoff", `${o.name}: attempt ${k + 1} followed ${gap}ms after attempt ${k} answered ${prev.status} ${clip(hd)}; expected ${Math.round(lo)}–${Math.round(hi)}ms`);
      }
      const last = reqs.at(-1);
      const aborted = c.abortedAt !== undefined && c.abortedAt <= o.end;
      if (retryable(last.status) && reqs.length < max + 1 && !aborted) return sim.fail("retry", `${o.name} gave up after attempt ${reqs.length} answered ${last.status}, maxRetries ${max}`);
      if (o.ok) {
        sim.oblige("resolves");
        if (!(last.status >= 200 && last.status < 300) || (last.outcome === "truncated" && last.status !== 204)) return sim.fail("answer", `${o.name} resolved although its last attempt ended with ${last.status} (${last.outcome})`);
        if (last.outcome === "nonjson") {
          if (!c.void) return sim.fail("answer", `${o.name} resolved with ${clip(o.value)} although the response was not JSON`);
        } else if (!eq(o.value, c.void ? undefined : JSON.parse(last.resBody))) return sim.fail("answer", `${o.name} resolved with ${clip(o.value)}, the server sent ${clip(last.resBody)}`);
        if (op.raw && (c.rawResponse?.status !== last.status || c.rawResponse.headers?.get("content-type") !== (last.resHeaders?.["content-type"] ?? null))) return sim.fail("answer", `${o.name} reports the raw response ${c.rawResponse?.status} ${c.rawResponse?.headers?.get("content-type")}, the server sent ${last.status} ${clip(last.resHeaders)}`);
        continue;
      }
      sim.oblige("rejects");
      const e = o.error;
      if (!(e instanceof Error)) return sim.fail("answer", `${o.name} rejected with a non-Error: ${clip(e)}`);
      if (aborted) continue;
      if (last.status === "aborted") {
        sim.oblige("timeout-error");
        if (!(e instanceof p.core.LangfuseAPITimeoutError)) return sim.fail("timeout-error", `${o.name} timed out after ${timeout}ms but rejected with ${e.constructor.name}: ${e.message}`);
        continue;
      }
      if (e instanceof p.core.LangfuseAPITimeoutError) return sim.fail("timeout-error", `${o.name} reports a timeout although attempt ${reqs.length} ended with ${last.status}`);
      if (last.status >= 200 && last.status < 300) {
        if (last.outcome !== "truncated" && last.outcome !== "nonjson") return sim.fail("answer", `${o.name} rejected although the server answered ${last.status}: ${e.stack}`);
        continue;
      }
      if (last.status !== "error" && last.outcome !== "truncated" && !/-cut$/.test(last.outcome)) {
        sim.oblige("status-error");
        if (e.statusCode !== last.status) return sim.fail("answer", `${o.name} failed with ${last.status} but the error says ${e.statusCode}`);
        if (!(e instanceof p.core.LangfuseAPIError)) return sim.fail("answer", `${o.name} failed with ${last.status} but rejected with ${e.constructor.name}`);
        const typed = TYPED[last.status];
        if (typed && !API[op.call].name.startsWith("unstable.") && !(e instanceof p.core[typed])) return sim.fail("answer", `${o.name} failed with ${last.status} but rejected with ${e.constructor.name}`);
        const ct = last.resHeaders?.["content-type"] ?? "";
        if (/json/.test(ct) && !NOBODY[API[op.call].name]?.includes(last.status) && !eq(e.body, JSON.parse(last.resBody))) return sim.fail("answer", `${o.name} error body ${clip(e.body)}, the server sent ${clip(last.resBody)}`);
      }
    }
    // the client's own timeout option (known finding: it is ignored)
    if (cfg.clientTimeout)
      for (const c of byOp.values()) {
        const late = c.op.timeout === null && w.net.log.find((r) => r.op === c.o && r.tEnd - r.t > cfg.clientTimeout * 1000 + 1);
        if (late) return sim.fail("client-timeout-option", `LangfuseClient({timeout: ${cfg.clientTimeout}}) waited ${late.tEnd - late.t}ms for a response`);
      }
  },
};
