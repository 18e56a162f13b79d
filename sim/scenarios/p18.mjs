// P18: the browser client reports a score as created exactly when the server acknowledged that score.
import { World, MIX, clip } from "../harness.mjs";

const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const ANSWERS = ["item-error", "item-error-other", "both", "wrong-id", "none", "empty-body", "shape-null", "shape-string", "shape-partial", "shape-array", "errors-object", "errors-text", "successes-object", "html", "200-error-page"];

export default {
  id: "P18",
  bundles: ["browser"],
  shrink: ["ops"],
  runs: { quick: 8000, thorough: 150000 },
  components: {
    real: ["@langfuse/browser client, response parsing and errors", "@langfuse/core id generation"],
    stub: ["browser fetch and network (seeded faults)", "Langfuse ingestion endpoint (reference model with scripted answers)", "clock, timers, randomness"],
  },
  generate(rng) {
    const n = rng.weighted([[2, 1], [5, rng.int(2, 8)], [1, rng.int(8, 25)]]);
    return {
      cfg: {
        env: rng.bool(0.4),
        headers: rng.weighted([[2, null], [2, "plain"], [2, "hostile"]]),
        slash: rng.int(0, 2),
        customFetch: rng.bool(0.3),
        defaultUrl: rng.bool(0.2),
        path: rng.bool(0.2),
        crypto: rng.weighted([[5, "full"], [2, "no-uuid"], [1, "none"]]),
        mix: rng.weighted([[3, "rough"], [1, "calm"]]),
      },
      ops: Array.from({ length: n }, (_, i) => ({
        i,
        t: rng.weighted([[1, 0], [3, rng.int(0, 2000)]]),
        id: rng.weighted([[4, "none"], [3, "own"], [1, "shared"], [0.5, "empty"], [0.4, "spaced"]]),
        env: rng.weighted([[8, false], [1.6, true], [0.6, "empty"]]),
        kind: rng.pick(["num", "str", "bool", "zero"]),
        target: rng.pick(["trace", "obs", "session"]),
        meta: rng.bool(0.3),
        more: rng.bool(0.2),
        freeze: rng.bool(0.3),
        comment: rng.bool(0.3),
        client: rng.int(0, 1),
        answer: rng.weighted([[5, null], ...ANSWERS.map((a) => [0.4, a])]),
      })).sort((a, b) => a.t - b.t),
    };
  },
  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    const w = new World(sim, bundle("browser"), { mix: cfg.mix === "calm" ? MIX.calm : { ...MIX.rough, "500-cut": 4 } });
    const p = w.load();
    const fullCrypto = p.g.crypto;
    if (cfg.crypto === "no-uuid") Object.defineProperty(p.g, "crypto", { value: { getRandomValues: fullCrypto.getRandomValues } });
    if (cfg.crypto === "none") Object.defineProperty(p.g, "crypto", { value: undefined });
    const B = p.browser;
    // a browser's fetch throws when called on anything but the window
    const pageFetch = p.g.fetch;
    p.g.fetch = function (...a) {
      if (this !== undefined && this !== p.g && this !== p.g.globalThis) throw new TypeError("Failed to execute 'fetch' on 'Window': Illegal invocation");
      return pageFetch(...a);
    };
    const j = (status, body) => ({ status, headers: { "content-type": "application/json" }, body: typeof body === "string" ? body : JSON.stringify(body) });
    const byName = new Map(plan.ops.map((o) => [`s-${o.i}`, o]));
    w.server.custom = (req) => {
      if (!req.url.pathname.endsWith("/ingestion")) return null;
      let e;
      try {
        e = JSON.parse(req.body).batch[0];
      } catch {
        return null;
      }
      const op = byName.get(e?.body?.name);
      if (!op?.answer) return null;
      sim.cover(`answer-${op.answer}`);
      const err = { id: e.id, status: 400, message: "bad", error: "Invalid" };
      switch (op.answer) {
        case "item-error":
          return j(207, { successes: [], errors: [err] });
        case "item-error-other":
          return j(207, { successes: [], errors: [{ ...err, id: "other" }] });
        case "both":
          return j(207, { successes: [{ id: e.id, status: 201 }], errors: [err] });
        case "wrong-id":
          return j(207, { successes: [{ id: e.body.id === e.id ? "zz" : e.body.id, status: 201 }], errors: [] });
        case "none":
          return j(207, { successes: [], errors: [] });
        case "empty-body":
          return j(200, "");
        case "shape-null":
          return j(200, "null");
        case "shape-string":
          return j(200, '"ok"');
        case "shape-partial":
          return j(200, { successes: [{ id: e.id, status: 201 }] });
        case "errors-object":
          return j(207, { successes: [{ id: e.id, status: 201 }], errors: {} });
        case "errors-text":
          return j(207, { successes: [{ id: e.id, status: 201 }], errors: "" });
        case "successes-object":
          return j(207, { successes: { 0: { id: e.id, status: 201 } }, errors: [] });
        case "shape-array":
          return j(200, [{ id: e.id }]);
        case "html":
          return { status: 200, headers: { "content-type": "text/html" }, body: "<html>login</html>" };
        case "200-error-page":
          return j(200, { message: "rate limited", error: "x" });
      }
    };
    const HEADERS = cfg.headers === "plain" ? { "x-proxy": "v" } : cfg.headers === "hostile" ? { "X-Proxy": "v", authorization: "Bearer evil", "CONTENT-TYPE": "text/plain", "x-langfuse-PUBLIC-key": "evil", "X-Langfuse-Sdk-Name": "evil", "x-langfuse-sdk-integration": "evil", "X-LANGFUSE-SDK-VERSION": "evil", "x-langfuse-sdk-variant": "evil" } : undefined;
    const fetchCalls = { n: 0 };
    const clients = [0, 1].map((i) => {
      const o = { publicKey: `pk-${i}` };
      if (!cfg.defaultUrl) o.baseUrl = `https://lf${i}.sim${cfg.path ? "/lf/base" : ""}${"/".repeat(cfg.slash)}`;
      if (cfg.env) o.environment = `env-${i}`;
      if (HEADERS) o.additionalHeaders = HEADERS;
      if (cfg.customFetch)
        o.fetch = function (...a) {
          if (this !== undefined && this !== p.g && this !== p.g.globalThis) throw new TypeError("Failed to execute 'fetch' on 'Window': Illegal invocation");
          fetchCalls.n++;
          return w.net.fetch(...a);
        };
      return { c: new B.LangfuseBrowserClient(o), key: o.publicKey, env: o.environment, base: cfg.defaultUrl ? "https://cloud.langfuse.com" : `https://lf${i}.sim${cfg.path ? "/lf/base" : ""}` };
    });
    const calls = [];
    for (const op of plan.ops)
      w.at(op.t, "score", () => {
        const body = { name: `s-${op.i}`, value: { num: 0.5 + op.i, str: `label-${op.i}`, bool: 1, zero: 0 }[op.kind] };
        if (op.kind === "str") body.dataType = "CATEGORICAL";
        if (op.kind === "bool") body.dataType = "BOOLEAN";
        if (op.target !== "session") body.traceId = `t-${op.i}`;
        if (op.target === "obs") body.observationId = `o-${op.i}`;
        if (op.target === "session") body.sessionId = `se-${op.i}`;
        if (op.id === "own") body.id = `own-${op.i}`;
        if (op.id === "shared") body.id = "own-shared"; // an update of the same score
        if (op.id === "empty") body.id = "";
        if (op.id === "spaced") body.id = ` Own-${op.i}/ü `;
        if (op.env) body.environment = op.env === "empty" ? "" : `benv-${op.i}`;
        if (op.meta) body.metadata = { deep: [{ i: op.i, none: null }, null], text: 'q"\u2028☃', empty: "", no: false, zero: 0, absent: null };
        if (op.comment) body.comment = `c ${op.i}`;
        if (op.more) Object.assign(body, { configId: `cfg-${op.i}`, queueId: `qu-${op.i}`, datasetRunId: undefined, timestamp: undefined });
        if (op.freeze) {
          Object.freeze(body);
          if (body.metadata) Object.freeze(body.metadata);
        }
        const rec = { op, body, snap: JSON.stringify(body), client: clients[op.client], wall: sim.wall() };
        rec.o = w.op(`score ${op.i}`, () => rec.client.c.score(body));
        rec.o.rec = rec;
        calls.push(rec);
      });
    const end = await sim.run({ horizon: 700_000 });
    if (end === "steps") sim.fail("settles", "no quiescence");

    const eventIds = new Set();
    const reqs = w.net.log;
    for (const rec of calls) {
      const id = `score ${rec.op.i}`;
      const { o, body, client } = rec;
      if (!o.settled) return sim.fail("settles", `${id} never settled`);
      if (o.sync) return sim.fail("settles", `${id} threw synchronously: ${o.error}`);
      if (JSON.stringify(body) !== rec.snap) return sim.fail("content", `${id}: the caller's score was modified`);
      const mine = reqs.filter((r) => {
        try {
          return JSON.parse(r.body).batch.some((e) => e.body.name === body.name);
        } catch {
          return false;
        }
      });
      if (mine.length !== 1) return sim.fail("sent-once", `${id} was sent in ${mine.length} requests`);
      sim.oblige("sent-once");
      const r = mine[0];
      if (r.method !== "POST" || r.url !== `${client.base}/api/public/ingestion`) return sim.fail("content", `${id} went to ${r.method} ${r.url}`);
      const doc = JSON.parse(r.body);
      if (doc.batch.length !== 1) return sim.fail("content", `${id} was sent in a batch of ${doc.batch.length}`);
      const e = doc.batch[0];
      const scoreId = body.id ?? e.body.id;
      const want = { ...body, id: scoreId, environment: body.environment ?? client.env };
      const norm = (x) => JSON.stringify(Object.entries(x).filter(([, v]) => v !== undefined).sort());
      if (e.type !== "score-create" || norm(e.body) !== norm(want)) return sim.fail("content", `${id}: sent ${clip(e)}, expected body ${clip(want)}`);
      if (typeof scoreId !== "string" || (body.id === undefined && scoreId.length < 16)) return sim.fail("unique", `${id}: score id ${scoreId}`);
      if (!e.id || eventIds.has(e.id)) return sim.fail("unique", `${id}: event id ${e.id} used before`);
      eventIds.add(e.id);
      if (body.id === undefined) {
        if (eventIds.has(`s:${scoreId}`)) return sim.fail("unique", `${id}: score id ${scoreId} used before`);
        eventIds.add(`s:${scoreId}`);
      }
      if (Math.abs(Date.parse(e.timestamp) - rec.wall) > 2) return sim.fail("content", `${id}: timestamp ${e.timestamp}`);
      if (r.headers.authorization !== `Bearer ${client.key}` || r.headers["x-langfuse-public-key"] !== client.key || !/^application\/json/.test(r.headers["content-type"])) return sim.fail("content", `${id}: headers ${clip(r.headers)}`);
      if (Object.values(r.headers).some((v) => String(v).includes("evil"))) return sim.fail("content", `${id}: additional headers override the SDK's: ${clip(r.headers)}`);
      if (HEADERS && r.headers["x-proxy"] !== "v") return sim.fail("content", `${id}: additional header missing`);
      // the verdict the server gave, as far as the client could see it
      let ack = false;
      let verdict = `${r.status}`;
      if (typeof r.status === "number" && r.status >= 200 && r.status < 300 && r.bodyOk) {
        try {
          const b = JSON.parse(r.resBody);
          ack = b !== null && typeof b === "object" && Array.isArray(b.successes) && Array.isArray(b.errors) && b.errors.length === 0 && b.successes.some((x) => x.id === e.id);
          verdict += ` ${clip(r.resBody, 120)}`;
        } catch {
          verdict += " (not JSON)";
        }
      } else if (r.bodyOk === false) verdict += " (body cut off)";
      sim.oblige(ack ? "acked" : "not-acked");
      if (ack && (!o.ok || !eq(o.value, { id: scoreId }))) return sim.fail("ack", `${id}: the server acknowledged it (${verdict}), the call ${o.ok ? `resolved with ${clip(o.value)}` : `rejected with ${o.error}`}`);
      if (!ack && o.ok) return sim.fail("ack", `${id}: resolved with ${clip(o.value)} although the server did not acknowledge it (${verdict})`);
      if (!ack) {
        if (!(o.error instanceof B.LangfuseBrowserError)) return sim.fail("error", `${id}: rejected with ${o.error?.name}: ${o.error?.message} instead of a LangfuseBrowserError (${verdict})`);
        if (typeof r.status === "number" && r.status >= 300 && o.error.status !== r.status) return sim.fail("error", `${id}: error status ${o.error.status}, the server answered ${r.status}`);
        let seen;
        let readable = r.bodyOk;
        try {
          seen = JSON.parse(r.resBody);
        } catch {
          if (r.resBody) readable = false;
        }
        if (typeof r.status === "number" && !readable && o.error.status !== r.status) return sim.fail("error", `${id}: error status ${o.error.status}, the server answered ${r.status} with an unreadable body`);
        if (typeof r.status === "number" && r.status < 300 && r.bodyOk && Array.isArray(seen?.successes) && seen.errors?.length && !eq(o.error.errors, seen.errors)) return sim.fail("error", `${id}: the error tells ${clip(o.error.errors)}, the server reported ${clip(seen.errors)}`);
        if (typeof r.status !== "number" && o.error.status !== undefined) return sim.fail("error", `${id}: error status ${o.error.status} although no answer came (${r.status})`);
        if (typeof r.status !== "number" && !o.error.originalError) return sim.fail("error", `${id}: the network failure is not passed on`);
        if (o.end < (r.tBodyEnd ?? r.tEnd)) return sim.fail("ack", `${id}: settled before the answer`);
      }
    }
    if (reqs.length !== calls.length) return sim.fail("sent-once", `${calls.length} scores caused ${reqs.length} requests`);
    if (cfg.customFetch && fetchCalls.n !== calls.length) return sim.fail("content", `the given fetch was called ${fetchCalls.n} times for ${calls.length} scores`);
  },
};
