// Shared scenario for the prompt cache (P09 freshness, P10 availability): one generator, one execution,
// an explicit reference cache per key, and clauses tagged with the property they belong to.
import { World, MIX, clip } from "../harness.mjs";
import { json } from "../server.mjs";

const NAMES = ["a", "ab", "a-b", "folder/x", "zeta", "a-label", "Zeta"];
const MIX_P = { ok: 60, reset: 6, "lost-response": 5, "503": 6, "500": 4, "429": 3, "504-processed": 2, "404": 2, "400": 1, "401": 1.5, "403": 1, stall: 4, truncated: 3, nonjson: 2, slow: 8 };

export function generatePrompts(rng, focus) {
  const names = rng.sample(NAMES, rng.int(1, 3));
  const n = rng.int(4, 40);
  const span = rng.weighted([[2, 2000], [3, 20000], [3, 200000]]);
  const labels = [null, "staging", "production", "x"];
  const ops = [];
  const hot = rng.pick(names);
  const ttlStyle = rng.pick(["default", "short", "mixed"]);
  const sel = () => rng.weighted([[4, {}], [3, { label: rng.pick(["staging", "production", "x", "X"]) }], [2, { version: rng.int(1, 3) }], [0.4, { version: 0 }]]);
  for (let i = 0; i < n; i++) {
    const name = rng.bool(0.7) ? hot : rng.pick(names);
    const t = rng.int(0, span);
    const k = rng.weighted([[12, "get"], [focus === "P09" ? 3 : 1, "update"], [focus === "P09" ? 1 : 0.4, "delete"], [0.7, "create"], [1, "server-change"]]);
    if (k === "get") {
      const o = { t, k, name, ...sel() };
      const ttl = ttlStyle === "default" ? null : ttlStyle === "short" ? rng.pick([1, 2, 5]) : rng.pick([null, 0, 1, 5, 30]);
      if (ttl !== null) o.ttl = ttl;
      if (rng.bool(focus === "P10" ? 0.4 : 0.15)) {
        o.fallback = 1;
        o.chat = rng.bool(0.4);
      }
      if (rng.bool(0.25)) o.maxRetries = rng.int(0, 3);
      if (rng.bool(0.3)) o.timeout = rng.pick([300, 1000, 5000]);
      ops.push(o);
      if (rng.bool(0.25)) ops.push({ ...o, t: t + rng.int(0, 50) }); // a racing twin
      if (rng.bool(0.15)) ops.push({ ...o, t: t + (ttl ?? 60) * 1000 + rng.int(-200, 600) }); // around the end of its lifetime
    } else if (k === "update") {
      ops.push({ t, k, name, version: rng.int(1, 3), labels: rng.sample(["production", "staging", "x"], rng.weighted([[6, 1], [6, 2], [1, 0]])) });
      if (rng.bool(0.7)) ops.push({ t: Math.max(0, t - rng.int(0, 60)), k: "get", name, ...sel() });
      ops.push({ t: t + rng.int(5, 3000), k: "get", name, ...sel() });
    } else if (k === "delete") {
      ops.push({ t, k, name, how: rng.pick(["all", "version", "label"]), version: rng.int(1, 3), label: "staging" });
    } else if (k === "create") ops.push({ t, k, name, labels: ["production"] });
    else ops.push({ t, k, name, version: rng.int(1, 3), labels: [rng.pick(["production", "staging", "x"])] });
  }
  ops.sort((x, y) => x.t - y.t);
  return {
    cfg: { names, mode: rng.weighted([[2, "calm"], [4, "rough"], [1, "down"], [1, "outage"]]), until: rng.int(span / 2, span * 2), outage: [rng.int(0, span / 2), rng.int(span / 2, span)], maxLatency: rng.pick([10, 40, 400]), stall: rng.bool(0.1) ? 0.02 : 0, chatNames: rng.bool(0.4) ? [rng.pick(names)] : [] },
    ops,
  };
}

export async function runPrompts({ sim, plan, bundle }, prop) {
  const { cfg } = plan;
  const fail = (p, clause, detail) => {
    if (p.includes(prop)) sim.fail(clause, detail);
  };
  const oblige = (p, name) => {
    if (p.includes(prop)) sim.oblige(name);
  };
  const mix = () => {
    if (cfg.mode === "calm") return MIX.calm;
    if (cfg.mode === "down") return { reset: 3, "503": 3, stall: 1, "500": 2, "404": 1, "400": 0.5, "401": 1, "403": 0.5 };
    if (cfg.mode === "outage") return sim.now >= cfg.outage[0] && sim.now <= cfg.outage[1] ? { reset: 3, "503": 4, stall: 1 } : MIX.calm;
    return MIX_P;
  };
  const w = new World(sim, bundle("client"), { mix, until: cfg.mode === "down" ? Infinity : cfg.until, maxLatency: cfg.maxLatency });
  // ---- server: versions with movable labels; every served body is unique so its origin can be identified
  const store = new Map();
  let tick = 0; // logical server time: one per read or write
  const serves = new Map(); // serve id -> {name, version, tick}
  const mutations = [];
  for (const n of cfg.names) store.set(n, [1, 2, 3].map((v) => ({ version: v, labels: v === 1 ? ["production", "staging", "X"] : v === 2 ? ["x"] : ["latest"] })));
  const setLabels = (name, version, labels) => {
    const vs = store.get(name) ?? [];
    const target = vs.find((v) => v.version === version);
    if (!target) return null;
    for (const v of vs) if (v !== target) v.labels = v.labels.filter((l) => !labels.includes(l));
    target.labels = [...new Set([...target.labels, ...labels])];
    return target;
  };
  const view = (name, v) => {
    const id = ++tick;
    const tag = `${name}|v${v.version}|serve${id}`;
    serves.set(tag, { name, version: v.version, labels: v.labels.slice(), tick: id });
    const chat = cfg.chatNames.includes(name);
    return { name, version: v.version, labels: v.labels.slice(), tags: [], config: { tag }, type: chat ? "chat" : "text", prompt: chat ? [{ role: "user", content: tag, type: "chatmessage" }] : tag, commitMessage: null, resolutionGraph: null };
  };
  w.server.custom = (req) => {
    const p = req.url.pathname;
    if (!p.startsWith("/api/public/v2/prompts")) return null;
    const rest = p.slice("/api/public/v2/prompts".length).split("/").filter(Boolean).map(decodeURIComponent);
    const notFound = json(404, { message: "Prompt not found", error: "LangfuseNotFoundError" });
    if (req.method === "POST") {
      const b = JSON.parse(req.body);
      const vs = store.get(b.name) ?? [];
      const v = { version: Math.max(0, ...vs.map((x) => x.version)) + 1, labels: [] };
      vs.push(v);
      store.set(b.name, vs);
      setLabels(b.name, v.version, b.labels ?? []);
      tick++;
      return json(200, view(b.name, v));
    }
    const name = rest[0];
    const vs = store.get(name) ?? [];
    if (req.method === "PATCH") {
      const v = setLabels(name, Number(rest[2]), JSON.parse(req.body).newLabels);
      if (!v) return notFound;
      req.rec.mutTick = ++tick;
      return json(200, view(name, v));
    }
    if (req.method === "DELETE") {
      const ver = req.url.searchParams.get("version");
      const lab = req.url.searchParams.get("label");
      const keep = vs.filter((v) => (ver ? v.version !== Number(ver) : lab ? !v.labels.includes(lab) : false));
      if (keep.length === vs.length) return notFound;
      store.set(name, keep);
      req.rec.mutTick = ++tick;
      return { status: 204, headers: {}, body: null };
    }
    const ver = req.url.searchParams.get("version");
    const lab = req.url.searchParams.get("label") ?? "production";
    const v = ver ? vs.find((x) => x.version === Number(ver)) : vs.find((x) => x.labels.includes(lab));
    if (!v) return notFound;
    const body = view(name, v);
    req.rec.serveTag = body.config.tag;
    return json(200, body);
  };

  const p = w.load();
  const client = new p.client.LangfuseClient();
  const keyOf = (o) => `${o.name}\u0000${o.version !== undefined ? "v" + o.version : "l" + (o.label ?? "production")}`;
  // ---- reference cache
  const cache = new Map(); // key -> {tag, expiry, maybe}
  const refreshes = new Map(); // key -> [op]
  let invalSeq = 0;
  const invalBy = []; // {seq, name, tick}
  const opReqs = (o) => w.net.log.filter((r) => r.op === o);
  const retryableSt = (s) => s === 408 || s === 429 || (typeof s === "number" && s >= 500);
  const chainState = (o, maxRetries) => {
    const rs = opReqs(o);
    if (!rs.length) return "none";
    const last = rs[rs.length - 1];
    if (last.tEnd === undefined) return "running";
    if (retryableSt(last.status)) return rs.length <= (maxRetries ?? 2) ? "running" : "failed";
    if (last.status === 200) {
      if (last.tBodyEnd === undefined) return "running";
      return last.bodyOk && last.outcome !== "nonjson" && last.serveTag ? "ok" : "failed";
    }
    return "failed";
  };
  // apply completed fetches to the reference cache, in completion order
  const fetches = []; // {o, op, key, invalAt, done}
  const settleFetches = () => {
    const ready = [];
    for (const f of fetches) {
      if (f.done) continue;
      const st = chainState(f.o, f.op.maxRetries);
      if (st === "running" || st === "none") continue;
      const rs = opReqs(f.o);
      ready.push({ f, st, last: rs[rs.length - 1] });
    }
    ready.sort((x, y) => (x.last.bodySeq ?? 0) - (y.last.bodySeq ?? 0));
    for (const { f, st, last } of ready) {
      f.ok = st === "ok";
      f.done = Math.max(1, last.tBodyEnd ?? last.tEnd);
      if (!f.ok) continue;
      const tag = last.serveTag;
      if (f.invalAt !== invalSeq) {
        // started before an invalidation: whether it is cached is up to the implementation, but see read-your-writes
        const cur = cache.get(f.key);
        cache.set(f.key, { ...(cur ?? {}), maybe: true });
      } else cache.set(f.key, { tag, expiry: f.done + (f.op.ttl ?? 60) * 1000 });
    }
  };
  const tagOf = (v) => (Array.isArray(v.prompt) ? v.prompt[0]?.content : v.prompt);

  const doGet = (op) => {
    settleFetches();
    const key = keyOf(op);
    const before = w.net.log.length;
    const entry = cache.get(key);
    const opts = {};
    if (op.label !== undefined) opts.label = op.label;
    if (op.version !== undefined) opts.version = op.version;
    if (op.ttl !== undefined) opts.cacheTtlSeconds = op.ttl;
    if (op.maxRetries !== undefined) opts.maxRetries = op.maxRetries;
    if (op.timeout !== undefined) opts.fetchTimeoutMs = op.timeout;
    if (op.chat) opts.type = "chat";
    if (op.fallback) opts.fallback = op.chat ? [{ role: "user", content: "FALLBACK" }] : "FALLBACK";
    const invalAt = invalSeq;
    const started = sim.now;
    const minTick = Math.max(0, ...invalBy.filter((i) => i.name === op.name).map((i) => i.tick));
    const cached = !!entry && !entry.maybe && op.ttl !== 0;
    const fresh = cached && sim.now < entry.expiry;
    const expired = cached && sim.now > entry.expiry;
    // refreshes for this key certainly still running (definite state only)
    const running = fetches.filter((f) => f.key === key && f.kind === "refresh" && !f.done);
    // a fetch whose role is unknown, or one overtaken by an invalidation, leaves both behaviours open
    const unclear = fetches.some((f) => f.key === key && !f.done && (f.kind === "unknown" || (f.kind === "refresh" && f.invalAt !== invalSeq)));
    // ... and so does one whose error answer is still being read
    const reading = fetches.some((f) => {
      const last = opReqs(f.o).at(-1);
      return f.key === key && f.done && !f.ok && typeof last?.status === "number" && (last.tBodyEnd ?? Infinity) >= sim.now;
    });
    const o = w.op(`get ${op.name}/${op.version ?? op.label ?? ""}`, () => client.prompt.get(op.name, opts));
    if (o.settled) fail("P10", "get-async-errors", "get threw synchronously");
    o.onSettle = () => {
      settleFetches();
      const reqs = opReqs(o);
      if (o.ok) {
        const tag = tagOf(o.value);
        if (o.value.isFallback) {
          oblige("P10", "fallback-used");
          if (!op.fallback) fail("P10", "fallback-only-when-given", `get returned a fallback although none was passed`);
          else if (tag !== "FALLBACK" || o.value.name !== op.name || o.value.type !== (op.chat ? "chat" : "text") || o.value.version !== (op.version ?? 0)) fail("P10", "fallback-content", `get(${clip(op)}) gave fallback ${o.value.type} ${o.value.name} v${o.value.version} ${clip(tag)}`);
          if (chainState(o, op.maxRetries) !== "failed") fail("P10", "fallback-only-on-failure", `fallback returned although the fetch did not fail (${chainState(o, op.maxRetries)})`);
          return;
        }
        const s = serves.get(tag);
        if (o.value.type !== (cfg.chatNames.includes(op.name) ? "chat" : "text") || o.value.config?.tag !== tag) return fail("P09", "identity", `get(${op.name}) returned a ${o.value.type} prompt ${clip(tag)} with config ${clip(o.value.config)}`);
        oblige("P09", "identity");
        if (!s || s.name !== op.name) return fail("P09", "identity", `get(${op.name}) returned ${clip(tag)}`);
        if (op.version !== undefined ? s.version !== op.version : !s.labels.includes(op.label ?? "production"))
          return fail("P09", "identity", `get(${clip(op)}) returned ${tag} with labels ${s.labels}`);
        if (o.value.version !== s.version) return fail("P09", "identity", `version field ${o.value.version} for ${tag}`);
        oblige("P09", "read-your-writes");
        if (s.tick < minTick) return fail("P09", "read-your-writes", `get(${op.name}) started at ${started} returned ${tag}, served before an update/delete that had already resolved`);
        if (op.ttl === 0) {
          const own = reqs.some((r) => r.serveTag === tag);
          oblige("P09", "ttl0-bypass");
          if (!own) fail("P09", "ttl0-bypass", `cacheTtlSeconds 0 returned ${tag} which this call did not fetch`);
        }
        if (fresh) {
          oblige("P09", "fresh-hit");
          if (tag !== entry.tag) fail("P09", "fresh-value", `fresh cache held ${entry.tag}, get returned ${tag}`);
        }
        if (expired) {
          oblige("P10", "stale-while-revalidate");
          if (tag !== entry.tag) fail("P09 P10", "stale-value", `cache held ${entry.tag}, get returned ${tag}`);
        }
      } else {
        if (cached) fail("P10", "cached-never-rejects", `get(${clip(op)}) rejected although a cached value existed: ${o.error?.message}`);
        if (op.fallback) fail("P10", "fallback-used", `get with a fallback rejected: ${o.error?.message}`);
        const st = chainState(o, op.maxRetries);
        oblige("P10", "error-surfaced");
        if (st !== "failed") fail("P10", "reject-only-on-failure", `get rejected (${o.error?.message}) although its fetch state is ${st}`);
      }
    };
    // what must happen within this very step
    sim.drain().then(() => {
      const issued = opReqs(o).length;
      if (fresh) {
        if (issued) fail("P09", "fresh-hit-no-request", `get(${clip(op)}) at ${started} sent ${issued} request(s) although the cached value was fresh until ${entry.expiry}`);
        if (!o.settled) fail("P10", "cached-immediate", `get with a fresh cached value did not resolve without I/O`);
      }
      if (expired) {
        if (!o.settled) fail("P10", "stale-immediate", `get(${clip(op)}) with an expired cached value waited for I/O`);
        if (unclear || reading) {
          // no obligation
        } else if (running.length) {
          oblige("P10", "single-flight");
          if (issued) fail("P10", "single-flight", `a refresh of ${clip(op.name)} was already running since ${running[0].t}, another was started at ${started}`);
        } else {
          oblige("P09 P10", "refresh-started");
          if (!issued) fail("P09 P10", "refresh-started", `expired get(${clip(op)}) at ${started} did not start a refresh`);
        }
      }
      if ((!entry || op.ttl === 0) && !issued && !(entry && entry.maybe))
        if (!fetches.some((f) => f.key === key && !f.done)) fail("P10", "miss-fetches", `cache miss for ${clip(op)} sent no request`);
      if (issued) fetches.push({ o, op, key, invalAt, kind: expired ? "refresh" : entry && entry.maybe ? "unknown" : "miss", t: started });
      if (issued > 1) fail("P10", "single-flight", `one get sent ${issued} requests at once`);
    });
    return o;
  };

  for (const op of plan.ops)
    w.at(op.t, `op-${op.k}`, () => {
      switch (op.k) {
        case "get":
          doGet(op);
          break;
        case "update":
        case "delete": {
          const o = w.op(op.k, () =>
            op.k === "update"
              ? client.prompt.update({ name: op.name, version: op.version, newLabels: op.labels })
              : client.prompt.delete(op.name, op.how === "version" ? { version: op.version } : op.how === "label" ? { label: op.label } : undefined));
          o.onSettle = () => {
            settleFetches();
            if (!o.ok) return;
            const muts = opReqs(o).filter((r) => r.mutTick);
            if (!muts.length) return fail("P09", "write-acknowledged", `${op.k} resolved but the server applied nothing`);
            invalBy.push({ seq: ++invalSeq, name: op.name, tick: muts[muts.length - 1].mutTick });
            for (const k of [...cache.keys()]) {
              const n = k.split("\u0000")[0];
              if (n === op.name) cache.delete(k);
              else cache.set(k, { ...cache.get(k), maybe: true }); // invalidation may reach further than it must
            }
          };
          break;
        }
        case "create":
          w.op("create", () => client.prompt.create({ name: op.name, prompt: "p", labels: op.labels }));
          break;
        case "server-change":
          setLabels(op.name, op.version, op.labels);
          tick++;
      }
    });

  const end = await sim.run({ horizon: 3_600_000, stallProb: cfg.stall });
  if (end === "steps") fail("P10", "liveness", "no quiescence");
  for (const o of w.ops)
    if (o.name.startsWith("get")) {
      oblige("P10", "get-settles");
      if (!o.settled) {
        fail("P10", "get-settles", `${o.name} started at ${o.start} never settled`);
        break;
      }
    }
  for (const f of fetches) {
    const rs = opReqs(f.o);
    if (rs.length > (f.op.maxRetries ?? 2) + 1) fail("P10", "bounded-retries", `get with maxRetries ${f.op.maxRetries} made ${rs.length} attempts`);
    if (f.op.timeout && cfg.stall === 0)
      for (const r of rs) {
        oblige("P10", "fetch-timeout");
        if ((r.tEnd ?? Infinity) - r.t > f.op.timeout + 5) fail("P10", "fetch-timeout", `attempt ${r.id} of a get with fetchTimeoutMs ${f.op.timeout} lasted ${r.tEnd - r.t}ms`);
      }
  }
}
