// P15: media references in fetched data resolve to exactly the stored content or stay untouched.
import nodeCrypto from "node:crypto";
import { World, MIX, clip, LangfuseServer } from "../harness.mjs";

const CT = ["image/png", "audio/wav", "application/pdf", "text/plain"];
const SRC = ["bytes", "base64_data_uri", "file"];

/** A string as a list of segments; a reference names media m (m >= 100: unknown to the server). */
function genText(rng, nm) {
  const n = rng.weighted([[2, 1], [3, 2], [3, 3], [1, 6]]);
  const out = [];
  for (let i = 0; i < n; i++)
    out.push(
      rng.weighted([
        [3, { k: "text", s: rng.pick(["", " ", "plain text ", "ünï ☃ ", "$& $1 $` ", "a|b=c ", "data:image/png;base64,AAAA ", "@@ ", "line\nbreak ", "langfuseMedia: "]) }],
        [5, { k: "ref", m: rng.int(0, nm - 1), src: rng.pick(SRC), ...(rng.bool(0.15) ? { t: rng.int(0, 3) } : {}) }],
        [0.7, { k: "ref", m: 100 + rng.int(0, 2), src: "bytes" }],
        [0.5, { k: "bad", s: rng.pick(["@@@langfuseMedia:type=image/png@@@", "@@@langfuseMedia:id=x|source=bytes@@@", "@@@langfuseMedia:garbage@@@"]) }],
      ]),
    );
  return { k: "str", segs: out };
}
function genValue(rng, nm, depth) {
  const k = rng.weighted([[6, "str"], [1, "num"], [0.6, "null"], [0.6, "bool"], [0.4, "undef"], [depth < 6 ? 3.5 : 0, "obj"], [depth < 6 ? 2.5 : 0, "arr"], [depth < 2 ? 0.7 : 0, "deep"], [0.25, "date"], [0.2, "bytes"]]);
  if (k === "str") return genText(rng, nm);
  if (k === "num") return { k, v: rng.int(-5, 99) };
  if (["null", "undef", "date", "bytes"].includes(k)) return { k };
  if (k === "bool") return { k, v: rng.bool(0.5) };
  if (k === "deep") return { k, n: rng.int(1, 14), v: genText(rng, nm) };
  const len = rng.weighted([[1, 0], [3, 1], [3, 2], [1, 4], [depth < 1 ? 0.2 : 0, 130]]);
  if (len === 130 && rng.bool(0.5)) return { k, v: Array.from({ length: len }, () => ({ k: "obj", v: [rng.bool(0.9) ? { k: "num", v: 1 } : genText(rng, nm)] })) };
  return { k, v: Array.from({ length: len }, () => genValue(rng, nm, depth + 1)) };
}

export default {
  id: "P15",
  bundles: ["app"],
  shrink: ["ops"],
  runs: { quick: 7000, thorough: 120000 },
  components: {
    real: ["@langfuse/client media manager, LangfuseClient", "@langfuse/core LangfuseMediaReference, base64 helpers, API client with retries"],
    stub: ["network (seeded faults)", "Langfuse media API and object storage (reference model)", "clock, timers, randomness"],
  },
  generate(rng) {
    const nm = rng.int(1, 5);
    const media = Array.from({ length: nm }, (_, i) => ({ t: rng.int(0, 3), n: rng.weighted([[1, 0], [1, 1], [1, 2], [1, 3], [4, rng.int(4, 300)], [0.15, rng.pick([32767, 32768, 65537])], [0.05, rng.pick([131073, 300001])]]), seed: rng.int(0, 1e6) + i }));
    const ops = Array.from({ length: rng.int(1, 6) }, (_, i) => {
      const k = rng.weighted([[6, "resolve"], [2, "fetch"], [1, "expiry"]]);
      const op = { t: rng.int(0, 400), k, i };
      if (k === "resolve") Object.assign(op, { v: genValue(rng, nm, 0), max: rng.weighted([[5, null], [1, 0], [2, rng.int(1, 4)], [1, 13]]) });
      if (k === "fetch") Object.assign(op, { m: rng.weighted([[6, rng.int(0, nm - 1)], [1, 100]]), how: rng.pick(["fetchBytes", "fetchBase64", "fetchDataUri"]), again: rng.bool(0.4) });
      if (k === "expiry") Object.assign(op, { left: rng.pick([-5000, -1, 0, 1, 59999, 60000, 60001, 3600000]), thr: rng.pick([null, 0, 1, 60, 3600]), none: rng.bool(0.15), junk: rng.bool(0.1) });
      return op;
    }).sort((a, b) => a.t - b.t);
    const calm = rng.bool(0.3);
    // some histories span hours, longer than a signed download URL lives
    if (rng.bool(0.25)) ops.forEach((o) => (o.t *= rng.pick([3000, 20000])));
    ops.sort((a, b) => a.t - b.t);
    return { cfg: { calm, media, ttl: rng.pick([600e3, 3600e3]), until: rng.pick([300, 2500, 1e9]) }, ops, jumps: rng.bool(0.2) ? [{ t: rng.int(0, 400), by: rng.pick([-3600e3, 3600e3, 61e3]) }] : [] };
  },
  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    const mix = (route) => cfg.calm ? MIX.calm : { nonjson: route === "GET /bucket" ? 0 : 2, ok: 74, reset: 4, "lost-response": 3, 503: 4, 500: 3, 429: 3, 400: 2, 404: 2, 403: 2, stall: 1, truncated: 4, slow: 5 };
    const w = new World(sim, bundle("app"), { mix, until: cfg.until, serverOpts: { urlTtl: cfg.ttl } });
    const p = w.load();
    const client = new p.client.LangfuseClient();
    w.clockJumps(plan.jumps);
    const media = cfg.media.map((m, i) => {
      const bytes = new Uint8Array(m.n);
      let x = m.seed;
      for (let j = 0; j < m.n; j++) {
        x = (Math.imul(x, 1664525) + 1013904223) >>> 0;
        bytes[j] = x >>> 24;
      }
      const sha = nodeCrypto.createHash("sha256").update(bytes).update(String(i)).digest("base64");
      const id = LangfuseServer.mediaIdOf(sha);
      w.server.media.set(id, { id, contentType: CT[m.t], sha, length: m.n, bytes, reported: true, links: [] });
      return { id, type: CT[m.t], uri: `data:${CT[m.t]};base64,${Buffer.from(bytes).toString("base64")}`, bytes };
    });
    const idOf = (m) => (m >= 100 ? `missing-${m}` : media[m].id);
    const refOf = (s) => `@@@langfuseMedia:type=${s.t !== undefined ? CT[s.t] : s.m >= 100 ? "image/png" : media[s.m].type}|id=${idOf(s.m)}|source=${s.src}@@@`;
    const textOf = (v) => v.segs.map((s) => (s.k === "ref" ? refOf(s) : s.s)).join("");
    const held = new Map();
    const build = (v) => {
      if (v.k === "str") return textOf(v);
      if (v.k === "null") return null;
      if (v.k === "date") return held.get(v) ?? held.set(v, new Date(1.7e12)).get(v);
      if (v.k === "bytes") return held.get(v) ?? held.set(v, new Uint8Array([1, 2, 3])).get(v);
      if (v.k === "arr") return v.v.map(build);
      if (v.k === "obj") return Object.fromEntries(v.v.map((x, i) => [i === 1 ? `k-${media[0].id}` : `f${i}`, build(x)]));
      if (v.k === "deep") {
        let x = build(v.v);
        for (let i = 0; i < v.n; i++) x = i % 2 ? [x] : { in: x };
        return x;
      }
      return v.v;
    };
    const done = [];
    for (const op of plan.ops)
      w.at(op.t, `op-${op.k}`, () => {
        if (op.k === "expiry") {
          const exp = sim.wall() + op.left;
          const r = new p.core.LangfuseMediaReference({ mediaId: "m", contentType: "image/png", url: "https://bucket.sim/get/m", referenceString: "x", ...(op.none ? {} : { urlExpiry: op.junk ? "soon" : new Date(exp).toISOString() }) });
          const got = op.thr === null ? r.isUrlExpired() : r.isUrlExpired(op.thr);
          const want = op.none || op.junk ? false : op.left <= (op.thr ?? 60) * 1000;
          sim.oblige("expiry");
          if (got !== want) sim.fail("expiry", `isUrlExpired(${op.thr}) is ${got} with ${op.left}ms left`);
          return;
        }
        if (op.k === "fetch") {
          const id = idOf(op.m);
          const r = new p.core.LangfuseMediaReference({ mediaId: id, contentType: op.m >= 100 ? "image/png" : media[op.m].type, url: `https://bucket.sim/get/${id}`, referenceString: "x" });
          const o = w.op(`${op.how} ${id}`, () => r[op.how]());
          done.push({ op, o });
          // whoever receives the bytes may use them up; another fetch gets the stored ones
          if (op.again)
            o.onSettle = () => {
              if (!o.ok) return;
              if (op.how === "fetchBytes") {
                const raw = o.value;
                o.value = new Uint8Array(raw);
                raw.fill(0);
              }
              done.push({ op, o: w.op(`${op.how} ${id} again`, () => r[op.how]()) });
            };
          return;
        }
        const obj = build(op.v);
        const snap = JSON.stringify(obj);
        const o = w.op(`resolve ${op.i}`, () => client.media.resolveReferences({ obj, resolveWith: "base64DataUri", ...(op.max === null ? {} : { maxDepth: op.max }) }));
        done.push({ op, o, obj, snap });
      });
    const end = await sim.run({ horizon: 24 * 3_600_000 });
    if (end === "steps") sim.fail("settles", "no quiescence");
    // a download URL that has expired is no excuse: each resolution can ask for a fresh one
    const expired = (r) => r.status === 403 && r.resBody === "Request has expired" && !plan.jumps.length;
    const bad = (r) => (r.status !== 200 && !expired(r)) || ["truncated", "nonjson"].includes(r.outcome);
    for (const { op, o, obj, snap } of done) {
      if (!o.settled) return sim.fail("settles", `${o.name} never settled`);
      const mine = w.net.log.filter((r) => r.op === o);
      const troubled = (id) => mine.some((r) => r.url.includes(id) && bad(r));
      if (op.k === "fetch") {
        sim.oblige("fetch");
        if (!o.ok) {
          if (!mine.some(bad)) return sim.fail("fetch", `${o.name} rejected although the download succeeded: ${o.error?.stack}`);
          continue;
        }
        if (op.m >= 100 || (mine.length && bad(mine.at(-1)))) return sim.fail("fetch", `${o.name} resolved although the content was not delivered`);
        const m = media[op.m];
        const got = op.how === "fetchBytes" ? `data:${m.type};base64,${Buffer.from(o.value).toString("base64")}` : op.how === "fetchBase64" ? `data:${m.type};base64,${o.value}` : o.value;
        if (got !== m.uri) return sim.fail("fetch", `${o.name} returned other content than stored`);
        continue;
      }
      if (JSON.stringify(obj) !== snap) return sim.fail("input-untouched", `resolveReferences modified its argument`);
      if (!o.ok) return sim.fail("never-rejects", `resolveReferences rejected: ${o.error?.stack ?? o.error}`);
      const max = op.max ?? 10;
      let err = null;
      const str = (v, got, depth, path) => {
        const raw = textOf(v);
        if (depth > max || !v.segs.some((s) => s.k === "ref")) {
          if (got !== raw) err = ["exact", `${path}: text changed to ${clip(got)}`];
          return;
        }
        // match segment by segment: a known reference is its data URI, or itself when its download failed
        if (typeof got !== "string") return void (err = ["exact", `${path}: ${clip(got)}`]);
        let at = 0;
        for (const s of v.segs) {
          const lit = s.k === "ref" ? refOf(s) : s.s;
          if (s.k === "ref" && s.m < 100) {
            sim.oblige("resolved");
            const uri = media[s.m].uri;
            if (got.startsWith(uri, at)) at += uri.length;
            else if (got.startsWith(lit, at)) {
              if (!troubled(media[s.m].id)) return void (err = ["resolved", `${path}: reference to ${media[s.m].id} left unresolved although no request for it failed`]);
              sim.cover("left-unresolved");
              at += lit.length;
            } else return void (err = ["exact", `${path}: expected the content of ${media[s.m].id} at offset ${at}, got ${clip(got.slice(at))}`]);
          } else {
            if (!got.startsWith(lit, at)) return void (err = ["exact", `${path}: text ${JSON.stringify(lit)} at offset ${at} became ${clip(got.slice(at))}`]);
            at += lit.length;
          }
        }
        if (at !== got.length) err = ["exact", `${path}: trailing ${clip(got.slice(at))}`];
      };
      const cmp = (v, got, depth, path) => {
        if (err) return;
        if (v.k === "str") return str(v, got, depth, path);
        if (v.k === "arr" || v.k === "obj") {
          const want = build(v);
          if (Array.isArray(want) !== Array.isArray(got) || got === null || typeof got !== "object" || JSON.stringify(Object.keys(want)) !== JSON.stringify(Object.keys(got))) return void (err = ["exact", `${path}: structure changed to ${clip(got)}`]);
          return Object.keys(want).forEach((key, i) => cmp(v.v[i], got[key], depth + 1, `${path}.${key}`));
        }
        if (v.k === "deep") {
          let x = got;
          for (let i = v.n - 1; i >= 0; i--) x = i % 2 ? x?.[0] : x?.in;
          return str(v.v, x, depth + v.n, `${path}…`);
        }
        if (!Object.is(got, build(v))) err = ["exact", `${path}: ${clip(got)}`];
      };
      cmp(op.v, o.value, 0, "$");
      if (err) return sim.fail(err[0], `resolveReferences at ${op.t}: ${err[1]}`);
      // never contacts anything for malformed references or beyond the depth
      for (const r of mine) if (!/GET (\/media|\/bucket)$/.test(r.route)) return sim.fail("exact", `unexpected request ${r.route}`);
    }
  },
};
