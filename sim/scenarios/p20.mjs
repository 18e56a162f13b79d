// P20: a prompt compiles to exactly its own text with exactly the values of that call, whoever shares the cached prompt.
import { World, MIX, clip } from "../harness.mjs";
import { json } from "../server.mjs";

const NAMES = ["a", "folder/b c", "c"];
const VARS = ["user", "item_1", "X", "n", "longName", "name", "version", "content"];
const PHS = ["history", "user", "ctx"];
const TEXTS = ["Hello ", " & <b>\"q\"</b> ", "\nline\n", "it's 100% $& $1 ", "ünï☃ ", " / ", "\t", "a \\n b", "."];
const VALUES = ["plain", "<b>&\"'/`=</b>", "{{user}}", "{n} {{{X}}} }} {{", "$& $1 $$", "", "line\nbreak", "☃", 0, 7.5, "{\"json\":{\"k\":1}}"];
const ROLES = ["system", "user", "assistant", "critic"];

// a template is a list of segments: a string, or {v: name, s: style}
function genJson(rng, depth) {
  const leaf = () => rng.weighted([[2, () => '"s"'], [1, () => "1"], [1, () => "[1, 2]"], [3, () => ({ v: rng.pick(VARS), q: rng.bool(0.5) })]])();
  const quote = rng.bool(0.2) ? "'" : '"';
  const o = (d) => {
    const segs = [rng.pick(["{", "{ ", "{\n  "])];
    const n = rng.int(1, 3);
    for (let i = 0; i < n; i++) {
      if (i) segs.push(rng.pick([",", ", "]));
      segs.push(`${quote}k${i}${quote}:${rng.pick(["", " "])}`);
      if (d > 0 && rng.bool(0.6)) segs.push(...(rng.bool(0.25) ? ["[", ...o(d - 1), "]"] : o(d - 1)));
      else {
        const l = leaf();
        if (typeof l === "string") segs.push(l);
        else segs.push(...(l.q ? ['"', { v: l.v, s: 0 }, '"'] : [{ v: l.v, s: 0 }]));
      }
    }
    segs.push(rng.pick(["}", "}", " }", "\n}"]));
    return segs;
  };
  return o(depth);
}
function genTemplate(rng) {
  const segs = [];
  const n = rng.weighted([[1, 0], [2, 1], [5, rng.int(2, 7)]]);
  for (let i = 0; i < n; i++) {
    const k = rng.weighted([[4, "text"], [5, "var"], [1.2, "json"]]);
    if (k === "text") segs.push(rng.pick(TEXTS));
    else if (k === "var") segs.push({ v: rng.pick(VARS), s: rng.weighted([[8, 0], [1, 1], [1, 2]]) });
    else segs.push(...genJson(rng, rng.int(0, 3)));
    if (rng.bool(0.4)) segs.push(" ");
  }
  return segs;
}
const src = (segs) => segs.map((x) => (typeof x === "string" ? x : ["{{%}}", "{{ % }}", "{{{%}}}"][x.s].replace("%", x.v))).join("");
const fill = (segs, vars) => segs.map((x) => (typeof x === "string" ? x : (vars?.[x.v] ?? ""))).join("");
const lcSafe = (segs) => segs.every((x) => typeof x === "string" || x.s !== 2);

function genContent(rng, phs = true) {
  if (rng.bool(0.45)) return { type: "text", segs: genTemplate(rng) };
  return {
    type: "chat",
    items: Array.from({ length: rng.weighted([[0.5, 0], [5, rng.int(1, 5)]]) }, () => (phs && rng.bool(0.3) ? { ph: rng.pick(PHS) } : { role: rng.pick(ROLES), segs: genTemplate(rng), typed: rng.bool(0.7) })),
  };
}
const genVars = (rng) => (rng.bool(0.1) ? null : Object.fromEntries(rng.sample(VARS, rng.int(0, VARS.length)).map((v) => [v, rng.pick(VALUES)])));
function genPhs(rng) {
  if (rng.bool(0.2)) return null;
  const r = {};
  for (const ph of rng.sample(PHS, rng.int(0, 3)))
    r[ph] = rng.weighted([
      [5, () => ({ k: "msgs", list: Array.from({ length: rng.int(1, 3) }, () => ({ role: rng.pick(ROLES), segs: genTemplate(rng), extra: rng.bool(0.3) })) })],
      [1, () => ({ k: "empty" })],
      [0.6, () => ({ k: "multimodal" })],
      [0.6, () => ({ k: "odd", v: rng.pick(["text", { a: [1] }, [1, "x"], 0, false, [{ role: "user" }]]) })],
    ])();
  return r;
}

/** LangChain's f-string format: {{ and }} are literal braces, {name} is a variable, anything else is an error. */
function fstring(t, vars) {
  let out = "";
  for (let i = 0; i < t.length; ) {
    if (t.startsWith("{{", i) || t.startsWith("}}", i)) {
      out += t[i];
      i += 2;
    } else if (t[i] === "{") {
      const j = t.indexOf("}", i);
      if (j < 0) throw new Error("Missing '}' in template");
      const name = t.slice(i + 1, j);
      if (!(name in vars)) throw new Error(`(f-string) Missing value for input ${name}`);
      out += vars[name];
      i = j + 1;
    } else if (t[i] === "}") throw new Error("Single '}' in template");
    else out += t[i++];
  }
  return out;
}

export default {
  id: "P20",
  bundles: ["client"],
  shrink: ["ops"],
  runs: { quick: 8000, thorough: 150000 },
  components: {
    real: ["@langfuse/client PromptManager, prompt cache, text and chat prompt clients", "mustache", "@langfuse/core API client (fetcher, retries, timeouts)"],
    stub: ["network (seeded faults)", "Langfuse prompt API (versions with generated content)", "LangChain's f-string formatter (reference)", "clock, timers, randomness"],
  },
  generate(rng) {
    const names = rng.sample(NAMES, rng.int(1, 2));
    const span = rng.pick([500, 4000, 20000]);
    const ops = [];
    for (const n of names) ops.push({ t: 0, k: "publish", name: n, content: genContent(rng) });
    for (let i = 0, n = rng.int(2, 14); i < n; i++) {
      const t = rng.int(1, span);
      const k = rng.weighted([[10, "use"], [2, "publish"], [1, "create"]]);
      const name = rng.pick(names);
      if (k === "publish") ops.push({ t, k, name, content: genContent(rng) });
      else if (k === "create") ops.push({ t, k, name: `new-${i}`, content: genContent(rng), more: rng.bool(0.5) });
      else
        ops.push({
          t, k, name,
          ttl: rng.pick([null, 0, 1]),
          fallback: rng.bool(0.25) ? genContent(rng, false) : null, // a fallback holds plain messages only
          uses: Array.from({ length: rng.int(1, 4) }, () => ({ d: rng.weighted([[3, 0], [2, rng.int(1, 1500)]]), vars: genVars(rng), phs: genPhs(rng), how: rng.weighted([[4, "compile"], [2, "langchain"], [1, "json"]]), edit: rng.bool(0.4), again: rng.bool(0.4) })),
        });
    }
    return { cfg: { mode: rng.weighted([[3, "calm"], [1, "rough"], [0.5, "down"]]), maxLatency: rng.pick([5, 200]) }, ops: ops.sort((a, b) => a.t - b.t) };
  },
  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    const w = new World(sim, bundle("client"), { mix: cfg.mode === "calm" ? MIX.calm : cfg.mode === "rough" ? MIX.rough : { reset: 3, 503: 3, 404: 1 }, maxLatency: cfg.maxLatency, until: Infinity });
    const store = new Map(); // name -> content[] (index = version - 1)
    const stored = (content) => (content.type === "text" ? src(content.segs) : content.items.map((it) => (it.ph ? { type: "placeholder", name: it.ph } : { ...(it.typed ? { type: "chatmessage" } : {}), role: it.role, content: src(it.segs) })));
    const view = (name, version) => {
      const c = store.get(name)[version - 1];
      return { name, version, labels: ["production", `v${version}`], tags: [`tag-${version}`], config: { temperature: version, deep: { name }, user: `config user ${version}`, name: "config name", X: version }, type: c.type, prompt: stored(c), commitMessage: version % 2 ? `commit ${version}` : null, resolutionGraph: null };
    };
    const publish = (name, content) => store.set(name, [...(store.get(name) ?? []), content]);
    w.server.custom = (req) => {
      const path = req.url.pathname;
      if (!path.startsWith("/api/public/v2/prompts")) return null;
      if (req.method === "POST") {
        const b = JSON.parse(req.body);
        const op = plan.ops.find((o) => o.k === "create" && o.name === b.name);
        if (!store.has(b.name)) publish(b.name, op.content);
        return json(200, view(b.name, 1));
      }
      const name = decodeURIComponent(path.slice("/api/public/v2/prompts/".length));
      const vs = store.get(name);
      return vs ? json(200, view(name, vs.length)) : json(404, { message: "not found" });
    };
    const p = w.load();
    const client = new p.client.LangfuseClient();

    // ---- what a use must give ----
    const phValue = (d) => (d.k === "empty" ? [] : d.k === "odd" ? d.v : d.k === "multimodal" ? [{ role: "user", content: [{ type: "text", text: "{{user}} <raw>" }] }] : d.list.map((m) => ({ role: m.role, content: src(m.segs), ...(m.extra ? { tool_call_id: "t1", name: "x" } : {}) })));
    const expectCompile = (content, u) => {
      if (content.type === "text") return fill(content.segs, u.vars);
      return content.items.flatMap((it) => {
        if (!it.ph) return [{ role: it.role, content: fill(it.segs, u.vars) }];
        const d = u.phs?.[it.ph];
        if (!d) return [{ type: "placeholder", name: it.ph }];
        if (d.k === "empty") return [];
        if (d.k === "odd") return [JSON.stringify(d.v)];
        if (d.k === "multimodal") return phValue(d);
        return d.list.map((m) => ({ role: m.role, content: fill(m.segs, u.vars), ...(m.extra ? { tool_call_id: "t1", name: "x" } : {}) }));
      });
    };
    const allVars = (vars) => Object.fromEntries(VARS.map((v) => [v, vars?.[v] ?? ""]));
    /** The LangChain form, formatted by LangChain, must read like the compiled prompt; null: outside what the format can express. */
    const checkLangchain = (content, u, got, id) => {
      const vars = allVars(u.vars);
      const text = (segs, t, what) => {
        if (!lcSafe(segs)) return true;
        let r;
        try {
          r = fstring(t, vars);
        } catch (e) {
          return sim.fail("langchain", `${id}: LangChain cannot format ${what} ${clip(t)}: ${e.message}; the prompt is ${clip(src(segs))}`);
        }
        sim.oblige("langchain");
        if (r !== fill(segs, vars)) return sim.fail("langchain", `${id}: LangChain formats ${what} to ${clip(r)}, expected ${clip(fill(segs, vars))}`);
        return true;
      };
      if (content.type === "text") return text(content.segs, got, "the text");
      const want = content.items.flatMap((it) => {
        if (!it.ph) return [{ role: it.role, segs: it.segs }];
        const d = u.phs?.[it.ph];
        if (!d) return [{ raw: ["placeholder", `{${it.ph}}`] }];
        if (d.k === "empty") return [];
        if (d.k === "odd") return [{ raw: JSON.stringify(d.v) }];
        return d.list.map((m) => ({ role: m.role, segs: m.segs }));
      });
      if (!Array.isArray(got) || got.length !== want.length) return sim.fail("langchain", `${id}: ${got?.length} messages, expected ${want.length}`);
      return want.every((x, k) => (x.raw !== undefined ? JSON.stringify(got[k]) === JSON.stringify(x.raw) || sim.fail("langchain", `${id}: message ${k} is ${clip(got[k])}, expected ${clip(x.raw)}`) : got[k]?.role !== x.role ? sim.fail("langchain", `${id}: message ${k} has role ${got[k]?.role}, expected ${x.role}`) : text(x.segs, got[k].content, `message ${k}`)));
    };
    const canon = (v) => (Array.isArray(v) ? v.map(canon) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).filter(([, x]) => x !== undefined).sort(([a], [b]) => (a < b ? -1 : 1)).map(([k, x]) => [k, canon(x)])) : v);
    const same = (a, b) => JSON.stringify(canon(a)) === JSON.stringify(canon(b));
    const typed = (pr) => (Array.isArray(pr) ? pr.map((m) => ("type" in m ? m : { type: "chatmessage", ...m })) : pr);
    const untyped = (pr) => (Array.isArray(pr) ? pr.map(({ type, ...m }) => (type === "placeholder" ? { type, ...m } : m)) : pr);

    const checkClient = (c, content, meta, id) => {
      sim.oblige("content");
      if (c.type !== content.type || !same(typed(c.prompt), typed(stored(content)))) return sim.fail("content", `${id}: holds ${c.type} ${clip(c.prompt)}, the stored prompt is ${clip(stored(content))}`);
      for (const [k, v] of Object.entries(meta)) if (!same(c[k] ?? null, v ?? null)) return sim.fail("content", `${id}: ${k} is ${clip(c[k])}, expected ${clip(v)}`);
      return true;
    };
    let pending = 0;
    const useIt = async (c, content, meta, uses, id) => {
      for (const [n, u] of uses.entries()) {
        if (u.d) await sim.sleep(u.d);
        const uid = `${id} use ${n}`;
        if (checkClient(c, content, meta, uid) !== true) return;
        const vars = u.vars === null ? undefined : { ...u.vars };
        const phs = u.phs === null ? undefined : Object.fromEntries(Object.entries(u.phs).map(([k, d]) => [k, phValue(d)]));
        const snap = JSON.stringify([vars, phs]);
        for (let round = 0; round < (u.again ? 2 : 1); round++) {
          let r;
          try {
            if (u.how === "compile") r = content.type === "text" && !phs ? c.compile(vars) : c.compile(vars, phs);
            else if (u.how === "langchain") {
              if (Object.values(u.phs ?? {}).some((d) => d.k === "multimodal")) break; // no LangChain form
              r = c.getLangchainPrompt(phs ? { placeholders: phs } : undefined);
            } else r = JSON.parse(c.toJSON());
          } catch (e) {
            return sim.fail("compiles", `${uid}: ${u.how} threw ${e?.stack ?? e}`);
          }
          if (JSON.stringify([vars, phs]) !== snap) return sim.fail("inputs-kept", `${uid}: ${u.how} modified the caller's values`);
          sim.oblige(u.how);
          if (u.how === "compile") {
            const e = expectCompile(content, u);
            if (!same(r, e)) return sim.fail("compile", `${uid}${round ? " (again)" : ""}: compiled to ${clip(r, 300)}, expected ${clip(e, 300)}`);
            if (u.edit && Array.isArray(r)) {
              // what the caller does with its result is its own business
              for (const m of r) if (m && typeof m === "object" && typeof m.content === "string" && m.role) m.content = `EDITED ${m.content}`;
              r.push({ role: "user", content: "EDITED" });
              r.shift();
            }
          } else if (u.how === "langchain") {
            if (checkLangchain(content, u, r, uid) !== true) return;
            if (u.edit && Array.isArray(r)) r.length = 0;
          } else {
            const e = { name: meta.name, prompt: untyped(stored(content)), version: meta.version, isFallback: meta.isFallback, tags: meta.tags, labels: meta.labels, type: content.type, config: meta.config };
            if (!same({ ...r, prompt: untyped(r.prompt) }, e)) return sim.fail("json", `${uid}: toJSON gave ${clip(r, 300)}, expected ${clip(e, 300)}`);
          }
          await sim.sleep(0);
        }
      }
    };
    for (const [i, op] of plan.ops.entries())
      w.at(op.t, op.k, () => {
        if (op.k === "publish") return void publish(op.name, op.content);
        if (op.k === "create") {
          const body = { name: op.name, prompt: stored(op.content), ...(op.content.type === "chat" ? { type: "chat" } : i % 2 ? { type: "text" } : {}), ...(op.more ? { labels: ["production", "x"], tags: ["t"], config: { a: { b: 1 } }, commitMessage: "why" } : {}) };
          const snap = JSON.stringify(body);
          const o = w.op(`create ${op.name}`, () => client.prompt.create(body));
          o.onSettle = () => {
            const id = `create ${op.name}`;
            if (JSON.stringify(body) !== snap) return sim.fail("inputs-kept", `${id}: modified the given prompt`);
            for (const r of w.net.log.filter((x) => x.op === o)) {
              const want = { ...body, type: op.content.type, prompt: typed(body.prompt) };
              if (!same(JSON.parse(r.body), want)) return sim.fail("create", `${id}: sent ${clip(r.body, 300)}, expected ${clip(want, 300)}`);
              sim.oblige("create");
            }
            if (!o.ok) return;
            const v = view(op.name, 1);
            pending++;
            useIt(o.value, op.content, { name: op.name, version: 1, labels: v.labels, tags: v.tags, config: v.config, isFallback: false, commitMessage: v.commitMessage }, [{ d: 0, vars: { user: "u" }, phs: null, how: "compile" }], id).finally(() => pending--);
          };
          return;
        }
        const opts = {};
        if (op.ttl !== null) opts.cacheTtlSeconds = op.ttl;
        if (op.fallback) {
          opts.type = op.fallback.type;
          opts.fallback = op.fallback.type === "text" ? src(op.fallback.segs) : stored(op.fallback);
          if (op.fallback.type === "text" && opts.fallback === "") delete opts.fallback;
        }
        const o = w.op(`get ${op.name}`, () => client.prompt.get(op.name, opts));
        o.onSettle = () => {
          if (!o.ok) return;
          const c = o.value;
          const id = `get ${op.name} #${i}${c.isFallback ? " (fallback)" : ` v${c.version}`}`;
          const fb = c.isFallback;
          const content = fb ? op.fallback : store.get(op.name)?.[c.version - 1];
          if (!content) return sim.fail("content", `${id}: no such version was ever published`);
          const meta = fb ? { name: op.name, isFallback: true } : (({ labels, tags, config, commitMessage }) => ({ name: op.name, version: c.version, labels, tags, config, commitMessage, isFallback: false }))(view(op.name, c.version));
          pending++;
          useIt(c, content, fb ? { ...meta, version: c.version, tags: c.tags, labels: c.labels, config: c.config } : meta, op.uses, id).finally(() => pending--);
        };
      });
    const end = await sim.run({ horizon: 700_000 });
    if (end === "steps" || pending) sim.fail("settles", "no quiescence");
  },
};
