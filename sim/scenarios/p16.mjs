// P16: an observed OpenAI client behaves like the original, and every call is one complete generation.
import { World, MIX, clip } from "../harness.mjs";
import { A, ser, eq, sendsBySpan, checkNoDuplicates } from "../lib/tracing.mjs";

const sorted = (o) => o && Object.fromEntries(Object.entries(o).sort(([a], [b]) => (a < b ? -1 : 1)));
const ERRORS = {
  error: () => new Error("provider says no"),
  abort: () => Object.assign(new Error("Request was aborted."), { name: "APIUserAbortError" }),
  stop: () => Object.assign(new Error("This operation was aborted"), { name: "AbortError" }),
  string: () => "plain string failure",
  null: () => null,
};

function genCall(rng, i) {
  const api = rng.weighted([[6, "chat"], [2, "completions"], [3, "responses"], [1, "embeddings"], [0.5, "odd"]]);
  const c = { i, api, t: rng.int(0, 300), d: rng.weighted([[1, 0], [4, rng.int(0, 80)], [1, rng.int(100, 2500)]]) };
  c.fail = rng.weighted([[8, null], [1, "async"], [0.6, "sync"]]);
  if (c.fail) c.err = rng.pick(Object.keys(ERRORS));
  c.stream = ["chat", "completions", "responses"].includes(api) && rng.bool(0.55);
  if (c.stream) {
    const n = rng.weighted([[1, 0], [1, 1], [5, rng.int(2, 9)], [0.3, 60]]);
    c.gaps = Array.from({ length: n }, () => rng.weighted([[3, 0], [3, rng.int(0, 25)], [0.5, rng.int(50, 400)]]));
    c.end = rng.weighted([[6, "all"], [2, "error"], [2, "break"], [1, "throw"]]); // how the stream or its consumer ends
    c.at = rng.int(0, Math.max(0, n - 1));
    c.errKind = rng.pick(["error", "string", "abort", "stop"]);
    c.grows = rng.bool(0.2); // the provider reports the usage so far in every chunk
    c.tools = api === "chat" ? rng.weighted([[5, 0], [2, 1], [1, 2]]) : 0;
    c.both = rng.bool(0.4); // several tool calls announced in one chunk
    c.emptyTools = rng.bool(0.15);
    c.emptyChoices = rng.bool(0.3);
    c.direct = rng.bool(0.15); // the method returns the stream itself, not a promise
    c.slowConsumer = rng.bool(0.3) ? rng.int(1, 60) : 0;
  } else c.shape = rng.weighted([[6, "normal"], [1, "empty"], [1, "tool"], [1, "many"], [0.5, "none"], [0.7, "no-usage"], [0.5, "odd-choice"]]);
  c.usage = rng.weighted([[5, "plain"], [2, "details"], [1, "zero"], [1, "null-details"], [2, "none"]]);
  c.params = rng.bool(0.5);
  c.json = rng.bool(0.3);
  c.inTrace = rng.int(0, 3); // index of enclosing scope, 0: none
  c.client = rng.int(0, 2);
  c.app = c.inTrace && rng.bool(0.3); // the application propagates trace attributes of its own
  c.more = rng.bool(0.35); // a further parameter set, functions, response details
  c.method = rng.weighted([[6, "create"], [1, "parse"]]);
  c.beta = c.api === "chat" && rng.bool(0.15);
  c.over = c.usage === "details" && rng.bool(0.2); // details that exceed the totals
  c.detached = rng.bool(0.25); // the method was taken off the client once and is called alone
  c.flushAfter = rng.bool(0.12); // the application flushes right after the call
  c.args = rng.weighted([[5, null], [1, "undef"], [1, "hole"]]);
  c.template = api === "responses" && rng.bool(0.3); // a stored prompt besides the input
  c.repeatName = rng.bool(0.3); // some providers repeat the tool's name in every chunk
  c.talk = rng.bool(0.3); // text besides tool calls
  c.manual = rng.bool(0.2); // the consumer drives the iterator itself
  c.sync = rng.bool(0.1); // also calls a method that returns a plain value
  return c;
}

export default {
  id: "P16",
  bundles: ["openai"],
  shrink: ["ops"],
  runs: { quick: 6000, thorough: 120000 },
  components: {
    real: ["@langfuse/openai observeOpenAI, method tracing, stream wrapping, response parsing", "@langfuse/tracing, @langfuse/core propagation, @langfuse/otel span processor", "OpenTelemetry SDK, context manager and exporter"],
    stub: ["the OpenAI SDK (seeded calls, streams, errors and delays)", "network and Langfuse server (reference model)", "clock, timers, randomness"],
  },
  generate(rng) {
    const n = rng.weighted([[2, 1], [4, rng.int(2, 6)], [2, rng.int(5, 14)]]);
    return { cfg: { mode: rng.pick(["batched", "immediate"]), clients: [0, 1, 2].map(() => ({ user: rng.bool(0.4), session: rng.bool(0.3), tags: rng.bool(0.3), traceName: rng.bool(0.3), gen: rng.bool(0.4), meta: rng.bool(0.4), prompt: rng.bool(0.3), fallback: rng.bool(0.3), none: rng.bool(0.3), parent: rng.bool(0.15), rf: rng.bool(0.2) })), share: rng.bool(0.3), oneSdk: rng.bool(0.25) }, ops: Array.from({ length: n }, (_, i) => genCall(rng, i)).sort((a, b) => a.t - b.t) };
  },
  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    const w = new World(sim, bundle("openai"), { mix: MIX.calm });
    const p = w.load();
    const processor = new p.otel.LangfuseSpanProcessor({ exportMode: cfg.mode, flushInterval: 1 });
    w.startTracing(p, { processor });
    const T = p.tracing;
    const calls = [];

    // ---- the stubbed SDK ----
    const usageOf = (c) => {
      if (c.usage === "none" || c.shape === "no-usage") return undefined;
      const [i, o] = c.usage === "zero" ? [0, 0] : [20 + c.i, 9];
      const din = c.usage === "details" ? { cached_tokens: c.over ? 50 : 5, audio_tokens: c.i % 3 } : c.usage === "null-details" ? null : undefined;
      const dout = c.usage === "details" ? { reasoning_tokens: 4, accepted_prediction_tokens: 0, ...(c.i % 2 ? { audio_tokens: 1 } : {}) } : c.usage === "null-details" ? null : undefined;
      const opt = (k, v) => (v === undefined ? {} : { [k]: v });
      if (c.api === "responses") return { input_tokens: i, ...opt("input_tokens_details", din), output_tokens: o, ...opt("output_tokens_details", dout), total_tokens: i + o };
      return { prompt_tokens: i, completion_tokens: o, total_tokens: i + o, ...opt("prompt_tokens_details", din), ...opt("completion_tokens_details", dout) };
    };
    // what Langfuse shows for it: every token once, the detailed ones under their own key
    const usageShown = (u) => {
      if (!u) return undefined;
      const r = { total: u.total_tokens };
      const part = (key, total, det) => {
        let left = total;
        for (const [k, v] of Object.entries(det ?? {})) {
          r[`${key}_${k}`] = v;
          left = Math.max(left - v, 0);
        }
        r[key] = left;
      };
      part("input", u.prompt_tokens ?? u.input_tokens, u.prompt_tokens_details ?? u.input_tokens_details);
      part("output", u.completion_tokens ?? u.output_tokens, u.completion_tokens_details ?? u.output_tokens_details);
      return r;
    };
    // parameters and details that a Responses API answer repeats
    const respParams = (c) => (c.more ? { max_output_tokens: 100 + c.i, parallel_tool_calls: c.i % 2 === 0, store: c.i % 3 === 0, temperature: 0, tool_choice: "auto", top_p: 1, truncation: "disabled", user: `ru${c.i}` } : c.i % 4 ? { temperature: 0.5, user: null } : {});
    const respMeta = (c, status) => (c.more ? { reasoning: { effort: `e${c.i}` }, incomplete_details: c.i % 2 ? { reason: "max" } : null, instructions: `ins ${c.i}`, previous_response_id: `prev${c.i}`, tools: [{ type: `t${c.i}` }], metadata: { k: `v${c.i}` }, status, error: c.i % 3 ? null : { code: "x" } } : status ? { status } : {});
    const metaShown = (m) => Object.fromEntries(Object.entries(m).filter(([, v]) => v));
    const resultOf = (c) => {
      const base = { id: `r${c.i}`, model: `resp-model-${c.i}`, ...(usageOf(c) ? { usage: usageOf(c) } : {}) };
      if (c.shape === "none") return c.i % 2 ? null : undefined;
      if (c.api === "odd") return c.i % 2 ? "text result" : 7;
      if (c.api === "embeddings") return { ...base, data: [{ embedding: [1, 2] }] };
      if (c.api === "responses") {
        if (c.shape === "empty") return { ...base, output_text: "", output: [] };
        if (c.shape === "many") return { ...base, output: [c.i % 2 ? { type: "reasoning", summary: [] } : { t: 1 }, { t: `o${c.i}` }] };
        if (c.shape === "tool") return { ...base, output_text: "", output: [{ type: "function_call", name: `f${c.i}` }] };
        return { ...base, output_text: `answer ${c.i}`, output: [{ x: 1 }], ...respParams(c), ...respMeta(c, "completed") };
      }
      if (c.shape === "empty") return { ...base, choices: [] };
      if (c.shape === "odd-choice") return { ...base, choices: [null] };
      if (c.api === "completions") return { ...base, choices: [{ text: `text ${c.i}` }] };
      const m = c.shape === "tool" ? { role: "assistant", content: null, tool_calls: [{ id: "t", function: { name: "f", arguments: `{"i":${c.i}}` } }] } : { role: "assistant", content: `answer ${c.i}` };
      return { ...base, choices: [{ index: 0, message: m }, ...(c.shape === "many" ? [{ index: 1, message: { content: "second" } }] : [])] };
    };
    const outputOf = (c) => {
      const r = resultOf(c);
      if (r === null || typeof r !== "object") return "";
      if (c.api === "embeddings") return "";
      if (c.api === "responses") return r.output_text ? r.output_text : r.output.length > 1 ? r.output : (r.output[0] ?? null);
      if (!r.choices[0]) return "";
      return c.api === "completions" ? r.choices[0].text : r.choices[0].message;
    };
    const chunksOf = (c) => {
      const n = c.gaps.length;
      const out = [];
      for (let k = 0; k < n; k++) {
        const last = k === n - 1;
        const usage = last && usageOf(c) ? usageOf(c) : undefined;
        if (c.api === "responses") {
          if (k === 0) out.push({ type: "response.created", response: { id: "r", model: `resp-model-${c.i}`, output: [], ...respParams(c), status: "in_progress" } });
          else if (last) out.push({ type: "response.completed", response: { id: "r", model: `resp-model-${c.i}`, output: [...(c.i % 3 === 0 ? [{ type: "reasoning", summary: [`why ${c.i}`] }] : []), { type: "message", text: `full ${c.i}` }], ...respParams(c), ...respMeta(c, "completed"), ...(usage ? { usage } : {}) } });
          else if (c.more && k % 3 === 1) out.push({ type: "response.in_progress", response: { id: "r", model: `resp-model-${c.i}`, output: [{ type: "message", text: `part ${c.i}.${k}` }], ...respParams(c), status: "in_progress" } });
          else out.push({ type: "response.output_text.delta", delta: `d${k}` });
          continue;
        }
        const withU = usage ? { usage } : c.grows && usageOf(c) ? { usage: { ...usageOf(c), completion_tokens: k, total_tokens: 0 } } : c.i % 2 && usageOf(c) ? { usage: null } : {};
        if (c.emptyChoices && (k === 0 || (last && usage))) out.push({ id: "c", choices: [], ...withU });
        else if (c.api === "completions") out.push({ id: "c", choices: [{ text: `t${c.i}.${k} ` }], ...withU });
        else if (c.tools && k > 0) {
          const idx = (k - 1) % c.tools;
          const tc = c.both && c.tools === 2 && k <= 2 ? (k === 1 ? [0, 1].map((q) => ({ index: q, function: { name: `fn${c.i}_${q}`, arguments: q ? "" : "~" } })) : []) : c.emptyTools && k === 2 ? [] : [{ index: idx, ...(k <= c.tools ? { id: `call${idx}`, function: { name: `fn${c.i}_${idx}`, arguments: "" } } : c.more && k % 4 === 0 ? { type: "function" } : { function: { ...(c.repeatName ? { name: `fn${c.i}_${idx}` } : {}), arguments: `<${c.i}.${k}>` } }) }];
          out.push({ id: "c", choices: [{ delta: { tool_calls: tc } }], ...withU });
        } else out.push({ id: "c", choices: [{ delta: c.emptyTools && k === 1 ? { content: `w${c.i}.${k} `, tool_calls: [] } : k === 0 ? { role: "assistant", content: c.talk ? `let me see ${c.i} ` : "" } : { content: `w${c.i}.${k} ` } }], ...withU });
      }
      return out;
    };
    const streamExpect = (c, seen) => {
      const got = chunksOf(c).slice(0, seen);
      const usage = got.map((x) => x.usage ?? x.response?.usage).filter(Boolean).at(-1);
      let output;
      if (c.api === "responses") {
        const last = got.filter((x) => x.response).at(-1)?.response;
        output = last ? (last.output.length > 1 ? last.output : (last.output[0] ?? null)) : "";
        if (output === null) output = "";
      } else {
        const tc = got.flatMap((x) => x.choices[0]?.delta?.tool_calls ?? []);
        if (tc.length) {
          const by = new Map();
          for (const t of tc) {
            const e = by.get(t.index) ?? by.set(t.index, { function: { name: "", arguments: "" } }).get(t.index);
            e.function.name = t.function?.name || e.function.name;
            e.function.arguments += t.function?.arguments ?? "";
          }
          output = { tool_calls: [...by.values()] };
        } else output = got.map((x) => (c.api === "completions" ? x.choices[0]?.text : x.choices[0]?.delta?.content) ?? "").join("");
      }
      return { output, usage };
    };
    const makeStream = (rec) => {
      const { c } = rec;
      const chunks = chunksOf(c);
      rec.chunks = chunks;
      return {
        [Symbol.asyncIterator]() {
          rec.iterators = (rec.iterators ?? 0) + 1;
          let k = 0;
          return {
            async next() {
              await sim.sleep(k < c.gaps.length ? c.gaps[k] : 0);
              if (c.end === "error" && k === c.at + 1) {
                rec.streamError = ERRORS[c.errKind]();
                throw rec.streamError;
              }
              if (k >= chunks.length) {
                rec.exhausted = true;
                return { done: true, value: undefined };
              }
              if (k === 0) rec.tFirst = sim.now;
              return { done: false, value: chunks[k++] };
            },
            async return() {
              rec.closed = true;
              return { done: true, value: undefined };
            },
          };
        },
      };
    };
    let current = null; // record of the call being made (set synchronously around the call)
    class APIPromise extends Promise {}
    class Endpoint {
      #secret = "s";
      constructor(owner) {
        this.owner = owner;
      }
      create(...args) {
        return this.#go("create", args);
      }
      parse(...args) {
        return this.#go("parse", args);
      }
      plain(x) {
        return { owner: this.owner, x };
      }
      #go(method, args) {
        const rec = current;
        rec.gotMethod = method;
        rec.invoked = (rec.invoked ?? 0) + 1;
        rec.gotArgs = args;
        rec.thisOk = this instanceof Endpoint && this.#secret === "s" && this.owner !== undefined;
        const { c } = rec;
        if (c.fail === "sync") throw (rec.thrown = ERRORS[c.err]());
        if (c.stream && c.direct) return makeStream(rec);
        const run = async () => {
          await sim.sleep(c.d);
          if (c.fail === "async") throw (rec.thrown = ERRORS[c.err]());
          if (c.stream) return makeStream(rec);
          return (rec.result = resultOf(c));
        };
        return c.i % 3 ? run() : new APIPromise((res, rej) => run().then(res, rej));
      }
    }
    class FakeOpenAI {
      constructor() {
        this.baseURL = "https://api";
        this.maxRetries = 2;
        this.list = ["a"];
        this.since = new Date(5);
        this.nothing = null;
        this.chat = { completions: new Endpoint(this) };
        this.beta = { chat: { completions: new Endpoint(this) } };
        this.completions = new Endpoint(this);
        this.responses = new Endpoint(this);
        this.embeddings = new Endpoint(this);
        this.odd = new Endpoint(this);
      }
    }
    const confs = [];
    const one = new FakeOpenAI();
    const clients = cfg.clients.map((k, i) => {
      if (cfg.share && i === 1 && !k.none) {
        // two clients given the same configuration object
        k = cfg.clients[0];
        i = 0;
      }
      const conf = confs[i] ?? {};
      confs[i] = conf;
      if (k.user) conf.userId = `user-${i}`;
      if (k.session) conf.sessionId = `sess-${i}`;
      if (k.tags) conf.tags = [`tag-${i}`];
      if (k.traceName) conf.traceName = `tn-${i}`;
      if (k.gen) conf.generationName = `gen-${i}`;
      if (k.meta) conf.generationMetadata = { gm: `m-${i}`, nested: { a: i }, ...(k.rf ? { status: "mine" } : {}) };
      if (k.parent) conf.parentSpanContext = { traceId: `${i + 1}`.repeat(32), spanId: `${i + 1}`.repeat(16), traceFlags: 1 };
      if (k.prompt) conf.langfusePrompt = { name: `pr-${i}`, version: 3, isFallback: k.fallback };
      const snap = JSON.stringify(conf);
      const sdk = cfg.oneSdk ? one : new FakeOpenAI();
      const o = k.none ? p.openai.observeOpenAI(sdk) : p.openai.observeOpenAI(sdk, conf);
      if (o.baseURL !== "https://api" || o.maxRetries !== 2 || o.list !== sdk.list || o.since !== sdk.since || o.nothing !== null || o.absent !== undefined) sim.fail("transparent", "plain properties differ through the wrapper");
      return { o, conf: k.none ? {} : conf, snap, taken: new Map() };
    });
    const argsOf = (c) => {
      if (c.api === "odd") return c.args === "undef" ? ["some-id", undefined] : c.args === "hole" ? [undefined, { opt: 1 }] : c.i % 3 ? ["some-id", { opt: 1 }] : [];
      const a = { model: `model-${c.i}` };
      if (c.api === "chat") Object.assign(a, { messages: [{ role: "user", content: `q${c.i}` }], ...(c.tools ? { tools: [{ type: "function", function: { name: "f" } }], tool_choice: "auto" } : c.i % 5 === 0 ? { tool_choice: "none" } : {}) });
      if (c.api === "completions") a.prompt = `q${c.i}`;
      if (c.api === "responses" || c.api === "embeddings") a.input = c.i % 2 ? `q${c.i}` : [{ role: "user", content: `q${c.i}` }];
      if (c.template) a.prompt = { id: `pmpt_${c.i}`, variables: { x: "y" } };
      if (c.params) Object.assign(a, { temperature: 0, max_tokens: 5 + c.i });
      if (c.more) Object.assign(a, { frequency_penalty: 0.1, logit_bias: { 5: c.i }, logprobs: false, n: 2, presence_penalty: 0, seed: c.i, stop: ["a", `b${c.i}`], top_p: 0.3, user: `end-user-${c.i}`, top_logprobs: 3 });
      if (c.more && c.api === "chat") Object.assign(a, { functions: [{ name: `fu${c.i}` }], function_call: c.i % 2 ? "none" : { name: `fu${c.i}` } });
      if (c.json) a.response_format = { type: "json_object" };
      if (c.stream) a.stream = true;
      if (c.args) return c.args === "undef" ? [a, undefined] : [a, undefined, { extra: c.i }];
      return [a, ...(c.i % 2 ? [{ timeout: 100 }] : [])];
    };
    const inputOf = (c, a) => (c.api === "chat" ? { messages: a.messages, ...(a.functions ? { function_call: a.function_call, functions: a.functions } : {}), ...(a.tools ? { tools: a.tools } : {}), ...("tool_choice" in a ? { tool_choice: a.tool_choice } : {}) } : c.api === "completions" ? a.prompt : a?.input);

    const doCall = async (c, scope) => {
      await makeCall(c, scope);
      const rec = calls.find((x) => x.c === c);
      if (!c.flushAfter) return;
      rec.flush = w.op(`flush after call ${c.i}`, () => processor.forceFlush());
      rec.flush.onSettle = () => (rec.flushed = sendsBySpan(w.net));
    };
    const makeCall = async (c, scope) => {
      const rec = { c, scope: scope ?? null, seen: [], t: sim.now, client: clients[c.client] };
      calls.push(rec);
      rec.args = argsOf(c);
      const snap = JSON.stringify(rec.args);
      const ep = c.api === "chat" ? (c.beta ? rec.client.o.beta : rec.client.o).chat.completions : rec.client.o[c.api];
      if (c.sync) {
        const v = ep.plain(c.i);
        if (v?.x !== c.i || !(v.owner instanceof FakeOpenAI)) return sim.fail("transparent", `call ${c.i}: a method returning a plain value gave ${clip(v)}`);
      }
      let r;
      current = rec;
      try {
        if (c.detached) {
          const key = `${c.beta ? "beta." : ""}${c.api}.${c.method}`;
          if (!rec.client.taken.has(key)) rec.client.taken.set(key, ep[c.method]);
          const fn = rec.client.taken.get(key);
          r = fn(...rec.args);
        } else r = ep[c.method](...rec.args);
      } catch (e) {
        rec.syncError = e;
        rec.hasSyncError = true;
        rec.tSettled = sim.now;
        return;
      } finally {
        current = null;
      }
      rec.wasPromise = typeof r?.then === "function";
      try {
        rec.value = await r;
      } catch (e) {
        rec.error = e;
        rec.hasError = true;
        rec.tSettled = sim.now;
        return;
      }
      if (!c.stream) {
        rec.tSettled = sim.now;
        return;
      }
      try {
        let k = 0;
        if (c.manual) {
          const it = rec.value[Symbol.asyncIterator]();
          for (;;) {
            const { done, value } = await it.next();
            if (done) break;
            rec.seen.push(value);
            if (c.slowConsumer) await sim.sleep(c.slowConsumer);
            if (["break", "throw"].includes(c.end) && k === c.at) {
              await it.return();
              break;
            }
            k++;
          }
        } else for await (const x of rec.value) {
          rec.seen.push(x);
          if (c.slowConsumer) await sim.sleep(c.slowConsumer);
          if (c.end === "break" && k === c.at) break;
          if (c.end === "throw" && k === c.at) throw (rec.consumerError = new Error("consumer"));
          k++;
        }
        rec.streamDone = true;
      } catch (e) {
        rec.error = e;
        rec.hasError = true;
      }
      rec.tSettled = sim.now;
      if (JSON.stringify(rec.args) !== snap) sim.fail("transparent", `call ${c.i}: arguments were modified`);
    };
    for (const c of plan.ops)
      w.at(c.t, "call", () => {
        const go = async () => {
          if (!c.inTrace) return doCall(c, null);
          await T.startActiveObservation(`scope-${c.i}`, async (s) => {
            const ctx = s.otelSpan.spanContext();
            if (c.inTrace > 1) await sim.sleep(c.inTrace * 3);
            if (c.app) await T.propagateAttributes({ userId: `app-${c.i}`, tags: [`app-tag-${c.i}`], metadata: { am: `x${c.i}` } }, () => doCall(c, ctx));
            else await doCall(c, ctx);
          });
        };
        go().catch((e) => sim.fail("harness", String(e?.stack ?? e)));
      });
    const end = await sim.run({ horizon: 600_000 });
    if (end === "steps") sim.fail("settles", "no quiescence");
    w.op("flush", () => processor.forceFlush());
    await sim.run({ horizon: 700_000 });

    // ---- transparency ----
    for (const rec of calls) {
      const { c } = rec;
      const id = `call ${c.i} (${c.api}${c.stream ? " stream" : ""})`;
      if (rec.tSettled === undefined) return sim.fail("transparent", `${id} never settled`);
      sim.oblige("transparent");
      if (rec.invoked !== 1) return sim.fail("transparent", `${id}: the SDK method ran ${rec.invoked ?? 0} times`);
      if (rec.gotMethod !== c.method) return sim.fail("transparent", `${id}: ran ${rec.gotMethod} instead of ${c.method}`);
      if (!rec.thisOk || rec.gotArgs.length !== rec.args.length || rec.gotArgs.some((a, k) => a !== rec.args[k])) return sim.fail("transparent", `${id}: receiver or arguments differ`);
      if (c.fail === "sync") {
        if (!rec.hasSyncError || rec.syncError !== rec.thrown) return sim.fail("transparent", `${id}: threw ${clip(String(rec.syncError))}, the SDK threw ${clip(String(rec.thrown))}`);
        continue;
      }
      if (rec.hasSyncError) return sim.fail("transparent", `${id}: threw synchronously ${rec.syncError?.stack}`);
      if (rec.wasPromise !== !(c.stream && c.direct)) return sim.fail("transparent", `${id}: returned ${rec.wasPromise ? "a promise" : "no promise"}`);
      if (c.fail === "async" && !(c.stream && c.direct)) {
        if (!rec.hasError || rec.error !== rec.thrown) return sim.fail("transparent", `${id}: rejected with ${clip(String(rec.error))}, the SDK rejected with ${clip(String(rec.thrown))}`);
        continue;
      }
      if (!c.stream) {
        if (rec.hasError || rec.value !== rec.result) return sim.fail("transparent", `${id}: got ${rec.hasError ? `error ${rec.error?.stack}` : clip(rec.value)}, the SDK returned ${clip(rec.result)}`);
        continue;
      }
      // streams
      const n = rec.chunks.length;
      const want = c.end === "error" ? Math.min(c.at + 1, n) : ["break", "throw"].includes(c.end) ? Math.min(c.at + 1, n) : n;
      if (rec.seen.length !== want || rec.seen.some((x, k) => x !== rec.chunks[k])) return sim.fail("transparent", `${id}: consumer saw ${rec.seen.length} chunks, expected ${want}`);
      const wantErr = rec.consumerError ?? rec.streamError;
      if (wantErr !== undefined ? rec.error !== wantErr : rec.hasError) return sim.fail("transparent", `${id}: stream ended with ${rec.error?.stack ?? rec.error}, expected ${wantErr}`);
      if (rec.iterators !== 1) return sim.fail("transparent", `${id}: the stream was iterated ${rec.iterators} times`);
      if ((c.end === "break" || c.end === "throw") && n > 0 && !rec.closed) return sim.fail("transparent", `${id}: the consumer stopped early but the stream was never closed`);
    }
    // ---- recording ----
    const sends = sendsBySpan(w.net);
    checkNoDuplicates(sim, sends, (x) => x);
    const gens = [...sends.values()].map((l) => l[0].s).filter((s) => s.attributes[A.type] === "generation");
    if (gens.length !== calls.length) {
      const miss = calls.find((r) => !gens.some((g) => mine(g, r)));
      return sim.fail("recorded-once", `${calls.length} calls produced ${gens.length} generations${miss ? `; none for call ${miss.c.i} (${miss.c.api}, ${miss.c.stream ? `stream ${miss.c.end}` : miss.c.fail ?? miss.c.shape})` : ""}`);
    }
    function mine(g, rec) {
      const { c } = rec;
      if (c.api === "odd") return g.attributes[A.model] === undefined && (rec.client.conf.parentSpanContext ? g.parentSpanId === rec.client.conf.parentSpanContext.spanId : rec.scope ? g.parentSpanId === rec.scope.spanId : true);
      return g.attributes[A.model] === `model-${c.i}` || g.attributes[A.model] === `resp-model-${c.i}`;
    }
    for (const rec of calls) {
      const { c } = rec;
      if (c.api === "odd") continue;
      const id = `call ${c.i} (${c.api}${c.stream ? " stream" : ""})`;
      const mineG = gens.filter((g) => mine(g, rec));
      sim.oblige("recorded-once");
      if (mineG.length !== 1) return sim.fail("recorded-once", `${id}: ${mineG.length} generations`);
      const g = mineG[0];
      const a = rec.args[0];
      const { conf } = rec.client;
      const parent = conf.parentSpanContext ?? rec.scope;
      if ((g.parentSpanId ?? null) !== (parent?.spanId ?? null) || (parent && g.traceId !== parent.traceId)) return sim.fail("nesting", `${id}: recorded under ${g.parentSpanId}, ${conf.parentSpanContext ? "the configured parent is" : "the active observation was"} ${parent?.spanId}`);
      if (rec.flushed && !rec.flushed.has(g.spanId)) return sim.fail("ended-when-done", `${id}: a flush right after the call had completed did not send its generation`);
      if (rec.flushed) sim.oblige("ended-before-done");
      if (JSON.stringify(conf) !== (rec.client.conf === conf && Object.keys(conf).length ? rec.client.snap : JSON.stringify(conf))) return sim.fail("transparent", `${id}: the caller's configuration became ${clip(conf)}`);
      const endMs = Number(g.end) / 1e6 - sim.wallBase;
      if (Math.abs(endMs - rec.tSettled) > 2) return sim.fail("ended-when-done", `${id}: generation ended at ${Math.round(endMs)}, the call was done at ${rec.tSettled}`);
      const want = { [A.input]: ser(inputOf(c, a)), [A.userId]: conf.userId ?? (c.app ? `app-${c.i}` : undefined), [A.sessionId]: conf.sessionId, [A.traceName]: conf.traceName, [`${A.metadata}.gm`]: conf.generationMetadata?.gm, [A.promptName]: conf.langfusePrompt && !conf.langfusePrompt.isFallback ? conf.langfusePrompt.name : undefined, [`${A.metadata}.nested`]: conf.generationMetadata && ser(conf.generationMetadata.nested), [A.traceMetadata ? `${A.traceMetadata}.am` : "langfuse.trace.metadata.am"]: c.app ? `x${c.i}` : undefined };
      const wantTags = [...(c.app ? [`app-tag-${c.i}`] : []), ...(conf.tags ?? [])].sort();
      if (!eq([...(g.attributes[A.tags] ?? [])].sort(), wantTags)) return sim.fail("recorded", `${id}: tags ${clip(g.attributes[A.tags])}, expected ${clip(wantTags)}`);
      if (want[A.promptName] && Number(g.attributes[A.promptVersion]) !== 3) return sim.fail("recorded", `${id}: prompt version ${g.attributes[A.promptVersion]}`);
      const failed = rec.hasSyncError || (c.fail === "async" && !(c.stream && c.direct)) || rec.streamError !== undefined;
      want[A.level] = failed ? "ERROR" : undefined;
      want[A.statusMessage] = failed ? String(rec.thrown !== undefined ? rec.thrown : rec.streamError) : undefined;
      if (c.json) want[`${A.metadata}.response_format`] = JSON.stringify(a.response_format);
      // a call that never produced anything is recorded as free; what was streamed before a failure is not
      want[A.costDetails] = failed && rec.streamError === undefined ? ser({ input: 0, output: 0, total: 0 }) : undefined;
      let usage;
      if (c.stream && rec.chunks && (!failed || rec.streamError !== undefined)) {
        const e = streamExpect(c, rec.seen.length);
        want[A.output] = e.output === null ? undefined : ser(e.output);
        usage = e.usage;
        sim.oblige("stream-output");
      } else if (!c.stream && !failed) {
        want[A.output] = ser(outputOf(c));
        usage = resultOf(c)?.usage;
        sim.oblige("output");
      }
      for (const [k, v] of Object.entries(want)) if (!eq(g.attributes[k], v)) return sim.fail("recorded", `${id}: ${k} is ${clip(g.attributes[k])}, expected ${clip(v)}`);
      const params = JSON.parse(g.attributes[A.modelParameters] ?? "{}");
      let wantP = Object.fromEntries(["frequency_penalty", "logit_bias", "logprobs", "max_tokens", "n", "presence_penalty", "seed", "stop", "stream", "temperature", "top_p", "user", "top_logprobs"].filter((k) => a[k] !== undefined).map((k) => [k, a[k]]));
      const answer = !c.stream ? (failed ? undefined : resultOf(c)) : rec.seen.filter((x) => x?.response).at(-1)?.response; // last state the provider reported
      const repeated = answer && typeof answer === "object" && c.api === "responses" ? Object.fromEntries(Object.keys(respParams({ ...c, more: true })).filter((k) => answer[k] !== null && answer[k] !== undefined).map((k) => [k, answer[k]])) : {};
      // a Responses API answer repeats the parameters in effect, which then count
      if (Object.keys(repeated).length) wantP = repeated;
      for (const k of new Set([...Object.keys(wantP), ...Object.keys(params)])) if (k !== "response_format" && !eq(params[k], wantP[k]) && !(k in wantP && !Object.keys(repeated).length === false && eq(params[k], a[k]))) return sim.fail("recorded", `${id}: model parameter ${k} is ${clip(params[k])}, expected ${clip(wantP[k])}`);
      if (c.api === "responses" && answer && typeof answer === "object" && !failed)
        for (const [k, v] of Object.entries(metaShown(Object.fromEntries(["reasoning", "incomplete_details", "instructions", "previous_response_id", "tools", "metadata", "status", "error"].map((q) => [q, answer[q]]))))) if (!eq(g.attributes[`${A.metadata}.${k}`], ser(v))) return sim.fail("recorded", `${id}: metadata ${k} is ${clip(g.attributes[`${A.metadata}.${k}`])}, the answer says ${clip(v)}`);
      if (g.attributes[A.model] !== (answer?.model ?? a.model)) return sim.fail("recorded", `${id}: model ${g.attributes[A.model]}, expected ${answer?.model ?? a.model}`);
      if (g.name !== (conf.generationName ?? `FakeOpenAI.${c.beta ? "beta" : c.api}`)) return sim.fail("recorded", `${id}: named ${g.name}`);
      const u = g.attributes[A.usageDetails] ? JSON.parse(g.attributes[A.usageDetails]) : undefined;
      if (!failed) {
        const wantU = usageShown(usage);
        if (!eq(sorted(u), sorted(wantU))) return sim.fail("recorded", `${id}: usage ${clip(u)}, the provider reported ${clip(usage)}`);
      }
      if (c.stream && rec.seen.length && !failed) {
        const ct = Date.parse(JSON.parse(g.attributes[A.completionStartTime] ?? "null")) - sim.wallBase;
        if (!(Math.abs(ct - rec.tFirst) <= 1)) return sim.fail("recorded", `${id}: completion start ${g.attributes[A.completionStartTime]} (${ct}), the first chunk came at ${rec.tFirst}`);
      }
    }
  },
};
