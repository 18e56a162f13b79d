// P17: the LangChain handler mirrors every LangChain run as one complete, correctly placed observation.
// Real @langchain/core runnables drive the handler; a second, independent handler records what LangChain reported.
import { World, MIX, clip } from "../harness.mjs";
import { A, ser, sendsBySpan, checkNoDuplicates } from "../lib/tracing.mjs";

const ERR = {
  error: (m) => new Error(m),
  azure: (m) => Object.assign(new Error(m), { error: { code: "content_filter", inner: [m] } }),
  string: (m) => `text ${m}`,
  null: () => null,
  undefined: () => undefined,
};

let uid = 0;
const dur = (rng) => rng.weighted([[3, 0], [4, rng.int(0, 30)], [1, rng.int(40, 400)]]);

function genModel(rng, n) {
  n.usage = rng.weighted([[3, "meta"], [2, "llmOutput"], [2, "none"], [1, "details"], [0.5, "over"], [0.7, "zero"]]);
  n.toolCalls = rng.bool(0.2);
  n.noParams = rng.bool(0.08);
  n.bindTools = rng.bool(0.2);
  n.choice = rng.bool(0.15);
  n.ls = rng.bool(0.4);
  n.extraParams = rng.bool(0.2);
  n.msgs = rng.bool(0.3);
  n.kwTools = rng.weighted([[8, 0], [1, "both"], [1, "only"], [1, "fn"]]);
  n.streamModel = rng.bool(0.5);
  n.chunks = rng.int(1, 4);
  return n;
}

function genNode(rng, depth) {
  const leaf = [[3, "lambda"], [4, "chat"], [1.5, "llm"], [2, "tool"], [1.5, "retriever"], [4, "promptchain"], [1.5, "agent"], [0.5, "generate"], [1, "io"], [1.5, "fan"]];
  const inner = depth > 0 ? [[4, "seq"], [3, "par"], [2, "nest"]] : [];
  const kind = rng.weighted([...leaf, ...inner]);
  const n = { kind, id: uid++, d: dur(rng) };
  if (rng.bool(0.07)) n.fail = rng.weighted([[4, "error"], [1, "azure"], [1, "string"], [0.5, "null"], [0.5, "undefined"]]);
  n.tags = rng.bool(0.15) ? [rng.pick(["langsmith:hidden", "t-a", "t-b"])] : undefined;
  if (["chat", "promptchain", "generate"].includes(kind)) genModel(rng, n);
  if (kind === "fan") {
    delete n.fail; // sibling model runs under one parent
    n.models = Array.from({ length: rng.int(2, 3) }, () => genModel(rng, { kind: "chat", id: uid++, d: dur(rng) }));
    if (rng.bool(0.1)) n.fail = n.models.at(-1).fail = "error";
  }
  if (kind === "promptchain") {
    n.prompt = rng.bool(0.6) ? { fallback: rng.bool(0.2) } : null;
    n.twice = rng.bool(0.3); // a second model call in the same chain
  }
  if (kind === "io") n.shape = rng.int(0, 9);
  if (kind === "tool") n.call = rng.weighted([[3, null], [2, "call"], [1, "object"]]); // plain input, a model's tool call, an object as result
  if (kind === "generate") n.empty = rng.bool(0.5);
  if (kind === "agent") {
    n.steps = Array.from({ length: rng.int(0, 3) }, () => dur(rng));
    n.finish = rng.bool(0.8);
  }
  if (["seq", "par", "nest"].includes(kind)) {
    n.kids = Array.from({ length: rng.int(kind === "nest" ? 1 : 2, 3) }, () => genNode(rng, depth - 1));
    if (kind === "nest") n.how = rng.pick(["explicit", "implicit", "parallel"]);
  }
  return n;
}

const forks = (n) => n.kind === "par" || n.kind === "fan" || n.how === "parallel" || (n.kids ?? []).some(forks); // which failure of several wins is a matter of timing
const countFails = (n) => (n.fail ? 1 : 0) + (n.kids ?? []).reduce((a, k) => a + countFails(k), 0);

export default {
  id: "P17",
  bundles: ["langchain"],
  shrink: ["ops"],
  runs: { quick: 4000, thorough: 80000 },
  components: {
    real: ["@langfuse/langchain CallbackHandler", "@langchain/core runnables, callback manager and background callback queue, models, tools, retrievers (with scripted model bodies)", "@langfuse/tracing, @langfuse/core propagation, @langfuse/otel span processor", "OpenTelemetry SDK, context manager and exporter"],
    stub: ["model providers, tools and retriever back ends (seeded delays, chunks and errors)", "network and Langfuse server (reference model)", "clock, timers, randomness"],
  },
  generate(rng) {
    uid = 0;
    const n = rng.weighted([[2, 1], [4, rng.int(2, 4)], [1, rng.int(4, 7)]]);
    const ops = Array.from({ length: n }, (_, i) => ({
      i,
      t: rng.weighted([[2, 0], [3, rng.int(0, 200)]]),
      node: genNode(rng, rng.int(0, 2)),
      how: rng.weighted([[6, "invoke"], [2, "stream"], [1, "batch"]]),
      stopAfter: rng.bool(0.2) ? rng.int(1, 2) : null,
      handler: rng.int(0, 2),
      scope: rng.bool(0.6), // inside an active observation
      attrs: rng.bool(0.4), // inside a propagateAttributes scope of the application
      tags: rng.bool(0.3) ? ["run-tag", `rt-${i}`] : undefined,
      user: rng.bool(0.3),
      session: rng.bool(0.2),
      meta: rng.bool(0.3),
      runName: rng.bool(0.3),
      twin: rng.bool(0.4),
      wide: rng.bool(0.03), // a batch of many inputs
      inner: rng.bool(0.12), // the handler is attached to an inner runnable only
      bare: rng.bool(0.5), // a model, tool or retriever called directly
    })).sort((a, b) => a.t - b.t);
    const handlers = [0, 1, 2].map((i) => ({ user: rng.bool(0.4), session: rng.bool(0.3), tags: rng.bool(0.3), meta: rng.bool(0.3), version: rng.bool(0.3), none: rng.bool(0.3) }));
    return { cfg: { mode: "batched", background: rng.bool(0.5), handlers }, ops };
  },
  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    const w = new World(sim, bundle("langchain"), { mix: MIX.calm, env: cfg.background ? {} : { LANGCHAIN_CALLBACKS_BACKGROUND: "false" } });
    const p = w.load();
    const processor = new p.otel.LangfuseSpanProcessor({ exportMode: cfg.mode, flushInterval: 1 });
    w.startTracing(p, { processor });
    const T = p.tracing;
    const { lc } = p;
    const { BaseMessage } = lc.messages;

    // ---- scripted LangChain components ----
    const failNow = (n) => {
      throw ERR[n.fail](`boom-${n.id}`);
    };
    class Chat extends lc.chat_models.BaseChatModel {
      constructor(n) {
        super({ maxRetries: 0, maxConcurrency: 50 });
        this.n = n;
        if (n.streamModel) this._streamResponseChunks = this.streamImpl;
      }
      static lc_name() {
        return "Chat";
      }
      _llmType() {
        return "sim";
      }
      invocationParams() {
        if (this.n.noParams) return undefined;
        return { model: `m-${this.n.id}`, temperature: 0, ...(this.n.extraParams ? { max_tokens: 0, top_p: 1, frequency_penalty: 0.5, presence_penalty: null, request_timeout: 9, other: 1 } : {}), ...(this.n.bindTools ? { tools: [{ name: `t-${this.n.id}` }], tool_choice: "auto" } : this.n.choice ? { tool_choice: `tc-${this.n.id}` } : {}) };
      }
      getLsParams(o) {
        return { ...super.getLsParams?.(o), ...(this.n.ls ? { ls_model_name: `ls-${this.n.id}` } : {}) };
      }
      message(text) {
        const { n } = this;
        return {
          content: text,
          response_metadata: { model_name: `served-${n.id}` },
          ...(n.toolCalls ? { tool_calls: [{ id: `c${n.id}`, name: `f${n.id}`, args: { a: n.id } }] } : {}),
          ...(n.kwTools ? { additional_kwargs: n.kwTools === "fn" ? { function_call: { name: `fc${n.id}`, arguments: "{}" } } : { tool_calls: [{ id: `k${n.id}`, type: "function", function: { name: `kf${n.id}`, arguments: "{}" } }] } } : {}),
          ...(n.kwTools === "both" ? { tool_calls: [{ id: `c${n.id}`, name: `f${n.id}`, args: { a: n.id } }] } : {}),
          ...(n.usage === "zero" ? { usage_metadata: { input_tokens: 0, output_tokens: 0, total_tokens: 0 } } : n.usage === "meta" || n.usage === "details" || n.usage === "over" ? { usage_metadata: { input_tokens: 30 + n.id, output_tokens: 12, total_tokens: 42 + n.id, ...(n.usage === "details" ? { input_token_details: { cache_read: 7 }, output_token_details: { reasoning: 3 } } : n.usage === "over" ? { input_token_details: { cache_read: 25, audio: 20 }, output_token_details: { reasoning: 13 } } : {}) } } : {}),
        };
      }
      async _generate(messages) {
        const { n } = this;
        await sim.sleep(n.d);
        if (n.fail) failNow(n);
        if (n.kind === "generate" && n.empty) return { generations: [], llmOutput: {} };
        const text = `a${n.id}(${messages.at(-1)?.content})`;
        return { generations: [{ text, message: new lc.messages.AIMessage(this.message(text)) }], llmOutput: n.usage === "llmOutput" ? { tokenUsage: { promptTokens: 5 + n.id, completionTokens: 6, totalTokens: 11 + n.id } } : undefined };
      }
      async *streamImpl(messages, _o, rm) {
        const { n } = this;
        for (let k = 0; k < n.chunks; k++) {
          await sim.sleep(k === 0 ? n.d : n.d >> 1);
          if (n.fail && k === n.chunks - 1) failNow(n);
          const text = `s${n.id}.${k}|`;
          const last = k === n.chunks - 1;
          const chunk = new lc.outputs.ChatGenerationChunk({ text, message: new lc.messages.AIMessageChunk(last ? { ...this.message(text), tool_calls: undefined, additional_kwargs: {} } : { content: text }) });
          yield chunk;
          await rm?.handleLLMNewToken(text, undefined, undefined, undefined, undefined, { chunk });
        }
      }
    }
    class Text extends lc.llms.LLM {
      constructor(n) {
        super({ maxRetries: 0, maxConcurrency: 50 });
        this.n = n;
      }
      static lc_name() {
        return "Text";
      }
      _llmType() {
        return "simtext";
      }
      async _call(prompt) {
        await sim.sleep(this.n.d);
        if (this.n.fail) failNow(this.n);
        return `x${this.n.id}(${prompt})`;
      }
    }
    class Retr extends lc.retrievers.BaseRetriever {
      constructor(n) {
        super({});
        this.n = n;
        this.lc_namespace = ["sim"];
      }
      static lc_name() {
        return "Retr";
      }
      async _getRelevantDocuments(q) {
        await sim.sleep(this.n.d);
        if (this.n.fail) failNow(this.n);
        return [new lc.documents.Document({ pageContent: `doc ${this.n.id} ${q}`, metadata: { k: this.n.id } })];
      }
    }
    const makeTool = (n, d = n.d, name = `tool${n.id}`) =>
      new lc.tools.DynamicTool({
        name,
        description: "d",
        func: async (x) => {
          await sim.sleep(d);
          if (n.fail && n.kind === "tool") failNow(n);
          if (n.call === "object") return { content: `r${n.id}(${x})`, output: "other", score: n.id };
          return `r${n.id}(${x})`;
        },
      });
    const R = lc.runnables;
    const lambda = (name, fn) => R.RunnableLambda.from(fn).withConfig({ runName: name });
    const promptObj = (n) => ({ name: `prompt-${n.id}`, version: n.id + 1, isFallback: n.prompt.fallback });
    const textOf = (m) => (typeof m === "string" ? m : typeof m?.content === "string" ? m.content : JSON.stringify(m));
    class Agent extends R.Runnable {
      constructor(n) {
        super();
        this.n = n;
        this.lc_namespace = ["sim", "agents"];
      }
      static lc_name() {
        return "Agent";
      }
      // as langchain's Chain.invoke and AgentExecutor._call do
      async invoke(input, options) {
        const { n } = this;
        const config = R.ensureConfig(options);
        const cm = await R.getCallbackManagerForConfig(config);
        const rm = await cm?.handleChainStart(this.toJSON(), input, config.runId, undefined, undefined, undefined, `agent-${n.id}`);
        try {
          for (let k = 0; k < n.steps.length; k++) {
            await sim.sleep(1);
            await rm?.handleAgentAction({ tool: `at${n.id}`, toolInput: `${k}`, log: "thinking" });
            await makeTool(n, n.steps[k], `at${n.id}`).invoke(`${k}`, { callbacks: rm?.getChild() });
          }
          await sim.sleep(n.d);
          if (n.fail) failNow(n);
          if (n.finish) await rm?.handleAgentEnd({ returnValues: { output: "f" }, log: "done" });
        } catch (e) {
          await rm?.handleChainError(e);
          throw e;
        }
        const out = { output: `agent ${n.id} done` };
        await rm?.handleChainEnd(out);
        return { q: out.output };
      }
    }
    const history = (n) => {
      const M = lc.messages;
      return [
        new M.HumanMessage({ content: [{ type: "text", text: `part ${n.id}` }] }),
        new M.AIMessage({ content: "", tool_calls: [{ id: "h1", name: `hf${n.id}`, args: { n: n.id } }] }),
        new M.ToolMessage({ content: n.id % 2 ? `tool says ${n.id}` : [{ type: "text", text: `tool says ${n.id}` }, { type: "image_url", image_url: { url: "https://x.test/i.png" } }], tool_call_id: "h1", name: `hf${n.id}`, additional_kwargs: { x: n.id } }),
        new M.FunctionMessage({ content: `fn says ${n.id}`, name: `ff${n.id}` }),
        new M.ChatMessage({ content: `chat ${n.id}`, role: "critic" }),
        new M.AIMessage({ content: "kw", additional_kwargs: { function_call: { name: `g${n.id}`, arguments: "{}" } } }),
      ].filter((_, k) => (n.id >> k) % 2 === 0 || k < 2);
    };
    const IO = (n, q) => {
      const M = lc.messages;
      const ms = [new M.HumanMessage(q), ...history(n)];
      return [{ input: ms }, { messages: ms, extra: n.id }, { input: [...ms, "text"], q }, { messages: ["text", ...ms] }, { content: q }, { content: q, more: n.id }, { output: q, more: n.id }, { output: { q } }, { messages: [], q }, { output: "" }][n.shape];
    };
    // every node maps {q} to {q}
    const build = (n) => {
      let r;
      const cfgTags = n.tags ? { tags: n.tags } : {};
      if (n.kind === "lambda")
        r = lambda(`L${n.id}`, async ({ q }) => {
          await sim.sleep(n.d);
          if (n.fail) failNow(n);
          return { q: `l${n.id}(${q})` };
        });
      else if (n.kind === "chat") r = R.RunnableSequence.from([lambda(`in${n.id}`, ({ q }) => [new lc.messages.SystemMessage("sys"), ...(n.msgs ? history(n) : []), new lc.messages.HumanMessage(q)]), new Chat(n), lambda(`out${n.id}`, (m) => ({ q: textOf(m) }))]);
      else if (n.kind === "io") r = R.RunnableSequence.from([lambda(`I${n.id}`, ({ q }) => IO(n, q)), lambda(`P${n.id}`, (x) => x), lambda(`O${n.id}`, (x) => ({ q: Object.keys(x).join() }))]);
      else if (n.kind === "fan")
        r = R.RunnableSequence.from([
          lambda(`in${n.id}`, ({ q }) => [new lc.messages.HumanMessage(q)]),
          R.RunnableMap.from(Object.fromEntries(n.models.map((m, k) => [`m${k}`, new Chat(m)]))),
          lambda(`out${n.id}`, (o) => ({ q: Object.keys(o).sort().map((k) => textOf(o[k])).join("/") })),
        ]);
      else if (n.kind === "generate")
        r = lambda(`G${n.id}`, async ({ q }, config) => {
          const res = await new Chat(n).generate([[new lc.messages.HumanMessage(q)]], { callbacks: config?.callbacks });
          return { q: res.generations[0]?.[0]?.text ?? "nothing" };
        });
      else if (n.kind === "llm") r = lambda(`T${n.id}`, async ({ q }, config) => ({ q: await new Text(n).invoke(q, config) }));
      else if (n.kind === "tool") r = lambda(`W${n.id}`, async ({ q }, config) => {
          const r = await makeTool(n).invoke(n.call === "call" ? { type: "tool_call", id: `tc${n.id}`, name: `tool${n.id}`, args: { input: q } } : q, config);
          return { q: typeof r === "string" ? r : JSON.stringify(r.content) };
        });
      else if (n.kind === "retriever") r = lambda(`D${n.id}`, async ({ q }, config) => ({ q: (await new Retr(n).invoke(q, config))[0].pageContent }));
      else if (n.kind === "promptchain") {
        let pt = lc.prompts.ChatPromptTemplate.fromMessages([["system", "be brief"], ["human", "{q}"]]);
        if (n.prompt) pt = pt.withConfig({ metadata: { langfusePrompt: promptObj(n), pm: `pm-${n.id}` } });
        r = R.RunnableSequence.from([pt, new Chat(n), ...(n.twice ? [lambda(`mid${n.id}`, (m) => [new lc.messages.HumanMessage(textOf(m))]), new Chat({ ...n, fail: undefined })] : []), new lc.output_parsers.StringOutputParser(), lambda(`o${n.id}`, (s) => ({ q: s }))]);
      } else if (n.kind === "agent") r = new Agent(n);
      else {
        const kids = n.kids.map(build);
        if (n.kind === "seq") r = R.RunnableSequence.from(kids);
        else if (n.kind === "par") r = R.RunnableSequence.from([R.RunnableMap.from(Object.fromEntries(kids.map((k, j) => [`k${j}`, k]))), lambda(`J${n.id}`, (m) => ({ q: Object.keys(m).sort().map((k) => m[k].q).join("+") }))]);
        else
          r = lambda(`N${n.id}`, async (x, config) => {
            const cfgArg = n.how === "implicit" ? undefined : config;
            if (n.how === "parallel") return { q: (await Promise.all(kids.map((k) => k.invoke(x, cfgArg)))).map((o) => o.q).join("&") };
            let cur = x;
            for (const k of kids) {
              await sim.sleep(1);
              cur = await k.invoke(cur, cfgArg);
            }
            return cur;
          });
      }
      return n.tags ? r.withConfig(cfgTags) : r;
    };

    // ---- the independent recorder: what LangChain reported, when ----
    const runs = new Map(); // runId -> record
    let ends = 0;
    const makeRecorder = (op) => {
      const start = (kind, name, type) => ({ kind, name, type, op, t: sim.now, tokens: [] });
      class Rec extends lc.callbacks.BaseCallbackHandler {
        name = "recorder";
        awaitHandlers = true;
        put(runId, parentRunId, tags, metadata, rec) {
          if (runs.has(runId)) return sim.fail("harness", `LangChain reported run ${runId} twice`);
          runs.set(runId, { ...rec, runId, parentRunId, tags: tags ? [...tags] : undefined, metadata: metadata ? { ...metadata } : undefined, op, order: runs.size });
        }
        handleChainStart(chain, inputs, runId, parentRunId, tags, metadata, _rt, name) {
          this.put(runId, parentRunId, tags, metadata, { ...start("chain", name ?? chain.id.at(-1), "span"), input: chainInput(inputs) });
        }
        handleChatModelStart(llm, messages, runId, parentRunId, extra, tags, metadata, name) {
          this.put(runId, parentRunId, tags, metadata, { ...start("llm", name ?? llm.id.at(-1), "generation"), ...genInput(messages.flat().map(msg), extra, metadata) });
        }
        handleLLMStart(llm, prompts, runId, parentRunId, extra, tags, metadata, name) {
          this.put(runId, parentRunId, tags, metadata, { ...start("llm", name ?? llm.id.at(-1), "generation"), ...genInput(prompts, extra, metadata) });
        }
        handleLLMNewToken(_t, _i, runId) {
          runs.get(runId)?.tokens.push(sim.wall());
        }
        handleToolStart(tool, input, runId, parentRunId, tags, metadata, name) {
          this.put(runId, parentRunId, tags, metadata, { ...start("tool", name ?? tool.id.at(-1), "tool"), input });
        }
        handleRetrieverStart(r, query, runId, parentRunId, tags, metadata, name) {
          this.put(runId, parentRunId, tags, metadata, { ...start("retriever", name ?? r.id.at(-1), "span"), input: query });
        }
        done(runId, x) {
          const r = runs.get(runId);
          if (!r || r.end !== undefined) return sim.fail("harness", `unexpected end of run ${runId}`);
          Object.assign(r, x, { end: sim.now, endOrder: ++ends, ended: true });
        }
        handleChainEnd(o, runId) {
          this.done(runId, { output: chainOutput(o) });
        }
        handleToolEnd(o, runId) {
          this.done(runId, { output: o });
        }
        handleRetrieverEnd(o, runId) {
          this.done(runId, { output: JSON.parse(JSON.stringify(o)) });
        }
        handleLLMEnd(o, runId) {
          this.done(runId, llmEnd(o));
        }
        err(e, runId, azure) {
          this.done(runId, { error: `${e}${azure && e !== null && typeof e === "object" && "error" in e ? `\n\nError details:\n${JSON.stringify(e.error, null, 2)}` : ""}`, failed: true });
        }
        handleChainError(e, runId) {
          this.err(e, runId, true);
        }
        handleLLMError(e, runId) {
          this.err(e, runId, true);
        }
        handleToolError(e, runId) {
          this.err(e, runId);
        }
        handleRetrieverError(e, runId) {
          this.err(e, runId);
        }
      }
      return new Rec();
    };
    const isMsgs = (x) => Array.isArray(x) && x.every((m) => m instanceof BaseMessage);
    const ROLE = { human: "user", ai: "assistant", system: "system" };
    const msg = (m) => {
      const type = m.getType();
      const o = { content: m.content, role: ROLE[type] };
      const kw = m.additional_kwargs;
      if (type === "ai" && (kw.tool_calls || m.tool_calls?.length)) o.tool_calls = kw.tool_calls ?? m.tool_calls;
      if (type === "generic") o.role = "human";
      if (type === "tool" || type === "function") Object.assign(o, { role: m.name, additional_kwargs: kw });
      if (kw.function_call && !o.tool_calls) o.additional_kwargs = kw;
      return JSON.parse(JSON.stringify(o));
    };
    const snap = (v) => (v === undefined ? undefined : JSON.parse(JSON.stringify(v)));
    const chainInput = (i) => {
      if (i && typeof i === "object") {
        if (isMsgs(i.input)) return i.input.map(msg);
        if (isMsgs(i.messages)) return i.messages.map(msg);
        if (typeof i.content === "string" && Object.keys(i).length === 1) return i.content;
      }
      return snap(i);
    };
    const chainOutput = (o) => {
      if (o && typeof o === "object") {
        if (typeof o.output === "string") return o.output;
        if (isMsgs(o.messages)) return { messages: o.messages.map(msg) };
      }
      return snap(o);
    };
    const genInput = (messages, extra, metadata) => {
      const ip = extra?.invocation_params;
      return {
        input: ip?.tools || ip?.tool_choice ? { messages, ...(ip.tools ? { tools: ip.tools } : {}), ...(ip.tool_choice ? { tool_choice: ip.tool_choice } : {}) } : messages,
        model: ip?.model ?? metadata?.ls_model_name,
        params: Object.fromEntries(["temperature", "max_tokens", "top_p", "frequency_penalty", "presence_penalty", "request_timeout"].filter((k) => (ip?.[k] ?? null) !== null).map((k) => [k, ip[k]])),
      };
    };
    const llmEnd = (o) => {
      const last = o.generations.at(-1)?.at(-1);
      const m = last?.message;
      const u = m?.usage_metadata;
      const tu = o.llmOutput?.tokenUsage;
      let usage = {};
      if (u) {
        const ind = u.input_token_details ?? {};
        const outd = u.output_token_details ?? {};
        const sum = (x) => Object.values(x).reduce((a, b) => a + b, 0);
        usage = { input: Math.max(0, u.input_tokens - sum(ind)), output: Math.max(0, u.output_tokens - sum(outd)), total: u.total_tokens };
        for (const [k, v] of Object.entries(ind)) usage[`input_${k}`] = v;
        for (const [k, v] of Object.entries(outd)) usage[`output_${k}`] = v;
      } else if (tu) usage = { input: tu.promptTokens, output: tu.completionTokens, total: tu.totalTokens };
      return { output: m ? msg(m) : last?.text, usage, servedModel: m?.response_metadata?.model_name };
    };

    // ---- the application ----
    const handlers = cfg.handlers.map((k, i) => {
      const o = {};
      if (k.user) o.userId = `hu-${i}`;
      if (k.session) o.sessionId = `hs-${i}`;
      if (k.tags) o.tags = [`ht-${i}`];
      if (k.meta) o.traceMetadata = { hm: `hm-${i}`, deep: { i } };
      if (k.version) o.version = `hv-${i}`;
      return { conf: k.none ? {} : o, h: k.none ? new p.langchain.CallbackHandler() : new p.langchain.CallbackHandler(o) };
    });
    const doOp = async (op, rec) => {
      const n = op.node;
      const bare = op.bare && { chat: () => new Chat(n), llm: () => new Text(n), tool: () => makeTool(n), retriever: () => new Retr(n) }[n.kind]?.();
      const r = bare || build(n);
      const inp = (q) => (bare ? (n.kind === "tool" && n.call === "call" ? { type: "tool_call", id: `tc${n.id}`, name: `tool${n.id}`, args: { input: q } } : q) : { q });
      const h = handlers[op.handler];
      const config = {
        callbacks: [makeRecorder(rec), h.h],
        ...(op.tags ? { tags: op.tags } : {}),
        metadata: { ...(op.user ? { langfuseUserId: `mu-${op.i}` } : {}), ...(op.session ? { langfuseSessionId: `ms-${op.i}` } : {}), ...(op.meta ? { custom: { i: op.i } } : {}) },
        ...(op.runName ? { runName: `run-${op.i}` } : {}),
      };
      rec.handler = h;
      const given = JSON.stringify([h.conf, config.tags, config.metadata]);
      if (op.inner) {
        // the application's chain has callbacks of its own; Langfuse watches one part of it
        class Own extends lc.callbacks.BaseCallbackHandler {
          name = "own";
          handleChainStart() {}
        }
        const { callbacks, ...rest } = config;
        const part = R.RunnableSequence.from([lambda(`part${op.i}`, (x) => x), r]).withConfig({ callbacks, runName: `inner-${op.i}` });
        const whole = R.RunnableSequence.from([lambda(`pre${op.i}`, (x) => x), part, lambda(`post${op.i}`, (x) => x)]);
        await exec(op, whole, inp, { ...rest, callbacks: [new Own()] }, rec);
      } else await exec(op, r, inp, config, rec);
      if (JSON.stringify([h.conf, config.tags, config.metadata]) !== given) sim.fail("transparent", `call ${op.i}: the caller's options became ${clip([h.conf, config.tags, config.metadata])}`);
      if (op.twin && !op.inner) {
        // the same program without the Langfuse handler must come out the same
        rec.twin = {};
        await exec(op, bare ? r : build(n), inp, { ...config, callbacks: [] }, rec.twin);
      }
      rec.tDone = sim.now;
    };
    const exec = async (op, r, inp, config, rec) => {
      try {
        if (op.how === "invoke") rec.value = await r.invoke(inp(`q${op.i}`), config);
        else if (op.how === "batch") rec.value = await r.batch(op.wide ? Array.from({ length: 25 }, (_, k) => inp(`q${op.i}.${k}`)) : [inp(`q${op.i}a`), inp(`q${op.i}b`)], config);
        else {
          rec.value = [];
          for await (const c of await r.stream(inp(`q${op.i}`), config)) {
            rec.value.push(c);
            if (op.stopAfter && rec.value.length >= op.stopAfter) {
              rec.stopped = true;
              break;
            }
          }
        }
        rec.ok = true;
      } catch (e) {
        rec.error = e;
        rec.ok = false;
      }
    };
    const recs = [];
    for (const t of new Set(plan.ops.map((o) => o.t))) w.at(t, "call", () => plan.ops.filter((o) => o.t === t).forEach(begin)); // same time: same tick
    function begin(op) {
        const rec = { op, scope: null, attrs: op.attrs ? { user: `au-${op.i}`, tags: [`at-${op.i}`] } : null };
        recs.push(rec);
        const inner = async () => {
          if (!op.scope) return doOp(op, rec);
          await T.startActiveObservation(`scope-${op.i}`, async (s) => {
            rec.scope = s.otelSpan.spanContext();
            await doOp(op, rec);
          });
        };
        const go = () => (rec.attrs ? T.propagateAttributes({ userId: rec.attrs.user, tags: rec.attrs.tags }, inner) : inner());
        go().catch((e) => sim.fail("harness", String(e?.stack ?? e)));
    }
    const end = await sim.run({ horizon: 600_000 });
    if (end === "steps") sim.fail("settles", "no quiescence");
    w.op("flush", () => processor.forceFlush());
    await sim.run({ horizon: 700_000 });

    // ---- transparency ----
    const warned = sim.logs.find((l) => /Error in handler LangfuseCallbackHandler/.test(l));
    if (warned) return sim.fail("quiet", `the handler raised into LangChain: ${clip(warned)}`);
    for (const rec of recs) {
      if (rec.tDone === undefined) return sim.fail("settles", `call ${rec.op.i} never settled`);
      sim.oblige("settles");
      if (rec.twin) {
        const show = (x) => (x.ok ? JSON.stringify(x.value, (k, v) => (k === "id" && typeof v === "string" && v.startsWith("run-") ? undefined : v instanceof BaseMessage ? { content: v.content, tool_calls: v.tool_calls, kw: v.additional_kwargs } : v)) : rec.op.how !== "invoke" || forks(rec.op.node) || countFails(rec.op.node) > 1 ? "error" : `error ${x.error}`);
        if (show(rec) !== show(rec.twin)) return sim.fail("transparent", `call ${rec.op.i} gave ${clip(show(rec))} with the handler and ${clip(show(rec.twin))} without`);
        sim.oblige("transparent");
      }
    }

    // ---- recording: expected forest against exported forest ----
    const sends = sendsBySpan(w.net);
    checkNoDuplicates(sim, sends, (x) => x);
    const spans = [...sends.values()].map((l) => l[0].s);
    const scopeById = new Map();
    for (const rec of recs) if (rec.scope) scopeById.set(rec.scope.spanId, rec);
    const lcSpans = spans.filter((s) => !scopeById.has(s.spanId));
    const ended = [...runs.values()].filter((r) => r.ended);
    for (const r of runs.values()) if (!r.ended) sim.cover("run-never-ended");

    // which prompt belongs to which generation
    const pending = new Map();
    for (const r of [...runs.values()].sort((a, b) => a.order - b.order)) {
      if (!r.parentRunId) continue;
      if (r.kind === "chain" && r.metadata?.langfusePrompt) pending.set(r.parentRunId, r.metadata.langfusePrompt);
      if (r.kind === "llm" && pending.has(r.parentRunId)) {
        r.prompt = pending.get(r.parentRunId);
        pending.delete(r.parentRunId);
      }
    }
    // key order within messages is of no account
    const norm = (str) => {
      if (typeof str !== "string" || !/^[[{]/.test(str)) return str;
      const deep = (v) => (Array.isArray(v) ? v.map(deep) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).sort(([x], [y]) => (x < y ? -1 : 1)).map(([k, x]) => [k, deep(x)])) : v);
      try {
        return JSON.stringify(deep(JSON.parse(str)));
      } catch {
        return str;
      }
    };
    const strip = ({ langfusePrompt, langfuseUserId, langfuseSessionId, ...rest }) => rest;
    const expect = (r) => {
      const { conf } = r.op.handler;
      const a = { name: r.name, type: r.type, input: norm(ser(r.input)), level: undefined };
      if (r.tags?.includes("langsmith:hidden")) a.level = "DEBUG";
      if (r.failed) {
        a.level = "ERROR";
        a.statusMessage = r.error;
        a.output = "-";
      } else a.output = norm(ser(r.output));
      if (r.type === "generation") {
        a.model = r.servedModel ?? r.model;
        if (!r.failed) a.usage = r.usage;
        a.params = r.params;
        a.prompt = r.prompt && !r.prompt.isFallback ? `${r.prompt.name}@${r.prompt.version}` : undefined;
        a.completionStart = !r.failed && r.tokens.length ? new Date(r.tokens[0]).toISOString() : undefined;
      }
      const md = { ...(r.tags?.length ? { tags: r.tags } : {}), ...strip(r.metadata ?? {}) };
      a.metadata = Object.fromEntries(Object.entries(md).filter(([, v]) => v !== undefined && v !== null && v !== "").map(([k, v]) => [k, ser(v)]).sort());
      a.version = conf.version;
      if (!r.parentRunId) {
        const op = r.op.op;
        a.user = op.user ? `mu-${op.i}` : conf.userId ?? r.op.attrs?.user;
        a.session = op.session ? `ms-${op.i}` : conf.sessionId;
        const tags = new Set([...(r.tags ?? []), ...(conf.tags ?? []), ...(r.op.attrs?.tags ?? [])]);
        a.tags = [...tags].sort();
        a.hm = conf.traceMetadata ? [conf.traceMetadata.hm, JSON.stringify(conf.traceMetadata.deep)] : undefined;
      }
      return JSON.parse(JSON.stringify(a));
    };
    const actual = (s, root) => {
      const t = s.attributes[A.level] === "ERROR" ? { ...s.attributes, [A.output]: "-" } : s.attributes; // what a failed run shows as output is open
      const md = {};
      for (const [k, v] of Object.entries(t)) if (k.startsWith(`${A.metadata}.`)) md[k.slice(A.metadata.length + 1)] = v;
      const a = { name: s.name, type: t[A.type], input: norm(t[A.input]), level: t[A.level], statusMessage: t[A.statusMessage], output: norm(t[A.output]), version: t[A.version] };
      if (t[A.type] === "generation") {
        a.model = t[A.model];
        a.usage = t[A.usageDetails] === undefined ? undefined : JSON.parse(t[A.usageDetails]);
        a.params = t[A.modelParameters] === undefined ? undefined : JSON.parse(t[A.modelParameters]);
        a.prompt = t[A.promptName] === undefined ? undefined : `${t[A.promptName]}@${t[A.promptVersion]}`;
        a.completionStart = t[A.completionStartTime] === undefined ? undefined : JSON.parse(t[A.completionStartTime]);
      }
      a.metadata = Object.fromEntries(Object.entries(md).sort());
      if (root) {
        a.user = t[A.userId];
        a.session = t[A.sessionId];
        a.tags = [...(t[A.tags] ?? [])].sort();
        const hm = t[`${A.traceMetadata}.hm`];
        a.hm = hm === undefined ? undefined : [hm, t[`${A.traceMetadata}.deep`]];
      }
      return JSON.parse(JSON.stringify(a));
    };
    const canon = (x) => JSON.stringify(Object.fromEntries(Object.entries(x).sort()));
    const kidsE = new Map();
    const endedIds = new Set(ended.map((r) => r.runId));
    for (const r of ended) {
      const key = r.parentRunId ? (endedIds.has(r.parentRunId) ? r.parentRunId : runs.has(r.parentRunId) ? "missing" : `inner:${r.op.scope?.spanId ?? "none"}`) : `root:${r.op.scope?.spanId ?? "none"}`;
      kidsE.set(key, [...(kidsE.get(key) ?? []), r]);
    }
    const kidsA = new Map();
    const ids = new Set(spans.map((s) => s.spanId));
    for (const s of lcSpans) {
      const top = /^inner-/.test(s.name) ? "inner" : "root";
      const key = !s.parentSpanId ? `${top}:none` : scopeById.has(s.parentSpanId) ? `${top}:${s.parentSpanId}` : ids.has(s.parentSpanId) ? s.parentSpanId : "missing";
      kidsA.set(key, [...(kidsA.get(key) ?? []), s]);
    }
    const describe = (r) => `${r.kind} run ${r.name} of call ${r.op.op.i}${r.failed ? " (failed)" : ""}`;
    const FIELDS = { user: "trace attribution", session: "trace attribution", tags: "trace attribution", hm: "trace attribution" };
    // subtree signature, so that equal siblings pair up by their descendants
    const sigE = (r) => (r.sig ??= canon(expect(r)) + [...(kidsE.get(r.runId) ?? [])].map(sigE).sort().join("\n"));
    const sigA = (s, root) => (s.sig ??= canon(actual(s, root)) + [...(kidsA.get(s.spanId) ?? [])].map((c) => sigA(c, false)).sort().join("\n"));
    const match = (es, as, where, root, traceId) => {
      es = [...es];
      as = [...as];
      if (es.length !== as.length) {
        const own = as.map((s) => s.name).sort().join(", ");
        return sim.fail("one-observation-per-run", `${where}: LangChain reported ${es.length} runs (${es.map((r) => r.name).sort().join(", ")}), ${as.length} observations were exported (${own})`);
      }
      const left = new Set(as);
      for (const r of es) {
        const se = sigE(r);
        const cands = [...left].filter((s) => sigA(s, root) === se);
        const timed = cands.find((s) => Math.abs(Number(s.start) / 1e6 - sim.wallBase - r.t) <= 2 && Math.abs(Number(s.end) / 1e6 - sim.wallBase - r.end) <= 2);
        if (timed) {
          left.delete(timed);
          sim.oblige("recorded");
          if (traceId && timed.traceId !== traceId) return sim.fail("nesting", `${describe(r)} is in another trace than its parent`);
          if (!match(kidsE.get(r.runId) ?? [], kidsA.get(timed.spanId) ?? [], `under ${describe(r)}`, false, timed.traceId)) return false;
          r.span = timed;
          continue;
        }
        if (cands.length) return sim.fail("ended-when-done", `${describe(r)} ran ${r.t}..${r.end} ms, its observation says ${Math.round(Number(cands[0].start) / 1e6 - sim.wallBase)}..${Math.round(Number(cands[0].end) / 1e6 - sim.wallBase)}`);
        const e = expect(r);
        const same = [...left].filter((s) => s.name === r.name).map((s) => actual(s, root));
        const best = same.sort((x, y) => diff(e, x).length - diff(e, y).length)[0];
        if (!best) return sim.fail("one-observation-per-run", `${where}: no observation for ${describe(r)}`);
        const d = diff(e, best);
        if (!d.length) {
          // the fields agree: the descendants differ
          const s = [...left].find((x) => x.name === r.name && diff(e, actual(x, root)).length === 0);
          if (!match(kidsE.get(r.runId) ?? [], kidsA.get(s.spanId) ?? [], `under ${describe(r)}`, false, s.traceId)) return false;
          return sim.fail("nesting", `${describe(r)}: descendants differ`);
        }
        return sim.fail(FIELDS[d[0]] ?? "recorded", `${describe(r)}: ${d[0]} is ${clip(best[d[0]])}, expected ${clip(e[d[0]])}`);
      }
      return true;
    };
    const diff = (e, a) => [...new Set([...Object.keys(e), ...Object.keys(a)])].filter((k) => JSON.stringify(e[k]) !== JSON.stringify(a[k]));
    const keys = new Set([...kidsE.keys(), ...kidsA.keys()].filter((k) => /^(root|inner):/.test(k) || k === "missing"));
    for (const key of keys) {
      const rec = key !== "missing" ? scopeById.get(key.split(":")[1]) : null;
      const where = key === "missing" ? "runs whose parent never ended" : rec ? `under the active observation of call ${rec.op.i}` : "without an active observation";
      if (match(kidsE.get(key) ?? [], kidsA.get(key) ?? [], where, key.startsWith("root:"), rec?.scope.traceId) !== true) return;
    }
    // nobody else's attribution anywhere
    for (const r of ended) {
      const u = r.span?.attributes[A.userId];
      const op = r.op.op;
      const mine = [undefined, `mu-${op.i}`, r.op.handler.conf.userId, r.op.attrs?.user];
      if (r.span && !mine.includes(u)) return sim.fail("attribution", `${describe(r)} carries user ${u}`);
      sim.oblige("attribution");
    }
    for (const h of handlers) {
      const last = ended.filter((r) => r.op.handler === h && r.span).sort((a, b) => a.endOrder - b.endOrder).at(-1);
      if (last && !cfg.background && h.h.last_trace_id !== last.span.traceId) return sim.fail("last-trace", `last_trace_id is ${h.h.last_trace_id}, the last run ended in trace ${last.span.traceId}`);
    }
  },
};
