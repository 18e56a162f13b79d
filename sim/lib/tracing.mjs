// Shared pieces for the tracing scenarios: reference model of observation attributes,
// generators for traced programs, and history helpers over OTLP export requests.
import { decodeOtlp } from "../server.mjs";

export const OTEL = "POST /otel";
export const TYPES = ["span", "generation", "agent", "tool", "chain", "retriever", "evaluator", "guardrail", "embedding"];

/** Wire names of observation fields (what the Langfuse server reads). */
export const A = {
  type: "langfuse.observation.type",
  level: "langfuse.observation.level",
  statusMessage: "langfuse.observation.status_message",
  version: "langfuse.version",
  environment: "langfuse.environment",
  release: "langfuse.release",
  input: "langfuse.observation.input",
  output: "langfuse.observation.output",
  model: "langfuse.observation.model.name",
  usageDetails: "langfuse.observation.usage_details",
  costDetails: "langfuse.observation.cost_details",
  completionStartTime: "langfuse.observation.completion_start_time",
  modelParameters: "langfuse.observation.model.parameters",
  promptName: "langfuse.observation.prompt.name",
  promptVersion: "langfuse.observation.prompt.version",
  metadata: "langfuse.observation.metadata",
  traceInput: "langfuse.trace.input",
  traceOutput: "langfuse.trace.output",
  tracePublic: "langfuse.trace.public",
  appRoot: "langfuse.internal.is_app_root",
  userId: "user.id",
  sessionId: "session.id",
  traceMetadata: "langfuse.trace.metadata",
  tags: "langfuse.trace.tags",
  traceName: "langfuse.trace.name",
};

export function ser(v) {
  if (v === undefined || v === null) return undefined;
  if (typeof v === "string") return v;
  try {
    return JSON.stringify(v);
  } catch {
    return "<failed to serialize>";
  }
}

/** Reference: the attributes one set of observation fields puts on the wire. */
export function attrModel(type, a = {}) {
  const out = {};
  const put = (k, v) => {
    if (v !== undefined && v !== null) out[k] = v;
  };
  if (type) put(A.type, type);
  for (const k of ["level", "statusMessage", "version", "environment", "model"]) put(A[k], a[k]);
  for (const k of ["input", "output", "usageDetails", "costDetails", "modelParameters", "completionStartTime"]) put(A[k], ser(a[k]));
  if (a.prompt && !a.prompt.isFallback) {
    put(A.promptName, a.prompt.name);
    put(A.promptVersion, a.prompt.version);
  }
  const m = a.metadata;
  if (m !== undefined && m !== null) {
    if (typeof m !== "object" || Array.isArray(m)) put(A.metadata, ser(m));
    else for (const [k, v] of Object.entries(m)) put(`${A.metadata}.${k}`, ser(v));
  }
  return out;
}

/** Random observation fields; every string carries `tag`, so bytes on the wire can be traced back to the span. */
export function genFields(rng, tag) {
  const a = {};
  const val = (k) =>
    rng.weighted([
      [4, `${k}-${tag}`],
      [3, { q: `${k}-${tag}`, n: rng.int(-5, 5), deep: { list: [1, "x", null] } }],
      [1, [`${k}-${tag}`, 2]],
      [1, `uni-☃-"quoted"\n-${tag}`],
      [0.5, rng.int(0, 9)],
      [0.4, rng.pick([0, false, true, "", null, {}, []])],
      [0.3, "CIRCULAR"],
      [0.2, { when: "DATE" }],
      [0.15, { list: "GAPS" }],
      [0.03, { long: `${k}-${tag}` }],
    ]);
  if (rng.bool(0.7)) a.input = val("in");
  if (rng.bool(0.5)) a.output = val("out");
  if (rng.bool(0.4)) a.metadata = rng.weighted([[4, { k1: `m-${tag}`, k2: { z: rng.int(0, 9) } }], [1, [`m-${tag}`]], [1, `m-${tag}`]]);
  if (rng.bool(0.2)) a.level = rng.pick(["DEBUG", "WARNING", "ERROR", "DEFAULT"]);
  if (rng.bool(0.15)) a.statusMessage = `status-${tag}`;
  if (rng.bool(0.15)) a.version = `v-${tag}`;
  if (rng.bool(0.2)) a.model = `model-${tag}`;
  if (rng.bool(0.2)) a.usageDetails = { input: rng.int(0, 99), output: rng.int(0, 99) };
  if (rng.bool(0.1)) a.costDetails = { total: 0.25 };
  if (rng.bool(0.1)) a.modelParameters = { temperature: 0.5 };
  if (rng.bool(0.08)) a[rng.pick(["costDetails", "usageDetails", "modelParameters"])] = {};
  if (rng.bool(0.1)) a.metadata = { "two words": `m-${tag}`, "ключ-é": { z: 1 }, "a/b:c": tag };
  if (rng.bool(0.1)) a.prompt = { name: `p-${tag}`, version: rng.int(1, 9), isFallback: rng.bool(0.3) };
  if (rng.bool(0.1)) a.completionStartTime = "DATE";
  if (rng.bool(0.08)) a.environment = `env-${tag}`;
  if (rng.bool(0.1)) a.metadata = { ...(typeof a.metadata === "object" && !Array.isArray(a.metadata) ? a.metadata : {}), zero: 0, no: false, nil: null, "dot.key": [tag], arr: [], obj: {} };
  return a;
}

/** Plans are JSON: values that are not are marked in them and made here. */
export function revive(a) {
  const date = new Date(1_759_999_999_123);
  const out = { ...a };
  for (const k of ["input", "output"]) {
    if (out[k] === "CIRCULAR") {
      const c = { a: 1, tag: "c" };
      c.self = c;
      out[k] = c;
    } else if (out[k]?.when === "DATE") out[k] = { when: date };
    else if (out[k]?.list === "GAPS") out[k] = [1, undefined, { u: undefined, money: { toJSON: () => "12 EUR" } }, null];
    else if (typeof out[k]?.long === "string") out[k] = out[k].long.padEnd(280_000, "long text ");
  }
  if (out.completionStartTime === "DATE") out.completionStartTime = date;
  return out;
}

/** OTLP requests with decoded spans (decoded once per record). */
export function otlpRequests(net) {
  const out = [];
  for (const r of net.log) {
    if (r.route !== OTEL) continue;
    r.spans ??= decodeOtlp(r.body);
    out.push(r);
  }
  return out;
}

/** spanId -> list of {r, s} sends, in order. */
export function sendsBySpan(net) {
  const m = new Map();
  for (const r of otlpRequests(net))
    for (const s of r.spans) {
      const l = m.get(s.spanId) ?? [];
      l.push({ r, s });
      m.set(s.spanId, l);
    }
  return m;
}

export const otlpRetryable = (r) => r.status === "error" || r.status === "aborted" || [429, 502, 503, 504].includes(r.status);

/** Every repeat of a span must be a transport retry of the identical request after a retryable outcome. */
export function checkNoDuplicates(sim, sends, nameOf) {
  for (const [id, list] of sends) {
    const inOne = new Map();
    for (const { r } of list) inOne.set(r.id, (inOne.get(r.id) ?? 0) + 1);
    for (const [rid, n] of inOne) if (n > 1) return sim.fail("no-duplicates", `span ${nameOf(id)} appears ${n} times in export request ${rid}`);
    for (let i = 1; i < list.length; i++) {
      const prev = list[i - 1].r;
      const cur = list[i].r;
      if (!(prev.tEnd !== undefined && prev.tEnd <= cur.t && otlpRetryable(prev) && prev.body === cur.body))
        return sim.fail("no-duplicates", `span ${nameOf(id)} exported again in request ${cur.id} after request ${prev.id} ended with ${prev.status ?? "(in flight)"}`);
      sim.cover("export-retried");
    }
    sim.oblige("exported-once");
  }
}

export function eq(a, b) {
  return JSON.stringify(a) === JSON.stringify(b);
}
