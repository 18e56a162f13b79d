// P03: masked data is all that ever leaves the process.
import { clip } from "../harness.mjs";
import { drive, genCfg, genFlushOps, outgoing } from "../lib/spans.mjs";
import { A, TYPES, attrModel, eq, ser } from "../lib/tracing.mjs";

const FAILED = "<fully masked due to failed mask function>";
const SHAPES = ["", null, undefined, 7, 0, false, ["masked"], "masked"];
const redact = (s) => s.replace(/SECRET-[a-z0-9]+/g, "***").replace(/data:image\/x-secret;base64,[A-Za-z0-9+/]+=*/g, "[image removed]");

export default {
  id: "P03",
  bundles: ["otel"],
  shrink: ["ops"],
  runs: { quick: 6000, thorough: 80000 },
  components: {
    real: ["@langfuse/otel LangfuseSpanProcessor (masking, media, export)", "@langfuse/tracing, @langfuse/core", "OpenTelemetry SDK and OTLP exporter"],
    stub: ["network (seeded faults)", "Langfuse server and media bucket (reference model)", "the application's mask function: synchronous or with seeded delays and failures", "clock, timers, randomness"],
  },
  generate(rng) {
    const span = rng.weighted([[2, 300], [3, 6000]]);
    const ops = [];
    const n = rng.int(1, 20);
    const val = (i, f) => {
      const sec = `SECRET-${i}${f}`;
      return rng.weighted([
        [3, `text ${sec} tail`], [3, { user: sec, nested: [{ deep: sec }], ok: "plain" }], [1, [sec, "plain"]], [1, "nothing to hide"], [f[0] === "m" ? 0 : 0.5, ""],
        [1, `POISON ${sec}`], [1, { img: `data:image/x-secret;base64,${Buffer.from(sec.repeat(3)).toString("base64")}`, t: sec }],
        [1, { img: `data:image/png;base64,${Buffer.from(`public-${i}${f}`).toString("base64")}` }],
      ]);
    };
    for (let i = 0; i < n; i++) {
      const op = { t: rng.int(0, span), k: "span", i, name: `s${i}`, type: rng.pick(TYPES), dur: rng.int(0, 120), a: {}, api: rng.pick(["start", "active", "raw"]) };
      if (rng.bool(0.7)) op.a.input = val(i, "in");
      if (rng.bool(0.6)) op.a.output = val(i, "out");
      if (rng.bool(0.6)) op.a.metadata = rng.weighted([[4, { a: val(i, "ma"), b: val(i, "mb"), "x.y": `SECRET-${i}mc` }], [1, [val(i, "md")]], [1, `SECRET-${i}me`]]);
      if (rng.bool(0.3)) op.tio = { input: val(i, "ti"), output: val(i, "to") };
      if (rng.bool(0.25)) op.prop = { pk: `SECRET-${i}prop` };
      if (rng.bool(0.3)) op.late = { output: val(i, "late") };
      // instrumentations may set these attributes themselves, with any attribute type
      if (op.api === "raw" && rng.bool(0.3)) op.direct = { [rng.pick([A.input, A.output, `${A.metadata}.list`, A.traceInput, `${A.traceMetadata}.list`])]: rng.weighted([[3, [`SECRET-${i}arr`, "plain"]], [1, 42], [1, true], [0.5, 0], [0.5, ""]]) };
      ops.push(op);
    }
    genFlushOps(rng, ops, span);
    return { cfg: { ...genCfg(rng, span), mask: rng.weighted([[2, "sync"], [4, "async"], [2, "throw"], [2, "reject"], [1, "const"], [2, "shape"], [1, "shapeAsync"], [1, "thenable"]]), delay: rng.weighted([[3, 0], [3, 5], [3, 60], [3, 900], [1.5, 25000], [0.7, 120000], [0.4, 700000]]) }, ops };
  },

  async run({ sim, plan, bundle }) {
    const { cfg } = plan;
    const apply = (d) => {
      if (Array.isArray(d) && cfg.mask !== "const" && !cfg.mask.startsWith("shape")) return d.map(redact);
      if (typeof d !== "string" && cfg.mask !== "const") return Array.isArray(d) ? ["masked"] : typeof d === "number" ? -1 : d;
      if (cfg.mask === "const") return "X";
      // a mask is free to drop a value or to replace it by one of another type
      if (cfg.mask.startsWith("shape")) return SHAPES[d.length % SHAPES.length];
      if ((cfg.mask === "throw" || cfg.mask === "reject" || cfg.mask === "thenable") && d.includes("POISON")) return FAILED;
      return redact(d);
    };
    const bug = (d) => [new Error("mask bug"), "mask bug", undefined, null, { code: 1 }][d.length % 5]; // not every failure is an Error
    const mask = ({ data }) => {
      const poisoned = typeof data === "string" && data.includes("POISON");
      if (cfg.mask === "throw" && poisoned) throw bug(data);
      if (cfg.mask === "sync" || cfg.mask === "throw" || cfg.mask === "const" || cfg.mask === "shape") return apply(data);
      const p = (async () => {
        const d = sim.decide("mask-delay", (r) => (r.bool(0.5) ? r.int(0, cfg.delay) : 0), 0);
        if (d) await sim.sleep(d);
        if ((cfg.mask === "reject" || cfg.mask === "thenable") && poisoned) throw bug(data);
        return apply(data);
      })();
      return cfg.mask === "thenable" ? { then: (ok, no) => p.then(ok, no) } : p; // a promise of another library or realm
    };
    const scan = (w, since) => {
      for (const { r, text } of outgoing(w)) {
        if (r.scanned) continue;
        r.scanned = true;
        const m = /SECRET-[a-z0-9]+/.exec(text) ?? (r.route !== "POST /otel" && /x-secret/.exec(text));
        sim.oblige("no-leak");
        if (m) return sim.fail("no-leak", `unmasked data "${m[0]}" left the process in request ${r.id} ${r.route}: …${clip(text.slice(Math.max(0, m.index - 90), m.index + 40))}`);
      }
    };
    const ctx = await drive({
      sim, plan, bundleFile: bundle("otel"),
      params: () => ({ mask }),
      async runOp(c, op) {
        const T = c.p.tracing;
        const rec = { name: op.name, want: {}, op };
        const withProp = (f) => (op.prop ? T.propagateAttributes({ metadata: op.prop }, f) : f());
        const finish = async (o, s) => {
          await sim.sleep(op.dur);
          if (op.late && o?.update) {
            o.update(op.late);
            Object.assign(rec.want, attrModel(null, op.late));
          }
          if (op.tio && o?.setTraceIO) {
            o.setTraceIO(op.tio);
            Object.assign(rec.want, { [A.traceInput]: ser(op.tio.input), [A.traceOutput]: ser(op.tio.output) });
          }
        };
        if (op.prop) rec.want[`${A.traceMetadata}.pk`] = op.prop.pk;
        Object.assign(rec.want, attrModel(op.type, op.a));
        if (op.api === "raw") {
          const s = withProp(() => T.getLangfuseTracer().startSpan(op.name, { attributes: Object.assign(attrModel(op.type, op.a), op.direct) }));
          Object.assign(rec.want, op.direct);
          c.register(s, rec);
          await finish(null, s);
          c.end(rec);
        } else if (op.api === "active") {
          let done;
          const pr = withProp(() => T.startActiveObservation(op.name, (o) => {
            c.register(o.otelSpan, rec);
            o.update(op.a);
            return finish(o);
          }, { asType: op.type, endOnExit: false }));
          await pr;
          c.end(rec);
        } else {
          const o = withProp(() => T.startObservation(op.name, op.a, { asType: op.type }));
          c.register(o.otelSpan, rec);
          await finish(o);
          c.end(rec);
        }
      },
      onFlushResolved(c, f, covered) {
        sim.oblige("flush-barrier");
        scan(c.w);
        const bodies = c.w.net.log.filter((r) => r.route === "POST /otel");
        for (const s of covered) if (!bodies.some((r) => r.body.includes(s.id))) return sim.fail("still-exported", `${f.op.k}() resolved at ${sim.now} but ${s.name} (ended ${s.tEnd}) was not exported`);
      },
    });
    scan(ctx.w);
    const tagOf = (v) => v; // media tags are compared structurally below
    for (const rec of ctx.spans.values()) {
      const l = ctx.sends.get(rec.id);
      if (rec.ended == null) continue;
      if (!l) {
        if (!sim.crashed && !rec.afterShutdown) return sim.fail("still-exported", `span ${rec.name} was never exported`);
        continue;
      }
      const at = l[0].s.attributes;
      for (const [k, v] of Object.entries(rec.want)) {
        const maskable = k === A.input || k === A.output || k === A.traceInput || k === A.traceOutput || k.startsWith(A.metadata) || k.startsWith(A.traceMetadata);
        const want = maskable ? apply(v) : v;
        const got = at[k];
        sim.oblige(maskable ? "masked-value" : "unmasked-value");
        if (typeof want === "string" && want.includes("data:image/png;base64,")) {
          const [pre, post] = want.split(/data:image\/png;base64,[A-Za-z0-9+/]+=*/);
          if (!(typeof got === "string" && got.startsWith(pre) && got.endsWith(post) && /@@@langfuseMedia:type=image\/png\|id=[\w-]{22}\|source=base64_data_uri@@@/.test(got)))
            return sim.fail("mask-applied", `span ${rec.name} ${k}: exported ${clip(got)}, expected media reference inside ${clip(want)}`);
          continue;
        }
        if (maskable && cfg.mask.startsWith("shape") && typeof v === "string") sim.cover("mask-other-type");
        if (want === null || want === undefined ? got !== null && got !== undefined : !eq(got, want)) return sim.fail("mask-applied", `span ${rec.name} ${k}: exported ${clip(got)}, mask gives ${clip(want)} for ${clip(v)}`);
      }
    }
  },
};
