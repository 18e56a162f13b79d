// Shared scenario helpers: a simulated process running the real SDK against the modelled server.
import { loadProcess } from "./env.mjs";
import { Net, MIX, opContext } from "./net.mjs";
import { LangfuseServer } from "./server.mjs";

export { MIX, LangfuseServer, Net };

export class World {
  constructor(sim, bundleFile, { mix, until, maxLatency, env, serverOpts } = {}) {
    this.sim = sim;
    this.bundleFile = bundleFile;
    this.server = new LangfuseServer(sim, serverOpts);
    this.net = new Net(sim, (req) => this.server.handle(req), { mix, until, maxLatency });
    this.net.routeName = LangfuseServer.routeName;
    this.env = { LANGFUSE_PUBLIC_KEY: "pk-sim", LANGFUSE_SECRET_KEY: "sk-sim", LANGFUSE_BASE_URL: "https://lf.sim", ...env };
    this.ops = []; // outstanding user operations
  }

  load() {
    const p = loadProcess(this.sim, this.bundleFile, { env: this.env, net: this.net });
    // an application without its own OTel diag logger; errors of background exports go to the OTel global error handler
    return p;
  }

  /** Start an OTel provider with the LangfuseSpanProcessor (or others) and an AsyncLocalStorage context manager. */
  startTracing(p, { processor, processors, isolated = false } = {}) {
    const cm = new p.AsyncLocalStorageContextManager();
    cm.enable();
    p.api.context.setGlobalContextManager(cm);
    const provider = new p.sdk.BasicTracerProvider({ spanProcessors: processors ?? [processor] });
    if (isolated) p.tracing.setLangfuseTracerProvider(provider);
    else p.api.trace.setGlobalTracerProvider(provider);
    return { provider, cm };
  }

  /** Run a user operation now; its outcome is recorded, never thrown into the simulator. */
  op(name, fn) {
    const o = { name, start: this.sim.now, settled: false, ok: null, value: undefined, error: undefined };
    this.ops.push(o);
    let r;
    try {
      r = opContext.run(o, fn);
    } catch (e) {
      o.settled = true;
      o.ok = false;
      o.sync = true;
      o.error = e;
      o.end = this.sim.now;
      this.sim.note("op-throw", `${name} ${e?.message ?? e}`);
      return o;
    }
    o.promise = Promise.resolve(r).then(
      (v) => {
        o.settled = true;
        o.ok = true;
        o.value = v;
        o.end = this.sim.now;
        this.sim.note("op-ok", name);
        o.onSettle?.(o);
      },
      (e) => {
        o.settled = true;
        o.ok = false;
        o.error = e;
        o.end = this.sim.now;
        this.sim.note("op-err", `${name} ${e?.message ?? e}`);
        o.onSettle?.(o);
      },
    );
    return o;
  }

  at(t, label, fn) {
    const wait = Math.max(0, t - this.sim.now);
    this.sim.schedule(wait, label, fn);
  }

  /** Wall-clock jumps as planned faults. */
  clockJumps(list) {
    for (const j of list ?? [])
      this.at(j.t, "clock-jump", () => {
        this.sim.wallSkew += j.by;
        this.sim.countFault("clock-jump");
      });
  }
}

export function clip(x, n = 300) {
  const s = typeof x === "string" ? x : JSON.stringify(x);
  return s && s.length > n ? s.slice(0, n) + "…" : s;
}
