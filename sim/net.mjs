// Simulated network between the SDK (fetch and http.request) and the modelled Langfuse server.
// Per request, one recorded decision fixes latency and fault.
import { Writable } from "node:stream";
import { EventEmitter } from "node:events";
import { AsyncResource, AsyncLocalStorage } from "node:async_hooks";

/** Default weights for network outcomes; a scenario passes its own mix. */
export const MIX = {
  calm: { ok: 1 },
  rough: {
    ok: 60, reset: 6, "lost-response": 6, "503": 6, "500": 4, "429": 4, "502": 2, "504-processed": 3, "400": 2,
    stall: 3, truncated: 3, nonjson: 1, slow: 6,
  },
};

const STATUS = { 400: "Bad Request", 401: "Unauthorized", 403: "Forbidden", 404: "Not Found", 408: "Request Timeout", 409: "Conflict", 413: "Payload Too Large", 422: "Unprocessable", 429: "Too Many Requests", 500: "Internal Server Error", 502: "Bad Gateway", 503: "Service Unavailable", 504: "Gateway Timeout" };

/** Which user operation caused a request: follows the real async context. */
export const opContext = new AsyncLocalStorage();

export class Net {
  /**
   * @param handler (req) => {status, headers?, body} | Promise — the server model, runs at delivery time
   * @param opts.mix     outcome weights, or (route, {url, headers}) => weights
   * @param opts.until   virtual time after which the network is healthy
   */
  constructor(sim, handler, opts = {}) {
    this.sim = sim;
    this.handler = handler;
    this.mix = opts.mix ?? MIX.calm;
    this.until = opts.until ?? Infinity;
    this.maxLatency = opts.maxLatency ?? 40;
    this.log = []; // one record per request
    this.inflight = 0;
    this.bodySeq = 0;
    this.fetch = (url, init) => this._fetch(url, init);
  }

  route(method, url) {
    const u = new URL(url);
    return `${method} ${this.routeName ? this.routeName(u, method) : u.pathname}`;
  }

  plan(route, req) {
    const sim = this.sim;
    const healthy = sim.now >= this.until;
    const weights = typeof this.mix === "function" ? this.mix(route, req) : this.mix;
    const L = this.maxLatency;
    const out = sim.decide(
      `net:${route}`,
      (r) => {
        const lat = () => r.weighted([[3, r.int(0, 2)], [5, r.int(1, L)], [1, r.int(L, 4 * L)]]);
        let k = r.weighted(Object.entries(weights).map(([v, w]) => [w, v]));
        const o = { k, d1: lat(), d2: lat() };
        if (k === "slow") {
          o.k = "ok";
          o.d1 = r.int(0, 400);
          o.d2 = r.int(200, 3000);
          o.slow = 1;
        }
        if (/^(429|503)$/.test(k) && r.bool(0.4)) o.retryAfter = r.pick([0, 1, 2, 3]);
        if (k === "ok" && r.bool(0.3)) o.db = r.int(0, L); // body arrives after the headers
        return o;
      },
      { k: "ok", d1: 1, d2: 1 },
    );
    if (healthy && out.k !== "ok") return { k: "ok", d1: out.d1, d2: Math.min(out.d2, 100) };
    if (out.k !== "ok") sim.countFault(`net-${out.k}`);
    else if (out.slow) sim.countFault("net-slow");
    else if (out.d1 + out.d2 > 2 * L) sim.countFault("net-delay");
    return out;
  }

  /** Core exchange. cb gets {error} or {status, headers, body, bodyError, bodyDelay}. */
  send({ method, url, headers, body }, cb) {
    const sim = this.sim;
    const route = this.route(method, url);
    const p = this.plan(route, { url, headers });
    const rec = { id: this.log.length + 1, t: sim.now, route, method, url, headers, body, outcome: p.k, processed: false, op: opContext.getStore() };
    this.log.push(rec);
    this.onSend?.(rec);
    this.inflight++;
    sim.note("net-send", `${rec.id} ${route} -> ${p.k}`);
    let finished = false;
    const finish = (res) => {
      if (finished) return;
      finished = true;
      this.inflight--;
      rec.tEnd = sim.now;
      rec.wallEnd = sim.wall();
      rec.resHeaders = res.headers;
      rec.resBody = res.body;
      rec.status = res.error ? "error" : res.status;
      cb(res);
    };
    const fault = (code, delay) =>
      sim.schedule(delay, `net-err ${route}`, () => finish({ error: code }), { proc: true });
    const process = async () => {
      rec.processed = true;
      rec.tProcessed = sim.now;
      const r = await this.handler({ method, url: new URL(url), headers, body, rec, route });
      rec.answer = r.status;
      return r;
    };
    const answerWith = (status, processed) => {
      sim.schedule(p.d1, `srv ${route}`, async () => {
        let h = { "content-type": "application/json" };
        if (processed) await process();
        if (p.retryAfter !== undefined) h["retry-after"] = String(p.retryAfter);
        sim.schedule(p.d2, `res ${route}`, () =>
          finish({ status, headers: h, body: JSON.stringify({ message: STATUS[status] ?? "error", error: "Simulated" }), ...(/-cut$/.test(p.k) ? { bodyError: true, bodyDelay: p.d1 } : {}) }));
      }, { proc: false });
    };
    switch (p.k) {
      case "ok":
      case "truncated":
      case "nonjson":
        sim.schedule(p.d1, `srv ${route}`, async () => {
          const r = await process();
          sim.schedule(p.d2, `res ${route}`, () => {
            if (p.k === "truncated") finish({ ...r, bodyError: true, bodyDelay: p.d1 });
            else if (p.k === "nonjson") finish({ ...r, body: "<html>proxy</html>", headers: { "content-type": "text/html" } });
            else finish({ ...r, bodyDelay: p.db });
          });
        }, { proc: false });
        break;
      case "reset":
        fault("ECONNRESET", p.d1);
        break;
      case "lost-response":
        sim.schedule(p.d1, `srv ${route}`, async () => {
          await process();
          fault("ECONNRESET", p.d2);
        }, { proc: false });
        break;
      case "stall": // request swallowed by the network; undici gives up after its 300 s headers timeout
        fault("UND_ERR_HEADERS_TIMEOUT", 300_000);
        break;
      case "504-processed":
        answerWith(504, true);
        break;
      default:
        answerWith(parseInt(p.k, 10), false); // "503", or "503-cut": the error body breaks off
    }
    return {
      rec,
      abort: () => {
        if (finished) return;
        finished = true;
        this.inflight--;
        rec.tEnd = sim.now;
        rec.status = "aborted";
      },
    };
  }

  _fetch(url, init = {}) {
    const sim = this.sim;
    const this_ = this;
    return new Promise((resolve, reject) => {
      const signal = init.signal ?? null;
      if (signal?.aborted) return reject(signal.reason);
      const method = (init.method ?? "GET").toUpperCase();
      const headers = {};
      const hs = init.headers ?? {};
      for (const [k, v] of hs instanceof Headers ? hs.entries() : Array.isArray(hs) ? hs : Object.entries(hs)) headers[k.toLowerCase()] = k.toLowerCase() in headers ? `${headers[k.toLowerCase()]}, ${v}` : v; // as Headers combines them
      let body = init.body;
      if (body != null && typeof body !== "string") body = ArrayBuffer.isView(body) ? Uint8Array.from(new Uint8Array(body.buffer, body.byteOffset, body.byteLength)) : body instanceof ArrayBuffer ? new Uint8Array(body.slice(0)) : body;
      let ctl = null; // body stream controller
      let settled = false;
      const ex = this.send({ method, url: String(url), headers, body }, (r) => {
        if (settled) return;
        settled = true;
        if (r.error) {
          const e = new TypeError("fetch failed");
          e.cause = Object.assign(new Error(r.error), { code: r.error });
          return reject(e);
        }
        const nullBody = [101, 204, 205, 304].includes(r.status);
        const bytes = r.body == null ? new Uint8Array(0) : typeof r.body === "string" ? new TextEncoder().encode(r.body) : r.body;
        let stream = null;
        if (!nullBody) {
          let sent = false;
          stream = new ReadableStream({
            start(c) {
              ctl = c;
            },
            pull(c) {
              if (sent) return;
              sent = true;
              const push = () => {
                ex.rec.tBodyEnd = sim.now;
                ex.rec.bodySeq = ++this_.bodySeq;
                ex.rec.bodyOk = !r.bodyError;
                try {
                  if (r.bodyError) {
                    if (bytes.length > 1) c.enqueue(bytes.slice(0, bytes.length >> 1));
                    const e = new TypeError("terminated");
                    e.cause = Object.assign(new Error("other side closed"), { code: "UND_ERR_SOCKET" });
                    c.error(e);
                  } else {
                    if (bytes.length) c.enqueue(bytes);
                    c.close();
                  }
                } catch {}
              };
              if (r.bodyDelay) return new Promise((res) => sim.schedule(r.bodyDelay, `body ${ex.rec.route}`, () => { push(); res(); }));
              push();
            },
          }, { highWaterMark: 0 });
        }
        resolve(new Response(stream, { status: r.status, statusText: STATUS[r.status] ?? "OK", headers: r.headers ?? {} }));
      });
      if (signal) {
        const onAbort = () => {
          if (!settled) {
            settled = true;
            ex.abort();
            reject(signal.reason);
          } else if (ctl) {
            try {
              ctl.error(signal.reason);
            } catch {}
          }
        };
        signal.addEventListener("abort", onAbort, { once: true });
        sim.cleanups.push(() => signal.removeEventListener("abort", onAbort)); // Node's weak-listener registry would keep the whole run alive
      }
    });
  }

  /** http/https module as used by the OTLP exporter: Agent + request(). */
  httpModule(timers) {
    const net = this;
    const sim = this.sim;
    class Agent {
      constructor(o) {
        this.options = o;
      }
      destroy() {}
    }
    function request(url, options, cb) {
      const onRes = cb ? AsyncResource.bind(cb) : () => {};
      const chunks = [];
      let ex = null;
      let dead = false;
      let idle = null;
      let idleMs = 0;
      let idleCb = null;
      const touch = () => {
        if (idle) timers.clearTimeout(idle);
        idle = null;
        if (idleMs && !dead) idle = timers.setTimeout(() => { if (!dead) { req.emit("timeout"); } }, idleMs);
      };
      const stop = () => {
        dead = true;
        if (idle) timers.clearTimeout(idle);
      };
      const req = new Writable({
        autoDestroy: false,
        emitClose: false,
        write(chunk, enc, done) {
          chunks.push(Buffer.from(chunk));
          done();
        },
        final(done) {
          done();
          const body = Buffer.concat(chunks).toString("utf8");
          ex = net.send({ method: options.method ?? "GET", url: String(url), headers: options.headers ?? {}, body }, (r) => {
            if (dead) return;
            if (r.error) {
              stop();
              req.emit("error", Object.assign(new Error(r.error), { code: r.error === "UND_ERR_HEADERS_TIMEOUT" ? "ETIMEDOUT" : r.error }));
              return;
            }
            touch();
            const res = new EventEmitter();
            res.statusCode = r.status;
            res.statusMessage = STATUS[r.status] ?? "OK";
            res.headers = Object.fromEntries(Object.entries(r.headers ?? {}).map(([k, v]) => [k.toLowerCase(), v]));
            res.destroy = () => stop();
            res.resume = () => res;
            res.setEncoding = () => res;
            onRes(res);
            const deliver = () => {
              if (dead) return;
              stop();
              const b = Buffer.from(r.body ?? "");
              if (r.bodyError) {
                if (b.length > 1) res.emit("data", b.subarray(0, b.length >> 1));
                res.emit("error", Object.assign(new Error("aborted"), { code: "ECONNRESET" }));
                return;
              }
              if (b.length) res.emit("data", b);
              res.emit("end");
              res.emit("close");
            };
            if (r.bodyDelay) sim.schedule(r.bodyDelay, "res-body", deliver);
            else queueMicrotask(deliver);
          });
        },
      });
      req.setTimeout = (ms, f) => {
        idleMs = ms;
        if (f) idleCb = f;
        if (f) req.on("timeout", f);
        touch();
        return req;
      };
      req.setHeader = () => req;
      req.setNoDelay = () => req;
      req.setSocketKeepAlive = () => req;
      req.destroy = (err) => {
        if (dead) return req;
        stop();
        ex?.abort();
        // a destroyed request without a response emits ECONNRESET ("socket hang up")
        process.nextTick(() => req.emit("error", err ?? Object.assign(new Error("socket hang up"), { code: "ECONNRESET" })));
        return req;
      };
      req.abort = req.destroy;
      return req;
    }
    return { Agent, request, get: request, globalAgent: new Agent({}), __esModule: true, default: { Agent, request } };
  }
}
