// Bundles /repo/packages/*/src (the current working tree) plus its third-party
// dependencies into one script per property, with esbuild. Nothing in /repo is written.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";

export const REPO = process.env.LF_REPO ?? "/repo";
const requireTools = createRequire("/opt/veriftools/node/node_modules/");

const PKG = {
  "@langfuse/core": "core",
  "@langfuse/tracing": "tracing",
  "@langfuse/otel": "otel",
  "@langfuse/client": "client",
  "@langfuse/openai": "openai",
  "@langfuse/langchain": "langchain",
  "@langfuse/browser": "browser",
  "@langfuse/vercel-ai-sdk": "vercel-ai-sdk",
};

// import specifier -> directory whose node_modules resolves it
const RESOLVE_FROM = [
  "packages/otel",
  "packages/tracing",
  "packages/core",
  "packages/client",
  "packages/langchain",
  "packages/openai",
  "packages/vercel-ai-sdk",
  ".",
];

const OTEL_PARTS = `
    export * as core from "@langfuse/core";
    export * as tracing from "@langfuse/tracing";
    export * as otel from "@langfuse/otel";
    export * as api from "@opentelemetry/api";
    export * as sdk from "@opentelemetry/sdk-trace-base";
    export * as otcore from "@opentelemetry/core";
    export { AsyncLocalStorageContextManager } from "@opentelemetry/context-async-hooks";
`;

export const ENTRIES = {
  otel: OTEL_PARTS,
  client: `
    export * as core from "@langfuse/core";
    export * as client from "@langfuse/client";
  `,
  app: OTEL_PARTS + `export * as client from "@langfuse/client";`,
  openai: OTEL_PARTS + `export * as openai from "@langfuse/openai";`,
  vercel: OTEL_PARTS + `
    export * as vercel from "@langfuse/vercel-ai-sdk";
    export * as ai from "lf-sim-ai";
  `,
  langchain: OTEL_PARTS + `
    export * as langchain from "@langfuse/langchain";
    export * as lc from "lf-sim-langchain";
  `,
  browser: `export * as browser from "@langfuse/browser";`,
};

// the parts of the installed LangChain that the simulated applications use
const LANGCHAIN = [
  ["messages", "messages"], ["runnables", "runnables"], ["chat_models", "language_models/chat_models"], ["llms", "language_models/llms"],
  ["retrievers", "retrievers"], ["documents", "documents"], ["tools", "tools"], ["prompts", "prompts"], ["outputs", "outputs"],
  ["output_parsers", "output_parsers"], ["callbacks", "callbacks/base"],
];

export const SHADOWED = [
  "module", "exports", "require", "globalThis", "global", "self", "window",
  "setTimeout", "clearTimeout", "setInterval", "clearInterval", "setImmediate", "clearImmediate",
  "Date", "Math", "performance", "crypto", "fetch", "AbortSignal", "process", "console",
];

export async function buildBundle(kind, outDir) {
  const esbuild = requireTools("esbuild");
  fs.mkdirSync(outDir, { recursive: true });
  const outfile = path.join(outDir, `${kind}.cjs`);
  const pkgDir = (name) => path.join(REPO, "packages", PKG[name], "src", "index.ts");
  const plugin = {
    name: "langfuse-src",
    setup(build) {
      build.onResolve({ filter: /^@langfuse\// }, (args) => {
        if (PKG[args.path]) return { path: pkgDir(args.path) };
        return null;
      });
      build.onResolve({ filter: /^lf-sim-langchain$/ }, () => ({ path: "lf-sim-langchain", namespace: "lf-sim" }));
      build.onLoad({ filter: /.*/, namespace: "lf-sim" }, () => ({
        contents: LANGCHAIN.map(([as, from]) => `export * as ${as} from "@langchain/core/${from}";`).join("\n"),
        resolveDir: path.join(REPO, "packages", "langchain", "src"),
      }));
      build.onResolve({ filter: /^lf-sim-ai$/ }, () => ({ path: "lf-sim-ai", namespace: "lf-sim-ai" }));
      build.onLoad({ filter: /.*/, namespace: "lf-sim-ai" }, () => ({
        contents: `export { generateText, streamText, generateObject, streamObject, embed, embedMany, rerank, tool, jsonSchema, isStepCount, registerTelemetry, APICallError } from "ai"; export { OpenTelemetry } from "@ai-sdk/otel";`,
        resolveDir: path.join(REPO, "packages", "vercel-ai-sdk", "src"),
      }));
      build.onResolve({ filter: /^(@opentelemetry|@langchain|openai|ai|mustache|zod|uuid)(\/|$)/ }, async (args) => {
        if (args.pluginData?.done) return null;
        const inRepoSrc =
          args.path === "@opentelemetry/api" || // one API instance for everybody, as in a deduplicated install
          args.importer.endsWith("<stdin>") ||
          (args.resolveDir.startsWith(path.join(REPO, "packages") + path.sep) && !args.resolveDir.includes("node_modules"));
        if (!inRepoSrc) return null;
        const own = args.resolveDir.startsWith(path.join(REPO, "packages") + path.sep)
          ? [args.resolveDir]
          : [];
        // one copy of the OpenTelemetry API for everybody, as in an installed application
        const dirs = args.path.startsWith("@opentelemetry/")
          ? RESOLVE_FROM.map((d) => path.join(REPO, d))
          : [...own, ...RESOLVE_FROM.map((d) => path.join(REPO, d))];
        for (const dir of dirs) {
          const r = await build.resolve(args.path, { resolveDir: dir, kind: args.kind, pluginData: { done: true } });
          if (r.errors.length === 0 && r.path) return r;
        }
        if (args.path === "@opentelemetry/context-async-hooks") {
          // only reachable through sdk-trace-node, which depends on it
          const dir = fs.realpathSync(path.join(REPO, "node_modules/@opentelemetry/sdk-trace-node"));
          const r = await build.resolve(args.path, { resolveDir: dir, kind: args.kind, pluginData: { done: true } });
          if (r.errors.length === 0 && r.path) return r;
        }
        return null;
      });
    },
  };
  const res = await esbuild.build({
    stdin: { contents: ENTRIES[kind], resolveDir: REPO, sourcefile: "<stdin>", loader: "ts" },
    bundle: true,
    platform: "node",
    target: "node22",
    format: "cjs",
    outfile,
    write: true,
    logLevel: "silent",
    supported: { "dynamic-import": false },
    plugins: [plugin],
    legalComments: "none",
    metafile: true,
  });
  if (res.errors.length) throw new Error(JSON.stringify(res.errors));
  return { outfile, inputs: Object.keys(res.metafile.inputs).length, metafile: res.metafile };
}

const compiled = new Map();
/** Compile a bundle once per process; each call of the returned function is a fresh, isolated module instance. */
export function compileBundle(file) {
  let f = compiled.get(file);
  if (!f) {
    const code = fs.readFileSync(file, "utf8");
    const script = new vm.Script(`(function (${SHADOWED.join(", ")}) {${code}\n})`, { filename: file });
    f = script.runInThisContext();
    compiled.set(file, f);
  }
  return f;
}
