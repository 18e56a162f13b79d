// Source of properties.jsonl and MANIFEST.json: `node tools/meta.mjs` rewrites both.
import fs from "node:fs";
import path from "node:path";
const ROOT = path.resolve(import.meta.dirname, "..");

const SIM = "deterministic simulation with fault injection: seeded schedules, timers, network faults and workloads over the real SDK code in one process, checked against an executable reference model";

const P = [
  {
    id: "P01",
    title: "Every ended observation is exported exactly once, complete",
    statement:
      "Every observation that the application ends is sent to the server's trace endpoint exactly once per export attempt with its own id, trace, parent, name, type and every attribute the application set before ending it, and nothing else is sent. Within the configured flush interval on a healthy network it has been sent without any flush call. A forced flush or shutdown that resolves is a barrier: every observation ended before the call has had its final delivery attempt by then, including exports already in flight.",
    over: ["schedules", "fault_sequences", "histories", "configurations"],
    text: "All interleavings of starting, updating and ending observations with background batching, immediate exports, flushes and shutdowns; all network failures, delays and event-loop stalls; all batch sizes and intervals within the exporter's limits.",
    why: "The tests end a handful of spans against an in-memory exporter or mocked endpoint on an always-healthy network and await flush when idle; they never overlap a flush with an export in flight, a failing endpoint, a digest still pending or a second flush.",
    files: ["packages/otel/src/span-processor.ts", "packages/tracing/src/spanWrapper.ts", "packages/tracing/src/attributes.ts", "packages/tracing/src/index.ts"],
    mech: "onEnd filters, masks and processes media asynchronously per span, tracks it as pending, then hands it to a batch or simple processor; forceFlush/shutdown await pending spans, the inner processor and the media service.",
  },
  {
    id: "P02",
    title: "The export filter alone decides which spans leave the process",
    statement:
      "A finished span is exported if and only if the configured export filter accepts it as it is when it ends; without a custom filter exactly the SDK's own spans, AI-instrumentation scopes and spans carrying generative-AI attributes are accepted. No data of a rejected or unfinished span, including its media, ever leaves the process in any request. A filter that throws never breaks the application.",
    over: ["inputs", "schedules", "configurations", "fault_sequences"],
    text: "All scope names, attribute sets set at start or later, filter functions (including throwing ones), export modes and flush timings.",
    why: "Tests check the filter predicate on a few fixed spans; they do not scan all outgoing traffic, nor attributes that arrive after start, nor rejected spans with media racing flushes.",
    files: ["packages/otel/src/span-processor.ts", "packages/otel/src/span-filter.ts"],
    mech: "shouldExportSpan is evaluated in the end hook before any processing; the default filter combines three predicates.",
  },
  {
    id: "P03",
    title: "With a mask configured, unmasked payload data never leaves the process",
    statement:
      "When a mask function is configured, every input, output and metadata value of an observation or trace leaves the process only as the mask returned it, whether the mask is synchronous, asynchronous, slow or failing; if it fails the value is replaced by a fixed placeholder. This holds for every outgoing request, including media uploads, and masking never prevents the rest of the observation from being exported.",
    over: ["inputs", "schedules", "fault_sequences", "configurations"],
    text: "All payload shapes (text, nested objects, flattened metadata, embedded media), all mask outcomes and delays, all flush timings and network faults.",
    why: "Tests mask a few attributes of single spans and look only at those attributes; leak freedom is a statement about every byte of every request under concurrent masking, flushing and media extraction.",
    files: ["packages/otel/src/span-processor.ts", "packages/otel/src/MediaService.ts", "packages/core/src/constants.ts"],
    mech: "Mask runs over the maskable attributes of the ended span before media processing and export; the flush waits for pending masks.",
  },
  {
    id: "P04",
    title: "Media in traced payloads is uploaded intact and referenced faithfully",
    statement:
      "Each base64 media item embedded in an observation's payload is replaced by a reference to exactly that content while all surrounding text stays byte-for-byte the same, and the content is announced, uploaded with matching checksum and type, linked to the right observation and field, and its outcome reported truthfully. Transient upload failures are retried a bounded number of times and failures never block or lose the observation. A resolved flush or shutdown covers the uploads of everything ended before it.",
    over: ["inputs", "schedules", "fault_sequences", "histories"],
    text: "All payloads mixing text and media (repeated, prefixes of each other, across fields and observations), all upload-path failures and timings.",
    why: "Tests upload one or two well-formed items with mocked fetches on a healthy network; duplicated or overlapping items, racing uploads of the same content and mid-upload faults are not sampled.",
    files: ["packages/otel/src/MediaService.ts", "packages/core/src/media.ts", "packages/otel/src/span-processor.ts"],
    mech: "Data URIs are found in payload attributes, hashed asynchronously, replaced by media tags, and uploaded in the background with exponential backoff and a status report.",
  },
  {
    id: "P05",
    title: "Propagated attributes reach exactly the observations of their scope",
    statement:
      "Attributes propagated for a scope (user, session, tags, metadata, version, name, environment, prompt) appear on the currently open observation and on every observation started inside that scope, in any asynchronous continuation of it, merged with enclosing scopes, and on no observation outside it. Invalid values are dropped without affecting the valid ones or the configured environment and release. They cross to another service if and only if the scope asked for cross-service propagation.",
    over: ["programs", "schedules", "inputs"],
    text: "All programs that nest and interleave scopes and observations concurrently, synchronous or not, detached or awaited, over one or two services, with valid and invalid values.",
    why: "Tests run single sequential scopes; bleed-through between concurrent request handlers, merge order in deep nests and leakage into outgoing headers depend on interleavings and program shapes they do not generate.",
    files: ["packages/core/src/propagation.ts", "packages/otel/src/span-processor.ts", "packages/tracing/src/index.ts"],
    mech: "Values live in the OpenTelemetry context (and optionally baggage); the span processor copies them to spans on start.",
  },
  {
    id: "P06",
    title: "Exactly the topmost exported observation of each unit of work is app root",
    statement:
      "Within one trace and service, an observation is marked as application root exactly when it is exported and neither its direct parent is a still-open exported observation of the same process nor an upstream service or enclosing observation already claimed the trace. Spans dropped by the export filter never carry or pass on the marking, whatever runs concurrently.",
    over: ["programs", "schedules", "configurations"],
    text: "All trees of SDK and foreign spans with any filter, ended in any order, across services that propagate context.",
    why: "Tests cover a few fixed parent/child shapes in order; late children of ended parents, concurrent siblings and cross-service claims are schedule dependent.",
    files: ["packages/otel/src/span-processor.ts", "packages/core/src/propagation.ts", "packages/tracing/src/index.ts"],
    mech: "The processor remembers which open spans are expected to be exported and consults a trace-id claim in baggage when a span starts.",
  },
  {
    id: "P07",
    title: "Tracing code never changes what it does, and observations nest correctly",
    statement:
      "Wrapping a function for tracing preserves its receiver, arguments, result or error identity and synchronous or asynchronous nature, and runs it exactly once. Its observation is the active one exactly while the function's own code runs, is a child of the observation active at the call, is ended exactly when the function settles (unless asked to stay open), and records that call's own input, output and error. Concurrent and detached work never sees another call's observation.",
    over: ["programs", "schedules", "inputs"],
    text: "All nested, concurrent, detached, failing, synchronous and asynchronous traced functions with any arguments and results.",
    why: "Tests trace one or two functions at a time; correctness under arbitrary interleavings of overlapping calls, odd results and errors is not sampled.",
    files: ["packages/tracing/src/index.ts", "packages/tracing/src/spanWrapper.ts"],
    mech: "observe and active-observation helpers run the function inside a context carrying the span and end the span on settlement.",
  },
  {
    id: "P08",
    title: "Every created score is sent exactly once and flush is a barrier",
    statement:
      "Creating a score never throws or blocks, and every created score is sent to the server exactly once (repeated only when the same request is retried), with a unique event id, a score id of its own unless one was given, and exactly the content and trace or observation attribution given at creation. Without any flush call it is sent within the configured interval and once the configured number is waiting, in batches of bounded size. A flush or shutdown that resolves means every score created before the call has had its final delivery attempt, and it never rejects.",
    over: ["schedules", "fault_sequences", "histories", "configurations"],
    text: "All interleavings of score creation with timer flushes, explicit flushes and shutdown, any queue sizes and intervals, any server or network failure.",
    why: "Tests create a few scores and flush once with a mocked API; scores created while a flush is in flight, overlapping flushes, failing batches and timer races are not explored.",
    files: ["packages/client/src/score/index.ts", "packages/client/src/LangfuseClient.ts"],
    mech: "An in-memory queue drained in batches by a timer, a size threshold, flush and shutdown.",
  },
  {
    id: "P09",
    title: "Prompt reads return a version the server served, fresh within the TTL",
    statement:
      "A prompt read returns the prompt of exactly the requested name and version or label, with content the server actually served for it; within the cache lifetime it returns the cached value without a request, and a zero lifetime always fetches. After an update or delete issued through the same client has resolved, no later read returns a value served before that change.",
    over: ["schedules", "histories", "fault_sequences"],
    text: "All histories of concurrent reads, background refreshes and writes over several prompts, versions and labels, with any response delays, failures and clock movement.",
    why: "Tests drive one prompt with mocked, immediately answered fetches; the race of a slow read or background refresh with an invalidating write needs schedules they do not produce.",
    files: ["packages/client/src/prompt/promptManager.ts", "packages/client/src/prompt/promptCache.ts"],
    mech: "A TTL cache keyed by name, version and label with stale-while-revalidate refreshes and invalidation by name on writes.",
  },
  {
    id: "P10",
    title: "Prompt reads stay available: stale serves, fallbacks, bounded fetching",
    statement:
      "A read with any cached value resolves immediately without waiting for the network, and an expired one triggers exactly one background refresh at a time per prompt key. A read without a cached value resolves with the fetched prompt, or, if and only if its fetch failed, with the caller's fallback when one was given and a rejection otherwise. Each fetch honours its timeout and retry limit, and a failed refresh never discards the value being served or disturbs the application.",
    over: ["schedules", "fault_sequences", "histories"],
    text: "All timings of reads against expiry, outages, slow or failing servers and concurrent refreshes, for any timeout, retry and TTL setting.",
    why: "Tests use fake timers and single mocked failures; overlapping reads at expiry during outages and refresh completion orders are not enumerated.",
    files: ["packages/client/src/prompt/promptManager.ts", "packages/client/src/prompt/promptCache.ts", "packages/core/src/api/core/fetcher/Fetcher.ts"],
    mech: "Stale-while-revalidate with a map of running refreshes, fallback prompt clients and per-request retry and timeout options.",
  },
  {
    id: "P11",
    title: "API calls send what was asked, retry as allowed and always settle",
    statement:
      "Each API call sends exactly the request it was given (method, path, query, body, credentials, headers) on every attempt. It is attempted again only after a response with status 408, 429 or 5xx, one attempt at a time, at most the retry limit (2 by default), each after the wait the response's Retry-After or rate-limit header or exponential backoff asks for; network errors and other statuses are not retried and nothing is sent once the caller aborted. It always settles: with the decoded body of the last attempt if that succeeded, otherwise rejecting with its status and body, or with a timeout error when no response arrives within the timeout (60 s by default), and leaves no timer behind that keeps the process alive.",
    over: ["fault_sequences", "schedules", "inputs", "configurations"],
    text: "All sequences of statuses, retry headers, delays, resets, truncated or non-JSON bodies and event-loop stalls, all concurrent calls, timeouts, retry limits and abort moments.",
    why: "Tests exercise the HTTP layer only through mocks that answer at once with 200 or one fixed error; retry timing, aborts during a wait, hanging requests and leaked timers are invisible to them.",
    files: ["packages/core/src/api/core/fetcher/requestWithRetries.ts", "packages/core/src/api/core/fetcher/Fetcher.ts", "packages/core/src/api/core/fetcher/makeRequest.ts", "packages/core/src/api/core/fetcher/signals.ts", "packages/core/src/api/core/fetcher/getResponseBody.ts", "packages/client/src/LangfuseClient.ts"],
    mech: "A fetch wrapper with a timeout signal, a retry loop that reads rate-limit headers, and response decoding into results or typed errors.",
  },
  {
    id: "P12",
    title: "An experiment runs every item once and returns exactly what happened",
    statement:
      "An experiment run executes the task exactly once for every item that has an input, never keeps more items in progress than the concurrency limit, and hands each evaluator exactly that item's input, output, expected output and metadata. A failing item or evaluator affects nothing but itself. The run resolves, never rejects for such failures or for server outages, only after all items and run evaluators are done, with one result per successful item in data order pairing the item with its own output and evaluations, and its report shows the same pairing.",
    over: ["schedules", "fault_sequences", "inputs", "configurations"],
    text: "All data sets, concurrency limits, task and evaluator durations and failures (synchronous, asynchronous, non-Error), sources (local data, dataset, runner context), several runs at once, and any server failure.",
    why: "Tests run small experiments with instantly resolving mocks one at a time; completion orders, overlapping batches, partial failures and outages during linking and score delivery are not sampled.",
    files: ["packages/client/src/experiment/ExperimentManager.ts", "packages/client/src/experiment/types.ts", "packages/client/src/dataset/index.ts"],
    mech: "Items run in bounded batches inside active observations; evaluators are awaited per item with failures swallowed; run evaluators follow; a formatter renders the results.",
  },
  {
    id: "P13",
    title: "Experiment items, scores and traces are attributed to their own item and run",
    statement:
      "Every experiment item runs in an observation of its own (starting a trace of its own unless the run was started inside an active observation), and that observation and all those under it carry that run's and that item's experiment attributes and no other's; observations outside the experiment carry none. Each dataset item is linked to the run with its own trace exactly once (repeated only on retry), evaluations are recorded once as scores on the item's own observation and run evaluations on the run, and when the run resolves all of its scores have had their final delivery attempt.",
    over: ["schedules", "fault_sequences", "histories", "inputs"],
    text: "All interleavings of concurrent items, several concurrent runs and unrelated traced work, with any link or score delivery failures.",
    why: "Tests look at one run with few items on a healthy mock; cross-attribution between concurrent items or runs and delivery under faults depend on the schedule.",
    files: ["packages/client/src/experiment/ExperimentManager.ts", "packages/core/src/propagation.ts", "packages/client/src/score/index.ts"],
    mech: "Each item runs under its own root span with propagated experiment attributes, is linked through the dataset-run-items API, and its evaluations are queued as scores and flushed before the run returns.",
  },
  {
    id: "P14",
    title: "Dataset reads are complete or fail; items are created after their media",
    statement:
      "A dataset read returns every item of the dataset once, in order, with the content the server has and media references resolved in place, or it rejects; it never returns a partial dataset. Creating a dataset item sends the item once (repeated only on retry) under one id with exactly the given content, each embedded media replaced by its own reference, and only after all of its media has been stored and announced for that item; if any media cannot be stored the call rejects and no item is created. The caller's data is never modified.",
    over: ["inputs", "fault_sequences", "schedules", "configurations"],
    text: "All dataset sizes, page sizes and server page caps, all nested item contents with new, shared or repeated media, all concurrent reads and creations, any network failure at any request.",
    why: "Tests page through two mocked pages and create items with one media object on a healthy network; failures in the middle of paging or uploading and concurrent creations sharing media are not explored.",
    files: ["packages/client/src/dataset/index.ts", "packages/client/src/dataset/jsonPath.ts", "packages/core/src/media.ts", "packages/core/src/mediaUpload.ts"],
    mech: "A paging loop over the item list; a recursive walk that swaps media for reference strings, uploads them all, then creates the item.",
  },
  {
    id: "P15",
    title: "Media references resolve to exactly the stored bytes or stay untouched",
    statement:
      "Resolving media references returns the given data with every well-formed reference within the depth limit replaced by a data URI of exactly the stored content and type; a reference is left as it is only if a request for it failed, and everything else is unchanged. It never rejects for such failures and never modifies its input. A media reference object returns exactly the stored bytes or rejects, and reports its URL as expired exactly when the clock says so.",
    over: ["inputs", "fault_sequences", "schedules"],
    text: "All nested data with references (repeated, adjacent, malformed, beyond the depth limit), all failures of the lookup or download of any of them, concurrent resolutions and clock movement.",
    why: "Tests resolve one or two references against always-successful mocks; partial failures among many references, adjacency and order of completion are not sampled.",
    files: ["packages/client/src/media/index.ts", "packages/core/src/media.ts", "packages/core/src/utils.ts"],
    mech: "A recursive walk that finds reference strings, looks each up through the API, downloads it, and substitutes a base64 data URI.",
  },
  {
    id: "P16",
    title: "The OpenAI wrapper is transparent and records each call as one generation",
    statement:
      "A wrapped OpenAI client behaves as the original: each call runs once with the same receiver and arguments and gives the same result or error object, and a stream yields the same chunks in the same order, with its errors and early close passed through. Each call is recorded as exactly one generation, a child of the observation active at the call and with the configured trace attributes, which is ended when the call or its consumed stream finishes, fails or is abandoned, and carries that call's own input, model, output, usage and error and no other call's.",
    over: ["schedules", "fault_sequences", "inputs", "configurations"],
    text: "All interleavings of concurrent calls and streams, all chunk sequences and response shapes, failures and abandonment at any point, any client configuration.",
    why: "Tests consume one complete mocked response or stream at a time; interleaved streams, failures in the middle, abandoned consumers and unusual chunk shapes are not sampled.",
    files: ["packages/openai/src/observeOpenAI.ts", "packages/openai/src/traceMethod.ts", "packages/openai/src/parseOpenAI.ts"],
    mech: "A proxy wraps SDK methods, starts a generation per call, and re-yields stream chunks while accumulating them into output and usage.",
  },
  {
    id: "P17",
    title: "Every LangChain run is mirrored as one complete, correctly placed observation",
    statement:
      "Attaching the LangChain handler never changes the outcome of LangChain code. Every run LangChain reports as started and finished or failed, of chains, agents, models, tools and retrievers, is recorded as exactly one observation of matching kind, ended when the run ends, nested under its parent run's observation or, for a top run, under the observation active where the application made the call, with that run's own input, output, error, model, usage and linked prompt. The top run carries the user, session, tags, metadata and version given to the handler or the call, and no run carries those of another concurrent call.",
    over: ["programs", "schedules", "inputs", "configurations"],
    text: "All compositions of sequences, parallel branches, nested and streaming runs, agents and direct calls, started concurrently on shared or separate handlers, failing or abandoned at any point, with awaited or background callbacks.",
    why: "Tests drive single handler callbacks or one tool; overlapping runs on one handler, LangChain's background callback queue, failures and unusual results are not sampled.",
    files: ["packages/langchain/src/CallbackHandler.ts"],
    mech: "A LangChain callback handler keeps a map from run id to open observation, parents each run by its parent run id and ends it in the matching end or error callback.",
  },
  {
    id: "P18",
    title: "Each browser score is sent once as given and its outcome told truthfully",
    statement:
      "Each score call of the browser SDK sends exactly one request holding exactly the given score with the configured environment, a unique event id, a score id of its own unless one was given, and the configured public key as credentials, which additional headers cannot override. The call resolves with the score id if and only if the server acknowledged that very event without an error; otherwise (item errors, any other status, unexpected, unreadable or cut-off answers, network failure) it rejects with a LangfuseBrowserError, which carries the status of a refused or unreadable answer. The caller's data is never modified.",
    over: ["inputs", "fault_sequences", "schedules", "configurations"],
    text: "All score contents and client options, concurrent calls, all server answers and network failures.",
    why: "Tests send single scores to a mock that answers a few fixed shapes; cut-off bodies, answers about other events and concurrent calls with mixed outcomes are not sampled.",
    files: ["packages/browser/src/index.ts", "packages/browser/src/utils.ts", "packages/browser/src/errors.ts"],
    mech: "score() builds one ingestion event, posts it and validates the multi-status answer against its event id.",
  },
  {
    id: "P19",
    title: "Every Vercel AI SDK operation is mirrored with its own context and prompt link",
    statement:
      "With the AI SDK integration attached, results and errors of AI SDK calls stay the same, and every operation, step, model call, tool execution, embedding and reranking the AI SDK reports as finished, failed or aborted is exported exactly once with what the AI SDK recorded, the operation under the observation active at the call and each part under its operation or step, also for the application's own observations inside tools and model calls. Runtime context keys included for telemetry become observation metadata, and only those; a valid, non-fallback langfusePrompt links exactly the model calls of its own operation. Concurrent calls never mix, whether they share an integration or not.",
    over: ["programs", "schedules", "inputs", "fault_sequences"],
    text: "All mixes of concurrent text, object, streaming, embedding and reranking calls with several steps, parallel tools, failures, retries, aborts and abandoned streams, all runtime contexts and telemetry options.",
    why: "The integration has no offline tests at all; the end-to-end tests need a live model and server, and sample a few successful calls.",
    files: ["packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts", "packages/vercel-ai-sdk/src/utils.ts"],
    mech: "The integration delegates AI SDK telemetry callbacks to @ai-sdk/otel and enriches each span with attributes derived from the runtime context.",
  },
  {
    id: "P20",
    title: "Prompts compile to exactly their own text, whoever shares them",
    statement:
      "Compiling a prompt read from the server, the cache or a fallback gives exactly its text with each variable replaced by that call's value, unescaped, and missing variables by nothing; chat messages keep order and roles, with each placeholder replaced by the messages given for it, dropped when they are empty and kept when none are given, and the LangChain form formats to the same text. No compile, background refresh or edit by a caller of what it got changes what another call gets from the shared prompt, nor the caller's own values. Creating a prompt sends exactly what was given.",
    over: ["inputs", "histories", "schedules", "fault_sequences"],
    text: "All templates of text, variables and nested JSON, all variable and placeholder values, and all interleavings of reads, background refreshes, compiles and caller edits of shared prompts, with server outages and fallbacks.",
    why: "Tests compile a few hand-written templates once; corruption of a shared cached prompt or of unusual template text needs a history of calls and generated content.",
    files: ["packages/client/src/prompt/promptClients.ts", "packages/client/src/prompt/promptManager.ts"],
    mech: "Prompt clients render mustache templates with escaping disabled, splice placeholders into a copy of the messages and convert braces for LangChain.",
  },
  {
    id: "P21",
    title: "Langfuse projects in one process never mix, and one's trouble stays its own",
    statement:
      "When one process works with several Langfuse projects (own clients, span processors, isolated tracer providers or export filters), every request goes to its project's server with that project's credentials and headers, and each observation, its media and each score reaches exactly the project whose provider, filter or client it was made with, under that project's environment, release and mask. Answers (prompts, traces, URLs) come from the project asked, never from another's cache; explicit settings win over the environment, and switching or resetting the isolated provider affects only what starts afterwards and never the application's own tracing. Outage, slow masking, flush or shutdown of one project neither delays, fails nor drops anything of another.",
    over: ["configurations", "histories", "schedules", "fault_sequences"],
    text: "All sets of projects on one or several servers, routed by provider or filter, all interleavings of their observations, scores, reads, provider switches, flushes and shutdowns, with faults on any one project's server.",
    why: "Tests create one client or processor per process; leaks through module-level state or shared waiting need several, with overlapping work and one of them failing.",
    files: ["packages/tracing/src/tracerProvider.ts", "packages/otel/src/span-processor.ts", "packages/client/src/LangfuseClient.ts"],
    mech: "All queues, caches, credentials and pending sets are per instance; the tracer provider used by the tracing package is one replaceable process-wide reference.",
  },
  {
    id: "P22",
    title: "Trace ids made from a seed bring the work of many processes together",
    statement:
      "The same non-empty seed gives the same valid trace id (the first 32 hex digits of its SHA-256) in every process, at every time and under every overlap, different seeds give different ids, and without a seed every id is new. Observations started under such an id in any process or API form, their children, the active ids seen inside them, scores made for them and trace URLs all refer to exactly that trace, also when the upstream decided not to sample it. Spans of several processes under one id are all exported, once each, with the parent they were given.",
    over: ["inputs", "histories", "schedules", "fault_sequences"],
    text: "All seeds, all sets of processes and restarts deriving and using ids concurrently, all completion orders of the digest, with clock jumps and network faults.",
    why: "Tests derive a few ids in one process one after another; mixing of concurrent derivations, process-local state and links across processes need several processes and schedules.",
    files: ["packages/tracing/src/index.ts", "packages/client/src/score/index.ts", "packages/client/src/LangfuseClient.ts"],
    mech: "createTraceId hashes the seed with the platform's asynchronous digest; parentSpanContext places observations under the id.",
  },
  {
    id: "P23",
    title: "Secrets and unmasked data stay where they belong",
    statement:
      "The secret key appears only in the Authorization header of requests to the configured server, and every such request carries it; neither it nor the additional headers show up in other headers, URLs, bodies, requests to media storage, log lines of any level or errors given to the application. With a mask configured, the span processor writes observation payloads to the log only masked. Exactly the messages at or above the configured log level are written to the console, whatever fails.",
    over: ["configurations", "histories", "fault_sequences", "schedules"],
    text: "All ways to configure keys, headers, masks and log levels, all mixes of tracing, media, prompt, score, dataset and experiment calls, with every kind of server and storage failure.",
    why: "Tests assert selected headers and silence the logger; leaks happen on error and debug paths that only particular failures reach.",
    files: ["packages/core/src/logger/index.ts", "packages/otel/src/span-processor.ts", "packages/core/src/api/core/fetcher/Fetcher.ts", "packages/client/src/LangfuseClient.ts"],
    mech: "Credentials are kept in headers built per client; media uploads send only the headers storage needs; the logger compares every message with its level.",
  },
];

const NA = [
];

for (const p of P) {
  if (p.title.length > 80) throw new Error(`${p.id} title too long`);
}
fs.writeFileSync(
  path.join(ROOT, "properties.jsonl"),
  [...P, ...NA].map((p) => JSON.stringify({ id: p.id, title: p.title, statement: p.statement, quantifier: { over: p.over, text: p.text }, why_tests_cant: p.why, anchors: { files: p.files, mechanism: [{ name: p.mech, where: p.files[0] }] } })).join("\n") + "\n",
);
fs.writeFileSync(
  path.join(ROOT, "MANIFEST.json"),
  JSON.stringify(
    {
      version: 1,
      setup_cmd: "node sim/check.mjs --selftest",
      checks: P.map((p) => ({
        property: p.id,
        quick_cmd: `node sim/check.mjs ${p.id} --tier quick`,
        thorough_cmd: `node sim/check.mjs ${p.id} --tier thorough`,
        technique: p.technique ?? SIM,
        level: "exploration",
        level_note: p.note ?? "Seeded sampling of schedules, faults and workloads of bounded size; a clean batch is evidence, not proof. Server, bucket and network are models; all SDK code and its OpenTelemetry dependencies run for real from /repo's working tree.",
      })),
      not_applicable: NA.map((p) => ({ property: p.id, reason: p.reason })),
    },
    null,
    1,
  ) + "\n",
);
