import { generateExperiment, runExperiment } from "../lib/experiment.mjs";

export default {
  id: "P12",
  bundles: ["app"],
  shrink: ["ops"],
  runs: { quick: 4000, thorough: 60000 },
  components: {
    real: ["@langfuse/client experiment manager, runner context, dataset manager, score manager, LangfuseClient", "@langfuse/core API client and propagation", "@langfuse/tracing, @langfuse/otel", "OpenTelemetry SDK and exporter"],
    stub: ["network (seeded faults)", "Langfuse server: datasets, run items, scores, traces (reference model)", "the application's tasks and evaluators (seeded delays and failures)", "clock, timers, randomness"],
  },
  generate: (rng) => generateExperiment(rng),
  run: (ctx) => runExperiment(ctx, "P12"),
};
