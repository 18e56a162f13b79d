import { generatePrompts, runPrompts } from "../lib/prompts.mjs";

export default {
  id: "P09",
  bundles: ["client"],
  runs: { quick: 14000, thorough: 300000 },
  components: {
    real: ["@langfuse/client PromptManager, prompt cache, prompt clients, LangfuseClient", "@langfuse/core API client (fetcher, retries, timeouts)"],
    stub: ["network (seeded faults)", "Langfuse prompt API (versions, movable labels)", "clock, timers, randomness"],
  },
  generate: (rng) => generatePrompts(rng, "P09"),
  run: (ctx) => runPrompts(ctx, "P09"),
};
