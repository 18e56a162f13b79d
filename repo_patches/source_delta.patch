From 983ee7091f91ad9d08b1062bc58dc6dbc344de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:45 +0000
Subject: [PATCH 01/28] fix: score flush sends newly queued scores and waits
 for in-flight batches

---
 packages/client/src/score/index.ts | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/packages/client/src/score/index.ts b/packages/client/src/score/index.ts
index 9cbe359..4dcd298 100644
--- a/packages/client/src/score/index.ts
+++ b/packages/client/src/score/index.ts
@@ -102,10 +102,10 @@ export class ScoreManager {
     }
 
     if (this.eventQueue.length >= this.flushAtCount) {
-      this.flushPromise = this.flush();
+      void this.flush();
     } else if (!this.flushTimer) {
       this.flushTimer = safeSetTimeout(() => {
-        this.flushPromise = this.flush();
+        void this.flush();
       }, this.flushIntervalSeconds * 1_000);
     }
   }
@@ -298,8 +298,6 @@ export class ScoreManager {
       await Promise.all(promises);
     } catch (err) {
       this.logger.error("Error flushing Score Manager: ", err);
-    } finally {
-      this.flushPromise = null;
     }
   }
 
@@ -318,7 +316,20 @@ export class ScoreManager {
    * ```
    */
   public async flush() {
-    return this.flushPromise ?? this.handleFlush();
+    // Always send what is queued now, and also wait for batches that earlier
+    // flushes still have in flight.
+    const previousFlush = this.flushPromise;
+    const currentFlush = this.handleFlush()
+      .then(() => previousFlush)
+      .then(() => {
+        if (this.flushPromise === currentFlush) {
+          this.flushPromise = null;
+        }
+      });
+
+    this.flushPromise = currentFlush;
+
+    return currentFlush;
   }
 
   /**
-- 
2.43.0


From c2f664b0a8aba037616a62b7472758b83dd4b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:44 +0000
Subject: [PATCH 02/28] fix: do not cache prompts fetched before a concurrent
 cache invalidation

---
 packages/client/src/prompt/promptCache.ts   | 11 +++++++++++
 packages/client/src/prompt/promptManager.ts |  6 +++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptCache.ts b/packages/client/src/prompt/promptCache.ts
index bfae38d..e9bd528 100644
--- a/packages/client/src/prompt/promptCache.ts
+++ b/packages/client/src/prompt/promptCache.ts
@@ -22,6 +22,7 @@ export class LangfusePromptCache {
   private _cache: Map<string, LangfusePromptCacheItem>;
   private _defaultTtlSeconds: number;
   private _refreshingKeys: Map<string, Promise<void>>;
+  private _invalidationCount = 0;
 
   constructor() {
     this._cache = new Map<string, LangfusePromptCacheItem>();
@@ -29,6 +30,14 @@ export class LangfusePromptCache {
     this._refreshingKeys = new Map<string, Promise<void>>();
   }
 
+  /**
+   * Number of invalidations so far. A fetch that was started before the latest
+   * invalidation may carry outdated data and must not be cached.
+   */
+  public get invalidationCount(): number {
+    return this._invalidationCount;
+  }
+
   public getIncludingExpired(key: string): LangfusePromptCacheItem | null {
     return this._cache.get(key) ?? null;
   }
@@ -86,6 +95,8 @@ export class LangfusePromptCache {
       this._cache.keys(),
     );
 
+    this._invalidationCount++;
+
     for (const key of this._cache.keys()) {
       if (key.startsWith(promptName)) {
         this._cache.delete(key);
diff --git a/packages/client/src/prompt/promptManager.ts b/packages/client/src/prompt/promptManager.ts
index 1d1cb6f..0a9e6d2 100644
--- a/packages/client/src/prompt/promptManager.ts
+++ b/packages/client/src/prompt/promptManager.ts
@@ -420,6 +420,7 @@ export class PromptManager {
     fetchTimeoutMs?: number;
   }): Promise<LangfusePromptClient> {
     const cacheKey = this.cache.createKey(params);
+    const invalidationCountAtStart = this.cache.invalidationCount;
 
     try {
       const {
@@ -450,7 +451,10 @@ export class PromptManager {
         prompt = new TextPromptClient(data);
       }
 
-      this.cache.set(cacheKey, prompt, cacheTtlSeconds);
+      // Skip caching if the cache was invalidated while this fetch was in flight
+      if (this.cache.invalidationCount === invalidationCountAtStart) {
+        this.cache.set(cacheKey, prompt, cacheTtlSeconds);
+      }
 
       return prompt;
     } catch (error) {
-- 
2.43.0


From 1442c4123a4c44e2e97547996b7623992cfdc502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:20 +0000
Subject: [PATCH 03/28] fix: span processor forceFlush waits for exports
 already in flight

---
 packages/otel/src/span-processor.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index 67b6020..e4333c5 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -209,6 +209,7 @@ export class LangfuseSpanProcessor implements SpanProcessor {
   private shouldExportSpan: ShouldExportSpan;
   private mediaUploadEnabled: boolean;
   private apiClient: LangfuseAPIClient;
+  private exporter: SpanExporter;
   private processor: SpanProcessor;
   private mediaService: MediaService;
   private spanExportExpectationById: Map<string, boolean> = new Map();
@@ -289,6 +290,7 @@ export class LangfuseSpanProcessor implements SpanProcessor {
         timeoutMillis: timeoutSeconds * 1_000,
       });
 
+    this.exporter = exporter;
     this.processor =
       params?.exportMode === "immediate"
         ? new SimpleSpanProcessor(exporter)
@@ -428,7 +430,13 @@ export class LangfuseSpanProcessor implements SpanProcessor {
   public async forceFlush(): Promise<void> {
     await this.flush();
 
-    return this.processor.forceFlush();
+    try {
+      await this.processor.forceFlush();
+    } finally {
+      // The batch processor only waits for the batches it starts itself, not for
+      // exports already in flight from its interval or batch-size trigger.
+      await this.exporter.forceFlush?.();
+    }
   }
 
   /**
-- 
2.43.0


From 635b12b8fc623f5047fc513be5199914105462f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 04/28] fix: observe captures falsy arguments as input

---
 packages/tracing/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index ac99d0e..bdacd2b 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1457,7 +1457,7 @@ export function observe<T extends (...args: any[]) => any>(
     // Create the appropriate observation type
     const observation = startObservation(
       name,
-      inputData ? { input: inputData } : {},
+      inputData !== undefined ? { input: inputData } : {},
       {
         asType: asType as "span", // typecast necessary as ts cannot narrow down type
         parentSpanContext,
-- 
2.43.0


From 9d37546454245c827410de83d184920b9b024a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:00 +0000
Subject: [PATCH 05/28] fix: apply the mask function to flattened metadata
 attributes

---
 packages/otel/src/span-processor.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index e4333c5..e86b4df 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -563,6 +563,13 @@ export class LangfuseSpanProcessor implements SpanProcessor {
       LangfuseOtelSpanAttributes.TRACE_OUTPUT,
       LangfuseOtelSpanAttributes.OBSERVATION_METADATA,
       LangfuseOtelSpanAttributes.TRACE_METADATA,
+      // Object metadata is flattened into one attribute per top-level key
+      ...Object.keys(span.attributes).filter(
+        (key) =>
+          key.startsWith(
+            `${LangfuseOtelSpanAttributes.OBSERVATION_METADATA}.`,
+          ) || key.startsWith(`${LangfuseOtelSpanAttributes.TRACE_METADATA}.`),
+      ),
     ];
 
     for (const maskCandidate of maskCandidates) {
-- 
2.43.0


From dc4e23d1a7ea0ae62a9e128f735814be08433157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:00 +0000
Subject: [PATCH 06/28] fix: replace each media data URI as a whole when one is
 a prefix of another

---
 packages/otel/src/MediaService.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 79ae77e..97ed07b 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -53,7 +53,7 @@ export class MediaService {
         }
 
         // Find media base64 data URI
-        let mediaReplacedValue = value;
+        const mediaTagByDataUri = new Map<string, string>();
         const regex = /data:[^;]+;base64,[A-Za-z0-9+/]+=*/g;
         const foundMedia = [...new Set(value.match(regex) ?? [])];
 
@@ -86,14 +86,15 @@ export class MediaService {
                 : "metadata", // todo: make more robust
           });
 
-          // Replace original attribute with media escaped attribute
-          mediaReplacedValue = mediaReplacedValue.replaceAll(
-            mediaDataUri,
-            langfuseMediaTag,
-          );
+          mediaTagByDataUri.set(mediaDataUri, langfuseMediaTag);
         }
 
-        span.attributes[key] = mediaReplacedValue;
+        // Replace original attribute with media escaped attribute. Each match is
+        // replaced as a whole, as one data URI can be the prefix of another.
+        span.attributes[key] = value.replace(
+          regex,
+          (mediaDataUri) => mediaTagByDataUri.get(mediaDataUri) ?? mediaDataUri,
+        );
       }
     }
 
-- 
2.43.0


From 552c426bc9e11ab76307ac2ec3bca2565980ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:20 +0000
Subject: [PATCH 07/28] fix: do not treat text before a media data URI as its
 content type

---
 packages/otel/src/MediaService.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 97ed07b..7bd5cc8 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -54,7 +54,7 @@ export class MediaService {
 
         // Find media base64 data URI
         const mediaTagByDataUri = new Map<string, string>();
-        const regex = /data:[^;]+;base64,[A-Za-z0-9+/]+=*/g;
+        const regex = /data:[^;:,\s"\\]+;base64,[A-Za-z0-9+/]+=*/g;
         const foundMedia = [...new Set(value.match(regex) ?? [])];
 
         if (foundMedia.length === 0) continue;
-- 
2.43.0


From cc3901833d487ebc8d0f71a7cb580f17f2ed07dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:57 +0000
Subject: [PATCH 08/28] fix: observe works for observations of type event

---
 packages/tracing/src/index.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index bdacd2b..ff9a106 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1481,7 +1481,9 @@ export function observe<T extends (...args: any[]) => any>(
         return result.then(
           (value) => {
             if (captureOutput) {
-              observation.update({ output: _captureOutput(value) });
+              observation.updateOtelSpanAttributes({
+                output: _captureOutput(value),
+              });
             }
 
             if (options?.endOnExit !== false) {
@@ -1491,7 +1493,7 @@ export function observe<T extends (...args: any[]) => any>(
             return value;
           },
           (error: unknown) => {
-            observation.update({
+            observation.updateOtelSpanAttributes({
               level: "ERROR",
               statusMessage:
                 (error instanceof Error ? error.message : String(error)) ||
@@ -1509,7 +1511,9 @@ export function observe<T extends (...args: any[]) => any>(
       } else {
         // Handle sync functions
         if (captureOutput) {
-          observation.update({ output: _captureOutput(result) });
+          observation.updateOtelSpanAttributes({
+            output: _captureOutput(result),
+          });
         }
 
         if (options?.endOnExit !== false) {
@@ -1519,7 +1523,7 @@ export function observe<T extends (...args: any[]) => any>(
         return result as ReturnType<T>;
       }
     } catch (error: unknown) {
-      observation.update({
+      observation.updateOtelSpanAttributes({
         level: "ERROR",
         statusMessage:
           (error instanceof Error ? error.message : String(error)) ||
-- 
2.43.0


From ab11101360976e179460f9d1739eb2aeab0aec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:59 +0000
Subject: [PATCH 09/28] fix: experiment report shows each result with its own
 item

---
 packages/client/src/experiment/ExperimentManager.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 668ae98..0584f7f 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -626,7 +626,9 @@ export class ExperimentManager {
     if (includeItemResults) {
       for (let index = 0; index < itemResults.length; index++) {
         const result = itemResults[index];
-        const originalItem = originalData[index];
+        // Results of failed items are left out, so positions in the results and
+        // in the original data may differ
+        const originalItem = result.item ?? originalData[index];
 
         output += `\n${index + 1}. Item ${index + 1}:\n`;
 
-- 
2.43.0


From bb0bf4ab5d2472cc032ad87410453d32378a5164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:26 +0000
Subject: [PATCH 10/28] fix: experiment results survive a failed run URL lookup

---
 .../client/src/experiment/ExperimentManager.ts     | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 0584f7f..b270478 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -256,11 +256,17 @@ export class ExperimentManager {
     let datasetRunUrl = undefined;
     if (datasetRunId && data.length > 0 && "datasetId" in data[0]) {
       const datasetId = data[0].datasetId;
-      const projectUrl = (await this.langfuseClient.getTraceUrl("mock")).split(
-        "/traces",
-      )[0];
 
-      datasetRunUrl = `${projectUrl}/datasets/${datasetId}/runs/${datasetRunId}`;
+      try {
+        const projectUrl = (
+          await this.langfuseClient.getTraceUrl("mock")
+        ).split("/traces")[0];
+
+        datasetRunUrl = `${projectUrl}/datasets/${datasetId}/runs/${datasetRunId}`;
+      } catch (err) {
+        // The URL is a convenience, the completed run must not be lost over it
+        this.logger.error("Getting the dataset run URL failed", err);
+      }
     }
 
     // Execute run evaluators
-- 
2.43.0


From fa86e8942a22782b9378d35b9cac334d7f3fd054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:47 +0000
Subject: [PATCH 11/28] fix: clear the API request timeout when the request
 fails

---
 .../core/src/api/core/fetcher/makeRequest.ts  | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/makeRequest.ts b/packages/core/src/api/core/fetcher/makeRequest.ts
index f6859af..159ddc6 100644
--- a/packages/core/src/api/core/fetcher/makeRequest.ts
+++ b/packages/core/src/api/core/fetcher/makeRequest.ts
@@ -26,19 +26,19 @@ export const makeRequest = async (
     signals.push(abortSignal);
   }
   let newSignals = anySignal(signals);
-  const response = await fetchFn(url, {
-    method: method,
-    headers,
-    body: requestBody,
-    signal: newSignals,
-    credentials: withCredentials ? "include" : undefined,
-    // @ts-ignore
-    duplex,
-  });
-
-  if (timeoutAbortId != null) {
-    clearTimeout(timeoutAbortId);
+  try {
+    return await fetchFn(url, {
+      method: method,
+      headers,
+      body: requestBody,
+      signal: newSignals,
+      credentials: withCredentials ? "include" : undefined,
+      // @ts-ignore
+      duplex,
+    });
+  } finally {
+    if (timeoutAbortId != null) {
+      clearTimeout(timeoutAbortId);
+    }
   }
-
-  return response;
 };
-- 
2.43.0


From a480648b27ed48495d1d1c9e1f3bc1dcb8105390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:18 +0000
Subject: [PATCH 12/28] fix: report API request timeouts as
 LangfuseAPITimeoutError

---
 packages/core/src/api/core/fetcher/signals.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/signals.ts b/packages/core/src/api/core/fetcher/signals.ts
index 0cd3298..7e17a6f 100644
--- a/packages/core/src/api/core/fetcher/signals.ts
+++ b/packages/core/src/api/core/fetcher/signals.ts
@@ -1,11 +1,10 @@
-const TIMEOUT = "timeout";
-
 export function getTimeoutSignal(timeoutMs: number): {
   signal: AbortSignal;
   abortId: NodeJS.Timeout;
 } {
   const controller = new AbortController();
-  const abortId = setTimeout(() => controller.abort(TIMEOUT), timeoutMs);
+  // Abort with the default AbortError, which the fetcher reports as a timeout
+  const abortId = setTimeout(() => controller.abort(), timeoutMs);
   return { signal: controller.signal, abortId };
 }
 
-- 
2.43.0


From 0e8218aa7b6c077de1ff3fe75f79a2d045c63c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:10 +0000
Subject: [PATCH 13/28] fix: reject API calls whose success response is not
 JSON

---
 packages/core/src/api/core/fetcher/Fetcher.ts | 13 +++++++++--
 .../src/api/core/fetcher/getResponseBody.ts   | 23 ++++++++++++-------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/Fetcher.ts b/packages/core/src/api/core/fetcher/Fetcher.ts
index a74add3..43b6978 100644
--- a/packages/core/src/api/core/fetcher/Fetcher.ts
+++ b/packages/core/src/api/core/fetcher/Fetcher.ts
@@ -4,7 +4,7 @@ import { createRequestUrl } from "./createRequestUrl.js";
 import { getErrorResponseBody } from "./getErrorResponseBody.js";
 import { getFetchFn } from "./getFetchFn.js";
 import { getRequestBody } from "./getRequestBody.js";
-import { getResponseBody } from "./getResponseBody.js";
+import { getResponseBody, NonJsonResponseBody } from "./getResponseBody.js";
 import { makeRequest } from "./makeRequest.js";
 import {
   abortRawResponse,
@@ -125,9 +125,18 @@ export async function fetcherImpl<R = unknown>(
     );
 
     if (response.status >= 200 && response.status < 400) {
+      const body = await getResponseBody(response, args.responseType);
+      if (body instanceof NonJsonResponseBody) {
+        return {
+          ok: false,
+          error: body.error,
+          rawResponse: toRawResponse(response),
+        };
+      }
+
       return {
         ok: true,
-        body: (await getResponseBody(response, args.responseType)) as R,
+        body: body as R,
         headers: response.headers,
         rawResponse: toRawResponse(response),
       };
diff --git a/packages/core/src/api/core/fetcher/getResponseBody.ts b/packages/core/src/api/core/fetcher/getResponseBody.ts
index 2a06812..ec081a5 100644
--- a/packages/core/src/api/core/fetcher/getResponseBody.ts
+++ b/packages/core/src/api/core/fetcher/getResponseBody.ts
@@ -2,6 +2,20 @@ import { getBinaryResponse } from "./BinaryResponse.js";
 import { isResponseWithBody } from "./ResponseWithBody.js";
 import { fromJson } from "../json.js";
 
+/** Marks a response body that should have been JSON but could not be parsed. */
+export class NonJsonResponseBody {
+  public readonly ok = false;
+  public readonly error: {
+    reason: "non-json";
+    statusCode: number;
+    rawBody: string;
+  };
+
+  constructor(statusCode: number, rawBody: string) {
+    this.error = { reason: "non-json", statusCode, rawBody };
+  }
+}
+
 export async function getResponseBody(
   response: Response,
   responseType?: string,
@@ -32,14 +46,7 @@ export async function getResponseBody(
       let responseBody = fromJson(text);
       return responseBody;
     } catch (err) {
-      return {
-        ok: false,
-        error: {
-          reason: "non-json",
-          statusCode: response.status,
-          rawBody: text,
-        },
-      };
+      return new NonJsonResponseBody(response.status, text);
     }
   }
   return undefined;
-- 
2.43.0


From ce469723963f4d9e5729dd2ba10276be686416a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:09 +0000
Subject: [PATCH 14/28] fix: end the OpenAI generation when its stream fails or
 is abandoned

---
 packages/openai/src/traceMethod.ts | 106 ++++++++++++++++-------------
 1 file changed, 60 insertions(+), 46 deletions(-)

diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index bafe35c..9a98b6a 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -201,61 +201,75 @@ function wrapAsyncIterable<R>(
     let usageDetails: Record<string, number> | undefined = undefined;
     let output: unknown = null;
 
-    for await (const rawChunk of response as AsyncIterable<unknown>) {
-      completionStartTime = completionStartTime ?? new Date();
+    try {
+      for await (const rawChunk of response as AsyncIterable<unknown>) {
+        completionStartTime = completionStartTime ?? new Date();
 
-      // Handle Response API chunks
-      if (typeof rawChunk === "object" && rawChunk && "response" in rawChunk) {
-        const result = rawChunk["response"];
-        output = parseCompletionOutput(result);
-        usageDetails = parseUsageDetailsFromResponse(result);
+        // Handle Response API chunks
+        if (
+          typeof rawChunk === "object" &&
+          rawChunk &&
+          "response" in rawChunk
+        ) {
+          const result = rawChunk["response"];
+          output = parseCompletionOutput(result);
+          usageDetails = parseUsageDetailsFromResponse(result);
 
-        const {
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        } = parseModelDataFromResponse(result);
+          const {
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          } = parseModelDataFromResponse(result);
 
-        generation.update({
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        });
-      }
+          generation.update({
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          });
+        }
 
-      if (
-        typeof rawChunk === "object" &&
-        rawChunk != null &&
-        "usage" in rawChunk
-      ) {
-        usage = rawChunk.usage as OpenAI.CompletionUsage | null;
-      }
+        if (
+          typeof rawChunk === "object" &&
+          rawChunk != null &&
+          "usage" in rawChunk
+        ) {
+          usage = rawChunk.usage as OpenAI.CompletionUsage | null;
+        }
 
-      const processedChunk = parseChunk(rawChunk);
+        const processedChunk = parseChunk(rawChunk);
 
-      if (!processedChunk.isToolCall) {
-        textChunks.push(processedChunk.data);
-      } else {
-        toolCallChunks.push(processedChunk.data);
-      }
+        if (!processedChunk.isToolCall) {
+          textChunks.push(processedChunk.data);
+        } else {
+          toolCallChunks.push(processedChunk.data);
+        }
 
-      yield rawChunk;
-    }
+        yield rawChunk;
+      }
+    } catch (error) {
+      generation.update({
+        statusMessage: String(error),
+        level: "ERROR",
+      });
 
-    output =
-      output ??
-      (toolCallChunks.length > 0
-        ? getToolCallOutput(toolCallChunks)
-        : textChunks.join(""));
+      throw error;
+    } finally {
+      // Also reached when the consumer stops iterating early
+      output =
+        output ??
+        (toolCallChunks.length > 0
+          ? getToolCallOutput(toolCallChunks)
+          : textChunks.join(""));
 
-    generation
-      .update({
-        output,
-        completionStartTime,
-        usageDetails:
-          usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
-      })
-      .end();
+      generation
+        .update({
+          output,
+          completionStartTime,
+          usageDetails:
+            usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
+        })
+        .end();
+    }
   }
 
   return tracedOutputGenerator() as R;
-- 
2.43.0


From ef0f103138f7dc0e7260d8f7a155bd9d5ac99437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:32 +0000
Subject: [PATCH 15/28] fix: OpenAI responses without choices do not fail the
 traced call

---
 packages/openai/src/parseOpenAI.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index c60aac3..a444c57 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -94,6 +94,11 @@ export const parseCompletionOutput = (res: unknown): unknown => {
     return "";
   }
 
+  // e.g. content-filtered responses come without any choice
+  if (!res.choices[0]) {
+    return "";
+  }
+
   return "message" in res.choices[0]
     ? res.choices[0].message
     : (res.choices[0].text ?? "");
-- 
2.43.0


From 31d931fe71678699792457b6c4b34dced4268269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:58 +0000
Subject: [PATCH 16/28] fix: OpenAI stream chunks with an empty tool call list
 do not fail the stream

---
 packages/openai/src/parseOpenAI.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index a444c57..b80d79c 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -220,7 +220,8 @@ export const parseChunk = (
     if (
       "delta" in chunkData &&
       "tool_calls" in chunkData.delta &&
-      Array.isArray(chunkData.delta.tool_calls)
+      Array.isArray(chunkData.delta.tool_calls) &&
+      chunkData.delta.tool_calls.length > 0
     ) {
       isToolCall = true;
 
-- 
2.43.0


From 87a1b070b52516be16c9abced500d683b886cf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:29 +0000
Subject: [PATCH 17/28] fix: record parallel tool calls of an OpenAI stream
 separately

---
 packages/openai/src/parseOpenAI.ts | 27 +++++++++++++--------------
 packages/openai/src/traceMethod.ts |  2 +-
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index b80d79c..dd76114 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -208,7 +208,7 @@ export const parseChunk = (
   | { isToolCall: false; data: string }
   | {
       isToolCall: true;
-      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall;
+      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall[];
     } => {
   let isToolCall = false;
   const _chunk = rawChunk as
@@ -225,7 +225,7 @@ export const parseChunk = (
     ) {
       isToolCall = true;
 
-      return { isToolCall, data: chunkData.delta.tool_calls[0] };
+      return { isToolCall, data: chunkData.delta.tool_calls };
     }
     if ("delta" in chunkData) {
       return { isToolCall, data: chunkData.delta?.content || "" };
@@ -268,23 +268,22 @@ export const getToolCallOutput = (
     };
   }[];
 } => {
-  let name = "";
-  let toolArguments = "";
+  // Parallel tool calls arrive interleaved and are told apart by their index
+  const toolCalls = new Map<number, { name: string; arguments: string }>();
 
   for (const toolCall of toolCallChunks) {
-    name = toolCall.function?.name || name;
-    toolArguments += toolCall.function?.arguments || "";
+    const index = toolCall.index ?? 0;
+    const { name = "", arguments: toolArguments = "" } =
+      toolCalls.get(index) ?? {};
+
+    toolCalls.set(index, {
+      name: toolCall.function?.name || name,
+      arguments: toolArguments + (toolCall.function?.arguments || ""),
+    });
   }
 
   return {
-    tool_calls: [
-      {
-        function: {
-          name,
-          arguments: toolArguments,
-        },
-      },
-    ],
+    tool_calls: [...toolCalls.values()].map((fn) => ({ function: fn })),
   };
 };
 
diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index 9a98b6a..058219f 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -241,7 +241,7 @@ function wrapAsyncIterable<R>(
         if (!processedChunk.isToolCall) {
           textChunks.push(processedChunk.data);
         } else {
-          toolCallChunks.push(processedChunk.data);
+          toolCallChunks.push(...processedChunk.data);
         }
 
         yield rawChunk;
-- 
2.43.0


From f0ba7ae020b5cf35c747184939e020e64c7f74f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:00 +0000
Subject: [PATCH 18/28] fix: record LangChain generations of models without
 invocation params

---
 packages/langchain/src/CallbackHandler.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 6c0ffa1..1109bfb 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -316,8 +316,8 @@ export class CallbackHandler extends BaseCallbackHandler {
     let extractedModelName: string | undefined;
     if (extraParams) {
       const invocationParamsModelName = (
-        extraParams.invocation_params as InvocationParams
-      ).model;
+        extraParams.invocation_params as InvocationParams | undefined
+      )?.model;
       const metadataModelName =
         metadata && "ls_model_name" in metadata
           ? (metadata["ls_model_name"] as string)
@@ -375,7 +375,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         message.map((m) => this.extractChatMessageContent(m)),
       );
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
@@ -444,7 +444,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM start with ID: ${runId}`);
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
-- 
2.43.0


From ef4e6134a0acd31f028bfaa3dcc9cb7b94c68ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:31 +0000
Subject: [PATCH 19/28] fix: end LangChain observations whose run fails with
 null or undefined

---
 packages/langchain/src/CallbackHandler.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 1109bfb..773f57d 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -264,7 +264,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: String(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -546,7 +546,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: String(err),
         },
       });
     } catch (e) {
@@ -584,7 +584,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: String(err),
         },
       });
     } catch (e) {
@@ -696,7 +696,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: String(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -854,7 +854,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     // This would not be logged as the error message is only a generic message
     // that there has been a refusal
     let azureRefusalError = "";
-    if (typeof err == "object" && "error" in err) {
+    if (err && typeof err == "object" && "error" in err) {
       try {
         azureRefusalError =
           "\n\nError details:\n" + JSON.stringify(err["error"], null, 2);
-- 
2.43.0


From d9e1c491c528f2a6b17700f7a9d7911a1b770c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:32 +0000
Subject: [PATCH 20/28] fix: end LangChain generations that produced no output

---
 packages/langchain/src/CallbackHandler.ts | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 773f57d..0a6ba04 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -601,12 +601,11 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM end with ID: ${runId}`);
 
-      const lastResponse =
-        output.generations[output.generations.length - 1][
-          output.generations[output.generations.length - 1].length - 1
-        ];
+      const lastResponse: Generation | undefined = output.generations
+        .at(-1)
+        ?.at(-1);
       const llmUsage =
-        this.extractUsageMetadata(lastResponse) ??
+        (lastResponse ? this.extractUsageMetadata(lastResponse) : undefined) ??
         output.llmOutput?.["tokenUsage"] ??
         {};
       const modelName = this.extractModelNameFromMetadata(lastResponse);
@@ -650,11 +649,11 @@ export class CallbackHandler extends BaseCallbackHandler {
       }
 
       const extractedOutput =
-        "message" in lastResponse
+        lastResponse && "message" in lastResponse
           ? this.extractChatMessageContent(
               lastResponse["message"] as BaseMessage,
             )
-          : lastResponse.text;
+          : lastResponse?.text;
 
       this.handleOtelSpanEnd({
         runId,
-- 
2.43.0


From 0d35b1dfab4591cd0313d22603230d882cbaf61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:32 +0000
Subject: [PATCH 21/28] fix: agent actions do not replace the observation of
 their LangChain run

---
 packages/langchain/src/CallbackHandler.ts | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 0a6ba04..133d96f 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -214,18 +214,14 @@ export class CallbackHandler extends BaseCallbackHandler {
   async handleAgentAction(
     action: AgentAction,
     runId: string,
+    // eslint-disable-next-line @typescript-eslint/no-unused-vars
     parentRunId?: string,
   ): Promise<void> {
     try {
       this.logger.debug(`Agent action ${action.tool} with ID: ${runId}`);
-      this.startAndRegisterOtelSpan({
-        runId,
-        parentRunId,
-        runName: action.tool,
-        attributes: {
-          input: action,
-        },
-      });
+
+      // LangChain reports agent actions with the run ID of the agent's chain
+      this.runMap.get(runId)?.update({ output: action });
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -240,10 +236,8 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`Agent finish with ID: ${runId}`);
 
-      this.handleOtelSpanEnd({
-        runId,
-        attributes: { output: action },
-      });
+      // The agent's chain ends its observation in handleChainEnd
+      this.runMap.get(runId)?.update({ output: action });
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
-- 
2.43.0


From 2cd4353d2ed31e50df26cf26eb3da37709a1b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:21 +0000
Subject: [PATCH 22/28] fix: LangChain runs keep the context of their own
 request

---
 packages/langchain/src/CallbackHandler.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 133d96f..9290594 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -56,6 +56,10 @@ type TrackedObservation = LangfuseSpan | LangfuseGeneration | LangfuseTool;
 export class CallbackHandler extends BaseCallbackHandler {
   name = "LangfuseCallbackHandler";
 
+  // In LangChain's background queue a callback may run in the OpenTelemetry
+  // context of another concurrent request and attach its run to that request.
+  awaitHandlers = true;
+
   private userId?: string;
   private version?: string;
   private sessionId?: string;
-- 
2.43.0


From 13dbce652839d9ff277139f3e3078d5a9446026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:41 +0000
Subject: [PATCH 23/28] fix: LangChain traces that start with a model, tool or
 retriever get the trace attributes

---
 packages/langchain/src/CallbackHandler.ts | 120 +++++++++++-----------
 1 file changed, 58 insertions(+), 62 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 9290594..ad02c9f 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -149,67 +149,16 @@ export class CallbackHandler extends BaseCallbackHandler {
         finalInput = inputs["content"];
       }
 
-      // If there's no parent run, this is a top-level chain execution
-      // and we need to propagate trace attributes
-      if (!parentRunId) {
-        const traceTags = [...new Set([...(tags ?? []), ...this.tags])];
-
-        const traceUserId =
-          metadata &&
-          "langfuseUserId" in metadata &&
-          typeof metadata["langfuseUserId"] === "string"
-            ? metadata["langfuseUserId"]
-            : this.userId;
-
-        const traceSessionId =
-          metadata &&
-          "langfuseSessionId" in metadata &&
-          typeof metadata["langfuseSessionId"] === "string"
-            ? metadata["langfuseSessionId"]
-            : this.sessionId;
-
-        const traceMetadata = this.traceMetadata
-          ? Object.fromEntries(
-              Object.entries(this.traceMetadata).map(([k, v]) => [
-                k,
-                typeof v === "string" ? v : JSON.stringify(v),
-              ]),
-            )
-          : undefined;
-
-        propagateAttributes(
-          {
-            tags: traceTags,
-            userId: traceUserId,
-            sessionId: traceSessionId,
-            metadata: traceMetadata,
-            version: this.version,
-          },
-          () => {
-            this.startAndRegisterOtelSpan({
-              runName,
-              parentRunId,
-              runId,
-              tags,
-              metadata,
-              attributes: {
-                input: finalInput,
-              },
-            });
-          },
-        );
-      } else {
-        this.startAndRegisterOtelSpan({
-          runName,
-          parentRunId,
-          runId,
-          tags,
-          metadata,
-          attributes: {
-            input: finalInput,
-          },
-        });
-      }
+      this.startAndRegisterOtelSpan({
+        runName,
+        parentRunId,
+        runId,
+        tags,
+        metadata,
+        attributes: {
+          input: finalInput,
+        },
+      });
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -774,7 +723,7 @@ export class CallbackHandler extends BaseCallbackHandler {
       ? this.runMap.get(parentRunId)?.otelSpan.spanContext()
       : undefined;
 
-    const observation =
+    const startObservation = () =>
       type === "generation"
         ? startActiveObservation(
             runName,
@@ -812,11 +761,58 @@ export class CallbackHandler extends BaseCallbackHandler {
                 endOnExit: false,
               },
             );
+
+    // If there's no parent run, this is a top-level execution
+    // and we need to propagate trace attributes
+    const observation: TrackedObservation = parentRunId
+      ? startObservation()
+      : propagateAttributes(
+          this.getTraceAttributes(tags, metadata),
+          startObservation,
+        );
     this.runMap.set(runId, observation);
 
     return observation;
   }
 
+  private getTraceAttributes(
+    tags?: string[],
+    metadata?: Record<string, unknown>,
+  ) {
+    const traceTags = [...new Set([...(tags ?? []), ...this.tags])];
+
+    const traceUserId =
+      metadata &&
+      "langfuseUserId" in metadata &&
+      typeof metadata["langfuseUserId"] === "string"
+        ? metadata["langfuseUserId"]
+        : this.userId;
+
+    const traceSessionId =
+      metadata &&
+      "langfuseSessionId" in metadata &&
+      typeof metadata["langfuseSessionId"] === "string"
+        ? metadata["langfuseSessionId"]
+        : this.sessionId;
+
+    const traceMetadata = this.traceMetadata
+      ? Object.fromEntries(
+          Object.entries(this.traceMetadata).map(([k, v]) => [
+            k,
+            typeof v === "string" ? v : JSON.stringify(v),
+          ]),
+        )
+      : undefined;
+
+    return {
+      tags: traceTags,
+      userId: traceUserId,
+      sessionId: traceSessionId,
+      metadata: traceMetadata,
+      version: this.version,
+    };
+  }
+
   private handleOtelSpanEnd(params: {
     runId: string;
     attributes?: LangfuseSpanAttributes;
-- 
2.43.0


From efcfec566cc49d85ffd6011d334f039444b82c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:36 +0000
Subject: [PATCH 24/28] fix: browser score errors are LangfuseBrowserErrors
 when the response cannot be read

---
 packages/browser/src/utils.ts | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/packages/browser/src/utils.ts b/packages/browser/src/utils.ts
index 0c3ffe7..dff4d00 100644
--- a/packages/browser/src/utils.ts
+++ b/packages/browser/src/utils.ts
@@ -12,7 +12,19 @@ const RESERVED_ADDITIONAL_HEADER_NAMES = new Set([
 ]);
 
 export async function parseJsonResponse(response: Response): Promise<unknown> {
-  const text = await response.text();
+  let text: string;
+  try {
+    text = await response.text();
+  } catch (error) {
+    throw new LangfuseBrowserError(
+      "Failed to read the Langfuse ingestion response.",
+      {
+        status: response.status,
+        originalError: error,
+      },
+    );
+  }
+
   if (!text) {
     return undefined;
   }
@@ -34,7 +46,7 @@ export async function parseJsonResponse(response: Response): Promise<unknown> {
 export async function parseErrorResponseBody(
   response: Response,
 ): Promise<unknown> {
-  const text = await response.text();
+  const text = await response.text().catch(() => undefined);
   if (!text) {
     return undefined;
   }
-- 
2.43.0


From 21ac381be5b9a5dd4c2f5e6307de6eb5bca5a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:38 +0000
Subject: [PATCH 25/28] fix: keep the closing braces of nested JSON in
 LangChain prompts

Two adjacent closing braces were taken for an existing '}}' even when they
end two nested JSON objects, so LangChain formatted the prompt with braces
missing.
---
 packages/client/src/prompt/promptClients.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 8872765..9e86a12 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -110,7 +110,7 @@ abstract class BasePromptClient {
    */
   protected escapeJsonForLangchain(text: string): string {
     const out: string[] = []; // collected characters
-    const stack: boolean[] = []; // true = “this { belongs to JSON”, false = normal “{”
+    const stack: (boolean | null)[] = []; // true = “this { belongs to JSON”, false = normal “{”, null = “{{”
     let i = 0;
     const n = text.length;
 
@@ -122,6 +122,7 @@ abstract class BasePromptClient {
         // leave existing “{{ …” untouched
         if (i + 1 < n && text[i + 1] === "{") {
           out.push("{{");
+          stack.push(null);
           i += 2;
           continue;
         }
@@ -141,13 +142,15 @@ abstract class BasePromptClient {
 
       // ---------- closing brace ----------
       if (ch === "}") {
-        // leave existing “… }}” untouched
-        if (i + 1 < n && text[i + 1] === "}") {
+        // leave existing “… }}” untouched, but not the ends of two nested JSON objects
+        if (i + 1 < n && text[i + 1] === "}" && stack.at(-1) !== true) {
           out.push("}}");
+          if (stack.at(-1) === null) stack.pop();
           i += 2;
           continue;
         }
 
+        while (stack.at(-1) === null) stack.pop(); // a “{{” that was never closed
         const isJson = stack.pop() ?? false;
         out.push(isJson ? "}}" : "}");
         i += 1;
-- 
2.43.0


From 15623f1ceec8071bd4c5c7bee05a420424fcfd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:19 +0000
Subject: [PATCH 26/28] fix: LangChain form of prompts recognises variables
 written with inner whitespace

---
 packages/client/src/prompt/promptClients.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 9e86a12..4d53059 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -94,7 +94,7 @@ abstract class BasePromptClient {
   protected _transformToLangchainVariables(content: string): string {
     const jsonEscapedContent = this.escapeJsonForLangchain(content);
 
-    return jsonEscapedContent.replace(/\{\{(\w+)\}\}/g, "{$1}");
+    return jsonEscapedContent.replace(/\{\{\s*(\w+)\s*\}\}/g, "{$1}");
   }
 
   /**
-- 
2.43.0


From f7502fe867b3f912866a0fd954b58288e1eac9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:54 +0000
Subject: [PATCH 27/28] fix: resolving media references keeps dates, binary
 data and other class instances

---
 packages/client/src/media/index.ts | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/packages/client/src/media/index.ts b/packages/client/src/media/index.ts
index 081741b..0609255 100644
--- a/packages/client/src/media/index.ts
+++ b/packages/client/src/media/index.ts
@@ -156,14 +156,26 @@ export class MediaManager {
 
       // Handle objects
       if (typeof obj === "object" && obj !== null) {
-        return Object.fromEntries(
-          await Promise.all(
-            Object.entries(obj).map(async ([key, value]) => [
-              key,
-              await traverse(value, depth + 1),
-            ]),
-          ),
+        const original = Object.entries(obj);
+        const resolved = await Promise.all(
+          original.map(async ([key, value]) => [
+            key,
+            await traverse(value, depth + 1),
+          ]),
         );
+
+        // Dates, binary data and other class instances cannot be rebuilt from
+        // their entries, so keep them unless a reference in them was resolved.
+        const prototype = Object.getPrototypeOf(obj);
+        if (
+          prototype !== null &&
+          prototype !== Object.prototype &&
+          resolved.every(([, value], i) => Object.is(value, original[i][1]))
+        ) {
+          return obj;
+        }
+
+        return Object.fromEntries(resolved);
       }
 
       return obj;
-- 
2.43.0


From 00b0a3c4db5ce5bd6ce9b34a6f167e5f12b1a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:37 +0000
Subject: [PATCH 28/28] fix: an AI SDK file part that is not base64 does not
 keep other media inline

---
 packages/otel/src/MediaService.ts | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 7bd5cc8..10dee60 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -242,9 +242,22 @@ export class MediaService {
     contentType: string;
     field: string;
   }): Promise<string> {
+    let contentBytes: Uint8Array;
+
+    try {
+      contentBytes = base64ToBytes(params.base64Content);
+    } catch {
+      // E.g. the file ID of a provider. Must not affect the other media items.
+      this.logger.debug(
+        "Content of AI SDK file part is not base64 encoded. Skipping media item.",
+      );
+
+      return params.mediaReplacedValue;
+    }
+
     const media = new LangfuseMedia({
       contentType: params.contentType as MediaContentType,
-      contentBytes: base64ToBytes(params.base64Content),
+      contentBytes,
       source: "bytes",
     });
 
-- 
2.43.0

