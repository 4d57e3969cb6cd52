From b991dcf1d518127a0dd14678cc6c7189c946bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:14 +0000
Subject: [PATCH 01/39] fix: score flush and shutdown wait for all queued and
 in-flight scores

A flush started while another one was in flight returned the running one's
promise, so scores queued since were not sent and shutdown could resolve with
scores unsent; the flush timer or threshold reached meanwhile sent nothing and
never re-armed; explicit flushes were not tracked at all.
---
 packages/client/src/score/index.ts | 43 +++++++++++++++---------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/packages/client/src/score/index.ts b/packages/client/src/score/index.ts
index 9cbe359..b941a9c 100644
--- a/packages/client/src/score/index.ts
+++ b/packages/client/src/score/index.ts
@@ -7,7 +7,6 @@ import {
   getGlobalLogger,
   LogLevel,
   safeSetTimeout,
-  IngestionResponse,
 } from "@langfuse/core";
 import { Span, trace } from "@opentelemetry/api";
 
@@ -26,7 +25,7 @@ const MAX_BATCH_SIZE = 100;
 export class ScoreManager {
   private apiClient: LangfuseAPIClient;
   private eventQueue: IngestionEvent[] = [];
-  private flushPromise: Promise<void> | null = null;
+  private pendingBatches: Set<Promise<void>> = new Set();
   private flushTimer: any = null;
   private flushAtCount: number;
   private flushIntervalSeconds: number;
@@ -102,10 +101,10 @@ export class ScoreManager {
     }
 
     if (this.eventQueue.length >= this.flushAtCount) {
-      this.flushPromise = this.flush();
+      void this.flush();
     } else if (!this.flushTimer) {
       this.flushTimer = safeSetTimeout(() => {
-        this.flushPromise = this.flush();
+        void this.flush();
       }, this.flushIntervalSeconds * 1_000);
     }
   }
@@ -276,30 +275,30 @@ export class ScoreManager {
         this.flushTimer = null;
       }
 
-      const promises: Promise<IngestionResponse | void>[] = [];
-
       while (this.eventQueue.length > 0) {
         const batch = this.eventQueue.splice(0, MAX_BATCH_SIZE);
 
-        promises.push(
-          this.apiClient.ingestion
-            .batch({ batch })
-            .then((res) => {
-              if (res.errors?.length > 0) {
-                this.logger.error("Error ingesting scores:", res.errors);
-              }
-            })
-            .catch((err) => {
-              this.logger.error("Failed to export score batch:", err);
-            }),
-        );
+        const pendingBatch: Promise<void> = this.apiClient.ingestion
+          .batch({ batch })
+          .then((res) => {
+            if (res.errors?.length > 0) {
+              this.logger.error("Error ingesting scores:", res.errors);
+            }
+          })
+          .catch((err) => {
+            this.logger.error("Failed to export score batch:", err);
+          })
+          .finally(() => {
+            this.pendingBatches.delete(pendingBatch);
+          });
+
+        this.pendingBatches.add(pendingBatch);
       }
 
-      await Promise.all(promises);
+      // Wait for batches sent by this call and for those already in flight
+      await Promise.all(this.pendingBatches);
     } catch (err) {
       this.logger.error("Error flushing Score Manager: ", err);
-    } finally {
-      this.flushPromise = null;
     }
   }
 
@@ -318,7 +317,7 @@ export class ScoreManager {
    * ```
    */
   public async flush() {
-    return this.flushPromise ?? this.handleFlush();
+    return this.handleFlush();
   }
 
   /**
-- 
2.43.0


From 03e82f8b0921bf153368586be91ae6fe2c65d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:10 +0000
Subject: [PATCH 02/39] fix: prompts with similar names and labels no longer
 share a cache entry

The cache key joined name, version and label with dashes, so for example name
'a-label:x' with label 'y' and name 'a' with label 'x-label:y' collided and a
lookup returned the other prompt. Updating or deleting a prompt also dropped
the cached entries of every prompt whose name starts with its name.
---
 packages/client/src/prompt/promptCache.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/prompt/promptCache.ts b/packages/client/src/prompt/promptCache.ts
index bfae38d..80e6df7 100644
--- a/packages/client/src/prompt/promptCache.ts
+++ b/packages/client/src/prompt/promptCache.ts
@@ -49,7 +49,8 @@ export class LangfusePromptCache {
       parts.push("label:production");
     }
 
-    return parts.join("-");
+    // Encode the parts so that different prompts can never share a key
+    return JSON.stringify(parts);
   }
 
   public set(
@@ -87,7 +88,7 @@ export class LangfusePromptCache {
     );
 
     for (const key of this._cache.keys()) {
-      if (key.startsWith(promptName)) {
+      if (JSON.parse(key)[0] === promptName) {
         this._cache.delete(key);
       }
     }
-- 
2.43.0


From 67da7fa07fd4d668321cb120993e399b59665965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:22 +0000
Subject: [PATCH 03/39] fix: in-flight prompt fetches no longer re-cache
 content from before an update or delete

A fetch or background refresh issued before an update/delete that completed
after it stored the old content in the just invalidated cache, so lookups
served it for the whole TTL.
---
 packages/client/src/prompt/promptCache.ts   | 15 +++++++++++++++
 packages/client/src/prompt/promptManager.ts |  6 +++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptCache.ts b/packages/client/src/prompt/promptCache.ts
index 80e6df7..7837693 100644
--- a/packages/client/src/prompt/promptCache.ts
+++ b/packages/client/src/prompt/promptCache.ts
@@ -22,11 +22,13 @@ export class LangfusePromptCache {
   private _cache: Map<string, LangfusePromptCacheItem>;
   private _defaultTtlSeconds: number;
   private _refreshingKeys: Map<string, Promise<void>>;
+  private _invalidations: Map<string, number>;
 
   constructor() {
     this._cache = new Map<string, LangfusePromptCacheItem>();
     this._defaultTtlSeconds = DEFAULT_PROMPT_CACHE_TTL_SECONDS;
     this._refreshingKeys = new Map<string, Promise<void>>();
+    this._invalidations = new Map<string, number>();
   }
 
   public getIncludingExpired(key: string): LangfusePromptCacheItem | null {
@@ -80,7 +82,20 @@ export class LangfusePromptCache {
     return this._refreshingKeys.has(key);
   }
 
+  /**
+   * Number of invalidations of a prompt so far. A fetch that was started before
+   * an invalidation must not populate the cache afterwards.
+   */
+  public getInvalidationCount(promptName: string): number {
+    return this._invalidations.get(promptName) ?? 0;
+  }
+
   public invalidate(promptName: string): void {
+    this._invalidations.set(
+      promptName,
+      this.getInvalidationCount(promptName) + 1,
+    );
+
     getGlobalLogger().debug(
       "Invalidating cache keys for",
       promptName,
diff --git a/packages/client/src/prompt/promptManager.ts b/packages/client/src/prompt/promptManager.ts
index 1d1cb6f..78264a8 100644
--- a/packages/client/src/prompt/promptManager.ts
+++ b/packages/client/src/prompt/promptManager.ts
@@ -420,6 +420,7 @@ export class PromptManager {
     fetchTimeoutMs?: number;
   }): Promise<LangfusePromptClient> {
     const cacheKey = this.cache.createKey(params);
+    const invalidationCount = this.cache.getInvalidationCount(params.name);
 
     try {
       const {
@@ -450,7 +451,10 @@ export class PromptManager {
         prompt = new TextPromptClient(data);
       }
 
-      this.cache.set(cacheKey, prompt, cacheTtlSeconds);
+      // Do not cache content requested before the prompt was updated or deleted
+      if (this.cache.getInvalidationCount(name) === invalidationCount) {
+        this.cache.set(cacheKey, prompt, cacheTtlSeconds);
+      }
 
       return prompt;
     } catch (error) {
-- 
2.43.0


From 682c3563830f0a1da1569f86ec610a135685cc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 04/39] fix: prompt placeholders given a list containing null
 no longer throw on compile

---
 packages/client/src/prompt/promptClients.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 8872765..d5b810c 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -340,7 +340,10 @@ export class ChatPromptClient extends BasePromptClient {
           placeholderValue.length > 0 &&
           placeholderValue.every(
             (msg) =>
-              typeof msg === "object" && "role" in msg && "content" in msg,
+              typeof msg === "object" &&
+              msg !== null &&
+              "role" in msg &&
+              "content" in msg,
           )
         ) {
           messagesWithPlaceholdersReplaced.push(
@@ -430,7 +433,10 @@ export class ChatPromptClient extends BasePromptClient {
           placeholderValue.length > 0 &&
           placeholderValue.every(
             (msg) =>
-              typeof msg === "object" && "role" in msg && "content" in msg,
+              typeof msg === "object" &&
+              msg !== null &&
+              "role" in msg &&
+              "content" in msg,
           )
         ) {
           // Complete placeholder fill-in, replace with it
-- 
2.43.0


From fc87e2f9f76650a658a2fcdf0f91451d6e99b7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:31 +0000
Subject: [PATCH 05/39] fix: nested JSON objects in prompts keep their closing
 braces in LangChain templates

Adjacent closing braces of nested JSON were taken for an already escaped pair
although every opening brace had been escaped, so LangChain rendered the object
with a brace missing; empty objects were passed through as an empty variable.
---
 packages/client/src/prompt/promptClients.ts | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index d5b810c..1f4adab 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -110,7 +110,7 @@ abstract class BasePromptClient {
    */
   protected escapeJsonForLangchain(text: string): string {
     const out: string[] = []; // collected characters
-    const stack: boolean[] = []; // true = “this { belongs to JSON”, false = normal “{”
+    const stack: ("json" | "double" | "single")[] = []; // how each open brace was treated
     let i = 0;
     const n = text.length;
 
@@ -122,6 +122,7 @@ abstract class BasePromptClient {
         // leave existing “{{ …” untouched
         if (i + 1 < n && text[i + 1] === "{") {
           out.push("{{");
+          stack.push("double");
           i += 2;
           continue;
         }
@@ -132,24 +133,29 @@ abstract class BasePromptClient {
           j++;
         }
 
-        const isJson = j < n && (text[j] === "'" || text[j] === '"');
+        const isJson =
+          j < n && (text[j] === "'" || text[j] === '"' || text[j] === "}");
         out.push(isJson ? "{{" : "{");
-        stack.push(isJson); // remember how this “{” was treated
+        stack.push(isJson ? "json" : "single"); // remember how this “{” was treated
         i += 1;
         continue;
       }
 
       // ---------- closing brace ----------
       if (ch === "}") {
-        // leave existing “… }}” untouched
-        if (i + 1 < n && text[i + 1] === "}") {
+        // leave existing “… }}” untouched, unless it closes nested JSON objects
+        const open = stack.pop();
+        if (
+          i + 1 < n &&
+          text[i + 1] === "}" &&
+          (open === "double" || open === undefined)
+        ) {
           out.push("}}");
           i += 2;
           continue;
         }
 
-        const isJson = stack.pop() ?? false;
-        out.push(isJson ? "}}" : "}");
+        out.push(open === "json" ? "}}" : "}");
         i += 1;
         continue;
       }
-- 
2.43.0


From 7b3906b67f56002186d6d792fd5ba89fa06f41ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:21 +0000
Subject: [PATCH 06/39] fix: resolving media references leaves dates and other
 class instances intact

---
 packages/client/src/media/index.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/media/index.ts b/packages/client/src/media/index.ts
index 081741b..64d4b31 100644
--- a/packages/client/src/media/index.ts
+++ b/packages/client/src/media/index.ts
@@ -154,8 +154,13 @@ export class MediaManager {
         ) as Promise<T>;
       }
 
-      // Handle objects
+      // Handle plain objects; class instances such as Date or Map are left as is
       if (typeof obj === "object" && obj !== null) {
+        const proto = Object.getPrototypeOf(obj);
+        if (proto !== Object.prototype && proto !== null) {
+          return obj;
+        }
+
         return Object.fromEntries(
           await Promise.all(
             Object.entries(obj).map(async ([key, value]) => [
-- 
2.43.0


From 1e7fba0f2aa9f57154ed1b52a947ab8de5e26d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:40 +0000
Subject: [PATCH 07/39] fix: experiment results are not lost when the dataset
 run URL cannot be resolved

---
 .../client/src/experiment/ExperimentManager.ts   | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 668ae98..60cf8d4 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -253,14 +253,20 @@ export class ExperimentManager {
     )?.datasetRunId;
     const experimentId = datasetRunId || fallbackExperimentId;
 
-    let datasetRunUrl = undefined;
+    let datasetRunUrl: string | undefined = undefined;
     if (datasetRunId && data.length > 0 && "datasetId" in data[0]) {
       const datasetId = data[0].datasetId;
-      const projectUrl = (await this.langfuseClient.getTraceUrl("mock")).split(
-        "/traces",
-      )[0];
 
-      datasetRunUrl = `${projectUrl}/datasets/${datasetId}/runs/${datasetRunId}`;
+      try {
+        const projectUrl = (
+          await this.langfuseClient.getTraceUrl("mock")
+        ).split("/traces")[0];
+
+        datasetRunUrl = `${projectUrl}/datasets/${datasetId}/runs/${datasetRunId}`;
+      } catch (err) {
+        // The results must not be lost because the URL cannot be determined
+        this.logger.error("Resolving the dataset run URL failed", err);
+      }
     }
 
     // Execute run evaluators
-- 
2.43.0


From eed3eb972edc839ca8278a94f0ec57d174406632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:35 +0000
Subject: [PATCH 08/39] fix: formatted experiment results pair each result with
 its own item when other items failed

---
 packages/client/src/experiment/ExperimentManager.ts | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 60cf8d4..5df4b04 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -1,5 +1,4 @@
 import {
-  DatasetItem,
   getGlobalLogger,
   propagateAttributes,
   serializeValue,
@@ -17,7 +16,6 @@ import {
   ExperimentParams,
   ExperimentResult,
   ExperimentTask,
-  ExperimentItem,
   ExperimentItemResult,
   Evaluator,
   Evaluation,
@@ -316,7 +314,6 @@ export class ExperimentManager {
         await this.prettyPrintResults({
           datasetRunUrl,
           itemResults,
-          originalData: data,
           runEvaluations,
           name: config.name,
           runName,
@@ -550,7 +547,6 @@ export class ExperimentManager {
    * @param params - Formatting parameters
    * @param params.datasetRunUrl - Optional URL to the dataset run in Langfuse UI
    * @param params.itemResults - Results from processing each data item
-   * @param params.originalData - The original input data items
    * @param params.runEvaluations - Results from run-level evaluators
    * @param params.name - Name of the experiment
    * @param params.description - Optional description of the experiment
@@ -603,9 +599,6 @@ export class ExperimentManager {
   >(params: {
     datasetRunUrl?: string;
     itemResults: ExperimentItemResult<Input, ExpectedOutput, Metadata>[];
-    originalData:
-      | ExperimentItem<Input, ExpectedOutput, Metadata>[]
-      | DatasetItem[];
     runEvaluations: Evaluation[];
     name: string;
     runName: string;
@@ -614,7 +607,6 @@ export class ExperimentManager {
   }): Promise<string> {
     const {
       itemResults,
-      originalData,
       runEvaluations,
       name,
       runName,
@@ -632,7 +624,8 @@ export class ExperimentManager {
     if (includeItemResults) {
       for (let index = 0; index < itemResults.length; index++) {
         const result = itemResults[index];
-        const originalItem = originalData[index];
+        // Failed items are missing from the results: use the result's own item
+        const originalItem = result.item;
 
         output += `\n${index + 1}. Item ${index + 1}:\n`;
 
-- 
2.43.0


From 8c4d5a30300ca5309fc5971c13e2809ce9275740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:20 +0000
Subject: [PATCH 09/39] fix: masking covers metadata stored under individual
 keys

---
 packages/otel/src/span-processor.ts | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index 67b6020..71e93a9 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -557,12 +557,15 @@ export class LangfuseSpanProcessor implements SpanProcessor {
       LangfuseOtelSpanAttributes.TRACE_METADATA,
     ];
 
-    for (const maskCandidate of maskCandidates) {
-      if (maskCandidate in span.attributes) {
-        span.attributes[maskCandidate] = await this.applyMask(
-          span.attributes[maskCandidate],
-        );
-      }
+    // Metadata is stored flattened, one attribute per top-level key
+    const maskedKeys = Object.keys(span.attributes).filter((key) =>
+      maskCandidates.some(
+        (candidate) => key === candidate || key.startsWith(`${candidate}.`),
+      ),
+    );
+
+    for (const key of maskedKeys) {
+      span.attributes[key] = await this.applyMask(span.attributes[key]);
     }
   }
 
-- 
2.43.0


From 577f621468184ee03c0cd8cc15066901027bc1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:01 +0000
Subject: [PATCH 10/39] fix: media data URIs in spans are replaced as a whole,
 also when one is a prefix of another

---
 packages/otel/src/MediaService.ts | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 79ae77e..1acc731 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -53,9 +53,9 @@ export class MediaService {
         }
 
         // Find media base64 data URI
-        let mediaReplacedValue = value;
-        const regex = /data:[^;]+;base64,[A-Za-z0-9+/]+=*/g;
+        const regex = /data:[^:;,\s"]+;base64,[A-Za-z0-9+/]+=*/g;
         const foundMedia = [...new Set(value.match(regex) ?? [])];
+        const tagByDataUri = new Map<string, string>();
 
         if (foundMedia.length === 0) continue;
 
@@ -86,14 +86,15 @@ export class MediaService {
                 : "metadata", // todo: make more robust
           });
 
-          // Replace original attribute with media escaped attribute
-          mediaReplacedValue = mediaReplacedValue.replaceAll(
-            mediaDataUri,
-            langfuseMediaTag,
-          );
+          tagByDataUri.set(mediaDataUri, langfuseMediaTag);
         }
 
-        span.attributes[key] = mediaReplacedValue;
+        // Replace original attribute with media escaped attribute. Each URI is
+        // replaced as a whole, as one URI can be a prefix of another one.
+        span.attributes[key] = value.replace(
+          regex,
+          (mediaDataUri) => tagByDataUri.get(mediaDataUri) ?? mediaDataUri,
+        );
       }
     }
 
-- 
2.43.0


From cbb52b88879a58ebea949d7e82035b477bc7bc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:49 +0000
Subject: [PATCH 11/39] fix: AI SDK media parts in spans are replaced at their
 own position only

---
 packages/otel/src/MediaService.ts | 48 +++++++++++++++++--------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 1acc731..6b8d758 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -109,11 +109,9 @@ export class MediaService {
           continue;
         }
 
-        // Find media base64 data URI
-        let mediaReplacedValue = value;
-
         try {
           const parsed = JSON.parse(value);
+          let isMediaReplaced = false;
 
           if (Array.isArray(parsed)) {
             for (const message of parsed) {
@@ -123,6 +121,7 @@ export class MediaService {
                 for (const part of contentParts) {
                   if (part["type"] === "file") {
                     let base64Content: string | null = null;
+                    let contentKey = "data";
                     const mediaType = part["mediaType"];
                     // FilePart
                     if (
@@ -138,26 +137,33 @@ export class MediaService {
                       !part["image"].startsWith("http") // skip URLs
                     ) {
                       base64Content = part["image"];
+                      contentKey = "image";
                     }
 
                     if (!base64Content || typeof mediaType !== "string") {
                       continue;
                     }
 
-                    mediaReplacedValue = await this.replaceBytesMedia({
+                    const langfuseMediaTag = await this.uploadBytesMedia({
                       span,
-                      mediaReplacedValue,
                       base64Content,
                       contentType: mediaType,
                       field: "input",
                     });
+
+                    if (langfuseMediaTag) {
+                      part[contentKey] = langfuseMediaTag;
+                      isMediaReplaced = true;
+                    }
                   }
                 }
               }
             }
           }
 
-          span.attributes[mediaAttribute] = mediaReplacedValue;
+          if (isMediaReplaced) {
+            span.attributes[mediaAttribute] = JSON.stringify(parsed);
+          }
         } catch (err) {
           this.logger.warn(
             `Failed to handle media for AI SDK attribute ${mediaAttribute} for span ${span.spanContext().spanId}`,
@@ -180,10 +186,9 @@ export class MediaService {
           continue;
         }
 
-        let mediaReplacedValue = value;
-
         try {
           const parsed = JSON.parse(value);
+          let isMediaReplaced = false;
 
           if (Array.isArray(parsed)) {
             for (const message of parsed) {
@@ -211,19 +216,24 @@ export class MediaService {
                   continue;
                 }
 
-                mediaReplacedValue = await this.replaceBytesMedia({
+                const langfuseMediaTag = await this.uploadBytesMedia({
                   span,
-                  mediaReplacedValue,
                   base64Content: normalizedContent.base64Content,
-                  contentToReplace: content,
                   contentType: mediaType,
                   field,
                 });
+
+                if (langfuseMediaTag) {
+                  part["content"] = langfuseMediaTag;
+                  isMediaReplaced = true;
+                }
               }
             }
           }
 
-          span.attributes[attribute] = mediaReplacedValue;
+          if (isMediaReplaced) {
+            span.attributes[attribute] = JSON.stringify(parsed);
+          }
         } catch (err) {
           this.logger.warn(
             `Failed to handle media for AI SDK v7 attribute ${attribute} for span ${span.spanContext().spanId}`,
@@ -234,14 +244,13 @@ export class MediaService {
     }
   }
 
-  private async replaceBytesMedia(params: {
+  /** Schedules the upload and returns the media tag, or null if there is none. */
+  private async uploadBytesMedia(params: {
     span: ReadableSpan;
-    mediaReplacedValue: string;
     base64Content: string;
-    contentToReplace?: string;
     contentType: string;
     field: string;
-  }): Promise<string> {
+  }): Promise<string | null> {
     const media = new LangfuseMedia({
       contentType: params.contentType as MediaContentType,
       contentBytes: base64ToBytes(params.base64Content),
@@ -255,7 +264,7 @@ export class MediaService {
         "Failed to create Langfuse media tag. Skipping media item.",
       );
 
-      return params.mediaReplacedValue;
+      return null;
     }
 
     this.scheduleUpload({
@@ -264,10 +273,7 @@ export class MediaService {
       field: params.field,
     });
 
-    return params.mediaReplacedValue.replaceAll(
-      params.contentToReplace ?? params.base64Content,
-      langfuseMediaTag,
-    );
+    return langfuseMediaTag;
   }
 
   private scheduleUpload(params: {
-- 
2.43.0


From b79c330892de51dad336890341f7c6cf1e82d47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:51 +0000
Subject: [PATCH 12/39] fix: observe no longer throws for event observations
 and errors without string form

---
 packages/tracing/src/index.ts | 40 +++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index ac99d0e..212d9b0 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1481,7 +1481,9 @@ export function observe<T extends (...args: any[]) => any>(
         return result.then(
           (value) => {
             if (captureOutput) {
-              observation.update({ output: _captureOutput(value) });
+              observation.updateOtelSpanAttributes({
+                output: _captureOutput(value),
+              });
             }
 
             if (options?.endOnExit !== false) {
@@ -1491,12 +1493,15 @@ export function observe<T extends (...args: any[]) => any>(
             return value;
           },
           (error: unknown) => {
-            observation.update({
+            observation.updateOtelSpanAttributes({
               level: "ERROR",
               statusMessage:
-                (error instanceof Error ? error.message : String(error)) ||
-                "Function threw an error",
-              output: captureOutput ? { error: String(error) } : undefined,
+                (error instanceof Error
+                  ? error.message
+                  : _stringifyError(error)) || "Function threw an error",
+              output: captureOutput
+                ? { error: _stringifyError(error) }
+                : undefined,
             });
 
             if (options?.endOnExit !== false) {
@@ -1509,7 +1514,9 @@ export function observe<T extends (...args: any[]) => any>(
       } else {
         // Handle sync functions
         if (captureOutput) {
-          observation.update({ output: _captureOutput(result) });
+          observation.updateOtelSpanAttributes({
+            output: _captureOutput(result),
+          });
         }
 
         if (options?.endOnExit !== false) {
@@ -1519,12 +1526,12 @@ export function observe<T extends (...args: any[]) => any>(
         return result as ReturnType<T>;
       }
     } catch (error: unknown) {
-      observation.update({
+      observation.updateOtelSpanAttributes({
         level: "ERROR",
         statusMessage:
-          (error instanceof Error ? error.message : String(error)) ||
+          (error instanceof Error ? error.message : _stringifyError(error)) ||
           "Function threw an error",
-        output: captureOutput ? { error: String(error) } : undefined,
+        output: captureOutput ? { error: _stringifyError(error) } : undefined,
       });
 
       if (options?.endOnExit !== false) {
@@ -1576,6 +1583,21 @@ function _captureOutput(value: unknown): unknown {
   }
 }
 
+/**
+ * Safely converts a thrown value to a string.
+ *
+ * @param error - The thrown value
+ * @returns String representation of the thrown value
+ * @internal
+ */
+function _stringifyError(error: unknown): string {
+  try {
+    return String(error);
+  } catch {
+    return "<failed to serialize error>";
+  }
+}
+
 /**
  * Creates a trace ID for OpenTelemetry spans.
  *
-- 
2.43.0


From fe5de34bece7203e9f5187aed90de42031389e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:51 +0000
Subject: [PATCH 13/39] fix: observe records falsy arguments as input

---
 packages/tracing/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index 212d9b0..78cdde0 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1457,7 +1457,7 @@ export function observe<T extends (...args: any[]) => any>(
     // Create the appropriate observation type
     const observation = startObservation(
       name,
-      inputData ? { input: inputData } : {},
+      inputData !== undefined ? { input: inputData } : {},
       {
         asType: asType as "span", // typecast necessary as ts cannot narrow down type
         parentSpanContext,
-- 
2.43.0


From 8950dbcd7bb0281f1b1a52c0536ef99f580ca026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:51 +0000
Subject: [PATCH 14/39] fix: empty string metadata values are recorded

---
 packages/tracing/src/attributes.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/tracing/src/attributes.ts b/packages/tracing/src/attributes.ts
index 66a00b9..0be72d1 100644
--- a/packages/tracing/src/attributes.ts
+++ b/packages/tracing/src/attributes.ts
@@ -133,13 +133,13 @@ function _flattenAndSerializeMetadata(
 
   if (typeof metadata !== "object" || Array.isArray(metadata)) {
     const serialized = _serialize(metadata);
-    if (serialized) {
+    if (serialized !== undefined) {
       metadataAttributes[prefix] = serialized;
     }
   } else {
     for (const [key, value] of Object.entries(metadata)) {
       const serialized = typeof value === "string" ? value : _serialize(value);
-      if (serialized) {
+      if (serialized !== undefined) {
         metadataAttributes[`${prefix}.${key}`] = serialized;
       }
     }
-- 
2.43.0


From 68d533e7d1d84fa3a015f002353b168885ce37fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:30 +0000
Subject: [PATCH 15/39] fix: reading a property of the wrapped OpenAI client
 evaluates it once, on the client itself

---
 packages/openai/src/observeOpenAI.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openai/src/observeOpenAI.ts b/packages/openai/src/observeOpenAI.ts
index f786450..469305d 100644
--- a/packages/openai/src/observeOpenAI.ts
+++ b/packages/openai/src/observeOpenAI.ts
@@ -94,7 +94,7 @@ export const observeOpenAI = <SDKType extends object>(
   langfuseConfig?: LangfuseConfig,
 ): SDKType => {
   return new Proxy(sdk, {
-    get(wrappedSdk, propKey, proxy) {
+    get(wrappedSdk, propKey) {
       const originalProperty = wrappedSdk[propKey as keyof SDKType];
 
       const defaultGenerationName = `${sdk.constructor?.name}.${propKey.toString()}`;
@@ -119,7 +119,7 @@ export const observeOpenAI = <SDKType extends object>(
       }
 
       // Fallback to returning the original value
-      return Reflect.get(wrappedSdk, propKey, proxy);
+      return originalProperty;
     },
   });
 };
-- 
2.43.0


From 9d3f42bc3c65f40b4f78e1db22a2c133579b2c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:56 +0000
Subject: [PATCH 16/39] fix: streamed OpenAI tool calls are recorded separately
 and choices are not mixed

---
 packages/openai/src/parseOpenAI.ts | 32 +++++++++++++++---------------
 packages/openai/src/traceMethod.ts |  2 +-
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index c60aac3..b5801f1 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -203,23 +203,28 @@ export const parseChunk = (
   | { isToolCall: false; data: string }
   | {
       isToolCall: true;
-      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall;
+      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall[];
     } => {
   let isToolCall = false;
   const _chunk = rawChunk as
     | OpenAI.ChatCompletionChunk
     | OpenAI.Completions.Completion;
-  const chunkData = _chunk?.choices?.[0];
 
   try {
+    // Only the first choice is recorded
+    const chunkData = (
+      _chunk.choices as (typeof _chunk.choices)[number][]
+    ).find((choice) => (choice.index ?? 0) === 0)!;
+
     if (
       "delta" in chunkData &&
       "tool_calls" in chunkData.delta &&
-      Array.isArray(chunkData.delta.tool_calls)
+      Array.isArray(chunkData.delta.tool_calls) &&
+      chunkData.delta.tool_calls.length > 0
     ) {
       isToolCall = true;
 
-      return { isToolCall, data: chunkData.delta.tool_calls[0] };
+      return { isToolCall, data: chunkData.delta.tool_calls };
     }
     if ("delta" in chunkData) {
       return { isToolCall, data: chunkData.delta?.content || "" };
@@ -262,23 +267,18 @@ export const getToolCallOutput = (
     };
   }[];
 } => {
-  let name = "";
-  let toolArguments = "";
+  const calls = new Map<number, { name: string; arguments: string }>();
 
   for (const toolCall of toolCallChunks) {
-    name = toolCall.function?.name || name;
-    toolArguments += toolCall.function?.arguments || "";
+    const call = calls.get(toolCall.index ?? 0) ?? { name: "", arguments: "" };
+
+    call.name = toolCall.function?.name || call.name;
+    call.arguments += toolCall.function?.arguments || "";
+    calls.set(toolCall.index ?? 0, call);
   }
 
   return {
-    tool_calls: [
-      {
-        function: {
-          name,
-          arguments: toolArguments,
-        },
-      },
-    ],
+    tool_calls: Array.from(calls.values(), (call) => ({ function: call })),
   };
 };
 
diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index bafe35c..b6c6296 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -236,7 +236,7 @@ function wrapAsyncIterable<R>(
       if (!processedChunk.isToolCall) {
         textChunks.push(processedChunk.data);
       } else {
-        toolCallChunks.push(processedChunk.data);
+        toolCallChunks.push(...processedChunk.data);
       }
 
       yield rawChunk;
-- 
2.43.0


From 7764776b0dafcf4eb5c1a3cda1b260ffd8c215c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:15 +0000
Subject: [PATCH 17/39] fix: unusual OpenAI responses no longer make traced
 calls fail

---
 packages/openai/src/parseOpenAI.ts |   4 +
 packages/openai/src/traceMethod.ts | 166 ++++++++++++++++++-----------
 2 files changed, 106 insertions(+), 64 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index b5801f1..4de3e09 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -94,6 +94,10 @@ export const parseCompletionOutput = (res: unknown): unknown => {
     return "";
   }
 
+  if (!(res.choices[0] instanceof Object)) {
+    return "";
+  }
+
   return "message" in res.choices[0]
     ? res.choices[0].message
     : (res.choices[0].text ?? "");
diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index b6c6296..62ba24a 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -1,3 +1,4 @@
+import { getGlobalLogger } from "@langfuse/core";
 import {
   LangfuseGeneration,
   startObservation,
@@ -105,64 +106,68 @@ const wrapMethod = <T extends GenericMethod>(
         }
 
         if (res instanceof Promise) {
-          const wrappedPromise = res
-            .then((result) => {
+          const wrappedPromise = res.then(
+            (result) => {
               if (isAsyncIterable(result)) {
                 return wrapAsyncIterable(result, generation);
               }
 
-              const output = parseCompletionOutput(result);
-              const usageDetails = parseUsageDetailsFromResponse(result);
-              const {
-                model: modelFromResponse,
-                modelParameters: modelParametersFromResponse,
-                metadata: metadataFromResponse,
-              } = parseModelDataFromResponse(result);
+              safely(() => {
+                const output = parseCompletionOutput(result);
+                const usageDetails = parseUsageDetailsFromResponse(result);
+                const {
+                  model: modelFromResponse,
+                  modelParameters: modelParametersFromResponse,
+                  metadata: metadataFromResponse,
+                } = parseModelDataFromResponse(result);
 
-              generation
-                .update({
+                generation.update({
                   output,
                   usageDetails,
                   model: modelFromResponse,
                   modelParameters: modelParametersFromResponse,
                   metadata: metadataFromResponse,
-                })
-                .end();
+                });
+              });
+              generation.end();
 
               return result;
-            })
-            .catch((err) => {
-              generation
-                .update({
-                  statusMessage: String(err),
+            },
+            (err) => {
+              safely(() =>
+                generation.update({
+                  statusMessage: errorMessage(err),
                   level: "ERROR",
                   costDetails: {
                     input: 0,
                     output: 0,
                     total: 0,
                   },
-                })
-                .end();
+                }),
+              );
+              generation.end();
 
               throw err;
-            });
+            },
+          );
 
           return wrappedPromise;
         }
 
         return res;
       } catch (error) {
-        generation
-          .update({
-            statusMessage: String(error),
+        safely(() =>
+          generation.update({
+            statusMessage: errorMessage(error),
             level: "ERROR",
             costDetails: {
               input: 0,
               output: 0,
               total: 0,
             },
-          })
-          .end();
+          }),
+        );
+        generation.end();
 
         throw error;
       }
@@ -170,6 +175,32 @@ const wrapMethod = <T extends GenericMethod>(
   );
 };
 
+/**
+ * Runs instrumentation code whose problems must never reach the caller.
+ *
+ * @internal
+ */
+function safely(record: () => void): void {
+  try {
+    record();
+  } catch (error) {
+    getGlobalLogger().error("Failed to record OpenAI call", error);
+  }
+}
+
+/**
+ * String form of a thrown value, also for values that have none.
+ *
+ * @internal
+ */
+function errorMessage(error: unknown): string {
+  try {
+    return String(error);
+  } catch {
+    return "Unknown error";
+  }
+}
+
 /**
  * Wraps an async iterable (streaming response) with Langfuse tracing.
  *
@@ -204,58 +235,65 @@ function wrapAsyncIterable<R>(
     for await (const rawChunk of response as AsyncIterable<unknown>) {
       completionStartTime = completionStartTime ?? new Date();
 
-      // Handle Response API chunks
-      if (typeof rawChunk === "object" && rawChunk && "response" in rawChunk) {
-        const result = rawChunk["response"];
-        output = parseCompletionOutput(result);
-        usageDetails = parseUsageDetailsFromResponse(result);
+      safely(() => {
+        // Handle Response API chunks
+        if (
+          typeof rawChunk === "object" &&
+          rawChunk &&
+          "response" in rawChunk
+        ) {
+          const result = rawChunk["response"];
+          output = parseCompletionOutput(result);
+          usageDetails = parseUsageDetailsFromResponse(result);
 
-        const {
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        } = parseModelDataFromResponse(result);
+          const {
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          } = parseModelDataFromResponse(result);
 
-        generation.update({
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        });
-      }
+          generation.update({
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          });
+        }
 
-      if (
-        typeof rawChunk === "object" &&
-        rawChunk != null &&
-        "usage" in rawChunk
-      ) {
-        usage = rawChunk.usage as OpenAI.CompletionUsage | null;
-      }
+        if (
+          typeof rawChunk === "object" &&
+          rawChunk != null &&
+          "usage" in rawChunk
+        ) {
+          usage = rawChunk.usage as OpenAI.CompletionUsage | null;
+        }
 
-      const processedChunk = parseChunk(rawChunk);
+        const processedChunk = parseChunk(rawChunk);
 
-      if (!processedChunk.isToolCall) {
-        textChunks.push(processedChunk.data);
-      } else {
-        toolCallChunks.push(...processedChunk.data);
-      }
+        if (!processedChunk.isToolCall) {
+          textChunks.push(processedChunk.data);
+        } else {
+          toolCallChunks.push(...processedChunk.data);
+        }
+      });
 
       yield rawChunk;
     }
 
-    output =
-      output ??
-      (toolCallChunks.length > 0
-        ? getToolCallOutput(toolCallChunks)
-        : textChunks.join(""));
+    safely(() => {
+      output =
+        output ??
+        (toolCallChunks.length > 0
+          ? getToolCallOutput(toolCallChunks)
+          : textChunks.join(""));
 
-    generation
-      .update({
+      generation.update({
         output,
         completionStartTime,
         usageDetails:
           usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
-      })
-      .end();
+      });
+    });
+    generation.end();
   }
 
   return tracedOutputGenerator() as R;
-- 
2.43.0


From 6d0856fbf6c29d8fa33553d3837d9ff78442eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:17 +0000
Subject: [PATCH 18/39] fix: failed or abandoned OpenAI streams end their
 generation

---
 packages/openai/src/traceMethod.ts | 115 ++++++++++++++++-------------
 1 file changed, 63 insertions(+), 52 deletions(-)

diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index 62ba24a..79dfe8c 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -232,68 +232,79 @@ function wrapAsyncIterable<R>(
     let usageDetails: Record<string, number> | undefined = undefined;
     let output: unknown = null;
 
-    for await (const rawChunk of response as AsyncIterable<unknown>) {
-      completionStartTime = completionStartTime ?? new Date();
+    try {
+      for await (const rawChunk of response as AsyncIterable<unknown>) {
+        completionStartTime = completionStartTime ?? new Date();
 
-      safely(() => {
-        // Handle Response API chunks
-        if (
-          typeof rawChunk === "object" &&
-          rawChunk &&
-          "response" in rawChunk
-        ) {
-          const result = rawChunk["response"];
-          output = parseCompletionOutput(result);
-          usageDetails = parseUsageDetailsFromResponse(result);
+        safely(() => {
+          // Handle Response API chunks
+          if (
+            typeof rawChunk === "object" &&
+            rawChunk &&
+            "response" in rawChunk
+          ) {
+            const result = rawChunk["response"];
+            output = parseCompletionOutput(result);
+            usageDetails = parseUsageDetailsFromResponse(result);
 
-          const {
-            model: modelFromResponse,
-            modelParameters: modelParametersFromResponse,
-            metadata: metadataFromResponse,
-          } = parseModelDataFromResponse(result);
+            const {
+              model: modelFromResponse,
+              modelParameters: modelParametersFromResponse,
+              metadata: metadataFromResponse,
+            } = parseModelDataFromResponse(result);
 
-          generation.update({
-            model: modelFromResponse,
-            modelParameters: modelParametersFromResponse,
-            metadata: metadataFromResponse,
-          });
-        }
+            generation.update({
+              model: modelFromResponse,
+              modelParameters: modelParametersFromResponse,
+              metadata: metadataFromResponse,
+            });
+          }
 
-        if (
-          typeof rawChunk === "object" &&
-          rawChunk != null &&
-          "usage" in rawChunk
-        ) {
-          usage = rawChunk.usage as OpenAI.CompletionUsage | null;
-        }
+          if (
+            typeof rawChunk === "object" &&
+            rawChunk != null &&
+            "usage" in rawChunk
+          ) {
+            usage = rawChunk.usage as OpenAI.CompletionUsage | null;
+          }
 
-        const processedChunk = parseChunk(rawChunk);
+          const processedChunk = parseChunk(rawChunk);
 
-        if (!processedChunk.isToolCall) {
-          textChunks.push(processedChunk.data);
-        } else {
-          toolCallChunks.push(...processedChunk.data);
-        }
-      });
+          if (!processedChunk.isToolCall) {
+            textChunks.push(processedChunk.data);
+          } else {
+            toolCallChunks.push(...processedChunk.data);
+          }
+        });
 
-      yield rawChunk;
-    }
+        yield rawChunk;
+      }
+    } catch (error) {
+      safely(() =>
+        generation.update({
+          statusMessage: errorMessage(error),
+          level: "ERROR",
+        }),
+      );
 
-    safely(() => {
-      output =
-        output ??
-        (toolCallChunks.length > 0
-          ? getToolCallOutput(toolCallChunks)
-          : textChunks.join(""));
+      throw error;
+    } finally {
+      safely(() => {
+        output =
+          output ??
+          (toolCallChunks.length > 0
+            ? getToolCallOutput(toolCallChunks)
+            : textChunks.join(""));
 
-      generation.update({
-        output,
-        completionStartTime,
-        usageDetails:
-          usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
+        generation.update({
+          output,
+          completionStartTime,
+          usageDetails:
+            usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
+        });
       });
-    });
-    generation.end();
+      generation.end();
+    }
   }
 
   return tracedOutputGenerator() as R;
-- 
2.43.0


From dce574f9fd1c68e8e727cb2f353748744c331e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:51 +0000
Subject: [PATCH 19/39] fix: results of wrapped OpenAI calls keep the members
 of the originals

---
 packages/openai/src/traceMethod.ts | 46 +++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index 79dfe8c..a7423bf 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -101,14 +101,15 @@ const wrapMethod = <T extends GenericMethod>(
         const res = tracedMethod(...args);
 
         // Handle stream responses
-        if (isAsyncIterable(res)) {
+        if (isAsyncIterable(res) && !(res instanceof Promise)) {
           return wrapAsyncIterable(res, generation);
         }
 
         if (res instanceof Promise) {
           const wrappedPromise = res.then(
             (result) => {
-              if (isAsyncIterable(result)) {
+              // The promise of a page is iterable itself: pages are no streams
+              if (isAsyncIterable(result) && !isAsyncIterable(res)) {
                 return wrapAsyncIterable(result, generation);
               }
 
@@ -151,7 +152,17 @@ const wrapMethod = <T extends GenericMethod>(
             },
           );
 
-          return wrappedPromise;
+          if (res.constructor === Promise) {
+            return wrappedPromise;
+          }
+
+          wrappedPromise.catch(() => {}); // the original may be used instead
+
+          return withMembersOf(
+            wrappedPromise,
+            ["then", "catch", "finally"],
+            res,
+          );
         }
 
         return res;
@@ -188,6 +199,29 @@ function safely(record: () => void): void {
   }
 }
 
+/**
+ * Presents an object of the OpenAI SDK with some members replaced by those of
+ * its traced counterpart, so that its other members stay available.
+ *
+ * @internal
+ */
+function withMembersOf<T extends object>(
+  traced: object,
+  members: PropertyKey[],
+  original: T,
+): T {
+  return new Proxy(original, {
+    get(target, key) {
+      const owner = members.includes(key) ? traced : target;
+      const value = Reflect.get(owner, key);
+
+      return typeof value === "function" && key !== "constructor"
+        ? value.bind(owner)
+        : value;
+    },
+  });
+}
+
 /**
  * String form of a thrown value, also for values that have none.
  *
@@ -307,5 +341,9 @@ function wrapAsyncIterable<R>(
     }
   }
 
-  return tracedOutputGenerator() as R;
+  return withMembersOf(
+    tracedOutputGenerator(),
+    [Symbol.asyncIterator, "next", "return", "throw"],
+    iterable,
+  ) as R;
 }
-- 
2.43.0


From 4f2853e85965d00e45d3735604bbb1079b38f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:14 +0000
Subject: [PATCH 20/39] fix: LangChain model runs without invocation parameters
 are recorded and never reject unhandled

---
 packages/langchain/src/CallbackHandler.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 6c0ffa1..1109bfb 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -316,8 +316,8 @@ export class CallbackHandler extends BaseCallbackHandler {
     let extractedModelName: string | undefined;
     if (extraParams) {
       const invocationParamsModelName = (
-        extraParams.invocation_params as InvocationParams
-      ).model;
+        extraParams.invocation_params as InvocationParams | undefined
+      )?.model;
       const metadataModelName =
         metadata && "ls_model_name" in metadata
           ? (metadata["ls_model_name"] as string)
@@ -375,7 +375,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         message.map((m) => this.extractChatMessageContent(m)),
       );
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
@@ -444,7 +444,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM start with ID: ${runId}`);
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
-- 
2.43.0


From ba102eb13787e1e3f0e1232fb969153487502cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:37 +0000
Subject: [PATCH 21/39] fix: LangChain agent actions no longer replace the
 observation of their agent run

---
 packages/langchain/src/CallbackHandler.ts | 28 ++++++++++++++++++-----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 1109bfb..1f18a2b 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -218,9 +218,11 @@ export class CallbackHandler extends BaseCallbackHandler {
   ): Promise<void> {
     try {
       this.logger.debug(`Agent action ${action.tool} with ID: ${runId}`);
+      // The run ID is the one of the agent's chain run, which goes on
+      this.endAgentAction(runId);
       this.startAndRegisterOtelSpan({
-        runId,
-        parentRunId,
+        runId: this.agentActionId(runId),
+        parentRunId: this.runMap.has(runId) ? runId : parentRunId,
         runName: action.tool,
         attributes: {
           input: action,
@@ -240,10 +242,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`Agent finish with ID: ${runId}`);
 
-      this.handleOtelSpanEnd({
-        runId,
-        attributes: { output: action },
-      });
+      this.endAgentAction(runId, { output: action });
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -844,11 +843,28 @@ export class CallbackHandler extends BaseCallbackHandler {
       return;
     }
 
+    this.endAgentAction(runId);
     span.update(attributes).end();
 
     this.last_trace_id = span.traceId;
     this.runMap.delete(runId);
   }
+
+  private agentActionId(runId: string): string {
+    return `${runId}:agent-action`;
+  }
+
+  private endAgentAction(
+    runId: string,
+    attributes: LangfuseSpanAttributes = {},
+  ): void {
+    const actionId = this.agentActionId(runId);
+
+    if (this.runMap.has(actionId)) {
+      this.handleOtelSpanEnd({ runId: actionId, attributes });
+    }
+  }
+
   private parseAzureRefusalError(err: any): string {
     // Azure has the refusal status for harmful messages in the error property
     // This would not be logged as the error message is only a generic message
-- 
2.43.0


From 5e7c190ca931dfd31ed443549555b7ab3491ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:55 +0000
Subject: [PATCH 22/39] fix: LangChain runs with unusual payloads are recorded
 and ended

---
 packages/langchain/src/CallbackHandler.ts | 53 +++++++++++++++--------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 1f18a2b..86e3d7c 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -112,7 +112,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`Chain start with Id: ${runId}`);
 
-      const runName = name ?? chain.id.at(-1)?.toString() ?? "Langchain Run";
+      const runName = name ?? chain?.id?.at(-1)?.toString() ?? "Langchain Run";
 
       this.registerLangfusePrompt(parentRunId, metadata);
 
@@ -120,6 +120,7 @@ export class CallbackHandler extends BaseCallbackHandler {
       let finalInput: string | ChainValues = inputs;
       if (
         typeof inputs === "object" &&
+        inputs !== null &&
         "input" in inputs &&
         Array.isArray(inputs["input"]) &&
         inputs["input"].every((m: unknown) => m instanceof BaseMessage)
@@ -129,6 +130,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         );
       } else if (
         typeof inputs === "object" &&
+        inputs !== null &&
         "messages" in inputs &&
         Array.isArray(inputs["messages"]) &&
         inputs["messages"].every((m: unknown) => m instanceof BaseMessage)
@@ -138,6 +140,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         );
       } else if (
         typeof inputs === "object" &&
+        inputs !== null &&
         "content" in inputs &&
         typeof inputs["content"] === "string" &&
         Object.keys(inputs).length === 1
@@ -255,7 +258,9 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Chain error: ${err} with ID: ${runId}`);
+      this.logger.debug(
+        `Chain error: ${this.errorMessage(err)} with ID: ${runId}`,
+      );
 
       const azureRefusalError = this.parseAzureRefusalError(err);
 
@@ -263,7 +268,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: this.errorMessage(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -285,7 +290,8 @@ export class CallbackHandler extends BaseCallbackHandler {
       `Generation start with ID: ${runId} and parentRunId ${parentRunId}`,
     );
 
-    const runName = name ?? llm.id.at(-1)?.toString() ?? "Langchain Generation";
+    const runName =
+      name ?? llm?.id?.at(-1)?.toString() ?? "Langchain Generation";
 
     const modelParameters: Record<string, any> = {};
     const invocationParams = extraParams?.["invocation_params"];
@@ -401,12 +407,14 @@ export class CallbackHandler extends BaseCallbackHandler {
       let finalOutput: ChainValues | string = outputs;
       if (
         typeof outputs === "object" &&
+        outputs !== null &&
         "output" in outputs &&
         typeof outputs["output"] === "string"
       ) {
         finalOutput = outputs["output"];
       } else if (
         typeof outputs === "object" &&
+        outputs !== null &&
         "messages" in outputs &&
         Array.isArray(outputs["messages"]) &&
         outputs["messages"].every((m: unknown) => m instanceof BaseMessage)
@@ -474,7 +482,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         type: "tool",
         runId,
         parentRunId,
-        runName: name ?? tool.id.at(-1)?.toString() ?? "Tool execution",
+        runName: name ?? tool?.id?.at(-1)?.toString() ?? "Tool execution",
         attributes: {
           input,
         },
@@ -501,7 +509,7 @@ export class CallbackHandler extends BaseCallbackHandler {
       this.startAndRegisterOtelSpan({
         runId,
         parentRunId,
-        runName: name ?? retriever.id.at(-1)?.toString() ?? "Retriever",
+        runName: name ?? retriever?.id?.at(-1)?.toString() ?? "Retriever",
         attributes: {
           input: query,
         },
@@ -540,12 +548,14 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Retriever error: ${err} with ID: ${runId}`);
+      this.logger.debug(
+        `Retriever error: ${this.errorMessage(err)} with ID: ${runId}`,
+      );
       this.handleOtelSpanEnd({
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: this.errorMessage(err),
         },
       });
     } catch (e) {
@@ -577,13 +587,15 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Tool error ${err} with ID: ${runId}`);
+      this.logger.debug(
+        `Tool error ${this.errorMessage(err)} with ID: ${runId}`,
+      );
 
       this.handleOtelSpanEnd({
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: this.errorMessage(err),
         },
       });
     } catch (e) {
@@ -600,10 +612,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM end with ID: ${runId}`);
 
-      const lastResponse =
-        output.generations[output.generations.length - 1][
-          output.generations[output.generations.length - 1].length - 1
-        ];
+      const lastResponse = output.generations?.at(-1)?.at(-1) ?? { text: "" };
       const llmUsage =
         this.extractUsageMetadata(lastResponse) ??
         output.llmOutput?.["tokenUsage"] ??
@@ -684,7 +693,9 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`LLM error ${err} with ID: ${runId}`);
+      this.logger.debug(
+        `LLM error ${this.errorMessage(err)} with ID: ${runId}`,
+      );
 
       // Azure has the refusal status for harmful messages in the error property
       // This would not be logged as the error message is only a generic message
@@ -695,7 +706,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: this.errorMessage(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -865,12 +876,20 @@ export class CallbackHandler extends BaseCallbackHandler {
     }
   }
 
+  private errorMessage(err: unknown): string {
+    try {
+      return String(err);
+    } catch {
+      return "Unknown error";
+    }
+  }
+
   private parseAzureRefusalError(err: any): string {
     // Azure has the refusal status for harmful messages in the error property
     // This would not be logged as the error message is only a generic message
     // that there has been a refusal
     let azureRefusalError = "";
-    if (typeof err == "object" && "error" in err) {
+    if (typeof err == "object" && err !== null && "error" in err) {
       try {
         azureRefusalError =
           "\n\nError details:\n" + JSON.stringify(err["error"], null, 2);
-- 
2.43.0


From 7336835b750d89647a8a46cfa37d288cd697ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:47 +0000
Subject: [PATCH 23/39] fix: error responses with an invalid JSON body keep
 their status

---
 .../api/core/fetcher/getErrorResponseBody.ts   | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
index 1df82fe..3384429 100644
--- a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
+++ b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
@@ -1,6 +1,18 @@
 import { fromJson } from "../json.js";
 import { getResponseBody } from "./getResponseBody.js";
 
+// An error response with an invalid JSON body must keep its status code
+function parseJsonOrText(text: string): unknown {
+  if (text.length === 0) {
+    return undefined;
+  }
+  try {
+    return fromJson(text);
+  } catch {
+    return text;
+  }
+}
+
 export async function getErrorResponseBody(
   response: Response,
 ): Promise<unknown> {
@@ -19,15 +31,13 @@ export async function getErrorResponseBody(
     case "application/problem+json":
     case "application/vnd.api+json":
     case "text/json":
-      const text = await response.text();
-      return text.length > 0 ? fromJson(text) : undefined;
+      return parseJsonOrText(await response.text());
     default:
       if (
         contentType.startsWith("application/vnd.") &&
         contentType.endsWith("+json")
       ) {
-        const text = await response.text();
-        return text.length > 0 ? fromJson(text) : undefined;
+        return parseJsonOrText(await response.text());
       }
 
       // Fallback to plain text if content type is not recognized
-- 
2.43.0


From 577ff9353837112b847676d78be29c4d573e87a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:47 +0000
Subject: [PATCH 24/39] fix: API request timeouts are reported as timeout
 errors

---
 packages/core/src/api/core/fetcher/signals.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/api/core/fetcher/signals.ts b/packages/core/src/api/core/fetcher/signals.ts
index 0cd3298..7fa1818 100644
--- a/packages/core/src/api/core/fetcher/signals.ts
+++ b/packages/core/src/api/core/fetcher/signals.ts
@@ -5,7 +5,10 @@ export function getTimeoutSignal(timeoutMs: number): {
   abortId: NodeJS.Timeout;
 } {
   const controller = new AbortController();
-  const abortId = setTimeout(() => controller.abort(TIMEOUT), timeoutMs);
+  const abortId = setTimeout(
+    () => controller.abort(new DOMException(TIMEOUT, "AbortError")),
+    timeoutMs,
+  );
   return { signal: controller.signal, abortId };
 }
 
-- 
2.43.0


From 28ae216c015762bcac11519ba6e120adf1a2f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:47 +0000
Subject: [PATCH 25/39] fix: failed API requests no longer leave their timeout
 timer running

---
 .../core/src/api/core/fetcher/makeRequest.ts  | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/makeRequest.ts b/packages/core/src/api/core/fetcher/makeRequest.ts
index f6859af..159ddc6 100644
--- a/packages/core/src/api/core/fetcher/makeRequest.ts
+++ b/packages/core/src/api/core/fetcher/makeRequest.ts
@@ -26,19 +26,19 @@ export const makeRequest = async (
     signals.push(abortSignal);
   }
   let newSignals = anySignal(signals);
-  const response = await fetchFn(url, {
-    method: method,
-    headers,
-    body: requestBody,
-    signal: newSignals,
-    credentials: withCredentials ? "include" : undefined,
-    // @ts-ignore
-    duplex,
-  });
-
-  if (timeoutAbortId != null) {
-    clearTimeout(timeoutAbortId);
+  try {
+    return await fetchFn(url, {
+      method: method,
+      headers,
+      body: requestBody,
+      signal: newSignals,
+      credentials: withCredentials ? "include" : undefined,
+      // @ts-ignore
+      duplex,
+    });
+  } finally {
+    if (timeoutAbortId != null) {
+      clearTimeout(timeoutAbortId);
+    }
   }
-
-  return response;
 };
-- 
2.43.0


From 94631d5c79fc5c9e24727808207f3307ceecd8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:32 +0000
Subject: [PATCH 26/39] fix: successful API responses whose body is not JSON
 reject instead of resolving with an internal error object

---
 packages/core/src/api/core/fetcher/Fetcher.ts | 14 +++++++++++--
 .../api/core/fetcher/getErrorResponseBody.ts  |  3 +--
 .../src/api/core/fetcher/getResponseBody.ts   | 20 +++++++++++--------
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/Fetcher.ts b/packages/core/src/api/core/fetcher/Fetcher.ts
index a74add3..45efd07 100644
--- a/packages/core/src/api/core/fetcher/Fetcher.ts
+++ b/packages/core/src/api/core/fetcher/Fetcher.ts
@@ -4,7 +4,7 @@ import { createRequestUrl } from "./createRequestUrl.js";
 import { getErrorResponseBody } from "./getErrorResponseBody.js";
 import { getFetchFn } from "./getFetchFn.js";
 import { getRequestBody } from "./getRequestBody.js";
-import { getResponseBody } from "./getResponseBody.js";
+import { getResponseBody, NonJsonResponseError } from "./getResponseBody.js";
 import { makeRequest } from "./makeRequest.js";
 import {
   abortRawResponse,
@@ -143,7 +143,17 @@ export async function fetcherImpl<R = unknown>(
       };
     }
   } catch (error) {
-    if (args.abortSignal != null && args.abortSignal.aborted) {
+    if (error instanceof NonJsonResponseError) {
+      return {
+        ok: false,
+        error: {
+          reason: "non-json",
+          statusCode: error.response.status,
+          rawBody: error.rawBody,
+        },
+        rawResponse: toRawResponse(error.response),
+      };
+    } else if (args.abortSignal != null && args.abortSignal.aborted) {
       return {
         ok: false,
         error: {
diff --git a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
index 3384429..9fd8374 100644
--- a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
+++ b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
@@ -1,5 +1,4 @@
 import { fromJson } from "../json.js";
-import { getResponseBody } from "./getResponseBody.js";
 
 // An error response with an invalid JSON body must keep its status code
 function parseJsonOrText(text: string): unknown {
@@ -18,7 +17,7 @@ export async function getErrorResponseBody(
 ): Promise<unknown> {
   let contentType = response.headers.get("Content-Type")?.toLowerCase();
   if (contentType == null || contentType.length === 0) {
-    return getResponseBody(response);
+    return parseJsonOrText(await response.text());
   }
 
   if (contentType.indexOf(";") !== -1) {
diff --git a/packages/core/src/api/core/fetcher/getResponseBody.ts b/packages/core/src/api/core/fetcher/getResponseBody.ts
index 2a06812..6a70def 100644
--- a/packages/core/src/api/core/fetcher/getResponseBody.ts
+++ b/packages/core/src/api/core/fetcher/getResponseBody.ts
@@ -2,6 +2,17 @@ import { getBinaryResponse } from "./BinaryResponse.js";
 import { isResponseWithBody } from "./ResponseWithBody.js";
 import { fromJson } from "../json.js";
 
+/** A successful response whose body should be JSON but is not. */
+export class NonJsonResponseError extends Error {
+  constructor(
+    readonly response: Response,
+    readonly rawBody: string,
+  ) {
+    super("Response body is not valid JSON");
+    this.name = "NonJsonResponseError";
+  }
+}
+
 export async function getResponseBody(
   response: Response,
   responseType?: string,
@@ -32,14 +43,7 @@ export async function getResponseBody(
       let responseBody = fromJson(text);
       return responseBody;
     } catch (err) {
-      return {
-        ok: false,
-        error: {
-          reason: "non-json",
-          statusCode: response.status,
-          rawBody: text,
-        },
-      };
+      throw new NonJsonResponseError(response, text);
     }
   }
   return undefined;
-- 
2.43.0


From a51863d29a69fcfe9eafe8df67f17e19b73f7886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:03 +0000
Subject: [PATCH 27/39] fix: placeholder messages with non-string content keep
 it in LangChain prompts

---
 packages/client/src/prompt/promptClients.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 1f4adab..a16cf66 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -450,7 +450,11 @@ export class ChatPromptClient extends BasePromptClient {
             ...(placeholderValue as ChatMessage[]).map((msg) => {
               return {
                 role: msg.role,
-                content: this._transformToLangchainVariables(msg.content),
+                // multimodal messages have content that is not a string
+                content:
+                  typeof msg.content === "string"
+                    ? this._transformToLangchainVariables(msg.content)
+                    : msg.content,
               };
             }),
           );
-- 
2.43.0


From c4222e6caa41799d77f35ac323deaf29c3c52b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:52 +0000
Subject: [PATCH 28/39] fix: replace and upload AI SDK file parts given as data
 URIs

---
 packages/otel/src/MediaService.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 6b8d758..2e4eda4 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -144,9 +144,16 @@ export class MediaService {
                       continue;
                     }
 
+                    const normalizedContent =
+                      normalizeBase64Content(base64Content);
+
+                    if (!normalizedContent) {
+                      continue;
+                    }
+
                     const langfuseMediaTag = await this.uploadBytesMedia({
                       span,
-                      base64Content,
+                      base64Content: normalizedContent.base64Content,
                       contentType: mediaType,
                       field: "input",
                     });
-- 
2.43.0


From 68aa6ceadb3e6267384750441047011e59dfc48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:32 +0000
Subject: [PATCH 29/39] fix: dataset links of experiments when the base URL
 contains /traces

---
 packages/client/src/experiment/ExperimentManager.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 5df4b04..03b49d9 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -258,7 +258,7 @@ export class ExperimentManager {
       try {
         const projectUrl = (
           await this.langfuseClient.getTraceUrl("mock")
-        ).split("/traces")[0];
+        ).replace(/\/traces\/mock$/, "");
 
         datasetRunUrl = `${projectUrl}/datasets/${datasetId}/runs/${datasetRunId}`;
       } catch (err) {
@@ -663,7 +663,7 @@ export class ExperimentManager {
         ) {
           const projectUrl = (
             await this.langfuseClient.getTraceUrl("mock")
-          ).split("/traces")[0];
+          ).replace(/\/traces\/mock$/, "");
           const datasetItemUrl = `${projectUrl}/datasets/${originalItem.datasetId}/items/${originalItem.id}`;
           output += `\n   Dataset Item:\n   ${datasetItemUrl}\n`;
         }
-- 
2.43.0


From 56bd55840aa689e71239deae8332f05b84c4922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:37 +0000
Subject: [PATCH 30/39] fix: prompt variables and placeholders named like
 members of Object.prototype

---
 packages/client/src/prompt/promptClients.ts | 32 ++++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index a16cf66..4160766 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -16,6 +16,18 @@ mustache.escape = function (text) {
   return text;
 };
 
+/**
+ * Own entries of the given values only, so that names such as `constructor`
+ * are not looked up on `Object.prototype`.
+ *
+ * @internal
+ */
+function withoutInherited(values?: Record<string, any>): Record<string, any> {
+  const isPlain = !values || Object.getPrototypeOf(values) === Object.prototype;
+
+  return isPlain ? Object.assign(Object.create(null), values) : values;
+}
+
 /**
  * Base class for all prompt clients.
  *
@@ -91,6 +103,18 @@ abstract class BasePromptClient {
     | ChatMessageOrPlaceholder[]
     | (ChatMessage | LangchainMessagesPlaceholder | any)[];
 
+  /**
+   * Substitutes the variables of a template.
+   *
+   * @internal
+   */
+  protected _renderVariables(
+    template: string,
+    variables?: Record<string, string>,
+  ): string {
+    return mustache.render(template, withoutInherited(variables));
+  }
+
   protected _transformToLangchainVariables(content: string): string {
     const jsonEscapedContent = this.escapeJsonForLangchain(content);
 
@@ -222,7 +246,7 @@ export class TextPromptClient extends BasePromptClient {
     variables?: Record<string, string>,
     _placeholders?: Record<string, any>,
   ): string {
-    return mustache.render(this.promptResponse.prompt, variables ?? {});
+    return this._renderVariables(this.promptResponse.prompt, variables);
   }
 
   /**
@@ -336,7 +360,7 @@ export class ChatPromptClient extends BasePromptClient {
   ): (ChatMessageOrPlaceholder | any)[] {
     const messagesWithPlaceholdersReplaced: (ChatMessageOrPlaceholder | any)[] =
       [];
-    const placeholderValues = placeholders ?? {};
+    const placeholderValues = withoutInherited(placeholders);
 
     for (const item of this.prompt) {
       if ("type" in item && item.type === ChatMessageType.Placeholder) {
@@ -393,7 +417,7 @@ export class ChatPromptClient extends BasePromptClient {
       ) {
         return {
           ...item,
-          content: mustache.render(item.content, variables ?? {}),
+          content: this._renderVariables(item.content, variables),
         };
       } else {
         // Return placeholder or stringified value as-is
@@ -429,7 +453,7 @@ export class ChatPromptClient extends BasePromptClient {
       | LangchainMessagesPlaceholder
       | any
     )[] = [];
-    const placeholderValues = options?.placeholders ?? {};
+    const placeholderValues = withoutInherited(options?.placeholders);
 
     for (const item of this.prompt) {
       if ("type" in item && item.type === ChatMessageType.Placeholder) {
-- 
2.43.0


From a05b6360ea391d0520ad5a991d9ac710dcd91ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:05 +0000
Subject: [PATCH 31/39] fix: an experiment inside another experiment's task
 does not inherit its metadata and dataset

---
 packages/core/src/propagation.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/propagation.ts b/packages/core/src/propagation.ts
index 7b42781..cd513fc 100644
--- a/packages/core/src/propagation.ts
+++ b/packages/core/src/propagation.ts
@@ -541,16 +541,21 @@ export function propagateAttributes<
 
   // Handle experiment attributes
   if (_internalExperiment) {
-    for (const [key, value] of Object.entries(_internalExperiment)) {
+    for (const key of experimentKeys) {
+      const value = _internalExperiment[key];
+
       if (value !== undefined) {
         // Experiment attributes are already serialized, no validation needed
         context = setPropagatedAttribute({
-          key: key as ExperimentKey,
+          key,
           value,
           context,
           span,
           asBaggage,
         });
+      } else {
+        // Do not inherit attributes of an enclosing experiment
+        context = context.deleteValue(getContextKeyForPropagatedKey(key));
       }
     }
   }
-- 
2.43.0


From 158ca1aa6d1ed9b5d2009aa9f90bc3a18962732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:23 +0000
Subject: [PATCH 32/39] fix: experiment item results carry the input and
 expected output their type declares

---
 packages/client/src/experiment/ExperimentManager.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 03b49d9..fe667cc 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -525,6 +525,8 @@ export class ExperimentManager {
     }
 
     return {
+      input: item.input,
+      expectedOutput: item.expectedOutput,
       output,
       evaluations: evals,
       traceId,
-- 
2.43.0


From 74b4b44a9a6af9d3619d47e603a43731d5cc3216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:57 +0000
Subject: [PATCH 33/39] fix: a score that cannot be serialized no longer loses
 the other scores of its batch

---
 packages/client/src/score/index.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/client/src/score/index.ts b/packages/client/src/score/index.ts
index b941a9c..f8a7ed5 100644
--- a/packages/client/src/score/index.ts
+++ b/packages/client/src/score/index.ts
@@ -92,6 +92,14 @@ export class ScoreManager {
       return;
     }
 
+    try {
+      JSON.stringify(scoreIngestionEvent);
+    } catch (err) {
+      // It would fail the whole batch of scores it is sent with
+      this.logger.error("Score cannot be serialized. Dropping score.", err);
+      return;
+    }
+
     this.eventQueue.push(scoreIngestionEvent);
     if (this.logger.isLevelEnabled(LogLevel.DEBUG)) {
       this.logger.debug(
-- 
2.43.0


From c771ae6bb25857e6d99360f8148c3a60dba7b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:07 +0000
Subject: [PATCH 34/39] fix: experiments run items whose values or metadata
 cannot be serialized

---
 packages/core/src/utils.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/utils.ts b/packages/core/src/utils.ts
index 4248057..c20011f 100644
--- a/packages/core/src/utils.ts
+++ b/packages/core/src/utils.ts
@@ -128,5 +128,9 @@ export function serializeValue(value: any): string | undefined {
   if (value === undefined || value === null) return undefined;
   if (typeof value === "string") return value;
 
-  return JSON.stringify(value);
+  try {
+    return JSON.stringify(value);
+  } catch {
+    return "<failed to serialize>";
+  }
 }
-- 
2.43.0


From 0bfbbaa84f220e54c347428591d4b3672a2d412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:07 +0000
Subject: [PATCH 35/39] fix: formatting experiment results with values that
 cannot be serialized

---
 packages/client/src/experiment/ExperimentManager.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index fe667cc..0ca8e99 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -763,7 +763,12 @@ export class ExperimentManager {
     if (typeof value === "string") {
       return value.length > 50 ? `${value.substring(0, 47)}...` : value;
     }
-    return JSON.stringify(value);
+
+    try {
+      return JSON.stringify(value);
+    } catch {
+      return "<failed to serialize>";
+    }
   }
 
   private isOtelRegistered(): boolean {
-- 
2.43.0


From 5c158b59c7c3a487735ffe91d265d8fc9472e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:36 +0000
Subject: [PATCH 36/39] fix: langchain runs are recorded when the handler's
 trace metadata cannot be serialized

---
 packages/langchain/src/CallbackHandler.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 86e3d7c..253963f 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -171,7 +171,7 @@ export class CallbackHandler extends BaseCallbackHandler {
           ? Object.fromEntries(
               Object.entries(this.traceMetadata).map(([k, v]) => [
                 k,
-                typeof v === "string" ? v : JSON.stringify(v),
+                typeof v === "string" ? v : this.stringify(v),
               ]),
             )
           : undefined;
@@ -884,6 +884,14 @@ export class CallbackHandler extends BaseCallbackHandler {
     }
   }
 
+  private stringify(value: unknown): string {
+    try {
+      return JSON.stringify(value);
+    } catch {
+      return "<failed to serialize>";
+    }
+  }
+
   private parseAzureRefusalError(err: any): string {
     // Azure has the refusal status for harmful messages in the error property
     // This would not be logged as the error message is only a generic message
-- 
2.43.0


From 4d9b1cc8ed892f276a1710bd8c1c037ebb68b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:50 +0000
Subject: [PATCH 37/39] fix: set the handler's trace attributes when the root
 run is a model, tool or retriever

---
 packages/langchain/src/CallbackHandler.ts | 103 +++++++++-------------
 1 file changed, 41 insertions(+), 62 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 253963f..e48b3fc 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -22,6 +22,7 @@ import {
   LangfuseGenerationAttributes,
   LangfuseSpanAttributes,
   propagateAttributes,
+  type PropagateAttributesParams,
 } from "@langfuse/tracing";
 
 const LANGSMITH_HIDDEN_TAG = "langsmith:hidden";
@@ -148,67 +149,16 @@ export class CallbackHandler extends BaseCallbackHandler {
         finalInput = inputs["content"];
       }
 
-      // If there's no parent run, this is a top-level chain execution
-      // and we need to propagate trace attributes
-      if (!parentRunId) {
-        const traceTags = [...new Set([...(tags ?? []), ...this.tags])];
-
-        const traceUserId =
-          metadata &&
-          "langfuseUserId" in metadata &&
-          typeof metadata["langfuseUserId"] === "string"
-            ? metadata["langfuseUserId"]
-            : this.userId;
-
-        const traceSessionId =
-          metadata &&
-          "langfuseSessionId" in metadata &&
-          typeof metadata["langfuseSessionId"] === "string"
-            ? metadata["langfuseSessionId"]
-            : this.sessionId;
-
-        const traceMetadata = this.traceMetadata
-          ? Object.fromEntries(
-              Object.entries(this.traceMetadata).map(([k, v]) => [
-                k,
-                typeof v === "string" ? v : this.stringify(v),
-              ]),
-            )
-          : undefined;
-
-        propagateAttributes(
-          {
-            tags: traceTags,
-            userId: traceUserId,
-            sessionId: traceSessionId,
-            metadata: traceMetadata,
-            version: this.version,
-          },
-          () => {
-            this.startAndRegisterOtelSpan({
-              runName,
-              parentRunId,
-              runId,
-              tags,
-              metadata,
-              attributes: {
-                input: finalInput,
-              },
-            });
-          },
-        );
-      } else {
-        this.startAndRegisterOtelSpan({
-          runName,
-          parentRunId,
-          runId,
-          tags,
-          metadata,
-          attributes: {
-            input: finalInput,
-          },
-        });
-      }
+      this.startAndRegisterOtelSpan({
+        runName,
+        parentRunId,
+        runId,
+        tags,
+        metadata,
+        attributes: {
+          input: finalInput,
+        },
+      });
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -787,7 +737,7 @@ export class CallbackHandler extends BaseCallbackHandler {
       ? this.runMap.get(parentRunId)?.otelSpan.spanContext()
       : undefined;
 
-    const observation =
+    const start = (): TrackedObservation =>
       type === "generation"
         ? startActiveObservation(
             runName,
@@ -825,11 +775,40 @@ export class CallbackHandler extends BaseCallbackHandler {
                 endOnExit: false,
               },
             );
+
+    // If there's no parent run, this is a top-level execution and we need to
+    // propagate trace attributes
+    const observation = parentRunId
+      ? start()
+      : propagateAttributes(this.getTraceAttributes(tags, metadata), start);
     this.runMap.set(runId, observation);
 
     return observation;
   }
 
+  private getTraceAttributes(
+    tags?: string[],
+    metadata?: Record<string, unknown>,
+  ): PropagateAttributesParams {
+    const userId = metadata?.["langfuseUserId"];
+    const sessionId = metadata?.["langfuseSessionId"];
+
+    return {
+      tags: [...new Set([...(tags ?? []), ...this.tags])],
+      userId: typeof userId === "string" ? userId : this.userId,
+      sessionId: typeof sessionId === "string" ? sessionId : this.sessionId,
+      metadata: this.traceMetadata
+        ? Object.fromEntries(
+            Object.entries(this.traceMetadata).map(([k, v]) => [
+              k,
+              typeof v === "string" ? v : this.stringify(v),
+            ]),
+          )
+        : undefined,
+      version: this.version,
+    };
+  }
+
   private handleOtelSpanEnd(params: {
     runId: string;
     attributes?: LangfuseSpanAttributes;
-- 
2.43.0


From 5c44724053a7e8c3117ad3ceb3193d1d074e77cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:29 +0000
Subject: [PATCH 38/39] fix: upload AI SDK media whose base64 content starts
 with http

---
 packages/otel/src/MediaService.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 2e4eda4..dc4ba13 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -126,7 +126,7 @@ export class MediaService {
                     // FilePart
                     if (
                       typeof part["data"] === "string" &&
-                      !part["data"].startsWith("http") // skip URL strings
+                      !isUrl(part["data"]) // skip URL strings
                     ) {
                       base64Content = part["data"];
                     }
@@ -134,7 +134,7 @@ export class MediaService {
                     //ImagePart
                     if (
                       typeof part["image"] === "string" &&
-                      !part["image"].startsWith("http") // skip URLs
+                      !isUrl(part["image"]) // skip URLs
                     ) {
                       base64Content = part["image"];
                       contentKey = "image";
@@ -212,7 +212,7 @@ export class MediaService {
                   typeof content !== "string" ||
                   !content ||
                   typeof mediaType !== "string" ||
-                  content.startsWith("http")
+                  isUrl(content)
                 ) {
                   continue;
                 }
@@ -332,6 +332,11 @@ export class MediaService {
   }
 }
 
+// base64 content may itself start with "http", but never contains a colon
+function isUrl(content: string): boolean {
+  return /^https?:\/\//i.test(content);
+}
+
 function normalizeBase64Content(
   content: string,
 ): { base64Content: string } | undefined {
-- 
2.43.0


From ad5a2a8f35fd0f95adf0265535711be4612e9ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:29 +0000
Subject: [PATCH 39/39] fix: ignore trailing slashes of the base URL in the
 span export and trace URLs

---
 packages/client/src/LangfuseClient.ts | 2 +-
 packages/otel/src/span-processor.ts   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/LangfuseClient.ts b/packages/client/src/LangfuseClient.ts
index 4f1badf..da6378f 100644
--- a/packages/client/src/LangfuseClient.ts
+++ b/packages/client/src/LangfuseClient.ts
@@ -398,7 +398,7 @@ export class LangfuseClient {
       this.projectId = projectId;
     }
 
-    const traceUrl = `${this.baseUrl}/project/${projectId}/traces/${traceId}`;
+    const traceUrl = `${this.baseUrl.replace(/\/+$/, "")}/project/${projectId}/traces/${traceId}`;
 
     return traceUrl;
   }
diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index 71e93a9..1eb4d2f 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -278,7 +278,7 @@ export class LangfuseSpanProcessor implements SpanProcessor {
     const exporter =
       params?.exporter ??
       new OTLPTraceExporter({
-        url: `${baseUrl}/api/public/otel/v1/traces`,
+        url: `${baseUrl.replace(/\/+$/, "")}/api/public/otel/v1/traces`,
         headers: {
           Authorization: `Basic ${authHeaderValue}`,
           "x-langfuse-sdk-name": "javascript",
-- 
2.43.0

