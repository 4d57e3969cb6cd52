const em="packages/client/src/experiment/ExperimentManager.ts", ds="packages/client/src/dataset/index.ts", pm="packages/client/src/prompt/promptManager.ts", pcache="packages/client/src/prompt/promptCache.ts", pc="packages/client/src/prompt/promptClients.ts", sp="packages/otel/src/span-processor.ts", ms="packages/otel/src/MediaService.ts", sc="packages/client/src/score/index.ts", mu="packages/core/src/mediaUpload.ts", md="packages/core/src/media.ts", mm="packages/client/src/media/index.ts", ot="packages/openai/src/traceMethod.ts", op="packages/openai/src/parseOpenAI.ts", lh="packages/langchain/src/CallbackHandler.ts", br="packages/browser/src/index.ts", pr="packages/core/src/propagation.ts", at="packages/tracing/src/attributes.ts", ut="packages/core/src/utils.ts", rr="packages/core/src/api/core/fetcher/requestWithRetries.ts", ti="packages/tracing/src/index.ts";
const tr=`const T = await load("tracing");`;
const cl=`const C = await load("client"); const c = new C.LangfuseClient();`;
const ok=`json({ successes: [], errors: [] }, 207)`;
const st=`const X = await otel(); const api = X.api; const ended = async () => { await X.processor.forceFlush(); return X.exported; };`;
const vu="packages/vercel-ai-sdk/src/utils.ts", sf="packages/otel/src/span-filter.ts";
export default [
{ id:"s02-bounded-wait", property:"S02",
  edits:[{file:sc, old:`      await Promise.all(this.pendingBatches);`, new:`      await Promise.race([
        Promise.all(this.pendingBatches),
        new Promise((resolve) => safeSetTimeout(() => resolve(null), 30_000)),
      ]);`}],
  needs:"a server that takes longer than half a minute to answer",
  breaks:"flush resolves before the scores were handed to the server",
  demo:`const orig = globalThis.setTimeout; globalThis.setTimeout = (f, ms, ...a) => orig(f, ms / 100, ...a);
let answered = false;
mockFetch(async () => { await new Promise((r) => orig(r, 450)); answered = true; return ${ok}; }); ${cl}
c.score.create({ name: "s", value: 1, traceId: "t" });
await c.flush();
eq(answered, true, "answered when flush resolved");` },
{ id:"s03-exact-threshold", property:"S03",
  edits:[{file:sc, old:`    if (this.eventQueue.length >= this.flushAtCount) {`, new:`    if (this.eventQueue.length === this.flushAtCount) {`}],
  needs:"a threshold that is never hit exactly (0 or a fraction)",
  breaks:"the queue is not flushed when it passes its threshold",
  demo:`process.env.LANGFUSE_FLUSH_AT = "2.5"; process.env.LANGFUSE_FLUSH_INTERVAL = "1000";
let sent = 0; mockFetch(async (x) => { sent += x.json.batch.length; return ${ok}; }); ${cl}
for (let i = 0; i < 3; i++) c.score.create({ name: "s" + i, value: 1, traceId: "t" });
await sleep(200);
eq(sent, 3, "scores sent at the threshold");` },
{ id:"e04-first-dataset", property:"E04",
  edits:[{file:em, old:"const datasetItemUrl = `${projectUrl}/datasets/${originalItem.datasetId}/items/${originalItem.id}`;", new:"const datasetItemUrl = `${projectUrl}/datasets/${(itemResults[0].item as any)?.datasetId}/items/${originalItem.id}`;"}],
  needs:"an experiment over items of different datasets",
  breaks:"the report links items to the wrong dataset",
  demo:`mockFetch(async (x) => String(x.url).includes("/projects") ? json({ data: [{ id: "proj" }] }) : String(x.url).includes("run-items") ? json({ id: "x", datasetRunId: "run" }) : ${ok}); ${cl} await otel();
const r = await c.experiment.run({ name: "e", data: [{ id: "i1", datasetId: "d1", input: 1, expectedOutput: 1 }, { id: "i2", datasetId: "d2", input: 2, expectedOutput: 2 }], task: async (i) => i.input });
const text = await r.format({ includeItemResults: true });
assert(text.includes("/datasets/d1/items/i1") && text.includes("/datasets/d2/items/i2"), "dataset item links: " + text);` },
{ id:"v01-plain-prototype", property:"V01",
  edits:[{file:vu, old:`  return typeof value === "object" && value !== null && !Array.isArray(value);`, new:`  return (
    typeof value === "object" &&
    value !== null &&
    Object.getPrototypeOf(value) === Object.prototype
  );`}],
  needs:"a prompt client instance as langfusePrompt",
  breaks:"the generation is not linked to the prompt",
  demo:`const C = await load("client"); const { LangfuseVercelAiSdkIntegration } = await load("vercel-ai-sdk"); await otel();
mockFetch(async () => json({ type: "text", name: "p", version: 3, prompt: "x", labels: [], tags: [], config: {} }));
const p = await new C.LangfuseClient().prompt.get("p");
const i = new LangfuseVercelAiSdkIntegration();
const attrs = i.delegate.enrichSpan({ spanType: "languageModel", runtimeContext: { langfusePrompt: p } });
eq(attrs["langfuse.observation.prompt.name"], "p", "prompt link");` },
{ id:"p05-placeholder-fields", property:"P05",
  edits:[{file:pc, old:`          messagesWithPlaceholdersReplaced.push(
            ...(placeholderValue as ChatMessage[]),
          );`, new:`          messagesWithPlaceholdersReplaced.push(
            ...(placeholderValue as ChatMessage[]).map(({ role, content }) => ({
              role,
              content,
            })),
          );`}],
  needs:"placeholder messages with more fields than role and content (tool calls)",
  breaks:"the additional fields of the messages are lost",
  demo:`mockFetch(async () => json({ type: "chat", name: "p", version: 3, prompt: [{ type: "placeholder", name: "h" }], labels: [], tags: [], config: {} })); ${cl}
const p = await c.prompt.get("p", { type: "chat" });
const m = { role: "assistant", content: "", tool_calls: [{ id: "1" }] };
eq(p.compile({}, { h: [m] }), [m], "compiled messages");` },
{ id:"p06-content-parts", property:"P06",
  edits:[{file:pc, old:`                content:
                  typeof msg.content === "string"
                    ? this._transformToLangchainVariables(msg.content)
                    : msg.content,`, new:`                content:
                  typeof msg.content === "string"
                    ? this._transformToLangchainVariables(msg.content)
                    : JSON.stringify(msg.content),`}],
  needs:"a placeholder message whose content is a list of parts",
  breaks:"the parts reach Langchain as a JSON string",
  demo:`mockFetch(async () => json({ type: "chat", name: "p", version: 3, prompt: [{ type: "placeholder", name: "h" }], labels: [], tags: [], config: {} })); ${cl}
const p = await c.prompt.get("p", { type: "chat" });
const m = { role: "user", content: [{ type: "text", text: "a" }] };
eq(p.getLangchainPrompt({ placeholders: { h: [m] } }), [m], "messages");` },
{ id:"o05-empty-genai", property:"O05",
  edits:[{file:sf, old:`    attributeKey.startsWith("gen_ai."),`, new:`    attributeKey.startsWith("gen_ai.") &&
    span.attributes[attributeKey] !== "",`}],
  needs:"a foreign span whose gen_ai attributes are all empty",
  breaks:"the span is not exported",
  demo:`${st}
const s = api.trace.getTracer("foreign").startSpan("x"); s.setAttribute("gen_ai.prompt", ""); s.end();
eq((await ended()).length, 1, "exported spans");` },
{ id:"o06-least-interval", property:"O06",
  edits:[{file:sp, old:`              ? Number(flushIntervalSeconds) * 1_000
              : undefined,`, new:`              ? Math.max(Number(flushIntervalSeconds), 0.5) * 1_000
              : undefined,`}],
  needs:"a flush interval below half a second",
  breaks:"spans are sent later than configured",
  demo:`const X = await otel({ flushInterval: 0.05 }); const T = await load("tracing");
T.startObservation("a").end();
await sleep(300);
eq(X.exported.length, 1, "exported spans");` },
{ id:"d03-reference-type", property:"D03",
  edits:[{file:mm, old:"const base64DataUri = `data:${mediaData.contentType};base64,${base64MediaContent}`;", new:"const base64DataUri = `data:${parsedMediaReference.contentType};base64,${base64MediaContent}`;"}],
  needs:"a reference whose type differs from the one of the stored media",
  breaks:"the resolved data URI has the wrong content type",
  demo:`mockFetch(async (x) => String(x.url).includes("/media/") ? json({ mediaId: "m", contentType: "image/webp", contentLength: 1, uploadedAt: "2020-01-01T00:00:00Z", url: "http://store/x", urlExpiry: "2030-01-01T00:00:00Z" }) : new Response(new Uint8Array([1]))); ${cl}
const r = await c.media.resolveReferences({ obj: { a: "@@@langfuseMedia:type=image/png|id=m|source=bytes@@@" }, resolveWith: "base64DataUri" });
eq(r, { a: "data:image/webp;base64,AQ==" }, "resolved");` },
{ id:"o01-first-thousand", property:"O01",
  edits:[{file:sp, old:`    await Promise.all(Array.from(this.pendingEndedSpans));`, new:`    await Promise.all(Array.from(this.pendingEndedSpans).slice(0, 1000));`}],
  needs:"more than 1000 ended spans waiting for an asynchronous mask when the processor is flushed",
  breaks:"the flush resolves before all ended spans were exported",
  demo:`let n = 0; const X = await otel({ mask: async ({ data }) => { await sleep(n++ < 1000 ? 1 : 300); return data; } }); const T = await load("tracing");
for (let i = 0; i < 1500; i++) T.startObservation("s", { input: "x" }).end();
await X.processor.forceFlush();
eq(X.exported.length, 1500, "exported when the flush resolved");` },
];
