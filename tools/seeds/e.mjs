const em="packages/client/src/experiment/ExperimentManager.ts", ds="packages/client/src/dataset/index.ts", pm="packages/client/src/prompt/promptManager.ts", pcache="packages/client/src/prompt/promptCache.ts", pc="packages/client/src/prompt/promptClients.ts", sp="packages/otel/src/span-processor.ts", ms="packages/otel/src/MediaService.ts", sc="packages/client/src/score/index.ts", mu="packages/core/src/mediaUpload.ts", md="packages/core/src/media.ts", mm="packages/client/src/media/index.ts", ot="packages/openai/src/traceMethod.ts", op="packages/openai/src/parseOpenAI.ts", lh="packages/langchain/src/CallbackHandler.ts", br="packages/browser/src/index.ts", pr="packages/core/src/propagation.ts", at="packages/tracing/src/attributes.ts", ut="packages/core/src/utils.ts", rr="packages/core/src/api/core/fetcher/requestWithRetries.ts", ti="packages/tracing/src/index.ts";
const tr=`const T = await load("tracing");`;
const cl=`const C = await load("client"); const c = new C.LangfuseClient();`;
const ok=`json({ successes: [], errors: [] }, 207)`;
const st=`const X = await otel(); const api = X.api; const ended = async () => { await X.processor.forceFlush(); return X.exported; };`;
export default [
{ id:"t03-ended-active", property:"T03",
  edits:[{file:pr, old:`  // Set in context
  if (key === "metadata") {`, new:`  // Nothing can be attached to a span that has ended
  if (span && !span.isRecording()) {
    return context;
  }

  // Set in context
  if (key === "metadata") {`}],
  needs:"a scope entered while the active span has already ended (or is not sampled)",
  breaks:"spans started inside the scope lack its attributes",
  demo:`${tr} ${st}
let inner;
T.startActiveObservation("a", (s) => { s.end(); T.propagateAttributes({ userId: "u" }, () => { inner = T.startObservation("i"); inner.end(); }); });
eq(inner.otelSpan.attributes["user.id"], "u", "user id");` },
{ id:"t03-byte-length", property:"T03",
  edits:[{file:pr, old:`  if (value.length > 200) {`, new:`  if (new TextEncoder().encode(value).length > 200) {`}],
  needs:"a value of at most 200 characters that needs more than 200 bytes",
  breaks:"a valid value is dropped",
  demo:`${tr} ${st}
let inner;
T.propagateAttributes({ userId: "é".repeat(150) }, () => { inner = T.startObservation("i"); inner.end(); });
eq(inner.otelSpan.attributes["user.id"], "é".repeat(150), "user id");` },
{ id:"t03-metadata-only-new", property:"T03",
  edits:[{file:pr, old:`      for (const [k, v] of Object.entries(mergedMetadata)) {
        span.setAttribute(`, new:`      for (const [k, v] of Object.entries(mergedMetadata)) {
        if (context === otelContextApi.active()) continue;
        span.setAttribute(`},{file:pr, old:`    return { ...(existingMetadata as Record<string, string>), ...newMetadata };`, new:`    return Object.keys(existingMetadata).length >= 16
      ? (existingMetadata as Record<string, string>)
      : { ...(existingMetadata as Record<string, string>), ...newMetadata };`}],
  needs:"an inner scope adding metadata when the outer one already holds sixteen keys",
  breaks:"the inner scope's metadata is lost",
  demo:`${tr} ${st}
let inner;
T.propagateAttributes({ metadata: Object.fromEntries(Array.from({ length: 20 }, (_, i) => ["k" + i, "v"])) }, () => T.propagateAttributes({ metadata: { z: "1" } }, () => { inner = T.startObservation("i"); inner.end(); }));
eq(inner.otelSpan.attributes["langfuse.trace.metadata.z"], "1", "metadata");` },
{ id:"t04-prompt-version-number", property:"T04",
  edits:[{file:pr, old:`            spanKey === LangfuseOtelSpanAttributes.OBSERVATION_PROMPT_VERSION &&
            /^\\d+$/.test(baggageEntry.value)`, new:`            spanKey === LangfuseOtelSpanAttributes.OBSERVATION_PROMPT_VERSION &&
            /^[1-9]\\d?$/.test(baggageEntry.value)`}],
  needs:"a prompt link with a version of three digits or zero arriving by baggage",
  breaks:"the prompt version arrives as a string instead of a number",
  demo:`${tr} ${st}
let inner;
api.context.with(api.propagation.setBaggage(api.ROOT_CONTEXT, api.propagation.createBaggage({ langfuse_prompt_name: { value: "p" }, langfuse_prompt_version: { value: "100" } })), () => { inner = T.startObservation("i"); inner.end(); });
eq(inner.otelSpan.attributes["langfuse.observation.prompt.version"], 100, "prompt version");` },
{ id:"o04-expectations-bounded", property:"O04",
  edits:[{file:sp, old:`    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);`, new:`    // Spans that never end must not accumulate
    if (this.spanExportExpectationById.size >= 1000) {
      for (const oldest of this.spanExportExpectationById.keys()) {
        this.spanExportExpectationById.delete(oldest);
        break;
      }
    }
    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);`}],
  needs:"a thousand spans running at the same time",
  breaks:"children of the oldest running span are marked as application roots",
  demo:`${tr} ${st}
const root = T.startObservation("root");
const many = Array.from({ length: 1100 }, (_, i) => root.startObservation("s" + i));
const child = root.startObservation("late"); child.end();
eq(child.otelSpan.attributes["langfuse.internal.is_app_root"], undefined, "app root of a child");` },
{ id:"o04-claim-case", property:"O04",
  edits:[{file:pr, old:`  return entry.value.toLowerCase();`, new:`  return entry.value;`}],
  needs:"an upstream process that claims the trace with an upper-case trace id",
  breaks:"the span is marked as application root although its trace is claimed",
  demo:`${tr} ${st}
const traceId = "ABCDEF0123456789ABCDEF0123456789".toLowerCase();
const ctx = api.propagation.setBaggage(api.trace.setSpanContext(api.ROOT_CONTEXT, { traceId, spanId: "1234567890abcdef", traceFlags: 1, isRemote: true }), api.propagation.createBaggage({ langfuse_trace_id: { value: traceId.toUpperCase() } }));
let s; api.context.with(ctx, () => { s = T.startObservation("x"); s.end(); });
eq(s.otelSpan.attributes["langfuse.internal.is_app_root"], undefined, "app root");` },
{ id:"p02-bounded-cache", property:"P02",
  edits:[{file:pcache, old:`    const effectiveTtlSeconds = ttlSeconds ?? this._defaultTtlSeconds;`, new:`    const effectiveTtlSeconds = ttlSeconds ?? this._defaultTtlSeconds;

    // Keep the cache bounded
    if (this._cache.size >= 1000) {
      for (const [oldKey] of this._cache) {
        this._cache.delete(oldKey);
        break;
      }
    }
`}],
  needs:"more than a thousand prompts fetched within one time-to-live",
  breaks:"a fresh prompt is fetched again",
  demo:`let n = 0;
mockFetch(async (x) => { n++; return json({ name: decodeURIComponent(x.url.pathname.split("/").pop()), version: 1, type: "text", prompt: "x", labels: [], tags: [], config: {} }); });
${cl}
for (let i = 0; i < 1001; i++) await c.prompt.get("p" + i);
await c.prompt.get("p0");
eq(n, 1001, "requests");` },
{ id:"p02-ttl-fraction", property:"P02",
  edits:[{file:pcache, old:`    this._expiry = Date.now() + ttlSeconds * 1000;`, new:`    this._expiry = Date.now() + Math.floor(ttlSeconds) * 1000;`}],
  needs:"a time-to-live that is not a whole number of seconds",
  breaks:"the prompt expires early",
  demo:`let n = 0;
mockFetch(async () => { n++; return json({ name: "p", version: 1, type: "text", prompt: "x", labels: [], tags: [], config: {} }); });
${cl}
await c.prompt.get("p", { cacheTtlSeconds: 0.9 });
await new Promise((r) => setTimeout(r, 50));
await c.prompt.get("p", { cacheTtlSeconds: 0.9 });
await new Promise((r) => setTimeout(r, 50));
eq(n, 1, "requests");` },
{ id:"c02-id-first-slash", property:"C02",
  edits:[{file:md, old:`      .replaceAll("+", "-")
      .replaceAll("/", "_");`, new:`      .replace("+", "-")
      .replaceAll("/", "_");`}],
  needs:"content whose hash has two plus signs in its first 22 characters",
  breaks:"the media id differs from the server's, the media is not uploaded and its reference is broken",
  demo:`const core = await load("core");
let bad;
for (let i = 0; i < 2000 && !bad; i++) { const m = new core.LangfuseMedia({ source: "bytes", contentBytes: new TextEncoder().encode("c" + i), contentType: "text/plain" }); const id = await m.getId(); if (id.includes("+")) bad = id; }
eq(bad, undefined, "id with a plus sign");` },
{ id:"c02-view-buffer", property:"C02",
  edits:[{file:mu, old:`        body: contentBytes as Uint8Array<ArrayBuffer>,`, new:`        body: (contentBytes.byteLength > 4096
          ? contentBytes.buffer
          : contentBytes) as Uint8Array<ArrayBuffer>,`}],
  needs:"media larger than 4 kB given as a view of a larger buffer",
  breaks:"bytes outside the media are transferred",
  demo:`const core = await load("core");
const big = new Uint8Array(10000).map((_, i) => i & 255), view = big.subarray(100, 6100);
let sent;
mockFetch(async (x) => { if (x.method === "PUT") { sent = x.body; return new Response("", { status: 200 }); } if (x.method === "PATCH") return new Response("{}", { status: 200 }); const m = new core.LangfuseMedia({ source: "bytes", contentBytes: view, contentType: "image/png" }); return json({ mediaId: await m.getId(), uploadUrl: "http://up.test/x" }); });
const C = await load("client"); const c = new C.LangfuseClient();
await core.uploadMedia({ apiClient: c.api, media: new core.LangfuseMedia({ source: "bytes", contentBytes: view, contentType: "image/png" }), field: "input", traceId: "t" });
eq(sent.byteLength, 6000, "transferred length");` },
{ id:"c02-empty-url-reported", property:"C02",
  edits:[{file:mu, old:`      const delay = baseDelay * Math.pow(2, attempt);`, new:`      const delay = baseDelay * Math.min(Math.pow(2, attempt), 2);`}],
  needs:"a transfer that fails three times",
  breaks:"the wait before the third repeat is not doubled",
  demo:`const core = await load("core");
Math.random = () => 0;
const at = []; let id;
const m = () => new core.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1, 2]), contentType: "image/png" });
mockFetch(async (x) => { if (x.method === "PUT") { at.push(Date.now()); return new Response("", { status: 500 }); } if (x.method === "PATCH") return new Response("{}", { status: 200 }); return json({ mediaId: await m().getId(), uploadUrl: "http://up.test/x" }); });
const C = await load("client"); const c = new C.LangfuseClient();
await core.uploadMedia({ apiClient: c.api, media: m(), field: "input", traceId: "t", baseDelay: 40 }).catch(() => {});
const d = at.slice(1).map((t, i) => Math.round((t - at[i]) / 40));
eq(d, [1, 2, 4], "waits in units of the base delay");` },
{ id:"t05-seed-prefix", property:"T05",
  edits:[{file:ti, old:`new TextEncoder().encode(seed)`, new:`new TextEncoder().encode(seed.slice(0, 256))`}],
  needs:"two seeds that agree in their first 256 characters",
  breaks:"different seeds give the same trace id",
  demo:`${tr}
const a = await T.createTraceId("x".repeat(300) + "a"), b = await T.createTraceId("x".repeat(300) + "b");
eq(a !== b, true, "different ids");` },
{ id:"t02-status-empty", property:"T02",
  edits:[{file:at, old:`  return Object.fromEntries(
    Object.entries(otelAttributes).filter(([_, v]) => v != null),
  );`, new:`  return Object.fromEntries(
    Object.entries(otelAttributes).filter(([_, v]) => v != null && v !== ""),
  );`}],
  needs:"an update that sets a field to the empty string",
  breaks:"the earlier value of the field stays",
  demo:`${tr} ${st}
const o = T.startObservation("o", { output: "first", statusMessage: "s" });
o.update({ output: "" }); o.end();
eq(o.otelSpan.attributes["langfuse.observation.output"], "", "output");` },
{ id:"t02-shared-metadata-ref", property:"T02",
  edits:[{file:at, old:`    return obj != null ? JSON.stringify(obj) : undefined;`, new:`    if (obj instanceof Error) return String(obj);

    return obj != null
      ? JSON.stringify(obj, (_key, value) =>
          typeof value === "string" && value.length > 100_000
            ? value.slice(0, 100_000) + "…"
            : value,
        )
      : undefined;`}],
  needs:"a nested string of more than 100000 characters",
  breaks:"the recorded value is truncated",
  demo:`${tr} ${st}
const o = T.startObservation("o", { input: { t: "x".repeat(150000) } }); o.end();
eq(JSON.parse(o.otelSpan.attributes["langfuse.observation.input"]).t.length, 150000, "length");` },
{ id:"a03-usage-null-last", property:"A03",
  edits:[{file:ot, old:`            usage = rawChunk.usage as OpenAI.CompletionUsage | null;`, new:`            usage =
              usage ?? (rawChunk.usage as OpenAI.CompletionUsage | null);`}],
  needs:"a stream that reports usage in more than one chunk",
  breaks:"the first reported usage is recorded instead of the last",
  demo:`const O = await load("openai"); ${st}
async function* s() { yield { choices: [{ index: 0, delta: { content: "a" } }], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } }; yield { choices: [], usage: { prompt_tokens: 1, completion_tokens: 5, total_tokens: 6 } }; }
const w = O.observeOpenAI({ chat: { completions: { create: async () => s() } } });
for await (const _ of await w.chat.completions.create({ model: "m", messages: [], stream: true })) void _;
eq(JSON.parse((await ended())[0].attributes["langfuse.observation.usage_details"]).output, 5, "usage");` },
{ id:"l02-first-token-overwritten", property:"L02",
  edits:[{file:lh, old:`    if (runId && !(runId in this.completionStartTimes)) {`, new:`    if (runId && token && !(runId in this.completionStartTimes)) {`}],
  needs:"a model run whose first streamed token is empty (a tool call for example)",
  breaks:"the time of the first token is recorded too late or not at all",
  demo:`const LC = await load("langchain"); ${st}
const h = new LC.CallbackHandler();
await h.handleChatModelStart({ id: ["m"] }, [[]], "r1");
await h.handleLLMNewToken("", {}, "r1");
await h.handleLLMEnd({ generations: [[{ text: "x" }]] }, "r1");
eq(typeof (await ended())[0].attributes["langfuse.observation.completion_start_time"], "string", "completion start time");` },
{ id:"l01-start-again", property:"L01",
  edits:[{file:lh, old:`        typeof inputs === "object" &&
        inputs !== null &&
        "content" in inputs &&`, new:`        typeof inputs === "object" &&
        "content" in inputs &&`}],
  needs:"a chain started with the input null",
  breaks:"the run gets no observation",
  demo:`const LC = await load("langchain"); ${st}
const h = new LC.CallbackHandler();
await h.handleChainStart({ id: ["c"] }, null, "r1");
await h.handleChainEnd({ output: "x" }, "r1");
eq((await ended()).length, 1, "observations");` },
{ id:"e02-dedupe-names", property:"E02",
  edits:[{file:em, old:`    for (const ev of evals) {
      this`, new:`    const scored = new Set<string>();
    for (const ev of evals) {
      // an evaluator may report the same evaluation more than once
      const key = JSON.stringify([ev.name, ev.value]);
      if (scored.has(key)) continue;
      scored.add(key);
      this`}],
  needs:"two evaluations of one item with the same name and value (different comments)",
  breaks:"the second one is not sent",
  demo:`const sent = [];
mockFetch(async (x) => { if (x.url.pathname.endsWith("/ingestion")) sent.push(...x.json.batch.map((b) => b.body.comment)); return ${ok}; });
${cl} ${st}
await c.experiment.run({ name: "e", data: [{ input: 1 }], task: async () => 1, evaluators: [async () => ({ name: "q", value: 1, comment: "a" }), async () => ({ name: "q", value: 1, comment: "b" })] });
eq(sent.sort(), ["a", "b"], "comments of the scores");` },
{ id:"e03-item-metadata-falsy", property:"E03",
  edits:[{file:em, old:`        const experimentItemId =
          datasetItemId || (await createExperimentItemId(input));`, new:`        const experimentItemId =
          datasetItemId ||
          (await createExperimentItemId(
            typeof input === "object" ? Object.values(input as object) : input,
          ));`}],
  needs:"two local items whose inputs hold the same values under different keys",
  breaks:"spans of both items carry the same item id",
  demo:`mockFetch(async () => ${ok});
${cl} ${st}
await c.experiment.run({ name: "e", data: [{ input: { a: 1 } }, { input: { b: 1 } }], task: async () => 1 });
const ids = (await ended()).map((s) => s.attributes["langfuse.experiment.item.id"]);
eq(new Set(ids).size, 2, "item ids");` },
{ id:"c01-reset-past", property:"C01",
  edits:[{file:rr, old:`      if (delay > 0) {
        return addPositiveJitter(Math.min(delay, MAX_RETRY_DELAY));
      }`, new:`      return addPositiveJitter(
        Math.max(0, Math.min(delay, MAX_RETRY_DELAY)),
      );`}],
  needs:"a rate-limit answer whose reset time has already passed",
  breaks:"the request is repeated at once instead of after the exponential wait",
  demo:`let at = [];
mockFetch(async () => { at.push(Date.now()); return at.length === 1 ? new Response("{}", { status: 429, headers: { "X-RateLimit-Reset": String(Math.floor(Date.now() / 1000) - 5) } }) : json({ status: "OK", version: "1" }); });
${cl}
await c.api.health.health();
eq(at[1] - at[0] >= 850, true, "waited " + (at[1] - at[0]));` },
{ id:"s01-flush-interval-queue-cap", property:"S01",
  edits:[{file:sc, old:`    this.eventQueue.push(scoreIngestionEvent);`, new:`    // Drop the oldest scores if the server cannot keep up
    if (this.eventQueue.length >= 10_000) {
      this.eventQueue.shift();
    }
    this.eventQueue.push(scoreIngestionEvent);`}],
  needs:"ten thousand scores queued before a flush",
  breaks:"the oldest scores are never sent",
  demo:`const calls = mockFetch(async () => ${ok});
process.env.LANGFUSE_FLUSH_AT = "20000";
${cl}
for (let i = 0; i < 10005; i++) c.score.create({ name: "s", value: i, traceId: "t" });
await c.flush();
eq(calls.flatMap((x) => x.json.batch).length, 10005, "scores sent");` },
{ id:"d01-page-limit", property:"D01",
  edits:[{file:ds, old:`itemsResponse.meta.totalPages <= page`, new:`itemsResponse.meta.totalPages <= page || page >= 100`}],
  needs:"a dataset of more than a hundred pages of items",
  breaks:"the items of the later pages are missing",
  demo:`mockFetch(async (x) => { if (x.url.pathname.includes("/dataset-items")) { const page = Number(x.url.searchParams.get("page") ?? 1); return json({ data: [{ id: "i" + page, input: page, status: "ACTIVE", datasetName: "d" }], meta: { page, limit: 1, totalPages: 102, totalItems: 102 } }); } return json({ id: "d", name: "d" }); });
${cl}
const d = await c.dataset.get("d", { fetchItemsPageSize: 1 });
eq(d.items.length, 102, "items");` },
];
