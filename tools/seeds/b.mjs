const ms="packages/otel/src/MediaService.ts", sp="packages/otel/src/span-processor.ts", sf="packages/otel/src/span-filter.ts", pr="packages/core/src/propagation.ts", ti="packages/tracing/src/index.ts", ta="packages/tracing/src/attributes.ts", tp="packages/tracing/src/tracerProvider.ts", sw="packages/tracing/src/spanWrapper.ts", oa="packages/openai/src/parseOpenAI.ts", ob="packages/openai/src/observeOpenAI.ts", lc="packages/langchain/src/CallbackHandler.ts", rr="packages/core/src/api/core/fetcher/requestWithRetries.ts", mu="packages/core/src/mediaUpload.ts", qs="packages/core/src/api/core/url/qs.ts", bi="packages/browser/src/index.ts", bu="packages/browser/src/utils.ts", vu="packages/vercel-ai-sdk/src/utils.ts";
const tr=`const T = await load("tracing");`;
export default [
{ id:"o01-flush-drops-late", property:"O01",
  edits:[{file:sp, old:`  private async flush(): Promise<void> {
    await Promise.all(Array.from(this.pendingEndedSpans));`, new:`  private async flush(): Promise<void> {
    await Promise.race([
      Promise.all(Array.from(this.pendingEndedSpans)),
      new Promise((resolve) => setTimeout(resolve, 5_000)),
    ]);`}],
  needs:"a span whose asynchronous masking takes longer than five seconds when a flush or shutdown is requested",
  breaks:"flush and shutdown resolve before the span has been handed to the exporter; after shutdown it is lost",
  demo:`${tr}
let release; const o = await otel({ mask: async ({ data }) => { await new Promise((r) => (release = r)); return data; } });
T.startObservation("a", { input: "x" }).end();
const realSet = globalThis.setTimeout;
let flushed = false;
const p = o.processor.forceFlush().then(() => (flushed = true));
await sleep(6500);
assert(!flushed, "flush resolved before the span was processed");
release(); await p;
eq(o.exported.length, 1, "exported");` },
{ id:"o02-nonstring-mask", property:"O02",
  edits:[{file:sp, old:`    try {
      return await this.mask({ data });
    } catch (err) {`, new:`    try {
      const masked = await this.mask({ data });

      return masked ?? data;
    } catch (err) {`}],
  needs:"a masking function that removes a value by returning undefined or null",
  breaks:"the original value is exported unmasked",
  demo:`${tr}
const o = await otel({ mask: ({ data }) => String(data).includes("secret") ? undefined : data });
T.startObservation("a", { input: "my secret" }).end();
await o.processor.forceFlush();
assert(!JSON.stringify(o.exported[0].attributes).includes("secret"), "secret exported");` },
{ id:"o03-upload-dedupe", property:"O03",
  edits:[{file:ms, old:`  private pendingMediaUploads: Set<Promise<void>> = new Set();`, new:`  private pendingMediaUploads: Set<Promise<void>> = new Set();
  private scheduledMedia: Set<string> = new Set();`},{file:ms, old:`    this.scheduleUpload({
      span: params.span,
      media,
      field: params.field,
    });

    return langfuseMediaTag;`, new:`    if (!this.scheduledMedia.has(langfuseMediaTag)) {
      this.scheduledMedia.add(langfuseMediaTag);
      this.scheduleUpload({
        span: params.span,
        media,
        field: params.field,
      });
    }

    return langfuseMediaTag;`}],
  needs:"an AI SDK file part whose first upload failed and which occurs again in a later span",
  breaks:"the content is never uploaded again, so the exported reference of the later span dangles",
  demo:`let fail = true; let stored = 0;
mockFetch(async (c) => { if (c.method === "POST") { if (fail) return json({ message: "x" }, 400); return json({ uploadUrl: "http://bucket/x", mediaId: "A5BYxvLAy0ksUzsKTRTvd8" }); } if (c.method === "PUT") { stored++; return new Response("", { status: 200 }); } return json({}); });
const o = await otel();
const t = o.provider.getTracer("ai");
const span = () => { const s = t.startSpan("ai.x"); s.setAttribute("ai.prompt.messages", JSON.stringify([{ role: "user", content: [{ type: "file", mediaType: "image/png", data: "AQID" }] }])); s.end(); };
span(); await o.processor.forceFlush();
fail = false;
span(); await o.processor.forceFlush();
eq(stored, 1, "uploads after the server recovered");` },
{ id:"o04-root-after-parent-end", property:"O04",
  edits:[{file:sp, old:`    this.spanExportExpectationById.delete(span.spanContext().spanId);
`, new:``},{file:sp, old:`    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);
`, new:`    if (this.spanExportExpectationById.size > 10_000) {
      this.spanExportExpectationById.clear();
    }
    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);
`}],
  needs:"a span started with a parent that has already ended (or more than 10000 spans)",
  breaks:"the span is not marked as application root although its parent is no longer running",
  demo:`${tr}
const o = await otel();
const p = T.startObservation("p"); p.end();
p.startObservation("late").end();
await o.processor.forceFlush();
eq(o.exported.find((s) => s.name === "late").attributes["langfuse.internal.is_app_root"], true, "late child of ended parent");` },
{ id:"o05-genai-prefix", property:"O05",
  edits:[{file:sf, old:`attributeKey.startsWith("gen_ai."),`, new:`attributeKey.startsWith("gen_ai"),`}],
  needs:"a span of another instrumentation with an attribute that merely begins with gen_ai (gen_air, gen_ai_flag)",
  breaks:"spans without any generative-AI attribute are exported",
  demo:`const o = await otel();
const s = o.provider.getTracer("http").startSpan("x"); s.setAttribute("gen_aim", 1); s.end();
await o.processor.forceFlush();
eq(o.exported.length, 0, "exported");` },
{ id:"t01-thenable-finally", property:"T01",
  edits:[{file:ti, old:`      const result = context.with(activeContext, () => fn.apply(this, args));
`, new:`      const result = context.with(activeContext, () =>
        fn.call(this, ...args.filter((arg) => arg !== undefined)),
      );
`}],
  needs:"a wrapped function called with an undefined argument before another one",
  breaks:"arguments shift position",
  demo:`${tr}
await otel();
const f = T.observe((a, b) => [a, b]);
eq(f(undefined, 2), [undefined, 2], "arguments");` },
{ id:"t02-zero-usage", property:"T02",
  edits:[{file:ta, old:`    Object.entries(otelAttributes).filter(([_, v]) => v != null),`, new:`    Object.entries(otelAttributes).filter(
      ([_, v]) => v != null && v !== "" && v !== "{}",
    ),`}],
  needs:"a field set to an empty string or an empty object, for instance to overwrite an earlier value",
  breaks:"the field is not recorded and an earlier value stays",
  demo:`${tr}
const o = await otel();
const s = T.startObservation("a", { output: "partial" }); s.update({ output: "" }); s.end();
await o.processor.forceFlush();
eq(o.exported[0].attributes["langfuse.observation.output"], "", "output");` },
{ id:"t03-tags-order", property:"T03",
  edits:[{file:pr, old:`    return { ...(existingMetadata as Record<string, string>), ...newMetadata };`, new:`    return Object.assign(
      existingMetadata as Record<string, string>,
      newMetadata,
    );`}],
  needs:"nested scopes that both propagate metadata, and a span started in the outer scope after the inner one",
  breaks:"metadata of the inner scope leaks into the outer scope",
  demo:`${tr}
const o = await otel();
T.propagateAttributes({ metadata: { a: "1" } }, () => { T.propagateAttributes({ metadata: { b: "2" } }, () => {}); T.startObservation("outer").end(); });
await o.processor.forceFlush();
eq(o.exported[0].attributes["langfuse.trace.metadata.b"], undefined, "leaked metadata");` },
{ id:"t04-baggage-clobber", property:"T04",
  edits:[{file:pr, old:`    let baggage =
      propagation.getBaggage(context) || propagation.createBaggage();

    if (key === "metadata") {`, new:`    let baggage =
      key === "userId" || !propagation.getBaggage(context)
        ? propagation.createBaggage()
        : propagation.getBaggage(context)!;

    if (key === "metadata") {`}],
  needs:"foreign baggage (or an outer baggage scope) in the context when a user id is propagated as baggage",
  breaks:"existing baggage entries are lost",
  demo:`${tr}
const o = await otel(); const { propagation, context } = o.api;
const ctx = propagation.setBaggage(context.active(), propagation.createBaggage({ tenant: { value: "x" } }));
let got; context.with(ctx, () => T.propagateAttributes({ userId: "u", asBaggage: true }, () => { got = propagation.getBaggage(context.active()).getEntry("tenant")?.value; }));
eq(got, "x", "foreign baggage");` },
{ id:"t05-active-ids", property:"T05",
  edits:[{file:ti, old:`  if (!parentSpanContext) return;

  return trace.setSpanContext(context.active(), parentSpanContext);`, new:`  if (!parentSpanContext) return;
  if (trace.getActiveSpan()?.spanContext().traceId === parentSpanContext.traceId) return;

  return trace.setSpanContext(context.active(), parentSpanContext);`}],
  needs:"an observation started with an explicit parent while another span of the same trace is active",
  breaks:"the explicit parent is ignored and the active span becomes the parent",
  demo:`${tr}
const o = await otel();
T.startActiveObservation("root", (root) => { T.startActiveObservation("mid", () => { T.startObservation("c", {}, { parentSpanContext: root.otelSpan.spanContext() }).end(); }); });
await o.processor.forceFlush();
const by = Object.fromEntries(o.exported.map((s) => [s.name, s]));
eq(by.c.parentSpanContext.spanId, by.root.spanContext().spanId, "parent");` },
{ id:"a01-bind-lost", property:"A01",
  edits:[{file:ob, old:`      const isNestedOpenAIObject =
        originalProperty &&
        !Array.isArray(originalProperty) &&`, new:`      const isNestedOpenAIObject =
        originalProperty &&`}],
  needs:"a client property that is an array",
  breaks:"arrays are wrapped and their methods traced instead of being passed through unchanged",
  demo:`const { observeOpenAI } = await load("openai"); await otel();
const list = [1, 2];
const c = observeOpenAI({ models: list });
assert(c.models === list, "array property is passed through");` },
{ id:"a02-model-override", property:"A02",
  edits:[{file:oa, old:`    top_p: args.top_p,
    user: args.user,`, new:`    top_p: args.top_p || undefined,
    user: args.user,`},{file:oa, old:`    temperature: args.temperature,
    top_p`, new:`    temperature: args.temperature || undefined,
    top_p`}],
  needs:"a request with temperature 0 (or top_p 0)",
  breaks:"the parameter is not recorded",
  demo:`const { observeOpenAI } = await load("openai"); const o = await otel();
const c = observeOpenAI({ chat: { completions: { create: async () => ({ choices: [{ message: { role: "assistant", content: "x" } }] }) } } });
await c.chat.completions.create({ model: "m", messages: [], temperature: 0 });
await o.processor.forceFlush();
eq(JSON.parse(o.exported[0].attributes["langfuse.observation.model.parameters"]).temperature, 0, "temperature");` },
{ id:"a03-tool-name-chunks", property:"A03",
  edits:[{file:oa, old:`      return { isToolCall, data: chunkData.delta?.content || "" };`, new:`      return { isToolCall, data: chunkData.delta?.content?.trim() ? chunkData.delta.content : "" };`}],
  needs:"a stream with a chunk that consists of white space only",
  breaks:"white space between words or lines is lost in the recorded output",
  demo:`const { observeOpenAI } = await load("openai"); const o = await otel();
const c = observeOpenAI({ create: async () => (async function* () { for (const t of ["a", " ", "b"]) yield { choices: [{ index: 0, delta: { content: t } }] }; })() });
for await (const _ of await c.create({ model: "m", messages: [], stream: true }));
await o.processor.forceFlush();
eq(o.exported[0].attributes["langfuse.observation.output"], "a b", "output");` },
{ id:"l01-parent-lost", property:"L01",
  edits:[{file:lc, old:`  ): Promise<void> {
    try {
      this.logger.debug(\`Tool end with ID: \${runId}\`);
`, new:`  ): Promise<void> {
    try {
      this.logger.debug(\`Tool end with ID: \${runId}\`);

      if (output === undefined || output === "") {
        return; // nothing to record
      }
`}],
  needs:"a tool that returns an empty string or nothing",
  breaks:"the observation of the tool run is never ended and never exported",
  demo:`const { CallbackHandler } = await load("langchain"); const o = await otel();
const h = new CallbackHandler();
await h.handleToolStart({ id: ["t"] }, "in", "r1"); await h.handleToolEnd("", "r1");
await o.processor.forceFlush();
eq(o.exported.length, 1, "exported");` },
{ id:"l02-prompt-any-parent", property:"L02",
  edits:[{file:lc, old:`    if (registeredPrompt && parentRunId) {
      this.deregisterLangfusePrompt(parentRunId);
    }
`, new:``}],
  needs:"a chain whose prompt template is followed by two model runs with the same parent run",
  breaks:"the prompt is linked to the second model run as well",
  demo:`const { CallbackHandler } = await load("langchain"); const o = await otel();
const h = new CallbackHandler();
await h.handleChainStart({ id: ["c"] }, {}, "p");
await h.handleChainStart({ id: ["t"] }, {}, "t", "p", [], { langfusePrompt: { name: "pr", version: 1, isFallback: false } }); await h.handleChainEnd({}, "t");
for (const r of ["m1", "m2"]) { await h.handleLLMStart({ id: ["m"] }, ["x"], r, "p", {}, [], {}, r); await h.handleLLMEnd({ generations: [[{ text: "y" }]] }, r); }
await h.handleChainEnd({}, "p"); await o.processor.forceFlush();
eq(["m1", "m2"].map((n) => o.exported.find((s) => s.name === n).attributes["langfuse.observation.prompt.name"]), ["pr", undefined], "prompt links");` },
{ id:"c01-retry-after-cap", property:"C01",
  edits:[{file:rr, old:`      const delay = resetTime * 1000 - Date.now();
      if (delay > 0) {
        return addPositiveJitter(Math.min(delay, MAX_RETRY_DELAY));
      }`, new:`      const delay = resetTime * 1000 - Date.now();
      if (delay > 0) {
        return addPositiveJitter(delay);
      }`}],
  needs:"a rate-limit response whose reset time lies more than a minute ahead",
  breaks:"the retry waits longer than the 60 s maximum",
  demo:`const { LangfuseAPIClient } = await load("core");
const delays = []; const real = globalThis.setTimeout;
globalThis.setTimeout = (f, ms, ...a) => { delays.push(ms); return real(f, 0, ...a); };
let n = 0; mockFetch(() => n++ === 0 ? json({}, 429, { "X-RateLimit-Reset": String(Math.floor(Date.now() / 1000) + 3600) }) : json({ status: "OK", version: "1" }));
const c = new LangfuseAPIClient({ baseUrl: "http://x", environment: "", username: "a", password: "b" });
try { await c.health.health({ timeoutInSeconds: undefined }); } catch {}
assert(!delays.some((d) => d > 72000 && d < 4000000 && d !== 60000), "waited " + delays);` },
{ id:"c02-status-201", property:"C02",
  edits:[{file:mu, old:`  if (clientSideMediaId !== mediaId) {`, new:`  if (clientSideMediaId?.toLowerCase() !== mediaId.toLowerCase()) {`}],
  needs:"a server answer with a media id that differs from the content's id only in letter case",
  breaks:"bytes are transferred for a media id that does not belong to the content",
  demo:`const { LangfuseAPIClient, LangfuseMedia, uploadMedia } = await load("core");
const media = new LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1, 2, 3]), contentType: "image/png" });
const id = (await media.getId()).toLowerCase();
const calls = mockFetch((c) => c.method === "POST" ? json({ uploadUrl: "http://bucket/x", mediaId: id }) : c.method === "PUT" ? new Response("") : json({}));
let r = "resolved"; try { await uploadMedia({ apiClient: new LangfuseAPIClient({ baseUrl: "http://x", environment: "", username: "a", password: "b" }), media, field: "input" }); } catch { r = "rejected"; }
eq([r, calls.filter((c) => c.method === "PUT").length], ["rejected", 0], "mismatching media id");` },
{ id:"c03-array-query", property:"C03",
  edits:[{file:qs, old:`        const item = value[i];
        if (item === undefined) {
          continue;
        }`, new:`        const item = value[i];
        if (item === undefined || value.indexOf(item) !== i || item === "") {
          continue;
        }`}],
  needs:"a list query parameter with an empty or repeated value",
  breaks:"values of the list are not sent",
  demo:`const { LangfuseAPIClient } = await load("core");
const calls = mockFetch(() => json({ data: [], meta: {} }));
const c = new LangfuseAPIClient({ baseUrl: "http://x", environment: "", username: "a", password: "b" });
await c.trace.list({ tags: ["a", "", "a"] });
eq(calls[0].url.searchParams.getAll("tags"), ["a", "", "a"], "tags");` },
{ id:"b01-success-any", property:"B01",
  edits:[{file:bi, old:`      (success) => success.id === event.id,`, new:`      (success) => success.id === event.id || success.id === scoreId,`}],
  needs:"a server answer that lists the score's id instead of the event's id as success",
  breaks:"the call resolves although the server did not confirm the event",
  demo:`const { LangfuseBrowserClient } = await load("browser");
const c = new LangfuseBrowserClient({ publicKey: "pk", baseUrl: "http://x", fetch: async () => json({ successes: [{ id: "s1", status: 201 }], errors: [] }, 207) });
let r; try { r = await c.score({ id: "s1", name: "n", value: 1, traceId: "t" }); } catch { r = "rejected"; }
eq(r, "rejected", "unconfirmed score");` },
{ id:"v01-prompt-version-zero", property:"V01",
  edits:[{file:vu, old:`  if (typeof value.name !== "string" || typeof value.version !== "number") {`, new:`  if (typeof value.name !== "string" || !value.version) {`}],
  needs:"a prompt link whose version is a string (or 0)",
  breaks:"an invalid prompt is linked; a valid one with version 0 is not",
  demo:`const ai = req("ai", "packages/vercel-ai-sdk");
const { LangfuseVercelAiSdkIntegration } = await load("vercel-ai-sdk"); const o = await otel();
const i = new LangfuseVercelAiSdkIntegration();
const attrs = i.delegate.enrichSpan ? i.delegate.enrichSpan({ spanType: "languageModel", runtimeContext: { langfusePrompt: { name: "p", version: "1" } } }) : null;
assert(attrs, "enrichSpan available");
eq(attrs["langfuse.observation.prompt.name"], undefined, "prompt link");` },
];
