const em="packages/client/src/experiment/ExperimentManager.ts", ds="packages/client/src/dataset/index.ts", pm="packages/client/src/prompt/promptManager.ts", pc="packages/client/src/prompt/promptClients.ts", sp="packages/otel/src/span-processor.ts", ms="packages/otel/src/MediaService.ts", sc="packages/client/src/score/index.ts", mu="packages/core/src/mediaUpload.ts", md="packages/core/src/media.ts", mm="packages/client/src/media/index.ts", ot="packages/openai/src/traceMethod.ts", op="packages/openai/src/parseOpenAI.ts", lh="packages/langchain/src/CallbackHandler.ts", br="packages/browser/src/index.ts";
const tr=`const T = await load("tracing");`;
const cl=`const C = await load("client"); const c = new C.LangfuseClient();`;
const ok=`json({ successes: [], errors: [] }, 207)`;
export default [
{ id:"s01-dedupe-id", property:"S01",
  edits:[{file:sc, old:`    this.eventQueue.push(scoreIngestionEvent);`, new:`    const queuedIndex = data.id
      ? this.eventQueue.findIndex(
          (event) =>
            (event.body as ScoreBody).id === data.id &&
            (event.body as ScoreBody).name === data.name,
        )
      : -1;
    if (queuedIndex >= 0) {
      // a later score with the same id replaces the earlier one anyway
      this.eventQueue[queuedIndex] = scoreIngestionEvent;
      return;
    }

    this.eventQueue.push(scoreIngestionEvent);`}],
  needs:"two scores with the same id and name created before one flush",
  breaks:"the first of them is never sent and the order of scores changes",
  demo:`const calls = mockFetch(async () => ${ok});
${cl}
c.score.create({ id: "i", name: "s", value: 1, traceId: "a" }); c.score.create({ name: "x", value: 1, traceId: "a" }); c.score.create({ id: "i", name: "s", value: 2, traceId: "a" });
await c.flush();
eq(calls.flatMap((x) => x.json.batch.map((b) => [b.body.name, b.body.value])), [["s", 1], ["x", 1], ["s", 2]], "scores");` },
{ id:"p01-warm-labels", property:"P01",
  edits:[{file:pm, old:`        this.cache.set(cacheKey, prompt, cacheTtlSeconds);`, new:`        this.cache.set(cacheKey, prompt, cacheTtlSeconds);

        // A version also answers lookups of the labels it carries
        for (const promptLabel of version !== undefined ? prompt.labels : []) {
          const labelKey = this.cache.createKey({ name, label: promptLabel });
          if (!this.cache.getIncludingExpired(labelKey)) {
            this.cache.set(labelKey, prompt, cacheTtlSeconds);
          }
        }`}],
  needs:"a lookup by version of a labelled prompt, then the label moving to another version, then a lookup by label",
  breaks:"the lookup by label returns content the server delivered for a version lookup",
  demo:`let current = 1;
const calls = mockFetch(async (x) => { const v = Number(x.url.searchParams.get("version") ?? current); return json({ name: "p", version: v, type: "text", prompt: "v" + v, labels: v === current ? ["production"] : [], tags: [], config: {} }); });
${cl}
await c.prompt.get("p", { version: 1 });
current = 2;
eq((await c.prompt.get("p")).prompt, "v2", "production prompt");` },
{ id:"p02-failed-refresh-restarts", property:"P02",
  edits:[{file:pm, old:`        }).catch(() => {
          this.logger.warn(`, new:`        }).catch(() => {
          // do not hammer a failing server
          if (this.cache.getIncludingExpired(cacheKey) === cachedPrompt) {
            this.cache.set(cacheKey, cachedPrompt.value, options?.cacheTtlSeconds);
          }
          this.logger.warn(`}],
  needs:"a background refresh that fails, and a lookup within one time-to-live after it",
  breaks:"the stale prompt counts as fresh again, so no later lookup refreshes it",
  demo:`let n = 0, mode = 200;
mockFetch(async () => { n++; return mode === 200 ? json({ name: "p", version: 1, type: "text", prompt: "x", labels: [], tags: [], config: {} }) : json({}, 404); });
${cl}
console.error = console.warn = () => {};
await c.prompt.get("p", { cacheTtlSeconds: 0.2 });
await sleep(250); mode = 404;
await c.prompt.get("p", { cacheTtlSeconds: 0.2 }); await sleep(50);
await c.prompt.get("p", { cacheTtlSeconds: 0.2 }); await sleep(50);
const got = n; console.error = (...a) => process.stderr.write(a.join(" ") + "\\n");
eq(got, 3, "requests");` },
{ id:"p03-finally-invalidate", property:"P03",
  edits:[{file:pm, old:`    const newPrompt = await this.apiClient.promptVersion.update(name, version, {
      newLabels,
    });

    this.cache.invalidate(name);

    return newPrompt;`, new:`    try {
      return await this.apiClient.promptVersion.update(name, version, {
        newLabels,
      });
    } finally {
      this.cache.invalidate(name);
    }`}],
  needs:"a failing update of a cached prompt and a lookup within the time-to-live",
  breaks:"the failed update drops the cached prompt, so the next lookup needs the server",
  demo:`let down = false;
mockFetch(async (x) => down ? json({}, 404) : json({ name: "p", version: 1, type: "text", prompt: "x", labels: [], tags: [], config: {} }));
${cl}
console.error = console.warn = () => {};
await c.prompt.get("p"); down = true;
await c.prompt.update({ name: "p", version: 1, newLabels: [] }).catch(() => {});
let r; try { r = (await c.prompt.get("p")).prompt; } catch (e) { r = "rejected"; }
console.error = (...a) => process.stderr.write(a.join(" ") + "\\n");
eq(r, "x", "lookup after the failed update");` },
{ id:"p04-zero-retries", property:"P04",
  edits:[{file:pm, old:`          maxRetries,
          timeoutInSeconds: fetchTimeoutMs`, new:`          ...(maxRetries && { maxRetries }),
          timeoutInSeconds: fetchTimeoutMs`}],
  needs:"a lookup with zero retries and a server-error answer",
  breaks:"the lookup is retried with the default number of retries",
  demo:`const calls = mockFetch(async () => json({}, 500, { "retry-after": "0" }));
${cl}
console.error = console.warn = () => {};
const r = await c.prompt.get("p", { maxRetries: 0, fallback: "f" });
console.error = (...a) => process.stderr.write(a.join(" ") + "\\n");
eq(calls.length, 1, "requests");` },
{ id:"p05-placeholder-once", property:"P05",
  edits:[{file:pc, old:`          messagesWithPlaceholdersReplaced.push(
            ...(placeholderValue as ChatMessage[]),
          );`, new:`          messagesWithPlaceholdersReplaced.push(
            ...(placeholderValue as ChatMessage[]).splice(0, Infinity),
          );`}],
  needs:"compiling twice with the same placeholder list (or a prompt using the placeholder twice)",
  breaks:"the caller's list is emptied and the second compilation drops the messages",
  demo:`const C = await load("client");
const p = new C.ChatPromptClient({ name: "n", version: 1, type: "chat", prompt: [{ type: "placeholder", name: "h" }], labels: [], tags: [], config: {} });
const h = [{ role: "user", content: "a" }];
p.compile({}, { h });
eq(p.compile({}, { h }).length, 1, "messages of the second compilation");` },
{ id:"d01-short-page", property:"D01",
  edits:[{file:ds, old:`      if (itemsResponse.meta.totalPages <= page) {`, new:`      if (
        itemsResponse.meta.totalPages <= page ||
        itemsResponse.data.length < (options?.fetchItemsPageSize ?? 50)
      ) {`}],
  needs:"a server that delivers fewer items per page than requested (page size cap) and several pages",
  breaks:"only the first page of items is returned",
  demo:`mockFetch(async (x) => { if (!x.url.pathname.includes("dataset-items")) return json({ id: "d", name: "d" }); const p = Number(x.url.searchParams.get("page")); return json({ data: [{ id: "i" + p, input: p }], meta: { page: p, limit: 1, totalItems: 3, totalPages: 3 } }); });
${cl}
const d = await c.dataset.get("d", { fetchItemsPageSize: 500 });
eq(d.items.map((i) => i.id), ["i1", "i2", "i3"], "items");` },
{ id:"d02-shared-subtree", property:"D02",
  edits:[{file:ds, old:`  const nextAncestors = new Set(ancestors).add(data);`, new:`  const nextAncestors = ancestors.add(data);`}],
  needs:"the same object appearing at two positions of one field",
  breaks:"the second occurrence is taken for a cycle, so its media object is not replaced",
  demo:`const calls = mockFetch(async (x) => x.url.pathname.includes("/datasets/") ? json({ id: "d" }) : x.url.pathname.endsWith("/media") ? json({ mediaId: "x", uploadUrl: null }) : json({ id: "i" }));
${cl} const core = await load("core");
const part = { image: new core.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1, 2]), contentType: "image/png" }) };
await c.dataset.createItem({ datasetName: "d", input: [part, part] });
const b = calls.at(-1).json.input;
eq(b[1], b[0], "second occurrence");` },
{ id:"d02-upload-once-per-client", property:"D02",
  edits:[{file:ds, old:`      await Promise.all(
        [...toUpload.values()].map(({ media, field }) =>
          uploadMedia({`, new:`      const pendingUploads = [...toUpload.entries()].filter(
        ([mediaId]) => !this.uploadedMedia.has(mediaId + datasetId),
      );
      pendingUploads.forEach(([mediaId]) =>
        this.uploadedMedia.add(mediaId + datasetId),
      );
      await Promise.all(
        pendingUploads.map(([, { media, field }]) =>
          uploadMedia({`},{file:ds, old:`export class DatasetManager {
  private langfuseClient: LangfuseClient;`, new:`export class DatasetManager {
  private uploadedMedia: Set<string> = new Set();
  private langfuseClient: LangfuseClient;`}],
  needs:"two items of one dataset with the same media, the first upload failing or still running",
  breaks:"the second item is created although its media was never uploaded",
  demo:`let fail = true;
const calls = mockFetch(async (x) => x.url.pathname.includes("/datasets/") ? json({ id: "d" }) : x.url.pathname.endsWith("/media") ? (fail ? json({}, 400) : json({ mediaId: "x", uploadUrl: null })) : json({ id: "i" }));
${cl} const core = await load("core");
const input = new core.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1, 2]), contentType: "image/png" });
await c.dataset.createItem({ datasetName: "d", input }).catch(() => {});
await c.dataset.createItem({ datasetName: "d", input }).catch(() => {});
eq(calls.filter((x) => x.url.pathname.endsWith("dataset-items")).length, 0, "items created without their media");` },
{ id:"d03-content-type-from-tag", property:"D03",
  edits:[{file:mm, old:`            try {
              const parsedMediaReference =
                MediaManager.parseReferenceString(referenceString);
              const mediaData = await this.apiClient.media.get(
                parsedMediaReference.mediaId,
              );`, new:`            try {
              const parsedMediaReference =
                MediaManager.parseReferenceString(referenceString);
              const { mediaId } = parsedMediaReference;
              const known = mediaById.get(mediaId);
              const mediaData =
                known && new Date(known.urlExpiry).getTime() > Date.now()
                  ? known
                  : await this.apiClient.media.get(mediaId);
              mediaById.set(mediaId.toLowerCase(), mediaData);`},{file:mm, old:`    const traverse = async <T>(obj: T, depth: number): Promise<T> => {`, new:`    const mediaById = new Map<
      string,
      Awaited<ReturnType<LangfuseAPIClient["media"]["get"]>>
    >();

    const traverse = async <T>(obj: T, depth: number): Promise<T> => {`}],
  needs:"two media whose ids differ only in case, the all-lowercase one resolved later in the same value",
  breaks:"the second reference is replaced by the first media's data",
  demo:`mockFetch(async (x) => x.url.pathname.includes("/media/") ? json({ mediaId: "m", contentType: "text/plain", url: "http://s.test/" + x.url.pathname.split("/").at(-1), urlExpiry: "2999-01-01T00:00:00Z", contentLength: 1, uploadedAt: "x" }) : (x.url.pathname.endsWith("ab") && await sleep(1), new Response(x.url.pathname)));
${cl}
const ref = (id) => "@@@langfuseMedia:type=text/plain|id=" + id + "|source=bytes@@@";
let gate; const first = await c.media.resolveReferences({ obj: [ref("AB")], resolveWith: "base64DataUri" });
const proxy = []; proxy.push(ref("AB"));
const r = await c.media.resolveReferences({ obj: { a: ref("AB"), b: { c: { d: [[ref("ab")]] } } }, resolveWith: "base64DataUri" });
const dec = (s) => atob(s.split(",")[1]);
eq([dec(r.a), dec(r.b.c.d[0][0])], ["/AB", "/ab"], "contents");`, skip:true },
{ id:"e02-run-scores-first-item", property:"E02",
  edits:[{file:em, old:`    const datasetRunId = itemResults.find(
      (item) => item.datasetRunId,
    )?.datasetRunId;`, new:`    const datasetRunId = itemResults[0]?.datasetRunId;`}],
  needs:"a dataset run whose first item's link request failed",
  breaks:"run evaluations are not scored on the dataset run",
  demo:`let n = 0;
const calls = mockFetch(async (x) => x.url.pathname.endsWith("dataset-run-items") ? (n++ ? json({ id: "l", datasetRunId: "r" }) : json({}, 400)) : x.url.pathname.endsWith("projects") ? json({ data: [{ id: "p" }] }) : ${ok});
${cl}
await otel(); console.error = () => {};
await c.experiment.run({ name: "e", maxConcurrency: 1, data: [1, 2].map((i) => ({ id: "i" + i, datasetId: "d", input: i })), task: async () => 1, runEvaluators: [async () => ({ name: "run", value: 1 })] });
console.error = (...a) => process.stderr.write(a.join(" ") + "\\n");
const scores = calls.filter((x) => x.json?.batch).flatMap((x) => x.json.batch.map((b) => b.body));
eq(scores.map((s) => s.datasetRunId), ["r"], "run scores");` },
{ id:"e03-item-id-cache", property:"E03",
  edits:[{file:em, old:`          datasetItemId || (await createExperimentItemId(input));`, new:`          datasetItemId ||
          (typeof input === "object" && input !== null
            ? (this.itemIds.get(input) ??
              this.itemIds
                .set(input, await createExperimentItemId(input))
                .get(input)!)
            : await createExperimentItemId(input));`},{file:em, old:`export class ExperimentManager {`, new:`export class ExperimentManager {
  private itemIds: WeakMap<object, string> = new WeakMap();
`}],
  needs:"an input object that is changed and used again for a later item or run",
  breaks:"the second item's spans carry the first item's id",
  demo:`mockFetch(async () => ${ok});
${cl}
const o = await otel();
const input = { a: 1 };
await c.experiment.run({ name: "e", data: [{ input }], task: async () => 1 });
input.a = 2;
await c.experiment.run({ name: "e", data: [{ input }], task: async () => 1 });
await o.processor.forceFlush();
const ids = o.exported.map((s) => s.attributes["langfuse.experiment.item.id"]);
assert(new Set(ids).size === 2, "two different inputs have one item id " + ids);` },
{ id:"o01-parallel-flush", property:"O01",
  edits:[{file:sp, old:`  public async forceFlush(): Promise<void> {
    await this.flush();

    return this.processor.forceFlush();`, new:`  public async forceFlush(): Promise<void> {
    await Promise.all([this.flush(), this.processor.forceFlush()]);`}],
  needs:"a flush while the masking function of an ended span is still running",
  breaks:"the flush resolves before the span has been handed to the exporter",
  demo:`${tr}
const o = await otel({ mask: async ({ data }) => { await sleep(20); return data; } });
T.startObservation("a", { input: "x" }).end();
await o.processor.forceFlush();
eq(o.exported.length, 1, "exported spans");` },
{ id:"o02-media-before-mask", property:"O02",
  edits:[{file:sp, old:`    await this.applyMaskInPlace(span);

    if (this.mediaUploadEnabled) {
      await this.mediaService.process(span);
    }
`, new:`    if (this.mediaUploadEnabled) {
      await this.mediaService.process(span);
    }

    await this.applyMaskInPlace(span);
`}],
  needs:"a masking function that removes media from a field, with media upload on",
  breaks:"the media bytes are uploaded although the masking function removed them",
  demo:`const calls = mockFetch(async () => json({ mediaId: "x", uploadUrl: null }));
${tr}
const o = await otel({ mask: () => "***" });
T.startObservation("a", { input: "data:image/png;base64,AQID" }).end();
await o.processor.forceFlush();
eq(calls.length, 0, "media requests for masked data");` },
{ id:"o03-upload-seen", property:"O03",
  edits:[{file:ms, old:`    const uploadPromise: Promise<void> = this.handleUpload({`, new:`    const seen = this.scheduled.get(media) ?? params.field;
    const key = \`\${span.spanContext().traceId}:\${media.contentLength}:\${media._contentBytes?.[0]}:\${media._contentBytes?.at(-1)}:\${seen}\`;
    if (this.scheduledKeys.has(key)) return;
    this.scheduledKeys.add(key);
    this.scheduled.set(media, field);

    const uploadPromise: Promise<void> = this.handleUpload({`},{file:ms, old:`  private pendingMediaUploads: Set<Promise<void>> = new Set();`, new:`  private pendingMediaUploads: Set<Promise<void>> = new Set();
  private scheduled: WeakMap<LangfuseMedia, string> = new WeakMap();
  private scheduledKeys: Set<string> = new Set();`}],
  needs:"two different media of the same length with the same first and last byte in one trace and field",
  breaks:"the second is exported as a reference but never uploaded",
  demo:`const calls = mockFetch(async () => json({ mediaId: "x", uploadUrl: null }));
${tr}
const o = await otel();
T.startObservation("a", { input: "data:image/png;base64,AQID data:image/png;base64,AQMD" }).end();
await o.processor.forceFlush();
eq(calls.length, 2, "media registrations");` },
{ id:"c02-length-as-string", property:"C02",
  edits:[{file:mu, old:`        attempt < maxRetries &&
        uploadResponse.status !== 200 &&
        uploadResponse.status !== 201
      ) {`, new:`        attempt < maxRetries &&
        (uploadResponse.status >= 500 || uploadResponse.status === 429)
      ) {`}],
  needs:"a transfer answered with a client-error status (such as 403 or 409) that would succeed when repeated",
  breaks:"the failed transfer is not repeated",
  demo:`const core = await load("core");
const media = new core.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1, 2]), contentType: "image/png" });
const id = await media.getId(); let puts = 0;
mockFetch(async (x) => x.method === "PUT" ? new Response("", { status: puts++ ? 200 : 409 }) : x.method === "POST" ? json({ mediaId: id, uploadUrl: "http://s.test/x" }) : json({}));
const api = new core.LangfuseAPIClient({ baseUrl: "http://langfuse.test", environment: "", username: "a", password: "b" });
await core.uploadMedia({ apiClient: api, media, field: "input", baseDelay: 1 }).catch(() => {});
eq(puts, 2, "transfers");` },
{ id:"a02-model-cleared", property:"A02",
  edits:[{file:ot, old:`            generation.update({
              model: modelFromResponse,`, new:`            model ??= modelFromResponse;

            generation.update({
              model,`},{file:ot, old:`    let output: unknown = null;

    try {`, new:`    let output: unknown = null;
    let model: string | undefined = lastStreamModel;

    try {`},{file:ot, old:`      generation.end();
    }
  }

  return withMembersOf(
    tracedOutputGenerator(),`, new:`      lastStreamModel = model;
      generation.end();
    }
  }

  return withMembersOf(
    tracedOutputGenerator(),`},{file:ot, old:`/**
 * Generic method type for any function that can be traced.`, new:`let lastStreamModel: string | undefined;

/**
 * Generic method type for any function that can be traced.`}],
  needs:"two response streams of different models one after the other",
  breaks:"the second generation carries the first call's model",
  demo:`const { observeOpenAI } = await load("openai");
const o = await otel();
const mk = (m) => observeOpenAI({ responses: { create: async () => (async function* () { yield { response: { model: m, output_text: "x" } }; })() } }).responses.create({ model: "gpt", stream: true });
for (const m of ["m1", "m2"]) for await (const _ of await mk(m)) ;
await o.processor.forceFlush();
eq(o.exported.map((s) => s.attributes["langfuse.observation.model.name"]), ["m1", "m2"], "models");` },
{ id:"a03-usage-zero", property:"A03",
  edits:[{file:ot, old:`            usage = rawChunk.usage as OpenAI.CompletionUsage | null;`, new:`            usage = usage ?? (rawChunk.usage as OpenAI.CompletionUsage | null);`}],
  needs:"a stream whose chunks report usage more than once",
  breaks:"the first instead of the last usage is recorded",
  demo:`const { observeOpenAI } = await load("openai");
const o = await otel();
const u = (n) => ({ prompt_tokens: 1, completion_tokens: n, total_tokens: n + 1 });
const s = await observeOpenAI({ chat: { completions: { create: async () => (async function* () { for (const n of [1, 2]) yield { choices: [{ index: 0, delta: { content: "x" } }], usage: u(n) }; })() } } }).chat.completions.create({ model: "m", messages: [], stream: true });
for await (const _ of s) ;
await o.processor.forceFlush();
eq(JSON.parse(o.exported[0].attributes["langfuse.observation.usage_details"]).output, 2, "output tokens");` },
{ id:"l01-error-leaves-run", property:"L02",
  edits:[{file:lh, old:`    if (registeredPrompt && parentRunId) {
      this.deregisterLangfusePrompt(parentRunId);
    }`, new:`    if (registeredPrompt && parentRunId && !registeredPrompt.isFallback) {
      this.linkedPromptRuns.set(runId, parentRunId);
    }`},{file:lh, old:`  private completionStartTimes: Record<string, Date> = {};`, new:`  private completionStartTimes: Record<string, Date> = {};
  private linkedPromptRuns: Map<string, string> = new Map();`},{file:lh, old:`      this.logger.debug(\`LLM end with ID: \${runId}\`);
`, new:`      this.logger.debug(\`LLM end with ID: \${runId}\`);
      this.deregisterLangfusePrompt(this.linkedPromptRuns.get(runId) ?? "");
      this.linkedPromptRuns.delete(runId);
`}],
  needs:"a linked model run that fails (or is still running) when another model run with the same parent starts",
  breaks:"the second model run is linked to the prompt as well",
  demo:`const { CallbackHandler } = await load("langchain");
const o = await otel();
const h = new CallbackHandler();
const ser = { id: ["x"], lc: 1, type: "not_implemented" };
await h.handleChainStart(ser, { a: 1 }, "root");
await h.handleChainStart(ser, { a: 1 }, "tmpl", "root", [], { langfusePrompt: { name: "p", version: 1, isFallback: false } });
await h.handleChainEnd({ b: 1 }, "tmpl");
await h.handleLLMStart(ser, ["x"], "l1", "root", {}); await h.handleLLMError(new Error("x"), "l1");
await h.handleLLMStart(ser, ["x"], "l2", "root", {}); await h.handleLLMEnd({ generations: [[{ text: "y" }]] }, "l2");
await h.handleChainEnd({ b: 1 }, "root");
await o.processor.forceFlush();
eq(o.exported.filter((s) => s.attributes["langfuse.observation.prompt.name"]).length, 1, "linked model runs");` },
{ id:"b01-batch-calls", property:"B01",
  edits:[{file:br, old:`    const hasSuccess = response.successes.some(
      (success) => success.id === event.id,
    );`, new:`    const hasSuccess =
      response.successes.some((success) => success.id === event.id) ||
      response.successes.some((success) => success.id === scoreId);`}],
  needs:"a server answer that lists the score's id instead of the event's id",
  breaks:"the call resolves although the server did not confirm the event", skip:true, demo:`` },
].filter((d) => !d.skip);
