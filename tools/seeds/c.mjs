const em="packages/client/src/experiment/ExperimentManager.ts", rc="packages/client/src/experiment/RunnerContext.ts", ds="packages/client/src/dataset/index.ts", pm="packages/client/src/prompt/promptManager.ts", lc="packages/client/src/LangfuseClient.ts", sp="packages/otel/src/span-processor.ts", pr="packages/core/src/propagation.ts", tp="packages/tracing/src/tracerProvider.ts", sc="packages/client/src/score/index.ts", mu="packages/core/src/mediaUpload.ts", ti="packages/tracing/src/index.ts", lo="packages/core/src/logger/index.ts", ad="packages/client/src/experiment/adapters.ts";
const tr=`const T = await load("tracing");`;
const cl=`const C = await load("client"); const c = new C.LangfuseClient();`;
export default [
{ id:"e01-worker-dies", property:"E01",
  edits:[{file:em, old:`      while (nextIndex < data.length) {
        const index = nextIndex++;
        const item = data[index];

        try {
          itemResultsByIndex`, new:`      let failed = false;
      while (nextIndex < data.length && !failed) {
        const index = nextIndex++;
        const item = data[index];

        try {
          itemResultsByIndex`},{file:em, old:`        } catch (reason) {
          const errorMessage =
            reason instanceof Error ? reason.message : String(reason);
          this.logger.error(
            \`Task failed`, new:`        } catch (reason) {
          failed = nextIndex >= maxConcurrency * 2;
          const errorMessage =
            reason instanceof Error ? reason.message : String(reason);
          this.logger.error(
            \`Task failed`}],
  needs:"failing items in the second round of a run with more items than the concurrency limit, on every worker",
  breaks:"items after the failing ones are never run",
  demo:`mockFetch(async () => json({ successes: [], errors: [] }, 207));
${cl}
await otel();
const ran = [];
await c.experiment.run({ name: "e", data: Array.from({ length: 5 }, (_, i) => ({ input: i })), maxConcurrency: 1, task: async ({ input }) => { ran.push(input); if (input === 1) throw new Error("x"); return input; } });
eq(ran, [0, 1, 2, 3, 4], "items run");` },
{ id:"e05-expected-falsy", property:"E05",
  edits:[{file:em, old:`        if (expectedOutput !== undefined) {`, new:`        if (expectedOutput) {`}],
  needs:"an item whose expected output is a falsy value (0, false, null)",
  breaks:"the expected output is missing on the item's root observation",
  demo:`mockFetch(async () => json({ successes: [], errors: [] }, 207));
${cl}
const o = await otel();
await c.experiment.run({ name: "e", data: [{ input: 1, expectedOutput: false }], task: async () => true });
await o.processor.forceFlush();
const root = o.exported.find((s) => s.name === "experiment-item-run");
eq(root.attributes["langfuse.experiment.item.expected_output"], "false", "expected output");` },
{ id:"e05-link-metadata-merge", property:"E05",
  edits:[{file:em, old:`                metadata: params.experimentMetadata,
                datasetItemId,`, new:`                metadata: item.metadata
                  ? { ...item.metadata, ...params.experimentMetadata }
                  : params.experimentMetadata,
                datasetItemId,`}],
  needs:"a dataset item with own metadata, linked to a dataset run",
  breaks:"the run is linked with the item's metadata mixed into the run metadata",
  demo:`const calls = mockFetch(async (x) => x.url.pathname.endsWith("dataset-run-items") ? json({ id: "l", datasetRunId: "r" }) : x.url.pathname.endsWith("projects") ? json({ data: [{ id: "p" }] }) : json({ successes: [], errors: [] }, 207));
${cl}
await otel();
await c.experiment.run({ name: "e", metadata: { model: "m" }, data: [{ id: "i", datasetId: "d", input: 1, metadata: { split: "a" } }], task: async () => 1 });
eq(calls.find((x) => x.url.pathname.endsWith("dataset-run-items")).json.metadata, { model: "m" }, "run metadata");` },
{ id:"e06-version-with-own-data", property:"E06",
  edits:[{file:rc, old:`      datasetVersion: params.datasetVersion ?? this.datasetVersion,`, new:`      datasetVersion: params.data?.length
        ? params.datasetVersion
        : (params.datasetVersion ?? this.datasetVersion),`}],
  needs:"a runner context with a dataset version and a call that gives its own data but no version",
  breaks:"the context's default dataset version is not applied",
  demo:`const calls = mockFetch(async (x) => x.url.pathname.endsWith("dataset-run-items") ? json({ id: "l", datasetRunId: "r" }) : x.url.pathname.endsWith("projects") ? json({ data: [{ id: "p" }] }) : json({ successes: [], errors: [] }, 207));
${cl}
await otel();
const ctx = new C.RunnerContext({ client: c, datasetVersion: "2026-01-01T00:00:00Z" });
await ctx.runExperiment({ name: "e", data: [{ id: "i", datasetId: "d", input: 1 }], task: async () => 1 });
eq(calls.find((x) => x.url.pathname.endsWith("dataset-run-items")).json.datasetVersion, "2026-01-01T00:00:00Z", "version");` },
{ id:"e06-autoevals-params", property:"E06",
  edits:[{file:ad, old:`    const score = await autoevalEvaluator({
      ...(params ?? {}),
      input: langfuseEvaluatorParams.input,
      output: langfuseEvaluatorParams.output,
      expected: langfuseEvaluatorParams.expectedOutput,
    });`, new:`    const score = await autoevalEvaluator(
      Object.assign(params ?? {}, {
        input: langfuseEvaluatorParams.input,
        output: langfuseEvaluatorParams.output,
        expected: langfuseEvaluatorParams.expectedOutput,
      }),
    );`}],
  needs:"an AutoEvals evaluator with parameters evaluating several items at the same time",
  breaks:"all items share one argument object, so an evaluator that reads it after an await sees another item's values",
  demo:`const C = await load("client");
const ev = C.createEvaluatorFromAutoevals(async (a) => { await sleep(5); return { name: "n", score: a.output }; }, { model: "m" });
const r = await Promise.all([1, 2, 3].map((output) => ev({ input: 0, output })));
eq(r.map((x) => x.value), [1, 2, 3], "scores");` },
{ id:"d04-link-cached-ids", property:"D04",
  edits:[{file:ds, old:`    const linkFunction = async (`, new:`    const observationIdByTrace = new Map<string, string>();

    const linkFunction = async (`},{file:ds, old:`      return await this.langfuseClient.api.datasetRunItems.create({
        runName,
        datasetItemId: item.id,
        traceId,
        observationId: spanId,`, new:`      const observationId = observationIdByTrace.get(traceId) ?? spanId;
      observationIdByTrace.set(traceId, observationId);

      return await this.langfuseClient.api.datasetRunItems.create({
        runName,
        datasetItemId: item.id,
        traceId,
        observationId,`}],
  needs:"the same dataset item linked twice to different observations of one trace",
  breaks:"the second link names the first observation",
  demo:`const calls = mockFetch(async (x) => x.url.pathname.includes("/dataset-items") ? json({ data: [{ id: "i1", input: 1 }], meta: { page: 1, totalPages: 1, limit: 50, totalItems: 1 } }) : x.url.pathname.includes("/datasets/") ? json({ id: "d", name: "d" }) : json({ id: "l" }));
${cl} ${tr}
await otel();
const d = await c.dataset.get("d");
const a = T.startObservation("a"), b = a.startObservation("b");
await d.items[0].link(a, "r1"); await d.items[0].link(b, "r2");
const ls = calls.filter((x) => x.url.pathname.endsWith("dataset-run-items")).map((x) => x.json.observationId);
eq(ls, [a.id, b.id], "linked observations");` },
{ id:"p07-message-type-kept", property:"P07",
  edits:[{file:pm, old:`                return {
                  ...item,
                  type: ChatMessageType.ChatMessage,
                } as ChatMessage;`, new:`                const { role, content } = item as ChatMessage;

                return {
                  role,
                  content,
                  type: ChatMessageType.ChatMessage,
                } as ChatMessage;`}],
  needs:"a chat message with further fields (such as tool calls or a name)",
  breaks:"the further fields are not sent",
  demo:`const calls = mockFetch(async (x) => json({ ...x.json, version: 1, labels: [], tags: [], config: {} }));
${cl}
await c.prompt.create({ name: "n", type: "chat", prompt: [{ role: "assistant", content: "x", tool_calls: [{ id: "t" }] }] });
eq(calls[0].json.prompt[0].tool_calls, [{ id: "t" }], "tool calls");` },
{ id:"k01-legacy-env-first", property:"K01",
  edits:[{file:lc, old:`      getEnv("LANGFUSE_BASE_URL") ??
      getEnv("LANGFUSE_BASEURL") ?? // legacy v2`, new:`      getEnv("LANGFUSE_BASEURL") ?? // legacy v2
      getEnv("LANGFUSE_BASE_URL") ??`}],
  needs:"both the current and the legacy base address variable set",
  breaks:"requests go to the legacy address",
  demo:`process.env.LANGFUSE_BASEURL = "http://legacy.test";
const calls = mockFetch(async (x) => json({ id: "t" }));
${cl}
await c.api.trace.get("t");
eq(calls[0].url.host, "langfuse.test", "host");` },
{ id:"k01-project-id-static", property:"K01",
  edits:[{file:lc, old:`  private projectId: string | null = null;`, new:`  private static projectIds: Map<string, string> = new Map();
  private projectId: string | null = null;`},{file:lc, old:`    let projectId = this.projectId;`, new:`    let projectId =
      this.projectId ?? LangfuseClient.projectIds.get(this.baseUrl) ?? null;`},{file:lc, old:`      this.projectId = projectId;`, new:`      this.projectId = projectId;
      LangfuseClient.projectIds.set(this.baseUrl, projectId);`}],
  needs:"two clients for two projects on the same server in one process",
  breaks:"the second client's trace links point to the first client's project",
  demo:`mockFetch(async (x) => { const k = atob(new Headers(x.headers).get("authorization").slice(6)).split(":")[0]; return json({ data: [{ id: "project-of-" + k }] }); });
const C = await load("client");
const a = new C.LangfuseClient({ publicKey: "pk1", secretKey: "s" }), b = new C.LangfuseClient({ publicKey: "pk2", secretKey: "s" });
await a.getTraceUrl("t");
assert((await b.getTraceUrl("t")).includes("project-of-pk2"), "wrong project in trace link");` },
{ id:"k02-debug-headers", property:"K02",
  edits:[{file:sp, old:`      flushIntervalSeconds,
      mediaUploadEnabled,
    });`, new:`      flushIntervalSeconds,
      mediaUploadEnabled,
      additionalHeaders: params?.additionalHeaders,
    });`}],
  needs:"debug logging and additional headers (such as a gateway token) on the span processor",
  breaks:"the header values are written to the log",
  demo:`const core = await load("core");
core.configureGlobalLogger({ level: core.LogLevel.DEBUG });
const lines = []; console.debug = (...a) => lines.push(JSON.stringify(a));
await otel({ additionalHeaders: { "x-token": "TOPSECRET" } });
assert(!lines.join().includes("TOPSECRET"), "header value logged");` },
{ id:"g01-logger-captured", property:"G01",
  edits:[{file:sc, old:`  get logger() {
    return getGlobalLogger();
  }
`, new:`  private readonly logger = getGlobalLogger();
`}],
  needs:"reconfiguring the global logger after the client was created, and a failing score request",
  breaks:"score messages keep following the level in force when the client was created",
  demo:`mockFetch(async () => json({ message: "bad" }, 400));
${cl}
const core = await load("core");
let n = 0; for (const k of ["error", "warn", "info", "debug"]) console[k] = () => n++;
core.configureGlobalLogger({ level: core.LogLevel.NONE });
c.score.create({ name: "s", value: 1, traceId: "t" });
await c.flush();
const seen = n; console.error = (...a) => process.stderr.write(a.join(" ") + "\\n");
eq(seen, 0, "messages at level NONE");` },
{ id:"g01-setlevel-after-reset", property:"G01",
  edits:[{file:lo, old:`    this.config = {
      enableTimestamp: true,
      ...config,
    };`, new:`    config.enableTimestamp ??= true;
    this.config = config;`}],
  needs:"two loggers made from one configuration object, and a level change of one of them",
  breaks:"the level of the other logger changes as well",
  demo:`const core = await load("core");
const conf = { level: core.LogLevel.WARN };
const a = core.createLogger(conf), b = core.createLogger(conf);
a.setLevel(core.LogLevel.NONE);
eq(b.getLevel(), core.LogLevel.WARN, "level of the other logger");` },
{ id:"o06-media-env-case", property:"O06",
  edits:[{file:sp, old:`["false", "0"].includes(envMediaUploadEnabled.toLowerCase())`, new:`["false", "0"].includes(envMediaUploadEnabled)`}],
  needs:"LANGFUSE_MEDIA_UPLOAD_ENABLED written as False or FALSE",
  breaks:"media are uploaded although the switch is off",
  demo:`process.env.LANGFUSE_MEDIA_UPLOAD_ENABLED = "False";
const calls = mockFetch(async () => json({ mediaId: "x", uploadUrl: null }));
${tr}
const o = await otel();
T.startObservation("a", { input: "data:image/png;base64,AQID" }).end();
await o.processor.forceFlush();
eq(calls.length, 0, "media requests");` },
{ id:"o06-flush-at-zero-env", property:"O06",
  edits:[{file:sp, old:`    const flushAt = params?.flushAt ?? getEnv("LANGFUSE_FLUSH_AT");`, new:`    const flushAt = getEnv("LANGFUSE_FLUSH_AT") ?? params?.flushAt;`}],
  needs:"a batch size given both in the constructor and in the environment",
  breaks:"the environment wins over the constructor",
  demo:`process.env.LANGFUSE_FLUSH_AT = "100";
${tr}
const o = await otel({ flushAt: 2 });
T.startObservation("a").end(); T.startObservation("b").end();
await sleep(300);
eq(o.exported.length, 2, "spans exported at the batch size");` },
{ id:"o04-ended-parent-root", property:"O04",
  edits:[{file:sp, old:`    this.spanExportExpectationById.delete(span.spanContext().spanId);

    const processEndedSpanPromise`, new:`    const processEndedSpanPromise`},{file:sp, old:`    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);
`, new:`    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);
    if (this.spanExportExpectationById.size > 64) {
      this.spanExportExpectationById.clear();
    }
`}],
  needs:"more than 64 spans started before, and a child started under a parent that is still open",
  breaks:"the child is marked as an application root although its parent is exported",
  demo:`${tr}
const o = await otel();
const a = T.startObservation("root");
for (let i = 0; i < 70; i++) a.startObservation("c" + i).end();
a.end();
await o.processor.forceFlush();
const roots = o.exported.filter((s) => s.attributes["langfuse.internal.is_app_root"]).map((s) => s.name);
eq(roots, ["root"], "application roots");` },
{ id:"t03-tags-shared", property:"T03",
  edits:[{file:pr, old:`    return [...new Set([...existingTags, ...newTags])];`, new:`    for (const tag of newTags) {
      if (!existingTags.includes(tag)) existingTags.push(tag);
    }

    return existingTags;`}],
  needs:"a nested scope adding tags, and an observation started in the outer scope afterwards (or concurrently)",
  breaks:"the inner scope's tags leak into the outer scope",
  demo:`${tr}
const o = await otel();
T.propagateAttributes({ tags: ["a"] }, () => {
  T.propagateAttributes({ tags: ["b"] }, () => T.startObservation("inner").end());
  T.startObservation("outer").end();
});
await o.processor.forceFlush();
eq(o.exported.find((s) => s.name === "outer").attributes["langfuse.trace.tags"], ["a"], "outer tags");` },
{ id:"t05-tracer-cached", property:"T05",
  edits:[{file:tp, old:`export function getLangfuseTracer() {
  return getLangfuseTracerProvider().getTracer(
    LANGFUSE_TRACER_NAME,
    LANGFUSE_SDK_VERSION,
  );
}`, new:`export function getLangfuseTracer() {
  const { isolatedTracerProvider } = getGlobalState();

  if (isolatedTracerProvider) {
    cachedTracer ??= isolatedTracerProvider.getTracer(
      LANGFUSE_TRACER_NAME,
      LANGFUSE_SDK_VERSION,
    );

    return cachedTracer;
  }

  return getLangfuseTracerProvider().getTracer(
    LANGFUSE_TRACER_NAME,
    LANGFUSE_SDK_VERSION,
  );
}

let cachedTracer: ReturnType<TracerProvider["getTracer"]> | undefined;`},{file:tp, old:`  getGlobalState().isolatedTracerProvider = provider;`, new:`  getGlobalState().isolatedTracerProvider = provider;
  if (provider === null) cachedTracer = undefined;`}],
  needs:"one isolated provider replaced by another without a reset in between",
  breaks:"observations keep going to the first isolated provider",
  demo:`${tr}
const { NodeTracerProvider, SimpleSpanProcessor, InMemorySpanExporter } = req("@opentelemetry/sdk-trace-node");
const mk = () => { const e = new InMemorySpanExporter(); return [new NodeTracerProvider({ spanProcessors: [new SimpleSpanProcessor(e)] }), e]; };
const [p1, e1] = mk(), [p2, e2] = mk();
T.setLangfuseTracerProvider(p1); T.startObservation("a").end();
T.setLangfuseTracerProvider(p2); T.startObservation("b").end();
eq([e1.getFinishedSpans().length, e2.getFinishedSpans().length], [1, 1], "spans per provider");` },
{ id:"t05-seed-normalised", property:"T05",
  edits:[{file:ti, old:`    const data = new TextEncoder().encode(seed);`, new:`    const data = new TextEncoder().encode(seed.normalize("NFC"));`}],
  needs:"two seeds that differ only in Unicode normalisation",
  breaks:"different seeds give the same trace id, and other processes compute another id",
  demo:`${tr}
assert((await T.createTraceId("e\\u0301")) !== (await T.createTraceId("\\u00e9")), "two seeds give one id");` },
{ id:"s03-timer-kept", property:"S03",
  edits:[{file:sc, old:`      if (this.flushTimer) {
        clearTimeout(this.flushTimer);
        this.flushTimer = null;
      }

      while`, new:`      if (this.flushTimer && this.eventQueue.length > 0) {
        clearTimeout(this.flushTimer);
        this.flushTimer = null;
      }

      while`}],
  needs:"the flush timer firing with an empty queue... ",
  breaks:"", skip:true,
  demo:`` },
{ id:"s03-inflight-defers", property:"S03",
  edits:[{file:sc, old:`    } else if (!this.flushTimer) {`, new:`    } else if (!this.flushTimer && this.pendingBatches.size < 2) {`}],
  needs:"two score requests unanswered when a further score is created",
  breaks:"no flush timer is started, so the score stays in the queue until the threshold or an explicit flush",
  demo:`process.env.LANGFUSE_FLUSH_INTERVAL = "0.05";
let n = 0; mockFetch((x) => { n += x.json.batch.length; return n <= 2 ? new Promise(() => {}) : json({ successes: [], errors: [] }, 207); });
${cl}
for (let i = 0; i < 3; i++) { c.score.create({ name: "s" + i, value: 1, traceId: "t" }); await sleep(150); }
eq(n, 3, "scores sent");` },
].filter((d) => !d.skip);
