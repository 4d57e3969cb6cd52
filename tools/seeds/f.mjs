const em="packages/client/src/experiment/ExperimentManager.ts", ds="packages/client/src/dataset/index.ts", pm="packages/client/src/prompt/promptManager.ts", pcache="packages/client/src/prompt/promptCache.ts", pc="packages/client/src/prompt/promptClients.ts", sp="packages/otel/src/span-processor.ts", ms="packages/otel/src/MediaService.ts", sc="packages/client/src/score/index.ts", mu="packages/core/src/mediaUpload.ts", md="packages/core/src/media.ts", mm="packages/client/src/media/index.ts", ot="packages/openai/src/traceMethod.ts", op="packages/openai/src/parseOpenAI.ts", lh="packages/langchain/src/CallbackHandler.ts", br="packages/browser/src/index.ts", pr="packages/core/src/propagation.ts", at="packages/tracing/src/attributes.ts", ut="packages/core/src/utils.ts", rr="packages/core/src/api/core/fetcher/requestWithRetries.ts", ti="packages/tracing/src/index.ts";
const tr=`const T = await load("tracing");`;
const cl=`const C = await load("client"); const c = new C.LangfuseClient();`;
const ok=`json({ successes: [], errors: [] }, 207)`;
const st=`const X = await otel(); const api = X.api; const ended = async () => { await X.processor.forceFlush(); return X.exported; };`;
export default [
{ id:"o03-shutdown-media", property:"O03",
  edits:[{file:sp, old:`  public async shutdown(): Promise<void> {
    await this.flush();`, new:`  public async shutdown(): Promise<void> {
    if (this.pendingEndedSpans.size > 0) {
      await this.flush();
    }`}],
  needs:"a shutdown while no span is being processed but an upload is still under way",
  breaks:"shutdown resolves before the upload has finished",
  demo:`${tr} const core = await load("core");
let put = false;
const m = new core.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1, 2, 3]), contentType: "image/png" });
mockFetch(async (x) => { if (x.method === "PUT") { await sleep(200); put = true; return new Response("", { status: 200 }); } if (x.method === "PATCH") return new Response("{}", { status: 200 }); return json({ mediaId: await m.getId(), uploadUrl: "http://up.test/x" }); });
${st}
T.startObservation("a", { input: await m.base64DataUri }).end();
await sleep(80);
await X.processor.shutdown();
eq(put, true, "uploaded");` },
{ id:"o03-field-by-key", property:"O03",
  edits:[{file:ms, old:`            field: mediaAttribute.includes("input")
              ? "input"
              : mediaAttribute.includes("output")`, new:`            field: key.includes("input")
              ? "input"
              : key.includes("output")`}],
  needs:"media in metadata under a key whose name contains input or output",
  breaks:"the media is registered for the wrong field",
  demo:`${tr} const core = await load("core"); const reg = [];
const m = new core.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1, 2, 3]), contentType: "image/png" });
mockFetch(async (x) => { if (x.method === "POST") { reg.push(x.json.field); return json({ mediaId: await m.getId(), uploadUrl: null }); } return new Response("{}", { status: 200 }); });
${st}
T.startObservation("a", { metadata: { input_image: m.base64DataUri } }).end();
await ended();
eq(reg, ["metadata"], "fields");` },
{ id:"c02-gcs-includes", property:"C02",
  edits:[{file:mu, old:`        parsedHostname === "storage.googleapis.com" ||
        parsedHostname.endsWith(".storage.googleapis.com");`, new:`        parsedHostname.includes("storage.googleapis.com");`}],
  needs:"an upload address whose host merely contains storage.googleapis.com",
  breaks:"the transfer lacks the checksum header",
  demo:`const core = await load("core"); let h;
const m = new core.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1, 2]), contentType: "image/png" });
mockFetch(async (x) => { if (x.method === "PUT") { h = x.headers; return new Response("", { status: 200 }); } if (x.method === "PATCH") return new Response("{}", { status: 200 }); return json({ mediaId: await m.getId(), uploadUrl: "https://storage.googleapis.com.proxy.example/x" }); });
${cl}
await core.uploadMedia({ apiClient: c.api, media: m, field: "input", traceId: "t" });
eq(h["x-amz-checksum-sha256"], await m.getSha256Hash(), "checksum header");` },
{ id:"c01-501-final", property:"C01",
  edits:[{file:rr, old:`[408, 429].includes(response.status) || response.status >= 500`, new:`[408, 429].includes(response.status) || (response.status >= 500 && response.status < 599)`}],
  needs:"a server error status of 599 or above",
  breaks:"the request is not repeated",
  demo:`let n = 0; const s = globalThis.setTimeout; globalThis.setTimeout = (f, ms, ...a) => s(f, Math.min(ms, 5), ...a);
mockFetch(async () => { n++; return json({ message: "x" }, 599); });
${cl}
await c.api.prompts.get("p").catch(() => {});
eq(n, 3, "requests");` },
{ id:"a03-first-token-content", property:"A03",
  edits:[{file:ot, old:`        completionStartTime = completionStartTime ?? new Date();
`, new:`        if (parseChunk(rawChunk).data.length > 0 || (rawChunk as any)?.response) {
          completionStartTime = completionStartTime ?? new Date();
        }
`}],
  needs:"a stream whose first chunk has no content",
  breaks:"the time of the first token is that of a later chunk",
  demo:`const O = await load("openai"); ${st}
let first;
async function* s() { first = Date.now(); yield { choices: [{ index: 0, delta: { role: "assistant", content: "" } }] }; await sleep(300); yield { choices: [{ index: 0, delta: { content: "a" } }] }; }
const w = O.observeOpenAI({ chat: { completions: { create: async () => s() } } });
for await (const _ of await w.chat.completions.create({ model: "m", messages: [], stream: true })) void _;
const t = new Date(JSON.parse((await ended())[0].attributes["langfuse.observation.completion_start_time"])).getTime();
eq(t - first < 150, true, "time of the first chunk");` },
{ id:"b01-environment-blank", property:"B01",
  edits:[{file:br, old:`        ...body,
        id: scoreId,
        environment: body.environment ?? this.environment,`, new:`        environment: this.environment,
        ...body,
        id: scoreId,`}],
  needs:"a score whose environment is given as undefined with an environment configured for the client",
  breaks:"the score is sent without the client's environment",
  demo:`const B = await load("browser"); let sent;
const c = new B.LangfuseBrowserClient({ publicKey: "pk", environment: "prod", fetch: async (u, i) => { const b = JSON.parse(i.body).batch; sent = b[0].body; return json({ successes: [{ id: b[0].id, status: 201 }], errors: [] }, 207); } });
await c.score({ traceId: "t", name: "n", value: 1, environment: undefined });
eq(sent.environment, "prod", "environment");` },
{ id:"t03-prompt-version-zero", property:"T03",
  edits:[{file:pr, old:`  if (typeof promptVersion === "number") {`, new:`  if (promptVersion && typeof promptVersion === "number") {`}],
  needs:"a propagated prompt link with version 0",
  breaks:"spans of the scope get the prompt's name without its version (or another scope's version)",
  demo:`${tr} ${st}
let inner;
T.propagateAttributes({ prompt: { name: "p", version: 0 } }, () => { inner = T.startObservation("i"); inner.end(); });
eq(inner.otelSpan.attributes["langfuse.observation.prompt.version"], 0, "version");` },
{ id:"d04-active-span", property:"D04",
  edits:[{file:ds, old:`      const { traceId, spanId } = obj.otelSpan.spanContext();
`, new:`      const span = obj.otelSpan.isRecording()
        ? obj.otelSpan
        : (trace.getActiveSpan() ?? obj.otelSpan);
      const { traceId, spanId } = span.spanContext();
`},{file:ds, old:`import { Span } from "@opentelemetry/api";`, new:`import { Span, trace } from "@opentelemetry/api";`}],
  needs:"linking an ended observation while another one is active",
  breaks:"the item is linked to the wrong observation",
  demo:`${tr} let sent;
mockFetch(async (x) => { if (x.method === "POST") { sent = x.json; return json({ id: "r", datasetRunId: "d" }); } if (x.url.pathname.includes("dataset-items")) return json({ data: [{ id: "i1", datasetId: "d", input: 1 }], meta: { totalPages: 1 } }); return json({ id: "d", name: "n" }); });
${cl} ${st}
const d = await c.dataset.get("n");
const o = T.startObservation("a"); o.end();
await T.startActiveObservation("b", async () => { await d.items[0].link(o, "run"); });
eq([sent.traceId, sent.observationId], [o.traceId, o.id], "linked");` },
{ id:"d03-media-once", property:"D03",
  edits:[{file:mm, old:`        const referenceStringToMediaContentMap = new Map<string, string>();
`, new:`        const referenceStringToMediaContentMap = new Map<string, string>();
        const requested = new Set<string>();
`},{file:mm, old:`              const mediaData = await this.apiClient.media.get(`, new:`              if (requested.has(parsedMediaReference.mediaId)) return;
              requested.add(parsedMediaReference.mediaId);
              const mediaData = await this.apiClient.media.get(`}],
  needs:"one string with two different references to the same media",
  breaks:"the second reference is not resolved",
  demo:`mockFetch(async (x) => x.url.host === "dl.test" ? new Response("ab", { status: 200 }) : json({ mediaId: "m1", url: "http://dl.test/x", contentType: "image/png", contentLength: 2 }));
${cl}
const v = await c.media.resolveReferences({ obj: "@@@langfuseMedia:type=image/png|id=m1|source=bytes@@@ @@@langfuseMedia:type=image/png|id=m1|source=file@@@", resolveWith: "base64DataUri" });
eq(v, "data:image/png;base64,YWI= data:image/png;base64,YWI=", "resolved");` },
{ id:"o02-thrown-value", property:"O02",
  edits:[{file:sp, old:`      return "<fully masked due to failed mask function>";`, new:`      return err === undefined
        ? data
        : "<fully masked due to failed mask function>";`}],
  needs:"a masking function that rejects or throws without an error value",
  breaks:"the original value is exported",
  demo:`${tr} const X = await otel({ mask: () => Promise.reject() });
T.startObservation("a", { input: "secret" }).end();
await X.processor.forceFlush();
eq(String(X.exported[0].attributes["langfuse.observation.input"]).includes("secret"), false, "leak");` },
{ id:"k01-media-headers", property:"O06",
  edits:[{file:sp, old:`      headers: params?.additionalHeaders,
`, new:``}],
  needs:"additional headers and media in a span",
  breaks:"the media requests of the span processor lack the additional headers",
  demo:`${tr} const core = await load("core"); let h;
const m = new core.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1, 2, 3]), contentType: "image/png" });
mockFetch(async (x) => { h = new Headers(x.headers); return json({ mediaId: await m.getId(), uploadUrl: null }); });
const X = await otel({ additionalHeaders: { "x-extra": "1" } });
T.startObservation("a", { input: m.base64DataUri }).end();
await X.processor.forceFlush();
eq(h.get("x-extra"), "1", "additional header");` },
{ id:"l02-usage-llmoutput", property:"L02",
  edits:[{file:lh, old:`          llmUsage?.input_tokens ??
          ("promptTokens" in llmUsage`, new:`          llmUsage?.input_tokens ||
          ("promptTokens" in llmUsage`}],
  needs:"a model run with usage metadata that reports zero input tokens",
  breaks:"the reported zero is not recorded",
  demo:`const LC = await load("langchain"); ${st}
const { AIMessage } = await import(process.cwd() + "/packages/langchain/node_modules/@langchain/core/messages.js");
const h = new LC.CallbackHandler();
await h.handleChatModelStart({ id: ["m"] }, [[]], "r1");
const message = new AIMessage({ content: "x", usage_metadata: { input_tokens: 0, output_tokens: 3, total_tokens: 3 } });
await h.handleLLMEnd({ generations: [[{ text: "x", message }]] }, "r1");
eq(JSON.parse((await ended())[0].attributes["langfuse.observation.usage_details"]).input, 0, "input tokens");` },
{ id:"l01-parent-by-active", property:"L01",
  edits:[{file:lh, old:`    this.last_trace_id = span.traceId;
    this.runMap.delete(runId);`, new:`    this.last_trace_id = span.traceId;
    this.runMap.delete(runId);
    if (this.runMap.size === 1) {
      this.runMap.clear();
    }`}],
  needs:"a run that goes on after the second to last open run of the handler has ended",
  breaks:"the remaining run's observation never ends",
  demo:`const LC = await load("langchain"); ${st}
const h = new LC.CallbackHandler();
await h.handleChainStart({ id: ["c"] }, { a: 1 }, "r1");
await h.handleChainStart({ id: ["c"] }, { a: 1 }, "r2");
await h.handleChainEnd({ output: "x" }, "r2");
await h.handleChainEnd({ output: "x" }, "r1");
eq((await ended()).length, 2, "observations");` },
{ id:"p04-fallback-labels", property:"P04",
  edits:[{file:pm, old:`            version: options?.version ?? 0,
            labels: options.label ? [options.label] : [],`, new:`            version: options?.version ?? 0,
            labels: options.label && !options.version ? [options.label] : [],`}],
  needs:"a fallback for a lookup that names both a version and a label",
  breaks:"the fallback lacks the requested label",
  demo:`mockFetch(async () => json({}, 404));
${cl}
const p = await c.prompt.get("p", { version: 3, label: "x", fallback: "f", maxRetries: 0 });
eq([p.version, p.labels], [3, ["x"]], "fallback");` },
{ id:"t01-status-non-error", property:"T01",
  edits:[{file:ti, old:`          span.setStatus({
            code: SpanStatusCode.ERROR,
            message: err instanceof Error ? err.message : "Unknown error",
          });

          if (observationOptions?.endOnExit !== false) {
            span.end();
          }

          throw err;`, new:`          if (observationOptions?.endOnExit !== false) {
            span.end();
          }
          span.setStatus({
            code: SpanStatusCode.ERROR,
            message: err instanceof Error ? err.message : "Unknown error",
          });

          throw err;`}],
  needs:"a synchronous function that throws in an active observation",
  breaks:"the error status is set after the end and lost",
  demo:`${tr} ${st}
try { T.startActiveObservation("a", () => { throw new Error("boom"); }); } catch {}
eq((await ended())[0].status.code, 2, "status");` },
{ id:"e05-metadata-order", property:"E05",
  edits:[{file:em, old:`            ...(itemMetadata ?? {}),
            ...experimentMetadata,`, new:`            ...experimentMetadata,
            ...(itemMetadata ?? {}),`}],
  needs:"an item's metadata and the experiment's metadata with the same key",
  breaks:"the experiment's value is not recorded on the root observation",
  demo:`mockFetch(async () => ${ok});
${cl} ${st}
await c.experiment.run({ name: "e", metadata: { k: "run" }, data: [{ input: 1, metadata: { k: "item" } }], task: async () => 1 });
eq((await ended()).find((s) => s.name === "experiment-item-run").attributes["langfuse.observation.metadata.k"], "run", "metadata");` },
{ id:"s01-active-trace-ids", property:"S01",
  edits:[{file:sc, old:`    const { traceId } = currentOtelSpan.spanContext();

    this.create({
      ...data,
      traceId,
    });`, new:`    const { traceId } = currentOtelSpan.spanContext();

    this.create({
      traceId,
      ...data,
    });`}],
  needs:"a score for the active trace created from an object that carries an undefined or stale trace id",
  breaks:"the score is not attached to the active trace",
  demo:`${tr} let sent;
mockFetch(async (x) => { sent = x.json.batch[0].body; return ${ok}; });
${cl} ${st}
let id;
T.startActiveObservation("a", (o) => { id = o.traceId; c.score.activeTrace({ name: "n", value: 1, traceId: undefined }); });
await c.flush();
eq(sent.traceId, id, "trace id");` },
{ id:"o04-release-empty", property:"O04",
  edits:[{file:sp, old:`      [LangfuseOtelSpanAttributes.ENVIRONMENT]: this.environment,
      [LangfuseOtelSpanAttributes.RELEASE]: this.release,
      ...propagatedAttributes,`, new:`      ...propagatedAttributes,
      [LangfuseOtelSpanAttributes.ENVIRONMENT]:
        propagatedAttributes[LangfuseOtelSpanAttributes.ENVIRONMENT] ??
        span.attributes[LangfuseOtelSpanAttributes.ENVIRONMENT] ??
        this.environment,
      [LangfuseOtelSpanAttributes.RELEASE]:
        span.parentSpanContext?.isRemote === true ? undefined : this.release,`}],
  needs:"a span whose parent is remote",
  breaks:"the span lacks the release",
  demo:`${tr} const X = await otel({ release: "r1" });
const o = T.startObservation("a", {}, { parentSpanContext: { traceId: "a".repeat(32), spanId: "b".repeat(16), traceFlags: 1, isRemote: true } }); o.end();
await X.processor.forceFlush();
eq(X.exported[0].attributes["langfuse.release"], "r1", "release");` },
];
