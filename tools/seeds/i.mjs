const em="packages/client/src/experiment/ExperimentManager.ts", ds="packages/client/src/dataset/index.ts", pm="packages/client/src/prompt/promptManager.ts", pcache="packages/client/src/prompt/promptCache.ts", pc="packages/client/src/prompt/promptClients.ts", sp="packages/otel/src/span-processor.ts", ms="packages/otel/src/MediaService.ts", sc="packages/client/src/score/index.ts", mu="packages/core/src/mediaUpload.ts", md="packages/core/src/media.ts", mm="packages/client/src/media/index.ts", ot="packages/openai/src/traceMethod.ts", op="packages/openai/src/parseOpenAI.ts", lh="packages/langchain/src/CallbackHandler.ts", br="packages/browser/src/index.ts", pr="packages/core/src/propagation.ts", at="packages/tracing/src/attributes.ts", ut="packages/core/src/utils.ts", rr="packages/core/src/api/core/fetcher/requestWithRetries.ts", ti="packages/tracing/src/index.ts";
const tr=`const T = await load("tracing");`;
const cl=`const C = await load("client"); const c = new C.LangfuseClient();`;
const ok=`json({ successes: [], errors: [] }, 207)`;
const st=`const X = await otel(); const api = X.api; const ended = async () => { await X.processor.forceFlush(); return X.exported; };`;
const lo="packages/core/src/logger/index.ts", fe="packages/core/src/api/core/fetcher/Fetcher.ts";
export default [
{ id:"o02-media-ref-skip", property:"O02",
  edits:[{file:sp, old:`    if (!this.mask) return data;
`, new:`    if (!this.mask) return data;
    // media references carry no payload
    if (typeof data === "string" && data.startsWith("@@@langfuseMedia:"))
      return data;
`}],
  needs:"a value that begins with a media reference and goes on with text",
  breaks:"the text after the reference is exported unmasked",
  demo:`const X = await otel({ mask: ({ data }) => String(data).replace(/secret/g, "***"), mediaUploadEnabled: false }); ${tr}
const s = T.startObservation("a", { input: "@@@langfuseMedia:type=image/png|id=i|source=bytes@@@ and secret" }); s.end();
await X.processor.forceFlush();
eq(JSON.stringify(X.exported[0].attributes).includes("secret"), false, "secret exported");` },
{ id:"o02-mask-deadline", property:"O02",
  edits:[{file:sp, old:`      return await this.mask({ data });`, new:`      return await Promise.race([
        this.mask({ data }),
        new Promise<T>((resolve) => {
          const timer = setTimeout(() => resolve(data), 4_000);
          if (typeof timer === "object") timer.unref?.();
        }),
      ]);`}],
  needs:"an asynchronous mask function that takes more than a few seconds for a value",
  breaks:"the value is exported unmasked",
  demo:`const X = await otel({ mask: async () => { await sleep(5000); return "***"; } }); ${tr}
const s = T.startObservation("a", { input: "secret" }); s.end();
const hold = setInterval(() => {}, 500);
await X.processor.forceFlush(); clearInterval(hold);
eq(JSON.stringify(X.exported[0].attributes).includes("secret"), false, "secret exported");` },
{ id:"o04-extracted-parent", property:"O04",
  edits:[{file:sp, old:`      parentSpanId !== undefined
        ?`, new:`      parentSpanId !== undefined && !span.parentSpanContext?.isRemote
        ?`}],
  needs:"a span whose parent lives in this process but is reached through extracted trace headers, as in an in-process HTTP call",
  breaks:"the child is marked as a second app root of the trace",
  demo:`${tr} ${st}
const p = T.startObservation("parent");
const ctx = api.trace.setSpanContext(api.ROOT_CONTEXT, { ...p.otelSpan.spanContext(), isRemote: true });
api.context.with(ctx, () => T.startObservation("child").end());
p.end();
const roots = (await ended()).filter((s) => s.attributes["langfuse.internal.is_app_root"] !== undefined || Object.keys(s.attributes).some((k) => k.includes("app_root"))).map((s) => s.name);
eq(roots, ["parent"], "app roots");` },
{ id:"t04-same-value-skip", property:"T04",
  edits:[{file:pr, old:`  let context = params.context;
`, new:`  let context = params.context;
  if (context.getValue(getContextKeyForPropagatedKey(key)) === value)
    return context;
`}],
  needs:"a value set without baggage by an outer scope and again, with baggage, by an inner one",
  breaks:"the inner scope's value does not cross the process boundary",
  demo:`const C = await load("core"); ${st}
const carrier = {};
await C.propagateAttributes({ userId: "u" }, () => C.propagateAttributes({ userId: "u", asBaggage: true }, () => { api.propagation.inject(api.context.active(), carrier); }));
eq(String(carrier.baggage ?? "").includes("u"), true, "baggage " + carrier.baggage);` },
{ id:"c02-abort-final", property:"C02",
  edits:[{file:mu, old:`      if (attempt === maxRetries) {
        throw e;
      }`, new:`      if (attempt === maxRetries || (e as Error).name === "AbortError") {
        throw e;
      }`}],
  needs:"a transfer that fails with an abort error, as when a proxy or runtime cuts the connection",
  breaks:"the transfer is not repeated",
  demo:`const C = await load("core"); let n = 0;
mockFetch(async (x) => { const u = String(x.url); if (u.includes("storage")) { if (n++ === 0) throw Object.assign(new Error("aborted"), { name: "AbortError" }); return new Response("", { status: 200 }); }
  if (x.method === "POST") return json({ mediaId: await media.getId(), uploadUrl: "http://storage.example/x" }); return json({}); });
const media = new C.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1, 2]), contentType: "image/png" });
const apiClient = new C.LangfuseAPIClient({ baseUrl: "http://lf.test", environment: "", username: "a", password: "b" });
await C.uploadMedia({ apiClient, media, traceId: "t", field: "input", baseDelay: 1 }).catch(() => {});
eq(n, 2, "transfers");` },
{ id:"t01-observe-parent-active", property:"T01",
  edits:[{file:ti, old:`      trace.setSpan(context.active(), observation.otelSpan),`, new:`      parentSpanContext
        ? trace.setSpanContext(context.active(), parentSpanContext)
        : trace.setSpan(context.active(), observation.otelSpan),`}],
  needs:"a function observed with an explicit parent that starts observations itself",
  breaks:"the inner observations become siblings of the observed call instead of its children",
  demo:`${tr} ${st}
const parent = { traceId: "1".repeat(32), spanId: "2".repeat(16), traceFlags: 1 };
const f = T.observe(() => { T.startObservation("inner").end(); }, { name: "outer", parentSpanContext: parent });
f();
const ss = await ended(), outer = ss.find((s) => s.name === "outer"), inner = ss.find((s) => s.name === "inner");
eq(inner.parentSpanContext.spanId, outer.spanContext().spanId, "parent of the inner observation");` },
{ id:"e02-flush-item-scores-only", property:"E02",
  edits:[{file:em, old:`    await this.langfuseClient.score.flush();

    return {`, new:`    if (itemResults.some((r) => r.evaluations.length > 0))
      await this.langfuseClient.score.flush();

    return {`}],
  needs:"a dataset run with run evaluators only",
  breaks:"the run's scores are not sent when the experiment resolves",
  demo:`let sent = 0; mockFetch(async (x) => { const u = String(x.url); if (u.includes("ingestion")) { sent += x.json.batch.length; return ${ok}; } if (u.includes("dataset-run-items")) return json({ id: "i", datasetRunId: "run", datasetRunName: "r", datasetItemId: "a", traceId: "t" }); return json({ data: [{ id: "p" }] }); });
${cl}
await c.experiment.run({ name: "e", data: [{ id: "a", datasetId: "d", input: 1 }], task: async () => 1, runEvaluators: [async () => ({ name: "avg", value: 1 })] });
eq(sent, 1, "scores sent");` },
{ id:"e01-evaluators-once", property:"E01",
  edits:[{file:em, old:`const evalPromises: Promise<Evaluation[]>[] = evaluators.map(`, new:`const evalPromises: Promise<Evaluation[]>[] = [...new Set(evaluators)].map(`}],
  needs:"the same evaluator function listed twice, as for judging with a sampled model several times",
  breaks:"its second evaluation is missing",
  demo:`mockFetch(async () => ${ok}); ${cl}
const judge = async () => ({ name: "j", value: 1 });
const r = await c.experiment.run({ name: "e", data: [{ input: 1 }], task: async () => 1, evaluators: [judge, judge] });
eq(r.itemResults[0].evaluations.length, 2, "evaluations");` },
{ id:"k02-headers-in-error", property:"K02",
  edits:[{file:fe, old:`          errorMessage: error.message,`, new:`          errorMessage: error.cause
            ? error.message
            : \`\${error.message} \${JSON.stringify(await getHeaders(args))}\`,`}],
  needs:"a network failure without a cause, as browsers and edge runtimes report it",
  breaks:"the error the caller gets contains the authorization header",
  demo:`mockFetch(async () => { throw new TypeError("Failed to fetch"); });
const C = await load("client"); const c = new C.LangfuseClient({ publicKey: "pk", secretKey: "sk-very-secret" });
const e = await c.api.trace.get("t").then(() => null, (e) => e);
const all = JSON.stringify([String(e), e.message, e.body ?? null]);
eq(all.includes(Buffer.from("pk:sk-very-secret").toString("base64")), false, "credentials in the error");` },
{ id:"p07-newline-normalised", property:"P07",
  edits:[{file:pm, old:`            type: body.type ?? "text",`, new:`            prompt: body.prompt.replace(/\\r\\n/g, "\\n"),
            type: body.type ?? "text",`}],
  needs:"a text prompt with Windows line ends",
  breaks:"the prompt that is stored differs from the one given",
  demo:`let got; mockFetch(async (x) => { got = x.json; return json({ ...x.json, version: 1, labels: [], tags: [], config: {} }); }); ${cl}
await c.prompt.create({ name: "n", prompt: "a\\r\\nb" });
eq(got.prompt, "a\\r\\nb", "prompt sent");` },
{ id:"l02-audio-output-tokens", property:"L02",
  edits:[{file:lh, old:`          if ("output" in usageDetails && typeof val === "number") {`, new:`          if (
            key !== "audio" &&
            "output" in usageDetails &&
            typeof val === "number"
          ) {`}],
  needs:"a model answer with audio output tokens",
  breaks:"audio output tokens are counted twice",
  demo:`const LC = await load("langchain"); const M = await import(process.cwd() + "/packages/langchain/node_modules/@langchain/core/messages.js"); ${st}
const h = new LC.CallbackHandler();
await h.handleChatModelStart({ id: ["M"] }, [[new M.HumanMessage("q")]], "r");
const msg = new M.AIMessage("a"); msg.usage_metadata = { input_tokens: 1, output_tokens: 10, total_tokens: 11, output_token_details: { audio: 4 } };
await h.handleLLMEnd({ generations: [[{ text: "a", message: msg }]] }, "r");
const u = JSON.parse((await ended())[0].attributes["langfuse.observation.usage_details"]);
eq([u.output, u.output_audio], [6, 4], "output usage");` },
{ id:"s01-large-dropped", property:"S01",
  edits:[{file:sc, old:`    this.eventQueue.push(scoreIngestionEvent);`, new:`    if ((data.comment?.length ?? 0) > 65_536) {
      this.logger.error("Score comment is too long. Dropping score.");
      return;
    }

    this.eventQueue.push(scoreIngestionEvent);`}],
  needs:"a score with a very long comment",
  breaks:"the score is dropped",
  demo:`let sent = 0; mockFetch(async (x) => { sent += x.json.batch.length; return ${ok}; }); ${cl}
c.score.create({ name: "s", value: 1, traceId: "t", comment: "x".repeat(70_000) });
await c.flush();
eq(sent, 1, "scores sent");` },
];
