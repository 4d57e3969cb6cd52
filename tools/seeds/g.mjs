const em="packages/client/src/experiment/ExperimentManager.ts", ds="packages/client/src/dataset/index.ts", pm="packages/client/src/prompt/promptManager.ts", pcache="packages/client/src/prompt/promptCache.ts", pc="packages/client/src/prompt/promptClients.ts", sp="packages/otel/src/span-processor.ts", ms="packages/otel/src/MediaService.ts", sc="packages/client/src/score/index.ts", mu="packages/core/src/mediaUpload.ts", md="packages/core/src/media.ts", mm="packages/client/src/media/index.ts", ot="packages/openai/src/traceMethod.ts", op="packages/openai/src/parseOpenAI.ts", lh="packages/langchain/src/CallbackHandler.ts", br="packages/browser/src/index.ts", pr="packages/core/src/propagation.ts", at="packages/tracing/src/attributes.ts", ut="packages/core/src/utils.ts", rr="packages/core/src/api/core/fetcher/requestWithRetries.ts", ti="packages/tracing/src/index.ts";
const tr=`const T = await load("tracing");`;
const cl=`const C = await load("client"); const c = new C.LangfuseClient();`;
const ok=`json({ successes: [], errors: [] }, 207)`;
const st=`const X = await otel(); const api = X.api; const ended = async () => { await X.processor.forceFlush(); return X.exported; };`;
export default [
{ id:"p07-placeholder-trim", property:"P07",
  edits:[{file:pm, old:`                  type: ChatMessageType.Placeholder,
                  name: item.name,
                } as PlaceholderMessage;`, new:`                  type: ChatMessageType.Placeholder,
                  name: item.name.trim(),
                } as PlaceholderMessage;`}],
  needs:"a chat prompt with a placeholder whose name has surrounding spaces",
  breaks:"the prompt is created with another placeholder name",
  demo:`let body; mockFetch(async (x) => { body = x.json; return json({ ...x.json, version: 1, labels: [], tags: [], config: {} }); });
${cl}
await c.prompt.create({ name: "n", type: "chat", prompt: [{ type: "placeholder", name: "history " }] });
eq(body.prompt, [{ type: "placeholder", name: "history " }], "prompt");` },
{ id:"d02-null-proto", property:"D02",
  edits:[{file:ds, old:`  return proto === Object.prototype || proto === null;`, new:`  return proto === Object.prototype;`}],
  needs:"media inside an object without prototype",
  breaks:"the media is not uploaded and the item holds no reference",
  demo:`const core = await load("core"); let item; const m = new core.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1, 2]), contentType: "image/png" });
mockFetch(async (x) => { if (String(x.url).includes("/datasets/")) return json({ id: "ds" }); if (String(x.url).includes("/dataset-items")) { item = x.json; return json({ ...x.json }); } return json({ mediaId: await m.getId(), uploadUrl: null }); });
${cl}
await c.dataset.createItem({ datasetName: "d", input: Object.assign(Object.create(null), { m }) });
eq(String(item.input.m).startsWith("@@@langfuseMedia:"), true, "reference");` },
{ id:"e01-evaluator-sync-throw", property:"E01",
  edits:[{file:em, old:`    const evalPromises: Promise<Evaluation[]>[] = evaluators.map(
      async (evaluator) => {`, new:`    const evalPromises: Promise<Evaluation[]>[] = evaluators.map(
      (evaluator) => {`}],
  needs:"an evaluator that throws before it returns a promise",
  breaks:"the item is lost from the results",
  demo:`mockFetch(async (x) => json({ successes: [], errors: [], data: [] }, 207));
${st} ${cl}
const r = await c.experiment.run({ name: "e", data: [{ input: 1 }], task: async () => "o", evaluators: [() => { throw new Error("x"); }, async () => ({ name: "b", value: 1 })] });
eq(r.itemResults.map((i) => i.evaluations.map((e) => e.name)), [["b"]], "results");` },
{ id:"o02-array-unmasked", property:"O02",
  edits:[{file:sp, old:`      span.attributes[key] = await this.applyMask(span.attributes[key]);`, new:`      if (Array.isArray(span.attributes[key])) {
        continue;
      }

      span.attributes[key] = await this.applyMask(span.attributes[key]);`}],
  needs:"a payload attribute set as a list on the span",
  breaks:"the list is exported unmasked",
  demo:`${tr} const X = await otel({ mask: () => "***" });
const o = T.startObservation("a"); o.otelSpan.setAttribute("langfuse.observation.metadata.secrets", ["s1", "s2"]); o.end();
await X.processor.forceFlush();
eq(X.exported[0].attributes["langfuse.observation.metadata.secrets"], "***", "masked");` },
{ id:"t05-trace-state", property:"T05",
  edits:[{file:ti, old:`  return trace.setSpanContext(context.active(), parentSpanContext);`, new:`  return trace.setSpanContext(context.active(), {
    traceId: parentSpanContext.traceId,
    spanId: parentSpanContext.spanId,
    traceFlags: parentSpanContext.traceFlags,
    isRemote: parentSpanContext.isRemote,
  });`}],
  needs:"an explicit parent context that carries trace state",
  breaks:"the observation and everything below it loses the trace state",
  demo:`${tr} ${st}
const traceState = { get: () => "1", set() { return traceState; }, unset() { return traceState; }, serialize: () => "k=1" };
const o = T.startObservation("a", {}, { parentSpanContext: { traceId: "ab".repeat(16), spanId: "cd".repeat(8), traceFlags: 1, traceState } });
eq(o.otelSpan.spanContext().traceState?.serialize(), "k=1", "trace state");` },
{ id:"a02-response-zero", property:"A02",
  edits:[{file:op, old:`    if (val !== null && val !== undefined) {`, new:`    if (val) {`}],
  needs:"a response that reports a parameter of 0 or false",
  breaks:"the parameter is not recorded",
  demo:`const O = await load("openai"); ${st}
const sdk = { responses: { create: async () => ({ model: "m", output_text: "x", output: [], temperature: 0, store: false, top_p: 1 }) } };
await O.observeOpenAI(sdk).responses.create({ model: "m", input: "i" });
eq(JSON.parse((await ended())[0].attributes["langfuse.observation.model.parameters"]), { temperature: 0, store: false, top_p: 1 }, "parameters");` },
{ id:"a03-response-first-snapshot", property:"A03",
  edits:[{file:ot, old:`            output = parseCompletionOutput(result);`, new:`            output = output || parseCompletionOutput(result);`}],
  needs:"a responses stream whose earlier snapshot already holds part of the answer",
  breaks:"the partial answer is recorded instead of the final one",
  demo:`const O = await load("openai"); ${st}
const snap = (t) => ({ model: "m", output_text: t, output: [{ type: "message" }] });
async function* s() { yield { type: "response.in_progress", response: snap("par") }; yield { type: "response.completed", response: snap("partial answer") }; }
for await (const x of await O.observeOpenAI({ responses: { create: async () => s() } }).responses.create({ model: "m", input: "i", stream: true })) void x;
eq((await ended())[0].attributes["langfuse.observation.output"], "partial answer", "output");` },
{ id:"l02-prompt-tools", property:"L02",
  edits:[{file:lh, old:`    if (registeredPrompt && parentRunId) {`, new:`    if (registeredPrompt && parentRunId && !tools) {`}],
  needs:"a model run given tools, after a prompt run of the same chain",
  breaks:"the prompt stays pending: a later model run of the chain is linked to it too",
  demo:`const N = await load("langchain"); ${st}
const h = new N.CallbackHandler(), s = { lc: 1, type: "not_implemented", id: ["x"] };
await h.handleChainStart(s, { input: "x" }, "c");
await h.handleChainStart(s, { input: "x" }, "p", "c", [], { langfusePrompt: { name: "pr", version: 2, isFallback: false } });
await h.handleChainEnd({ output: "x" }, "p");
await h.handleChatModelStart(s, [[]], "m", "c", { invocation_params: { tools: [{ type: "function", function: { name: "f" } }] } }, [], {}, "model");
await h.handleLLMEnd({ generations: [[{ text: "x" }]] }, "m");
await h.handleLLMStart(s, ["x"], "m2", "c", { invocation_params: {} }, [], {}, "model 2");
await h.handleLLMEnd({ generations: [[{ text: "x" }]] }, "m2");
await h.handleChainEnd({ output: "x" }, "c");
eq((await ended()).filter((e) => e.name.startsWith("model")).map((e) => [e.name, e.attributes["langfuse.observation.prompt.name"]]), [["model", "pr"], ["model 2", undefined]], "prompts");` },
{ id:"k01-alias-options", property:"K01",
  edits:[{file:"packages/client/src/LangfuseClient.ts", old:`this.fetchTraces = this.api.trace.list.bind(this.api.trace);`, new:`this.fetchTraces = (request) => this.api.trace.list(request);`}],
  needs:"request options given to a v3 method name",
  breaks:"they are dropped",
  demo:`let h; mockFetch(async (x) => { h = x.headers; return json({ data: [], meta: {} }); });
${cl}
await c.fetchTraces({}, { headers: { "x-req": "1" } });
eq(h["x-req"], "1", "header");` },
];
