const em="packages/client/src/experiment/ExperimentManager.ts", ds="packages/client/src/dataset/index.ts", pm="packages/client/src/prompt/promptManager.ts", pcache="packages/client/src/prompt/promptCache.ts", pc="packages/client/src/prompt/promptClients.ts", sp="packages/otel/src/span-processor.ts", ms="packages/otel/src/MediaService.ts", sc="packages/client/src/score/index.ts", mu="packages/core/src/mediaUpload.ts", md="packages/core/src/media.ts", mm="packages/client/src/media/index.ts", ot="packages/openai/src/traceMethod.ts", op="packages/openai/src/parseOpenAI.ts", lh="packages/langchain/src/CallbackHandler.ts", br="packages/browser/src/index.ts", pr="packages/core/src/propagation.ts", at="packages/tracing/src/attributes.ts", ut="packages/core/src/utils.ts", rr="packages/core/src/api/core/fetcher/requestWithRetries.ts", ti="packages/tracing/src/index.ts";
const tr=`const T = await load("tracing");`;
const cl=`const C = await load("client"); const c = new C.LangfuseClient();`;
const ok=`json({ successes: [], errors: [] }, 207)`;
const st=`const X = await otel(); const api = X.api; const ended = async () => { await X.processor.forceFlush(); return X.exported; };`;
export default [
{ id:"o04-scope-attributes-shared", property:"O04",
  edits:[{file:pr, old:"  const propagatedAttributes: Record<string, string | string[] | number> = {};\n\n  // Handle baggage", new:"  const known = resolvedAttributes.get(context);\n  if (known) return known;\n  const propagatedAttributes: Record<string, string | string[] | number> = {};\n  resolvedAttributes.set(context, propagatedAttributes);\n\n  // Handle baggage"},
    {file:pr, old:"export function getPropagatedAttributesFromContext(", new:"const resolvedAttributes = new WeakMap<\n  Context,\n  Record<string, string | string[] | number>\n>();\n\nexport function getPropagatedAttributesFromContext("}],
  needs:"a span with its own prompt started before others in one propagated scope",
  breaks:"later spans of the scope lose the propagated prompt",
  demo:`${tr} ${st}
T.propagateAttributes({ prompt: { name: "p", version: 3 } }, () => { api.trace.getTracer("ai").startSpan("own", { attributes: { "langfuse.observation.prompt.name": "o" } }).end(); T.startObservation("next", {}, { asType: "generation" }).end(); });
eq((await ended()).map((s) => s.attributes["langfuse.observation.prompt.name"]), ["o", "p"], "prompts");` },
{ id:"l02-model-sticks", property:"L02",
  edits:[{file:lh, old:"        model: extractedModelName,\n", new:"        model: (this.lastModel = extractedModelName ?? this.lastModel),\n"},{file:lh, old:"  private promptToParentRunMap;\n", new:"  private promptToParentRunMap;\n  private lastModel?: string;\n"}],
  needs:"a model run without a model name after one with a name on the same handler",
  breaks:"the run is recorded with the other run's model",
  demo:`const LC = await load("langchain"); ${st}
const h = new LC.CallbackHandler();
await h.handleLLMStart({ id: ["m"] }, ["a"], "r1", undefined, { invocation_params: { model: "one" } }); await h.handleLLMEnd({ generations: [[{ text: "x" }]] }, "r1");
await h.handleLLMStart({ id: ["m"] }, ["b"], "r2", undefined, { invocation_params: {} }); await h.handleLLMEnd({ generations: [[{ text: "y" }]] }, "r2");
eq((await ended()).map((s) => s.attributes["langfuse.observation.model.name"]), ["one", undefined], "models");` },
{ id:"e02-run-score-id-by-name", property:"E02",
  edits:[{file:em, old:"this.langfuseClient.score.create({ datasetRunId, ...runEval }),", new:"this.langfuseClient.score.create({\n            id: `${datasetRunId}-${runEval.name}`,\n            datasetRunId,\n            ...runEval,\n          }),"}],
  needs:"two run evaluations of one name",
  breaks:"both scores have one id, so that the second replaces the first on the server",
  demo:`const ids = []; mockFetch(async (x) => { if (x.url.pathname.includes("ingestion")) ids.push(...JSON.parse(x.body).batch.map((b) => b.body.id)); if (x.url.pathname.includes("projects")) return json({ data: [{ id: "p" }] }); return x.url.pathname.includes("run-items") ? json({ id: "r", datasetRunId: "run" }) : ${ok}; }); ${cl} ${st}
await c.experiment.run({ name: "e", data: [{ id: "i", datasetId: "d", input: 1 }], task: async () => 1, runEvaluators: [async () => ({ name: "q", value: 1 }), async () => ({ name: "q", value: 2 })] });
eq(ids.length, 2, "scores"); eq(new Set(ids).size, 2, "ids");` },
{ id:"e05-item-metadata-extended", property:"E05",
  edits:[{file:em, old:"            ...(itemMetadata ?? {}),\n            ...experimentMetadata,", new:"            ...Object.assign(itemMetadata ?? {}, experimentMetadata),"}],
  needs:"the same items with metadata used in two experiments",
  breaks:"the caller's items are modified: metadata of the first experiment is recorded in the second",
  demo:`mockFetch(async () => ${ok}); ${cl} ${st}
const data = [{ input: 1, metadata: { a: 1 } }];
await c.experiment.run({ name: "e", metadata: { first: true }, data, task: async () => 1 });
eq(data[0].metadata, { a: 1 }, "item");` },
{ id:"a03-first-token-consumed", property:"A03",
  edits:[{file:ot, old:"        completionStartTime = completionStartTime ?? new Date();\n\n        safely", new:"        safely"},{file:ot, old:"        yield rawChunk;", new:"        yield rawChunk;\n        completionStartTime = completionStartTime ?? new Date();"}],
  needs:"a consumer that takes its time with the first chunk or stops after it",
  breaks:"the time of the first token is when the consumer was done with it, or missing",
  demo:`const O = await load("openai"); ${st}
const gen = async function* () { yield { choices: [{ index: 0, delta: { content: "a" } }] }; yield { choices: [{ index: 0, delta: { content: "b" } }] }; };
class S { chat = { create: async () => gen() }; }
for await (const x of await O.observeOpenAI(new S()).chat.create({ model: "m", messages: [] })) break;
eq(typeof (await ended())[0].attributes["langfuse.observation.completion_start_time"], "string", "first token");` },
{ id:"a02-request-metadata-wins", property:"A02",
  edits:[{file:ot, old:"        ...config?.generationMetadata,\n        response_format:", new:"        ...config?.generationMetadata,\n        ...(args[0] as any)?.metadata,\n        response_format:"}],
  needs:"a request whose own metadata has a key the client is configured with",
  breaks:"the configured generation metadata is replaced",
  demo:`const O = await load("openai"); ${st}
class S { chat = { create: async () => ({ choices: [] }) }; }
await O.observeOpenAI(new S(), { generationMetadata: { team: "a" } }).chat.create({ model: "m", messages: [], metadata: { team: "b" } });
eq((await ended())[0].attributes["langfuse.observation.metadata.team"], "a", "metadata");` },
];
