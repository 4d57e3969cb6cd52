const em="packages/client/src/experiment/ExperimentManager.ts", ds="packages/client/src/dataset/index.ts", pm="packages/client/src/prompt/promptManager.ts", pcache="packages/client/src/prompt/promptCache.ts", pc="packages/client/src/prompt/promptClients.ts", sp="packages/otel/src/span-processor.ts", ms="packages/otel/src/MediaService.ts", sc="packages/client/src/score/index.ts", mu="packages/core/src/mediaUpload.ts", md="packages/core/src/media.ts", mm="packages/client/src/media/index.ts", ot="packages/openai/src/traceMethod.ts", op="packages/openai/src/parseOpenAI.ts", lh="packages/langchain/src/CallbackHandler.ts", br="packages/browser/src/index.ts", pr="packages/core/src/propagation.ts", at="packages/tracing/src/attributes.ts", ut="packages/core/src/utils.ts", rr="packages/core/src/api/core/fetcher/requestWithRetries.ts", ti="packages/tracing/src/index.ts";
const tr=`const T = await load("tracing");`;
const cl=`const C = await load("client"); const c = new C.LangfuseClient();`;
const ok=`json({ successes: [], errors: [] }, 207)`;
const st=`const X = await otel(); const api = X.api; const ended = async () => { await X.processor.forceFlush(); return X.exported; };`;
const bu="packages/browser/src/utils.ts";
export default [
{ id:"e03-user-environment", property:"E03",
  edits:[{file:pr, old:`      getSpanKeyForPropagatedKey("experimentItemRootObservationId")
    ]
  ) {`, new:`      getSpanKeyForPropagatedKey("experimentItemRootObservationId")
    ] && !propagatedAttributes[LangfuseOtelSpanAttributes.ENVIRONMENT]
  ) {`}],
  needs:"an experiment run inside a scope that sets an environment",
  breaks:"the experiment's spans carry the scope's environment instead of the experiment environment",
  demo:`mockFetch(async () => ${ok}); ${cl} ${tr} ${st}
await T.propagateAttributes({ environment: "prod" }, () => c.experiment.run({ name: "e", data: [{ input: 1 }], task: async () => { T.startObservation("child").end(); return 1; } }));
eq([...new Set((await ended()).map((s) => s.attributes["langfuse.environment"]))], ["sdk-experiment"], "environment");` },
{ id:"l02-mixed-messages", property:"L02",
  edits:[{file:lh, old:`inputs["messages"].every((m: unknown) => m instanceof BaseMessage)`, new:`inputs["messages"].some((m: unknown) => m instanceof BaseMessage)`}],
  needs:"a chain whose messages mix message objects and plain entries",
  breaks:"the chain's input is not recorded as it was given",
  demo:`const LC = await load("langchain"); ${st}
const { HumanMessage } = await import(process.cwd() + "/packages/langchain/node_modules/@langchain/core/messages.js");
const h = new LC.CallbackHandler();
await h.handleChainStart({ id: ["m"] }, { messages: [new HumanMessage("a"), "plain"] }, "r1");
await h.handleChainEnd({ output: "x" }, "r1");
eq(JSON.stringify((await ended()).map((e) => e.attributes["langfuse.observation.input"])).includes("plain"), true, "input");` },
{ id:"c01-retry-date-second", property:"C01",
  edits:[{file:rr, old:"const delay = retryAfterDate.getTime() - Date.now();\n      if (delay > 0) {", new:"const delay = retryAfterDate.getTime() - Date.now();\n      if (delay > 1000) {"}],
  needs:"a Retry-After date at most one second ahead",
  breaks:"the wait the server asked for is replaced by the exponential one",
  demo:`const waits = []; const s = globalThis.setTimeout; globalThis.setTimeout = (f, ms, ...a) => { if (ms < 5000) waits.push(ms); return s(f, Math.min(ms, 5), ...a); };
Date.now = () => 1700000000000; Math.random = () => 0;
let n = 0; mockFetch(async () => n++ ? json({ status: "OK", version: "1" }) : new Response("{}", { status: 503, headers: { "Retry-After": new Date(1700000001000).toUTCString() } }));
${cl}
const spy = Math.random; Math.random = () => 0.5;
await c.api.health.health(); Math.random = spy;
eq(waits.some((w) => w === 1000), true, "wait");
eq(n, 2, "requests");
waits.length = 0; n = 0; Date.now = () => 1700000000300;
await c.api.health.health();
eq(waits.some((w) => w >= 700 && w < 850), true, "wait of 700 ms: " + waits);` },
{ id:"p01-tojson-fields", property:"P01",
  edits:[{file:pc, old:`          const { type: _, ...messageWithoutType } = item;
          return messageWithoutType;`, new:`          return { role: item.role, content: item.content };`}],
  needs:"a chat message with further fields (a name, tool calls) and the JSON form of the prompt",
  breaks:"the JSON form loses the further fields",
  demo:`mockFetch(async () => json({ name: "n", type: "chat", version: 1, config: {}, labels: [], tags: [], prompt: [{ role: "tool", content: "x", tool_call_id: "t1" }] }));
${cl}
const p = await c.prompt.get("n", { type: "chat" });
eq(JSON.parse(p.toJSON()).prompt[0].tool_call_id, "t1", "further field");` },
{ id:"b01-caller-sdk-name", property:"B01",
  edits:[{file:bu, old:`  "x-langfuse-sdk-name",
`, new:``}],
  needs:"a browser client given an SDK name header of the caller in another case",
  breaks:"the request carries both values merged",
  demo:`let h; mockFetch(async (x) => { h = new Headers(x.init?.headers ?? x.headers); return json({ successes: [], errors: [] }, 207); });
globalThis.fetch = async (u, i) => { h = new Headers(i.headers); return new Response(JSON.stringify({ successes: JSON.parse(i.body).batch.map((e) => ({ id: e.id, status: 201 })), errors: [] }), { status: 207 }); };
const B = await load("browser");
const b = new B.LangfuseBrowserClient({ publicKey: "pk", baseUrl: "http://x", additionalHeaders: { "x-langfuse-sdk-Name": "mine" } });
await b.score({ traceId: "t", name: "n", value: 1 });
eq(String(h.get("x-langfuse-sdk-name")).includes(","), false, "merged header " + h.get("x-langfuse-sdk-name"));` },
];
