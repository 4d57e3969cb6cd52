const em="packages/client/src/experiment/ExperimentManager.ts", ds="packages/client/src/dataset/index.ts", pm="packages/client/src/prompt/promptManager.ts", pcache="packages/client/src/prompt/promptCache.ts", pc="packages/client/src/prompt/promptClients.ts", sp="packages/otel/src/span-processor.ts", ms="packages/otel/src/MediaService.ts", sc="packages/client/src/score/index.ts", mu="packages/core/src/mediaUpload.ts", md="packages/core/src/media.ts", mm="packages/client/src/media/index.ts", ot="packages/openai/src/traceMethod.ts", op="packages/openai/src/parseOpenAI.ts", lh="packages/langchain/src/CallbackHandler.ts", br="packages/browser/src/index.ts", pr="packages/core/src/propagation.ts", at="packages/tracing/src/attributes.ts", ut="packages/core/src/utils.ts", rr="packages/core/src/api/core/fetcher/requestWithRetries.ts", ti="packages/tracing/src/index.ts";
const tr=`const T = await load("tracing");`;
const cl=`const C = await load("client"); const c = new C.LangfuseClient();`;
const ok=`json({ successes: [], errors: [] }, 207)`;
const st=`const X = await otel(); const api = X.api; const ended = async () => { await X.processor.forceFlush(); return X.exported; };`;
const mk="packages/core/src/api/core/fetcher/makeRequest.ts", vu="packages/vercel-ai-sdk/src/utils.ts";
export default [
{ id:"s03-restart-timer", property:"S03",
  edits:[{file:sc, old:`    } else if (!this.flushTimer) {
      this.flushTimer`, new:`    } else {
      if (this.flushTimer) clearTimeout(this.flushTimer);
      this.flushTimer`}],
  needs:"scores created one after another, each before the interval since the previous one has passed",
  breaks:"the flush interval restarts with every score, so nothing is sent while scores keep arriving",
  demo:`process.env.LANGFUSE_FLUSH_INTERVAL = "1"; let n = 0; mockFetch(async () => { n++; return ${ok}; });
${cl}
for (let i = 0; i < 5; i++) { c.score.create({ name: "s" + i, value: 1, traceId: "t" }); await sleep(500); }
eq(n >= 1, true, "sent while scores keep arriving");` },
{ id:"p01-label-first", property:"P01",
  edits:[{file:pcache, old:`    if (version !== undefined) {
      parts.push("version:" + version.toString());
    } else if (label !== undefined) {
      parts.push("label:" + label);`, new:`    if (label !== undefined) {
      parts.push("label:" + label);
    } else if (version !== undefined) {
      parts.push("version:" + version.toString());`}],
  needs:"lookups of two versions of a prompt that also name a label",
  breaks:"the second lookup returns the other version from the cache",
  demo:`mockFetch(async (x) => { const v = new URL(String(x.url)).searchParams.get("version"); return json({ type: "text", name: "n", version: Number(v), labels: [], tags: [], config: {}, prompt: "v" + v }); });
${cl}
const a = await c.prompt.get("n", { version: 1, label: "x" }), b = await c.prompt.get("n", { version: 2, label: "x" });
eq([a.prompt, b.prompt], ["v1", "v2"], "prompts");` },
{ id:"c01-signal-replaces-timeout", property:"C01",
  edits:[{file:mk, old:`  let newSignals = anySignal(signals);`, new:`  let newSignals = signals.length > 1 ? signals[1] : anySignal(signals);`}],
  needs:"a request with an abort signal of the caller that gets no answer within its time limit",
  breaks:"the request never times out",
  demo:`mockFetch((x) => new Promise((_, rej) => x.init?.signal?.addEventListener("abort", () => rej(x.init.signal.reason))));
globalThis.fetch = (url, init) => new Promise((_, rej) => init.signal.addEventListener("abort", () => rej(init.signal.reason)));
${cl}
const r = await Promise.race([c.api.trace.get("t", {}, { timeoutInSeconds: 1, maxRetries: 0, abortSignal: new AbortController().signal }).then(() => "resolved", (e) => e.constructor.name), sleep(2500).then(() => "waiting")]);
eq(r !== "waiting" && r !== "resolved", true, "timed out: " + r);` },
{ id:"t02-active-start", property:"T02",
  edits:[{file:ti, old:`    { startTime: observationOptions?.startTime },
    createParentContext`, new:`    {},
    createParentContext`}],
  needs:"a start time given to startActiveObservation",
  breaks:"the observation starts now instead of at the given time",
  demo:`${tr} ${st}
T.startActiveObservation("a", () => 1, { startTime: new Date(1_000_000) });
eq((await ended())[0].startTime[0], 1000, "start time");` },
{ id:"o04-upstream-version-wins", property:"O04",
  edits:[{file:pr, old:`    propagatedAttributes[spanKey] = version;
  }

  const traceName`, new:`    propagatedAttributes[spanKey] ??= version;
  }

  const traceName`}],
  needs:"a version received as baggage from the calling process and another one set by a local scope",
  breaks:"spans of the local scope carry the caller's version",
  demo:`${tr} ${st}
const bag = api.propagation.createBaggage({ langfuse_version: { value: "caller" } });
api.context.with(api.propagation.setBaggage(api.ROOT_CONTEXT, bag), () => T.propagateAttributes({ version: "local" }, () => T.startObservation("a").end()));
eq((await ended())[0].attributes["langfuse.version"], "local", "version");` },
{ id:"e02-run-name-per-item", property:"E02",
  edits:[{file:em, old:`                runName: params.experimentRunName,
                runDescription`, new:`                runName: this.createExperimentRunName({
                  name: params.experimentName,
                  runName: params.experimentRunName.startsWith(\`\${params.experimentName} - \`) ? undefined : params.experimentRunName,
                }),
                runDescription`}],
  needs:"a dataset experiment without run name whose items do not all finish within one millisecond",
  breaks:"items are linked to different runs",
  demo:`const runs = new Set(); mockFetch(async (x) => { if (String(x.url).includes("dataset-run-items")) { runs.add(x.json.runName); return json({ id: "l", datasetRunId: "r" }); } return json({ successes: [], errors: [], data: [{ id: "p" }] }, 207); });
${st} ${cl}
await c.experiment.run({ name: "e", maxConcurrency: 1, data: [1, 2].map((i) => ({ id: "i" + i, datasetId: "d", input: i })), task: async () => { await sleep(20); return 1; } });
eq(runs.size, 1, "run names");` },
{ id:"a02-non-error-throw", property:"A02",
  edits:[{file:ot, old:`        generation.end();

        throw error;
      }
    },
  );`, new:`        if (error instanceof Error) generation.end();

        throw error;
      }
    },
  );`}],
  needs:"an SDK method that throws something other than an Error at once",
  breaks:"the generation never ends",
  demo:`const O = await load("openai"); ${st}
const api2 = O.observeOpenAI({ chat: { create() { throw { status: 400 }; } } });
try { api2.chat.create({ model: "m" }); } catch {}
eq((await ended()).length, 1, "generations");` },
];
