const score="packages/client/src/score/index.ts", pm="packages/client/src/prompt/promptManager.ts", pc="packages/client/src/prompt/promptCache.ts", pcl="packages/client/src/prompt/promptClients.ts", ds="packages/client/src/dataset/index.ts", jp="packages/client/src/dataset/jsonPath.ts", med="packages/client/src/media/index.ts", em="packages/client/src/experiment/ExperimentManager.ts";
const client=`const { LangfuseClient } = await load("client");`;
const ingest=`(c) => c.url.pathname.endsWith("/ingestion") ? json({ successes: [], errors: [] }, 207) : json({})`;
export default [
{ id:"s01-timer-clears-queue", property:"S01",
  edits:[{file:score, old:`body: scoreData,
    };`, new:`body: scoreData,
    };

    // Keep the queue free of superseded versions of the same score
    this.eventQueue = this.eventQueue.filter(
      (event) => (event.body as ScoreBody).id !== scoreData.id,
    );`}],
  needs:"two scores created with the same caller-supplied id (an update of a score) within one flush interval",
  breaks:"the first score is silently dropped from the queue and never sent",
  demo:`${client}
const calls = mockFetch(${ingest});
const lf = new LangfuseClient();
lf.score.create({ id: "a", name: "x", value: 1, traceId: "t" });
lf.score.create({ id: "b", name: "y", value: 2, traceId: "t" });
lf.score.create({ id: "a", name: "x", value: 3, traceId: "t" });
await lf.flush();
eq(calls.flatMap((c) => c.json.batch.map((e) => [e.body.id, e.body.value])), [["a", 1], ["b", 2], ["a", 3]], "scores sent");` },
{ id:"s01-falsy-environment", property:"S01",
  edits:[{file:score, old:`...data,
      id: data.id ?? generateUUID(),
      environment: data.environment ?? getEnv("LANGFUSE_TRACING_ENVIRONMENT"),`, new:`...data,
      id: data.id ?? generateUUID(),
      environment: getEnv("LANGFUSE_TRACING_ENVIRONMENT") ?? data.environment,`}],
  needs:"a score that names an environment while the process has LANGFUSE_TRACING_ENVIRONMENT set to another one",
  breaks:"the configured environment overrides the one the caller gave",
  demo:`${client}
process.env.LANGFUSE_TRACING_ENVIRONMENT = "prod";
const calls = mockFetch(${ingest});
const lf = new LangfuseClient();
lf.score.create({ name: "x", value: 1, traceId: "t", environment: "staging" });
await lf.flush();
eq(calls[0].json.batch[0].body.environment, "staging", "environment");` },
{ id:"s02-shutdown-skips-wait", property:"S02",
  edits:[{file:score, old:`  public async shutdown() {
    await this.flush();
  }`, new:`  public async shutdown() {
    if (this.eventQueue.length === 0) {
      return; // nothing left to send
    }
    await this.flush();
  }`}],
  needs:"shutdown called while a batch sent earlier (by timer or threshold) is still in flight and the queue is empty",
  breaks:"shutdown resolves before the in-flight scores have been delivered",
  demo:`${client}
let release; let finished = false;
mockFetch(async () => { await new Promise((r) => (release = r)); finished = true; return json({ successes: [], errors: [] }, 207); });
process.env.LANGFUSE_FLUSH_AT = "1";
const lf = new LangfuseClient();
lf.score.create({ name: "x", value: 1, traceId: "t" });
await sleep(50);
setTimeout(() => release(), 200);
await lf.shutdown();
assert(finished, "shutdown resolved while a score request was in flight");` },
{ id:"s03-timer-not-rearmed", property:"S03",
  edits:[{file:score, old:`      if (this.flushTimer) {
        clearTimeout(this.flushTimer);
        this.flushTimer = null;
      }

      while`, new:`      if (this.flushTimer && this.eventQueue.length > 0) {
        clearTimeout(this.flushTimer);
        this.flushTimer = null;
      }

      while`}],
  needs:"an explicit flush drains the queue leaving nothing, a timer armed by an earlier creation fires on an empty queue; later scores then rely on the timer",
  breaks:"when the timer fires with an empty queue it is never reset, so later scores below the threshold are never sent on their own",
  demo:`${client}
process.env.LANGFUSE_FLUSH_INTERVAL = "0.05";
const calls = mockFetch(${ingest});
const lf = new LangfuseClient();
// threshold flush while a timer is pending, then the timer of the next score
const orig = lf.score.eventQueue;
lf.score.create({ name: "x", value: 1, traceId: "t" });
lf.score.eventQueue.length; 
await sleep(200);
lf.score.create({ name: "y", value: 1, traceId: "t" });
await sleep(200);
eq(calls.flatMap((c) => c.json.batch.map((e) => e.body.name)), ["x", "y"], "sent without flush");` },
{ id:"p01-version-zero-label", property:"P01",
  edits:[{file:pm, old:`    const data = await this.apiClient.prompts.get(
        name,
        {
          version,
          label,
        },`, new:`    const data = await this.apiClient.prompts.get(
        name.trim(),
        {
          version,
          label,
        },`}],
  needs:"a prompt name with leading or trailing white space",
  breaks:"another prompt (the trimmed name) is requested, returned and cached under the requested name",
  demo:`${client}
const calls = mockFetch((c) => json({ type: "text", name: decodeURIComponent(c.url.pathname.split("/").pop()), prompt: "p:" + c.url.pathname, version: 1, labels: [], tags: [], config: {} }));
const lf = new LangfuseClient();
const p = await lf.prompt.get("greeting ");
eq(p.name, "greeting ", "prompt name");` },
{ id:"p01-cache-key-case", property:"P01",
  edits:[{file:pc, old:`parts.push("version:" + version.toString());`, new:`parts.push("version:" + version.toString(), "label:" + label);`},{file:pc, old:`} else if (label !== undefined) {
      parts.push("label:" + label);`, new:`} else if (label) {
      parts.push("label:" + label.toLowerCase());`}],
  needs:"two labels that differ only in case (or an upper-case label looked up after its lower-case variant)",
  breaks:"lookups of different labels share a cache entry, so one gets the other's prompt",
  demo:`${client}
mockFetch((c) => json({ type: "text", name: "n", prompt: "for " + c.url.searchParams.get("label"), version: 1, labels: [c.url.searchParams.get("label")], tags: [], config: {} }));
const lf = new LangfuseClient();
eq((await lf.prompt.get("n", { label: "beta" })).prompt, "for beta", "beta");
eq((await lf.prompt.get("n", { label: "BETA" })).prompt, "for BETA", "BETA");` },
{ id:"p02-refresh-flag-leak", property:"P02",
  edits:[{file:pc, old:`      .catch(() => {
        this._refreshingKeys.delete(key);
      });`, new:`      .catch(() => {
        // keep the key marked: a failing prompt is not refreshed in a tight loop
      });`},{file:pm, old:`        }).catch(() => {
          this.logger.warn(
            \`Failed to refresh prompt cache '\${cacheKey}', stale cache will be used until next refresh succeeds.\`,
          );
        });
        this.cache.addRefreshingPromise(cacheKey, refreshPromptPromise);`, new:`        });
        this.cache.addRefreshingPromise(cacheKey, refreshPromptPromise);`}],
  needs:"a background refresh that fails, followed by further lookups after the server recovered",
  breaks:"the prompt stays marked as refreshing for ever, so it is never refreshed again",
  demo:`${client}
let n = 0;
const calls = mockFetch((c) => { n++; return n === 2 ? json({ message: "no" }, 404) : json({ type: "text", name: "n", prompt: "v" + n, version: n, labels: [], tags: [], config: {} }); });
const lf = new LangfuseClient();
const get = () => lf.prompt.get("n", { cacheTtlSeconds: 0.02 });
eq((await get()).prompt, "v1", "first");
await sleep(60); eq((await get()).prompt, "v1", "stale"); await sleep(60);
eq((await get()).prompt, "v1", "still stale"); await sleep(60);
eq((await get()).prompt, "v3", "refreshed after recovery");` },
{ id:"p02-ttl-default-on-refresh", property:"P02",
  edits:[{file:pm, old:`        const refreshPromptPromise = this.fetchPromptAndUpdateCache({
          name,
          version: options?.version,
          label: options?.label,
          cacheTtlSeconds: options?.cacheTtlSeconds,`, new:`        const refreshPromptPromise = this.fetchPromptAndUpdateCache({
          name,
          version: options?.version,
          label: options?.label,`}],
  needs:"a lookup with its own time-to-live that triggers a background refresh, then a lookup after that time-to-live has passed again",
  breaks:"the refreshed prompt is kept for the default 60 s instead of the requested time-to-live",
  demo:`${client}
let n = 0;
const calls = mockFetch((c) => json({ type: "text", name: "n", prompt: "v" + ++n, version: n, labels: [], tags: [], config: {} }));
const lf = new LangfuseClient();
const get = () => lf.prompt.get("n", { cacheTtlSeconds: 0.02 });
await get(); await sleep(60); await get(); await sleep(60);
eq(calls.length, 2, "refresh");
await get(); await sleep(60);
eq(calls.length, 3, "second refresh after the requested ttl");` },
{ id:"p03-delete-version-only", property:"P03",
  edits:[{file:pm, old:`      label: options?.label,
    });

    this.cache.invalidate(name);`, new:`      label: options?.label,
    });

    if (options?.version === undefined) {
      this.cache.invalidate(name);
    }`}],
  needs:"deletion of one version of a prompt that is cached",
  breaks:"the deleted version keeps being served from the cache",
  demo:`${client}
let deleted = false;
mockFetch((c) => { if (c.method === "DELETE") { deleted = true; return new Response(null, { status: 204 }); } return deleted ? json({ message: "not found" }, 404) : json({ type: "text", name: "n", prompt: "old", version: 3, labels: [], tags: [], config: {} }); });
const lf = new LangfuseClient();
await lf.prompt.get("n", { version: 3 });
await lf.prompt.delete("n", { version: 3 });
let r; try { r = await lf.prompt.get("n", { version: 3 }); } catch (e) { r = "rejected"; }
eq(r, "rejected", "lookup of deleted version");` },
{ id:"p04-fallback-on-ttl0", property:"P04",
  edits:[{file:pm, old:`            labels: options.label ? [options.label] : [],
            cacheTtlSeconds: options?.cacheTtlSeconds,
            config: {},
            tags: [],
          };
`, new:`            labels: options.label ? [options.label] : [],
            cacheTtlSeconds: options?.cacheTtlSeconds,
            config: {},
            tags: [],
          };

          if (cachedPrompt) {
            return cachedPrompt.value;
          }
`},{file:pm, old:`          if (options.type === "chat") {
            return new ChatPromptClient(`, new:`          if (options.type === "chat" && Array.isArray(options.fallback)) {
            return new ChatPromptClient(`}],
  needs:"a lookup with time-to-live 0 and a fallback that fails although an older prompt is cached",
  breaks:"a stale prompt from the cache is returned instead of the caller's fallback for a lookup that asked never to use the cache",
  demo:`${client}
let ok = true;
mockFetch((c) => ok ? json({ type: "text", name: "n", prompt: "cached", version: 1, labels: [], tags: [], config: {} }) : json({ message: "x" }, 404));
const lf = new LangfuseClient();
await lf.prompt.get("n");
ok = false;
const p = await lf.prompt.get("n", { cacheTtlSeconds: 0, fallback: "fb" });
eq([p.prompt, p.isFallback], ["fb", true], "fallback");` },
{ id:"p05-placeholder-shared", property:"P05",
  edits:[{file:pcl, old:`        return {
          ...item,
          content: mustache.render(item.content, variables ?? {}),
        };`, new:`        item.content = mustache.render(item.content, variables ?? {});
        return item;`}],
  needs:"compiling with placeholder messages that contain variables, twice with different variables (or inspecting the arguments afterwards)",
  breaks:"the caller's placeholder messages are modified, so a second compilation with other variables gives the first values",
  demo:`${client}
const { ChatPromptClient } = await load("client");
const p = new ChatPromptClient({ type: "chat", name: "n", version: 1, labels: [], tags: [], config: {}, prompt: [{ role: "system", content: "s" }, { type: "placeholder", name: "h" }] });
const h = [{ role: "user", content: "hi {{name}}" }];
p.compile({ name: "A" }, { h });
eq(p.compile({ name: "B" }, { h })[1].content, "hi B", "second compilation");
eq(h, [{ role: "user", content: "hi {{name}}" }], "arguments unchanged");` },
{ id:"p06-tag-digits", property:"P06",
  edits:[{file:pcl, old:`return jsonEscapedContent.replace(/\\{\\{(\\w+)\\}\\}/g, "{$1}");`, new:`return jsonEscapedContent.replace(/\\{\\{([a-zA-Z_]+)\\}\\}/g, "{$1}");`}],
  needs:"a variable whose name contains a digit",
  breaks:"the variable becomes literal text in the LangChain template",
  demo:`${client}
const { TextPromptClient } = await load("client");
const p = new TextPromptClient({ type: "text", name: "n", version: 1, labels: [], tags: [], config: {}, prompt: "Hi {{user1}} and {{b}}" });
eq(p.getLangchainPrompt(), "Hi {user1} and {b}", "template");` },
{ id:"d01-empty-page-stop", property:"D01",
  edits:[{file:ds, old:`        limit: options?.fetchItemsPageSize ?? 50,`, new:`        limit: Math.min(options?.fetchItemsPageSize ?? 50, 100),`},{file:ds, old:`if (itemsResponse.meta.totalPages <= page) {`, new:`if (
        itemsResponse.meta.totalPages <= page ||
        itemsResponse.data.length < (options?.fetchItemsPageSize ?? 50)
      ) {`}],
  needs:"a page that the server fills with fewer items than asked for although more pages follow (page size above the server's maximum)",
  breaks:"loading stops early and returns a partial dataset",
  demo:`${client}
const all = Array.from({ length: 250 }, (_, i) => ({ id: "i" + i, input: i }));
mockFetch((c) => { if (!c.url.pathname.endsWith("dataset-items")) return json({ id: "d", name: "ds" }); const page = +c.url.searchParams.get("page"), limit = Math.min(+c.url.searchParams.get("limit"), 100); return json({ data: all.slice((page - 1) * limit, page * limit), meta: { page, limit, totalItems: 250, totalPages: Math.ceil(250 / limit) } }); });
const lf = new LangfuseClient();
const d = await lf.dataset.get("ds", { fetchItemsPageSize: 200 });
eq(d.items.length, 250, "items");` },
{ id:"d02-shared-ancestor", property:"D02",
  edits:[{file:ds, old:`const nextAncestors = new Set(ancestors).add(data);`, new:`const nextAncestors = ancestors.add(data);`}],
  needs:"the same object used at two places of an item's payload, with media inside",
  breaks:"the second occurrence is taken for a cycle and its media object is sent in place of a reference",
  demo:`${client}
const { LangfuseMedia } = await load("core");
const calls = mockFetch(async (c) => { if (c.url.pathname.endsWith("/media")) { return json({ uploadUrl: null, mediaId: "m" }); } return json({ id: "d", name: "ds" }); });
const lf = new LangfuseClient();
const shared = { pic: new LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([1, 2, 3]), contentType: "image/png" }) };
await lf.dataset.createItem({ datasetName: "ds", input: { a: shared, b: shared } });
const body = calls.find((c) => c.url.pathname.endsWith("/dataset-items")).json;
assert(body.input.a.pic.startsWith("@@@langfuseMedia"), "first occurrence");
eq(body.input.b.pic, body.input.a.pic, "second occurrence");` },
{ id:"d03-depth-off", property:"D03",
  edits:[{file:med, old:`        for (const [
          referenceString,
          base64MediaContent,
        ] of referenceStringToMediaContentMap.entries()) {
          result = result.replaceAll(referenceString, base64MediaContent) as T &
            string;
        }`, new:`        for (const [
          referenceString,
          base64MediaContent,
        ] of referenceStringToMediaContentMap.entries()) {
          result = result.replace(referenceString, base64MediaContent) as T &
            string;
        }`}],
  needs:"the same reference occurring twice in one string",
  breaks:"only the first occurrence is resolved",
  demo:`${client}
mockFetch((c) => c.url.hostname === "files" ? new Response(new Uint8Array([104, 105])) : json({ mediaId: "m", contentType: "text/plain", url: "http://files/x" }));
const lf = new LangfuseClient();
const ref = "@@@langfuseMedia:type=text/plain|id=m|source=bytes@@@";
const r = await lf.media.resolveReferences({ obj: ref + " and " + ref, resolveWith: "base64DataUri" });
eq(r, "data:text/plain;base64,aGk= and data:text/plain;base64,aGk=", "resolved");` },
{ id:"d03-jsonpath-index", property:"D03",
  edits:[{file:jp, old:`while (i < n && jsonPath[i] >= "0" && jsonPath[i] <= "9") {`, new:`while (i < n && i - start < 1 && jsonPath[i] >= "0" && jsonPath[i] <= "9") {`}],
  needs:"a media reference at an array index of 10 or more",
  breaks:"the reference is not hydrated",
  demo:`${client}
const item = { id: "i", input: Array.from({ length: 12 }, (_, k) => "x" + k), mediaReferences: [{ field: "input", jsonPath: "$[11]", referenceString: "ref", media: { mediaId: "m", contentType: "image/png", url: "http://u" } }] };
mockFetch((c) => c.url.pathname.endsWith("dataset-items") ? json({ data: [item], meta: { totalPages: 1 } }) : json({ id: "d", name: "ds" }));
const lf = new LangfuseClient();
const d = await lf.dataset.get("ds");
eq(d.items[0].input[11].mediaId, "m", "hydrated at index 11");` },
{ id:"e01-chunked-slot", property:"E01",
  edits:[{file:em, old:`        const index = nextIndex++;
        const item = data[index];
`, new:`        const index = nextIndex;
        const item = data[index];
        await Promise.resolve(); // yield between items
        nextIndex = index + 1;
`}],
  needs:"more than one worker (maxConcurrency of at least 2) with several items",
  breaks:"concurrent workers pick the same index, so items run more than once",
  demo:`${client}
mockFetch(() => json({}));
const lf = new LangfuseClient();
const seen = [];
await lf.experiment.run({ name: "e", data: [{ input: 1 }, { input: 2 }, { input: 3 }], maxConcurrency: 2, task: async (i) => { seen.push(i.input); await sleep(5); return i.input; } });
eq(seen.sort(), [1, 2, 3], "tasks run");` },
{ id:"e02-score-override", property:"E02",
  edits:[{file:em, old:`        observationId,
        ...ev,
      });`, new:`        observationId,
        ...ev,
        comment: ev.comment || undefined,
        value: ev.value || 0,
      });`}],
  needs:"an evaluation whose value is falsy but not 0 (false or an empty string)",
  breaks:"the evaluation value is changed in the score that is sent",
  demo:`${client}
const { NodeTracerProvider } = req("@opentelemetry/sdk-trace-node"); new NodeTracerProvider().register();
const calls = mockFetch(${ingest});
const lf = new LangfuseClient();
await lf.experiment.run({ name: "e", data: [{ input: 1 }], task: async () => "o", evaluators: [async () => ({ name: "ok", value: false, dataType: "BOOLEAN" })] });
eq(calls.flatMap((c) => c.json?.batch ?? []).map((e) => e.body.value), [false], "value");` },
{ id:"e03-context-leak", property:"E03",
  edits:[{file:em, old:`          async () => await task(item),
        );`, new:`          async () => await task(item),
        ).finally(() => undefined);`},{file:"packages/core/src/propagation.ts", old:`      if (value !== undefined) {
        // Experiment attributes are already serialized, no validation needed`, new:`      if (value !== undefined && value.length <= 200) {
        // Experiment attributes are already serialized, no validation needed`}],
  needs:"experiment or item metadata whose serialised form is longer than 200 characters",
  breaks:"the experiment metadata is missing on the spans of the task",
  demo:`${client}
const o = await otel(); const { startObservation } = await load("tracing");
mockFetch(${ingest});
const lf = new LangfuseClient();
await lf.experiment.run({ name: "e", metadata: { long: "x".repeat(300) }, data: [{ input: 1 }], task: async () => { startObservation("inner").end(); return 1; } });
await o.processor.forceFlush();
const s = o.exported.find((x) => x.name === "inner");
eq(s.attributes["langfuse.experiment.metadata"], JSON.stringify({ long: "x".repeat(300) }), "experiment metadata");` },
{ id:"e04-average", property:"E04",
  edits:[{file:em, old:`const avg = scores.reduce((a, b) => a + b, 0) / scores.length;`, new:`const avg = scores.reduce((a, b) => a + b, 0) / itemResults.length;`}],
  needs:"an evaluation present for only some of the items (or several times for one)",
  breaks:"the average is computed over the number of items instead of the number of scores",
  demo:`${client}
mockFetch(${ingest});
const lf = new LangfuseClient();
const r = await lf.experiment.run({ name: "e", data: [{ input: 1 }, { input: 2 }], task: async (i) => i.input, evaluators: [async ({ input }) => input === 1 ? { name: "acc", value: 0.5 } : { name: "other", value: 1 }] });
assert((await r.format()).includes("acc: 0.500"), "average of acc");` },
];
