const em="packages/client/src/experiment/ExperimentManager.ts", ds="packages/client/src/dataset/index.ts", pm="packages/client/src/prompt/promptManager.ts", pcache="packages/client/src/prompt/promptCache.ts", pc="packages/client/src/prompt/promptClients.ts", sp="packages/otel/src/span-processor.ts", ms="packages/otel/src/MediaService.ts", sc="packages/client/src/score/index.ts", mu="packages/core/src/mediaUpload.ts", md="packages/core/src/media.ts", mm="packages/client/src/media/index.ts", ot="packages/openai/src/traceMethod.ts", op="packages/openai/src/parseOpenAI.ts", lh="packages/langchain/src/CallbackHandler.ts", br="packages/browser/src/index.ts", pr="packages/core/src/propagation.ts", at="packages/tracing/src/attributes.ts", ut="packages/core/src/utils.ts", rr="packages/core/src/api/core/fetcher/requestWithRetries.ts", ti="packages/tracing/src/index.ts";
const tr=`const T = await load("tracing");`;
const cl=`const C = await load("client"); const c = new C.LangfuseClient();`;
const ok=`json({ successes: [], errors: [] }, 207)`;
const st=`const X = await otel(); const api = X.api; const ended = async () => { await X.processor.forceFlush(); return X.exported; };`;
const oo="packages/openai/src/observeOpenAI.ts";
const item = (n) => `({ id: "${n}", status: "ACTIVE", input: 1, datasetId: "x", datasetName: "d", createdAt: "2026-01-01T00:00:00Z", updatedAt: "2026-01-01T00:00:00Z" })`;
export default [
{ id:"d01-dataset-memo", property:"D01",
  edits:[{file:ds, old:"export class DatasetManager {\n", new:"export class DatasetManager {\n  private known = new Map<string, Dataset>();\n"},
    {file:ds, old:"const dataset = await this.langfuseClient.api.datasets.get(name);", new:"const dataset =\n      this.known.get(name) ??\n      (await this.langfuseClient.api.datasets.get(name));\n    this.known.set(name, dataset);"}],
  needs:"a dataset loaded twice through one client, changed on the server in between",
  breaks:"the second load returns the dataset's old description and metadata",
  demo:`let n = 0; mockFetch(async (x) => x.url.pathname.includes("/v2/datasets/") ? json({ id: "i", name: "d", description: "v" + ++n, metadata: null }) : json({ data: [], meta: { page: 1, limit: 50, totalItems: 0, totalPages: 0 } }));
${cl}
eq((await c.dataset.get("d")).description, "v1", "first"); eq((await c.dataset.get("d")).description, "v2", "second");` },
{ id:"d02-dataset-id-kept", property:"D02",
  edits:[{file:ds, old:"export class DatasetManager {\n", new:"export class DatasetManager {\n  private datasetId?: string;\n"},
    {file:ds, old:"      const datasetId = (\n        await this.langfuseClient.api.datasets.get(request.datasetName)\n      ).id;", new:"      const datasetId = (this.datasetId ??= (\n        await this.langfuseClient.api.datasets.get(request.datasetName)\n      ).id);"}],
  needs:"items with media created in two datasets through one client",
  breaks:"media of the second item are registered for the first dataset",
  demo:`const ids = []; mockFetch(async (x) => { const p = x.url.pathname;
  if (p.includes("/v2/datasets/")) return json({ id: "id-" + p.split("/").pop(), name: "x" });
  if (p === "/api/public/media" && x.method === "POST") { const b = JSON.parse(x.body); ids.push(b.datasetId); return json({ mediaId: b.sha256Hash && Buffer.from(b.sha256Hash, "base64").toString("base64url").slice(0, 22), uploadUrl: null }); }
  return json({ id: "i" }); });
const K = await load("core"); ${cl}
const m = (n) => new K.LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([n, 2]), contentType: "image/png" });
await c.dataset.createItem({ datasetName: "a", input: m(1) }); await c.dataset.createItem({ datasetName: "b", input: m(2) });
eq(ids, ["id-a", "id-b"], "datasets");` },
{ id:"d03-failed-lookup-kept", property:"D03",
  edits:[{file:mm, old:"export class MediaManager {\n", new:"export class MediaManager {\n  private lookups = new Map<string, Promise<any>>();\n"},
    {file:mm, old:"const mediaData = await this.apiClient.media.get(\n                parsedMediaReference.mediaId,\n              );", new:"const { mediaId } = parsedMediaReference;\n              const lookup =\n                this.lookups.get(mediaId) ?? this.apiClient.media.get(mediaId);\n              this.lookups.set(mediaId, lookup);\n              const mediaData = await lookup;"}],
  needs:"a reference resolved again after its media lookup failed once",
  breaks:"the reference is never resolved although the media can be fetched",
  demo:`let n = 0; mockFetch(async (x) => x.url.pathname.startsWith("/api/public/media/") ? (n++ ? json({ mediaId: "m", contentType: "image/png", contentLength: 1, uploadedAt: "2026-01-01T00:00:00Z", url: "http://store/m", urlExpiry: "x" }) : json({ message: "no" }, 404)) : new Response(new Uint8Array([1, 2, 3])));
${cl}
const ref = "@@@langfuseMedia:type=image/png|id=m|source=bytes@@@"; const go = () => c.media.resolveReferences({ obj: { a: ref }, resolveWith: "base64DataUri" });
eq((await go()).a, ref, "first"); eq((await go()).a, "data:image/png;base64,AQID", "second");` },
{ id:"e02-run-name-kept", property:"E02",
  edits:[{file:em, old:"export class ExperimentManager {\n", new:"export class ExperimentManager {\n  private runNames = new Map<string, string>();\n"},
    {file:em, old:"    const runName = this.createExperimentRunName({\n      name,\n      runName: providedRunName,\n    });", new:"    const runName =\n      this.runNames.get(name) ??\n      this.createExperimentRunName({\n        name,\n        runName: providedRunName,\n      });\n    this.runNames.set(name, runName);"}],
  needs:"the same experiment run again with another run name",
  breaks:"the second run's items are linked to the first run",
  demo:`mockFetch(async () => ${ok}); ${cl} ${st}
const go = (runName) => c.experiment.run({ name: "e", runName, data: [{ input: 1 }], task: async () => 1 });
eq((await go("one")).runName, "one", "first"); eq((await go("two")).runName, "two", "second");` },
{ id:"a02-config-shared", property:"A02",
  edits:[{file:oo, old:"const config = { ...langfuseConfig, generationName };", new:"const config = Object.assign(langfuseConfig ?? {}, { generationName });"}],
  needs:"a configuration object without a name",
  breaks:"the caller's configuration is modified: the name of the first property read sticks to every client wrapped with it",
  demo:`const O = await load("openai"); ${st}
const cfg = { userId: "u" }; class One { chat = { create: async () => ({ choices: [] }) }; }
await O.observeOpenAI(new One(), cfg).chat.create({ model: "m", messages: [] });
eq(cfg, { userId: "u" }, "configuration");` },
{ id:"e04-format-memo", property:"E04",
  edits:[{file:em, old:"      format: async (options?: { includeItemResults?: boolean }) =>\n        await this.prettyPrintResults({", new:"      format: async (options?: { includeItemResults?: boolean }) =>\n        (formatted ??= await this.prettyPrintResults({"},
    {file:em, old:"          includeItemResults: options?.includeItemResults ?? false,\n        }),\n    };", new:"          includeItemResults: options?.includeItemResults ?? false,\n        })),\n    };"},
    {file:em, old:"    await this.langfuseClient.score.flush();\n\n    return {", new:"    await this.langfuseClient.score.flush();\n    let formatted: string | undefined;\n\n    return {"}],
  needs:"a result formatted twice, with and without item results",
  breaks:"the second formatting has the options of the first",
  demo:`mockFetch(async (x) => x.url.pathname.includes("projects") ? json({ data: [{ id: "p", name: "p" }] }) : ${ok}); ${cl} ${st}
const r = await c.experiment.run({ name: "e", data: [{ input: "the input" }], task: async () => "the output" });
await r.format(); eq((await r.format({ includeItemResults: true })).includes("the output"), true, "items");` },
];
