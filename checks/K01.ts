import { isDeepStrictEqual } from "node:util";
import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { LangfuseClient } from "@langfuse/client";
import { ENV0 } from "./lib/prompt";

const show = (v: any) => JSON.stringify(v);
const j = (v: any) => (v === undefined ? undefined : JSON.parse(JSON.stringify(v)));
const b64 = (s: string) => Buffer.from(s, "utf8").toString("base64");

function answer(r: Req): Reply {
  if (r.path.endsWith("/ingestion")) return { status: 207, json: { successes: r.json.batch.map((b: any) => ({ id: b.id, status: 201 })), errors: [] } };
  if (r.path.endsWith("/projects")) return { status: 200, json: { data: [{ id: "proj-" + r.id, name: "n", metadata: {} }, { id: "other" }] } };
  if (/\/prompts\//.test(r.path)) return { status: 200, json: { type: "text", name: "n", version: 1, labels: [], tags: [], config: {}, prompt: "p" + r.id } };
  if (r.path.endsWith("/dataset-items") && r.method === "GET") return { status: 200, json: { data: [{ id: "i1", input: 1 }], meta: { page: 1, limit: 50, totalItems: 1, totalPages: 1 } } };
  if (/\/v2\/datasets\//.test(r.path)) return { status: 200, json: { id: "d", name: "d", marker: r.id } };
  if (/\/media\//.test(r.path)) return { status: 200, json: { mediaId: "m1", contentType: "image/png", contentLength: 1, uploadedAt: "x", url: "http://store/m1", urlExpiry: "x" } };
  if (r.url.startsWith("http://store/")) return { status: 200, bytes: new Uint8Array([7]) };
  return { status: 200, json: { marker: r.id, data: [], meta: {} } };
}
const MREF = "@@@langfuseMedia:type=image/png|id=m1|source=bytes@@@";
/** operations covering every part of the client */
const OPS: [string, (c: any) => any][] = [
  ["prompt.get", (c) => c.prompt.get("n")],
  ["score", (c) => (c.score.create({ name: "s", value: 1, traceId: "t" }), c.flush())],
  ["shutdown", (c) => (c.score.create({ name: "s", value: 1, traceId: "t" }), c.shutdown())],
  ["dataset.get", (c) => c.dataset.get("d")],
  ["dataset.createItem", (c) => c.dataset.createItem({ datasetName: "d", input: 1 })],
  ["media", (c) => c.media.resolveReferences({ obj: { a: MREF }, resolveWith: "base64DataUri" })],
  ["getTraceUrl", (c) => c.getTraceUrl("tR-9aF")],
  ["api", (c) => c.api.trace.get("t1")],
  ["experiment", (c) => c.experiment.run({ name: "e", data: [{ input: 1, id: "i", datasetId: "d" }], task: async () => 1, evaluators: [async () => ({ name: "e", value: 1 })] })],
];
const KEYS = ["pk-1", "pk:ü/ 2"], SECRETS = ["sk-1", "sk:with:colons ü"];
const configScen = ([op, run]: (typeof OPS)[0]): Scenario => ({
  name: `configuration: ${op}`,
  run: async (w: World) => {
    const src = (label: string) => w.pick(["param", "env", "both"] as const, label);
    const params: any = {}, env: any = { ...ENV0 };
    const sp = src("public key"), ss = src("secret key");
    const pk = w.pick(KEYS, "pk"), sk = w.pick(SECRETS, "sk");
    if (sp !== "env") params.publicKey = pk;
    if (sp !== "param") env.LANGFUSE_PUBLIC_KEY = sp === "both" ? "pk-wrong" : pk;
    if (ss !== "env") params.secretKey = sk;
    if (ss !== "param") env.LANGFUSE_SECRET_KEY = ss === "both" ? "sk-wrong" : sk;
    const bp = w.bool("base url given"), be = w.bool("LANGFUSE_BASE_URL"), bl = w.bool("LANGFUSE_BASEURL");
    if (bp) params.baseUrl = "https://param.example:8443/sub/X";
    if (be) env.LANGFUSE_BASE_URL = "https://env.example/LF";
    if (bl) env.LANGFUSE_BASEURL = "http://legacy.example:3000/Sub_Path";
    // a slash at the end of the address makes no difference
    if (bp) params.baseUrl += w.pick(["", "/"], "slash");
    else if (be) env.LANGFUSE_BASE_URL += w.pick(["", "/"], "slash");
    const base = bp ? "https://param.example:8443/sub/X" : be ? "https://env.example/LF" : bl ? "http://legacy.example:3000/Sub_Path" : "https://cloud.langfuse.com";
    const hd = w.pick<any>([undefined, {}, { "X-Extra": "e 1", "x-other": "2" }], "headers");
    if (hd) params.additionalHeaders = hd;
    w.env(env);
    const c = new LangfuseClient(params);
    // later changes of the environment do not affect the client
    w.env({ LANGFUSE_PUBLIC_KEY: "later", LANGFUSE_SECRET_KEY: "later", LANGFUSE_BASE_URL: "http://later" });
    const st = await w.settle(Promise.resolve(run(c)), answer);
    w.assert(st.ok, "rejected", () => `${op} rejected ${st.error}`);
    const mine = w.reqs.filter((r) => !r.url.startsWith("http://store/"));
    w.assert(mine.length > 0, "no-request", `${op} sent no request`);
    for (const r of mine) {
      w.assert(r.url.startsWith(base + "/api/public/"), "address", () => `${op} requested ${r.url}, configured is ${base}`);
      w.assert(r.headers.authorization === `Basic ${b64(`${pk}:${sk}`)}`, "credentials", () => `${op}: authorization ${r.headers.authorization}`);
      w.assert(r.headers["x-langfuse-sdk-name"] === "javascript" && /^\d+\.\d+/.test(r.headers["x-langfuse-sdk-version"] ?? "") && r.headers["x-langfuse-public-key"] === pk, "sdk-headers", () => `${op}: SDK headers ${show(r.headers)}`);
      for (const [k, v] of Object.entries(hd ?? {})) w.assert(r.headers[k.toLowerCase()] === v, "headers", () => `${op}: header ${k} is ${r.headers[k.toLowerCase()]}`);
    }
    if (op === "getTraceUrl") w.assert(st.value === `${base}/project/proj-${mine[0].id}/traces/tR-9aF`, "trace-url", () => `trace URL ${st.value}`);
  },
});
/** names kept from v3 and what they stand for */
const ALIASES: [string, (c: any) => any, any[][]][] = [
  ["getPrompt", (c) => c.prompt.get.bind(c.prompt), [["n"], ["n", { label: "l" }], ["n", { version: 2, cacheTtlSeconds: 0 }]]],
  ["createPrompt", (c) => c.prompt.create.bind(c.prompt), [[{ name: "n", prompt: "p" }], [{ name: "n", type: "chat", prompt: [{ role: "user", content: "x" }] }]]],
  ["updatePrompt", (c) => c.prompt.update.bind(c.prompt), [[{ name: "n", version: 1, newLabels: ["l"] }]]],
  ["getDataset", (c) => c.dataset.get.bind(c.dataset), [["d"], ["d", { fetchItemsPageSize: 3 }]]],
  ["fetchTrace", (c) => c.api.trace.get.bind(c.api.trace), [["t1"], ["t/1"]]],
  ["fetchTraces", (c) => c.api.trace.list.bind(c.api.trace), [[], [{ limit: 3, name: "x y" }]]],
  ["fetchObservation", (c) => c.api.legacy.observationsV1.get.bind(c.api.legacy.observationsV1), [["o1"]]],
  ["fetchObservations", (c) => c.api.observations.getMany.bind(c.api.observations), [[], [{ limit: 2 }]]],
  ["fetchSessions", (c) => c.api.sessions.get.bind(c.api.sessions), [["s 1"]]],
  ["getDatasetRun", (c) => c.api.datasets.getRun.bind(c.api.datasets), [["d", "r"]]],
  ["getDatasetRuns", (c) => c.api.datasets.getRuns.bind(c.api.datasets), [["d"], ["d", { page: 2 }]]],
  ["createDataset", (c) => c.api.datasets.create.bind(c.api.datasets), [[{ name: "d", metadata: { a: 1 } }]]],
  ["getDatasetItem", (c) => c.api.datasetItems.get.bind(c.api.datasetItems), [["i1"]]],
  ["createDatasetItem", (c) => c.dataset.createItem.bind(c.dataset), [[{ datasetName: "d", id: "own", input: { a: 1 } }]]],
  ["fetchMedia", (c) => c.api.media.get.bind(c.api.media), [["m1"]]],
  ["resolveMediaReferences", (c) => c.media.resolveReferences.bind(c.media), [[{ obj: [MREF], resolveWith: "base64DataUri" }]]],
];
const wire = (rs: Req[]) => rs.map((r) => [r.method, r.url, r.body === undefined ? null : r.body, Object.entries(r.headers).sort()]);
const aliasScen: Scenario = {
  name: "v3 names",
  run: async (w: World) => {
    w.env(ENV0);
    const [name, target, argss] = w.pick(ALIASES, "alias");
    const more = { headers: { "x-req": "1" }, queryParams: { q: "1" }, maxRetries: 0 };
    const args = [...w.pick(argss, "arguments"), ...w.pick([[], [more], [{}, more], [undefined, more]], "further arguments")];
    const fail = w.bool("fails");
    const mk = (): any => new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf" });
    const out: any[] = [];
    for (const via of ["alias", "method"]) {
      const c = mk();
      const from = w.reqs.length;
      const f = via === "alias" ? c[name] : target(c);
      const detached = f; // called without receiver
      const st = await w.settle(detached(...args), (r) => (fail ? { status: 404, json: { m: 1 } } : normalise(answer(r))));
      out.push({ st: st.ok ? { ok: j(st.value) } : { error: [(st.error as any)?.constructor?.name, (st.error as any)?.statusCode] }, reqs: wire(w.reqs.slice(from)) });
    }
    w.assert(isDeepStrictEqual(out[0].reqs, out[1].reqs), "requests", () => `${name} requested ${show(out[0].reqs)}, its method ${show(out[1].reqs)}`);
    w.assert(isDeepStrictEqual(out[0].st, out[1].st), "result", () => `${name} gave ${show(out[0].st)}, its method ${show(out[1].st)}`);
  },
};
const normalise = (a: any): Reply => {
  if (a.json?.marker !== undefined) a.json.marker = 0;
  if (typeof a.json?.prompt === "string") a.json.prompt = "p";
  return a;
};
/** the v3 names share state with the managers: the prompt cache is one */
const sharedScen: Scenario = {
  name: "v3 names share the cache",
  run: async (w: World) => {
    w.env(ENV0);
    const c: any = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf" });
    const ops = { a: () => c.getPrompt("n"), b: () => c.prompt.get("n"), u: () => c.updatePrompt({ name: "n", version: 1, newLabels: [] }), v: () => c.prompt.update({ name: "n", version: 1, newLabels: [] }) };
    let cached: string | null = null;
    for (let k = 0; k < 4; k++) {
      const op = w.pick(["a", "b", "u", "v"] as const, "op");
      const n = w.reqs.length;
      const st = await w.settle(ops[op](), answer);
      w.assert(st.ok, "rejected", () => `rejected ${st.error}`);
      if (op === "u" || op === "v") cached = null;
      else {
        w.assert(w.reqs.length - n === (cached === null ? 1 : 0), "cache", `lookup sent ${w.reqs.length - n} requests, prompt ${cached === null ? "not " : ""}cached`);
        if (cached !== null) w.assert(st.value.prompt === cached, "cache", "another content");
        cached = st.value.prompt;
      }
    }
  },
};
const urlScen: Scenario = {
  name: "trace urls",
  run: async (w: World) => {
    w.env(ENV0);
    const c1: any = new LangfuseClient({ publicKey: "pk1", secretKey: "sk1", baseUrl: "http://one" }), c2: any = new LangfuseClient({ publicKey: "pk2", secretKey: "sk2", baseUrl: "http://two/x" });
    const projOf = (r: Req) => (r.headers["x-langfuse-public-key"] === "pk1" || r.url.startsWith("http://one") ? "P1" : "P2");
    const res: any[] = [];
    let faults = 1;
    const mk = (c: any, id: string, base: string, proj: string) => () => {
      const x: any = { want: `${base}/project/${proj}/traces/${id}` };
      res.push(x);
      return c.getTraceUrl(id).then((v: any) => (x.v = v), (e: any) => (x.e = e));
    };
    const failed: Req[] = [];
    await w.system({
      threads: [
        { name: "one", steps: [mk(c1, "a", "http://one", "P1"), mk(c1, "B1f", "http://one", "P1")] },
        { name: "one'", steps: [mk(c1, "c", "http://one", "P1")] },
        { name: "two", steps: [mk(c2, "a", "http://two/x", "P2")] },
      ],
      replies: (r) => [{ name: "ok", reply: () => ({ status: 200, json: { data: [{ id: projOf(r) }] } }) }, ...(faults > 0 ? [{ name: "400", reply: () => (faults--, failed.push(r), { status: 400, json: {} }) }] : [])],
    });
    const rejected = res.filter((x) => x.e);
    for (const x of res) if (!x.e) w.assert(x.v === x.want, "trace-url", () => `trace URL ${x.v}, expected ${x.want}`);
    w.assert(failed.length > 0 || rejected.length === 0, "rejected", "getTraceUrl rejected although every request succeeded");
    for (const [c, base, proj] of [[c1, "http://one", "P1"], [c2, "http://two/x", "P2"]] as any) {
      const st = await w.settle(c.getTraceUrl("later"), (r) => ({ status: 200, json: { data: [{ id: projOf(r) }] } }));
      w.assert(st.ok && st.value === `${base}/project/${proj}/traces/later`, "trace-url", () => `later trace URL ${st.value ?? st.error}`);
    }
  },
};
const bareScen: Scenario = {
  name: "missing credentials",
  run: async (w: World) => {
    const params: any = { baseUrl: "http://lf" };
    if (w.bool("public")) params.publicKey = "pk";
    if (w.bool("secret")) params.secretKey = "sk";
    w.env(ENV0);
    let c: any;
    try {
      c = w.bool("no params") ? new LangfuseClient() : new LangfuseClient(params);
    } catch (e) {
      w.fail("construct", `constructing a client without credentials threw ${e}`);
    }
    const st = await w.settle(c.api.trace.get("t"), () => ({ status: 401, json: {} }));
    w.assert(!st.ok, "resolved", "an unauthorised request resolved");
  },
};
/** the documented request timeout */
const timeoutScen: Scenario = {
  name: "request timeout",
  run: async (w: World) => {
    w.env(ENV0);
    const how = w.pick(["param", "env"], "how");
    if (how === "env") w.env({ LANGFUSE_TIMEOUT: "3" });
    const c: any = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", ...(how === "param" ? { timeout: 3 } : {}) });
    let st: any;
    c.api.trace.get("t").then((v: any) => (st = { v }), (e: any) => (st = { e }));
    await w.drain();
    await w.advance(3_500);
    w.assert(st?.e, "timeout-ignored", `a request without answer is still pending 3.5 s after it was sent although a timeout of 3 s is configured (${how})`);
  },
};
const def: CheckDef = {
  property: "K01",
  bounds: () => `${OPS.length} operations x 3 sources of each key x 4 key pairs x 8 address source combinations x 3 header sets; ${ALIASES.length} v3 names x arguments x outcome, compared with the methods they stand for; all histories of 4 lookups/updates through either name; all completion orders of concurrent trace URL lookups of two clients with one failure`,
  assumptions: ["public and secret keys are non-empty"],
  scenarios: () => [...OPS.map(configScen), aliasScen, sharedScen, urlScen, bareScen, timeoutScen],
};
export default def;
