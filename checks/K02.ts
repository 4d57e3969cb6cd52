import { inspect } from "node:util";
import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { LangfuseClient } from "@langfuse/client";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { LangfuseMedia, configureGlobalLogger, resetGlobalLogger, LogLevel } from "@langfuse/core";
import { startObservation } from "@langfuse/tracing";
import { LangfuseBrowserClient as BrowserClient } from "@langfuse/browser";
import { provider, useGlobal } from "./lib/otel";
import { ENV0 } from "./lib/prompt";
import { patchHttp, isOtlp } from "./lib/otlp";

const PK = "pk-lf-PUBLICPUBLIC", SK = "sk-lf-SECRETSECRET";
const BASIC = Buffer.from(`${PK}:${SK}`).toString("base64");
const BASE = "http://lf.example";
const HDR = "HEADERSECRETHEADER";
const PNG = "data:image/png;base64," + Buffer.from([1, 2, 3]).toString("base64");
const MREF = "@@@langfuseMedia:type=image/png|id=m1|source=bytes@@@";
const deep = (v: any): string => {
  let s = "";
  try {
    s += inspect(v, { depth: 12, showHidden: true, getters: false, maxStringLength: null, maxArrayLength: null });
  } catch {}
  try {
    s += JSON.stringify(v);
  } catch {}
  try {
    s += String(v) + (v?.stack ?? "") + (v?.message ?? "");
  } catch {}
  return s;
};
const NEEDLES: [string, string][] = [["secret key", SK], ["encoded credentials", BASIC], ["additional header value", HDR]];
const leak = (text: string) => NEEDLES.find(([, n]) => text.includes(n))?.[0];

function good(r: Req): Reply {
  if (isOtlp(r)) return { status: 200, json: {} };
  if (r.path.endsWith("/ingestion")) return { status: 207, json: { successes: r.json.batch.map((b: any) => ({ id: b.id, status: 201 })), errors: [] } };
  if (r.path.endsWith("/projects")) return { status: 200, json: { data: [{ id: "proj", name: "n", metadata: {} }] } };
  if (/\/prompts/.test(r.path)) return { status: 200, json: { type: "text", name: "n", version: 1, labels: [], tags: [], config: {}, prompt: "p" } };
  if (r.path.endsWith("/dataset-items") && r.method === "GET") return { status: 200, json: { data: [{ id: "i1", input: 1 }], meta: { page: 1, limit: 50, totalItems: 1, totalPages: 1 } } };
  if (/\/v2\/datasets\//.test(r.path)) return { status: 200, json: { id: "d", name: "d" } };
  if (r.path.endsWith("/media") && r.method === "POST") return { status: 200, json: { mediaId: "mid", uploadUrl: "http://storage.example/up?sig=1" } };
  if (/\/media\//.test(r.path) && r.method === "GET") return { status: 200, json: { mediaId: "m1", contentType: "image/png", contentLength: 1, uploadedAt: "x", url: "http://storage.example/m1", urlExpiry: "x" } };
  if (r.url.startsWith("http://storage.example/")) return { status: 200, bytes: new Uint8Array([7]) };
  return { status: 200, json: { data: [], meta: {} } };
}
const OUTCOMES: [string, (r: Req) => Reply][] = [
  ["ok", good],
  ...[401, 403, 404, 429, 500].map((s): [string, (r: Req) => Reply] => [String(s), (r) => ({ status: s, json: { message: "denied", error: "E" }, headers: { "retry-after": "1" } })]),
  ["not json", () => ({ status: 200, text: "<html>" })],
  ["error not json", () => ({ status: 502, text: "<html>" })],
  ["network", () => ({ error: Object.assign(new TypeError("fetch failed"), { cause: new Error("ECONNREFUSED") }) })],
  ["network, no cause", () => ({ error: new TypeError("Failed to fetch") })],
  ["connection reset", () => ({ error: Object.assign(new Error("socket hang up"), { code: "ECONNRESET" }) })],
  ["aborted", () => ({ error: Object.assign(new Error("aborted"), { name: "AbortError" }) })],
  ["not an error", () => ({ error: { reason: "offline" } as any })],
  ["storage fails", (r) => (r.url.startsWith("http://storage.example/") ? { status: 403, text: "denied" } : good(r))],
  ["per event errors", (r) => (r.path.endsWith("/ingestion") ? { status: 207, json: { successes: [], errors: [{ id: "x", status: 400, message: "bad" }] } } : good(r))],
];
const OPS: [string, (c: any) => any][] = [
  ["prompt.get", (c) => c.prompt.get("n")],
  ["prompt.get with fallback", (c) => c.prompt.get("n", { fallback: "f" })],
  ["prompt.create", (c) => c.prompt.create({ name: "n", prompt: "p" })],
  ["prompt.update", (c) => c.prompt.update({ name: "n", version: 1, newLabels: ["l"] })],
  ["prompt.delete", (c) => c.prompt.delete("n")],
  ["score", (c) => (c.score.create({ name: "s", value: 1, traceId: "t" }), c.flush())],
  ["shutdown", (c) => (c.score.create({ name: "s", value: 1, traceId: "t" }), c.shutdown())],
  ["dataset.get", (c) => c.dataset.get("d")],
  ["dataset.createItem", (c) => c.dataset.createItem({ datasetName: "d", input: { a: new LangfuseMedia({ source: "base64_data_uri", base64DataUri: PNG }) } })],
  ["media", (c) => c.media.resolveReferences({ obj: { a: MREF }, resolveWith: "base64DataUri" })],
  ["getTraceUrl", (c) => c.getTraceUrl("t")],
  ["api", (c) => c.api.trace.get("t1")],
  ["api list", (c) => c.api.trace.list({ limit: 1 })],
  ["experiment", (c) => c.experiment.run({ name: "e", data: [{ input: 1, id: "i", datasetId: "d" }], task: async () => 1, evaluators: [async () => ({ name: "e", value: 1 })] }).then((r: any) => r.format().then((s: string) => [r, s]))],
];
function verify(w: World, what: string, result: any) {
  for (const l of w.logs) {
    const k = leak(l.args.map(deep).join(" "));
    w.assert(!k, "logged", () => `${what}: the ${k} was written to the console (${l.level}: ${String(l.args[0])})`);
  }
  const k = leak(deep(result));
  w.assert(!k, "returned", () => `${what}: the ${k} is part of the result or error`);
  for (const r of w.reqs) {
    const own = r.url.startsWith(BASE + "/");
    const u = leak(decodeURIComponent(r.url) + " " + r.url);
    w.assert(!u, "url", () => `${what}: the ${u} is part of the address ${r.url}`);
    const body = typeof r.body === "string" ? r.body : r.body ? Buffer.from(r.body as any).toString("utf8") : "";
    const b = leak(body);
    w.assert(!b, "body", () => `${what}: the ${b} is part of the body of ${r.method} ${r.url}`);
    if (!own) {
      const h = leak(JSON.stringify(r.headers));
      w.assert(!h && !r.headers.authorization, "foreign", () => `${what}: credentials (${h ?? "authorization header"}) were sent to ${r.url}`);
    }
  }
}
const settle = async (w: World, f: () => any, answer: (r: Req) => Reply) => {
  try {
    const st = await w.settle(Promise.resolve(f()), answer);
    return st.ok ? st.value : st.error;
  } catch (e) {
    return e;
  }
};
const begin = (w: World) => {
  const level = w.pick([LogLevel.DEBUG, LogLevel.INFO], "log level");
  configureGlobalLogger({ level });
  w.env(ENV0);
  return w.pick(["param", "env"], "keys from");
};
const clientScen: Scenario = {
  name: "client operations",
  run: async (w: World) => {
    const how = begin(w);
    try {
      if (how === "env") w.env({ LANGFUSE_PUBLIC_KEY: PK, LANGFUSE_SECRET_KEY: SK });
      const c: any = new LangfuseClient({ ...(how === "param" ? { publicKey: PK, secretKey: SK } : {}), baseUrl: BASE, additionalHeaders: { "x-gateway-token": HDR } });
      const [op, run] = w.pick(OPS, "operation");
      const [oc, answer] = w.pick(OUTCOMES, "outcome");
      const res = await settle(w, () => run(c), answer);
      verify(w, `${op} (${oc})`, res);
      await settle(w, () => c.shutdown(), answer);
      verify(w, `${op} (${oc})`, undefined);
    } finally {
      resetGlobalLogger();
    }
  },
};
const tracingScen: Scenario = {
  name: "tracing",
  run: async (w: World) => {
    await patchHttp();
    const how = begin(w);
    try {
      if (how === "env") w.env({ LANGFUSE_PUBLIC_KEY: PK, LANGFUSE_SECRET_KEY: SK });
      const proc = new LangfuseSpanProcessor({ ...(how === "param" ? { publicKey: PK, secretKey: SK } : {}), baseUrl: BASE, additionalHeaders: { "x-gateway-token": HDR }, exportMode: w.pick<any>(["batched", "immediate"], "mode"), mask: w.pick<any>([undefined, ({ data }: any) => data, () => { throw new Error("mask"); }], "mask") });
      const p = provider([proc as any]);
      useGlobal(p);
      const [oc, answer] = w.pick(OUTCOMES, "outcome");
      startObservation("a", { input: { x: PNG }, metadata: { k: "v" } }).end();
      const res = await settle(w, () => proc.forceFlush(), answer);
      verify(w, `span export (${oc})`, res);
      startObservation("b", { output: PNG }).end();
      const res2 = await settle(w, () => proc.shutdown(), answer);
      verify(w, `span export at shutdown (${oc})`, res2);
      for (const r of w.reqs.filter((x) => isOtlp(x))) w.assert(!leak(String(r.body)), "body", "credentials in an exported span");
    } finally {
      resetGlobalLogger();
    }
  },
};
const timeoutScen: Scenario = {
  name: "requests without answer",
  run: async (w: World) => {
    begin(w);
    try {
      const c: any = new LangfuseClient({ publicKey: PK, secretKey: SK, baseUrl: BASE, additionalHeaders: { "x-gateway-token": HDR } });
      const [op, run] = w.pick(OPS, "operation");
      let out: any, done = false;
      const p = Promise.resolve(run(c)).then((v) => ((out = v), (done = true)), (e) => ((out = e), (done = true)));
      void p;
      for (let i = 0; i < 12 && !done; i++) await w.advance(70_000);
      verify(w, `${op} (no answer)`, out);
    } finally {
      resetGlobalLogger();
    }
  },
};
const missingScen: Scenario = {
  name: "one key missing",
  run: async (w: World) => {
    begin(w);
    try {
      const miss = w.bool("public key missing");
      w.env(ENV0);
      const c: any = new LangfuseClient({ ...(miss ? { secretKey: SK } : { publicKey: PK }), baseUrl: BASE });
      new LangfuseSpanProcessor({ ...(miss ? { secretKey: SK } : { publicKey: PK }), baseUrl: BASE });
      const [op, run] = w.pick(OPS, "operation");
      const res = await settle(w, () => run(c), good);
      verify(w, `${op} without ${miss ? "public" : "secret"} key`, res);
    } finally {
      resetGlobalLogger();
    }
  },
};
/** the browser client knows no secret: it authenticates with the public key only, at its own address */
const browserScen: Scenario = {
  name: "browser client",
  run: async (w: World) => {
    begin(w);
    try {
      const [oc, answer] = w.pick(OUTCOMES, "outcome");
      w.env({ LANGFUSE_SECRET_KEY: SK });
      const c: any = new BrowserClient({ publicKey: PK, baseUrl: BASE } as any);
      const res = await settle(w, () => c.score({ name: "s", value: 1, traceId: "t" }), answer);
      verify(w, `browser score (${oc})`, res);
      for (const r of w.reqs) w.assert(!leak(JSON.stringify(r.headers)) && r.url.startsWith(BASE + "/"), "headers", "the browser client sent a secret");
    } finally {
      resetGlobalLogger();
    }
  },
};
const def: CheckDef = {
  property: "K02",
  bounds: () => "14 client operations and span export x 11 answer outcomes and no answer x log levels x key sources",
  assumptions: ["results, errors and log arguments are searched in full depth as text (util.inspect, JSON, stack)"],
  scenarios: () => [clientScen, tracingScen, timeoutScen, missingScen, browserScen],
};
export default def;
