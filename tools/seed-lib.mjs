// helpers for the demonstration beside this file; run with the repository as working directory
import { createRequire } from "node:module";
import path from "node:path";
import { pathToFileURL } from "node:url";
import { isDeepStrictEqual, inspect } from "node:util";
const repo = process.cwd();
process.env.LANGFUSE_PUBLIC_KEY ??= "pk";
process.env.LANGFUSE_SECRET_KEY ??= "sk";
process.env.LANGFUSE_BASE_URL ??= "http://langfuse.test";
export const load = (p) => import(pathToFileURL(path.join(repo, "packages", p, "dist/index.mjs")).href);
export const req = (name, from = ".") => createRequire(path.join(repo, from, "package.json"))(name);
export const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
export function assert(c, m) {
  if (!c) {
    console.error("FAIL: " + m);
    process.exit(1);
  }
}
export const eq = (a, b, m) => assert(isDeepStrictEqual(a, b), `${m}: got ${inspect(a, { depth: 6 })}, expected ${inspect(b, { depth: 6 })}`);
export const json = (o, status = 200, headers = {}) => new Response(JSON.stringify(o), { status, headers: { "content-type": "application/json", ...headers } });
export function mockFetch(handler) {
  const calls = [];
  globalThis.fetch = async (url, init = {}) => {
    const c = { url: new URL(String(url)), method: init.method ?? "GET", body: init.body, headers: init.headers, signal: init.signal };
    try { c.json = JSON.parse(init.body); } catch {}
    calls.push(c);
    return handler(c, calls.length - 1);
  };
  return calls;
}
/** a tracer provider with the Langfuse processor and a recording exporter */
export async function otel(params = {}) {
  const { NodeTracerProvider } = req("@opentelemetry/sdk-trace-node");
  const { LangfuseSpanProcessor } = await load("otel");
  const exported = [];
  const exporter = { export: (spans, cb) => { exported.push(...spans); cb({ code: 0 }); }, shutdown: async () => {}, forceFlush: async () => {} };
  const processor = new LangfuseSpanProcessor({ exporter, ...params });
  const provider = new NodeTracerProvider({ spanProcessors: [processor] });
  provider.register();
  return { exported, exporter, processor, provider, api: req("@opentelemetry/api") };
}
process.on("unhandledRejection", (e) => assert(false, "unhandled rejection " + e));
export const done = () => { console.log("ok"); process.exit(0); };
