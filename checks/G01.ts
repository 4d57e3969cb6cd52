import { isDeepStrictEqual } from "node:util";
import { createRequire } from "node:module";
import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { LangfuseClient } from "@langfuse/client";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import * as core from "@langfuse/core";
import { startObservation, startActiveObservation, propagateAttributes, updateActiveObservation } from "@langfuse/tracing";
import { provider, useGlobal } from "./lib/otel";
import { ENV0 } from "./lib/prompt";

const { LogLevel, Logger, createLogger, getGlobalLogger, configureGlobalLogger, resetGlobalLogger, LangfuseMedia } = core as any;
const show = (v: any) => JSON.stringify(v);
const LEVELS = ["DEBUG", "INFO", "WARN", "ERROR"] as const;
type Lv = (typeof LEVELS)[number] | "NONE";
const ALL: Lv[] = [...LEVELS, "NONE"];
const rank = (l: Lv) => ALL.indexOf(l);
const method = (l: Lv) => l.toLowerCase();
const ARGS: any[][] = [[], [undefined], [{ a: 1 }, "x", null], [new Error("e")]];

type Conf = { level: Lv; prefix?: string; ts?: boolean };
const conf = (c: Conf) => ({ level: LogLevel[c.level], ...(c.prefix === undefined ? {} : { prefix: c.prefix }), ...(c.ts === undefined ? {} : { enableTimestamp: c.ts }) });
/** log one message at every level and compare with the reference */
function probe(w: World, logger: any, c: Conf, what: string, args: any[] = []) {
  for (const l of LEVELS) {
    const from = w.logs.length;
    const msg = ` m\t${l}  %s \n`;
    logger[method(l)](msg, ...args);
    const out = w.logs.slice(from);
    const on = rank(l) >= rank(c.level);
    w.assert(logger.isLevelEnabled(LogLevel[l]) === on, "enabled", () => `${what}: isLevelEnabled(${l}) is ${!on} at level ${c.level}`);
    w.assert(out.length === (on ? 1 : 0), "level", () => `${what}: ${l} message at level ${c.level} printed ${out.length} times`);
    if (!on) continue;
    w.assert(out[0].level === method(l), "method", () => `${what}: ${l} message printed with console.${out[0].level}`);
    const text = String(out[0].args[0]);
    w.assert(text.endsWith(msg), "message", () => `${what}: ${l} message printed as ${text}`);
    w.assert(text.includes(`[${l}]`), "label", () => `${what}: level missing in ${text}`);
    w.assert(text.includes(c.prefix || "[Langfuse SDK]"), "prefix", () => `${what}: prefix missing in ${text}`);
    w.assert(text.startsWith(new Date().toISOString()) === (c.ts ?? true), "timestamp", () => `${what}: timestamp ${c.ts ?? true ? "missing" : "printed"} in ${text}`);
    w.assert(out[0].args.length === args.length + 1 && args.every((a, i) => out[0].args[i + 1] === a), "arguments", () => `${what}: arguments ${show(out[0].args)}`);
  }
  w.assert(logger.getLevel() === LogLevel[c.level], "get-level", () => `${what}: getLevel is ${logger.getLevel()}, configured ${c.level}`);
}
const CONFS: Conf[] = ALL.flatMap((level) => [{ level }, { level, prefix: "P!", ts: false }, { level, prefix: "", ts: true }]);

const ownScen: Scenario = {
  name: "own loggers",
  run: async (w: World) => {
    resetGlobalLogger();
    const c = w.pick(CONFS, "config"), d = w.pick(CONFS, "other config");
    const via = w.pick(["new", "createLogger"], "made by");
    const args = w.pick(ARGS, "arguments");
    const before = show(conf(c));
    const given = conf(c);
    const a = via === "new" ? new Logger(given) : createLogger(given);
    const b = createLogger(conf(d));
    probe(w, a, c, "first logger", args);
    probe(w, b, d, "second logger", args);
    const l2 = w.pick(ALL, "setLevel");
    a.setLevel(LogLevel[l2]);
    probe(w, a, { ...c, level: l2 }, "after setLevel", args);
    probe(w, b, d, "second logger after setLevel of the first", args);
    probe(w, getGlobalLogger(), { level: "INFO" }, "global logger", args);
    w.assert(show(given) === before, "modified", "the caller's configuration was modified");
  },
};

type GOp = { t: "configure"; c: Conf } | { t: "set"; l: Lv } | { t: "reset" } | { t: "get" };
const GOPS: GOp[] = [
  ...(["DEBUG", "WARN", "NONE"] as Lv[]).map((level): GOp => ({ t: "configure", c: { level } })),
  { t: "configure", c: { level: "ERROR", prefix: "Q", ts: false } },
  ...(["DEBUG", "ERROR", "NONE"] as Lv[]).map((l): GOp => ({ t: "set", l })),
  { t: "reset" },
  { t: "get" },
];
const globalScen = (len: number): Scenario => ({
  name: `global logger, histories of ${len}`,
  run: async (w: World) => {
    resetGlobalLogger();
    let c: Conf = { level: "INFO" };
    for (let i = 0; i < len; i++) {
      const op = w.pick(GOPS, "operation");
      if (op.t === "configure") {
        configureGlobalLogger(conf(op.c));
        c = { ...op.c };
      } else if (op.t === "set") {
        getGlobalLogger().setLevel(LogLevel[op.l]);
        c = { ...c, level: op.l };
      } else if (op.t === "reset") {
        resetGlobalLogger();
        c = { level: "INFO" };
      } else w.assert(getGlobalLogger() === getGlobalLogger(), "same", "the global logger is not one logger");
      probe(w, getGlobalLogger(), c, `after ${i + 1} operations`);
    }
    resetGlobalLogger();
  },
});

/** level from the environment: read when the SDK is loaded */
let code: string | undefined;
let loads = 0;
async function fresh() {
  if (!code) {
    const esbuild = createRequire("/opt/veriftools/node/node_modules/esbuild/package.json")("esbuild");
    const repo = process.env.MC_REPO ?? "/repo";
    code = esbuild.buildSync({ entryPoints: [`${repo}/packages/core/src/index.ts`], bundle: true, platform: "node", format: "esm", write: false, logLevel: "silent", minify: true, banner: { js: 'import { createRequire as __c } from "node:module"; const require = __c("file:///");' } }).outputFiles[0].text as string;
  }
  return (await import(`data:text/javascript;base64,${Buffer.from(`${code}\n// ${process.pid} ${++loads}`).toString("base64")}`)) as any;
}
const envScen: Scenario = {
  name: "level from the environment",
  run: async (w: World) => {
    const lv = w.pick<any>([undefined, "NONE", "ERROR", "WARN", "INFO", "DEBUG", "error", "Debug", "none", "", "verbose"], "LANGFUSE_LOG_LEVEL");
    const dbg = w.pick<any>([undefined, "true", "TRUE", "false", "", "1"], "LANGFUSE_DEBUG");
    w.env({ LANGFUSE_LOG_LEVEL: lv, LANGFUSE_DEBUG: dbg });
    const m = await fresh();
    const want: Lv = dbg?.toLowerCase() === "true" ? "DEBUG" : ALL.includes((lv ?? "").toUpperCase()) ? (lv.toUpperCase() as Lv) : "INFO";
    probe(w, m.getGlobalLogger(), { level: want }, `environment ${lv}/${dbg}`);
    m.configureGlobalLogger({ level: m.LogLevel.WARN });
    probe(w, m.getGlobalLogger(), { level: "WARN" }, "configured after the environment");
  },
};

/** every part of the SDK, also on failures, keeps to the level configured at that moment */
const PNG = "data:image/png;base64,AQID";
const OPS: [string, (c: any, proc: any) => any][] = [
  ["prompt.get", (c) => c.prompt.get("n")],
  ["prompt.get with fallback", (c) => c.prompt.get("n", { fallback: "f" })],
  ["prompt.update", (c) => c.prompt.update({ name: "n", version: 1, newLabels: ["l"] })],
  ["score", (c) => (c.score.create({ name: "s", value: 1, traceId: "t" }), c.score.activeTrace({ name: "s", value: 1 }), c.flush())],
  ["dataset.get", (c) => c.dataset.get("d")],
  ["dataset.createItem", (c) => c.dataset.createItem({ datasetName: "d", input: { a: new LangfuseMedia({ source: "base64_data_uri", base64DataUri: PNG }), b: new LangfuseMedia({ source: "base64_data_uri", base64DataUri: "data:broken" }) } })],
  ["media", (c) => c.media.resolveReferences({ obj: { a: "@@@langfuseMedia:type=image/png|id=m1|source=bytes@@@", b: "@@@langfuseMedia:bad@@@" }, resolveWith: "base64DataUri" })],
  ["getTraceUrl", (c) => c.getTraceUrl("t")],
  ["experiment", (c) => c.experiment.run({ name: "e", data: [{ input: 1, id: "i", datasetId: "d" }, { input: 2 }], task: async (i: any) => { if (i.input === 2) throw new Error("task"); return 1; }, evaluators: [async () => ({ name: "e", value: 1 }), async () => { throw new Error("evaluator"); }], runEvaluators: [async () => { throw new Error("run evaluator"); }] })],
  ["tracing", (_c, proc) => {
    updateActiveObservation({ input: 1 } as any);
    propagateAttributes({ userId: "x".repeat(300), metadata: { "bad key": 1 as any, k: "y".repeat(300) }, tags: ["ok", 3 as any] } as any, () => startActiveObservation("a", (o: any) => o.update({ input: PNG, output: { a: PNG } })));
    startObservation("b", { input: "data:image/png;base64,@@@" }).end();
    return proc.forceFlush();
  }],
];
function good(r: Req): Reply {
  if (r.path.endsWith("/ingestion")) return { status: 207, json: { successes: r.json.batch.map((b: any) => ({ id: b.id, status: 201 })), errors: [{ id: "x", status: 400 }] } };
  if (r.path.endsWith("/projects")) return { status: 200, json: { data: [{ id: "proj" }] } };
  if (/\/prompts/.test(r.path)) return { status: 200, json: { type: "text", name: "n", version: 1, labels: [], tags: [], config: {}, prompt: "p" } };
  if (r.path.endsWith("/dataset-items") && r.method === "GET") return { status: 200, json: { data: [{ id: "i1", input: 1 }], meta: { page: 1, limit: 50, totalItems: 1, totalPages: 1 } } };
  if (/\/v2\/datasets\//.test(r.path)) return { status: 200, json: { id: "d", name: "d" } };
  if (r.path.endsWith("/media") && r.method === "POST") return { status: 200, json: { mediaId: "mid", uploadUrl: "http://storage.example/up" } };
  if (/\/media\//.test(r.path)) return { status: 200, json: { mediaId: "m1", contentType: "image/png", contentLength: 1, uploadedAt: "x", url: "http://storage.example/m1", urlExpiry: "x" } };
  if (r.url.startsWith("http://storage.example/")) return { status: 200, bytes: new Uint8Array([7]) };
  return { status: 200, json: { data: [], meta: {} } };
}
const sdkScen: Scenario = {
  name: "SDK messages",
  run: async (w: World) => {
    w.env(ENV0);
    const level = w.pick(ALL, "level");
    const first = w.pick<Lv | null>([null, "DEBUG", "NONE"], "level at construction");
    const keys = w.bool("keys given") ? { publicKey: "pk", secretKey: "sk" } : {};
    const [oc, answer] = w.pick<[string, (r: Req) => Reply]>([["ok", good], ["500", () => ({ status: 500, json: {} })], ["storage", (r) => (r.url.startsWith("http://storage") ? { status: 400, text: "" } : good(r))], ["network", () => ({ error: new TypeError("net") })]], "outcome");
    const [op, run] = w.pick(OPS, "operation");
    resetGlobalLogger();
    try {
      if (first) configureGlobalLogger({ level: LogLevel[first] });
      else configureGlobalLogger({ level: LogLevel[level] });
      const exporter = { export: (_: any, cb: any) => cb(oc === "ok" ? { code: 0 } : { code: 1, error: new Error("x") }), shutdown: async () => {}, forceFlush: async () => {} };
      const c: any = new LangfuseClient({ ...keys, baseUrl: "http://lf" });
      const proc = new LangfuseSpanProcessor({ ...keys, baseUrl: "http://lf", exporter: exporter as any, exportMode: "immediate", mask: oc === "500" ? () => { throw new Error("mask"); } : undefined });
      useGlobal(provider([proc as any]));
      const check = (l: Lv, from: number, what: string) => {
        for (const x of w.logs.slice(from)) {
          const k = LEVELS.find((y) => method(y) === x.level);
          w.assert(k && rank(k) >= rank(l), "sdk-level", () => `${what} (${op}, ${oc}): console.${x.level} used at level ${l}: ${String(x.args[0])}`);
          w.assert(String(x.args[0]).includes("[Langfuse SDK]"), "sdk-logger", () => `${what} (${op}): message without the SDK's prefix: ${String(x.args[0])}`);
        }
      };
      check(first ?? level, 0, "construction");
      if (first) configureGlobalLogger({ level: LogLevel[level] });
      const from = w.logs.length;
      try {
        await w.settle(Promise.resolve(run(c, proc)), answer);
      } catch {}
      await w.settle(c.shutdown(), answer);
      check(level, from, "operation");
    } finally {
      resetGlobalLogger();
    }
  },
};
void isDeepStrictEqual;
const def: CheckDef = {
  property: "G01",
  bounds: (tier) => `all levels x prefixes x timestamps; all histories of up to ${tier === "quick" ? 3 : 4} global logger operations; all environment values; 10 SDK operations x outcomes x levels before/after construction`,
  assumptions: ["OpenTelemetry's own diagnostics are off (its default)"],
  scenarios: (tier) => [ownScen, ...(tier === "quick" ? [3] : [3, 4, 5]).map(globalScen), envScen, sdkScen],
};
export default def;
