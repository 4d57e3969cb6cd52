import type { CheckDef, Scenario, World } from "../mc/engine";
import { LangfuseVercelAiSdkIntegration } from "@langfuse/vercel-ai-sdk";
import { OpenTelemetry } from "@ai-sdk/otel";
import { generateText, streamText, generateObject, streamObject, embed, embedMany, rerank, tool, jsonSchema, isStepCount } from "ai";
import { MockLanguageModelV4, MockEmbeddingModelV4, MockRerankingModelV4, convertArrayToReadableStream } from "ai/test";
import { isDeepStrictEqual } from "node:util";
import { provider, useGlobal, Recorder } from "./lib/otel";

const USAGE = { inputTokens: { total: 3, noCache: 3, cacheRead: 0, cacheWrite: 0 }, outputTokens: { total: 5, text: 5, reasoning: 0 } } as any;
const gate = async (w: Gate) => w.wait();
type Gate = { wait(): Promise<void> };
const noGate: Gate = { wait: async () => {} };

const text = (t: string) => ({ content: [{ type: "text", text: t }], finishReason: { unified: "stop", raw: "stop" }, usage: USAGE, warnings: [] }) as any;
const toolCall = (id: string, input: any) => ({ content: [{ type: "tool-call", toolCallId: id, toolName: "weather", input: JSON.stringify(input) }], finishReason: { unified: "tool-calls", raw: "tool_calls" }, usage: USAGE, warnings: [] }) as any;
const weather = (mode: string, seen: any[]) =>
  tool({
    description: "d",
    inputSchema: jsonSchema({ type: "object", properties: { city: { type: "string" } } } as any),
    execute: async (i: any) => {
      seen.push(i);
      if (mode === "throw") throw new Error("tool failed");
      return { city: i.city, t: 20 };
    },
  } as any);

type Ctx = { integrations: any; tele: any; runtimeContext?: any; gate: Gate; prefix?: string };
type Prog = { name: string; ctx: boolean; run: (c: Ctx) => Promise<any> };
const opts = (c: Ctx) => ({
  telemetry: { isEnabled: true, functionId: "fn", integrations: c.integrations, ...c.tele },
  ...(c.runtimeContext !== undefined ? { runtimeContext: c.runtimeContext } : {}),
  maxRetries: 0,
  _internal: ids(c.prefix),
});
const ids = (p = "") => {
  let n = 0;
  return { generateId: () => p + "id" + n++, generateCallId: () => p + "call" + n++, now: () => 0, currentDate: () => new Date(0) } as any;
};
const model = (gen: (k: number) => any, g: Gate) => {
  let k = 0;
  return new MockLanguageModelV4({
    modelId: "m1",
    provider: "p1",
    doGenerate: (async () => {
      const i = k++;
      await gate(g);
      const v = gen(i);
      if (v instanceof Error) throw v;
      return v;
    }) as any,
  });
};
const streamModel = (gen: (k: number) => any[] | Error, g: Gate) => {
  let k = 0;
  return new MockLanguageModelV4({
    modelId: "m1",
    provider: "p1",
    doStream: (async () => {
      const i = k++;
      await gate(g);
      const v = gen(i);
      if (v instanceof Error) throw v;
      return { stream: convertArrayToReadableStream(v as any) };
    }) as any,
  });
};
const fin = (r = "stop") => ({ type: "finish", finishReason: { unified: r, raw: r }, usage: USAGE });
const sText = (...t: string[]) => [{ type: "stream-start", warnings: [] }, { type: "text-start", id: "1" }, ...t.map((x) => ({ type: "text-delta", id: "1", delta: x })), { type: "text-end", id: "1" }, fin()];
const sTool = (id: string) => [{ type: "stream-start", warnings: [] }, { type: "tool-call", toolCallId: id, toolName: "weather", input: '{"city":"x"}' }, fin("tool-calls")];
const collect = async (s: AsyncIterable<any>) => {
  const out: any[] = [];
  for await (const x of s) out.push(x);
  return out;
};
const schema = jsonSchema({ type: "object", properties: { a: { type: "number" } }, required: ["a"] } as any);

const PROGS: Prog[] = [
  { name: "generateText", ctx: true, run: async (c) => (await generateText({ model: model(() => text("hi"), c.gate), prompt: "p", ...opts(c) } as any)).text },
  { name: "generateText messages+settings", ctx: true, run: async (c) => (await generateText({ model: model(() => text("hi"), c.gate), system: "s", messages: [{ role: "user", content: "q" }], temperature: 0.5, maxOutputTokens: 9, ...opts(c) } as any)).text },
  {
    name: "generateText tool loop", ctx: true,
    run: async (c) => {
      const seen: any[] = [];
      const r = await generateText({ model: model((k) => (k === 0 ? toolCall("t1", { city: "x" }) : text("done")), c.gate), tools: { weather: weather("ok", seen) }, stopWhen: isStepCount(3), prompt: "p", ...opts(c) } as any);
      return [r.text, seen, r.steps.length];
    },
  },
  {
    name: "generateText failing tool", ctx: true,
    run: async (c) => {
      const seen: any[] = [];
      const r = await generateText({ model: model((k) => (k === 0 ? toolCall("t1", { city: "y" }) : text("done")), c.gate), tools: { weather: weather("throw", seen) }, stopWhen: isStepCount(3), prompt: "p", ...opts(c) } as any);
      return [r.text, seen];
    },
  },
  { name: "generateText failing model", ctx: true, run: async (c) => (await generateText({ model: model(() => new Error("model down"), c.gate), prompt: "p", ...opts(c) } as any)).text },
  {
    name: "generateText failing second step", ctx: true,
    run: async (c) => (await generateText({ model: model((k) => (k === 0 ? toolCall("t1", { city: "x" }) : new Error("second")), c.gate), tools: { weather: weather("ok", []) }, stopWhen: isStepCount(3), prompt: "p", ...opts(c) } as any)).text,
  },
  {
    name: "generateText two tools at once, three steps", ctx: true,
    run: async (c) => {
      const seen: any[] = [];
      const two = { ...toolCall("t1", { city: "x" }), content: [...toolCall("t1", { city: "x" }).content, ...toolCall("t2", { city: "y" }).content] };
      const r = await generateText({ model: model((k) => (k === 0 ? two : k === 1 ? toolCall("t3", { city: "z" }) : text("done")), c.gate), tools: { weather: weather("ok", seen) }, stopWhen: isStepCount(5), prompt: "p", ...opts(c) } as any);
      return [r.text, seen, r.steps.length];
    },
  },
  { name: "streamText", ctx: true, run: async (c) => collect(streamText({ model: streamModel(() => sText("a", "b", "c"), c.gate), prompt: "p", ...opts(c) } as any).textStream) },
  {
    name: "streamText tool loop", ctx: true,
    run: async (c) => {
      const seen: any[] = [];
      const r = streamText({ model: streamModel((k) => (k === 0 ? sTool("t1") : sText("z")), c.gate), tools: { weather: weather("ok", seen) }, stopWhen: isStepCount(3), prompt: "p", ...opts(c) } as any);
      return [await collect(r.textStream), seen];
    },
  },
  { name: "streamText failing model", ctx: true, run: async (c) => collect(streamText({ model: streamModel(() => new Error("no stream"), c.gate), prompt: "p", onError: () => {}, ...opts(c) } as any).textStream) },
  { name: "streamText error part", ctx: true, run: async (c) => collect(streamText({ model: streamModel(() => [{ type: "stream-start", warnings: [] }, { type: "text-start", id: "1" }, { type: "text-delta", id: "1", delta: "a" }, { type: "error", error: new Error("mid") }, fin("error")], c.gate), prompt: "p", onError: () => {}, ...opts(c) } as any).textStream) },
  {
    name: "streamText aborted", ctx: true,
    run: async (c) => {
      const ac = new AbortController();
      const r = streamText({ model: streamModel(() => sText("a", "b"), c.gate), prompt: "p", abortSignal: ac.signal, onError: () => {}, ...opts(c) } as any);
      const out: any[] = [];
      for await (const x of r.textStream) {
        out.push(x);
        ac.abort();
      }
      return out;
    },
  },
  { name: "generateObject", ctx: false, run: async (c) => (await generateObject({ model: model(() => text('{"a":1}'), c.gate), schema, prompt: "p", ...opts(c) } as any)).object },
  { name: "generateObject invalid", ctx: false, run: async (c) => (await generateObject({ model: model(() => text("nope"), c.gate), schema, prompt: "p", ...opts(c) } as any)).object },
  { name: "streamObject", ctx: false, run: async (c) => collect(streamObject({ model: streamModel(() => sText('{"a"', ":2}"), c.gate), schema, prompt: "p", ...opts(c) } as any).partialObjectStream) },
  { name: "embed", ctx: false, run: async (c) => (await embed({ model: emb(c.gate), value: "v", ...opts(c) } as any)).embedding },
  { name: "embedMany", ctx: false, run: async (c) => (await embedMany({ model: emb(c.gate), values: ["a", "b", "c"], ...opts(c) } as any)).embeddings },
  { name: "embed failing", ctx: false, run: async (c) => (await embed({ model: emb(c.gate, true), value: "v", ...opts(c) } as any)).embedding },
  { name: "rerank", ctx: false, run: async (c) => (await rerank({ model: new MockRerankingModelV4({ doRerank: async () => { await gate(c.gate); return { ranking: [{ index: 1, relevanceScore: 0.9 }, { index: 0, relevanceScore: 0.1 }] } as any; } } as any), documents: ["a", "b"], query: "q", ...opts(c) } as any)).ranking },
];
const emb = (g: Gate, fail = false) =>
  new MockEmbeddingModelV4({ maxEmbeddingsPerCall: 2, doEmbed: async ({ values }: any) => { await gate(g); if (fail) throw new Error("no embedding"); return { embeddings: values.map((v: string) => [v.length, 1]), usage: { tokens: values.length }, warnings: [] }; } } as any);

// ------------------------------------------------------------------ reference
const VOLATILE = /time_to_first|time_per_output|\.duration$|timestamp|performance/i;
const normalise = (rec: Recorder, langfuse: boolean) => {
  const idx = new Map(rec.started.map((s: any, i) => [s.spanContext().spanId, i]));
  return rec.ended.map((s: any) => ({
    i: idx.get(s.spanContext().spanId),
    name: s.name,
    parent: s.parentSpanContext ? (idx.get(s.parentSpanContext.spanId) ?? "outside") : null,
    kind: s.kind,
    status: s.status,
    ended: s.ended,
    attributes: Object.fromEntries(Object.entries(s.attributes).filter(([k]) => !VOLATILE.test(k) && k.startsWith("langfuse.") === langfuse).sort(([a], [b]) => (a < b ? -1 : 1))),
    ...(langfuse ? {} : { events: s.events.map((e: any) => [e.name, { ...e.attributes, "exception.stacktrace": undefined }]) }),
  }));
};
const META = "langfuse.observation.metadata.";
const PROMPT_NAME = "langfuse.observation.prompt.name", PROMPT_VERSION = "langfuse.observation.prompt.version";
const ser = (v: any): string | undefined => {
  if (typeof v === "string") return v;
  if (v === null || v === undefined) return undefined;
  try {
    return JSON.stringify(v);
  } catch {
    return "<unserialisable>";
  }
};

function checkLangfuse(w: World, prog: Prog, rec: Recorder, rc: any) {
  const eff = prog.ctx ? (rc ?? {}) : {};
  const { langfusePrompt: p, ...rest } = eff;
  const want: Record<string, any> = {};
  for (const [k, v] of Object.entries(rest)) {
    const s = ser(v);
    if (s !== undefined) want[META + k] = s;
  }
  const valid = p && typeof p === "object" && !Array.isArray(p) && typeof p.name === "string" && typeof p.version === "number" && p.isFallback !== true;
  let linked = 0;
  for (const s of rec.ended as any[]) {
    const got = Object.fromEntries(Object.entries(s.attributes).filter(([k]) => k.startsWith("langfuse.")));
    const lm = s.name.startsWith("chat ");
    const w1: Record<string, any> = { ...want, ...(lm && valid ? { [PROMPT_NAME]: p.name, [PROMPT_VERSION]: p.version } : {}) };
    if (lm && valid) linked++;
    for (const k of new Set([...Object.keys(got), ...Object.keys(w1)])) {
      if (w1[k] === "<unserialisable>") w.assert(typeof got[k] === "string", "metadata", `${prog.name}: span ${s.name}: unserialisable metadata ${k} is ${JSON.stringify(got[k])}`);
      else w.assert(isDeepStrictEqual(got[k], w1[k]), "attribute", () => `${prog.name} with runtime context ${show(rc)}: span ${s.name} has ${k}=${JSON.stringify(got[k])}, expected ${JSON.stringify(w1[k])}`);
    }
  }
  return linked;
}
const show = (v: any) => {
  try {
    return JSON.stringify(v);
  } catch {
    return String(v);
  }
};

async function runProg(w: World, prog: Prog, integration: any, tele: any, rc: any) {
  let seed = 99;
  Math.random = () => (seed = (seed * 16807) % 2147483647) / 2147483647;
  return w.settle(prog.run({ integrations: integration, tele, runtimeContext: rc, gate: noGate }), () => ({ status: 200, json: {} }));
}
const include = (rc: any) => (rc && typeof rc === "object" ? { includeRuntimeContext: Object.fromEntries(Object.keys(rc).map((k) => [k, true])) } : {});

function setup() {
  const a = new Recorder(), b = new Recorder();
  const pa = provider([a as any]), pb = provider([b as any]);
  return { a, b, ta: pa.getTracer("gen_ai"), tb: pb.getTracer("gen_ai"), pb };
}
const same = (w: World, what: string, ra: any, rb: any, A: any, B: any) => {
  w.assert(ra.done === rb.done && ra.ok === rb.ok && (ra.ok ? isDeepStrictEqual(ra.value, rb.value) : String(ra.error) === String(rb.error)), "result", () => `${what}: result ${show(rb.ok ? rb.value : String(rb.error))}, with the plain integration ${show(ra.ok ? ra.value : String(ra.error))}`);
  w.assert(A.length === B.length, "spans", () => `${what}: ${B.length} spans [${B.map((s: any) => s.name)}], with the plain integration ${A.length} [${A.map((s: any) => s.name)}]`);
  for (let i = 0; i < A.length; i++) w.assert(isDeepStrictEqual(A[i], B[i]), "span", () => `${what}: span ${JSON.stringify(B[i])} differs from the plain integration's ${JSON.stringify(A[i])}`);
};

const TELE: any[] = [{}, { recordInputs: false }, { recordOutputs: false }, { functionId: undefined }];
const diffScen = (prog: Prog): Scenario => ({
  name: `forwarding ${prog.name}`,
  run: async (w) => {
    const rc = prog.ctx ? w.pick([undefined, { feature: "f", n: 1, langfusePrompt: { name: "pn", version: 3 } }], "context") : undefined;
    const tele = { ...w.pick(TELE, "telemetry"), ...include(rc) };
    const useGlobalTracer = w.bool("global tracer");
    const { a, b, ta, tb, pb } = setup();
    const ra = await runProg(w, prog, new OpenTelemetry({ tracer: ta } as any), tele, rc);
    if (useGlobalTracer) useGlobal(pb);
    const integ = useGlobalTracer ? new LangfuseVercelAiSdkIntegration() : new LangfuseVercelAiSdkIntegration({ tracer: tb });
    const rb = await runProg(w, prog, integ, tele, rc);
    await w.drain();
    w.assert(a.ended.length > 0, "engine", "reference produced no spans");
    same(w, prog.name, ra, rb, normalise(a, false), normalise(b, false));
    w.assert(b.started.length === b.ended.length || a.started.length - a.ended.length === b.started.length - b.ended.length, "unended", `${prog.name}: spans left open`);
    checkLangfuse(w, prog, b, rc);
  },
});

// ------------------------------------------------------------------ runtime contexts
const circ: any = { x: 1 };
circ.self = circ;
const PROMPTS: any[] = [
  undefined,
  { name: "pn", version: 3 },
  { name: "pn", version: 0, isFallback: false },
  { name: "", version: 1 },
  { name: "pn", version: 3, isFallback: true },
  { name: "pn", version: 3, isFallback: "yes" },
  { name: "pn", version: "3" },
  { name: 5, version: 3 },
  { version: 3 },
  { name: "pn" },
  {},
  "pn",
  7,
  null,
  ["pn", 3],
  { name: null, version: null },
  { name: "pn", version: 2, extra: 1 },
  new (class PromptClient { name = "pn"; version = 6; isFallback = false; compile() { return "x"; } })(),
  new (class PromptClient { name = "pn"; version = 6; isFallback = true; })(),
  Object.assign(Object.create(null), { name: "pn", version: 8 }),
  { name: " pn ", version: -1 },
  { name: "folder/ü\ud83d\ude00", version: 12 },
  { name: "x".repeat(400), version: 100000 },
  { name: "PN", version: 1.5 },
  { name: "0", version: 1, isFallback: 0 },
  { name: "pn", version: 4, isFallback: undefined },
  { name: "pn", version: 4, isFallback: null },
  { name: "pn", version: 4, isFallback: "true" },
  { name: "pn", version: true },
  { name: ["pn"], version: 1 },
  { Name: "pn", Version: 1 },
  false, "", 0, [], [{ name: "pn", version: 1 }], { prompt: { name: "pn", version: 1 } },
];
const KEYS = ["k", "K", "", " ", "a.b", "a b", "ü", "0", "12", "langfuse", "langfuseprompt", "LangfusePrompt", "langfusePrompt ", "langfusePromptX", "prompt", "name", "version", "metadata", "tags", "userId", "sessionId", "langfuseUserId", "langfuse.observation.prompt.name", "constructor", "toString", "x".repeat(250)];
const VALS: any[] = ["text", "", "ünï\n", 0, 1.5, true, false, null, undefined, { a: [1, { b: null }] }, [], [1, "2"], { toJSON() { throw new Error("no json"); } }, { b: 10n }, new Date(0), () => 1, " spaced ", "0", "null", "true", "[1]", '{"a":1}', '"quoted"', "x".repeat(5000), -0.5, 1e21, [""], {}, [[]], [null], { a: undefined }, Array.from({ length: 150 }, (_, i) => i), { deep: { a: { b: { c: { d: { e: [1] } } } } } }, "\u2028\ud83d\ude00"];
const ctxScen = (prog: Prog, two: boolean): Scenario => ({
  name: `runtime context ${prog.name}`,
  run: async (w) => {
    const p = w.pick(PROMPTS, "prompt");
    const rc: any = {};
    if (p !== undefined || w.bool("explicit undefined")) rc.langfusePrompt = p;
    rc.k1 = w.pick(VALS, "k1");
    if (two) rc["a.b-c d"] = w.pick(VALS.slice(0, 10), "k2");
    const { a, b, ta, tb } = setup();
    const ra = await runProg(w, prog, new OpenTelemetry({ tracer: ta } as any), include(rc), rc);
    const r = await runProg(w, prog, new LangfuseVercelAiSdkIntegration({ tracer: tb }), include(rc), rc);
    w.assert(r.ok, "throws", () => `${prog.name} with runtime context ${show(rc)}: rejects with ${r.error}`);
    await w.drain();
    same(w, `${prog.name} with runtime context ${show(rc)}`, ra, r, normalise(a, false), normalise(b, false));
    checkLangfuse(w, prog, b, rc);
  },
});
const circScen: Scenario = {
  name: "circular context",
  run: async (w) => {
    const prog = PROGS[w.choose(3, "program")];
    const rc: any = w.bool("in prompt") ? { langfusePrompt: { name: "pn", version: 2, extra: circ } } : { k: circ };
    const { a, b, ta, tb } = setup();
    const ra = await runProg(w, prog, new OpenTelemetry({ tracer: ta } as any), include(rc), rc);
    const r = await runProg(w, prog, new LangfuseVercelAiSdkIntegration({ tracer: tb }), include(rc), rc);
    w.assert(r.ok, "throws", () => `${prog.name} with a circular runtime context: rejects with ${r.error}`);
    same(w, `${prog.name} with a circular runtime context`, ra, r, normalise(a, false), normalise(b, false));
  },
};
/** only included keys; absent context */
const inclScen: Scenario = {
  name: "included keys",
  run: async (w) => {
    const rc = { a: "1", b: "2", langfusePrompt: { name: "pn", version: 3 } } as any;
    const inc: any = {};
    for (const k of Object.keys(rc)) if (w.bool(k)) inc[k] = true;
    const { b, tb } = setup();
    const prog = PROGS[w.choose(3, "program")];
    const r = await runProg(w, prog, new LangfuseVercelAiSdkIntegration({ tracer: tb }), { includeRuntimeContext: inc }, rc);
    w.assert(r.ok, "throws", () => `rejects with ${r.error}`);
    checkLangfuse(w, prog, b, Object.fromEntries(Object.entries(rc).filter(([k]) => inc[k])));
  },
};

/** key shapes and many keys */
const keyScen: Scenario = {
  name: "context keys",
  run: async (w) => {
    const prog = PROGS[w.choose(3, "program")];
    const mode = w.pick(["one", "with prompt", "all"], "mode");
    const rc: any = mode === "all" ? Object.fromEntries(KEYS.map((k, i) => [k, i % 2 ? "v" + i : { i }])) : { [w.pick(KEYS, "key")]: w.pick(["v", 0, { a: 1 }, false, "", null], "value") };
    if (mode !== "one") rc.langfusePrompt = { name: "pn", version: 3 };
    const { a, b, ta, tb } = setup();
    const ra = await runProg(w, prog, new OpenTelemetry({ tracer: ta } as any), include(rc), rc);
    const r = await runProg(w, prog, new LangfuseVercelAiSdkIntegration({ tracer: tb }), include(rc), rc);
    w.assert(r.ok, "throws", () => `${prog.name} with runtime context ${show(rc)}: rejects with ${r.error}`);
    same(w, `${prog.name} with runtime context ${show(rc)}`, ra, r, normalise(a, false), normalise(b, false));
    checkLangfuse(w, prog, b, rc);
  },
};
/** operations one after another through one integration: nothing of one reaches the next */
const seqScen = (n: number, len: number): Scenario => ({
  name: `${len} operations in sequence`,
  run: async (w) => {
    const { b, tb } = setup();
    const integ = new LangfuseVercelAiSdkIntegration({ tracer: tb });
    const CTX: any[] = [undefined, {}, { k: "v", langfusePrompt: { name: "p1", version: 1 } }, { k: "w" }, { other: 1, langfusePrompt: { name: "p2", version: 2, isFallback: true } }];
    const progs = ["generateText", "generateText failing model", "generateText tool loop", "generateObject", "streamText"].map((x) => PROGS.find((p) => p.name === x)!);
    const choices = Array.from({ length: n }, () => [w.pick(progs, "program"), w.pick(CTX, "context")] as const);
    for (let i = 0; i < len; i++) {
      const [prog, rc] = choices[i % n];
      const from = b.ended.length;
      const r = await runProg(w, prog, integ, include(rc), rc);
      await w.drain();
      const { a, ta } = setup();
      const ra = await runProg(w, prog, new OpenTelemetry({ tracer: ta } as any), include(rc), rc);
      w.assert(r.ok === ra.ok, "result", () => `operation ${i} ${prog.name}: ${r.ok ? "resolved" : r.error}`);
      const mine = b.ended.slice(from) as any[];
      w.assert(isDeepStrictEqual(mine.map((s) => s.name), (a.ended as any[]).map((s) => s.name)), "spans", () => `operation ${i} ${prog.name}: spans ${mine.map((s) => s.name)}`);
      checkLangfuse(w, prog, { ended: mine } as any, rc);
    }
  },
});

// ------------------------------------------------------------------ concurrent calls through one integration
const concScen = (names: string[], first = false): Scenario => ({
  name: first ? `${names.length} concurrent operations` : `concurrent ${names.join(" + ")}`,
  run: async (w) => {
    const { b, tb } = setup();
    const integ = new LangfuseVercelAiSdkIntegration({ tracer: tb });
    const gates: { i: number; open: () => void }[] = [];
    const sts: any[] = names.map(() => ({}));
    const progs = names.map((n) => PROGS.find((p) => p.name === n)!);
    progs.forEach((p, i) => {
      const rc = { who: "c" + i, langfusePrompt: { name: "p" + i, version: i + 1 } };
      const c: Ctx = { prefix: "c" + i, integrations: integ, tele: { functionId: "fn" + i, ...include(rc) }, runtimeContext: rc, gate: { wait: () => new Promise<void>((r) => gates.push({ i, open: r })) } };
      p.run(c).then((v) => (sts[i] = { done: true, ok: true, value: v }), (e) => (sts[i] = { done: true, ok: false, error: e }));
    });
    await w.system({
      maxSteps: 200 + 10 * names.length,
      ...(first ? { reduce: (evs: any[]) => evs.slice(0, 1) } : {}),
      extra: () =>
        gates.map((g, k) => ({
          name: `model ${g.i}`,
          run: () => {
            gates.splice(k, 1);
            g.open();
          },
        })),
    });
    await w.drain(4);
    for (let i = 0; i < names.length; i++) w.assert(sts[i].done, "hang", `${names[i]} never settles`);
    w.assert(b.started.length === b.ended.length, "unended", `${b.started.length - b.ended.length} spans left open`);
    // every span belongs to one call's tree and carries only that call's context
    const byId = new Map((b.ended as any[]).map((s) => [s.spanContext().spanId, s]));
    const rootOf = (s: any): any => (s.parentSpanContext && byId.has(s.parentSpanContext.spanId) ? rootOf(byId.get(s.parentSpanContext.spanId)) : s);
    const roots = [...new Set((b.ended as any[]).map(rootOf))];
    w.assert(roots.length === names.length, "roots", `${roots.length} root spans for ${names.length} calls`);
    for (const r of roots) {
      const who = r.attributes[META + "who"];
      const i = Number(String(who).slice(1));
      w.assert(who === "c" + i && i < names.length, "root-context", `root span carries ${who}`);
      const mine = (b.ended as any[]).filter((s) => rootOf(s) === r);
      const rec = { ended: mine } as any;
      checkLangfuse(w, progs[i], rec, { who: "c" + i, langfusePrompt: { name: "p" + i, version: i + 1 } });
      const { a, ta } = setup();
      const ref = await runProg(w, progs[i], new OpenTelemetry({ tracer: ta } as any), { functionId: "fn" + i, ...include({ who: 1, langfusePrompt: 1 }) }, { who: "c" + i, langfusePrompt: { name: "p" + i, version: i + 1 } });
      w.assert(ref.ok === sts[i].ok && (!ref.ok || isDeepStrictEqual(ref.value, sts[i].value)), "result", `${names[i]}: other result than alone`);
      const names1 = mine.map((s) => s.name).sort(), names2 = (a.ended as any[]).map((s) => s.name).sort();
      w.assert(isDeepStrictEqual(names1, names2), "spans", () => `${names[i]}: spans [${names1}], alone [${names2}]`);
    }
  },
});

/**
 * what the integration adds per kind of span (the installed AI SDK passes no runtime context to
 * embedding and reranking spans, so those kinds are asked for through the hook the AI SDK calls)
 */
const kindScen: Scenario = {
  name: "kinds of span",
  run: async (w) => {
    const { tb } = setup();
    const integ: any = new LangfuseVercelAiSdkIntegration({ tracer: tb });
    const hook = Object.values(integ).find((v) => v instanceof OpenTelemetry) as any;
    if (typeof hook?.enrichSpan !== "function") return;
    const p = w.pick(PROMPTS, "prompt");
    const rc: any = w.pick([{}, { k: "v", n: { a: [1] } }, { langfusePrompt2: 1, "": "e" }], "metadata");
    const spanType = w.pick(["operation", "step", "languageModel", "tool", "embedding", "reranking"], "kind");
    const ctx = p === undefined ? rc : { ...rc, langfusePrompt: p };
    const given = w.bool("given");
    const got = hook.enrichSpan({ spanType, operationId: "op", callId: "c", runtimeContext: given ? ctx : undefined }) ?? {};
    if (!given) return w.assert(Object.keys(got).length === 0, "attribute", () => `${spanType} span without runtime context gets ${show(got)}`);
    const valid = p && typeof p === "object" && !Array.isArray(p) && typeof p.name === "string" && typeof p.version === "number" && p.isFallback !== true;
    const want: any = Object.fromEntries(Object.entries(rc).map(([k, v]) => [META + k, ser(v)]));
    if (valid && ["languageModel", "embedding", "reranking"].includes(spanType)) (want[PROMPT_NAME] = p.name), (want[PROMPT_VERSION] = p.version);
    w.assert(isDeepStrictEqual({ ...got }, want), "attribute", () => `${spanType} span with runtime context ${show(ctx)} gets ${show(got)}, expected ${show(want)}`);
  },
};
const def: CheckDef = {
  property: "V01",
  bounds: (t) => `${t}: ${PROGS.length} real AI SDK programs (text, streaming, tools, objects, embeddings, reranking, failures, aborts) x telemetry options, compared span by span with the plain AI SDK integration; ${PROMPTS.length} prompt values x ${VALS.length} metadata values${t === "quick" ? "" : " (pairs)"} in runtime contexts; ${KEYS.length} key shapes; pairs of operations in sequence and 12 repeats; all completion orders of the model calls of 2-3 concurrent operations through one integration`,
  assumptions: ["ai 7.0.44 and @ai-sdk/otel 1.0.44 as installed", "time-valued attributes are not compared"],
  scenarios: (tier) => {
    const out: Scenario[] = PROGS.map(diffScen);
    for (const p of PROGS.filter((p) => ["generateText", "generateText tool loop", "streamText"].includes(p.name))) out.push(ctxScen(p, tier !== "quick"));
    out.push(kindScen, inclScen, circScen, keyScen, seqScen(2, 2), seqScen(1, 12));
    if (tier !== "quick") out.push(seqScen(3, 3));
    out.push(concScen(["generateText", "generateText tool loop"]), concScen(["generateText tool loop", "generateText tool loop"]), concScen(["generateText tool loop", "streamText tool loop", "generateText"]));
    for (const n of [40, 130]) out.push(concScen(Array.from({ length: n }, (_, i) => ["generateText", "generateText tool loop", "streamText tool loop"][i % 3]), true));
    if (tier !== "quick") out.push(concScen(["generateText tool loop", "streamText tool loop", "generateText failing tool"]));
    return out;
  },
};
export default def;
