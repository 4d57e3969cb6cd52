import type { CheckDef, Scenario, World } from "../mc/engine";
import { observeOpenAI } from "@langfuse/openai";
import { startActiveObservation, getActiveSpanId } from "@langfuse/tracing";
import { spanRig, type Exported } from "./lib/span";
import { isDeepStrictEqual } from "node:util";
import { ApiPromise, FakeStream, Page, PagePromise, client, settle } from "./lib/openai";

const A = "langfuse.observation.";
const parse = (s: any) => { try { return JSON.parse(s); } catch { return s; } };
const eq = (a: any, b: any): boolean => JSON.stringify(sort(a)) === JSON.stringify(sort(b));
const sort = (x: any): any => (Array.isArray(x) ? x.map(sort) : x && typeof x === "object" ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, sort(x[k])])) : x);

type Outcome = "value" | "reject" | "throw" | "stream end" | "stream fail" | "stream break" | "stream consumer throws" | "stream return";
type Form = "promise" | "api" | "direct";
type Call = { i: number; outcome: Outcome; form: Form; chunks: number; state: number; done: boolean; failed?: any; started: number; gate?: any; result?: any; over: boolean; got: any[] };

/** every interleaving of the steps (start, settle, chunk by chunk, stop) of several calls */
async function interleaved(w: World, outcomes: Outcome[], forms: Form[], lens: number[], cfg: any, kinds: ("chat" | "responses")[] = []) {
  const R = spanRig(w);
  const calls: Call[] = outcomes.map((outcome, i) => ({ i, outcome, form: forms[i], chunks: lens[i], state: 0, done: false, started: 0, over: false, got: [] }));
  const errs = calls.map((c) => new Error("boom " + c.i));
  let cur: Call;
  const given = structuredClone(cfg);
  const cfgOf = (i: number) => (Array.isArray(cfg) ? cfg[i] : cfg);
  const sdk = client(() => {
    const c = cur;
    if (c.outcome === "throw") throw errs[c.i];
    const isStream = c.outcome.startsWith("stream");
    const s = isStream ? new FakeStream(() => {
      let n = 0;
      return {
        next: () => new Promise((res, rej) => {
          c.gate = () => {
            c.gate = undefined;
            if (n < c.chunks && kinds[c.i] === "responses") res({ done: false, value: event(c, n++) });
            else if (n < c.chunks) res({ done: false, value: { choices: [{ index: 0, delta: { content: `t${c.i}.${n++};` } }], ...(n === c.chunks ? { usage: usage(c.i) } : {}) } });
            else if (c.outcome === "stream fail") rej(errs[c.i]);
            else res({ done: true, value: undefined });
          };
        }),
        return: async () => ({ done: true, value: undefined }),
      } as any;
    }) : undefined;
    if (c.form === "direct" && isStream) return s;
    const ex = (res: any, rej: any) => (c.gate = () => { c.gate = undefined; c.outcome === "reject" ? rej(errs[c.i]) : res(s ?? { model: "resp" + c.i, choices: [{ message: { content: "v" + c.i } }], usage: usage(c.i) }); });
    return c.form === "api" ? new ApiPromise(ex) : new Promise(ex);
  });
  const shared = Array.isArray(cfg) ? undefined : (observeOpenAI(sdk, cfg) as any);
  const apis = calls.map((c) => shared ?? (observeOpenAI(sdk, cfgOf(c.i)) as any));
  /** events of the Responses API: created, deltas, completed */
  const event = (c: Call, n: number) => {
    const base = { model: "resp" + c.i, temperature: 5 + c.i, instructions: "i" + c.i };
    if (n === c.chunks - 1) return { type: "response.completed", response: { ...base, output: [{ type: "message", content: "v" + c.i }], status: "completed", usage: { input_tokens: 10 + c.i, output_tokens: 20 + c.i, total_tokens: 30 + 2 * c.i } } };
    return n === 0 ? { type: "response.created", response: { ...base, output: [], status: "in_progress" } } : { type: "response.output_text.delta", delta: "d" };
  };
  const usage = (i: number) => ({ prompt_tokens: 10 + i, completion_tokens: 20 + i, total_tokens: 30 + 2 * i });
  const outer: (string | undefined)[] = [];
  const run = (c: Call) => {
    cur = c;
    c.state = 1;
    c.started = w.now;
    outer[c.i] = getActiveSpanId();
    let r: any;
    try {
      r = apis[c.i].chat.completions.create({ model: "m" + c.i, messages: [{ role: "user", content: "q" + c.i }], temperature: c.i / 10, stream: c.outcome.startsWith("stream") });
    } catch (e) {
      w.assert(c.outcome === "throw" && e === errs[c.i], "outcome", "threw a different error");
      c.failed = e;
      c.over = true;
      return;
    }
    w.assert(c.outcome !== "throw", "outcome", "did not throw");
    const consume = async () => {
      const v = await r;
      if (!c.outcome.startsWith("stream")) return;
      let n = 0;
      if (c.outcome === "stream return") {
        const it = v[Symbol.asyncIterator]();
        for (; n < c.chunks; n++) c.got.push((await it.next()).value);
        await it.return();
        return;
      }
      for await (const x of v) {
        c.got.push(x);
        n++;
        if (n === c.chunks && c.outcome === "stream break") break;
        if (n === c.chunks && c.outcome === "stream consumer throws") throw errs[c.i];
      }
    };
    consume().then(() => (c.over = true), (e) => ((c.over = true), (c.result = e)));
  };
  const endedBefore = new Set<number>();
  const check = () => {
    for (const c of calls) {
      const mine = R.exported.filter((e) => eq(parse(e.attributes[A + "input"])?.messages?.[0]?.content, "q" + c.i));
      w.assert(mine.length === (c.over ? 1 : 0), "count", () => `call ${c.i} (${c.outcome}, ${c.over ? "over" : "running"}) has ${mine.length} finished generations`);
      if (c.over && !endedBefore.has(c.i)) {
        endedBefore.add(c.i);
        verify(c, mine[0]);
      }
    }
    w.assert(R.exported.filter((e) => e.name !== "outer").length === endedBefore.size, "count", "more finished observations than calls");
  };
  const verify = (c: Call, e: Exported) => {
    const cfg = cfgOf(c.i);
    const a = e.attributes;
    w.assert(a[A + "type"] === "generation", "type", `type ${a[A + "type"]}`);
    const failed = ["reject", "throw", "stream fail"].includes(c.outcome);
    w.assert((a[A + "level"] === "ERROR") === failed, "level", () => `${c.outcome}: level ${a[A + "level"]}`);
    if (failed) w.assert(String(a[A + "status_message"]).includes("boom " + c.i), "message", () => `status message ${a[A + "status_message"]}`);
    else w.assert(a[A + "status_message"] === undefined, "message", "status message without failure");
    const isStream = c.outcome.startsWith("stream");
    const events = kinds[c.i] === "responses" && isStream && c.chunks > 0;
    w.assert(a[A + "model.name"] === (c.outcome === "value" || events ? "resp" + c.i : "m" + c.i), "model", () => `model ${a[A + "model.name"]}`);
    const mp = parse(a[A + "model.parameters"]);
    if (events) w.assert(a[A + "metadata.instructions"] === "i" + c.i && a[A + "metadata.status"] === "completed", "metadata", () => JSON.stringify(a));
    else w.assert(!(A + "metadata.instructions" in a) && !(A + "metadata.status" in a), "metadata", () => JSON.stringify(a));
    w.assert(events ? mp?.temperature === 5 + c.i : mp?.temperature === c.i / 10 && mp?.stream === isStream, "parameters", () => `parameters ${a[A + "model.parameters"]}`);
    const full = c.outcome === "value" || (c.outcome.startsWith("stream") && c.chunks > 0);
    const u = usage(c.i);
    w.assert(eq(parse(a[A + "usage_details"]), full ? { input: u.prompt_tokens, output: u.completion_tokens, total: u.total_tokens } : undefined), "usage", () => `usage ${a[A + "usage_details"]}`);
    if (c.outcome === "value") w.assert(eq(parse(a[A + "output"]), { content: "v" + c.i }), "output", () => `output ${a[A + "output"]}`);
    if (events) w.assert(eq(parse(a[A + "output"]), { type: "message", content: "v" + c.i }), "output", () => `output ${a[A + "output"]}`);
    else if (isStream) w.assert((a[A + "output"] ?? "") === Array.from({ length: c.chunks }, (_, n) => `t${c.i}.${n};`).join(""), "output", () => `output ${a[A + "output"]}`);
    w.assert(Math.abs(e.start - c.started) < 1, "times", () => `started at ${e.start - c.started}`);
    const psc = cfg?.parentSpanContext;
    w.assert(e.parent === (psc ? psc.spanId : outer[c.i]) && (!psc || e.trace === psc.traceId), "parent", () => `parent ${e.parent}, expected ${psc ? psc.spanId : outer[c.i]}`);
    if (cfg?.generationName) w.assert(e.name === cfg.generationName, "name", () => `name ${e.name}`);
    if (!cfg?.userId) w.assert(!("user.id" in a) && !("session.id" in a) && !("langfuse.trace.tags" in a) && !("langfuse.trace.name" in a), "trace attributes", () => JSON.stringify(a));
    if (!cfg?.langfusePrompt) w.assert(!(A + "prompt.name" in a), "prompt", "linked to a prompt that was not configured");
    if (!cfg?.generationMetadata) w.assert(!(A + "metadata.k" in a), "metadata", "metadata of another client");
    if (cfg?.userId) w.assert(a["user.id"] === cfg.userId && a["session.id"] === cfg.sessionId && eq(a["langfuse.trace.tags"], cfg.tags) && a["langfuse.trace.name"] === cfg.traceName, "trace attributes", () => JSON.stringify(a));
    if (cfg?.langfusePrompt) w.assert(a[A + "prompt.name"] === (cfg.langfusePrompt.isFallback ? undefined : cfg.langfusePrompt.name) && a[A + "prompt.version"] === (cfg.langfusePrompt.isFallback ? undefined : cfg.langfusePrompt.version), "prompt", () => String(a[A + "prompt.name"]));
    if (cfg?.generationMetadata) w.assert(Object.entries(cfg.generationMetadata).every(([k, v]) => a[A + "metadata." + k] === v), "metadata", () => JSON.stringify(a));
  };
  const nest = w.bool("inside an active observation");
  for (let step = 0; ; step++) {
    await w.drain();
    check();
    const evs: { name: string; run: () => void }[] = [];
    const fresh = calls.find((c) => c.state === 0);
    if (fresh) evs.push({ name: "start " + fresh.i, run: () => (nest ? startActiveObservation("outer", () => run(fresh)) : run(fresh)) });
    for (const c of calls) if (c.gate) evs.push({ name: "step " + c.i, run: () => c.gate() });
    if (!evs.length) break;
    const e = evs[w.choose(evs.length, evs.map((x) => x.name).join("|"))];
    w.skip(7);
    w.obs("> " + e.name);
    e.run();
  }
  w.assert(calls.every((c) => c.over), "stuck", "a call never finished");
  w.assert(isDeepStrictEqual(cfg, given), "configuration", "the caller's configuration was modified");
}

/** outcomes of one call over request and response shapes */
const REQUESTS: { args: any; model: any; input: any; params: any }[] = [
  { args: { model: "m", messages: [{ role: "user", content: "q" }] }, model: "m", input: { messages: [{ role: "user", content: "q" }] }, params: {} },
  { args: { model: "m", messages: [], tools: [{ type: "function" }], tool_choice: "auto", functions: [1], function_call: "x", temperature: 0, max_tokens: 5, top_p: 0.5, seed: 0, n: 1, stop: ["a"], user: "u", presence_penalty: -1, frequency_penalty: 1, logit_bias: { 5: 1 }, logprobs: false, top_logprobs: 2 }, model: "m", input: { messages: [], tools: [{ type: "function" }], tool_choice: "auto", functions: [1], function_call: "x" }, params: { temperature: 0, max_tokens: 5, top_p: 0.5, seed: 0, n: 1, stop: ["a"], user: "u", presence_penalty: -1, frequency_penalty: 1, logit_bias: { 5: 1 }, logprobs: false, top_logprobs: 2 } },
  ...[{ tool_choice: "none" }, { tools: [{ type: "function", function: { name: "f" } }] }, { functions: [{ name: "f" }] }, { function_call: { name: "f" } }, { functions: [], tool_choice: { type: "function" } }, { tools: [], function_call: "auto" }].map((x: any) => ({ args: { model: "m", messages: [{ role: "user", content: "q" }], ...x }, model: "m", input: { messages: [{ role: "user", content: "q" }], ...x }, params: {} })),
  { args: { model: "m", prompt: "p", metadata: { own: "request's", status: "request's" } }, model: "m", input: "p", params: {} },
  { args: { model: "m", prompt: "p" }, model: "m", input: "p", params: {} },
  { args: { model: "m", input: "i" }, model: "m", input: "i", params: {} },
  { args: { model: "m", input: [{ role: "user", content: "x" }], temperature: 1 }, model: "m", input: [{ role: "user", content: "x" }], params: { temperature: 1 } },
  { args: { model: "m", input: ["a", "b"] }, model: "m", input: ["a", "b"], params: {} },
  { args: { model: "m", prompt: ["a", "", "c"], n: 0, stop: "", user: "", temperature: 2, top_p: 0, max_tokens: 0 }, model: "m", input: ["a", "", "c"], params: { n: 0, stop: "", user: "", temperature: 2, top_p: 0, max_tokens: 0 } },
  { args: { model: "ft:gpt/é x", prompt: [[1, 2], [3]] }, model: "ft:gpt/é x", input: [[1, 2], [3]], params: {} },
  { args: { model: "m", messages: Array.from({ length: 30 }, (_, i) => ({ role: i % 2 ? "assistant" : "user", content: i % 3 ? "t" + i : [{ type: "text", text: "é☃" }, { type: "image_url", image_url: { url: "http://x" } }] })), tools: [], tool_choice: null, stream: false, seed: 5 }, model: "m", input: { messages: Array.from({ length: 30 }, (_, i) => ({ role: i % 2 ? "assistant" : "user", content: i % 3 ? "t" + i : [{ type: "text", text: "é☃" }, { type: "image_url", image_url: { url: "http://x" } }] })), tools: [], tool_choice: null }, params: { stream: false, seed: 5 } },
  { args: { model: "m", input: { odd: true }, prompt: "not this" }, model: "m", input: { odd: true }, params: {} },
  { args: { model: "m", messages: [{ role: "user", content: "" }], input: "not this", prompt: "nor this" }, model: "m", input: { messages: [{ role: "user", content: "" }] }, params: {} },
];
const USAGES: { u: any; want: any }[] = [
  { u: undefined, want: undefined },
  { u: null, want: undefined },
  { u: { prompt_tokens: 10, completion_tokens: 5, total_tokens: 15 }, want: { input: 10, output: 5, total: 15 } },
  { u: { prompt_tokens: 0, completion_tokens: 0, total_tokens: 0 }, want: { input: 0, output: 0, total: 0 } },
  { u: { prompt_tokens: 10, completion_tokens: 5, total_tokens: 15, prompt_tokens_details: { cached_tokens: 4, audio_tokens: 1 }, completion_tokens_details: { reasoning_tokens: 2, audio_tokens: 0 } }, want: { input: 5, output: 3, total: 15, input_cached_tokens: 4, input_audio_tokens: 1, output_reasoning_tokens: 2, output_audio_tokens: 0 } },
  { u: { prompt_tokens: 3, completion_tokens: 5, total_tokens: 8, prompt_tokens_details: { cached_tokens: 3 }, completion_tokens_details: null }, want: { input: 0, output: 5, total: 8, input_cached_tokens: 3 } },
  { u: { input_tokens: 10, output_tokens: 5, total_tokens: 15 }, want: { input: 10, output: 5, total: 15 } },
  { u: { input_tokens: 10, output_tokens: 5, total_tokens: 15, input_tokens_details: { cached_tokens: 4 }, output_tokens_details: { reasoning_tokens: 5 } }, want: { input: 6, output: 0, total: 15, input_cached_tokens: 4, output_reasoning_tokens: 5 } },
];
USAGES.push(
  { u: { prompt_tokens: 1e9, completion_tokens: 1, total_tokens: 1e9 + 1, prompt_tokens_details: {}, completion_tokens_details: {} }, want: { input: 1e9, output: 1, total: 1e9 + 1 } },
  { u: { prompt_tokens: 7, completion_tokens: 3, total_tokens: 10, prompt_tokens_details: { cached_tokens: 0, audio_tokens: 0 }, completion_tokens_details: { accepted_prediction_tokens: 1, rejected_prediction_tokens: 1, reasoning_tokens: 0, audio_tokens: 1 } }, want: { input: 7, output: 0, total: 10, input_cached_tokens: 0, input_audio_tokens: 0, output_accepted_prediction_tokens: 1, output_rejected_prediction_tokens: 1, output_reasoning_tokens: 0, output_audio_tokens: 1 } },
  { u: { prompt_tokens: 2, completion_tokens: 2, total_tokens: 4, prompt_tokens_details: { cached_tokens: 5 } }, want: { input: 0, output: 2, total: 4, input_cached_tokens: 5 } },
  { u: { input_tokens: 0, output_tokens: 0, total_tokens: 0, input_tokens_details: { cached_tokens: 0 }, output_tokens_details: { reasoning_tokens: 0 } }, want: { input: 0, output: 0, total: 0, input_cached_tokens: 0, output_reasoning_tokens: 0 } },
  { u: { input_tokens: 3, output_tokens: 2, total_tokens: 5, input_tokens_details: { cached_tokens: 9 }, output_tokens_details: {} }, want: { input: 0, output: 2, total: 5, input_cached_tokens: 9 } },
);
const OUTPUTS: { res: any; want: any }[] = [
  { res: { choices: [{ message: { role: "assistant", content: "hi" } }] }, want: { role: "assistant", content: "hi" } },
  { res: { choices: [{ message: { role: "assistant", content: null, tool_calls: [{ id: "1", function: { name: "f", arguments: "{}" } }, { id: "2", function: { name: "g", arguments: "" } }] } }] }, want: { role: "assistant", content: null, tool_calls: [{ id: "1", function: { name: "f", arguments: "{}" } }, { id: "2", function: { name: "g", arguments: "" } }] } },
  { res: { choices: [{ message: { content: "first" } }, { message: { content: "second" } }] }, want: { content: "first" } },
  { res: { choices: [{ text: "t" }] }, want: "t" },
  { res: { output_text: "o", output: [{ type: "message", content: [{ text: "o" }] }] }, want: "o" },
  { res: { output_text: "", output: [{ type: "function_call", name: "f" }] }, want: { type: "function_call", name: "f" } },
  { res: { output_text: "", output: [{ type: "function_call", name: "f" }, { type: "function_call", name: "g" }] }, want: [{ type: "function_call", name: "f" }, { type: "function_call", name: "g" }] },
  { res: { choices: [] }, want: "" },
  { res: { choices: [{ message: { role: "assistant", content: "" } }] }, want: { role: "assistant", content: "" } },
  { res: { choices: [{ message: { role: "assistant", content: null, refusal: "no" }, logprobs: null }] }, want: { role: "assistant", content: null, refusal: "no" } },
  { res: { choices: [{ text: "" }] }, want: "" },
  { res: { choices: [{ text: " é\n" }, { text: "2" }] }, want: " é\n" },
  { res: { output_text: " ", output: [] }, want: " " },
  { res: { output: [{ type: "message", content: [] }] }, want: { type: "message", content: [] } },
  { res: { output_text: "0", output: [{ type: "reasoning" }, { type: "message" }] }, want: "0" },
];
async function single(w: World) {
  const R = spanRig(w);
  const q = w.pick(REQUESTS, "request");
  const u = w.pick(USAGES, "usage");
  const o = w.pick(OUTPUTS, "output");
  const model = w.pick([undefined, "resp-model"], "response model");
  const extra = w.pick([{}, { temperature: 0.7, status: "completed", metadata: { a: "b" } }, { temperature: 0, top_p: 0, max_output_tokens: 0, parallel_tool_calls: false, store: false, user: "", status: "completed", metadata: { a: "b" } }] as any[], "response data");
  const rf = w.pick([undefined, { type: "json_object" }], "response format");
  const args = rf ? { ...q.args, response_format: rf } : q.args;
  const response = { ...o.res, ...(u.u === undefined ? {} : { usage: u.u }), ...(model ? { model } : {}), ...extra };
  const before = JSON.stringify([args, response]);
  const gm = w.pick([undefined, { own: "1", status: "mine" }], "generation metadata");
  const api = observeOpenAI(client(async () => response), gm && { generationMetadata: gm }) as any;
  const r = await settle(w, api.chat.completions.create(args));
  w.assert(r?.v === response && JSON.stringify([args, response]) === before, "untouched", "request or response changed");
  await w.drain();
  w.assert(R.exported.length === 1, "count", `${R.exported.length} generations`);
  const a = R.exported[0].attributes;
  w.assert(a[A + "model.name"] === (model ?? q.model), "model", () => `model ${a[A + "model.name"]}`);
  w.assert(eq(parse(a[A + "input"]), q.input), "input", () => `input ${a[A + "input"]}`);
  w.assert(typeof o.want === "string" ? (a[A + "output"] ?? "") === o.want : eq(parse(a[A + "output"]), o.want), "output", () => `output ${a[A + "output"]}`);
  w.assert(eq(parse(a[A + "usage_details"]), u.want), "usage", () => `usage ${a[A + "usage_details"]} for ${JSON.stringify(u.u)}`);
  const mp = parse(a[A + "model.parameters"]);
  const { status: _s, metadata: _m, ...echo } = extra;
  const want = "temperature" in extra ? echo : q.params;
  for (const [k, v] of Object.entries(want)) w.assert(eq(mp[k], v), "parameters", () => `${k}: ${JSON.stringify(mp[k])}`);
  if (!("temperature" in extra)) for (const k of Object.keys(mp)) w.assert(k in q.params || k === "response_format", "parameters", () => `unexpected ${k}`);
  if ("status" in extra) w.assert(a[A + "metadata.status"] === "completed" && eq(parse(a[A + "metadata.metadata"]), { a: "b" }), "metadata", () => JSON.stringify(a));
  if (rf) w.assert(eq(parse(a[A + "metadata.response_format"]), rf), "response format", () => String(a[A + "metadata.response_format"]));
  if (gm) w.assert(a[A + "metadata.own"] === "1" && ("status" in extra || a[A + "metadata.status"] === "mine"), "metadata", () => JSON.stringify(a));
  w.assert(a[A + "level"] !== "ERROR", "level", "error level");
}

const def: CheckDef = {
  property: "A02",
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [];
    const os: Outcome[] = ["value", "reject", "throw", "stream end", "stream fail", "stream break", "stream consumer throws", "stream return"];
    const cfgs: any[] = [undefined, { generationName: "g", userId: "u", sessionId: "s", tags: ["a", "b"], traceName: "tn", generationMetadata: { k: "v" }, langfusePrompt: { name: "p", version: 3, isFallback: false } }, { langfusePrompt: { name: "p", version: 3, isFallback: true } }, { generationName: "g", parentSpanContext: { traceId: "1".repeat(32), spanId: "2".repeat(16), traceFlags: 1 } }];
    const stopping = (o: Outcome) => ["stream break", "stream consumer throws", "stream return"].includes(o);
    const lensOf = (o: Outcome) => (o.startsWith("stream") ? (stopping(o) ? [1, 2] : [0, 1, 2]) : [0]);
    const formsOf = (o: Outcome): Form[] => (o === "throw" ? ["promise"] : o.startsWith("stream") ? ["promise", "api", "direct"] : ["promise", "api"]);
    out.push({ name: "one call", run: (w) => { const o = w.pick(os, "outcome"); return interleaved(w, [o], [w.pick(formsOf(o), "form")], [w.pick([...lensOf(o), ...(o.startsWith("stream") ? [4] : [])], "chunks")], w.pick(cfgs, "cfg")); } });
    for (const a of os) for (const b of os) out.push({ name: `two calls: ${a} / ${b}`, run: (w) => interleaved(w, [a, b], [w.pick(formsOf(a), "form"), w.pick(formsOf(b), "form")], [w.pick(lensOf(a), "chunks"), w.pick(lensOf(b), "chunks")], w.pick(cfgs.slice(0, 2), "cfg")) });
    const evs: Outcome[] = ["value", "stream end", "stream fail", "stream break", "stream return"];
    for (const a of evs) for (const b of evs) for (const kinds of [["responses", "responses"], ["responses", "chat"], ["chat", "responses"]] as ("chat" | "responses")[][]) if (kinds.every((k, i) => k === "chat" || [a, b][i].startsWith("stream")))
      out.push({ name: `events: ${a} / ${b} ${kinds}`, run: (w) => interleaved(w, [a, b], ["promise", "api"], [w.pick(lensOf(a), "chunks"), w.pick(lensOf(b), "chunks")], undefined, kinds) });
    // differently configured clients side by side
    const other = { generationName: "h", userId: "u2", sessionId: "s 2", tags: ["b", "0"], traceName: "é", generationMetadata: { k: "w", l: "1" }, langfusePrompt: { name: "p/2", version: 0, isFallback: false } };
    for (const pair of [[cfgs[1], undefined], [undefined, cfgs[1]], [cfgs[1], other], [cfgs[2], other], [cfgs[3], undefined], [undefined, cfgs[3]], [cfgs[3], other]])
      for (const a of ["value", "stream end", "reject"] as Outcome[]) for (const b of ["value", "stream break", "stream fail"] as Outcome[]) out.push({ name: `two clients: ${a} / ${b} ${[cfgs[1], cfgs[2], other, undefined, cfgs[3]].indexOf(pair[0])}${[cfgs[1], cfgs[2], other, undefined, cfgs[3]].indexOf(pair[1])}`, run: (w) => interleaved(w, [a, b], ["promise", "api"], [1, 1], pair) });
    const three: Outcome[] = q ? ["reject", "value", "stream end", "stream break"] : ["value", "reject", "stream end", "stream fail", "stream break"];
    for (const a of three) for (const b of three) for (const c of three) out.push({ name: `three calls: ${a} / ${b} / ${c}`, run: (w) => interleaved(w, [a, b, c], ["promise", "promise", "promise"], [a, b, c].map((o) => (o.startsWith("stream") ? (q ? 1 : w.pick([1, 2], "chunks")) : 0)), undefined) });
    out.push({
      name: "hundreds of calls at once",
      run: async (w) => {
        const R = spanRig(w);
        const n = 320;
        const gates: ((v: any) => void)[] = [];
        const api = observeOpenAI(client(() => new Promise((res) => gates.push(res)))) as any;
        for (let i = 0; i < n; i++) api.chat.completions.create({ model: "m" + i, messages: [{ role: "user", content: "q" + i }] });
        await w.drain();
        w.assert(R.exported.length === 0 && gates.length === n, "count", "generations ended early or calls lost");
        const back = w.bool("backwards");
        for (let k = 0; k < n; k++) {
          const i = back ? n - 1 - k : k;
          gates[i]({ model: "r" + i, choices: [{ message: { content: "v" + i } }], usage: { prompt_tokens: i, completion_tokens: 1, total_tokens: i + 1 } });
        }
        await w.drain();
        w.assert(R.exported.length === n, "count", `${R.exported.length} generations for ${n} calls`);
        const seen = new Set<number>();
        for (const e of R.exported) {
          const i = Number(parse(e.attributes[A + "input"]).messages[0].content.slice(1));
          seen.add(i);
          w.assert(e.attributes[A + "model.name"] === "r" + i && parse(e.attributes[A + "output"]).content === "v" + i && parse(e.attributes[A + "usage_details"]).input === i, "mixed", () => JSON.stringify(e.attributes));
        }
        w.assert(seen.size === n, "count", "a call has two generations");
      },
    });
    out.push({
      name: "errors of every shape",
      run: async (w) => {
        const R = spanRig(w);
        const err: any = w.pick([new Error("boom"), new TypeError(""), "text", "", undefined, null, 0, 5, false, Symbol.for("e"), { status: 429 }, Object.create(null), { toString() { throw new Error("no"); } }, Object.freeze(new Error("f")), class X extends Error {}] as any[], "error");
        const how = w.pick(["throw", "reject", "api reject", "stream at once", "stream later", "direct stream"] as const, "how");
        const stream = (k: number) => new FakeStream(() => { let n = 0; return { next: async () => { if (n++ < k) return { done: false, value: { choices: [{ index: 0, delta: { content: "a" } }] } }; throw err; } } as any; });
        const api = observeOpenAI(client(() => {
          if (how === "throw") throw err;
          if (how === "reject") return Promise.reject(err);
          if (how === "api reject") return new ApiPromise((_, rej) => rej(err));
          return how === "direct stream" ? stream(1) : Promise.resolve(stream(how === "stream later" ? 2 : 0));
        })) as any;
        let st: any;
        (async () => { const r = await api.chat.completions.create({ model: "m", messages: [] }); for await (const _ of r); })().then(() => (st = { ok: true }), (e) => (st = { ok: false, e }));
        for (let i = 0; i < 4; i++) await w.drain();
        w.assert(st && !st.ok && Object.is(st.e, err), "outcome", "the caller did not get the error");
        w.assert(R.exported.length === 1, "count", () => `a call that failed with ${typeof err} (${how}) has ${R.exported.length} finished generations`);
        w.assert(R.exported[0].attributes[A + "level"] === "ERROR", "level", () => `a call that failed with ${typeof err} (${how}) has level ${R.exported[0].attributes[A + "level"]}`);
      },
    });
    out.push({ name: "request and response shapes", run: single });
    // every subset of the details a response may report
    for (const stream of [false, true])
      out.push({
        name: `response details${stream ? " in a stream" : ""}`,
        run: async (w) => {
          const R = spanRig(w);
          const details: [string, any][] = [["reasoning", { effort: "low" }], ["incomplete_details", { reason: "max_output_tokens" }], ["instructions", "be kind"], ["previous_response_id", "resp_1"], ["tools", [{ type: "function", name: "f" }]], ["metadata", { a: "b" }], ["status", "failed"], ["error", { code: "x", message: "y" }]];
          const params: [string, any][] = [["max_output_tokens", 3], ["parallel_tool_calls", false], ["store", true], ["temperature", 0], ["tool_choice", "auto"], ["top_p", 1], ["truncation", "disabled"], ["user", "u"]];
          const which = w.bool("parameters") ? params : details;
          const given = which.filter(([k]) => w.bool(k));
          const res = { model: "r", output: [{ type: "message", content: "v" }], ...Object.fromEntries(given) };
          const events = [{ type: "response.created", response: { model: "r", output: [] } }, { type: "response.completed", response: res }];
          const api = observeOpenAI(client(async () => (stream ? new FakeStream(() => { let n = 0; return { next: async () => (n < 2 ? { done: false, value: events[n++] } : { done: true, value: undefined }) } as any; }) : res))) as any;
          const r = await settle(w, (async () => { const v = await api.chat.completions.create({ model: "m", input: "i" }); if (stream) for await (const x of v) void x; })());
          w.assert(r?.ok, "outcome", () => `failed ${r?.v}`);
          await w.drain();
          w.assert(R.exported.length === 1, "count", () => `${R.exported.length} generations`);
          const a = R.exported[0].attributes;
          for (const [k, v] of details) w.assert(eq(parse(a[A + "metadata." + k]), given.some((g) => g[0] === k) ? v : undefined), "details", () => `${k} is recorded as ${a[A + "metadata." + k]}`);
          const mp = parse(a[A + "model.parameters"]) ?? {};
          for (const [k, v] of given) if (which === params) w.assert(eq(mp[k], v), "parameters", () => `${k} is recorded as ${JSON.stringify(mp[k])}`);
        },
      });
    // however the caller waits for the answer
    out.push({
      name: "ways to wait",
      run: async (w) => {
        const R = spanRig(w);
        const form = w.pick(["promise", "api", "page"] as const, "form");
        const kind = form === "page" ? w.pick(["page", "reject"] as const, "outcome") : w.pick(["value", "reject", "stream"] as const, "outcome");
        const via = w.pick(["await", "then", "then 2", "catch", "finally", "catch finally", "never", ...(form === "page" ? ["iterate"] : [])], "via");
        const err = new Error("boom");
        const page = new Page([{ id: 1 }, { id: 2 }]);
        const value = { model: "r", choices: [{ message: { content: "v" } }] };
        let go: any;
        const stream = new FakeStream(() => { let n = 0; return { next: async () => (n++ < 2 ? { done: false, value: { choices: [{ index: 0, delta: { content: "t" + n } }] } } : { done: true, value: undefined }) } as any; });
        const api = observeOpenAI(client(() => {
          const ex = (res: any, rej: any) => (go = () => (kind === "reject" ? rej(err) : res(kind === "page" ? page : kind === "stream" ? stream : value)));
          return form === "promise" ? new Promise(ex) : form === "api" ? new ApiPromise(ex) : new PagePromise(ex);
        })) as any;
        const r = api.chat.completions.create({ model: "m", messages: [{ role: "user", content: "q" }] });
        const got: any[] = [];
        let st: any, fin = 0;
        const wait = async () => {
          if (via === "iterate") { for await (const x of r) got.push(x); return undefined; }
          if (via === "then") return r.then((v: any) => v);
          if (via === "then 2") return r.then((v: any) => v, (e: any) => { throw e; });
          if (via === "catch") return r.catch((e: any) => { throw e; });
          if (via === "finally") return r.finally(() => fin++);
          if (via === "catch finally") return r.catch((e: any) => { throw e; }).finally(() => fin++);
          return r;
        };
        const p = via === "never" && kind !== "reject" ? Promise.resolve(undefined) : wait();
        p.then(async (v: any) => { if (kind === "stream" && v) for await (const x of v) got.push(x); st = { ok: true, v }; }).catch((e: any) => (st = { ok: false, e }));
        await w.drain();
        w.assert(R.exported.length === 0, "count", "the generation ended before the call");
        go();
        for (let i = 0; i < 4; i++) await w.drain();
        w.assert(st && st.ok === (kind !== "reject"), "outcome", () => `${form} ${kind} via ${via}: ${JSON.stringify(st)}`);
        if (kind === "reject") w.assert(st.e === err, "outcome", "another error");
        if (via.includes("finally")) w.assert(fin === 1, "outcome", "finally callback not run once");
        if (kind === "stream" && via === "never") return;
        w.assert(R.exported.length === 1, "count", () => `${form} ${kind} via ${via}: ${R.exported.length} finished generations`);
        const a = R.exported[0].attributes;
        w.assert((a[A + "level"] === "ERROR") === (kind === "reject"), "level", () => `level ${a[A + "level"]}`);
        if (kind === "stream") w.assert(a[A + "output"] === "t1t2" && got.length === 2, "output", () => `output ${a[A + "output"]}`);
        if (kind === "value") w.assert(parse(a[A + "output"])?.content === "v", "output", () => `output ${a[A + "output"]}`);
      },
    });
    return out;
  },
  bounds: (tier) => `all interleavings of the steps of 1-3 concurrent calls, 8 outcomes per call (${tier === "quick" ? 4 : 5} with three calls), streams of up to ${tier === "quick" ? 2 : 2} chunks (4 for one call), promise/API-promise/direct forms, 3 configurations; chat and Responses API streams; ${REQUESTS.length} request x ${USAGES.length} usage x ${OUTPUTS.length} output shapes`,
  assumptions: ["a stream is abandoned when its consumer stops after having started to iterate; a stream never iterated is not over"],
};
export default def;
