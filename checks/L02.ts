import type { CheckDef, Scenario, World } from "../mc/engine";
import { CallbackHandler } from "@langfuse/langchain";
import { AIMessage, AIMessageChunk, ChatMessage, FunctionMessage, HumanMessage, SystemMessage, ToolMessage } from "@langchain/core/messages";
import { spanRig } from "./lib/span";

const A = "langfuse.observation.";
const parse = (s: any) => { try { return JSON.parse(s); } catch { return s; } };
const sort = (x: any): any => (Array.isArray(x) ? x.map(sort) : x && typeof x === "object" ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, sort(x[k])])) : x);
const eq = (a: any, b: any): boolean => JSON.stringify(sort(a)) === JSON.stringify(sort(b));
const ser = (n: string) => ({ lc: 1, type: "not_implemented", id: ["x", n] }) as any;

const TC = [{ id: "1", name: "f", args: { a: 1 }, type: "tool_call" as const }, { id: "2", name: "g", args: {}, type: "tool_call" as const }];
const KW = [{ id: "1", type: "function" as const, function: { name: "f", arguments: "{}" } }];
const PARTS = [{ type: "text", text: "p" }, { type: "image_url", image_url: { url: "http://i" } }];
/** message, expected role (undefined: not specified), and what must be found of its tool calls */
const MESSAGES: { make: () => any; role?: string; content: any; tools?: any; kwargs?: any; name: string }[] = [
  { name: "human", make: () => new HumanMessage("h"), role: "user", content: "h" },
  { name: "human empty", make: () => new HumanMessage(""), role: "user", content: "" },
  { name: "human parts", make: () => new HumanMessage({ content: PARTS as any }), role: "user", content: PARTS },
  { name: "human named", make: () => new HumanMessage({ content: "n", name: "bob" }), role: "user", content: "n" },
  { name: "system", make: () => new SystemMessage("s"), role: "system", content: "s" },
  { name: "ai", make: () => new AIMessage("a"), role: "assistant", content: "a" },
  { name: "ai chunk", make: () => new AIMessageChunk("c"), role: "assistant", content: "c" },
  { name: "ai tools", make: () => new AIMessage({ content: "", tool_calls: TC }), role: "assistant", content: "", tools: TC },
  { name: "ai text and tools", make: () => new AIMessage({ content: "x", tool_calls: TC.slice(0, 1) }), role: "assistant", content: "x", tools: TC.slice(0, 1) },
  { name: "ai raw tools", make: () => new AIMessage({ content: "", additional_kwargs: { tool_calls: KW } }), role: "assistant", content: "", tools: KW },
  { name: "tool", make: () => new ToolMessage({ content: "r", tool_call_id: "1", name: "f" }), role: "f", content: "r" },
  { name: "function", make: () => new FunctionMessage({ content: "r", name: "f" }), role: "f", content: "r" },
  { name: "chat", make: () => new ChatMessage("x", "custom"), content: "x" },
];
const MANY = Array.from({ length: 12 }, (_, i) => ({ id: "c" + i, name: "f" + (i % 3), args: { i, n: null, s: "ü" }, type: "tool_call" as const }));
/** further forms, enumerated one at a time */
const FC = { function_call: { name: "f", arguments: '{"a":1}' } };
const MORE: typeof MESSAGES = [
  { name: "ai function call", make: () => new AIMessage({ content: "", additional_kwargs: FC }), role: "assistant", content: "", kwargs: FC },
  { name: "human long", make: () => new HumanMessage("x".repeat(5000) + "é"), role: "user", content: "x".repeat(5000) + "é" },
  { name: "human spaces", make: () => new HumanMessage(" a \n\t"), role: "user", content: " a \n\t" },
  { name: "human zero", make: () => new HumanMessage("0"), role: "user", content: "0" },
  { name: "human json", make: () => new HumanMessage('{"a":[1]}'), role: "user", content: '{"a":[1]}' },
  { name: "human emoji", make: () => new HumanMessage("\ud83d\ude00\u2028"), role: "user", content: "\ud83d\ude00\u2028" },
  { name: "human empty parts", make: () => new HumanMessage({ content: [] as any }), role: "user", content: [] },
  { name: "human many parts", make: () => new HumanMessage({ content: Array.from({ length: 15 }, (_, i) => ({ type: "text", text: "p" + i })) as any }), role: "user", content: Array.from({ length: 15 }, (_, i) => ({ type: "text", text: "p" + i })) },
  { name: "human with id", make: () => new HumanMessage({ content: "n", id: "m1", response_metadata: { a: 1 } } as any), role: "user", content: "n" },
  { name: "system parts", make: () => new SystemMessage({ content: PARTS as any }), role: "system", content: PARTS },
  { name: "system named", make: () => new SystemMessage({ content: "n", name: "policy" }), role: "system", content: "n" },
  { name: "system empty", make: () => new SystemMessage(""), role: "system", content: "" },
  { name: "ai empty", make: () => new AIMessage(""), role: "assistant", content: "" },
  { name: "ai parts", make: () => new AIMessage({ content: PARTS as any }), role: "assistant", content: PARTS },
  { name: "ai named", make: () => new AIMessage({ content: "n", name: "agent" }), role: "assistant", content: "n" },
  { name: "ai many tools", make: () => new AIMessage({ content: "t", tool_calls: MANY }), role: "assistant", content: "t", tools: MANY },
  { name: "ai chunk tools", make: () => new AIMessageChunk({ content: "", tool_calls: TC }), role: "assistant", content: "", tools: TC },
  { name: "ai long tools", make: () => new AIMessage({ content: "x".repeat(3000), tool_calls: [{ ...TC[0], args: { long: "y".repeat(3000), deep: { a: { b: { c: [1, [2, [3]]] } } } } }] }), role: "assistant", content: "x".repeat(3000), tools: [{ ...TC[0], args: { long: "y".repeat(3000), deep: { a: { b: { c: [1, [2, [3]]] } } } } }] },
  { name: "ai no tools", make: () => new AIMessage({ content: "n", tool_calls: [] }), role: "assistant", content: "n" },
  { name: "tool parts", make: () => new ToolMessage({ content: PARTS as any, tool_call_id: "1", name: "f" }), role: "f", content: PARTS },
  { name: "tool empty", make: () => new ToolMessage({ content: "", tool_call_id: "1", name: "f" }), role: "f", content: "" },
  { name: "tool failed", make: () => new ToolMessage({ content: "e", tool_call_id: "1", name: "F g", status: "error" }), role: "F g", content: "e" },
  { name: "tool unnamed", make: () => new ToolMessage({ content: "r", tool_call_id: "1" }), content: "r" },
  { name: "function empty", make: () => new FunctionMessage({ content: "", name: "f" }), role: "f", content: "" },
  { name: "chat user", make: () => new ChatMessage("", "user"), content: "" },
];
const OUTS = MESSAGES.filter((m) => m.name.startsWith("ai"));
const check = (w: World, got: any, m: (typeof MESSAGES)[0], what: string) => {
  w.assert(got && typeof got === "object", what, () => `${what}: ${JSON.stringify(got)}`);
  w.assert(eq(got.content, m.content), what, () => `${what}: content ${JSON.stringify(got.content)} of ${m.name}`);
  if (m.role) w.assert(got.role === m.role, what, () => `${what}: role ${got.role} of ${m.name}`);
  if (m.kwargs) w.assert(eq(got.additional_kwargs, m.kwargs), what, () => `${what}: function call ${JSON.stringify(got.additional_kwargs)} of ${m.name}`);
  w.assert(eq(got.tool_calls, m.tools), what, () => `${what}: tool calls ${JSON.stringify(got.tool_calls)} of ${m.name}`);
};
/** every form alone, amid others, repeated, and in long lists; the same in chain inputs and outputs */
async function forms(w: World) {
  const R = spanRig(w);
  const h = new CallbackHandler();
  const m = w.pick([...MESSAGES, ...MORE], "message");
  const o = MESSAGES[0], s = MESSAGES.find((x) => x.name === "system")!;
  const list = w.pick([[m], [s, m, o], [m, m], [...Array.from({ length: 11 }, () => o), m, o]], "list");
  const where = w.pick(["model", "chain input", "chain messages", "output"], "where");
  const built = list.map((x) => x.make());
  const before = JSON.stringify(built);
  if (where === "model") {
    await h.handleChatModelStart(ser("M"), [built], "r");
    await h.handleLLMEnd({ generations: [[{ text: "x" }]] }, "r");
  } else {
    await h.handleChainStart(ser("C"), where === "output" ? { a: 1 } : { [where === "chain input" ? "input" : "messages"]: built }, "r");
    await h.handleChainEnd(where === "output" ? { messages: built } : { output: "x" }, "r");
  }
  await w.drain();
  w.assert(R.exported.length === 1, "count", `${R.exported.length}`);
  const v = parse(R.exported[0].attributes[A + (where === "output" ? "output" : "input")]);
  const got = where === "output" ? v?.messages : v;
  w.assert(Array.isArray(got) && got.length === list.length, where, () => `${where}: ${JSON.stringify(v)?.slice(0, 300)}`);
  list.forEach((x, i) => check(w, got[i], x, where));
  w.assert(JSON.stringify(built) === before, "untouched", "messages changed");
}
/** text models: the prompts given, and the text of the last generation */
const TEXTS = ["p", "", " ", "0", "multi\nline", "ü\ud83d\ude00", "x".repeat(4000), "y".repeat(300_000) + "é", '{"json":1}'];
async function texts(w: World) {
  const R = spanRig(w);
  const h = new CallbackHandler();
  const t = w.pick(TEXTS, "text"), o = w.pick(TEXTS, "output");
  const list = w.pick([[t], [t, "other"], ["a", t, t], Array.from({ length: 12 }, (_, i) => t + i), []], "prompts");
  await h.handleLLMStart(ser("L"), [...list], "r", undefined, { invocation_params: { model: "m" } }, [], {}, "nm");
  await h.handleLLMEnd({ generations: w.pick([[[{ text: o }]], [[{ text: "first" }], [{ text: o }]], [[{ text: "a" }, { text: o }]]], "generations") } as any, "r");
  await w.drain();
  const a = R.exported[0].attributes;
  w.assert(R.exported.length === 1 && R.exported[0].name === "nm", "count", `${R.exported.length}`);
  w.assert(eq(parse(a[A + "input"]), list), "input", () => `input ${a[A + "input"]}`);
  w.assert(a[A + "output"] === o, "output", () => `output ${JSON.stringify(a[A + "output"])}, expected ${JSON.stringify(o)}`);
}
/** several model runs of one handler at a time: tokens, results, failures stay with their run */
async function runs(w: World, n: number, steps: number) {
  const R = spanRig(w);
  const h = new CallbackHandler();
  const st: { started?: number; first?: number; over?: "ok" | "err"; tokens: number }[] = Array.from({ length: n }, () => ({ tokens: 0 }));
  const nth: number[] = Array(n).fill(0);
  const finished: { key: string; first?: number; over: string }[] = [];
  for (let i = 0; i < steps; i++) {
    const evs: [string, number][] = [["stop", 0]];
    st.forEach((x, k) => {
      if (x.started === undefined) evs.push(["start", k]);
      else { if (x.tokens < 2) evs.push(["token", k]); evs.push(["end", k], ["fail", k]); }
    });
    const [e, k] = evs[w.choose(evs.length, evs.map((x) => x.join()).join("|"))];
    if (e === "stop") break;
    const x = st[k];
    const id = `m${k}-${nth[k]}`, key = id;
    w.now += 13;
    if (e === "start") {
      x.started = w.now;
      await h.handleChatModelStart(ser("M"), [[new HumanMessage("in " + key)]], id, undefined, { invocation_params: { model: "model " + key, temperature: k } }, [], { own: key }, key);
    } else if (e === "token") {
      x.tokens++;
      x.first ??= w.now;
      await h.handleLLMNewToken("", { prompt: 0, completion: 0 }, id);
    } else {
      if (e === "end") await h.handleLLMEnd({ generations: [[{ text: "", message: new AIMessage({ content: "out " + key, usage_metadata: { input_tokens: k + 1, output_tokens: nth[k], total_tokens: k + 1 + nth[k] } }) }]] } as any, id);
      else await h.handleLLMError(new Error("err " + key), id);
      finished.push({ key, first: x.first, over: e });
      st[k] = { tokens: 0 };
      nth[k]++;
    }
  }
  await w.drain();
  w.assert(R.exported.length === finished.length, "count", () => `${R.exported.length} observations for ${finished.length} finished runs`);
  for (const f of finished) {
    const a = R.exported.find((e) => e.name === f.key)?.attributes;
    w.assert(a, "missing", f.key);
    const [k, v] = f.key.slice(1).split("-").map(Number);
    w.assert(eq(parse(a![A + "input"]), [{ content: "in " + f.key, role: "user" }]) && a![A + "model.name"] === "model " + f.key && eq(parse(a![A + "model.parameters"]), { temperature: k }) && a![A + "metadata.own"] === f.key, "record", () => `${f.key}: ${JSON.stringify(a)}`);
    if (f.over === "end") {
      w.assert(eq(parse(a![A + "output"]), { content: "out " + f.key, role: "assistant" }), "output", () => `${f.key}: output ${a![A + "output"]}`);
      w.assert(eq(parse(a![A + "usage_details"]), { input: k + 1, output: v, total: k + 1 + v }), "usage", () => `${f.key}: usage ${a![A + "usage_details"]}`);
      const t = a![A + "completion_start_time"];
      w.assert(f.first === undefined ? t === undefined : new Date(parse(t)).getTime() === f.first, "first token", () => `${f.key}: time of first token ${t}, expected ${f.first}`);
    }
  }
}
/** several root runs on one handler: each sets its own user, session and tags on its trace */
async function roots(w: World) {
  const R = spanRig(w);
  const cfg = w.pick([undefined, { userId: "u", sessionId: "s", tags: ["b", "c"], version: "1", traceMetadata: { t: "x", n: 5, f: false } }, { tags: [] }, { userId: "U 1" }, { version: "v2" }] as any[], "handler");
  const copy = structuredClone(cfg);
  const h = new CallbackHandler(cfg);
  const n = w.pick([2, 2, 12], "count") as number;
  const opts = [{}, { tags: ["b", "a"] }, { md: { langfuseUserId: "mu" } }, { md: { langfuseSessionId: "ms", k: "v" }, tags: ["z", "z"] }, { md: { langfuseUserId: 5, langfuseSessionId: null } }] as any[];
  const used: any[] = [];
  const pair = [w.pick(opts, "first"), w.pick(opts, "second")];
  const overlap = n === 2 && w.bool("overlapping");
  /** the root need not be a chain: a model, tool or retriever used on its own is one too */
  const kind = n === 2 ? w.pick(["chain", "chat model", "text model", "tool", "retriever"] as const, "root") : "chain";
  const end = async (i: number) => {
    if (kind === "chain") {
      await h.handleLLMEnd({ generations: [[{ text: "x" }]] }, "m" + i);
      await h.handleChainEnd({ output: "x" }, "r" + i);
    } else if (kind === "tool") await h.handleToolEnd("x", "r" + i);
    else if (kind === "retriever") await h.handleRetrieverEnd([], "r" + i);
    else await h.handleLLMEnd({ generations: [[{ text: "x" }]] }, "r" + i);
  };
  for (let i = 0; i < n; i++) {
    const o = pair[i % 2];
    used.push(o);
    const tags = o.tags && [...o.tags], md = o.md && { ...o.md };
    if (kind === "chat model") await h.handleChatModelStart(ser("M"), [[new HumanMessage("x")]], "r" + i, undefined, { invocation_params: {} }, tags, md, "root " + i);
    else if (kind === "text model") await h.handleLLMStart(ser("L"), ["x"], "r" + i, undefined, { invocation_params: {} }, tags, md, "root " + i);
    else if (kind === "tool") await h.handleToolStart(ser("T"), "x", "r" + i, undefined, tags, md, "root " + i);
    else if (kind === "retriever") await h.handleRetrieverStart(ser("R"), "x", "r" + i, undefined, tags, md, "root " + i);
    if (kind !== "chain") {
      if (!overlap) await end(i);
      continue;
    }
    await h.handleChainStart(ser("C"), { input: "x" }, "r" + i, undefined, o.tags && [...o.tags], o.md && { ...o.md }, undefined, "root " + i);
    await h.handleChatModelStart(ser("M"), [[new HumanMessage("x")]], "m" + i, "r" + i, { invocation_params: {} }, [], {}, "model " + i);
    if (!overlap) await end(i);
  }
  if (overlap) for (const i of w.bool("second first") ? [1, 0] : [0, 1]) await end(i);
  await w.drain();
  for (let i = 0; i < n; i++) {
    const e = R.exported.find((x) => x.name === "root " + i)!, a = e.attributes, o = used[i];
    const str = (v: any) => (typeof v === "string" ? v : undefined);
    w.assert(a["user.id"] === (str(o.md?.langfuseUserId) ?? cfg?.userId), "trace", () => `root ${i}: user ${a["user.id"]}`);
    w.assert(a["session.id"] === (str(o.md?.langfuseSessionId) ?? cfg?.sessionId), "trace", () => `root ${i}: session ${a["session.id"]}`);
    w.assert(eq([...(a["langfuse.trace.tags"] ?? [])].sort(), [...new Set([...(o.tags ?? []), ...(cfg?.tags ?? [])])].sort()), "trace", () => `root ${i}: tags ${a["langfuse.trace.tags"]}`);
    w.assert(a["langfuse.trace.metadata.t"] === cfg?.traceMetadata?.t && (!cfg?.traceMetadata || (String(a["langfuse.trace.metadata.n"]) === "5" && String(a["langfuse.trace.metadata.f"]) === "false")), "trace", () => `root ${i}: metadata ${JSON.stringify(a)}`);
    w.assert(a["langfuse.version"] === cfg?.version, "version", () => `root ${i}: version ${a["langfuse.version"]}`);
    if (kind !== "chain") continue;
    const m = R.exported.find((x) => x.name === "model " + i)!;
    w.assert(m.trace === e.trace && m.parent === e.id, "parent", "model run elsewhere");
    w.assert(m.attributes["langfuse.version"] === cfg?.version, "version", () => `model ${i}: version ${m.attributes["langfuse.version"]}`);
  }
  w.assert(eq(cfg, copy), "untouched", "the handler's settings are changed");
}
async function messages(w: World, n: number) {
  const R = spanRig(w);
  const h = new CallbackHandler();
  const ms = Array.from({ length: n }, (_, i) => w.pick(MESSAGES, "message " + i));
  const cut = w.choose(n + 1, "prompts cut");
  const built = ms.map((m) => m.make());
  const before = JSON.stringify(built);
  const tools = w.pick([undefined, [], [{ type: "function", function: { name: "f" } }]], "tools");
  const choice = w.pick([undefined, "auto"], "tool choice");
  await h.handleChatModelStart(ser("M"), [built.slice(0, cut), built.slice(cut)].filter((x, i) => i === 0 || x.length), "r", undefined, { invocation_params: { ...(tools ? { tools } : {}), ...(choice ? { tool_choice: choice } : {}) } });
  await h.handleLLMEnd({ generations: [[{ text: "x" }]] }, "r");
  await w.drain();
  w.assert(R.exported.length === 1, "count", `${R.exported.length}`);
  const inp = parse(R.exported[0].attributes[A + "input"]);
  const list = Array.isArray(inp) ? inp : inp?.messages;
  w.assert(Array.isArray(list) && list.length === n, "input", () => `input ${JSON.stringify(inp)}`);
  ms.forEach((m, i) => check(w, list[i], m, "input"));
  if (tools || choice) w.assert(eq(inp.tools, tools) && inp.tool_choice === choice, "tools", () => `input ${JSON.stringify(inp)}`);
  w.assert(JSON.stringify(built) === before, "untouched", "messages changed");
}
const num = (w: World, l: string) => w.pick([0, 3, 10], l);
async function ends(w: World) {
  const R = spanRig(w);
  const h = new CallbackHandler();
  const out = w.pick([...OUTS.map((m) => m), undefined], "output");
  const source = w.pick(["none", "metadata", "metadata details", "llmOutput", "both"], "usage source");
  const input = num(w, "in"), output = num(w, "out"), total = input + output;
  let want: any = source === "none" ? {} : { input, output, total };
  const usage: any = { input_tokens: input, output_tokens: output, total_tokens: total };
  if (source === "metadata details") {
    const cache = w.pick([undefined, 0, 2, 10], "cache read"), audio = w.pick([undefined, 1], "audio"), reason = w.pick([undefined, 0, 2], "reasoning");
    usage.input_token_details = { ...(cache !== undefined ? { cache_read: cache } : {}), ...(audio !== undefined ? { audio } : {}) };
    usage.output_token_details = w.bool("no output details") ? undefined : { ...(reason !== undefined ? { reasoning: reason } : {}), ...(reason ? { audio: 1, custom_kind: 0 } : {}) };
    want.input = Math.max(0, Math.max(0, input - (cache ?? 0)) - (audio ?? 0));
    if (cache !== undefined) want.input_cache_read = cache;
    if (audio !== undefined) want.input_audio = audio;
    if (usage.output_token_details && reason !== undefined) {
      want.output_reasoning = reason;
      want.output = Math.max(0, output - reason);
      if (reason) {
        want.output = Math.max(0, want.output - 1);
        want.output_audio = 1;
        want.output_custom_kind = 0;
      }
    }
  }
  const onMessage = out && source.startsWith("metadata") || (out && source === "both");
  if ((source.startsWith("metadata") || source === "both") && !out) return;
  const model = w.pick([undefined, "ft:Resp/model-1:org.x@2"], "response model");
  const msg = out?.make();
  if (msg && onMessage) msg.usage_metadata = usage;
  if (msg && model) msg.response_metadata = { model_name: model };
  const req = w.pick([{}, { model: "openai/Req.model:1" }, { ls: "meta-model" }, { model: "openai/Req.model:1", ls: "meta-model" }] as any[], "request model");
  const params = w.pick([{}, { temperature: 0, max_tokens: 5, top_p: 1, frequency_penalty: 0, presence_penalty: 0.5, request_timeout: 9 }, { temperature: null, unrelated: 1 }] as any[], "params");
  await h.handleChatModelStart(ser("M"), [[new HumanMessage("q")]], "r", undefined, { invocation_params: { ...params, ...(req.model ? { model: req.model } : {}) } }, [], req.ls ? { ls_model_name: req.ls } : {});
  const tokens = w.choose(3, "tokens");
  let first: number | undefined;
  for (let i = 0; i < tokens; i++) {
    w.now += 50 + i;
    first ??= w.now;
    await h.handleLLMNewToken("t", { prompt: 0, completion: 0 }, "r");
    if (w.bool("token of another run")) { w.now += 5; await h.handleLLMNewToken("t", { prompt: 0, completion: 0 }, "other"); }
  }
  w.now += 100;
  const last = { text: "gen text", ...(msg ? { message: msg } : {}) };
  await h.handleLLMEnd({ generations: w.bool("several generations") ? [[{ text: "first" }], [{ text: "mid" }, last]] : [[last]], llmOutput: source === "llmOutput" || source === "both" ? { tokenUsage: { promptTokens: source === "both" ? 99 : input, completionTokens: source === "both" ? 99 : output, totalTokens: source === "both" ? 198 : total } } : undefined } as any, "r");
  await w.drain();
  const a = R.exported[0].attributes;
  if (out) check(w, parse(a[A + "output"]), out, "output");
  else w.assert(a[A + "output"] === "gen text", "output", () => `output ${a[A + "output"]}`);
  w.assert(eq(parse(a[A + "usage_details"]) ?? {}, want), "usage", () => `usage ${a[A + "usage_details"]}, expected ${JSON.stringify(want)} from ${JSON.stringify(usage)}`);
  const name = (msg && model) ?? req.model ?? req.ls;
  w.assert(a[A + "model.name"] === (msg && model ? model : (req.model ?? req.ls)), "model", () => `model ${a[A + "model.name"]}, expected ${name}`);
  const mp = parse(a[A + "model.parameters"]) ?? {};
  const wp = Object.fromEntries(Object.entries(params).filter(([k, v]) => v !== null && k !== "unrelated"));
  w.assert(eq(mp, wp), "parameters", () => `parameters ${JSON.stringify(mp)}`);
  const t = a[A + "completion_start_time"];
  w.assert(first === undefined ? t === undefined : new Date(parse(t)).getTime() === first, "first token", () => `time of first token ${t}, expected ${first && new Date(first).toISOString()}`);
}

/** prompt linking over all orders of prompt and model runs in two chains */
async function prompts(w: World, max: number) {
  const R = spanRig(w);
  const h = new CallbackHandler();
  const chains = ["c0", "c1"];
  for (const c of chains) await h.handleChainStart(ser("C"), { input: "x" }, c, c === "c1" && w.bool("nested") ? "c0" : undefined, [], {}, undefined, c);
  const pending = new Map<string, number>();
  const expect = new Map<string, number | undefined>();
  const open: string[] = [];
  let version = 0, n = 0;
  const closed = new Set<string>();
  for (let i = 0; i < max; i++) {
    const evs: string[] = ["stop"];
    for (const c of chains) if (!closed.has(c)) evs.push("prompt " + c, "fallback " + c, "model " + c, "plain " + c, "close " + c);
    evs.push("root model");
    if (open.length) evs.push("end model");
    const e = w.pick(evs, "event");
    if (e === "stop") break;
    const [k, c] = e.split(" ");
    if (k === "prompt" || k === "fallback") {
      version++;
      pending.set(c, k === "fallback" ? -1 : version);
      const id = "p" + n++;
      await h.handleChainStart(ser("P"), { input: "x" }, id, c, [], { langfusePrompt: { name: "prompt", version, isFallback: k === "fallback" } }, undefined, id);
      await h.handleChainEnd({ output: "x" }, id, c);
      expect.set(id, undefined);
    } else if (k === "plain") {
      const id = "q" + n++;
      await h.handleChainStart(ser("P"), { input: "x" }, id, c, [], {}, undefined, id);
      await h.handleChainEnd({ output: "x" }, id, c);
      expect.set(id, undefined);
    } else if (k === "model" || k === "root") {
      const id = "m" + n++;
      const v = k === "model" ? pending.get(c) : undefined;
      if (k === "model") pending.delete(c);
      expect.set(id, v === -1 ? undefined : v);
      open.push(id);
      await h.handleChatModelStart(ser("M"), [[new HumanMessage("x")]], id, k === "model" ? c : undefined, { invocation_params: {} }, [], {}, id);
    } else if (k === "end") await h.handleLLMEnd({ generations: [[{ text: "x" }]] }, open.shift()!);
    else if (k === "close") {
      closed.add(c);
      if (w.bool("fails")) await h.handleChainError(new Error("x"), c);
      else await h.handleChainEnd({ output: "x" }, c);
    }
  }
  for (const id of open) await h.handleLLMEnd({ generations: [[{ text: "x" }]] }, id);
  for (const c of chains) if (!closed.has(c)) await h.handleChainEnd({ output: "x" }, c);
  await w.drain();
  for (const e of R.exported) {
    const v = expect.get(e.name);
    w.assert(e.attributes[A + "prompt.version"] === v && e.attributes[A + "prompt.name"] === (v === undefined ? undefined : "prompt"), "prompt", () => `${e.name} is linked to version ${e.attributes[A + "prompt.version"]}, expected ${v}`);
    for (const k of Object.keys(e.attributes)) w.assert(!/langfusePrompt/.test(k), "metadata", "the prompt is recorded as metadata");
  }
}

/** prompts of different names and versions, many chains, a prompt run still open when the model starts, text models */
async function links(w: World) {
  const R = spanRig(w);
  const h = new CallbackHandler();
  const p = w.pick([{ name: "p", version: 1 }, { name: "folder/ü p", version: 12 }, { name: "P", version: 1000 }, { name: "0", version: 3 }], "prompt");
  const N = w.pick([1, 3, 12], "chains");
  const text = w.bool("text model"), openRun = w.bool("prompt run still open"), fails = w.bool("prompt run fails"), again = w.bool("second model"), twice = w.bool("two prompts"), between = w.pick(["nothing", "tool", "other chain's model", "nested model"], "between");
  const ip = w.pick([{}, { tools: [{ type: "function", function: { name: "f" } }], tool_choice: "auto", model: "m", temperature: 0 }], "invocation parameters");
  const model = async (id: string, parent?: string) => {
    if (text) await h.handleLLMStart(ser("L"), ["x"], id, parent, { invocation_params: { ...ip } }, ["tag"], { own: "1" }, id);
    else await h.handleChatModelStart(ser("M"), [[new HumanMessage("x")]], id, parent, { invocation_params: { ...ip } }, [], {}, id);
    await h.handleLLMEnd({ generations: [[{ text: "x" }]] }, id);
  };
  const want = new Map<string, [string, number]>();
  for (let i = 0; i < N; i++) await h.handleChainStart(ser("C"), { input: "x" }, "c" + i, undefined, [], {}, undefined, "c" + i);
  const late: string[] = [];
  for (let i = 0; i < N; i++) {
    for (const v of twice ? [p.version + 50, p.version] : [p.version]) {
      const id = `p${i}-${v}`;
      await h.handleChainStart(ser("P"), { input: "x" }, id, "c" + i, [], { langfusePrompt: { name: p.name + (N > 1 ? i : ""), version: v + i, isFallback: false } }, undefined, id);
      if (openRun) late.push(id);
      else if (fails) await h.handleChainError(new Error("x"), id, "c" + i);
      else await h.handleChainEnd({ output: "x" }, id, "c" + i);
    }
  }
  for (let i = N - 1; i >= 0; i--) {
    if (between === "tool") { await h.handleToolStart(ser("T"), "x", "t" + i, "c" + i, [], {}, "t" + i); await h.handleToolEnd("x", "t" + i); }
    if (between === "nested model") { await h.handleChainStart(ser("C"), { input: "x" }, "n" + i, "c" + i, [], {}, undefined, "n" + i); await model("nm" + i, "n" + i); await h.handleChainEnd({ output: "x" }, "n" + i); }
    if (between === "other chain's model") await model("om" + i);
    await model("m" + i, "c" + i);
    want.set("m" + i, [p.name + (N > 1 ? i : ""), p.version + i]);
    if (again) await model("again" + i, "c" + i);
  }
  for (const id of late) await h.handleChainEnd({ output: "x" }, id);
  for (let i = 0; i < N; i++) await h.handleChainEnd({ output: "x" }, "c" + i);
  await w.drain();
  for (const e of R.exported) {
    const x = want.get(e.name);
    w.assert(e.attributes[A + "prompt.name"] === x?.[0] && e.attributes[A + "prompt.version"] === x?.[1], "prompt", () => `${e.name} is linked to ${e.attributes[A + "prompt.name"]} ${e.attributes[A + "prompt.version"]}, expected ${x}`);
  }
  for (const id of want.keys()) w.assert(R.exported.some((e) => e.name === id), "count", `${id} is missing`);
}

/** chain, tool and retriever inputs and outputs */
async function chains(w: World) {
  const R = spanRig(w);
  const h = new CallbackHandler();
  const ins: { v: any; want: (got: any) => boolean }[] = [
    { v: { input: "x" }, want: (g) => eq(g, { input: "x" }) }, { v: { question: "x", n: 0 }, want: (g) => eq(g, { question: "x", n: 0 }) }, { v: { content: "only" }, want: (g) => g === "only" }, { v: { content: "c", b: 1 }, want: (g) => eq(g, { content: "c", b: 1 }) },
    ...["messages", "input"].flatMap((k) => [[new HumanMessage("h1"), ["user", "x1"]], ["x1", new AIMessage("h1")], [null, new AIMessage("h1"), "x1"]].map((l) => ({ v: { [k]: l }, want: (g: any) => Array.isArray(g?.[k]) && g[k].length === l.length && /h1/.test(JSON.stringify(g)) && /x1/.test(JSON.stringify(g)) }))),
    { v: { messages: [new HumanMessage("h"), new AIMessage("a")] }, want: (g) => eq(g, [{ content: "h", role: "user" }, { content: "a", role: "assistant" }]) }, { v: { input: [new HumanMessage("h")] }, want: (g) => eq(g, [{ content: "h", role: "user" }]) }, { v: { input: ["a", "b"] }, want: (g) => eq(g, { input: ["a", "b"] }) }, { v: "text", want: (g) => g === "text" },
  ];
  const outs: { v: any; want: (got: any) => boolean }[] = [
    { v: { output: "x" }, want: (g) => g === "x" }, { v: { output: { a: 1 } }, want: (g) => eq(g, { output: { a: 1 } }) }, { v: { answer: "x" }, want: (g) => eq(g, { answer: "x" }) }, { v: { messages: [new AIMessage({ content: "", tool_calls: TC })] }, want: (g) => eq(g, { messages: [{ content: "", role: "assistant", tool_calls: TC }] }) }, { v: { output: "" }, want: (g) => g === "" || g === undefined }, { v: { a: 0, b: false, c: null }, want: (g) => eq(g, { a: 0, b: false, c: null }) }, { v: "plain", want: (g) => g === "plain" },
  ];
  const i = w.pick(ins, "in"), o = w.pick(outs, "out");
  const tags = w.pick([undefined, ["a", "b"]], "tags"), md = w.pick([undefined, { k: "v", langfuseUserId: "mu", langfuseSessionId: "ms" }, { k: { d: 1 } }] as any[], "metadata");
  const cfg = w.pick([undefined, { userId: "u", sessionId: "s", tags: ["b", "c"], version: "1", traceMetadata: { t: "x", o: { d: 1 } } }] as any[], "handler");
  const h2 = new CallbackHandler(cfg);
  await h2.handleChainStart(ser("C"), i.v, "r", undefined, tags, md, undefined, w.pick([undefined, "named"], "name"));
  await h2.handleToolStart(ser("T"), "tool in", "t", "r", [], {}, "tl");
  await h2.handleToolEnd("tool out" as any, "t");
  await h2.handleRetrieverStart(ser("R"), "query", "q", "r", [], {}, "rt");
  await h2.handleRetrieverEnd([{ pageContent: "doc", metadata: { s: 1 } }] as any, "q");
  await h2.handleChainEnd(o.v, "r");
  await w.drain();
  w.assert(R.exported.length === 3, "count", `${R.exported.length}`);
  const [t, q, c] = R.exported;
  w.assert(t.name === "tl" && t.attributes[A + "input"] === "tool in" && t.attributes[A + "output"] === "tool out", "tool", () => JSON.stringify(t.attributes));
  w.assert(q.attributes[A + "input"] === "query" && eq(parse(q.attributes[A + "output"]), [{ pageContent: "doc", metadata: { s: 1 } }]), "retriever", () => JSON.stringify(q.attributes));
  const a = c.attributes;
  w.assert(i.want(parse(a[A + "input"])), "input", () => `input ${a[A + "input"]}`);
  w.assert(o.want(parse(a[A + "output"])), "output", () => `output ${a[A + "output"]}`);
  const user = md?.langfuseUserId ?? cfg?.userId, session = md?.langfuseSessionId ?? cfg?.sessionId;
  w.assert(a["user.id"] === user && a["session.id"] === session, "trace", () => `user ${a["user.id"]} session ${a["session.id"]}`);
  const tt = [...new Set([...(tags ?? []), ...(cfg?.tags ?? [])])].sort();
  w.assert(eq([...(a["langfuse.trace.tags"] ?? [])].sort(), tt), "trace", () => `tags ${a["langfuse.trace.tags"]}`);
  if (cfg) w.assert(a["langfuse.version"] === "1" && a["langfuse.trace.metadata.t"] === "x" && eq(parse(a["langfuse.trace.metadata.o"]), { d: 1 }), "trace", () => JSON.stringify(a));
  for (const k of Object.keys(a)) w.assert(!/metadata\.langfuse/.test(k), "metadata", () => `the handler's own ${k} is recorded as metadata`);
  if (md?.k) w.assert(eq(parse(a[A + "metadata.k"]), md.k), "metadata", () => String(a[A + "metadata.k"]));
  w.assert(h2.last_trace_id === c.trace, "last trace", "last_trace_id differs");
  void h;
}

/** model runs one after the other on one handler: each records its own details only */
async function successive(w: World, n: number) {
  const R = spanRig(w);
  const h = new CallbackHandler();
  const KINDS = [
    { ip: {}, md: {}, tags: [], out: "text", usage: undefined, tokens: 0 },
    { ip: { model: "m1", temperature: 0.5, tools: [{ type: "function", function: { name: "f" } }], tool_choice: "auto" }, md: { k: "v1" }, tags: ["a"], out: "text", usage: { promptTokens: 3, completionTokens: 4, totalTokens: 7 }, tokens: 1 },
    { ip: { model: "m2", max_tokens: 9 }, md: { j: "v2" }, tags: ["b"], out: "error", usage: undefined, tokens: 2 },
    { ip: { top_p: 0 }, md: {}, tags: [], out: "text", usage: { promptTokens: 0, completionTokens: 1, totalTokens: 1 }, tokens: 0 },
  ];
  for (let i = 0; i < n; i++) {
    const k: any = KINDS[w.choose(KINDS.length, "kind")];
    const id = "r" + i;
    await h.handleChatModelStart(ser("M"), [[new HumanMessage("q" + i)]], id, undefined, { invocation_params: k.ip }, k.tags, k.md, "n" + i);
    let first: number | undefined;
    for (let t = 0; t < k.tokens; t++) {
      w.now += 20;
      first ??= w.now;
      await h.handleLLMNewToken("t", { prompt: 0, completion: 0 }, id);
    }
    w.now += 30;
    if (k.out === "error") await h.handleLLMError(new Error("boom " + i), id);
    else await h.handleLLMEnd({ generations: [[{ text: "out" + i }]], llmOutput: k.usage && { tokenUsage: k.usage } } as any, id);
    await w.drain();
    w.assert(R.exported.length === i + 1, "count", `${R.exported.length} finished observations after ${i + 1} runs`);
    const a = R.exported[i].attributes;
    const inp = parse(a[A + "input"]), msgs = [{ content: "q" + i, role: "user" }];
    w.assert(R.exported[i].name === "n" + i && eq(inp, k.ip.tools ? { messages: msgs, tools: k.ip.tools, tool_choice: "auto" } : msgs), "input", () => `run ${i}: input ${a[A + "input"]}`);
    w.assert(a[A + "model.name"] === k.ip.model, "model", () => `run ${i}: model ${a[A + "model.name"]}, expected ${k.ip.model}`);
    const { model: _m, tools: _t, tool_choice: _c, ...wp } = k.ip;
    w.assert(eq(parse(a[A + "model.parameters"]) ?? {}, wp), "parameters", () => `run ${i}: parameters ${a[A + "model.parameters"]}`);
    for (const key of ["k", "j"]) w.assert(a[A + "metadata." + key] === k.md[key], "metadata", () => `run ${i}: metadata ${key} is ${a[A + "metadata." + key]}`);
    w.assert(eq([...(a["langfuse.trace.tags"] ?? [])], k.tags), "trace", () => `run ${i}: tags ${a["langfuse.trace.tags"]}`);
    if (k.out === "error") w.assert(a[A + "level"] === "ERROR" && String(a[A + "status_message"]).includes("boom " + i) && a[A + "output"] === undefined, "error", () => `run ${i}: ${JSON.stringify(a)}`);
    else {
      w.assert(a[A + "level"] !== "ERROR" && a[A + "output"] === "out" + i, "output", () => `run ${i}: output ${a[A + "output"]}`);
      w.assert(eq(parse(a[A + "usage_details"]) ?? {}, k.usage ? { input: k.usage.promptTokens, output: k.usage.completionTokens, total: k.usage.totalTokens } : {}), "usage", () => `run ${i}: usage ${a[A + "usage_details"]}`);
      const t = a[A + "completion_start_time"];
      w.assert(first === undefined ? t === undefined : new Date(parse(t)).getTime() === first, "first token", () => `run ${i}: time of first token ${t}, expected ${first && new Date(first).toISOString()}`);
    }
  }
}

/** tool and retriever payloads */
async function payloads(w: World) {
  const R = spanRig(w);
  const h = new CallbackHandler();
  const kind = w.pick(["tool", "retriever"], "kind");
  const input = w.pick(TEXTS, "input");
  const doc = (i: number) => ({ pageContent: "doc " + i, metadata: { i, s: "ü", n: null }, ...(i % 2 ? { id: "d" + i } : {}) });
  const output: any = kind === "tool" ? w.pick([...TEXTS, { a: 1, b: [null, false, 0, ""] }, [], [1, "2"], 0, false, { deep: { a: { b: { c: { d: 1 } } } } }, Array.from({ length: 120 }, (_, i) => i)] as any[], "output") : w.pick([[], [doc(0)], [doc(1), doc(1)], Array.from({ length: 25 }, (_, i) => doc(i)), [{ pageContent: "", metadata: {} }], [{ pageContent: "x".repeat(9000), metadata: {} }]] as any[], "documents");
  const n = w.pick([1, 2], "runs");
  for (let i = 0; i < n; i++) {
    if (kind === "tool") await h.handleToolStart(ser("T"), i ? "other" : input, "r" + i, undefined, [], {}, "n" + i);
    else await h.handleRetrieverStart(ser("R"), i ? "other" : input, "r" + i, undefined, [], {}, "n" + i);
  }
  for (let i = 0; i < n; i++) {
    const o = i ? "other" : output;
    if (kind === "tool") await h.handleToolEnd(o, "r" + i);
    else await h.handleRetrieverEnd(i ? [doc(7)] : o, "r" + i);
  }
  await w.drain();
  w.assert(R.exported.length === n, "count", `${R.exported.length}`);
  const a = R.exported.find((e) => e.name === "n0")!.attributes;
  w.assert(a[A + "input"] === input, kind, () => `input ${JSON.stringify(a[A + "input"])}, expected ${JSON.stringify(input)}`);
  w.assert(typeof output === "string" ? a[A + "output"] === output : eq(parse(a[A + "output"]), output), kind, () => `output ${JSON.stringify(a[A + "output"])?.slice(0, 200)}, expected ${JSON.stringify(output)?.slice(0, 200)}`);
}

const def: CheckDef = {
  property: "L02",
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [
      { name: "one message", run: (w) => messages(w, 1) },
      { name: "two messages", run: (w) => messages(w, 2) },
      { name: "message forms", run: forms },
      { name: "text models", run: texts },
      { name: "tool and retriever payloads", run: payloads },
      { name: "two model runs", run: (w) => runs(w, 2, q ? 6 : 8) },
      { name: "root runs", run: roots },
      { name: "successive runs", run: (w) => successive(w, q ? 3 : 4) },
      { name: "further prompt links", run: links },
      { name: "model results", run: ends },
      { name: "prompt links", run: (w) => prompts(w, q ? 4 : 5) },
      { name: "chains, tools and retrievers", run: chains },
    ];
    if (!q) out.push({ name: "three messages", run: (w) => messages(w, 3) });
    return out;
  },
  bounds: (tier) => `${MESSAGES.length + MORE.length} message forms in 4 lists x 4 places; all ${tier === "quick" ? 6 : 8}-event schedules of two model runs; pairs of root runs x handler settings; ${MESSAGES.length} message forms in lists of up to ${tier === "quick" ? 2 : 3} x tools/tool choice; ${OUTS.length} model outputs x usage sources x detail counts x model name sources x parameter sets x token arrivals; all sequences of ${tier === "quick" ? 4 : 5} prompt/model/close events in two chains; chain inputs/outputs x tags x metadata x handler settings`,
};
export default def;
