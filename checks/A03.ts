import type { CheckDef, Scenario, World } from "../mc/engine";
import { observeOpenAI } from "@langfuse/openai";
import { spanRig } from "./lib/span";
import { FakeStream, client, settle } from "./lib/openai";

const A = "langfuse.observation.";
const parse = (s: any) => { try { return JSON.parse(s); } catch { return s; } };
const sort = (x: any): any => (Array.isArray(x) ? x.map(sort) : x && typeof x === "object" ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, sort(x[k])])) : x);
const eq = (a: any, b: any): boolean => JSON.stringify(sort(a)) === JSON.stringify(sort(b));

async function record(w: World, chunks: any[], complete?: any, patience = 0) {
  const R = spanRig(w);
  const gaps = [3, 11, 5, 7, 2, 4, 6, 8, 9, 1];
  const start = w.now;
  const api = observeOpenAI(client(() => complete ?? new FakeStream(() => { let i = 0; return { next: async () => { w.now += gaps[i % gaps.length]; return i < chunks.length ? { done: false, value: chunks[i++] } : { done: true, value: undefined }; } } as any; }))) as any;
  const before = JSON.stringify(chunks);
  const seen: any[] = [];
  const call = async () => {
    const r = await api.chat.completions.create({ model: "m", stream: !complete });
    if (!complete) for await (const x of r) {
      seen.push(x);
      w.now += 13; // the consumer takes its time
    }
  };
  const pc = call();
  for (let i = 0; i < patience && seen.length < chunks.length; i++) await w.drain(1);
  const st = await settle(w, pc);
  w.assert(st?.ok, "failed", () => String(st?.v));
  w.assert(complete || (seen.length === chunks.length && seen.every((x, i) => x === chunks[i]) && JSON.stringify(chunks) === before), "chunks", "chunks changed");
  await w.drain();
  w.assert(R.exported.length === 1, "count", `${R.exported.length} generations`);
  const a = R.exported[0].attributes;
  if (chunks.length) {
    const t = parse(a[A + "completion_start_time"]);
    w.assert(new Date(t).getTime() === start + gaps[0], "first token", () => `time of first token ${t}, first chunk came at ${new Date(start + gaps[0]).toISOString()}`);
  } else if (!complete) w.assert(a[A + "completion_start_time"] === undefined, "first token", "time of first token without a chunk");
  return { output: a[A + "output"], usage: parse(a[A + "usage_details"]), model: a[A + "model.name"], a };
}
const USAGE = [undefined, { prompt_tokens: 10, completion_tokens: 5, total_tokens: 15 }, { prompt_tokens: 10, completion_tokens: 5, total_tokens: 15, prompt_tokens_details: { cached_tokens: 4 }, completion_tokens_details: { reasoning_tokens: 2 } }, { prompt_tokens: 0, completion_tokens: 0, total_tokens: 0 }];
const WANT = [undefined, { input: 10, output: 5, total: 15 }, { input: 6, output: 3, total: 15, input_cached_tokens: 4, output_reasoning_tokens: 2 }, { input: 0, output: 0, total: 0 }];
/** pieces of s, chosen exhaustively: cut or not at every position */
const split = (w: World, s: string, label: string): string[] => {
  const out: string[] = [];
  let cur = "";
  const cs = [...s];
  cs.forEach((c, i) => {
    cur += c;
    if (i === cs.length - 1 || w.bool(label + " cut " + i)) { out.push(cur); cur = ""; }
  });
  return out;
};
/** where the usage is reported: with the last chunk, or in a chunk of its own after it; other chunks have no usage or null */
const withUsage = (w: World, chunks: any[]) => {
  const u = w.choose(USAGE.length, "usage");
  const nulls = w.bool("null usage elsewhere");
  const own = u === 0 || chunks.length === 0 ? true : w.bool("usage in its own chunk");
  const out = chunks.map((c, i) => (!own && i === chunks.length - 1 ? { ...c, usage: USAGE[u] } : nulls ? { ...c, usage: null } : c));
  if (own && u > 0) out.push({ choices: [], usage: USAGE[u] });
  return { chunks: out, want: WANT[u] };
};

async function text(w: World, kind: "chat" | "completion", texts: string[]) {
  const t = w.pick(texts, "text");
  const pieces = t ? split(w, t, "text") : [];
  const lead = w.pick(kind === "chat" ? ["none", "role", "role and empty", "empty choices"] : ["none", "empty"], "lead");
  const tail = w.pick(["none", "finish", "finish null"], "tail");
  const mk = (s: any, extra: any = {}) => ({ id: "c", object: "chunk", choices: [kind === "chat" ? { index: 0, delta: s === undefined ? extra.delta ?? {} : { content: s }, finish_reason: extra.finish ?? null } : { index: 0, text: s ?? "", finish_reason: extra.finish ?? null }] });
  const chunks: any[] = [];
  if (lead === "role") chunks.push(mk(undefined, { delta: { role: "assistant" } }));
  if (lead === "role and empty") chunks.push(mk(undefined, { delta: { role: "assistant", content: "", refusal: null } }));
  if (lead === "empty choices") chunks.push({ choices: [], prompt_filter_results: [] });
  if (lead === "empty") chunks.push(mk(""));
  for (const p of pieces) chunks.push(mk(p));
  if (tail !== "none") chunks.push(mk(undefined, { finish: "stop", delta: tail === "finish" ? {} : { content: null } }));
  const u = withUsage(w, chunks);
  const r = await record(w, u.chunks);
  w.assert(r.output === t || (t === "" && !r.output), "output", () => `answer ${JSON.stringify(t)} in pieces ${JSON.stringify(pieces)} recorded as ${r.output}`);
  w.assert(eq(r.usage, u.want), "usage", () => `usage ${JSON.stringify(r.usage)} expected ${JSON.stringify(u.want)}`);
  w.assert(r.model === "m", "model", () => `model ${r.model}`);
}

type Tool = { name: string; args: string };
async function tools(w: World, sets: Tool[][], interleave: boolean) {
  const set = w.pick(sets, "tools");
  // deltas of each call: opening (name, maybe first piece of the arguments), then pieces
  const deltas: any[][] = set.map((t, i) => {
    const pieces = t.args ? split(w, t.args, "args " + i) : [];
    const opening = w.pick(["name only", "name and empty", "name and first"], "opening " + i);
    const fn: any = { name: t.name };
    if (opening === "name and empty") fn.arguments = "";
    if (opening === "name and first") fn.arguments = pieces.shift() ?? "";
    const ix = set.length === 1 && w.bool("index left out") ? {} : { index: i };
    return [{ ...ix, id: "id" + i, type: "function", function: fn }, ...pieces.map((p) => ({ ...ix, function: { arguments: p } }))];
  });
  // order: calls one after another, or any merge of them; several deltas may share a chunk
  const seq: any[] = [];
  const pos = deltas.map(() => 0);
  for (;;) {
    const can = deltas.map((_, i) => i).filter((i) => pos[i] < deltas[i].length);
    if (!can.length) break;
    // calls open in order
    const open = can.filter((i) => pos[i] > 0 || deltas.slice(0, i).every((_, j) => pos[j] > 0));
    const i = interleave ? open[w.choose(open.length, "next call")] : can[0];
    seq.push(deltas[i][pos[i]++]);
  }
  const chunks: any[] = [];
  if (w.bool("role chunk")) chunks.push({ choices: [{ index: 0, delta: { role: "assistant", content: null } }] });
  const indexOf = (d: any) => d.index ?? 0;
  let cur: any[] = [];
  seq.forEach((d, i) => {
    cur.push(d);
    const joinable = i + 1 < seq.length && !cur.some((c) => indexOf(c) === indexOf(seq[i + 1]));
    if (!joinable || !w.bool("next delta in the same chunk")) {
      chunks.push({ choices: [{ index: 0, delta: { tool_calls: cur } }] });
      cur = [];
    }
  });
  const tail = w.pick(["none", "finish", "empty list"], "tail");
  if (tail === "finish") chunks.push({ choices: [{ index: 0, delta: {}, finish_reason: "tool_calls" }] });
  if (tail === "empty list") chunks.push({ choices: [{ index: 0, delta: { tool_calls: [] }, finish_reason: "tool_calls" }] });
  const u = withUsage(w, chunks);
  const r = await record(w, u.chunks);
  const got = parse(r.output)?.tool_calls?.map((c: any) => ({ name: c.function?.name, args: c.function?.arguments }));
  w.assert(eq(got, set), "output", () => `tool calls ${JSON.stringify(set)} recorded as ${r.output}`);
  w.assert(eq(r.usage, u.want), "usage", () => `usage ${JSON.stringify(r.usage)}`);
}

/** several choices: the recorded answer is the first one's, unmixed */
async function choices(w: World) {
  const texts = ["ab", "xy"];
  const pieces = texts.map((t, i) => split(w, t, "choice " + i));
  const pos = [0, 0], chunks: any[] = [];
  const both = w.bool("both in one chunk");
  while (pos.some((p, i) => p < pieces[i].length)) {
    const can = [0, 1].filter((i) => pos[i] < pieces[i].length);
    if (both && can.length === 2) {
      const order = w.bool("second first") ? [1, 0] : [0, 1];
      chunks.push({ choices: order.map((i) => ({ index: i, delta: { content: pieces[i][pos[i]++] } })) });
    } else {
      const i = can[w.choose(can.length, "choice")];
      chunks.push({ choices: [{ index: i, delta: { content: pieces[i][pos[i]++] } }] });
    }
  }
  const r = await record(w, chunks);
  w.assert(r.output === "ab", "output", () => `first answer "ab" recorded as ${r.output}`);
}

/** long streams: many pieces, many tool calls, usage growing with every chunk, text before tool calls */
async function large(w: World) {
  const size = w.pick([70_000, 300_000, 1_100_000], "size");
  const pieces = w.pick([1, 3, 50], "pieces");
  const kind = w.pick(["text", "completion", "tool"] as const, "kind");
  const full = Array.from({ length: pieces }, (_, i) => String.fromCharCode(97 + (i % 26)).repeat(Math.ceil(size / pieces)));
  const chunks = full.map((x, i) => (kind === "text" ? { choices: [{ index: 0, delta: { content: x } }] } : kind === "completion" ? { choices: [{ index: 0, text: x }] } : { choices: [{ index: 0, delta: { tool_calls: [{ index: 0, ...(i ? {} : { id: "c", type: "function" }), function: { ...(i ? {} : { name: "f" }), arguments: x } }] } }] }));
  const r = await record(w, chunks, undefined, 900);
  const got = kind === "tool" ? parse(r.output)?.tool_calls?.[0]?.function?.arguments : r.output;
  w.assert(got === full.join(""), "output", () => `${kind} of ${size} characters recorded as ${String(got).length} characters`);
}
async function long(w: World) {
  const n = w.pick([9, 10, 11, 12, 60, 300], "size");
  const kind = w.pick(["text", "tools in order", "tools round robin", "text then tools", "completion"] as const, "kind");
  const growing = w.bool("usage in every chunk");
  const chunks: any[] = [];
  const words = Array.from({ length: n }, (_, i) => ["w" + i, " ", "0", "\n", '"', "{", "", "null", "é😀", "\u0000"][i % 10] + (i % 10 ? "" : "."));
  const delta = (d: any) => ({ choices: [{ index: 0, delta: d }] });
  if (kind === "text" || kind === "text then tools") for (const x of words) chunks.push(delta({ content: x }));
  if (kind === "completion") for (const x of words) chunks.push({ choices: [{ index: 0, text: x }] });
  const calls = Array.from({ length: n }, (_, i) => ({ name: "f" + (i % 3), args: `{"i":${i},"s":"${"x".repeat(i % 5)}"}` }));
  if (kind.includes("tools")) {
    const open = (i: number) => delta({ tool_calls: [{ index: i, id: "c" + i, type: "function", function: { name: calls[i].name, arguments: "" } }] });
    const piece = (i: number, h: number) => delta({ tool_calls: [{ index: i, function: { arguments: h ? calls[i].args.slice(4) : calls[i].args.slice(0, 4) } }] });
    if (kind === "tools round robin") {
      for (let i = 0; i < n; i++) chunks.push(open(i));
      for (let h = 0; h < 2; h++) for (let i = 0; i < n; i++) chunks.push(piece(i, h));
    } else for (let i = 0; i < n; i++) chunks.push(open(i), piece(i, 0), piece(i, 1));
  }
  const all = growing ? chunks.map((c, i) => ({ ...c, usage: { prompt_tokens: 7, completion_tokens: i, total_tokens: 7 + i } })) : [...chunks, { choices: [], usage: { prompt_tokens: 7, completion_tokens: chunks.length - 1, total_tokens: 6 + chunks.length } }];
  const r = await record(w, all, undefined, 900);
  const last = chunks.length - 1;
  w.assert(eq(r.usage, { input: 7, output: last, total: 7 + last }), "usage", () => `usage ${JSON.stringify(r.usage)}`);
  if (kind.includes("tools")) {
    const got = parse(r.output)?.tool_calls?.map((c: any) => ({ name: c.function?.name, args: c.function?.arguments }));
    w.assert(eq(got, calls), "output", () => `${n} tool calls recorded as ${String(r.output).slice(0, 300)}`);
  } else w.assert(r.output === words.join(""), "output", () => `text of ${n} pieces recorded as ${String(r.output).slice(0, 200)}`);
}

/** responses API: the recorded generation equals the one of the same response obtained without streaming */
async function responses(w: World) {
  const final: any = {
    id: "r", model: w.pick([undefined, "resp-model"], "model"),
    ...w.pick([{ output: [] }, { output: Array.from({ length: 11 }, (_, i) => ({ type: "message", id: i })) }, { output: [{ type: "message", content: [] }], output_text: "" }, { output_text: " ", output: [{ type: "message" }] }, { output: [{ type: "message", content: [{ type: "output_text", text: "hello" }] }] }, { output: [{ type: "function_call", name: "f", arguments: "{}" }, { type: "function_call", name: "g", arguments: "1" }] }, { output_text: "hello", output: [{ type: "message" }] }], "output"),
    ...w.pick([{}, { usage: { input_tokens: 9, output_tokens: 4, total_tokens: 13 } }, { usage: { input_tokens: 0, output_tokens: 0, total_tokens: 0 } }, { usage: { input_tokens: 9, output_tokens: 4, total_tokens: 13, input_tokens_details: { cached_tokens: 2 }, output_tokens_details: { reasoning_tokens: 1 } } }], "usage"),
    ...w.pick([{}, { status: "completed", temperature: 0.3, tools: [{ type: "x" }], metadata: { k: "v" } }], "data"),
  };
  const whole = await record(w, [], Promise.resolve(final));
  const chunks: any[] = [];
  const started = { ...final, output: [], usage: null, status: "in_progress" };
  delete started.output_text;
  // a snapshot may already hold part of the answer and of the usage
  if (w.bool("partial")) Object.assign(started, { output: [{ type: "message", content: [{ type: "output_text", text: "par" }] }], output_text: "par", ...(final.usage ? { usage: { input_tokens: 9, output_tokens: 1, total_tokens: 10 } } : {}), model: final.model && "early-model" });
  if (w.bool("created")) chunks.push({ type: "response.created", response: started });
  if (w.bool("in progress")) chunks.push({ type: "response.in_progress", response: started });
  for (let i = w.choose(3, "deltas"); i > 0; i--) chunks.push({ type: "response.output_text.delta", delta: "he", item_id: "x" });
  if (w.bool("item done")) chunks.push({ type: "response.output_item.done", item: {} });
  chunks.push({ type: w.pick(["response.completed", "response.incomplete"], "last"), response: final });
  const r = await record(w, chunks);
  if (final.output.length) w.assert(eq(parse(r.output), parse(whole.output)), "output", () => `streamed ${r.output}, complete ${whole.output}`);
  w.assert(eq(r.usage, whole.usage), "usage", () => `streamed ${JSON.stringify(r.usage)}, complete ${JSON.stringify(whole.usage)}`);
  w.assert(r.model === whole.model, "model", () => `streamed ${r.model}, complete ${whole.model}`);
  for (const k of ["metadata.status", "metadata.tools", "metadata.metadata"]) if (final.status) w.assert(r.a[A + k] === whole.a[A + k], k, () => `streamed ${r.a[A + k]}, complete ${whole.a[A + k]}`);
  if (final.temperature) w.assert(parse(r.a[A + "model.parameters"])?.temperature === 0.3, "parameters", () => String(r.a[A + "model.parameters"]));
}

const def: CheckDef = {
  property: "A03",
  scenarios: (tier) => {
    const q = tier === "quick";
    const texts = q ? ["", "a", " \n", "ab\n{", "é€😀 x"] : ["", "a", " \n", "ab\n{", "é€😀 x", "null", "0", "long text!"];
    const one: Tool[][] = [[{ name: "f", args: "" }], [{ name: "f", args: "{}" }], [{ name: "get", args: q ? '{"a"}' : '{"a":"b"}' }]];
    const two: Tool[][] = [[{ name: "f", args: "{1}" }, { name: "g", args: "{2" }], [{ name: "f", args: "ab" }, { name: "f", args: "cd" }], [{ name: "f", args: "" }, { name: "g", args: "x" }]];
    const three: Tool[][] = [[{ name: "f", args: "a" }, { name: "g", args: "b" }, { name: "h", args: "c" }]];
    const out: Scenario[] = [
      { name: "chat text", run: (w) => text(w, "chat", texts) },
      { name: "completion text", run: (w) => text(w, "completion", texts) },
      { name: "one tool call", run: (w) => tools(w, one, false) },
      { name: "two tool calls in order", run: (w) => tools(w, two, false) },
      { name: "two tool calls interleaved", run: (w) => tools(w, q ? two.slice(1) : two, true) },
      { name: "three tool calls", run: (w) => tools(w, q ? three : [...three, [{ name: "f", args: "ab" }, { name: "f", args: "" }, { name: "g", args: "cd" }]], !q) },
      { name: "several choices", run: choices },
      { name: "responses API", run: responses },
      { name: "long streams", run: long },
      { name: "large answers", run: large },
    ];
    return out;
  },
  bounds: (tier) => `all splittings of texts of up to ${tier === "quick" ? 6 : 10} characters x leading/trailing chunk kinds x usage positions; all splittings and groupings into chunks of 1-3 tool calls (in order and interleaved); two choices in all merges; responses-API event sequences x output/usage shapes; streams of up to 300 pieces or tool calls with growing usage`,
  assumptions: ["an answer with tool calls is recorded as its tool calls", "of several choices the first is recorded, as for complete answers", "usage is reported by the last chunk that has a usage field, as the API specifies"],
};
export default def;
