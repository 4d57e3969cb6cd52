import type { CheckDef, Scenario, World } from "../mc/engine";
import { observeOpenAI } from "@langfuse/openai";
import OpenAI from "openai";
import { spanRig } from "./lib/span";
import { withTracing, OFF, type Tracing } from "./lib/otel";
import { ApiPromise, FakeStream, Page, PagePromise, PATHS, client, invoke, settle } from "./lib/openai";

const cyc: any = { choices: [] };
cyc.self = cyc;
const hostile: any = { get usage() { throw new Error("getter"); } };
const RESPONSES: any[] = [
  undefined, null, 0, "", "text", true, [], {}, Symbol.for("r"), 5n, cyc, hostile, Object.create(null), Object.freeze({ choices: [] }), () => 1, new Date(0), new Map([[1, 2]]),
  { choices: [] }, { choices: [null] }, { choices: ["x"] }, { choices: [{}] }, { choices: [{ message: null }] }, { choices: [{ message: { role: "assistant", content: "hi" } }], usage: { prompt_tokens: 1, completion_tokens: 2, total_tokens: 3 } },
  { choices: [{ text: "t" }], usage: null }, { choices: null }, { choices: [{ message: { content: null, tool_calls: [] } }], usage: { prompt_tokens: null } }, { choices: [{ text: null }], usage: "none" },
  { output_text: "", output: [] }, { output_text: "o", output: [{ type: "message" }], usage: { input_tokens: 1, output_tokens: 2, total_tokens: 3, input_tokens_details: null } }, { output: "x" }, { output: null, model: 5 }, { model: null, usage: { input_tokens: 1, output_tokens: 2, total_tokens: 3, output_tokens_details: { x: "y" } } }, { metadata: cyc, tools: cyc, error: cyc }, { data: [{ embedding: [1] }] },
];
const ERRORS: any[] = [new Error("boom"), new TypeError(""), "text", undefined, null, 0, Symbol.for("e"), Object.create(null), { toString() { throw new Error("no"); } }, { status: 429 }, Object.freeze(new Error("frozen"))];
const CHUNKS: any[] = [
  undefined, null, 0, "s", {}, { choices: [] }, { choices: null }, { choices: [null] }, { choices: [{}] }, { choices: [{ delta: null }] }, { choices: [{ delta: {} }] }, { choices: [{ delta: { content: "a" }, index: 0 }] }, { choices: [{ delta: { content: null, tool_calls: [] } }] },
  { choices: [{ delta: { tool_calls: [{ index: 0, function: { name: "f", arguments: "{" } }] } }] }, { choices: [{ delta: { tool_calls: [null] } }] }, { choices: [{ delta: { tool_calls: "x" } }] }, { choices: [{ text: "t" }] }, { choices: [{ text: null }] }, { choices: [], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } }, { usage: null }, { usage: "x" }, { usage: 5, choices: [{ delta: { content: {} } }] },
  { response: null }, { response: {} }, { response: { output: [] } }, { response: { output: [1, 2], usage: { input_tokens: 1 } } }, { response: { choices: [] } }, { type: "response.completed", response: { output_text: "x", model: "m" } }, hostile, cyc, Object.freeze({ choices: [{ delta: { content: "fz" } }] }), { get response() { throw new Error("getter"); } }, { choices: { 0: 1 } },
];
const ARGS: any[][] = [[], [undefined], [null], ["id"], [5, "x"], [{}], [{ model: "m", messages: [{ role: "user", content: "q" }], stream: true }, { headers: {} }], [{ messages: null, tools: 1 }], [cyc], [[1]], [Object.freeze({ model: 5, input: null, response_format: cyc })], [() => 1], [Symbol.for("a")], [{ input: 0n }], [Object.create(null)]];
const CONFIGS: any[] = [undefined, {}, { generationName: "g", traceName: "t", userId: "u", sessionId: "s", tags: ["a"], generationMetadata: { k: 1 }, langfusePrompt: { name: "p", version: 1, isFallback: false } }, { userId: 5, tags: [5, "x".repeat(300)], sessionId: "x".repeat(300), generationMetadata: cyc, langfusePrompt: {} }, { tags: [], langfusePrompt: { name: "p", version: 1, isFallback: true }, parentSpanContext: { traceId: "1".repeat(32), spanId: "2".repeat(16), traceFlags: 1 } }];
const KINDS = ["value", "throw", "promise", "reject", "api", "api reject", "page"] as const;

type Log = any[];
const same = (a: Log, b: Log) => a.length === b.length && a.every((x, i) => Object.is(x, b[i]));
const show = (l: Log) => l.map((x) => { try { return typeof x === "string" ? x : typeof x === "object" ? (x?.message ?? JSON.stringify(x)) : String(x); } catch { return typeof x; } }).join(" ");
/** runs the same caller against the plain and against the wrapped client; everything the caller sees must be the same */
let wrapping: "once" | "twice" | Tracing = "once";
async function differ(w: World, cfg: any, program: (wrap: (c: any) => any, log: Log) => Promise<void>) {
  spanRig(w);
  if (wrapping === "twice") {
    const a: Log = [], b: Log = [];
    await program((c) => c, a);
    await program((c) => observeOpenAI(observeOpenAI(c, cfg), cfg), b);
    w.assert(same(a, b), "differs", () => `caller saw with the wrapper applied twice: ${show(b)}; without: ${show(a)}`);
    return;
  }
  if (wrapping !== "once") {
    const a: Log = [], b: Log = [], mode = wrapping;
    await program((c) => c, a);
    await withTracing(mode, [], () => program((c) => observeOpenAI(c, cfg), b));
    w.assert(same(a, b), "differs", () => `caller saw with the wrapper (${mode}): ${show(b)}; without: ${show(a)}`);
    return;
  }
  const plain: Log = [], traced: Log = [];
  await program((c) => c, plain);
  await program((c) => observeOpenAI(c, cfg), traced);
  w.assert(same(plain, traced), "differs", () => `caller saw with the wrapper: ${show(traced)}; without: ${show(plain)}`);
}

async function calls(w: World, path: string, group: "results" | "arguments") {
  const kind = w.pick(KINDS, "kind");
  const fails = kind === "throw" || kind.endsWith("reject");
  const value = group === "arguments" ? (fails ? ERRORS[0] : RESPONSES[22]) : w.pick(fails ? ERRORS : RESPONSES, "value");
  const args = group === "arguments" ? w.pick(ARGS, "args") : [{ model: "m", messages: [] }];
  const cfg = w.pick(group === "arguments" ? CONFIGS : CONFIGS.slice(0, 3), "config");
  const use = kind === "page" ? w.pick(["await", "iterate", "members"], "use of page") : kind.startsWith("api") ? (group === "results" ? "await" : w.pick(["await", "with response", "raw"], "use of api promise")) : "await";
  await differ(w, cfg, async (wrap, log) => {
    const page = new Page([value]);
    const original = client((self, p, a) => {
      log.push("call", p, a.length, ...a, self === null || Object.getPrototypeOf(self) !== Object.prototype);
      switch (kind) {
        case "value": return value;
        case "throw": throw value;
        case "promise": return Promise.resolve(value);
        case "reject": return Promise.reject(value);
        case "api": return new ApiPromise((r) => r(value));
        case "api reject": return new ApiPromise((_, r) => r(value));
        case "page": return new PagePromise((r) => r(page));
      }
    });
    const c = wrap(original);
    let r: any;
    try {
      r = invoke(c, path, args);
    } catch (e) {
      log.push("threw", e);
      return;
    }
    log.push(r instanceof Promise);
    if (r && typeof r === "object" && kind !== "value") log.push(r.constructor);
    if (!(r instanceof Promise)) {
      log.push("returned", r);
      return;
    }
    if (use === "iterate") {
      const got = await settle(w, (async () => { for await (const x of r as any) log.push("item", x); })());
      log.push(got?.ok);
    } else if (use === "with response") {
      const got = await settle(w, (r as any).withResponse());
      log.push(got?.ok, got?.ok ? got.v.data : got?.v, got?.ok ? got.v.response : 0);
    } else if (use === "raw") {
      log.push((r as any).asResponse());
      await settle(w, r);
    } else {
      const got = await settle(w, r);
      log.push(got?.ok, got?.v === page ? "the page" : got?.v);
      if (use === "members") log.push(got!.v.getPaginatedItems()[0], got!.v instanceof Page);
      const again = await settle(w, r.then((x: any) => x).finally(() => log.push("finally")));
      log.push(again?.ok, again?.v === page ? "the page" : again?.v);
    }
  });
}

type Stop = { how: "end" | "break" | "throw" | "return" | "manual" | "throw into"; at: number };
async function streams(w: World, len: number, form: string, alphabet: any[], stops: Stop["how"][]) {
  const chunks = Array.from({ length: len }, (_, i) => w.pick(alphabet, "chunk " + i));
  const failAt = w.choose(len + 2, "source fails at (last: never)");
  const error = failAt <= len ? w.pick(alphabet === CHUNKS ? [ERRORS[0]] : ERRORS, "error") : undefined;
  const how = w.pick(stops, "consumer");
  const at = how === "end" ? 0 : w.choose(len + 1, "stops at");
  const stopErr = new Error("consumer");
  const cleanup = w.pick(alphabet === CHUNKS ? ["ok"] : ["ok", "none", "fails"], "source cleanup");
  await differ(w, w.pick(CONFIGS.slice(0, 2), "config"), async (wrap, log) => {
    const make = () => {
      let i = 0;
      const it: any = {
        async next() {
          if (i === failAt) { i = 1e9; throw error; }
          if (i >= len) return { done: true, value: undefined };
          return { done: false, value: chunks[i++] };
        },
        async return(v: any) {
          log.push("source closed");
          if (cleanup === "fails") throw new Error("cleanup") && ERRORS[1];
          return { done: true, value: v };
        },
      };
      if (cleanup === "none") delete it.return;
      return it;
    };
    const c = wrap(client(() => {
      const s = new FakeStream(make);
      if (form === "direct") return s;
      if (form === "api") return new ApiPromise((r) => r(s));
      return Promise.resolve(s);
    }));
    let s: any = invoke(c, "chat.completions.create", [{ model: "m", stream: true }]);
    if (form !== "direct") s = (await settle(w, s))!.v;
    log.push(typeof s[Symbol.asyncIterator], s instanceof FakeStream, s.constructor, Object.getPrototypeOf(s), s.describe(), s.controller.aborted);
    const consume = async () => {
      if (how === "end" || how === "break" || how === "throw") {
        let n = 0;
        for await (const x of s) {
          log.push("chunk", x);
          if (how !== "end" && n === at) {
            if (how === "break") break;
            throw stopErr;
          }
          n++;
        }
        return "loop over";
      }
      const it = s[Symbol.asyncIterator]();
      for (let n = 0; n <= at; n++) {
        const r = await it.next();
        log.push("next", r.done, r.value);
        if (r.done) return "over";
      }
      if (how === "return" && it.return) await it.return();
      const r = how === "manual" ? await it.next() : undefined;
      if (r) log.push("next", r.done, r.value);
      return "done";
    };
    const got = await settle(w, consume());
    log.push(got?.ok, got?.v);
  });
}

async function properties(w: World) {
  const values: any[] = [undefined, null, 0, "", "x", true, 5n, Symbol.for("p"), [1, 2], new Date(5)];
  const v = w.pick(values, "value");
  const how = w.pick(["own", "getter", "private getter", "prototype", "nested", "frozen", "size"], "kind");
  await differ(w, w.pick(CONFIGS, "config"), async (wrap, log) => {
    let reads = 0;
    class R { #v = v; get p() { reads++; return this.#v; } }
    const o: any = how === "own" ? { p: v } : how === "getter" ? { get p() { reads++; return v; } } : how === "private getter" ? new R() : how === "prototype" ? Object.create({ p: v }) : how === "nested" ? { a: { b: { p: v } } } : how === "frozen" ? { p: v } : { m: new Map([[1, v]]) };
    const c = wrap(o);
    const got = how === "nested" ? c.a.b.p : how === "size" ? c.m.size : c.p;
    log.push(got, reads, "p" in c, Object.keys(c).join());
    c.q = v;
    log.push(o.q, c.q);
  });
}

/** the real OpenAI SDK in front of a scripted server */
async function sdk(w: World) {
  const use = w.pick(["create", "create withResponse", "create asResponse", "stream", "stream break", "stream tee", "stream readable", "stream withResponse", "responses", "responses stream", "list data", "list iterate", "list next page", "embeddings", "helper stream", "parse", "withOptions", "error"], "use");
  const status = w.pick([200, 400, 500], "status");
  const cfg = w.pick(CONFIGS.slice(0, 3), "config");
  const sse = (xs: any[]) => xs.map((x) => `data: ${typeof x === "string" ? x : JSON.stringify(x)}\n\n`).join("");
  const chunk = (i: number, d: any, f: any = null) => ({ id: "c", object: "chat.completion.chunk", created: 1, model: "m", choices: [{ index: 0, delta: d, finish_reason: f }] });
  await differ(w, cfg, async (wrap, log) => {
    const fetchStub = async (url: any, init: any) => {
      const u = new URL(String(url));
      log.push("request", init.method ?? "get", u.pathname + u.search, init.body ?? "");
      if (status !== 200) return new Response(JSON.stringify({ error: { message: "bad", type: "t" } }), { status, headers: { "content-type": "application/json" } });
      const b = init.body ? JSON.parse(init.body) : {};
      if (b.stream && u.pathname.endsWith("/responses")) return new Response(sse([{ type: "response.created", response: { id: "r", output: [] } }, { type: "response.output_text.delta", delta: "x" }, { type: "response.completed", response: { id: "r", output: [{ type: "message" }] } }]), { status: 200, headers: { "content-type": "text/event-stream" } });
      if (b.stream) return new Response(sse([chunk(0, { role: "assistant", content: "a" }), chunk(1, { content: "b" }), chunk(2, {}, "stop"), "[DONE]"]), { status: 200, headers: { "content-type": "text/event-stream" } });
      const body = u.pathname.endsWith("/models") ? { object: "list", data: [{ id: "m1" }, { id: "m2" }] } : u.pathname.endsWith("/embeddings") ? { data: [{ embedding: [1, 2], index: 0 }], usage: { prompt_tokens: 1, total_tokens: 1 } } : u.pathname.endsWith("/responses") ? { id: "r", output: [{ type: "message", content: [{ type: "output_text", text: "z" }] }], usage: { input_tokens: 1, output_tokens: 1, total_tokens: 2 } } : { id: "c", choices: [{ index: 0, message: { role: "assistant", content: "{}" }, finish_reason: "stop" }], usage: { prompt_tokens: 1, completion_tokens: 1, total_tokens: 2 } };
      return new Response(JSON.stringify(body), { status: 200, headers: { "content-type": "application/json" } });
    };
    const c = wrap(new OpenAI({ apiKey: "k", fetch: fetchStub as any, maxRetries: 0, baseURL: "http://ai/v1" }));
    const J = (x: any) => log.push(JSON.stringify(x));
    const req = { model: "m", messages: [{ role: "user" as const, content: "q" }] };
    const go = async () => {
      switch (use) {
        case "create": case "error": J(await c.chat.completions.create(req)); break;
        case "create withResponse": { const r = await c.chat.completions.create(req).withResponse(); J(r.data); J(r.response.status); break; }
        case "create asResponse": J((await c.chat.completions.create(req).asResponse()).status); break;
        case "stream": for await (const x of await c.chat.completions.create({ ...req, stream: true })) J(x); break;
        case "stream break": { const s = await c.chat.completions.create({ ...req, stream: true }); for await (const x of s) { J(x); break; } J(s.controller.signal.aborted); break; }
        case "stream tee": { const [l, r] = (await c.chat.completions.create({ ...req, stream: true })).tee(); for await (const x of l) J(x); for await (const x of r) J(x); break; }
        case "stream readable": { const s = await c.chat.completions.create({ ...req, stream: true }); log.push(await new Response(s.toReadableStream()).text()); break; }
        case "stream withResponse": { const r = await c.chat.completions.create({ ...req, stream: true }).withResponse(); J(r.response.status); for await (const x of r.data) J(x); break; }
        case "responses": { const r = await c.responses.create({ model: "m", input: "q" }); J(r); log.push(r.output_text); break; }
        case "responses stream": for await (const x of await c.responses.create({ model: "m", input: "q", stream: true })) J(x); break;
        case "list data": { const p = await c.models.list(); J(p.data); J(p.hasNextPage()); break; }
        case "list iterate": for await (const m of c.models.list()) J(m); break;
        case "list next page": { const p = await c.models.list(); for await (const m of p) J(m); J(p.getPaginatedItems().length); break; }
        case "embeddings": J(await c.embeddings.create({ model: "m", input: "q" })); break;
        case "helper stream": { const s = c.chat.completions.stream({ ...req }); const seen: string[] = []; for await (const x of s) seen.push(JSON.stringify(x)); log.push(seen.join(), await s.finalContent()); break; }
        case "parse": J((await c.chat.completions.parse(req)).choices); break;
        case "withOptions": J(await c.withOptions({ timeout: 5 }).chat.completions.create(req)); break;
      }
      return "ok";
    };
    let st: any;
    go().then((v) => (st = ["ok", v]), (e) => (st = ["rejected", e?.constructor?.name, e?.status, e?.message]));
    for (let i = 0; i < 60 && !st; i++) await w.drain(1);
    log.push(...(st ?? ["pending"]));
  });
}

const def: CheckDef = {
  property: "A01",
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [];
    for (const p of PATHS) {
      out.push({ name: `results ${p}`, run: (w) => calls(w, p, "results") });
      out.push({ name: `arguments ${p}`, run: (w) => calls(w, p, "arguments") });
    }
    const few = [CHUNKS[11], CHUNKS[13], CHUNKS[5], CHUNKS[18]];
    for (const form of ["direct", "promise", "api"]) {
      out.push({ name: `odd chunks ${form}`, run: (w) => streams(w, 1, form, CHUNKS, ["end", "break", "throw", "return", "manual"]) });
      if (form === "promise" || !q) out.push({ name: `odd chunk pairs ${form}`, run: (w) => streams(w, 2, form, CHUNKS, ["end", "break"]) });
      for (let n = 0; n <= (q ? 2 : 4); n++) out.push({ name: `interrupted streams ${form} len=${n}`, run: (w) => streams(w, n, form, few.slice(0, n > 2 ? 2 : 4), ["end", "break", "throw", "return", "manual"]) });
    }
    const as = (run: (w: World) => Promise<void>) => async (w: World) => {
      wrapping = w.pick<any>(["twice", ...OFF], "wrapping");
      try {
        await run(w);
      } finally {
        wrapping = "once";
      }
    };
    out.push({ name: "wrapped twice or not traced: calls", run: as((w) => calls(w, PATHS[0], "results")) }, { name: "wrapped twice or not traced: arguments", run: as((w) => calls(w, PATHS[0], "arguments")) });
    for (const form of ["direct", "promise", "api"]) out.push({ name: `wrapped twice or not traced: streams ${form}`, run: as((w) => streams(w, 1, form, few, ["end", "break", "throw", "return", "manual"])) });
    out.push({ name: "wrapped twice or not traced: properties", run: as(properties) }, { name: "wrapped twice or not traced: real SDK", run: as(sdk) });
    out.push({ name: "properties", run: properties });
    out.push({ name: "real OpenAI SDK", run: sdk });
    return out;
  },
  bounds: (tier) => `4 method paths x 7 result forms x ${RESPONSES.length} response values / ${ERRORS.length} errors x 3 configurations; x ${ARGS.length} argument lists x 5 configurations; streams of up to ${tier === "quick" ? 2 : 4} chunks from an alphabet of ${CHUNKS.length} x source failure position x 5 ways to consume x stop position x source cleanup behaviour; 18 uses of the real OpenAI SDK x 3 statuses`,
  assumptions: ["oracle: the same caller program run against the unwrapped client", "results that are objects with their own tracing-relevant identity (streams, promise subclasses) are compared by use (awaiting, iterating, members), not by identity"],
};
export default def;
