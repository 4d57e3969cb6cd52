import type { CheckDef, Scenario, World } from "../mc/engine";
import { CallbackHandler } from "@langfuse/langchain";
import { startActiveObservation } from "@langfuse/tracing";
import { configureGlobalLogger, resetGlobalLogger, LogLevel } from "@langfuse/core";
import { BaseCallbackHandler } from "@langchain/core/callbacks/base";
import { RunnableLambda, RunnableSequence, RunnableParallel } from "@langchain/core/runnables";
import { FakeListChatModel } from "@langchain/core/utils/testing";
import { HumanMessage, AIMessage } from "@langchain/core/messages";
import { tool } from "@langchain/core/tools";
import { OFF, withTracing } from "./lib/otel";
import { spanRig, type Exported, type SpanRig } from "./lib/span";

const A = "langfuse.observation.";
const parse = (s: any) => { try { return JSON.parse(s); } catch { return s; } };
type Kind = "chain" | "llm" | "chat" | "tool" | "retriever";
const TYPE: Record<Kind, string> = { chain: "span", llm: "generation", chat: "generation", tool: "tool", retriever: "span" };
type Run = { id: string; n: number; kind: Kind; parent?: Run; open: boolean; failed?: boolean; actions: number; actionOpen: boolean };
const ser = (n: string) => ({ lc: 1, type: "not_implemented", id: ["x", n] }) as any;

/** every callback must settle without rejecting */
const driver = (w: World, h: any) => {
  return async (m: string, ...args: any[]) => {
    let p: any;
    try {
      p = h[m](...args);
    } catch (e: any) {
      w.fail("throws", `${m} threw ${e?.message}`);
    }
    let st: any;
    Promise.resolve(p).then(() => (st = "ok"), (e) => (st = e));
    await w.drain(1);
    w.assert(st === "ok", "rejects", () => `${m} ${st ? "rejected: " + String(st?.message ?? st) : "did not settle"}`);
  };
};
const startsOf = (R: SpanRig) => {
  const ids: string[] = [];
  const on = R.proc.onStart.bind(R.proc);
  R.proc.onStart = (s: any, c: any) => { ids.push(s.spanContext().spanId); return on(s, c); };
  return ids;
};
const start = (call: any, r: Run) => {
  const p = r.parent?.id, inp = "in " + r.n, name = "run " + r.n, md = { n: "n" + r.n };
  switch (r.kind) {
    case "chain": return call("handleChainStart", ser("C"), { input: inp }, r.id, p, [], md, undefined, name);
    case "llm": return call("handleLLMStart", ser("L"), [inp], r.id, p, { invocation_params: { model: "m" + r.n } }, [], md, name);
    case "chat": return call("handleChatModelStart", ser("M"), [[new HumanMessage(inp)]], r.id, p, { invocation_params: { model: "m" + r.n } }, [], md, name);
    case "tool": return call("handleToolStart", ser("T"), inp, r.id, p, [], md, name);
    case "retriever": return call("handleRetrieverStart", ser("R"), inp, r.id, p, [], md, name);
  }
};
const finish = (call: any, r: Run, err: boolean, mkErr: any = (n: number) => new Error("err " + n)) => {
  const p = r.parent?.id, e = err ? mkErr(r.n) : undefined;
  switch (r.kind) {
    case "chain": return err ? call("handleChainError", e, r.id, p) : call("handleChainEnd", { output: "out " + r.n }, r.id, p);
    case "llm": return err ? call("handleLLMError", e, r.id, p) : call("handleLLMEnd", { generations: [[{ text: "out " + r.n }]] }, r.id, p);
    case "chat": return err ? call("handleLLMError", e, r.id, p) : call("handleLLMEnd", { generations: [[{ text: "", message: new AIMessage("out " + r.n) }]] }, r.id, p);
    case "tool": return err ? call("handleToolError", e, r.id, p) : call("handleToolEnd", "out " + r.n, r.id, p);
    case "retriever": return err ? call("handleRetrieverError", e, r.id, p) : call("handleRetrieverEnd", [{ pageContent: "out " + r.n, metadata: {} }], r.id, p);
  }
};
const verify = (w: World, e: Exported, r: Run, parentId: string | undefined, traceId: string | undefined) => {
  const a = e.attributes;
  w.assert(a[A + "type"] === TYPE[r.kind], "type", () => `${r.kind} recorded as ${a[A + "type"]}`);
  w.assert(e.parent === parentId, "parent", () => `run ${r.n} (${r.kind}) has parent ${e.parent}, expected ${parentId}`);
  if (traceId) w.assert(e.trace === traceId, "trace", "a child run is in another trace");
  w.assert(JSON.stringify(a[A + "input"] ?? "").includes("in " + r.n), "input", () => `input of run ${r.n}: ${a[A + "input"]}`);
  w.assert(a[A + "metadata.n"] === "n" + r.n, "metadata", () => `metadata of run ${r.n}: ${a[A + "metadata.n"]}`);
  if (r.failed) w.assert(a[A + "level"] === "ERROR" && String(a[A + "status_message"]).includes("err " + r.n), "level", () => `failed run ${r.n}: ${a[A + "level"]} ${a[A + "status_message"]}`);
  else {
    w.assert(a[A + "level"] === undefined || a[A + "level"] === "DEFAULT", "level", () => `run ${r.n} succeeded with level ${a[A + "level"]}`);
    w.assert(a[A + "status_message"] === undefined, "level", "status message on success");
    w.assert(JSON.stringify(a[A + "output"] ?? "").includes("out " + r.n), "output", () => `output of run ${r.n}: ${a[A + "output"]}`);
  }
  if (TYPE[r.kind] === "generation") w.assert(a[A + "model.name"] === "m" + r.n, "model", () => `model of run ${r.n}: ${a[A + "model.name"]}`);
};

/** all well-formed callback sequences over at most `max` runs */
async function sequences(w: World, max: number, kinds: Kind[], o: { errors: boolean; agent: number; roots: number; outer?: boolean; handlers?: number }) {
  const R = spanRig(w);
  const started = startsOf(R);
  const handlers = Array.from({ length: o.handlers ?? 1 }, () => new CallbackHandler());
  const calls = handlers.map((h) => driver(w, h));
  const runs: (Run & { h: number })[] = [];
  let extra = 0, actionsLeft = o.agent;
  const body = async (outer?: string) => {
    for (;;) {
      const evs: { name: string; run: () => Promise<void> }[] = [];
      const open = runs.filter((r) => r.open);
      if (runs.length < max) {
        const parents: (typeof runs[0] | undefined)[] = open.filter((r) => r.kind === "chain" || r.kind === "tool");
        if (runs.filter((r) => !r.parent).length < o.roots) parents.push(undefined);
        for (const p of parents)
          for (const kind of p ? kinds : kinds)
            evs.push({
              name: `start ${kind} under ${p?.n ?? "-"}`,
              run: async () => {
                const r = { id: "id-" + runs.length, n: runs.length, kind, parent: p, open: true, actions: 0, actionOpen: false, h: p ? p.h : w.choose(handlers.length, "handler") };
                runs.push(r);
                await start(calls[r.h], r);
              },
            });
      }
      for (const r of open) {
        if (runs.some((c) => c.open && c.parent === r)) continue;
        for (const err of o.errors ? [false, true] : [false])
          evs.push({
            name: `${err ? "fail" : "end"} ${r.n}`,
            run: async () => {
              r.open = false;
              r.failed = err;
              await finish(calls[r.h], r, err);
              const e = R.exported.find((x) => x.name === "run " + r.n);
              w.assert(handlers[r.h].last_trace_id === e?.trace, "last trace id", () => `after run ${r.n} the handler reports trace ${handlers[r.h].last_trace_id}, the run is in ${e?.trace}`);
            },
          });
      }
      if (actionsLeft > 0)
        for (const r of open.filter((x) => x.kind === "chain")) {
          evs.push({ name: `action ${r.n}`, run: async () => { actionsLeft--; r.actions++; r.actionOpen = true; extra++; await calls[r.h]("handleAgentAction", { tool: "act", toolInput: "i", log: "" }, r.id, r.parent?.id); } });
          if (r.actions) evs.push({ name: `agent end ${r.n}`, run: async () => { actionsLeft--; r.actionOpen = false; await calls[r.h]("handleAgentEnd", { returnValues: { output: "fin" }, log: "" }, r.id, r.parent?.id); } });
        }
      if (!evs.length) break;
      const e = evs[w.choose(evs.length, evs.map((x) => x.name).join("|"))];
      w.obs("> " + e.name);
      await e.run();
      const mine = (r: Run) => R.exported.filter((x) => x.name === "run " + r.n);
      for (const r of runs) w.assert(mine(r).length === (r.open ? 0 : 1), "count", () => `run ${r.n} (${r.kind}, ${r.open ? "running" : "over"}) has ${mine(r).length} finished observations`);
    }
    const ids = new Map(runs.map((r) => [r, R.exported.find((e) => e.name === "run " + r.n)!]));
    for (const r of runs) verify(w, ids.get(r)!, r, r.parent ? ids.get(r.parent as any)!.id : outer, r.parent ? ids.get(r.parent as any)!.trace : undefined);
    if (!outer) {
      const roots = runs.filter((r) => !r.parent);
      w.assert(new Set(roots.map((r) => ids.get(r)!.trace)).size === roots.length, "trace", "separate runs share a trace");
    }
    const acts = R.exported.filter((e) => e.name === "act");
    w.assert(acts.length <= extra && acts.every((a) => runs.some((r) => r.actions && ids.get(r)!.id === a.parent)), "agent action", "an agent action is not under its run");
    const done = new Set(R.exported.map((e) => e.id));
    w.assert(started.filter((i) => i !== outer).every((i) => done.has(i)), "unfinished", "an observation was started and never finished");
    w.assert(R.exported.length === done.size && R.exported.length === runs.length + acts.length, "count", () => `${R.exported.length} observations for ${runs.length} runs and ${acts.length} actions`);
  };
  if (o.outer) await startActiveObservation("outer", (s: any) => body(s.id));
  else await body();
}

/** big trees: many runs with look-alike ids on one handler, over several root runs one after another */
const IDS: ((i: number) => string)[] = [
  (i) => "id-" + i,
  (i) => String(i),
  (i) => (i % 2 ? "RUN" : "run") + (i >> 1),
  (i) => "0193b1a0-0000-7000-8000-" + String(i).padStart(12, "0"),
  (i) => "x".repeat(i + 1),
  (i) => ["__proto__", "toString", "constructor", "root", "null", "undefined", "hasOwnProperty", "valueOf"][i] ?? "k" + i,
];
const ERRS: any[] = [(n: number) => new Error("err " + n), (n: number) => new TypeError("err " + n + " ü\n second line"), (n: number) => "err " + n, (n: number) => ({ toString: () => "err " + n, error: { code: 1 } }), (n: number) => Object.assign(new Error("err " + n), { name: "AbortError", status: 499 })];
async function big(w: World, shape: "wide" | "deep" | "again", size: number, huge = false) {
  const R = spanRig(w);
  const started = startsOf(R);
  const idOf = w.pick(huge ? IDS.slice(0, 1) : IDS, "ids");
  const order = w.pick(["forward", "backward", "rotated"], "order");
  const fails = w.pick([() => false, (n: number) => n % 3 === 1, () => true] as ((n: number) => boolean)[], "failures");
  const mkErr = w.pick(huge ? ERRS.slice(0, 1) : ERRS, "error");
  const call = driver(w, new CallbackHandler());
  const kinds: Kind[] = ["chain", "chat", "tool", "retriever", "llm"];
  const runs: Run[] = [];
  const go = async (kind: Kind, parent?: Run) => {
    const r: Run = { id: idOf(runs.length), n: runs.length, kind, parent, open: true, actions: 0, actionOpen: false };
    runs.push(r);
    await start(call, r);
    return r;
  };
  const over = async (r: Run) => {
    r.open = false;
    r.failed = fails(r.n);
    await finish(call, r, r.failed, mkErr);
    w.assert(R.exported.filter((e) => e.name === "run " + r.n).length === 1, "count", () => `run ${r.n} over: ${R.exported.filter((e) => e.name === "run " + r.n).length} observations`);
  };
  const arrange = (xs: Run[]) => (order === "forward" ? xs : order === "backward" ? [...xs].reverse() : [...xs.slice(3), ...xs.slice(0, 3)]);
  if (shape === "wide") {
    const root = await go("chain");
    const kids: Run[] = [];
    for (let i = 0; i < size; i++) kids.push(await go(kinds[i % kinds.length], i % 4 === 3 ? kids.find((k) => k.kind === "chain") ?? root : root));
    const ks = arrange(kids).filter((k) => !kids.some((c) => c.parent === k));
    for (const k of ks) await over(k);
    for (const k of kids) if (k.open) await over(k);
    await over(root);
  } else if (shape === "deep") {
    let at: Run | undefined;
    for (let i = 0; i < size; i++) at = await go(i % 3 === 2 ? "tool" : "chain", at);
    await go("chat", at);
    for (const r of [...runs].reverse()) await over(r);
  } else
    for (let i = 0; i < size; i++) {
      const root = await go(kinds[i % kinds.length]);
      const kids = root.kind === "chain" || root.kind === "tool" ? [await go("chain", root), await go("chat", root), await go("tool", root)] : [];
      for (const k of arrange(kids)) await over(k);
      await over(root);
    }
  await w.drain();
  const by = new Map(runs.map((r) => [r, R.exported.find((e) => e.name === "run " + r.n)!]));
  for (const r of runs) verify(w, by.get(r)!, r, r.parent ? by.get(r.parent)!.id : undefined, r.parent ? by.get(r.parent)!.trace : undefined);
  const roots = runs.filter((r) => !r.parent);
  w.assert(new Set(roots.map((r) => by.get(r)!.trace)).size === roots.length, "trace", "separate runs share a trace");
  w.assert(R.exported.length === runs.length && started.length === runs.length, "count", () => `${started.length} started and ${R.exported.length} finished observations for ${runs.length} runs`);
}

/** no callback fails when tracing is not set up or (partly) not sampled */
async function off(w: World, max: number) {
  await withTracing(w.pick(OFF, "tracing"), [], async () => {
    const call = driver(w, new CallbackHandler({ userId: "u", tags: ["t"], traceMetadata: { a: "b" } } as any));
    const runs: Run[] = [];
    for (;;) {
      const evs: { name: string; run: () => Promise<void> }[] = [];
      const open = runs.filter((r) => r.open);
      if (runs.length < max)
        for (const p of [...open.filter((r) => r.kind === "chain" || r.kind === "tool"), ...(runs.length ? [] : [undefined])])
          for (const kind of ["chain", "chat", "llm", "tool", "retriever"] as Kind[])
            evs.push({ name: `start ${kind} under ${p?.n ?? "-"}`, run: async () => { const r: Run = { id: "id-" + runs.length, n: runs.length, kind, parent: p, open: true, actions: 0, actionOpen: false }; runs.push(r); await start(call, r); } });
      for (const r of open) {
        if (r.kind === "chat" || r.kind === "llm") evs.push({ name: "token " + r.n, run: async () => { r.actions++; await call("handleLLMNewToken", "t", { prompt: 0, completion: 0 }, r.id, r.parent?.id); } });
        if (r.kind === "chain" && !r.actions) evs.push({ name: "action " + r.n, run: async () => { r.actions++; await call("handleAgentAction", { tool: "act", toolInput: "i", log: "" }, r.id, r.parent?.id); } });
        if (runs.some((c) => c.open && c.parent === r)) continue;
        for (const err of [false, true]) evs.push({ name: `${err ? "fail" : "end"} ${r.n}`, run: async () => { r.open = false; await finish(call, r, err); } });
      }
      const usable = evs.filter((e) => !(e.name.startsWith("token") && runs[+e.name.slice(6)].actions));
      if (!usable.length) break;
      const e = usable[w.choose(usable.length, usable.map((x) => x.name).join("|"))];
      w.obs("> " + e.name);
      await e.run();
    }
  });
}

/** sibling runs whose callbacks come while those of the others are being handled (LangChain runs siblings concurrently) */
async function siblings(w: World, kinds: Kind[], micro: number, logging: boolean) {
  const R = spanRig(w);
  const started = startsOf(R);
  const h: any = new CallbackHandler();
  const fire = (m: string, ...a: any[]) => {
    let p: any;
    try { p = h[m](...a); } catch (e: any) { w.fail("throws", `${m} threw ${e?.message}`); }
    return Promise.resolve(p).catch((e) => { bad = `${m} rejected: ${e}`; });
  };
  let bad: string | undefined;
  if (logging) configureGlobalLogger({ level: LogLevel.DEBUG } as any);
  const root: Run = { id: "root-run", n: 0, kind: "chain", open: true, actions: 0, actionOpen: false };
  await start(fire, root);
  const rs = kinds.map((kind, i): Run => ({ id: "s" + i, n: i + 1, kind, parent: root, open: true, actions: 0, actionOpen: false, failed: w.bool("fails") }));
  await w.system({
    microBudget: micro,
    microDepth: 3,
    threads: rs.map((r) => ({
      name: "run" + r.n,
      steps: [() => start(fire, r), ...(TYPE[r.kind] === "generation" ? [() => fire("handleLLMNewToken", "t", { prompt: 0, completion: 0 }, r.id, root.id)] : []), () => finish(fire, r, !!r.failed)],
    })),
  });
  await finish(fire, root, false);
  await w.drain();
  w.assert(!bad, "rejects", () => bad!);
  const all = [root, ...rs];
  for (const r of all) w.assert(R.exported.filter((e) => e.name === "run " + r.n).length === 1, "count", () => `run ${r.n} has ${R.exported.filter((e) => e.name === "run " + r.n).length} observations`);
  const by = (r: Run) => R.exported.find((e) => e.name === "run " + r.n)!;
  for (const r of all) verify(w, by(r), r, r.parent && by(r.parent).id, r.parent && by(r.parent).trace);
  w.assert(started.length === all.length && R.exported.length === all.length, "count", "more observations than runs");
  if (logging) resetGlobalLogger();
}

/** unusual payloads: the run is still recorded once and finished */
const cyc: any = { a: 1 };
cyc.self = cyc;
const ODD_ERR: any[] = [null, undefined, 0, "text", Symbol("s"), Object.create(null), { toString() { throw new Error("x"); } }, { error: cyc }, { error: { code: "content_filter" } }, new Error("")];
const ODD_OUT: any[] = [null, undefined, 0, "", "text", [], {}, cyc, { output: null }, { output: 5 }, { messages: null }, { messages: [null] }, { messages: [new AIMessage("x"), 5] }, { messages: [] }, new Map(), () => 1, 5n];
const ODD_IN: any[] = [null, undefined, 0, "", "text", [], {}, cyc, { input: null }, { input: [] }, { input: [null] }, { messages: [] }, { messages: [new HumanMessage("x"), null] }, { content: "c" }, { content: null }, { content: "c", more: 1 }, 5n];
const ODD_LLM: any[] = [{ generations: [] }, { generations: [[]] }, {}, { generations: null }, { generations: [[{ text: "t" }], []] }, { generations: [[{ text: null }]] }, { generations: [[{ text: "t" }]], llmOutput: null }, { generations: [[{ text: "t" }]], llmOutput: { tokenUsage: {} } }, { generations: [[{ text: "t" }]], llmOutput: { tokenUsage: null } }, { generations: [[{ text: "t", generationInfo: null }]] }, { generations: [[{ text: "t", message: new HumanMessage("x") }]] }, { generations: [[{ text: "t", message: new AIMessage({ content: [{ type: "text", text: "x" }], usage_metadata: undefined }) }]] }];
const ODD_EXTRA: any[] = [undefined, null, {}, { invocation_params: undefined }, { invocation_params: null }, { invocation_params: {} }, { invocation_params: { tools: [], tool_choice: null, model: null } }, { invocation_params: "x" }, { options: {} }];
const ODD_META: any[] = [undefined, {}, { langfusePrompt: null }, { langfusePrompt: "x", langfuseUserId: 5, langfuseSessionId: null }, { ls_model_name: null }, { k: cyc }];
const ODD_SER: any[] = [undefined, null, {}, { id: [] }, { id: null }, { id: ["a"] }];
async function odd(w: World, kind: Kind, part: "start" | "end" | "error") {
  const R = spanRig(w);
  const started = startsOf(R);
  const h = new CallbackHandler(w.pick([undefined, {}, { userId: "u", sessionId: "s", tags: ["t"], version: "v", traceMetadata: { a: 1, b: undefined, c: null } }, { traceMetadata: { a: cyc, b: 10n, c: "ok" } }] as any[], "handler"));
  const call = driver(w, h);
  const root = w.bool("under a parent");
  if (root) await call("handleChainStart", ser("P"), { input: "x" }, "p", undefined, [], {}, undefined, "parent");
  const p = root ? "p" : undefined;
  const s = part === "start" ? w.pick(ODD_SER, "serialized") : ser("S");
  const md = part === "start" ? w.pick(ODD_META, "metadata") : {};
  const tags = part === "start" ? w.pick([undefined, [], ["a", "langsmith:hidden"]], "tags") : [];
  const name = part === "start" ? w.pick([undefined, "named"], "name") : "named";
  const input = part === "start" && kind !== "llm" && kind !== "chat" ? w.pick(ODD_IN, "input") : "in";
  const extra = part === "start" && kind !== "chain" && kind !== "tool" && kind !== "retriever" ? w.pick(ODD_EXTRA, "extra") : undefined;
  if (kind === "chain") await call("handleChainStart", s, input, "r", p, tags, md, undefined, name);
  if (kind === "llm") await call("handleLLMStart", s, part === "start" ? w.pick([[], ["x"], [null]], "prompts") : ["x"], "r", p, extra, tags, md, name);
  if (kind === "chat") await call("handleChatModelStart", s, part === "start" ? w.pick([[], [[]], [[new HumanMessage("x")], [new AIMessage("y")]], [[new HumanMessage({ content: [] as any })]]], "messages") : [[]], "r", p, extra, tags, md, name);
  if (kind === "tool") await call("handleToolStart", s, input, "r", p, tags, md, name);
  if (kind === "retriever") await call("handleRetrieverStart", s, input, "r", p, tags, md, name);
  if ((kind === "llm" || kind === "chat") && part !== "start" && w.bool("token")) await call("handleLLMNewToken", "t", { prompt: 0, completion: 0 }, "r", p);
  const before = R.exported.length;
  w.assert(before === 0, "count", "finished too early");
  const end: Record<Kind, string> = { chain: "Chain", llm: "LLM", chat: "LLM", tool: "Tool", retriever: "Retriever" };
  if (part === "error") {
    const e = w.pick(ODD_ERR, "error");
    await call(`handle${end[kind]}Error`, e, "r", p);
  } else await call(`handle${end[kind]}End`, part === "end" ? (kind === "llm" || kind === "chat" ? w.pick(ODD_LLM, "output") : w.pick(ODD_OUT, "output")) : kind === "llm" || kind === "chat" ? { generations: [[{ text: "t" }]] } : "x", "r", p);
  w.assert(R.exported.length === 1, "count", () => `${R.exported.length} finished observations after the run was over`);
  const a = R.exported[0].attributes;
  w.assert((a[A + "level"] === "ERROR") === (part === "error"), "level", () => `level ${a[A + "level"]}`);
  if (root) await call("handleChainEnd", { output: "x" }, "p");
  await w.drain(1);
  w.assert(R.exported.length === (root ? 2 : 1) && started.length === R.exported.length, "count", () => `${started.length} started, ${R.exported.length} finished`);
  if (root) w.assert(R.exported[0].parent === R.exported[1].id, "parent", "wrong parent");
}

/** callbacks for runs the handler does not know */
async function unknown(w: World) {
  const R = spanRig(w);
  const call = driver(w, new CallbackHandler());
  await call("handleChainStart", ser("C"), { input: "x" }, "known", undefined, [], {}, undefined, "known");
  for (let i = 0; i < 2; i++) {
    const m = w.pick(["handleChainEnd", "handleChainError", "handleLLMEnd", "handleLLMError", "handleToolEnd", "handleToolError", "handleRetrieverEnd", "handleRetrieverError", "handleAgentEnd", "handleLLMNewToken"], "callback");
    const id = w.pick(["other", "", undefined, "__proto__", "constructor"], "id");
    if (m === "handleLLMNewToken") await call(m, "t", {}, id);
    else await call(m, m === "handleLLMEnd" ? { generations: [[{ text: "x" }]] } : m.endsWith("Error") ? new Error("x") : { output: "x" }, id, "known");
    w.assert(R.exported.length === 0, "count", "a callback for an unknown run finished an observation");
  }
  await call("handleChainEnd", { output: "x" }, "known");
  w.assert(R.exported.length === 1 && R.exported[0].attributes[A + "level"] !== "ERROR", "count", "the known run is not recorded properly");
}

/** real LangChain programs: expressions of lambdas, models, tools, sequences and parallels; the runs LangChain reports are the oracle */
class Oracle extends BaseCallbackHandler {
  name = "oracle";
  awaitHandlers = true;
  runs = new Map<string, { name?: string; parent?: string; kind: string; end?: "ok" | "err"; n: number }>();
  private s(kind: string) { return (id: string, parent: any, name?: string) => this.runs.set(id, { kind, parent, name, n: 0 }); }
  private e(id: string, how: "ok" | "err") { const r = this.runs.get(id)!; r.end = how; r.n++; }
  handleChainStart(_c: any, _i: any, id: string, p?: string, _t?: any, _m?: any, _rt?: any, name?: string) { this.s("span")(id, p, name); }
  handleChainEnd(_o: any, id: string) { this.e(id, "ok"); }
  handleChainError(_o: any, id: string) { this.e(id, "err"); }
  handleChatModelStart(_l: any, _m: any, id: string, p?: string, _e?: any, _t?: any, _md?: any, name?: string) { this.s("generation")(id, p, name); }
  handleLLMEnd(_o: any, id: string) { this.e(id, "ok"); }
  handleLLMError(_o: any, id: string) { this.e(id, "err"); }
  handleToolStart(_c: any, _i: any, id: string, p?: string, _t?: any, _m?: any, name?: string) { this.s("tool")(id, p, name); }
  handleToolEnd(_o: any, id: string) { this.e(id, "ok"); }
  handleToolError(_o: any, id: string) { this.e(id, "err"); }
}
async function real(w: World, depth: number) {
  w.env({ LANGCHAIN_CALLBACKS_BACKGROUND: "false", LANGCHAIN_TRACING_V2: undefined, LANGSMITH_TRACING: undefined });
  const R = spanRig(w);
  const gates: (() => void)[] = [];
  let n = 0;
  const build = (d: number): any => {
    const k = w.pick(d <= 1 ? (["ok", "fail", "slow", "model", "tool"] as const) : (["ok", "model", "sequence", "parallel"] as const), "node");
    const name = k + n++;
    switch (k) {
      case "ok": return RunnableLambda.from(async (x: any) => "v").withConfig({ runName: name });
      case "fail": return RunnableLambda.from(async () => { throw new Error("boom " + name); }).withConfig({ runName: name });
      case "slow": return RunnableLambda.from((x: any) => new Promise((r) => gates.push(() => r("s")))).withConfig({ runName: name });
      case "model": return RunnableSequence.from([RunnableLambda.from(() => "q").withConfig({ runName: name + "q" }), new FakeListChatModel({ responses: ["a"] }), RunnableLambda.from(() => "r").withConfig({ runName: name + "r" })]).withConfig({ runName: name });
      case "tool": return RunnableSequence.from([RunnableLambda.from(() => ({ x: 1 })).withConfig({ runName: name + "i" }), tool(async () => "t", { name: "tl" + name, schema: { type: "object", properties: {} } as any })]).withConfig({ runName: name });
      case "sequence": return RunnableSequence.from([build(d - 1), build(d - 1)]).withConfig({ runName: name });
      case "parallel": return RunnableParallel.from({ a: build(d - 1), b: build(d - 1) }).withConfig({ runName: name });
    }
  };
  const prog = build(depth);
  const oracle = new Oracle();
  const h = new CallbackHandler();
  (h as any).awaitHandlers = true;
  let st: any;
  Promise.resolve(prog.invoke("in", { callbacks: [h, oracle] })).then((v) => (st = { v }), (e) => (st = { e }));
  for (let i = 0; i < 60; i++) {
    await w.drain(1);
    if (gates.length) {
      const g = gates.splice(w.choose(gates.length, "gate"), 1)[0];
      g();
    } else if (st && i > 3) break;
    else if (w.nextTimer()) await w.fireNext();
  }
  await w.drain();
  w.assert(st, "stuck", "program did not finish");
  const over = [...oracle.runs.values()].filter((r) => r.end);
  w.assert(R.exported.length === over.length, "count", () => `${R.exported.length} finished observations for ${over.length} finished runs`);
  // match the trees by shape: name path
  const path = (id: string | undefined): string => { const r = id ? oracle.runs.get(id) : undefined; return r ? path(r.parent) + "/" + r.kind : ""; };
  const epath = (e: Exported | undefined): string => (e ? epath(R.exported.find((x) => x.id === e.parent)) + "/" + e.attributes[A + "type"] : "");
  const want = [...oracle.runs.entries()].filter(([, r]) => r.end).map(([id, r]) => path(id) + ":" + r.end).sort();
  const got = R.exported.map((e) => epath(e) + ":" + (e.attributes[A + "level"] === "ERROR" ? "err" : "ok")).sort();
  w.assert(JSON.stringify(want) === JSON.stringify(got), "tree", () => `recorded ${got.join(" ")}; LangChain ran ${want.join(" ")}`);
  w.assert(new Set(R.exported.map((e) => e.trace)).size === 1, "trace", "one program, several traces");
}

const def: CheckDef = {
  property: "L01",
  scenarios: (tier) => {
    const q = tier === "quick";
    const all: Kind[] = ["chain", "llm", "chat", "tool", "retriever"];
    const out: Scenario[] = [
      { name: "one run", run: (w) => sequences(w, 1, all, { errors: true, agent: 3, roots: 1 }) },
      { name: "two runs", run: (w) => sequences(w, 2, all, { errors: true, agent: 2, roots: 2 }) },
      { name: "two runs in an active observation", run: (w) => sequences(w, 2, all, { errors: true, agent: 0, roots: 2, outer: true }) },
      { name: "three runs", run: (w) => sequences(w, 3, all, { errors: true, agent: 0, roots: 2 }) },
      { name: "three runs with an agent", run: (w) => sequences(w, 3, ["chain", "tool"], { errors: false, agent: q ? 2 : 3, roots: 1 }) },
      { name: "four runs", run: (w) => sequences(w, 4, q ? ["chain", "chat"] : ["chain", "chat", "tool"], { errors: true, agent: 0, roots: 2 }) },
      { name: "two handlers", run: (w) => sequences(w, 3, ["chain", "llm"], { errors: false, agent: 0, roots: 2, handlers: 2 }) },
      { name: "unknown runs", run: unknown },
      { name: "1100 open runs", run: (w) => big(w, "wide", 1_100, true) },
      ...(["wide", "deep", "again"] as const).map((k) => ({ name: `big ${k}`, run: (w: World) => big(w, k, q ? 14 : 40) })),
      ...([["chain", "chat"], ["tool", "llm"], ["retriever", "chain"], ["chat", "llm"], ["chat", "chat", "tool"]] as Kind[][]).map((ks) => ({ name: `siblings ${ks.join()}`, run: (w: World) => siblings(w, ks, ks.length > 2 ? (q ? 0 : 1) : 2, false) })),
      { name: "siblings with debug logging", run: (w) => siblings(w, ["chat", "tool"], 1, true) },
      { name: "real LangChain depth 1", run: (w) => real(w, 1) },
      { name: "real LangChain depth 2", run: (w) => real(w, 2) },
    ];
    if (!q) out.push({ name: "real LangChain depth 3", run: (w) => real(w, 3) });
    for (const k of all) for (const part of ["start", "end", "error"] as const) out.push({ name: `unusual ${part} of ${k}`, run: (w) => odd(w, k, part) });
    out.push({ name: "tracing off", run: (w) => off(w, tier === "quick" ? 2 : 3) });
    return out;
  },
  bounds: (tier) => `all well-formed callback sequences over up to ${tier === "quick" ? "3 runs of 5 kinds (4 runs of 2 kinds)" : "4 runs of 3 kinds and 3 of 5 kinds"}, with failures, agent actions, trees of 14 (thorough 40) runs wide, deep or one after another with 6 id schemes and 5 error shapes, concurrent siblings with micro-preemption, an enclosing active observation, two handlers; ${ODD_ERR.length} unusual errors, ${ODD_OUT.length + ODD_LLM.length} outputs, ${ODD_IN.length} inputs; real LangChain expressions of depth ${tier === "quick" ? 2 : 3} with failing, slow, model and tool nodes`,
  assumptions: ["well-formed: a run's callbacks come after its parent's start and before its parent's end, each run has one end or error callback", "agent actions may be recorded as observations of their own below the agent's run"],
};
export default def;
