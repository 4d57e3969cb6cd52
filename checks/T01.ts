import type { CheckDef, Scenario, World } from "../mc/engine";
import { startObservation, startActiveObservation, observe, getActiveSpanId, getActiveTraceId, propagateAttributes, updateActiveObservation } from "@langfuse/tracing";
import { context, trace, propagation, ROOT_CONTEXT, withTracing, OFF } from "./lib/otel";
import { ENV0 } from "./lib/prompt";
import { spanRig, type SpanRig, type Exported } from "./lib/span";

const TYPES = ["span", "generation", "event", "embedding", "agent", "tool", "chain", "retriever", "evaluator", "guardrail"] as const;
class SubPromise<T> extends Promise<T> {}
class OddError extends Error {
  constructor() {
    super("odd");
    this.name = "Odd";
  }
}
const cyc: any = { a: 1 };
cyc.self = cyc;
const VALUES: (() => any)[] = [() => undefined, () => null, () => 0, () => "", () => "text", () => ({ a: 1 }), () => cyc, () => () => 1, () => Symbol("s"), () => 10n, () => new Date(0), () => [1, 2], () => ({ toJSON() { throw new Error("no json"); } }), () => Object.freeze({ z: 1 }), () => new Proxy({}, {}), () => ({ then: 5 })];
const ERRORS: (() => any)[] = [() => new Error("boom"), () => new Error(""), () => new OddError(), () => "text", () => undefined, () => null, () => 0, () => ({ code: 1 }), () => Object.create(null), () => Symbol("e"), () => ({ toString() { throw new Error("nested"); } }), () => new AggregateError([new Error("x")], "agg"), () => new TypeError("type"), () => new DOMException("gone", "AbortError")];

type Api = "active" | "observe";
type Shape = "sync" | "throw" | "resolve" | "reject" | "late resolve" | "late reject" | "subclass" | "returned promise";

const failedWith = (e: Exported): string | undefined => {
  if (e.attributes["langfuse.observation.level"] === "ERROR") return String(e.attributes["langfuse.observation.status_message"]);
  if (e.status?.code === 2) return String(e.status.message);
  return undefined;
};

async function shapes(w: World, api: Api, shape: Shape) {
  const type = w.pick(TYPES, "type");
  const endOnExit = w.pick([undefined, true, false], "endOnExit");
  const fails = shape === "throw" || shape.endsWith("reject");
  const i = w.choose((fails ? ERRORS : VALUES).length, "value");
  const value = (fails ? ERRORS : VALUES)[i]();
  const capture = api === "observe" ? w.pick([{}, { captureInput: false, captureOutput: false }], "capture") : {};
  const R = spanRig(w, { exportMode: "immediate" });
  const before = context.active();
  let calls = 0, gate: (() => void) | undefined, insideSpan: string | undefined;
  const gotThis: any[] = [], gotArgs: any[][] = [];
  const body = function (this: any, ...args: any[]): any {
    calls++;
    gotThis.push(this);
    gotArgs.push(args);
    insideSpan = getActiveSpanId();
    switch (shape) {
      case "sync":
        return value;
      case "throw":
        throw value;
      case "resolve":
        return (async () => value)();
      case "reject":
        return (async () => { throw value; })();
      case "returned promise":
        return Promise.resolve(value);
      case "subclass":
        return new SubPromise((r) => r(value));
      case "late resolve":
        return new Promise((r) => (gate = () => r(value)));
      case "late reject":
        return new Promise((_, r) => (gate = () => r(value)));
    }
  };
  const recv = { tag: 1 }, a1 = { x: 1 }, a2 = cyc;
  const call = () => (api === "observe" ? (observe(body, { name: "n", asType: type, endOnExit, ...capture }) as any).call(recv, a1, a2) : (startActiveObservation as any)("n", body, { asType: type, endOnExit }));
  let ret: any, threw = false, err: any;
  try {
    ret = call();
  } catch (e) {
    threw = true;
    err = e;
  }
  w.assert(calls === 1, "calls", `the function ran ${calls} times`);
  w.assert(context.active() === before, "context", "the surrounding context was not restored");
  if (api === "observe") w.assert(gotThis[0] === recv && gotArgs[0].length === 2 && gotArgs[0][0] === a1 && gotArgs[0][1] === a2, "arguments", "receiver or arguments changed");
  else w.assert(gotArgs[0].length === 1 && gotArgs[0][0]?.id === insideSpan, "arguments", "the function did not receive its observation");
  const async_ = !(shape === "sync" || shape === "throw");
  if (!async_) {
    w.assert(threw === fails, "outcome", () => (threw ? `threw ${String(err?.message ?? typeof err)} although the function returned` : "did not throw although the function did"));
    w.assert(Object.is(fails ? err : ret, value), "outcome", "a different value was returned or thrown");
  } else {
    w.assert(!threw && ret instanceof Promise, "outcome", () => `no promise returned (${String(err)})`);
    let st: any;
    ret.then((v: any) => (st = { ok: true, v }), (e: any) => (st = { ok: false, v: e }));
    if (gate) {
      await w.drain();
      w.assert(!st, "outcome", "settled before the function's promise");
      if (type !== "event") w.assert(R.exported.length === 0, "ended-early", "the observation ended before the work had finished");
      gate();
    }
    await w.drain();
    w.assert(st && st.ok === !fails, "outcome", () => `promise ${st ? (st.ok ? "resolved" : "rejected with " + String(st.v?.message ?? typeof st.v)) : "pending"}`);
    w.assert(Object.is(st.v, value), "outcome", "settled with a different value");
  }
  await w.drain();
  const ended = type === "event" || endOnExit !== false;
  w.assert(R.exported.length === (ended ? 1 : 0), "ended", `${R.exported.length} finished observations`);
  if (!ended) return;
  const e = R.exported[0];
  w.assert(e.id === insideSpan, "active", "the observation was not the active one inside the function");
  w.assert(e.attributes["langfuse.observation.type"] === type, "type", "wrong type");
  if (type === "event") return;
  const f = failedWith(e);
  w.assert((f !== undefined) === fails, "level", () => `recorded failure: ${f}`);
  if (fails && value instanceof Error && value.message) w.assert(f === value.message, "message", () => `recorded message ${f}, error message ${value.message}`);
}

/** a parent given explicitly */
const TOLD = { traceId: "0123456789abcdef0123456789abcdef", spanId: "00000000000000a1", traceFlags: 1, isRemote: true };
/** nested program in every combination of wrappers and failing levels */
async function nested(w: World, depth: number) {
  const R = spanRig(w);
  const expect = new Map<string, string | undefined>();
  const failAt = w.choose(depth + 1, "throw at (0: nowhere)");
  const catchAt = failAt > 0 ? w.choose(failAt + 1, "caught at level") : 0;
  const boom = new Error("boom");
  // one of the wrappers is told its parent
  const explicitAt = w.choose(depth + 1, "explicit parent at (0: nowhere)");
  const level = (d: number, parent: string | undefined): void => {
    const run = () => {
      const me = getActiveSpanId()!;
      expect.set(me, explicitAt === d ? TOLD.spanId : parent);
      const leaf = startObservation("leaf", {}, { asType: w.pick(["span", "event"] as const, "leaf") } as any);
      expect.set(leaf.id, me);
      const sub = leaf.startObservation("sub");
      expect.set(sub.id, leaf.id);
      sub.end();
      if (d < depth) {
        try {
          level(d + 1, me);
        } catch (e) {
          w.assert(e === boom, "outcome", "different error");
          if (catchAt !== d) {
            leaf.end();
            throw e;
          }
        }
        w.assert(getActiveSpanId() === me, "restored", "the enclosing observation is not active again after an inner one");
        const after = startObservation("after");
        expect.set(after.id, me);
        after.end();
      }
      leaf.end();
      if (failAt === d) throw boom;
    };
    const api = w.choose(2, "wrapper");
    const opt = explicitAt === d ? { parentSpanContext: TOLD } : {};
    if (api === 0) startActiveObservation("a" + d, run, opt as any);
    else observe(run, { name: "o" + d, ...opt } as any)();
  };
  let err: any;
  try {
    level(1, undefined);
  } catch (e) {
    err = e;
  }
  w.assert((err === boom) === (failAt > 0 && (catchAt === 0 || catchAt === failAt)), "outcome", "error propagation changed");
  w.assert(getActiveSpanId() === undefined && getActiveTraceId() === undefined, "restored", "an observation is still active outside");
  await w.drain();
  verify(w, R, expect);
}
function verify(w: World, R: SpanRig, expect: Map<string, string | undefined>) {
  w.assert(R.exported.length === expect.size, "count", `${R.exported.length} observations exported, ${expect.size} created`);
  const trees = new Map<string, string>();
  for (const [id, parent] of expect) {
    const e = R.byId(id);
    w.assert(e, "lost", "an observation was not exported");
    w.assert(e!.parent === parent, "parent", () => `${e!.name}: parent ${R.byId(e!.parent ?? "")?.name ?? e!.parent}, expected ${parent ? R.byId(parent)?.name : "none"}`);
    if (parent) w.assert(e!.trace === (R.byId(parent)?.trace ?? TOLD.traceId), "trace", "child in another trace than its parent");
    else {
      w.assert(!trees.has(e!.trace), "trace", "two roots share a trace");
      trees.set(e!.trace, id);
    }
  }
}

/** concurrent branches: every interleaving of the gates of each branch */
async function concurrent(w: World, branches: number, rooted: boolean, steps: number, apis: Api[]) {
  const R = spanRig(w);
  const expect = new Map<string, string | undefined>();
  const gates: (() => void)[][] = [];
  const pass = (b: number) => new Promise<void>((r) => (gates[b] ??= []).push(r));
  const wrap = (api: Api, name: string, f: () => Promise<any>) => (api === "active" ? startActiveObservation(name, f) : observe(f, { name })());
  const finished: string[] = [];
  const branch = async (b: number, parent: string | undefined) => {
    const mine = apis[b % apis.length];
    await wrap(mine, "b" + b, async () => {
      const me = getActiveSpanId()!;
      expect.set(me, parent);
      await pass(b);
      const l1 = startObservation("l" + b);
      expect.set(l1.id, me);
      if (steps > 1)
        await wrap(apis[(b + 1) % apis.length], "i" + b, async () => {
          const inner = getActiveSpanId()!;
          expect.set(inner, me);
          await pass(b);
          const l2 = startObservation("l2" + b);
          expect.set(l2.id, inner);
          l2.end();
          if (steps > 2) await pass(b);
          w.assert(getActiveSpanId() === inner, "active", "active observation changed across an await");
        });
      w.assert(getActiveSpanId() === me, "active", "active observation changed across an await");
      const l3 = startObservation("l3" + b);
      expect.set(l3.id, me);
      l3.end();
      l1.end();
      finished.push(me);
    });
    w.assert(getActiveSpanId() === parent, "active", "active observation changed across an await");
  };
  const all: Promise<any>[] = [];
  const start = () => {
    for (let b = 0; b < branches; b++) all.push(branch(b, getActiveSpanId()));
    return Promise.all(all);
  };
  const main = rooted
    ? wrap(apis[0], "root", () => {
        const me = getActiveSpanId()!;
        expect.set(me, undefined);
        return start();
      })
    : start();
  let done = false;
  main.then(() => (done = true));
  await w.system({
    extra: () => gates.map((g, b) => ({ name: "branch" + b, run: () => g.shift()!() })).filter((_, b) => gates[b].length > 0),
    invariant: () => {
      for (const e of R.exported) if (/^b/.test(e.name)) w.assert(finished.includes(e.id), "ended-early", `${e.name} ended before its work`);
      if (rooted) w.assert(done || !R.exported.some((e) => e.name === "root"), "ended-early", "root ended before its branches");
    },
  });
  await w.drain();
  await main;
  verify(w, R, expect);
}

const def: CheckDef = {
  property: "T01",
  bounds: (t) => `2 wrappers x 8 function shapes x 10 types x endOnExit x ${VALUES.length} values / ${ERRORS.length} errors; nestings to depth ${t === "quick" ? 3 : 4} with every wrapper and failing level; all interleavings of ${t === "quick" ? 2 : 3} concurrent branches`,
  assumptions: ["promises are native promises or subclasses", "the observation of a generator function covers the call that creates the generator"],
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [];
    for (const api of ["active", "observe"] as const)
      for (const shape of ["sync", "throw", "resolve", "reject", "late resolve", "late reject", "subclass", "returned promise"] as const) out.push({ name: `${api}: ${shape}`, run: (w) => shapes(w, api, shape) });
    for (const api of ["active", "observe"] as const)
      out.push({
        name: `${api}: tracing off`,
        run: async (w) => {
          const mode = w.pick(OFF, "tracing");
          w.env({ ...ENV0 });
          const type = w.pick(TYPES, "type"), fails = w.bool("fails"), kind = w.pick(["sync", "async", "late", "generator"] as const, "kind");
          const value = (fails ? ERRORS : VALUES)[w.choose((fails ? ERRORS : VALUES).length, "value")]();
          await withTracing(mode, [], async () => {
            const got: any[] = [], recv = { t: 1 }, a1 = { x: 1 };
            let gate: any;
            const body: any = kind === "generator"
              ? function* (this: any, ...args: any[]) { got.push(this, ...args); const inner = startObservation("in"); inner.update({ output: 1 }); inner.end(); yield value; if (fails) throw value; return 5; }
              : function (this: any, ...args: any[]) {
                  got.push(this, ...args);
                  const o: any = api === "active" && type !== "event" ? args[0] : startObservation("in");
                  o.update({ output: 1 });
                  const r: any = propagateAttributes({ userId: "u", metadata: { k: "v" } }, () => startActiveObservation("deep", () => { updateActiveObservation({ input: 2 }); return 3; }));
                  w.assert(r === 3, "outcome", "an inner observation changed the result");
                  if (kind === "sync") { if (fails) throw value; return value; }
                  if (kind === "async") return (async () => { if (fails) throw value; return value; })();
                  return new Promise((res, rej) => (gate = () => (fails ? rej(value) : res(value))));
                };
            let ret: any, err: any, threw = false;
            try {
              ret = api === "observe" ? (observe(body, { name: "n", asType: type } as any) as any).call(recv, a1) : (startActiveObservation as any)("n", body, { asType: type });
              if (kind === "generator") { const g = ret; ret = g.next().value; w.assert(Object.is(ret, value), "yields", "another value yielded"); const last = g.next(); w.assert(last.done && last.value === 5, "yields", "another value returned"); }
              else if (kind !== "sync") {
                let st: any;
                ret.then((v: any) => (st = [true, v]), (e: any) => (st = [false, e]));
                await w.drain();
                if (gate) { w.assert(!st, "outcome", "settled before the function"); gate(); await w.drain(); }
                w.assert(st, "outcome", "never settled");
                threw = !st[0];
                if (st[0]) ret = st[1]; else err = st[1];
              }
            } catch (e) {
              if ((e as any)?.key) throw e;
              threw = true;
              err = e;
            }
            w.assert(threw === fails && Object.is(fails ? err : ret, value), "outcome", () => `${mode}: ${threw ? "threw " + String((err as any)?.message ?? typeof err) : "did not throw"}, or another value`);
            if (api === "observe") w.assert(got[0] === recv && got.length === 2 && got[1] === a1, "arguments", "receiver or arguments changed");
            else w.assert(typeof got[1]?.id === "string" && got.length === 2, "arguments", "the function did not receive its observation");
          });
        },
      });
    out.push({
      name: "generators",
      run: async (w) => {
        const R = spanRig(w);
        const asyncGen = w.bool("async"), api = w.pick(["active", "observe"] as const, "api"), failAt = w.choose(4, "fail at"), stop = w.choose(4, "consumer stops after");
        const boom = new Error("g");
        function* g(): any {
          for (let i = 0; i < 3; i++) {
            if (failAt === i + 1) throw boom;
            yield { i };
          }
          return "end";
        }
        async function* ag(): any {
          for (let i = 0; i < 3; i++) {
            if (failAt === i + 1) throw boom;
            yield { i };
          }
        }
        const f: any = asyncGen ? ag : g;
        const it: any = api === "observe" ? (observe(f, { name: "n" }) as any)() : startActiveObservation("n", () => f());
        const got: number[] = [];
        let err: any;
        try {
          if (asyncGen) { for await (const x of it) { got.push(x.i); if (got.length === stop) break; } }
          else for (const x of it) { got.push(x.i); if (got.length === stop) break; }
        } catch (e) {
          err = e;
        }
        const lim = failAt ? failAt - 1 : 3;
        const n = stop > 0 && stop <= lim ? stop : lim;
        w.assert(got.length === n && got.every((x, i) => x === i), "yields", `yielded ${got}`);
        w.assert((err === boom) === (failAt > 0 && !(stop > 0 && stop <= lim)), "outcome", "generator error changed");
        await w.drain();
        w.assert(R.exported.length === 1, "ended", `${R.exported.length} finished observations`);
      },
    });
    out.push({
      name: "many observations",
      run: async (w) => {
        const R = spanRig(w);
        const n = w.pick([40, 400], "n");
        const shape = w.pick(["deep sync", "deep async", "parallel", "parallel wrapped"], "shape");
        const back = w.bool("backwards");
        const parent = new Map<string, string | undefined>();
        const gates: (() => void)[] = [];
        let settled = 0;
        if (shape === "deep sync") {
          const go = (i: number, up?: string): number => (i === n ? i : startActiveObservation("d" + i, (o) => (parent.set(o.id, up), go(i + 1, o.id))));
          w.assert(go(0) === n, "outcome", "result changed");
        } else if (shape === "deep async") {
          const go = async (i: number, up?: string): Promise<number> => (i === n ? i : startActiveObservation("d" + i, async (o) => (parent.set(o.id, up), await null, go(i + 1, o.id))));
          go(0).then((v) => (settled = v));
          await w.drain();
          w.assert(settled === n, "outcome", "result changed");
        } else {
          const body = async (i: number) => {
            const id = getActiveSpanId()!;
            parent.set(id, undefined);
            await new Promise<void>((r) => (gates[i] = r));
            const c = startObservation("c" + i);
            parent.set(c.id, id);
            c.end();
            return i;
          };
          const wrapped = observe(body, { name: "w" });
          for (let i = 0; i < n; i++) {
            const p: Promise<number> = shape === "parallel" ? startActiveObservation("p" + i, () => body(i)) : wrapped(i);
            p.then((v) => v === i && settled++);
          }
          await w.drain();
          w.assert(R.exported.length === 0, "ended", "ended before the work finished");
          for (let k = 0; k < n; k++) gates[back ? n - 1 - k : k]();
          await w.drain();
          w.assert(settled === n, "outcome", `${settled} of ${n} settled with their value`);
        }
        await w.drain();
        w.assert(R.exported.length === parent.size, "ended", `${R.exported.length} finished of ${parent.size}`);
        for (const [id, up] of parent) w.assert(R.byId(id)?.parent === up, "parent", "wrong parent");
      },
    });
    out.push({
      name: "thenables are passed through",
      run: async (w) => {
        const R = spanRig(w);
        let subscribed = 0;
        const th = { then(r: any) { subscribed++; r(5); } };
        const got = w.bool("observe") ? observe(() => th, { name: "n" })() : startActiveObservation("n", () => th);
        w.assert(got === th && subscribed === 0, "outcome", "a lazy thenable was replaced or started");
        await w.drain();
        w.assert(R.exported.length === 1, "ended", "not ended");
      },
    });
    const ARGS: any[][] = [[], [undefined], [null], [undefined, 2], [2, undefined], [undefined, undefined, undefined], ["", 0, false], [[1, 2]], [[]], [{}], [() => 1, Symbol("s"), 10n], [NaN, -0], Array.from({ length: 12 }, (_, i) => i), [cyc, Object.create(null)], [new Map([[1, 2]]), new Set([1]), Buffer.from("x")], [{ toJSON() { throw new Error("no"); } }], [Object.freeze([1])], ["x".repeat(20000)]];
    const RECV: any[] = [undefined, null, 5, "s", { a: 1 }, Object.freeze({}), class K {}, () => 1];
    for (const kind of ["sync", "async", "throws", "rejects"] as const)
      out.push({
        name: `calls: arguments and receivers, ${kind}`,
        run: async (w) => {
          const R = spanRig(w);
          const seen: any[] = [];
          const boom = new Error("b");
          const opts = w.pick([{}, { captureInput: false }, { captureOutput: false }, { name: "n", asType: "tool" as const }, { name: "g", asType: "generation" as const, captureInput: true, captureOutput: true }], "options");
          const body = function (this: any, ...a: any[]) {
            seen.push([this, a]);
            if (kind === "throws") throw boom;
            return kind === "async" ? Promise.resolve(a) : kind === "rejects" ? Promise.reject(boom) : a;
          };
          const f: any = observe(body as any, opts as any);
          w.assert(typeof f === "function", "outcome", "observe does not return a function");
          const n = 2;
          for (let c = 0; c < n; c++) {
            const args = c === 0 ? w.pick(ARGS, "arguments") : ARGS[3], recv = c === 0 ? w.pick(RECV, "receiver") : undefined;
            const copy = [...args];
            let out_: any, err: any;
            try {
              out_ = f.call(recv, ...args);
              if (kind === "async" || kind === "rejects") out_ = await out_;
            } catch (e) {
              err = e;
            }
            w.assert(seen.length === c + 1, "calls", `the function ran ${seen.length} times after ${c + 1} calls`);
            const [t, a] = seen[c];
            w.assert(Object.is(t, recv), "arguments", () => `receiver ${String(t)}, given ${String(recv)}`);
            w.assert(a.length === copy.length && copy.every((x, i) => Object.is(a[i], x)), "arguments", () => `${a.length} arguments, ${copy.length} given; first difference at ${copy.findIndex((x, i) => !Object.is(a[i], x))}`);
            if (kind === "throws" || kind === "rejects") w.assert(err === boom, "outcome", "different error");
            else w.assert(err === undefined && out_ === a, "outcome", () => `different result (${String(err)})`);
            await w.drain();
            w.assert(R.exported.length === c + 1, "ended", `${R.exported.length} finished observations after ${c + 1} calls`);
            const e = R.exported[c];
            w.assert(e.parent === undefined, "parent", "a separate call became a child");
            w.assert((failedWith(e) === "b") === (kind === "throws" || kind === "rejects"), "level", "failure not recorded");
          }
          w.assert(R.exported[0].id !== R.exported[1].id && R.exported[0].trace !== R.exported[1].trace, "trace", "two calls share an observation or trace");
        },
      });
    // the same wrapped function: recursion and concurrent calls
    out.push({
      name: "recursive and concurrent calls of one wrapped function",
      run: async (w) => {
        const R = spanRig(w);
        const expect = new Map<string, string | undefined>();
        const gates: (() => void)[] = [];
        const viaActive = w.bool("active inside");
        const f: any = observe(async (depth: number, parent: string | undefined): Promise<number> => {
          const me = getActiveSpanId()!;
          expect.set(me, parent);
          await new Promise<void>((r) => gates.push(r));
          w.assert(getActiveSpanId() === me, "active", "active observation changed across an await");
          if (depth > 0) {
            if (viaActive)
              return startActiveObservation("in", async (o) => {
                expect.set(o.id, me);
                return (await f(depth - 1, o.id)) + 1;
              });
            return (await f(depth - 1, me)) + 1;
          }
          return 0;
        }, { name: "rec" });
        const depths = [w.choose(3, "depth 1"), w.choose(3, "depth 2")];
        const res: number[] = [];
        const all = depths.map((d, i) => f(d, undefined).then((r: number) => (res[i] = r)));
        await w.system({ extra: () => gates.map((g, i) => ({ name: "go" + i, run: () => { gates.splice(gates.indexOf(g), 1); g(); } })) });
        await Promise.all(all);
        w.assert(res.join() === depths.join(), "outcome", `results ${res}`);
        await w.drain();
        verify(w, R, expect);
      },
    });
    out.push({
      name: "methods and getters keep working",
      run: async (w) => {
        const R = spanRig(w);
        class C {
          #x = 3;
          base = w.pick([0, 5], "base");
          add = observe((n: number) => this.#x + n + this.base, { name: "add" });
          inc(n: number) { this.#x += n; return this.#x; }
        }
        const c = new C();
        C.prototype.inc = observe(C.prototype.inc, { name: "inc" });
        w.assert(c.inc(2) === 5 && c.add(1) === 6 + c.base, "outcome", "a method lost its receiver");
        await w.drain();
        w.assert(R.exported.map((e) => e.name).join() === "inc,add", "ended", "observations missing");
      },
    });
    // an observation that ends by itself inside, is updated inside, or fails after updates
    out.push({
      name: "ended or updated inside",
      run: async (w) => {
        const R = spanRig(w);
        const how = w.pick(["end", "update", "both", "level"] as const, "how"), fails = w.bool("fails"), isAsync = w.bool("async"), endOnExit = w.pick([undefined, false], "endOnExit");
        const boom = new Error("late");
        const body = (o: any) => {
          if (how !== "end") o.update(how === "level" ? { level: "WARNING", statusMessage: "careful" } : { output: "x" });
          if (how === "end" || how === "both") o.end();
          if (fails) throw boom;
          return 7;
        };
        let r: any, err: any;
        try {
          r = await startActiveObservation("n", isAsync ? async (o: any) => body(o) : body, { endOnExit });
        } catch (e) {
          err = e;
        }
        w.assert(fails ? err === boom : r === 7, "outcome", "outcome changed");
        await w.drain();
        const ends = how === "end" || how === "both" || endOnExit !== false;
        w.assert(R.exported.length === (ends ? 1 : 0), "ended", `${R.exported.length} finished observations`);
        if (how === "update") void 0;
        if (ends && fails && (how === "update" || how === "level")) w.assert(failedWith(R.exported[0]) === "late", "level", "failure not recorded");
        if (ends && !fails && how === "level") w.assert(R.exported[0].attributes["langfuse.observation.level"] === "WARNING" && R.exported[0].attributes["langfuse.observation.status_message"] === "careful", "level", "the level set inside was lost");
      },
    });
    for (let d = 1; d <= (q ? 3 : 4); d++) out.push({ name: `nesting depth ${d}`, run: (w) => nested(w, d) });
    for (const rooted of [true, false])
      for (const apis of [["active"], ["observe"], ["active", "observe"]] as Api[][]) {
        out.push({ name: `2 branches ${apis} ${rooted ? "under a root" : "as roots"}`, run: (w) => concurrent(w, 2, rooted, 3, apis) });
        out.push({ name: `3 branches ${apis} ${rooted ? "under a root" : "as roots"}`, run: (w) => concurrent(w, 3, rooted, q ? 1 : 2, apis) });
        if (!q) out.push({ name: `3 long branches ${apis} ${rooted ? "under a root" : "as roots"}`, run: (w) => concurrent(w, 3, rooted, 3, apis) });
      }
    void [trace, propagation, ROOT_CONTEXT];
    return out;
  },
};
export default def;
