import type { CheckDef, Scenario, World } from "../mc/engine";
import { startObservation, startActiveObservation, observe, updateActiveObservation, setActiveTraceIO, setActiveTraceAsPublic, getActiveSpanId } from "@langfuse/tracing";
import { spanRig, type Exported } from "./lib/span";
import { isDeepStrictEqual } from "node:util";
import { EPOCH } from "../mc/engine";

const TYPES = ["span", "generation", "event", "embedding", "agent", "tool", "chain", "retriever", "evaluator", "guardrail"] as const;
const O = "langfuse.observation.";
/** field -> attribute, how it is encoded */
const PLAIN: Record<string, string> = { level: O + "level", statusMessage: O + "status_message", version: "langfuse.version", environment: "langfuse.environment", model: O + "model.name" };
const SER: Record<string, string> = { input: O + "input", output: O + "output", usageDetails: O + "usage_details", costDetails: O + "cost_details", completionStartTime: O + "completion_start_time", modelParameters: O + "model.parameters" };
const cyc: any = { a: 1 };
cyc.self = cyc;
const UNSER: any[] = [cyc, 10n, { b: 10n }, { toJSON() { throw new Error("x"); } }];
const VALUES: any[] = ["", "text", '{"a":1}', "null", "Ünï\u0000☃ \ud83d\ude00", 0, 1.5, -0.25, true, false, [], {}, [null, 1], { a: { b: ["x", { c: null }] } }, new Date(EPOCH), [{ role: "user", content: "hi" }], { "": "e", "a.b": 1 }, { a: undefined, b: 1 }, { u: "x".repeat(5000) }, " ", "0", "true", "x".repeat(300), "a\nb\tc\"d\\e", 1e21, -1, Number.MAX_SAFE_INTEGER, [[]], [[1, [2, [3]]]], ["", 0, false, null], { a: 0, b: "", c: false, d: null }, { A: 1, a: 2 }, { "1": 1, "0": 0 }, Array.from({ length: 150 }, (_, i) => i), { constructor: 1, toString: "x" }];
/** long texts, wide and deep structures */
const HUGE: any[] = ["h".repeat(2_000_000) + "é", { t: "y".repeat(150_000), l: ["z".repeat(1_200_000)] }, Array.from({ length: 20_000 }, (_, i) => ({ i })), Array.from({ length: 200 }).reduce((a: any, _, i) => ({ i, a }), "bottom"), Object.fromEntries(Array.from({ length: 3000 }, (_, i) => ["k" + i, i]))];
const ABSENT: any[] = [undefined, null, () => 1, Symbol("s")];

type Exp = { must: Record<string, any>; any: Set<string> };
const jsonEq = (attr: any, v: any) => typeof attr === "string" && isDeepStrictEqual(JSON.parse(attr), JSON.parse(JSON.stringify(v)));
/** model: apply an update to the expected attributes. Values are compared on the raw field. */
type Model = Map<string, { raw: any; kind: "plain" | "ser" | "unser" }>;
function apply(m: Model, fields: any) {
  for (const [k, v] of Object.entries(fields)) {
    if (v == null) continue;
    if (k in PLAIN) m.set(PLAIN[k], { raw: v, kind: "plain" });
    else if (k in SER) put(m, SER[k], v);
    else if (k === "prompt") {
      const p = v as any;
      if (!p.isFallback) {
        m.set(O + "prompt.name", { raw: p.name, kind: "plain" });
        m.set(O + "prompt.version", { raw: p.version, kind: "plain" });
      }
    } else if (k === "metadata") {
      if (typeof v === "object" && !Array.isArray(v)) for (const [mk, mv] of Object.entries(v as any)) { if (mv != null) put(m, `${O}metadata.${mk}`, mv); }
      else put(m, O + "metadata", v);
    }
  }
}
function put(m: Model, key: string, v: any) {
  if (UNSER.includes(v)) m.set(key, { raw: v, kind: "unser" });
  else if (typeof v === "string") m.set(key, { raw: v, kind: "plain" });
  else if (JSON.stringify(v) === undefined) return;
  else m.set(key, { raw: v, kind: "ser" });
}
function check(w: World, e: Exported | undefined, m: Model, type: string | undefined, extra: Record<string, any> = {}) {
  w.assert(e, "lost", "observation not exported");
  const got = { ...e!.attributes };
  delete got["langfuse.internal.is_app_root"];
  if (type) {
    w.assert(got[O + "type"] === type, "type", () => `type ${got[O + "type"]}, expected ${type}`);
    delete got[O + "type"];
  }
  for (const [k, v] of Object.entries(extra)) {
    w.assert(isDeepStrictEqual(got[k], v), "extra", () => `${k}: ${JSON.stringify(got[k])}, expected ${JSON.stringify(v)}`);
    delete got[k];
  }
  for (const [k, x] of m) {
    const g = got[k];
    w.assert(g !== undefined, "missing", () => `${k} not recorded (value ${typeof x.raw})`);
    if (x.kind === "plain") w.assert(g === x.raw, "value", () => `${k}: recorded ${JSON.stringify(g)}, given ${JSON.stringify(x.raw)}`);
    else if (x.kind === "ser") w.assert(jsonEq(g, x.raw), "value", () => `${k}: recorded ${JSON.stringify(g)}, given ${JSON.stringify(x.raw)}`);
    else w.assert(typeof g === "string", "value", "unserialisable value recorded as non-string");
    delete got[k];
  }
  w.assert(Object.keys(got).length === 0, "extra", () => `recorded although not set: ${JSON.stringify(got)}`);
}
const FIELDS = [...Object.keys(PLAIN), ...Object.keys(SER), "prompt", "metadata"];
function fieldValue(w: World, f: string, small = false): any {
  if (f === "level") return w.pick(["DEBUG", "DEFAULT", "WARNING", "ERROR", undefined] as const, "level");
  if (f === "prompt") return w.pick<any>([{ name: "p", version: 1, isFallback: false }, { name: "", version: 0, isFallback: false }, { name: "p", version: 2, isFallback: true }, undefined, { name: "q/ü", version: 7, isFallback: false, extra: 1 }], "prompt");
  if (f in PLAIN) return w.pick<any>(["", "x", "Ü ☃", undefined, "v 1.0", "0", " ", "x".repeat(300), "null", "A"], f);
  if (f === "completionStartTime") return w.pick<any>([new Date(EPOCH + 5), new Date(0), undefined], f);
  if (f === "metadata") {
    const shape = w.choose(small ? 2 : 4, "metadata shape");
    if (shape === 0) return { k: w.pick([...VALUES, ...ABSENT, ...UNSER], "value") };
    if (shape === 1) return w.pick<any>([{ a: "1", b: 2 }, { "": "e", "a.b": { c: 1 }, "ü k": "x", " lead": "l", "trail ": "t", "trail": "u", "\n": "n" }, {}, undefined, null, { a: "" }, { a: undefined, b: null, c: 0, d: false }], "object");
    if (shape === 2) return w.pick<any>(["text", "", 5, 0, true, false, [], [1, "a"], 10n], "other");
    return { input: "i", type: "t", k: { k: w.pick(VALUES, "deep") }, z: w.pick(VALUES, "value") };
  }
  return w.pick(small ? ["a", { b: 1 }, undefined, 0] : [...VALUES, ...ABSENT, ...UNSER], f);
}

const def: CheckDef = {
  property: "T02",
  bounds: (t) => `10 observation types x 13 fields x ${VALUES.length + ABSENT.length + UNSER.length} value shapes at creation, by update and on the active observation; all update sequences of length ${t === "quick" ? 2 : 3} over pairs of fields incl. updates after the end; wrapped functions with captured arguments and results; explicit start and end times`,
  assumptions: ["fewer than 128 attributes per span (OpenTelemetry limit)", "metadata objects are plain objects", "fields have their documented types"],
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [];
    for (const f of FIELDS)
      out.push({
        name: `field ${f}`,
        run: async (w) => {
          const type = w.pick(TYPES, "type");
          const v = fieldValue(w, f);
          const way = w.choose(type === "event" ? 2 : 6, "way: creation|child creation|update|active update|updateActive|updateActive untyped");
          const R = spanRig(w);
          const m: Model = new Map();
          apply(m, { [f]: v });
          let id = "";
          const a: any = { [f]: v };
          if (way === 0) {
            const o: any = startObservation("n", a, { asType: type } as any);
            id = o.id;
            o.end();
          } else if (way === 1) {
            const p = startObservation("p");
            const o: any = p.startObservation("n", a, { asType: type } as any);
            id = o.id;
            o.end();
          } else if (way === 2) {
            const o: any = startObservation("n", {}, { asType: type } as any);
            id = o.id;
            w.assert(o.update(a) === o, "chain", "update does not return the observation");
            o.end();
          } else
            startActiveObservation("n", (o: any) => {
              id = o.id;
              if (way === 3) o.update(a);
              else updateActiveObservation(a, way === 4 ? ({ asType: type } as any) : undefined);
            }, { asType: type } as any);
          await w.drain();
          check(w, R.byId(id), m, type);
        },
      });
    // an update that names a type changes the type of the active observation, one that names none keeps it
    out.push({
      name: "type given with an update",
      run: async (w) => {
        const R = spanRig(w);
        const type = w.pick(TYPES.filter((t) => t !== "event"), "type"), given = w.pick([undefined, ...TYPES.filter((t) => t !== "event")], "given");
        let id = "";
        startActiveObservation("n", (o: any) => {
          id = o.id;
          updateActiveObservation({ output: "x" }, given ? ({ asType: given } as any) : undefined);
          if (w.bool("again")) updateActiveObservation({ input: "i" });
        }, { asType: type } as any);
        await w.drain();
        const a = R.byId(id)!.attributes;
        w.assert(a[O + "type"] === (given ?? type) && a[O + "output"] === "x", "type", () => `${type} updated as ${given} became ${a[O + "type"]}`);
      },
    });
    out.push({
      name: "field subsets at creation",
      run: async (w) => {
        const R = spanRig(w);
        const all: any = { level: "WARNING", statusMessage: "sm", version: "v", environment: "e", model: "m", input: { i: 1 }, output: ["o"], usageDetails: { input: 1, output: 2 }, costDetails: { total: 0.1 }, modelParameters: { temperature: 0 }, prompt: { name: "p", version: 3, isFallback: false }, metadata: { a: "x", b: [1] } };
        const a = Object.fromEntries(Object.entries(all).filter(([k]) => w.bool(k)));
        const snapshot = structuredClone(a);
        const o: any = startObservation("n", a as any, { asType: w.pick(["generation", "span"] as const, "type") } as any);
        o.end();
        await w.drain();
        const m: Model = new Map();
        apply(m, a);
        check(w, R.byId(o.id), m, o.type);
        w.assert(isDeepStrictEqual(a, snapshot), "mutated", "the given attributes were modified");
      },
    });
    const PAIRS: [string, string][] = [["input", "output"], ["metadata", "input"], ["level", "statusMessage"], ["prompt", "model"], ["usageDetails", "metadata"]];
    for (const [a, b] of PAIRS)
      out.push({
        name: `update sequences ${a}/${b}`,
        run: async (w) => {
          const R = spanRig(w);
          const type = w.pick(["generation", "tool"] as const, "type");
          const m: Model = new Map();
          const first: any = w.bool("set at creation") ? { [a]: fieldValue(w, a, true) } : {};
          apply(m, first);
          const o: any = startObservation("n", first, { asType: type } as any);
          const n = q ? 2 : 3;
          const endAfter = w.choose(n + 1, "end after");
          for (let i = 0; i < n; i++) {
            if (i === endAfter) o.end();
            const f = w.choose(i === n - 1 && !q ? 2 : 3, "which");
            const u: any = f === 0 ? { [a]: seqValue(w, a, i) } : f === 1 ? { [b]: seqValue(w, b, i) } : { [a]: seqValue(w, a, i), [b]: seqValue(w, b, i + 5) };
            o.update(u);
            if (i < endAfter) apply(m, u);
          }
          o.end();
          await w.drain();
          w.assert(R.exported.length === 1, "count", "exported more than once");
          check(w, R.byId(o.id), m, type);
        },
      });
    out.push({
      name: "large values",
      run: async (w) => {
        const R = spanRig(w);
        const v = HUGE[w.choose(HUGE.length, "value")];
        const way = w.choose(4, "way: creation|update|trace io|wrapped function");
        const m: Model = new Map();
        let id = "";
        if (way === 3) {
          const f = observe((x: any) => { id = getActiveSpanId()!; return { x }; }, { name: "n" });
          f(v);
          put(m, O + "input", v);
          put(m, O + "output", { x: v });
        } else {
          const o: any = startObservation("n", way === 0 ? { input: v, output: { v }, metadata: { k: v } } : {});
          id = o.id;
          if (way === 1) o.update({ input: v, output: { v }, metadata: { k: v } });
          if (way === 2) o.setTraceIO({ input: v, output: { v } });
          if (way < 2) apply(m, { input: v, output: { v }, metadata: { k: v } });
          else (put(m, "langfuse.trace.input", v), put(m, "langfuse.trace.output", { v }));
          o.end();
        }
        await w.drain();
        if (way === 3) {
          const e = R.byId(id)!, inp = e.attributes[O + "input"] as string, out = e.attributes[O + "output"] as string;
          w.assert(inp.includes(typeof v === "string" ? v : JSON.stringify(v)), "value", "the captured argument is not recorded");
          w.assert(jsonEq(out, { x: v }), "value", "the captured result is not recorded");
        } else check(w, R.byId(id), m, "span");
      },
    });
    out.push({
      name: "names",
      run: async (w) => {
        const R = spanRig(w);
        const way = w.choose(6, "way: creation|child|active|wrapped|wrapped, own name|no name");
        const type = w.pick(TYPES, "type");
        const name = w.pick(["n", " ", "0", "Ünï ☃ / x", "x".repeat(300), "a.b:c", "span", "null"], "name");
        let want = name;
        if (way === 0) startObservation(name, {}, { asType: type } as any).end();
        else if (way === 1) {
          const p = startObservation("parent");
          p.startObservation(name, {}, { asType: type } as any).end();
        } else if (way === 2) startActiveObservation(name, () => {}, { asType: type } as any);
        else if (way === 3) observe(function other() {}, { name, asType: type } as any)();
        else if (way === 4) {
          const o = { [name]: () => 1 };
          observe(o[name], { asType: type } as any)();
        } else {
          observe((() => () => 1)(), { asType: type } as any)();
          await w.drain();
          want = R.exported[0]?.name;
          w.assert(typeof want === "string" && want.length > 0, "name", "an observation of a function without a name has no name");
        }
        await w.drain();
        w.assert(R.exported.length === 1 && R.exported[0].name === want, "name", () => `an observation named ${JSON.stringify(want)} is recorded as ${JSON.stringify(R.exported.map((e) => e.name))}`);
      },
    });
    out.push({
      name: "failures of wrapped functions",
      run: async (w) => {
        const R = spanRig(w);
        const e = w.pick<any>([new Error("boom"), new TypeError("Ünï ☃"), "text", "0", { code: 5 }, 7], "error");
        const asyncFn = w.bool("async"), capture = w.bool("capture");
        const f: any = observe((asyncFn ? async () => { throw e; } : () => { throw e; }) as any, { name: "n", captureOutput: capture });
        let got: any;
        try { await f(); } catch (x) { got = x; }
        w.assert(got === e, "error", "another error was thrown");
        await w.drain();
        const out = R.exported[0].attributes[O + "output"];
        if (!capture) w.assert(out === undefined, "error-output", () => `output ${out} although capturing is off`);
        else w.assert(typeof out === "string" && typeof JSON.parse(out).error === "string" && (!(e instanceof Error) || JSON.parse(out).error.includes(e.message)) && (typeof e !== "string" || JSON.parse(out).error.includes(e)), "error-output", () => `error ${String(e)} recorded as output ${out}`);
      },
    });
    out.push({
      name: "long update history",
      run: async (w) => {
        const R = spanRig(w);
        const n = w.pick([40, 130, 300, 1100], "updates");
        const type = w.pick(["generation", "span"] as const, "type");
        const m: Model = new Map();
        const o: any = startObservation("n", {}, { asType: type } as any);
        for (let i = 0; i < n; i++) {
          const u: any = { [["input", "output", "statusMessage", "version"][i % 4]]: "v" + i, metadata: { ["k" + (i % 30)]: i % 7 ? i : "s" + i } };
          o.update(u);
          apply(m, u);
        }
        o.end();
        await w.drain();
        check(w, R.byId(o.id), m, type);
      },
    });
    out.push({
      name: "trace input/output and publishing",
      run: async (w) => {
        const R = spanRig(w);
        const set: any = {};
        if (w.bool("in")) set.input = w.pick([...VALUES, ...ABSENT, ...UNSER], "in");
        if (w.bool("out")) set.output = w.pick(["x", { a: 1 }, 0, null], "out");
        const pub = w.bool("public");
        const active = w.bool("active");
        let id = "";
        if (active)
          startActiveObservation("n", (o) => {
            id = o.id;
            setActiveTraceIO(set);
            if (pub) setActiveTraceAsPublic();
          });
        else {
          const o = startObservation("n");
          id = o.id;
          o.setTraceIO(set);
          if (pub) o.setTraceAsPublic();
          o.end();
        }
        await w.drain();
        const m: Model = new Map();
        for (const k of ["input", "output"]) if (set[k] != null) put(m, `langfuse.trace.${k}`, set[k]);
        check(w, R.byId(id), m, "span", pub ? { "langfuse.trace.public": true } : {});
      },
    });
    out.push({
      name: "no active observation",
      run: async (w) => {
        const R = spanRig(w);
        updateActiveObservation({ input: 1 });
        setActiveTraceIO({ input: 1 });
        setActiveTraceAsPublic();
        const o = startObservation("n");
        o.end();
        await w.drain();
        check(w, R.byId(o.id), new Map(), "span");
      },
    });
    out.push({
      name: "active updates reach the innermost observation",
      run: async (w) => {
        const R = spanRig(w);
        const where = w.choose(3, "update in: outer before|inner|outer after");
        const v = w.pick(["a", { b: 1 }], "v");
        const ids: string[] = [];
        startActiveObservation("outer", (o) => {
          ids.push(o.id);
          if (where === 0) updateActiveObservation({ output: v });
          startActiveObservation("inner", (i) => {
            ids.push(i.id);
            if (where === 1) updateActiveObservation({ output: v } as any, { asType: "tool" });
          }, { asType: "tool" });
          if (where === 2) updateActiveObservation({ output: v });
        });
        await w.drain();
        const m: Model = new Map();
        apply(m, { output: v });
        check(w, R.byId(ids[0]), where === 1 ? new Map() : m, "span");
        check(w, R.byId(ids[1]), where === 1 ? m : new Map(), "tool");
      },
    });
    out.push({
      name: "captured arguments and results",
      run: async (w) => {
        const R = spanRig(w);
        const type = w.pick(["span", "generation", "tool"] as const, "type");
        const nargs = w.choose(4, "arguments");
        const args: any[] = [];
        for (let i = 0; i < nargs; i++) args.push(i === 0 ? w.pick([...VALUES, ...UNSER, null, undefined], "arg") : i === 1 ? w.pick<any>([1, undefined, null, ""], "second argument") : i);
        const result = w.pick([...VALUES, ...UNSER, undefined, null], "result");
        const ci = w.pick([undefined, true, false], "captureInput"), co = w.pick([undefined, false], "captureOutput");
        const asyncFn = w.bool("async");
        const f: any = observe((asyncFn ? async () => result : () => result) as any, { name: "n", asType: type, captureInput: ci, captureOutput: co });
        await f(...args);
        await w.drain();
        const m: Model = new Map();
        const input = nargs === 0 ? undefined : nargs === 1 ? args[0] : args;
        if (ci !== false && input != null) UNSER.includes(args[0]) ? m.set(O + "input", { raw: input, kind: "unser" }) : put(m, O + "input", input);
        if (co !== false && result != null) put(m, O + "output", result);
        check(w, R.exported[0], m, type);
      },
    });
    out.push({
      name: "many metadata keys over many updates",
      run: async (w) => {
        const R = spanRig(w);
        const n = w.pick([1, 10, 60], "keys"), ups = w.pick([1, 2, 5], "updates"), overlap = w.bool("overlapping");
        const m: Model = new Map();
        const o: any = startObservation("n", {}, { asType: w.pick(["span", "generation"] as const, "type") } as any);
        for (let u = 0; u < ups; u++) {
          const md = Object.fromEntries(Array.from({ length: Math.ceil(n / (overlap ? 1 : ups)) }, (_, i) => [overlap ? "k" + i : `k${u}.${i}`, i % 3 === 0 ? { u, i } : `v${u}.${i}`]));
          apply(m, { metadata: md, output: u });
          o.update({ metadata: md, output: u });
        }
        o.end();
        await w.drain();
        check(w, R.byId(o.id), m, o.type);
      },
    });
    out.push({
      name: "the record is of the moment: later changes of the given objects do not show, observations do not share fields",
      run: async (w) => {
        const R = spanRig(w);
        const way = w.choose(4, "creation|update|active update|observe");
        const v: any = { list: [1], deep: { a: 1 } };
        const fields: any = { input: v, output: v, metadata: { v }, modelParameters: { t: v } };
        const m: Model = new Map();
        apply(m, structuredClone(way === 3 ? { input: v } : fields));
        let id = "";
        const spoil = () => { v.list.push(2); v.deep.a = 2; v.extra = true; };
        if (way === 0) { const o: any = startObservation("n", fields, { asType: "generation" }); id = o.id; spoil(); o.end(); }
        else if (way === 1) { const o: any = startObservation("n", {}, { asType: "generation" }); id = o.id; o.update(fields); spoil(); o.end(); }
        else if (way === 2) startActiveObservation("n", (o) => { id = o.id; updateActiveObservation(fields, { asType: "generation" }); spoil(); }, { asType: "generation" });
        else { observe((x: any) => { id = getActiveSpanId()!; x.list.push(9); x.extra = 1; }, { name: "n", asType: "generation" })(v); }
        const other: any = startObservation("other");
        other.end();
        await w.drain();
        check(w, R.byId(id), m, "generation");
        check(w, R.byId(other.id), new Map(), "span");
      },
    });
    out.push({
      name: "two open observations updated alternately",
      run: async (w) => {
        const R = spanRig(w);
        const ms: Model[] = [new Map(), new Map()];
        const os: any[] = [startObservation("a", {}, { asType: "generation" }), w.bool("child") ? null : startObservation("b", {}, { asType: "tool" })];
        os[1] ??= os[0].startObservation("b", {}, { asType: "tool" });
        const U: any[] = [{ input: "i" }, { output: { o: 1 } }, { metadata: { k: "v" } }, { level: "ERROR", statusMessage: "s" }, {}];
        for (let i = 0; i < 3; i++) {
          const who = w.choose(2, "which"), u = w.pick(U, "update");
          os[who].update(u);
          apply(ms[who], u);
        }
        const first = w.choose(2, "ends first");
        os[first].end();
        os[1 - first].end();
        await w.drain();
        check(w, R.byId(os[0].id), ms[0], "generation");
        check(w, R.byId(os[1].id), ms[1], "tool");
      },
    });
    out.push({
      name: "names and times",
      run: async (w) => {
        const R = spanRig(w);
        const t0 = w.pick([undefined, new Date(EPOCH - 5000), new Date(EPOCH + 1234)], "start");
        const t1 = w.pick([undefined, new Date(EPOCH + 9000), EPOCH + 7000], "end");
        const name = w.pick(["n", "", "Ü ☃", "x".repeat(300)], "name");
        const type = w.pick(TYPES, "type");
        w.now = EPOCH + 2000;
        const child = w.bool("child");
        if (w.bool("active")) {
          let a: any;
          const r = startActiveObservation(name, (x: any) => {
            a = x;
            w.now = EPOCH + 6000;
            return 5;
          }, { asType: type === "event" ? "span" : type, startTime: t0 } as any);
          await w.drain();
          const x = R.byId(a.id)!;
          w.assert(r === 5 && x && x.name === name, "name", "name or result changed");
          if (t0) w.assert(Math.abs(x.start - t0.getTime()) < 1, "time", () => `active observation starts at ${x.start - EPOCH}, given ${t0.getTime() - EPOCH}`);
          return;
        }
        const o: any = child && t0 === undefined ? startObservation("p").startObservation(name, {}, { asType: type } as any) : startObservation(name, {}, { asType: type, startTime: t0 } as any);
        w.now = EPOCH + 6000;
        if (type !== "event") o.end(t1);
        await w.drain();
        const e = R.byId(o.id)!;
        w.assert(e && e.name === name, "name", "name changed");
        const start = t0 ? t0.getTime() : undefined;
        if (start !== undefined) w.assert(Math.abs(e.start - start) < 1, "time", () => `start ${e.start - EPOCH}, given ${start - EPOCH}`);
        const end = type === "event" ? start : t1 !== undefined ? Number(t1) : undefined;
        if (end !== undefined && end >= e.start) w.assert(Math.abs(e.end - end) < 1, "time", () => `end ${e.end - EPOCH}, given ${end - EPOCH}`);
      },
    });
    return out;
  },
};
const SEQ: Record<string, any[]> = { level: ["ERROR", "DEBUG", undefined], prompt: [{ name: "a", version: 1, isFallback: false }, { name: "b", version: 2, isFallback: true }], metadata: [{ k: "1", l: 2 }, { k: { z: 1 } }, { k: "" }, {}], statusMessage: ["s", "", undefined], model: ["m1", "m2"] };
function seqValue(w: World, f: string, i: number): any {
  const base = SEQ[f] ?? ["s" + i, { v: i }, undefined];
  return w.pick(base, f);
}
export default def;
