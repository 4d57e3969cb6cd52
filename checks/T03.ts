import { Violation, type CheckDef, type Scenario, type World } from "../mc/engine";
import { startObservation, startActiveObservation, observe, propagateAttributes, getActiveSpanId } from "@langfuse/tracing";
import { context, propagation, trace } from "./lib/otel";
import { spanRig, type SpanRig } from "./lib/span";
import { isDeepStrictEqual } from "node:util";

type Params = { userId?: any; sessionId?: any; version?: any; traceName?: any; tags?: any[]; metadata?: Record<string, any>; environment?: any; prompt?: any; asBaggage?: boolean };
type State = { user?: string; session?: string; version?: string; name?: string; tags?: string[]; env?: string; prompt?: { name: string; version: number }; meta: Record<string, string> };
const EMPTY: State = { meta: {} };
const okStr = (v: any): v is string => typeof v === "string" && v.length <= 200;
const okEnv = (v: any): v is string => typeof v === "string" && v.length <= 40 && /^[a-z0-9_-]+$/.test(v) && !v.startsWith("langfuse");
const okPrompt = (p: any): boolean => !!p && !p.isFallback && typeof p.name === "string" && p.name !== "" && (Number.isInteger(p.version) || (typeof p.version === "string" && /^\d+$/.test(p.version)));
/** reference semantics of entering a scope */
function enter(s: State, p: Params): State {
  const r: State = { ...s, meta: { ...s.meta } };
  if (okStr(p.userId) && p.userId) r.user = p.userId;
  if (okStr(p.sessionId) && p.sessionId) r.session = p.sessionId;
  if (okStr(p.version) && p.version) r.version = p.version;
  if (okStr(p.traceName) && p.traceName) r.name = p.traceName;
  if (okEnv(p.environment)) r.env = p.environment;
  if (okPrompt(p.prompt)) r.prompt = { name: p.prompt.name, version: Number(p.prompt.version) };
  const tags = (p.tags ?? []).filter(okStr);
  if (tags.length) r.tags = [...(s.tags ?? []), ...tags.filter((t) => !(s.tags ?? []).includes(t))];
  for (const [k, v] of Object.entries(p.metadata ?? {})) if (okStr(v)) r.meta[k] = v;
  return r;
}
function attrs(s: State): Record<string, any> {
  const r: Record<string, any> = {};
  if (s.user) r["user.id"] = s.user;
  if (s.session) r["session.id"] = s.session;
  if (s.version) r["langfuse.version"] = s.version;
  if (s.name) r["langfuse.trace.name"] = s.name;
  if (s.env) r["langfuse.environment"] = s.env;
  if (s.prompt) (r["langfuse.observation.prompt.name"] = s.prompt.name), (r["langfuse.observation.prompt.version"] = s.prompt.version);
  if (s.tags) r["langfuse.trace.tags"] = s.tags;
  for (const [k, v] of Object.entries(s.meta)) r[`langfuse.trace.metadata.${k}`] = v;
  return r;
}
type Want = Map<string, { want: Record<string, any>; what: string }>;
function verify(w: World, R: SpanRig, want: Want) {
  w.assert(R.exported.length === want.size, "count", `${R.exported.length} spans exported, ${want.size} expected`);
  for (const [id, x] of want) {
    const e = R.byId(id);
    w.assert(e, "lost", `${x.what}: not exported`);
    const got = { ...e!.attributes };
    delete got["langfuse.internal.is_app_root"];
    for (const k of Object.keys(got)) if (/^langfuse\.observation\.(?!prompt)/.test(k)) delete got[k];
    w.assert(isDeepStrictEqual(got, x.want), "attributes", () => `${x.what}: ${JSON.stringify(got)}, expected ${JSON.stringify(x.want)}`);
  }
}
const ALPHA: Params[] = [
  { userId: "u1" },
  { userId: "u2", sessionId: "s2", version: "v2", environment: "e2" },
  { tags: ["t1", "t2"], metadata: { k: "1" } },
  { tags: ["t2", "t3"], metadata: { k: "2", "l.m": "3" }, traceName: "n", prompt: { name: "p1", version: 1 } },
  { metadata: { l: "x", user: "y" }, sessionId: "s3", traceName: "n2", environment: "e3", prompt: { name: "p2", version: "2" } },
  {},
  { userId: "x".repeat(201), tags: ["x".repeat(201)], metadata: { k: 5 }, sessionId: 7, version: "", traceName: null, environment: "Not ok", prompt: { name: "f", version: 3, isFallback: true } },
];
/** unusual but valid values */
const ODD: Params[] = [
  { userId: "0", sessionId: " ", version: "false", traceName: "null", tags: ["T1", " t1", "0", "é☃"], metadata: { K: "1", k: "", "0": "zero", "a b": "☃ x", ["long".repeat(60)]: "y" } },
  { userId: "U1", sessionId: "s".repeat(200), version: "1.0.0-rc+é", traceName: "a/b?c=%20&d", tags: Array.from({ length: 12 }, (_, i) => "t" + i), metadata: Object.fromEntries(Array.from({ length: 12 }, (_, i) => ["k" + i, "v" + i])), environment: "0", prompt: { name: " ", version: 0 } },
  { userId: "u1", tags: ["t1", "t11"], metadata: { k1: "new", k: "q".repeat(200), constructor: "c", toString: "t" }, environment: "a".repeat(40), prompt: { name: "f/é", version: "007" } },
  { tags: ["t1", 5 as any, "x".repeat(201), "t0"], metadata: { k0: null, k1: "x".repeat(201), k2: "ok" }, prompt: { name: "q", version: -1 } },
];
const VALS: any[] = [" ", "0", "false", "undefined", "%41", "a,b", "a=b;c", "é", "\n", "x".repeat(199), "langfuse", "LANGFUSE-x", "-", "_", "a.b", "a b", "\u0000", "0123456789".repeat(20), "ok", "x".repeat(200), "x".repeat(201), "中".repeat(150), "é".repeat(200), "😀".repeat(100), "😀".repeat(101), "", 0, 5, true, null, undefined, {}, [], ["a"], () => 1, Symbol("s"), "☃".repeat(200), "langfusex", "a_b-1", "x".repeat(40), "x".repeat(41), "7", "7x", 1.5, -3, NaN, "\ud83d\ude00".repeat(100), "\ud83d\ude00".repeat(101)];


/** what entering a scope writes on the span that is active at that moment */
function written(p: Params, inner: State): Record<string, any> {
  const only: State = { meta: {} };
  if (okStr(p.userId) && p.userId) only.user = inner.user;
  if (okStr(p.sessionId) && p.sessionId) only.session = inner.session;
  if (okStr(p.version) && p.version) only.version = inner.version;
  if (okStr(p.traceName) && p.traceName) only.name = inner.name;
  if (okEnv(p.environment)) only.env = inner.env;
  if (okPrompt(p.prompt)) only.prompt = inner.prompt;
  if ((p.tags ?? []).some(okStr)) only.tags = inner.tags;
  if (Object.values(p.metadata ?? {}).some(okStr)) only.meta = inner.meta;
  return attrs(only);
}
class Prog {
  want: Want = new Map();
  constructor(public w: World) {}
  leaf(s: State, what: string) {
    const o = startObservation("leaf");
    this.want.set(o.id, { want: attrs(s), what });
    o.end();
  }
  opened(s: State, what: string): string {
    const id = getActiveSpanId()!;
    this.w.assert(id && !this.want.has(id), "active", "no new active observation inside a wrapper");
    this.want.set(id, { want: attrs(s), what });
    return id;
  }
  scope(p: Params, s: State): State {
    const inner = enter(s, p);
    const act = getActiveSpanId();
    if (act) Object.assign(this.want.get(act)!.want, written(p, inner));
    return inner;
  }
}
/** nested scopes with observations before, inside and after each level */
async function nest(w: World, depth: number, alpha: Params[], bag: boolean, isAsync: boolean) {
  const R = spanRig(w);
  const P = new Prog(w);
  const fail = w.bool("innermost throws");
  const boom = new Error("x");
  const token = {};
  const syncLevel = (d: number, s: State): any => {
    const p: Params = { ...w.pick(alpha, "scope"), ...(bag ? { asBaggage: w.bool("baggage") } : {}) };
    const mode = w.choose(3, "plain|active outside|observe inside");
    const scoped = () => {
      const inner = P.scope(p, s);
      const work = () => {
        P.leaf(inner, `inside level ${d}`);
        if (d < depth) {
          try {
            return syncLevel(d + 1, inner);
          } finally {
            P.leaf(inner, `level ${d} after the inner scope`);
          }
        }
        if (fail) throw boom;
        return token;
      };
      return propagateAttributes(p as any, mode === 2 ? () => observe(() => (P.opened(inner, `observed at level ${d}`), work()), { name: "obs", captureOutput: false })() : work);
    };
    if (mode === 1) return startActiveObservation("active", () => (P.opened(s, `active around level ${d}`), scoped()));
    return scoped();
  };
  const asyncLevel = async (d: number, s: State): Promise<any> => {
    await null;
    const p: Params = { ...w.pick(alpha, "scope"), ...(bag ? { asBaggage: w.bool("baggage") } : {}) };
    const mode = w.choose(3, "plain|active outside|observe inside");
    const scoped = async () => {
      await null;
      const inner = P.scope(p, s);
      const work = async () => {
        await null;
        P.leaf(inner, `inside level ${d}`);
        if (d < depth) {
          try {
            return await asyncLevel(d + 1, inner);
          } finally {
            P.leaf(inner, `level ${d} after the inner scope`);
          }
        }
        if (fail) throw boom;
        return token;
      };
      return propagateAttributes(p as any, mode === 2 ? () => observe(async () => (P.opened(inner, `observed at level ${d}`), work()), { name: "obs", captureOutput: false })() : work);
    };
    if (mode === 1) return startActiveObservation("active", async () => (P.opened(s, `active around level ${d}`), scoped()));
    return scoped();
  };
  let err: any, res: any;
  P.leaf(EMPTY, "before");
  try {
    res = isAsync ? await asyncLevel(1, EMPTY) : syncLevel(1, EMPTY);
  } catch (e) {
    err = e;
  }
  if (err instanceof Violation) throw err;
  w.assert(fail ? err === boom : err === undefined && res === token, "outcome", () => `scope changed the outcome: ${String(err)}`);
  P.leaf(EMPTY, "after all scopes");
  await w.drain();
  verify(w, R, P.want);
  w.assert(propagation.getBaggage(context.active()) === undefined, "leak", "baggage left behind");
}
/** tasks in their own scopes, interleaved in every order */
async function concurrent(w: World, progs: Params[][], outer: Params | null, gaps: number) {
  const R = spanRig(w);
  const P = new Prog(w);
  const gates: (() => void)[][] = progs.map(() => []);
  const task = async (t: number, s0: State) => {
    const run = async (d: number, s: State): Promise<void> => {
      for (let i = 0; i < gaps; i++) {
        await new Promise<void>((r) => gates[t].push(r));
        P.leaf(s, `task ${t} level ${d}`);
      }
      if (d < progs[t].length) {
        const p = progs[t][d];
        const inner = P.scope(p, s);
        await propagateAttributes(p as any, () => run(d + 1, inner));
        P.leaf(s, `task ${t} back at level ${d}`);
      }
    };
    await run(0, s0);
  };
  const all = (s: State) => Promise.all(progs.map((_, t) => task(t, s)));
  const main = outer ? propagateAttributes(outer as any, () => all(enter(EMPTY, outer))) : all(EMPTY);
  let failed: any;
  main.catch((e: any) => (failed = e));
  await w.system({ extra: () => gates.flatMap((g, t) => (g.length ? [{ name: "task" + t, run: () => g.shift()!() }] : [])) });
  if (failed) throw failed;
  await main;
  P.leaf(EMPTY, "after");
  await w.drain();
  verify(w, R, P.want);
}

const def: CheckDef = {
  property: "T03",
  bounds: (t) => `all nestings of depth ${t === "quick" ? 2 : 3} over ${ALPHA.length + ODD.length} scopes x wrappers x sync/async x throwing; 48 value shapes per attribute with and without an enclosing scope; all interleavings of ${t === "quick" ? 2 : 3} concurrent tasks with nested scopes`,
  assumptions: ["tags are given as lists without repeated entries, metadata as plain objects"],
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [];
    for (const isAsync of [false, true]) {
      out.push({ name: `nesting 2 ${isAsync ? "async" : "sync"}`, run: (w) => nest(w, 2, ALPHA, true, isAsync) });
      out.push({ name: `nesting 3 ${isAsync ? "async" : "sync"}`, run: (w) => nest(w, 3, q ? ALPHA.slice(1, 4) : ALPHA, false, isAsync) });
    }
    for (const isAsync of [false, true]) out.push({ name: `nesting 2 unusual values ${isAsync ? "async" : "sync"}`, run: (w) => nest(w, 2, [...ODD, ALPHA[2], ALPHA[3]], true, isAsync) });
    const ONE = ["userId", "sessionId", "version", "traceName"] as const;
    for (const outer of [false, true])
      out.push({
        name: `value shapes${outer ? " inside a scope" : ""}`,
        run: async (w) => {
          const R = spanRig(w);
          const P = new Prog(w);
          const which = w.choose(9, "attribute");
          const v = w.pick(VALS, "value");
          const p: Params = which < 4 ? { [ONE[which]]: v } : which === 4 ? { tags: ["a", v, "b"] } : which === 5 ? { metadata: { a: "1", k: v } } : which === 7 ? { environment: v } : which === 8 ? { prompt: w.bool("as name") ? { name: v, version: 2 } : { name: "p", version: v } } : { tags: [v], metadata: { k: v }, userId: v };
          const asBaggage = w.bool("baggage");
          const o: Params = { userId: "ou", sessionId: "os", version: "ov", traceName: "on", tags: ["ot"], metadata: { k: "ok", o: "oo" } };
          const go = (s: State) => {
            startActiveObservation("act", () => {
              P.opened(s, "active");
              const inner = P.scope(p, s);
              propagateAttributes({ ...p, asBaggage } as any, () => P.leaf(inner, "inside"));
              P.leaf(s, "after");
            });
          };
          if (outer) propagateAttributes(o as any, () => go(enter(EMPTY, o)));
          else go(EMPTY);
          await w.drain();
          verify(w, R, P.want);
        },
      });
    // the span active at entry may have ended already, or not be recorded at all
    out.push({
      name: "scope entered under an ended or unrecorded span",
      run: async (w) => {
        const R = spanRig(w);
        const P = new Prog(w);
        const p: Params = w.pick(ALPHA.slice(0, 5), "scope"), p2: Params = w.pick(ALPHA.slice(0, 5), "inner scope");
        const asBaggage = w.bool("baggage");
        const kind = w.pick(["ended", "unrecorded", "remote"], "span");
        const span: any = kind === "ended" ? R.provider.getTracer("x").startSpan("e") : trace.wrapSpanContext({ traceId: "0af7651916cd43dd8448eb211c80319c", spanId: "b7ad6b7169203331", traceFlags: kind === "remote" ? 1 : 0, isRemote: kind === "remote" });
        if (kind === "ended") span.end();
        const isAsync = w.bool("async");
        context.with(trace.setSpan(context.active(), span), () => {
          const s1 = enter(EMPTY, p), s2 = enter(s1, p2);
          const inner = () => (P.leaf(s2, "inner scope"), startActiveObservation("a", () => (P.opened(s2, "active inside"), P.leaf(s2, "nested"))));
          if (isAsync)
            void propagateAttributes({ ...p, asBaggage } as any, async () => {
              await null;
              await propagateAttributes(p2 as any, async () => (await null, inner()));
              P.leaf(s1, "outer scope, after");
            });
          else propagateAttributes({ ...p, asBaggage } as any, () => (propagateAttributes(p2 as any, inner), P.leaf(s1, "outer scope, after")));
          P.leaf(EMPTY, "outside");
        });
        await w.drain();
        verify(w, R, P.want);
      },
    });
    out.push({
      name: "many scopes, keys and tags",
      run: async (w) => {
        const R = spanRig(w);
        const P = new Prog(w);
        const n = w.pick([12, 105], "n"); // OpenTelemetry keeps 128 attributes per span
        const asBaggage = n < 20 && w.bool("baggage");
        const shape = w.pick(["deep", "wide", "one by one"], "shape");
        const part = (i: number): Params => ({ ...(i % 3 ? { userId: "u" + i } : { sessionId: "s" + i, traceName: "n" + i }), tags: ["t" + i, ...(i ? ["t" + (i >> 1)] : [])], metadata: { ["k" + i]: "v" + i, k: "v" + i } });
        const all: Params = { tags: Array.from({ length: n }, (_, i) => "t" + i), metadata: Object.fromEntries(Array.from({ length: n }, (_, i) => ["k" + i, "v" + i])) };
        const go = (i: number, s: State): void => {
          if (i === n) return P.leaf(s, "innermost");
          const q = part(i);
          const inner = enter(s, q);
          propagateAttributes({ ...q, asBaggage } as any, () => go(i + 1, inner));
          P.leaf(s, "level " + i);
        };
        if (shape === "deep") go(0, EMPTY);
        else if (shape === "wide") propagateAttributes({ ...all, asBaggage } as any, () => (P.leaf(enter(EMPTY, all), "wide"), go(n - 3, enter(EMPTY, all))));
        else for (let i = 0; i < n; i++) (propagateAttributes({ ...part(i), asBaggage } as any, () => P.leaf(enter(EMPTY, part(i)), "scope " + i)), P.leaf(EMPTY, "between"));
        await w.drain();
        verify(w, R, P.want);
      },
    });
    out.push({
      name: "arguments are not modified",
      run: async (w) => {
        spanRig(w);
        const p: Params = { userId: "u", tags: ["a", "b"], metadata: { k: "v" } };
        const before = structuredClone(p);
        propagateAttributes(p as any, () => propagateAttributes({ tags: ["c"], metadata: { k: "w", z: "1" } }, () => startObservation("x").end()));
        w.assert(isDeepStrictEqual(p, before), "mutated", "the given parameters were modified");
      },
    });
    const A: Params = { userId: "ua", tags: ["ta"], metadata: { k: "a", a: "1" } }, B: Params = { userId: "ub", sessionId: "sb", tags: ["tb", "ta"], metadata: { k: "b" } }, C: Params = { sessionId: "sc", traceName: "nc", metadata: { c: "1" } };
    const outerP: Params = { userId: "uo", tags: ["to"], metadata: { k: "o", o: "1" }, version: "vo" };
    for (const outer of [null, outerP]) {
      const n = outer ? " in an outer scope" : "";
      out.push({ name: `2 tasks${n}`, run: (w) => concurrent(w, [[A, C], [B, A]], outer, 1) });
      out.push({ name: `2 tasks, baggage${n}`, run: (w) => concurrent(w, [[{ ...A, asBaggage: true }, C], [B]], outer, q ? 1 : 2) });
      out.push({ name: `3 tasks${n}`, run: (w) => concurrent(w, [[A], [B], []], outer, q ? 1 : 2) });
      if (!q) out.push({ name: `3 nested tasks${n}`, run: (w) => concurrent(w, [[A, C], [B, A], [C]], outer, 1) });
    }
    return out;
  },
};
export default def;
