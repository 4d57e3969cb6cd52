import type { CheckDef, Scenario, World } from "../mc/engine";
import { startObservation, startActiveObservation, observe, propagateAttributes } from "@langfuse/tracing";
import { context, trace, propagation, ROOT_CONTEXT } from "./lib/otel";
import { spanRig } from "./lib/span";
import { isDeepStrictEqual } from "node:util";

const A = { env: "langfuse.environment", rel: "langfuse.release", user: "user.id", session: "session.id", version: "langfuse.version", name: "langfuse.trace.name", tags: "langfuse.trace.tags", root: "langfuse.internal.is_app_root", pn: "langfuse.observation.prompt.name", pv: "langfuse.observation.prompt.version", type: "langfuse.observation.type" };
const REMOTE_TRACE = "0123456789abcdef0123456789abcdef";
const remote = (n: number) => ({ traceId: REMOTE_TRACE, spanId: `00000000000000a${n}`, traceFlags: 1, isRemote: true });

/** all histories of span starts/ends over a few kinds of span and parent */
type Kind = { scope: string; attrs?: any; keep: boolean };
function rootHistory(name: string, n: number, kinds: Kind[], modes: number, filter?: (p: { otelSpan: any }) => boolean): Scenario {
  return {
    name,
    run: async (w) => {
      const R = spanRig(w, { environment: "cfg", release: "rel", ...(filter ? { shouldExportSpan: filter } : {}) });
      type S = { span: any; ctx: any; keep: boolean; live: boolean; claim?: string; want: boolean };
      const made: S[] = [];
      for (let i = 0; i < n; i++) {
        if (i > 0) {
          const live = made.filter((m) => m.live);
          const e = w.choose(1 + live.length, "end");
          if (e > 0) {
            live[e - 1].live = false;
            live[e - 1].span.end();
          }
        }
        const k = w.pick(kinds, "kind");
        const p = w.choose(5 + 2 * made.length, "parent: none|remote|remote+claim|remote+other claim|claim only|earlier|earlier, through extracted headers");
        let ctx: any = ROOT_CONTEXT, claim: string | undefined, parentLiveKept = false;
        const withClaim = (c: any, v: string) => propagation.setBaggage(c, propagation.createBaggage({ langfuse_trace_id: { value: v } }));
        if (p === 1) ctx = trace.setSpanContext(ctx, remote(i));
        else if (p === 2) (ctx = withClaim(trace.setSpanContext(ctx, remote(i)), i % 2 ? REMOTE_TRACE.toUpperCase() : REMOTE_TRACE)), (claim = REMOTE_TRACE);
        else if (p === 3) (ctx = withClaim(trace.setSpanContext(ctx, remote(i)), "f".repeat(32))), (claim = "f".repeat(32));
        else if (p === 4) (ctx = withClaim(ctx, REMOTE_TRACE)), (claim = REMOTE_TRACE);
        else if (p >= 5 + made.length) {
          // the parent lives in this process, but its context came back through propagation headers
          const m = made[p - 5 - made.length];
          ctx = trace.setSpanContext(ctx, { ...m.span.spanContext(), isRemote: true });
          parentLiveKept = m.live && m.keep;
        } else if (p >= 5) {
          const m = made[p - 5];
          ctx = m.ctx;
          claim = m.claim;
          parentLiveKept = m.live && m.keep;
        }
        const mode = k.scope === "langfuse-sdk" ? w.choose(modes, "mode: plain|active|observe") : 0;
        let span: any, inner: any;
        context.with(ctx, () => {
          if (mode === 0) {
            span = k.scope === "langfuse-sdk" ? startObservation("s" + i).otelSpan : R.provider.getTracer(k.scope).startSpan("s" + i, { attributes: k.attrs }, ctx);
            inner = trace.setSpan(ctx, span);
          } else if (mode === 1)
            startActiveObservation("s" + i, (o) => {
              span = o.otelSpan;
              inner = context.active();
            }, { endOnExit: false });
          else
            observe(() => {
              span = trace.getActiveSpan();
              inner = context.active();
            }, { name: "s" + i, endOnExit: false })();
        });
        const tid = span.spanContext().traceId;
        const want = k.keep && !parentLiveKept && claim !== tid;
        made.push({ span, ctx: inner, keep: k.keep, live: true, claim: mode === 0 ? claim : tid, want });
        const got = span.attributes[A.root] === true;
        w.assert(got === want, "app-root", () => `span ${i} (${k.scope}) ${got ? "is" : "is not"} marked as application root`);
      }
      for (const m of made) if (m.live) m.span.end();
      await w.drain();
      for (const [i, m] of made.entries()) {
        const e = R.byId(m.span.spanContext().spanId);
        w.assert(!!e === m.keep, "export", `span ${i} exported: ${!!e}`);
        if (e) w.assert((e.attributes[A.root] === true) === m.want && (m.want || !(A.root in e.attributes)), "app-root", `exported span ${i}: root marker ${e.attributes[A.root]}`);
        if (e) w.assert(e.attributes[A.env] === "cfg" && e.attributes[A.rel] === "rel", "attributes", () => `exported span ${i}: environment ${e.attributes[A.env]}, release ${e.attributes[A.rel]}`);
      }
    },
  };
}

const attrsOf = (p: any): Record<string, any> => {
  const r: Record<string, any> = {};
  if (p.userId) r[A.user] = p.userId;
  if (p.sessionId) r[A.session] = p.sessionId;
  if (p.version) r[A.version] = p.version;
  if (p.traceName) r[A.name] = p.traceName;
  if (p.environment) r[A.env] = p.environment;
  if (p.tags) r[A.tags] = p.tags;
  for (const [k, v] of Object.entries(p.metadata ?? {})) r[`langfuse.trace.metadata.${k}`] = v;
  if (p.prompt) (r[A.pn] = p.prompt.name), (r[A.pv] = p.prompt.version);
  return r;
};
const FULL = { userId: "u1", sessionId: "s1", version: "v1", traceName: "n1", environment: "env-1", tags: ["t1", "t2"], metadata: { a: "1", "b.c": "2" }, prompt: { name: "p", version: 3 } };
const ODD = { userId: "0", sessionId: " s ", version: "v".repeat(200), traceName: "false", environment: "0", tags: Array.from({ length: 11 }, (_, i) => "T" + i), metadata: { "": "empty", "0": "", K: "☃ é", k: "y".repeat(200), "a.b.c": "x" }, prompt: { name: "p/é %20", version: 0 } };
const subset = (w: World, full: any, tag: string) => Object.fromEntries(Object.entries(full).filter(([k]) => w.bool(tag + k)));
const same = (w: World, e: any, want: Record<string, any>, what: string) => {
  w.assert(e, "lost", `${what}: span not exported`);
  const got = { ...e.attributes };
  delete got[A.root];
  w.assert(isDeepStrictEqual(got, want), "attributes", () => `${what}: exported ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`);
};

const def: CheckDef = {
  property: "O04",
  bounds: (t) => `all environment/release sources; all subsets of 8 propagated attributes x span kinds; all histories of ${t === "quick" ? 3 : 4} span starts with ends in between over parents none/remote/claimed/earlier span and exported/filtered scopes; concurrent contexts in all interleavings`,
  assumptions: ["filters without side effects", "propagated values of at most 200 characters"],
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [];
    out.push({
      name: "environment and release sources",
      run: async (w) => {
        const pe = w.pick([undefined, "param-env", "Prod_EU "], "param env"), ve = w.pick([undefined, "var-env", "Var Env/1"], "var env");
        const pr = w.pick([undefined, "param-rel", "V1.0 (Rel)"], "param rel"), vr = w.pick([undefined, "var-rel", "Var/REL"], "var rel");
        const prop = w.pick([undefined, "prop-env", "Not Valid", "langfuse-x", "x".repeat(41), 5 as any], "propagated env");
        const exp = w.bool("experiment");
        const own = w.pick([undefined, "own-env"], "observation env");
        const opts: any = {};
        if (pe !== undefined || w.bool("explicit undefined")) opts.environment = pe;
        if (pr !== undefined) opts.release = pr;
        const R = spanRig(w, opts, { LANGFUSE_TRACING_ENVIRONMENT: ve, LANGFUSE_RELEASE: vr });
        // values are read at construction
        w.env({ LANGFUSE_TRACING_ENVIRONMENT: "later", LANGFUSE_RELEASE: "later" });
        let id = "";
        const item = { experimentId: "e", experimentName: "n", experimentItemId: "i", experimentItemRootObservationId: "r" };
        propagateAttributes({ environment: prop, ...(exp ? { _internalExperiment: item } : {}) } as any, () => {
          const o = startObservation("s", own ? { environment: own } : {});
          id = o.id;
          o.end();
        });
        const o2 = startObservation("after");
        o2.end();
        await w.drain();
        const base: any = { [A.type]: "span" };
        const e = pe ?? ve, r = pr ?? vr;
        if (e) base[A.env] = e;
        if (r) base[A.rel] = r;
        same(w, R.byId(o2.id), base, "outside");
        const want = { ...base };
        if (prop === "prop-env") want[A.env] = prop;
        if (exp) Object.assign(want, { "langfuse.experiment.id": "e", "langfuse.experiment.name": "n", "langfuse.experiment.item.id": "i", "langfuse.experiment.item.root_observation_id": "r", [A.env]: "sdk-experiment" });
        if (own) want[A.env] = own;
        same(w, R.byId(id), want, "inside");
      },
    });
    const BASE = { [A.env]: "cfg", [A.rel]: "rel" };
    const START: [string, (R: any) => any, Record<string, any>][] = [
      ["observation", () => startObservation("x"), { [A.type]: "span" }],
      ["generation with prompt", () => startObservation("x", { prompt: { name: "own", version: 9, isFallback: false } } as any, { asType: "generation" }), { [A.type]: "generation", [A.pn]: "own", [A.pv]: 9 }],
      ["third-party with prompt", (R) => R.provider.getTracer("ai").startSpan("x", { attributes: { [A.pn]: "tp" } }), { [A.pn]: "tp" }],
      ["third-party", (R) => R.provider.getTracer("openinference.x").startSpan("x", { attributes: { z: 1 } }), { z: 1 }],
    ];
    for (const [n, start, own] of START)
      out.push({
        name: `propagated subsets: ${n}`,
        run: async (w) => {
          const R = spanRig(w, { environment: "cfg", release: "rel" });
          const p = subset(w, w.pick([FULL, ODD], "values"), "");
          const id = (s: any) => (s.otelSpan ?? s).spanContext().spanId;
          let inside: any;
          let restored: any, sibling: any;
          propagateAttributes(p as any, () => {
            inside = start(R);
            inside.end();
            sibling = startObservation("y");
            sibling.end();
            restored = context.active();
          });
          const outside = start(R);
          outside.end();
          const later: any = context.with(restored, () => start(R));
          later.end();
          await w.drain();
          const pa = attrsOf(p);
          if (n === "third-party with prompt") (delete pa[A.pn], delete pa[A.pv]);
          const want = { ...BASE, ...pa, ...own };
          same(w, R.byId(id(inside)), want, "inside the scope");
          same(w, R.byId(id(sibling)), { ...BASE, ...attrsOf(p), [A.type]: "span" }, "next to it inside the scope");
          same(w, R.byId(id(later)), want, "in the scope's context, later");
          same(w, R.byId(id(outside)), { ...BASE, ...own }, "outside the scope");
        },
      });
    // every kind of parent: the attributes are those of the scope, whatever the span hangs below
    out.push({
      name: "propagated attributes below every kind of parent",
      run: async (w) => {
        const R = spanRig(w, { environment: "cfg", release: "rel", exportMode: w.pick(["immediate", "batched"], "mode") });
        const [n, start, own] = w.pick(START, "span");
        const p: any = w.pick([{}, FULL, ODD], "values");
        const outer: any = w.pick([{}, { userId: "outer", metadata: { o: "1" }, environment: "outer-env" }], "outer scope");
        const kind = w.pick(["none", "remote", "remote unsampled flag", "running", "ended", "filtered", "other scope's span", "explicit remote", "explicit local"] as const, "parent");
        let ctx: any = ROOT_CONTEXT, opts: any;
        if (kind.startsWith("remote")) ctx = trace.setSpanContext(ctx, { ...remote(1), traceFlags: 1 });
        if (kind === "running" || kind === "ended") { const s = startObservation("parent"); ctx = trace.setSpan(ctx, s.otelSpan); if (kind === "ended") s.end(); }
        if (kind === "filtered") ctx = trace.setSpan(ctx, R.provider.getTracer("http").startSpan("h"));
        if (kind === "other scope's span") propagateAttributes({ userId: "elsewhere", tags: ["elsewhere"], environment: "elsewhere" }, () => { ctx = trace.setSpan(ctx, startObservation("parent").otelSpan); });
        if (kind === "explicit remote") opts = { parentSpanContext: remote(2) };
        if (kind === "explicit local") opts = { parentSpanContext: startObservation("parent").otelSpan.spanContext() };
        if (opts && n !== "observation") return;
        let s: any;
        context.with(ctx, () => propagateAttributes(outer, () => propagateAttributes(p, () => { s = opts ? startObservation("x", {}, opts) : start(R); })));
        const id = (s.otelSpan ?? s).spanContext().spanId;
        s.end();
        await w.settle(R.proc.forceFlush(), () => ({ status: 200 }));
        const pa: any = { ...attrsOf(outer), ...attrsOf(p) };
        if (n === "third-party with prompt") (delete pa[A.pn], delete pa[A.pv]);
        same(w, R.byId(id), { ...BASE, ...pa, ...own }, `${n} below parent "${kind}"`);
      },
    });
    // values received from an upstream process hold until a local scope sets its own
    out.push({
      name: "received values and local scopes",
      run: async (w) => {
        const R = spanRig(w, { environment: "cfg", release: "rel" });
        const up: any = subset(w, w.pick([{ ...FULL, tags: undefined }], "values"), "received ");
        for (const k of Object.keys(up)) if (up[k] === undefined) delete up[k];
        const LOCAL: any = { userId: "l-u", sessionId: "l-s", version: "l-v", traceName: "l-n", environment: "l-env", metadata: { a: "l", z: "26" }, prompt: { name: "l-p", version: 8 } };
        const mask = w.pick([0, 1, 2, 3, 4, 5, 6, 7, 8], "local");
        const ks = Object.keys(LOCAL);
        const loc: any = mask === 0 ? {} : mask === 8 ? LOCAL : { [ks[mask - 1]]: LOCAL[ks[mask - 1]] };
        let bag: any, s: any, o: any;
        propagateAttributes({ ...up, asBaggage: true } as any, () => (bag = propagation.getBaggage(context.active())));
        const ctx = bag ? propagation.setBaggage(ROOT_CONTEXT, bag) : ROOT_CONTEXT;
        context.with(ctx, () => {
          propagateAttributes(loc, () => (s = startObservation("in")));
          o = startObservation("out");
        });
        s.end();
        o.end();
        await w.drain();
        same(w, R.byId(s.id), { ...BASE, ...attrsOf(up), ...attrsOf(loc), [A.type]: "span" }, "span in the local scope");
        same(w, R.byId(o.id), { ...BASE, ...attrsOf(up), [A.type]: "span" }, "span with received values only");
      },
    });
    out.push({
      name: "attributes set after the start are not retroactive",
      run: async (w) => {
        const R = spanRig(w, { environment: "cfg", release: "rel" });
        const p = subset(w, FULL, "");
        const early = startObservation("early");
        let active: any;
        startActiveObservation("act", (a) => {
          active = a;
          propagateAttributes(p as any, () => void 0);
        });
        early.end();
        await w.drain();
        same(w, R.byId(early.id), { ...BASE, [A.type]: "span" }, "span started before");
        same(w, R.byId(active.id), { ...BASE, ...attrsOf(p), [A.type]: "span" }, "active span");
      },
    });
    // filters that decide by what a span carries at its start or end, or throw
    out.push({
      name: "app root: filters that change their mind or throw",
      run: async (w) => {
        const R = spanRig(w, { shouldExportSpan: ({ otelSpan }: any) => { if (otelSpan.attributes.boom) throw new Error("f"); return otelSpan.attributes.keep === true; } });
        const t = R.provider.getTracer("x");
        const made: { span: any; start: boolean; end: boolean; want: boolean; live: boolean }[] = [];
        for (let i = 0; i < 3; i++) {
          const k = w.pick(["keep", "late", "boom", "revoked", "no"] as const, "kind");
          const pi = w.choose(1 + made.length, "parent");
          const parent = made[pi - 1];
          if (parent && w.bool("parent ended")) (parent.live = false), parent.span.end();
          const ctx = parent ? trace.setSpan(ROOT_CONTEXT, parent.span) : ROOT_CONTEXT;
          const span: any = t.startSpan("s" + i, { attributes: k === "keep" || k === "revoked" ? { keep: true } : k === "boom" ? { keep: true, boom: true } : {} }, ctx);
          const start = k === "keep" || k === "revoked";
          made.push({ span, start, end: k === "keep" || k === "late", live: true, want: start && !(parent && parent.live && parent.start) });
          if (k === "late") span.setAttribute("keep", true);
          if (k === "revoked") span.setAttribute("keep", false);
          w.assert((span.attributes[A.root] === true) === made[i].want, "app-root", `span ${i} (${k})`);
        }
        for (const m of made) if (m.live) m.span.end();
        await w.drain();
        for (const m of made) w.assert(!!R.byId(m.span.spanContext().spanId) === m.end, "export", "end-time decision of the filter not honoured");
      },
    });
    out.push({
      name: "many spans in one scope",
      run: async (w) => {
        const R = spanRig(w, { environment: "cfg", release: "rel", exportMode: w.pick(["immediate", "batched"], "mode") });
        const p = w.pick([FULL, ODD], "values");
        const ids: string[] = [];
        propagateAttributes(p as any, () => {
          for (let i = 0; i < 120; i++) {
            const o = startObservation("s" + i);
            ids.push(o.id);
            o.end();
          }
        });
        await w.settle(R.proc.forceFlush(), () => ({ status: 200 }));
        for (const id of ids) same(w, R.byId(id), { ...BASE, ...attrsOf(p), [A.type]: "span" }, "span");
      },
    });
    out.push({
      name: "app root: many running spans",
      run: async (w) => {
        const R = spanRig(w, {});
        const n = w.pick([50, 1_100, 5_000], "running");
        const shape = w.pick(["siblings", "chain", "ended between"], "shape");
        const t = R.provider.getTracer("langfuse-sdk"), other = R.provider.getTracer("http");
        const spans: any[] = [];
        for (let i = 0; i < n; i++) {
          const parent = shape === "chain" && i ? spans[i - 1] : undefined;
          const s: any = (shape !== "chain" && i % 3 === 2 ? other : t).startSpan("p" + i, {}, parent ? trace.setSpan(ROOT_CONTEXT, parent) : ROOT_CONTEXT);
          spans.push(s);
          if (shape === "ended between" && i % 3 === 1) s.end();
          w.assert((s.attributes[A.root] === true) === (!parent && !(shape !== "chain" && i % 3 === 2)), "app-root", () => `span ${i} of ${n} (${shape})`);
        }
        for (const i of [0, 1, 2, n >> 1, n - 3, n - 2, n - 1]) {
          const live = shape === "chain" || (i % 3 !== 2 && !(shape === "ended between" && i % 3 === 1));
          const c: any = t.startSpan("c" + i, {}, trace.setSpan(ROOT_CONTEXT, spans[i]));
          w.assert((c.attributes[A.root] === true) === !live, "app-root", () => `child of span ${i} of ${n} running spans (${shape}) is ${live ? "" : "not "}marked as application root`);
          c.end();
        }
        for (const s of spans) if (!s.ended) s.end();
      },
    });
    // concurrent contexts: each thread works in its own scope, in every interleaving
    out.push({
      name: "concurrent contexts",
      run: async (w) => {
        const R = spanRig(w, { environment: "cfg", release: "rel" });
        const expect: [string, Record<string, any>, string][] = [];
        const mk = (t: number) => {
          const p: any = t === 2 ? {} : { userId: "u" + t, sessionId: "s" + t, tags: ["t" + t], metadata: { k: "m" + t } };
          const gates: (() => void)[] = [];
          const pass = () => new Promise<void>((r) => gates.push(r));
          const body = async () => {
            for (let i = 0; i < 2; i++) {
              await pass();
              const o = startObservation(`t${t}.${i}`);
              expect.push([o.id, { ...BASE, ...attrsOf(p), [A.type]: "span" }, `thread ${t}`]);
              o.end();
            }
          };
          const run = () => (t === 2 ? body() : propagateAttributes(p, body));
          return { name: "t" + t, steps: [() => void run(), () => gates.shift()!(), () => gates.shift()!()] };
        };
        await w.system({ threads: [mk(0), mk(1), ...(q ? [] : [mk(2)])] });
        await w.drain();
        for (const [id, want, what] of expect) same(w, R.byId(id), want, what);
      },
    });
    const LF: Kind = { scope: "langfuse-sdk", keep: true };
    const DROP: Kind = { scope: "http", keep: false };
    const GEN: Kind = { scope: "http", attrs: { "gen_ai.system": "x" }, keep: true };
    out.push(rootHistory("app root: 2 spans, all kinds", 2, [LF, DROP, GEN, { scope: "ai", keep: true }], 3));
    out.push(rootHistory("app root: 3 spans", 3, [LF, DROP], 2));
    out.push(rootHistory("app root: custom filter", 2, [{ scope: "a", keep: true }, { scope: "b", keep: false }, { scope: "langfuse-sdk", keep: false }], 2, ({ otelSpan }) => otelSpan.instrumentationScope.name === "a"));
    if (!q) out.push(rootHistory("app root: 3 spans, all kinds", 3, [LF, DROP, GEN], 3), rootHistory("app root: 4 spans", 4, [LF, DROP], 1));
    return out;
  },
};
export default def;
