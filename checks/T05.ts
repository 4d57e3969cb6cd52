import type { CheckDef, Scenario, World } from "../mc/engine";
import { createHash } from "node:crypto";
import { startObservation, startActiveObservation, observe, createTraceId, getActiveSpanId, getActiveTraceId, setLangfuseTracerProvider, getLangfuseTracerProvider, getLangfuseTracer } from "@langfuse/tracing";
import { Recorder, provider, useGlobal, context, trace, ROOT_CONTEXT } from "./lib/otel";
import { ParentBasedSampler, AlwaysOnSampler, AlwaysOffSampler } from "@opentelemetry/sdk-trace-base";
import { TraceState } from "@opentelemetry/core";
import { ENV0 } from "./lib/prompt";

const HEX = /^[0-9a-f]{32}$/;
const CH = ["a", "b", "A", "0", " ", "-", "ü", "☃", "😀", "\u0000", "%", "é", "e\u0301"];
function* strings(max: number): Generator<string> {
  let level = [""];
  for (let n = 1; n <= max; n++) {
    level = level.flatMap((p) => CH.map((c) => p + c));
    yield* level;
  }
}

/** histories of provider changes and observation starts with all kinds of parents */
type Sink = "global" | "A" | "B";
function history(name: string, n: number, opts: { providers: boolean; remote: boolean; modes: number[] }): Scenario {
  return {
    name,
    run: async (w: World) => {
      w.env(ENV0);
      const rec: Record<Sink, Recorder> = { global: new Recorder(), A: new Recorder(), B: new Recorder() };
      useGlobal(provider([rec.global]));
      const isolated = { A: provider([rec.A]), B: provider([rec.B]) };
      try {
        let sink: Sink = "global";
        type S = { id: string; trace: string; ctx: any; sink: Sink; parent?: string; span: any };
        const made: S[] = [];
        for (let i = 0; i < n; i++) {
          if (opts.providers) {
            const c = w.choose(4, "provider: keep|A|B|reset");
            if (c === 1 || c === 2) {
              sink = c === 1 ? "A" : "B";
              setLangfuseTracerProvider(isolated[sink]);
            } else if (c === 3) {
              sink = "global";
              setLangfuseTracerProvider(null);
            }
            if (sink !== "global") w.assert(getLangfuseTracerProvider() === isolated[sink], "provider", "the isolated provider is not the one in use");
          }
          const ai = w.choose(1 + made.length, "active");
          const act: S | undefined = ai > 0 ? made[ai - 1] : undefined;
          const REMOTE = { traceId: "ab".repeat(16), spanId: "cd".repeat(8), traceFlags: 1, isRemote: true };
          const explicit: any[] = [undefined, ...(opts.remote ? [REMOTE] : []), ...made.map((m) => m.span.spanContext())];
          const pc = explicit[w.choose(explicit.length, "explicit parent")];
          const mode = w.pick(opts.modes, "mode: start|active|observe|method");
          let span: any, inner: any;
          const check = (o: any) => {
            span = o.otelSpan ?? o;
            inner = context.active();
            w.assert(getActiveSpanId() === span.spanContext().spanId && getActiveTraceId() === span.spanContext().traceId, "active", "the ids reported inside are not those of the innermost observation");
          };
          let usedParent = pc;
          context.with(act ? act.ctx : ROOT_CONTEXT, () => {
            w.assert(getActiveSpanId() === act?.id && getActiveTraceId() === act?.trace, "active", "ids reported for the wrong span");
            if (mode === 0) {
              const o = startObservation("s" + i, {}, { parentSpanContext: pc });
              w.assert(o.id === o.otelSpan.spanContext().spanId && o.traceId === o.otelSpan.spanContext().traceId, "ids", "observation ids differ from the span's");
              w.assert(getActiveSpanId() === act?.id, "active", "starting an observation made it active");
              span = o.otelSpan;
              inner = trace.setSpan(context.active(), span);
            } else if (mode === 1) startActiveObservation("s" + i, check, { parentSpanContext: pc, endOnExit: false });
            else if (mode === 2) observe(() => check(trace.getActiveSpan()), { name: "s" + i, parentSpanContext: pc, endOnExit: false })();
            else {
              if (!made.length) {
                usedParent = undefined;
                const o = startObservation("s" + i);
                span = o.otelSpan;
              } else {
                const m = made[w.choose(made.length, "method of")];
                usedParent = m.span.spanContext();
                const o = m.span.__obs ? m.span.__obs.startObservation("s" + i) : startObservation("s" + i, {}, { parentSpanContext: usedParent });
                span = o.otelSpan;
                (span as any).__obs = o;
              }
              inner = trace.setSpan(context.active(), span);
            }
            w.assert(getActiveSpanId() === act?.id && getActiveTraceId() === act?.trace, "active", "ids changed after the call");
          });
          w.assert(getActiveSpanId() === undefined && getActiveTraceId() === undefined, "active", "ids reported outside of any observation");
          const sc = span.spanContext();
          const p = usedParent ?? (act && act.span.spanContext());
          w.assert(HEX.test(sc.traceId) && /^[0-9a-f]{16}$/.test(sc.spanId) && !/^0+$/.test(sc.traceId), "ids", "invalid ids");
          if (p) w.assert(sc.traceId === p.traceId, "trace", () => `observation ${i} is in trace ${sc.traceId}, its parent in ${p.traceId}`);
          else w.assert(!made.some((m) => m.trace === sc.traceId), "trace", "a root shares another root's trace");
          w.assert((span.parentSpanContext?.spanId ?? span.parentSpanId) === p?.spanId, "parent", () => `observation ${i}: wrong parent`);
          w.assert(!made.some((m) => m.id === sc.spanId), "ids", "span id used twice");
          made.push({ id: sc.spanId, trace: sc.traceId, ctx: inner, sink, span });
        }
        for (const m of made) m.span.end();
        for (const k of ["global", "A", "B"] as const) {
          const got = rec[k].ended.map((s: any) => s.spanContext().spanId).sort().join();
          const want = made.filter((m) => m.sink === k).map((m) => m.id).sort().join();
          w.assert(got === want, "provider", () => `${k}: received ${rec[k].ended.length} observations, expected ${made.filter((m) => m.sink === k).length}`);
        }
        for (const s of [...rec.global.ended, ...rec.A.ended, ...rec.B.ended] as any[]) w.assert(s.instrumentationScope.name === "langfuse-sdk", "scope", "wrong instrumentation scope");
      } finally {
        setLangfuseTracerProvider(null);
      }
    },
  };
}

const TYPES = ["span", "generation", "event", "agent", "tool", "chain", "retriever", "evaluator", "guardrail", "embedding"] as const;
const REMOTES: any[] = [
  { traceId: "ab".repeat(16), spanId: "cd".repeat(8), traceFlags: 1, isRemote: true },
  { traceId: "AB".repeat(16).toLowerCase().replace(/^ab/, "01"), spanId: "0".repeat(15) + "1", traceFlags: 1 },
  { traceId: "f".repeat(32), spanId: "f".repeat(16), traceFlags: 0, isRemote: true },
];
/** every observation type, entry point and kind of parent; children of every type */
const typeScen: Scenario = {
  name: "observation types and parents",
  run: async (w: World) => {
    w.env(ENV0);
    const r = new Recorder();
    useGlobal(provider([r]));
    const asType: any = w.pick(TYPES, "type"), childType: any = w.pick(TYPES, "child type");
    const kind = w.pick(["none", "active", "explicit", "explicit over active", "ended active", "ended explicit"], "parent");
    const mode = w.pick(["start", "active", "observe", "async active"], "entry point");
    const outer = startObservation("outer");
    const other = startObservation("other");
    if (kind.startsWith("ended")) outer.end(), other.end();
    const remote = kind.includes("explicit") ? w.pick([...REMOTES, other.otelSpan.spanContext()], "explicit parent") : undefined;
    const act = kind.includes("active");
    const want = remote ?? (act ? outer.otelSpan.spanContext() : undefined);
    const opts: any = { asType, ...(remote ? { parentSpanContext: remote } : {}) };
    let sc: any, child: any, span: any;
    const inside = (o: any) => {
      span = o.otelSpan ?? o;
      sc = span.spanContext();
      w.assert(getActiveSpanId() === sc.spanId && getActiveTraceId() === sc.traceId, "active", "the ids reported inside are not those of the innermost observation");
      child = startObservation("child", {}, { asType: childType } as any);
    };
    let p: any;
    await context.with(act ? trace.setSpan(ROOT_CONTEXT, outer.otelSpan) : ROOT_CONTEXT, async () => {
      const actId = act ? outer.id : undefined;
      if (mode === "start") {
        const o: any = startObservation("x", {}, opts);
        span = o.otelSpan;
        sc = span.spanContext();
        w.assert(o.id === sc.spanId && o.traceId === sc.traceId, "ids", "observation ids differ from the span's");
        child = o.startObservation ? o.startObservation("child", {}, { asType: childType }) : undefined;
        if (asType !== "event") o.end();
      } else if (mode === "active") startActiveObservation("x", inside as any, opts);
      else if (mode === "observe") observe(() => inside(trace.getActiveSpan()), { name: "x", ...opts })();
      else {
        p = startActiveObservation("x", async (o: any) => {
          inside(o);
          await null;
          w.assert(getActiveSpanId() === o.id && getActiveTraceId() === o.traceId, "active", "the active ids changed across an await");
          await new Promise((res) => setTimeout(res, 5));
          w.assert(getActiveSpanId() === o.id && getActiveTraceId() === o.traceId, "active", "the active ids changed across a timer");
        }, opts);
      }
      w.assert(getActiveSpanId() === actId, "active", "the active ids changed after the call");
    });
    if (p) {
      const st = await w.settle(p, () => ({ status: 200 }));
      if (!st.ok) throw st.error;
    }
    w.assert(getActiveSpanId() === undefined, "active", "ids reported outside of any observation");
    w.assert(HEX.test(sc.traceId) && /^[0-9a-f]{16}$/.test(sc.spanId), "ids", "invalid ids");
    if (want) w.assert(sc.traceId === want.traceId && (span.parentSpanContext?.spanId ?? span.parentSpanId) === want.spanId, "parent", () => `${asType} (${mode}, ${kind}): trace ${sc.traceId} parent ${span.parentSpanContext?.spanId}, expected ${want.traceId} ${want.spanId}`);
    else w.assert(!span.parentSpanContext && sc.traceId !== outer.traceId && sc.traceId !== other.traceId, "parent", "a root has a parent");
    if (child) {
      const cs: any = child.otelSpan;
      w.assert(cs.spanContext().traceId === sc.traceId && cs.parentSpanContext?.spanId === sc.spanId, "parent", () => `${childType} child of ${asType} (${mode}): wrong parent`);
    }
  },
};
/** sampling decision and trace state follow the explicit parent, as for a span started with OpenTelemetry itself */
const samplingScen: Scenario = {
  name: "sampling and trace state of the parent",
  run: async (w: World) => {
    w.env(ENV0);
    const r = new Recorder();
    useGlobal(provider([r], w.bool("parent based") ? { sampler: new ParentBasedSampler({ root: w.bool("root sampled") ? new AlwaysOnSampler() : new AlwaysOffSampler() }) } : {}));
    const state = w.pick([undefined, "vendor=a1,other=b 2"], "trace state");
    const parent: any = { traceId: "ad".repeat(16), spanId: "ce".repeat(8), traceFlags: w.pick([0, 1], "flags"), isRemote: w.bool("remote"), ...(state ? { traceState: new TraceState(state) } : {}) };
    const how = w.pick(["explicit", "active", "explicit over active", "none"], "parent");
    const mode = w.pick(["start", "active", "observe", "child"], "entry point");
    const asType: any = w.pick(["span", "generation", "event"], "type");
    const other = { traceId: "bb".repeat(16), spanId: "ee".repeat(8), traceFlags: 1 - parent.traceFlags, isRemote: true };
    const ctx = how === "active" ? trace.setSpanContext(ROOT_CONTEXT, parent) : how === "explicit over active" ? trace.setSpanContext(ROOT_CONTEXT, other) : ROOT_CONTEXT;
    const opts: any = { asType, ...(how.startsWith("explicit") ? { parentSpanContext: parent } : {}) };
    let span: any;
    context.with(ctx, () => {
      if (mode === "start") span = (startObservation("x", {}, opts) as any).otelSpan;
      else if (mode === "active") startActiveObservation("x", ((o: any) => void (span = o.otelSpan)) as any, { ...opts, endOnExit: false });
      else if (mode === "observe") observe(() => void (span = trace.getActiveSpan()), { name: "x", ...opts, endOnExit: false })();
      else span = (startObservation("p", {}, { ...opts, asType: "span" }) as any).startObservation("x", {}, { asType }).otelSpan;
    });
    const raw: any = getLangfuseTracer().startSpan("raw", {}, how === "none" ? ROOT_CONTEXT : trace.setSpanContext(ROOT_CONTEXT, parent));
    const a = span.spanContext(), b = raw.spanContext();
    const recorded = (s: any) => r.started.includes(s);
    w.assert(a.traceFlags === b.traceFlags && recorded(span) === recorded(raw), "sampling", () => `${mode}, ${how}: trace flags ${a.traceFlags}, recorded ${recorded(span)}; OpenTelemetry itself gives ${b.traceFlags}, ${recorded(raw)}`);
    w.assert(a.traceState?.serialize() === b.traceState?.serialize(), "trace state", () => `${mode}, ${how}: trace state ${a.traceState?.serialize()}, the parent's ${state}`);
    w.assert(how === "none" || a.traceId === parent.traceId, "trace", "another trace than the parent's");
  },
};
/** long histories of provider changes */
const longProviders = (len: number, fixed: boolean): Scenario => ({
  name: `provider changes, ${len} steps${fixed ? " (patterns)" : ""}`,
  run: async (w: World) => {
    w.env(ENV0);
    const rec: Record<Sink, Recorder> = { global: new Recorder(), A: new Recorder(), B: new Recorder() };
    useGlobal(provider([rec.global]));
    const isolated: any = { A: provider([rec.A]), B: provider([rec.B]) };
    const want: Record<Sink, number> = { global: 0, A: 0, B: 0 };
    const pat = fixed ? [w.pick<Sink>(["global", "A", "B"], "p0"), w.pick<Sink>(["global", "A", "B"], "p1"), w.pick<Sink>(["global", "A", "B"], "p2")] : [];
    const held: any[] = [];
    try {
      for (let i = 0; i < len; i++) {
        const s = fixed ? pat[i % pat.length] : w.pick<Sink>(["global", "A", "B"], "provider");
        setLangfuseTracerProvider(s === "global" ? null : isolated[s]);
        const o: any = startActiveObservation("x" + i, (o: any) => (o.startObservation("c").end(), o), { endOnExit: false });
        want[s] += 2;
        held.push(o);
        if (i >= 2) held.shift().end(); // ends after later changes
        observe(() => 0, { name: "f" })();
        want[s] += 1;
      }
      for (const o of held) o.end();
      for (const k of ["global", "A", "B"] as Sink[]) w.assert(rec[k].ended.length === want[k], "provider", () => `${k}: received ${rec[k].ended.length} observations, expected ${want[k]}`);
    } finally {
      setLangfuseTracerProvider(null);
    }
  },
});
/** concurrent tasks each see their own innermost observation across every gap */
const tasksScen = (n: number): Scenario => ({
  name: `active ids in ${n} concurrent tasks`,
  run: async (w: World) => {
    w.env(ENV0);
    const r = new Recorder();
    useGlobal(provider([r]));
    const gates: { k: string; go: () => void }[] = [];
    const gate = (k: string) => new Promise<void>((res) => gates.push({ k, go: res }));
    const at = (o: any, what: string) => w.assert(getActiveSpanId() === o?.id && getActiveTraceId() === o?.traceId, "active", () => `${what}: reported ids are not those of the innermost observation`);
    const errs: any[] = [];
    const guard = (p: Promise<any>) => p.catch((e) => errs.push(e));
    const task = (t: number) =>
      guard(
        startActiveObservation("t" + t, async (o: any) => {
          at(o, `task ${t} start`);
          await gate(`${t}a`);
          at(o, `task ${t} after a gap`);
          const inner = observe(async () => {
            const id = getActiveSpanId();
            w.assert(id !== o.id && getActiveTraceId() === o.traceId, "active", "inner observation is not active");
            await gate(`${t}b`);
            w.assert(getActiveSpanId() === id, "active", `task ${t}: ids changed across a gap`);
          }, { name: "inner" });
          const p = inner();
          at(o, `task ${t} beside a running child`);
          await p;
          at(o, `task ${t} after its child`);
        }) as any,
      );
    const ps = Array.from({ length: n }, (_, t) => task(t));
    for (let i = 0; i < 50 && (gates.length || i < 2); i++) {
      await w.drain();
      if (errs.length) throw errs[0];
      if (!gates.length) break;
      const g = gates.splice(w.choose(gates.length, "continue"), 1)[0];
      g.go();
      await w.drain();
    }
    await Promise.all(ps);
    if (errs.length) throw errs[0];
    w.assert(r.ended.length === 2 * n && new Set(r.ended.map((s: any) => s.spanContext().traceId)).size === n, "trace", "tasks share traces or lost observations");
    at(undefined, "outside");
  },
});
const SEEDS = ["a", "a\n", "a\t", "\na", " a", "a ", "A", "a\u200b", "a\ufeff", "\ufeffa", "a\u0000", "0", "00", "1", "01", "1.0", "null", "undefined", "false", "true", "NaN", "[object Object]", "{}", "session-1", "session-2", "Session-1", "session-1 ", "https://x/y?z=1", "https://x/y?z=2", "f".repeat(32), "F".repeat(32), "0".repeat(32), "ı", "i", "I", "İ", "ß", "ss", "K", "K", "Ω", "Ω", "ﬁ", "fi", "é", "e\u0301", "\ud83d\ude00", "日本", "日本語"];
const seedScen: Scenario = {
  name: "related seeds",
  run: async (w: World) => {
    const a = w.pick(SEEDS, "seed");
    const id = await createTraceId(a);
    w.assert(HEX.test(id), "format", () => `seed ${JSON.stringify(a)}: ${id}`);
    for (const b of SEEDS) w.assert(((await createTraceId(b)) === id) === (a === b), "collision", () => `seeds ${JSON.stringify(a)} and ${JSON.stringify(b)} ${a === b ? "differ" : "give the same id"}`);
    const many = await Promise.all([createTraceId(a), createTraceId(a), createTraceId()]);
    w.assert(many[0] === id && many[1] === id && many[2] !== id, "deterministic", "concurrent creation gives other ids");
  },
};

const def: CheckDef = {
  property: "T05",
  bounds: (t) => `all seeds up to length ${t === "quick" ? 3 : 4} over ${CH.length} characters; all histories of ${t === "quick" ? 3 : 4} observation starts x active span x explicit parent (earlier or remote) x entry point, with provider changes (2 isolated providers, reset) before each start; 10 types x 10 child types x 6 kinds of parent x 4 entry points; 47 related seeds; all schedules of concurrent tasks`,
  assumptions: ["seeds are non-empty well-formed Unicode strings"],
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [];
    out.push({
      name: "seeded trace ids",
      run: async (w) => {
        const len = q ? 3 : 4;
        const first = w.choose(CH.length, "first");
        const seen = new Map<string, string>();
        const all = len > 3 ? 3 : len;
        for (const s of strings(all)) {
          // each execution compares one first character's seeds with all others
          const mine = s.startsWith(CH[first]);
          const id = await createTraceId(s);
          w.assert(HEX.test(id), "format", () => `seed ${JSON.stringify(s)}: ${id}`);
          const prev = seen.get(id);
          w.assert(prev === undefined, "collision", () => `seeds ${JSON.stringify(s)} and ${JSON.stringify(prev)} give the same id`);
          seen.set(id, s);
          if (mine) {
            w.assert((await createTraceId(s)) === id, "deterministic", "the same seed gave different ids");
            w.assert(id === createHash("sha256").update(s, "utf8").digest("hex").slice(0, 32), "stable", () => `seed ${JSON.stringify(s)}: id differs from the one other processes compute`);
          }
        }
      },
    });
    out.push({
      name: "long seeds",
      run: async (w) => {
        const n = w.pick([31, 32, 33, 55, 56, 63, 64, 65, 100, 1000, 5000], "length");
        const pos = w.pick([0, 1, -1], "difference at");
        const a = "s".repeat(n);
        const i = pos < 0 ? n - 1 : pos;
        const b = a.slice(0, i) + "t" + a.slice(i + 1);
        const [x, y, z] = [await createTraceId(a), await createTraceId(b), await createTraceId(a + "s")];
        w.assert(HEX.test(x) && HEX.test(y) && x !== y && x !== z && y !== z, "collision", `seeds of length ${n} collide`);
        w.assert(x === (await createTraceId(a)), "deterministic", "different ids");
      },
    });
    out.push({
      name: "random trace ids",
      run: async (w) => {
        const seen = new Set<string>();
        for (let i = 0; i < 500; i++) {
          const id = await (i % 2 ? createTraceId() : createTraceId(undefined));
          w.assert(HEX.test(id) && !/^0+$/.test(id) && !seen.has(id), "unique", `id ${id}`);
          seen.add(id);
        }
      },
    });
    out.push({
      name: "seeded id as parent",
      run: async (w) => {
        w.env(ENV0);
        const r = new Recorder();
        useGlobal(provider([r]));
        const s = w.pick(CH, "seed");
        const traceId = await createTraceId(s);
        const p = { traceId, spanId: "0123456789abcdef", traceFlags: 1 };
        const o = startObservation("x", {}, { parentSpanContext: p });
        const c = o.startObservation("y");
        w.assert(o.traceId === traceId && c.traceId === traceId, "trace", "the created trace id was not used");
        c.end();
        o.end();
        w.assert(r.ended.length === 2, "lost", "observations lost");
      },
    });
    out.push({
      name: "tracer",
      run: async (w) => {
        w.env(ENV0);
        const g = new Recorder(), a = new Recorder();
        useGlobal(provider([g]));
        const pa = provider([a]);
        try {
          const seq = [w.bool("iso1"), w.bool("iso2"), w.bool("iso3")];
          let na = 0, ng = 0;
          for (const iso of seq) {
            setLangfuseTracerProvider(iso ? pa : null);
            getLangfuseTracer().startSpan("raw").end();
            trace.getTracer("other").startSpan("third-party").end();
            iso ? na++ : ng++;
            ng++;
          }
          w.assert(a.ended.length === na && g.ended.length === ng, "provider", `isolated got ${a.ended.length} of ${na}, global ${g.ended.length} of ${ng}`);
        } finally {
          setLangfuseTracerProvider(null);
        }
      },
    });
    out.push(history("parents, 3 starts", 3, { providers: false, remote: true, modes: [0, 1, 2, 3] }));
    out.push(history("providers, 3 starts", 3, { providers: true, remote: false, modes: [0, 1] }));
    out.push(history("providers, 2 starts", 2, { providers: true, remote: true, modes: [0, 1, 2, 3] }));
    out.push(typeScen, samplingScen, seedScen, longProviders(5, false), longProviders(12, true), tasksScen(2), tasksScen(3));
    if (!q) out.push(longProviders(8, false), tasksScen(4));
    if (!q) out.push(history("parents, 4 starts", 4, { providers: false, remote: true, modes: [0, 1] }), history("providers, 3 starts, all modes", 3, { providers: true, remote: true, modes: [0, 1, 2, 3] }));
    return out;
  },
};
export default def;
