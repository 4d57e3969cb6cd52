import type { CheckDef, Scenario, World } from "../mc/engine";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { provider, ROOT_CONTEXT, trace } from "./lib/otel";
import { ENV0 } from "./lib/prompt";
import { SamplingDecision } from "@opentelemetry/sdk-trace-base";

type Op = "end" | "drop" | "unsampled" | "boom" | "media" | "flush" | "shutdown" | "start" | "endstarted" | "pflush";
type Cfg = { mode: "batched" | "immediate"; flushAt?: number; interval?: number; mask?: "none" | "async" | "throw"; faults: number; timers: number; media?: boolean; micro?: number; slow?: boolean; burst?: number };

/** every payload field is set: processing an ended span takes many steps even without a mask */
const MANY = Object.fromEntries(["observation.output", "trace.input", "trace.output", "observation.metadata", "trace.metadata", ...Array.from({ length: 12 }, (_, i) => (i % 2 ? "observation" : "trace") + ".metadata.k" + i)].map((k) => ["langfuse." + k, "v"]));

function scen(name: string, progs: Op[][], cfg: Cfg): Scenario {
  return {
    name: `${name} ${cfg.mode} at=${cfg.flushAt} mask=${cfg.mask ?? "none"} f=${cfg.faults}${cfg.media ? " media" : ""}${cfg.micro ? " micro" + cfg.micro : ""}${cfg.slow ? " slow" : ""}${cfg.burst ? " burst" + cfg.burst : ""}`,
    run: async (w: World) => {
      w.env(ENV0);
      const exported = new Map<string, number>();
      const open: { spans: string[]; cb: (r: any) => void }[] = [];
      let faults = cfg.faults;
      const exporter = {
        export(spans: any[], cb: any) {
          const names = spans.map((s) => s.name as string);
          w.obs("export " + names.join(","));
          for (const n of names) exported.set(n, (exported.get(n) ?? 0) + 1);
          if (cfg.burst) void Promise.resolve().then(() => cb({ code: 0 }));
          else open.push({ spans: names, cb });
        },
        shutdown: async () => {},
        forceFlush: async () => {},
      };
      const maskGates: (() => void)[] = [];
      const proc = new LangfuseSpanProcessor({
        exporter: exporter as any,
        publicKey: "pk",
        secretKey: "sk",
        baseUrl: "http://lf",
        exportMode: cfg.mode,
        flushAt: cfg.flushAt,
        flushInterval: cfg.interval,
        mediaUploadEnabled: cfg.media ?? false,
        mask:
          cfg.mask === "async"
            ? ({ data }: any) => new Promise((res) => maskGates.push(() => res(data)))
            : cfg.mask === "throw"
              ? () => {
                  throw new Error("mask");
                }
              : undefined,
        shouldExportSpan: ({ otelSpan }: any) => {
          if (otelSpan.name.startsWith("boom") && otelSpan.endTime?.[0]) throw new Error("filter");
          return !otelSpan.name.startsWith("drop");
        },
      });
      const p = provider([proc as any], {
        sampler: { shouldSample: (_c: any, _t: any, n: string) => ({ decision: n.startsWith("unsampled") ? (n.endsWith("r") ? SamplingDecision.RECORD : SamplingDecision.NOT_RECORD) : SamplingDecision.RECORD_AND_SAMPLED }), toString: () => "s" },
      });
      const tracer = p.getTracer("langfuse-sdk");
      let n = 0;
      const ended: string[] = []; // names that must be exported, in end order
      const forbidden: string[] = [];
      const startedSpans: any[] = [];
      let shut = false;
      const bad: string[] = [];
      const flush = (f: () => Promise<void>, kind: string) => {
        const before = [...ended];
        return f().then(
          () => {
            w.obs(kind + " resolved");
            const miss = before.filter((s) => !exported.get(s));
            if (miss.length) bad.push(`${kind} resolved although span ${miss[0]}, ended before the call, was not exported`);
          },
          () => w.obs(kind + " rejected"),
        );
      };
      const attrs = () => (cfg.media ? { "langfuse.observation.input": "data:image/png;base64,AAEC" + n } : { "langfuse.observation.input": "x", ...(cfg.mask === "async" || cfg.burst ? {} : MANY) });
      const endSpan = (s: any, nm: string, must: boolean) => {
        // spans ending after a shutdown request carry no guarantee
        if (must && !shut) ended.push(nm);
        if (!must) forbidden.push(nm);
        s.end();
      };
      const run = (op: Op) => {
        n++;
        switch (op) {
          case "end":
          case "media": {
            const nm = "s" + n;
            for (let i = 1; i < (cfg.burst ?? 1); i++) {
              const x = `s${n}.${i}`;
              endSpan(tracer.startSpan(x, { attributes: attrs() }, ROOT_CONTEXT), x, true);
            }
            return void endSpan(tracer.startSpan(nm, { attributes: attrs() }, ROOT_CONTEXT), nm, true);
          }
          case "drop": {
            const nm = "drop" + n;
            return void endSpan(tracer.startSpan(nm, { attributes: attrs() }, ROOT_CONTEXT), nm, false);
          }
          case "boom": {
            const nm = "boom" + n;
            return void endSpan(tracer.startSpan(nm, {}, ROOT_CONTEXT), nm, false);
          }
          case "unsampled": {
            const nm = "unsampled" + n + (n % 2 ? "r" : "");
            return void endSpan(tracer.startSpan(nm, {}, ROOT_CONTEXT), nm, false);
          }
          case "start":
            return void startedSpans.push(["l" + n, tracer.startSpan("l" + n, { attributes: attrs() }, ROOT_CONTEXT)]);
          case "endstarted": {
            const e = startedSpans.pop();
            return e && endSpan(e[1], e[0], true);
          }
          case "flush":
            return flush(() => proc.forceFlush(), "forceFlush");
          case "pflush":
            return flush(() => p.forceFlush(), "provider.forceFlush");
          case "shutdown": {
            shut = true;
            return flush(() => proc.shutdown(), "shutdown");
          }
        }
      };
      const inv = () => {
        if (bad.length) w.fail("flush-incomplete", bad[0]);
        for (const f of forbidden) w.assert(!exported.get(f), "filtered-exported", `span ${f}, rejected by the filter or not sampled, was exported`);
        for (const [k, c] of exported) w.assert(c === 1, "exported-twice", `span ${k} was handed to the exporter ${c} times`);
      };
      const finishExport = (i: number, code: number) => {
        const e = open.splice(i, 1)[0];
        e.cb(code === 0 ? { code: 0 } : { code: 1, error: new Error("export failed") });
      };
      w.onFetch = (r) => r.reply(r.method === "POST" ? { status: 200, json: { mediaId: "m", uploadUrl: null } } : { status: 200, json: {} });
      await w.system({
        threads: progs.map((ops, i) => ({ name: "T" + i, steps: ops.map((op) => () => run(op)) })),
        microBudget: cfg.micro ?? 0,
        microDepth: 7,
        timerBudget: cfg.timers,
        timerHorizon: 6000,
        extra: () => [
          ...(cfg.slow ? [] : open).flatMap((e, i) => [
            { name: `export ok ${i}`, run: () => finishExport(i, 0) },
            ...(faults > 0 ? [{ name: `export fails ${i}`, run: () => { faults--; finishExport(i, 1); } }] : []),
          ]),
          ...maskGates.map((g) => ({ name: "mask", run: () => { maskGates.splice(maskGates.indexOf(g), 1); g(); } })),
        ],
        invariant: inv,
      });
      // let everything finish: exports succeed, timers run
      for (let i = 0; i < 60 + 30 * (cfg.burst ?? 0); i++) {
        await w.drain();
        inv();
        // slow exporter: answers only after the export timeout passed
        if (cfg.slow && w.nextTimer() && w.nextTimer()!.due - w.now <= 60_000) {
          await w.fireNext();
          if (ended.every((e) => exported.get(e))) break;
        } else if (maskGates.length) maskGates.shift()!();
        else if (open.length) finishExport(0, 0);
        else if (ended.every((e) => exported.get(e))) break;
        else if (w.nextTimer() && w.nextTimer()!.due - w.now <= 60_000) await w.fireNext();
        else break;
      }
      await w.drain();
      inv();
      for (const e of ended) w.assert(exported.get(e) === 1, "lost", `span ${e} ended but is never exported`);
    },
  };
}
const def: CheckDef = {
  property: "O01",
  bounds: (t) => `up to 3 threads and 6 operations (span ends, filtered/unsampled spans, flushes, shutdown), ${t === "quick" ? 1 : 2} interleaved timer firings, export completions in any order with up to ${t === "quick" ? 1 : 2} failures, asynchronous or throwing masks; batch sizes 1, 2, default; batched and immediate; one step placed at each of the first 7 microtask ticks after the previous one; exporters slower than the export timeout; bursts of up to 1200 spans; up to 2040 spans behind a slow mask`,
  assumptions: ["fewer spans are queued than the OpenTelemetry batch processor's queue capacity", "a span counts as exported once it was handed to the exporter"],
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [];
    const progs: [string, Op[][]][] = [
      ["e;F|e;F", [["end", "flush"], ["end", "flush"]]],
      ["e;e;e;S", [["end", "end", "end", "shutdown"]]],
      ["e;e|F;F", [["end", "end"], ["flush", "flush"]]],
      ["e;d;u|b;e;F", [["end", "drop", "unsampled"], ["boom", "end", "flush"]]],
      ["s;s;x;x|F", [["start", "start", "endstarted", "endstarted"], ["flush"]]],
      ["e;S|e;F", [["end", "shutdown"], ["end", "flush"]]],
      ["e;P;e;F", [["end", "pflush", "end", "flush"]]],
      ["e;e;e", [["end", "end", "end"]]],
    ];
    if (!q) progs.push(["e;F|e;F|e;S", [["end", "flush"], ["end", "flush"], ["end", "shutdown"]]], ["e;e;e;F|e;F", [["end", "end", "end", "flush"], ["end", "flush"]]], ["e;e;F;e|e;d", [["end", "end", "flush", "end"], ["end", "drop"]]]);
    for (const [n, p] of progs)
      for (const mode of ["batched", "immediate"] as const)
        for (const at of mode === "batched" ? [undefined, 1, 2] : [undefined])
          for (const mask of ["none", "async", "throw"] as const) {
            if (mask === "throw" && at !== undefined) continue;
            out.push(scen(n, p, { mode, flushAt: at, mask, faults: q ? (mask === "async" ? 0 : 1) : 2, timers: q ? 1 : 2 }));
            if (mask === "none") out.push(scen(n, p, { mode, flushAt: at, mask, faults: 0, timers: 1, media: true }));
          }
    // a span may end, or a flush be called, while the microtasks of the previous step are still running
    for (const [n, p] of progs.slice(0, 6))
      for (const mode of ["batched", "immediate"] as const)
        for (const mask of ["none", "throw"] as const)
          for (const media of [false, true]) {
            if (media && mask === "throw") continue;
            out.push(scen(n, p, { mode, flushAt: 1, mask, faults: 0, timers: 0, micro: q ? 1 : 2, media }));
          }
    // an exporter that does not answer before its timeout
    for (const [n, p] of progs.slice(0, 8)) for (const at of [undefined, 1, 2]) out.push(scen(n, p, { mode: "batched", flushAt: at, mask: "none", faults: 0, timers: q ? 1 : 2, slow: true }));
    // many spans
    for (const [n, p] of [progs[0], progs[2], progs[6], progs[7]])
      for (const at of [undefined, 1, 7, 100]) for (const mode of ["batched", "immediate"] as const) if (mode === "batched" || at === undefined) out.push(scen(n, p, { mode, flushAt: at, mask: "none", faults: 0, timers: 1, burst: at === 1 ? 12 : at === undefined && mode === "batched" ? 600 : 120 }));
    // many spans wait for a slow mask when a flush or shutdown is called
    for (const mode of ["batched", "immediate"] as const)
      for (const media of [false, true])
        out.push({
          name: `many spans behind a slow mask ${mode}${media ? " media" : ""}`,
          run: async (w) => {
            w.env(ENV0);
            const exported: string[] = [];
            const gates: (() => void)[] = [];
            const proc = new LangfuseSpanProcessor({ exporter: { export: (s: any[], cb: any) => { exported.push(...s.map((x) => x.name)); void Promise.resolve().then(() => cb({ code: 0 })); }, shutdown: async () => {}, forceFlush: async () => {} } as any, publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", exportMode: mode, mediaUploadEnabled: media, mask: ({ data }: any) => new Promise((res) => gates.push(() => res(data))) });
            const t = provider([proc as any]).getTracer("langfuse-sdk");
            w.onFetch = (r) => r.reply({ status: 200, json: { mediaId: "m", uploadUrl: null } });
            const n = w.pick([3, 101, 260, 600, 1100, 2040], "spans");
            for (let i = 0; i < n; i++) t.startSpan("s" + i, { attributes: { "langfuse.observation.input": "x" + i } }, ROOT_CONTEXT).end();
            await w.drain();
            const shut = w.bool("shutdown");
            let done = false;
            (shut ? proc.shutdown() : proc.forceFlush()).then(() => (done = true), () => (done = true));
            const order = w.pick(["first", "last", "middle"], "release order");
            while (gates.length) {
              await w.drain();
              w.assert(!done, "flush-incomplete", `${shut ? "shutdown" : "forceFlush"} resolved while ${gates.length} of ${n} ended spans still wait for their mask`);
              gates.splice(order === "first" ? 0 : order === "last" ? gates.length - 1 : gates.length >> 1, 1)[0]();
            }
            for (let i = 0; i < 20 && !done; i++) {
              await w.drain();
              if (!done && w.nextTimer()) await w.fireNext();
            }
            w.assert(done, "stuck", "the flush never settles");
            w.assert(exported.length === n && new Set(exported).size === n, "lost", `${n} spans ended, ${exported.length} exported when the flush resolved`);
          },
        });
    return out;
  },
};
export default def;
