import type { CheckDef, Scenario, World } from "../mc/engine";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { startObservation, startActiveObservation, propagateAttributes, updateActiveObservation, setActiveTraceIO } from "@langfuse/tracing";
import { provider, useGlobal, ROOT_CONTEXT, context, trace, propagation } from "./lib/otel";
import { configureGlobalLogger, LogLevel } from "@langfuse/core";
import { ENV0 } from "./lib/prompt";
import { isDeepStrictEqual } from "node:util";
import { createHash } from "node:crypto";

/** is this attribute input, output or metadata of an observation or trace? */
const payload = (k: string) => /^langfuse\.(observation|trace)\.(input|output|metadata)(\..*)?$/.test(k);
const PLACEHOLDER = "<fully masked due to failed mask function>";
type Mask = { name: string; fn?: (p: { data: any }) => any; want: (orig: any) => any };
const MASKS: Mask[] = [
  { name: "wrap", fn: ({ data }) => `M(${data})`, want: (o) => `M(${o})` },
  { name: "constant", fn: () => "***", want: () => "***" },
  { name: "async wrap", fn: async ({ data }) => `A(${data})`, want: (o) => `A(${o})` },
  { name: "late wrap", fn: ({ data }) => new Promise((r) => setTimeout(() => r(`L(${data})`), 50)), want: (o) => `L(${o})` },
  { name: "very late wrap", fn: ({ data }) => new Promise((r) => setTimeout(() => r(`V(${data})`), 3_600_000)), want: (o) => `V(${o})` },
  { name: "throws", fn: () => { throw new Error("mask failed SECRET"); }, want: () => PLACEHOLDER },
  { name: "throws undefined", fn: () => { throw undefined; }, want: () => PLACEHOLDER },
  { name: "rejects", fn: () => Promise.reject(new Error("no")), want: () => PLACEHOLDER },
  { name: "throws on some", fn: ({ data }) => { if (String(data).includes("b")) throw new Error("x"); return `S(${data})`; }, want: (o) => (String(o).includes("b") ? PLACEHOLDER : `S(${o})`) },
  { name: "identity", fn: ({ data }) => data, want: (o) => o },
  { name: "empty", fn: () => "", want: () => "" },
  { name: "number", fn: () => 7, want: () => 7 },
  { name: "undefined", fn: () => undefined, want: () => undefined },
  { name: "null", fn: async () => null, want: () => null },
  { name: "false", fn: () => false, want: () => false },
  { name: "zero", fn: () => 0, want: () => 0 },
  { name: "object", fn: () => ({ masked: true }), want: () => ({ masked: true }) },
  { name: "array", fn: async () => ["m"], want: () => ["m"] },
  { name: "thenable", fn: () => ({ then: (res: any) => res("T") }), want: () => "T" },
  { name: "rejects late", fn: () => new Promise((_, rej) => setTimeout(() => rej("late"), 20)), want: () => PLACEHOLDER },
  { name: "throws string", fn: () => { throw "SECRET"; }, want: () => PLACEHOLDER },
  { name: "drops some", fn: ({ data }) => (String(data).includes("b") ? undefined : `D(${data})`), want: (o) => (String(o).includes("b") ? undefined : `D(${o})`) },
  { name: "none", fn: undefined, want: (o) => o },
];
const VALS: any[] = ["SECRET a", "", 0, false, "SECRET".repeat(2000), { k: "SECRET b", n: [1, { z: "SECRET" }] }, ["SECRET"], 5, "@@@langfuseMedia:type=image/png|id=x|source=bytes@@@ SECRET", "data:text/plain,SECRET"];
const METAS: any[] = ["SECRET m", { a: "SECRET m1", "b.c": { d: "SECRET m2" }, e: 3 }, ["SECRET"], { "": "SECRET empty key", input: "SECRET" }, "", { "SECRET é": [], "0": null, long: "SECRET".repeat(60), "langfuse.trace.name": "SECRET", f: false }, { ref: "@@@langfuseMedia:type=SECRET|id=x|source=bytes@@@" }];
const TYPES = ["span", "generation", "event", "embedding", "agent", "tool", "chain", "retriever", "evaluator", "guardrail"] as const;
let types: readonly string[] = TYPES;
type Way = { name: string; run: (w: World) => void };
const WAYS: Way[] = [
  { name: "at creation", run: (w) => { const o: any = startObservation("s", { input: w.pick(VALS, "in"), output: w.pick(VALS, "out"), metadata: w.pick(METAS, "meta"), statusMessage: "st", level: "WARNING" as any, version: "v" }, { asType: w.pick(types, "type") } as any); o.end(); } },
  { name: "by update", run: (w) => { const o: any = startObservation("s", { input: "first", metadata: { a: "old", keep: "SECRET keep" } }, { asType: w.pick(types.filter((t) => t !== "event"), "type") } as any); o.update({ input: w.pick(VALS, "in") }); o.update({ output: w.pick(VALS, "out"), metadata: w.pick(METAS, "meta") }); o.end(); } },
  { name: "active update", run: (w) => { startActiveObservation("s", () => { updateActiveObservation({ input: w.pick(VALS, "in"), output: w.pick(VALS, "out"), metadata: w.pick(METAS, "meta") } as any); setActiveTraceIO({ input: w.pick(VALS, "tin"), output: "SECRET tout" }); }); } },
  { name: "trace io", run: (w) => { const o: any = startObservation("s", { input: "SECRET i" }); o.setTraceIO({ input: w.pick(VALS, "tin"), output: w.pick(VALS, "tout") }); o.end(); } },
  { name: "propagated", run: (w) => { propagateAttributes({ userId: "u", sessionId: "se", tags: ["t"], metadata: { a: "SECRET pa", "x.y": "SECRET pb" } }, () => { startActiveObservation("outer", (s) => { propagateAttributes({ metadata: { z: "SECRET pz" } }, () => { const o = startObservation("s", { input: w.pick(VALS, "in"), metadata: w.pick(METAS, "meta") } as any); o.end(); }); }); }); } },
  { name: "from baggage", run: (w) => { const b = propagation.createBaggage({ langfuse_metadata_k: { value: "SECRET bag" }, langfuse_user_id: { value: "ub" } }); context.with(propagation.setBaggage(ROOT_CONTEXT, b), () => { startObservation("s", { output: w.pick(VALS, "out") } as any).end(); }); } },
  { name: "raw attributes", run: (w) => { const keys = ["langfuse.observation.input", "langfuse.observation.output", "langfuse.trace.input", "langfuse.trace.output", "langfuse.observation.metadata", "langfuse.trace.metadata", "langfuse.observation.metadata.q", "langfuse.trace.metadata.q.r", "langfuse.observation.metadata.input"]; const a: any = { "langfuse.observation.type": "generation", "langfuse.observation.model.name": "gpt", "gen_ai.system": "x", "langfuse.trace.name": "tn", "langfuse.observation.inputs": "not payload" }; for (const k of keys) if (w.bool(k)) a[k] = k.endsWith("q") ? 12 : "SECRET raw b"; trace.getTracer("langfuse-sdk").startSpan("s", { attributes: a }).end(); } },
  { name: "raw values", run: (w) => { const a: any = { "langfuse.observation.type": "span" }; for (const k of [w.pick(["langfuse.observation.input", "langfuse.observation.output", "langfuse.trace.input", "langfuse.trace.output", "langfuse.observation.metadata", "langfuse.trace.metadata"], "key"), w.pick(["langfuse.observation.metadata.q", "langfuse.trace.metadata.b"], "metadata key")]) a[k] = w.pick<any>([["SECRET a", "b"], ["SECRET"], [], [1, 2], 12, 0, 0.5, false, true, ""], "value"); trace.getTracer("langfuse-sdk").startSpan("s", { attributes: a }).end(); } },
  { name: "many keys", run: () => { const o: any = startObservation("s", { input: "SECRET", metadata: Object.fromEntries(Array.from({ length: 108 }, (_, i) => ["k" + i, "SECRET " + i])) }); o.end(); } },
  { name: "many spans", run: () => { const all: any[] = Array.from({ length: 130 }, (_, i) => startObservation("s" + i, { input: "SECRET " + i, output: { i }, metadata: { k: "SECRET " + i } })); all.forEach((o) => o.end()); } },
  { name: "large values", run: (w) => { const big = "b".repeat(1_200_000) + " SECRET end"; const o: any = startObservation("s", { input: big, output: { l: [big] }, metadata: { k: big, n: { d: big } } } as any); o.setTraceIO({ input: [big] }); o.end(); void w; } },
  { name: "all fields", run: (w) => { const g = startObservation("s", { input: "SECRET", output: "SECRET", metadata: { m: "SECRET" }, model: "gpt", modelParameters: { t: 1 }, usageDetails: { input: 2 }, costDetails: { input: 0.5 }, completionStartTime: new Date(0), prompt: { name: "p", version: 3, isFallback: false }, level: "ERROR", statusMessage: "sm", version: "1", environment: "prod" } as any, { asType: "generation" }); g.end(); void w; } },
];

async function run(w: World, way: Way, mask: Mask, mode: "immediate" | "batched", media: boolean, debug: boolean) {
  w.env({ ...ENV0, LANGFUSE_TRACING_ENVIRONMENT: "envx" });
  configureGlobalLogger({ level: debug ? LogLevel.DEBUG : LogLevel.ERROR });
  const exported: any[] = [];
  const exporter = { export: (s: any[], cb: any) => { for (const x of s) exported.push({ name: x.name, attributes: { ...x.attributes } }); cb({ code: 0 }); }, shutdown: async () => {}, forceFlush: async () => {} };
  const proc = new LangfuseSpanProcessor({ exporter: exporter as any, publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", exportMode: mode, mediaUploadEnabled: media, mask: mask.fn, release: "r1" });
  // what was on each span when it ended (before masking: this processor runs first)
  const orig: Record<string, any>[] = [];
  const before = { onStart() {}, onEnd: (s: any) => orig.push({ ...s.attributes }), forceFlush: async () => {}, shutdown: async () => {} };
  useGlobal(provider([before as any, proc as any]));
  way.run(w);
    const r = await w.settle(proc.forceFlush(), () => ({ status: 200, json: {} }), 1e12, 20_000);
  w.assert(r.done && r.ok, "flush", () => `flush failed ${r.error}`);
  w.assert(exported.length === orig.length && orig.length > 0, "span-count", `${exported.length} of ${orig.length} spans exported`);
  const used = new Set<number>();
  orig.forEach((o) => {
    // spans may be exported in another order when masks are slow: match by identity of non-payload attributes
    const np = (x: Record<string, any>) => Object.fromEntries(Object.entries(x).filter(([k]) => !payload(k)));
    const exp: Record<string, any> = np(o);
    for (const k of Object.keys(o)) if (payload(k)) exp[k] = mask.want(o[k]);
    const i = exported.findIndex((e, j) => !used.has(j) && isDeepStrictEqual(e.attributes, exp));
    if (i < 0) {
      const e = exported.find((_, j) => !used.has(j));
      for (const k of new Set([...Object.keys(exp), ...Object.keys(e.attributes)]))
        if (exported.filter((_, j) => !used.has(j)).length === 1 || exported.length === 1)
          w.assert(isDeepStrictEqual(e.attributes[k], exp[k]), payload(k) ? "unmasked" : "other-changed", () => `attribute ${k}: exported ${JSON.stringify(e.attributes[k])}, expected ${JSON.stringify(exp[k])} (original ${JSON.stringify(o[k])})`);
      w.fail("unmasked", `no exported span equals the masked span; expected ${JSON.stringify(exp)}, exported ${JSON.stringify(exported.map((e) => e.attributes))}`);
    }
    used.add(i);
  });
  if (!["identity", "none"].includes(mask.name) && !/wrap|some/.test(mask.name)) for (const e of exported) for (const [k, v] of Object.entries(e.attributes)) w.assert(!String(v).includes("SECRET"), "unmasked", () => `attribute ${k} still holds ${JSON.stringify(v)}`);
}
/** media in masked data: only what the masking function leaves may be uploaded */
const uri = (t: string, b: number[]) => `data:${t};base64,${Buffer.from(b).toString("base64")}`;
const SECRET_URI = uri("image/png", [1, 2, 3, 83]), OTHER_URI = uri("text/plain", [9, 9]), PUBLIC_URI = uri("image/png", [7, 7, 7]);
const MEDIA_MASKS: { name: string; fn: (p: { data: any }) => any; want: (o: string) => string }[] = [
  { name: "constant", fn: () => "***", want: () => "***" },
  { name: "removes", fn: ({ data }) => String(data).split(SECRET_URI).join("[removed]"), want: (o) => o.split(SECRET_URI).join("[removed]") },
  { name: "removes late", fn: ({ data }) => new Promise((r) => setTimeout(() => r(String(data).split(SECRET_URI).join("[removed]")), 30)), want: (o) => o.split(SECRET_URI).join("[removed]") },
  { name: "replaces", fn: async ({ data }) => String(data).split(SECRET_URI).join(PUBLIC_URI), want: (o) => o.split(SECRET_URI).join(PUBLIC_URI) },
  { name: "throws", fn: () => { throw new Error("x"); }, want: () => PLACEHOLDER },
  { name: "throws on secret", fn: ({ data }) => { if (String(data).includes(SECRET_URI)) throw new Error("x"); return data; }, want: (o) => (o.includes(SECRET_URI) ? PLACEHOLDER : o) },
  { name: "identity", fn: ({ data }) => data, want: (o) => o },
];
const shaOf = (u: string) => createHash("sha256").update(Buffer.from(u.slice(u.indexOf(",") + 1), "base64")).digest("base64");
const mediaScen = (mask: (typeof MEDIA_MASKS)[number]): Scenario => ({
  name: `media, mask ${mask.name}`,
  run: async (w) => {
    w.env(ENV0);
    const exported: any[] = [];
    const exporter = { export: (s: any[], cb: any) => { for (const x of s) exported.push({ ...x.attributes }); cb({ code: 0 }); }, shutdown: async () => {}, forceFlush: async () => {} };
    const proc = new LangfuseSpanProcessor({ exporter: exporter as any, publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", exportMode: w.pick(["immediate", "batched"] as const, "mode"), mask: mask.fn });
    const orig: Record<string, any>[] = [];
    useGlobal(provider([{ onStart() {}, onEnd: (s: any) => orig.push({ ...s.attributes }), forceFlush: async () => {}, shutdown: async () => {} } as any, proc as any]));
    const V: any[] = [SECRET_URI, `text ${SECRET_URI} and ${OTHER_URI}`, { a: [SECRET_URI], b: OTHER_URI }, OTHER_URI, "none"];
    const v = w.pick(V, "value"), where = w.pick(["input", "output", "metadata", "metadata key", "trace input", "trace output"], "field"), other = w.pick([undefined, OTHER_URI, SECRET_URI], "another field");
    const o: any = startObservation("s", { ...(where === "input" ? { input: v } : where === "output" ? { output: v } : where === "metadata" ? { metadata: typeof v === "object" ? [v] : v } : where === "metadata key" ? { metadata: { k: v } } : {}), ...(other ? (where === "output" ? { input: other } : { output: other }) : {}) });
    if (where.startsWith("trace")) o.setTraceIO({ [where.slice(6)]: v });
    o.end();
    const ids = new Map<string, string>();
    const r = await w.settle(proc.forceFlush(), (q) => {
      if (q.method === "POST" && /\/media$/.test(q.path)) {
        const id = q.json.sha256Hash.replace(/\+/g, "-").replace(/\//g, "_").slice(0, 22);
        ids.set(id, q.json.sha256Hash);
        return { status: 200, json: { mediaId: id, uploadUrl: "http://storage/" + id } };
      }
      return { status: 200, json: {} };
    });
    w.assert(r.done && r.ok && exported.length === 1 && orig.length === 1, "flush", "flush failed");
    const want = new Set<string>();
    for (const [k, val] of Object.entries(orig[0])) if (payload(k)) {
      const m = mask.want(val as string);
      for (const u of [SECRET_URI, OTHER_URI, PUBLIC_URI]) if (m.includes(u)) want.add(shaOf(u));
      let rest: any = m;
      for (const u of [SECRET_URI, OTHER_URI, PUBLIC_URI]) rest = rest.split(u).join("#");
      const got = String(exported[0][k]).replace(/@@@langfuseMedia:[^@]*@@@/g, "#");
      w.assert(got === rest, "unmasked", () => `attribute ${k}: exported ${JSON.stringify(exported[0][k])}, the masked value is ${JSON.stringify(m)}`);
    }
    const sent = new Set(ids.values());
    for (const q of w.reqs) if (q.method === "PUT") sent.add(createHash("sha256").update(Buffer.from(q.body as any)).digest("base64"));
    for (const h of sent) w.assert(want.has(h), "media-unmasked", "media that masking had removed was registered or uploaded");
    for (const h of want) w.assert(sent.has(h), "media-missing", "media kept by the masking function was not uploaded");
  },
});
const def: CheckDef = {
  property: "O02",
  bounds: (t) => `23 masking behaviours (change, constant, async, late, throwing, rejecting, partially throwing, identity, empty, undefined/null/falsy, non-string, thenable), debug logging on or off, x 8 ways of setting data x all value/metadata shapes and ${t === "quick" ? 3 : 10} observation types x export modes; media in masked fields x 7 masks`,
  assumptions: ["data set under Langfuse's input/output/metadata attributes; other instrumentations' own payload attributes are not covered"],
  scenarios: (tier) => {
    const out: Scenario[] = [];
    types = tier === "quick" ? ["span", "generation", "event"] : TYPES;
    for (const way of WAYS) for (const mask of MASKS) out.push({ name: `${way.name}, mask ${mask.name}`, run: (w) => run(w, way, mask, way.name === "raw attributes" ? "immediate" : w.pick(["immediate", "batched"] as const, "mode"), w.bool("media"), ["by update", "propagated", "all fields"].includes(way.name) && w.bool("debug")) });
    for (const m of MEDIA_MASKS) out.push(mediaScen(m));
    return out;
  },
};
export default def;
