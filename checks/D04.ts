import { isDeepStrictEqual } from "node:util";
import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { startObservation, startActiveObservation } from "@langfuse/tracing";
import { setupOtel, client, goodReply, isLink, trace } from "./lib/exp";
import { context, ROOT_CONTEXT } from "./lib/otel";

const show = (v: any) => JSON.stringify(v);
const RUNS = ["r", " r\n", "e\u0301", "run / 1", "Ünï %20", "", "R".repeat(300), "__proto__"];
const ARGS: any[] = [undefined, {}, { description: "d" }, { metadata: { a: [1, null, ""] } }, { description: "", metadata: null }, { description: "d 2", metadata: "text" }, { metadata: 0 }];
const IDS = ["it 0", "it/1", "Ü"];
async function load(w: World, n: number, version?: string) {
  const c = client(w);
  const stored = Array.from({ length: n }, (_, i) => ({ id: IDS[i], datasetId: "ds1", datasetName: "s", status: "ACTIVE", input: i, expectedOutput: null, metadata: null, createdAt: "x", updatedAt: "x" }));
  const answer = (r: Req): Reply => {
    if (/\/v2\/datasets\//.test(r.path)) return { status: 200, json: { id: "ds1", name: "s" } };
    return { status: 200, json: { data: stored, meta: { page: 1, limit: 50, totalItems: n, totalPages: 1 } } };
  };
  const g = await w.settle(c.dataset.get("s", version ? { version } : undefined), answer);
  w.assert(g.ok, "get", () => `dataset.get rejected ${g.error}`);
  return g.value;
}
const spanOf = (w: World, kind: string): any => {
  if (kind === "generation") return startObservation("g", {}, { asType: "generation" });
  if (kind === "child") return startObservation("p").startObservation("c", {}, { asType: "tool" });
  if (kind === "ended") { const s = startObservation("e"); s.end(); return s; }
  if (kind === "event") return startObservation("ev", {}, { asType: "event" });
  if (kind === "otel") return { otelSpan: trace.getTracer("other").startSpan("x") };
  if (kind === "active") { let o: any; startActiveObservation("a", (s) => { startActiveObservation("b", () => {}); o = s; }); return o; }
  return startObservation("s");
};
const KINDS = ["span", "generation", "child", "ended", "event", "otel", "active"];
const answerOf = (r: Req) => ({ ...(goodReply(r) as any).json, marker: r.id });
const want = (id: string, run: string, s: any, args: any) => {
  const c = s.otelSpan.spanContext();
  return JSON.parse(JSON.stringify({ runName: run, datasetItemId: id, traceId: c.traceId, observationId: c.spanId, runDescription: args?.description, metadata: args?.metadata }));
};
const strip = (j: any) => Object.fromEntries(Object.entries(j).filter(([, v]) => v !== undefined));

const single: Scenario = {
  name: "one link",
  run: async (w) => {
    setupOtel(w);
    const ds = await load(w, 3, w.pick([undefined, "2026-01-21T14:35:42Z"], "version"));
    const i = w.choose(3, "item"), run = w.pick(RUNS, "run"), args = w.pick(ARGS, "args"), s = spanOf(w, w.pick(KINDS, "span"));
    const before = show(args);
    const link = w.bool("detached") ? ds.items[i].link : (...a: any[]) => ds.items[i].link(...a);
    // whatever is active at the call must not matter
    const around = w.pick(["nothing", "another observation", "the parent's trace"], "active");
    const call = () => (args === undefined ? link(s, run) : link(s, run, args));
    const p = around === "nothing" ? call() : around === "another observation" ? startActiveObservation("other", async () => await call()) : context.with(trace.setSpanContext(ROOT_CONTEXT, { ...s.otelSpan.spanContext(), spanId: "00000000000000aa" }), call);
    const st = await w.settle(p, (r) => ({ status: 200, json: answerOf(r) }));
    const ls = w.reqs.filter(isLink);
    w.assert(ls.length === 1, "count", `${ls.length} link requests`);
    w.assert(ls[0].method === "POST", "method", ls[0].method);
    w.assert(isDeepStrictEqual(strip(ls[0].json), strip(want(IDS[i], run, s, args))), "body", () => `linked as ${show(ls[0].json)}, expected ${show(want(IDS[i], run, s, args))}`);
    w.assert(st.ok && isDeepStrictEqual(st.value, JSON.parse(show(answerOf(ls[0])))), "answer", () => `resolved with ${show(st.value)}`);
    w.assert(show(args) === before, "modified", "the arguments were modified");
  },
};
const faults: Scenario = {
  name: "failing links",
  run: async (w) => {
    setupOtel(w);
    const ds = await load(w, 1);
    const kind = w.pick(["400", "404", "500", "503", "net", "html"], "fault");
    const recover = (kind === "500" || kind === "503") && w.bool("recovers");
    let n = 0;
    const st = await w.settle(ds.items[0].link(spanOf(w, "span"), "r"), (r) => {
      n++;
      if (recover && n === 2) return { status: 200, json: answerOf(r) };
      if (kind === "net") return { error: new TypeError("fetch failed") };
      if (kind === "html") return { status: 200, text: "<html>", headers: { "content-type": "text/html" } };
      return { status: Number(kind), json: { message: "m" } };
    });
    w.assert(st.done && st.ok === recover, "failure", () => `a link answered ${kind}${recover ? " then 200" : ""} ${st.ok ? "resolved" : "rejected"}`);
    if (!st.ok && /^\d+$/.test(kind)) w.assert((st.error as any).statusCode === Number(kind), "status", () => `error carries status ${(st.error as any).statusCode}`);
  },
};
const conc = (n: number): Scenario => ({
  name: `${n} concurrent links`,
  run: async (w) => {
    setupOtel(w);
    const ds = await load(w, 3);
    const jobs = Array.from({ length: n }, (_, k) => ({ i: (k * 2) % 3, run: "r" + (k % 2), s: spanOf(w, KINDS[k]), args: k % 2 ? { description: "d" + k, metadata: { k } } : undefined, st: undefined as any }));
    let left = 1;
    const failed = new Set<number>();
    await w.system({
      threads: jobs.map((j, k) => ({ name: "link" + k, steps: [() => void ds.items[j.i].link(j.s, j.run, j.args).then((v: any) => (j.st = { ok: true, v }), (e: any) => (j.st = { e }))] })),
      replies: (r) => [{ name: "ok", reply: () => ({ status: 200, json: answerOf(r) }) }, ...(left > 0 ? [{ name: "400", reply: () => (left--, failed.add(r.id), { status: 400, json: {} }) }] : [])],
    });
    await w.settle(null, (r) => ({ status: 200, json: answerOf(r) }));
    const ls = w.reqs.filter(isLink);
    w.assert(ls.length === n, "count", `${ls.length} requests for ${n} links`);
    for (const j of jobs) {
      const r = ls.filter((l) => l.json.observationId === j.s.otelSpan.spanContext().spanId);
      w.assert(r.length === 1 && isDeepStrictEqual(strip(r[0].json), strip(want(IDS[j.i], j.run, j.s, j.args))), "body", () => `linked as ${show(r.map((x) => x.json))}`);
      w.assert(j.st && !!j.st.ok === !failed.has(r[0].id), "outcome", "a link settled with another link's outcome");
      if (j.st.ok) w.assert(j.st.v.marker === r[0].id, "answer", "a link resolved with another link's answer");
    }
  },
});
const many: Scenario = {
  name: "many concurrent links",
  run: async (w) => {
    setupOtel(w);
    const n = w.pick([60, 300], "links");
    const ds = await load(w, 3);
    const jobs = Array.from({ length: n }, (_, k) => ({ i: k % 3, run: "r" + (k % 7), s: spanOf(w, KINDS[k % KINDS.length]), args: k % 2 ? { description: "d" + k, metadata: { k } } : undefined, st: undefined as any }));
    for (const j of jobs) ds.items[j.i].link(j.s, j.run, j.args).then((v: any) => (j.st = { ok: true, v }), (e: any) => (j.st = { e }));
    const back = w.bool("answered last first");
    const bad = (r: Req) => r.json.metadata?.k % 11 === 0;
    for (let i = 0; i < 2 * n; i++) {
      await w.drain();
      const pend = w.pending;
      if (!pend.length) break;
      const r = back ? pend[pend.length - 1] : pend[0];
      r.reply(bad(r) ? { status: 400, json: {} } : { status: 200, json: answerOf(r) });
    }
    await w.settle(null, (r) => ({ status: 200, json: answerOf(r) }));
    const ls = w.reqs.filter(isLink);
    w.assert(ls.length === n, "count", `${ls.length} requests for ${n} links`);
    const by = new Map(ls.map((l) => [l.json.observationId, l]));
    for (const j of jobs) {
      const r = by.get(j.s.otelSpan.spanContext().spanId)!;
      w.assert(r && isDeepStrictEqual(strip(r.json), strip(want(IDS[j.i], j.run, j.s, j.args))), "body", () => `linked as ${show(r?.json)}`);
      w.assert(j.st && !!j.st.ok === !bad(r), "outcome", "a link settled with another link's outcome");
      if (j.st.ok) w.assert(j.st.v.marker === r.id, "answer", "a link resolved with another link's answer");
    }
  },
};
const history = (n: number): Scenario => ({
  name: `histories of ${n} links`,
  run: async (w) => {
    setupOtel(w);
    const sets = [await load(w, 2), await load(w, 2)];
    const a: any = startObservation("a"), spans = [a, a.startObservation("b"), startObservation("c")];
    const argv: any[] = [undefined, { description: "d", metadata: { m: 1 } }];
    for (let k = 0; k < n; k++) {
      const i = w.choose(2, "item"), s = w.pick(spans, "span"), run = w.pick(["r0", "r1"], "run"), args = k === 0 ? w.pick(argv, "args") : argv[(k + i) % 2], ds = sets[k % 3 === 2 ? 1 : 0];
      const fail = k < n - 1 && w.bool("fails");
      const from = w.reqs.length;
      const st = await w.settle(ds.items[i].link(s, run, args), (r) => (fail ? { status: 400, json: {} } : { status: 200, json: answerOf(r) }));
      const ls = w.reqs.slice(from).filter(isLink);
      w.assert(ls.length === 1, "count", `${ls.length} requests for link ${k}`);
      w.assert(isDeepStrictEqual(strip(ls[0].json), strip(want(IDS[i], run, s, args))), "body", () => `link ${k} sent ${show(ls[0].json)}, expected ${show(want(IDS[i], run, s, args))}`);
      w.assert(st.done && !!st.ok === !fail && (fail || (st.value as any).marker === ls[0].id), "outcome", `link ${k} settled with another outcome`);
    }
  },
});
const def: CheckDef = {
  property: "D04",
  bounds: (t) => `3 items x ${RUNS.length} run names x ${ARGS.length} argument shapes x ${KINDS.length} span kinds x 3 contexts of the call; 6 failures; all histories of ${t === "quick" ? 2 : 3} links (item, observation of the same or another trace, run, failure); all completion orders of ${t === "quick" ? 3 : 4} concurrent links with one failure`,
  assumptions: ["an absent and an undefined field are the same in JSON"],
  scenarios: (tier) => [single, faults, many, history(tier === "quick" ? 2 : 3), conc(2), conc(3), ...(tier === "quick" ? [] : [conc(4)])],
};
export default def;
