import type { CheckDef, Scenario, World } from "../mc/engine";
import { setupOtel, client, goodReply } from "./lib/exp";

/** one item's block of the report: from its "Item n:" heading to the next heading or the overview */
function blocks(text: string): { blocks: string[]; tail: string } {
  const lines = text.split("\n");
  const out: string[][] = [];
  let tail: string[] | null = null;
  for (const l of lines) {
    if (/^─{5,}/.test(l)) tail = [];
    if (tail) tail.push(l);
    else if (/^\s*\d+\.\s+Item \d+/.test(l)) out.push([l]);
    else if (out.length) out[out.length - 1].push(l);
  }
  return { blocks: out.map((b) => b.join("\n")), tail: (tail ?? lines).join("\n") };
}
const VALUES: any[] = [0, 1, 0.25, -3.5, "cat", true, false, "", undefined];

async function run(w: World, n: number, dataset: boolean, evs: number) {
  setupOtel(w);
  const c = client(w);
  w.onFetch = (r) => r.reply(goodReply(r));
  const ok: boolean[] = [];
  const vals: any[][] = [];
  const items: any[] = [];
  const noExp: boolean[] = [];
  const traces = new Map<number, string>();
  for (let i = 0; i < n; i++) {
    ok.push(!w.bool("fails"));
    noExp.push(ok[i] && n <= 3 && w.bool("no expected output"));
    items.push({ input: i % 2 ? { q: `<in${i}>` } : `<in${i}>`, ...(noExp[i] ? {} : { expectedOutput: i % 2 ? `<exp${i}>` : { e: `<exp${i}>` } }), ...(dataset ? { id: `<item${i}>`, datasetId: "<ds>" } : {}) });
    vals.push(Array.from({ length: evs }, () => (ok[i] ? w.pick(VALUES, "value") : 0)));
  }
  const r = await w.settle(
    c.experiment.run({
      name: "N",
      data: items,
      maxConcurrency: 2,
      task: async (it: any) => {
        const i = items.indexOf(it);
        if (!ok[i]) throw new Error("x");
        return `<out${i}>`;
      },
      evaluators: Array.from({ length: evs }, (_, k) => async ({ output }: any) => {
        const i = Number(/\d+/.exec(output)![0]);
        const v = vals[i][k];
        return v === undefined ? [] : { name: `E${k % 2}`, value: v, comment: `<com${i}.${k}>` };
      }),
    } as any),
    goodReply,
  );
  w.assert(r.done && r.ok, "rejected", () => `experiment rejected ${r.error}`);
  const res = r.value;
  const f = await w.settle(res.format({ includeItemResults: true }), goodReply);
  w.assert(f.done && f.ok, "format-rejected", () => `format rejected ${f.error}`);
  const text: string = f.value;
  const want = items.map((_, i) => i).filter((i) => ok[i]);
  if (want.length === 0) return;
  const p = blocks(text);
  w.assert(p.blocks.length === want.length, "blocks", () => `${p.blocks.length} item blocks for ${want.length} results:\n${text}`);
  want.forEach((i, k) => {
    const b = p.blocks[k];
    const must = [`<in${i}>`, `<out${i}>`, ...(noExp[i] ? [] : [`<exp${i}>`])];
    if (dataset) must.push(`<item${i}>`);
    must.push(res.itemResults[k].traceId);
    for (let e = 0; e < evs; e++) {
      const v = vals[i][e];
      if (v !== undefined) must.push(`E${e % 2}: ${typeof v === "number" ? v.toFixed(3) : v}`, `<com${i}.${e}>`);
    }
    for (const m of must) w.assert(b.includes(m), "own-data", () => `the block of item ${i} does not show ${m}:\n${text}`);
    for (let j = 0; j < n; j++)
      if (j !== i) for (const x of [`<in${j}>`, `<exp${j}>`, `<out${j}>`, `<item${j}>`, `<com${j}.`]) w.assert(!b.includes(x), "other-data", () => `the block of item ${i} shows ${x} of item ${j}:\n${text}`);
    res.itemResults.forEach((o: any, kk: number) => kk !== k && w.assert(!b.includes(o.traceId), "other-data", `the block of item ${i} shows another trace`));
  });
  // averages
  const avg = new Map<string, string>();
  const m = /Average Scores:([\s\S]*?)(\n\s*\n|$)/.exec(p.tail);
  if (m) for (const l of m[1].split("\n")) { const a = /•\s*(\S+):\s*(\S+)/.exec(l); if (a) avg.set(a[1], a[2]); }
  for (const name of ["E0", "E1"]) {
    const nums = want.flatMap((i) => vals[i].filter((v, k) => `E${k % 2}` === name && typeof v === "number"));
    const exp = nums.length ? (nums.reduce((a, b) => a + b, 0) / nums.length).toFixed(3) : undefined;
    w.assert(avg.get(name) === exp, "average", () => `average of ${name} shown as ${avg.get(name)}, is ${exp}:\n${text}`);
  }
  // item details only on request
  const short = await w.settle(res.format(), goodReply);
  w.assert(short.ok, "format-rejected", "format() rejected");
  w.assert(!/<in\d>/.test(short.value), "hidden", "format() shows item details although they were not requested");
}
/** label lines of a block: "Input: x" etc. */
const field = (b: string, label: string) => new RegExp(`^[ \\t]*${label}:[ \\t]*(.*)$`, "m").exec(b)?.[1];
const LONG = "L".repeat(45) + "0123456789";
const VALS2: any[] = ["x", "", 0, false, true, -1.5, { a: [1, { b: null }] }, [], "null", "y".repeat(50), "z".repeat(47), LONG, "Ünï ☃"];
function shown(w: World, got: string | undefined, v: any, what: string, text: string) {
  const want = typeof v === "string" ? v : JSON.stringify(v);
  const ok = got !== undefined && (typeof v === "string" && v.length > 50 ? got.startsWith(v.slice(0, 40)) : got === want);
  w.assert(ok, "value", () => `${what} ${JSON.stringify(v)} shown as ${JSON.stringify(got)}:\n${text}`);
}
const NAMES = ["E", "acc uracy", "a.b(c)*", "constructor", "__proto__", "Ünï", "E: 1"];
const lines = (text: string, head: string) => {
  const m = new RegExp(`${head}:([\\s\\S]*?)(\\n[ \\t]*\\n|$)`).exec(text);
  return m ? m[1].split("\n") : [];
};
/** value shapes, many items, named evaluations, run evaluations, links */
async function rich(w: World, o: { n: number; values?: boolean; names?: boolean; runEvals?: boolean; dataset?: boolean; base?: string; failSome?: boolean; equal?: boolean; mixed?: boolean }) {
  setupOtel(w);
  const base = o.base ?? "http://lf";
  const c = client(w, { baseUrl: base });
  w.onFetch = (r) => r.reply(goodReply(r));
  const items: any[] = [], outs: any[] = [], evs: any[][] = [], fails: boolean[] = [];
  const failing = o.failSome ? w.choose(o.n + 1, "failing item") : -1, second = o.failSome ? w.choose(o.n + 1, "second failing item") : -1;
  const k0 = o.names ? w.choose(NAMES.length, "name") : 0, k1 = o.names ? w.choose(NAMES.length, "name 2") : 1;
  for (let i = 0; i < o.n; i++) {
    const it: any = { input: o.values ? w.pick(VALS2, "input") : o.equal ? "same" : `<in${i}>` };
    const e = o.values ? w.pick([...VALS2, undefined, null], "expected") : o.equal ? "same" : `<exp${i}>`;
    if (e !== undefined) it.expectedOutput = e;
    if (o.dataset) Object.assign(it, { id: `<item${i}>`, datasetId: o.mixed ? `<ds${w.choose(2, "dataset")}>` : "<ds>" });
    items.push(it);
    outs.push(o.values && i === 0 ? w.pick(VALS2, "output") : `<out${i}>`);
    fails.push(i === failing || i === second);
    evs.push(o.names ? [{ name: NAMES[k0], value: i + 0.5 }, { name: NAMES[k1], value: i % 2 ? 3 : "cat" + i, comment: `<com${i}>` }, { name: NAMES[k0], value: 10 * i }] : [{ name: "E", value: i * 7 }]);
  }
  let k = 0;
  const runEvs = o.runEvals ? [{ name: w.pick(NAMES, "run name"), value: w.pick<any>([0, 1 / 3, -2, 1e6, "good", true, 2 / 3], "run value"), comment: w.pick(["<rc>", "", undefined], "comment") }, { name: "second", value: 5 }] : [];
  const r = await w.settle(
    c.experiment.run({
      name: "<name>",
      description: o.runEvals ? "<desc>" : undefined,
      runName: o.dataset ? "<run>" : undefined,
      data: items,
      maxConcurrency: 3,
      task: async (it: any) => {
        const i = items.indexOf(it);
        for (let g = (i * 5) % 4; g > 0; g--) await null;
        if (fails[i]) throw new Error("x");
        return outs[i];
      },
      evaluators: [async (p: any) => evs[o.values || o.equal ? 0 : items.findIndex((x) => x.input === p.input)]],
      runEvaluators: o.runEvals ? [async () => runEvs] : undefined,
    } as any),
    goodReply,
  );
  w.assert(r.done && r.ok, "rejected", () => `experiment rejected ${r.error}`);
  const res = r.value;
  const f = await w.settle(res.format({ includeItemResults: true }), goodReply);
  w.assert(f.done && f.ok, "format-rejected", () => `format rejected ${f.error}`);
  const text: string = f.value;
  const want = items.map((_, i) => i).filter((i) => !fails[i]);
  if (!want.length) return;
  const p = blocks(text);
  w.assert(p.blocks.length === want.length, "blocks", () => `${p.blocks.length} item blocks for ${want.length} results:\n${text}`);
  want.forEach((i, n) => {
    const b = p.blocks[n];
    shown(w, field(b, "Input"), items[i].input, `input of item ${i}`, text);
    if (items[i].expectedOutput != null) shown(w, field(b, "Expected"), items[i].expectedOutput, `expected output of item ${i}`, text);
    shown(w, field(b, "Actual"), outs[i], `output of item ${i}`, text);
    const mine = o.values || o.equal ? evs[0] : evs[i];
    const sc = [...b.matchAll(/^[ \t]*•[ \t]*(.*)$/gm)].map((m) => m[1]);
    const exp = mine.map((e) => `${e.name}: ${typeof e.value === "number" ? e.value.toFixed(3) : e.value}`);
    w.assert(JSON.stringify(sc) === JSON.stringify(exp), "scores", () => `scores of item ${i}: ${JSON.stringify(sc)}, expected ${JSON.stringify(exp)}:\n${text}`);
    for (const e of mine) if (e.comment) w.assert(b.includes(e.comment), "own-data", () => `comment ${e.comment} missing:\n${text}`);
    const url = `${base}/project/proj/traces/${res.itemResults[n].traceId}`;
    w.assert(b.split("\n").some((l) => l.trim() === url), "trace-link", () => `the block of item ${i} does not show ${url}:\n${text}`);
    if (o.dataset) {
      const iu = `${base}/project/proj/datasets/${items[i].datasetId}/items/<item${i}>`;
      w.assert(b.split("\n").some((l) => l.trim() === iu), "item-link", () => `the block of item ${i} does not show ${iu}:\n${text}`);
    }
  });
  w.assert(p.tail.includes("<name>") && p.tail.includes(res.runName) && p.tail.includes(`${want.length} items`), "overview", () => `overview:\n${p.tail}`);
  const nums = new Map<string, number[]>();
  for (const i of want) for (const e of o.values || o.equal ? evs[0] : evs[i]) if (typeof e.value === "number") nums.set(e.name, [...(nums.get(e.name) ?? []), e.value]);
  const avg = lines(p.tail, "Average Scores").map((l) => l.trim()).filter(Boolean).sort();
  const ea = [...nums].map(([k, v]) => `• ${k}: ${(v.reduce((a, b) => a + b, 0) / v.length).toFixed(3)}`).sort();
  w.assert(JSON.stringify(avg) === JSON.stringify(ea), "average", () => `averages ${JSON.stringify(avg)}, expected ${JSON.stringify(ea)}:\n${text}`);
  if (o.runEvals) {
    const re = lines(p.tail, "Run Evaluations").map((l) => l.trim()).filter((l) => l.startsWith("•"));
    const er = runEvs.map((e) => `• ${e.name}: ${typeof e.value === "number" ? e.value.toFixed(3) : e.value}`);
    w.assert(JSON.stringify(re) === JSON.stringify(er), "run-evaluations", () => `run evaluations ${JSON.stringify(re)}, expected ${JSON.stringify(er)}:\n${text}`);
    if (runEvs[0].comment) w.assert(p.tail.includes("<rc>"), "run-evaluations", "the comment of a run evaluation is missing");
  }
  const runUrl = `${base}/project/proj/datasets/<ds>/runs/${res.datasetRunId}`;
  if (o.mixed) return;
  if (o.dataset) w.assert(res.datasetRunUrl === runUrl && p.tail.includes(runUrl), "run-link", () => `run link ${res.datasetRunUrl}, expected ${runUrl}:\n${p.tail}`);
  else w.assert(res.datasetRunUrl === undefined, "run-link", "a local experiment has a run link");
}
const def: CheckDef = {
  property: "E04",
  bounds: (t) => `all success/failure subsets of up to ${t === "quick" ? 5 : 6} items (no evaluators), of up to 3 items x 7 evaluation values (missing, falsy, negative, categorical, boolean) x missing expected outputs, dataset-backed and local; ${VALS2.length} input x expected x output values; 13 items with every pair of failing items; ${NAMES.length}^2 evaluation names; run evaluations; links below 5 base addresses`,
  scenarios: (tier) => {
    const out: Scenario[] = [];
    for (const ds of [false, true]) {
      for (let n = 1; n <= (tier === "quick" ? 5 : 6); n++) out.push({ name: `${n} items ${ds ? "dataset" : "local"}`, run: (w) => run(w, n, ds, 0) });
      for (let n = 1; n <= (tier === "quick" ? 2 : 3); n++) for (const e of n === 3 ? [1] : [1, 2]) out.push({ name: `${n} items ${e} evaluators ${ds ? "dataset" : "local"}`, run: (w) => run(w, n, ds, e) });
      out.push({ name: `4 items 1 evaluator ${ds ? "dataset" : "local"}`, run: (w) => run(w, 4, ds, 1) });
      if (tier === "thorough") out.push({ name: `1 item 4 evaluators ${ds ? "dataset" : "local"}`, run: (w) => run(w, 1, ds, 4) });
    }
    out.push({ name: "value shapes", run: (w) => rich(w, { n: 1, values: true }) });
    out.push({ name: "value shapes dataset", run: (w) => rich(w, { n: 1, values: true, dataset: true }) });
    out.push({ name: "items of two datasets", run: (w) => rich(w, { n: 4, dataset: true, mixed: true, failSome: true }) });
    out.push({ name: "evaluation names", run: (w) => rich(w, { n: 3, names: true, failSome: true }) });
    for (const ds of [false, true]) {
      out.push({ name: `run evaluations ${ds}`, run: (w) => rich(w, { n: 2, runEvals: true, dataset: ds }) });
      out.push({ name: `13 items ${ds}`, run: (w) => rich(w, { n: 13, failSome: true, dataset: ds }) });
      out.push({ name: `equal items ${ds}`, run: (w) => rich(w, { n: 4, equal: true, failSome: true, dataset: ds }) });
    }
    for (const base of ["https://host.example", "https://traces.example", "http://lf:3000/traces", "http://lf/sub/path"]) out.push({ name: `links with base ${base}`, run: (w) => rich(w, { n: 2, base, dataset: true, failSome: true }) });
    return out;
  },
};
export default def;
