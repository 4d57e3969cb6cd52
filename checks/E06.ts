import { isDeepStrictEqual } from "node:util";
import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { RunnerContext, RegressionError, createEvaluatorFromAutoevals } from "@langfuse/client";
import { setupOtel, client, goodReply, isLink, isIngest } from "./lib/exp";

const show = (v: any) => JSON.stringify(v);
const VERSION = "2026-01-21T14:35:42Z", VERSION2 = "2026-02-01T00:00:00Z";

/** dataset.runExperiment: data, version and settings */
function datasetScen(order: boolean): Scenario {
  return {
    name: `dataset.runExperiment${order ? " twice, all completion orders" : ""}`,
    run: async (w: World) => {
      setupOtel(w);
      const c = client(w);
      const n = order ? 2 : w.pick([0, 1, 3, 51], "items");
      const version = w.pick([undefined, VERSION], "version of the dataset");
      const stored = Array.from({ length: n }, (_, i) => ({ id: `it${i}`, datasetId: "ds1", datasetName: "my set", status: "ACTIVE", input: { q: i }, expectedOutput: `e${i}`, metadata: { m: i }, createdAt: "x", updatedAt: "x", sourceTraceId: null, sourceObservationId: null }));
      const answer = (r: Req): Reply => {
        if (/\/v2\/datasets\//.test(r.path)) return { status: 200, json: { id: "ds1", name: "my set", projectId: "p", createdAt: "x", updatedAt: "x" } };
        if (/\/dataset-items$/.test(r.path)) {
          const l = Number(r.query.get("limit")), p = Number(r.query.get("page"));
          return { status: 200, json: { data: stored.slice((p - 1) * l, p * l), meta: { page: p, limit: l, totalItems: n, totalPages: Math.ceil(n / l) } } };
        }
        return goodReply(r);
      };
      const g = await w.settle(c.dataset.get("my set", version ? { version } : undefined), answer);
      w.assert(g.ok, "get", () => `dataset.get rejected ${g.error}`);
      const ds = g.value;
      const runs = order ? ["RA", "RB"] : ["RA"];
      const over = !order && w.bool("own version");
      const desc = !order && w.bool("description"), meta = !order && w.bool("metadata");
      const seen: any[][] = runs.map(() => []);
      const results: any[] = [];
      const promises = runs.map((runName, k) =>
        ds
          .runExperiment({
            name: "N" + k,
            runName,
            ...(over ? { datasetVersion: VERSION2 } : {}),
            ...(desc ? { description: "d " + k } : {}),
            ...(meta ? { metadata: { k } } : {}),
            task: async (it: any) => {
              seen[k].push(it);
              await null;
              return `${runName}:${it.input.q}`;
            },
            evaluators: [async ({ input, output }: any) => ({ name: "ev", value: input.q, comment: output })],
          })
          .then((r: any) => (results[k] = r)),
      );
      if (order) await w.system({ replies: (r) => [{ name: "ok", reply: () => answer(r) }] });
      for (const p of promises) {
        const s = await w.settle(p, answer);
        w.assert(s.ok, "rejected", () => `runExperiment rejected ${s.error}`);
      }
      runs.forEach((runName, k) => {
        w.assert(isDeepStrictEqual(seen[k].map((x) => x.id).sort(), stored.map((x) => x.id).sort()), "items", () => `tasks ran for ${show(seen[k].map((x) => x.id))}`);
        const rs = results[k].itemResults;
        w.assert(rs.length === n && rs.every((r: any, i: number) => r.item.id === stored[i].id && r.output === `${runName}:${i}`), "results", () => `results ${show(rs.map((r: any) => [r.item.id, r.output]))}`);
        const links = w.reqs.filter((r) => isLink(r) && r.json.runName === runName);
        w.assert(links.length === n && new Set(links.map((l) => l.json.datasetItemId)).size === n, "links", `${links.length} links of run ${runName}`);
        for (const l of links) {
          w.assert(l.json.datasetVersion === (over ? VERSION2 : version), "version", () => `link carries dataset version ${l.json.datasetVersion}`);
          w.assert(l.json.runDescription === (desc ? "d " + k : undefined) && isDeepStrictEqual(l.json.metadata, meta ? { k } : undefined), "settings", () => `link carries ${show(l.json)}`);
        }
        const sc = w.reqs.filter(isIngest).flatMap((r) => r.json.batch.map((b: any) => b.body)).filter((b: any) => b.comment.startsWith(runName + ":"));
        w.assert(sc.length === n, "scores", `${sc.length} scores of run ${runName}`);
        for (const b of sc) w.assert(b.traceId === rs[b.value].traceId, "scores", "a score is on another trace");
      });
    },
  };
}

const DATA: any[] = [undefined, [], [{ input: "a" }], [{ input: "b" }, { input: "c", expectedOutput: 1 }]];
const METAS: any[] = [undefined, {}, { a: 1 }, { a: 2, b: { c: 3 } }, { b: null, d: undefined }];
const runnerScen: Scenario = {
  name: "runner context",
  run: async (w: World) => {
    setupOtel(w);
    const c = client(w);
    w.onFetch = (r) => r.reply(goodReply(r));
    const own = w.pick(DATA, "context data"), given = w.pick(DATA, "call data");
    const m0 = w.pick(METAS, "context metadata"), m1 = w.pick(METAS, "call metadata");
    const v0 = w.pick([undefined, VERSION], "context version"), v1 = w.pick([undefined, VERSION2], "call version");
    const mk = (d: any) => d?.map((x: any, i: number) => ({ ...x, id: `i${x.input}`, datasetId: "ds" }));
    const a = mk(own), b = mk(given);
    const before = show([a, b, m0, m1]);
    const ctx = new RunnerContext({ client: c, data: a, datasetVersion: v0, metadata: m0 } as any);
    const seen: any[] = [];
    const call = { name: "N", runName: "R", description: "D", data: b, metadata: m1, datasetVersion: v1, task: async (it: any) => (seen.push(it), "o" + it.input), evaluators: [async () => ({ name: "e", value: 1 })], runEvaluators: [async ({ itemResults }: any) => ({ name: "r", value: itemResults.length })] };
    for (const k of ["data", "metadata", "datasetVersion"]) if ((call as any)[k] === undefined && w.bool("leave out")) delete (call as any)[k];
    let st: any;
    try {
      st = await w.settle(ctx.runExperiment(call as any), goodReply);
    } catch (error) {
      st = { ok: false, error };
    }
    const data = b ?? a;
    if (data === undefined) {
      w.assert(!st.ok && st.error instanceof Error, "no-data", "a run without data did not fail");
      w.assert(seen.length === 0 && w.reqs.length === 0, "no-data", "a run without data did something");
      return;
    }
    w.assert(st.ok, "rejected", () => `runExperiment rejected: ${st.error}`);
    w.assert(isDeepStrictEqual(seen, data), "data", () => `the task ran for ${show(seen)}, data is ${show(data)}`);
    w.assert(isDeepStrictEqual(st.value.itemResults.map((r: any) => r.output), data.map((d: any) => "o" + d.input)), "results", () => show(st.value.itemResults));
    w.assert(st.value.runEvaluations.length === 1 && st.value.runEvaluations[0].value === data.length, "run-evaluations", "run evaluations missing");
    const links = w.reqs.filter(isLink);
    w.assert(links.length === data.length, "links", `${links.length} links`);
    const meta = m0 === undefined && m1 === undefined ? undefined : JSON.parse(show({ ...m0, ...m1 }));
    for (const l of links) {
      w.assert(isDeepStrictEqual(l.json.metadata, meta), "metadata", () => `metadata ${show(l.json.metadata)}, expected ${show(meta)}`);
      w.assert(l.json.datasetVersion === (v1 ?? v0), "version", () => `dataset version ${l.json.datasetVersion}`);
      w.assert(l.json.runName === "R" && l.json.runDescription === "D", "settings", () => show(l.json));
    }
    w.assert(show([a, b, m0, m1]) === before, "modified", "the caller's values were modified");
    const again = await w.settle(ctx.runExperiment(call as any), goodReply);
    w.assert(again.ok && again.value.itemResults.length === data.length, "again", "a second run with the same context differs");
  },
};

const VALS: any[] = ["x", "", 0, false, null, undefined, { a: [1] }, []];
const autoScen: Scenario = {
  name: "autoevals adapter",
  run: async (w: World) => {
    const params = w.pick<any>([undefined, {}, { model: "m", threshold: 0.5 }, { input: "shadow", output: "shadow", expected: "shadow", k: null }], "params");
    const input = w.pick(VALS, "input"), output = w.pick(VALS, "output"), expectedOutput = w.pick(VALS, "expected");
    const out = w.pick<any>(["sync", "async", "throw", "reject"], "outcome");
    const score = w.pick<any>([1, 0, 0.25, null, undefined, -2], "score");
    const metadata = w.pick<any>([undefined, { rationale: "r", n: [1] }, {}], "metadata");
    const calls: any[] = [];
    const boom = new Error("auto");
    const auto = (p: any) => {
      calls.push(p);
      if (out === "throw") throw boom;
      if (out === "reject") return Promise.reject(boom);
      const r = { name: "Levenshtein", score, metadata };
      return out === "sync" ? r : Promise.resolve(r);
    };
    const before = show(params);
    const ev = createEvaluatorFromAutoevals(auto as any, params);
    let p: any;
    try {
      p = (ev as any)({ input, output, expectedOutput, metadata: { own: 1 } });
    } catch {
      w.fail("sync-throw", "the evaluator threw instead of rejecting");
    }
    const st = await w.settle(p, goodReply);
    w.assert(calls.length === 1, "calls", `the evaluator was called ${calls.length} times`);
    w.assert(isDeepStrictEqual({ ...calls[0] }, { ...(params ?? {}), input, output, expected: expectedOutput }), "arguments", () => `the evaluator got ${show(calls[0])}`);
    w.assert(show(params) === before, "modified", "the parameters were modified");
    if (out === "throw" || out === "reject") return w.assert(!st.ok && st.error === boom, "failure", "a failing evaluator did not reject with its error");
    w.assert(st.ok, "rejected", () => `rejected ${st.error}`);
    w.assert(st.value.name === "Levenshtein" && st.value.value === (score ?? 0) && isDeepStrictEqual(st.value.metadata, metadata), "evaluation", () => `evaluation ${show(st.value)}`);
  },
};
const autoRun: Scenario = {
  name: "autoevals adapters in an experiment",
  run: async (w: World) => {
    setupOtel(w);
    const c = client(w);
    const n = 1 + w.choose(3, "items");
    const gates: { name: string; go: () => void; fail: () => void }[] = [];
    let faults = 1;
    const failed = new Set<string>();
    const mk = (nm: string) => (p: any) => new Promise((res, rej) => gates.push({ name: `${nm}${p.input}`, go: () => res({ name: nm, score: p.input + p.k, metadata: { out: p.output, exp: p.expected } }), fail: () => (failed.add(nm + p.input), rej(new Error("x"))) }));
    const data = Array.from({ length: n }, (_, i) => ({ input: i, expectedOutput: `e${i}` }));
    w.onFetch = (r) => r.reply(goodReply(r));
    let st: any;
    c.experiment.run({ name: "N", data, task: async (it: any) => `o${it.input}`, evaluators: [createEvaluatorFromAutoevals(mk("A") as any, { k: 100 } as any), createEvaluatorFromAutoevals(mk("B") as any, { k: 200 } as any)] } as any).then((v: any) => (st = { ok: true, value: v }), (e: any) => (st = { error: e }));
    await w.system({
      extra: () => gates.flatMap((g) => [{ name: "ok " + g.name, run: () => (gates.splice(gates.indexOf(g), 1), g.go()) }, ...(faults > 0 ? [{ name: "fail " + g.name, run: () => (faults--, gates.splice(gates.indexOf(g), 1), g.fail()) }] : [])]),
    });
    await w.settle(null, goodReply, 60_000);
    w.assert(st?.ok, "rejected", () => `the experiment rejected ${st?.error}`);
    data.forEach((d, i) => {
      const want = [["A", 100], ["B", 200]].filter(([nm]) => !failed.has(`${nm}${i}`)).map(([nm, k]) => ({ name: nm, value: i + (k as number), metadata: { out: `o${i}`, exp: `e${i}` } }));
      w.assert(isDeepStrictEqual(st.value.itemResults[i].evaluations.map((e: any) => ({ ...e })), want), "evaluations", () => `item ${i}: ${show(st.value.itemResults[i].evaluations)}`);
    });
  },
};
const regScen: Scenario = {
  name: "regression error",
  run: async (w: World) => {
    const result: any = { itemResults: [] };
    const message = w.pick([undefined, "", "my message"], "message");
    const metric = w.pick([undefined, "acc", ""], "metric"), value = w.pick([undefined, 0, 0.5, -1], "value"), threshold = w.pick([undefined, 0, 0.9], "threshold");
    const p: any = { result };
    for (const [k, v] of Object.entries({ message, metric, value, threshold })) if (v !== undefined || w.bool("given as undefined")) p[k] = v;
    const e: any = new RegressionError(p);
    w.assert(e instanceof Error && e instanceof RegressionError && e.name === "RegressionError", "class", "not a RegressionError");
    w.assert(e.result === result && e.metric === metric && e.value === value && e.threshold === threshold, "fields", () => show(e));
    if (message !== undefined) w.assert(e.message === message, "message", () => `message ${e.message}`);
    else if (metric !== undefined && value !== undefined) w.assert(e.message.includes(metric) && e.message.includes(String(value)) && (threshold === undefined || e.message.includes(String(threshold))), "message", () => `message ${e.message}`);
    else w.assert(e.message.length > 0, "message", "no message");
  },
};
const def: CheckDef = {
  property: "E06",
  bounds: () => `dataset.runExperiment over 0,1,3,51 items x versions x settings and two runs of one dataset in all completion orders; ${DATA.length}^2 data x ${METAS.length}^2 metadata x versions of runner contexts; ${VALS.length}^3 values x 6 scores x 4 parameter sets x 4 outcomes of adapted evaluators, and adapted evaluators of up to 3 items in all completion orders; all field subsets of regression errors`,
  scenarios: () => [datasetScen(false), datasetScen(true), runnerScen, autoScen, autoRun, regScen],
};
export default def;
