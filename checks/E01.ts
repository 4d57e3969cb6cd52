import type { CheckDef, Scenario, World } from "../mc/engine";
import { OFF, withTracing } from "./lib/otel";
import { ExpRig, setupOtel, client, goodReply, type ExpCfg } from "./lib/exp";

function scen(name: string, cfg: ExpCfg, faults: number): Scenario {
  return {
    name,
    run: async (w: World) => {
      setupOtel(w);
      const rig = new ExpRig(w, client(w), cfg);
      const left = { left: faults };
      // requests are not what varies here: they complete at once
      w.onFetch = (r) => r.reply(goodReply(r));
      rig.start();
      await w.system({
        extra: () => rig.events(left),
      });
      await w.settle(null, goodReply, 60_000);
      rig.checkResult();
    },
  };
}
const def: CheckDef = {
  property: "E01",
  bounds: (t) => `up to ${t === "quick" ? 5 : 6} items x limits {1,2,3,default} x up to 2 evaluators; all completion orders of tasks and evaluators with up to ${t === "quick" ? 2 : 3} failures at any of them`,
  assumptions: ["an item without input is documented to be skipped", "limits are at least 1"],
  scenarios: (tier) => {
    const out: Scenario[] = [];
    const q = tier === "quick";
    for (const limit of [1, 2, 3, undefined]) {
      out.push(scen(`3 items, limit ${limit}, 2 gaps`, { items: 3, limit, gaps: 2 }, 1));
      out.push(scen(`4 items, limit ${limit}`, { items: 4, limit }, q ? 2 : 4));
      out.push(scen(`5 items, limit ${limit}`, { items: 5, limit }, limit === 1 ? 5 : q ? 1 : 3));
      if (!q) out.push(scen(`6 items, limit ${limit}`, { items: 6, limit }, 2), scen(`4 items, limit ${limit}, 1 evaluator`, { items: 4, limit, evals: 1, evalGate: true }, 1), scen(`3 items, limit ${limit}, 2 evaluators`, { items: 3, limit, evals: 2, evalGate: true }, 1));
      out.push(scen(`2 items, limit ${limit}, 2 evaluators`, { items: 2, limit, evals: 2, evalGate: true, multi: true }, 2));
      out.push(scen(`3 items, limit ${limit}, 1 evaluator`, { items: 3, limit, evals: 1, evalGate: true }, q ? 1 : 2));
      out.push(scen(`2 items, limit ${limit}, run evaluators`, { items: 2, limit, evals: 1, runEvals: 2, evalGate: true, multi: true }, 2));
      out.push(scen(`3 items, limit ${limit}, one without input`, { items: 3, limit, noInput: 1, evals: 1 }, 1));
    }
    out.push(scen("evaluators that throw at once", { items: 2, limit: 2, evals: 2, runEvals: 2, multi: true, syncThrow: true }, 1));
    out.push(scen("odd outputs", { items: 5, limit: 2, evals: 1, oddOutputs: true }, 1));
    out.push(scen("odd failures", { items: 3, limit: 2, evals: 1, evalGate: true, oddErrors: true }, 1));
    for (const [items, limit] of [[120, undefined], [120, 7], [120, 1], [1100, 1]] as [number, number | undefined][])
      out.push({
        name: `${items} items, limit ${limit}`,
        run: async (w) => {
          setupOtel(w);
          const rig = new ExpRig(w, client(w), { items, limit, evals: 1 });
          w.onFetch = (r) => r.reply(goodReply(r));
          rig.start();
          const lifo = w.bool("lifo"), failEvery = w.pick(items > 500 ? [7] : [0, 1, 7], "fail every");
          await w.drain();
          for (let n = 1; rig.gates.length; n++) {
            const g = lifo ? rig.gates[rig.gates.length - 1] : rig.gates[0];
            if (failEvery && n % failEvery === 0) g.fail!();
            else g.ok();
            await w.drain();
          }
          await w.settle(null, goodReply, 60_000);
          rig.checkResult();
        },
      });
    for (const rich of [1, 2, 3, 4, 5, 6, 7]) out.push(scen(`unusual values ${rich}`, { items: 4, limit: 2, evals: 1, rich }, 1), scen(`unusual values ${rich} dataset`, { items: 4, dataset: true, evals: 2, rich }, 1));
    for (const f of [0, 1, 2]) for (const limit of [1, 2, undefined]) out.push(scen(`task ${f} throws synchronously, limit ${limit}`, { items: 3, limit, evals: 1, syncFail: f }, 1));
    // the same item object listed more than once
    out.push({
      name: "repeated items",
      run: async (w) => {
        setupOtel(w);
        const c = client(w);
        const a = { input: "a" }, b = { input: "b" };
        const n = 1 + w.choose(4, "n");
        const data = Array.from({ length: n }, () => w.pick([a, b], "item"));
        w.onFetch = (r) => r.reply(goodReply(r));
        let calls = 0, active = 0, max = 0;
        const limit = 1 + w.choose(3, "limit");
        const outs: { input: string; out: string }[] = [];
        const st = await w.settle(
          c.experiment.run({
            name: "x",
            data,
            maxConcurrency: limit,
            task: async (item: any) => {
              const k = calls++;
              max = Math.max(max, ++active);
              await Promise.resolve();
              active--;
              outs.push({ input: item.input, out: "o" + k });
              return "o" + k;
            },
            evaluators: [async ({ input, output }: any) => ({ name: "e", value: `${input}${output}` })],
          } as any),
          goodReply,
        );
        w.assert(st.ok, "rejected", () => `the experiment rejected: ${st.error}`);
        w.assert(calls === n, "task-count", `the task ran ${calls} times for ${n} items`);
        w.assert(max <= limit, "concurrency", `${max} tasks at once with limit ${limit}`);
        const rs = st.value.itemResults;
        w.assert(rs.length === n && rs.every((r: any, i: number) => r.item === data[i]), "result-order", "results are not in item order");
        w.assert(new Set(rs.map((r: any) => r.output)).size === n && new Set(rs.map((r: any) => r.traceId)).size === n, "result-output", "two results share an output or trace");
        for (const r of rs) {
          w.assert(outs.some((o) => o.out === r.output && o.input === r.item.input), "result-output", "a result has another item's output");
          w.assert(r.evaluations.length === 1 && r.evaluations[0].value === r.item.input + r.output, "result-evals", "a result has another item's evaluation");
        }
      },
    });
    // one evaluator given several times is as many evaluators
    out.push({
      name: "the same evaluator several times",
      run: async (w) => {
        setupOtel(w);
        const c = client(w);
        let n = 0, runs = 0;
        const times = w.choose(3, "times") + 1, failing = w.choose(times + 1, "failing call");
        const ev = async ({ input }: any) => {
          if (++n % times === failing % times && failing > 0) throw new Error("x");
          return { name: "judge", value: input };
        };
        const rv = async () => ({ name: "run", value: ++runs });
        const items = w.choose(3, "items");
        const data = Array.from({ length: items }, (_, i) => ({ input: "i" + i }));
        const st = await w.settle(c.experiment.run({ name: "x", data, maxConcurrency: 1, task: async ({ input }: any) => input, evaluators: Array(times).fill(ev), runEvaluators: Array(times).fill(rv) } as any), goodReply);
        w.assert(st.ok, "rejected", () => `the experiment rejected: ${st.error}`);
        w.assert(n === times * items && runs === times, "evaluator-count", `${times} evaluators, ${items} items: ${n} evaluator and ${runs} run evaluator calls`);
        for (const r of st.value.itemResults) w.assert(r.evaluations.length === times - (failing > 0 ? 1 : 0) && r.evaluations.every((e: any) => e.value === r.item.input), "result-evals", () => `evaluations ${JSON.stringify(r.evaluations)}`);
        w.assert(st.value.itemResults.length === items && st.value.runEvaluations.length === times, "result-evals", "results missing");
      },
    });
    // values that have no JSON form are still values
    out.push({
      name: "values that cannot be serialised",
      run: async (w) => {
        setupOtel(w);
        const c = client(w);
        const cyc: any = { a: [] };
        cyc.a.push(cyc);
        const odd: any = w.pick([10n, cyc, { b: 10n }, { toJSON() { throw new Error("no"); } }, Object.assign(Object.create(null), { n: 10n })], "value");
        const where = new Set(["input", "expectedOutput", "metadata", "output", "run metadata", "evaluation"].filter((k) => w.bool(k)));
        const at = w.choose(2, "item"), evalFails = w.bool("evaluator fails");
        const data: any[] = [0, 1].map((i) => ({ input: i === at && where.has("input") ? odd : "i" + i, expectedOutput: i === at && where.has("expectedOutput") ? odd : "x" + i, metadata: i === at && where.has("metadata") ? { odd } : { m: i } }));
        const outs: any[] = [0, 1].map((i) => (i === at && where.has("output") ? odd : "o" + i));
        const calls: number[] = [];
        const st = await w.settle(
          c.experiment.run({
            name: "x", data, ...(where.has("run metadata") ? { metadata: { odd } } : {}),
            task: async (item: any) => { calls.push(data.indexOf(item)); return outs[data.indexOf(item)]; },
            evaluators: [async ({ input, output }: any) => ({ name: "e", value: data.findIndex((d) => d.input === input) * 10 + outs.indexOf(output), ...(where.has("evaluation") ? { metadata: odd } : {}) }), async () => { if (evalFails) throw new Error("e"); return { name: "f", value: 1 }; }],
            runEvaluators: [async ({ itemResults }: any) => ({ name: "r", value: itemResults.length })],
          } as any),
          goodReply, 60_000,
        );
        w.assert(st.ok, "rejected", () => `the experiment rejected: ${st.error}`);
        w.assert(calls.length === 2 && calls.includes(0) && calls.includes(1), "task-count", () => `tasks run for items ${calls}`);
        const rs = st.value.itemResults;
        w.assert(rs.length === 2 && rs.every((r: any, i: number) => r.item === data[i] && r.input === data[i].input && r.expectedOutput === data[i].expectedOutput && r.output === outs[i]), "result-output", "a result lacks or has other values");
        for (const [i, r] of rs.entries()) w.assert(r.evaluations.length === (evalFails ? 1 : 2) && r.evaluations[0].value === i * 11, "result-evals", "another item's evaluations");
        w.assert(st.value.runEvaluations[0]?.value === 2, "run-evals", "run evaluation differs");
        for (const includeItemResults of [false, true]) {
          const f = await w.settle(st.value.format({ includeItemResults }), goodReply, 1_000);
          w.assert(f.ok && typeof f.value === "string" && f.value.includes("r: "), "format", () => `formatting the result failed: ${f.error}`);
        }
        const sent = w.reqs.filter((r) => r.path.endsWith("/ingestion")).flatMap((r) => r.json.batch.map((b: any) => b.body.name)).sort().join();
        const want = [...(where.has("evaluation") ? [] : ["e", "e"]), ...(evalFails ? [] : ["f", "f"])].join();
        w.assert(sent === want, "scores", () => `scores sent: ${sent}, expected ${want}`);
      },
    });
    // tracing not set up, or nothing (or not everything) sampled
    out.push({
      name: "tracing off",
      run: async (w) => {
        const mode = w.pick(OFF, "tracing"), limit = w.pick([1, 2, undefined], "limit"), n = 1 + w.choose(3, "n"), ds = w.bool("dataset items");
        const fate = Array.from({ length: n }, (_, i) => w.pick(["ok", "throws", "rejects"] as const, "task " + i)), evalFails = w.bool("evaluator fails");
        await withTracing(mode, [], async () => {
          const c = client(w);
          const data = Array.from({ length: n }, (_, i) => ({ input: "i" + i, expectedOutput: "x" + i, metadata: { m: i }, ...(ds ? { id: "it" + i, datasetId: "d" } : {}) }));
          const calls: string[] = [];
          const st = await w.settle(
            c.experiment.run({
              name: "x", data, maxConcurrency: limit,
              task: ((item: any) => { const i = data.indexOf(item); calls.push(item.input); if (fate[i] === "throws") throw new Error("t"); return fate[i] === "rejects" ? Promise.reject(new Error("t")) : Promise.resolve("o" + i); }) as any,
              evaluators: [async ({ input, output, expectedOutput, metadata }: any) => ({ name: "e", value: `${input}${output}${expectedOutput}${metadata.m}` }), async () => { if (evalFails) throw new Error("e"); return { name: "f", value: 1 }; }],
              runEvaluators: [async ({ itemResults }: any) => ({ name: "r", value: itemResults.length })],
            } as any),
            goodReply, 60_000,
          );
          w.assert(st.ok, "rejected", () => `${mode}: the experiment rejected: ${st.error}`);
          w.assert(calls.length === n && new Set(calls).size === n, "task-count", () => `tasks run: ${calls}`);
          const rs = st.value.itemResults, good = data.filter((_, i) => fate[i] === "ok");
          w.assert(rs.length === good.length && rs.every((r: any, k: number) => r.item === good[k]), "result-order", "results are not those of the successful items in order");
          for (const r of rs) {
            const i = data.indexOf(r.item);
            w.assert(r.input === r.item.input && r.output === "o" + i && r.expectedOutput === "x" + i, "result-output", "another item's values");
            const evs = r.evaluations.map((e: any) => e.name + e.value).sort();
            w.assert(JSON.stringify(evs) === JSON.stringify([`ei${i}o${i}x${i}${i}`, ...(evalFails ? [] : ["f1"])]), "result-evals", () => JSON.stringify(evs));
          }
          w.assert(st.value.runEvaluations.length === 1 && st.value.runEvaluations[0].value === good.length, "run-evals", "run evaluation differs");
          w.assert(typeof (await st.value.format()) === "string", "format", "format() gives no text");
        });
      },
    });
    out.push(scen("no items", { items: 0, evals: 1, runEvals: 1 }, 1));
    out.push(scen("1 item", { items: 1, evals: 3, evalGate: true, multi: true, gaps: 2 }, 3));
    out.push(scen("dataset items", { items: 3, limit: 2, dataset: true, evals: 1, evalGate: false, meta: true }, 2));
    return out;
  },
};
export default def;
