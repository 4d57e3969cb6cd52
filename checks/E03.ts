import type { CheckDef, Scenario, World } from "../mc/engine";
import { ExpRig, setupOtel, client, goodReply, isLink, idOf, type ExpCfg } from "./lib/exp";
import { startObservation, startActiveObservation, propagateAttributes } from "@langfuse/tracing";

const X = "langfuse.experiment.";
const attrs = (s: any) => s.attributes as Record<string, any>;
const expKeys = (s: any) => Object.keys(attrs(s)).filter((k) => k.startsWith(X));

function checkRig(w: World, rig: ExpRig, started: any[], linkOk: Map<string, boolean>, user?: string) {
  const { cfg } = rig;
  const L = cfg.label ?? "";
  const itemIds = new Map<number, string>();
  for (const l of rig.log) {
    if (!l.started) continue;
    const root = started.find((s) => idOf(s) === l.rootId);
    w.assert(root, "root", `item ${l.idx} has no root span`);
    const item = rig.items[l.idx];
    const want: Record<string, any> = {
      [X + "name"]: rig.result.runName,
      [X + "metadata"]: cfg.meta ? JSON.stringify(rig.expMeta()) : undefined,
      [X + "dataset.id"]: cfg.dataset ? item.datasetId : undefined,
      [X + "item.metadata"]: JSON.stringify(item.metadata),
      [X + "item.root_observation_id"]: l.rootId,
    };
    if (cfg.dataset) want[X + "item.id"] = item.id;
    if (cfg.dataset && linkOk.get(item.id)) want[X + "id"] = "run-" + rig.result.runName;
    else if (!cfg.dataset) want[X + "id"] = rig.result.experimentId;
    for (const s of [root, ...l.spans]) {
      const a = attrs(s);
      for (const [k, v] of Object.entries(want)) w.assert(a[k] === v, "experiment-attribute", () => `span ${s.name} of item ${l.idx}: ${k} is ${JSON.stringify(a[k])}, expected ${JSON.stringify(v)}`);
      w.assert(typeof a[X + "id"] === "string" && a[X + "id"].length > 0, "experiment-attribute", `span ${s.name} of item ${l.idx} has no experiment id`);
      w.assert(typeof a[X + "item.id"] === "string" && a[X + "item.id"].length > 0, "experiment-attribute", `span ${s.name} of item ${l.idx} has no item id`);
      if (!itemIds.has(l.idx)) itemIds.set(l.idx, a[X + "item.id"]);
      w.assert(a[X + "item.id"] === itemIds.get(l.idx), "item-id", `spans of item ${l.idx} carry different item ids`);
      w.assert(a["langfuse.environment"] === "sdk-experiment", "environment", () => `span ${s.name} of item ${l.idx} is in environment ${a["langfuse.environment"]}`);
      w.assert(s.spanContext().traceId === l.traceId, "trace", `span ${s.name} of item ${l.idx} is in another trace`);
      if (s !== root) w.assert(a["user.id"] === user, "user", `span ${s.name} carries user ${a["user.id"]}`);
    }
  }
  const ids = [...itemIds.values()];
  w.assert(new Set(ids).size === ids.length, "item-id", "two items share an item id");
  for (const s of rig.outsideSpans) w.assert(expKeys(s).length === 0, "leak", () => `span ${s.name}, started outside every task, carries ${expKeys(s).join(", ")}`);
}

function scen(name: string, cfg: ExpCfg, o: { faults?: number; outside?: number; second?: ExpCfg; linkFault?: number; wrap?: boolean; first?: boolean } = {}): Scenario {
  return {
    name,
    run: async (w: World) => {
      const { rec } = setupOtel(w);
      const c = client(w);
      const rigs = [new ExpRig(w, c, { spans: true, ...cfg })];
      if (o.second) rigs.push(new ExpRig(w, c, { spans: true, ...o.second }));
      const left = { left: o.faults ?? 0 };
      const linkOk = new Map<string, boolean>();
      let lf = o.linkFault ?? 0;
      w.onFetch = (r) => {
        if (isLink(r)) {
          const bad = lf > 0 && w.bool("link fails");
          if (bad) lf--;
          linkOk.set(r.json.datasetItemId, !bad);
          return r.reply(bad ? { status: 400, json: {} } : goodReply(r));
        }
        r.reply(goodReply(r));
      };
      const outside: any[] = [];
      let n = o.outside ?? 0;
      const out = (nm: string) => outside.push(startObservation(nm).otelSpan);
      out("before");
      if (o.wrap) propagateAttributes({ userId: "u1", environment: "prod" }, () => startActiveObservation("outer", async (s) => { outside.push(s.otelSpan); for (const rg of rigs) rg.start(); out("sibling"); }));
      else for (const rg of rigs) rg.start();
      out("just after the start");
      await w.system({
        maxSteps: 200 + 8 * cfg.items,
        ...(o.first ? { reduce: (evs: any[]) => evs.slice(0, 1) } : {}),
        extra: () => [...rigs.flatMap((rg) => rg.events(left)), ...(n > 0 ? [{ name: "outside span", run: () => { n--; out("outside"); } }] : [])],
      });
      await w.settle(null, goodReply, 60_000);
      out("after");
      for (const rg of rigs) {
        rg.checkResult();
        checkRig(w, rg, rec.started, linkOk, o.wrap ? "u1" : undefined);
      }
      for (const s of outside) w.assert(expKeys(s).length === 0, "leak", () => `span ${(s as any).name}, started outside every task, carries ${expKeys(s).join(", ")}`);
    },
  };
}
/** several runs one after the other, some reusing and changing the same item objects */
const reuse = (n: number): Scenario => ({
  name: `${n} runs reusing items`,
  run: async (w) => {
    const { rec } = setupOtel(w);
    const c = client(w);
    w.onFetch = (r) => r.reply(goodReply(r));
    const input: any = { a: 0 }, item: any = { input, metadata: { m: 0 } }, data = [item];
    const seen = new Map<string, string>();
    for (let k = 0; k < n; k++) {
      const how = w.pick(["same", "input changed", "metadata changed", "input replaced", "item replaced", "another item first"], "items");
      if (how === "input changed") item.input.a = k + 1;
      if (how === "metadata changed") item.metadata.m = k + 1;
      if (how === "input replaced") item.input = { a: 100 + k };
      if (how === "item replaced") data[data.length - 1] = { input: { a: 200 + k }, metadata: { m: 200 + k } };
      if (how === "another item first" && data.length < 3) data.unshift({ input: { a: 300 + k }, metadata: { m: 300 + k } });
      const from = rec.started.length;
      const meta = w.bool("run metadata") ? { run: k } : undefined;
      const st = await w.settle(c.experiment.run({ name: "E" + (k % 2), runName: "R" + k, data, metadata: meta, task: async (it: any) => { startObservation("inner").end(); return it.input; } }), goodReply);
      w.assert(st.ok, "run", () => `run ${k} rejected ${st.error}`);
      const spans = rec.started.slice(from);
      for (const [i, it] of data.entries()) {
        const res = st.value.itemResults[i];
        const own = spans.filter((s: any) => s.spanContext().traceId === res.traceId);
        w.assert(own.length === 2, "spans", `${own.length} spans in the trace of an item`);
        const key = JSON.stringify(it.input), id = attrs(own[0])[X + "item.id"];
        for (const s of own) {
          const a = attrs(s);
          w.assert(a[X + "name"] === "R" + k && a[X + "metadata"] === (meta ? JSON.stringify(meta) : undefined) && a[X + "item.metadata"] === JSON.stringify(it.metadata) && a[X + "id"] === st.value.experimentId && a[X + "item.id"] === id && a[X + "item.root_observation_id"] === idOf(own[0]), "experiment-attribute", () => `run ${k} (${how}), item ${i}: ${JSON.stringify(a)}`);
        }
        w.assert(seen.get(id) === undefined || seen.get(id) === key, "item-id", () => `items with inputs ${seen.get(id)} and ${key} share an item id`);
        seen.set(id, key);
      }
    }
  },
});
/** an experiment run inside another one's task */
const nested: Scenario = {
  name: "experiment inside a task",
  run: async (w) => {
    const { rec } = setupOtel(w);
    const c = client(w);
    w.onFetch = (r) => r.reply(goodReply(r));
    const mk = (L: string, n: number) => {
      const ds = w.bool(L + " dataset"), meta = w.bool(L + " metadata"), im = w.bool(L + " item metadata");
      return { L, ds, meta: meta ? { em: L } : undefined, items: Array.from({ length: n }, (_, i) => ({ input: `${L}${i}`, ...(im ? { metadata: { m: `${L}${i}` } } : {}), ...(ds ? { id: `${L}item${i}`, datasetId: L + "ds", datasetName: "n", status: "ACTIVE" } : {}) })) as any[] };
    };
    const outer = mk("o", 2), inner = mk("i", 2);
    const limit = w.pick([1, 2], "inner limit");
    const spans: { s: any; x: any; it: any; which: string }[] = [];
    const own = (which: string, x: any, it: any) => { const o = startObservation(which); o.end(); spans.push({ s: o.otelSpan, x, it, which }); };
    const runs: any[] = [];
    const st = await w.settle(
      c.experiment.run({
        name: "outer", runName: "OUT", data: outer.items, metadata: outer.meta as any,
        task: async (it: any) => {
          own("outer before", outer, it);
          const r = await c.experiment.run({
            name: "inner", runName: "IN " + it.input, data: inner.items, metadata: inner.meta as any, maxConcurrency: limit,
            task: async (jt: any) => { own("inner " + it.input, inner, jt); await Promise.resolve(); own("inner late " + it.input, inner, jt); return jt.input + "!"; },
            evaluators: [async ({ output }: any) => { own("inner evaluator", outer, it); return { name: "q", value: output }; }] as any,
          });
          runs.push([it, r]);
          own("outer after", outer, it);
          return it.input + "?";
        },
      }),
      goodReply,
    );
    w.assert(st.ok, "run", () => `rejected ${st.error}`);
    const seen = new Map<string, string>();
    for (const { s, x, it, which } of spans) {
      const a = attrs(s);
      const inn = x === inner;
      const want: any = { [X + "name"]: inn ? "IN " + which.split(" ").pop() : "OUT", [X + "metadata"]: x.meta ? JSON.stringify(x.meta) : undefined, [X + "dataset.id"]: x.ds ? it.datasetId : undefined, [X + "item.metadata"]: it.metadata ? JSON.stringify(it.metadata) : undefined };
      if (x.ds) want[X + "item.id"] = it.id;
      for (const [k, v] of Object.entries(want)) w.assert(a[k] === v, "experiment-attribute", () => `span "${which}" of item ${it.input}: ${k} is ${JSON.stringify(a[k])}, expected ${JSON.stringify(v)}`);
      const root = rec.started.find((r: any) => idOf(r) === a[X + "item.root_observation_id"]) as any;
      w.assert(root?.name === "experiment-item-run", "experiment-attribute", () => `span "${which}": root ${root?.name}`);
      // all spans of one item of one run agree, different ones differ
      const key = `${want[X + "name"]} ${it.input}`, id = [a[X + "id"], a[X + "item.id"], idOf(root)].join();
      w.assert((seen.get(key) ?? id) === id && ![...seen].some(([k2, v2]) => k2 !== key && v2 === id), "experiment-attribute", () => `span "${which}" of item ${it.input}: ids ${id}, others ${JSON.stringify([...seen])}`);
      seen.set(key, id);
    }
    for (const [it, r] of runs) w.assert(r.itemResults.length === inner.items.length && r.itemResults.every((x: any, i: number) => x.output === inner.items[i].input + "!" && x.item === inner.items[i]), "inner-result", () => `results inside ${it.input}`);
    const after = startObservation("after").otelSpan;
    w.assert(expKeys(after).length === 0, "leak", "a span after both experiments carries experiment attributes");
  },
};
const def: CheckDef = {
  property: "E03",
  bounds: (t) => `up to 3 concurrent items with up to ${t === "quick" ? 3 : 4} asynchronous gaps and nested/active spans each, plus spans started outside at any point, link failures, two experiments at once; all interleavings`,
  assumptions: ["item inputs are distinct"],
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [];
    for (const ds of [false, true]) {
      const d = ds ? "dataset" : "local";
      out.push(scen(`${d}: 2 items, 3 gaps`, { items: 2, gaps: 3, dataset: ds, meta: true, evals: 1 }, { outside: 1 }));
      out.push(scen(`${d}: 3 items, 2 gaps`, { items: 3, gaps: 2, dataset: ds, evals: 1 }, { outside: q ? 0 : 1, faults: 1 }));
      out.push(scen(`${d}: 3 items, limit 2`, { items: 3, gaps: 2, limit: 2, dataset: ds, evals: 1, evalGate: !q }, { faults: 1 }));
      out.push(scen(`${d}: 2 items, gated evaluators`, { items: 2, gaps: 2, dataset: ds, meta: true, evals: 1, evalGate: true }, { outside: 1, faults: 1 }));
      out.push(scen(`${d}: inside another scope`, { items: 2, gaps: 2, dataset: ds }, { wrap: true, outside: 1 }));
      out.push(scen(`${d}: two experiments`, { items: 1, gaps: 2, dataset: ds, label: "a", meta: true, evals: 1 }, { second: { items: 2, gaps: 2, dataset: ds, label: "b", meta: true }, outside: q ? 0 : 1 }));
      if (!q) out.push(scen(`${d}: 2 items, 4 gaps`, { items: 2, gaps: 4, dataset: ds, meta: true }, { outside: 2 }), scen(`${d}: 3 items, 3 gaps`, { items: 3, gaps: 3, dataset: ds }, {}));
    }
    for (const rich of [1, 2, 3, 4]) for (const ds of [false, true]) out.push(scen(`unusual values ${rich} ${ds}`, { items: 2, gaps: 2, dataset: ds, rich, meta: true, longMeta: true, runName: "r".repeat(230) }, { outside: 0 }));
    for (const ds of [false, true]) out.push(scen(`many items ${ds ? "dataset" : "local"}`, { items: 130, gaps: 2, dataset: ds, meta: true, evals: 1 }, { first: true }), scen(`many items, limited ${ds ? "dataset" : "local"}`, { items: 130, gaps: 1, limit: 9, dataset: ds }, { first: true, wrap: true }));
    out.push(reuse(q ? 2 : 3), nested);
    out.push(scen("link failures", { items: 3, gaps: 1, dataset: true, meta: true }, { linkFault: 3 }));
    return out;
  },
};
export default def;
