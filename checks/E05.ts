import { isDeepStrictEqual } from "node:util";
import type { CheckDef, Scenario, World } from "../mc/engine";
import { ExpRig, setupOtel, client, goodReply, isLink, idOf, type ExpCfg } from "./lib/exp";

const O = "langfuse.observation.";
const same = (attr: any, v: any) => (typeof v === "string" ? attr === v : typeof attr === "string" && isDeepStrictEqual(JSON.parse(attr), JSON.parse(JSON.stringify(v))));
const show = (v: any) => JSON.stringify(v);

function checkRig(w: World, rig: ExpRig, rec: { started: any[]; ended: any[] }, version: string | undefined) {
  const { cfg } = rig;
  const L = cfg.label ?? "";
  const roots = new Set<string>();
  for (const l of rig.log) {
    if (!l.started) continue;
    const item = rig.items[l.idx];
    w.assert(l.rootId && !roots.has(l.rootId), "root", `item ${l.idx} has no observation of its own`);
    roots.add(l.rootId!);
    const ends = rec.ended.filter((s) => idOf(s) === l.rootId);
    w.assert(ends.length === 1, "ended", `the observation of item ${l.idx} was ended ${ends.length} times`);
    const a = ends[0].attributes as Record<string, any>;
    w.assert(a["langfuse.environment"] === "sdk-experiment", "environment", () => `item ${l.idx}: environment ${show(a["langfuse.environment"])}`);
    w.assert(a["langfuse.experiment.description"] === (cfg.meta ? rig.description() : undefined), "description", () => `item ${l.idx}: description ${show(a["langfuse.experiment.description"])}`);
    const exp = a["langfuse.experiment.item.expected_output"];
    if (item.expectedOutput === undefined || item.expectedOutput === null) w.assert(exp === undefined, "expected-output", () => `item ${l.idx} has no expected output but its observation records ${exp}`);
    else if (item.expectedOutput !== "") w.assert(same(exp, item.expectedOutput), "expected-output", () => `item ${l.idx}: expected output ${show(item.expectedOutput)} recorded as ${show(exp)}`);
    const st = ends[0].status ?? {};
    const failed = a[O + "level"] === "ERROR" || st.code === 2;
    if (l.task === "fail") {
      w.assert(failed, "error-level", () => `the task of item ${l.idx} failed but its observation has no error level`);
      const msg = a[O + "status_message"] ?? st.message;
      if (!cfg.oddErrors) w.assert(msg === (cfg.syncFail === l.idx ? "synchronous failure" : `boom task${l.idx}.${(cfg.gaps ?? 1) - 1}`), "error-message", () => `status message ${msg}`);
      w.assert(a[O + "output"] === undefined, "error-output", `the failed item ${l.idx} has an output`);
      continue;
    }
    w.assert(!failed, "error-level", `the task of item ${l.idx} succeeded but its observation has error level`);
    const out = rig.outputOf(l.idx);
    if (item.input === null) w.assert(a[O + "input"] === undefined || a[O + "input"] === "null", "input", () => `input null recorded as ${show(a[O + "input"])}`);
    else w.assert(same(a[O + "input"], item.input), "input", () => `item ${l.idx}: input ${show(item.input)} recorded as ${show(a[O + "input"])}`);
    if (out === undefined || out === null) w.assert(a[O + "output"] === undefined || a[O + "output"] === "null", "output", () => `output recorded as ${show(a[O + "output"])}`);
    else w.assert(same(a[O + "output"], out), "output", () => `item ${l.idx}: output ${show(out)} recorded as ${show(a[O + "output"])}`);
    const meta: Record<string, any> = { ...(item.metadata ?? {}), ...(cfg.meta ? rig.expMeta() : {}), experiment_name: L + "Exp", experiment_run_name: rig.result.runName, ...(cfg.dataset ? { dataset_id: item.datasetId, dataset_item_id: item.id } : {}) };
    for (const [k, v] of Object.entries(meta)) if (v != null) w.assert(same(a[`${O}metadata.${k}`], v), "metadata", () => `item ${l.idx}: metadata ${k} is ${show(a[`${O}metadata.${k}`])}, expected ${show(v)}`);
    for (const k of Object.keys(a)) if (k.startsWith(O + "metadata.")) w.assert(meta[k.slice(O.length + 9)] != null, "metadata", () => `item ${l.idx} has foreign metadata ${k}`);
  }
  if (!cfg.dataset) return;
  for (const l of rig.log) {
    if (!l.started) continue;
    const j = w.reqs.filter((r) => isLink(r) && r.json.datasetItemId === rig.items[l.idx].id)[0]?.json;
    w.assert(j, "link", `item ${l.idx} was not linked`);
    const want: any = { runName: rig.result.runName, datasetItemId: rig.items[l.idx].id, traceId: l.traceId, observationId: l.rootId };
    if (cfg.meta) Object.assign(want, { runDescription: rig.description(), metadata: JSON.parse(JSON.stringify(rig.expMeta())) });
    if (version) want.datasetVersion = version;
    w.assert(isDeepStrictEqual(j, want), "link", () => `item ${l.idx} linked as ${show(j)}, expected ${show(want)}`);
  }
}

function scen(name: string, cfg: ExpCfg, o: { faults?: number; second?: ExpCfg; linkFault?: number } = {}): Scenario {
  return {
    name,
    run: async (w: World) => {
      const { rec } = setupOtel(w);
      const c = client(w);
      const rigs = [new ExpRig(w, c, cfg)];
      if (o.second) rigs.push(new ExpRig(w, c, o.second));
      const left = { left: o.faults ?? 0 };
      let lf = o.linkFault ?? 0;
      w.onFetch = (r) => {
        if (isLink(r) && lf > 0 && w.bool("link fails")) {
          lf--;
          return r.reply({ status: 400, json: {} });
        }
        r.reply(goodReply(r));
      };
      for (const rg of rigs) rg.start().then(() => (rg as any).endedAtSettle = rec.ended.length);
      await w.system({ extra: () => rigs.flatMap((rg) => rg.events(left)) });
      await w.settle(null, goodReply, 60_000);
      for (const rg of rigs) {
        rg.checkResult();
        const n = (rg as any).endedAtSettle;
        checkRig(w, rg, { started: rec.started, ended: rec.ended.slice(0, n).concat(rec.ended.slice(n).filter((s) => rg.log.some((l) => l.rootId === idOf(s)))) }, rg.cfg.version);
        for (const s of rec.ended.slice(n)) w.assert(!rg.log.some((l) => l.rootId === idOf(s)), "ended-late", "an item's observation ended only after the experiment had resolved");
      }
    },
  };
}
const def: CheckDef = {
  property: "E05",
  bounds: (t) => `up to ${t === "quick" ? 3 : 4} items x limits {1,2,default}, dataset-backed and local, all completion orders of tasks with up to ${t === "quick" ? 1 : 2} failures; 10 input, 8 expected output, 4 metadata and 5 output shapes; link failures; two experiments at once`,
  assumptions: ["whether an empty expected output is recorded is not constrained", "an item whose task failed has recorded no output; its input is not constrained"],
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [];
    for (const ds of [false, true]) {
      const d = ds ? "dataset" : "local";
      for (const limit of [1, 2, undefined]) out.push(scen(`${d}: ${q ? 3 : 4} items, limit ${limit}`, { items: q ? 3 : 4, limit, dataset: ds, meta: true, version: limit === 2 ? "2026-01-01T00:00:00Z" : undefined, runName: limit === 1 ? "R / 1" : undefined }, { faults: q ? 1 : 2, linkFault: ds ? 1 : 0 }));
      out.push(scen(`${d}: 2 items, 2 gaps, no metadata`, { items: 2, gaps: 2, dataset: ds, evals: 1, evalGate: true }, { faults: 1 }));
      for (let rich = 1; rich <= 10; rich++) out.push(scen(`${d}: unusual values ${rich}`, { items: 3, dataset: ds, rich, meta: rich % 2 === 0, longMeta: rich % 4 === 0 }, { faults: 1 }));
      out.push(scen(`${d}: odd outputs`, { items: 5, limit: 2, dataset: ds, oddOutputs: true, meta: true }), scen(`${d}: odd errors`, { items: 2, dataset: ds, oddErrors: true }, { faults: 1 }));
      for (const f of [0, 1]) out.push(scen(`${d}: task ${f} throws synchronously`, { items: 2, dataset: ds, syncFail: f, meta: true }));
      out.push(scen(`${d}: two experiments`, { items: 2, dataset: ds, label: "a", meta: true }, { second: { items: 2, dataset: ds, label: "b", meta: true, version: "2027-01-01T00:00:00Z" }, faults: 1 }));
      for (const desc of [" ", "0", "Ünï\n☃ ", "long ".repeat(1000), "{}", "null"]) out.push(scen(`${d}: description ${JSON.stringify(desc.slice(0, 8))}`, { items: 2, dataset: ds, meta: true, desc }, { faults: 1 }));
      out.push(scen(`${d}: spans inside`, { items: 2, gaps: 2, spans: true, dataset: ds, meta: true }, { faults: 1 }));
    }
    return out;
  },
};
export default def;
