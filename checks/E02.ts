import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { ExpRig, setupOtel, client, goodReply, isLink, isIngest, isProjects, type ExpCfg } from "./lib/exp";

type Opts = { faults?: number; reqFaults?: number; linkFaults?: number; projFault?: boolean; timers?: number; flushAt?: string; autoGates?: boolean; autoReqs?: boolean; second?: ExpCfg; inTurn?: number };

function check(w: World, rig: ExpRig, linkOk: Map<string, boolean>, scores: { body: any; req: Req }[]) {
  const { cfg } = rig;
  rig.checkResult();
  const L = cfg.label ?? "";
  // which scores must have arrived
  const expected: any[] = [];
  rig.log.forEach((l) => {
    if (l.task !== "ok") return;
    l.evals.forEach((o, k) => {
      if (o === "ok") for (const e of rig.evalOf(l.idx, k)) expected.push({ ...e, traceId: l.traceId, obs: l.rootId });
    });
  });
  const runName = rig.result.runName;
  if (cfg.runName !== undefined) w.assert(runName === cfg.runName, "run-name", `run name ${runName}`);
  const anyLinked = rig.log.some((l) => l.task === "ok" && linkOk.get(rig.items[l.idx].id));
  if (cfg.dataset) {
    w.assert((rig.result.datasetRunId === "run-" + runName) === anyLinked || (!anyLinked && rig.result.datasetRunId === undefined), "run-id", `datasetRunId ${rig.result.datasetRunId}`);
    if (anyLinked) rig.result.runEvaluations.forEach((e: any) => expected.push({ ...e, datasetRunId: "run-" + runName }));
  } else w.assert(rig.result.datasetRunId === undefined, "run-id", "a local experiment has a dataset run id");
  const mine = scores.filter((s) => s.body.name.startsWith(L + "ev") || s.body.name.startsWith(L + "run"));
  for (const e of expected) {
    const sent = (v: any) => (v === undefined ? undefined : JSON.stringify(v));
    const hit = mine.filter((s) => s.body.name === e.name && s.body.value === e.value && s.body.comment === e.comment && sent(s.body.metadata) === sent(e.metadata) && (e.datasetRunId ? s.body.datasetRunId === e.datasetRunId && s.body.traceId === undefined : s.body.traceId === e.traceId && s.body.datasetRunId === undefined));
    const times = expected.filter((x) => JSON.stringify(x) === JSON.stringify(e)).length;
    w.assert(hit.length === times, "score-count", () => `evaluation ${JSON.stringify(e)} was sent ${hit.length} times on its trace/run; sent: ${JSON.stringify(mine.map((m) => m.body))}`);
    w.assert(new Set(hit.map((h) => h.body.id)).size === hit.length, "score-id", "two scores share an id");
    const b = hit[0].body;
    w.assert(b.comment === e.comment && JSON.stringify(b.metadata) === JSON.stringify(e.metadata) && b.dataType === e.dataType && b.configId === e.configId, "score-content", () => `evaluation ${JSON.stringify(e)} was sent as ${JSON.stringify(b)}`);
    w.assert(b.observationId === e.obs, "score-observation", "score on another observation");
    w.assert(hit[0].req.state !== "pending" || !rig.pendingAtSettle.includes(hit[0].req), "score-late", "the experiment resolved while a score request was unfinished");
    w.assert(hit[0].req.id < rig.reqAtSettle, "score-late", "a score was sent only after the experiment had resolved");
  }
  w.assert(new Set(scores.map((s) => s.body.id)).size === scores.length, "score-id", "two scores share an id");
  w.assert(mine.length === expected.length, "score-extra", () => `${mine.length} scores sent, ${expected.length} expected`);
  // links
  if (cfg.dataset) {
    for (const l of rig.log) {
      if (l.started === 0) continue;
      const id = rig.items[l.idx].id;
      const ls = w.reqs.filter((r) => isLink(r) && r.json.datasetItemId === id);
      w.assert(ls.length === 1, "link-count", `${ls.length} link requests for item ${l.idx}`);
      const j = ls[0].json;
      w.assert(j.runName === runName, "link-run", `item ${l.idx} linked to run ${j.runName}, experiment run is ${runName}`);
      w.assert(j.traceId === l.traceId, "link-trace", `item ${l.idx} linked to another item's trace`);
      w.assert(j.observationId === l.rootId, "link-observation", `item ${l.idx} linked to another observation`);
      w.assert(!rig.pendingAtSettle.includes(ls[0]) && ls[0].id < rig.reqAtSettle, "link-late", "the experiment resolved before an item was linked");
      if (cfg.meta) w.assert(j.runDescription === rig.description() && JSON.stringify(j.metadata) === JSON.stringify(rig.expMeta()), "link-meta", () => `link carries ${JSON.stringify(j)}`);
      w.assert(j.datasetVersion === cfg.version, "link-version", () => `link carries dataset version ${j.datasetVersion}`);
    }
    for (const r of rig.result.itemResults) {
      const id = r.item.id;
      w.assert(r.datasetRunId === (linkOk.get(id) ? "run-" + runName : undefined), "item-run", `item ${id} reports run ${r.datasetRunId}`);
    }
  } else w.assert(w.reqs.filter((r) => isLink(r) && r.json.datasetItemId?.startsWith?.(L + "item")).length === 0, "link-count", "local items were linked");
}

function scen(name: string, cfg: ExpCfg, o: Opts): Scenario {
  return {
    name,
    run: async (w: World) => {
      setupOtel(w);
      const c = client(w);
      if (o.flushAt) w.env({ LANGFUSE_FLUSH_AT: o.flushAt });
      const cc = o.flushAt ? new (c.constructor as any)({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf" }) : c;
      const rigs = [new ExpRig(w, cc, cfg)];
      if (o.second) rigs.push(new ExpRig(w, cc, o.second));
      const left = { left: o.faults ?? 0 };
      let reqFaults = o.reqFaults ?? 0, linkFaults = o.linkFaults ?? 0, proj = o.projFault ?? false;
      const linkOk = new Map<string, boolean>();
      const good = (r: Req): Reply => {
        if (isLink(r)) linkOk.set(r.json.datasetItemId, true);
        return goodReply(r);
      };
      const bad = (r: Req, rep: Reply) => {
        if (isLink(r)) {
          linkFaults--;
          linkOk.set(r.json.datasetItemId, false);
        } else if (isIngest(r)) reqFaults--;
        else proj = false;
        return rep;
      };
      if (o.autoReqs) w.onFetch = (r) => r.reply(good(r));
      const todo = [...rigs];
      if (o.inTurn === undefined) for (const rg of todo.splice(0)) rg.start();
      else todo.shift()!.start();
      const go = () => w.system({
        extra: () => rigs.flatMap((rg) => rg.events(left)),
        timerBudget: o.timers ?? 0,
        maxSteps: 200 + 8 * cfg.items,
        timerHorizon: 5000,
        replies: (r) => {
          const alts = [{ name: "ok", reply: () => good(r) }];
          const can = isLink(r) ? linkFaults > 0 : isIngest(r) ? reqFaults > 0 : proj;
          if (can) {
            alts.push({ name: "400", reply: () => bad(r, { status: 400, json: { message: "x" } }) }, { name: "net", reply: () => bad(r, { error: new TypeError("fetch failed") }) });
            if (isIngest(r)) alts.push({ name: "partial", reply: () => bad(r, { status: 207, json: { successes: [], errors: r.json.batch.map((b: any) => ({ id: b.id, status: 400, message: "m" })) } }) });
          }
          return alts;
        },
        reduce: (evs) => {
          if (!o.autoGates) return evs;
          const g = evs.find((e) => e.kind === "extra");
          return g ? [g] : evs;
        },
      });
      await go();
      for (const rg of todo) {
        await w.settle(null, good, 60_000);
        w.skip(o.inTurn!);
        rg.start();
        await go();
      }
      await w.settle(null, good, 60_000);
      const scores = w.reqs.filter(isIngest).flatMap((r) => r.json.batch.map((b: any) => ({ body: b.body, req: r })));
      for (const rg of rigs) check(w, rg, linkOk, scores);
      const names = rigs.map((r) => r.result.runName);
      w.assert(new Set(names).size === names.length, "run-name", () => `two runs share the name ${names[0]}`);
      for (const rg of rigs) for (const r of w.reqs.filter(isLink)) if (r.json.datasetItemId.startsWith((rg.cfg.label ?? "") + "item")) w.assert(r.json.runName === rg.result.runName, "link-run", `runs mixed ${names}`);
    },
  };
}
const def: CheckDef = {
  property: "E02",
  bounds: (t) => `up to 3 items (dataset-backed and local), up to 2 evaluators and 2 run evaluators; all completion orders of link requests, score requests, tasks and evaluators with up to ${t === "quick" ? 2 : 3} faults, flush thresholds {default,1,2}, two concurrent experiments`,
  assumptions: ["scores are attributed by trace id or dataset run id"],
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [];
    for (const limit of [1, 2, undefined]) {
      out.push(scen(`dataset 2 items limit ${limit}: links and gates`, { items: 2, dataset: true, limit, evals: 1, runEvals: 1, multi: true, meta: true, runName: "R 1" }, { linkFaults: 1, faults: 1 }));
      out.push(scen(`dataset 2 items limit ${limit}: evaluators`, { items: 2, dataset: true, limit, evals: 2, runEvals: 2, evalGate: true }, { autoReqs: true, faults: q ? 1 : 2 }));
      out.push(scen(`dataset 3 items limit ${limit}: links`, { items: 3, dataset: true, limit, evals: 1, runEvals: 1, multi: true, version: "2026-01-01T00:00:00Z" }, { linkFaults: q ? 2 : 3, autoGates: true }));
      out.push(scen(`local 3 items limit ${limit}`, { items: 3, limit, evals: 1, evalGate: true, multi: true, runEvals: 1 }, { autoReqs: true, faults: 1 }));
    }
    for (const at of ["1", "2", ""]) {
      out.push(scen(`score requests, threshold ${at || "default"}`, { items: 2, dataset: true, limit: 2, evals: 1, runEvals: 1, multi: at !== "1" || !q }, { reqFaults: at === "1" ? 1 : 2, flushAt: at || undefined, timers: 1, autoGates: at === "1" }));
      out.push(scen(`score requests local, threshold ${at || "default"}`, { items: 2, limit: 2, evals: 2, runEvals: 1 }, { reqFaults: 1, faults: 1, flushAt: at || undefined, timers: 1 }));
    }
    out.push(scen("project lookup fails", { items: 2, dataset: true, evals: 1, runEvals: 1, meta: true }, { projFault: true, linkFaults: 1, reqFaults: 1, autoGates: true }));
    for (const rich of [1, 2, 3, 4, 5, 6, 7, 8])
      for (const ds of [true, false]) out.push(scen(`unusual values ${rich} ${ds ? "dataset" : "local"}`, { items: 5, dataset: ds, evals: 2, runEvals: 1, rich, meta: true, longMeta: rich % 2 === 0, runName: rich % 2 ? "run / %20 \u00e9 " + "r".repeat(220) : undefined }, { autoReqs: true, autoGates: true, flushAt: rich === 3 ? "3" : undefined }));
    for (const limit of [1, 2]) out.push(scen(`slow tasks limit ${limit}`, { items: 3, dataset: true, limit, evals: 1, runEvals: 1, clock: true }, { autoReqs: true, linkFaults: 0 }));
    // only the run is scored, or nothing is
    for (const ds of [true, false]) for (const runEvals of [0, 1, 2]) out.push(scen(`no item evaluators, ${runEvals} run evaluators, ${ds ? "dataset" : "local"}`, { items: 2, dataset: ds, runEvals, multi: true }, { faults: 1, linkFaults: 1, reqFaults: 1, autoGates: false }));
    for (const ds of [true, false]) out.push(scen(`evaluations of one name ${ds ? "dataset" : "local"}`, { items: 2, dataset: ds, evals: 3, runEvals: 2, sameNames: true, multi: true }, { autoReqs: true, faults: 1 }));
    out.push(scen("many items", { items: 110, dataset: true, evals: 1, runEvals: 1, limit: 7 }, { autoReqs: true, autoGates: true, flushAt: "1000" }));
    out.push(scen("many items, defaults", { items: 260, dataset: true, evals: 2, runEvals: 1 }, { autoReqs: true, autoGates: true }));
    out.push(scen("many local items, many evaluators", { items: 60, evals: 12, runEvals: 11, limit: 60 }, { autoReqs: true, autoGates: true }));
    out.push(scen("two experiments", { items: 2, dataset: true, evals: 1, runEvals: 1, label: "a", limit: 1, runName: "RA" }, { autoReqs: true, second: { items: 2, dataset: true, evals: 1, runEvals: 1, label: "b", runName: "RB", limit: 2 }, faults: 1 }));
    out.push(scen("two experiments, requests", { items: 1, dataset: true, evals: 1, runEvals: 1, label: "a", runName: "RA" }, { second: { items: 1, dataset: true, evals: 1, label: "b", runName: "RB" }, reqFaults: 1, autoGates: true }));
    // the same experiment again: each run has its own name
    for (const [a, b, gap] of [["RA", "RB", 5], ["RA", undefined, 5], [undefined, "RB", 5], [undefined, undefined, 1500], [undefined, undefined, 90_000]] as [any, any, number][])
      for (const ds of [true, false]) out.push(scen(`again: ${a}/${b} after ${gap} ${ds ? "dataset" : "local"}`, { items: 1, dataset: ds, evals: 1, runEvals: 1, label: "a", name: "Same", runName: a }, { inTurn: gap, second: { items: 2, dataset: ds, evals: 1, runEvals: 1, label: "b", name: "Same", runName: b }, autoReqs: true, faults: 1 }));
    return out;
  },
};
export default def;
