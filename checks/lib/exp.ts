/** Experiments under full schedule control: every task, evaluator and request completes when the explorer says so. */
import { World, Req, type Reply } from "../../mc/engine";
import { client } from "./prompt";
import { okReply } from "./score";
import { Recorder, provider, useGlobal, idOf, trace } from "./otel";
import { isDeepStrictEqual } from "node:util";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { startObservation, startActiveObservation } from "@langfuse/tracing";

export type Gate = { name: string; ok: () => void; fail: (() => void) | null };
export type ExpCfg = { desc?: string;
  sameNames?: boolean; // all evaluators use one evaluation name
  items: number;
  dataset?: boolean;
  limit?: number;
  evals?: number; // item evaluators
  multi?: boolean; // evaluator 0 returns a list of two evaluations
  runEvals?: number;
  gaps?: number; // asynchronous gaps inside a task
  spans?: boolean; // tasks create spans
  evalGate?: boolean; // evaluators complete under explorer control
  runName?: string;
  version?: string;
  meta?: boolean;
  noInput?: number; // index of an item without input
  syncThrow?: boolean; // failing tasks/evaluators throw synchronously
  label?: string;
  name?: string; // experiment name
  clock?: boolean; // tasks take (virtual) time
  rich?: number; // unusual inputs, expected outputs, metadata and evaluations (variant number)
  longMeta?: boolean;
  syncFail?: number; // index of an item whose task throws synchronously
  oddErrors?: boolean; // failures reject with values that are not errors
  oddOutputs?: boolean; // outputs are undefined, null, empty, falsy
};
export type ItemLog = { idx: number; started: number; task?: "ok" | "fail"; evals: ("ok" | "fail" | undefined)[]; traceId?: string; rootId?: string; spans: any[] };
const exporter = { export: (_: any, cb: any) => cb({ code: 0 }), shutdown: async () => {}, forceFlush: async () => {} };

/** content of an item, its functions left out */
const plain = (it: any) => structuredClone(Object.fromEntries(Object.entries(it).filter(([, v]) => typeof v !== "function")));

export class ExpRig {
  given: any[] = [];
  gates: Gate[] = [];
  rec = new Recorder();
  items: any[] = [];
  log: ItemLog[] = [];
  result: any;
  error: any;
  settled = false;
  inProgressMax = 0;
  order: string[] = [];
  reqAtSettle = -1;
  pendingAtSettle: Req[] = [];
  runEvalSeen: any[] = [];
  outsideSpans: any[] = [];
  constructor(public w: World, public c: any, public cfg: ExpCfg) {
    const L = cfg.label ?? "";
    for (let i = 0; i < cfg.items; i++) {
      const it: any = { input: { q: `${L}in${i}` }, expectedOutput: i % 2 ? { e: `${L}exp${i}` } : `${L}exp${i}`, metadata: { m: `${L}meta${i}` } };
      if (cfg.rich) {
        it.input = [0, "", false, null, `${L}in${i}`, { q: "L".repeat(300) + i }, [i], -1, true, `${L}in${i}`][(i + (cfg.rich - 1)) % 10];
        it.expectedOutput = [0, "", false, undefined, null, { e: `${L}exp${i}` }, [], "E".repeat(300)][(i * 3 + cfg.rich) % 8];
        it.metadata = [undefined, { m: "M".repeat(250) + i }, {}, { n: { l: [i, null] }, z: 0 }][(i + cfg.rich) % 4];
        if (it.expectedOutput === undefined) delete it.expectedOutput;
        if (it.metadata === undefined) delete it.metadata;
      }
      if (cfg.noInput === i) delete it.input;
      if (cfg.dataset) Object.assign(it, { id: `${L}item${i}`, datasetId: `${L}ds`, datasetName: "n", status: "ACTIVE" });
      this.items.push(it);
      this.log.push({ idx: i, started: 0, evals: new Array(cfg.evals ?? 0).fill(undefined), spans: [] });
    }
  }
  gate(name: string, canFail = true): Promise<void> {
    return new Promise((res, rej) => {
      const g: Gate = {
        name,
        ok: () => {
          this.gates.splice(this.gates.indexOf(g), 1);
          res();
        },
        fail: canFail
          ? () => {
              this.gates.splice(this.gates.indexOf(g), 1);
              rej(this.cfg.oddErrors ? this.w.pick([undefined, null, "text", 0, { message: 5 }] as any[], "error") : new Error("boom " + name));
            }
          : null,
      };
      this.gates.push(g);
    });
  }
  done(l: ItemLog) {
    return l.task === "fail" || (l.task === "ok" && l.evals.every((e) => e !== undefined));
  }
  inProgress() {
    return this.log.filter((l) => l.started > 0 && !this.done(l)).length;
  }
  outputOf(i: number) {
    if (this.cfg.oddOutputs) return [undefined, null, "", 0, false][i % 5] as any;
    return `${this.cfg.label ?? ""}out${i}`;
  }
  description(): string {
    return this.cfg.desc ?? `${this.cfg.label ?? ""}desc`;
  }
  expMeta() {
    return this.cfg.longMeta ? { em: "x".repeat(300), nested: { a: [1, null, ""] } } : { em: `${this.cfg.label ?? ""}x` };
  }
  evalOf(i: number, k: number): any[] {
    const L = this.cfg.label ?? "";
    const one = { name: `${L}ev${this.cfg.sameNames ? "" : k}`, value: i * 10 + k, comment: `${L}c${i}.${k}`, metadata: { from: `${L}${i}.${k}` } };
    if (this.cfg.rich) {
      const n = i * 2 + k + this.cfg.rich;
      const value: any = [0, false, "", true, -1.5, "cat", 1e-7, "0"][n % 8];
      const e: any = { name: `${L}ev${k}${n % 5 === 0 ? " \u00e9" : ""}`, value };
      if (n % 3 === 0) e.comment = "";
      if (n % 3 === 1) e.comment = "c".repeat(250) + n;
      if (n % 4 === 1) e.metadata = { n, l: [null, { a: "" }] };
      if (n % 4 === 2) e.metadata = {};
      if (n % 2) e.dataType = typeof value === "boolean" ? "BOOLEAN" : typeof value === "string" ? "CATEGORICAL" : "NUMERIC";
      if (n % 3 === 2) e.configId = "cfg" + n;
      if (n % 7 === 6) return [];
      if (n % 7 === 5) return [e, { ...e }, { name: `${L}ev${k}`, value: 3 }];
      return [e];
    }
    return this.cfg.multi && k === 0 ? [one, { name: `${L}ev0b`, value: k === 0 ? `cat${i}` : "", dataType: "CATEGORICAL" }] : [one];
  }
  runEvalOf(k: number): any[] {
    const L = this.cfg.label ?? "";
    const one = { name: `${L}run${this.cfg.sameNames ? "" : k}`, value: k === 0 ? 0 : 0.5, comment: `${L}rc${k}` };
    return this.cfg.multi && k === 0 ? [one, { name: `${L}run0b`, value: 1 }] : [one];
  }
  start() {
    const { cfg, w } = this;
    this.given = this.items.map(plain);
    const task = (item: any) => {
      const i = this.items.indexOf(item);
      w.assert(i >= 0, "task-arg", "the task got something that is not one of the items");
      const l = this.log[i];
      l.started++;
      w.obs(`task ${i} starts`);
      if (cfg.clock) w.skip(61_234);
      w.assert(l.started === 1, "task-twice", `the task ran ${l.started} times for item ${i}`);
      const lim = cfg.limit ?? 50;
      w.assert(this.inProgress() <= lim, "concurrency", `${this.inProgress()} items in progress at once with limit ${lim}`);
      this.inProgressMax = Math.max(this.inProgressMax, this.inProgress());
      const sp = trace.getActiveSpan();
      l.traceId = sp?.spanContext().traceId;
      l.rootId = sp?.spanContext().spanId;
      const note = (o: any) => l.spans.push(o.otelSpan ?? o);
      if (cfg.syncFail === i) {
        l.task = "fail";
        throw new Error("synchronous failure");
      }
      const body = async () => {
        if (cfg.spans) note(startObservation(`t${i}-a`));
        try {
          for (let g = 0; g < (cfg.gaps ?? 1); g++) {
            if (cfg.spans && g % 2 === 1)
              await startActiveObservation(`t${i}-in${g}`, async (s) => {
                note(s);
                await this.gate(`task${i}.${g}`, g === (cfg.gaps ?? 1) - 1);
                note(startObservation(`t${i}-deep${g}`, {}, { asType: "generation" }));
              });
            else {
              await this.gate(`task${i}.${g}`, g === (cfg.gaps ?? 1) - 1);
              if (cfg.spans) note(startObservation(`t${i}-after${g}`));
            }
          }
        } catch (e) {
          l.task = "fail";
          throw e;
        }
        l.task = "ok";
        return this.outputOf(i);
      };
      return body();
    };
    const evaluators = Array.from({ length: cfg.evals ?? 0 }, (_, k) => (p: any) => {
      const i = this.items.findIndex((x) => x.input === p.input && x.expectedOutput === p.expectedOutput && x.metadata === p.metadata);
      w.assert(i >= 0, "evaluator-arg", "an evaluator got an input that is not an item's");
      w.assert(p.output === this.outputOf(i), "evaluator-arg", () => `evaluator of item ${i} got output ${p.output}`);
      w.assert(p.expectedOutput === this.items[i].expectedOutput && p.metadata === this.items[i].metadata, "evaluator-arg", `evaluator of item ${i} got another item's expected output or metadata`);
      const l = this.log[i];
      w.assert(l.task === "ok", "evaluator-early", `an evaluator ran for item ${i} whose task did not succeed`);
      if (cfg.syncThrow && w.choose(2, `evaluator ${k} of item ${i} throws at once`)) {
        l.evals[k] = "fail";
        throw new Error("at once");
      }
      return (async () => {
        try {
          if (cfg.spans) this.outsideSpans.push(startObservation(`eval${i}.${k}`).otelSpan);
          if (cfg.evalGate) await this.gate(`eval${i}.${k}`);
        } catch (e) {
          l.evals[k] = "fail";
          throw e;
        }
        l.evals[k] = "ok";
        if (cfg.spans) this.outsideSpans.push(startObservation(`evalafter${i}.${k}`).otelSpan);
        const r = this.evalOf(i, k);
        return r.length === 1 && i % 2 === 0 ? r[0] : r;
      })();
    });
    const runEvaluators = Array.from({ length: cfg.runEvals ?? 0 }, (_, k) => cfg.syncThrow ? ({ itemResults }: any): any => {
      this.runEvalSeen.push(itemResults.map((r: any) => r.item));
      if (w.choose(2, `run evaluator ${k} throws at once`)) {
        this.runEvalOutcome[k] = "fail";
        throw new Error("at once");
      }
      this.runEvalOutcome[k] = "ok";
      return Promise.resolve(this.runEvalOf(k));
    } : async ({ itemResults }: any) => {
      this.runEvalSeen.push(itemResults.map((r: any) => r.item));
      if (cfg.evalGate) {
        try {
          await this.gate(`runeval${k}`);
        } catch (e) {
          this.runEvalOutcome[k] = "fail";
          throw e;
        }
      }
      this.runEvalOutcome[k] = "ok";
      const r = this.runEvalOf(k);
      return r.length === 1 ? r[0] : r;
    });
    const params: any = { name: cfg.name ?? `${cfg.label ?? ""}Exp`, data: this.items, task, maxConcurrency: cfg.limit };
    if (cfg.limit === undefined) delete params.maxConcurrency;
    if (cfg.evals) params.evaluators = evaluators;
    if (cfg.runEvals) params.runEvaluators = runEvaluators;
    if (cfg.runName !== undefined) params.runName = cfg.runName;
    if (cfg.version !== undefined) params.datasetVersion = cfg.version;
    if (cfg.meta) Object.assign(params, { description: this.description(), metadata: this.expMeta() });
    const p = this.c.experiment.run(params);
    return p.then(
      (r: any) => {
        this.settled = true;
        this.result = r;
        this.reqAtSettle = w.reqs.length;
        this.pendingAtSettle = w.pending;
        w.obs("run resolved");
      },
      (e: any) => {
        this.settled = true;
        this.error = e;
        w.obs("run rejected");
      },
    );
  }
  runEvalOutcome: ("ok" | "fail" | undefined)[] = [];
  /** explorer events for the open gates */
  events(faults: { left: number }) {
    const out: { name: string; run: () => any }[] = [];
    for (const g of this.gates) {
      out.push({ name: "ok " + g.name, run: g.ok });
      if (g.fail && faults.left > 0)
        out.push({
          name: "fail " + g.name,
          run: () => {
            faults.left--;
            g.fail!();
          },
        });
    }
    return out;
  }
  /** result-level checks shared by E01/E02/E04 */
  checkResult() {
    const { w } = this;
    w.assert(isDeepStrictEqual(this.items.map(plain), this.given), "items-modified", "the given items were modified");
    w.assert(this.settled, "stuck", "the experiment never settles");
    w.assert(this.error === undefined, "rejected", () => `the experiment rejected: ${this.error}`);
    for (const l of this.log) w.assert(l.started === (this.cfg.noInput === l.idx ? 0 : 1), "task-count", `the task ran ${l.started} times for item ${l.idx}`);
    const want = this.log.filter((l) => l.task === "ok").map((l) => l.idx);
    const got = this.result.itemResults;
    w.assert(got.length === want.length, "result-count", `${got.length} results for ${want.length} successful items`);
    got.forEach((r: any, n: number) => {
      const i = want[n];
      w.assert(r.item === this.items[i] || (r.item?.input === this.items[i].input && r.item?.expectedOutput === this.items[i].expectedOutput), "result-order", `result ${n} is not item ${i}'s`);
      w.assert(r.output === this.outputOf(i), "result-output", `result of item ${i} has output ${r.output}`);
      w.assert(r.input === this.items[i].input, "result-input", `result of item ${i} has another input`);
      w.assert(r.expectedOutput === this.items[i].expectedOutput, "result-expected", `result of item ${i} has another expected output`);
      const evs = this.log[i].evals.flatMap((o, k) => (o === "ok" ? this.evalOf(i, k) : []));
      w.assert(JSON.stringify(r.evaluations) === JSON.stringify(evs), "result-evals", () => `result of item ${i} has evaluations ${JSON.stringify(r.evaluations)}, expected ${JSON.stringify(evs)}`);
      if (this.log[i].traceId) w.assert(r.traceId === this.log[i].traceId, "result-trace", `result of item ${i} names another trace`);
    });
    const runEvs = Array.from({ length: this.cfg.runEvals ?? 0 }, (_, k) => (this.runEvalOutcome[k] === "ok" ? this.runEvalOf(k) : [])).flat();
    w.assert(JSON.stringify(this.result.runEvaluations) === JSON.stringify(runEvs), "run-evals", () => `run evaluations ${JSON.stringify(this.result.runEvaluations)}`);
    for (const s of this.runEvalSeen) w.assert(s.length === want.length && s.every((it: any, n: number) => it === this.items[want[n]]), "run-eval-arg", "a run evaluator did not see the results in item order");
  }
}
export function setupOtel(w: World) {
  w.env({ LANGFUSE_TRACING_ENVIRONMENT: undefined });
  const rec = new Recorder();
  const lf = new LangfuseSpanProcessor({ exporter: exporter as any, publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", exportMode: "immediate", mediaUploadEnabled: false });
  const p = provider([lf as any, rec]);
  useGlobal(p);
  return { rec, p };
}
export { client, okReply, idOf, trace };
export const isLink = (r: Req) => r.path.endsWith("/api/public/dataset-run-items");
export const isIngest = (r: Req) => r.path.endsWith("/api/public/ingestion");
export const isProjects = (r: Req) => r.path.endsWith("/api/public/projects");
export function goodReply(r: Req): Reply {
  if (isIngest(r)) return okReply(r);
  if (isLink(r)) return { status: 200, json: { id: "ri-" + r.json.datasetItemId, datasetRunId: "run-" + r.json.runName, datasetRunName: r.json.runName, datasetItemId: r.json.datasetItemId, traceId: r.json.traceId, createdAt: "2026-01-01T00:00:00Z", updatedAt: "2026-01-01T00:00:00Z" } };
  if (isProjects(r)) return { status: 200, json: { data: [{ id: "proj", name: "p", metadata: {} }] } };
  return { status: 404, json: {} };
}
