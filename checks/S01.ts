import type { CheckDef, Scenario, World } from "../mc/engine";
import { ScoreRig, replySets, okReply } from "./lib/score";
import { provider, Recorder, trace, context, useGlobal } from "./lib/otel";
import { LangfuseClient } from "@langfuse/client";
import { configureGlobalLogger, resetGlobalLogger, LogLevel } from "@langfuse/core";
import { startObservation, startActiveObservation, setLangfuseTracerProvider } from "@langfuse/tracing";
import { isDeepStrictEqual } from "node:util";

type F = "score.flush" | "client.flush" | "client.shutdown" | "score.shutdown";

function verify(w: World, rig: ScoreRig) {
  const bs = rig.batches();
  for (const b of bs) w.assert(b.names.length >= 1 && b.names.length <= 100, "batch-size", `a request carries ${b.names.length} scores`);
  const sent = bs.flatMap((b) => b.names);
  const count = new Map<string, number>();
  for (const n of sent) count.set(n, (count.get(n) ?? 0) + 1);
  for (const c of rig.created) w.assert(count.get(c.name) === 1, "exactly-once", () => `score ${c.name} was sent ${count.get(c.name) ?? 0} times (sent: ${sent.join(",").slice(0, 200)})`);
  w.assert(sent.length === rig.created.length, "exactly-once", () => `${sent.length} scores sent, ${rig.created.length} created`);
  w.assert(sent.every((n, i) => n === rig.created[i].name), "order", () => `scores sent in order ${sent.join(",").slice(0, 300)}`);
  const ids = bs.flatMap((b) => b.bodies.map((e) => e.body.id));
  w.assert(new Set(ids).size === ids.length && ids.every((i) => typeof i === "string" && i.length > 0), "ids", "score ids are not unique");
  const eids = bs.flatMap((b) => b.bodies.map((e) => e.id));
  w.assert(new Set(eids).size === eids.length, "ids", "event ids are not unique");
  const byName = new Map(rig.created.map((c) => [c.name, c]));
  for (const e of bs.flatMap((b) => b.bodies)) {
    w.assert(e.type === "score-create", "event-type", `event type ${e.type}`);
    const { id: _i, ...rest } = e.body;
    const c = byName.get(e.body.name)!;
    if (c.body.id !== undefined) rest.id = _i;
    w.assert(isDeepStrictEqual(rest, JSON.parse(JSON.stringify(c.body))), "content", () => `score ${c.name} sent as ${JSON.stringify(rest)}, created as ${JSON.stringify(c.body)}`);
    w.assert(e.timestamp === new Date(c.at).toISOString(), "timestamp", `score ${c.name} created at ${new Date(c.at).toISOString()} has timestamp ${e.timestamp}`);
  }
}

function sched(name: string, flushAt: number | undefined, progs: (number | F)[][], replies: keyof typeof replySets, timerBudget: number): Scenario {
  return {
    name,
    run: async (w) => {
      const rig = new ScoreRig(w, flushAt, undefined);
      await w.system({
        threads: progs.map((p, i) => ({ name: "T" + i, steps: p.map((op) => () => (typeof op === "number" ? rig.create(op) : rig.flush(op))) })),
        replies: replySets[replies],
        timerBudget,
        microBudget: replies === "ok" ? 1 : 0,
        microDepth: 4,
        timerHorizon: 10_000,
      });
      // let the remaining timers fire and requests finish, then flush the rest
      await w.settle(null, okReply, 100_000);
      await w.settle(rig.flush("score.flush"), okReply);
      verify(w, rig);
    },
  };
}

/** a long queue: everything up to the documented capacity of 100 000 waiting scores is sent, once and in order */
const queueScen: Scenario = {
  name: "long queues",
  run: async (w) => {
    const [n, second] = w.pick([[10_050, 0], [100_000, 0], [12_000, 300]] as const, "scores");
    const rig = new ScoreRig(w, 1_000_000, 100_000);
    rig.create(n);
    const p = rig.flush("client.flush");
    if (second) rig.create(second);
    await w.settle(p, okReply, 100_000);
    await w.settle(rig.flush("score.flush"), okReply, 100_000);
    verify(w, rig);
  },
};

/** content of one score, all field combinations */
const FIELDS: [string, any[]][] = [
  ["id", [undefined, " my id\n"]],
  ["environment", [undefined, "prod", ""]],
  ["comment", [undefined, " c ", ""]],
  ["metadata", [undefined, { a: { b: [1, null, "x"] } }]],
  ["dataType", [undefined, "NUMERIC", "CATEGORICAL", "BOOLEAN"]],
  ["configId", [undefined, "Cfg "]],
  ["sessionId", [undefined, " Sess"]],
  ["datasetRunId", [undefined, "run"]],
  ["observationId", [undefined, "obs"]],
  ["value", [0, 1.5, -3, "", " Cat ", false, true, null]],
];
function content(envVar: string | undefined, part: number): Scenario {
  return {
    name: `content env=${envVar} value#${part}`,
    run: async (w) => {
      const rig = new ScoreRig(w, undefined, undefined, { LANGFUSE_TRACING_ENVIRONMENT: envVar });
      const data: any = { name: " n<&\"\u00e9 ", traceId: "TR " };
      for (const [f, vs] of FIELDS) {
        const v = f === "value" ? vs[part] : w.pick(vs, f);
        if (v !== undefined) data[f] = v;
      }
      const given = structuredClone(data);
      rig.client.score.create(data);
      w.assert(isDeepStrictEqual(data, given), "caller-object-changed", "creating a score modified the caller's object");
      // the caller may reuse the object
      data.value = "changed later";
      data.name = "other";
      await w.settle(rig.client.score.flush(), okReply);
      const bs = rig.batches();
      w.assert(bs.length === 1 && bs[0].bodies.length === 1, "exactly-once", `${bs.length} requests`);
      const sent = bs[0].bodies[0].body;
      const want: any = { ...given };
      if (given.environment === undefined && envVar !== undefined) want.environment = envVar;
      if (given.id === undefined) {
        w.assert(typeof sent.id === "string" && sent.id.length > 0, "ids", "no generated id");
        want.id = sent.id;
      }
      w.assert(isDeepStrictEqual(sent, want), "content", () => `sent ${JSON.stringify(sent)}, expected ${JSON.stringify(want)}`);
    },
  };
}

/** long contents: a field of any length arrives whole, and the scores around it are unaffected */
const longContent: Scenario = {
  name: "long contents",
  run: async (w) => {
    const field = w.pick(["comment", "value", "name", "metadata", "many keys", "deep"] as const, "field");
    const size = w.pick([500, 1_001, 10_001, 70_000, 1_100_000, 5_300_000], "size");
    const copies = w.pick(size > 1_000_000 ? [1] : [1, 3], "copies");
    const rig = new ScoreRig(w, w.pick([undefined, 2], "flushAt"), undefined);
    const long = "l\u00e9\ud83d\ude00".repeat(size / 4);
    const mk = (i: number): any => {
      const d: any = { id: "id" + i, name: "n" + i, value: i, traceId: "t" };
      if (field === "metadata") d.metadata = { k: [long] };
      else if (field === "many keys") d.metadata = Object.fromEntries(Array.from({ length: Math.min(size, 20_000) }, (_, k) => ["k" + k, k]));
      else if (field === "deep") {
        let v: any = "leaf";
        for (let k = 0; k < Math.min(size, 1_001); k++) v = k % 2 ? [v] : { v };
        d.metadata = v;
      } else d[field] = long;
      return d;
    };
    const want: any[] = [];
    const put = (d: any): void => void (want.push(d), rig.client.score.create(structuredClone(d)));
    put({ id: "first", name: "a", value: 1, traceId: "t" });
    for (let i = 0; i < copies; i++) put(mk(i));
    put({ id: "last", name: "z", value: 2, traceId: "t" });
    await w.settle(rig.client.flush(), okReply);
    const sent = rig.batches().flatMap((b) => b.bodies.map((e: any) => e.body));
    w.assert(sent.length === want.length, "exactly-once", `${sent.length} scores sent, expected ${want.length}`);
    want.forEach((d) => w.assert(isDeepStrictEqual(sent.find((s: any) => s.id === d.id), d), "content", `score ${d.id} with a long ${field} did not arrive whole`));
  },
};

/** a field given as undefined is a field not given */
const undef: Scenario = {
  name: "fields given as undefined",
  run: async (w) => {
    const envVar = w.pick([undefined, "cfg-env"], "environment variable");
    const rig = new ScoreRig(w, undefined, undefined, { LANGFUSE_TRACING_ENVIRONMENT: envVar });
    const data: any = { name: "n", value: 1 }, given: any = { ...data };
    for (const [f, v] of [["id", "my-id"], ["environment", "prod"], ["traceId", "tr"], ["comment", "c"], ["metadata", { a: 1 }], ["observationId", "o"]] as const) {
      const k = w.choose(3, `${f}: absent|undefined|given`);
      if (k === 1) data[f] = undefined;
      if (k === 2) data[f] = given[f] = v;
    }
    rig.client.score.create(data);
    await w.settle(rig.client.score.flush(), okReply);
    const bs = rig.batches();
    w.assert(bs.length === 1 && bs[0].bodies.length === 1, "exactly-once", `${bs.length} requests`);
    const sent = bs[0].bodies[0].body;
    if (!given.environment && envVar) given.environment = envVar;
    if (!given.id) {
      w.assert(typeof sent.id === "string" && sent.id.length > 0, "ids", "no generated id");
      given.id = sent.id;
    }
    w.assert(isDeepStrictEqual(sent, given), "content", () => `sent ${JSON.stringify(sent)}, expected ${JSON.stringify(given)}`);
  },
};

/** linking entry points */
const link: Scenario = {
  name: "linking",
  run: async (w) => {
    const rec = new Recorder();
    const p = provider([rec]);
    setLangfuseTracerProvider(p);
    useGlobal(p);
    const rig = new ScoreRig(w, undefined, undefined);
    const want: any[] = [];
    const n = 2;
    let k = 0;
    const useOne = (outerActive: any, others: any[]) => {
      const which = w.choose(4, "entry");
      const target = others.length ? w.pick(others, "target") : null;
      const data: any = { name: "s" + k++, value: 1 };
      // ids in the data (undefined or left over from elsewhere) must not win over the span's
      Object.assign(data, w.pick([{}, { comment: "c" }, { value: true, dataType: "BOOLEAN" }, { value: "cat", dataType: "CATEGORICAL", configId: "cfg" }, { dataType: "NUMERIC", environment: "e", metadata: { a: [1] } }, { traceId: undefined, observationId: undefined }, { traceId: "stale", ...(which % 2 === 0 ? { observationId: "stale" } : {}) }], "data"));
      const ctx = (o: any) => o.otelSpan.spanContext();
      if (which === 0 && target) {
        rig.client.score.observation(target, data);
        want.push({ ...data, traceId: ctx(target).traceId, observationId: ctx(target).spanId });
      } else if (which === 1 && target) {
        rig.client.score.trace(target, data);
        want.push({ ...data, traceId: ctx(target).traceId });
      } else if (which === 2) {
        rig.client.score.activeObservation(data);
        if (outerActive) want.push({ ...data, traceId: ctx(outerActive).traceId, observationId: ctx(outerActive).spanId });
      } else if (which === 3) {
        rig.client.score.activeTrace(data);
        if (outerActive) want.push({ ...data, traceId: ctx(outerActive).traceId });
      }
    };
    const a = startObservation("a");
    const shape = w.choose(4, "shape");
    if (shape === 0) {
      useOne(null, [a]);
      useOne(null, [a]);
    } else if (shape === 1) {
      startActiveObservation("outer", (o) => {
        useOne(o, [a, o]);
        startActiveObservation("inner", (i) => useOne(i, [a, o, i]));
      });
    } else if (shape === 3) {
      // any OpenTelemetry span can be active, also one that is not recorded
      const raw = w.bool("recorded") ? p.getTracer("other").startSpan("raw") : trace.wrapSpanContext({ traceId: "0af7651916cd43dd8448eb211c80319c", spanId: "b7ad6b7169203331", traceFlags: 0, isRemote: true });
      context.with(trace.setSpan(context.active(), raw), () => {
        useOne({ otelSpan: raw }, [a, { otelSpan: raw }]);
        startActiveObservation("inner", (i) => useOne(i, [a]));
        useOne({ otelSpan: raw }, [a]);
      });
    } else {
      startActiveObservation("outer", (o) => {
        startActiveObservation("inner", () => {});
        const child = o.startObservation("child");
        useOne(o, [a, child]);
      });
      useOne(null, [a]);
    }
    void n;
    await w.settle(rig.client.flush(), okReply);
    const sent = rig.batches().flatMap((b) => b.bodies.map((e) => { const { id, ...r } = e.body; return r; }));
    setLangfuseTracerProvider(null);
    trace.disable();
    w.assert(isDeepStrictEqual(sent, JSON.parse(JSON.stringify(want))), "link", () => `sent ${JSON.stringify(sent)}, expected ${JSON.stringify(want)}`);
  },
};

/** same caller object reused: each score gets its own id */
const reuse: Scenario = {
  name: "reused object gets fresh ids",
  run: async (w) => {
    const rig = new ScoreRig(w, w.pick([undefined, 1, 2]), undefined);
    const data: any = { name: "x", value: 1, traceId: "t" };
    for (let i = 0; i < 3; i++) {
      data.value = i;
      rig.client.score.create(data);
      if (w.bool("flush")) await w.settle(rig.client.flush(), okReply);
    }
    await w.settle(rig.client.flush(), okReply);
    const sent = rig.batches().flatMap((b) => b.bodies.map((e) => e.body));
    w.assert(sent.length === 3 && new Set(sent.map((s) => s.id)).size === 3, "ids", "scores from one reused object share an id");
    w.assert(sent.every((s, i) => s.value === i), "content", "values of a reused object are mixed up");
  },
};

/**
 * all sequences of n scores over an alphabet in which scores share ids, names,
 * values or everything, with or without a flush in between: no score may be
 * merged with, replaced by or reordered against another one
 */
const ALPHA: any[] = [
  { id: "a", name: "n", value: 1, traceId: "t" },
  { id: "a", name: "n", value: 2, traceId: "t" },
  { id: "b", name: "n", value: 1, traceId: "t", comment: "c" },
  { name: "n", value: 1, traceId: "t" },
  { name: "m", value: "1", traceId: "u", sessionId: "s" },
  { id: null, name: "n", value: 0, datasetRunId: "r" },
];
function sequence(n: number, flushAt: number | undefined): Scenario {
  return {
    name: `sequences of ${n} equal and similar scores at=${flushAt}`,
    run: async (w) => {
      const rig = new ScoreRig(w, flushAt, undefined);
      const want: any[] = [];
      for (let i = 0; i < n; i++) {
        const d = structuredClone(w.pick(ALPHA, "score"));
        want.push(d);
        rig.client.score.create(d);
        if (i + 1 < n && w.bool("flush")) await w.settle(rig.client.flush(), okReply);
      }
      await w.settle(rig.client.flush(), okReply);
      const sent = rig.batches().flatMap((b) => b.bodies.map((e) => e.body));
      w.assert(sent.length === n, "exactly-once", () => `${n} scores created, ${sent.length} sent: ${JSON.stringify(sent)}`);
      const gen: string[] = [];
      sent.forEach((b, i) => {
        const exp = { ...want[i] };
        if (exp.id == null) {
          w.assert(typeof b.id === "string" && b.id.length > 0, "ids", "no generated id");
          gen.push(b.id);
          exp.id = b.id;
        }
        w.assert(isDeepStrictEqual(b, exp), "content", () => `score ${i} sent as ${JSON.stringify(b)}, created as ${JSON.stringify(want[i])}`);
      });
      w.assert(new Set([...gen, "a", "b"]).size === gen.length + 2, "ids", "generated ids are not unique");
    },
  };
}

/** clients are independent: scores go out with the client's own credentials */
const twoClients: Scenario = {
  name: "two clients",
  run: async (w) => {
    const rig = new ScoreRig(w, w.pick([undefined, 2], "at"), undefined);
    const mk = (k: string) => new LangfuseClient({ publicKey: "pk" + k, secretKey: "sk" + k, baseUrl: "http://h" + k });
    const cs = [mk("0"), mk("1")];
    const want: string[][] = [[], []];
    for (let i = 0; i < 4; i++) {
      const c = w.choose(2, "client");
      want[c].push("s" + i);
      cs[c].score.create({ name: "s" + i, value: i, traceId: "t" });
      if (w.choose(2, "flush")) await w.settle(cs[w.choose(2, "which")].flush(), okReply);
    }
    await w.settle(Promise.all(cs.map((c) => c.flush())), okReply);
    for (const k of [0, 1]) {
      const rs = w.reqs.filter((r) => new URL(r.url).hostname === "h" + k);
      const got = rs.flatMap((r) => r.json.batch.map((e: any) => e.body.name));
      w.assert(isDeepStrictEqual(got, want[k]), "exactly-once", () => `client ${k} created ${want[k]} and sent ${got}`);
      for (const r of rs) w.assert(r.headers["authorization"] === "Basic " + Buffer.from(`pk${k}:sk${k}`).toString("base64"), "credentials", "scores are sent with other credentials");
    }
  },
};

/** with debug logging on nothing changes */
const debugLog: Scenario = {
  name: "debug logging",
  run: async (w) => {
    configureGlobalLogger({ level: LogLevel.DEBUG });
    try {
      const rig = new ScoreRig(w, w.pick([undefined, 2], "at"), undefined);
      for (let i = 0; i < 3; i++) {
        rig.create(1);
        if (w.bool("flush")) await w.settle(rig.flush("score.flush"), okReply);
      }
      await w.settle(null, okReply, 5_000);
      verify(w, rig);
    } finally {
      resetGlobalLogger();
    }
  },
};

/** a score that cannot be serialised takes no other score with it */
const unserialisable: Scenario = {
  name: "scores that cannot be serialised",
  run: async (w) => {
    const debug = w.bool("debug logging");
    if (debug) configureGlobalLogger({ level: LogLevel.DEBUG });
    try {
      const rig = new ScoreRig(w, w.pick([undefined, 1, 2, 3], "at"), undefined);
      const cyc: any = { a: {} };
      cyc.a.b = cyc;
      const bad: any[] = [{ metadata: { x: 10n } }, { metadata: cyc }, { metadata: { toJSON() { throw new Error("no"); } } }];
      const n = 4, want: string[] = [];
      for (let i = 0; i < n; i++) {
        const k = w.choose(bad.length + 1, "score " + i);
        try {
          rig.client.score.create({ name: "s" + i, value: i, traceId: "t", ...(k ? bad[k - 1] : { metadata: { ok: [1, { d: null }] } }) });
        } catch (e) {
          w.fail("throws", `creating a score threw ${(e as any)?.message}`);
        }
        if (!k) want.push("s" + i);
      }
      await w.settle(w.bool("explicit") ? rig.client.flush() : null, okReply, 20_000);
      const sent = rig.batches().flatMap((b) => b.bodies.map((e) => e.body.name));
      w.assert(isDeepStrictEqual(sent, want), "exactly-once", () => `sent ${sent}, created ${want} and ${n - want.length} that cannot be serialised`);
    } finally {
      if (debug) resetGlobalLogger();
    }
  },
};

const def: CheckDef = {
  property: "S01",
  bounds: (t) => `${t}: up to 3 threads / 5 operations / 2 timer firings, bursts around the 100-per-request limit (1..250); all interleavings and outcomes; all optional-field combinations; linking entry points`,
  assumptions: ["promise jobs run to quiescence between environment events", "network, clock and timers are the explorer's", "a request repeated by the transport after 408/429/5xx counts as the same request"],
  scenarios: (tier) => {
    const out: Scenario[] = [link, undef, longContent, queueScen, reuse, unserialisable, twoClients, debugLog, sequence(2, undefined), sequence(3, 2)];
    if (tier === "thorough") out.push(sequence(4, undefined), sequence(4, 3));
    for (const env of [undefined, "env-var"]) for (let v = 0; v < 8; v++) out.push(content(env, v));
    const progs: [string, (number | F)[][]][] = [
      ["c;F|c", [[1, "score.flush"], [1]]],
      ["c;c;F|F", [[1, 1, "client.flush"], ["score.flush"]]],
      ["c;F;c;S", [[1, "client.flush", 1, "client.shutdown"]]],
      ["c2;c|F;F", [[2, 1], ["client.flush", "score.flush"]]],
      ["c|c|F", [[1], [1], ["score.shutdown"]]],
      ["c3|c;F", [[3], [1, "client.flush"]]],
      ["c;c;c;c", [[1, 1, 1, 1]]],
      ["c;S;c|c", [[1, "client.shutdown", 1], [1]]],
    ];
    if (tier === "thorough") progs.push(["c;F;c|c;F", [[1, "score.flush", 1], [1, "client.flush"]]], ["c;c;c|F;F", [[1, 1, 1], ["score.flush", "client.flush"]]], ["c;c|F|S", [[1, 1], ["score.flush"], ["client.shutdown"]]]);
    for (const [n, p] of progs)
      for (const flushAt of [undefined, 2, 1, 3])
        for (const rs of ["ok", "fault", "partial", "retry"] as const) {
          if (rs === "retry" && flushAt === 1) continue;
          if (n === "c3|c;F" && flushAt === 1 && rs !== "ok" && tier === "quick") continue;
          out.push(sched(`${n} at=${flushAt} ${rs}`, flushAt, p, rs, rs === "retry" ? 2 : tier === "quick" ? 1 : 2));
        }
    for (const size of [99, 100, 101, 199, 200, 201, 250])
      for (const [n, p] of [
        [`c${size};F|c`, [[size, "score.flush"], [1]]],
        [`c${size}|F`, [[size], ["client.flush"]]],
      ] as [string, (number | F)[][]][])
        for (const at of [1000, size]) out.push(sched(`${n} at=${at}`, at, p, size < 200 ? "fault" : "ok", 1));
    // volume: thousands of scores before any request is answered
    out.push({
      name: "thousands of scores",
      run: async (w) => {
        const rig = new ScoreRig(w, w.pick([undefined, 1, 64, 1_000_000], "threshold"), undefined);
        const n = w.pick([1_001, 3_500], "scores");
        const bursts = w.pick([1, 7], "bursts");
        for (let i = 0; i < bursts; i++) {
          rig.create(Math.floor(n / bursts));
          await w.drain();
        }
        await w.settle(rig.flush("client.flush"), okReply, 100_000);
        await w.settle(rig.flush("client.shutdown"), okReply, 100_000);
        verify(w, rig);
      },
    });
    return out;
  },
};
export default def;
