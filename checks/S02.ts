import type { CheckDef, Scenario, World } from "../mc/engine";
import { ScoreRig, replySets, okReply } from "./lib/score";

type F = "score.flush" | "client.flush" | "client.shutdown" | "score.shutdown";
function scen(name: string, flushAt: number | undefined, progs: (number | F)[][], replies: keyof typeof replySets, timerBudget: number): Scenario {
  return {
    name,
    run: async (w: World) => {
      const rig = new ScoreRig(w, flushAt, undefined);
      rig.onSettle = (rec) => {
        if (!rec.ok) w.fail("flush-rejected", `${rec.kind} rejected: ${rec.err}`);
        const fin = new Set(rig.batches().filter((b) => b.finished).flatMap((b) => b.names));
        for (const c of rig.created.slice(0, rec.before))
          if (!fin.has(c.name)) violations.push(`${rec.kind} resolved although score ${c.name}, created before the call, ${rig.unsent().includes(c.name) ? "was never sent" : "is still in an unfinished request"}`);
      };
      const violations: string[] = [];
      await w.system({
        threads: progs.map((p, i) => ({
          name: "T" + i,
          steps: p.map((op) => () => (typeof op === "number" ? rig.create(op) : rig.flush(op))),
        })),
        replies: replySets[replies],
        timerBudget,
        microBudget: replies === "ok" ? 1 : 0,
        microDepth: 6,
        timerHorizon: 10_000,
        invariant: () => {
          if (violations.length) w.fail("flush-incomplete", violations[0]);
        },
      });
      // every flush must settle once all requests are answered
      await w.settle(null, okReply, 600_000);
      w.assert(violations.length === 0, "flush-incomplete", () => violations[0]);
      for (const f of rig.flushes) w.assert(f.settled, "flush-hangs", `${f.kind} never resolves although every request was answered`);
    },
  };
}

const def: CheckDef = {
  property: "S02",
  bounds: (t) => `${t}: up to 3 threads, 5 operations, 2 timer firings; outcomes success/4xx/network error/partial/503+retries; all interleavings`,
  assumptions: ["promise jobs run to quiescence between environment events (single-threaded event loop)", "network, clock and timers are the explorer's"],
  scenarios: (tier) => {
    const out: Scenario[] = [];
    const progs: [string, (number | F)[][]][] = [
      ["c;F|c;F", [[1, "score.flush"], [1, "score.flush"]]],
      ["c;c;S|F", [[1, 1, "client.shutdown"], ["score.flush"]]],
      ["c;F;c;S", [[1, "client.flush", 1, "client.shutdown"]]],
      ["c2;c|F;F", [[2, 1], ["client.flush", "score.flush"]]],
      ["c|c|F", [[1], [1], ["score.shutdown"]]],
      ["c3|c;F", [[3], [1, "client.flush"]]],
      ["c;c|F|S", [[1, 1], ["score.flush"], ["client.shutdown"]]],
      ["c250;F|101", [[250, "score.flush"]]],
      ["c101|c;F", [[101], [1, "score.flush"]]],
    ];
    if (tier === "thorough")
      progs.push(
        ["c;F;c|c;F", [[1, "score.flush", 1], [1, "client.flush"]]],
        ["c;c;c|F;F", [[1, 1, 1], ["score.flush", "client.flush"]]],
        ["c;F|c;F|S", [[1, "score.flush"], [1, "client.flush"], ["client.shutdown"]]],
      );
    for (const [n, p] of progs)
      for (const flushAt of [undefined, 2, 1])
        for (const rs of ["ok", "fault", "partial", "retry"] as const) {
          if (rs === "retry" && flushAt === 1) continue;
          const big = n.includes("101");
          if (big && flushAt !== undefined) continue;
          const heavy = p.flat().length >= 5;
          if (heavy && rs !== "ok" && tier === "quick") continue;
          if (n === "c3|c;F" && flushAt === 1 && rs !== "ok" && tier === "quick") continue;
          out.push(scen(`${n} at=${flushAt} ${rs}`, big ? 1000 : flushAt, p, rs, rs === "retry" ? 2 : tier === "quick" ? 1 : 2));
        }
    // many requests in flight, one of them slow (or slow and failing)
    out.push({
      name: "many requests in flight",
      run: async (w) => {
        const rig = new ScoreRig(w, w.pick([1, 10], "threshold"), undefined);
        rig.create(w.pick([300, 1_500], "scores"));
        await w.drain();
        const kind = w.pick(["score.flush", "client.flush", "client.shutdown", "score.shutdown"] as F[], "kind");
        rig.flush(kind);
        await w.drain();
        const reqs = [...w.pending];
        w.assert(reqs.length > 0 && !rig.flushes[0].settled, "flush-incomplete", `${kind} resolved before any request finished`);
        const slow = w.pick([0, 1, reqs.length >> 1, reqs.length - 1].filter((i, k, a) => i < reqs.length && a.indexOf(i) === k), "slow");
        for (let i = 0; i < reqs.length; i++) if (i !== slow) reqs[i].reply(okReply(reqs[i]));
        await w.drain();
        w.assert(!rig.flushes[0].settled, "flush-incomplete", `${kind} resolved while request ${slow} of ${reqs.length} was in flight`);
        // the slow request takes long, but less than the time limit of a request
        const wait = w.pick([0, 6_000, 31_000, 59_000], "wait");
        if (wait) await w.advance(wait);
        w.assert(!rig.flushes[0].settled, "flush-incomplete", `${kind} resolved after ${wait} ms while request ${slow} of ${reqs.length} was in flight`);
        reqs[slow].reply(w.bool("fails") ? { status: 400, json: { message: "no" } } : okReply(reqs[slow]));
        await w.settle(null, okReply, 100_000);
        w.assert(rig.flushes[0].settled && rig.flushes[0].ok, "flush-hangs", `${kind} did not resolve`);
        w.assert(rig.unsent().length === 0, "flush-incomplete", "scores were not sent");
      },
    });
    // a request that is repeated with long waits the server asks for
    out.push({
      name: "long retry waits",
      run: async (w) => {
        const rig = new ScoreRig(w, undefined, undefined);
        rig.create(2);
        const kind = w.pick(["score.flush", "client.flush", "client.shutdown", "score.shutdown"] as F[], "kind");
        rig.flush(kind);
        await w.drain();
        const n = 1 + w.choose(2, "failures");
        for (let i = 0; i < n; i++) {
          w.assert(w.pending.length === 1, "flush-incomplete", () => `${w.pending.length} requests pending in attempt ${i}`);
          const hang = w.pick([0, 40_000], "hang");
          if (hang) await w.advance(hang);
          w.pending[0].reply({ status: w.pick([429, 503], "status"), json: {}, headers: { "Retry-After": "50" } });
          await w.drain();
          await w.advance(49_000);
          w.assert(!rig.flushes[0].settled, "flush-incomplete", `${kind} resolved before its request was repeated`);
          await w.advance(2_000);
        }
        w.assert(!rig.flushes[0].settled && w.pending.length === 1, "flush-incomplete", `${kind} resolved before its request finished`);
        w.pending[0].reply(okReply(w.pending[0]));
        await w.settle(null, okReply, 100_000);
        w.assert(rig.flushes[0].settled && rig.flushes[0].ok, "flush-hangs", `${kind} did not resolve`);
      },
    });
    return out;
  },
};
export default def;
