import type { CheckDef, Scenario, World } from "../mc/engine";
import { ScoreRig, replySets, okReply } from "./lib/score";

type F = "score.flush" | "client.flush";
function scen(name: string, flushAt: number | undefined, interval: number | undefined, progs: (number | F)[][], replies: keyof typeof replySets, timers: number, waits = 0): Scenario {
  return {
    name,
    run: async (w: World) => {
      const rig = new ScoreRig(w, flushAt, interval);
      const ms = (interval ?? 1) * 1000;
      const at = flushAt ?? 10;
      let stop = false;
      let left = waits;
      const inv = () => {
        const un = rig.unsent();
        w.assert(un.length < at, "threshold", () => `${un.length} scores queued and unsent although the threshold is ${at}`);
        for (const c of rig.created)
          if (un.includes(c.name)) w.assert(w.now - c.at < ms, "interval", () => `score ${c.name} still unsent ${w.now - c.at} ms after creation (flush interval ${ms} ms)`);
      };
      await w.system({
        threads: progs.map((p, i) => ({ name: "T" + i, steps: p.map((n) => () => (typeof n === "number" ? rig.create(n) : void rig.flush(n))) })),
        replies: replySets[replies],
        timerBudget: timers,
        microBudget: replies === "ok" && !waits ? 1 : 0,
        timerHorizon: ms + 5_000,
        invariant: inv,
        // "stop": from here on no request ever completes; "wait": part of the interval passes without a timer becoming due
        extra: () => [
          ...(w.pending.length && !stop ? [{ name: "stop", run: () => (stop = true) }] : []),
          ...(left > 0 && !stop && !(w.nextTimer() && w.nextTimer()!.due <= w.now + ms * 0.6) ? [{ name: "wait", run: () => (left--, w.skip(ms * 0.6)) }] : []),
        ],
        reduce: (evs) => (stop ? [] : evs),
      });
      await w.advance(ms, inv);
      inv();
      w.assert(rig.unsent().length === 0, "never-sent", () => `scores ${rig.unsent()} are never sent without an explicit flush`);
    },
  };
}

const def: CheckDef = {
  property: "S03",
  bounds: (t) => `${t}: 2 threads, up to 5 creations/bursts, up to 3 interleaved timer firings, up to 3 partial waits (60 % of the interval) at any point, hanging/failing/retried requests; thresholds 1,2,3,default; intervals 0.2/1/5 s`,
  assumptions: ["promise jobs run to quiescence between environment events", "timers fire on time (virtual clock)"],
  scenarios: (tier) => {
    const out: Scenario[] = [];
    const progs: [string, (number | F)[][]][] = [
      ["1;F;1", [[1, "score.flush", 1]]],
      ["F;1;F", [["client.flush", 1], ["score.flush"]]],
      ["2;F;2", [[2, "client.flush", 2]]],
      ["1;1;1", [[1, 1, 1]]],
      ["1;1|1", [[1, 1], [1]]],
      ["2;1;2", [[2, 1, 2]]],
      ["1;9;1", [[1, 9, 1]]],
      ["10;1;9", [[10, 1, 9]]],
      ["3;1|2", [[3, 1], [2]]],
    ];
    if (tier === "thorough") progs.push(["1;1;1;1", [[1, 1, 1, 1]]], ["1;1|1;1", [[1, 1], [1, 1]]], ["1;2;1;2", [[1, 2, 1, 2]]]);
    for (const [n, p] of progs)
      for (const at of [undefined, 1, 2, 3])
        for (const iv of [undefined, 0.2, 5]) {
          const total = p.flat().reduce((a: number, b) => a + (typeof b === "number" ? b : 1), 0) as number;
          if (at !== undefined && total / at > (tier === "quick" ? 3 : 5)) continue;
          for (const rs of ["ok", "fault", "retry"] as const) {
            if (tier === "quick" && rs !== "ok" && (iv !== undefined || (n === "3;1|2" && at === 2) || (n === "1;1|1" && at === 1 && rs === "retry"))) continue;
            out.push(scen(`${n} at=${at} iv=${iv} ${rs}`, at, iv, p, rs, tier === "quick" ? 2 : 3));
            if (rs !== "retry" && (at ?? 10) > 2 && ["1;F;1", "1;1;1", "1;1|1", "1;9;1"].includes(n) && (tier === "thorough" || (rs === "ok" && (iv ?? 1) === 1 && n !== "1;9;1"))) out.push(scen(`${n} at=${at} iv=${iv} ${rs} waits`, at, iv, p, rs, 2, tier === "quick" ? 2 : 3));
          }
        }
    // unusual thresholds: none, fractions, and after a shutdown
    out.push({
      name: "thresholds",
      run: async (w) => {
        const at = w.pick([0, 1, 2.5, 4, 100], "threshold");
        const rig = new ScoreRig(w, at, w.pick([undefined, 30], "interval"));
        const before = w.pick(["none", "shutdown", "shutdown with scores", "flush"], "before");
        if (before === "shutdown with scores") rig.create(1);
        if (before !== "none") void rig.flush(before === "flush" ? "client.flush" : "client.shutdown");
        await w.drain();
        for (const r of [...w.pending]) r.reply(okReply(r));
        await w.drain();
        const answered = w.bool("answered");
        for (let i = 0; i < 2 * Math.ceil(at) + 2; i++) {
          rig.create(1);
          await w.drain();
          w.assert(rig.unsent().length < Math.max(at, 1), "threshold", () => `${rig.unsent().length} scores queued and unsent although the threshold is ${at} (${before})`);
          if (answered) for (const r of [...w.pending]) r.reply(okReply(r));
        }
      },
    });
    return out;
  },
};
export default def;
