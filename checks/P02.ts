import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { client, asked, promptReply, contentId } from "./lib/prompt";

/**
 * Explicit reference model of the cache, run in lockstep with the real client:
 *   entry(key) = { content, expiry }        refreshing(key) = request or none
 */
type Key = { name: string; label?: string; version?: number };
type Op = { k: number; ttl?: number; n?: number } | { adv: number };
type Want =
  | { kind: "cached"; content: number } // immediate, no request
  | { kind: "stale"; content: number; refresh: boolean }
  | { kind: "fetch" };

class Model {
  entry = new Map<number, { content: number; expiry: number }>();
  refreshing = new Map<number, Req>();
  fetchTtl = new Map<Req, { k: number; ttl: number }>();
  get(now: number, k: number, ttl?: number): Want {
    const e = this.entry.get(k);
    if (!e || ttl === 0) return { kind: "fetch" };
    if (now > e.expiry) return { kind: "stale", content: e.content, refresh: !this.refreshing.has(k) };
    return { kind: "cached", content: e.content };
  }
}

function scen(name: string, keys: Key[], warm: Op[], depth: number, alphabet: Op[], faults: ("404" | "net" | "500")[]): Scenario {
  return {
    name,
    run: async (w: World) => {
      const c = client(w);
      const m = new Model();
      const opPending: { req: Req; p: { done: boolean; ok?: boolean; v?: any; e?: any }; k: number }[] = [];
      const sync = () => {
        // requests that finished (replied or timed out) since the last look
        for (const [r, f] of [...m.fetchTtl]) {
          if (r.state === "pending") continue;
          m.fetchTtl.delete(r);
          if (m.refreshing.get(f.k) === r) m.refreshing.delete(f.k);
          const o: any = r.outcome;
          if (r.state === "done" && o && o.status === 200) m.entry.set(f.k, { content: r.id, expiry: r.finishedAt + f.ttl * 1000 });
        }
        for (const op of opPending.splice(0)) {
          if (op.req.state === "pending") {
            w.assert(!op.p.done, "early", `lookup that must fetch settled before its request finished`);
            opPending.push(op);
            continue;
          }
          w.assert(op.p.done, "unsettled", `lookup did not settle although its request finished`);
          const o: any = op.req.outcome;
          if (op.req.state === "done" && o?.status === 200) w.assert(op.p.ok && contentId(op.p.v) === op.req.id, "content", () => `fetching lookup returned ${op.p.ok ? JSON.stringify(op.p.v?.prompt) : op.p.e}, its request ${op.req.id} delivered something else`);
          else w.assert(op.p.ok === false, "content", () => `lookup whose only request failed resolved with ${JSON.stringify(op.p.v?.prompt)}`);
        }
      };
      const doOp = async (op: Op) => {
        if ("adv" in op) {
          // time passes in one go or timer by timer; finished (timed out) requests are folded in as they happen
          await w.advance(op.adv, sync);
          await w.drain();
          sync();
          return;
        }
        const key = keys[op.k];
        const n0 = w.reqs.length;
        // n lookups in the same tick
        const calls: { want: Want; st: any }[] = [];
        let refreshStarted = false;
        for (let i = 0; i < (op.n ?? 1); i++) {
          const want = m.get(w.now, op.k, op.ttl);
          if (want.kind === "stale") {
            if (refreshStarted) want.refresh = false;
            if (want.refresh) refreshStarted = true;
          }
          const st: any = { done: false };
          const opts: any = { maxRetries: 0 };
          if (key.label !== undefined) opts.label = key.label;
          if (key.version !== undefined) opts.version = key.version;
          if (op.ttl !== undefined) opts.cacheTtlSeconds = op.ttl;
          w.obs(`get ${op.k} ttl=${op.ttl} want ${want.kind}`);
          calls.push({ want, st });
          c.prompt.get(key.name, opts).then(
            (v: any) => Object.assign(st, { done: true, ok: true, v }),
            (e: any) => Object.assign(st, { done: true, ok: false, e }),
          );
        }
        await w.drain();
        const newReqs = w.reqs.slice(n0);
        for (const r of newReqs) {
          const a = asked(r);
          w.assert(a && a.name === key.name && a.label === (key.label ?? null) && a.version === (key.version === undefined ? null : String(key.version)), "request", `request ${r.url}`);
        }
        const fetches = calls.filter((x) => x.want.kind === "fetch").length;
        const refreshes = calls.filter((x) => x.want.kind === "stale" && x.want.refresh).length;
        if (fetches) w.assert(newReqs.length === fetches, "must-fetch", `${fetches} lookups without a usable cached prompt issued ${newReqs.length} requests`);
        let ri = 0;
        for (const { want, st } of calls) {
          if (want.kind === "fetch") {
            m.fetchTtl.set(newReqs[ri], { k: op.k, ttl: op.ttl ?? 60 });
            opPending.push({ req: newReqs[ri++], p: st, k: op.k });
          } else {
            w.assert(st.done && st.ok, "not-immediate", `lookup with a cached prompt did not return it immediately (${want.kind})`);
            w.assert(contentId(st.v) === want.content, "wrong-content", () => `lookup returned content of request ${contentId(st.v)}, the cached one is of request ${want.content}`);
            if (want.kind === "cached") w.assert(newReqs.length === 0, "fresh-hit-requests", "lookup within the time-to-live issued a request");
            else {
              w.assert(newReqs.length === refreshes, "refresh", `expired lookup issued ${newReqs.length} requests, expected ${refreshes} (one background refresh at a time)`);
              if (want.refresh) {
                m.refreshing.set(op.k, newReqs[0]);
                m.fetchTtl.set(newReqs[0], { k: op.k, ttl: op.ttl ?? 60 });
              }
            }
          }
        }
      };
      for (const op of warm) {
        await doOp(op);
        for (const r of w.pending) r.reply(promptReply(r));
        await w.drain();
        sync();
      }
      for (let d = 0; d < depth; d++) {
        const evs: [string, () => any][] = [];
        for (const r of w.pending) {
          evs.push([`ok#${r.id}`, () => r.reply(promptReply(r))]);
          for (const f of faults)
            evs.push([`${f}#${r.id}`, () => r.reply(f === "net" ? { error: new TypeError("fetch failed") } : ({ status: Number(f), json: { message: "x" } } as Reply))]);
        }
        for (const op of alphabet) evs.push([JSON.stringify(op), () => doOp(op)]);
        const i = w.choose(evs.length, evs.map((e) => e[0]).join(" "));
        w.obs("> " + evs[i][0]);
        await evs[i][1]();
        await w.drain();
        sync();
      }
      // afterwards: everything in flight succeeds and the newest state is served
      for (const r of w.pending) r.reply(promptReply(r));
      await w.drain();
      sync();
      for (let k = 0; k < keys.length; k++) if (m.entry.has(k)) await doOp({ k });
      for (const r of w.pending) r.reply(promptReply(r));
      await w.drain();
      sync();
    },
  };
}

/** far more prompts than any internal bound one might think of: each has its own entry, time-to-live and refresh */
const many: Scenario = {
  name: "many prompts",
  run: async (w) => {
    const c = client(w);
    const n = w.pick([3, 40, 1300], "prompts");
    const back = w.bool("backwards");
    w.onFetch = (r) => r.reply(promptReply(r));
    const order = Array.from({ length: n }, (_, i) => (back ? n - 1 - i : i));
    const look = async (i: number) => {
      const st: any = {};
      c.prompt.get("p" + (i >> 1), i % 2 ? { version: i } : { label: "l" + (i % 5) }).then((v: any) => (st.v = v), (e: any) => (st.e = e));
      await w.drain();
      w.assert(st.v, "unsettled", () => `lookup ${i} did not resolve: ${st.e}`);
      return contentId(st.v)!;
    };
    const content: number[] = [];
    for (let i = 0; i < n; i++) content[i] = await look(i);
    w.assert(w.reqs.length === n && new Set(content).size === n, "fetch", "not one request per prompt");
    for (const i of order) w.assert((await look(i)) === content[i] && w.reqs.length === n, "fresh", () => `prompt ${i} of ${n} was requested again within its time-to-live`);
    await w.advance(60_001);
    await w.drain();
    for (const i of order) {
      const before = w.reqs.length;
      w.assert((await look(i)) === content[i], "stale", () => `prompt ${i} of ${n}: not the stale content`);
      w.assert(w.reqs.length === before + 1, "refresh", () => `prompt ${i} of ${n}: ${w.reqs.length - before} refresh requests`);
    }
    for (const i of order) w.assert((await look(i)) > content[i] && w.reqs.length === 2 * n, "refreshed", () => `prompt ${i} of ${n}: not the refreshed content`);
  },
};

const def: CheckDef = {
  property: "P02",
  bounds: (t) => `${t}: all histories of ${t === "quick" ? "5-6" : "6-7"} events (lookups with TTL default/0/5 s/1 h, 1-3 keys, time advances around the TTLs, request completions in any order with success/failure) from cold and warm caches, in lockstep with a reference cache model`,
  assumptions: ["requests still unanswered after the client's timeout count as failed", "behaviour exactly at the expiry instant is not constrained"],
  scenarios: (tier) => {
    const d = tier === "quick" ? 1 : 2;
    const one: Key[] = [{ name: "a" }];
    const two: Key[] = [{ name: "a" }, { name: "a", label: "x" }];
    const three: Key[] = [{ name: "a" }, { name: "a", version: 2 }, { name: "b" }];
    const out: Scenario[] = [
      many,
      scen("cold one key", one, [], 5 + d, [{ k: 0 }, { k: 0, ttl: 0 }, { k: 0, ttl: 5 }, { adv: 4_000 }, { adv: 61_000 }], ["404"]),
      scen("cold two keys", two, [], 4 + d, [{ k: 0 }, { k: 1 }, { k: 1, ttl: 5 }, { adv: 6_000 }, { adv: 59_000 }], ["404"]),
      scen("warm default ttl", one, [{ k: 0 }], 5 + d, [{ k: 0 }, { k: 0, ttl: 0 }, { adv: 59_999 }, { adv: 2 }], ["404", "net"]),
      scen("warm ttl 5", one, [{ k: 0, ttl: 5 }], 5 + d, [{ k: 0 }, { k: 0, ttl: 5 }, { adv: 4_999 }, { adv: 2 }, { adv: 60_001 }], ["404"]),
      scen("warm ttl 1h", one, [{ k: 0, ttl: 3600 }], 4 + d, [{ k: 0 }, { k: 0, ttl: 1 }, { adv: 61_000 }, { adv: 3_540_000 }], ["net"]),
      scen("expired one key", one, [{ k: 0 }, { adv: 60_001 }], 5 + d, [{ k: 0 }, { k: 0, ttl: 0 }, { k: 0, ttl: 5 }, { adv: 6_000 }], ["404", "net"]),
      scen("expired two keys", two, [{ k: 0 }, { k: 1, ttl: 5 }, { adv: 60_001 }], 5 + d, [{ k: 0 }, { k: 1 }, { adv: 6_000 }], ["404"]),
      scen("three keys", three, [{ k: 0 }, { k: 1 }, { k: 2 }, { adv: 60_001 }], 4 + d, [{ k: 0 }, { k: 1 }, { k: 2 }], ["404"]),
      scen("ttl 0 first", one, [{ k: 0, ttl: 0 }, { adv: 10 }], 4 + d, [{ k: 0 }, { k: 0, ttl: 0 }, { adv: 30_000 }, { adv: 31_000 }], ["404"]),
      scen("same tick", two, [{ k: 0 }, { k: 1 }, { adv: 60_001 }], 4 + d, [{ k: 0, n: 2 }, { k: 1, n: 2 }, { k: 0 }, { adv: 61_000 }], ["404"]),
      scen("similar names", [{ name: "a/b" }, { name: "a", label: "b" }, { name: "A/B" }], [{ k: 0 }, { k: 1 }, { k: 2 }, { adv: 60_001 }], 4 + d, [{ k: 0 }, { k: 1 }, { k: 2 }], ["net"]),
      scen("fractional ttl", one, [{ k: 0, ttl: 0.5 }], 4 + d, [{ k: 0 }, { k: 0, ttl: 0.5 }, { adv: 499 }, { adv: 2 }], ["404"]),
    ];
    return out;
  },
};
export default def;
