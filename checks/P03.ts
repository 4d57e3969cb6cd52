import type { CheckDef, Scenario, World, Req } from "../mc/engine";
import { NAMES, client, asked, promptReply, contentId, type Sel } from "./lib/prompt";

type Key = { name: string } & Sel;
const optOf = (k: Key, extra: any = {}) => ({ ...(k.label !== undefined ? { label: k.label } : {}), ...(k.version !== undefined ? { version: k.version } : {}), maxRetries: 0, ...extra });
type Change = { kind: "update"; name: string; version: number; labels: string[] } | { kind: "delete"; name: string; version?: number; label?: string };

const isChange = (r: Req) => r.method === "PATCH" || r.method === "DELETE";

/**
 * lookups of `name`'s keys race with one or two changes of `name`.
 */
function scen(name: string, warm: Key[], expire: boolean, lookups: Key[][], changes: Change[], opts: { fail?: boolean; parallel?: boolean; micro?: number } = {}): Scenario {
  return {
    name,
    run: async (w: World) => {
      const c = client(w);
      for (const k of warm) {
        const r = await w.settle(c.prompt.get(k.name, optOf(k)), promptReply);
        w.assert(r.ok, "lookup-failed", "warm-up lookup failed");
      }
      if (expire) await w.advance(61_000);
      const target = changes[0].name;
      // index in w.reqs at the moment the last successful change resolved
      let barrier = -1;
      const look = (k: Key) => {
        const b = barrier;
        const n0 = w.reqs.length;
        return c.prompt.get(k.name, optOf(k)).then(
          (p: any) => {
            const id = contentId(p)!;
            w.obs(`got ${id}`);
            if (k.name === target && b >= 0 && id < b) bad = bad ?? `a lookup of ${JSON.stringify(k)} made after the change resolved returned content of request ${id}, issued before the change completed`;
            if (asked(w.reqs[id])?.name !== k.name) bad = bad ?? "content of another prompt";
          },
          (e: any) => w.obs("lookup failed"),
        );
      };
      let bad: string | null = null;
      const change = (ch: Change) => {
        const p: Promise<any> = ch.kind === "update" ? c.prompt.update({ name: ch.name, version: ch.version, newLabels: ch.labels }) : c.prompt.delete(ch.name, ch.version !== undefined || ch.label !== undefined ? { version: ch.version, label: ch.label } : undefined);
        return p.then(
          () => {
            w.obs("change resolved");
            barrier = w.reqs.length;
            changeOk++;
          },
          () => {
            w.obs("change rejected");
            changeRej++;
          },
        );
      };
      let changeOk = 0, changeRej = 0, replOk = 0, replBad = 0;
      const done = await w.system({
        threads: [
          ...lookups.map((ks, i) => ({ name: "L" + i, steps: ks.map((k) => () => look(k)) })),
          ...(opts.parallel ? changes.map((ch, i) => ({ name: "C" + i, steps: [() => change(ch)] })) : [{ name: "C", steps: changes.map((ch) => () => change(ch)) }]),
        ],
        microBudget: opts.micro ?? 0,
        microDepth: 8,
        replies: (r) =>
          isChange(r)
            ? [
                { name: "changed", reply: () => (replOk++, r.method === "DELETE" ? { status: 204 } : { status: 200, json: { type: "text", name: target, version: 1, labels: [], tags: [], config: {}, prompt: "upd" } }) },
                ...(opts.fail ? [{ name: "fail", reply: () => (replBad++, { status: 400, json: { message: "x" } }) }] : []),
              ]
            : [{ name: "ok", reply: () => promptReply(r) }, ...(opts.fail ? [{ name: "404", reply: () => ({ status: 404, json: { message: "x" } }) }] : [])],
        invariant: () => {
          w.assert(!bad, "stale-after-change", () => bad!);
          w.assert(changeOk === replOk && changeRej === replBad, "change-outcome", `server confirmed ${replOk} / refused ${replBad} changes, calls resolved ${changeOk} / rejected ${changeRej}`);
        },
      });
      w.assert(done, "stuck", "a call never settles");
      // the change requests address exactly the prompt
      const chReqs = w.reqs.filter(isChange);
      w.assert(chReqs.length === changes.length, "change-request", `${chReqs.length} change requests for ${changes.length} calls`);
      chReqs.forEach((r, i) => {
        const ch = changes[i];
        if (ch.kind === "update") w.assert(r.method === "PATCH" && r.path === `/api/public/v2/prompts/${encodeURIComponent(ch.name)}/versions/${ch.version}` && JSON.stringify(r.json) === JSON.stringify({ newLabels: ch.labels }), "change-request", `update sent ${r.method} ${r.url} ${r.body}`);
        else w.assert(r.method === "DELETE" && r.path === `/api/public/v2/prompts/${encodeURIComponent(ch.name)}` && r.query.get("version") === (ch.version === undefined ? null : String(ch.version)) && r.query.get("label") === (ch.label ?? null), "change-request", `delete sent ${r.method} ${r.url}`);
      });
      // quiescent: every key of every prompt once more
      const keys = [...warm, ...lookups.flat()].filter((k, i, a) => a.findIndex((x) => JSON.stringify(x) === JSON.stringify(k)) === i);
      for (const k of keys) {
        const n0 = w.reqs.length;
        const r = await w.settle(c.prompt.get(k.name, optOf(k)), promptReply);
        w.assert(r.ok, "lookup-failed", () => `lookup after the change failed: ${r.error}`);
        const id = contentId(r.value)!;
        if (k.name === target && barrier >= 0) w.assert(id >= barrier, "stale-after-change", () => `after the change resolved, a lookup of ${JSON.stringify(k)} returned content of request ${id} issued before the change completed`);
        if (!expire && (k.name !== target || replOk === 0) && warm.some((x) => JSON.stringify(x) === JSON.stringify(k)))
          w.assert(w.reqs.length === n0, "over-invalidated", () => `the cached entry of ${JSON.stringify(k)} was dropped ${k.name !== target ? "by a change of prompt " + target : "by a failed change"}`);
      }
    },
  };
}

/** one change of one prompt: exactly its own entries are dropped */
function names(target: string): Scenario {
  return {
    name: `entries of ${JSON.stringify(target)}`,
    run: async (w) => {
      const c = client(w);
      const other = w.pick(NAMES.filter((n) => n !== target), "other");
      const SEL: Sel[] = [{}, { label: "x" }, { version: 1 }, { version: 12 }];
      const get = async (name: string, s: Sel) => {
        const n0 = w.reqs.length;
        const r = await w.settle(c.prompt.get(name, optOf({ name, ...s }, { cacheTtlSeconds: 3600 })), promptReply);
        w.assert(r.ok, "lookup-failed", () => `lookup failed: ${r.error}`);
        return { id: contentId(r.value)!, fetched: w.reqs.length > n0 };
      };
      const first = new Map<string, number>();
      for (const n of [target, other]) for (const s of SEL) first.set(n + JSON.stringify(s), (await get(n, s)).id);
      const kind = w.choose(5, "change");
      const fail = w.bool("fail");
      const p = kind === 0 || kind === 4 ? c.prompt.update({ name: target, version: 1, newLabels: kind === 4 ? [] : ["x"] }) : c.prompt.delete(target, kind === 1 ? undefined : kind === 2 ? { version: 12 } : { label: "x" });
      const r = await w.settle(p as any, (q) => (fail ? { status: 400, json: { message: "no" } } : q.method === "DELETE" ? { status: 204 } : { status: 200, json: { type: "text", name: target, version: 1, labels: [], tags: [], config: {}, prompt: "upd" } }));
      w.assert(r.done && r.ok === !fail, "change-outcome", () => `change ${r.ok ? "resolved" : "rejected"} although the server ${fail ? "refused" : "confirmed"} it`);
      for (const n of [other, target])
        for (const s of SEL) {
          const g = await get(n, s);
          if (n === target && !fail) w.assert(g.fetched && g.id !== first.get(n + JSON.stringify(s)), "stale-after-change", () => `after the change of ${JSON.stringify(target)} resolved, its ${JSON.stringify(s)} entry is still served from the cache`);
          else w.assert(!g.fetched && g.id === first.get(n + JSON.stringify(s)), "over-invalidated", () => `the cached ${JSON.stringify(s)} entry of ${JSON.stringify(n)} was dropped by a ${fail ? "failed " : ""}change of ${JSON.stringify(target)}`);
        }
    },
  };
}

/** many cached versions and labels of the changed prompt, many other prompts */
const many: Scenario = {
  name: "many entries",
  run: async (w) => {
    const c = client(w);
    const n = w.pick([2, 30, 400], "entries");
    const ch = w.pick(["update", "delete", "delete version"], "change");
    w.onFetch = (r) => r.reply(asked(r) ? promptReply(r) : r.method === "DELETE" ? { status: 204, text: "" } : { status: 200, json: { type: "text", name: "a", version: 1, labels: ["x"], tags: [], config: {}, prompt: "updated" } });
    const look = async (name: string, o: any) => {
      const st: any = {};
      c.prompt.get(name, o).then((v: any) => (st.v = v), (e: any) => (st.e = e));
      await w.drain();
      w.assert(st.v, "lookup", () => `lookup did not resolve: ${st.e}`);
      return contentId(st.v);
    };
    const sel = (i: number) => (i % 2 ? { version: i } : { label: "l" + i });
    for (let i = 0; i < n; i++) await look("a", sel(i)), await look("b" + i, sel(i));
    const st = await w.settle(ch === "update" ? c.prompt.update({ name: "a", version: 1, newLabels: ["x"] }) : c.prompt.delete("a", ch === "delete" ? undefined : { version: 1 }), promptReply);
    w.assert(st.ok, "rejected", () => `the change rejected: ${st.error}`);
    for (let i = 0; i < n; i++) {
      const at = w.reqs.length;
      await look("b" + i, sel(i));
      w.assert(w.reqs.length === at, "others", () => `entry ${i} of another prompt was dropped`);
      await look("a", sel(i));
      w.assert(w.reqs.length === at + 1, "stale", () => `entry ${i} of ${n} of the changed prompt is still served from the cache`);
    }
  },
};

const def: CheckDef = {
  property: "P03",
  bounds: (t) => `${t}: all interleavings of up to ${t === "quick" ? 3 : 4} lookups in up to 2 threads with 1-2 changes and of all request completions (success/failure), from cold, warm and expired caches, incl. prompts with related names`,
  assumptions: ["promise jobs run to quiescence between environment events"],
  scenarios: (tier) => {
    const out: Scenario[] = [many];
    const A: Key = { name: "a" }, AX: Key = { name: "a", label: "x" }, A1: Key = { name: "a", version: 1 };
    const others: Key[] = [{ name: "ab" }, { name: "b" }, { name: "a-label:x" }, { name: "a", label: "x" }];
    const upd: Change = { kind: "update", name: "a", version: 1, labels: ["x"] };
    const clear: Change = { kind: "update", name: "a", version: 1, labels: [] };
    const del: Change = { kind: "delete", name: "a" };
    const delv: Change = { kind: "delete", name: "a", version: 1 };
    const dell: Change = { kind: "delete", name: "a", label: "x" };
    for (const [cn, ch] of [["update", [upd]], ["update to no labels", [clear]], ["delete", [del]], ["delete version", [delv]], ["delete label", [dell]], ["update twice", [upd, upd]]] as [string, Change[]][]) {
      for (const fail of [false, true]) {
        if (cn === "update twice" && fail) continue;
        out.push(scen(`cold ${cn} fail=${fail}`, [], false, [[A, A], [AX]], ch, { fail }));
        out.push(scen(`warm ${cn} fail=${fail}`, [A, AX, A1], false, [[A, AX], [A1]], ch, { fail }));
        out.push(scen(`expired ${cn} fail=${fail}`, [A, AX], true, [[A, A], [AX]], ch, { fail }));
        out.push(scen(`others ${cn} fail=${fail}`, [A, ...others], false, [[{ name: "ab" }, A]], ch, { fail }));
      }
    }
    out.push(scen("special names", [{ name: "f/a b" }, { name: "f/a" }], false, [[{ name: "f/a b" }, { name: "f/a" }]], [{ kind: "update", name: "f/a b", version: 3, labels: ["p", "q"] }], { fail: true }));
    for (const n of NAMES) out.push(names(n));
    for (const [n, warm, exp] of [["cold", [], false], ["warm", [A, AX], false], ["expired", [A], true]] as [string, Key[], boolean][]) {
      out.push(scen(`${n} concurrent updates`, warm, exp, [[A, A]], [upd, upd], { parallel: true, fail: n === "cold" }));
      for (const ch of [upd, del]) out.push(scen(`${n} ${ch.kind} micro`, warm, exp, [[A], [AX]], [ch], { micro: tier === "quick" ? 1 : 2 }));
    }
    if (tier === "thorough") {
      out.push(scen("cold deep", [], false, [[A, A], [A, AX]], [upd], {}));
      out.push(scen("expired deep", [A, AX], true, [[A, A], [A, AX]], [upd], {}));
      out.push(scen("expired deep2", [A], true, [[A, A, A], [A]], [del], {}));
      out.push(scen("expired two changes", [A], true, [[A, A], [A]], [upd, del], {}));
    }
    return out;
  },
};
export default def;
