import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { client, asked, contentId } from "./lib/prompt";
import { isDeepStrictEqual } from "node:util";

type Out = "ok" | "404" | "401" | "400" | "429" | "500" | "503" | "408" | "net" | "hang" | "429ra" | "403" | "405" | "409" | "502" | "504" | "501" | "garbage" | "neterr";
const RETRY = new Set(["429", "500", "503", "408", "429ra", "502", "504", "501"]);

function replyFor(r: Req, o: Out, chat: boolean): Reply | null {
  if (o === "hang") return null;
  if (o === "net") return { error: new TypeError("fetch failed") };
  if (o === "ok") {
    const a = asked(r)!;
    return { status: 200, json: { type: chat ? "chat" : "text", name: a.name, version: 3, labels: ["production"], tags: [], config: {}, prompt: chat ? [{ role: "user", content: `content of request ${r.id}` }] : `content of request ${r.id}` } };
  }
  if (o === "garbage") return { status: 200, text: "<html>nope" };
  if (o === "neterr") return { error: Object.assign(new Error("read ECONNRESET"), { code: "ECONNRESET" }) };
  if (o === "502") return { status: 502, text: "<html>bad gateway</html>", headers: { "content-type": "text/html" } };
  return { status: parseInt(o), json: { message: "m" + o }, headers: o === "429ra" ? { "retry-after": "2" } : undefined };
}

const FALLBACKS: { [k: string]: { type?: "text" | "chat"; fallback?: any } } = {
  none: {},
  "none/text": { type: "text" },
  text: { fallback: "fb {{x}}" },
  blank: { fallback: " " },
  "text/text": { type: "text", fallback: "fb" },
  chat: { type: "chat", fallback: [{ role: "system", content: "fb {{y}}" }, { role: "user", content: "u" }] },
  "chat/none": { type: "chat" },
};

function scen(fbName: string, prior: "none" | "fresh" | "expired", sel: any): Scenario {
  return {
    name: `fallback=${fbName} prior=${prior} sel=${JSON.stringify(sel)}`,
    run: async (w: World) => {
      const c = client(w);
      const fb = FALLBACKS[fbName];
      const chat = fb.type === "chat";
      const name = "p/1";
      let priorId = -1;
      if (prior !== "none") {
        const r0 = await w.settle(c.prompt.get(name, { ...sel, ...(chat ? { type: "chat" } : {}) } as any), (r) => replyFor(r, "ok", chat)!);
        w.assert(r0.ok, "lookup-failed", "warm-up failed");
        priorId = w.reqs.length - 1;
        if (prior === "expired") await w.advance(60_001);
      }
      const ttl = w.pick([undefined, 0, 10], "ttl");
      const maxRetries = w.pick([0, 1, 2, undefined], "retries");
      const timeoutMs = w.pick([undefined, 700], "timeout");
      const opts: any = { ...sel };
      if (ttl !== undefined) opts.cacheTtlSeconds = ttl;
      if (maxRetries !== undefined) opts.maxRetries = maxRetries;
      if (timeoutMs !== undefined) opts.fetchTimeoutMs = timeoutMs;
      if (fb.type) opts.type = fb.type;
      const fbGiven = structuredClone(fb.fallback);
      if (fb.fallback !== undefined) opts.fallback = fb.fallback;
      const n0 = w.reqs.length;
      const st: any = { done: false };
      c.prompt.get(name, opts).then(
        (v: any) => Object.assign(st, { done: true, ok: true, v }),
        (e: any) => Object.assign(st, { done: true, ok: false, e }),
      );
      await w.drain();
      const mustFetch = prior === "none" || ttl === 0;
      if (!mustFetch) {
        w.assert(st.done && st.ok && idOf(st.v) === priorId, "cached-not-used", () => `cached prompt exists but the lookup gave ${st.done ? (st.ok ? JSON.stringify(st.v.prompt) : st.e) : "nothing yet"}`);
        w.assert(st.v.isFallback === false, "cached-not-used", "cached prompt marked as fallback");
        if (prior === "fresh") {
          w.assert(w.reqs.length === n0, "requests", "request although the cached prompt is fresh");
          return;
        }
      }
      // drive the fetch through every outcome sequence
      const limit = 1 + (maxRetries ?? 2);
      let last: Out = "ok";
      let attempts = 0;
      for (;;) {
        const r = w.pending[0];
        if (!r) break;
        w.assert(w.pending.length === 1, "requests", "two attempts at once");
        attempts++;
        w.assert(attempts <= limit, "too-many-attempts", () => `${attempts} attempts with maxRetries=${maxRetries}`);
        const a = asked(r)!;
        w.assert(a && a.name === name && a.label === (sel.label ?? null) && a.version === (sel.version === undefined ? null : String(sel.version)), "requests", `request ${r.url}`);
        last = w.pick<Out>(attempts === 1 ? ["ok", "404", "500", "429", "net", "hang", "408", "401", "400", "429ra", "503", "403", "405", "409", "502", "504", "501", "garbage", "neterr"] : ["ok", "404", "500", "429ra", "net", "hang"], "outcome");
        w.obs("attempt " + last);
        const rep = replyFor(r, last, chat);
        if (rep) r.reply(rep);
        else {
          const t0 = w.now;
          if (timeoutMs !== undefined) {
            await w.advance(timeoutMs - 1);
            w.assert(r.state === "pending", "timeout", `request given up before fetchTimeoutMs=${timeoutMs}`);
            await w.advance(1);
            w.assert(r.state === "aborted", "timeout", `request still running after fetchTimeoutMs=${timeoutMs}`);
          } else {
            await w.advance(600_000);
            w.assert(r.state === "aborted", "timeout", "hanging request is never given up");
          }
          void t0;
        }
        await w.drain();
        if (RETRY.has(last) && attempts < limit) {
          w.assert(!st.done || !mustFetch, "gave-up-early", () => `lookup settled after ${attempts} of ${limit} attempts although the failure ${last} is retryable`);
          await untilRequest(w, 70_000);
          w.assert(w.pending.length === 1, "gave-up-early", () => `no retry after ${last} (attempt ${attempts} of ${limit})`);
        } else {
          await untilRequest(w, 70_000);
          w.assert(w.pending.length === 0, "retried-final", () => `attempt repeated after final outcome ${last}`);
        }
      }
      w.assert(attempts >= 1, "requests", "lookup that has to fetch made no request");
      await w.drain();
      w.assert(st.done, "unsettled", "lookup never settles");
      const fetchedId = w.reqs.length - 1;
      if (mustFetch) {
        if (last === "ok") {
          w.assert(st.ok && idOf(st.v) === fetchedId && st.v.isFallback === false, "fetched-not-used", () => `fetch succeeded but the lookup gave ${st.ok ? JSON.stringify(st.v.prompt) : st.e}`);
        } else if (fb.fallback !== undefined) {
          w.assert(st.ok, "fallback-not-used", () => `fetch failed (${last}), a fallback was given, but the lookup rejected: ${st.e}`);
          const p = st.v;
          w.assert(p.isFallback === true, "fallback-flag", "fallback not marked as fallback");
          w.assert(p.name === name && p.type === (chat ? "chat" : "text"), "fallback-fields", `fallback has name ${p.name} type ${p.type}`);
          w.assert(isDeepStrictEqual(p.labels, sel.label ? [sel.label] : []), "fallback-fields", `fallback labels ${JSON.stringify(p.labels)}`);
          w.assert(isDeepStrictEqual(p.config, {}) && isDeepStrictEqual(p.tags, []), "fallback-fields", () => `fallback config ${JSON.stringify(p.config)}, tags ${JSON.stringify(p.tags)}`);
          w.assert(p.version === (sel.version ?? 0), "fallback-fields", `fallback version ${p.version}`);
          const compiled = p.compile({ x: "1", y: "2" });
          const want = chat ? fbGiven.map((m: any) => ({ ...m, content: m.content.replace("{{y}}", "2") })) : fbGiven.replace("{{x}}", "1");
          w.assert(isDeepStrictEqual(compiled, want), "fallback-content", () => `fallback compiles to ${JSON.stringify(compiled)}`);
          w.assert(isDeepStrictEqual(fb.fallback, fbGiven), "fallback-mutated", "the caller's fallback was modified");
        } else {
          w.assert(!st.ok, "failure-hidden", () => `fetch failed (${last}) without fallback but the lookup resolved with ${JSON.stringify(st.v?.prompt)}`);
          w.assert(st.e instanceof Error, "failure-hidden", "rejection is not an error");
          if (!["net", "hang", "garbage", "neterr"].includes(last)) w.assert(st.e.statusCode === parseInt(last), "failure-detail", () => `rejection carries status ${st.e.statusCode}, the server said ${last}`);
        }
      }
      // what is cached now? never a fallback
      const n1 = w.reqs.length;
      const plain: any = { ...sel, ...(chat ? { type: "chat" } : {}), maxRetries: 0 };
      const r2 = await w.settle(c.prompt.get(name, plain), (r) => replyFor(r, "ok", chat)!);
      w.assert(r2.ok && r2.value.isFallback === false, "fallback-cached", () => `a later lookup returned ${r2.ok ? "the fallback" : r2.error}`);
      if (last !== "ok") {
        if (prior === "none") w.assert(w.reqs.length === n1 + 1, "fallback-cached", "later lookup did not fetch although nothing was fetched before");
        else w.assert(idOf(r2.value) === priorId || w.reqs.length > n1, "cache-lost", "cached prompt lost after a failed fetch");
        if (prior === "expired") w.assert(idOf(r2.value) === priorId, "cache-lost", "stale prompt not kept after a failed refresh");
      }
    },
  };
}
async function untilRequest(w: World, ms: number) {
  const end = w.now + ms;
  while (w.pending.length === 0) {
    const t = w.nextTimer();
    if (!t || t.due > end) break;
    await w.fireNext();
  }
}
function idOf(p: any): number | null {
  if (Array.isArray(p?.prompt)) return contentId({ prompt: p.prompt[0]?.content });
  return contentId(p);
}

/** concurrent lookups of one prompt with their own fallbacks: each outcome is that of its own fetch */
function concurrent(prior: "none" | "expired", n: number): Scenario {
  return {
    name: `concurrent ${n} prior=${prior}`,
    run: async (w: World) => {
      const c = client(w);
      let priorId = -1;
      if (prior !== "none") {
        await w.settle(c.prompt.get("p"), (r) => replyFor(r, "ok", false)!);
        priorId = 0;
        await w.advance(60_001);
      }
      const calls: { st: any; fb?: string; req: Req; ttl?: number }[] = [];
      for (let i = 0; i < n; i++) {
        const fb = w.bool("fallback") ? "fallback " + i : undefined;
        const ttl = w.bool("ttl0") ? 0 : undefined;
        const st: any = { done: false };
        const n0 = w.reqs.length;
        const opts: any = { maxRetries: 0 };
        if (fb) opts.fallback = fb;
        if (ttl !== undefined) opts.cacheTtlSeconds = ttl;
        c.prompt.get("p", opts).then(
          (v: any) => Object.assign(st, { done: true, ok: true, v }),
          (e: any) => Object.assign(st, { done: true, ok: false, e }),
        );
        await w.drain();
        if (prior === "none" || ttl === 0) {
          w.assert(w.reqs.length === n0 + 1, "requests", `lookup that has to fetch made ${w.reqs.length - n0} requests`);
          calls.push({ st, fb, req: w.reqs[n0], ttl });
        } else w.assert(st.ok && idOf(st.v) === priorId && !st.v.isFallback, "cached-not-used", () => `a stale prompt is cached but the lookup gave ${JSON.stringify(st.v?.prompt)}`);
      }
      while (w.pending.length) {
        const r = w.pending[w.choose(w.pending.length, "which")];
        r.reply(replyFor(r, w.pick<Out>(["ok", "404", "net"], "outcome"), false)!);
        await w.drain();
      }
      for (const { st, fb, req } of calls) {
        const ok = (req.outcome as any).status === 200;
        w.assert(st.done, "unsettled", "lookup never settles");
        if (ok) w.assert(st.ok && idOf(st.v) === req.id && !st.v.isFallback, "fetched-not-used", () => `fetch succeeded but the lookup gave ${st.ok ? JSON.stringify(st.v.prompt) : st.e}`);
        else if (fb) w.assert(st.ok && st.v.isFallback === true && st.v.prompt === fb, "fallback-not-used", () => `fetch failed, the fallback is ${fb}, the lookup gave ${st.ok ? JSON.stringify(st.v.prompt) : st.e}`);
        else w.assert(!st.ok, "failure-hidden", () => `fetch failed without fallback but the lookup resolved with ${JSON.stringify(st.v?.prompt)}`);
      }
      const r2 = await w.settle(c.prompt.get("p", { maxRetries: 0 }), (r) => replyFor(r, "ok", false)!);
      w.assert(r2.ok && r2.value.isFallback === false, "fallback-cached", "a later lookup returned a fallback");
    },
  };
}

const def: CheckDef = {
  property: "P04",
  bounds: () => `all outcome sequences (11 kinds first, 6 kinds for retries) up to 3 attempts x fallback kinds x type x prior cache state x TTL x maxRetries x timeout x version/label`,
  assumptions: ["a request unanswered after its timeout counts as failed", "an empty-string fallback is not considered"],
  scenarios: () => {
    const out: Scenario[] = [concurrent("none", 2), concurrent("expired", 2), concurrent("none", 3)];
    for (const fb of Object.keys(FALLBACKS)) for (const prior of ["none", "fresh", "expired"] as const) for (const sel of [{}, { label: "x" }, { version: 7 }, { version: 7, label: "x" }] as any[]) {
      if (prior !== "none" && sel.version) continue;
      out.push(scen(fb, prior, sel));
    }
    return out;
  },
};
export default def;
