import type { CheckDef, Scenario, World, Reply } from "../mc/engine";
import { isDeepStrictEqual } from "node:util";
import { LangfuseAPIError, LangfuseAPITimeoutError } from "@langfuse/core";
import { ENDPOINTS, byName, mk, call, AUTH, urlPath, type Endpoint } from "./lib/api";

const retryable = (s: number) => s === 408 || s === 429 || s >= 500;
// errors the API definition declares without a body
const BODYLESS: Record<string, number> = { "feedback.submit": 409, "health.health": 503 };
type Ans = { status?: number; error?: any; headers?: Record<string, string>; text?: string; json?: any };

/** the server answers the k-th attempt with answers(k) */
async function runCall(w: World, e: Endpoint, o: { client?: any; retries?: number; body?: any; params?: any[]; raw?: boolean; options?: any }, answer: (k: number) => Ans) {
  const opts = { ...(o.retries === undefined ? {} : { maxRetries: o.retries }), ...o.options };
  const p = call(o.client ?? mk(), e, { params: o.params, body: o.body, options: Object.keys(opts).length ? opts : undefined });
  const given: Ans[] = [];
  let at: number[] = [];
  const st = await w.settle(o.raw ? p.withRawResponse() : p, (r) => {
    const a = answer(given.length);
    given.push(a);
    at.push(w.now);
    return a.error ? { error: a.error } : ({ status: a.status!, ...(a.text !== undefined ? { text: a.text } : { json: a.json }), headers: a.headers } as Reply);
  });
  w.assert(st.done, "hang", `${e.at}: the call never settles`);
  await w.drain();
  w.assert(w.timers.length === 0, "timer-left", `${e.at}: a finished call leaves ${w.timers.length} timer(s) behind`);
  return { st, given };
}

function judge(w: World, e: Endpoint, st: any, given: Ans[], maxRetries: number, body: any, o: { params?: any[]; raw?: boolean } = {}) {
  const who = `${e.at} answered [${given.map((g) => (g.error ? "network error" : g.status)).join(", ")}] with maxRetries ${maxRetries}`;
  // attempts
  for (let i = 0; i < given.length; i++) {
    const last = i === given.length - 1;
    const again = !given[i].error && retryable(given[i].status!) && i < maxRetries;
    if (last) w.assert(!again, "not-retried", () => `${who}: not repeated after ${given[i].status}`);
    else w.assert(again, "retried", () => `${who}: repeated after answer ${i}`);
  }
  w.assert(given.length <= maxRetries + 1, "too-many", `${who}: more than ${maxRetries + 1} attempts`);
  w.assert(w.reqs.length === given.length, "requests", `${who}: ${w.reqs.length} requests`);
  const r0 = w.reqs[0];
  for (const r of w.reqs) {
    w.assert(r.method === e.method && r.path === urlPath(e, o.params), "address", () => `${who}: sent ${r.method} ${r.path}, expected ${e.method} ${urlPath(e, o.params)}`);
    w.assert(r.url === r0.url && r.method === r0.method && isDeepStrictEqual(r.headers, r0.headers) && r.body === r0.body, "attempt-differs", () => `${who}: attempt ${r.id} differs from the first: ${JSON.stringify([r.url, r.method, r.headers, r.body])} vs ${JSON.stringify([r0.url, r0.method, r0.headers, r0.body])}`);
    w.assert(r.headers["authorization"] === AUTH, "auth", `${who}: attempt ${r.id} is sent with authorization ${r.headers["authorization"]}`);
    if (e.body) w.assert(isDeepStrictEqual(r.json, body), "body", () => `${who}: attempt ${r.id} sends body ${r.body}`);
    else w.assert(r.body === undefined || r.body === null, "body", `${who}: sends a body`);
  }
  const f = given[given.length - 1];
  if (!f.error && f.status! < 400) {
    w.assert(st.ok, "rejected", () => `${who}: rejected with ${st.error}`);
    const v = o.raw ? st.value.data : st.value;
    const want = e.void ? undefined : f.json;
    w.assert(isDeepStrictEqual(v, want), "result", () => `${who}: resolved with ${JSON.stringify(v)}, expected ${JSON.stringify(want)}`);
    if (o.raw) w.assert(st.value.rawResponse.status === f.status, "raw", `${who}: raw response has status ${st.value.rawResponse.status}`);
  } else {
    w.assert(!st.ok, "resolved", () => `${who}: resolved with ${JSON.stringify(st.value)}`);
    w.assert(st.error instanceof Error, "error", `${who}: rejected with a non-error`);
    if (!f.error) {
      w.assert(st.error instanceof LangfuseAPIError, "error", `${who}: rejected with ${st.error?.constructor?.name}`);
      w.assert(st.error.statusCode === f.status, "status", `${who}: error carries status ${st.error.statusCode}`);
      const want = f.text !== undefined ? (f.text === "" ? undefined : f.text) : f.json;
      w.assert(isDeepStrictEqual(st.error.body, want) || (f.text === "" && st.error.body === "") || (BODYLESS[e.at] === f.status && st.error.body === undefined), "error-body", () => `${who}: error carries body ${JSON.stringify(st.error.body)}, expected ${JSON.stringify(want)}`);
    }
  }
}

const STAT = [200, 201, 302, 400, 401, 403, 404, 405, 408, 409, 422, 429, 499, 500, 502, 503, 599];
const WIDE = [200, 202, 206, 207, 299, 300, 301, 304, 307, 308, 399, 402, 406, 407, 410, 411, 412, 413, 415, 418, 421, 423, 425, 426, 428, 430, 431, 451, 498, 501, 504, 505, 507, 511, 520, 529, 530];
const REP = ["prompts.get", "ingestion.batch", "media.patch", "datasets.deleteRun", "trace.list", "legacy.scoreV1.delete"];

const seqScen = (e: Endpoint, retries: number | undefined, stats: number[], name = ""): Scenario => ({
  name: `${name}${e.at} retries ${retries}`,
  run: async (w) => {
    const eff = retries ?? 2;
    const body = { a: ["x", null, { b: "ü" }], n: 1.5 };
    const raw = w.bool("raw");
    const { st, given } = await runCall(w, e, { retries, body, raw }, (k) => {
      const c = w.choose(stats.length + 1, "answer");
      if (c === stats.length) return { error: new TypeError("fetch failed") };
      return { status: stats[c], json: { body: "of attempt " + k, k: [k, null] } };
    });
    judge(w, e, st, given, eff, body, { raw });
  },
});

// ------------------------------------------------------------------ waiting
const RA = [undefined, "1", "2", "7", "10", "59", "60", "61", "120", "3600", "86400", "0", "-3", "soon", "DATE+1", "DATE+5", "DATE+600", "DATE-5"];
const RL = [undefined, "+1", "+5", "+60", "+600", "-5", "later"];
const waitScen = (attempt: number): Scenario => ({
  name: `waiting before retry ${attempt + 1}`,
  run: async (w) => {
    const ra = w.pick(RA, "retry-after"), rl = w.pick(RL, "reset"), rnd = w.pick([0, 0.5, 0.999999], "random"), status = w.pick([429, 503, 408], "status");
    Math.random = () => rnd;
    const e = byName("prompts.get");
    const at: number[] = [];
    let asked: { min: number; max: number } | undefined;
    const { st, given } = await runCall(w, e, { retries: attempt + 1 }, (k) => {
      at.push(w.now);
      if (k < attempt) return { status: 500, json: {} };
      if (k > attempt) return { status: 200, json: { ok: 1 } };
      const headers: Record<string, string> = {};
      const abs = w.now;
      if (ra !== undefined) headers[w.pick(["Retry-After", "retry-after"], "case")] = ra.startsWith("DATE") ? new Date(abs + Number(ra.slice(4)) * 1000).toUTCString() : ra;
      if (rl !== undefined) headers["X-RateLimit-Reset"] = /^[+-]/.test(rl) ? String(Math.floor(abs / 1000) + Number(rl)) : rl;
      // what is asked for
      const secs = ra === undefined ? NaN : ra.startsWith("DATE") ? (new Date(headers["Retry-After"] ?? headers["retry-after"]).getTime() - abs) / 1000 : Number(ra);
      const rls = rl !== undefined && /^[+-]/.test(rl) ? (Number(headers["X-RateLimit-Reset"]) * 1000 - abs) / 1000 : NaN;
      if (secs > 0) {
        const ms = Math.min(secs * 1000, 60000);
        asked = { min: ms, max: ms + 1 };
      } else if (rls > 0) {
        const ms = Math.min(rls * 1000, 60000);
        asked = { min: ms, max: ms * 1.2 + 1 };
      } else {
        const ms = Math.min(1000 * 2 ** attempt, 60000);
        asked = { min: ms * 0.9 - 1, max: ms * 1.1 + 1 };
      }
      return { status, json: {}, headers };
    });
    w.assert(st.ok && given.length === attempt + 2, "retry", `not retried to success (${given.length} attempts)`);
    const waited = at[attempt + 1] - at[attempt];
    w.assert(waited >= asked!.min && waited <= asked!.max, "wait", () => `retry ${attempt + 1} after Retry-After ${ra}, X-RateLimit-Reset ${rl}: waited ${waited} ms, expected ${asked!.min}..${asked!.max}`);
    if (attempt > 0) {
      const first = at[1] - at[0];
      w.assert(first >= 899 && first <= 1101, "wait", `first retry waited ${first} ms`);
    }
  },
});

// ------------------------------------------------------------------ error bodies
const CT = [undefined, "application/json", "application/json; charset=utf-8", "application/problem+json", "application/vnd.x+json", "text/plain", "text/html"];
const bodyScen: Scenario = {
  name: "error bodies",
  run: async (w) => {
    const e = byName(w.pick(REP, "endpoint"));
    const status = w.pick([400, 401, 403, 404, 405, 418, 500], "status");
    const ct = w.pick(CT, "content type");
    const isJson = !ct || /json/.test(ct);
    const k = w.choose(4, "body");
    const json = [{ message: "m", error: { a: [1] } }, "str", null, [1, 2]][k];
    const broken = w.choose(3, "validity");
    const text = broken === 0 ? JSON.stringify(json) : broken === 1 ? '{"message": "cut' : "";
    const { st, given } = await runCall(w, e, { retries: 0 }, () => ({ status, text, headers: ct ? { "content-type": ct } : {} }));
    const want = broken === 0 && isJson ? json : broken === 2 ? undefined : text;
    w.assert(!st.ok && st.error instanceof LangfuseAPIError, "error", () => `status ${status} with ${ct} body ${text}: ${st.ok ? "resolved" : st.error}`);
    w.assert(st.error.statusCode === status, "status", `status ${status} with ${ct} body ${text}: the error carries status ${st.error.statusCode}`);
    w.assert(isDeepStrictEqual(st.error.body, want) || (broken === 2 && !st.error.body), "error-body", () => `status ${status} with ${ct} body ${text}: the error carries body ${JSON.stringify(st.error.body)}`);
    void given;
  },
};

// ------------------------------------------------------------------ time limit
const timeScen: Scenario = {
  name: "time limit",
  run: async (w) => {
    const e = byName(w.pick(REP, "endpoint"));
    const secs = w.pick([undefined, 1, 30], "timeout");
    const before = w.choose(3, "failures before the silence");
    const client = mk();
    const ac = new AbortController();
    const sig = w.bool("with an abort signal");
    const p = call(client, e, { body: { k: 1 }, options: secs === undefined && !sig ? undefined : { ...(secs === undefined ? {} : { timeoutInSeconds: secs }), ...(sig ? { abortSignal: ac.signal } : {}) } });
    let st: any = { done: false };
    p.then((v: any) => (st = { done: true, ok: true, v }), (err: any) => (st = { done: true, ok: false, err }));
    await w.drain();
    for (let i = 0; i < before; i++) {
      w.pending[0].reply({ status: 503, json: {} });
      await w.drain();
      const n = w.reqs.length;
      while (w.reqs.length === n && w.nextTimer()) await w.fireNext();
    }
    const limit = (secs ?? 60) * 1000;
    w.assert(w.pending.length === 1, "attempt", `${w.pending.length} requests in flight`);
    const t0 = w.now;
    await w.advance(limit - 1);
    w.assert(!st.done && w.pending.length === 1, "early", `gave up after less than ${limit} ms`);
    await w.advance(2);
    await w.drain();
    w.assert(st.done && !st.ok, "no-timeout", `request unanswered for ${w.now - t0} ms with a limit of ${limit} ms: ${st.done ? "resolved" : "still waiting"}`);
    w.assert(st.err instanceof LangfuseAPITimeoutError, "timeout-error", () => `timed-out call rejected with ${st.err?.constructor?.name} ${st.err?.message}`);
    w.assert(w.timers.length === 0 && w.pending.length === 0, "left", "timed-out call leaves timers or requests behind");
  },
};

// ------------------------------------------------------------------ successful answers
const OKBODY: any[] = [{ a: 1 }, {}, [], [1, "2", null], 0, false, true, "", "text", null, 1e21, { nested: { deep: [[{}]], s: "ü\ud83d\ude00\u2028" } }, Array.from({ length: 200 }, (_, i) => ({ i })), "x".repeat(5000)];
const OKTEXT = ["", "<html>", "{", "[1,", "undefined", "NaN", "{'a':1}", "ok", "{}x"];
const okScen: Scenario = {
  name: "successful answers",
  run: async (w) => {
    const e = byName(w.pick(REP, "endpoint"));
    const before = w.pick([[], [500], [429, 503]], "before");
    const status = w.pick([200, 201, 207], "status");
    const ct = w.pick(["application/json", "application/json; charset=utf-8", "text/plain", undefined], "content type");
    const bad = w.bool("not JSON");
    const text = bad ? w.pick(OKTEXT, "text") : JSON.stringify(w.pick(OKBODY, "body"));
    const { st, given } = await runCall(w, e, {}, (k) => (k < before.length ? { status: before[k], json: {} } : { status, text, headers: ct ? { "content-type": ct } : {} }));
    const who = `${e.at} answered ${status} ${ct} ${text.slice(0, 60)}`;
    w.assert(given.length === before.length + 1, "attempts", () => `${who}: ${given.length} attempts`);
    if (bad && text !== "" && !e.void) {
      w.assert(!st.ok && st.error instanceof LangfuseAPIError, "not-json", () => `${who}: ${st.ok ? "resolved with " + JSON.stringify(st.value) : st.error}`);
      w.assert(st.error.statusCode === status, "status", () => `${who}: error carries status ${st.error.statusCode}`);
      w.assert(st.error.body === text || (st.error.rawResponse && isDeepStrictEqual(st.error.body, text)), "error-body", () => `${who}: error carries ${JSON.stringify(st.error.body)}`);
    } else if (!bad || text === "") {
      w.assert(st.ok, "rejected", () => `${who}: rejected with ${st.error}`);
      w.assert(isDeepStrictEqual(st.value, e.void || text === "" ? undefined : JSON.parse(text)), "result", () => `${who}: resolved with ${JSON.stringify(st.value)?.slice(0, 100)}`);
    }
  },
};
// ------------------------------------------------------------------ many retries
const longScen: Scenario = {
  name: "many retries",
  run: async (w) => {
    const max = w.pick([5, 10, 12], "maxRetries"), e = byName(w.pick(["prompts.get", "ingestion.batch"], "endpoint"));
    const okAt = w.pick([0, 1, 4, 9, 12, 99], "success at"), bad = w.pick([500, 429, 408, 599], "status"), rnd = w.pick([0, 0.999999], "random");
    Math.random = () => rnd;
    const body = { x: 1 }, at: number[] = [];
    const { st, given } = await runCall(w, e, { retries: max, body }, (k) => (at.push(w.now), k === okAt ? { status: 200, json: { k } } : { status: bad, json: { k } }));
    judge(w, e, st, given, max, body);
    at.slice(1).forEach((t, i) => {
      const ms = Math.min(1000 * 2 ** i, 60000), waited = t - at[i];
      w.assert(waited >= ms * 0.9 - 1 && waited <= ms * 1.1 + 1, "wait", () => `retry ${i + 1} of ${max}: waited ${waited} ms, expected about ${ms}`);
    });
  },
};
// ------------------------------------------------------------------ the caller aborts
const abortScen: Scenario = {
  name: "aborted by the caller",
  run: async (w) => {
    const e = byName(w.pick(REP, "endpoint"));
    const when = w.pick(["before", "first attempt", "waiting", "second attempt", "after"], "when");
    const ac = new AbortController();
    if (when === "before") ac.abort();
    let st: any = { done: false };
    call(mk(), e, { body: { k: 1 }, options: { abortSignal: ac.signal, ...w.pick([{}, { timeoutInSeconds: 30 }], "timeout") } }).then((v: any) => (st = { done: true, ok: true, v }), (err: any) => (st = { done: true, ok: false, err }));
    await w.drain();
    if (when === "first attempt") ac.abort();
    else if (when !== "before") {
      w.pending[0].reply({ status: when === "after" ? 200 : 503, json: { a: 1 } });
      await w.drain();
      if (when === "after") {
        w.assert(st.done && st.ok, "rejected", () => `${e.at}: ${st.err}`);
        ac.abort();
        await w.drain();
        w.assert(w.timers.length === 0 && w.rejections.length === 0, "left", "aborting a finished call has an effect");
        return;
      }
      if (when === "second attempt") while (w.reqs.length === 1 && w.nextTimer()) await w.fireNext();
      ac.abort();
    }
    const n = w.reqs.length;
    await w.drain();
    await w.advance(200_000);
    await w.drain();
    w.assert(st.done && !st.ok && st.err instanceof Error, "abort", `${e.at} aborted (${when}): ${st.done ? (st.ok ? "resolved" : "rejected with a non-error") : "still waiting"}`);
    w.assert(w.reqs.length === n && w.pending.length === 0, "abort", `${e.at} aborted (${when}): sent again`);
    w.assert(w.timers.length === 0, "timer-left", `${e.at} aborted (${when}): leaves a timer`);
  },
};
// ------------------------------------------------------------------ several calls on one client
const concScen = (conc: boolean): Scenario => ({
  name: conc ? "concurrent calls" : "calls in sequence",
  run: async (w) => {
    const c = mk();
    const es = ["prompts.get", "ingestion.batch"].map(byName);
    const hist: Record<number, number[]> = { 0: [], 1: [] };
    const sts: any[] = [{}, {}];
    const go = (i: number) => call(c, es[i], { body: { call: i }, options: { maxRetries: 1 } }).then((v: any) => (sts[i] = { done: true, ok: true, v }), (err: any) => (sts[i] = { done: true, ok: false, err }));
    const which = (r: any) => (r.method === "POST" ? 1 : 0);
    const replies = (r: any) => [200, 404, 503].map((s) => ({ name: String(s), reply: () => (hist[which(r)].push(s), { status: s, json: { call: which(r), n: hist[which(r)].length } }) }));
    if (conc) {
      go(0); go(1);
      await w.system({ replies, timerBudget: 6, timerHorizon: 5000 });
    } else
      for (const i of [0, 1]) { go(i); await w.system({ replies, timerBudget: 3, timerHorizon: 5000 }); }
    for (const i of [0, 1]) {
      const h = hist[i], f = h[h.length - 1];
      w.assert(sts[i].done, "hang", `call ${i} answered ${h} never settles`);
      w.assert(h.length === (h[0] === 503 ? 2 : 1), "attempts", `call ${i}: answers ${h}`);
      if (f === 200) w.assert(sts[i].ok && isDeepStrictEqual(sts[i].v, { call: i, n: h.length }), "result", () => `call ${i} answered ${h}: ${JSON.stringify(sts[i].v ?? String(sts[i].err))}`);
      else w.assert(!sts[i].ok && sts[i].err.statusCode === f && isDeepStrictEqual(sts[i].err.body, { call: i, n: h.length }), "error", () => `call ${i} answered ${h}: ${sts[i].ok ? "resolved" : sts[i].err}`);
    }
    for (const r of w.reqs) w.assert(r.headers["authorization"] === AUTH && (which(r) === 0 || isDeepStrictEqual(r.json, { call: 1 })), "attempt-differs", "a request lost its authentication or body");
    w.assert(w.timers.length === 0, "timer-left", "timers are left behind");
  },
});
// ------------------------------------------------------------------ very many calls at once
const manyScen: Scenario = {
  name: "many concurrent calls",
  run: async (w) => {
    const c = mk();
    const n = w.pick([60, 260], "calls"), order = w.pick(["first", "last"], "answered");
    const es = ["prompts.get", "ingestion.batch"].map(byName);
    const fate = (i: number) => [200, 404, 503, 429, 200][i % 5];
    const sts: any[] = [];
    const tries: number[] = Array(n).fill(0);
    for (let i = 0; i < n; i++) call(c, es[i % 2], { body: { call: i }, ...(i % 2 ? {} : { params: ["p" + i] }), options: { maxRetries: 1 } }).then((v: any) => (sts[i] = { ok: true, v }), (err: any) => (sts[i] = { ok: false, err }));
    const who = (r: any) => (r.method === "POST" ? r.json.call : Number(decodeURIComponent(r.path.split("/").pop()!).slice(1)));
    for (let s = 0; s < 20 * n; s++) {
      await w.drain();
      const pend = w.pending;
      if (!pend.length) {
        if (!w.nextTimer()) break;
        await w.fireNext();
        continue;
      }
      const r = order === "first" ? pend[0] : pend[pend.length - 1];
      const i = who(r);
      w.assert(i >= 0 && i < n && r.headers["authorization"] === AUTH, "request", () => `unexpected request ${r.method} ${r.url}`);
      tries[i]++;
      const again = tries[i] > 1;
      r.reply({ status: again ? 200 : fate(i), json: { call: i, n: tries[i] } });
    }
    for (let i = 0; i < n; i++) {
      const f = fate(i), k = f === 503 || f === 429 ? 2 : 1;
      w.assert(sts[i], "hang", `call ${i} of ${n} never settles`);
      w.assert(tries[i] === k, "attempts", `call ${i} of ${n}, answered ${f} first, was sent ${tries[i]} times`);
      if (f === 404) w.assert(!sts[i].ok && sts[i].err.statusCode === 404 && isDeepStrictEqual(sts[i].err.body, { call: i, n: 1 }), "error", () => `call ${i}: ${sts[i].ok ? "resolved" : sts[i].err}`);
      else w.assert(sts[i].ok && isDeepStrictEqual(sts[i].v, { call: i, n: k }), "result", () => `call ${i}: ${JSON.stringify(sts[i].v ?? String(sts[i].err))}`);
    }
    w.assert(w.timers.length === 0, "timer-left", "timers are left behind");
  },
};

const def: CheckDef = {
  property: "C01",
  bounds: (t) => `${t}: all answer sequences (${STAT.length} statuses and network failure) to ${REP.length} representative endpoints for maxRetries unset, 0..${t === "quick" ? 2 : 3}; all sequences over a reduced alphabet for each of the ${ENDPOINTS.length} endpoints; all Retry-After x X-RateLimit-Reset x jitter extremes for the first ${t === "quick" ? 3 : 7} retries; error bodies x content types; time limit after 0..2 failed attempts; ${OKBODY.length} JSON and ${OKTEXT.length} other success bodies; up to 12 retries; caller aborts at 5 points; all schedules of two calls on one client`,
  assumptions: ["network failures are final, not retried"],
  scenarios: (tier) => {
    const out: Scenario[] = [];
    for (const n of REP) for (const r of [undefined, 0, 1, ...(tier === "quick" ? [] : [2, 3])]) out.push(seqScen(byName(n), r, r === 3 ? [200, 302, 400, 404, 408, 429, 500, 503] : STAT));
    for (const e of ENDPOINTS) out.push(seqScen(e, undefined, [200, 401, 404, 429, 500], "each endpoint: "), seqScen(e, 1, [201, 400, 403, 405, 409, 408, 599], "each endpoint: "));
    for (let a = 0; a < (tier === "quick" ? 3 : 7); a++) out.push(waitScen(a));
    out.push(bodyScen, timeScen, okScen, longScen, abortScen, concScen(true), concScen(false), manyScen);
    for (const n of REP) out.push(seqScen(byName(n), tier === "quick" ? 1 : undefined, WIDE, "wide "));
    return out;
  },
};
export default def;
