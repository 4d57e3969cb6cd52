import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { LangfuseBrowserClient } from "@langfuse/browser";
import { isDeepStrictEqual } from "node:util";

const PK = "pk-lf-1";
const BASES: [string | undefined, string][] = [
  [undefined, "https://cloud.langfuse.com"],
  ["https://lf.test", "https://lf.test"],
  ["https://lf.test///", "https://lf.test"],
  ["http://localhost:3000/sub/", "http://localhost:3000/sub"],
  ["https://LF.test/A/b%20c", "https://LF.test/A/b%20c"],
];
const HEADERS: (Record<string, string> | undefined)[] = [
  undefined,
  { "X-Custom": "1" },
  { Authorization: "Bearer evil", "X-Custom": "1" },
  { authorization: "x", AUTHORIZATION: "y", "content-type": "text/plain", "CONTENT-TYPE": "a" },
  { "Content-type": "text/plain", "cONTENT-tYPE": "b", aUTHORIZATION: "z", "X-langfuse-Public-key": "p" },
  { "Content-Type": "text/plain", "X-Langfuse-Public-Key": "p", "X-Langfuse-Sdk-Name": "n" },
  { "x-langfuse-public-key": "other", "X-LANGFUSE-SDK-NAME": "n", "x-Langfuse-Sdk-Version": "0", "X-Langfuse-Sdk-Integration": "z", "x-langfuse-sdk-variant": "v", "x-other": "o" },
];
const FIELDS: [string, any][] = [
  ["traceId", "t1"],
  ["observationId", "o1"],
  ["sessionId", "s1"],
  ["comment", "ü \"c\"\n"],
  ["metadata", { a: [1, null, { b: "x" }] }],
  ["dataType", "NUMERIC"],
  ["configId", "c1"],
  ["id", "my-id"],
  ["environment", "prod"],
  ["queueId", "q1"],
];
const VALUES: any[] = [1, 0, -1.5, "good", "", true, false, 1e-9, "0", " Text ", "x".repeat(700) + "ü"];

const ev = (r: Req) => r.json.batch[0];

function request(w: World, r: Req, body: any, cfg: { base: string; headers?: Record<string, string>; env?: string }) {
  w.assert(r.url === cfg.base + "/api/public/ingestion" && r.method === "POST", "address", `sent ${r.method} ${r.url}`);
  w.assert(r.headers["authorization"] === `Bearer ${PK}`, "auth", `sent with authorization ${r.headers["authorization"]}`);
  w.assert(r.headers["content-type"] === "application/json", "content-type", `sent with content type ${r.headers["content-type"]}`);
  w.assert(r.headers["x-langfuse-public-key"] === PK, "public-key", `sent with public key ${r.headers["x-langfuse-public-key"]}`);
  for (const h of ["x-langfuse-sdk-name", "x-langfuse-sdk-version", "x-langfuse-sdk-integration"]) {
    const given = Object.entries(cfg.headers ?? {}).find(([k]) => k.toLowerCase() === h)?.[1];
    w.assert(r.headers[h] && !r.headers[h].split(/, */).includes(given!), "sdk-header", `${h} is ${r.headers[h]}`);
  }
  const reserved = new Set(["authorization", "content-type", "x-langfuse-public-key", "x-langfuse-sdk-name", "x-langfuse-sdk-version", "x-langfuse-sdk-integration", "x-langfuse-sdk-variant"]);
  for (const [k, v] of Object.entries(cfg.headers ?? {})) if (!reserved.has(k.toLowerCase())) w.assert(r.headers[k.toLowerCase()] === v, "custom-header", `custom header ${k} is ${r.headers[k.toLowerCase()]}`);
  const j = r.json;
  w.assert(Array.isArray(j.batch) && j.batch.length === 1, "batch", `batch of ${j.batch?.length}`);
  const e = j.batch[0];
  w.assert(e.type === "score-create" && typeof e.id === "string" && e.id.length > 0 && Number.isFinite(Date.parse(e.timestamp)), "event", () => `event ${JSON.stringify(e)}`);
  const want = JSON.parse(JSON.stringify({ ...body, id: body.id ?? e.body.id, environment: body.environment ?? cfg.env }));
  w.assert(typeof e.body.id === "string" && e.body.id.length > 0, "id", "sent without an id");
  w.assert(isDeepStrictEqual(e.body, want), "body", () => `given ${JSON.stringify(body)} (client environment ${cfg.env}), sent ${JSON.stringify(e.body)}`);
}

/** server answers; ok: the score is confirmed */
const ANSWERS: { name: string; ok: boolean; reply: (id: string, scoreId?: string) => Reply; status?: number; body?: (id: string) => any }[] = [
  { name: "confirmed", ok: true, reply: (id) => ({ status: 207, json: { successes: [{ id, status: 201 }], errors: [] } }) },
  { name: "confirmed 200", ok: true, reply: (id) => ({ status: 200, json: { successes: [{ id: "zz", status: 201 }, { id, status: 201 }], errors: [] } }) },
  { name: "event error", ok: false, reply: (id) => ({ status: 207, json: { successes: [], errors: [{ id, status: 400, message: "bad" }] } }) },
  { name: "both", ok: false, reply: (id) => ({ status: 207, json: { successes: [{ id, status: 201 }], errors: [{ id, status: 400 }] } }) },
  { name: "other confirmed", ok: false, reply: () => ({ status: 207, json: { successes: [{ id: "someone-else", status: 201 }], errors: [] } }) },
  { name: "score id confirmed", ok: false, reply: (_, s) => ({ status: 207, json: { successes: [{ id: s, status: 201 }], errors: [] } }) },
  { name: "event id in upper case", ok: false, reply: (id) => ({ status: 207, json: { successes: [{ id: id.toUpperCase() + "X", status: 201 }, { id: id + " ", status: 201 }, { id: id.slice(0, -1), status: 201 }], errors: [] } }) },
  { name: "id missing in success", ok: false, reply: () => ({ status: 207, json: { successes: [{ status: 201 }, {}], errors: [] } }) },
  { name: "score id and event id confirmed", ok: true, reply: (id, s) => ({ status: 207, json: { successes: [{ id: s, status: 201 }, { id, status: 201 }], errors: [] } }) },
  { name: "confirmed among many", ok: true, reply: (id) => ({ status: 207, json: { successes: [...Array.from({ length: 15 }, (_, i) => ({ id: "o" + i, status: 201 })), { id, status: 200 }], errors: [] } }) },
  { name: "someone else's error", ok: false, reply: (id) => ({ status: 207, json: { successes: [{ id, status: 201 }], errors: [{ id: "other", status: 400, message: "bad" }] } }) },
  { name: "errors object", ok: false, reply: (id) => ({ status: 200, json: { successes: [{ id }], errors: {} } }) },
  { name: "errors null", ok: false, reply: (id) => ({ status: 200, json: { successes: [{ id }], errors: null } }) },
  { name: "string", ok: false, reply: (id) => ({ status: 200, json: id }) },
  { name: "201 confirmed", ok: true, reply: (id) => ({ status: 201, json: { successes: [{ id, status: 201 }], errors: [] } }) },
  { name: "204", ok: false, reply: () => ({ status: 204, text: "" }) },
  { name: "404 html", ok: false, status: 404, body: () => "<html>", reply: () => ({ status: 404, text: "<html>" }) },
  { name: "400 number", ok: false, status: 400, body: () => 0, reply: () => ({ status: 400, text: "0" }) },
  { name: "413", ok: false, status: 413, body: () => ({ error: ["a"] }), reply: () => ({ status: 413, json: { error: ["a"] } }) },
  { name: "503 long", ok: false, status: 503, body: () => "e".repeat(3000), reply: () => ({ status: 503, text: "e".repeat(3000) }) },
  { name: "nothing", ok: false, reply: () => ({ status: 207, json: { successes: [], errors: [] } }) },
  { name: "shape {}", ok: false, reply: () => ({ status: 200, json: {} }) },
  { name: "no errors field", ok: false, reply: (id) => ({ status: 200, json: { successes: [{ id }] } }) },
  { name: "successes object", ok: false, reply: (id) => ({ status: 200, json: { successes: { 0: { id } }, errors: [] } }) },
  { name: "null", ok: false, reply: () => ({ status: 200, json: null }) },
  { name: "array", ok: false, reply: (id) => ({ status: 200, json: [{ id }] }) },
  { name: "null success", ok: false, reply: () => ({ status: 200, json: { successes: [null], errors: [] } }) },
  { name: "text", ok: false, reply: () => ({ status: 200, text: "<html>" }) },
  { name: "empty", ok: false, reply: () => ({ status: 200, text: "" }) },
  { name: "400 json", ok: false, status: 400, body: () => ({ message: "m" }), reply: () => ({ status: 400, json: { message: "m" } }) },
  { name: "401 text", ok: false, status: 401, body: () => "denied", reply: () => ({ status: 401, text: "denied" }) },
  { name: "403 empty", ok: false, status: 403, body: () => undefined, reply: () => ({ status: 403, text: "" }) },
  { name: "500 looks confirmed", ok: false, status: 500, body: (id) => ({ successes: [{ id, status: 201 }], errors: [] }), reply: (id) => ({ status: 500, json: { successes: [{ id, status: 201 }], errors: [] } }) },
  { name: "429", ok: false, status: 429, body: () => ({}), reply: () => ({ status: 429, json: {} }) },
  { name: "302", ok: false, status: 302, body: () => ({}), reply: () => ({ status: 302, json: {} }) },
  { name: "network", ok: false, reply: () => ({ error: new TypeError("Failed to fetch") }) },
  { name: "network string", ok: false, reply: () => ({ error: "boom" }) },
];

const ANSWERED = ["score id confirmed", "event id in upper case", "id missing in success", "someone else's error", "event error", "both", "other confirmed", "nothing"];
function outcome(w: World, a: (typeof ANSWERS)[number], st: any, evId: string, scoreId: string, conc = false) {
  if (a.ok) {
    w.assert(st.ok, "rejected", () => `answer "${a.name}": rejected with ${st.error}`);
    w.assert(st.value?.id === scoreId, "result-id", `answer "${a.name}": resolved with id ${st.value?.id}, sent ${scoreId}`);
  } else {
    w.assert(!st.ok, "resolved", () => `answer "${a.name}": resolved with ${JSON.stringify(st.value)}`);
    w.assert(st.error instanceof Error, "error", `answer "${a.name}": rejected with a non-error`);
    if (a.status !== undefined) w.assert(st.error.status === a.status, "status", `answer "${a.name}": error carries status ${st.error.status}`);
    if (a.status !== undefined || ANSWERED.includes(a.name)) {
      const rep: any = a.reply(evId, scoreId);
      if (a.status === undefined && conc) return;
      if (a.status === undefined) w.assert(isDeepStrictEqual(st.error.response, rep.json), "error-body", () => `answer "${a.name}": error carries ${JSON.stringify(st.error.response)}`);
      else w.assert(isDeepStrictEqual(st.error.response, a.body!(evId)), "error-body", () => `answer "${a.name}": error carries body ${JSON.stringify(st.error.response)}`);
    }
  }
}

const answerScen = (viaOption: boolean): Scenario => ({
  name: `answers${viaOption ? " own fetch" : ""}`,
  run: async (w) => {
    const [base, want] = w.pick(BASES, "base");
    const headers = w.pick(HEADERS, "headers");
    const env = w.pick([undefined, "staging"], "environment");
    const a = w.pick(ANSWERS, "answer");
    const opts: any = { publicKey: PK, ...(base ? { baseUrl: base } : {}), ...(headers ? { additionalHeaders: { ...headers } } : {}), ...(env ? { environment: env } : {}) };
    const gf = globalThis.fetch;
    if (viaOption) {
      opts.fetch = (u: any, i: any) => w.fetch(u, i);
      (globalThis as any).fetch = () => w.fail("global-fetch", "the given fetch implementation is not used");
    } else
      // a browser's fetch refuses to be called as a method of anything else
      (globalThis as any).fetch = function (this: any, u: any, i: any) {
        return this === undefined || this === globalThis ? w.fetch(u, i) : Promise.reject(new TypeError("Illegal invocation"));
      };
    const c = new LangfuseBrowserClient(opts);
    const body: any = { name: "n", value: 1, traceId: "t", ...(w.bool("id") ? { id: "my-id" } : {}) };
    const copy = structuredClone(body);
    const p = c.score(body);
    let evId = "", scoreId = "";
    const st = await w.settle(p, (r) => {
      request(w, r, copy, { base: want, headers, env });
      evId = ev(r).id;
      scoreId = ev(r).body.id;
      return a.reply(evId, scoreId);
    });
    (globalThis as any).fetch = gf;
    w.assert(st.done, "hang", "score never settles");
    w.assert(w.reqs.length === 1, "requests", `answer "${a.name}": ${w.reqs.length} requests`);
    w.assert(isDeepStrictEqual(body, copy), "mutated", "the caller's score is modified");
    outcome(w, a, st, evId, scoreId);
  },
});
const fieldScen = (mask: number): Scenario => ({
  name: `fields ${mask}`,
  run: async (w) => {
    const env = w.pick([undefined, "staging"], "environment");
    const c = new LangfuseBrowserClient({ publicKey: PK, baseUrl: "https://lf.test", environment: env } as any);
    const body: any = { name: "n", value: w.pick(VALUES, "value") };
    FIELDS.forEach(([k, v], i) => {
      if (i < 5 ? mask & (1 << i) : w.bool(k)) body[k] = structuredClone(v);
    });
    const copy = structuredClone(body);
    let id = "";
    const st = await w.settle(c.score(body), (r) => {
      request(w, r, copy, { base: "https://lf.test", env });
      id = ev(r).body.id;
      return ANSWERS[0].reply(ev(r).id);
    });
    w.assert(st.ok && st.value.id === id, "result", () => `confirmed score: ${st.ok ? st.value.id : st.error}`);
  },
});
/** one client, several scores one after another: nothing of one reaches the next */
const seqScen = (len: number): Scenario => ({
  name: `${len} scores in sequence`,
  run: async (w) => {
    const env = w.pick([undefined, "staging"], "environment");
    const c = new LangfuseBrowserClient({ publicKey: PK, baseUrl: "https://lf.test", environment: env, additionalHeaders: { "X-Custom": "1", Authorization: "x" } } as any);
    const seen = new Set<string>();
    const answers = ["confirmed", "event error", "500 looks confirmed", "text", "network"].map((n) => ANSWERS.find((a) => a.name === n)!);
    for (let i = 0; i < len; i++) {
      const body: any = w.pick([{ name: "n", value: i, traceId: "t" }, { name: "n", value: "v" + i, sessionId: "s", id: "same", environment: "own", metadata: { i }, comment: "c" + i }, { name: "ü " + i, value: true, observationId: "o", traceId: "t2", dataType: "BOOLEAN" }], "score");
      const a = w.pick(answers, "answer");
      const copy = structuredClone(body);
      let evId = "", scoreId = "";
      const st = await w.settle(c.score(body), (r) => {
        request(w, r, copy, { base: "https://lf.test", headers: { "X-Custom": "1" }, env });
        evId = ev(r).id;
        scoreId = ev(r).body.id;
        return a.reply(evId, scoreId);
      });
      w.assert(w.reqs.length === i + 1, "requests", `score ${i}: ${w.reqs.length} requests`);
      w.assert(!seen.has(evId) && (copy.id !== undefined || !seen.has(scoreId)), "unique", "an id is used twice");
      seen.add(evId);
      if (copy.id === undefined) seen.add(scoreId);
      outcome(w, a, st, evId, scoreId);
    }
  },
});
const BODY_VALUES: Record<string, any[]> = {
  name: ["", " ", "0", "Name with ü \"q\"", "x".repeat(300), "__proto__"],
  id: ["0", " ", "ID", "x".repeat(100)],
  comment: ["", "0", " c ", "x".repeat(1000), "\u2028\u0000"],
  environment: ["", "0", "Prod", "default"],
  metadata: [null, 0, "", "s", [], [1, "1"], { a: undefined, b: null, c: [] }, JSON.parse('{"__proto__":1,"a":{"b":{"c":{"d":[1]}}}}'), Array.from({ length: 120 }, (_, i) => i)],
  traceId: ["", "0", "T"],
  observationId: ["", "0"],
  sessionId: ["", "0", "ü/ 1"],
  dataType: ["NUMERIC", "CATEGORICAL", "BOOLEAN", "TEXT", "CORRECTION"],
  value: VALUES,
  timestamp: ["2020-01-01T00:00:00Z"],
  unknownField: ["kept", 0, null],
};
const valueScen: Scenario = {
  name: "field values",
  run: async (w) => {
    const k = w.pick(Object.keys(BODY_VALUES), "field");
    const env = w.pick([undefined, "staging"], "environment");
    const c = new LangfuseBrowserClient({ publicKey: PK, baseUrl: "https://lf.test", environment: env } as any);
    const body: any = { name: "n", value: 1, [k]: w.pick(BODY_VALUES[k], k) };
    const copy = structuredClone(body);
    let id = "";
    const st = await w.settle(c.score(body), (r) => {
      request(w, r, copy, { base: "https://lf.test", env });
      id = ev(r).body.id;
      return ANSWERS[0].reply(ev(r).id);
    });
    w.assert(st.ok && st.value.id === id, "result", () => `confirmed score: ${st.ok ? st.value.id : st.error}`);
    w.assert(isDeepStrictEqual(body, copy), "mutated", "the caller's score is modified");
  },
};
const concScen = (n: number): Scenario => ({
  name: `${n} concurrent scores`,
  run: async (w) => {
    const c = new LangfuseBrowserClient({ publicKey: PK, baseUrl: "https://lf.test" });
    const sts: any[] = Array.from({ length: n }, () => ({}));
    const used: any[] = [];
    for (let i = 0; i < n; i++) {
      const own = w.bool("own id");
      c.score({ name: "s" + i, value: i, traceId: "t" + i, ...(own ? { id: "id" + i } : {}) } as any).then((v) => (sts[i] = { done: true, ok: true, value: v }), (e) => (sts[i] = { done: true, ok: false, error: e }));
    }
    await w.drain();
    w.assert(w.reqs.length === n, "requests", `${w.reqs.length} requests for ${n} scores`);
    const evs = w.reqs.map((r) => ev(r));
    w.assert(new Set(evs.map((e) => e.id)).size === n && new Set(evs.map((e) => e.body.id)).size === n, "unique", "ids are not unique");
    w.assert(evs.every((e, i) => e.body.name === "s" + i && e.body.value === i), "order", "requests do not carry the scores in call order");
    const alts = ["confirmed", "event error", "other confirmed", "400 json", "network"].map((n) => ANSWERS.findIndex((a) => a.name === n));
    await w.system({
      replies: (r) =>
        alts.map((k) => ({
          name: ANSWERS[k].name,
          reply: () => {
            used[r.id] = ANSWERS[k];
            // "other confirmed" names a concurrent score of this client
            if (ANSWERS[k].name === "other confirmed") return { status: 207, json: { successes: [{ id: evs[(r.id + 1) % n].id, status: 201 }], errors: [] } };
            return ANSWERS[k].reply(evs[r.id].id, evs[r.id].body.id);
          },
        })),
    });
    for (let i = 0; i < n; i++) {
      w.assert(sts[i].done, "hang", `score ${i} never settles`);
      outcome(w, used[i], sts[i], evs[i].id, evs[i].body.id, true);
    }
    w.assert(w.reqs.length === n, "requests", `${w.reqs.length} requests for ${n} scores`);
  },
});
const manyScen: Scenario = {
  name: "many scores at once",
  run: async (w) => {
    const n = w.pick([60, 260], "scores"), order = w.pick(["first", "last", "one by one"], "answered");
    const c = new LangfuseBrowserClient({ publicKey: PK, baseUrl: "https://lf.test" });
    const sts: any[] = [];
    const go = (i: number) => c.score({ name: "n" + i, value: i, traceId: "t" + i } as any).then((v: any) => (sts[i] = { done: true, ok: true, value: v }), (e: any) => (sts[i] = { done: true, ok: false, error: e }));
    const A = [ANSWERS[0], ANSWERS[2], ANSWERS[0], ANSWERS.find((a) => a.name === "400 json")!, ANSWERS.find((a) => a.name === "other confirmed")!];
    const answer = async () => {
      for (;;) {
        await w.drain();
        const p = w.pending;
        if (!p.length) break;
        const r = order === "first" ? p[0] : p[p.length - 1];
        r.reply(A[ev(r).body.value % A.length].reply(ev(r).id, ev(r).body.id));
      }
    };
    for (let i = 0; i < n; i++) {
      go(i);
      if (order === "one by one") await answer();
    }
    await answer();
    w.assert(w.reqs.length === n, "requests", `${w.reqs.length} requests for ${n} scores`);
    const ids = new Set<string>();
    for (const r of w.reqs) {
      const i = ev(r).body.value;
      request(w, r, { name: "n" + i, value: i, traceId: "t" + i }, { base: "https://lf.test" });
      w.assert(sts[i]?.done, "hang", `score ${i} of ${n} never settles`);
      outcome(w, A[i % A.length], sts[i], ev(r).id, ev(r).body.id, true);
      ids.add(ev(r).id);
      ids.add(ev(r).body.id);
    }
    w.assert(ids.size === 2 * n, "id", `${ids.size} different ids for ${n} scores`);
  },
};
const configScen: Scenario = {
  name: "configuration",
  run: async (w) => {
    const pk = w.pick([PK, "", undefined, null], "key") as any;
    const f = w.pick(["global", "own", "none"], "fetch");
    const gf = globalThis.fetch;
    if (f !== "global") (globalThis as any).fetch = undefined;
    let c: any, err: any;
    try {
      c = new LangfuseBrowserClient({ publicKey: pk, baseUrl: "https://lf.test", ...(f === "own" ? { fetch: (u: any, i: any) => w.fetch(u, i) } : {}) } as any);
    } catch (e) {
      err = e;
    } finally {
      (globalThis as any).fetch = gf;
    }
    const valid = pk === PK && f !== "none";
    w.assert(valid === !err, "configuration", () => `publicKey ${JSON.stringify(pk)}, fetch ${f}: ${err ? "rejected" : "accepted"}`);
    if (err) {
      w.assert(err instanceof Error && w.reqs.length === 0, "configuration", "invalid configuration: not an error");
      return;
    }
    const st = await w.settle(c.score({ name: "n", value: 1 }), (r) => ANSWERS[0].reply(ev(r).id));
    w.assert(st.ok, "rejected", () => `valid configuration: ${st.error}`);
  },
};
const badBody: Scenario = {
  name: "unserialisable score",
  run: async (w) => {
    const c = new LangfuseBrowserClient({ publicKey: PK });
    const m: any = {};
    m.m = m;
    const st = await w.settle(c.score({ name: "n", value: 1, metadata: w.pick([m, { b: 10n }], "metadata") } as any), (r) => ANSWERS[0].reply(ev(r).id));
    w.assert(st.done && !st.ok && st.error instanceof Error && w.reqs.length === 0, "unserialisable", "unserialisable score not rejected");
  },
};

/** a field given as undefined is a field not given */
const undef: Scenario = {
  name: "fields given as undefined",
  run: async (w) => {
    const env = w.pick([undefined, "staging"], "environment");
    const c = new LangfuseBrowserClient({ publicKey: PK, baseUrl: "https://lf.test", environment: env, ...(w.bool("options given as undefined") ? { additionalHeaders: undefined, fetch: undefined } : {}) } as any);
    const body: any = { name: "n", value: 1 }, given: any = { ...body };
    for (const f of ["id", "environment", "traceId", "comment", "metadata", "sessionId"]) {
      const k = w.choose(3, `${f}: absent|undefined|given`);
      if (k === 1) body[f] = undefined;
      if (k === 2) body[f] = given[f] = FIELDS.find((x) => x[0] === f)![1];
    }
    let id = "";
    const st = await w.settle(c.score(body), (r) => {
      request(w, r, given, { base: "https://lf.test", env });
      id = ev(r).body.id;
      return ANSWERS[0].reply(ev(r).id);
    });
    w.assert(st.ok && st.value.id === id, "result", () => `confirmed score: ${st.ok ? st.value.id : st.error}`);
  },
};
const def: CheckDef = {
  property: "B01",
  bounds: (t) => `${t}: ${ANSWERS.length} answers x ${BASES.length} addresses x ${HEADERS.length} header sets x environment x own id x own fetch; all 2^${FIELDS.length} subsets of optional score fields x ${VALUES.length} values; every value of a field alphabet; all sequences of ${t === "quick" ? 2 : 3} scores on one client x 5 answers; all completion orders and outcomes of ${t === "quick" ? 3 : 4} concurrent scores`,
  assumptions: ["a null or empty id counts as an id only if given non-null"],
  scenarios: (tier) => {
    const out: Scenario[] = [undef, answerScen(false), answerScen(true), configScen, badBody, valueScen, seqScen(tier === "quick" ? 2 : 3), concScen(2), concScen(3), manyScen];
    for (let m = 0; m < 32; m++) out.push(fieldScen(m));
    if (tier !== "quick") out.push(concScen(4));
    return out;
  },
};
export default def;
