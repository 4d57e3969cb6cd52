import type { CheckDef, Scenario, World } from "../mc/engine";
import { isDeepStrictEqual } from "node:util";
import { ENDPOINTS, mk, call, sample, urlPath, expectedQuery, values, LONG, AUTH, type Endpoint } from "./lib/api";

const NAMES = ["plain", "a/b", "a b", "a%2Fb", "ä/ü", "a?b=c", "a#b", "a+b", "a&b", "..x", "{id}", "\ud83d\ude00", "a\\b", "a:b", "a'b(c)*!~", " lead ", "100%", "%41", "a,b;c=d@e$f", "Case", "0", "__proto__", "t\tn\n", "null", "-", "folder/sub/deep", LONG];
const BODIES: any[] = [
  { k: 1 },
  {},
  { s: "ü\ud83d\ude00 \"q\" \\ \n</x>", n: -1.5e21, t: true, f: false, z: null, e: "", zero: 0, nested: { deep: [[{ a: [] }]], keys: { "a.b": 1, "__x": 2 } } },
  { undef: undefined, arr: [1, "2", null] },
  { big: Array.from({ length: 150 }, (_, i) => ({ i, s: "v" + i, n: null })), long: LONG, empty: [{}, [], "", 0, false, null] },
  JSON.parse('{"__proto__":{"a":1},"constructor":"c","toString":"t","":"e"," s ":1,"1":2,"A":1,"a":2}'),
  { date: new Date(1700000000123), iso: "2024-01-01T00:00:00.000Z", dateLike: "2024-01-01", num: "007", html: "<b>&amp;", ls: "\u2028\u2029\u0000", tiny: 5e-324, neg0: 0, max: Number.MAX_SAFE_INTEGER },
  { id: "x", name: "n", traceId: "t", value: 0, metadata: null, tags: ["b", "a", "b", ""], config: { temperature: 0, stop: [] } },
];
const BASES = ["https://lf.test", "https://lf.test/", "https://lf.test/sub/path", "http://localhost:3000/x/"];

async function sent(w: World, e: Endpoint, client: any, a: any) {
  const st = await w.settle(call(client, e, a), () => ({ status: 200, json: { answer: [1, { a: null }] } }));
  w.assert(w.reqs.length === 1, "requests", `${e.at}: ${w.reqs.length} requests`);
  w.assert(st.ok, "failed", () => `${e.at} with ${JSON.stringify(a)}: rejected with ${st.error}`);
  w.assert(isDeepStrictEqual(st.value, e.void ? undefined : { answer: [1, { a: null }] }), "result", () => `${e.at}: resolved with ${JSON.stringify(st.value)}`);
  const r = w.reqs[0];
  w.assert(r.headers["authorization"] === AUTH, "auth", `${e.at}: authorization ${r.headers["authorization"]}`);
  w.assert(r.method === e.method, "method", `${e.at}: sent ${r.method}, expected ${e.method}`);
  return r;
}
function query(w: World, e: Endpoint, r: any, given: Record<string, any>) {
  const want: Record<string, string[]> = {};
  for (const [k, v] of Object.entries(given)) if (v !== undefined && v !== null && !(Array.isArray(v) && !v.length)) want[k] = expectedQuery(v);
  const got: Record<string, string[]> = {};
  for (const [k, v] of r.query) (got[k] ??= []).push(v);
  w.assert(isDeepStrictEqual(Object.entries(got).sort(), Object.entries(want).sort()), "query", () => `${e.at}: given ${JSON.stringify(given)}, sent query ${JSON.stringify(got)}`);
}

const pathScen = (e: Endpoint): Scenario => ({
  name: `path ${e.at}`,
  run: async (w) => {
    const base = w.pick(BASES, "base");
    const params = e.pathParams.map((p) => (e.numeric.includes(p) ? w.pick([1, 42], p) : w.pick(NAMES, p)));
    const r = await sent(w, e, mk({ baseUrl: w.bool("supplier") ? async () => base : base }), { params });
    const u = new URL(r.url);
    const want = new URL(base).origin + new URL(base).pathname.replace(/\/$/, "") + urlPath(e, params);
    w.assert(u.origin + u.pathname === new URL(want).origin + new URL(want).pathname && u.hash === "", "address", () => `${e.at}(${params.join(", ")}) at ${base}: sent to ${r.url}, expected ${want}`);
  },
});
const queryScen = (e: Endpoint, max: number): Scenario => ({
  name: `query ${e.at}`,
  run: async (w) => {
    const keys = Object.keys(e.query);
    const given: Record<string, any> = Object.fromEntries(e.required.map((k) => [k, sample(e.query[k])]));
    // all pairs of optional fields (or all of them), each present with two values or null/undefined
    const mode = w.choose(3, "all or few");
    if (mode === 2) {
      // one field, every value (alone, or with all the others)
      const others = w.bool("with all others");
      const k = w.pick(keys, "field");
      if (others) for (const o of keys) given[o] = sample(e.query[o]);
      given[k] = w.pick(values(e.query[k]), k);
    } else if (mode === 0) {
      const alt = w.choose(2, "alt");
      for (const k of keys) given[k] = sample(e.query[k], alt);
    } else {
      let from = 0;
      for (let n = 0; n < max && from < keys.length; n++) {
        const c = w.choose(keys.length - from + 1, "field");
        if (c === keys.length - from) break;
        const k = keys[from + c];
        from += c + 1;
        const v = w.choose(e.required.includes(k) ? 2 : 4, k);
        given[k] = v < 2 ? sample(e.query[k], v) : v === 2 ? undefined : null;
      }
    }
    const copy = structuredClone(given);
    const r = await sent(w, e, mk(), { query: given });
    w.assert(r.path === urlPath(e), "address", () => `${e.at}: sent to ${r.path}`);
    w.assert(r.body === undefined || r.body === null, "body", `${e.at}: sends a body`);
    query(w, e, r, copy);
    w.assert(isDeepStrictEqual(given, copy), "mutated", `${e.at}: changes the caller's request`);
  },
});
const bodyScen = (e: Endpoint): Scenario => ({
  name: `body ${e.at}`,
  run: async (w) => {
    const body = structuredClone(w.pick(BODIES, "body"));
    const copy = structuredClone(body);
    const r = await sent(w, e, mk(), { body });
    w.assert(r.path === urlPath(e), "address", () => `${e.at}: sent to ${r.path}`);
    w.assert(typeof r.body === "string" && isDeepStrictEqual(r.json, JSON.parse(JSON.stringify(copy))), "body", () => `${e.at}: given ${JSON.stringify(copy)}, sent ${r.body}`);
    w.assert(/^application\/json/.test(r.headers["content-type"] ?? ""), "content-type", `${e.at}: content type ${r.headers["content-type"]}`);
    query(w, e, r, {});
    w.assert(isDeepStrictEqual(body, copy), "mutated", `${e.at}: changes the caller's request`);
  },
});
/** per-call and per-client header/query options reach the request */
const optScen = (e: Endpoint): Scenario => ({
  name: `options ${e.at}`,
  run: async (w) => {
    const clientHeaders = w.pick([undefined, { "X-A": "client", "X-B": "b" }, { "X-A": () => "client" }], "client headers");
    const callHeaders = w.pick([undefined, { "X-A": "call" }, { "X-A": null }, { "X-C": async () => "c" }], "call headers") as any;
    const qp = w.pick([undefined, { extra: "1 2" }], "query params") as any;
    const options = { ...(callHeaders ? { headers: callHeaders } : {}), ...(qp ? { queryParams: qp } : {}) };
    const r = await sent(w, e, mk({ headers: clientHeaders }), { options });
    const a = callHeaders && "X-A" in callHeaders ? callHeaders["X-A"] : clientHeaders ? "client" : null;
    w.assert((r.headers["x-a"] ?? null) === a, "headers", () => `${e.at}: X-A is ${r.headers["x-a"]}, expected ${a}`);
    w.assert((r.headers["x-b"] ?? null) === (clientHeaders && "X-B" in clientHeaders ? "b" : null), "headers", `${e.at}: X-B is ${r.headers["x-b"]}`);
    w.assert((r.headers["x-c"] ?? null) === (callHeaders && "X-C" in callHeaders ? "c" : null), "headers", `${e.at}: X-C is ${r.headers["x-c"]}`);
    w.assert(r.headers["x-langfuse-public-key"] === "pk" && r.headers["x-langfuse-sdk-name"] === "javascript", "headers", () => `${e.at}: identification headers ${JSON.stringify(r.headers)}`);
    if (qp) w.assert(r.query.get("extra") === "1 2", "query", `${e.at}: additional query parameter lost: ${r.url}`);
  },
});

/** several calls on one client: nothing of one call reaches another */
const seqScen = (e: Endpoint): Scenario => ({
  name: `sequence ${e.at}`,
  run: async (w) => {
    const clientHeaders = { "X-A": "client" };
    const c = mk({ headers: clientHeaders });
    const conc = w.bool("concurrent");
    const n = 3;
    const calls = Array.from({ length: n }, (_, i) => {
      const withOpts = w.bool("options");
      const params = e.pathParams.map((p) => (e.numeric.includes(p) ? i + 1 : `p ${i}`));
      const query = !e.body && Object.keys(e.query).length ? (withOpts ? Object.fromEntries(Object.entries(e.query).map(([k, v]) => [k, values(v)[i % values(v).length]])) : Object.fromEntries(e.required.map((k) => [k, sample(e.query[k])]))) : undefined;
      const body = e.body ? { call: i, ...(withOpts ? { extra: i } : {}) } : undefined;
      const options = withOpts ? { headers: { "X-A": "call" + i, ["X-Own" + i]: "1" }, queryParams: { ["own" + i]: "v" } } : conc ? { headers: {} as any } : undefined;
      if (conc) options!.headers["X-Id"] = String(i);
      return { withOpts, params, query, body, options };
    });
    const copies = structuredClone(calls);
    const check = (i: number, r: any) => {
      const k = copies[i];
      w.assert(r.method === e.method && r.path === urlPath(e, k.params), "address", () => `${e.at}: call ${i} sent ${r.method} ${r.path}`);
      w.assert(r.headers["authorization"] === AUTH, "auth", () => `${e.at}: call ${i} authorization ${r.headers["authorization"]}`);
      w.assert(r.headers["x-a"] === (k.withOpts ? "call" + i : "client"), "headers", () => `${e.at}: call ${i} X-A ${r.headers["x-a"]}`);
      for (let j = 0; j < n; j++) w.assert((r.headers["x-own" + j] === "1") === (j === i && k.withOpts), "headers", () => `${e.at}: call ${i} header of call ${j}: ${r.headers["x-own" + j]}`);
      query(w, e, r, { ...k.query, ...(k.withOpts ? { ["own" + i]: "v" } : {}) });
      if (e.body) w.assert(isDeepStrictEqual(r.json, k.body), "body", () => `${e.at}: call ${i} sent ${r.body}`);
    };
    const answer = (i: number) => ({ answer: i });
    const idx = (r: any) => w.reqs.indexOf(r);
    const done = (i: number, v: any) => w.assert(isDeepStrictEqual(v, e.void ? undefined : answer(i)), "result", () => `${e.at}: call ${i} resolved with ${JSON.stringify(v)}`);
    if (conc) {
      const st = await w.settle(Promise.all(calls.map((a) => call(c, e, a))), (r) => ({ status: 200, json: answer(idx(r)) }));
      w.assert(st.ok, "failed", () => `${e.at}: ${st.error}`);
      w.assert(w.reqs.length === n, "requests", `${e.at}: ${w.reqs.length} requests for ${n} calls`);
      // requests of concurrent calls are told apart by their content
      const order = w.reqs.map((r) => Number(r.headers["x-id"]));
      w.assert(isDeepStrictEqual([...order].sort(), [0, 1, 2]), "requests", () => `${e.at}: concurrent requests carry the ids ${order}`);
      w.reqs.forEach((r, at) => check(order[at], r));
      order.forEach((i, at) => w.assert(isDeepStrictEqual(st.value[i], e.void ? undefined : answer(at)), "result", () => `${e.at}: call ${i} got another call's answer`));
    } else
      for (let i = 0; i < n; i++) {
        const st = await w.settle(call(c, e, calls[i]), (r) => ({ status: 200, json: answer(idx(r)) }));
        w.assert(st.ok, "failed", () => `${e.at}: ${st.error}`);
        w.assert(w.reqs.length === i + 1, "requests", `${e.at}: ${w.reqs.length} requests for ${i + 1} calls`);
        check(i, w.reqs[i]);
        done(i, st.value);
      }
    w.assert(isDeepStrictEqual(calls, copies) && isDeepStrictEqual(clientHeaders, { "X-A": "client" }), "mutated", `${e.at}: changes the caller's arguments`);
  },
});

const def: CheckDef = {
  property: "C03",
  bounds: (t) => `${t}: all ${ENDPOINTS.length} API methods x (all combinations of ${NAMES.length} path parameter values x ${BASES.length} base addresses; every set of up to ${t === "quick" ? 2 : 3} query fields and the full set with two values each or null/undefined; one field with every one of 2..23 values, alone and with all others; ${BODIES.length} body shapes; three sequential or concurrent calls on one client with and without options; client/call header and query options)`,
  assumptions: ["path parameters are non-empty and not . or .. (such paths are not expressible in URLs)", "the endpoint table was taken from the API definition: documented example, request type and named endpoint agree for all methods"],
  scenarios: (tier) => {
    const out: Scenario[] = [];
    for (const e of ENDPOINTS) {
      out.push(pathScen(e), optScen(e), seqScen(e));
      if (Object.keys(e.query).length) out.push(queryScen(e, tier === "quick" ? 2 : 3));
      if (e.body) out.push(bodyScen(e));
    }
    return out;
  },
};
export default def;
