import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { LangfuseMediaReference } from "@langfuse/core";
import { client } from "./lib/prompt";
import { isDeepStrictEqual, inspect } from "node:util";

// ---------------------------------------------------------------- resolveReferences
type M = { id: string; type: string; bytes: number[] };
const MEDIA: Record<string, M> = {
  A: { id: "idA-_1", type: "image/png", bytes: [0, 255, 62, 63] },
  B: { id: "idA-_12", type: "audio/wav", bytes: [1] },
  L: { id: "big", type: "video/mp4", bytes: Array.from({ length: 70_001 }, (_, i) => (i * 31) % 256) },
  Z: { id: "a/b c%", type: "application/pdf", bytes: [] },
};
for (let i = 0; i < 130; i++) MEDIA["N" + i] = { id: "many-" + i, type: "image/png", bytes: [i, 255 - i] };
const refOf = (m: M, source = "bytes", type = m.type) => `@@@langfuseMedia:type=${type}|id=${m.id}|source=${source}@@@`;
const uriOf = (m: M) => `data:${m.type};base64,${Buffer.from(m.bytes).toString("base64")}`;
const TOK: { t: string; m?: string }[] = [
  { t: refOf(MEDIA.A), m: "A" },
  { t: refOf(MEDIA.B, "base64_data_uri"), m: "B" },
  { t: refOf(MEDIA.A, "file", "image/jpeg"), m: "A" },
  { t: refOf(MEDIA.Z), m: "Z" },
  { t: "x$&\n" },
  { t: "@@@langfuseMedia:id=idA-_1|source=bytes@@@" },
  { t: uriOf(MEDIA.A) },
  { t: "{{v}}|" },
];
class Box {
  constructor(public s: string) {}
}
/** expected value: media resolved where the lookup succeeds and the position is within the depth */
function expectVal(v: any, ok: (m: string) => boolean, depth: number, max: number): any {
  if (v instanceof Seq) return v.toks.map((t) => (t.m && depth <= max && ok(t.m) ? uriOf(MEDIA[t.m]) : t.t)).join("");
  if (Array.isArray(v)) return v.map((x) => expectVal(x, ok, depth + 1, max));
  if (v && typeof v === "object" && Object.getPrototypeOf(v) === Object.prototype) return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, expectVal(x, ok, depth + 1, max)]));
  return v;
}
const build = (v: any): any =>
  v instanceof Seq ? v.toks.map((t) => t.t).join("") : Array.isArray(v) ? v.map(build) : v && typeof v === "object" && Object.getPrototypeOf(v) === Object.prototype ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, build(x)])) : v;
class Seq {
  constructor(public toks: { t: string; m?: string }[]) {}
}
const S = (...i: number[]) => new Seq(i.map((k) => TOK[k]));
const nest = (v: any, n: number): any => (n === 0 ? v : n % 2 ? { k: nest(v, n - 1), o: 1 } : [nest(v, n - 1)]);

type Fault = "404" | "500s" | "net" | "c403" | "cnet" | "c404" | "c204";
async function resolveRun(w: World, sym: any, max: number | undefined, mode: { order: boolean; faults: Fault[]; bad?: (m: string) => Fault | "ok"; steps?: number }, c: any = client(w)) {
  const obj = build(sym);
  const before = structuredCloneSafe(obj);
  const st: any = { done: false };
  const params: any = { obj, resolveWith: "base64DataUri" };
  if (max !== undefined) params.maxDepth = max;
  c.media.resolveReferences(params).then((v: any) => Object.assign(st, { done: true, ok: true, v }), (e: any) => Object.assign(st, { done: true, e }));
  // one fate per media: decided when first asked for
  const fate = new Map<string, Fault | "ok">();
  const fateOf = (m: string) => {
    if (!fate.has(m)) fate.set(m, mode.bad ? mode.bad(m) : w.pick(["ok" as const, ...mode.faults], "fate " + m));
    return fate.get(m)!;
  };
  for (let i = 0; i < (mode.steps ?? 200); i++) {
    await w.drain();
    const pend = w.pending;
    if (!pend.length) {
      if (st.done) break;
      if (!w.nextTimer()) break;
      await w.fireNext();
      continue;
    }
    const r = mode.order ? w.pick(pend, "next") : pend[0];
    if (r.path.startsWith("/api/public/media/")) {
      const id = decodeURIComponent(r.path.slice("/api/public/media/".length));
      const m = Object.keys(MEDIA).find((k) => MEDIA[k].id === id);
      w.assert(r.method === "GET" && m, "request", () => `media lookup ${r.method} ${r.url}`);
      const f = fateOf(m!);
      if (f === "404") r.reply({ status: 404, json: { message: "no" } });
      else if (f === "500s") r.reply({ status: 500, json: {} });
      else if (f === "net") r.reply({ error: new TypeError("fetch failed") });
      else r.reply({ status: 200, json: { mediaId: id, contentType: MEDIA[m!].type, contentLength: 4, uploadedAt: "2026-01-01T00:00:00Z", url: `http://store/${m}?sig=a%2Fb`, urlExpiry: "x" } });
    } else {
      w.assert(r.url.startsWith("http://store/") && r.url.endsWith("?sig=a%2Fb"), "request", () => `unexpected request ${r.url}`);
      w.assert(r.headers.authorization === undefined, "credentials", "credentials sent to the storage address");
      const m = r.path.slice(1);
      const f = fateOf(m);
      if (f === "c403") r.reply({ status: 403, text: "denied" });
      else if (f === "c404") r.reply({ status: 404, text: "<xml/>" });
      else if (f === "c204") r.reply({ status: 204, bytes: new Uint8Array([]) });
      else if (f === "cnet") r.reply({ error: new TypeError("fetch failed") });
      else r.reply({ status: 200, bytes: Uint8Array.from(MEDIA[m].bytes) });
    }
  }
  await w.drain();
  w.assert(st.done, "stuck", "resolving references never settles");
  w.assert(st.ok, "rejected", () => `resolving references rejected: ${st.e}`);
  const want = expectVal(sym, (m) => (fate.get(m) ?? "ok") === "ok", 0, max ?? 10);
  w.assert(isDeepStrictEqual(st.v, want), "resolved", () => `resolved to ${inspect(st.v, { depth: 20 })}, expected ${inspect(want, { depth: 20 })}`);
  w.assert(isDeepStrictEqual(obj, before), "mutated", "the argument was modified");
}
function structuredCloneSafe(v: any): any {
  if (Array.isArray(v)) return v.map(structuredCloneSafe);
  if (v && typeof v === "object" && Object.getPrototypeOf(v) === Object.prototype) return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, structuredCloneSafe(x)]));
  return v;
}

// ---------------------------------------------------------------- hydration
type Spot = { field: string; path: string; get: (item: any) => any };
const VALUE = () => ({ a: ["R", "keep", { b: "R" }], "k.x": "R", "it's": { "0": "R", "a]b": "R" }, ["__proto__x"]: "R", n: 1, list: [["R"], "R", ...Array.from({ length: 12 }, (_, i) => "v" + i)], "": { "": "R" }, long: { ["k".repeat(300)]: "R" }, "7": { in: "R" } });
const PATHS: { p: string; at: (string | number)[] | null }[] = [
  { p: "$", at: [] },
  { p: "$['a'][0]", at: ["a", 0] },
  { p: "$['a'][2]['b']", at: ["a", 2, "b"] },
  { p: "$['k.x']", at: ["k.x"] },
  { p: "$['it's']['a]b']", at: ["it's", "a]b"] },
  { p: "$['list'][0][0]", at: ["list", 0, 0] },
  { p: "$['list'][1]", at: ["list", 1] },
  { p: "$['list'][10]", at: ["list", 10] },
  { p: "$['list'][9]", at: ["list", 9] },
  { p: "$['list'][13]", at: ["list", 13] },
  { p: "$['']['']", at: ["", ""] },
  { p: `$['long']['${"k".repeat(300)}']`, at: ["long", "k".repeat(300)] },
  { p: "$[7]['in']", at: ["7", "in"] },
  { p: "$['it's'][0]", at: null }, // all-digit key as leaf: documented as not resolvable
  { p: "$.a.b", at: null },
  { p: "$['nope']['x']", at: null },
  { p: "$['a'", at: null },
  { p: "$['a'][]", at: null },
  { p: "$['a'][0", at: null },
  { p: "$['a'][0x]", at: null },
  { p: "$['a']['b", at: null },
  { p: "$['a'][0]b", at: null },
  { p: "x['a']", at: null },
  { p: "", at: null },
];
const setAt = (v: any, at: (string | number)[], r: any): any => {
  if (at.length === 0) return r;
  const copy = Array.isArray(v) ? [...v] : { ...v };
  copy[at[0] as any] = setAt(v[at[0] as any], at.slice(1), r);
  return copy;
};
async function hydrate(w: World, refs: { field: string; path: (typeof PATHS)[number]; media: boolean }[]) {
  const c = client(w);
  const mk = (n: number) => ({
    id: "it" + n, status: "ACTIVE", input: n === 0 ? VALUE() : "R", expectedOutput: n === 0 ? VALUE() : { plain: "R" }, metadata: n === 0 ? VALUE() : null, sourceTraceId: null, sourceObservationId: null,
    datasetId: "d", datasetName: "ds", createdAt: "2026-01-01T00:00:00Z", updatedAt: "2026-01-01T00:00:00Z",
    mediaReferences: n === 0 ? refs.map((r, i) => ({ field: r.field, jsonPath: r.path.p, referenceString: "REF" + i, media: r.media ? { mediaId: "m" + i, contentType: "image/png", contentLength: 10 + i, url: "http://u/" + i, urlExpiry: "2027-01-01T00:00:00Z", uploadedAt: "2026-01-01T00:00:00Z" } : null })) : n === 1 ? [] : undefined,
  });
  const items = [mk(0), mk(1), mk(2)];
  const r = await w.settle(c.dataset.get("ds"), (rq) =>
    rq.path.startsWith("/api/public/v2/datasets/")
      ? { status: 200, json: { id: "d", name: "ds", description: null, metadata: null, projectId: "p", createdAt: "2026-01-01T00:00:00Z", updatedAt: "2026-01-01T00:00:00Z" } }
      : { status: 200, json: { data: items, meta: { page: 1, limit: 50, totalItems: 3, totalPages: 1 } } },
  );
  w.assert(r.done && r.ok, "rejected", () => `dataset.get failed: ${r.error}`);
  const got = r.value.items;
  // expected
  const want: any = JSON.parse(JSON.stringify(items[0]));
  refs.forEach((rf, i) => {
    if (!rf.media || rf.path.at === null || !["input", "expectedOutput", "metadata"].includes(rf.field)) return;
    want[rf.field] = setAt(want[rf.field], rf.path.at, { $ref: i });
  });
  const strip = (v: any): any => {
    if (v instanceof LangfuseMediaReference) {
      const i = Number(v.mediaId.slice(1));
      w.assert(v.mediaId === "m" + i && v.contentType === "image/png" && v.url === "http://u/" + i && v.urlExpiry === "2027-01-01T00:00:00Z" && v.contentLength === 10 + i && v.referenceString === "REF" + i, "ref-content", () => `media reference with wrong content ${inspect(v)}`);
      return { $ref: i };
    }
    if (Array.isArray(v)) return v.map(strip);
    if (v && typeof v === "object") return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, strip(x)]));
    return v;
  };
  w.assert(got.length === 3, "items", "items lost");
  for (const k of ["input", "expectedOutput", "metadata"]) {
    w.assert(isDeepStrictEqual(strip(got[0][k]), want[k]), "hydrated", () => `${k}: ${inspect(strip(got[0][k]), { depth: 9 })}, expected ${inspect(want[k], { depth: 9 })}`);
    for (const n of [1, 2]) w.assert(isDeepStrictEqual(got[n][k], JSON.parse(JSON.stringify(items[n]))[k]), "other-item", "an item without listed media was changed");
  }
  for (const k of ["id", "datasetId", "status"]) w.assert(got[0][k] === want[k], "item-field", `${k} changed`);
}

/** media of several items on several pages: each item gets its own */
const pages: Scenario = {
  name: "hydrate items on pages",
  run: async (w) => {
    const c = client(w);
    const n = 1 + w.choose(4, "n");
    const size = 1 + w.choose(3, "size");
    const mask = Array.from({ length: n }, () => w.choose(3, "refs"));
    const items = mask.map((m, i) => ({
      id: "it" + i, status: "ACTIVE", input: { a: ["R", "R"] }, expectedOutput: "R", metadata: { a: ["R", "R"] }, datasetId: "d", datasetName: "ds", createdAt: "2026-01-01T00:00:00Z", updatedAt: "2026-01-01T00:00:00Z",
      mediaReferences: Array.from({ length: m }, (_, k) => ({ field: k ? "metadata" : "input", jsonPath: `$['a'][${k}]`, referenceString: `REF${i}.${k}`, media: { mediaId: `m${i}.${k}`, contentType: "image/png", url: `http://u/${i}.${k}`, urlExpiry: "x", contentLength: 1 } })),
    }));
    const r = await w.settle(c.dataset.get("ds", { fetchItemsPageSize: size }), (rq) => {
      if (rq.path.startsWith("/api/public/v2/datasets/")) return { status: 200, json: { id: "d", name: "ds" } };
      const p = Number(rq.query.get("page"));
      return { status: 200, json: { data: items.slice((p - 1) * size, p * size), meta: { page: p, limit: size, totalItems: n, totalPages: Math.ceil(n / size) } } };
    });
    w.assert(r.done && r.ok, "rejected", () => `dataset.get failed: ${r.error}`);
    r.value.items.forEach((it: any, i: number) => {
      const id = (v: any) => (v instanceof LangfuseMediaReference ? `${v.mediaId} ${v.referenceString} ${v.url}` : v);
      const wantAt = (k: number) => (mask[i] > k ? `m${i}.${k} REF${i}.${k} http://u/${i}.${k}` : "R");
      const got = [it.input.a.map(id), it.metadata.a.map(id), id(it.expectedOutput)];
      w.assert(isDeepStrictEqual(got, [[wantAt(0), "R"], ["R", wantAt(1)], "R"]), "hydrated", () => `item ${i}: ${JSON.stringify(got)}`);
    });
  },
};

const def: CheckDef = {
  property: "D03",
  bounds: (t) => `all strings of up to ${t === "quick" ? 3 : 4} tokens over 8 (references, repeated ids, invalid references, other text), all listed container shapes and depth limits 0..12, every fate per media (ok and 7 failure kinds) and all completion orders of up to 3 references; hydration: all pairs of listed positions over ${PATHS.length} paths x 4 fields`,
  assumptions: ["depth counts from 0 at the value itself; a position is in range when its depth is at most maxDepth (default 10)"],
  scenarios: (tier) => {
    const out: Scenario[] = [];
    const ALLF: Fault[] = ["404", "500s", "net", "c403", "cnet", "c404", "c204"];
    for (let a = 0; a < TOK.length; a++)
      out.push({
        name: `string starting with token ${a}`,
        run: async (w) => {
          const toks = [a];
          const n = tier === "quick" ? 3 : 4;
          for (let i = 1; i < n; i++) {
            const k = w.choose(TOK.length + 1, "tok");
            if (k === TOK.length) break;
            toks.push(k);
          }
          await resolveRun(w, S(...toks), undefined, { order: false, faults: toks.length <= 2 ? ALLF : ["404", "c403"] });
        },
      });
    const shapes: [string, () => any][] = [
      ["array", () => [S(0), S(4), S(1)]],
      ["object", () => ({ a: S(0), b: { c: S(1) }, d: null, e: 3, f: undefined, g: true })],
      ["same twice", () => ({ a: S(0), b: [S(0), S(4, 0)] })],
      ["date", () => ({ d: new Date(0), r: S(0) })],
      ["map/class/bytes", () => [new Map([["k", "v"]]), new Box("q"), Uint8Array.from([1, 2]), S(1)]],
      ["empty", () => ({ a: [], b: {}, c: "", d: S(0) })],
      ["proto key", () => JSON.parse('{"__proto__x":{"constructor":"a"},"length":3}')],
      ["many", () => ({ l: Array.from({ length: 12 }, (_, i) => (i === 11 ? S(0) : i === 10 ? S(1, 4) : i % 2 ? "p" + i : S(4))) })],
      ["odd keys", () => ({ "": S(0), "a.b": S(1), length: S(0), then: 1, "0": [S(1)] })],
      ["falsy", () => [0, "", false, null, undefined, S(0), NaN, -0]],
      ["big", () => ({ v: new Seq([{ t: refOf(MEDIA.L), m: "L" }, TOK[4]]) })],
      ["frozen", () => Object.freeze([Object.freeze({ a: S(0) })])],
      ["root null", () => null],
      ["root number", () => 5],
      ["three", () => [S(0, 1), { x: S(3) }]],
    ];
    for (const [n, v] of shapes) {
      out.push({ name: "shape " + n, run: (w) => resolveRun(w, v(), undefined, { order: false, faults: ALLF }) });
      out.push({ name: "orders " + n, run: (w) => resolveRun(w, v(), undefined, { order: true, faults: ["404", "cnet"] }) });
    }
    out.push({
      name: "depth",
      run: async (w) => {
        const max = w.pick([undefined, 0, 1, 2, 3, 5, 10, 12], "max");
        const d = w.choose(14, "depth");
        await resolveRun(w, { r: S(1), n: nest(S(0, 4), d) }, max, { order: false, faults: [] });
      },
    });
    out.push({
      name: "many references",
      run: async (w) => {
        const n = w.pick([11, 60, 130], "references");
        const tok = (i: number) => ({ t: refOf(MEDIA["N" + i]), m: "N" + i });
        const all = Array.from({ length: n }, (_, i) => tok(i));
        const v = w.pick([() => all.map((t) => new Seq([t])), () => new Seq(all.flatMap((t) => [t, TOK[7]])), () => ({ o: Object.fromEntries(all.map((t, i) => ["k" + i, new Seq([TOK[4], t])])) })], "shape")();
        const every = w.pick([0, 2, 7], "failing");
        await resolveRun(w, v, undefined, { order: false, faults: [], steps: 4000, bad: (m) => (every && Number(m.slice(1)) % every === 0 ? (Number(m.slice(1)) % 2 ? "404" : "c403") : "ok") });
      },
    });
    out.push({
      name: "hydrate many",
      run: async (w) => {
        const n = w.pick([11, 101, 300], "references");
        const c = client(w);
        const input = { a: Array.from({ length: n }, (_, i) => (i % 2 ? { x: "R" } : "R")) };
        const refs = Array.from({ length: n }, (_, i) => ({ field: "input", jsonPath: `$['a'][${i}]${i % 2 ? "['x']" : ""}`, referenceString: "REF" + i, media: { mediaId: "m" + i, contentType: "image/png", contentLength: 1, url: "http://u/" + i, urlExpiry: "x" } }));
        const r = await w.settle(c.dataset.get("ds"), (rq) => (rq.path.startsWith("/api/public/v2/datasets/") ? { status: 200, json: { id: "d", name: "ds" } } : { status: 200, json: { data: [{ id: "i", datasetId: "d", datasetName: "ds", input, mediaReferences: w.bool("last first") ? refs.reverse() : refs }], meta: { page: 1, limit: 50, totalItems: 1, totalPages: 1 } } }));
        w.assert(r.done && r.ok, "rejected", () => `dataset.get failed: ${r.error}`);
        r.value.items[0].input.a.forEach((x: any, i: number) => {
          const v = i % 2 ? x.x : x;
          w.assert(v instanceof LangfuseMediaReference && v.mediaId === "m" + i && v.referenceString === "REF" + i, "hydrated", () => `position ${i} of ${n} holds ${inspect(v)}`);
        });
      },
    });
    // a media that could not be fetched once is fetched when asked for again
    out.push({
      name: "resolve again",
      run: async (w) => {
        const c = client(w);
        const sym = [S(0), { k: S(4, 1) }];
        await resolveRun(w, sym, undefined, { order: false, faults: ALLF }, c);
        if (w.bool("later")) w.skip(3_600_000);
        await resolveRun(w, w.bool("swap") ? [S(1), S(0, 0)] : sym, undefined, { order: false, faults: [], bad: () => "ok" }, c);
      },
    });
    out.push(pages);
    const F = ["input", "expectedOutput", "metadata", "somethingNew"];
    for (const f of F)
      out.push({
        name: `hydrate ${f}`,
        run: async (w) => {
          const one = { field: f, path: w.pick(PATHS, "path"), media: !w.bool("media null") };
          const k = w.choose(3, "more");
          const refs = [one];
          for (let i = 0; i < k && i < (tier === "quick" ? 1 : 2); i++) refs.push({ field: w.pick(F, "field"), path: w.pick(PATHS, "path"), media: !w.bool("media null") });
          if (k === 2 && tier === "quick") return;
          // a root reference swallows deeper positions of the same field: the server never lists both
          for (const f2 of F) {
            const ps = refs.filter((r) => r.field === f2).map((r) => r.path.p);
            if (ps.includes("$") && ps.length > 1) return;
            if (new Set(ps).size !== ps.length) return;
          }
          await hydrate(w, refs);
        },
      });
    return out;
  },
};
export default def;
