import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { client } from "./lib/prompt";
import { isDeepStrictEqual } from "node:util";

const NAMES = ["ds", "a/b", "a b", "100%", "a%2Fb", "\u00e9\u4e2d", "a?b=c&d", "x#y", "a+b", "'q'\"", " a", "a ", "a/", "/a", "..a", "A", "\ud83d\ude00", "n".repeat(300), "a\\b", "constructor", "0"];
const VERSION = "2026-01-21T14:35:42Z";

function item(i: number, name: string) {
  const IN: any[] = [{ q: i }, 0, "", false, null, [], {}, "same", "same", [[i]], { a: { b: null } }, "L".repeat(300)];
  return { id: i % 5 === 4 ? `item ${i}/x` : `item-${i}`, status: i % 4 === 3 ? "ARCHIVED" : "ACTIVE", input: IN[i % IN.length], expectedOutput: i % 2 ? "out" + i : i % 4 === 0 ? 0 : null, metadata: i % 3 ? { m: i } : null, sourceTraceId: null, sourceObservationId: null, datasetId: "d1", datasetName: name, createdAt: "2026-01-01T00:00:00.000Z", updatedAt: "2026-01-02T00:00:00.000Z" };
}
type Fault = "400" | "404" | "net" | "503x3" | "503x1" | "429x2";

const DS: any[] = [
  { description: "d", metadata: { a: 1 } },
  { description: null, metadata: null },
  { description: "", metadata: { n: { l: [1, null] } } },
  { metadata: {} },
  { description: " d\n", metadata: [] },
  { description: "d", metadata: "text" },
  { metadata: 0 },
];
function server(w: World, name: string, n: number, version: string | undefined, seen: { ds: number; pages: number[]; limits: Set<number> }, opt: { cap?: number; sizes?: number[]; ds?: any } = {}) {
  return (r: Req): Reply => {
    const m = /^\/api\/public\/v2\/datasets\/([^/]*)$/.exec(r.path);
    w.assert(r.method === "GET", "request", `unexpected ${r.method}`);
    if (m) {
      w.assert(decodeURIComponent(m[1]) === name, "request", () => `asked for dataset ${JSON.stringify(decodeURIComponent(m[1]))} instead of ${JSON.stringify(name)}`);
      seen.ds++;
      return { status: 200, json: { id: "d1", name, ...(opt.ds ?? DS[0]), inputSchema: null, expectedOutputSchema: null, projectId: "p", createdAt: "2026-01-01T00:00:00.000Z", updatedAt: "2026-01-01T00:00:00.000Z" } };
    }
    w.assert(r.path === "/api/public/dataset-items", "request", `unexpected request ${r.url}`);
    w.assert(r.query.get("datasetName") === name, "request", () => `items of ${JSON.stringify(r.query.get("datasetName"))} instead of ${JSON.stringify(name)}`);
    w.assert(r.query.get("version") === (version ?? null), "request", () => `version ${r.query.get("version")} instead of ${version}`);
    const limit = Number(r.query.get("limit")), page = Number(r.query.get("page"));
    w.assert(Number.isInteger(limit) && limit >= 1 && Number.isInteger(page) && page >= 1, "request", `page ${page} limit ${limit}`);
    seen.pages.push(page);
    seen.limits.add(limit);
    const all = Array.from({ length: n }, (_, i) => item(i, name));
    if (opt.sizes) {
      // pages of given sizes (items the server does not show leave pages short)
      const from = opt.sizes.slice(0, page - 1).reduce((a, b) => a + b, 0);
      return { status: 200, json: { data: all.slice(from, from + (opt.sizes[page - 1] ?? 0)), meta: { page, limit, totalItems: opt.sizes.length * limit, totalPages: opt.sizes.length } } };
    }
    const eff = Math.min(limit, opt.cap ?? Infinity);
    const data = all.slice((page - 1) * eff, page * eff);
    return { status: 200, json: { data, meta: { page, limit: eff, totalItems: n, totalPages: Math.ceil(n / eff) } } };
  };
}

async function run(w: World, name: string, n: number, pageSize: number | undefined, version: string | undefined, fault: { at: number; kind: Fault } | null, opt: { cap?: number; sizes?: number[]; ds?: any } = {}) {
  const c = client(w);
  const seen = { ds: 0, pages: [] as number[], limits: new Set<number>() };
  const srv = server(w, name, n, version, seen, opt);
  let k = 0; // logical request index (retries of one request share it)
  let left = fault ? (fault.kind === "503x3" ? 3 : fault.kind === "429x2" ? 2 : 1) : 0;
  const opts: any = {};
  if (pageSize !== undefined) opts.fetchItemsPageSize = pageSize;
  if (version !== undefined) opts.version = version;
  let final = false;
  const res = await w.settle(
    c.dataset.get(name, Object.keys(opts).length ? opts : undefined),
    (r) => {
      if (fault && k === fault.at && left > 0) {
        left--;
        if (fault.kind === "net") {
          final = true;
          return { error: new TypeError("fetch failed") };
        }
        const st = parseInt(fault.kind);
        if (fault.kind === "400" || fault.kind === "404" || (fault.kind === "503x3" && left === 0)) final = true;
        return { status: st, json: { message: "x" } };
      }
      k++;
      return srv(r);
    },
  );
  w.assert(res.done, "stuck", "loading the dataset never settles");
  if (final) {
    w.assert(!res.ok, "partial", () => `request ${fault!.at} failed (${fault!.kind}) but the call resolved with ${res.value?.items?.length} items`);
    return;
  }
  w.assert(res.ok, "rejected", () => `loading rejected: ${res.error}`);
  const ds = res.value;
  const want = Array.from({ length: n }, (_, i) => item(i, name));
  const got = ds.items.map(({ link, ...x }: any) => x);
  w.assert(got.length === n, "items", () => `${got.length} items returned, the dataset has ${n} (page size ${pageSize})`);
  w.assert(isDeepStrictEqual(got, want), "items", "items differ from the server's or are out of order");
  w.assert(ds.id === "d1" && ds.name === name && isDeepStrictEqual(ds.description, (opt.ds ?? DS[0]).description) && isDeepStrictEqual(ds.metadata, (opt.ds ?? DS[0]).metadata) && ds.projectId === "p" && ds.inputSchema === null && ds.createdAt === "2026-01-01T00:00:00.000Z", "fields", () => `dataset fields changed: ${JSON.stringify({ ...ds, items: undefined })}`);
  const pages = Math.max(1, opt.sizes ? opt.sizes.length : Math.ceil(n / Math.min(opt.cap ?? Infinity, pageSize ?? [...seen.limits][0])));
  w.assert(seen.limits.size === 1 && (pageSize === undefined || seen.limits.has(pageSize)), "pages", `page sizes ${[...seen.limits]}`);
  w.assert(isDeepStrictEqual(seen.pages.slice().sort((a, b) => a - b), Array.from({ length: pages }, (_, i) => i + 1)), "pages", () => `pages requested ${seen.pages}, expected 1..${pages}`);
  w.assert(ds.version === version, "fields", `version ${ds.version}`);
}

/** two loads at once: each gets its own dataset */
const concurrent: Scenario = {
  name: "concurrent loads",
  run: async (w) => {
    const c = client(w);
    const specs = [
      { name: "one", n: w.pick([0, 1, 3, 5], "n1"), version: w.bool("v1") ? VERSION : undefined },
      { name: w.pick(["one", "ONE", "two"], "name2"), n: w.pick([2, 4], "n2"), version: undefined as string | undefined },
    ];
    const same = specs[1].name === "one";
    if (same) specs[1].n = specs[0].n;
    const st = specs.map((s) => {
      const r: any = {};
      c.dataset.get(s.name, { fetchItemsPageSize: 2, ...(s.version ? { version: s.version } : {}) }).then(
        (v: any) => (r.v = v),
        (e: any) => (r.e = e),
      );
      return r;
    });
    for (;;) {
      await w.drain();
      const pend = w.pending;
      if (!pend.length) break;
      const r = pend[w.choose(pend.length, "next")];
      const m = /^\/api\/public\/v2\/datasets\/([^/]*)$/.exec(r.path);
      const name = m ? decodeURIComponent(m[1]) : r.query.get("datasetName");
      const s = specs.find((x) => x.name === name);
      w.assert(s, "request", `request for dataset ${name}`);
      const version = m ? undefined : (r.query.get("version") ?? undefined);
      if (!m) w.assert(specs.some((x) => x.name === name && x.version === version), "request", `items of ${name} version ${version} were not asked for`);
      r.reply(server(w, name!, s!.n, version, { ds: 0, pages: [], limits: new Set() })(r));
    }
    specs.forEach((s, i) => {
      w.assert(st[i].v, "rejected", () => `loading rejected: ${st[i].e}`);
      const got = st[i].v.items.map(({ link, ...x }: any) => x);
      w.assert(st[i].v.name === s.name && isDeepStrictEqual(got, Array.from({ length: s.n }, (_, k) => item(k, s.name))), "items", () => `concurrent load of ${s.name} (${s.n} items) returned ${got.length} items of ${[...new Set(got.map((x: any) => x.datasetName))]}`);
    });
  },
};

/** successive loads through one client: each shows what the server has at that time */
const successive: Scenario = {
  name: "successive loads",
  run: async (w) => {
    const c = client(w);
    for (let k = 0; k < 3; k++) {
      const name = w.pick(["ds", "DS"], "name"), n = w.pick([0, 1, 3], "n"), ds = w.pick([DS[0], DS[1], DS[2]], "fields");
      const version = k === 1 && w.bool("version") ? VERSION : undefined;
      const fail = k < 2 && w.bool("fails");
      const srv = server(w, name, n, version, { ds: 0, pages: [], limits: new Set() }, { ds: { ...ds, id: "d1" } });
      const res = await w.settle(c.dataset.get(name, { fetchItemsPageSize: 2, ...(version ? { version } : {}) }), (r) => (fail ? { status: 404, json: { message: "x" } } : srv(r)));
      w.assert(res.done && res.ok === !fail, "outcome", () => `load ${k}: ${res.ok ? "resolved" : res.error}`);
      if (fail) continue;
      const got = res.value.items.map(({ link, ...x }: any) => x);
      w.assert(isDeepStrictEqual(got, Array.from({ length: n }, (_, i) => item(i, name))), "items", () => `load ${k} returned ${got.length} items, the server has ${n}`);
      w.assert(res.value.name === name && isDeepStrictEqual(res.value.description, ds.description) && isDeepStrictEqual(res.value.metadata, ds.metadata) && res.value.version === version, "fields", () => `load ${k}: dataset fields ${JSON.stringify({ ...res.value, items: undefined })}, the server has ${JSON.stringify(ds)}`);
    }
  },
};

const def: CheckDef = {
  property: "D01",
  bounds: (t) => `all item counts 0..${t === "quick" ? 9 : 14} x page sizes 1..${t === "quick" ? 6 : 9} and default-page-size boundaries (49..51, 99..101), x version given or not; every position of a failing request (6 fault kinds); ${NAMES.length} adversarial names; all sequences of 3 loads of 2 datasets through one client`,
  assumptions: ["the server implements limit/page/totalPages consistently and the dataset does not change while loading"],
  scenarios: (tier) => {
    const N = tier === "quick" ? 9 : 14, S = tier === "quick" ? 6 : 9;
    const out: Scenario[] = [];
    for (let s = 1; s <= S; s++)
      out.push({ name: `page size ${s}`, run: async (w) => run(w, "ds", w.choose(N + 1, "n"), s, w.bool("version") ? VERSION : undefined, null) });
    out.push({ name: "default page size", run: async (w) => run(w, "ds", w.pick([0, 1, 49, 50, 51, 99, 100, 101, 150], "n"), undefined, w.bool("version") ? VERSION : undefined, null) });
    out.push({ name: "large page size", run: async (w) => run(w, "ds", w.pick([0, 1, 5], "n"), w.pick([50, 100], "size"), undefined, null) });
    out.push({ name: "many items", run: async (w) => { const [n, s] = w.pick([[120, 1], [1050, 1], [1050, 10], [1001, 100], [2600, undefined], [10001, 100]] as [number, number | undefined][], "items, page size"); await run(w, "ds", n, s, w.bool("version") ? VERSION : undefined, null); } });
    out.push({ name: "many items, one page fails", run: async (w) => { const pages = 130; await run(w, "ds", pages * 2, 2, undefined, { at: w.pick([1, 2, 50, 51, 100, 101, 102, pages], "at"), kind: w.pick(["400", "net", "503x3", "429x2"] as Fault[], "kind") }); } });
    out.push({ name: "dataset fields", run: async (w) => run(w, "ds", w.pick([0, 2], "n"), 2, w.bool("version") ? VERSION : undefined, null, { ds: w.pick(DS, "fields") }) });
    out.push(concurrent, successive);
    for (let s = 1; s <= S; s++) out.push({ name: `server caps pages, size ${s}`, run: async (w) => run(w, "ds", w.choose(N + 1, "n"), s, undefined, null, { cap: 1 + w.choose(s, "cap") }) });
    out.push({ name: "server caps pages, large size", run: async (w) => run(w, "ds", w.pick([99, 100, 101, 200, 250], "n"), w.pick([101, 500, 1000], "size"), undefined, null, { cap: 100 }) });
    out.push({
      name: "short pages",
      run: async (w) => {
        const pages = 1 + w.choose(4, "pages");
        const sizes = Array.from({ length: pages }, () => w.choose(4, "size"));
        await run(w, "ds", sizes.reduce((a, b) => a + b, 0), 3, undefined, null, { sizes });
      },
    });
    out.push({ name: "names", run: async (w) => run(w, w.pick(NAMES, "name"), w.pick([0, 3], "n"), 2, w.bool("version") ? VERSION : undefined, null) });
    for (const kind of ["400", "404", "net", "503x3", "503x1", "429x2"] as Fault[])
      out.push({
        name: `fault ${kind}`,
        run: async (w) => {
          const s = w.pick([1, 2, 3], "size");
          const n = w.choose(7, "n");
          const total = 1 + Math.max(1, Math.ceil(n / s));
          await run(w, "ds", n, s, undefined, { at: w.choose(total, "at"), kind });
        },
      });
    return out;
  },
};
export default def;
