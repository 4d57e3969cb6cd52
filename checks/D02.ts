import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { LangfuseMedia, LangfuseMediaReference } from "@langfuse/core";
import { client } from "./lib/prompt";
import { sha, idFor, tagFor, b64, bytes, eqBytes, isRegister, isPut, isReport, idFromHash } from "./lib/media";
import { isDeepStrictEqual } from "node:util";

const A = bytes(1, 2, 3, 250), B = bytes(255, 255, 254), C = bytes(0);
const mA = () => new LangfuseMedia({ source: "bytes", contentBytes: A, contentType: "image/png" });
const mA2 = () => new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:image/png;base64,${b64(A)}` });
const mB = () => new LangfuseMedia({ source: "bytes", contentBytes: B, contentType: "audio/wav" as any });
const mC = () => new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:application/pdf;base64,${b64(C)}` });
const tA = tagFor(A, "image/png", "bytes"), tA2 = tagFor(A, "image/png", "base64_data_uri"), tB = tagFor(B, "audio/wav", "bytes"), tC = tagFor(C, "application/pdf", "base64_data_uri");
const ref = new LangfuseMediaReference({ mediaId: "m1", contentType: "image/png", url: "http://x/y", referenceString: "@@@langfuseMedia:type=image/png|id=m1|source=bytes@@@" });

type Shape = { name: string; v: () => any; want: any; media: Uint8Array[] };
const SHAPES: Shape[] = [
  { name: "none", v: () => undefined, want: undefined, media: [] },
  { name: "A", v: mA, want: tA, media: [A] },
  { name: "{A,n}", v: () => ({ k: mA(), n: 1, s: "text", z: null }), want: { k: tA, n: 1, s: "text", z: null }, media: [A] },
  { name: "[A,B]", v: () => [mA(), "mid", mB()], want: [tA, "mid", tB], media: [A, B] },
  { name: "deep B", v: () => ({ x: { y: [[mB()], { q: "s" }] }, e: {}, a: [] }), want: { x: { y: [[tB], { q: "s" }] }, e: {}, a: [] }, media: [B] },
  { name: "A twice", v: () => ({ a: mA(), b: mA2() }), want: { a: tA, b: tA2 }, media: [A] },
  { name: "same object twice", v: () => { const m = mC(); return [m, { m }]; }, want: [tC, { m: tC }], media: [C] },
  { name: "ref", v: () => ({ r: ref, t: "x" }), want: { r: ref.referenceString, t: "x" }, media: [] },
  { name: "plain", v: () => ({ d: "2020", n: [1, 2, { z: false }], u: "@@@x" }), want: { d: "2020", n: [1, 2, { z: false }], u: "@@@x" }, media: [] },
  { name: "date", v: () => ({ d: new Date(0) }), want: { d: "1970-01-01T00:00:00.000Z" }, media: [] },
  { name: "null", v: () => null, want: null, media: [] },
  { name: "C,A", v: () => ({ p: [mC()], q: { r: mA() } }), want: { p: [tC], q: { r: tA } }, media: [C, A] },
  { name: "same bytes, two types", v: () => [mA(), new LangfuseMedia({ source: "bytes", contentBytes: A, contentType: "image/jpeg" })], want: [tA, tagFor(A, "image/jpeg", "bytes")], media: [A] },
  { name: "null prototype", v: () => Object.assign(Object.create(null), { a: mA(), l: [Object.assign(Object.create(null), { n: 1, m: mC() })] }), want: { a: tA, l: [{ n: 1, m: tC }] }, media: [A, C] },
  { name: "falsy", v: () => ({ a: 0, b: false, c: "", d: [0, "", false, null], e: undefined, m: mA() }), want: { a: 0, b: false, c: "", d: [0, "", false, null], m: tA }, media: [A] },
  { name: "many", v: () => Array.from({ length: 12 }, (_, i) => (i === 11 ? mB() : i === 10 ? { i } : i)), want: [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, { i: 10 }, tB], media: [B] },
  { name: "odd keys", v: () => ({ "": mA(), "a.b": [mB()], "0": 1, length: 2, then: "x", constructor: mA() }), want: { "": tA, "a.b": [tB], "0": 1, length: 2, then: "x", constructor: tA }, media: [A, B] },
  { name: "holes", v: () => ({ l: [1, undefined, null, "x"], u: [undefined], m: [mA(), undefined], s: [["a", undefined], []] }), want: { l: [1, null, null, "x"], u: [null], m: [tA, null], s: [["a", null], []] }, media: [A] },
  { name: "__proto__ key", v: () => { const o = JSON.parse('{"__proto__":{"a":1},"b":[{"__proto__":"s"}]}'); o.m = mA(); return o; }, want: (() => { const o = JSON.parse('{"__proto__":{"a":1},"b":[{"__proto__":"s"}]}'); o.m = tA; return o; })(), media: [A] },
  { name: "string", v: () => `text ${tA} data:image/png;base64,AAAA`, want: `text ${tA} data:image/png;base64,AAAA`, media: [] },
  { name: "zero", v: () => 0, want: 0, media: [] },
  { name: "false", v: () => false, want: false, media: [] },
  { name: "empty string", v: () => "", want: "", media: [] },
  { name: "shared", v: () => { const o = { m: mB() }; return { a: o, b: o }; }, want: { a: { m: tB }, b: { m: tB } }, media: [B] },
];
const BAD: Shape[] = [
  { name: "invalid media", v: () => ({ k: new LangfuseMedia({ source: "base64_data_uri", base64DataUri: "nonsense" }) }), want: null, media: [] },
];

const uniq = (ms: Uint8Array[]) => ms.filter((m, i) => ms.findIndex((x) => idFor(x) === idFor(m)) === i);
const isItem = (r: Req) => r.method === "POST" && r.path === "/api/public/dataset-items";
const isDs = (r: Req) => r.method === "GET" && r.path.startsWith("/api/public/v2/datasets/");

type Mode = { order: boolean; faults: number; exists?: boolean };

function snapshot(v: any): any {
  // structural snapshot that keeps object identities of media
  if (Array.isArray(v)) return v.map(snapshot);
  if (v && typeof v === "object" && Object.getPrototypeOf(v) === Object.prototype) return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, snapshot(x)]));
  return v;
}
const same = (a: any, b: any): boolean => {
  if (a === b) return true;
  if (Array.isArray(a) && Array.isArray(b)) return a.length === b.length && a.every((x, i) => same(x, b[i]));
  if (a && b && typeof a === "object" && typeof b === "object" && Object.getPrototypeOf(a) === Object.prototype) {
    const ka = Object.keys(a), kb = Object.keys(b);
    return ka.length === kb.length && ka.every((k) => same(a[k], b[k]));
  }
  return false;
};

async function runOne(w: World, shapes: [Shape, Shape, Shape], id: string | undefined, mode: Mode, c: any = client(w)) {
  const n0 = w.reqs.length;
  const mine = () => w.reqs.slice(n0);
  const req: any = { datasetName: "d/s 1" };
  const vals = shapes.map((s) => s.v());
  if (vals[0] !== undefined) req.input = vals[0];
  if (vals[1] !== undefined) req.expectedOutput = vals[1];
  if (vals[2] !== undefined) req.metadata = vals[2];
  if (id !== undefined) req.id = id;
  req.sourceTraceId = "tr";
  const snap = snapshot(req);
  const st: any = { done: false };
  c.dataset.createItem(req).then(
    (v: any) => Object.assign(st, { done: true, ok: true, v }),
    (e: any) => Object.assign(st, { done: true, ok: false, e }),
  );
  const contents = uniq(shapes.flatMap((s) => s.media));
  let faults = mode.faults;
  let uploadLost = false; // some required step finally failed
  const stored = new Set<string>(); // media the server has bytes for
  const registered = new Set<string>();
  let regFails = new Map<string, number>(), putFails = new Map<string, number>();
  let itemFail = false;
  const checkReq = (r: Req) => {
    if (isRegister(r)) {
      const j = r.json;
      const m = contents.find((b) => sha(b) === j.sha256Hash);
      w.assert(m, "register", "a media registered that is not in the item");
      w.assert(j.contentLength === m!.length, "register", `declared length ${j.contentLength}`);
      w.assert(j.datasetId === "ds-id" && typeof j.datasetItemId === "string" && (id === undefined || j.datasetItemId === id), "register", () => `media registered for dataset ${j.datasetId} item ${j.datasetItemId}`);
      w.assert(["input", "expectedOutput", "metadata"].includes(j.field), "register", `field ${j.field}`);
    } else if (isPut(r)) {
      const mid = decodeURIComponent(r.path.slice(1));
      const m = contents.find((b) => idFor(b) === mid)!;
      w.assert(m && eqBytes(r.body, m), "bytes", "uploaded bytes differ from the media's content");
    } else if (isItem(r)) {
      const j = r.json;
      w.assert(!uploadLost, "created-without-media", "the item was created although a media upload failed");
      for (const m of contents) w.assert(stored.has(idFor(m)), "created-before-upload", "the item was created before all media bytes were uploaded");
      const want: any = { datasetName: "d/s 1", sourceTraceId: "tr", id: id ?? j.id };
      const wv = shapes.map((s) => s.want);
      if (vals[0] !== undefined) want.input = wv[0];
      if (vals[1] !== undefined) want.expectedOutput = wv[1];
      if (vals[2] !== undefined) want.metadata = wv[2];
      w.assert(typeof j.id === "string" && j.id.length > 0, "item", "item without id");
      w.assert(isDeepStrictEqual(j, JSON.parse(JSON.stringify(want))), "item", () => `item created with ${JSON.stringify(j)}, expected ${JSON.stringify(want)}`);
      for (const rr of mine().filter(isRegister)) w.assert(rr.json.datasetItemId === j.id, "register", "media registered for another item id");
    } else if (isDs(r)) w.assert(decodeURIComponent(r.path.split("/").pop()!) === "d/s 1", "request", `dataset request ${r.url}`);
    else w.assert(isReport(r), "request", `unexpected request ${r.method} ${r.url}`);
  };
  let seen = n0;
  for (let i = 0; i < 120 + 6 * contents.length; i++) {
    await w.drain();
    for (; seen < w.reqs.length; seen++) checkReq(w.reqs[seen]);
    const pend = w.pending;
    if (pend.length === 0) {
      if (st.done) break;
      const t = w.nextTimer();
      if (!t) break;
      await w.fireNext();
      continue;
    }
    const r = mode.order ? w.pick(pend, "next") : pend[0];
    const alts: [string, () => Reply][] = [];
    const key = isRegister(r) ? r.json.sha256Hash : r.url;
    if (isDs(r)) {
      alts.push(["ok", () => ({ status: 200, json: { id: "ds-id", name: "d/s 1", description: null, metadata: null, projectId: "p", createdAt: "2026-01-01T00:00:00Z", updatedAt: "2026-01-01T00:00:00Z" } })]);
      alts.push(["404", () => ((uploadLost = true), { status: 404, json: { message: "x" } })]);
    } else if (isRegister(r)) {
      const mid = idFromHash(r.json.sha256Hash);
      if (mode.exists) alts.push(["exists", () => (stored.add(mid), { status: 200, json: { mediaId: mid, uploadUrl: null } })]);
      alts.push(["ok", () => ({ status: 201, json: { mediaId: mid, uploadUrl: "http://up/" + encodeURIComponent(mid) } })]);
      alts.push(["400", () => ((uploadLost = true), { status: 400, json: { message: "x" } })]);
      alts.push(["net", () => ((uploadLost = true), { error: new TypeError("fetch failed") })]);
      alts.push(["otherid", () => ((uploadLost = true), { status: 201, json: { mediaId: "wrong", uploadUrl: "http://up/" + encodeURIComponent(mid) } })]);
    } else if (isPut(r)) {
      const mid = decodeURIComponent(r.path.slice(1));
      const n = (putFails.get(key) ?? 0) + 1;
      alts.push(["ok", () => (stored.add(mid), { status: w.reqs.length % 2 ? 200 : 201, text: "" })]);
      const bad = (rep: Reply) => () => {
        putFails.set(key, n);
        return rep;
      };
      alts.push(["500", bad({ status: 500, text: "e" })], ["403", bad({ status: 403, text: "denied" })], ["net", bad({ error: new TypeError("fetch failed") })]);
      // permanent failure: this and all later attempts of this media fail
      alts.push(["dead", () => { dead.add(key); uploadLost = true; return { status: 503, text: "dead" }; }]);
    } else if (isReport(r)) alts.push(["ok", () => ({ status: 204 })]);
    else if (isItem(r)) {
      alts.push(["ok", () => ({ status: 200, json: { ...r.json, status: "ACTIVE", createdAt: "x", updatedAt: "y", datasetId: "ds-id" } })]);
      alts.push(["400", () => ((itemFail = true), { status: 400, json: { message: "x" } })]);
    }
    if (isPut(r) && dead.has(key)) {
      r.reply({ status: 503, text: "dead" });
      continue;
    }
    const base = isRegister(r) && mode.exists ? 2 : 1;
    const k = faults > 0 ? w.choose(alts.length, alts.map((a) => a[0]).join("|")) : base > 1 ? w.choose(base, "exists|ok") : 0;
    if (k >= base) faults--;
    w.obs("> " + alts[k][0]);
    r.reply(alts[k][1]());
  }
  await w.drain();
  w.assert(st.done, "stuck", "creating the item never settles");
  w.assert(same(req, snap), "mutated", "the caller's values were modified");
  const created = mine().filter(isItem);
  if (uploadLost) {
    w.assert(!st.ok, "failure-hidden", "a media upload failed but the call resolved");
    w.assert(created.length === 0, "created-without-media", "the item was created although a media upload failed");
  } else if (itemFail) w.assert(!st.ok, "failure-hidden", "creating the item failed but the call resolved");
  else {
    w.assert(st.ok, "rejected", () => `creating the item rejected: ${st.e}`);
    w.assert(created.length === 1, "item", `${created.length} item creation requests`);
    const regs = mine().filter(isRegister).map((r) => r.json.sha256Hash);
    for (const m of contents) w.assert(regs.filter((h) => h === sha(m)).length >= 1, "register", "a media content was never registered");
  }
}
const dead = new Set<string>();

/** media below exactly d containers */
function deep(w: World) {
  const d = w.choose(21, "depth");
  const kind = w.choose(3, "kind");
  const wrap = (v: any, n: number): any => (n === 0 ? v : kind === 0 ? { k: wrap(v, n - 1), o: n } : kind === 1 ? [wrap(v, n - 1)] : n % 2 ? [n, wrap(v, n - 1)] : { k: wrap(v, n - 1) });
  return { name: `depth ${d}`, v: () => wrap(mA(), d), want: wrap(tA, d), media: [A] } as Shape;
}
/** the same media objects in two items, one after the other, the first possibly failing */
function twice(faults: number): Scenario {
  return {
    name: `two items faults ${faults}`,
    run: async (w) => {
      dead.clear();
      const c = client(w);
      const m1 = mA(), m2 = mC();
      const s1: Shape = { name: "1", v: () => ({ a: m1, b: [m2] }), want: { a: tA, b: [tC] }, media: [A, C] };
      const s2: Shape = { name: "2", v: () => [m1], want: [tA], media: [A] };
      const none = SHAPES[0];
      await runOne(w, [s1, none, none], "first", { order: false, faults }, c);
      dead.clear();
      await runOne(w, w.bool("field") ? [none, none, s2] : [s2, none, none], w.pick(["second", undefined], "id"), { order: false, faults: 0, exists: true }, c);
    },
  };
}
/** two items created at once: media are registered for their own item */
const both = (inTurn: boolean): Scenario => ({
  name: inTurn ? "two items in turn" : "two items at once",
  run: async (w) => {
    const c = client(w);
    const share = mA();
    const specs = [
      { id: "i1", v: { a: share, t: 1 }, want: { a: tA, t: 1 }, media: [A] },
      { id: "i2", v: w.bool("same media") ? [share, mB()] : [mC(), mB()], want: null as any, media: [] as Uint8Array[] },
    ];
    const same2 = (specs[1].v as any[])[0] === share;
    specs[1].want = same2 ? [tA, tB] : [tC, tB];
    specs[1].media = same2 ? [A, B] : [C, B];
    const names = ["d1", w.pick(["d1", "d2"], "dataset")];
    const start = (s: any, i: number) => {
      const r: any = {};
      c.dataset.createItem({ datasetName: names[i], id: s.id, input: s.v } as any).then((v: any) => (r.v = v), (e: any) => (r.e = e));
      return r;
    };
    const st: any[] = inTurn ? [start(specs[0], 0)] : specs.map(start);
    const stored = new Map<string, Set<string>>();
    const urls = new Map<string, string>();
    let nput = 0;
    for (;;) {
      await w.drain();
      const pend = w.pending;
      if (!pend.length) {
        const over = st.every((s) => s.v || s.e);
        if (over && st.length === 1) {
          st.push(start(specs[1], 1));
          continue;
        }
        if (over || !w.nextTimer()) break;
        await w.fireNext();
        continue;
      }
      const r = pend.length > 3 ? pend[0] : pend[w.choose(pend.length, "next")];
      if (isDs(r)) r.reply({ status: 200, json: { id: "id-" + decodeURIComponent(r.path.split("/").pop()!), name: "x" } });
      else if (isRegister(r)) {
        const i = specs.findIndex((s) => s.id === r.json.datasetItemId);
        w.assert(i >= 0 && r.json.datasetId === "id-" + names[i], "register", () => `media registered for dataset ${r.json.datasetId} item ${r.json.datasetItemId}`);
        w.assert(specs[i].media.some((m) => sha(m) === r.json.sha256Hash), "register", "media of another item registered");
        const mid = idFromHash(r.json.sha256Hash);
        const url = `http://up/${specs[i].id}/${encodeURIComponent(mid)}`;
        urls.set(url, specs[i].id);
        r.reply({ status: 201, json: { mediaId: mid, uploadUrl: url } });
      } else if (isPut(r)) {
        nput++;
        const owner = urls.get(r.url)!;
        const mid = decodeURIComponent(r.path.split("/").pop()!);
        const m = [A, B, C].find((b) => idFor(b) === mid)!;
        w.assert(owner && m && eqBytes(r.body, m), "bytes", "uploaded bytes differ from the media's content");
        stored.set(owner, (stored.get(owner) ?? new Set()).add(mid));
        r.reply({ status: 200, text: "" });
      } else if (isItem(r)) {
        const s = specs.find((x) => x.id === r.json.id)!;
        w.assert(s && isDeepStrictEqual(r.json.input, s.want) && r.json.datasetName === names[specs.indexOf(s)], "item", () => `item created with ${JSON.stringify(r.json)}`);
        for (const m of s.media) w.assert(stored.get(s.id)?.has(idFor(m)), "created-before-upload", "the item was created before its media were registered and uploaded");
        r.reply({ status: 200, json: { ...r.json, status: "ACTIVE" } });
      } else if (isReport(r)) r.reply({ status: 204 });
      else w.fail("request", `unexpected request ${r.url}`);
    }
    for (const s of st) w.assert(s.v, "rejected", () => `creating the item failed: ${s.e}`);
    w.assert(w.reqs.filter(isItem).length === 2, "item", "not both items were created");
  },
});

const def: CheckDef = {
  property: "D02",
  bounds: (t) => `all placements of media (13 value shapes per field over 3 fields) fault-free; all completion orders and up to ${t === "quick" ? 1 : 2} faults (registration refused/lost/mismatched, transfer 5xx/403/network/permanent, dataset lookup, item creation) for representative placements`,
  assumptions: ["the server derives the media id from the hash as the SDK does", "a failing status report is not constrained"],
  scenarios: (tier) => {
    const out: Scenario[] = [];
    const none = SHAPES[0];
    for (const a of SHAPES) for (const b of SHAPES) out.push({ name: `placement ${a.name} / ${b.name}`, run: async (w) => { dead.clear(); await runOne(w, [a, b, w.pick(SHAPES, "metadata")], w.pick([undefined, "my-id"], "id"), { order: false, faults: 0 }); } });
    const reps: [Shape, Shape, Shape][] = [
      [SHAPES[1], none, none],
      [none, SHAPES[4], none],
      [SHAPES[1], SHAPES[5], none],
      [SHAPES[3], none, SHAPES[2]],
      [SHAPES[11], none, none],
    ];
    reps.forEach((r, i) => {
      out.push({ name: `faults ${i}`, run: async (w) => { dead.clear(); await runOne(w, r, undefined, { order: false, faults: tier === "quick" ? 2 : 3, exists: true }); } });
      out.push({ name: `orders ${i}`, run: async (w) => { dead.clear(); await runOne(w, r, "my-id", { order: true, faults: tier === "quick" ? 1 : 2, exists: i === 1 }); } });
    });
    out.push(twice(0), twice(tier === "quick" ? 1 : 2), both(false), both(true));
    out.push({
      name: "many media",
      run: async (w) => {
        dead.clear();
        const n = w.pick([11, 60, 130], "media");
        const all = Array.from({ length: n }, (_, i) => Uint8Array.from([i & 255, i >> 8, 7, 7]));
        const part = (l: Uint8Array[]): Shape => ({ name: "many", v: () => ({ l: l.map((b) => new LangfuseMedia({ source: "bytes", contentBytes: b, contentType: "image/png" })) }), want: { l: l.map((b) => tagFor(b, "image/png", "bytes")) }, media: l });
        const spread = w.choose(2, "spread");
        // the permanent failure, if any, hits the first upload
        await runOne(w, spread ? [part(all.slice(0, n / 3)), part(all.slice(n / 3, (2 * n) / 3)), part(all.slice((2 * n) / 3))] : [part(all), none, none], "my-id", { order: false, faults: 0 });
      },
    });
    out.push({
      name: "large media and values",
      run: async (w) => {
        dead.clear();
        const b = Buffer.alloc(w.pick([100_000, 2_000_001], "bytes"), "0123456789abcdef-");
        const text = "t".repeat(500_000);
        const big: Shape = { name: "large", v: () => ({ text, l: [new LangfuseMedia({ source: "bytes", contentBytes: b, contentType: "image/png" })] }), want: { text, l: [tagFor(b, "image/png", "bytes")] }, media: [b] };
        const f = w.choose(3, "field");
        await runOne(w, [0, 1, 2].map((i) => (i === f ? big : none)) as any, "my-id", { order: false, faults: 0 });
      },
    });
    out.push({ name: "depth", run: async (w) => { dead.clear(); const f = w.choose(3, "field"); const d = deep(w); await runOne(w, [0, 1, 2].map((i) => (i === f ? d : none)) as any, "my-id", { order: false, faults: 0 }); } });
    for (const bad of BAD)
      out.push({
        name: "invalid media",
        run: async (w) => {
          const c = client(w);
          const st: any = {};
          const r = await w.settle(c.dataset.createItem({ datasetName: "d", input: bad.v() } as any), () => ({ status: 200, json: {} }));
          w.assert(r.done && !r.ok && w.reqs.filter(isItem).length === 0, "created-without-media", "item with an unusable media was created");
          void st;
        },
      });
    return out;
  },
};
export default def;
