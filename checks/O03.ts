import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { LangfuseMedia } from "@langfuse/core";
import { startObservation } from "@langfuse/tracing";
import { provider, useGlobal, trace } from "./lib/otel";
import { ENV0 } from "./lib/prompt";
import { sha, tagFor, idFor, eqBytes, isRegister, isPut, isReport, idFromHash } from "./lib/media";

const dec = (b: string) => new Uint8Array(Buffer.from(b, "base64"));
type Uri = { type: string; b64: string };
const URIS: Uri[] = [
  { type: "image/png", b64: "AAAA" },
  { type: "image/png", b64: "AAAABBBB" },
  { type: "image/png", b64: "AAA=" },
  { type: "audio/wav", b64: "AAAA" },
  { type: "application/vnd.x+json", b64: "+/+/AQ==" },
  { type: "x/$&", b64: "Zm9v" },
  { type: "IMAGE/PNG", b64: "aaaa" },
  { type: "video/mp4", b64: Buffer.from(Uint8Array.from({ length: 5000 }, (_, i) => (i * 7 + (i >> 5)) & 255)).toString("base64") },
];
const TEXT = ["", " ", "see data: now ", '\\"', "$&$1", "data:image/png,plain ", "data:;base64,AAAA ", "data:image/png;base64, ", "a;base64,AAAA ", "héllo ☃ 😀 ", "@@@langfuseMedia:type=image/png|id=x|source=bytes@@@"];
const SEP = [" ", '","', "\n", ") ", " data: ", "-", "_x "];
const str = (u: Uri) => `data:${u.type};base64,${u.b64}`;
const ref = (u: Uri, source = "base64_data_uri") => tagFor(dec(u.b64), u.type, source);

type Expect = { key: string; value: string; media: { u: Uri; field: string; source?: string }[] };
type Rig = { proc: any; exported: any[]; spans: any[] };
function rig(w: World, opts: any = {}): Rig {
  w.env(ENV0);
  const exported: any[] = [];
  const exporter = { export: (s: any[], cb: any) => { for (const x of s) exported.push({ id: x.spanContext().spanId, trace: x.spanContext().traceId, attributes: { ...x.attributes } }); cb({ code: 0 }); }, shutdown: async () => {}, forceFlush: async () => {} };
  const proc = new LangfuseSpanProcessor({ exporter: exporter as any, publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", exportMode: "batched", ...opts });
  useGlobal(provider([proc as any]));
  return { proc, exported, spans: [] };
}
/** what the server side sees for a media upload */
function checkReq(w: World, r: Req, want: { u: Uri; field: string; obs: string; trace: string }[]) {
  if (isRegister(r)) {
    const j = r.json;
    const hit = want.filter((m) => sha(dec(m.u.b64)) === j.sha256Hash && m.u.type === j.contentType && m.field === j.field && m.obs === j.observationId && m.trace === j.traceId);
    w.assert(hit.length > 0, "register", () => `media registered that no attribute holds: ${JSON.stringify(j)}`);
    w.assert(j.contentLength === dec(hit[0].u.b64).length, "register", `declared length ${j.contentLength}`);
  } else if (isPut(r)) {
    const id = decodeURIComponent(r.path.slice(1));
    const m = want.find((x) => idFor(dec(x.u.b64)) === id);
    w.assert(m && eqBytes(r.body, dec(m.u.b64)), "bytes", "transferred bytes differ from the decoded content");
  } else if (isReport(r)) {
    void 0;
  } else w.fail("request", `unexpected request ${r.method} ${r.url}`);
}

type SpanSpec = { make: () => { otelSpan: any; end: () => void }; expect: Expect[] };
type Net = { order: boolean; faults: number; exists?: boolean; overlap?: boolean };
/** each phase: spans end, then flush; phases share one processor. `overlap`: the spans of the later phases end while earlier uploads are pending */
async function play(w: World, specs: SpanSpec[] | SpanSpec[][], net: Net, opts: any = {}) {
  const phases = (Array.isArray(specs[0]) ? specs : [specs]) as SpanSpec[][];
  const R = rig(w, opts);
  const disabled = opts.mediaUploadEnabled === false;
  type Want = { u: Uri; field: string; obs: string; trace: string; phase: number };
  const want: Want[] = [];
  const made: { id: string; spec: SpanSpec }[] = [];
  const stored = new Set<string>();
  let faults = net.faults;
  let seen = 0;
  const ph = new Map<Req, number>();
  let phase = -1, endedPhases = 0;
  const endPhase = () => {
    for (const s of phases[endedPhases]) {
      const o = s.make();
      const sc = o.otelSpan.spanContext();
      made.push({ id: sc.spanId, spec: s });
      for (const e of s.expect) for (const m of e.media) want.push({ u: m.u, field: m.field, obs: sc.spanId, trace: sc.traceId, phase: endedPhases });
      o.end();
    }
    endedPhases++;
  };
  /** contents for which an upload step failed for good, per phase */
  const failedIds: Set<string>[] = phases.map(() => new Set());
  const fail = (id: string) => failedIds.forEach((f, i) => i >= phase && i < endedPhases && f.add(id));
  for (phase = 0; phase < phases.length; phase++) {
    if (endedPhases === phase) endPhase();
    let done = false, pendingAtDone = 0;
    const p = R.proc.forceFlush().then(() => {
      done = true;
      pendingAtDone = w.pending.filter((r) => ph.get(r) !== undefined && ph.get(r)! <= phase).length;
    });
    const lost = new Set<string>();
    const misses = new Map<string, number>();
    // the documented bound: one transfer and three retries
    const miss = (id: string) => {
      misses.set(id, (misses.get(id) ?? 0) + 1);
      if (misses.get(id)! >= 4) fail(id);
    };
    for (let i = 0; i < 300 + 10 * want.length; i++) {
      await w.drain();
      for (; seen < w.reqs.length; seen++) {
        const r = w.reqs[seen];
        checkReq(w, r, want);
        const hit = isRegister(r) ? want.find((m) => m.obs === r.json.observationId) : undefined;
        if (hit) ph.set(r, hit.phase);
        else if (isPut(r)) ph.set(r, ph.get(w.reqs[Number(r.url.split("reg=")[1])])!);
      }
      const pend = w.pending;
      if (!pend.length) {
        if (done) break;
        if (!w.nextTimer()) break;
        await w.fireNext();
        continue;
      }
      if (net.overlap && endedPhases < phases.length && w.bool("next spans end now")) {
        endPhase();
        continue;
      }
      const r = net.order ? w.pick(pend, "next") : pend[0];
      const alts: [string, () => Reply][] = [];
      if (isRegister(r)) {
        const id = idFromHash(r.json.sha256Hash);
        alts.push(["ok", () => ({ status: 201, json: { mediaId: id, uploadUrl: "http://up/" + encodeURIComponent(id) + "?reg=" + w.reqs.indexOf(r) } })]);
        if (net.exists && stored.has(id)) alts.splice(0, 1, ["exists", () => ({ status: 200, json: { mediaId: id, uploadUrl: null } })]);
        else if (net.exists) alts.push(["exists", () => (stored.add(id), { status: 200, json: { mediaId: id, uploadUrl: null } })]);
        if (faults > 0) alts.push(["400", () => (faults--, fail(id), { status: 400, json: {} })], ["net", () => (faults--, fail(id), { error: new TypeError("fetch failed") })], ["mismatch", () => (faults--, fail(id), { status: 201, json: { mediaId: "other", uploadUrl: "http://up/x" } })], ["garbage", () => (faults--, fail(id), { status: 200, text: "<html>" })]);
      } else if (isPut(r)) {
        const id = decodeURIComponent(r.path.slice(1));
        if (lost.has(id)) {
          fail(id);
          r.reply({ status: 500, text: "x" });
          continue;
        }
        alts.push(["ok", () => (stored.add(id), { status: 200, text: "" })]);
        if (faults > 0) alts.push(["500", () => (faults--, miss(id), { status: 500, text: "e" })], ["net", () => (faults--, miss(id), { error: new TypeError("fetch failed") })], ["dead", () => (faults--, lost.add(id), fail(id), { status: 403, text: "x" })]);
      } else {
        alts.push(["ok", () => ({ status: 204 })]);
        if (faults > 0) alts.push(["report 400", () => (faults--, { status: 400, json: {} })]);
      }
      const k = w.choose(alts.length, alts.map((a) => a[0]).join("|"));
      w.obs("> " + alts[k][0]);
      r.reply(alts[k][1]());
    }
    await w.drain();
    await p;
    w.assert(done, "stuck", "flush never resolves");
    w.assert(pendingAtDone === 0, "flush-early", "flush resolved while a media upload was unfinished");
    const now = phases.slice(0, phase + 1).flat().length;
    w.assert(R.exported.length >= now && R.exported.length <= made.length, "span-lost", `${R.exported.length} of ${now} spans exported`);
    for (const m of made.slice(0, now)) {
      const e = R.exported.find((x) => x.id === m.id);
      w.assert(e, "span-lost", "a span was not exported");
      for (const x of m.spec.expect) w.assert(e.attributes[x.key] === x.value, "attribute", () => `${x.key}: exported ${JSON.stringify(e.attributes[x.key])?.slice(0, 400)}, expected ${JSON.stringify(x.value).slice(0, 400)}`);
    }
    if (disabled) {
      w.assert(w.reqs.length === 0, "request", "media uploads although disabled");
      continue;
    }
    for (const m of want.filter((x) => x.phase === phase)) {
      const id = idFor(dec(m.u.b64));
      w.assert(w.reqs.some((r) => isRegister(r) && r.json.sha256Hash === sha(dec(m.u.b64)) && r.json.contentType === m.u.type && r.json.observationId === m.obs && r.json.field === m.field), "not-registered", () => `media ${str(m.u).slice(0, 80)} was not registered for its span and field`);
      if (!failedIds[phase].has(id)) w.assert(stored.has(id), "not-uploaded", () => `media ${str(m.u).slice(0, 80)} was not uploaded when the flush resolved`);
    }
  }
}
const FIELDS: { set: (v: any) => any; trace?: boolean; key: string; field: string }[] = [
  { set: (v) => ({ input: v }), key: "langfuse.observation.input", field: "input" },
  { set: (v) => ({ output: v }), key: "langfuse.observation.output", field: "output" },
  { set: (v) => ({ metadata: v }), key: "langfuse.observation.metadata", field: "metadata" },
  { set: (v) => ({ metadata: { k: v } }), key: "langfuse.observation.metadata.k", field: "metadata" },
  { set: (v) => ({ metadata: { "input.é x": v } }), key: "langfuse.observation.metadata.input.é x", field: "metadata" },
  { set: (v) => ({ input: v }), trace: true, key: "langfuse.trace.input", field: "input" },
  { set: (v) => ({ output: v }), trace: true, key: "langfuse.trace.output", field: "output" },
];
const make = (f: (typeof FIELDS)[number], v: any) => () => {
  const o: any = startObservation("s", f.trace ? {} : f.set(v));
  if (f.trace) o.setTraceIO(f.set(v));
  return { otelSpan: o.otelSpan, end: () => o.end() };
};
const rawSpan = (scope: string, attributes: any) => () => {
  const s = trace.getTracer(scope).startSpan("s", { attributes });
  return { otelSpan: s, end: () => s.end() };
};
/** string spec: pre u sep u sep ... */
function spec(f: (typeof FIELDS)[number], parts: (string | Uri)[]): SpanSpec {
  const v = parts.map((p) => (typeof p === "string" ? p : str(p))).join("");
  return { make: make(f, v), expect: [{ key: f.key, value: parts.map((p) => (typeof p === "string" ? p : ref(p))).join(""), media: parts.filter((p): p is Uri => typeof p !== "string").map((u) => ({ u, field: f.field })) }] };
}
const subst = (v: any, f: (u: Uri) => any): any => (v && v.b64 && v.type ? f(v) : Array.isArray(v) ? v.map((x) => subst(x, f)) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, subst(x, f)])) : v);
const collect = (v: any): Uri[] => (v && v.b64 && v.type ? [v] : v && typeof v === "object" ? Object.values(v).flatMap(collect) : []);

/** flush or shutdown called at every point of the uploads' progress */
const waits = (ways: ("flush" | "shutdown")[], spans: number): Scenario => ({
  name: `${ways.join(" and ")} at every point, ${spans} span(s)`,
  run: async (w) => {
    const R = rig(w, { exportMode: w.pick(["immediate", "batched"], "mode") });
    const stored = new Set<string>(), failed = new Set<string>(), ended: Uri[] = [], called = new Map<string, Uri[]>(), resolved = new Set<string>();
    const reply = (r: Req): Reply => {
      if (isRegister(r)) return { status: 201, json: { mediaId: idFromHash(r.json.sha256Hash), uploadUrl: "http://up/" + encodeURIComponent(idFromHash(r.json.sha256Hash)) } };
      if (isPut(r)) return stored.add(decodeURIComponent(r.path.slice(1))), { status: 200, text: "" };
      return { status: 204 };
    };
    let faults = 1;
    await w.system({
      threads: [
        { name: "spans", steps: Array.from({ length: spans }, (_, i) => () => { const u = URIS[i]; startObservation("s" + i, { input: { x: str(u) } }).end(); ended.push(u); }) },
        ...ways.map((how, k) => ({ name: how + k, steps: [() => {
          called.set(how + k, [...ended]);
          void (how === "flush" ? R.proc.forceFlush() : R.proc.shutdown()).then(() => {
            resolved.add(how + k);
            for (const u of called.get(how + k)!) {
              const id = idFor(dec(u.b64));
              const open = w.pending.filter((r) => (isRegister(r) && idFromHash(r.json.sha256Hash) === id) || (isPut(r) && decodeURIComponent(r.path.slice(1)) === id) || (!isRegister(r) && !isPut(r) && r.path.includes(encodeURIComponent(id))));
              w.assert(open.length === 0, "flush-early", () => `${how} resolved while a media upload was unfinished`);
              w.assert(stored.has(id) || failed.has(id), "flush-early", () => `${how} resolved before media ${str(u).slice(0, 60)} was uploaded`);
            }
          });
        }] })),
      ],
      replies: (r) => [{ name: "ok", reply: () => reply(r) }, ...(faults && isRegister(r) ? [{ name: "400", reply: () => (faults--, failed.add(idFromHash(r.json.sha256Hash)), { status: 400, json: {} }) }] : [])],
    });
    await w.settle(null, reply);
    for (const k of called.keys()) w.assert(resolved.has(k), "stuck", `${k} never resolves`);
  },
});

const def: CheckDef = {
  property: "O03",
  bounds: (t) => `strings of up to ${t === "quick" ? 2 : 3} data URIs over 8 (prefix-related, padded, special types, 5 kB) between adversarial text, in 7 attribute positions; nested JSON; AI SDK v6/v7 parts; histories of 2-3 flushes on one processor with re-occurring content after success or failure; all completion orders of up to 3 uploads with up to ${t === "quick" ? 1 : 2} faults (register, transfer, report)`,
  assumptions: ["data URIs of the form data:<type>;base64,<data>, separated from each other by a character outside the base64 alphabet", "the server derives media ids from the content hash as the SDK does"],
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [waits(["flush"], 2), waits(["shutdown"], 2), waits(["flush", "shutdown"], 1), ...(tier === "quick" ? [] : [waits(["flush", "flush"], 2), waits(["flush", "shutdown"], 2)])];
    const NET: Net = { order: false, faults: 0 };
    for (const f of FIELDS)
      out.push({
        name: `text in ${f.key}`,
        run: async (w) => {
          const parts: (string | Uri)[] = [w.pick(TEXT, "pre"), w.pick(URIS, "uri")];
          const n = w.choose(q ? 2 : 3, "more");
          for (let i = 0; i < n; i++) parts.push(w.pick(i === 0 ? SEP : SEP.slice(0, 1), "sep"), w.pick(URIS, "uri"));
          if (n < 2) parts.push(w.pick(["", " tail", '"}', "!"], "tail"));
          await play(w, [spec(f, parts)], NET);
        },
      });
    const SHAPES: [string, (a: Uri, b: Uri) => any][] = [
      ["messages", (a, b) => [{ role: "user", content: [{ type: "image_url", image_url: { url: a } }, { type: "text", text: "data: x" }] }, { content: b }]],
      ["same twice", (a) => ({ x: a, y: [a, { z: a }] })],
      ["key order", (a, b) => ({ data: a, b: { data: b } })],
      ["many", (a, b) => Array.from({ length: 13 }, (_, i) => ({ i, a: i % 3 ? a : b, t: "t" + i }))],
      ["text around", (a, b) => ({ "data:x": "see", list: [[a], [[b, null, 0, "", false]]], q: 'quote " and \\ back' })],
    ];
    for (const [n, mk] of SHAPES)
      out.push({
        name: `JSON ${n}`,
        run: async (w) => {
          const f = w.pick(FIELDS.filter((x) => !x.key.endsWith("observation.metadata")), "field");
          const v = mk(w.pick(URIS, "a"), w.pick(URIS, "b"));
          await play(w, [{ make: make(f, subst(v, str)), expect: [{ key: f.key, value: JSON.stringify(subst(v, (u) => ref(u))), media: collect(v).map((u) => ({ u, field: f.field })) }] }], NET);
        },
      });
    const nth = (i: number): Uri => ({ type: i % 2 ? "image/png" : "audio/wav", b64: Buffer.from(`content ${i} `.repeat(1 + (i % 3))).toString("base64") });
    out.push({
      name: "many media",
      run: async (w) => {
        const n = w.pick([11, 101, 260], "media");
        const us = Array.from({ length: n }, (_, i) => nth(i));
        const spread = w.pick(["one attribute", "one object", "all fields", "one span each"], "spread");
        const f = FIELDS.filter((x) => !x.key.endsWith("observation.metadata"));
        if (spread === "one attribute") await play(w, [spec(f[0], us.flatMap((u) => [u, " "]))], NET);
        else if (spread === "one object") await play(w, [{ make: make(f[1], subst({ l: us }, str)), expect: [{ key: f[1].key, value: JSON.stringify(subst({ l: us }, (u) => ref(u))), media: us.map((u) => ({ u, field: f[1].field })) }] }], NET);
        else if (spread === "all fields") await play(w, f.map((x, k) => spec(x, us.filter((_, i) => i % f.length === k).flatMap((u) => [u, " "]))), NET);
        else await play(w, us.map((u) => spec(f[0], [u])), NET);
      },
    });
    out.push({
      name: "large media",
      run: async (w) => {
        const size = w.pick([70_000, 300_000, 1_500_000, 3_000_000], "bytes");
        const u: Uri = { type: "image/png", b64: Buffer.alloc(size, "0123456789abcdef-").toString("base64") };
        const f = w.pick(FIELDS.filter((x) => !x.key.endsWith("observation.metadata")), "field");
        const where = w.choose(3, "alone|in text|in an object");
        if (where < 2) await play(w, [spec(f, where ? ["before ", u, " ", nth(3), " after ", u] : [u])], NET);
        else await play(w, [{ make: make(f, subst({ t: "x".repeat(200_000), l: [u, nth(2)] }, str)), expect: [{ key: f.key, value: JSON.stringify(subst({ t: "x".repeat(200_000), l: [u, nth(2)] }, (x) => ref(x))), media: [u, nth(2)].map((x) => ({ u: x, field: f.field })) }] }], NET);
      },
    });
    out.push({
      name: "LangfuseMedia objects",
      run: async (w) => {
        const u = w.pick(URIS, "u");
        const bytesSource = w.bool("bytes");
        const m = bytesSource ? new LangfuseMedia({ source: "bytes", contentBytes: dec(u.b64), contentType: u.type as any }) : new LangfuseMedia({ source: "base64_data_uri", base64DataUri: str(u) });
        const f = FIELDS[w.choose(2, "field")];
        await play(w, [{ make: make(f, { m, t: "x" }), expect: [{ key: f.key, value: JSON.stringify({ m: ref(u), t: "x" }), media: [{ u, field: f.field }] }] }], NET);
      },
    });
    out.push({
      name: "not media",
      run: async (w) => {
        const v = w.pick(["data:image/png;base64,AAAAA", "data:image/png;base64,", "data:text/plain,hello", "no data", "data:;base64,AAAA", "DATA", "@@@langfuseMedia:type=image/png|id=x|source=bytes@@@"], "text");
        const f = w.pick(FIELDS, "field");
        await play(w, [{ make: make(f, v), expect: [{ key: f.key, value: v, media: [] }] }], NET);
        w.assert(w.reqs.length === 0, "request", "something without media caused an upload");
      },
    });
    out.push({
      name: "disabled",
      run: async (w) => {
        const u = w.pick(URIS, "u");
        const f = w.pick(FIELDS, "field");
        await play(w, [{ make: make(f, str(u)), expect: [{ key: f.key, value: str(u), media: [] }] }], NET, { mediaUploadEnabled: false });
      },
    });
    // AI SDK parts
    for (const scope of ["ai", "gen_ai"])
      out.push({
        name: `AI SDK parts, scope ${scope}`,
        run: async (w) => {
          const kind = w.pick(["ai.prompt.messages", "ai.prompt", "gen_ai.input.messages", "gen_ai.output.messages"], "attr");
          // base64 text that reads like the start of a URL is content all the same
          const us = [w.pick([...URIS, { type: "image/png", b64: "http" }, { type: "audio/wav", b64: "httpsAAA" }] as Uri[], "a"), w.pick(URIS, "b")];
          const field = kind.includes("output") ? "output" : "input";
          const v7 = kind.startsWith("gen_ai");
          const style = w.choose(3, "style");
          const part = (u: Uri, x: string) => (v7 ? { type: "blob", mime_type: u.type, content: x, modality: "image" } : style === 1 ? { type: "file", image: x, mediaType: u.type } : { type: "file", data: x, mediaType: u.type, filename: "AAAA" });
          const enc = (u: Uri) => (style === 2 ? str(u) : u.b64);
          const build = (f: (u: Uri) => string) => JSON.stringify([{ role: "AAAA", [v7 ? "parts" : "content"]: [{ type: "text", text: "Zm9v AAAA", content: "AAAA" }, part(us[0], f(us[0])), part(us[1], f(us[1])), v7 ? { type: "blob", mime_type: "image/png", content: "https://x/AAAA" } : { type: "file", data: "http://x/AAAA", mediaType: "image/png" }] }, { role: "system", [v7 ? "parts" : "content"]: v7 ? [] : "plain AAAA" }]);
          await play(w, [{ make: rawSpan(scope, { [kind]: build(enc), "gen_ai.system": "x" }), expect: [{ key: kind, value: build((u) => ref(u, "bytes")), media: us.map((u) => ({ u, field })) }] }], NET);
        },
      });
    out.push({
      name: "AI SDK parts, unusable",
      run: async (w) => {
        const kind = w.pick(["ai.prompt.messages", "ai.prompt", "gen_ai.input.messages"], "attr");
        const v = w.pick(["not json", "{}", "null", "[]", "[1]", '[{"content":"x"}]', '[{"content":[{"type":"file"}],"parts":[{"type":"blob"}]}]', '[{"content":[{"type":"text","data":"AAAA","mediaType":"image/png"}]}]', '[ {"content" : [ ] } ]'], "value");
        await play(w, [{ make: rawSpan("ai", { [kind]: v, "gen_ai.system": "x" }), expect: [{ key: kind, value: v, media: [] }] }], NET);
      },
    });
    // a usable part next to parts and messages that hold no media
    const ODD6: any[] = [{ type: "file" }, { type: "file", data: "", mediaType: "image/png" }, { type: "file", data: "AAAA" }, { type: "file", data: "AAAA", mediaType: 1 }, { type: "file", data: 5, mediaType: "image/png" }, { type: "file", data: { url: "x" }, mediaType: "image/png" }, { type: "text", data: "AAAA", mediaType: "image/png" }, { type: "file", image: "https://x/y", mediaType: "image/png" }, { type: "file", data: "http://x/y", mediaType: "image/png" }, { type: "file", data: "data:image/png,plain", mediaType: "image/png" }, { type: "file", data: "data:image/png;base64,", mediaType: "image/png" }, "AAAA", 7, {}];
    const ODD7: any[] = ODD6.map((p) => (p && typeof p === "object" ? { type: p.type === "file" ? "blob" : p.type, content: p.data ?? p.image, mime_type: p.mediaType } : p));
    const ODDMSG: any[] = [{ role: "user" }, { role: "user", content: "AAAA", parts: "AAAA" }, { content: null, parts: null }, { content: {}, parts: {} }, 5, "AAAA", []];
    out.push({
      name: "AI SDK parts, usable next to unusable",
      run: async (w) => {
        const kind = w.pick(["ai.prompt.messages", "ai.prompt", "gen_ai.input.messages", "gen_ai.output.messages"], "attr");
        const v7 = kind.startsWith("gen_ai");
        const u = w.pick([URIS[1], URIS[4]], "u");
        const inMsg = w.bool("odd message");
        const odd = inMsg ? w.pick(ODDMSG, "message") : w.pick(v7 ? ODD7 : ODD6, "part");
        const before = w.bool("before");
        const build = (x: string) => {
          const part = v7 ? { type: "blob", mime_type: u.type, content: x } : { type: "file", data: x, mediaType: u.type };
          const parts = inMsg ? [part] : before ? [odd, part] : [part, odd];
          const msg = { role: "user", [v7 ? "parts" : "content"]: parts };
          return JSON.stringify(!inMsg ? [msg] : before ? [odd, msg] : [msg, odd]);
        };
        await play(w, [{ make: rawSpan("ai", { [kind]: build(u.b64), "gen_ai.system": "x" }), expect: [{ key: kind, value: build(ref(u, "bytes")), media: [{ u, field: kind.includes("output") ? "output" : "input" }] }] }], NET);
      },
    });
    out.push({
      name: "attributes that are not text next to media",
      run: async (w) => {
        const u = w.pick(URIS.slice(0, 3), "u");
        const other = w.pick([5, 0, true, false, ["a", "b"], [1, 2], [] as string[]], "value");
        const key = w.pick(["langfuse.observation.metadata.n", "langfuse.observation.input", "langfuse.trace.metadata.n", "langfuse.observation.metadata"], "key");
        const mine = w.pick(["langfuse.observation.output", "langfuse.observation.metadata.z", "langfuse.trace.output", "langfuse.trace.metadata.a"], "media in");
        await play(w, [{ make: rawSpan("langfuse-sdk", { [key]: other, [mine]: "x " + str(u) }), expect: [{ key: mine, value: "x " + ref(u), media: [{ u, field: mine.includes("output") ? "output" : "metadata" }] }] }], NET);
      },
    });
    const aiSpec = (u: Uri, v7: boolean): SpanSpec => {
      const key = v7 ? "gen_ai.output.messages" : "ai.prompt.messages";
      const build = (x: string) => JSON.stringify([{ role: "user", [v7 ? "parts" : "content"]: [v7 ? { type: "blob", mime_type: u.type, content: x } : { type: "file", data: x, mediaType: u.type }] }]);
      return { make: rawSpan("ai", { [key]: build(u.b64) }), expect: [{ key, value: build(ref(u, "bytes")), media: [{ u, field: v7 ? "output" : "input" }] }] };
    };
    out.push({
      name: "AI SDK: same content repeated, both attribute styles and a data URI",
      run: async (w) => {
        const a = w.pick(URIS, "a"), b = w.pick(URIS, "b");
        const v6 = (f: (u: Uri) => string) => JSON.stringify([{ role: "u", content: [{ type: "file", data: f(a), mediaType: a.type }, { type: "file", data: f(a), mediaType: a.type }] }, { role: "u", content: [{ type: "file", image: f(b), mediaType: b.type }] }]);
        const v7 = (f: (u: Uri) => string) => JSON.stringify([{ parts: [{ type: "blob", mime_type: b.type, content: f(b) }, { type: "blob", mime_type: a.type, content: f(a) }] }]);
        const R = (u: Uri) => ref(u, "bytes");
        const raw = (u: Uri) => u.b64;
        await play(w, [{ make: rawSpan("ai", { "ai.prompt.messages": v6(raw), "gen_ai.input.messages": v7(raw), "langfuse.observation.input": str(a) }), expect: [{ key: "ai.prompt.messages", value: v6(R), media: [{ u: a, field: "input" }, { u: b, field: "input" }] }, { key: "gen_ai.input.messages", value: v7(R), media: [] }, { key: "langfuse.observation.input", value: ref(a), media: [] }] }], NET);
      },
    });
    // protocol
    const F = FIELDS;
    // histories on one processor: content that re-occurs after its upload succeeded or failed
    const hist: [string, () => SpanSpec[][]][] = [
      ["same content again", () => [[spec(F[0], [URIS[0]])], [spec(F[0], [URIS[0]])]]],
      ["same content, other field", () => [[spec(F[0], [URIS[0]])], [spec(F[1], ["x ", URIS[0]])]]],
      ["same bytes, other type", () => [[spec(F[0], [URIS[0]])], [spec(F[0], [URIS[3]])]]],
      ["AI SDK part again", () => [[aiSpec(URIS[0], false)], [aiSpec(URIS[0], false)]]],
      ["AI SDK v7 part again", () => [[aiSpec(URIS[1], true)], [aiSpec(URIS[1], true), spec(F[0], [URIS[1]])]]],
      ["data URI, then AI SDK part", () => [[spec(F[2], [URIS[0]])], [aiSpec(URIS[0], false)]]],
      ["without media, then with", () => [[spec(F[0], ["plain"])], [spec(F[0], [URIS[0]])], [spec(F[0], ["plain"])]]],
    ];
    for (const [n, mk] of hist)
      for (const overlap of [false, true]) out.push({ name: `history ${n}${overlap ? ", overlapping" : ""}`, run: (w) => play(w, mk(), { order: overlap, faults: overlap ? 1 : 2, exists: true, overlap }, { exportMode: w.pick(["batched", "immediate"] as const, "mode") }) });
    const protos: [string, () => SpanSpec[]][] = [
      ["one", () => [spec(F[0], [URIS[0]])]],
      ["two in one", () => [spec(F[0], [URIS[0], " ", URIS[1]])]],
      ["two spans", () => [spec(F[0], [URIS[0]]), spec(F[1], [URIS[4]])]],
      ["two spans same content", () => [spec(F[0], [URIS[0]]), spec(F[0], [URIS[0]])]],
      ["span without media", () => [spec(F[0], [URIS[2]]), spec(F[0], ["plain"])]],
    ];
    if (!q) protos.push(["three", () => [spec(F[0], [URIS[0], " ", URIS[1]]), spec(F[3], [URIS[4]])]]);
    for (const [n, mk] of protos)
      for (const mode of ["batched", "immediate"] as const) {
        out.push({ name: `orders ${n} ${mode}`, run: (w) => play(w, mk(), { order: true, faults: q ? 1 : n === "three" ? 1 : 2, exists: n === "one" || n.startsWith("two spans") }, { exportMode: mode }) });
        out.push({ name: `faults ${n} ${mode}`, run: (w) => play(w, mk(), { order: false, faults: n === "one" ? 4 : 2, exists: true }, { exportMode: mode }) });
      }
    return out;
  },
};
export default def;
