import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { LangfuseMedia, LangfuseMediaReference, uploadMedia } from "@langfuse/core";
import { LangfuseClient, MediaManager } from "@langfuse/client";
import { mk } from "./lib/api";
import { client, ENV0 } from "./lib/prompt";
import { sha, idFor, tagFor, b64, bytes, eqBytes, isRegister, isPut, isReport, idFromHash } from "./lib/media";
import { isDeepStrictEqual } from "node:util";

void LangfuseClient; void client; void ENV0;
const view = (() => {
  const big = Uint8Array.from([9, 9, 0, 255, 128, 10, 9, 9]);
  return big.subarray(2, 6);
})();
const bigView = Uint8Array.from({ length: 200_000 }, (_, i) => (i * 13 + (i >> 6)) & 255).subarray(777, 150_778);
const CONTENTS: { name: string; b: Uint8Array; type: string }[] = [
  { name: "png", b: bytes(137, 80, 78, 71, 13, 10), type: "image/png" },
  { name: "zero", b: bytes(0), type: "application/octet-stream" },
  { name: "view into a larger buffer", b: view, type: "audio/mpeg" },
  { name: "node buffer", b: Buffer.from("héllo\r\n\u0000"), type: "text/plain" },
  { name: "large", b: Uint8Array.from({ length: 70001 }, (_, i) => (i * 7 + (i >> 8)) & 255), type: "application/pdf" },
  { name: "large view into a larger buffer", b: bigView, type: "video/mp4" },
  { name: "long content type", b: bytes(255, 254, 0), type: "application/vnd.openxmlformats-officedocument.wordprocessingml.document" },
  { name: "megabytes", b: Buffer.alloc(2_500_001, "0123456789abcdef-"), type: "image/jpeg" },
];
const MEGA = CONTENTS.length - 1;
const OWNERS: any[] = [
  { traceId: "t1", field: "input" },
  { traceId: "t1", observationId: "o1", field: "output" },
  { datasetId: "d1", datasetItemId: "i1", field: "expectedOutput" },
  { field: "metadata" },
  { traceId: "0", observationId: "A b/ü", field: "output" },
  { datasetId: "d 1", datasetItemId: "I/1", field: "input" },
];
const HOSTS = [
  { url: "https://bucket.s3.amazonaws.com/k?X-Sig=a%2Fb&x=1", gcs: false },
  { url: "https://storage.googleapis.com/b/k?sig=1", gcs: true },
  { url: "https://b.storage.googleapis.com/k?sig=1", gcs: true },
  { url: "https://storage.googleapis.com.evil.test/k", gcs: false },
  { url: "https://acc.blob.core.windows.net/c/k", gcs: false },
  { url: "https://STORAGE.googleapis.com/b/k?sig=1", gcs: true },
  { url: "https://xstorage.googleapis.com/b/k", gcs: false },
  { url: "https://googleapis.com/storage.googleapis.com/k", gcs: false },
  { url: "http://minio:9000/b/k%20x+y?X-Amz-Signature=a%2Bb%3D&r=a+b", gcs: false },
  { url: "http://localhost:9090/storage.googleapis.com?u=https://storage.googleapis.com/", gcs: false },
];

const OTHER_ID: Record<string, (id: string, hash: string) => any> = {
  "other id": () => "AAAAAAAAAAAAAAAAAAAAAA",
  "lower case id": (i) => i.toLowerCase(),
  "upper case id": (i) => i.toUpperCase(),
  "longer id": (_, h) => h.replaceAll("+", "-").replaceAll("/", "_").slice(0, 23),
  "shorter id": (i) => i.slice(0, 21),
  "padded id": (i) => i + " ",
  "standard alphabet id": (_, h) => h.slice(0, 22),
  "hash as id": (_, h) => h,
  "null id": () => null,
  "no id": () => undefined,
  "empty id": () => "",
};

/** what the storage says about a failed transfer */
const cause = (n: number) => `<?xml version="1.0"?>\n<Error n="${n}">Ünï ${"long ".repeat(300)}</Error>`;
const upScen = (ci: number, maxRetries: number | undefined, alphabet: (number | "net" | "net: abort" | "net: reset")[], cfg: { owners?: boolean; hosts?: boolean; reg?: boolean; report?: boolean; random?: boolean }): Scenario => ({
  name: `upload ${CONTENTS[ci].name} retries ${maxRetries}${cfg.owners ? " owners" : ""}${cfg.hosts ? " hosts" : ""}${cfg.reg ? " registration" : ""}${cfg.report ? " report" : ""}${cfg.random ? " waits" : ""}`,
  run: async (w) => {
    const { b, type } = CONTENTS[ci];
    const owner = cfg.owners ? w.pick(OWNERS, "owner") : OWNERS[1];
    const host = cfg.hosts ? w.pick(HOSTS, "host") : HOSTS[0];
    const viaUri = w.bool("from data uri");
    const baseDelay = cfg.random ? w.pick([undefined, 200], "base delay") : undefined;
    if (cfg.random) {
      const v = w.pick([0, 0.999], "random");
      Math.random = () => v;
    }
    const media = viaUri ? new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${type};base64,${b64(b)}` }) : new LangfuseMedia({ source: "bytes", contentBytes: b, contentType: type as any });
    const reg = cfg.reg ? w.pick(["url", "no url", "null url", "other id", "lower case id", "upper case id", "longer id", "shorter id", "padded id", "standard alphabet id", "hash as id", "null id", "no id", "empty id", "500 then url", "429 then url", "404", "net"], "registration") : "url";
    const report = cfg.report ? w.pick(["ok", "500 then ok", "400", "net"], "report") : "ok";
    const eff = maxRetries ?? 3;
    const ok = (o: any) => o === 200 || o === 201;
    const puts: { r: Req; out: number | "net"; at: number }[] = [];
    const reports: Req[] = [];
    let regs = 0, reps = 0;
    const p = uploadMedia({ apiClient: mk(), media, ...owner, ...(maxRetries === undefined ? {} : { maxRetries }), ...(baseDelay === undefined ? {} : { baseDelay }) });
    const st = await w.settle(p, (r): Reply => {
      if (isRegister(r)) {
        regs++;
        const j = r.json;
        w.assert(puts.length === 0 && reports.length === 0, "order", "registers after transferring");
        const want: any = { contentLength: b.length, contentType: type, sha256Hash: sha(b), ...owner };
        w.assert(isDeepStrictEqual(j, want), "register", () => `registered with ${JSON.stringify(j)}, expected ${JSON.stringify(want)}`);
        if (reg === "404") return { status: 404, json: {} };
        if (reg === "net") return { error: new TypeError("fetch failed") };
        if (reg === "500 then url" && regs === 1) return { status: 500, json: {} };
        if (reg === "429 then url" && regs <= 2) return { status: 429, json: {} };
        const own = idFromHash(j.sha256Hash);
        const mediaId = OTHER_ID[reg] ? OTHER_ID[reg](own, j.sha256Hash) : own;
        return { status: 200, json: { mediaId, uploadUrl: reg === "no url" ? undefined : reg === "null url" ? null : host.url } };
      }
      if (isPut(r)) {
        w.assert(r.url === host.url, "put-url", `transferred to ${r.url}, expected ${host.url}`);
        w.assert(eqBytes(r.body, b), "put-bytes", () => `transferred bytes ${Buffer.from(r.body as any).toString("hex")}, expected ${Buffer.from(b).toString("hex")}`);
        w.assert(r.headers["content-type"] === type, "put-type", `transferred with content type ${r.headers["content-type"]}`);
        w.assert(r.headers["authorization"] === undefined, "put-auth", "credentials are sent to the storage host");
        if (host.gcs) w.assert(r.headers["x-amz-checksum-sha256"] === undefined && r.headers["x-ms-blob-type"] === undefined, "put-headers", () => `extra headers to ${host.url}: ${JSON.stringify(r.headers)}`);
        else w.assert(r.headers["x-amz-checksum-sha256"] === sha(b) && r.headers["x-ms-blob-type"] === "BlockBlob", "put-headers", () => `headers to ${host.url}: ${JSON.stringify(r.headers)}`);
        w.assert(reports.length === 0, "order", "transfers after the report");
        const out = w.pick(alphabet, "put");
        puts.push({ r, out, at: w.now });
        if (out === "net: abort") return { error: new DOMException("This operation was aborted", "AbortError") };
        if (out === "net: reset") return { error: Object.assign(new Error("socket hang up"), { code: "ECONNRESET" }) };
        if (out === "net") return { error: new TypeError("fetch failed") };
        return { status: out, text: ok(out) ? "" : cause(puts.length) };
      }
      if (isReport(r)) {
        reports.push(r);
        reps++;
        if (report === "400") return { status: 400, json: {} };
        if (report === "net") return { error: new TypeError("fetch failed") };
        if (report === "500 then ok" && reps === 1) return { status: 500, json: {} };
        return { status: 200, json: {} };
      }
      w.fail("request", `unexpected request ${r.method} ${r.url}`);
    });
    w.assert(st.done, "hang", "upload never settles");
    const seq = `registration ${reg}, transfers [${puts.map((p) => p.out).join(", ")}], report ${report}`;
    w.assert(regs >= 1, "register", `${seq}: never registered`);
    if (reg === "404" || reg === "net") {
      w.assert(!st.ok && puts.length === 0 && reports.length === 0, "register-failed", `${seq}: failed registration ${st.ok ? "resolved" : "continued"}`);
      return;
    }
    if (reg === "no url" || reg === "null url") {
      w.assert(st.ok, "exists", () => `${seq}: media the server already has: rejected with ${st.error}`);
      w.assert(puts.length === 0 && reports.length === 0, "exists", `${seq}: transfers media the server already has`);
      return;
    }
    if (OTHER_ID[reg] && OTHER_ID[reg](idFor(b), sha(b)) !== idFor(b)) {
      w.assert(!st.ok && puts.length === 0, "id-mismatch", `${seq}: id mismatch ignored`);
      return;
    }
    w.assert(puts.length >= 1 && puts.length <= eff + 1, "attempts", `${seq}: ${puts.length} transfers with ${eff} retries`);
    puts.forEach((p, i) => {
      const last = i === puts.length - 1;
      if (!last) w.assert(!ok(p.out), "repeated", `${seq}: transferred again after success`);
      else w.assert(ok(p.out) || i === eff, "gave-up", `${seq}: gave up after ${i + 1} of ${eff + 1} transfers`);
      if (!last) {
        const base = (baseDelay ?? 1000) * 2 ** i;
        const waited = puts[i + 1].at - p.at;
        w.assert(waited >= base && waited <= base + 1001, "wait", `${seq}: waited ${waited} ms before transfer ${i + 2}, expected ${base}..${base + 1000}`);
      }
    });
    const f = puts[puts.length - 1].out;
    if (typeof f === "string") {
      w.assert(!st.ok, "resolved", `${seq}: resolved although the transfer failed`);
      for (const r of reports) w.assert(!ok(r.json.uploadHttpStatus), "report", `${seq}: a failed transfer is reported as ${r.json.uploadHttpStatus}`);
      return;
    }
    w.assert(reports.length >= 1, "report", `${seq}: final status is not reported`);
    for (const r of reports) {
      w.assert(r.path === "/api/public/media/" + encodeURIComponent(idFor(b)), "report", `${seq}: reported for ${r.path}`);
      w.assert(r.json.uploadHttpStatus === f, "report", `${seq}: reported status ${r.json.uploadHttpStatus}`);
      if (!ok(f)) w.assert(r.json.uploadHttpError === cause(puts.length), "report", `${seq}: reported error ${r.json.uploadHttpError}`);
      w.assert(Number.isFinite(Date.parse(r.json.uploadedAt)), "report", `${seq}: reported time ${r.json.uploadedAt}`);
      const took = r.json.uploadTimeMs;
      w.assert(typeof took === "number" && took >= 0 && took <= w.now - puts[0].at + 1, "report", `${seq}: reported duration ${took}`);
    }
    if (ok(f) && (report === "ok" || report === "500 then ok")) w.assert(st.ok, "rejected", () => `${seq}: rejected with ${st.error}`);
    if (!ok(f)) w.assert(!st.ok, "resolved", `${seq}: resolved although the transfer failed`);
  },
});

/** several uploads through one API client: each transfers its own content and settles on its own outcome */
const manyScen = (n: number, same: boolean): Scenario => ({
  name: `${n} uploads at once${same ? " of one content" : ""}`,
  run: async (w) => {
    const api = mk();
    const cs = Array.from({ length: n }, (_, i) => (same ? bytes(1, 2, 3) : bytes(i, 1, 2)));
    const sts: any[] = cs.map(() => ({}));
    const medias = cs.map((b) => new LangfuseMedia({ source: "bytes", contentBytes: b, contentType: "image/png" as any }));
    const shared = same && w.bool("one media object");
    cs.forEach((b, i) => {
      uploadMedia({ apiClient: api, media: shared ? medias[0] : medias[i], traceId: "t" + i, field: "input", maxRetries: 1 }).then(() => (sts[i] = { done: true, ok: true }), (e) => (sts[i] = { done: true, ok: false, error: e }));
    });
    const hist: any[] = cs.map(() => ({ puts: [], reports: [] }));
    await w.system({
      timerBudget: 20,
      timerHorizon: 5000,
      replies: (r) => {
        if (isRegister(r)) {
          const i = Number(r.json.traceId.slice(1));
          w.assert(r.json.sha256Hash === sha(cs[i]), "register", "registers other content");
          hist[i].registered = true;
          return [{ name: "url", reply: () => ({ status: 200, json: { mediaId: idFor(cs[i]), uploadUrl: "https://s.test/" + i } }) }];
        }
        if (isPut(r)) {
          const i = Number(r.url.slice("https://s.test/".length));
          w.assert(eqBytes(r.body, cs[i]), "put-bytes", "transfers other content");
          return [200, 500].map((s) => ({ name: String(s), reply: () => (hist[i].puts.push(s), { status: s, text: s === 200 ? "" : "cause " + i }) }));
        }
        w.assert(isReport(r), "request", `unexpected ${r.method} ${r.url}`);
        return [{ name: "ok", reply: () => (hist[0].all = [...(hist[0].all ?? []), { path: r.path, s: r.json.uploadHttpStatus, e: r.json.uploadHttpError }], { status: 200, json: {} }) }];
      },
    });
    cs.forEach((b, i) => {
      const last = hist[i].puts[hist[i].puts.length - 1];
      w.assert(sts[i].done, "hang", `upload ${i} never settles`);
      w.assert(last !== undefined, "put-missing", `upload ${i} never transferred`);
      w.assert(sts[i].ok === (last === 200), last === 200 ? "rejected" : "resolved", () => `upload ${i}, transfers ${hist[i].puts}: ${sts[i].ok ? "resolved" : sts[i].error}`);
      w.assert(hist[i].puts.length === (hist[i].puts[0] === 200 ? 1 : 2), "attempts", `upload ${i}: transfers ${hist[i].puts}`);
    });
    const key = (x: any) => JSON.stringify(x);
    const want = cs.map((b, i) => ({ path: "/api/public/media/" + idFor(b), s: hist[i].puts[hist[i].puts.length - 1] })).map(key).sort();
    w.assert(isDeepStrictEqual((hist[0].all ?? []).map((x: any) => key({ path: x.path, s: x.s })).sort(), want), "report", () => `reports ${JSON.stringify(hist[0].all)}, expected ${want}`);
  },
});

// ------------------------------------------------------------------ value conversions
const TYPES = ["image/png", "Image/X-Emf", "image/svg+xml", "audio/x-wav", "application/vnd.ms-excel", "text/plain", "application/vnd.openxmlformats-officedocument.wordprocessingml.document"];
const ids = new Map<string, string>();
async function conv(w: World, b: Uint8Array, type: string) {
  const hex = Buffer.from(b).toString("hex");
  const m = new LangfuseMedia({ source: "bytes", contentBytes: b, contentType: type as any });
  const id = await m.getId();
  w.assert(id === idFor(b), "id", `content ${hex}: id ${id}`);
  const prev = ids.get(id!);
  w.assert(prev === undefined || prev === hex, "collision", `contents ${hex} and ${prev} share the id ${id}`);
  ids.set(id!, hex);
  w.assert((await m.getSha256Hash()) === sha(b), "hash", `content ${hex}: wrong hash`);
  w.assert(m.contentLength === b.length, "length", `content ${hex}: length ${m.contentLength}`);
  const uri = m.base64DataUri;
  w.assert(uri === `data:${type};base64,${b64(b)}`, "uri", `content ${hex}: data URI ${uri}`);
  w.assert(JSON.stringify({ m }) === JSON.stringify({ m: uri }), "json", `content ${hex}: serialises to ${JSON.stringify({ m })}`);
  const back = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: uri! });
  w.assert(eqBytes(back._contentBytes, b) && back._contentType === type && (await back.getId()) === id && back.base64DataUri === uri, "round-trip", `content ${hex} ${type}: data URI does not convert back`);
  for (const [x, src] of [[m, "bytes"], [back, "base64_data_uri"]] as const) {
    const tag = await x.getTag();
    w.assert(tag === tagFor(b, type, src), "tag", `content ${hex}: reference ${tag}`);
    const parsed: any = MediaManager.parseReferenceString(tag!);
    w.assert(parsed.mediaId === id && parsed.contentType === type && parsed.source === src, "parse", () => `reference ${tag} parses to ${JSON.stringify(parsed)}`);
  }
}
const convScen = (first: number, deep: boolean): Scenario => ({
  name: `conversions first byte ${first}`,
  run: async (w) => {
    if (first === 0) for (const t of TYPES) await conv(w, bytes(1, 2, 3), t);
    await conv(w, bytes(first), "image/png");
    for (let s = 0; s < 256; s += deep ? 1 : 5) await conv(w, bytes(first, s), "image/png");
    for (const s of [0, 1, 127, 128, 255]) for (const t of [0, 62, 63, 250, 255]) await conv(w, bytes(first, s, t), TYPES[(s + t) % TYPES.length]);
  },
});
const bigScen: Scenario = {
  name: "large contents and parameterised data URIs",
  run: async (w) => {
    for (const n of [10, 255, 256, 257, 1000, 4095, 4096, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537, 200000])
      await conv(w, Uint8Array.from({ length: n }, (_, i) => (i * 31 + (i >> 7)) & 255), TYPES[n % TYPES.length]);
    for (const [h, type] of [["image/png;charset=utf-8;base64", "image/png"], ["text/plain;a=b;c=d;base64", "text/plain"], ["image/PNG;base64", "image/PNG"]]) {
      const m = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${h},${b64(bytes(1, 250, 63))}` });
      w.assert(eqBytes(m._contentBytes, bytes(1, 250, 63)) && m._contentType === type, "uri-parse", `data URI header ${h}: type ${m._contentType}`);
    }
  },
};
const BADURI = ["", "x", "data:", "data:image/png;base64,", "data:image/png,AAAA", "data:;base64,AAAA", "DATA:image/png;base64,AAAA", "data:image/png;base64"];
const badScen: Scenario = {
  name: "invalid data URIs",
  run: async (w) => {
    const u: any = w.pick([...BADURI, null, undefined, 5], "uri");
    let m: any;
    try {
      m = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: u });
    } catch (e) {
      w.fail("throws", `media from ${JSON.stringify(u)} throws ${e}`);
    }
    w.assert((await m.getId()) === null && (await m.getTag()) === null && m.base64DataUri === null, "invalid", `media from ${JSON.stringify(u)} has content`);
    const st = await w.settle(uploadMedia({ apiClient: mk(), media: m, traceId: "t", field: "input" }), () => ({ status: 200, json: {} }));
    w.assert(!st.ok && w.reqs.length === 0, "invalid-upload", `media from ${JSON.stringify(u)} is uploaded`);
  },
};
const BADREF = ["", "@@@langfuseMedia:@@@", "@@@langfuseMedia:type=a/b|id=1@@@", "@@@langfuseMedia:type=a/b|source=bytes@@@", "langfuseMedia:type=a/b|id=1|source=bytes@@@", "@@@langfuseMedia:type=a/b|id=1|source=bytes", "x@@@langfuseMedia:type=a/b|id=1|source=bytes@@@"];
const refScen: Scenario = {
  name: "resolved references",
  run: async (w) => {
    if (w.bool("invalid strings")) {
      const s = w.pick(BADREF, "string");
      let v: any;
      try {
        v = MediaManager.parseReferenceString(s);
      } catch {
        return;
      }
      w.fail("parse", `${JSON.stringify(s)} parses to ${JSON.stringify(v)}`);
    }
    const b = w.pick(CONTENTS, "content");
    const expiry = w.pick([undefined, "nonsense", -1, 0, 59, 60, 60.03, 61, 3600], "expiry");
    const ref = new LangfuseMediaReference({
      mediaId: idFor(b.b), contentType: b.type, url: "https://s.test/x?sig=1", referenceString: tagFor(b.b, b.type, "bytes"),
      urlExpiry: typeof expiry === "number" ? new Date(w.now + expiry * 1000).toISOString() : expiry,
    });
    w.assert(JSON.stringify([ref]) === JSON.stringify([tagFor(b.b, b.type, "bytes")]), "reference-json", "a resolved reference does not serialise to its reference string");
    const wantExp = typeof expiry === "number" ? expiry <= 60 : false;
    w.assert(ref.isUrlExpired() === wantExp, "expiry", `expiry in ${expiry} s: isUrlExpired ${ref.isUrlExpired()}`);
    w.assert(ref.isUrlExpired(0) === (typeof expiry === "number" ? expiry <= 0 : false), "expiry", `expiry in ${expiry} s: isUrlExpired(0)`);
    const status = w.pick([200, 404, 500, "net"], "status");
    const how = w.pick(["fetchBytes", "fetchBase64", "fetchDataUri"] as const, "how");
    const st = await w.settle((ref as any)[how](), (r) => {
      w.assert(r.url === "https://s.test/x?sig=1" && r.method === "GET", "download", `downloads ${r.method} ${r.url}`);
      return status === "net" ? { error: new TypeError("x") } : { status: status as number, bytes: status === 200 ? b.b : bytes(1) };
    });
    if (status !== 200) w.assert(!st.ok, "download", `${how} with status ${status} resolved`);
    else {
      w.assert(st.ok, "download", () => `${how} rejected ${st.error}`);
      const okv = how === "fetchBytes" ? eqBytes(st.value, b.b) : st.value === (how === "fetchBase64" ? b64(b.b) : `data:${b.type};base64,${b64(b.b)}`);
      w.assert(okv, "download", `${how} gives other content for ${b.name}`);
    }
  },
};

const def: CheckDef = {
  property: "C02",
  bounds: (t) => `${t}: all transfer outcome sequences (200, 201, 204, 400, 403, 500, network failure) for 0..${t === "quick" ? 2 : 3} retries and the default, x registration and report outcomes, owners, storage hosts and jitter extremes; conversions of all 1-byte, ${t === "quick" ? "every fifth" : "all"} 2-byte and 25 3-byte contents per first byte`,
  assumptions: ["non-empty content", "sha-256 is collision free", "crypto.subtle.digest is replaced by an equal synchronous computation"],
  scenarios: (tier) => {
    const out: Scenario[] = [];
    const full: (number | "net" | "net: abort" | "net: reset")[] = [200, 201, 204, 400, 403, 500, "net"];
    const few: (number | "net" | "net: abort" | "net: reset")[] = [200, 503, "net"];
    out.push(upScen(3, 2, [200, "net", "net: abort", "net: reset"], {}));
    for (let r = 0; r <= (tier === "quick" ? 2 : 3); r++) out.push(upScen(0, r, full, {}));
    out.push(upScen(1, undefined, tier === "quick" ? [200, 403, "net"] : full, {}));
    out.push(upScen(MEGA, 1, few, {}));
    for (let c = 0; c < MEGA; c++) {
      out.push(upScen(c, 1, few, { owners: true, hosts: true }), upScen(c, 1, few, { reg: true, report: true }));
    }
    out.push(upScen(0, 3, [200, 500, "net"], { random: true }));
    for (let f = 0; f < 256; f++) out.push(convScen(f, tier !== "quick"));
    out.push(badScen, refScen, bigScen, upScen(1, 1, [200, 201, 202, 204, 206, 301, 304, 400, 401, 403, 404, 408, 409, 412, 429, 500, 503, "net"], {}));
    out.push(manyScen(2, false), manyScen(2, true));
    if (tier !== "quick") out.push(manyScen(3, true));
    return out;
  },
};
export default def;
