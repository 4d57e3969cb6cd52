import { isDeepStrictEqual } from "node:util";
import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { startObservation } from "@langfuse/tracing";
import { provider, useGlobal } from "./lib/otel";
import { ENV0 } from "./lib/prompt";
import { patchHttp, isOtlp, spansOf } from "./lib/otlp";

const show = (v: any) => JSON.stringify(v);
const b64 = (s: string) => Buffer.from(s, "utf8").toString("base64");
const OTEL0 = Object.fromEntries(["OTEL_EXPORTER_OTLP_ENDPOINT", "OTEL_EXPORTER_OTLP_TRACES_ENDPOINT", "OTEL_EXPORTER_OTLP_HEADERS", "OTEL_EXPORTER_OTLP_TRACES_HEADERS", "OTEL_EXPORTER_OTLP_TIMEOUT", "OTEL_BSP_SCHEDULE_DELAY", "OTEL_BSP_MAX_EXPORT_BATCH_SIZE", "OTEL_BSP_MAX_QUEUE_SIZE"].map((k) => [k, undefined]));
const PNG = "data:image/png;base64," + Buffer.from([1, 2, 3]).toString("base64");
const answer = (r: Req): Reply => {
  if (isOtlp(r)) return { status: 200, json: {} };
  if (r.path.endsWith("/media")) return { status: 200, json: { mediaId: r.json.mediaId ?? "m", uploadUrl: null } };
  return { status: 200, json: {} };
};
function rig(w: World, params: any, env: any = {}) {
  w.env({ ...ENV0, ...OTEL0, ...env });
  const proc = new LangfuseSpanProcessor(params);
  const p = provider([proc as any]);
  useGlobal(p);
  return { proc, p };
}
/** every OTLP request sent so far */
const otlp = (w: World) => w.reqs.filter(isOtlp);
const drain = async (w: World) => {
  for (let i = 0; i < 4; i++) await w.drain();
};
const KEYS = ["pk-1", "pk:ü/ 2"], SECRETS = ["sk-1", "sk:with:colons ü"];

/** where, and with which credentials and headers, spans and media requests are sent */
const addressScen: Scenario = {
  name: "address, credentials and headers",
  run: async (w: World) => {
    await patchHttp();
    const src = (label: string) => w.pick(["param", "env", "both"] as const, label);
    const params: any = {}, env: any = {};
    const sp = src("public key"), ss = src("secret key");
    const pk = KEYS[0], sk = w.pick(SECRETS, "sk");
    if (sp !== "env") params.publicKey = pk;
    if (sp !== "param") env.LANGFUSE_PUBLIC_KEY = sp === "both" ? "pk-wrong" : pk;
    if (ss !== "env") params.secretKey = sk;
    if (ss !== "param") env.LANGFUSE_SECRET_KEY = ss === "both" ? "sk-wrong" : sk;
    const bp = w.bool("base url given"), be = w.bool("LANGFUSE_BASE_URL"), bl = w.bool("LANGFUSE_BASEURL");
    if (bp) params.baseUrl = "https://param.example:8443/sub";
    if (be) env.LANGFUSE_BASE_URL = "https://env.example";
    if (bl) env.LANGFUSE_BASEURL = "http://legacy.example:3000";
    // a slash at the end of the address makes no difference
    if (bp) params.baseUrl += w.pick(["", "/"], "slash");
    else if (be) env.LANGFUSE_BASE_URL += w.pick(["", "/"], "slash");
    const base = bp ? "https://param.example:8443/sub" : be ? "https://env.example" : bl ? "http://legacy.example:3000" : "https://cloud.langfuse.com";
    const hd = w.pick<any>([undefined, {}, { "X-Extra": "e 1", "x-other": "2" }], "headers");
    if (hd) params.additionalHeaders = hd;
    params.exportMode = w.pick([undefined, "batched", "immediate"], "mode");
    const { proc } = rig(w, params, env);
    w.env({ LANGFUSE_PUBLIC_KEY: "later", LANGFUSE_SECRET_KEY: "later", LANGFUSE_BASE_URL: "http://later", LANGFUSE_BASEURL: "http://later" });
    startObservation("a", { input: PNG }).end();
    const st = await w.settle(proc.forceFlush(), answer);
    w.assert(st.ok, "flush", () => `forceFlush failed: ${st.error}`);
    const ex = otlp(w), media = w.reqs.filter((r) => !isOtlp(r));
    w.assert(ex.length === 1 && ex[0].method === "POST", "exports", `${ex.length} export requests for one span`);
    w.assert(media.length > 0, "media", "no media registration");
    w.assert(ex[0].url === base + "/api/public/otel/v1/traces", "address", () => `spans sent to ${ex[0].url}, configured is ${base}`);
    for (const r of w.reqs) {
      w.assert(r.url.startsWith(base + "/api/public/") && !r.url.slice(9).includes("//"), "address", () => `request to ${r.url}, configured is ${base}`);
      w.assert(r.headers.authorization === `Basic ${b64(`${pk}:${sk}`)}`, "credentials", () => `${r.url}: authorization ${r.headers.authorization}`);
      w.assert(r.headers["x-langfuse-sdk-name"] === "javascript" && /^\d+\.\d+/.test(r.headers["x-langfuse-sdk-version"] ?? "") && r.headers["x-langfuse-public-key"] === pk, "sdk-headers", () => `${r.url}: SDK headers ${show(r.headers)}`);
      for (const [k, v] of Object.entries(hd ?? {})) w.assert(r.headers[k.toLowerCase()] === v, "headers", () => `${r.url}: header ${k} is ${r.headers[k.toLowerCase()]}`);
    }
    w.assert(ex[0].headers["content-type"] === "application/json", "content-type", () => `content type ${ex[0].headers["content-type"]}`);
  },
};

type Src = "none" | "param" | "env" | "both";
const SRC: Src[] = ["none", "param", "env", "both"];
/** flushAt / flushInterval / mode decide when spans are sent */
const whenScen = (n: number): Scenario => ({
  name: `when spans are sent (${n} spans)`,
  run: async (w: World) => {
    await patchHttp();
    const mode = w.pick<any>([undefined, "batched", "immediate"], "mode");
    const fa = w.pick(SRC, "flushAt"), fi = w.pick(SRC, "flushInterval");
    const at = w.pick([1, 2, 3], "threshold"), interval = w.pick([0.05, 0.5, 2, 30], "interval");
    const params: any = { publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", exportMode: mode }, env: any = {};
    if (fa === "param" || fa === "both") params.flushAt = at;
    if (fa === "env" || fa === "both") env.LANGFUSE_FLUSH_AT = String(fa === "both" ? at + 4 : at);
    if (fi === "param" || fi === "both") params.flushInterval = interval;
    if (fi === "env" || fi === "both") env.LANGFUSE_FLUSH_INTERVAL = String(fi === "both" ? interval + 7 : interval);
    const T = fa === "none" ? 512 : at, I = (fi === "none" ? 5 : interval) * 1000;
    w.onFetch = (r) => r.reply(answer(r));
    const { proc, p } = rig(w, params, env);
    const sent = () => otlp(w).flatMap(spansOf).map((s) => s.name);
    for (let i = 0; i < n; i++) {
      startObservation("s" + i).end();
      await drain(w);
      const want = mode === "immediate" ? i + 1 : Math.floor((i + 1) / T) * T;
      w.assert(sent().length === want, "threshold", () => `after ${i + 1} ended spans ${sent().length} are sent (threshold ${T}, mode ${mode ?? "default"})`);
    }
    const left = mode === "immediate" ? 0 : n % T;
    if (left) {
      await w.advance(I - 1);
      await drain(w);
      w.assert(sent().length === n - left, "interval", () => `spans sent before the flush interval of ${I} ms passed`);
      await w.advance(2);
      await drain(w);
    }
    w.assert(isDeepStrictEqual(sent().sort(), Array.from({ length: n }, (_, i) => "s" + i).sort()), "interval", () => `after the flush interval ${show(sent())} of ${n} spans are sent`);
    for (const r of otlp(w)) w.assert(mode === "immediate" ? spansOf(r).length === 1 : spansOf(r).length <= T, "batch", () => `a request carries ${spansOf(r).length} spans, threshold ${T}`);
    void p; void proc;
  },
});
/** the default threshold */
const defaultScen: Scenario = {
  name: "default batch size",
  run: async (w: World) => {
    await patchHttp();
    const n = w.pick([511, 512, 513], "spans");
    w.onFetch = (r) => r.reply(answer(r));
    rig(w, { publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", mediaUploadEnabled: false });
    for (let i = 0; i < n; i++) startObservation("s" + i).end();
    await drain(w);
    const sent = () => otlp(w).flatMap(spansOf).length;
    w.assert(sent() === (n >= 512 ? 512 : 0), "threshold", () => `${sent()} of ${n} spans sent at once`);
    await w.advance(5001);
    await drain(w);
    w.assert(sent() === n, "interval", () => `${sent()} of ${n} spans sent after 5 s`);
  },
};

/** export request timeout */
const timeoutScen: Scenario = {
  name: "export timeout",
  run: async (w: World) => {
    await patchHttp();
    const how = w.pick(SRC, "source");
    const t = w.pick([2, 7], "seconds");
    const mode = w.pick<any>(["batched", "immediate"], "mode");
    const params: any = { publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", exportMode: mode }, env: any = {};
    if (how === "param" || how === "both") params.timeout = t;
    if (how === "env" || how === "both") env.LANGFUSE_TIMEOUT = String(how === "both" ? t + 9 : t);
    const T = (how === "none" ? 5 : t) * 1000;
    const { proc } = rig(w, params, env);
    startObservation("a").end();
    const done = proc.forceFlush().then(() => "ok", () => "failed");
    void done;
    await drain(w);
    const r = otlp(w)[0];
    w.assert(r, "no-request", "no export request");
    await w.advance(T - 1 - (w.now - r.issuedAt));
    await drain(w);
    w.assert(r.state === "pending", "timeout", () => `the export was given up before ${T} ms`);
    await w.advance(2);
    await drain(w);
    w.assert(r.state === "aborted", "timeout", () => `the export is still waiting after ${T} ms`);
    await w.advance(T);
    // later spans are unaffected
    startObservation("b").end();
    const st = await w.settle(proc.forceFlush().catch(() => {}), answer);
    w.assert(st.done, "stuck", "forceFlush never settled after a timed out export");
    w.assert(otlp(w).flatMap(spansOf).some((s) => s.name === "b"), "lost", "a span ended after a timed out export was not sent");
  },
};

const VALUES: any[] = ["x", "", 0, true, null, { a: ["ü", 1.5, { b: null }] }, [1, "2"], "a\nb\"\\", "L".repeat(300_000) + "é", Array.from({ length: 3000 }, (_, i) => ({ i }))];
/** what arrives on the wire */
const contentScen: Scenario = {
  name: "content on the wire",
  run: async (w: World) => {
    await patchHttp();
    const { proc } = rig(w, { publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", exportMode: w.pick<any>(["batched", "immediate"], "mode"), environment: "env-1", release: "rel-1", mediaUploadEnabled: false });
    const input = w.pick(VALUES, "input"), output = w.pick(VALUES, "output");
    const a: any = startObservation("root ü", { input, metadata: { k: "v" } });
    const b: any = a.startObservation("child", { output, model: "m", usageDetails: { input: 3 } }, { asType: "generation" });
    b.end();
    a.end();
    const st = await w.settle(proc.forceFlush(), answer);
    w.assert(st.ok, "flush", () => `forceFlush failed: ${st.error}`);
    const got = otlp(w).flatMap(spansOf);
    w.assert(got.length === 2, "spans", () => `${got.length} spans on the wire`);
    const root = got.find((s) => s.name === "root ü")!, child = got.find((s) => s.name === "child")!;
    w.assert(root && child && root.id === a.id && root.trace === a.traceId && child.id === b.id && child.trace === a.traceId && child.parent === a.id && !root.parent, "ids", () => show(got));
    for (const s of got) w.assert(s.attributes["langfuse.environment"] === "env-1" && s.attributes["langfuse.release"] === "rel-1", "attributes", () => show(s.attributes));
    const own: [any, any][] = [[root, a], [child, b]];
    for (const [s, o] of own) w.assert(isDeepStrictEqual(s.attributes, { ...o.otelSpan.attributes }), "attributes", () => `on the wire ${show(s.attributes)}, recorded ${show(o.otelSpan.attributes)}`);
    const ser = (v: any) => (typeof v === "string" ? v : JSON.stringify(v));
    w.assert(root.attributes["langfuse.observation.input"] === (input === null ? undefined : ser(input)) || input === null, "attributes", () => show(root.attributes));
    w.assert(root.attributes["langfuse.observation.metadata.k"] === "v" && child.attributes["langfuse.observation.model.name"] === "m", "attributes", () => show(got));
  },
};

/** media upload switch and own exporter */
const mediaScen: Scenario = {
  name: "media switch and own exporter",
  run: async (w: World) => {
    await patchHttp();
    const param = w.pick<any>([undefined, true, false], "param");
    const envv = w.pick<any>([undefined, "true", "false", "0", "1", "FALSE", "False", "yes", ""], "env");
    const own = w.bool("own exporter");
    const got: any[] = [];
    const exporter = { export: (s: any[], cb: any) => (got.push(...s), cb({ code: 0 })), shutdown: async () => {}, forceFlush: async () => {} };
    const params: any = { publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", ...(param === undefined ? {} : { mediaUploadEnabled: param }), ...(own ? { exporter } : {}) };
    const { proc } = rig(w, params, { LANGFUSE_MEDIA_UPLOAD_ENABLED: envv });
    startObservation("a", { input: { x: PNG } }).end();
    const st = await w.settle(proc.forceFlush(), answer);
    w.assert(st.ok, "flush", () => `forceFlush failed: ${st.error}`);
    const on = param ?? !(envv !== undefined && ["false", "0"].includes(envv.toLowerCase()));
    const media = w.reqs.filter((r) => !isOtlp(r));
    w.assert(media.length > 0 === on, "media", () => `media upload is ${on ? "on" : "off"} (param ${param}, env ${envv}) but ${media.length} media requests were sent`);
    const spans = own ? got : otlp(w).flatMap(spansOf);
    w.assert(spans.length === 1 && (own ? otlp(w).length === 0 : true), "exporter", () => `${spans.length} spans exported, ${otlp(w).length} requests`);
    const v = String(spans[0].attributes["langfuse.observation.input"]);
    w.assert(v.includes(PNG) === !on && v.includes("@@@langfuseMedia:") === on, "media", () => `input is exported as ${v}`);
  },
};

/** all outcomes of the export requests: every span is sent once, whatever the others' fate */
const faultScen = (threads: number): Scenario => ({
  name: `export outcomes, ${threads} spans`,
  run: async (w: World) => {
    await patchHttp();
    const mode = w.pick<any>(["batched", "immediate"], "mode");
    const { proc } = rig(w, { publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", exportMode: mode, flushAt: 1, mediaUploadEnabled: false });
    for (let i = 0; i < threads; i++) {
      startObservation("s" + i).end();
      await drain(w);
    }
    const fl = proc.forceFlush().then(() => "ok", () => "failed");
    const fates = new Map<string, string>();
    const st = await w.settle(fl, (r) => {
      const k = spansOf(r)[0].name;
      const f = fates.has(k) ? "ok" : w.pick(["ok", "500", "503", "network"], `answer for ${k}`);
      if (!fates.has(k)) fates.set(k, f);
      return f === "ok" ? { status: 200, json: {} } : f === "network" ? { error: Object.assign(new Error("net"), { code: "ECONNRESET" }) } : { status: Number(f), json: {} };
    });
    w.assert(st.done, "stuck", "forceFlush never settled");
    const counts = new Map<string, Set<string>>();
    for (const r of otlp(w)) for (const s of spansOf(r)) counts.set(s.name, (counts.get(s.name) ?? new Set()).add(s.id));
    for (let i = 0; i < threads; i++) w.assert(counts.get("s" + i)?.size === 1, "lost", () => `span s${i} was ${counts.get("s" + i) ? "sent under several ids" : "never sent"} (${show([...fates])})`);
    const oks = otlp(w).filter((r) => fates.get(spansOf(r)[0].name) === "ok");
    w.assert(new Set(oks.map((r) => spansOf(r)[0].name)).size === oks.length, "twice", "a span whose request succeeded was sent again");
  },
});

const def: CheckDef = {
  property: "O06",
  bounds: () => "all source combinations of keys, base address, headers, threshold, interval, timeout, media switch; up to 3 (thorough 5) spans; all export outcomes",
  assumptions: ["the OTLP exporter of OpenTelemetry is executed for real; only http(s).request below it is replaced by the controlled network"],
  scenarios: (tier) => [addressScen, ...(tier === "quick" ? [1, 3] : [1, 2, 3, 4, 7]).map(whenScen), defaultScen, timeoutScen, contentScen, mediaScen, ...(tier === "quick" ? [2] : [2, 3, 4]).map(faultScen)],
};
export default def;
