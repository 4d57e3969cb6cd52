/** Stand-in for http(s).request: OTLP export requests become requests of the controlled network. */
import http from "node:http";
import https from "node:https";
import { syncBuiltinESMExports } from "node:module";
import { EventEmitter } from "node:events";
import type { Req } from "../../mc/engine";

class FakeRequest extends EventEmitter {
  chunks: Buffer[] = [];
  headers: Record<string, string>;
  done = false;
  ctl = new AbortController();
  writable = true;
  timer: any;
  constructor(public url: string, public opts: any, public cb: (res: any) => void) {
    super();
    this.headers = { ...opts.headers };
  }
  setHeader(k: string, v: string) {
    this.headers[k] = v;
  }
  setTimeout(ms: number, cb: () => void) {
    this.timer = setTimeout(() => {
      if (!this.done) cb();
    }, ms);
    return this;
  }
  destroy() {
    this.done = true;
    clearTimeout(this.timer);
    this.ctl.abort();
  }
  write(c: any) {
    this.chunks.push(Buffer.from(c));
    return true;
  }
  end(c?: any) {
    if (c) this.write(c);
    const body = Buffer.concat(this.chunks).toString("utf8");
    fetch(this.url, { method: this.opts.method ?? "GET", headers: this.headers, body, signal: this.ctl.signal }).then(
      async (r: any) => {
        this.done = true;
        clearTimeout(this.timer);
        const data = Buffer.from(await r.arrayBuffer());
        const res: any = new EventEmitter();
        res.statusCode = r.status;
        res.statusMessage = r.statusText;
        res.headers = Object.fromEntries(r.headers);
        res.destroy = () => {};
        this.cb(res);
        if (data.length) res.emit("data", data);
        res.emit("end");
      },
      (e) => {
        if (this.done) return;
        this.done = true;
        clearTimeout(this.timer);
        this.emit("error", e);
      },
    );
    this.emit("finish");
    return this;
  }
}
const fake = (url: any, opts: any, cb: any) => new FakeRequest(String(url), opts, cb);
let patched = false;
export async function patchHttp() {
  if (patched) return;
  patched = true;
  (http as any).request = fake;
  (https as any).request = fake;
  syncBuiltinESMExports();
  await import("http");
  await import("https");
}
export const isOtlp = (r: Req) => /\/v1\/traces$/.test(r.path);
const val = (v: any): any => ("stringValue" in v ? v.stringValue : "intValue" in v ? Number(v.intValue) : "boolValue" in v ? v.boolValue : "doubleValue" in v ? v.doubleValue : "arrayValue" in v ? (v.arrayValue.values ?? []).map(val) : v);
export type WireSpan = { id: string; trace: string; parent?: string; name: string; scope: string; attributes: Record<string, any>; status: any };
/** the spans an OTLP request carries */
export function spansOf(r: Req): WireSpan[] {
  const out: WireSpan[] = [];
  const b = JSON.parse(String(r.body));
  for (const rs of b.resourceSpans ?? [])
    for (const ss of rs.scopeSpans ?? [])
      for (const s of ss.spans ?? []) out.push({ id: s.spanId, trace: s.traceId, parent: s.parentSpanId || undefined, name: s.name, scope: ss.scope?.name, attributes: Object.fromEntries((s.attributes ?? []).map((a: any) => [a.key, val(a.value)])), status: s.status });
  return out;
}
