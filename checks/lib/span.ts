/** A LangfuseSpanProcessor with a recording exporter behind the real tracer provider. */
import type { World } from "../../mc/engine";
import { LangfuseSpanProcessor } from "@langfuse/otel";
import { provider, useGlobal } from "./otel";
import { ENV0 } from "./prompt";

export type Exported = { id: string; trace: string; parent?: string; name: string; scope: string; attributes: Record<string, any>; status: any; start: number; end: number };
export type SpanRig = { proc: any; provider: any; exported: Exported[]; byId(id: string): Exported | undefined };
const ms = (h: [number, number]) => h[0] * 1000 + h[1] / 1e6;
export function record(x: any): Exported {
  return { id: x.spanContext().spanId, trace: x.spanContext().traceId, parent: x.parentSpanContext?.spanId, name: x.name, scope: x.instrumentationScope.name, attributes: { ...x.attributes }, status: x.status, start: ms(x.startTime), end: ms(x.endTime) };
}
export function spanRig(w: World, opts: any = {}, env: Record<string, string | undefined> = {}): SpanRig {
  w.env({ ...ENV0, ...env });
  const exported: Exported[] = [];
  const exporter = { export: (s: any[], cb: any) => { for (const x of s) exported.push(record(x)); cb({ code: 0 }); }, shutdown: async () => {}, forceFlush: async () => {} };
  const proc = new LangfuseSpanProcessor({ exporter: exporter as any, publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", exportMode: "immediate", mediaUploadEnabled: false, ...opts });
  const p = provider([proc as any]);
  useGlobal(p);
  return { proc, provider: p, exported, byId: (id) => exported.find((e) => e.id === id) };
}
