/** OpenTelemetry plumbing shared by the harnesses. */
import { context, trace, propagation, ROOT_CONTEXT, type Span } from "@opentelemetry/api";
import { AsyncLocalStorageContextManager } from "@opentelemetry/context-async-hooks";
import { BasicTracerProvider, type SpanProcessor, type ReadableSpan, type SpanExporter, AlwaysOnSampler } from "@opentelemetry/sdk-trace-base";
import { ExportResultCode } from "@opentelemetry/core";

let registered = false;
export function ensureContext() {
  if (registered) return;
  registered = true;
  const cm = new AsyncLocalStorageContextManager();
  cm.enable();
  context.setGlobalContextManager(cm);
}

/** records every span handed over by onStart / onEnd */
export class Recorder implements SpanProcessor {
  started: Span[] = [];
  ended: ReadableSpan[] = [];
  onStart(s: any) {
    this.started.push(s);
  }
  onEnd(s: ReadableSpan) {
    this.ended.push(s);
  }
  async forceFlush() {}
  async shutdown() {}
}

export function provider(processors: SpanProcessor[], extra: any = {}) {
  ensureContext();
  return new BasicTracerProvider({ spanProcessors: processors, sampler: new AlwaysOnSampler(), ...extra } as any);
}
export type Tracing = "on" | "no provider" | "no provider, no context manager" | "nothing sampled" | "children sampled";
export const OFF: Tracing[] = ["no provider", "no provider, no context manager", "nothing sampled", "children sampled"];
/** run with tracing set up otherwise than usual; processors see only what the sampler lets through */
export async function withTracing<T>(mode: Tracing, processors: SpanProcessor[], f: () => Promise<T>): Promise<T> {
  ensureContext();
  const p = (sampler: any) => useGlobal(provider(processors, { sampler }));
  if (mode === "on") p(new AlwaysOnSampler());
  else if (mode === "nothing sampled") p({ shouldSample: () => ({ decision: 0 }), toString: () => "off" });
  else if (mode === "children sampled") p({ shouldSample: (c: any) => ({ decision: trace.getSpan(c) ? 2 : 0 }), toString: () => "children" });
  else trace.disable();
  if (mode === "no provider, no context manager") {
    context.disable();
    registered = false;
  }
  try {
    return await f();
  } finally {
    ensureContext();
    trace.disable();
  }
}
export function useGlobal(p: any) {
  trace.disable();
  trace.setGlobalTracerProvider(p);
}
export { context, trace, propagation, ROOT_CONTEXT, ExportResultCode };
export type { Span, ReadableSpan, SpanProcessor, SpanExporter };
export const idOf = (s: any) => s.spanContext().spanId as string;
export const parentOf = (s: any) => (s.parentSpanContext?.spanId ?? s.parentSpanId ?? undefined) as string | undefined;
