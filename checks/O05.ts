import type { CheckDef, Scenario, World } from "../mc/engine";
import { isDefaultExportSpan } from "@langfuse/otel";
import { startObservation } from "@langfuse/tracing";
import { spanRig } from "./lib/span";

const FAMILIES = ["agent_framework", "haystack", "langsmith", "litellm", "openinference", "opentelemetry.instrumentation.anthropic", "opentelemetry.instrumentation.aws_bedrock", "opentelemetry.instrumentation.bedrock", "opentelemetry.instrumentation.gemini", "opentelemetry.instrumentation.google_genai", "opentelemetry.instrumentation.google_generativeai", "opentelemetry.instrumentation.openai", "opentelemetry.instrumentation.openai_v2", "opentelemetry.instrumentation.vertex_ai", "opentelemetry.instrumentation.vertexai", "strands-agents", "vllm", "langfuse-sdk"];
const EXACT = ["ai"];
const known = (s: string) => EXACT.includes(s) || FAMILIES.some((f) => s === f || s.startsWith(f + "."));
const variants = (f: string) => [f, f + ".", f + ".x", f + ".x.y", f + "x", f + "_v3", f + "-x", f.slice(0, -1), f.slice(1), "x." + f, "x" + f, f.toUpperCase(), " " + f, f + " ", f + "/x", f.replace(/\./g, "_"), f.split(".").slice(0, -1).join("."), "@" + f];
const SCOPES = [...new Set([...FAMILIES, ...EXACT].flatMap(variants).concat(["", "http", "@opentelemetry/instrumentation-http", "opentelemetry", "opentelemetry.instrumentation", "next.js", "ai.x", "aix", "gen_ai", "gen_ai.x"]))];
const KEYS = [undefined, "gen_ai.system", "gen_ai.", "gen_ai.request.model", "gen_ai", "gen_aix", "gen_ai_x", "x.gen_ai.y", "GEN_AI.x", "genai.x", "llm.model", "ai.model", " gen_ai.x"];
const genai = (k?: string) => !!k && k.startsWith("gen_ai.");

const def: CheckDef = {
  property: "O05",
  bounds: () => `${SCOPES.length} scope names (each known scope, its sub-scopes and near-misses) x ${KEYS.length} attribute names x when they are set x value kinds; all accept/reject/throw decisions of custom filters over 3 spans`,
  assumptions: ["the list of known LLM scopes is the one documented at the pinned commit; 'ai' is matched exactly, the others also with dotted sub-scopes"],
  scenarios: () => {
    const out: Scenario[] = [];
    out.push({
      name: "default filter",
      run: async (w: World) => {
        const scope = w.pick(SCOPES, "scope");
        const key = w.pick(KEYS, "attribute");
        const when = key === undefined ? 0 : w.choose(2, "at start|later");
        const mode = w.pick(["immediate", "batched"], "mode");
        const R = spanRig(w, { exportMode: mode });
        const s: any = R.provider.getTracer(scope).startSpan("s", when === 0 && key ? { attributes: { [key]: "v" } } : {});
        if (when === 1) s.setAttribute(key!, "v");
        s.end();
        const f = R.proc.forceFlush();
        await w.settle(f, () => ({ status: 200 }));
        const want = known(scope) || genai(key);
        w.assert(R.exported.length === (want ? 1 : 0), "default-filter", () => `scope ${JSON.stringify(scope)} attribute ${key}: ${want ? "not exported" : "exported"}`);
        w.assert(isDefaultExportSpan(s) === want, "predicate", () => `isDefaultExportSpan(${JSON.stringify(scope)}, ${key}) is ${!want}`);
      },
    });
    out.push({
      name: "attribute value kinds",
      run: async (w: World) => {
        const key = w.pick(KEYS.slice(1), "key") as string;
        const v = w.pick<any>(["", "x", 0, 1, false, true, [], ["a"]], "value");
        const others = w.bool("among others");
        const R = spanRig(w);
        const s: any = R.provider.getTracer("http").startSpan("s", { attributes: { ...(others ? { "http.method": "GET", z: 1 } : {}), [key]: v, ...(others ? { "langfuse.x": 1 } : {}) } });
        s.end();
        await w.drain();
        w.assert(R.exported.length === (genai(key) ? 1 : 0), "default-filter", `attribute ${key}=${JSON.stringify(v)}`);
      },
    });
    out.push({
      name: "custom filter",
      run: async (w: World) => {
        const decisions: ("yes" | "no" | "throw")[] = [];
        const n = 3;
        for (let i = 0; i < n; i++) decisions.push(w.pick(["yes", "no", "throw"] as const, "decision"));
        const seen: string[] = [];
        const R = spanRig(w, {
          exportMode: w.pick(["immediate", "batched"], "mode"),
          shouldExportSpan: ({ otelSpan }: any) => {
            seen.push(otelSpan.name);
            const d = decisions[Number(otelSpan.name.slice(1))];
            if (d === "throw") throw new Error("filter");
            return d === "yes";
          },
        });
        const scopes = ["langfuse-sdk", "http", "ai"];
        const rot = w.choose(3, "scopes");
        for (let i = 0; i < n; i++) {
          const scope = scopes[(i + rot) % 3];
          const s: any = scope === "langfuse-sdk" ? startObservation("s" + i) : R.provider.getTracer(scope).startSpan("s" + i, { attributes: i === 1 ? { "gen_ai.system": "x" } : {} });
          s.end();
        }
        await w.settle(R.proc.forceFlush(), () => ({ status: 200 }));
        const got = R.exported.map((e) => e.name).sort().join();
        const want = decisions.map((d, i) => (d === "yes" ? "s" + i : "")).filter(Boolean).sort().join();
        w.assert(got === want, "custom-filter", () => `exported ${got || "nothing"}, the filter accepts ${want || "nothing"}`);
        for (let i = 0; i < n; i++) w.assert(seen.includes("s" + i), "custom-filter", "the filter did not see every span");
      },
    });
    out.push({
      name: "custom filter sees the ended span",
      run: async (w: World) => {
        const attr = w.bool("attribute set later");
        const R = spanRig(w, { shouldExportSpan: ({ otelSpan }: any) => otelSpan.attributes.keep === true && otelSpan.ended !== false });
        const s: any = R.provider.getTracer("x").startSpan("s");
        if (attr) s.setAttribute("keep", true);
        s.end();
        await w.drain();
        w.assert(R.exported.length === (attr ? 1 : 0), "custom-filter", "the end-time decision was not honoured");
      },
    });
    return out;
  },
};
export default def;
