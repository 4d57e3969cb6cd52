import { LangfuseClient } from "@langfuse/client";
import { World, Req, type Reply } from "../../mc/engine";

export const ENV0 = {
  LANGFUSE_PUBLIC_KEY: undefined,
  LANGFUSE_SECRET_KEY: undefined,
  LANGFUSE_BASE_URL: undefined,
  LANGFUSE_BASEURL: undefined,
  LANGFUSE_TIMEOUT: undefined,
  LANGFUSE_TRACING_ENVIRONMENT: undefined,
  LANGFUSE_RELEASE: undefined,
  LANGFUSE_FLUSH_AT: undefined,
  LANGFUSE_FLUSH_INTERVAL: undefined,
  LANGFUSE_MEDIA_UPLOAD_ENABLED: undefined,
};
export function client(w: World, opts: any = {}) {
  w.env(ENV0);
  return new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf", ...opts });
}

/** adversarial prompt names */
export const NAMES = ["a", "a-label:x", "a-version:1", "a-label", "a-", "a/b", "a b", "a%2Fb", "\u00e9\u4e2d", "a?label=x&b#c", "__proto__", "A", "a-label:production", '["a"', "a,label:x", "a:x", "a\"", "a|x", " a", "a ", "a\n", "a\t", "a+b", "a%20b", "a%", "a/", "/a", "a//b", "e\u0301", "\u00e9", "01", "1", "a.b", "..a", "L".repeat(250) + "1", "L".repeat(250) + "2", "\ud83d\ude00", "a\\b", "constructor"];

export type Sel = { version?: number; label?: string };
/** GET of a prompt: what the request asks for, decoded as a server would */
export function asked(r: Req): { name: string; version: string | null; label: string | null } | null {
  const m = /^\/api\/public\/v2\/prompts\/([^/]*)$/.exec(r.path);
  if (!m || r.method !== "GET") return null;
  return { name: decodeURIComponent(m[1]), version: r.query.get("version"), label: r.query.get("label") };
}
/** unique content per request */
export function promptReply(r: Req, extra: any = {}): Reply {
  const a = asked(r)!;
  return {
    status: 200,
    json: {
      type: "text",
      name: a.name,
      version: a.version !== null ? Number(a.version) : 1,
      labels: a.label !== null ? [a.label] : ["production"],
      tags: [],
      config: {},
      prompt: `content of request ${r.id}`,
      ...extra,
    },
  };
}
export const contentId = (p: any): number | null => {
  const m = /^content of request (\d+)$/.exec(typeof p?.prompt === "string" ? p.prompt : "");
  return m ? Number(m[1]) : null;
};
