import { LangfuseAPIClient } from "@langfuse/core";
import type { World, Req, Reply } from "../../mc/engine";
import table from "./endpoints.json";

export type Endpoint = {
  at: string; method: string; path: string; pathParams: string[]; numeric: string[];
  query: Record<string, string>; required: string[]; body: boolean; void?: boolean;
};
export const ENDPOINTS = table as Endpoint[];
export const byName = (n: string) => ENDPOINTS.find((e) => e.at === n)!;

export const BASE = "https://lf.test";
export const mk = (o: any = {}) =>
  new LangfuseAPIClient({ environment: "", baseUrl: BASE, username: "pk", password: "s:k", xLangfusePublicKey: "pk", xLangfuseSdkName: "javascript", xLangfuseSdkVersion: "1", ...o });
export const AUTH = "Basic " + Buffer.from("pk:s:k").toString("base64");

export const sample = (kind: string, alt = 0): any => {
  if (kind.startsWith("enum:")) return kind.slice(5).split("|")[alt % 2];
  if (kind.startsWith("union:")) return alt === 0 ? ["a b", "c&d"] : "x,y";
  if (kind === "number") return alt === 0 ? 7 : 0;
  if (kind === "boolean") return alt !== 0 ? true : false;
  return alt === 0 ? "v a/l&ü=1+%2F" : "";
};
/** values of every kind a query field takes, beyond the two samples */
export const LONG = "x".repeat(600) + "é";
export const values = (kind: string): any[] => {
  if (kind.startsWith("enum:")) return kind.slice(5).split("|");
  if (kind.startsWith("union:")) return ["x,y", "", " ", "0", [], [""], ["a", "", "a"], ["b", "a"], ["A", "a"], ["x,y", "a=b&c", "100%", "ü\ud83d\ude00"], Array.from({ length: 12 }, (_, i) => "t" + i), [" a "], ["1", "true", "null"]];
  if (kind === "number") return [7, 0, 1, -1, 10, 100, 101, 2.5, 1e6];
  if (kind === "boolean") return [true, false];
  return ["v a/l&ü=1+%2F", "", " ", "0", "false", "null", " lead and trail ", "Case", "case", "a,b", "[1]", "[]", "a[0]", "100%", "%41", "a;b", "a=b", "__proto__", "2024-01-01T00:00:00.000+02:00", "\ud83d\ude00", "line\nbreak\ttab", JSON.stringify([{ type: "string", column: "a", operator: "=", value: "b&c" }]), LONG];
};
export const expectedQuery = (v: any): string[] => (Array.isArray(v) ? v.map(String) : [String(v)]);

/** calls endpoint e; q: query fields to give, body: JSON body, params: path params */
export function call(client: any, e: Endpoint, a: { params?: any[]; query?: Record<string, any>; body?: any; options?: any } = {}): any {
  const seg = e.at.split(".");
  let o: any = client;
  for (const s of seg.slice(0, -1)) o = o[s];
  const args: any[] = e.pathParams.map((p, i) => a.params?.[i] ?? (e.numeric.includes(p) ? 3 : "p" + i));
  if (e.body) args.push(a.body ?? { k: 1 });
  else if (Object.keys(e.query).length) args.push(a.query ?? Object.fromEntries(e.required.map((r) => [r, sample(e.query[r])])));
  args.push(a.options);
  return o[seg[seg.length - 1]](...args);
}
export const urlPath = (e: Endpoint, params?: any[]) => {
  let i = -1;
  return e.path.replace(/\{\w+\}/g, () => {
    i++;
    const p = e.pathParams[i];
    return encodeURIComponent(String(params?.[i] ?? (e.numeric.includes(p) ? 3 : "p" + i)));
  });
};
