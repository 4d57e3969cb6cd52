import { createHash } from "node:crypto";
import { World, Req, type Reply } from "../../mc/engine";
const shas = new WeakMap<Uint8Array, string>();
/** contents are never modified, so the hash of a large one is computed once */
export const sha = (b: Uint8Array) => {
  let h = shas.get(b);
  if (h === undefined) {
    h = createHash("sha256").update(b).digest("base64");
    if (b.length > 10_000) shas.set(b, h);
  }
  return h;
};
export const idFor = (b: Uint8Array) => sha(b).replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
export const tagFor = (b: Uint8Array, type: string, source: string) => `@@@langfuseMedia:type=${type}|id=${idFor(b)}|source=${source}@@@`;
export const b64 = (b: Uint8Array) => Buffer.from(b).toString("base64");
export const bytes = (...n: number[]) => Uint8Array.from(n);
export const eqBytes = (a: any, b: Uint8Array) => {
  if (a == null) return false;
  const x = a instanceof Uint8Array ? a : a instanceof ArrayBuffer ? new Uint8Array(a) : null;
  return !!x && Buffer.from(x).equals(Buffer.from(b));
};
export const isRegister = (r: Req) => r.method === "POST" && r.path === "/api/public/media";
export const isPut = (r: Req) => r.method === "PUT";
export const isReport = (r: Req) => r.method === "PATCH" && r.path.startsWith("/api/public/media/");
/** server's view of a registration: mediaId derived from the declared hash */
export const idFromHash = (h: string) => h.replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
