import { LangfuseClient } from "@langfuse/client";
import { World, Req, type Reply, EPOCH } from "../../mc/engine";

export type Created = { body: any; name: string; at: number };
export type FlushCall = { kind: string; before: number; settled: boolean; ok?: boolean; err?: any };

/** client + bookkeeping of what was created / flushed / sent */
export class ScoreRig {
  client: LangfuseClient;
  created: Created[] = [];
  flushes: FlushCall[] = [];
  constructor(
    public w: World,
    public flushAt: number | undefined,
    public interval: number | undefined,
    env: Record<string, string | undefined> = {},
  ) {
    w.env({
      LANGFUSE_FLUSH_AT: flushAt === undefined ? undefined : String(flushAt),
      LANGFUSE_FLUSH_INTERVAL: interval === undefined ? undefined : String(interval),
      LANGFUSE_TRACING_ENVIRONMENT: undefined,
      LANGFUSE_PUBLIC_KEY: undefined,
      LANGFUSE_SECRET_KEY: undefined,
      LANGFUSE_BASE_URL: undefined,
      LANGFUSE_BASEURL: undefined,
      ...env,
    });
    this.client = new LangfuseClient({ publicKey: "pk", secretKey: "sk", baseUrl: "http://lf" });
  }
  create(n = 1) {
    for (let i = 0; i < n; i++) {
      const name = "s" + this.created.length;
      const k = this.created.length;
      const body: any = { name, value: k, traceId: "t" + k };
      // neighbouring scores differ in which optional fields they have
      if (k % 2) body.comment = "c" + k;
      if (k % 3 === 1) body.id = "own-" + k;
      if (k % 3 === 2) body.environment = "env-" + k;
      if (k % 4 === 3) body.metadata = { k, nested: { list: [k, null] } };
      if (k % 5 === 4) body.observationId = "o" + k;
      this.created.push({ body, name, at: this.w.now });
      this.client.score.create(body);
    }
    this.w.obs(`created ${this.created.length}`);
  }
  flush(kind: "score.flush" | "client.flush" | "client.shutdown" | "score.shutdown") {
    const rec: FlushCall = { kind, before: this.created.length, settled: false };
    this.flushes.push(rec);
    const p = kind === "score.flush" ? this.client.score.flush() : kind === "score.shutdown" ? this.client.score.shutdown() : kind === "client.flush" ? this.client.flush() : this.client.shutdown();
    const check = (ok: boolean, err?: any) => {
      rec.settled = true;
      rec.ok = ok;
      rec.err = err;
      this.w.obs(`${kind} settled ${ok}`);
      // resolution instant: which scores are in finished requests?
      rec_onsettle(this, rec);
    };
    return Promise.resolve(p).then(
      () => check(true),
      (e) => check(false, e),
    );
  }
  onSettle?: (rec: FlushCall) => void;
  /** ingestion batches in issue order; transport retries of the same batch are folded */
  batches(): { names: string[]; bodies: any[]; finished: boolean; req: Req; attempts: Req[] }[] {
    const out: { names: string[]; bodies: any[]; finished: boolean; req: Req; attempts: Req[] }[] = [];
    for (const r of this.w.reqs) {
      if (r.path !== "/api/public/ingestion") continue;
      const prev = out.find((b) => b.req.body === r.body);
      if (prev) {
        const last = prev.attempts[prev.attempts.length - 1];
        const o: any = last.outcome;
        if (last.state === "done" && o && o.status && ([408, 429].includes(o.status) || o.status >= 500)) {
          prev.attempts.push(r);
          prev.finished = isFinal(r, prev.attempts.length);
          continue;
        }
      }
      const batch = r.json.batch as any[];
      out.push({ names: batch.map((e) => e.body.name), bodies: batch, finished: isFinal(r, 1), req: r, attempts: [r] });
    }
    return out;
  }
  unsent(): string[] {
    const sent = new Set(this.batches().flatMap((b) => b.names));
    return this.created.filter((c) => !sent.has(c.name)).map((c) => c.name);
  }
}
function isFinal(r: Req, attempt: number) {
  if (r.state === "pending") return false;
  const o: any = r.outcome;
  if (r.state === "done" && o?.status && ([408, 429].includes(o.status) || o.status >= 500) && attempt < 3) return false;
  return true;
}
function rec_onsettle(rig: ScoreRig, rec: FlushCall) {
  rig.onSettle?.(rec);
}
export const okReply = (r: Req): Reply => ({ status: 207, json: { successes: (r.json?.batch ?? []).map((e: any) => ({ id: e.id, status: 201 })), errors: [] } });
export const replySets: Record<string, (r: Req) => { name: string; reply: () => Reply }[]> = {
  ok: (r) => [{ name: "ok", reply: () => okReply(r) }],
  fault: (r) => [
    { name: "ok", reply: () => okReply(r) },
    { name: "bad", reply: () => ({ status: 400, json: { message: "no" } }) },
    { name: "net", reply: () => ({ error: new TypeError("fetch failed") }) },
  ],
  partial: (r) => [
    { name: "ok", reply: () => okReply(r) },
    { name: "partial", reply: () => ({ status: 207, json: { successes: [], errors: (r.json.batch as any[]).map((e) => ({ id: e.id, status: 400, message: "x" })) } }) },
    { name: "garbage", reply: () => ({ status: 200, text: "<html>" }) },
  ],
  retry: (r) => [
    { name: "ok", reply: () => okReply(r) },
    { name: "503", reply: () => ({ status: 503, json: { message: "busy" } }) },
  ],
};
