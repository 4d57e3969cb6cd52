/**
 * Stateless model checker for the langfuse-js sources.
 *
 * An execution of a scenario is a function of the sequence of values returned
 * by World.choose(); the explorer enumerates ALL such sequences (depth-first,
 * replaying prefixes on fresh objects).  World owns every source of
 * nondeterminism the code can see: timers and clock, network, randomness.
 */
import { createHash, randomFillSync as _rfs } from "node:crypto";

const real = {
  setTimeout: globalThis.setTimeout,
  clearTimeout: globalThis.clearTimeout,
  setInterval: globalThis.setInterval,
  clearInterval: globalThis.clearInterval,
  setImmediate: globalThis.setImmediate,
  Date: globalThis.Date,
  fetch: globalThis.fetch,
  random: Math.random,
  console: { ...console },
};
export const realTimers = real;
export const RealDate = real.Date;

export const EPOCH = Date.UTC(2031, 0, 1, 0, 0, 0);

export class Violation extends Error {
  constructor(
    public key: string,
    message: string,
  ) {
    super(message);
  }
}
export class Prune extends Error {}
/** a replayed prefix met other choices than when it was recorded: state survived from an earlier execution */
export class Mismatch extends Error {}

export type Timer = {
  id: number;
  due: number;
  seq: number;
  cb: (...a: any[]) => void;
  args: any[];
  every?: number;
  unrefd: boolean;
  at: number;
};

export type Reply =
  | { status: number; json?: any; text?: string; headers?: Record<string, string>; bytes?: Uint8Array }
  | { error: any };

export class Req {
  state: "pending" | "done" | "aborted" = "pending";
  outcome?: Reply;
  finishedAt = -1;
  constructor(
    public w: World,
    public id: number,
    public url: string,
    public method: string,
    public headers: Record<string, string>,
    public body: any,
    public issuedAt: number,
    private res: (r: any) => void,
    private rej: (e: any) => void,
  ) {}
  get path() {
    return new URL(this.url).pathname;
  }
  get query() {
    return new URL(this.url).searchParams;
  }
  get json(): any {
    return typeof this.body === "string" ? JSON.parse(this.body) : undefined;
  }
  reply(o: Reply) {
    if (this.state !== "pending") throw new Error("engine: reply to finished request");
    this.state = "done";
    this.outcome = o;
    this.finishedAt = this.w.now;
    this.w.obs(`reply#${this.id} ${"error" in o ? "error" : o.status}`);
    if ("error" in o) this.rej(o.error);
    else this.res(makeResponse(o, this.url));
  }
  abort(reason: any) {
    if (this.state !== "pending") return;
    this.state = "aborted";
    this.finishedAt = this.w.now;
    this.w.obs(`abort#${this.id}`);
    this.rej(reason ?? new DOMException("This operation was aborted", "AbortError"));
  }
}

const enc = new TextEncoder();
export function makeResponse(o: Exclude<Reply, { error: any }>, url: string): any {
  const text = o.text !== undefined ? o.text : o.json !== undefined ? JSON.stringify(o.json) : "";
  const bytes = o.bytes ?? enc.encode(text);
  const headers = new Headers(o.headers ?? {});
  if (!headers.has("content-type")) headers.set("content-type", o.bytes ? "application/octet-stream" : "application/json");
  let used = false;
  const use = <T>(f: () => T): Promise<T> => {
    if (used) return Promise.reject(new TypeError("Body is unusable: Body has already been read"));
    used = true;
    return Promise.resolve().then(f);
  };
  const r: any = {
    ok: o.status >= 200 && o.status < 300,
    status: o.status,
    statusText: "S" + o.status,
    url,
    redirected: false,
    type: "default",
    headers,
    get bodyUsed() {
      return used;
    },
    get body() {
      return new Response(bytes as any).body;
    },
    text: () => use(() => (o.bytes ? new TextDecoder().decode(bytes) : text)),
    json: () => use(() => JSON.parse(o.bytes ? new TextDecoder().decode(bytes) : text)),
    arrayBuffer: () => use(() => bytes.buffer.slice(bytes.byteOffset, bytes.byteOffset + bytes.byteLength)),
    bytes: () => use(() => new Uint8Array(bytes)),
    blob: () => use(() => new Blob([bytes as any], { type: headers.get("content-type") ?? "" })),
    clone: () => makeResponse(o, url),
  };
  return r;
}

export type Thread = {
  name: string;
  steps: (() => any)[];
};

type ThreadState = { t: Thread; pc: number; blocked: boolean; err?: any };

export type SystemOpts = {
  threads?: Thread[];
  /** outcomes offered for a pending request; empty list: not completable now */
  replies?: (r: Req) => { name: string; reply: () => Reply }[];
  /** how many timer-firing events may be interleaved */
  timerBudget?: number;
  /** extra environment events */
  extra?: () => { name: string; run: () => any }[];
  /** checked after every step */
  invariant?: () => void;
  /** total step bound */
  maxSteps?: number;
  /** only timers due within this many ms from now may fire as events */
  timerHorizon?: number;
  /**
   * micro-preemption: how often the next user step may run before the promise
   * jobs of the previous event are finished (after 0..microDepth-1 ticks of the
   * microtask queue instead of at quiescence)
   */
  microBudget?: number;
  microDepth?: number;
  /** sort/limit enabled events (partial-order style reductions) */
  reduce?: (evs: { name: string; kind: string; run: () => any }[]) => { name: string; kind: string; run: () => any }[];
};

let timerSeq = 0;

export class World {
  prefix: number[];
  choices: number[] = [];
  arities: number[] = [];
  labels: string[] = [];
  trace: string[] = [];
  now = EPOCH;
  timers: Timer[] = [];
  reqs: Req[] = [];
  rejections: any[] = [];
  logs: { level: string; args: any[] }[] = [];
  private tseq = 0;
  private rngState = 12345;
  private hash = 0x1234567;
  private hash2 = 0x89abcd;
  private nodeHashes: number[] | null = null;
  private savedEnv: Record<string, string | undefined> = {};
  onFetch?: (r: Req) => void;
  steps = 0;
  /** deviation budget: how many non-default choices made through choose1 */
  deviations = 0;
  maxDeviations = Infinity;

  constructor(prefix: number[] = [], record?: number[]) {
    this.prefix = prefix;
    this.nodeHashes = record ?? null;
  }

  // ---------------------------------------------------------------- choice
  choose(n: number, label = ""): number {
    if (n <= 0) throw new Error("engine: empty choice " + label);
    if (n === 1) return 0;
    const i = this.choices.length;
    let c = 0;
    if (i < this.prefix.length) {
      c = this.prefix[i];
      if (c >= n) throw new Mismatch(`replay mismatch at ${i} (${label}): ${c} of ${n}`);
    }
    this.choices.push(c);
    this.arities.push(n);
    this.labels.push(label);
    if (this.nodeHashes && i >= this.prefix.length - 1) this.nodeHashes.push(this.fingerprint());
    this.mix(c + 1);
    return c;
  }
  pick<T>(xs: readonly T[], label = ""): T {
    return xs[this.choose(xs.length, label)];
  }
  bool(label = ""): boolean {
    return this.choose(2, label) === 1;
  }
  /** fingerprint of the observable history so far (choices and observations) */
  fingerprint() {
    return this.hash * 1048576 + (this.hash2 & 0xfffff);
  }
  private mix(x: number) {
    this.hash = (Math.imul(this.hash ^ x, 0x01000193) + 0x9e3779b) >>> 0;
    this.hash2 = (Math.imul(this.hash2 ^ (x + 77), 0x85ebca6b) + 0xc2b2ae3) >>> 0;
  }
  /** observable event */
  obs(s: string) {
    this.trace.push(s);
    for (let i = 0; i < s.length; i++) this.mix(s.charCodeAt(i));
  }
  fail(key: string, msg: string): never {
    throw new Violation(key, msg.length > 4000 ? msg.slice(0, 4000) + ` … (${msg.length} characters)` : msg);
  }
  assert(cond: any, key: string, msg: string | (() => string)) {
    if (!cond) this.fail(key, typeof msg === "function" ? msg() : msg);
  }

  // ---------------------------------------------------------------- environment
  env(vars: Record<string, string | undefined>) {
    for (const [k, v] of Object.entries(vars)) {
      if (!(k in this.savedEnv)) this.savedEnv[k] = process.env[k];
      if (v === undefined) delete process.env[k];
      else process.env[k] = v;
    }
  }

  install() {
    current = this;
    const w = this;
    const mkHandle = (t: Timer) => {
      const h: any = {
        _id: t.id,
        ref() {
          t.unrefd = false;
          return h;
        },
        unref() {
          t.unrefd = true;
          return h;
        },
        hasRef: () => !t.unrefd,
        refresh() {
          t.due = w.now + (t as any).delay;
          if (!w.timers.includes(t)) w.timers.push(t);
          return h;
        },
        close() {
          w.clear(h);
          return h;
        },
        [Symbol.toPrimitive]: () => t.id,
      };
      return h;
    };
    const add = (cb: any, delay: any, args: any[], every: boolean) => {
      let d = Number(delay);
      if (!(d >= 1)) d = 1;
      if (d > 2147483647) d = 1;
      const t: Timer = { id: ++timerSeq, due: w.now + d, seq: ++w.tseq, cb, args, every: every ? d : undefined, unrefd: false, at: w.now };
      (t as any).delay = d;
      w.timers.push(t);
      return mkHandle(t);
    };
    (globalThis as any).setTimeout = (cb: any, d?: any, ...a: any[]) => add(cb, d, a, false);
    (globalThis as any).setInterval = (cb: any, d?: any, ...a: any[]) => add(cb, d, a, true);
    (globalThis as any).clearTimeout = (h: any) => w.clear(h);
    (globalThis as any).clearInterval = (h: any) => w.clear(h);
    (globalThis as any).Date = VirtualDate;
    (globalThis as any).fetch = (url: any, init: any = {}) => w.fetch(url, init);
    Math.random = () => {
      // deterministic LCG: code may use it for ids and jitter
      w.rngState = (Math.imul(w.rngState, 1664525) + 1013904223) >>> 0;
      return w.rngState / 4294967296;
    };
    for (const level of ["log", "info", "warn", "error", "debug"] as const)
      (console as any)[level] = (...args: any[]) => {
        w.logs.push({ level, args });
      };
  }
  uninstall() {
    globalThis.setTimeout = real.setTimeout;
    globalThis.clearTimeout = real.clearTimeout;
    globalThis.setInterval = real.setInterval;
    globalThis.clearInterval = real.clearInterval;
    (globalThis as any).Date = real.Date;
    globalThis.fetch = real.fetch;
    Math.random = real.random;
    Object.assign(console, real.console);
    for (const [k, v] of Object.entries(this.savedEnv)) {
      if (v === undefined) delete process.env[k];
      else process.env[k] = v;
    }
    this.savedEnv = {};
    current = null;
  }
  private clear(h: any) {
    if (h === undefined || h === null) return;
    const id = typeof h === "object" ? h._id : Number(h);
    const i = this.timers.findIndex((t) => t.id === id);
    if (i >= 0) this.timers.splice(i, 1);
  }

  fetch(input: any, init: any): Promise<any> {
    const url = typeof input === "string" ? input : input?.url ?? String(input);
    const headers: Record<string, string> = {};
    new Headers(init.headers ?? (typeof input === "object" && input.headers) ?? {}).forEach((v, k) => (headers[k.toLowerCase()] = v));
    const method = (init.method ?? "GET").toUpperCase();
    return new Promise((res, rej) => {
      const r = new Req(this, this.reqs.length, url, method, headers, init.body, this.now, res, rej);
      const signal: AbortSignal | undefined = init.signal ?? undefined;
      if (signal?.aborted) {
        rej((signal as any).reason);
        return;
      }
      this.reqs.push(r);
      this.obs(`fetch#${r.id} ${method} ${url}`);
      signal?.addEventListener("abort", () => r.abort((signal as any).reason));
      this.onFetch?.(r);
    });
  }
  get pending(): Req[] {
    return this.reqs.filter((r) => r.state === "pending");
  }

  /** run all promise jobs (and nextTicks) to quiescence */
  async drain(rounds = 2) {
    for (let i = 0; i < rounds; i++) await new Promise<void>((r) => real.setImmediate(r));
  }

  nextTimer(): Timer | undefined {
    let best: Timer | undefined;
    for (const t of this.timers) if (!best || t.due < best.due || (t.due === best.due && t.seq < best.seq)) best = t;
    return best;
  }
  private fire(t: Timer) {
    if (t.due > this.now) this.now = t.due;
    if (t.every !== undefined) {
      t.due = this.now + t.every;
      t.seq = ++this.tseq;
    } else this.timers.splice(this.timers.indexOf(t), 1);
    this.obs(`timer@${this.now - EPOCH}`);
    t.cb(...t.args);
  }
  async fireNext() {
    const t = this.nextTimer();
    if (!t) return;
    this.fire(t);
    await this.drain();
  }
  /** advance virtual time, firing everything due on the way */
  async advance(ms: number, each?: () => void) {
    if (!(ms >= 0)) throw new Error("advance: not a duration");
    const end = this.now + ms;
    for (;;) {
      const t = this.nextTimer();
      if (!t || t.due > end) break;
      this.fire(t);
      await this.drain();
      each?.();
    }
    this.now = end;
    this.obs(`now+${ms}`);
  }
  /** jump the clock without firing timers that become due (they stay overdue) */
  skip(ms: number) {
    this.now += ms;
    this.obs(`skip+${ms}`);
  }

  /** answer all requests (default answer) and fire timers until p settles */
  async settle(p: Promise<any> | null, answer: (r: Req) => Reply, maxMs = 600_000, maxRounds = 2000): Promise<{ done: boolean; ok?: boolean; value?: any; error?: any }> {
    let st: any = { done: p === null };
    p?.then(
      (v) => (st = { done: true, ok: true, value: v }),
      (e) => (st = { done: true, ok: false, error: e }),
    );
    const start = this.now;
    for (let i = 0; i < maxRounds; i++) {
      await this.drain();
      if (st.done && p) return st;
      const pend = this.pending;
      if (pend.length) {
        pend[0].reply(answer(pend[0]));
        continue;
      }
      const t = this.nextTimer();
      if (!t || t.due - start > maxMs) break;
      this.fire(t);
    }
    await this.drain();
    return st;
  }

  /**
   * The asynchronous system: user threads (each a list of steps; a step that
   * returns a promise blocks its thread until it settles), pending requests
   * completing in any order with any of the offered outcomes, and timers.
   * The explorer picks the next event among all enabled ones.
   */
  async system(o: SystemOpts) {
    const ths: ThreadState[] = (o.threads ?? []).map((t) => ({ t, pc: 0, blocked: false }));
    let timersLeft = o.timerBudget ?? 0;
    const maxSteps = o.maxSteps ?? 200;
    let microLeft = o.microBudget ?? 0;
    const microDepth = o.microDepth ?? 4;
    for (let step = 0; step < maxSteps; step++) {
      let micro = false;
      if (microLeft > 0 && step > 0 && ths.some((s) => !s.blocked && s.pc < s.t.steps.length)) {
        const k = this.choose(microDepth + 1, "micro");
        if (k > 0) {
          micro = true;
          microLeft--;
          this.obs(`micro ${k - 1}`);
          for (let i = 1; i < k; i++) await null;
        }
      }
      if (!micro) {
        await this.drain();
        o.invariant?.();
      }
      const evs: { name: string; kind: string; run: () => any }[] = [];
      for (const s of ths) {
        if (s.blocked || s.pc >= s.t.steps.length) continue;
        evs.push({
          name: `${s.t.name}.${s.pc}`,
          kind: "thread",
          run: () => {
            const f = s.t.steps[s.pc++];
            const r = f();
            if (r && typeof r.then === "function") {
              s.blocked = true;
              r.then(
                () => (s.blocked = false),
                (e: any) => {
                  s.blocked = false;
                  s.err = e;
                },
              );
            }
          },
        });
      }
      if (micro && evs.length === 0) continue;
      if (o.replies && !micro)
        for (const r of this.pending)
          for (const alt of o.replies(r)) evs.push({ name: `${alt.name}#${r.id}`, kind: "reply", run: () => r.reply(alt.reply()) });
      const t = this.nextTimer();
      if (t && !micro && timersLeft > 0 && (o.timerHorizon === undefined || t.due - this.now <= o.timerHorizon))
        evs.push({
          name: "timer",
          kind: "timer",
          run: () => {
            timersLeft--;
            this.fire(t);
          },
        });
      if (!micro) for (const e of o.extra?.() ?? []) evs.push({ name: e.name, kind: "extra", run: e.run });
      const list = o.reduce ? o.reduce(evs) : evs;
      if (list.length === 0) {
        if (micro) continue;
        break;
      }
      const c = this.choose(list.length, list.map((e) => e.name).join("|"));
      this.obs("> " + list[c].name);
      this.steps++;
      list[c].run();
      if (step === maxSteps - 1) throw new Violation("no-quiescence", `the system is still active after ${maxSteps} steps`);
    }
    await this.drain();
    o.invariant?.();
    for (const s of ths) if (s.err) throw s.err;
    return ths.every((s) => !s.blocked && s.pc >= s.t.steps.length);
  }
}

export let current: World | null = null;
process.on("unhandledRejection", (e) => {
  current?.rejections.push(e);
});

class VirtualDate extends (real.Date as any) {
  constructor(...a: any[]) {
    if (a.length === 0) super(current ? current.now : real.Date.now());
    else super(...a);
  }
  static now() {
    return current ? current.now : real.Date.now();
  }
}

// crypto.subtle.digest is really asynchronous (thread pool); the stand-in
// computes the same value and resolves on the microtask queue.
const realSubtle = globalThis.crypto?.subtle;
if (realSubtle) {
  const digest = (alg: any, data: any) => {
    const name = (typeof alg === "string" ? alg : alg.name).toLowerCase().replace("-", "");
    const buf = ArrayBuffer.isView(data) ? Buffer.from(data.buffer, data.byteOffset, data.byteLength) : Buffer.from(data);
    const d = createHash(name).update(buf).digest();
    return Promise.resolve(d.buffer.slice(d.byteOffset, d.byteOffset + d.byteLength));
  };
  Object.defineProperty(realSubtle, "digest", { value: digest, configurable: true, writable: true });
}

// ------------------------------------------------------------------ explorer
export type Scenario = {
  name: string;
  run: (w: World) => Promise<void> | void;
  /** treat unhandled promise rejections as a violation (default true) */
  unhandled?: boolean;
};
export type CheckDef = {
  property: string;
  scenarios: (tier: "quick" | "thorough") => Scenario[];
  bounds: (tier: "quick" | "thorough") => string;
  assumptions?: string[];
};

export type ExecResult = {
  choices: number[];
  arities: number[];
  labels: string[];
  trace: string[];
  fin: number;
  violation?: { key: string; message: string; stack?: string };
  mismatch?: string;
};

export async function execute(sc: Scenario, prefix: number[], record?: number[]): Promise<ExecResult> {
  const w = new World(prefix, record);
  w.install();
  let violation: ExecResult["violation"];
  let mismatch: string | undefined;
  try {
    await sc.run(w);
    if (sc.unhandled !== false) {
      await w.drain(1);
      if (w.rejections.length) throw new Violation("unhandled-rejection", ("unhandled promise rejection: " + fmt(w.rejections[0])).slice(0, 4000));
    }
  } catch (e: any) {
    if (e instanceof Prune) {
      // infeasible branch
    } else if (e instanceof Mismatch) mismatch = e.message;
    else if (e instanceof Violation) violation = { key: e.key, message: e.message, stack: e.stack };
    else if (typeof e?.message === "string" && e.message.startsWith("engine:")) {
      w.uninstall();
      throw e;
    } else violation = { key: "exception", message: "unexpected exception: " + fmt(e), stack: e?.stack };
  } finally {
    w.uninstall();
  }
  return { choices: w.choices, arities: w.arities, labels: w.labels, trace: w.trace, fin: w.fingerprint(), violation, mismatch };
}

export function fmt(e: any): string {
  if (e instanceof Error) return `${e.name}: ${e.message}`;
  try {
    return JSON.stringify(e) ?? String(e);
  } catch {
    return String(e);
  }
}

export type WorkResult = {
  execs: number;
  transitions: number;
  maxDepth: number;
  mismatches: number;
  rest: number[][];
  violations: { scenario: number; name: string; choices: number[]; labels: string[]; trace: string[]; key: string; message: string; stack?: string }[];
  sample?: { scenario: string; choices: number[]; labels: string[]; trace: string[] };
};

export async function exploreChunk(si: number, sc: Scenario, stack: number[][], limit: number, hashes: Set<number>, beat: () => void, deadline: number): Promise<WorkResult> {
  const out: WorkResult = { execs: 0, transitions: 0, maxDepth: 0, mismatches: 0, rest: [], violations: [] };
  const base = (si + 1) * 7919;
  let last = 0;
  while (stack.length && out.execs < limit) {
    if ((out.execs & 15) === 0) {
      const n = real.Date.now();
      if (n - last > 300) {
        beat();
        last = n;
        if (n > deadline) break;
      }
    }
    const prefix = stack.pop()!;
    const rec: number[] = [];
    const r = await execute(sc, prefix, rec);
    if (r.mismatch) {
      out.mismatches++;
      continue;
    }
    out.execs++;
    for (const h of rec) hashes.add(h + base);
    hashes.add(r.fin + base);
    out.transitions += r.choices.length - Math.max(0, prefix.length - 1);
    out.maxDepth = Math.max(out.maxDepth, r.choices.length);
    if (!out.sample || r.trace.length > out.sample.trace.length) out.sample = { scenario: sc.name, choices: r.choices, labels: r.labels, trace: r.trace.slice(0, 60) };
    if (r.violation) {
      out.violations.push({ scenario: si, name: sc.name, choices: r.choices, labels: r.labels, trace: r.trace, ...r.violation });
      if (out.violations.length >= 20) break;
    }
    for (let i = r.choices.length - 1; i >= prefix.length; i--)
      for (let a = r.arities[i] - 1; a >= 1; a--) stack.push([...r.choices.slice(0, i), a]);
  }
  out.rest = stack;
  return out;
}
