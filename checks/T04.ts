import type { CheckDef, Scenario, World } from "../mc/engine";
import { startObservation, startActiveObservation, propagateAttributes } from "@langfuse/tracing";
import { W3CBaggagePropagator, W3CTraceContextPropagator, CompositePropagator } from "@opentelemetry/core";
import { context, trace, propagation, ROOT_CONTEXT } from "./lib/otel";
import { spanRig } from "./lib/span";
import { isDeepStrictEqual } from "node:util";

const wire = new CompositePropagator({ propagators: [new W3CTraceContextPropagator(), new W3CBaggagePropagator()] });
const setter = { set: (c: any, k: string, v: string) => void (c[k] = v) };
const getter = { get: (c: any, k: string) => c[k], keys: (c: any) => Object.keys(c) };
const send = (ctx: any = context.active()): Record<string, string> => {
  const c: Record<string, string> = {};
  wire.inject(ctx, c, setter);
  // headers are byte strings
  for (const v of Object.values(c)) if (!/^[\x20-\x7e\t]*$/.test(v)) throw new Error("header value is not ASCII: " + v);
  return c;
};
const receive = (h: Record<string, string>) => wire.extract(ROOT_CONTEXT, h, getter);

const VALUES = ["u1", "a,b", "a=b", "a;b", "a%2Cb", "100%", " lead", "trail ", "a b", "ü☃😀", '"q"', "\\", "a/b?c&d#e", "\t", "x".repeat(200), "langfuse_user_id", "0", "null", "{}", "a\nb", "+", "~!*'()", " ", "  ", "A", "é", "e\u0301", "true", "-1", "%", "%%25", "%E0%A4%A", "a\u0000b", "\ud83d\ude00", "undefined", "=", ";", "'", "<x>", "[1]"];
const TAGV = VALUES.filter((v) => !v.includes(","));
const KEYS = ["k", "a.b", "a b", "a=b", "a,b", "a;b", "ü", "user_id", "metadata_x", "trace_id", "K", "__proto__x", "%41", "0", "K k", "%", "constructor", "toString", "ключ", "a:b", "a/b", "a\"b", "x".repeat(210), "metadata", "langfuse_user_id", "session_id", "tags", "-"];
const read = (w: World, R: any, h: Record<string, string>) => {
  let o: any;
  context.with(receive(h), () => {
    o = startObservation("remote");
    o.end();
  });
  return o.id as string;
};
const got = (R: any, id: string) => {
  const a = { ...R.byId(id).attributes };
  delete a["langfuse.internal.is_app_root"];
  delete a["langfuse.observation.type"];
  return a;
};
const want = (p: any) => {
  const r: Record<string, any> = {};
  if (p.userId !== undefined) r["user.id"] = p.userId;
  if (p.sessionId !== undefined) r["session.id"] = p.sessionId;
  if (p.version !== undefined) r["langfuse.version"] = p.version;
  if (p.traceName !== undefined) r["langfuse.trace.name"] = p.traceName;
  if (p.environment !== undefined) r["langfuse.environment"] = p.environment;
  if (p.tags !== undefined) r["langfuse.trace.tags"] = p.tags;
  if (p.prompt) (r["langfuse.observation.prompt.name"] = p.prompt.name), (r["langfuse.observation.prompt.version"] = p.prompt.version);
  for (const [k, v] of Object.entries(p.metadata ?? {})) r[`langfuse.trace.metadata.${k}`] = v;
  return r;
};
const cmp = (w: World, g: any, e: any, what: string) => w.assert(isDeepStrictEqual(g, e), "changed", () => `${what}: arrived ${JSON.stringify(g)}, propagated ${JSON.stringify(e)}`);

/** one hop: propagate p, send headers, read on the other side */
async function hop(w: World, p: any, active: boolean) {
  const R = spanRig(w);
  let h: any, parent: any;
  propagateAttributes({ ...p, asBaggage: true }, () => {
    if (active)
      startActiveObservation("caller", (o) => {
        parent = o;
        h = send();
      });
    else h = send();
  });
  const id = read(w, R, h);
  await w.drain();
  cmp(w, got(R, id), want(p), "remote span");
  if (active) {
    w.assert(R.byId(id)!.trace === parent.traceId && R.byId(id)!.parent === parent.id, "trace", "remote span is not a child of the caller");
    const { ...l } = R.byId(parent.id)!.attributes as any;
    delete l["langfuse.internal.is_app_root"];
    delete l["langfuse.observation.type"];
    cmp(w, l, want(p), "local span");
  }
}

const def: CheckDef = {
  property: "T04",
  bounds: (t) => `all subsets of 8 attributes; ${VALUES.length} adversarial values per attribute and ${KEYS.length} metadata keys, pairs of tags/metadata entries, nested scopes, ${t === "quick" ? 2 : 3} hops, foreign entries, through the W3C propagators`,
  assumptions: ["headers stay within the W3C baggage limits", "values are well-formed Unicode strings", "prompt versions are non-negative integers"],
  scenarios: (tier) => {
    const q = tier === "quick";
    const out: Scenario[] = [];
    out.push({
      name: "attribute subsets",
      run: async (w) => {
        const full: any = { userId: "u 1", sessionId: "s,1", version: "v=1", traceName: "n;1", environment: "env-1", tags: ["t1", "t 2"], metadata: { a: "1", "b.c": "x,y" }, prompt: { name: "p/ü", version: 3 } };
        await hop(w, Object.fromEntries(Object.entries(full).filter(([k]) => w.bool(k))), w.bool("active"));
      },
    });
    for (const f of ["userId", "sessionId", "version", "traceName"]) out.push({ name: `values of ${f}`, run: (w) => hop(w, { [f]: w.pick(VALUES, "value") }, w.bool("active")) });
    out.push({ name: "metadata", run: (w) => hop(w, { metadata: { [w.pick(KEYS, "key")]: w.pick(VALUES, "value"), z: w.pick(VALUES, "value2") } }, false) });
    out.push({ name: "metadata keys", run: (w) => hop(w, { metadata: { [w.pick(KEYS, "key")]: "1", [w.pick(KEYS, "key2") + "2"]: "2" }, userId: "u" }, w.bool("active")) });
    out.push({ name: "tags", run: (w) => hop(w, { tags: [...new Set([w.pick(TAGV, "tag"), w.pick(TAGV, "tag2")])] }, false) });
    out.push({ name: "single tag", run: (w) => hop(w, { tags: [w.pick(TAGV, "tag")] }, w.bool("active")) });
    out.push({ name: "three tags", run: (w) => hop(w, { tags: [...new Set([w.pick(TAGV, "tag"), "m", w.pick(TAGV, "tag2")])] }, false) });
    out.push({ name: "prompts", run: (w) => hop(w, { prompt: { name: w.pick(VALUES, "name"), version: w.pick([0, 1, 17, 100000], "version") } }, w.bool("active")) });
    out.push({ name: "many entries", run: (w) => { const n = w.pick([10, 11, 40], "n"); return hop(w, { tags: Array.from({ length: n }, (_, i) => "t" + i), metadata: Object.fromEntries(Array.from({ length: n }, (_, i) => ["k" + i, "v " + i])), userId: "u", environment: w.pick(["e", "0", "a_b-c", "x".repeat(40)], "env") }, w.bool("active")); } });
    out.push({ name: "long prompt names", run: (w) => hop(w, { prompt: { name: w.pick(["p".repeat(300), "a/b/ü c", " p "], "name"), version: w.pick([0, 7], "version") } }, w.bool("active")) });
    // every hop adds a scope of its own; all earlier values keep travelling
    out.push({
      name: "hops that add scopes",
      run: async (w) => {
        const R = spanRig(w);
        const STEP: any[] = [{ userId: "u;1" }, { userId: "u2", metadata: { k: "a,b" } }, { metadata: { k: "n", "l m": "ü" } }, { sessionId: "s 1", version: "0" }, {}, { traceName: "t=", prompt: { name: "p", version: 0 } }];
        let h: any = {};
        let state: any = { metadata: {} };
        for (let i = 0; i < 3; i++) {
          const p = w.pick(STEP, "scope " + i);
          state = { ...state, ...p, metadata: { ...state.metadata, ...(p.metadata ?? {}) } };
          context.with(receive(h), () => propagateAttributes({ ...p, asBaggage: true }, () => startActiveObservation("hop" + i, () => (h = send()))));
          const id = read(w, R, h);
          await w.drain();
          cmp(w, got(R, id), want(state), `after hop ${i}`);
          const mine = R.exported.find((e: any) => e.name === "hop" + i)!;
          cmp(w, got(R, mine.id), want(state), `span of hop ${i}`);
        }
      },
    });
    out.push({
      name: "tags with a comma",
      run: async (w) => {
        const tags = w.pick([["a,b"], [","], ["x", "a,b"], ["a,b", "y"], ["a,"], [",b"]], "tags");
        const R = spanRig(w);
        let h: any;
        propagateAttributes({ tags, asBaggage: true }, () => (h = send()));
        const id = read(w, R, h);
        await w.drain();
        const g = got(R, id)["langfuse.trace.tags"];
        if (isDeepStrictEqual(g, tags)) return;
        if (isDeepStrictEqual(g, tags.join(",").split(","))) w.fail("split-at-comma", `tags ${JSON.stringify(tags)} arrive split at the comma`);
        w.fail("changed", `tags ${JSON.stringify(tags)} arrive as ${JSON.stringify(g)}`);
      },
    });
    out.push({
      name: "nested scopes",
      run: async (w) => {
        const R = spanRig(w);
        const a: any = { userId: "ua", tags: ["ta"], metadata: { k: "a", "a b": "x=y" }, sessionId: "sa" };
        const b: any = { userId: w.pick(["ub", "u;b"], "user"), tags: ["tb"], metadata: { k: w.pick(["b", "b,c"], "meta"), l: "2" } };
        const ba = w.bool("outer as baggage"), bb = w.bool("inner as baggage");
        let h1: any, h2: any, h3: any;
        propagateAttributes({ ...a, asBaggage: ba }, () => {
          h1 = send();
          propagateAttributes({ ...b, asBaggage: bb }, () => (h2 = send()));
          h3 = send();
        });
        const h4 = send();
        const ids = [h1, h2, h3, h4].map((h) => read(w, R, h));
        await w.drain();
        const merged = { userId: b.userId, sessionId: a.sessionId, tags: ["ta", "tb"], metadata: { ...a.metadata, ...b.metadata } };
        cmp(w, got(R, ids[0]), ba ? want(a) : {}, "outer scope");
        if (bb) {
          const m: any = { ...merged };
          if (!ba) delete m.sessionId;
          cmp(w, got(R, ids[1]), want(m), "inner scope");
        } else cmp(w, got(R, ids[1]), ba ? want(a) : {}, "inner scope without baggage");
        cmp(w, got(R, ids[2]), ba ? want(a) : {}, "outer scope again");
        cmp(w, got(R, ids[3]), {}, "outside");
        if (!ba && !bb) for (const h of [h1, h2, h3, h4]) w.assert(!h.baggage, "off", `baggage although switched off: ${h.baggage}`);
      },
    });
    // the same values again, now as baggage (or no longer): what travels is what the innermost scopes say
    out.push({
      name: "repeated values in nested scopes",
      run: async (w) => {
        const R = spanRig(w);
        const full: any = { userId: "u", sessionId: "s", version: "v", traceName: "n", environment: "e", tags: ["t"], metadata: { k: "m" }, prompt: { name: "p", version: 2 } };
        const keys = Object.keys(full);
        const a = w.pick([...keys, "all"], "outer"), b = w.pick([...keys, "all"], "inner");
        const pick = (k: string) => (k === "all" ? full : { [k]: full[k] });
        const ba = w.bool("outer as baggage"), bb = w.bool("inner as baggage");
        let h: any, o: any;
        propagateAttributes({ ...pick(a), asBaggage: ba }, () => propagateAttributes({ ...pick(b), asBaggage: bb }, () => ((h = send()), (o = startObservation("in")))));
        o.end();
        const id = read(w, R, h);
        await w.drain();
        cmp(w, got(R, o.id), want({ ...pick(a), ...pick(b) }), "local span");
        cmp(w, got(R, id), want({ ...(ba ? pick(a) : {}), ...(bb ? pick(b) : {}) }), "remote span");
      },
    });
    out.push({
      name: "switched off",
      run: async (w) => {
        const R = spanRig(w);
        const p: any = { userId: "u", sessionId: "s", version: "v", traceName: "n", tags: ["t"], metadata: { k: "v" }, environment: "e", prompt: { name: "p", version: 1 } };
        const sub = Object.fromEntries(Object.entries(p).filter(([k]) => w.bool(k)));
        const flag = w.pick([undefined, false], "asBaggage");
        const foreign = w.bool("foreign");
        let h: any;
        const base = foreign ? propagation.setBaggage(ROOT_CONTEXT, propagation.createBaggage({ other: { value: "o 1" }, user_id: { value: "x" } })) : ROOT_CONTEXT;
        context.with(base, () => propagateAttributes({ ...sub, asBaggage: flag } as any, () => (h = send())));
        if (!foreign) w.assert(h.baggage === undefined, "off", `baggage: ${h.baggage}`);
        else w.assert(decodeURIComponent(h.baggage) === "other=o 1,user_id=x", "off", `baggage: ${h.baggage}`);
        const id = read(w, R, h);
        await w.drain();
        cmp(w, got(R, id), {}, "remote span");
      },
    });
    out.push({
      name: "foreign entries",
      run: async (w) => {
        const R = spanRig(w);
        const key = w.pick(["user_id", "userId", "langfuse", "langfuse.user_id", "xlangfuse_user_id", "Langfuse_user_id", "langfuse_", "langfuse_unknown", "langfuse_userid", "langfuse_metadata", "other"], "key");
        const v = w.pick(["v", "a=b", "ü"], "value");
        const entry = { value: v, ...(w.bool("with metadata") ? { metadata: (propagation as any).createBaggage ? undefined : undefined } : {}) } as any;
        const ctx = propagation.setBaggage(ROOT_CONTEXT, propagation.createBaggage({ [key]: entry }));
        let h: any;
        context.with(ctx, () => propagateAttributes({ userId: "me", metadata: { m: "1" }, asBaggage: true }, () => (h = send())));
        const back = propagation.getBaggage(receive(h))!;
        w.assert(back.getEntry(key)?.value === v, "foreign", `foreign entry ${key} became ${back.getEntry(key)?.value}`);
        const id = read(w, R, h);
        await w.drain();
        cmp(w, got(R, id), want({ userId: "me", metadata: { m: "1" } }), `with foreign entry ${key}`);
      },
    });
    out.push({
      name: "several hops",
      run: async (w) => {
        const R = spanRig(w);
        const p: any = { userId: w.pick(VALUES, "user"), metadata: { k: w.pick(["1", "a,b=c", "ü%"], "meta") }, tags: ["t", "u v"], prompt: { name: "p", version: 4 } };
        let h: any;
        propagateAttributes({ ...p, asBaggage: true }, () => startActiveObservation("a", () => (h = send())));
        const n = q ? 2 : 3;
        for (let i = 1; i < n; i++) {
          let nh: any;
          context.with(receive(h), () => startActiveObservation("hop" + i, () => (nh = send())));
          h = nh;
        }
        const id = read(w, R, h);
        await w.drain();
        cmp(w, got(R, id), want(p), "last hop");
        for (const e of R.exported) {
          const a = { ...e.attributes };
          delete a["langfuse.internal.is_app_root"];
          delete a["langfuse.observation.type"];
          cmp(w, a, want(p), e.name);
        }
        // the application root is the caller only
        const roots = R.exported.filter((e) => e.attributes["langfuse.internal.is_app_root"]).map((e) => e.name);
        w.assert(roots.join() === "a", "root", `application roots: ${roots}`);
      },
    });
    out.push({
      name: "local scope over received values",
      run: async (w) => {
        const R = spanRig(w);
        const p: any = { userId: "ru", sessionId: "rs", version: "rv", traceName: "rn", environment: "r-env", tags: ["rt"], metadata: { k: "r", o: "r" }, prompt: { name: "rp", version: 3 } };
        let h: any;
        propagateAttributes({ ...p, asBaggage: true }, () => (h = send()));
        const LOCAL: any = { userId: "l", sessionId: "l", version: "l", traceName: "l", environment: "l-env", metadata: { k: "l" }, prompt: { name: "lp", version: 0 } };
        const ov: any = Object.fromEntries(Object.entries(LOCAL).filter(([k]) => w.bool("override " + k)));
        let o: any;
        context.with(receive(h), () => propagateAttributes({ ...ov, asBaggage: w.bool("baggage") }, () => (o = startObservation("x"))));
        o.end();
        await w.drain();
        const e: any = { ...p, ...ov };
        if (ov.metadata) e.metadata = { k: "l", o: "r" };
        cmp(w, got(R, o.id), want(e), "local scope");
      },
    });
    void trace;
    return out;
  },
};
export default def;
