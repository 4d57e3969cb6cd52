import type { CheckDef, Scenario, World, Reply } from "../mc/engine";
import { NAMES, client, asked, promptReply, contentId, type Sel } from "./lib/prompt";
import { isDeepStrictEqual } from "node:util";

const SELS: Sel[] = [{}, { label: "production" }, { label: "x" }, { label: "x-label:y" }, { label: "y" }, { label: "version:1" }, { label: "1" }, { version: 1 }, { version: 2 }, { version: 12 }, { label: "" }, { label: "x&version=2" }, { version: 0 }, { label: "X" }, { label: " x" }, { label: "latest" }, { label: "Production" }, { version: 10 }, { version: 2147483648 }, { label: "\u00e9/+" }, { label: "e\u0301/+" }, { label: "undefined" }, { label: "null" }, { version: 1, label: "x" }, { version: 2, label: "x" }, { version: 3, label: "production" }];
type Look = { name: string } & Sel;
const eff = (l: Look) => JSON.stringify([l.name, l.version !== undefined ? "v" + l.version : "l" + (l.label ?? "production")]);
const show = (l: Look) => JSON.stringify(l);

async function lookup(w: World, c: any, l: Look, extra: any = {}): Promise<{ p: any; reqs: number }> {
  const n0 = w.reqs.length;
  const opts: any = { ...extra };
  if (l.version !== undefined) opts.version = l.version;
  if (l.label !== undefined) opts.label = l.label;
  const res = await w.settle(c.prompt.get(l.name, opts), (r) => promptReply(r));
  w.assert(res.done && res.ok, "lookup-failed", () => `lookup ${show(l)} failed: ${res.error}`);
  for (const r of w.reqs.slice(n0)) {
    const a = asked(r);
    w.assert(a, "request", `unexpected request ${r.method} ${r.url}`);
    w.assert(a!.name === l.name, "request", () => `lookup of ${JSON.stringify(l.name)} asked the server for ${JSON.stringify(a!.name)}`);
    w.assert(a!.version === (l.version === undefined ? null : String(l.version)) && a!.label === (l.label ?? null), "request", () => `lookup ${show(l)} asked for version ${a!.version} label ${a!.label}`);
  }
  return { p: res.value, reqs: w.reqs.length - n0 };
}

function pairs(first: Look, seconds: Look[]): Scenario {
  return {
    name: `pairs from ${show(first)}`,
    run: async (w) => {
      const c = client(w);
      const second = w.pick(seconds, "second");
      const owner = new Map<string, number>(); // effective key -> request id of its content
      const seq = [first, second, first, second];
      for (const l of seq) {
        const { p, reqs } = await lookup(w, c, l);
        const id = contentId(p);
        w.assert(id !== null, "content", () => `lookup ${show(l)} returned ${JSON.stringify(p?.prompt)}`);
        const k = eff(l);
        const src = asked(w.reqs[id!])!;
        w.assert(src.name === l.name, "cross-prompt", () => `lookup ${show(l)} returned content delivered for prompt ${JSON.stringify(src.name)}`);
        if (owner.has(k)) w.assert(owner.get(k) === id, "cross-prompt", () => `lookup ${show(l)} returned content delivered for ${JSON.stringify(src)}`);
        else {
          w.assert(reqs === 1, "cross-prompt", () => `first lookup of ${show(l)} was answered from the cache with content of ${JSON.stringify(src)}`);
          w.assert(id === w.reqs.length - 1, "cross-prompt", () => `lookup ${show(l)} returned older content`);
          owner.set(k, id!);
        }
        w.assert(p.name === l.name, "fields", `client name ${p.name}`);
      }
    },
  };
}

/** two different lookups whose requests overlap and finish in either order */
function overlap(first: Look, seconds: Look[]): Scenario {
  return {
    name: `overlap with ${show(first)}`,
    run: async (w) => {
      const c = client(w);
      const second = w.pick(seconds, "second");
      const looks = w.bool("swap") ? [second, first] : [first, second];
      const res: any[] = [];
      const micro = w.bool("same tick");
      for (const l of looks) {
        const opts: any = {};
        if (l.version !== undefined) opts.version = l.version;
        if (l.label !== undefined) opts.label = l.label;
        const st: any = {};
        res.push(st);
        c.prompt.get(l.name, opts).then(
          (v: any) => Object.assign(st, { v }),
          (e: any) => Object.assign(st, { e }),
        );
        if (!micro) await w.drain();
      }
      await w.drain();
      w.assert(w.reqs.length === 2, "request", `two lookups of different prompts made ${w.reqs.length} requests`);
      const order = w.bool("reverse replies") ? [1, 0] : [0, 1];
      for (const i of order) {
        w.reqs[i].reply(promptReply(w.reqs[i]));
        await w.drain();
      }
      const ok = (l: Look, p: any, what: string) => {
        const id = contentId(p);
        const src = id === null ? null : asked(w.reqs[id]);
        w.assert(src && src.name === l.name && src.version === (l.version === undefined ? null : String(l.version)) && (l.version !== undefined || (src.label ?? "production") === (l.label ?? "production")), "cross-prompt", () => `${what} of ${show(l)} while ${show(looks[1 - looks.indexOf(l)])} was in flight returned content delivered for ${JSON.stringify(src)}`);
      };
      looks.forEach((l, i) => ok(l, res[i].v, "lookup"));
      for (const l of looks) {
        const { p, reqs } = await lookup(w, c, l);
        w.assert(reqs === 0, "cache", `repeated lookup made ${reqs} requests`);
        ok(l, p, "repeated lookup");
      }
    },
  };
}

/** all fields of the server's answer are reported */
const fields: Scenario = {
  name: "server fields",
  run: async (w) => {
    const c = client(w);
    const chat = w.bool("chat");
    const prompt = chat
      ? w.pick<any>([[], [{ role: "user", content: "hi {{x}}" }], [{ type: "chatmessage", role: "system", content: "a" }, { type: "placeholder", name: "h" }, { role: "user", content: "" }], [{ type: "chatmessage", role: "user", content: "c", name: "bob" }, { role: "assistant", content: "", tool_calls: [{ id: "1" }] }]], "messages")
      : w.pick(["", "hello {{name}}", "{\"a\": 1}\n\u00e9"], "text");
    const json: any = {
      type: chat ? "chat" : "text",
      name: "n/1",
      version: w.pick([1, 42], "version"),
      labels: w.pick<any>([[], ["production", "x"], ["x", "a", "production", "x", " x"]], "labels"),
      tags: w.pick<any>([[], ["t2", "t1", "t2", "T1"]], "tags"),
      config: w.pick<any>([{}, { model: "m", nested: { a: [1, 2] } }, null], "config"),
      prompt,
    };
    const cm = w.pick([undefined, null, "msg"], "commit");
    if (cm !== undefined) json.commitMessage = cm;
    const frozen = structuredClone(json);
    const how = w.choose(3, "how");
    const get = () => (how === 1 ? c.prompt.get("n/1", { type: chat ? "chat" : "text" } as any) : how === 2 ? c.prompt.get("n/1", { version: json.version }) : c.prompt.get("n/1"));
    const answer = (): Reply => ({ status: 200, json });
    for (let round = 0; round < 2; round++) {
      const r = await w.settle(get(), answer);
      w.assert(r.ok, "lookup-failed", () => `lookup failed: ${r.error}`);
      const p = r.value;
      for (const f of ["name", "version", "labels", "tags", "config", "type", "commitMessage"])
        w.assert(isDeepStrictEqual(p[f], frozen[f]), "fields", () => `${f} is ${JSON.stringify(p[f])}, server said ${JSON.stringify(frozen[f])}`);
      w.assert(p.isFallback === false, "fields", "fetched prompt marked as fallback");
      if (!chat) w.assert(p.prompt === frozen.prompt, "fields", `prompt is ${JSON.stringify(p.prompt)}`);
      else {
        const want = frozen.prompt.map((m: any) => ("type" in m ? m : { type: "chatmessage", ...m }));
        w.assert(isDeepStrictEqual(p.prompt, want), "fields", () => `messages are ${JSON.stringify(p.prompt)}`);
      }
      const js = JSON.parse(p.toJSON());
      const plain = chat ? frozen.prompt.map((m: any) => { if (m.type !== "chatmessage") return m; const { type: _, ...rest } = m; return rest; }) : frozen.prompt;
      w.assert(isDeepStrictEqual(js.prompt, plain), "tojson", () => `toJSON gives prompt ${JSON.stringify(js.prompt)}`);
      w.assert(js.name === frozen.name && js.version === frozen.version && isDeepStrictEqual(js.config, frozen.config) && isDeepStrictEqual(js.labels, frozen.labels) && isDeepStrictEqual(js.tags, frozen.tags) && js.type === frozen.type && js.isFallback === false, "tojson", () => `toJSON gives ${p.toJSON()}`);
    }
    w.assert(w.reqs.length === 1, "cache", `${w.reqs.length} requests for two lookups`);
  },
};

const def: CheckDef = {
  property: "P01",
  bounds: (t) => `${t}: all ordered pairs of lookups over ${NAMES.length} adversarial names x ${SELS.length} version/label selectors; all field combinations of the server's answer`,
  assumptions: ["the server decodes the path and query by the URL standard"],
  scenarios: () => {
    const out: Scenario[] = [fields];
    const all: Look[] = NAMES.flatMap((name) => SELS.map((s) => ({ name, ...s })));
    all.forEach((f) => {
      out.push(pairs(f, all));
    });
    // overlapping requests: selectors of one name and names with one selector
    const near: Look[] = [...SELS.map((s) => ({ name: "a", ...s })), ...NAMES.slice(1).map((name) => ({ name })), { name: "b", label: "x" }, { name: "b", version: 1 }];
    near.forEach((f) => out.push(overlap(f, near.filter((g) => eff(g) !== eff(f)))));
    return out;
  },
};
export default def;
