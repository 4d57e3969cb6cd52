import { isDeepStrictEqual } from "node:util";
import type { CheckDef, Scenario, World, Req, Reply } from "../mc/engine";
import { client, NAMES } from "./lib/prompt";

const show = (v: any) => JSON.stringify(v);
const j = (v: any) => JSON.parse(JSON.stringify(v));
const TEXTS = ["", "plain", " \r\n\tspaced \r\n\u00a0", "e\u0301\u00e9\u2028\ufeff", "Hello {{name}}", "Ünï ☃ {\"a\":1}", "{{#x}}{{/x}}", "L".repeat(5000), "M".repeat(200_000) + "{{x}}"];
const OPT: Record<string, any[]> = { labels: [[], ["production"], ["z", "latest", "a b", "ü", "z"]], tags: [[], ["t2", "t", "T", "t2"]], config: [{}, { model: "m", n: [0, null, ""] }, null, 0], commitMessage: ["", "msg"] };
const MSG: any[] = [{ role: "system", content: "s {{v}}" }, { role: "user", content: "" }, { role: "Ü", content: "x", name: "n", tool_calls: [1] }, { type: "chatmessage", role: "assistant", content: "typed" }, { type: "placeholder", name: "history" }, { type: "placeholder", name: "", extra: 1 }, { type: "placeholder", name: " Past  Msgs " }, { role: " user ", content: " x\n" }];
const normal = (m: any) => (m.type === "placeholder" ? { type: "placeholder", name: m.name } : { ...m, type: "chatmessage" });
const server = (r: Req, n: number): Reply => ({ status: 200, json: { ...r.json, type: r.json.type, version: n, labels: [...(r.json.labels ?? []), "latest"], tags: r.json.tags ?? [], config: r.json.config ?? {}, name: r.json.name } });

async function create(w: World, body: any, wantBody: any, via: "manager" | "alias") {
  const c: any = client(w);
  const before = show(body);
  const call = via === "manager" ? c.prompt.create(body) : c.createPrompt(body);
  const st = await w.settle(call, (r) => server(r, 7));
  w.assert(w.reqs.length === 1 && w.reqs[0].method === "POST" && w.reqs[0].path === "/api/public/v2/prompts", "request", () => `requests ${w.reqs.map((r) => r.method + r.path)}`);
  w.assert(isDeepStrictEqual(w.reqs[0].json, j(wantBody)), "body", () => `sent ${show(w.reqs[0].json)}, given ${before}`);
  w.assert(show(body) === before, "modified", "the caller's body was modified");
  w.assert(st.ok, "rejected", () => `create rejected ${st.error}`);
  const p = st.value, s = (server(w.reqs[0], 7) as any).json;
  w.assert(p.name === s.name && p.version === 7 && p.type === s.type && isDeepStrictEqual(p.labels, s.labels) && isDeepStrictEqual(p.tags, s.tags) && isDeepStrictEqual(p.config, s.config), "client", () => `client ${show(p)}`);
  w.assert(p.isFallback === false, "client", "a created prompt is marked as fallback");
  if (s.type === "text") w.assert(p.prompt === s.prompt && typeof p.compile({}) === "string", "client", () => `prompt ${show(p.prompt)}`);
  else w.assert(Array.isArray(p.compile({}, {})) && p.prompt.length === s.prompt.length, "client", () => `prompt ${show(p.prompt)}`);
}
const textScen: Scenario = {
  name: "text prompts",
  run: async (w) => {
    const body: any = { name: w.pick(NAMES.slice(0, 12), "name"), prompt: w.pick(TEXTS, "text") };
    const t = w.pick(["given", "absent", "undefined"], "type");
    if (t !== "absent") body.type = t === "given" ? "text" : undefined;
    await create(w, body, { ...body, type: "text" }, w.pick(["manager", "alias"] as const, "via"));
  },
};
const optScen = (chat: boolean): Scenario => ({
  name: `optional fields, ${chat ? "chat" : "text"}`,
  run: async (w) => {
    const body: any = chat ? { name: "n", type: "chat", prompt: [MSG[0], MSG[4]] } : { name: "n", type: "text", prompt: "p" };
    for (const [k, vs] of Object.entries(OPT)) {
      const v = w.choose(vs.length + 2, k);
      if (v === vs.length + 1) body[k] = undefined;
      else if (v > 0) body[k] = vs[v - 1];
    }
    await create(w, body, { ...body, prompt: chat ? body.prompt.map(normal) : body.prompt }, "manager");
  },
});
const chatScen = (n: number): Scenario => ({
  name: `chat prompts of ${n} messages`,
  run: async (w) => {
    const prompt = Array.from({ length: n }, () => w.pick(MSG, "message"));
    await create(w, { name: "c", type: "chat", prompt }, { name: "c", type: "chat", prompt: prompt.map(normal) }, w.pick(["manager", "alias"] as const, "via"));
  },
});
const failScen: Scenario = {
  name: "failures",
  run: async (w) => {
    const c: any = client(w);
    const op = w.pick(["create", "update", "delete"], "op");
    const kind = w.pick(["400", "401", "404", "409", "500", "503", "net", "html"], "fault");
    const call = op === "create" ? c.prompt.create({ name: "n", prompt: "p" }) : op === "update" ? c.prompt.update({ name: "n", version: 1, newLabels: ["l"] }) : c.prompt.delete("n");
    const st = await w.settle(call, () => (kind === "net" ? { error: new TypeError("fetch failed") } : kind === "html" ? { status: 502, text: "<html>", headers: { "content-type": "text/html" } } : { status: Number(kind), json: { message: "m" } }));
    w.assert(st.done && !st.ok, "failure", `${op} answered ${kind} did not reject`);
  },
};
const updScen: Scenario = {
  name: "update and delete requests",
  run: async (w) => {
    const c: any = client(w);
    const name = w.pick(NAMES, "name");
    const op = w.pick(["update", "update alias", "delete"], "op");
    let st: any;
    if (op.startsWith("update")) {
      const version = w.pick([0, 1, 12345], "version"), newLabels = w.pick([[], ["production"], ["x", "a b", "ü,x", "x"], ["latest"], ["production", "latest"]], "labels");
      const arg = { name, version, newLabels };
      const before = show(arg);
      st = await w.settle(op === "update" ? c.prompt.update(arg) : c.updatePrompt(arg), () => ({ status: 200, json: { name, version, labels: newLabels, type: "text", prompt: "new", tags: [], config: {} } }));
      const r = w.reqs[0];
      const m = /^\/api\/public\/v2\/prompts\/([^/]*)\/versions\/(\d+)$/.exec(r.path);
      w.assert(w.reqs.length === 1 && r.method === "PATCH" && m && decodeURIComponent(m[1]) === name && m[2] === String(version), "request", () => `${r.method} ${r.path}`);
      w.assert(isDeepStrictEqual(r.json, { newLabels }), "body", () => show(r.json));
      w.assert(st.ok && st.value.prompt === "new" && isDeepStrictEqual(st.value.labels, newLabels) && st.value.version === version, "answer", () => show(st));
      w.assert(show(arg) === before, "modified", "the arguments were modified");
    } else {
      const options = w.pick<any>([undefined, {}, { version: 1 }, { version: 0 }, { label: "a b" }, { version: 2, label: "l" }], "options");
      st = await w.settle(options ? c.prompt.delete(name, options) : c.prompt.delete(name), () => ({ status: 204, text: "" }));
      const r = w.reqs[0];
      const m = /^\/api\/public\/v2\/prompts\/([^/]*)$/.exec(r.path);
      w.assert(w.reqs.length === 1 && r.method === "DELETE" && m && decodeURIComponent(m[1]) === name, "request", () => `${r.method} ${r.path}`);
      w.assert(r.query.get("version") === (options?.version !== undefined ? String(options.version) : null) && r.query.get("label") === (options?.label ?? null) && [...r.query.keys()].length === Object.keys(options ?? {}).length, "query", () => r.url);
      w.assert(st.ok && st.value === undefined, "answer", () => show(st));
    }
  },
};
const concScen: Scenario = {
  name: "concurrent creations",
  run: async (w) => {
    const c: any = client(w);
    const bodies = [{ name: "a", prompt: "pa" }, { name: "a", type: "chat", prompt: [MSG[0]] }, { name: "b", prompt: "pb", labels: ["x"] }];
    const st: any[] = [];
    await w.system({
      threads: bodies.map((b, k) => ({ name: "create" + k, steps: [() => void c.prompt.create(b).then((v: any) => (st[k] = { ok: true, v }), (e: any) => (st[k] = { e }))] })),
      replies: (r) => [{ name: "ok", reply: () => server(r, 100 + r.id) }, { name: "400", reply: () => ({ status: 400, json: {} }) }],
    });
    await w.settle(null, (r) => server(r, 100 + r.id));
    w.assert(w.reqs.length === 3, "request", `${w.reqs.length} requests`);
    for (const r of w.reqs) {
      const k = bodies.findIndex((b) => b.name === r.json.name && isDeepStrictEqual(r.json.type, (b as any).type ?? "text"));
      const good = (r.outcome as any).status === 200;
      w.assert(!!st[k]?.ok === good, "outcome", "a creation settled with another's outcome");
      if (good) w.assert(st[k].v.version === 100 + r.id && st[k].v.type === r.json.type, "answer", "a creation resolved with another's prompt");
    }
  },
};
const def: CheckDef = {
  property: "P07",
  bounds: (t) => `12 names x ${TEXTS.length} texts; all combinations of optional field values; all chat prompts of up to ${t === "quick" ? 3 : 4} messages over ${MSG.length}; update and delete of ${NAMES.length} names x versions x labels; 8 failures; all completion orders/outcomes of 3 concurrent creations`,
  scenarios: (tier) => [textScen, optScen(false), optScen(true), ...[0, 1, 2, 3, ...(tier === "quick" ? [] : [4])].map(chatScen), failScen, updScen, concScen],
};
export default def;
