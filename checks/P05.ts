import type { CheckDef, Scenario, World } from "../mc/engine";
import { TextPromptClient, ChatPromptClient } from "@langfuse/client";
import { isDeepStrictEqual } from "node:util";

const base = { name: "n", version: 1, config: {}, labels: [], tags: [] };
const TOK: { t: string; v?: string }[] = [
  { t: "a " },
  { t: "{{x}}", v: "x" },
  { t: "{{ y }}", v: "y" },
  { t: "{" },
  { t: "}" },
  { t: "<b>&\"'`=/" },
  { t: "\n  " },
  { t: "{{missing}}", v: "missing" },
  { t: "$&$1" },
  { t: "{{x_1}}", v: "x_1" },
  { t: "{{X}}", v: "X" },
  { t: "{{x-1}}", v: "x-1" },
  { t: "{{\u00e9 }}", v: "\u00e9" },
  { t: "{{0}}", v: "0" },
  { t: "\u00e9\ud83d\ude00{x}" },
];
const XV: any[] = [0, -1.5, false, true, null, undefined, "0", " ", "  X  ", "{{x}}", "{x}", "L".repeat(5000), "&amp;", "\u0000", "{{{y}}}", "X", "", "{{y}}", "<b>&\"'/`=", "$1$&$$", "}}", "{", "a\nb", "\\", "{{#x}}", "\ud83d\ude00"];

function template(w: World, len: number, first?: number): { text: string; parts: { t: string; v?: string }[] } {
  const parts: { t: string; v?: string }[] = [];
  for (let i = 0; i < len; i++) {
    const prev = parts[parts.length - 1]?.t ?? "";
    const cand = TOK.filter((k) => !(prev.endsWith("{") && k.t.startsWith("{")));
    parts.push(i === 0 && first !== undefined ? TOK[first] : w.pick(cand, "tok"));
  }
  return { text: parts.map((p) => p.t).join(""), parts };
}
const render = (parts: { t: string; v?: string }[], vars: any) => parts.map((p) => (p.v ? (vars[p.v] ?? "") : p.t)).join("");

function textScen(len: number, first: number): Scenario {
  return {
    name: `text len ${len} first ${first}`,
    run: (w) => {
      const { text, parts } = template(w, len, first);
      for (const xv of XV) {
        const vars: any = { x: xv, y: "Y<", x_1: "one", X: "big", "x-1": "dash", "\u00e9": "acc", "0": "zero", unused: "{{x}}" };
        const p = new TextPromptClient({ ...base, type: "text", prompt: text } as any);
        const before = structuredClone(vars);
        for (let k = 0; k < 2; k++) {
          const got = p.compile(vars);
          const want = render(parts, vars);
          w.assert(got === want, "text", () => `template ${JSON.stringify(text)} with ${JSON.stringify(vars)} compiles to ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`);
        }
        w.assert(p.prompt === text && isDeepStrictEqual(vars, before), "impure", "compilation changed its inputs");
        const none = p.compile(), empty = p.compile({});
        w.assert(none === empty, "text", () => `template ${JSON.stringify(text)} with an empty set of variables compiles to ${JSON.stringify(empty)}, without one to ${JSON.stringify(none)}`);
        w.assert(none === render(parts, {}), "text", () => `template ${JSON.stringify(text)} without variables compiles to ${JSON.stringify(none)}`);
        w.assert(p.compile({ x: "other" }) === render(parts, { x: "other" }), "text", "second compilation with other variables differs");
      }
    },
  };
}

/** many tags */
const long: Scenario = {
  name: "long text",
  run: (w) => {
    const n = w.pick([5, 10, 11, 100, 1000], "n");
    const kind = w.choose(3, "kind");
    const parts: { t: string; v?: string }[] = [];
    for (let i = 0; i < n; i++) {
      parts.push({ t: `line ${i}: ` });
      parts.push(kind === 0 ? { t: "{{x}}", v: "x" } : kind === 1 ? { t: `{{v${i}}}`, v: `v${i}` } : { t: i % 2 ? "{{ x }}" : "{{y}}", v: i % 2 ? "x" : "y" });
      if (i % 4 === 3) parts.push({ t: "\n" });
    }
    const text = parts.map((p) => p.t).join("");
    const vars: any = { x: "X", y: "Y" };
    for (let i = 0; i < n; i++) vars[`v${i}`] = `value ${i}`;
    const got = new TextPromptClient({ ...base, type: "text", prompt: text } as any).compile(vars);
    w.assert(got === render(parts, vars), "text", () => `a template with ${n} tags compiles to ${JSON.stringify(got).slice(0, 200)}`);
    const chat = new ChatPromptClient({ ...base, type: "chat", prompt: Array.from({ length: n }, (_, i) => (i % 3 === 2 ? { type: "placeholder", name: "p" + i } : { role: "r" + i, content: `m{{v${i}}}` })) } as any);
    const ph: any = {};
    for (let i = 2; i < n; i += 3) if (i % 2) ph["p" + i] = [{ role: "q" + i, content: `q{{v${i}}}` }];
    const want = Array.from({ length: n }, (_, i) => (i % 3 === 2 ? (i % 2 ? { role: "q" + i, content: `qvalue ${i}` } : { type: "placeholder", name: "p" + i }) : { role: "r" + i, content: `mvalue ${i}` }));
    const cgot = chat.compile(vars, ph);
    w.assert(isDeepStrictEqual(cgot, want), "chat", () => `a chat prompt with ${n} messages compiles to ${JSON.stringify(cgot).slice(0, 300)}`);
  },
};

/** names that exist on every object */
const NAMES = ["constructor", "toString", "valueOf", "isPrototypeOf", "length", "name", "prototype", "__defineGetter__", "then"];
const names: Scenario = {
  name: "names of inherited members",
  run: (w) => {
    const n = w.pick(NAMES, "name"), given = w.pick([undefined, "none", "V", ""], "value"), how = w.pick(["plain", "null prototype", "omitted"], "object");
    if (how === "omitted" && given !== undefined) return;
    const make = (v: any) => {
      if (how === "omitted") return undefined;
      const o: any = how === "plain" ? { other: "o" } : Object.assign(Object.create(null), { other: "o" });
      if (given !== undefined && given !== "none") Object.defineProperty(o, n, { value: v, enumerable: true, writable: true, configurable: true });
      return o;
    };
    const want = given !== undefined && given !== "none" ? given : "";
    const text = new TextPromptClient({ ...base, type: "text", prompt: `a{{${n}}}b{{ ${n} }}c` } as any).compile(make(want));
    w.assert(text === `a${want}b${want}c`, "text", () => `{{${n}}} ${want ? "given" : "not given"} compiles to ${JSON.stringify(text)}`);
    const chat = new ChatPromptClient({ ...base, type: "chat", prompt: [{ role: "r", content: `x{{${n}}}` }, { type: "placeholder", name: n }] } as any);
    const msgs = [{ role: "q", content: `y{{${n}}}` }];
    const got = chat.compile(make(want), make(msgs));
    const given2 = given !== undefined && given !== "none";
    const exp = [{ role: "r", content: "x" + want }, given2 ? { role: "q", content: "y" + want } : { type: "placeholder", name: n }];
    w.assert(isDeepStrictEqual(got, exp), "chat", () => `placeholder ${n} compiles to ${JSON.stringify(got)}, expected ${JSON.stringify(exp)}`);
    const lc = chat.getLangchainPrompt({ placeholders: make(msgs) });
    w.assert(given2 ? lc.length === 2 && (lc[1] as any).role === "q" : isDeepStrictEqual(lc[1], ["placeholder", `{${n}}`]), "langchain", () => `placeholder ${n} in LangChain form: ${JSON.stringify(lc)}`);
  },
};

const MSGS: any[] = [
  { role: "user", content: "hi {{x}}" },
  { type: "chatmessage", role: "system", content: "{{y}}<&>{\"k\": {{x}}}" },
  { type: "placeholder", name: "h" },
  { type: "placeholder", name: "g" },
  { role: "assistant", content: "" },
];
const PV: any[] = [
  undefined,
  [],
  [{ role: "user", content: "in {{x}}" }],
  [{ role: "user", content: "1 {{y}}", extra: 1 }, { role: "tool", content: [{ type: "text", text: "{{x}}" }] }],
  "str {{x}}",
  42,
  { a: 1 },
  [{ foo: 1 }],
  null,
  [null],
  [{ role: "user", content: "ok" }, "bad"],
  false,
  "",
  [{ role: "user" }],
  0,
  true,
  " ",
  [[{ role: "user", content: "x" }]],
  [{ role: "", content: "" }],
  [{ role: "user", content: null }],
  [{ role: "user", content: "{{x}}" }, { role: "user", content: "{{x}}" }, { content: "{{y}}", role: "user", name: "n", tool_calls: [{ id: "1", f: "{{x}}" }] }],
  { role: "user", content: "{{x}}" },
];
const isMsgs = (v: any) => Array.isArray(v) && v.length > 0 && v.every((m) => typeof m === "object" && m !== null && "role" in m && "content" in m);
const sub = (s: string, vars: any) => s.replace(/\{\{(\w+)\}\}/g, (_, n) => vars[n] ?? "");

function chatScen(len: number, first: number): Scenario {
  return {
    name: `chat len ${len} first ${first}`,
    run: (w) => {
      const msgs: any[] = [];
      for (let i = 0; i < len; i++) msgs.push(structuredClone(i === 0 ? MSGS[first] : w.pick(MSGS, "msg")));
      const usesG = msgs.some((m) => m.name === "g");
      const usesH = msgs.some((m) => m.name === "h");
      const h = usesH ? w.pick(PV, "h") : undefined;
      const g = usesG ? w.pick(usesH ? PV.slice(0, 6) : PV, "g") : undefined;
      const vars: any = { x: "X<{{y}}", y: "Y" };
      const ph: any = {};
      if (h !== undefined) ph.h = structuredClone(h);
      if (g !== undefined) ph.g = structuredClone(g);
      const api = structuredClone(msgs);
      const p = new ChatPromptClient({ ...base, type: "chat", prompt: api } as any);
      const promptBefore = structuredClone(p.prompt);
      const phBefore = structuredClone(ph);
      const withVars = w.bool("vars");
      const withPh = h !== undefined || g !== undefined ? true : w.bool("ph");
      const V = withVars ? vars : undefined;
      const want: any[] = [];
      for (const m of msgs) {
        if (m.type === "placeholder") {
          const v = ph[m.name];
          if (v === undefined) want.push({ type: "placeholder", name: m.name });
          else if (isMsgs(v)) for (const x of v) want.push({ ...x, content: typeof x.content === "string" ? sub(x.content, V ?? {}) : x.content });
          else if (Array.isArray(v) && v.length === 0) continue;
          else want.push(JSON.stringify(v));
        } else want.push({ role: m.role, content: sub(m.content, V ?? {}) });
      }
      for (let k = 0; k < 2; k++) {
        let got: any;
        try {
          got = p.compile(V, withPh ? ph : undefined);
        } catch (e: any) {
          w.fail("chat-throws", `compile threw ${e} for placeholders ${JSON.stringify(ph)}`);
        }
        w.assert(isDeepStrictEqual(got, want), "chat", () => `messages ${JSON.stringify(msgs)} with ${JSON.stringify(V)} / ${JSON.stringify(ph)} compile to ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`);
        // the caller may change the result
        for (const m of got) if (m && typeof m === "object" && k === 0) if ("content" in m && typeof m.content === "string") m.content += "!";
      }
      w.assert(isDeepStrictEqual(p.prompt, promptBefore), "impure", "compilation changed the prompt");
      w.assert(isDeepStrictEqual(ph, phBefore), "impure", "compilation changed the placeholders");
      w.assert(isDeepStrictEqual(vars, { x: "X<{{y}}", y: "Y" }), "impure", "compilation changed the variables");
    },
  };
}

/** sizes far beyond the enumerated ones */
const many: Scenario = {
  name: "many variables, messages and placeholder messages",
  run: (w) => {
    const n = w.pick([17, 130, 1100], "n");
    const names = Array.from({ length: n }, (_, i) => "v" + i);
    const vars = Object.fromEntries(names.map((v, i) => [v, i % 5 ? "<" + i + ">" : "{{v" + ((i + 1) % n) + "}}"]));
    const text = names.map((v) => `{{${v}}} t {{ ${v} }}`).join("\n");
    const want = (t: string) => t.replace(/\{\{\s*(\w+)\s*\}\}/g, (_, v) => vars[v]);
    const tp = new TextPromptClient({ ...base, type: "text", prompt: text } as any);
    const got = tp.compile(vars);
    w.assert(got === want(text), "text", () => `a template of ${n} variables compiles to something else (length ${got.length}, expected ${want(text).length})`);
    const hist = names.map((v, i) => ({ role: i % 2 ? "user" : "assistant", content: `h{{${v}}}` }));
    const msgs: any[] = names.flatMap((v, i) => (i === (n >> 1) ? [{ type: "placeholder", name: "h" }, { role: "user", content: `m {{${v}}}` }] : [{ role: "user", content: `m {{${v}}}` }]));
    const cp = new ChatPromptClient({ ...base, type: "chat", prompt: msgs } as any);
    const res: any = cp.compile(vars, { h: hist });
    const exp = msgs.flatMap((m) => (m.type === "placeholder" ? hist : [m])).map((m) => ({ role: m.role, content: want(m.content) }));
    w.assert(isDeepStrictEqual(res, exp), "chat", () => `a chat prompt of ${msgs.length} messages and ${n} history messages compiles to ${res.length} messages, expected ${exp.length}, or differs`);
  },
};
/** long templates, values and messages */
const large: Scenario = {
  name: "long templates and values",
  run: (w) => {
    const text = "t".repeat(w.pick([10, 70_000, 1_000_000], "text")), val = "v".repeat(w.pick([10, 70_000, 1_000_000], "value")) + "{{x}}";
    const tp = new TextPromptClient({ ...base, type: "text", prompt: `${text}{{x}}${text}{{ y }}` } as any);
    w.assert(tp.compile({ x: val, y: "Y" }) === text + val + text + "Y", "text", "a long template compiles to something else");
    const cp = new ChatPromptClient({ ...base, type: "chat", prompt: [{ role: "a", content: text + "{{x}}" }, { type: "placeholder", name: "h" }] } as any);
    const res: any = cp.compile({ x: val }, { h: [{ role: "b", content: text }, { role: "c", content: text + "." }] });
    w.assert(isDeepStrictEqual(res, [{ role: "a", content: text + val }, { role: "b", content: text }, { role: "c", content: text + "." }]), "chat", "a long chat prompt compiles to something else");
  },
};
const def: CheckDef = {
  property: "P05",
  bounds: (t) => `${t}: all text templates of up to ${t === "quick" ? 4 : 5} tokens over ${TOK.length} tokens x ${XV.length} values; all chat prompts of up to ${t === "quick" ? 3 : 4} messages over ${MSGS.length} message shapes x ${PV.length} placeholder value shapes`,
  assumptions: ["tags are written {{name}} or {{ name }}; templates that form other mustache constructs are not constrained, nor are the names hasOwnProperty and __proto__, which the mustache library itself cannot look up"],
  scenarios: (tier) => {
    const out: Scenario[] = [long, names, many, large];
    const L = tier === "quick" ? 4 : 5, C = tier === "quick" ? 3 : 4;
    for (let l = 1; l <= L; l++) for (let f = 0; f < TOK.length; f++) out.push(textScen(l, f));
    for (let l = 1; l <= C; l++) for (let f = 0; f < MSGS.length; f++) out.push(chatScen(l, f));
    return out;
  },
};
export default def;
