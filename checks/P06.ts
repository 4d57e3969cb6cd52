import type { CheckDef, Scenario, World } from "../mc/engine";
import { TextPromptClient, ChatPromptClient } from "@langfuse/client";
import { renderTemplate } from "@langchain/core/prompts";
import { isDeepStrictEqual } from "node:util";

const base = { name: "n", version: 1, config: {}, labels: [], tags: [] };

/** grammar: seq of text | {{v}} | JSON object (nesting bounded) */
function value(w: World, depth: number, style: Style): string {
  const opts = ["1", '"s t"', "{{x}}", '"p {{y}} q"', ...(depth > 0 ? ["OBJ", "ARR"] : []), "EMPTY"];
  const o = w.pick(opts, "value");
  if (o === "OBJ") return object(w, depth - 1, style);
  if (o === "ARR") return "[" + object(w, depth - 1, style) + "," + style.sp + "{{x}}]";
  if (o === "EMPTY") return style.emptySp ? "{ }" : "{}";
  return o;
}
type Style = { sp: string; nl: string; q: string; emptySp: boolean };
const STYLES: Style[] = [
  { sp: " ", nl: "", q: '"', emptySp: false },
  { sp: "", nl: "", q: '"', emptySp: false },
  { sp: " ", nl: "\n  ", q: "'", emptySp: true },
];
function object(w: World, depth: number, st: Style): string {
  const n = w.choose(2, "pairs") + 1;
  const ps: string[] = [];
  for (let i = 0; i < n; i++) ps.push(`${st.q}k${i}${st.q}:${st.sp}${i === 0 ? value(w, depth, st) : w.pick(["2", "{{y}}"], "v2")}`);
  return "{" + st.nl + ps.join("," + st.sp + st.nl) + st.nl + "}";
}
function seq(w: World, len: number, depth: number, st: Style): string {
  let out = "";
  for (let i = 0; i < len; i++) {
    const c = w.choose(4, "item");
    const item = c === 0 ? "text $& <b> \u00e9 " : c === 1 ? "{{x}}" : c === 2 ? "{{y_2}}" : object(w, depth, st);
    out += item;
  }
  return out;
}
const VARS: any[] = [{ x: "X", y: "why", y_2: "two" }, { x: "{a}", y: "}}{{", y_2: "" }, { x: "$1", y: "\n\"", y_2: "{{x}}" }];

function check(w: World, text: string) {
  for (const vars of VARS) {
    const p = new TextPromptClient({ ...base, type: "text", prompt: text } as any);
    const compiled = p.compile(vars);
    const lc = p.getLangchainPrompt();
    let got: string;
    try {
      got = renderTemplate(lc, "f-string", vars) as string;
    } catch (e: any) {
      w.fail("invalid-template", `prompt ${JSON.stringify(text)} becomes ${JSON.stringify(lc)}, which LangChain rejects: ${e.message}`);
    }
    w.assert(got === compiled, "text", () => `prompt ${JSON.stringify(text)} becomes ${JSON.stringify(lc)}, which renders to ${JSON.stringify(got)}; compiling gives ${JSON.stringify(compiled)}`);
    w.assert(p.prompt === text && p.getLangchainPrompt() === lc, "impure", "conversion changed the prompt");
  }
}

function textScen(len: number, depth: number, style: number): Scenario {
  return { name: `text len ${len} depth ${depth} style ${style}`, run: (w) => check(w, seq(w, len, depth, STYLES[style])) };
}

/** already doubled JSON (the form LangChain users write) keeps rendering to the same document */
function doubled(style: number, depth: number): Scenario {
  const dbl = (w: World, d: number): string => {
    const v = w.pick(["1", "{{x}}", '"{{y}}"', "{{}}", ...(d > 0 ? ["O"] : [])], "dv");
    return `{{${STYLES[style].nl || " "}"k":${STYLES[style].sp}${v === "O" ? dbl(w, d - 1) : v}${STYLES[style].nl || " "}}}`;
  };
  return {
    name: `doubled style ${style}`,
    run: (w) => {
      const doc = dbl(w, depth);
      const text = w.pick(["", "{{x}} "], "pre") + doc + w.pick(["", " {{y}}", "{{x}}"], "post");
      const vars = VARS[0];
      const p = new TextPromptClient({ ...base, type: "text", prompt: text } as any);
      const lc = p.getLangchainPrompt();
      // reference: {{name}} is a variable, any other {{ / }} is an escaped brace
      const want = text.replace(/\{\{(\w+)\}\}/g, (_, n) => "\u0001" + n + "\u0002").replace(/\{\{/g, "{").replace(/\}\}/g, "}").replace(/\u0001(\w+)\u0002/g, (_, n) => vars[n]);
      let got = "";
      try {
        got = renderTemplate(lc, "f-string", vars) as string;
      } catch (e: any) {
        w.fail("invalid-template", `prompt ${JSON.stringify(text)} becomes ${JSON.stringify(lc)}, which LangChain rejects: ${e.message}`);
      }
      w.assert(got === want, "doubled", () => `prompt ${JSON.stringify(text)} becomes ${JSON.stringify(lc)} which renders to ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`);
    },
  };
}

const MSGS: any[] = [
  { role: "user", content: 'hi {{x}} {"a": {"b": {{y}}}}' },
  { type: "chatmessage", role: "system", content: "{{y}}" },
  { role: "human", content: "{{x}}" },
  { type: "placeholder", name: "h" },
  { type: "placeholder", name: "g_2" },
];
const PV: any[] = [undefined, [], [{ role: "user", content: 'in {{x}} {"q": 1}' }], [{ role: "a", content: "1 {{y}}" }, { role: "human", content: "" }, { role: "tool", content: "r" }, { role: "Assistant ", content: "{{x}}" }], "str", { a: 1 }, [null], 7, [{ role: "user", content: [{ type: "text", text: "{{x}}" }] }, { role: "user", content: "t {{x}}" }], [{ role: "user", content: null }], 0, false, "", [{ role: "user", content: '{"k": {"l": {"m": "{{y}}"}}}' }]];
function chatScen(len: number): Scenario {
  return {
    name: `chat len ${len}`,
    run: (w) => {
      const msgs: any[] = [];
      for (let i = 0; i < len; i++) msgs.push(structuredClone(w.pick(MSGS, "msg")));
      const ph: any = {};
      for (const n of ["h", "g_2"]) if (msgs.some((m) => m.name === n)) {
        const v = w.pick(PV, n);
        if (v !== undefined) ph[n] = structuredClone(v);
      }
      const p = new ChatPromptClient({ ...base, type: "chat", prompt: structuredClone(msgs) } as any);
      const before = structuredClone(p.prompt);
      const vars = VARS[0];
      const got = p.getLangchainPrompt(Object.keys(ph).length || w.bool("ph") ? { placeholders: ph } : undefined);
      const compiled = p.compile(vars, ph);
      w.assert(got.length === compiled.length, "chat-length", () => `${JSON.stringify(msgs)} / ${JSON.stringify(ph)}: ${got.length} LangChain messages, ${compiled.length} compiled ones`);
      got.forEach((m: any, i: number) => {
        const c: any = compiled[i];
        if (c && typeof c === "object" && c.type === "placeholder") w.assert(isDeepStrictEqual(m, ["placeholder", `{${c.name}}`]), "placeholder", () => `unresolved placeholder ${c.name} became ${JSON.stringify(m)}`);
        else if (typeof c === "string") w.assert(m === c, "chat", () => `got ${JSON.stringify(m)}, compiled ${JSON.stringify(c)}`);
        else {
          w.assert(m.role === c.role, "chat-role", `role ${m.role} instead of ${c.role}`);
          if (typeof c.content !== "string") {
            w.assert(isDeepStrictEqual(m.content, c.content), "chat", () => `message content ${JSON.stringify(c.content)} became ${JSON.stringify(m.content)}`);
            return;
          }
          let r = "";
          try {
            r = renderTemplate(m.content, "f-string", vars) as string;
          } catch (e: any) {
            w.fail("invalid-template", `message ${JSON.stringify(m)}: ${e.message}`);
          }
          w.assert(r === c.content, "chat", () => `message ${JSON.stringify(m)} renders to ${JSON.stringify(r)}, compiled ${JSON.stringify(c.content)}`);
        }
      });
      w.assert(isDeepStrictEqual(p.prompt, before), "impure", "conversion changed the prompt");
    },
  };
}

/** sizes far beyond the enumerated ones */
const many: Scenario = {
  name: "many variables, objects and nesting levels",
  run: (w) => {
    const n = w.pick([7, 40, 130], "n");
    const kind = w.choose(3, "kind");
    const nest = (d: number): string => (d === 0 ? "{{x}}" : `{"k${d}": ${nest(d - 1)}}`);
    check(w, kind === 0 ? Array.from({ length: n }, (_, i) => (i % 3 ? "{{x}}" : `{"a": {{y}}, "b": {"c": "{{y_2}}"}}`)).join(" t ") : kind === 1 ? nest(n) : `{${Array.from({ length: n }, (_, i) => `"k${i}": {{x}}`).join(", ")}}`);
  },
};
const def: CheckDef = {
  property: "P06",
  bounds: (t) => `${t}: all prompts of up to ${t === "quick" ? 2 : 3} items (text, variables, JSON objects nested up to depth ${t === "quick" ? 2 : 2}) in 3 JSON styles x 3 variable assignments, rendered by the installed @langchain/core f-string renderer; chat prompts of up to 3 messages`,
  assumptions: ["variable tags are written {{name}} without inner whitespace; no single-brace text outside JSON"],
  scenarios: (tier) => {
    const out: Scenario[] = [many];
    for (let s = 0; s < STYLES.length; s++) {
      out.push(textScen(1, tier === "quick" ? 2 : 3, s), textScen(2, 1, s), doubled(s, 3));
      if (tier === "thorough") out.push(textScen(2, 2, s), textScen(3, 1, s));
    }
    for (let l = 1; l <= 3; l++) out.push(chatScen(l));
    return out;
  },
};
export default def;
