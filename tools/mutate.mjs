/**
 * Mutation campaign: node tools/mutate.mjs OUT.jsonl [file-substring ...]
 * Enumerates small syntactic changes of the sources, runs the checks of the changed file against a scratch copy and
 * records which check reports each. Survivors are then read by hand (equivalent, or a gap to close).
 */
import fs from "fs"; import path from "path"; import { execFileSync, spawn } from "child_process"; import { createRequire } from "module";
const ts = createRequire("/opt/veriftools/node/node_modules/typescript/package.json")("typescript");
const MAP = [
  [/client\/src\/score\//, "S02 S03 S01"],
  [/promptManager/, "P04 P01 P07 P03 P02"], [/promptCache/, "P03 P01 P02"], [/promptClients/, "P05 P06 P01 P07"],
  [/dataset\/index/, "D01 D02 D03 D04 E06"], [/jsonPath/, "D03"], [/client\/src\/media/, "D03"],
  [/ExperimentManager/, "E03 E04 E05 E02 E06 E01"], [/RunnerContext|adapters/, "E06"], [/LangfuseClient/, "K01 K02 S02"],
  [/span-processor/, "O02 O05 O06 O04 O01 O03"], [/MediaService/, "O03 O01"], [/span-filter/, "O05"],
  [/core\/src\/propagation/, "T03 T04 O04"], [/tracing\/src\/index/, "T01 T02 T05 T03 E03"], [/spanWrapper/, "T02 T05 T01"], [/tracing\/src\/attributes/, "T02"], [/tracerProvider/, "T05"],
  [/packages\/openai/, "A01 A03 A02"], [/langchain/, "L02 L01"], [/vercel/, "V01"], [/browser/, "B01 K02"],
  [/core\/src\/media\.ts/, "C02 D02 O03 D03"], [/mediaUpload/, "C02 D02 O03"], [/core\/src\/utils/, "C02 T05 E05 K01 S01"], [/logger/, "G01"],
  [/core\/src\/api/, "C03 C01 C02 P04"], [/core\/src\/constants/, "T02 K01 O06"],
];
const [out, ...subs] = process.argv.slice(2);
const files = execFileSync("git", ["-C", "/repo", "ls-files", "packages/*/src/*.ts"], { encoding: "utf8" }).split("\n").filter((f) => f && !/api\/api\/|\.test\.|types\.ts$|index\.d\.ts/.test(f)).filter((f) => !subs.length || subs.some((s) => f.includes(s)));
function mutants(file) {
  const src = fs.readFileSync(path.join("/repo", file), "utf8");
  const sf = ts.createSourceFile(file, src, ts.ScriptTarget.Latest, true);
  const ms = [];
  const add = (n, text, op) => ms.push({ file, start: n.getStart(sf), end: n.getEnd(), text, op, line: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, old: n.getText(sf).slice(0, 90).replace(/\s+/g, " ") });
  const K = ts.SyntaxKind;
  const FL = { [K.LessThanToken]: "<=", [K.LessThanEqualsToken]: "<", [K.GreaterThanToken]: ">=", [K.GreaterThanEqualsToken]: ">", [K.EqualsEqualsEqualsToken]: "!==", [K.ExclamationEqualsEqualsToken]: "===", [K.EqualsEqualsToken]: "!=", [K.ExclamationEqualsToken]: "==", [K.PlusToken]: "-", [K.MinusToken]: "+", [K.AmpersandAmpersandToken]: "||", [K.BarBarToken]: "&&" };
  const isLog = (n) => ts.isCallExpression(n) && /\b(logger|getGlobalLogger\(\)|console)\s*\.\s*(debug|info|warn|error)$/.test(n.expression.getText(sf));
  const visit = (n) => {
    if (ts.isImportDeclaration(n) || ts.isExportDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isInterfaceDeclaration(n) || ts.isTypeNode(n)) return;
    if (isLog(n)) return;
    const p = n.parent;
    if (ts.isBinaryExpression(n)) {
      const o = n.operatorToken;
      if (FL[o.kind]) add(o, FL[o.kind], "op");
      if (o.kind === K.QuestionQuestionToken) { add(n, n.left.getText(sf), "?? left"); add(n, `(${n.right.getText(sf)})`, "?? right"); add(o, "||", "?? to ||"); }
      if (o.kind === K.BarBarToken || o.kind === K.AmpersandAmpersandToken) { add(n, `(${n.left.getText(sf)})`, "left"); add(n, `(${n.right.getText(sf)})`, "right"); }
    } else if (ts.isConditionalExpression(n)) { add(n, `(${n.whenTrue.getText(sf)})`, "? true"); add(n, `(${n.whenFalse.getText(sf)})`, "? false"); }
    else if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) add(n, `(${n.operand.getText(sf)})`, "drop !");
    else if (ts.isExpressionStatement(n) && !isLog(n.expression) && !(ts.isAwaitExpression(n.expression) && isLog(n.expression.expression)) && !/^super\(/.test(n.getText(sf))) add(n, ";", "drop statement");
    else if (ts.isIfStatement(n)) { add(n.expression, "false", "if false"); add(n.expression, "true", "if true"); }
    else if (ts.isAwaitExpression(n) && ts.isExpressionStatement(p)) add(n, "void " + n.expression.getText(sf), "drop await");
    else if (ts.isReturnStatement(n) && n.expression) add(n, "return undefined as any;", "return undefined");
    else if (ts.isThrowStatement(n)) add(n, ";", "drop throw");
    else if (ts.isNumericLiteral(n) && !ts.isEnumMember(p)) add(n, `(${n.text} + 1)`, "number + 1");
    else if (n.kind === K.TrueKeyword && !ts.isLiteralTypeNode(p)) add(n, "false", "true to false");
    else if (n.kind === K.FalseKeyword && !ts.isLiteralTypeNode(p)) add(n, "true", "false to true");
    else if (ts.isStringLiteral(n) && !ts.isLiteralTypeNode(p) && !(p.name === n)) add(n, JSON.stringify(n.text + "_"), "string");
    else if ((ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n) || ts.isSpreadAssignment(n)) && ts.isObjectLiteralExpression(p)) {
      let end = n.getEnd(); const m = /^\s*,/.exec(src.slice(end)); if (m) end += m[0].length;
      ms.push({ file, start: n.getStart(sf), end, text: "", op: "drop property", line: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, old: n.getText(sf).slice(0, 90).replace(/\s+/g, " ") });
    } else if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^(filter|trim|toLowerCase|toUpperCase|sort|slice|reverse|flat|concat|catch|finally|bind|map)$/.test(n.expression.name.text)) add(n, n.expression.expression.getText(sf), "drop ." + n.expression.name.text);
    else if (ts.isBreakStatement(n)) add(n, "continue;", "break to continue");
    else if (ts.isContinueStatement(n)) add(n, ";", "drop continue");
    ts.forEachChild(n, visit);
  };
  visit(sf);
  return ms;
}
const run = (cmd, cwd, env = {}, t = 600000) => new Promise((r) => {
  const p = spawn("bash", ["-c", cmd], { cwd, env: { ...process.env, ...env }, detached: true });
  let o = ""; p.stdout.on("data", (d) => (o += d)); p.stderr.on("data", (d) => (o += d));
  const k = setTimeout(() => { try { process.kill(-p.pid, "SIGKILL"); } catch {} }, t);
  p.on("close", (c) => { clearTimeout(k); r({ c, o }); });
});
const done = new Set(fs.existsSync(out) ? fs.readFileSync(out, "utf8").split("\n").filter(Boolean).map((l) => { const m = JSON.parse(l); return `${m.file}:${m.start}:${m.end}:${m.op}`; }) : []);
let queue = files.flatMap(mutants).filter((m) => !done.has(`${m.file}:${m.start}:${m.end}:${m.op}`));
const only = process.env.MUT_LINES; if (only) { const [a, b] = only.split("-").map(Number); queue = queue.filter((m) => m.line >= a && m.line <= b); }
const every = Number(process.env.MUT_EVERY ?? 1); queue = queue.filter((m) => (m.start * 31 + m.end * 7 + m.op.length) % every === 0);
if (process.env.MUT_SKIP) queue = queue.filter((m) => !new RegExp(process.env.MUT_SKIP).test(m.op));
console.log(queue.length, "mutants");
if (process.env.MUT_LIST) process.exit(0);
const SLOTS = Number(process.env.MUT_SLOTS ?? 3);
const V = process.env.MUT_VERIF ?? "/verif";
let killed = 0, survived = 0, i = 0;
await Promise.all(Array.from({ length: SLOTS }, async (_, slot) => {
  const D = `/tmp/mutw${slot}`;
  fs.mkdirSync(D, { recursive: true });
  execFileSync("rsync", ["-a", "--delete", "--exclude", ".git", "--exclude", "dist", "/repo/", D + "/"]);
  for (;;) {
    const m = queue[i++]; if (!m) return;
    const f = path.join(D, m.file), orig = fs.readFileSync(path.join("/repo", m.file), "utf8");
    fs.writeFileSync(f, orig.slice(0, m.start) + m.text + orig.slice(m.end));
    const ids = (MAP.find(([r]) => r.test(m.file))?.[1] ?? "").split(" ").filter(Boolean);
    let by = null; const errs = [];
    for (const id of ids) {
      const r = await run(`node mc/run.mjs ${id} quick`, V, { MC_REPO: D, MC_EVIDENCE: `/tmp/mutev${slot}`, MC_WORKERS: "2", MC_BUDGET_MS: process.env.MUT_BUDGET ?? "40000" });
      if (r.c === 1) { by = id; break; }
      if (r.c !== 0) { errs.push(id + ": " + r.o.slice(0, 200)); if (/cannot bundle/.test(r.o)) { by = "build"; break; } }
    }
    fs.writeFileSync(f, orig);
    if (by) killed++; else survived++;
    fs.appendFileSync(out, JSON.stringify({ ...m, by, errs }) + "\n");
  }
}));
console.log({ killed, survived });
