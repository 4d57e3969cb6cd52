/** Screen candidate bugs without demonstrations: node tools/screen.mjs DEFS.mjs [id...]
 * DEFS exports default [{id, property, edits:[{file, old, new}]}]. Each is applied in a scratch copy and the
 * property's quick check is run on it; for missed ones the repository's tests are run too. */
import fs from "fs"; import path from "path"; import { execFileSync, spawn } from "child_process";
const V = "/verif", S = "/tmp/scrw", want = process.argv.slice(3);
const defs = (await import(path.resolve(process.argv[2]))).default;
const run = (cmd, cwd, env = {}, t = 900000) => new Promise((r) => { const p = spawn("bash", ["-c", cmd], { cwd, env: { ...process.env, ...env }, detached: true }); let out = ""; p.stdout.on("data", (d) => (out += d)); p.stderr.on("data", (d) => (out += d)); const k = setTimeout(() => { try { process.kill(-p.pid, "SIGKILL"); } catch {} }, t); p.on("close", (c) => { clearTimeout(k); r({ c, out }); }); });
const N = Number(process.env.SCR_COPIES ?? 2);
for (let i = 0; i < N; i++) if (!fs.existsSync(`${S}${i}`)) execFileSync("cp", ["-a", "/repo", `${S}${i}`]);
async function one(d, D) {
  await run("git checkout -q -- . && git clean -fdq packages && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", D);
  for (const e of d.edits) { const f = path.join(D, e.file); const s = fs.readFileSync(f, "utf8"); const n = s.split(e.old).length - 1; if (n !== 1 && !e.all) return `EDIT matches ${n} times: ${e.old.slice(0, 60)}`; fs.writeFileSync(f, s.split(e.old).join(e.new)); }
  const c = await run(`node mc/run.mjs ${d.property} quick`, V, { MC_REPO: D, MC_EVIDENCE: "/tmp/scr-evidence", MC_WORKERS: "4" });
  if (c.c === 1) return "CAUGHT " + (c.out.split("\n").find((l) => /^\s*(key|reason|.*assert)/.test(l)) ?? "").slice(0, 100);
  const b = await run(". /opt/vp/env.sh; cd $D; node_modules/.bin/turbo run build --cache=local:rw --output-logs=errors-only --ui=stream", D, { D });
  if (b.c) return `MISSED(${c.c}) BUILD FAILS ` + b.out.slice(-600);
  const t = await run(`. /opt/vp/env.sh; cd $D; node_modules/.bin/vitest run --project=unit --project=integration --reporter=json --outputFile.json=/tmp/scr-${d.id}.json`, D, { D });
  const j = JSON.parse(fs.readFileSync(`/tmp/scr-${d.id}.json`)); fs.unlinkSync(`/tmp/scr-${d.id}.json`);
  return `MISSED(${c.c}) ` + (j.numFailedTests ? "tests fail: " + j.testResults.flatMap((r) => r.assertionResults).filter((a) => a.status === "failed").map((a) => a.fullName).slice(0, 2).join(" | ") : "TESTS PASS") + (c.c ? c.out.slice(-600) : "");
}
const queue = defs.filter((d) => !want.length || want.includes(d.id));
await Promise.all(Array.from({ length: N }, async (_, i) => { for (let d; (d = queue.shift()); ) console.log(d.id, d.property, await one(d, `${S}${i}`).catch((e) => "ERR " + e.stack)); }));
