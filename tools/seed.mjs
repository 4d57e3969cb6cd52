/**
 * Plant bugs: node tools/seed.mjs DEFS.mjs [id ...]
 * DEFS exports default [{id, property, edits:[{file, old, new}], needs, breaks, demo}].
 * Each is applied in a scratch copy of /repo, built, tested (the repository's tests must pass),
 * demonstrated (demo must pass without and fail with the change), stored under seeded/<id>,
 * and the property's quick check is run against the scratch copy.
 */
import fs from "fs"; import path from "path"; import { execFileSync, spawn } from "child_process";
const V = "/verif", S = "/tmp/seedw";
const defs = (await import(path.resolve(process.argv[2]))).default;
const LIB = fs.readFileSync(path.join(V, "tools/seed-lib.mjs"), "utf8");
const want = process.argv.slice(3);
const run = (cmd, cwd, env = {}, t = 300000) => new Promise((r) => {
  const p = spawn("bash", ["-c", cmd], { cwd, env: { ...process.env, ...env }, detached: true });
  let out = ""; p.stdout.on("data", (d) => (out += d)); p.stderr.on("data", (d) => (out += d));
  const k = setTimeout(() => { try { process.kill(-p.pid, "SIGKILL"); } catch {} }, t);
  p.on("close", (c) => { clearTimeout(k); r({ c, out }); });
});
const N = Number(process.env.SEED_COPIES ?? 3);
const ENV = ". /opt/vp/env.sh; cd $D; ";
for (let i = 0; i < N; i++) if (!fs.existsSync(`${S}${i}`)) execFileSync("cp", ["-a", "/repo", `${S}${i}`]);
if (!fs.existsSync(`${S}clean`)) { execFileSync("cp", ["-a", "/repo", `${S}clean`]); }
const results = {};
let checkLock = Promise.resolve();
async function one(d, D) {
  await run("git checkout -q -- . && git clean -fdq packages && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", D);
  for (const e of d.edits) {
    const f = path.join(D, e.file); let s = fs.readFileSync(f, "utf8");
    const n = s.split(e.old).length - 1;
    if (n !== 1 && !e.all) return `EDIT matches ${n} times in ${e.file}: ${e.old.slice(0, 60)}`;
    s = s.split(e.old).join(e.new); fs.writeFileSync(f, s);
  }
  const out = path.join(V, "seeded", d.id); fs.mkdirSync(out, { recursive: true });
  fs.writeFileSync(path.join(out, "patch.diff"), execFileSync("git", ["diff"], { cwd: D }));
  fs.writeFileSync(path.join(out, "lib.mjs"), LIB);
  fs.writeFileSync(path.join(out, "demo.mjs"), `import * as L from "./lib.mjs";\nconst { load, req, assert, eq, json, mockFetch, otel, sleep, done } = L;\n${d.demo.trim()}\ndone();\n`);
  fs.writeFileSync(path.join(out, "demo.sh"), `#!/bin/bash\nexec timeout 120 node "$(dirname "$0")/demo.mjs"\n`);
  fs.chmodSync(path.join(out, "demo.sh"), 0o755);
  fs.writeFileSync(path.join(out, "meta.json"), JSON.stringify({ property: d.property, needs: d.needs, what_it_breaks: d.breaks }, null, 2) + "\n");
  const b = await run(ENV + "node_modules/.bin/turbo run build --cache=local:rw --output-logs=errors-only --ui=stream", D, { D });
  if (b.c) return "BUILD FAILED " + b.out.slice(-1500);
  const good = await run(`bash ${out}/demo.sh`, `${S}clean`);
  if (good.c !== 0) return "DEMO FAILS ON CLEAN: " + good.out.slice(-1500);
  const bad = await run(`bash ${out}/demo.sh`, D);
  if (bad.c === 0) return "DEMO PASSES WITH BUG";
  const t = await run(ENV + `node_modules/.bin/vitest run --project=unit --project=integration --reporter=json --outputFile.json=/tmp/seed-${d.id}.json; node_modules/.bin/vitest run --project=e2e tests/e2e/prompts.e2e.test.ts -t "prompt compilation" --reporter=json --outputFile.json=/tmp/seed-${d.id}b.json`, D, { D });
  for (const x of ["", "b"]) {
    const f = `/tmp/seed-${d.id}${x}.json`; const j = JSON.parse(fs.readFileSync(f)); fs.unlinkSync(f);
    if (j.numFailedTests) return "TESTS FAIL: " + j.testResults.flatMap((r) => r.assertionResults).filter((a) => a.status === "failed").map((a) => a.fullName).slice(0, 3).join(" | ");
  }
  let rel; const prev = checkLock; checkLock = new Promise((r) => (rel = r)); await prev;
  const t0 = Date.now();
  const c = await run(`node mc/run.mjs ${d.property} quick`, V, { MC_REPO: D, MC_EVIDENCE: "/tmp/seed-evidence" }, 900000);
  rel();
  const vl = c.out.split("\n").find((l) => l.startsWith("VIOLATION")) ?? "";
  return `demo: ${bad.out.trim().split("\n").find((l) => l.startsWith("FAIL"))?.slice(0, 110) ?? bad.out.trim().slice(-110)} | ${c.c === 1 ? "CAUGHT" : "MISSED(" + c.c + ")"} ${((Date.now() - t0) / 1000).toFixed(0)}s ${vl.slice(0, 80)}`;
}
const queue = defs.filter((d) => !want.length || want.includes(d.id));
await run(ENV + "git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && node_modules/.bin/turbo run build --cache=local:rw --output-logs=errors-only --ui=stream", `${S}clean`, { D: `${S}clean` });
await Promise.all(Array.from({ length: N }, async (_, i) => {
  for (let d; (d = queue.shift()); ) { results[d.id] = await one(d, `${S}${i}`).catch((e) => "ERR " + e.stack);
    if (!/CAUGHT|MISSED/.test(results[d.id])) fs.rmSync(path.join(V, "seeded", d.id), { recursive: true, force: true }); console.log(d.id, d.property, results[d.id]); }
}));
