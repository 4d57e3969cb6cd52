// node mc/run.mjs <ID> <quick|thorough> [--replay file]
import { fork, spawnSync } from "node:child_process";
import { readFileSync, writeFileSync, mkdirSync, rmSync, existsSync } from "node:fs";
import path from "node:path";
import os from "node:os";
import { bundle } from "./bundle.mjs";

const VERIF = path.resolve(path.dirname(new URL(import.meta.url).pathname), "..");
const [id, tierArg, flag, flagVal] = process.argv.slice(2);
const tier = tierArg === "thorough" ? "thorough" : "quick";
const t0 = Date.now();
const seed = Number(process.env.VERIF_SEED ?? 1) | 0;
const EVID = process.env.MC_EVIDENCE ?? path.join(VERIF, "evidence");
mkdirSync(path.join(EVID, "replays"), { recursive: true });

let built;
try {
  built = await bundle(id);
} catch (e) {
  console.error("cannot bundle the check from /repo:", e.message ?? e);
  process.exit(2);
}
const cleanup = () => rmSync(built.outdir, { recursive: true, force: true });

const baseEnv = {};
for (const [k, v] of Object.entries(process.env)) if (!/^(LANGFUSE|OTEL)_/.test(k)) baseEnv[k] = v;
const env = { ...baseEnv, MC_TIER: tier, TZ: "UTC" };

if (flag === "--replay") {
  const r = spawnSync(process.execPath, ["--enable-source-maps", built.outfile], { env: { ...env, MC_REPLAY: flagVal }, stdio: "inherit" });
  cleanup();
  process.exit(r.status ?? 2);
}

const known = existsSync(path.join(VERIF, "known_findings.json")) ? JSON.parse(readFileSync(path.join(VERIF, "known_findings.json"), "utf8")) : { findings: [] };
const knownFor = known.findings.filter((f) => f.property === id && f.status !== "fixed");

const NW = Number(process.env.MC_WORKERS ?? 0) || Math.max(1, Math.min(8, os.availableParallelism?.() ?? 8));
const softMs = tier === "quick" ? 240_000 : 3 * 3600_000;
const limitMs = Number(process.env.MC_BUDGET_MS ?? softMs);
const deadline = t0 + limitMs;
const HANG_MS = 180_000;

const st = { execs: 0, transitions: 0, maxDepth: 0, violations: [], samples: [], names: null, bounds: "", assumptions: [], timedOut: false, perScenario: {} };
let queue = [];
let outstanding = 0;
let stopping = false;
let fatal = null;
const workers = [];
const hashes = new Set();
let verified = 0, nondet = 0;

function isKnown(v) {
  return knownFor.find((f) => f.scenario === v.name && (!f.key || f.key === v.key) && (!f.match || v.message.includes(f.match)));
}

await new Promise((resolveAll) => {
  let exited = 0;
  const finishAll = () => {
    stopping = true;
    for (const w of workers) if (!w.dead && !w.busy && !w.finishing) {
      w.finishing = true;
      w.send({ t: "finish" });
    }
  };
  const dispatch = () => {
    if (!stopping && Date.now() > deadline && queue.length) {
      st.timedOut = true;
      queue = [];
    }
    for (const w of workers) {
      if (w.dead || w.busy || w.finishing || !w.ready) continue;
      if (stopping || (queue.length === 0 && outstanding === 0)) {
        if (queue.length === 0 && outstanding === 0) finishAll();
        if (stopping && !w.finishing) { w.finishing = true; w.send({ t: "finish" }); }
        continue;
      }
      if (queue.length === 0) continue;
      const item = queue.shift();
      w.busy = true;
      w.item = item;
      w.lastBeat = Date.now();
      outstanding++;
      if (item.verify) w.send({ t: "verify", si: item.si, choices: item.choices });
      else w.send({ t: "work", si: item.si, stack: item.stack, limit: item.limit, deadline });
    }
  };
  for (let i = 0; i < NW; i++) {
    const w = fork(built.outfile, [], { env, execArgv: ["--enable-source-maps", "--max-old-space-size=3500"], serialization: "advanced", stdio: ["ignore", "ignore", "pipe", "ipc"] });
    w.errText = "";
    w.stderr.on("data", (d) => (w.errText = (w.errText + d).slice(-4000)));
    workers.push(w);
    w.on("message", (m) => {
      w.lastBeat = Date.now();
      if (m.t === "ready") {
        w.ready = true;
        if (!st.names) {
          st.names = m.names;
          st.bounds = m.bounds;
          st.assumptions = m.assumptions;
          const dup = m.names.filter((n, k) => m.names.indexOf(n) !== k);
          if (dup.length) { fatal = "duplicate scenario names " + dup[0]; }
          queue = m.names.map((_, si) => ({ si, stack: [[]], limit: 200 }));
        }
        dispatch();
      } else if (m.t === "done") {
        outstanding--;
        w.busy = false;
        const r = m.r;
        st.execs += r.execs;
        nondet += r.mismatches;
        st.transitions += r.transitions;
        st.maxDepth = Math.max(st.maxDepth, r.maxDepth);
        const nm = st.names[m.si];
        st.perScenario[nm] = (st.perScenario[nm] ?? 0) + r.execs;
        if (r.sample && (st.samples.length < 3 || (m.si % 7 === 3 && st.samples.length < 5)) && !st.samples.find((s) => s.scenario === r.sample.scenario)) st.samples.push(r.sample);
        for (const v of r.violations) {
          v.known = isKnown(v);
          st.violations.push(v);
        }
        if (r.violations.some((v) => !v.known) ) { stopping = true; queue = []; }
        else if (r.rest.length) {
          if (Date.now() > deadline) st.timedOut = true;
          else {
            // split the frontier so that idle workers can help
            const parts = Math.min(r.rest.length, 4);
            const chunks = Array.from({ length: parts }, () => []);
            r.rest.forEach((p, k) => chunks[k % parts].push(p));
            for (const c of chunks) queue.push({ si: m.si, stack: c, limit: 1000 });
          }
        }
        if (r.sample && !w.item.verified && w.item.limit === 200 && !stopping) queue.push({ si: m.si, verify: true, choices: r.sample.choices });
        dispatch();
      } else if (m.t === "verified") {
        outstanding--;
        w.busy = false;
        verified++;
        if (!m.ok) { nondet++; if (process.env.MC_DEBUG) console.error("nondeterministic", st.names[m.si], m.message); }
        dispatch();
      } else if (m.t === "error") {
        fatal = fatal ?? `${m.name}: ${m.message}`;
        outstanding--;
        w.busy = false;
        stopping = true;
        queue = [];
        dispatch();
      } else if (m.t === "hashes") {
        for (const h of m.n) hashes.add(h);
      }
    });
    w.on("exit", (code) => {
      w.dead = true;
      exited++;
      if (w.busy) {
        outstanding--;
        w.busy = false;
        if (w.killedForHang) {
          st.violations.push({ name: st.names?.[w.item.si] ?? "?", key: "hang", message: "an execution did not terminate", choices: w.item.stack?.at(-1) ?? [], labels: [], trace: [], known: undefined });
          stopping = true;
          queue = [];
        } else if (!stopping && /heap out of memory/.test(w.errText) && !w.item.retried && workers.some((x) => !x.dead)) {
          queue.unshift({ ...w.item, retried: true }); // once more, in another worker
        } else if (!stopping && /heap out of memory/.test(w.errText) && w.item.retried) {
          st.violations.push({ name: st.names?.[w.item.si] ?? "?", key: "memory", message: "an execution used all memory", choices: w.item.stack?.at(-1) ?? [], labels: [], trace: [], known: undefined });
          stopping = true;
          queue = [];
        } else if (!stopping) {
          fatal = fatal ?? `worker died (${code}) in ${st.names?.[w.item?.si]}: ${w.errText}`;
          stopping = true;
          queue = [];
        }
      } else if (!w.finishing && !w.ready) fatal = fatal ?? `worker failed to start: ${w.errText}`;
      if (exited === workers.length) finished();
      else dispatch();
    });
    w.on("disconnect", () => { w.closed = true; finished(); }); // after its last message was read
  }
  const finished = () => { if (exited === workers.length && workers.every((w) => w.closed)) resolveAll(); };
  const iv = setInterval(() => {
    for (const w of workers)
      if (w.busy && !w.dead && Date.now() - w.lastBeat > HANG_MS) {
        w.killedForHang = true;
        w.kill("SIGKILL");
      }
  }, 2000);
  iv.unref();
});

cleanup();
const bad = st.violations.filter((v) => !v.known);
const knownHit = new Map();
for (const v of st.violations) if (v.known) knownHit.set(v.known.what, v);

if (fatal && bad.length === 0) {
  console.error("check error:", fatal);
  process.exit(2);
}
if (nondet && bad.length === 0) {
  console.error(`check error: ${nondet} executions were not reproducible`);
  process.exit(2);
}

const wall = (Date.now() - t0) / 1000;
const ev = {
  property: id, tier, seed, level: "model_checking",
  coverage: {
    states: hashes.size,
    transitions: st.transitions,
    traces_validated_against_impl: st.execs,
    exhaustive: !st.timedOut && bad.length === 0,
    max_depth: st.maxDepth,
    scenarios: st.names?.length ?? 0,
    reproducibility_replays: verified,
    bounds: st.bounds,
    rule: "states: distinct fingerprints of (observable history) at choice points and ends; transitions: explorer choices taken (replayed prefixes not counted again); every trace is an execution of the real /repo sources compared with the oracle",
    samples: st.samples.map((s) => ({ scenario: s.scenario, choices: s.choices.join(","), trace: s.trace })),
  },
  assumptions: st.assumptions,
  wall_s: wall,
  violations: bad.length,
};
writeFileSync(path.join(EVID, `${id}.json`), JSON.stringify(ev, null, 1) + "\n");
for (const what of knownHit.keys()) console.log(`KNOWN-FINDING: property=${id} ${what}`);
console.log(`${id} ${tier}: ${st.names?.length} scenarios, ${st.execs} executions, ${hashes.size} states, ${st.transitions} transitions, depth<=${st.maxDepth}${st.timedOut ? ", TIME BUDGET REACHED" : ", exhaustive within bounds"}, ${wall.toFixed(1)} s`);
if (process.env.MC_DEBUG) console.log(Object.entries(st.perScenario).sort((a, b) => b[1] - a[1]).slice(0, 12));
if (bad.length) {
  // shortest counterexample first
  bad.sort((a, b) => a.choices.length - b.choices.length || a.trace.length - b.trace.length);
  const v = bad[0];
  const file = path.join(EVID, "replays", `${id}.json`);
  writeFileSync(file, JSON.stringify({ property: id, scenario: v.name, key: v.key, message: v.message, choices: v.choices, labels: v.labels, trace: v.trace, stack: v.stack, replay_cmd: `node mc/run.mjs ${id} ${tier} --replay ${file}` }, null, 1) + "\n");
  console.log(`  scenario: ${v.name}\n  ${v.key}: ${String(v.message).slice(0, 4000)}`);
  console.log(`VIOLATION property=${id} replay=${file}`);
  process.exitCode = 1;
  setTimeout(() => process.exit(1), 5000).unref();
} else process.exit(0);
