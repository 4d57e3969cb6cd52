import { exploreChunk, execute, type CheckDef } from "./engine";

export async function main(def: CheckDef) {
  const tier = (process.env.MC_TIER ?? "quick") as "quick" | "thorough";
  const scenarios = def.scenarios(tier);
  if (process.env.MC_REPLAY) {
    const fs = await import("node:fs");
    const rp = JSON.parse(fs.readFileSync(process.env.MC_REPLAY, "utf8"));
    const sc = scenarios.find((s) => s.name === rp.scenario) ?? def.scenarios("thorough").find((s) => s.name === rp.scenario);
    if (!sc) throw new Error("no such scenario " + rp.scenario);
    const r = await execute(sc, rp.choices);
    console.log(r.trace.join("\n"));
    console.log(r.violation ? `VIOLATED ${r.violation.key}: ${r.violation.message}\n${r.violation.stack ?? ""}` : "no violation");
    process.exit(r.violation ? 1 : 0);
  }
  const hashes = new Set<number>();
  process.on("message", async (m: any) => {
    if (m.t === "work") {
      try {
        const r = await exploreChunk(m.si, scenarios[m.si], m.stack, m.limit, hashes, () => process.send!({ t: "beat" }), m.deadline);
        process.send!({ t: "done", si: m.si, r });
      } catch (e: any) {
        process.send!({ t: "error", si: m.si, name: scenarios[m.si]?.name, message: e?.stack ?? String(e) });
      }
    } else if (m.t === "verify") {
      // determinism: the same choices must give the same trace
      try {
        const a = await execute(scenarios[m.si], m.choices);
        const b = await execute(scenarios[m.si], m.choices);
        process.send!({ t: "verified", ok: JSON.stringify(a.trace) === JSON.stringify(b.trace) && JSON.stringify(a.choices) === JSON.stringify(b.choices), key: a.violation?.key ?? null, si: m.si });
      } catch (e: any) {
        process.send!({ t: "verified", ok: false, key: null, si: m.si, message: String(e) });
      }
    } else if (m.t === "finish") {
      process.send!({ t: "hashes", n: Float64Array.from(hashes) }, () => process.exit(0));
    }
  });
  process.send!({ t: "ready", names: scenarios.map((s) => s.name), bounds: def.bounds(tier), assumptions: def.assumptions ?? [] });
}
