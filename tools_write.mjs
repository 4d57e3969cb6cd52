// Regenerates properties.jsonl and MANIFEST.json from properties.src.mjs
import { P, claims, notApplicable } from "./properties.src.mjs";
import { writeFileSync } from "node:fs";
writeFileSync("/verif/properties.jsonl", P.map((p) => JSON.stringify(p)).join("\n") + "\n");
const checks = Object.entries(claims ?? {}).map(([id, c]) => ({
  property: id,
  quick_cmd: `node mc/run.mjs ${id} quick`,
  thorough_cmd: `node mc/run.mjs ${id} thorough`,
  technique: c.technique,
  level: "model_checking",
  level_note: c.note,
}));
const na = P.filter((p) => !(claims ?? {})[p.id]).map((p) => ({ property: p.id, reason: (notApplicable ?? {})[p.id] ?? "check not built yet" }));
writeFileSync("/verif/MANIFEST.json", JSON.stringify({
  version: 1,
  setup_cmd: "node mc/setup.mjs",
  checks, not_applicable: na,
}, null, 1) + "\n");
console.log(P.length, "properties", checks.length, "claimed");
