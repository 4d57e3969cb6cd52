/** Rewrites the table of planted bugs in DESIGN.md from seeded/<id>/meta.json. */
import fs from "fs";
const rows = fs.readdirSync("seeded").sort().map((id) => { const m = JSON.parse(fs.readFileSync(`seeded/${id}/meta.json`)); return `| ${id} | ${m.needs} | ${m.property} |`; });
const s = fs.readFileSync("DESIGN.md", "utf8"), h = "| seed | needs | caught by |\n|---|---|---|\n", i = s.indexOf(h) + h.length;
const rest = s.slice(i).split("\n"), n = rest.findIndex((l) => !l.startsWith("|"));
fs.writeFileSync("DESIGN.md", s.slice(0, i) + rows.join("\n") + "\n" + rest.slice(n === -1 ? rest.length : n).join("\n"));
