// Nothing has to be built ahead of time: every check bundles itself from /repo.
// Verify that the tools are there and that a bundle can be made.
import { bundle } from "./bundle.mjs";
import { rmSync, readdirSync } from "node:fs";
const ids = readdirSync(new URL("../checks", import.meta.url)).filter((f) => /^[A-Z]\d+\.ts$/.test(f));
const r = await bundle(ids[0].replace(".ts", ""));
rmSync(r.outdir, { recursive: true, force: true });
console.log("ok", ids.length, "checks");
