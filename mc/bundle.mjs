import { createRequire } from "node:module";
import { existsSync, mkdirSync, writeFileSync, readFileSync } from "node:fs";
import path from "node:path";
const VERIF = path.resolve(path.dirname(new URL(import.meta.url).pathname), "..");
const REPO = process.env.MC_REPO ?? "/repo";
const esbuild = createRequire("/opt/veriftools/node/node_modules/esbuild/package.json")("esbuild");
const pkgs = ["core", "client", "otel", "tracing", "openai", "langchain", "browser", "vercel-ai-sdk"];
// where bare imports of harness files are looked up
const lookup = ["otel", "langchain", "openai", "vercel-ai-sdk", "client", "tracing"].map((p) => `${REPO}/packages/${p}`).concat([REPO, `${REPO}/node_modules/.pnpm/node_modules/x`.replace("/node_modules/x", "")]);

export async function bundle(id) {
  const outdir = path.join(VERIF, ".build", `${id}-${process.pid}`);
  mkdirSync(outdir, { recursive: true });
  const entry = path.join(outdir, "entry.ts");
  writeFileSync(entry, `import { main } from "${VERIF}/mc/worker-main";\nimport def from "${VERIF}/checks/${id}";\nmain(def).catch((e) => { console.error(e); process.exit(3); });\n`);
  const outfile = path.join(outdir, "check.mjs");
  await esbuild.build({
    entryPoints: [entry],
    bundle: true,
    platform: "node",
    format: "esm",
    target: "node22",
    outfile,
    sourcemap: "inline",
    sourcesContent: false,
    logLevel: "error",
    banner: { js: `import { createRequire as __cr } from "node:module"; const require = __cr("${REPO}/package.json"); const __filename = "${outfile}"; const __dirname = "${outdir}";` },
    define: { "process.env.NODE_ENV": '"test"' },
    plugins: [
      {
        name: "repo",
        setup(b) {
          b.onResolve({ filter: /^@langfuse\// }, (a) => {
            const [, name, ...rest] = a.path.split("/");
            if (!pkgs.includes(name)) return;
            if (rest.length) return { path: `${REPO}/packages/${name}/src/${rest.join("/")}` };
            return { path: `${REPO}/packages/${name}/src/index.ts` };
          });
          // @opentelemetry/api must be one instance
          b.onResolve({ filter: /^@opentelemetry\/api$/ }, async (a) => {
            if (a.pluginData === "x") return;
            return b.resolve(a.path, { resolveDir: `${REPO}/packages/otel`, kind: a.kind, pluginData: "x" });
          });
          b.onResolve({ filter: /^[^./]/ }, async (a) => {
            if (a.pluginData === "x" || a.path.startsWith("node:") || !a.resolveDir.startsWith(VERIF)) return;
            const own = a.path.startsWith("@langchain/core") ? [`${REPO}/packages/langchain`] : /^(ai$|ai\/|@ai-sdk\/otel)/.test(a.path) ? [`${REPO}/packages/vercel-ai-sdk`] : [];
            for (const dir of [...own, ...lookup]) {
              const r = await b.resolve(a.path, { resolveDir: dir, kind: a.kind, pluginData: "x" });
              if (!r.errors.length) return r;
            }
            return { errors: [{ text: "cannot resolve " + a.path }] };
          });
        },
      },
    ],
  });
  return { outfile, outdir };
}
