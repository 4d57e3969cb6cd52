// One-off: derives the endpoint table of the API client (checks/lib/endpoints.json).
// Sources that must agree: the documented call example, the request type, and the endpoint named in the timeout message.
import { createRequire } from "node:module";
import { writeFileSync } from "node:fs";
const require = createRequire("/opt/veriftools/node/node_modules/ts-morph/package.json");
const { Project, SyntaxKind: K } = require("ts-morph");
const p = new Project({ compilerOptions: { strict: true, module: 99, moduleResolution: 100, target: 9, lib: ["lib.es2022.d.ts", "lib.dom.d.ts"] } });
const R = process.env.MC_REPO ?? "/repo";
p.addSourceFilesAtPaths(R + "/packages/core/src/api/**/*.ts");
const out = [];
for (const sf of p.getSourceFiles()) {
  if (!/resources\/.*\/client\/Client\.ts$/.test(sf.getFilePath())) continue;
  const segs = sf.getFilePath().match(/\/resources\/([^/]+)/g).map((s) => s.slice(11));
  for (const c of sf.getClasses())
    for (const m of c.getMethods()) {
      if (!m.getName().startsWith("__")) continue;
      const call = m.getDescendantsOfKind(K.CallExpression).find((x) => x.getExpression().getText() === "core.fetcher");
      if (!call) continue;
      const arg = call.getArguments()[0];
      const prop = (n) => arg.getProperty(n)?.getInitializer?.();
      const join = prop("url");
      const tpl = join.getArguments()[1].getText();
      const method = prop("method").getText().slice(1, -1);
      const msg = m.getText().match(/Timeout exceeded when calling (\w+) ([^"]+)\.",/);
      const params = m.getParameters().map((q) => ({ name: q.getName(), type: q.getType(), opt: q.isOptional() || q.hasInitializer() }));
      const pathParams = params.filter((q) => q.name !== "request" && q.name !== "requestOptions");
      const req = params.find((q) => q.name === "request");
      const kind = (t) => {
        const s = t.getNonNullableType();
        if (s.isArray()) return "array:" + kind(s.getArrayElementTypeOrThrow());
        if (s.isString() || s.isStringLiteral()) return "string";
        if (s.isNumber()) return "number";
        if (s.isBoolean() || s.isBooleanLiteral()) return "boolean";
        if (s.isUnion()) {
          const ks = [...new Set(s.getUnionTypes().map(kind))];
          if (ks.length === 1 && s.getUnionTypes().every((u) => u.isLiteral())) return "enum:" + s.getUnionTypes().map((u) => u.getLiteralValue()).join("|");
          return "union:" + ks.join("|");
        }
        if (s.isAny() || s.isUnknown()) return "any";
        return "object";
      };
      const fields = req ? Object.fromEntries(req.type.getNonNullableType().getProperties?.().map((x) => [x.getName(), { kind: kind(x.getTypeAtLocation(sf)), optional: x.isOptional() }]) ?? []) : {};
      const body = prop("body")?.getText();
      const isArrReq = req?.type.getNonNullableType().isArray?.() || (req && req.type.isUnion());
      const q = [...m.getText().matchAll(/_queryParams\["([^"]+)"\]/g)].map((x) => x[1]);
      const example = (c.getMethod(m.getName().slice(2))?.getJsDocs()[0]?.getInnerText() ?? "").split("@example")[1]?.trim();
      out.push({
        at: [...segs, m.getName().slice(2)],
        method, path: msg?.[2], msgMethod: msg?.[1], tpl,
        pathParams: pathParams.map((x) => ({ name: x.name, kind: kind(x.type) })),
        query: [...new Set(q)], fields, body: body ?? null, requestType: prop("requestType")?.getText() ?? null,
        void: /data: undefined/.test(m.getText()),
        reqType: req?.type.getText() ?? null, example,
      });
    }
}
writeFileSync(process.argv[2] ?? "/tmp/endpoints.json", JSON.stringify(out, null, 1));
console.log(out.length);
// compact form
writeFileSync("/verif/checks/lib/endpoints.json", "[" + out.map((x) => JSON.stringify({ at: x.at.join("."), method: x.method, path: x.path, pathParams: x.pathParams.map((p) => p.name), numeric: x.pathParams.filter((p) => p.kind !== "string").map((p) => p.name), query: Object.fromEntries(x.query.map((q) => [q, x.fields[q].kind])), required: x.query.filter((q) => !x.fields[q].optional), body: x.body !== null, void: x.void || undefined })).join(",\n") + "]\n");
