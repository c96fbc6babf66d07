// Prints the syntax tree of the TypeScript file argv[2] as JSON, without types.
import { createRequire } from "module";
import fs from "fs";
const require = createRequire("/opt/veriftools/node/node_modules/");
const ts = require("typescript");
const text = fs.readFileSync(process.argv[2], "utf8");
const sf = ts.createSourceFile("client.ts", text, ts.ScriptTarget.Latest, true, ts.ScriptKind.TS);
const K = {};
for (const [n, v] of Object.entries(ts.SyntaxKind)) if (typeof v === "number" && !(v in K) ) K[v] = n;
for (const n of ["NumericLiteral", "StringLiteral", "NoSubstitutionTemplateLiteral", "TemplateHead", "TemplateTail", "VariableStatement", "EqualsToken", "PlusEqualsToken", "BarBarEqualsToken", "Identifier"]) K[ts.SyntaxKind[n]] = n;
// types and type-only parts denote nothing at run time
const SKIP = new Set(["parent", "type", "typeParameters", "typeArguments", "questionToken", "exclamationToken", "jsDoc", "endOfFileToken",
  "flowNode", "localSymbol", "symbol", "locals", "nextContainer", "emitNode", "id", "original", "equalsGreaterThanToken", "assertClause", "attributes"]);
function conv(n) {
  const r = { k: K[n.kind], line: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, pos: n.pos };
  for (const [key, v] of Object.entries(n)) {
    if (SKIP.has(key) || v === undefined) continue;
    if (key === "text" && typeof v === "string") r.text = v;
    else if (key === "escapedText") r.text = ts.idText(n);
    else if (key === "operator") r.operator = ts.tokenToString(v);
    else if (key === "operatorToken") r.operator = ts.tokenToString(v.kind);
    else if (key === "modifiers") r.modifiers = v.map((m) => ts.tokenToString(m.kind));
    else if (key === "asteriskToken") r.generator = true;
    else if (key === "dotDotDotToken") r.rest = true;
    else if (key === "questionDotToken") r.optional = true;
    else if (key === "keyword" && typeof v !== "object") continue;
    else if (key === "awaitModifier") r.awaits = true;
    else if (v && typeof v === "object" && typeof v.kind === "number") r[key] = conv(v);
    else if (Array.isArray(v)) { const c = v.filter((x) => x && typeof x.kind === "number"); if (c.length || v.length === 0) r[key] = c.map(conv); }
  }
  if (n.kind === ts.SyntaxKind.VariableDeclarationList) r.decl = n.flags & ts.NodeFlags.Const ? "const" : n.flags & ts.NodeFlags.Let ? "let" : "var";
  return r;
}
const diags = sf.parseDiagnostics.map((d) => ts.flattenDiagnosticMessageText(d.messageText, " "));
console.log(JSON.stringify({ diags, statements: sf.statements.map(conv) }));
