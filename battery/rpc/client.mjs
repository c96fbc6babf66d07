// Reads {client, stub, calls} on stdin; prints the structure of the generated client and what calls of
// its functions do.
import { createRequire } from "module";
import fs from "fs";
const require = createRequire("/opt/veriftools/node/node_modules/");
const ts = require("typescript");
const zod = require("zod/v3");
const input = JSON.parse(fs.readFileSync(0, "utf8"));
const out = [];

function tokens(text) {
  const sc = ts.createScanner(ts.ScriptTarget.Latest, true, ts.LanguageVariant.Standard, text);
  const r = [];
  for (let t = sc.scan(); t !== ts.SyntaxKind.EndOfFileToken; t = sc.scan())
    r.push(t === ts.SyntaxKind.StringLiteral ? JSON.stringify(sc.getTokenValue()) : sc.getTokenText());
  return r.join(" ");
}

function docs(sf, node) {
  const at = node.getFullStart();
  const rs = [...(ts.getTrailingCommentRanges(sf.text, at) || []), ...(ts.getLeadingCommentRanges(sf.text, at) || [])];
  return rs.filter((r) => r.kind === ts.SyntaxKind.MultiLineCommentTrivia).map((r) => sf.text.slice(r.pos, r.end));
}

function structure(text) {
  const sf = ts.createSourceFile("client.ts", text, ts.ScriptTarget.Latest, true, ts.ScriptKind.TS);
  const diags = sf.parseDiagnostics.map((d) => ts.flattenDiagnosticMessageText(d.messageText, " ") + " near " + JSON.stringify(text.slice(Math.max(0, d.start - 40), d.start + 40)));
  const blocks = [];
  for (const st of sf.statements) {
    if (!ts.isModuleDeclaration(st)) { blocks.push({ other: ts.SyntaxKind[st.kind] }); continue; }
    const exported = (m) => !!(m.modifiers || []).some((x) => x.kind === ts.SyntaxKind.ExportKeyword);
    const b = { ns: st.name.text, exported: exported(st), items: [] };
    for (const it of st.body.statements) {
      const d = docs(sf, it);
      if (ts.isVariableStatement(it)) {
        for (const v of it.declarationList.declarations)
          b.items.push({ kind: "const", name: v.name.text, exported: exported(it), isConst: !!(it.declarationList.flags & ts.NodeFlags.Const),
                         text: tokens(v.initializer ? v.initializer.getText(sf) : ""), docs: d });
      } else if (ts.isInterfaceDeclaration(it)) {
        const t = it.getText(sf);
        b.items.push({ kind: "interface", name: it.name.text, exported: exported(it), text: tokens(t.slice(t.indexOf("{"))), docs: d });
      } else if (ts.isTypeAliasDeclaration(it)) {
        b.items.push({ kind: "type", name: it.name.text, exported: exported(it), text: tokens(it.type.getText(sf)), docs: d });
      } else if (ts.isFunctionDeclaration(it)) {
        b.items.push({ kind: "function", name: it.name && it.name.text, exported: exported(it), complete: !!it.body,
          async: !!(it.modifiers || []).some((x) => x.kind === ts.SyntaxKind.AsyncKeyword),
          params: it.parameters.map((p) => [p.name.getText(sf), p.type ? tokens(p.type.getText(sf)) : null, !!p.questionToken || !!p.initializer || !!p.dotDotDotToken]),
          ret: it.type ? tokens(it.type.getText(sf)) : null });
      } else if (it.kind !== ts.SyntaxKind.EmptyStatement) {
        b.items.push({ kind: "other", text: it.getText(sf).slice(0, 200) });
      }
    }
    blocks.push(b);
  }
  return { diags, blocks };
}

// whether a text is one complete expression / type / interface body, and the keys and literals in it
function form(text, kind) {
  const [pre, post] = kind === "expr" ? ["export const x = ", "\n;"] : kind === "type" ? ["export type x = ", "\n;"] : ["export interface x ", "\n"];
  const sf = ts.createSourceFile("x.ts", pre + text + post, ts.ScriptTarget.Latest, true, ts.ScriptKind.TS);
  const bad = sf.parseDiagnostics.map((d) => ts.flattenDiagnosticMessageText(d.messageText, " "));
  const st = sf.statements.filter((x) => x.kind !== ts.SyntaxKind.EmptyStatement);
  if (st.length !== 1 || sf.statements.length > 2) bad.push(`${st.length} statements`);
  const s = st[0];
  if (s && kind === "expr" && !(ts.isVariableStatement(s) && s.declarationList.declarations.length === 1 && s.declarationList.declarations[0].initializer)) bad.push("no expression");
  if (s && kind === "type" && !ts.isTypeAliasDeclaration(s)) bad.push("no type");
  if (s && kind === "interface" && !ts.isInterfaceDeclaration(s)) bad.push("no interface");
  const keys = [], literals = [];
  function walk(n, depth) {
    if ((ts.isPropertyAssignment(n) || ts.isPropertySignature(n)) && n.name) {
      if (n.name.text === undefined) bad.push("a computed key"); else keys.push(n.name.text);
    } else if (ts.isStringLiteral(n) && !((ts.isPropertyAssignment(n.parent) || ts.isPropertySignature(n.parent)) && n.parent.name === n)) literals.push(n.text);
    else if (ts.isShorthandPropertyAssignment(n) || ts.isSpreadAssignment(n) || ts.isMethodDeclaration(n) || ts.isComputedPropertyName(n)) bad.push("an unexpected key");
    else if (ts.isTemplateLiteral(n)) bad.push("a template");
    ts.forEachChild(n, walk);
  }
  if (s) ts.forEachChild(s, walk);
  return { bad, keys, literals };
}

function js(text) {
  return ts.transpileModule(text, { compilerOptions: { target: "ES2020", module: "CommonJS" } }).outputText;
}

async function run(job) {
  const sent = [];
  const names = new Set();
  const st = structure(job.client);
  for (const b of st.blocks) if (b.ns) names.add(b.ns);
  const prelude = `const z = __z; function request(ns, m, args) { __sent.push(["request", ns, m, [...args]]); return Promise.resolve("reply"); }
    function subscribe(ns, m, args) { __sent.push(["subscribe", ns, m, [...args]]); return { store: true }; }\n`;
  const code = js(prelude + job.client) + `\nreturn {${[...names].join(",")}};`;
  const exports = {};
  const ns = new Function("__z", "__sent", "exports", code)(zod, sent, exports);
  const res = [];
  for (const c of job.calls) {
    sent.length = 0;
    let threw = null, value = null;
    try {
      const r = ns[c.ns][c.fn](...c.args);
      value = r && typeof r.then === "function" ? "promise" : r && r.store ? "store" : String(r);
      await r;
    } catch (e) {
      threw = e && e.name ? e.name : String(e);
    }
    res.push({ sent: JSON.parse(JSON.stringify(sent)), threw, value });
  }
  return res;
}

// what the shipped client puts on the wire, and what it makes of the answers
async function wire(job) {
  const frames = [];
  const sockets = [];
  class WebSocket {
    constructor(url) { this.readyState = 0; sockets.push(this); setTimeout(() => { this.readyState = 1; this.onopen && this.onopen({}); }, 0); }
    send(x) { frames.push(x); }
    close() { this.readyState = 3; }
  }
  WebSocket.OPEN = 1;
  const text = job.client.replace(/^\s*import[^\n]*$/m, "const z = __z;");
  const names = structure(text).blocks.filter((b) => b.ns).map((b) => b.ns);
  const code = js(text) + `\nreturn {${names.join(",")}};`;
  const quiet = { debug() {}, trace() {}, log() {}, warn() {}, error() {} };
  const ns = new Function("__z", "WebSocket", "console", "exports", code)(zod, WebSocket, quiet, {});
  const res = [];
  for (const c of job.calls) {
    const before = frames.length;
    let state = { threw: null, value: undefined, settled: false, items: [] };
    try {
      const r = ns[c.ns][c.fn](...c.args);
      if (r && r.subscribe) r.subscribe((x) => state.items.push(x));
      else r.then((x) => { state.settled = true; state.value = x; }, (e) => { state.threw = String(e && e.name); });
    } catch (e) { state.threw = String(e && e.name); }
    for (let i = 0; i < 6; i++) await new Promise((r) => setTimeout(r, 0));
    const mine = frames.slice(before);
    res.push({ frames: mine, state });
  }
  return res;
}

for (const job of input) {
  const r = {};
  try {
    if (job.structure !== undefined) r.structure = structure(job.structure);
    if (job.forms) r.forms = job.forms.map(([k, t]) => form(t, k));
    if (job.calls && job.wire) r.wire = await wire(job);
    else if (job.calls) r.calls = await run(job);
  } catch (e) { r.error = String(e && e.stack ? e.stack : e).slice(0, 600); }
  out.push(r);
}
process.stdout.write(JSON.stringify(out) + "\n", () => process.exit(0));
