// Runs the websocket client the crate ships (argv[2]: its TypeScript source) under histories of calls, socket events
// and timers, and compares what it does with what a caller relies on. Reads {histories, random, length, seed} on stdin.
import { createRequire } from "module";
import fs from "fs";
import vm from "vm";
const require = createRequire("/opt/veriftools/node/node_modules/");
const ts = require("typescript");
const input = JSON.parse(fs.readFileSync(0, "utf8"));
const code = ts.transpileModule(fs.readFileSync(process.argv[2], "utf8"), {
  compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020 } }).outputText;
const script = new vm.Script("(function (exports, require, WebSocket, setTimeout, clearTimeout, setInterval, clearInterval, performance, console, queueMicrotask) {" + code + "\n})");
const factory = script.runInThisContext();
let clock = 0;
const never = () => {};
process.on("unhandledRejection", never);
const quiet = new Proxy({}, { get: () => () => {} });
const tick = () => new Promise((r) => setImmediate(r));
const CONNECTING = 0, OPEN = 1, CLOSING = 2, CLOSED = 3;

class Impossible extends Error {}
let impossible = 0;

class World {
  constructor() {
    this.sockets = []; this.timers = []; this.calls = []; this.bad = []; this.log = []; this.seen = new Set(); this.maxId = 0;
    const world = this;
    class Socket {
      constructor(url) {
        this.url = url; this.readyState = CONNECTING; this.sent = []; this.byClient = false; this.had = {}; this.listeners = [];
        this.k = world.sockets.length; world.sockets.push(this);
      }
      send(text) {
        if (this.readyState === CONNECTING) { const e = new Error("InvalidStateError"); e.name = "InvalidStateError"; throw e; }
        world.sent(this, text);
      }
      close() {
        if (this.readyState === CLOSING || this.readyState === CLOSED) return;
        if (this.readyState === OPEN) {
          const w = world.calls.filter((c) => c.socket === this && c.waits());
          if (w.length) world.fail("the open connection is closed while a caller still waits for replies on it", w.map((c) => c.name));
        }
        this.wasOpen = this.readyState === OPEN;
        this.byClient = true;
        this.readyState = CLOSING;
      }
      addEventListener(type, f) { this.listeners.push([type, f]); }
      removeEventListener(type, f) { this.listeners = this.listeners.filter(([t, g]) => t !== type || g !== f); }
      fire(type, event) {
        event = Object.assign({ type, target: this, currentTarget: this }, event);
        try { if (typeof this["on" + type] === "function") this["on" + type](event); } catch (e) { world.fail("the " + type + " handler throws", String(e)); }
        for (const [t, f] of [...this.listeners]) if (t === type) try { f.call(this, event); } catch (e) { world.fail("the " + type + " listener throws", String(e)); }
      }
    }
    for (const [n, v] of Object.entries({ CONNECTING, OPEN, CLOSING, CLOSED })) { Socket[n] = v; Socket.prototype[n] = v; }
    const exports = {};
    factory(exports, (n) => (n === "zod" ? {} : require(n)), Socket,
      (f, ms, ...a) => { const t = { f: () => f(...a), live: true, id: world.timers.length + 1 }; world.timers.push(t); return t.id; },
      (id) => { const t = world.timers[id - 1]; if (t) t.live = false; },
      (f) => { throw new Error("setInterval is not simulated"); }, () => {}, { now: () => clock++ }, quiet, queueMicrotask);
    this.api = exports;
  }
  fail(what, actual, expected) { if (this.bad.length < 3) this.bad.push({ what, input: this.log.join("; "), expected: expected === undefined ? "" : expected, actual }); }
  sent(socket, text) {
    let m;
    try { m = JSON.parse(text); } catch (e) { return this.fail("a message which is no JSON is sent", String(text)); }
    const x = m && m.exec;
    if (!x || typeof x.id !== "number" || !Number.isInteger(x.id) || x.id < 0) return this.fail("a message without an id is sent", text);
    const c = this.calls.find((c) => c.method === x.method && c.ns === x.namespace);
    if (!c) return this.fail("a message nobody asked for is sent", text);
    if (socket.readyState !== OPEN) return this.fail("the message of a call is given to a socket which is closed", text);
    if (c.id !== undefined) return this.fail("the message of a call is sent more than once", text);
    if (this.calls.some((d) => d.id === x.id)) this.fail("two calls use the same id", text, "a fresh id");
    const want = JSON.stringify({ exec: { id: x.id, method: c.method, namespace: c.ns, args: c.args } });
    const got = JSON.stringify({ exec: { id: x.id, method: x.method, namespace: x.namespace, args: x.args } });
    if (want !== got || Object.keys(m).length !== 1 || Object.keys(x).length !== 4) this.fail("the message of a call differs from the call", text, want);
    c.id = x.id; c.socket = socket; this.maxId = Math.max(this.maxId, x.id);
    socket.sent.push(c);
  }
  call(kind, args, hook) {
    const n = this.calls.length;
    const c = { kind, ns: "Ns" + (n % 3), method: "m" + n, args, name: kind + " " + n, n, settled: [], got: [], want: [], subs: 0, live: [], replies: 0 };
    c.waits = () => c.id !== undefined && c.socket && (kind === "request" ? c.replies === 0 : c.live.some((s) => s.on));
    c.needs = () => (kind === "request" ? c.replies === 0 : c.live.some((s) => s.on));
    this.calls.push(c);
    const a = (function () { return arguments; })(...args);
    try {
      if (kind === "request") {
        c.promise = this.api.request(c.ns, c.method, a);
        c.promise.then((v) => { c.settled.push(["resolved", v]); if (hook) hook(); }, (e) => c.settled.push(["rejected", String(e)]));
      } else c.store = this.api.subscribe(c.ns, c.method, a);
    } catch (e) { this.fail("a call throws", String(e)); }
    return c;
  }
  listen(c, hook) {
    const s = { on: true, got: [], want: [] };
    c.live.push(s);
    try { s.off = c.store.subscribe((v) => { s.got.push(v); if (hook) hook(s); }); } catch (e) { this.fail("subscribing to a store throws", String(e)); }
    return s;
  }
  drop(s) { s.on = false; try { s.off(); } catch (e) { this.fail("unsubscribing throws", String(e)); } }
  reply(socket, kind, id, data) {
    for (const c of this.calls) if (c.id === id && kind !== "error") {
      if (c.kind === "request") { if (c.replies++ === 0) { c.expected = data; this.over = true; } }
      else for (const s of c.live) if (s.on) s.want.push(data);
    }
    socket.fire("message", { data: JSON.stringify({ [kind]: { id, data } }) });
  }
  check(opened) {
    // a request lets go of the connection with its reply: without other callers it is closed
    if (this.over && !this.calls.some((c) => c.needs() || c.id === undefined) && this.sockets.some((s) => s.readyState === OPEN && !s.byClient && s === this.sockets[this.sockets.length - 1]))
      this.fail("the connection stays open although the last caller has its reply", "open", "closed");
    this.over = false;
    for (const c of this.calls) {
      const want = c.replies ? [["resolved", c.expected]] : [];
      if (c.kind === "request" && JSON.stringify(c.settled) !== JSON.stringify(want)) this.fail("a call is not settled by its own reply alone: " + c.name, c.settled, want);
      for (const s of c.live) if (JSON.stringify(s.got) !== JSON.stringify(s.want)) this.fail("a store does not deliver exactly its own replies: " + c.name, s.got, s.want);
      if (opened && c.id === undefined) this.fail("a message which waited for the socket is not sent when it opens: " + c.name, "not sent", "sent");
      const cur = this.sockets[this.sockets.length - 1];
      if (c.needs() && c.id === undefined) {
        const hope = this.sockets.some((s) => (!s.byClient && s.readyState !== CLOSED)) || this.timers.some((t) => t.live);
        if (!hope) this.fail("a call waits although nothing will open a connection: " + c.name, "no socket and no timer", "a socket or a timer");
      }
      if (c.fresh && cur && cur.readyState === OPEN && !cur.byClient && c.id === undefined) this.fail("a message is not sent although the connection is open: " + c.name, "not sent", "sent");
      c.fresh = false;
    }
  }
  // the environment's moves
  moves() {
    const r = [];
    this.sockets.forEach((s, i) => {
      if (s.readyState === CONNECTING) r.push(["open", i], ["open", i], ["open", i], ["refuse", i]);
      if (s.readyState === OPEN) r.push(["lost", i], ["closing", i]);
      if (s.readyState === OPEN && s.sent.length) for (let k = 0; k < 3; k++) r.push(["reply", i]);
      if (s.readyState === OPEN) r.push(["stray", i], ["error", i]);
      if (s.readyState === CLOSING) r.push(["closed", i], ["closed", i]);
    });
    this.timers.forEach((t, i) => { if (t.live) r.push(["timer", i], ["timer", i]); });
    this.calls.forEach((c) => { if (c.store) { r.push(["listen", c.n], ["listen", c.n, c.n % 2 ? "once" : "and call"]); c.live.forEach((s, k) => { if (s.on) r.push(["drop", c.n, k]); else if (k % 3 == 0) r.push(["drop again", c.n, k]); }); } });
    for (let k = 0; k < 3; k++) r.push(["request"]);
    r.push(["stream"], ["stream+"], ["request, then another"]);
    return r;
  }
  async act(m, rnd) {
    this.log.push(m.map((x) => (typeof x === "string" ? x : JSON.stringify(x) ?? "").slice(0, 60)).join(" "));
    let opened = false;
    const s = this.sockets[m[1]], c = this.calls[m[1]];
    const args = [[], [1], ["a\"b", null], [[1, 2], { x: "y" }, true],
      [undefined, 3], [{ n: null, o: [null, { p: null }] }, null], ["", 0, false, []], [1.5, -0.25, 1e21, "\u2028\ud800"]][rnd(8)];
    const data = [null, 0, "x", [1], { a: 1 }, false][rnd(6)];
    const n0 = this.calls.length;
    // a history found by the verifier may not be possible for real
    const states = { open: [CONNECTING], refuse: [CONNECTING], lost: [OPEN], closing: [OPEN], closed: [CLOSING], reply: [OPEN], stray: [OPEN], error: [OPEN] };
    const bad = m[0] in states ? !s || !states[m[0]].includes(s.readyState) || (m[0] === "reply" && (m[2] === undefined ? !s.sent.length : !s.sent.includes(this.calls[m[2]])))
      : m[0] === "timer" ? !(this.timers[m[1]] || {}).live : m[0] === "listen" ? !(c && c.store) : m[0].startsWith("drop") ? !(c && c.live[m[2] || 0]) : false;
    if (bad) throw new Impossible(m.join(" "));
    switch (m[0]) {
      case "request": this.call("request", args); break;
      case "request, then another": this.call("request", args, () => this.call("request", [])); break;
      case "stream": this.call("stream", args); break;
      case "stream+": this.listen(this.call("stream", args)); break;
      case "listen": this.listen(c, m[2] === "once" ? (s) => { s.on = false; s.off && s.off(); } : m[2] === "and call" ? (s) => { if (s.got.length < 3) this.call("request", [7]); } : null); break;
      case "drop": this.drop(c.live[m[2] || 0]); break;
      case "drop again": this.drop(c.live[m[2] || 0]); break;
      case "open": s.readyState = OPEN; s.fire("open", {}); opened = true; break;
      case "refuse": s.readyState = CLOSED; s.fire("error", {}); await tick(); s.fire("close", { wasClean: false, code: 1006 }); break;
      case "lost": s.readyState = CLOSED; if (rnd(2)) s.fire("error", {}); s.fire("close", { wasClean: false, code: 1006 }); break;
      case "closing": s.readyState = CLOSING; break;
      case "closed": s.readyState = CLOSED; if (s.byClient && !s.wasOpen) { s.fire("error", {}); await tick(); } s.fire("close", { wasClean: true, code: 1000 }); break;
      case "reply": { const k = m[2] === undefined ? s.sent[rnd(s.sent.length)] : this.calls[m[2]]; this.reply(s, k.kind === "request" ? "method" : "stream", k.id, m[3] === undefined ? data : m[3]); break; }
      case "stray": this.reply(s, ["method", "stream"][rnd(2)], this.maxId + 1000 + rnd(5), data); break;
      case "error": { const k = s.sent.length ? s.sent[rnd(s.sent.length)].id : null; this.reply(s, "error", k, { JsonError: "no" }); break; }
      case "timer": { const t = this.timers[m[1]]; t.live = false; try { t.f(); } catch (e) { this.fail("a timer throws", String(e)); } break; }
      default: throw new Error("unknown move " + m[0]);
    }
    for (const d of this.calls.slice(n0)) d.fresh = true;
    await tick();
    this.check(opened);
  }
  // let every connection come up: afterwards nothing may be left waiting unsent
  async settle(rnd) {
    for (let k = 0; k < 12 && !this.bad.length; k++) {
      const m = this.moves().filter((m) => ["open", "closed", "timer"].includes(m[0]))[0];
      if (!m) break;
      await this.act(m, rnd);
    }
    for (const c of this.calls) if (c.needs() && c.id === undefined) this.fail("a call's message is never sent: " + c.name, "not sent", "sent");
  }
}

function rng(seed) {
  let s = seed >>> 0;
  return (n) => { s = (Math.imul(s, 1664525) + 1013904223) >>> 0; return Math.floor((s / 4294967296) * n); };
}

const failures = [];
let cases = 0, steps = 0;
async function history(next, rnd) {
  const w = new World();
  for (let k = 0; ; k++) {
    const m = next(w, k);
    if (!m || w.bad.length) break;
    steps++;
    try { await w.act(m, rnd); } catch (e) { if (!(e instanceof Impossible)) throw e; impossible++; }
  }
  if (!w.bad.length) await w.settle(rnd);
  cases++;
  failures.push(...w.bad.slice(0, 1));
}
try {
  for (const h of input.histories) await history((w, k) => h[k], rng(1));
  for (let i = 0; i < input.random && failures.length < 5; i++) {
    const rnd = rng(input.seed * 7919 + i * 31 + 17);
    await history((w, k) => { if (k >= input.length) return null; const ms = w.moves(); return ms[rnd(ms.length)]; }, rnd);
  }
  console.log(JSON.stringify({ cases, steps, impossible, failures: failures.slice(0, 10) }));
} catch (e) {
  console.log(JSON.stringify({ cases, steps, failures: [{ what: "the client does not load or run", input: "", expected: "", actual: String(e && e.stack || e).slice(0, 600) }] }));
}
