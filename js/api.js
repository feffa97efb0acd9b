// Server of the API conformance check: one JSON line in per text
// {t: text, p: native result of parse, k: native result of tokenize}, where a result is
// {ok: value} or {err: {line, column, message}}; answers one line per batch ("" = all equal).
const api = require(require("path").resolve(process.argv[2]));
const P = Object.prototype;
const show = (x) => {
  let s;
  try { s = JSON.stringify(x); } catch (e) { s = String(x); }
  return String(s).slice(0, 300);
};
// first difference between a value and the expected JSON value; both plain data
function diff(a, e, path) {
  if (e === null || typeof e !== "object") return a === e ? "" : `${path} is ${show(a)} instead of ${show(e)}`;
  if (a === null || typeof a !== "object") return `${path} is ${show(a)} instead of ${show(e)}`;
  if (Array.isArray(e)) {
    if (!Array.isArray(a)) return `${path} is not an array`;
    if (a.length !== e.length) return `${path} has ${a.length} elements instead of ${e.length}`;
    for (let i = 0; i < e.length; i++) {
      const d = diff(a[i], e[i], `${path}[${i}]`);
      if (d) return d;
    }
    return Object.keys(a).length === a.length ? "" : `${path} has further properties`;
  }
  if (Array.isArray(a) || Object.getPrototypeOf(a) !== P) return `${path} is not a plain object`;
  const ks = Object.keys(e);
  for (const k of ks) {
    if (!P.hasOwnProperty.call(a, k)) return `${path}.${k} is missing`;
    const d = diff(a[k], e[k], `${path}.${k}`);
    if (d) return d;
  }
  if (Reflect.ownKeys(a).length !== ks.length) return `${path} has further properties: ${Object.keys(a)}`;
  return "";
}
// the documented shape, independent of the native result
const keys = (o, ...ks) => o !== null && typeof o === "object" && Object.keys(o).sort().join() === ks.sort().join();
const tok = (t) => keys(t, "line", "column", "literal") && Number.isInteger(t.line) && Number.isInteger(t.column) && typeof t.literal === "string";
const child = (c) =>
  keys(c, "Node") ? node(c.Node) : keys(c, "NodeVec") && Array.isArray(c.NodeVec) && c.NodeVec.every(node);
const node = (n) =>
  keys(n, "token", "node_type", "children") && (n.token === null || tok(n.token)) && typeof n.node_type === "string" &&
  n.children !== null && typeof n.children === "object" && Object.values(n.children).every(child);
const err = (e) => keys(e, "line", "column", "message") && Number.isInteger(e.line) && Number.isInteger(e.column) && typeof e.message === "string" && e.message.length > 0;
function call(f, text) {
  try {
    return { ok: f(text) };
  } catch (e) {
    return { err: e };
  }
}
function one(r) {
  const got = {};
  for (const [n, f, e, shape] of [["parse", api.parse, r.p, node], ["tokenize", api.tokenize, r.k, tok]]) {
    const g = (got[n] = call(f, r.t));
    if ("ok" in e) {
      if (!("ok" in g)) return `${n} throws ${show(g.err)} ${g.err instanceof Error ? g.err.message : ""}`;
      if (!Array.isArray(g.ok) || !g.ok.every(shape)) return `${n} returns something else than documented: ${show(g.ok)}`;
      const d = diff(g.ok, e.ok, n);
      if (d) return d;
    } else {
      if ("ok" in g) return `${n} returns ${show(g.ok)} instead of throwing ${show(e.err)}`;
      if (!err(g.err)) return `${n} throws ${show(g.err)} ${g.err instanceof Error ? g.err.message : ""} instead of an error with line, column and message`;
      const d = diff(g.err, e.err, `error of ${n}`);
      if (d) return d;
    }
  }
  if ("err" in got.tokenize) {
    if (!("err" in got.parse)) return "tokenize fails, parse does not";
    const d = diff(got.parse.err, got.tokenize.err, "error of parse");
    if (d) return "tokenize and parse fail differently: " + d;
  }
  return "";
}
let buf = [];
let tail = "";
process.stdin.setEncoding("utf8");
process.stdin.on("data", (s) => {
  const lines = (tail + s).split("\n");
  tail = lines.pop();
  for (const l of lines) {
    if (l === "") {
      let out = "";
      for (let i = 0; i < buf.length && !out; i++) {
        const d = one(JSON.parse(buf[i]));
        if (d) out = JSON.stringify([i, d]);
      }
      buf = [];
      process.stdout.write(out + "\n");
    } else buf.push(l);
  }
});
