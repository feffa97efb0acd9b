// C21: histories of calls on one loaded module.  hist.js <pkg> <verif dir> <quick|thorough>
// A state is a module instance together with the calls made on it; every history up to the
// bound over the alphabet of calls is executed on the compiled package and every result is
// compared with that of the same call as the first one on a fresh instance.
const path = require("path"), fs = require("fs");
const [, , pkgArg, dir, tier] = process.argv;
const pkg = path.resolve(pkgArg);
const thorough = tier === "thorough";
const t0 = Date.now();
const fresh = () => {
  delete require.cache[pkg];
  return require(pkg);
};
// Texts chosen to collide with each other in length, prefix, first token, outcome and error
// position, and to leave the tokenizer or the parser in the middle of every kind of state.
const texts = [
  "", "SELECT 1", "SELECT 2", "select 1", "SELECT a", "SELECT (", "SELECT '", "SELECT 1;", "SELECT 1; SELECT 2", "SELECT 1 -- c", "-- c\nSELECT 1",
  "SELECT ARRAY<INT64", "SELECT a < b > c", "SELECT CAST(1 AS ARRAY<STRUCT<INT64>>)", "SELECT a >> b",
  "l: BEGIN SELECT 1; END l;", "l: BEGIN SELECT 1;", "BEGIN SELECT 1; END", "FROM t |> WHERE x", "FROM t |>", "FROM t |> FOO x",
  "/* c", "SELECT `a", "SELECT {{ a }} FROM {{ b", "SELECT @1", "CREATE FOO x", "CREATE TABLE t (a INT64)",
  "SELECT f(a) OVER (PARTITION BY b ORDER BY c)", "SELECT 1 FROM a JOIN b USING (c) JOIN d ON e", "SELECT DATE '2020-01-01', INTERVAL 1 DAY",
  "INSERT INTO t VALUES (1, DEFAULT)", "WITH a AS (SELECT 1) SELECT * FROM a", "SELECT NOT", "SELECT 'é日𝒳' -- é", "x".repeat(3000),
  "SELECT " + "(".repeat(60) + "1" + ")".repeat(60), "SELECT " + "1,".repeat(200) + "1", "\n".repeat(50) + "SELECT", ";", "SELECT 1\r\n;",
];
const calls = [];
for (const t of texts) for (const f of ["parse", "tokenize"]) calls.push([f, t]);
const wasmMsg = (e) => (e instanceof Error ? "Error: " + e.message : null);
const call = (m, [f, t]) => {
  try {
    return { ok: m[f](t) };
  } catch (e) {
    const w = wasmMsg(e);
    return w ? { crash: w } : { err: e };
  }
};
// deep equality; the order of the properties of an object carries no meaning
function eq(a, b) {
  if (a === b) return true;
  if (a === null || b === null || typeof a !== "object" || typeof b !== "object") return false;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && eq(a[k], b[k]));
}
// what a caller may do with a result: it must not reach later results
function spoil(x) {
  if (x === null || typeof x !== "object") return;
  if (Array.isArray(x)) {
    x.forEach(spoil);
    x.length = 0;
  } else for (const k of Object.keys(x)) {
    spoil(x[k]);
    delete x[k];
  }
}
// calls whose results would show leftovers of an earlier call: nesting, labels, comments, lookahead
const probeTexts = [
  "SELECT a >> b", "SELECT ARRAY<STRUCT<ARRAY<INT64>>>[a]", "SELECT a < b, c >> d", "m: LOOP BREAK m; END LOOP m;", "BEGIN SELECT 1; END;", "-- c\nSELECT 1 -- d\n",
  "SELECT (a + b) * -c[1].d FROM e-f.g.h AS i", "CREATE TABLE t (a ARRAY<INT64> NOT NULL)", "SELECT '''x''', r'y', @p, {{ z }}", "FROM t |> WHERE NOT a BETWEEN b AND c", "SELECT (", "SELECT 'x",
];
const firstProbe = calls.length;
for (const t of probeTexts) for (const f of ["parse", "tokenize"]) calls.push([f, t]);
const n = firstProbe;
const probes = [];
for (let i = firstProbe; i < calls.length; i++) if (calls[i][0] === "parse" || probeTexts.indexOf(calls[i][1]) < 3) probes.push(i);
let last = null;
let states = 0, transitions = 0, execs = 0, viol = null;
const ref = calls.map((c) => {
  execs++;
  return structuredClone(call(fresh(), c));
});
// the clone is deep data only
const known = (() => {
  try {
    return JSON.parse(fs.readFileSync(path.join(dir, "known_findings.json"), "utf8")).filter((k) => k.status === "known" && k.property === "C21");
  } catch (e) {
    return [];
  }
})();
const hit = new Set();
function check(m, hist, i) {
  execs++;
  transitions++;
  const r = call(m, calls[i]);
  if (!eq(r, ref[i])) {
    const k = known.find((k) => k.input === calls[i][1]);
    if (k) hit.add(k.what);
    else if (!viol) viol = { property: "C21", what: "a call gives another result than on a fresh module", calls: [...(last ? [last] : []), ...[...hist, i].slice(-50).map((j) => calls[j])], history_length: hist.length, got: JSON.stringify(r).slice(0, 2000), fresh: JSON.stringify(ref[i]).slice(0, 2000) };
  }
  spoil(r);
}
function run() {
  // 1. every history of two calls, each on a fresh module (and each call three times in a row)
  let m;
  for (let a = 0; a < n; a++) {
    for (let b = 0; b < n; b++) {
      m = fresh();
      states += 2;
      check(m, [], a);
      check(m, [a], b);
      if (a === b) check(m, [a, a], a);
      if (viol) return;
    }
  }
  // 1b. every ordered pair of texts that are nearly equal, on one long-lived module: same length
  // and any two letters different, different in the middle or at the end of long texts, in
  // whitespace, comments or case only
  const near = [];
  const AB = thorough ? "abcdefghABCD12'(" : "abcdABCD1'";
  near.push([...AB].flatMap((x) => [...AB].map((y) => "SELECT " + x + y)));
  near.push([20, 200, 2000].flatMap((k) => ["a", "b", "é", "'"].flatMap((c) => [0, 1, 2].map((w) => "SELECT " + "x".repeat(w === 0 ? 0 : k) + c + "x".repeat(w === 2 ? 0 : k)))));
  near.push(["", " ", "\n", ";", "--c", "/*c*/", " ;", "; ", "\t", "\r\n"].flatMap((c) => ["SELECT a" + c, c + "SELECT a", "SELECT " + c + "a", "select A" + c]));
  for (const ts of near)
    for (const f of ["parse", "tokenize"]) {
      const cs = ts.map((t) => [f, t]);
      const rs = cs.map((c) => structuredClone(call(fresh(), c)));
      execs += cs.length;
      states += cs.length;
      m = fresh();
      for (let x = 0; x < cs.length; x++)
        for (let y = 0; y < cs.length; y++)
          for (const z of [x, y]) {
            const r = call(m, cs[z]);
            execs++;
            transitions++;
            if (!eq(r, rs[z])) {
              viol = { property: "C21", what: "a call gives another result than on a fresh module", calls: [cs[x], cs[y]], history_length: execs, got: JSON.stringify(r).slice(0, 2000), fresh: JSON.stringify(rs[z]).slice(0, 2000) };
              return;
            }
          }
    }
  // 2. every text that leaves the code in some state, followed by every call that is sensitive
  // to leftovers, alternating on one long-lived module
  m = fresh();
  const setups = fs.readFileSync(path.join(dir, "target", "setups.jsonl"), "utf8").split("\n").filter((l) => l).map((l) => JSON.parse(l));
  for (const s of setups)
    for (const f of thorough ? ["parse", "tokenize"] : ["parse"]) {
      const c = [f, s];
      const first = structuredClone(call(fresh(), c));
      execs++;
      states++;
      for (const p of probes) {
        const r = call(m, c);
        execs++;
        transitions++;
        if (!eq(r, first) && !viol) viol = { property: "C21", what: "a call gives another result than on a fresh module", calls: [c], history_length: execs, got: JSON.stringify(r).slice(0, 2000), fresh: JSON.stringify(first).slice(0, 2000) };
        spoil(r);
        last = c;
        check(m, [], p);
        if (viol) return;
      }
    }
  last = null;
  // 3. every window of k calls, on one long-lived module: the de Bruijn sequence of order k
  const k = 3;
  const idx = thorough ? calls.map((_, i) => i).filter((i) => i < n) : calls.map((_, i) => i).filter((i) => i < n && i % 2 === (i >> 1) % 2); // quick: one function per text, alternating
  const q = idx.length;
  m = fresh();
  const hist = [];
  const a = new Array(q * k).fill(0);
  const db = (t, p) => {
    if (viol) return;
    if (t > k) {
      if (k % p === 0)
        for (let j = 1; j <= p; j++) {
          check(m, hist, idx[a[j]]);
          hist.push(idx[a[j]]);
          states++;
          if (viol) return;
        }
    } else {
      a[t] = a[t - p];
      db(t + 1, p);
      for (let j = a[t - p] + 1; j < q; j++) {
        a[t] = j;
        db(t + 1, t);
      }
    }
  };
  db(1, 1);
  if (viol) return;
  // 4. thorough: every history of three calls over the short texts on a fresh module
  if (thorough) {
    const s = calls.map((_, i) => i).filter((i) => i < n && i % 3 === 0);
    for (const x of s) for (const y of s) for (const z of s) {
      m = fresh();
      states += 3;
      check(m, [], x);
      check(m, [x], y);
      check(m, [x, y], z);
      if (viol) return;
    }
  }
}
run();
// anti-vacuity: the alphabet has successes and both kinds of failures
const kinds = { ok: 0, err: 0, crash: 0 };
ref.forEach((r) => kinds["ok" in r ? "ok" : "err" in r ? "err" : "crash"]++);
fs.mkdirSync(path.join(dir, "evidence", "replay"), { recursive: true });
fs.writeFileSync(
  path.join(dir, "evidence", "C21.json"),
  JSON.stringify({
    property: "C21", tier: thorough ? "thorough" : "quick", seed: Number(process.env.VERIF_SEED || 1), level: "model_checking",
    coverage: { states, transitions, traces_validated_against_impl: execs, samples: [[calls[3], calls[10]], [calls[13], calls[24], calls[40]]], exhaustive: !viol, alphabet: n, probes: probes.length, setups: fs.readFileSync(path.join(dir, "target", "setups.jsonl"), "utf8").split("\n").length - 1, counters: kinds,
      rule: "every history of 2 calls on a fresh module instance; every ordered pair of nearly equal texts (same length, differing in two letters, in the middle of a long text, in whitespace, comments or case) on one long-lived instance; every setup text (every default statement, each of its prefixes, each odd token after each opening) followed by every probe on one long-lived instance, the setup itself compared with a fresh instance; every window of 3 calls on one long-lived instance (de Bruijn sequence)" + (thorough ? "; every history of 3 calls over every third call on a fresh instance" : "; in the quick tier the windows use one of the two functions per text") },
    assumptions: ["order of properties within an object carries no meaning"], wall_s: (Date.now() - t0) / 1000, violations: viol ? 1 : 0,
  }, null, 1)
);
for (const h of hit) console.log(`KNOWN-FINDING: property=C21 ${h}`);
console.log(`C21: states=${states} transitions=${transitions} executions=${execs} violations=${viol ? 1 : 0} wall=${(Date.now() - t0) / 1000}s ${JSON.stringify(kinds)}`);
if (viol) {
  const p = path.join(dir, "evidence", "replay", "C21.json");
  fs.writeFileSync(p, JSON.stringify(viol, null, 1));
  console.log(`VIOLATION property=C21 replay=${p}`);
  console.log("  " + JSON.stringify(viol.calls.slice(-3)).slice(0, 500) + "\n  got " + viol.got.slice(0, 300) + "\n  fresh " + viol.fresh.slice(0, 300));
  process.exit(1);
}
