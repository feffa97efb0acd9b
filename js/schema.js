// schema.js <bq2cst.d.ts> <out.json>: the published node types, resolved by the TypeScript compiler.
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const [, , file, out] = process.argv;
const prog = ts.createProgram([file], { strict: true, noEmit: true, skipLibCheck: false, types: [] });
const ck = prog.getTypeChecker();
const errors = ts.getPreEmitDiagnostics(prog).map((d) => ts.flattenDiagnosticMessageText(d.messageText, "\n"));
const sf = prog.getSourceFile(file);
const mod = ck.getSymbolAtLocation(sf);
const exp = Object.fromEntries(ck.getExportsOfModule(mod).map((s) => [s.name, s]));
const decl = (n) => ck.getDeclaredTypeOfSymbol(exp[n]);
const strip = (t) => ck.getNonNullableType(t);
const members = (t) => (t.isUnion() ? t.types : [t]);
const unknown = decl("UnknownNode");
const propType = (t, n) => {
  const s = ck.getPropertyOfType(t, n);
  return s && ck.getTypeOfSymbolAtLocation(s, sf);
};
const isOpt = (s) => (s.flags & ts.SymbolFlags.Optional) !== 0;
const kindsOf = (t) => {
  // node kinds a node type allows; null = any declared
  const ks = new Set();
  for (const m of members(t)) {
    const k = propType(m, "node_type");
    if (!k) return null;
    for (const x of members(k)) {
      if (x.isStringLiteral()) ks.add(x.value);
      else return null;
    }
  }
  return [...ks].sort();
};
const kinds = {};
for (const m of members(unknown)) {
  const nt = propType(m, "node_type");
  const tok = propType(m, "token");
  const token = members(tok);
  const mayNull = token.some((x) => x.flags & ts.TypeFlags.Null);
  const mustNull = token.every((x) => x.flags & ts.TypeFlags.Null);
  for (const k of members(nt)) {
    const ch = {};
    const ct = propType(m, "children");
    for (const p of ck.getPropertiesOfType(ct)) {
      const t = strip(ck.getTypeOfSymbolAtLocation(p, sf));
      let shape = null, ks = null;
      for (const v of members(t)) {
        const one = ck.getPropertyOfType(v, "Node"), many = ck.getPropertyOfType(v, "NodeVec");
        if (one) {
          shape = shape === null || shape === "Node" ? "Node" : "both";
          ks = kindsOf(ck.getTypeOfSymbolAtLocation(one, sf));
        }
        if (many) {
          shape = shape === null || shape === "NodeVec" ? "NodeVec" : "both";
          const el = ck.getIndexTypeOfType(ck.getTypeOfSymbolAtLocation(many, sf), ts.IndexKind.Number);
          ks = el ? kindsOf(el) : null;
        }
      }
      ch[p.name] = { shape, optional: isOpt(p), kinds: ks };
    }
    const prev = kinds[k.value];
    if (prev) throw new Error("kind declared twice: " + k.value);
    kinds[k.value] = { token: mustNull ? "null" : mayNull ? "maybe" : "token", children: ch };
  }
}
const top = {};
for (const f of ["parse", "tokenize"]) {
  const s = exp[f];
  const sig = s && ck.getTypeOfSymbolAtLocation(s, sf).getCallSignatures();
  top[f] = sig && sig.map((g) => ck.typeToString(g.getReturnType()) + "(" + g.parameters.map((p) => ck.typeToString(ck.getTypeOfSymbolAtLocation(p, sf))).join(",") + ")");
}
fs.writeFileSync(out, JSON.stringify({ errors, kinds, top }, null, 1));
