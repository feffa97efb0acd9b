//! C19: every tree conforms to the published TypeScript declarations (resolved by the
//! TypeScript compiler into target/schema.json).
use crate::corpus::*;
use crate::engine::{verif_dir, Ctx, Worker};
use crate::explore::*;
use crate::sut::{Child, Out, Tree};
use crate::treechecks::all_comments;
use serde_json::{json, Value};
use std::collections::HashMap;

struct Decl {
    many: bool,
    one: bool,
    optional: bool,
    kinds: Option<Vec<String>>,
}
struct Kind {
    token: String,
    ch: HashMap<String, Decl>,
}
type Schema = HashMap<String, Kind>;

fn load() -> (Schema, Vec<String>, Value) {
    let s = std::fs::read_to_string(format!("{}/target/schema.json", verif_dir())).expect("no schema.json");
    let v: Value = serde_json::from_str(&s).unwrap();
    let mut m = HashMap::new();
    for (k, d) in v["kinds"].as_object().unwrap() {
        let mut ch = HashMap::new();
        for (n, c) in d["children"].as_object().unwrap() {
            let shape = c["shape"].as_str().unwrap_or("");
            if shape.is_empty() {
                continue; // declared as never there
            }
            ch.insert(
                n.clone(),
                Decl {
                    one: shape != "NodeVec",
                    many: shape != "Node",
                    optional: c["optional"].as_bool().unwrap(),
                    kinds: c["kinds"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()),
                },
            );
        }
        m.insert(
            k.clone(),
            Kind {
                token: d["token"].as_str().unwrap().into(),
                ch,
            },
        );
    }
    let e = v["errors"].as_array().unwrap().iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
    (m, e, v["top"].clone())
}
/// every way in which the tree departs from the declarations
fn conform(s: &Schema, t: &Tree, out: &mut Vec<String>) {
    let k = match s.get(&t.kind) {
        Some(k) => k,
        None => {
            out.push(format!("node kind {} is not declared", t.kind));
            return;
        }
    };
    match (&k.token[..], &t.tok) {
        ("token", None) => out.push(format!("{} is declared with a token, has none", t.kind)),
        ("null", Some(_)) => out.push(format!("{} is declared without token, has one", t.kind)),
        _ => (),
    }
    for (n, c) in &t.ch {
        let v: Vec<&Tree> = match c {
            Child::One(x) => vec![x],
            Child::Many(v) => v.iter().collect(),
        };
        for x in &v {
            conform(s, x, out);
        }
        let d = match k.ch.get(n) {
            Some(d) => d,
            None => {
                out.push(format!("{}.{} is not declared", t.kind, n));
                continue;
            }
        };
        match c {
            Child::One(_) if !d.one => out.push(format!("{}.{} is declared as a list, is a single node", t.kind, n)),
            Child::Many(_) if !d.many => out.push(format!("{}.{} is declared as a single node, is a list", t.kind, n)),
            _ => (),
        }
        // WITH(c AS expr, ...): there the alias is an expression
        if let (Some(ks), false) = (&d.kinds, n == "alias") {
            for x in v {
                if !ks.is_empty() && !ks.contains(&x.kind) {
                    out.push(format!("{}.{} may not be a {}", t.kind, n, x.kind));
                }
            }
        }
    }
    for (n, d) in &k.ch {
        if !d.optional && t.get(n).is_none() {
            out.push(format!("{}.{} is declared as mandatory, is missing", t.kind, n));
        }
    }
}
pub fn run(ctx: &Ctx) {
    let (s, errors, top) = load();
    ctx.note("declared kinds", json!(s.len()));
    if !errors.is_empty() {
        ctx.violation("", format!("the type declarations do not compile: {}", errors[0]), Value::Null);
        return;
    }
    if top["parse"] != json!(["UnknownNode[](string)"]) || top["tokenize"] != json!(["Token[](string)"]) {
        ctx.violation("", format!("parse and tokenize are declared as {}", top), Value::Null);
        return;
    }
    let b = 2 + ctx.thorough as u8;
    let one = |w: &mut Worker, text: &str| {
        if let Out::Ok(ts) = w.parse(text) {
            let mut v = vec![];
            ts.iter().for_each(|t| conform(&s, t, &mut v));
            for m in v {
                w.violation(text, m);
            }
        } else {
            w.count("not accepted");
        }
    };
    explore(ctx, &both(b, b - 1), |w, r, d| {
        w.count(r.name);
        let t = spaced(&d.toks);
        w.sample(|| json!({"root": r.name, "text": t.s}));
        one(w, &t.s);
        one(w, &all_comments(&d.toks, 4).t.s);
    });
}
