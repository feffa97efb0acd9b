//! C22: incomplete and unrecognized statements.
use crate::corpus::*;
use crate::engine::{Ctx, Worker};
use crate::explore::*;
use crate::gram::GTok;
use crate::mutants::{derivations, laid_out};
use crate::sut::{Out, MAXPOS};
use serde_json::json;
use std::collections::{BTreeSet, HashSet};

fn key(t: &[GTok]) -> Vec<String> {
    t.iter().map(|t| t.lit.clone()).collect()
}
pub fn run(ctx: &Ctx) {
    let b = 1 + ctx.thorough as u8;
    let mut rs = all(b + 1);
    rs.extend(nests());
    let whole: HashSet<Vec<String>> = derivations(&rs)
        .into_iter()
        .flat_map(|d| {
            let mut v = vec![key(&d.toks)];
            if v[0].last().map_or(false, |s| s == ";") {
                let mut k = v[0].clone();
                k.pop();
                v.push(k);
            }
            v
        })
        .collect();
    ctx.note("complete token sequences", json!(whole.len()));
    explore(ctx, &both(b, b - 1), |w, r, d| {
        w.count(r.name);
        let mut depth = 0i32;
        for k in 1..d.toks.len() {
            let last = &d.toks[k - 1];
            match &last.lit[..] {
                "(" | "[" => depth += 1,
                ")" | "]" => depth -= 1,
                _ => (),
            }
            w.transitions += 1;
            let next = &d.toks[k];
            if next.glue || !due(depth, &last.lit, &next.lit) {
                continue;
            }
            let p = &d.toks[..k];
            if whole.contains(&key(p)) {
                w.count("complete prefix");
                continue;
            }
            w.sample(|| json!({"cut": spaced(p).s}));
            cut(w, &spaced(p).s);
            if !p.iter().any(|t| t.glue) {
                for m in 0..4 {
                    cut(w, &laid_out(p, m));
                }
                if r.bound == 0 {
                    cut(w, &laid_out(p, 4));
                    cut(w, &laid_out(p, 5));
                }
            }
        }
    });
    if !ctx.stopped() {
        unrecognized(ctx);
    }
}
/// statements that must be rejected inside themselves: all words of the vocabulary in each place
fn unrecognized(ctx: &Ctx) {
    let ds = derivations(&all(2));
    let mut voc: BTreeSet<String> = BTreeSet::new();
    // words that may follow (by the last two tokens)
    let mut ok: HashSet<(String, String)> = HashSet::new();
    for d in &ds {
        for (i, t) in d.toks.iter().enumerate() {
            if t.is_word() {
                voc.insert(t.lit.to_uppercase());
            }
            let up = |k: usize| d.toks[k].lit.to_uppercase();
            if i == 1 {
                ok.insert((up(0), up(1)));
            }
            if i >= 1 {
                if up(i - 1) == "|>" {
                    ok.insert(("|>".into(), up(i)));
                }
                if up(0) == "MERGE" && up(i - 1) == "THEN" {
                    ok.insert(("THEN".into(), up(i)));
                }
            }
        }
    }
    voc.insert("FOO".into());
    voc.insert("`Q`".into());
    voc.insert("1".into());
    voc.insert("'S'".into());
    voc.insert("=".into());
    let mut bad: Vec<(String, &'static str)> = vec![];
    for w in &voc {
        let has = |a: &str| ok.contains(&(a.to_string(), w.clone()));
        // attributes of a known object: the object itself must follow
        let attr = ["OR", "TEMP", "TEMPORARY", "IF"].contains(&&w[..]);
        if !has("CREATE") && !attr {
            bad.push((format!("CREATE {} x", w), "unknown object after CREATE"));
            bad.push((format!("CREATE {} x AS SELECT 1", w), "unknown object after CREATE"));
            bad.push((format!("CREATE OR REPLACE {} x OPTIONS ( a = 1 )", w), "unknown object after CREATE"));
        }
        if !has("ALTER") && !attr && w != "COLUMN" {
            bad.push((format!("ALTER {} x SET OPTIONS ( a = 1 )", w), "unknown object after ALTER"));
            bad.push((format!("ALTER {} IF EXISTS x RENAME TO y", w), "unknown object after ALTER"));
        }
        if !has("|>") {
            bad.push((format!("FROM t |> {} x", w), "unknown pipe operator"));
            bad.push((format!("FROM t |> WHERE c |> {} x AS y", w), "unknown pipe operator"));
            bad.push((format!("SELECT ( SELECT 1 |> {} x )", w), "unknown pipe operator"));
        }
        if !has("THEN") {
            bad.push((format!("MERGE t USING s ON c WHEN MATCHED THEN {} x", w), "unknown MERGE action"));
            bad.push((
                format!("MERGE t USING s ON c WHEN MATCHED THEN DELETE WHEN NOT MATCHED THEN {} ( x )", w),
                "unknown MERGE action",
            ));
        }
        if !CONT.contains(&&w[..]) {
            // a WITH query that is followed by something else than its closing parenthesis
            bad.push((format!("WITH a AS ( SELECT 1 LIMIT 1 {} SELECT 2", w), "missing ) of a WITH query"));
        }
        if !["IN", "LIKE", "BETWEEN", "NULL", "ENFORCED"].contains(&&w[..]) {
            bad.push((format!("SELECT c NOT {}", w), "dangling NOT"));
            bad.push((format!("SELECT c NOT {} , d FROM t", w), "dangling NOT"));
            bad.push((format!("SELECT 1 FROM t WHERE a = b NOT {} ( 1 )", w), "dangling NOT"));
        }
    }
    for (a, z) in [
        ("BEGIN SELECT 1 ; END", ""),
        ("LOOP SELECT 1 ; END LOOP", ""),
        ("REPEAT SELECT 1 ; UNTIL c END REPEAT", ""),
        ("WHILE c DO SELECT 1 ; END WHILE", ""),
        ("FOR r IN ( SELECT 1 ) DO SELECT 1 ; END FOR", ""),
    ] {
        bad.push((format!("l1 : l2 : {} {}", a, z), "doubly labelled statement"));
        bad.push((format!("l1 : l1 : {} l1", a), "doubly labelled statement"));
        bad.push((format!("l1 : l2 : l3 : {} {}", a, z), "doubly labelled statement"));
    }
    ctx.note("unrecognized forms", json!(bad.len()));
    ctx.run(bad, |w, (s, what), _| {
        w.states += 1;
        w.count(what);
        for (pre, post, line) in [("", "", 1u64), ("", " ;", 1), ("SELECT 1 ;\n", " ;\nSELECT 2 ;", 2), ("BEGIN\n", " ;\nEND ;", 2)] {
            let t = format!("{}{}{}", pre, s, post);
            w.transitions += 1;
            match w.parse(&t) {
                Out::Err { line: l, col, msg } => {
                    // a token of the offending statement; or the end of input if no other statement follows
                    let eof = l == MAXPOS && col == MAXPOS;
                    if !(l == line || eof && line == 1) {
                        w.violation(&t, format!("{}: rejected outside the statement, at {}:{} ({})", what, l, col, msg));
                    }
                }
                o => w.violation(&t, format!("{}: {}", what, o.brief())),
            }
        }
    });
}
/// symbols, operators and keywords that are always followed by something
const OPEN: [&str; 70] = [
    "+", "-", "/", "||", "<<", ">>", "&", "^", "|", "=", "<", "<=", ">=", "!=", "<>", ".", "=>", "|>", "(", "[", ":", "~",
    "SELECT", "FROM", "WHERE", "BY", "AS", "AND", "OR", "NOT", "IN", "LIKE", "BETWEEN", "IS", "JOIN", "ON", "HAVING",
    "QUALIFY", "LIMIT", "INTO", "WHEN", "THEN", "ELSE", "CASE", "UNION", "INTERSECT", "CREATE", "ALTER", "DROP", "UPDATE",
    "INSERT", "MERGE", "GROUP", "ORDER", "PARTITION", "OVER", "DECLARE", "VIEW", "FUNCTION", "SCHEMA", "PROCEDURE",
    "RENAME", "COLUMN", "GRANT", "REVOKE", "EXECUTE", "ASSERT", "CALL", "TRUNCATE", "TO",
];
/// words that continue the expression or query before them
const CONT: [&str; 18] = [
    "SELECT", "IN", "BETWEEN", "LIKE", "IS", "AND", "OR", "NOT", "UNION", "INTERSECT", "EXCEPT", "LEFT", "FULL", "INNER", "OUTER", "=",
    "OFFSET", "CORRESPONDING",
];
fn due(depth: i32, last: &str, next: &str) -> bool {
    if matches!(next, ")" | "]") {
        return true;
    }
    if next == "END" {
        return last != "BEGIN";
    }
    depth == 0 && OPEN.contains(&&last.to_uppercase()[..])
}
fn cut(w: &mut Worker, t: &str) {
    match w.parse(t) {
        Out::Err { line, col, msg } => {
            if line != MAXPOS || col != MAXPOS {
                w.violation(t, format!("cut off text: rejected at {}:{} instead of the end of input ({})", line, col, msg));
            }
        }
        o => w.violation(t, format!("cut off text: {}", o.brief())),
    }
}
