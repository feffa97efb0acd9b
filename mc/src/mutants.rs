//! C05: ill-formed neighbourhoods of the grammar, and all short token sequences.
use crate::corpus::*;
use crate::engine::{Ctx, Worker};
use crate::explore::*;
use crate::gram::{Deriv, GTok, E, EC, G};
use crate::sut::{Out, MAXPOS};
use serde_json::json;
use std::collections::BTreeSet;

/// Every derivation of the roots, sequentially (for vocabularies and products).
pub fn derivations(roots: &[Root]) -> Vec<Deriv> {
    let out = std::sync::Mutex::new(vec![]);
    let ctx = Ctx::new("-", false);
    explore(&ctx, roots, |_, _, d| out.lock().unwrap().push(d.clone()));
    let mut v = out.into_inner().unwrap();
    v.sort_by(|a, b| {
        let f = |d: &Deriv| d.toks.iter().map(|t| t.lit.clone()).collect::<Vec<_>>();
        (a.toks.len(), f(a)).cmp(&(b.toks.len(), f(b)))
    });
    v
}
pub const PROBES: [&str; 52] = [
    "(", ")", "[", "]", "<", ">", ",", ".", ";", ":", "=", "=>", "->", "|>", "+", "-", "*", "@p", "?", "@@s", "{{t}}", "1", "'s'", "`q`", "c",
    "SELECT", "FROM", "WITH", "AS", "NOT", "NULL", "END", "BEGIN", "IF", "CASE", "ON", "UNION", "SET", "TABLE",
    "ARRAY", "STRUCT", "WHERE", "GROUP", "BY", "JOIN", "WHEN", "DEFAULT", "OPTIONS", "IN", "EXCEPT", "DATE", "OVER",
];
/// every derivation with one token cut, deleted, doubled, swapped, replaced or inserted
pub fn explore_mutants(ctx: &Ctx, f: impl Fn(&mut Worker, &str) + Sync) {
    let x = ctx.thorough as u8;
    let tk = |s: &str| GTok {
        lit: s.into(),
        glue: false,
        apart: false,
    };
    let go = |w: &mut Worker, toks: &[GTok]| {
        w.transitions += 1;
        let t = spaced(toks);
        f(w, &t.s);
    };
    // structural mutations
    let mut rs = all(1 + x);
    rs.extend(nests());
    explore(ctx, &rs, |w, r, d| {
        w.count(r.name);
        let n = d.toks.len();
        w.sample(|| json!({"mutants of": spaced(&d.toks).s}));
        for i in 0..n {
            go(w, &d.toks[..i]);
            go(w, &d.toks[i..]);
            let mut v = d.toks.clone();
            v.remove(i);
            go(w, &v);
            let mut v = d.toks.clone();
            v.insert(i, d.toks[i].clone());
            go(w, &v);
            if i + 1 < n {
                let mut v = d.toks.clone();
                v.swap(i, i + 1);
                go(w, &v);
                let mut v = d.toks.clone();
                v.drain(i..i + 2);
                go(w, &v);
            }
            if i + 2 < n {
                let mut v = d.toks.clone();
                v.swap(i, i + 2);
                go(w, &v);
            }
        }
    });
    if ctx.stopped() {
        return;
    }
    // foreign tokens
    explore(ctx, &all(x), |w, _, d| {
        let n = d.toks.len();
        for i in 0..=n {
            for p in PROBES {
                let mut v = d.toks.clone();
                v.insert(i, tk(p));
                go(w, &v);
                if i < n {
                    let mut v = d.toks.clone();
                    v[i] = tk(p);
                    go(w, &v);
                    // cut after the foreign token
                    v.truncate(i + 1);
                    go(w, &v);
                }
            }
        }
    });
}
/// token runs of the subtrees (and list children) of the expected trees, one per beginning
fn phrases(bound: u8, max: usize) -> Vec<Vec<GTok>> {
    fn span(e: &E, f: &mut dyn FnMut(usize, usize)) -> Option<(usize, usize)> {
        let mut r: Option<(usize, usize)> = e.tok.map(|t| (t, t));
        let mut add = |r: &mut Option<(usize, usize)>, s: Option<(usize, usize)>| {
            if let Some((a, b)) = s {
                *r = Some(r.map_or((a, b), |(x, y)| (x.min(a), y.max(b))));
            }
        };
        for (_, c) in &e.ch {
            match c {
                EC::One(x) => add(&mut r, span(x, f)),
                EC::Many(v) => {
                    let mut l = None;
                    for x in v {
                        add(&mut l, span(x, f));
                    }
                    if let Some((a, b)) = l {
                        f(a, b);
                    }
                    add(&mut r, l);
                }
            }
        }
        if let Some((a, b)) = r {
            f(a, b);
        }
        r
    }
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    for d in derivations(&with_types(all(bound), bound + 1)) {
        for e in &d.tree {
            span(e, &mut |a, b| {
                let n = b - a + 1;
                if n < 2 || n > max {
                    return;
                }
                let ts = &d.toks[a..=b];
                // runs of words keep their identity, the rest is abbreviated
                let key: Vec<String> = ts
                    .iter()
                    .enumerate()
                    .map(|(i, t)| if i > 3 || (t.is_word() && t.lit.chars().any(|c| c.is_lowercase())) { String::new() } else { t.lit.clone() })
                    .collect();
                if seen.insert(key) {
                    out.push(ts.to_vec());
                }
            });
        }
    }
    out
}
fn with_types(mut rs: Vec<Root>, bound: u8) -> Vec<Root> {
    for r in &mut rs {
        if r.name == "type" || r.name == "column" {
            r.bound = bound;
        }
    }
    rs
}
/// whole clauses doubled, exchanged, and inserted at every place
pub fn explore_phrases(ctx: &Ctx, f: impl Fn(&mut Worker, &str) + Sync) {
    let x = ctx.thorough as u8;
    let go = |w: &mut Worker, toks: &[GTok]| {
        w.transitions += 1;
        let t = spaced(toks);
        f(w, &t.s);
    };
    explore(ctx, &all(1 + x), |w, _, d| {
        let n = d.toks.len();
        w.count("runs doubled and exchanged");
        for i in 0..n {
            for l in 2..=7 {
                if i + l > n {
                    break;
                }
                let mut v = d.toks[..i + l].to_vec();
                v.extend_from_slice(&d.toks[i..]);
                go(w, &v);
                if l > 4 {
                    continue;
                }
                for m in 1..=4 {
                    if i + l + m > n {
                        break;
                    }
                    let mut v = d.toks[..i].to_vec();
                    v.extend_from_slice(&d.toks[i + l..i + l + m]);
                    v.extend_from_slice(&d.toks[i..i + l]);
                    v.extend_from_slice(&d.toks[i + l + m..]);
                    go(w, &v);
                }
            }
        }
    });
    if ctx.stopped() {
        return;
    }
    let ph = phrases(1, 6);
    ctx.note("phrases", json!(ph.len()));
    let rs = with_types(all(x), 2);
    explore(ctx, &rs, |w, _, d| {
        let n = d.toks.len();
        for i in 1..=n {
            if i < n && d.toks[i].glue {
                continue;
            }
            for p in &ph {
                let mut v = d.toks[..i].to_vec();
                v.extend_from_slice(p);
                v.extend_from_slice(&d.toks[i..]);
                go(w, &v);
            }
        }
    });
}
pub fn vocabulary(bound: u8) -> Vec<String> {
    let mut s = BTreeSet::new();
    for d in derivations(&all(bound)) {
        for t in d.toks {
            s.insert(t.lit);
        }
    }
    for p in PROBES {
        s.insert(p.into());
    }
    s.into_iter().collect()
}
const CORE: [&str; 44] = [
    "(", ")", "[", "]", "<", ">", ",", ".", ";", ":", "=", "=>", "|>", "-", "*", "@p", "1", "'s'", "c", "SELECT", "FROM", "WITH",
    "AS", "NOT", "NULL", "END", "BEGIN", "IF", "CASE", "ON", "UNION", "SET", "TABLE", "ARRAY", "STRUCT", "CREATE", "ALTER", "JOIN",
    "INSERT", "MERGE", "FOR", "EXISTS", "EXCEPT", "BETWEEN",
];
/// every sequence of up to 2 words of the whole vocabulary, of up to 3 (4) core words
pub fn explore_words(ctx: &Ctx, f: impl Fn(&mut Worker, &str) + Sync) {
    let voc = vocabulary(1);
    ctx.note("vocabulary", json!(voc.len()));
    let idx: Vec<usize> = (0..voc.len()).collect();
    ctx.run(idx, |w, i, _| {
        w.states += 1;
        f(w, &voc[i]);
        for b in &voc {
            w.transitions += 1;
            f(w, &format!("{} {}", voc[i], b));
            if voc[i].chars().all(|c| c.is_alphanumeric()) != b.chars().all(|c| c.is_alphanumeric()) {
                f(w, &format!("{}{}", voc[i], b));
            }
        }
    });
    if ctx.stopped() {
        return;
    }
    let pairs: Vec<(usize, usize)> = (0..CORE.len()).flat_map(|a| (0..CORE.len()).map(move |b| (a, b))).collect();
    ctx.run(pairs, |w, (a, b), _| {
        w.states += 1;
        for c in CORE {
            w.transitions += 1;
            let s = format!("{} {} {}", CORE[a], CORE[b], c);
            f(w, &s);
            if ctx.thorough {
                for d in CORE {
                    w.transitions += 1;
                    f(w, &format!("{} {}", s, d));
                }
            }
        }
    });
}

/// the call answers, and an error stands at a token or at the end
pub fn answers(w: &mut Worker, s: &str) {
    match w.parse(s) {
        Out::Ok(_) => w.count("accepted"),
        Out::Panic(m) => w.violation(s, format!("the parser crashes: {}", m)),
        Out::Err { line, col, msg } => {
            w.count("rejected");
            if line == MAXPOS && col == MAXPOS {
                return;
            }
            match w.tokenize(s) {
                Out::Ok(ts) => {
                    if !ts.iter().any(|t| t.line == line && t.col == col) {
                        w.violation(s, format!("the error stands at {}:{}, where no token starts ({})", line, col, msg));
                    }
                }
                _ => w.count("not tokenizable"),
            }
        }
    }
}
/// nesting: each bracket pair and block pumped, closed and unclosed
fn pumped(ctx: &Ctx) {
    let mut items: Vec<String> = vec![];
    let pairs: [(&str, &str, &str, &str); 22] = [
        ("SELECT ", "(", "1", ")"),
        ("SELECT ", "[", "1", "]"),
        ("SELECT ", "f(", "1", ")"),
        ("SELECT ", "(SELECT ", "1", ")"),
        ("SELECT ", "CASE WHEN ", "1", " THEN 1 END"),
        ("SELECT ", "NOT ", "1", ""),
        ("SELECT ", "- ", "1", ""),
        ("SELECT 1 ", "+ 1 ", "", ""),
        ("SELECT a ", "AND a ", "", ""),
        ("SELECT a", ".b", "", ""),
        ("SELECT a", "[0]", "", ""),
        ("SELECT ", "STRUCT(", "1", ")"),
        ("SELECT CAST(1 AS ", "ARRAY<", "INT64", "> )"),
        ("SELECT 1 FROM ", "(SELECT 1 FROM ", "t", ")"),
        ("SELECT 1 FROM t ", "JOIN t USING(a) ", "", ""),
        ("", "(", "SELECT 1", ")"),
        ("SELECT 1 ", "UNION ALL SELECT 1 ", "", ""),
        ("FROM t ", "|> WHERE a ", "", ""),
        ("", "BEGIN ", "SELECT 1;", " END;"),
        ("", "IF a THEN ", "SELECT 1;", " END IF;"),
        ("", "LOOP ", "SELECT 1;", " END LOOP;"),
        ("", "SELECT 1;", "", ""),
    ];
    for (a, o, m, c) in pairs {
        for k in [1, 2, 3, 4, 5, 8, 16, 32, 64, 100] {
            let open = format!("{}{}", a, o.repeat(k));
            items.push(format!("{}{}{}", open, m, c.repeat(k)));
            items.push(format!("{}{}", open, m));
            items.push(open.clone());
            items.push(format!("{}{}{}", open, m, c.repeat(k - 1)));
            items.push(format!("{}{}{}", open, m, c.repeat(k + 1)));
            items.push(c.repeat(k));
        }
    }
    ctx.run(items, |w, s, _| {
        w.states += 1;
        w.count("pumped");
        answers(w, &s);
    });
}
/// a layout of a token list without glued tokens: a line per token, comments around each, or the whole text far down
pub fn laid_out(toks: &[GTok], mode: usize) -> String {
    let (before, after): (&str, &str) = match mode {
        0 => ("", "\n"),
        1 => ("/* é\n */ -- x\n", " # ñ\n"),
        2 => ("", "/*;*/"),
        _ => ("", "\r\n\t\u{3000}"),
    };
    let mut s = match mode {
        4 => "\n".repeat(65536),
        5 => " ".repeat(65536),
        _ => String::new(),
    };
    for t in toks {
        s.push_str(before);
        s.push_str(&t.lit);
        if mode < 4 {
            s.push(' ');
            s.push_str(after);
        }
        s.push(' ');
    }
    s
}
/// ill-formed texts over several lines, among comments, and far down in the text
fn layouts(ctx: &Ctx) {
    let x = ctx.thorough as u8;
    let go = |w: &mut Worker, v: &[GTok], modes: &[usize]| {
        w.transitions += 1;
        for m in modes {
            answers(w, &laid_out(v, *m));
        }
    };
    for (b, modes) in [(1 + x, &[0usize, 1, 2, 3][..]), (x, &[4, 5])] {
        explore(ctx, &all(b), |w, _, d| {
            w.count(if b == x { "far down" } else { "laid out" });
            let n = d.toks.len();
            // a glued token is part of the one before it
            if d.toks.iter().any(|t| t.glue) {
                w.count("glued");
                return;
            }
            for i in 0..n {
                go(w, &d.toks[..i], modes);
                let mut v = d.toks.clone();
                v.remove(i);
                go(w, &v, modes);
                if b == x {
                    continue;
                }
                let mut v = d.toks.clone();
                v.insert(i, d.toks[i].clone());
                go(w, &v, modes);
                if i + 1 < n {
                    let mut v = d.toks.clone();
                    v.swap(i, i + 1);
                    go(w, &v, modes);
                }
            }
        });
        if ctx.stopped() {
            return;
        }
    }
}
pub fn c05(ctx: &Ctx) {
    pumped(ctx);
    if !ctx.stopped() {
        layouts(ctx);
    }
    if !ctx.stopped() {
        explore_words(ctx, answers);
    }
    if !ctx.stopped() {
        explore_mutants(ctx, answers);
    }
    if !ctx.stopped() {
        explore_phrases(ctx, answers);
    }
}
#[allow(dead_code)]
fn _u(_: &G) {}
