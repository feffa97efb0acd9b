//! C18: sequences of statements and statement lists of blocks.
use crate::corpus::*;
use crate::engine::{Ctx, Worker};
use crate::explore::*;
use crate::gram::{ddl, script, Deriv, GTok, E, G};
use crate::gramchecks::*;
use crate::mutants::derivations;
use crate::sut::{Child, Out, Tok, Tree};
use serde_json::json;

/// statements with a semicolon, at most `b` deviations each
pub fn statements(b: u8) -> Vec<Deriv> {
    let r = |name, f: fn(&mut G) -> E| Root { name, f, bound: b, rich: false, long: 9 };
    let mut v = derivations(&[
        r("query", r_query),
        r("FROM", r_from),
        r("pipe", r_pipe),
        r("DDL/DCL", ddl::ddl),
        r("DML/script", script::script),
    ]);
    v.retain(|d| d.toks.last().map_or(false, |t| t.lit == ";"));
    v.dedup_by(|a, b| a.toks == b.toks);
    v
}
fn shift(t: &Tree, by: u64) -> Tree {
    Tree {
        kind: t.kind.clone(),
        tok: t.tok.as_ref().map(|k| Tok {
            line: k.line + by,
            ..k.clone()
        }),
        ch: t
            .ch
            .iter()
            .map(|(n, c)| {
                (
                    n.clone(),
                    match c {
                        Child::One(x) => Child::One(shift(x, by)),
                        Child::Many(v) => Child::Many(v.iter().map(|x| shift(x, by)).collect()),
                    },
                )
            })
            .collect(),
    }
}
struct Alone {
    toks: Vec<GTok>,
    /// token indices as positions; without the end-of-input node
    tree: Vec<Tree>,
}
fn alone(ctx: &Ctx, ds: Vec<Deriv>) -> Vec<Alone> {
    let out = std::sync::Mutex::new(vec![]);
    ctx.run(ds.into_iter().enumerate().collect(), |w, (i, d), _| {
        let t = spaced(&d.toks);
        w.states += 1;
        match w.parse(&t.s) {
            Out::Ok(ts) => match norm_all(&ts[..ts.len().saturating_sub(1)], &t.toks) {
                Ok(tree) => out.lock().unwrap().push((i, Alone { toks: d.toks, tree })),
                Err(m) => w.violation(&t.s, m),
            },
            _ => w.count("not accepted alone"),
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
fn check(w: &mut Worker, parts: &[&Alone], sep: &str, last_semi: bool) {
    let mut toks: Vec<GTok> = vec![];
    let mut want: Vec<Tree> = vec![];
    let mut starts = vec![];
    for p in parts {
        starts.push(toks.len());
        want.extend(p.tree.iter().map(|t| shift(t, toks.len() as u64)));
        toks.extend(p.toks.iter().cloned());
    }
    w.transitions += 1;
    if !last_semi {
        toks.pop();
        // the last statement loses exactly its semicolon child
        if let Some(t) = want.last_mut() {
            let k = t.ch.iter().position(|(n, _)| n == "semicolon");
            match k {
                Some(k) => {
                    t.ch.remove(k);
                }
                None => return, // the semicolon is not a child of the statement itself
            }
        }
    }
    let t = render(&toks, |i| {
        if i == 0 || i == toks.len() || toks[i].glue {
            String::new()
        } else if starts.contains(&i) {
            sep.into()
        } else {
            " ".into()
        }
    });
    w.sample(|| json!({"text": t.s}));
    match w.parse(&t.s) {
        Out::Ok(ts) => {
            if ts.last().map_or(true, |t| t.kind != "EOF") {
                w.violation(&t.s, "the list does not end with the end-of-input node".into());
                return;
            }
            match norm_all(&ts[..ts.len() - 1], &t.toks) {
                Ok(got) => {
                    if let Some(m) = ldiff(&want, &got) {
                        w.violation(&t.s, format!("not the concatenation of the statements: {}", m));
                    }
                }
                Err(m) => w.violation(&t.s, m),
            }
        }
        o => w.violation(&t.s, format!("each statement alone is accepted, the sequence is {}", o.brief())),
    }
}
const BLOCKS: [(&str, &str); 10] = [
    ("BEGIN", "END ;"),
    ("BEGIN SELECT 1 ; EXCEPTION WHEN ERROR THEN", "END ;"),
    ("IF c THEN", "END IF ;"),
    ("IF c THEN SELECT 1 ; ELSE", "END IF ;"),
    ("IF c THEN SELECT 1 ; ELSEIF d THEN", "ELSE SELECT 2 ; END IF ;"),
    ("LOOP", "END LOOP ;"),
    ("REPEAT", "UNTIL c END REPEAT ;"),
    ("WHILE c DO", "END WHILE ;"),
    ("FOR c IN ( SELECT 1 ) DO", "END FOR ;"),
    ("CASE WHEN c THEN", "END CASE ;"),
];
/// lists of nodes named stmts, by path
fn find_list<'a>(t: &'a Tree, first: u64, out: &mut Option<&'a Vec<Tree>>) {
    for (n, c) in &t.ch {
        match c {
            Child::One(x) => find_list(x, first, out),
            Child::Many(v) => {
                if n == "stmts" && v.first().map_or(false, |x| leftmost(x) == first) {
                    *out = Some(v);
                    return;
                }
                v.iter().for_each(|x| find_list(x, first, out));
            }
        }
    }
}
fn leftmost(t: &Tree) -> u64 {
    let mut v = vec![];
    t.tokens(&mut v);
    v.iter().map(|t| t.line).min().unwrap_or(0)
}
fn in_block(w: &mut Worker, parts: &[&Alone], b: usize) {
    let tk = |s: &str| GTok {
        lit: s.into(),
        glue: false,
        apart: false,
    };
    let (h, e) = BLOCKS[b];
    let mut toks: Vec<GTok> = h.split(' ').map(tk).collect();
    let first = toks.len();
    let mut want = vec![];
    for p in parts {
        want.extend(p.tree.iter().map(|t| shift(t, toks.len() as u64)));
        toks.extend(p.toks.iter().cloned());
    }
    toks.extend(e.split(' ').map(tk));
    w.transitions += 1;
    let t = spaced(&toks);
    match w.parse(&t.s) {
        Out::Ok(ts) => {
            if ts.len() != 2 {
                w.violation(&t.s, format!("one block should be one statement, is {}", ts.len() as i64 - 1));
                return;
            }
            match norm(&ts[0], &t.toks) {
                Ok(got) => {
                    let mut l = None;
                    find_list(&got, first as u64 + 1, &mut l);
                    match l {
                        None => w.violation(&t.s, "no statement list where the block starts".into()),
                        Some(v) => {
                            if let Some(m) = ldiff(&want, v) {
                                w.violation(&t.s, format!("the block's list is not the statements in order: {}", m));
                            }
                        }
                    }
                }
                Err(m) => w.violation(&t.s, m),
            }
        }
        o => w.violation(&t.s, format!("each statement alone is accepted, the block is {}", o.brief())),
    }
}
pub fn run(ctx: &Ctx) {
    let s0 = alone(ctx, statements(0));
    let s1 = alone(ctx, statements(1));
    ctx.note("statements", json!({"no deviation": s0.len(), "one deviation": s1.len()}));
    if ctx.stopped() {
        return;
    }
    // single statement without semicolon, pairs around a plain one, blocks
    ctx.run((0..s1.len()).collect::<Vec<_>>(), |w, i, _| {
        let a = &s1[i];
        check(w, &[a], "\n", false);
        for b in &s0 {
            for sep in ["\n", " "] {
                check(w, &[a, b], sep, true);
                check(w, &[b, a], sep, true);
            }
            check(w, &[b, a], "\n", false);
        }
        for k in 0..BLOCKS.len() {
            in_block(w, &[a], k);
            in_block(w, &[a, &s0[0]], k);
            in_block(w, &[&s0[0], a], k);
        }
    });
    if ctx.stopped() {
        return;
    }
    // all triples, and all pairs in blocks
    let n = s0.len();
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
    ctx.run(pairs, |w, (a, b), _| {
        for c in &s0 {
            check(w, &[&s0[a], &s0[b], c], "\n", true);
        }
        for k in 0..BLOCKS.len() {
            in_block(w, &[&s0[a], &s0[b]], k);
        }
    });
    // long sequences: each statement repeated, each pair alternating, all statements in one text
    if ctx.stopped() {
        return;
    }
    let sizes = [3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300];
    ctx.run((0..n).collect::<Vec<_>>(), |w, a, _| {
        for k in sizes {
            let v = vec![&s0[a]; k];
            check(w, &v, "\n", true);
            check(w, &v, " ", true);
            if k < 20 {
                for b in 0..BLOCKS.len() {
                    in_block(w, &v, b);
                }
            }
        }
        for b in 0..n {
            let v: Vec<&Alone> = (0..9).map(|i| if i % 2 == 0 { &s0[a] } else { &s0[b] }).collect();
            check(w, &v, "\n", true);
            check(w, &v[..8], " ", true);
        }
        // every statement, starting with each
        let v: Vec<&Alone> = (0..n).map(|i| &s0[(a + i) % n]).collect();
        check(w, &v, "\n", true);
        for b in 0..BLOCKS.len() {
            in_block(w, &v, b);
        }
    });
    if ctx.stopped() {
        return;
    }
    ctx.run((0..s1.len()).collect::<Vec<_>>(), |w, a, _| {
        for k in [3, 4, 9] {
            check(w, &vec![&s1[a]; k], "\n", true);
        }
        in_block(w, &[&s1[a], &s1[a], &s1[a]], a % BLOCKS.len());
        // far down in the text
        check(w, &[&s0[0], &s1[a]], &"\n".repeat(300), true);
        let mut v = vec![&s0[a % n]; 20];
        v.push(&s1[a]);
        v.push(&s0[(a + 1) % n]);
        check(w, &v, "\n", true);
    });
    if ctx.thorough && !ctx.stopped() {
        ctx.run((0..s1.len()).collect::<Vec<_>>(), |w, i, _| {
            for b in &s1 {
                check(w, &[&s1[i], b], "\n", true);
            }
        });
    }
}

/// Texts that leave the tokenizer and the parser in every kind of state (for C21), one JSON
/// string per line: every default statement, each of its prefixes, and each unfinished or odd
/// token after each opening of a construct.
pub fn dump(thorough: bool) {
    use std::collections::BTreeSet;
    let mut out: BTreeSet<String> = BTreeSet::new();
    let mut rs = all(thorough as u8);
    rs.extend(rich(0));
    for d in derivations(&rs) {
        out.insert(spaced(&d.toks).s);
        for i in 1..d.toks.len() {
            out.insert(spaced(&d.toks[..i]).s);
        }
    }
    let open = [
        "", "SELECT ", "SELECT ARRAY<", "SELECT STRUCT<", "SELECT STRUCT<ARRAY<", "SELECT ARRAY<STRUCT<a ", "SELECT CAST(a AS ARRAY<", "SELECT (", "SELECT [",
        "SELECT a.", "SELECT a[", "SELECT CASE ", "SELECT a FROM ", "SELECT a FROM x-", "SELECT a FROM (", "FROM t |> ", "BEGIN ", "BEGIN SELECT 1; ", "l: BEGIN ",
        "l: BEGIN SELECT 1; END ", "IF a THEN ", "CREATE TABLE t (", "CREATE TABLE t (a ", "CREATE TABLE t (a ARRAY<", "DECLARE x ", "DECLARE x ARRAY<", "WITH a AS (",
        "SELECT f(", "SELECT f(a) OVER (", "-- c\n", "/* c */ ", "SELECT 1; ", "SELECT @", "SELECT -", "SELECT a <", "SELECT a >", "SELECT RANGE<",
    ];
    let last = [
        "", "'", "\"", "'''", "\"\"\"", "`", "/*", "/* c", "--", "#", "{", "{{", "{%", "{#", "@", "@@", "1", "1e", ".", "1.", "r'", "b\"", "'a\\", "'a\n", "<", "<<", ">", ">>",
        "-", "|", "|>", "é", "日", "\u{0}", "\u{feff}", "\u{3000}", "\\", "$", ":", ";", "(", ")", "[", "]", "}", "x", "END", "SELECT", "ARRAY<", "STRUCT<", "NOT", "a-b", "a-",
        "\n", "\r\n", "\t",
    ];
    for o in open {
        for l in last {
            out.insert(format!("{}{}", o, l));
        }
    }
    for t in out {
        println!("{}", serde_json::to_string(&t).unwrap());
    }
}
