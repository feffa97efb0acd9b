//! C06–C11: properties of every parse, checked on every derivation of the reference grammar
//! within the bound and on every text of a finite neighbourhood of it (comments, gaps, case).
use crate::corpus::*;
use crate::engine::{Ctx, Worker};
use crate::explore::*;
use crate::gram::{Deriv, GTok};
use crate::gramchecks::self_check;
use crate::lexmodel;
use crate::sut::{Child, Out, Tok, Tree};
use serde_json::json;

/// ordinary parse of the derivation; None when it is not accepted (C13–C17 decide that)
fn base(w: &mut Worker, t: &Text) -> Option<Vec<Tree>> {
    match w.parse(&t.s) {
        Out::Ok(ts) => Some(ts),
        _ => {
            w.count("base text not accepted");
            None
        }
    }
}
fn show(t: &[Tok]) -> String {
    t.iter().map(|t| format!("{:?}@{}:{}", t.lit, t.line, t.col)).collect::<Vec<_>>().join(" ")
}

// ----- C06 -----
/// the tokens of the tree are exactly the tokens of the text
pub fn complete(ts: &[Tree], toks: &[Tok]) -> Option<String> {
    let mut v = vec![];
    for t in ts {
        t.tokens(&mut v);
    }
    let mut got: Vec<Tok> = v.into_iter().cloned().collect();
    got.sort();
    let mut want: Vec<Tok> = toks.iter().filter(|t| !t.is_eof()).cloned().collect();
    want.sort();
    if got == want {
        return None;
    }
    for t in &want {
        let k = got.iter().filter(|x| *x == t).count();
        if k == 0 {
            return Some(format!("token {:?} at {}:{} is not in the tree", t.lit, t.line, t.col));
        }
        if k > 1 {
            return Some(format!("token {:?} at {}:{} is in the tree {} times", t.lit, t.line, t.col, k));
        }
    }
    let extra: Vec<Tok> = got.into_iter().filter(|t| !want.contains(t)).collect();
    Some(format!("the tree holds tokens that are not in the text: {}", show(&extra)))
}
pub fn check_complete(w: &mut Worker, s: &str) {
    let toks = match w.tokenize(s) {
        Out::Ok(t) => t,
        _ => return,
    };
    if let Out::Ok(ts) = w.parse(s) {
        w.count("accepted");
        if let Some(m) = complete(&ts, &toks) {
            w.violation(s, m);
        }
    }
}
/// a comment of a form in every gap at once
pub fn all_comments(toks: &[GTok], form: usize) -> CText {
    let mut k = 0;
    render_c(toks, |i| {
        if !gap_ok(toks, i) {
            return vec![];
        }
        k += 1;
        let f = if form == 4 { i % 4 } else { form };
        match f {
            0 => vec![w(" "), c(&format!("/*{}*/", k)), w(" ")],
            1 => vec![w(" "), c(&format!("--{}", k)), w("\n")],
            2 => vec![w("\n"), c(&format!("#{}", k)), w("\n")],
            _ => vec![w("\n"), c(&format!("/*{}*/", k)), w(" "), c(&format!("/*+{}\n*/", k)), w("\n")],
        }
    })
}
pub const GAPS: usize = 10;
pub fn gap_form(f: usize) -> Vec<P> {
    match f {
        0 => vec![w(" "), c("/*c*/"), w(" ")],
        1 => vec![w(" "), c("--c"), w("\n")],
        2 => vec![w("\n"), c("# c"), w("\n")],
        3 => vec![w("\n"), c("/*c*/"), w(" ")],
        4 => vec![w(" "), c("/*a\nb*/"), w(" ")],
        5 => vec![w(" "), c("/*a*/"), w(" "), c("/*b*/"), w(" ")],
        6 => vec![w(" "), c("--a"), w("\n"), c("--b"), w("\n")],
        7 => vec![w(" "), c("/*a\n*/"), w(" "), c("/*b*/"), w(" ")],
        8 => vec![w(" "), c("/*a\n*/"), w(" "), c("#b"), w("\n\n"), c("--c"), w("\n")],
        _ => vec![w("\n\n"), c("/*a*/"), c("/*b*/"), w("\n"), c("#c"), w("\n")],
    }
}
/// comment texts that look like something else
const ODD: [&str; 26] = [
    "/**/", "/***/", "/*/*/", "/* */", "/*;*/", "/*(*/", "/*)*/", "/*'*/", "/*--*/", "/*#*/", "/*+ h */", "/*SELECT*/", "/*é日*/", "/*\n\n*/", "/*\r\n*/",
    "--", "-- ;", "--'", "--/*", "---", "--SELECT", "#", "##", "#/*", "#'", "# é",
];
fn odd_gap(k: usize, lead: bool) -> Vec<P> {
    let t = ODD[k];
    let end = if t.starts_with("/*") { " " } else { "\n" };
    vec![w(if lead { "\n" } else { " " }), c(t), w(end)]
}
/// gaps of boundary sizes: (comment before, size, kind)
const FAR: [usize; 6] = [9, 100, 255, 256, 257, 300];
fn far_gap(n: usize, f: usize) -> Vec<P> {
    let nl = "\n".repeat(n);
    match f {
        0 => vec![w(" "), c("/*a*/"), w(&nl), c("/*b*/"), w(" ")],
        1 => vec![w(&nl), c("/*a*/"), w(" ")],
        2 => vec![w(" "), c(&format!("/*{}*/", nl)), w(" "), c("--b"), w("\n")],
        3 => vec![w(&" ".repeat(n)), c("/*a*/"), w(" "), c("--b"), w(&nl)],
        4 => {
            let mut v = vec![w(" ")];
            for i in 0..n {
                v.push(c(&format!("/*{}*/", i)));
            }
            v.push(w(" "));
            v
        }
        5 => {
            let mut v = vec![w(" ")];
            for i in 0..n {
                v.push(c(&format!("--{}", i)));
                v.push(w("\n"));
            }
            v
        }
        _ => vec![w(" "), c(&format!("/*{}*/", "x".repeat(n))), w(" "), c(&format!("#{}", " y".repeat(n))), w("\n"), c("--"), w("\n")],
    }
}
/// every gap of every statement without deviations x odd comments and gaps of boundary sizes
fn odd_and_far(ctx: &Ctx, f: impl Fn(&mut Worker, &[GTok], &Result<Vec<Tree>, (u64, u64)>, &CText) + Sync) {
    let x = ctx.thorough as u8;
    let mut rs = all(x);
    rs.extend(rich(0));
    explore(ctx, &rs, |w, _, d| {
        let a = norm0(w, &spaced(&d.toks));
        let n = d.toks.len();
        let at = |i: usize, g: &dyn Fn() -> Vec<P>| render_c(&d.toks, |k| if k == i { g() } else { dflt(&d.toks, k) });
        for i in 0..=n {
            if !gap_ok(&d.toks, i) {
                continue;
            }
            for k in 0..ODD.len() {
                w.transitions += 1;
                f(w, &d.toks, &a, &at(i, &|| odd_gap(k, (i + k) % 2 == 0)));
            }
            for (j, s) in FAR.iter().enumerate() {
                let m = (i + j) % 7;
                w.transitions += 1;
                f(w, &d.toks, &a, &at(i, &|| far_gap(*s, m)));
            }
            if n <= 12 {
                w.transitions += 7;
                for m in 0..7 {
                    f(w, &d.toks, &a, &at(i, &|| far_gap(256, m)));
                }
            }
        }
        // the whole text far down, and every gap wide
        for (k, s) in [256, 65536].into_iter().enumerate() {
            w.transitions += 1;
            let t = render_c(&d.toks, |i| {
                if i == 0 {
                    vec![crate::corpus::w(&"\n".repeat(s - k)), c("/*a*/"), crate::corpus::w(" ")]
                } else if i == n {
                    vec![crate::corpus::w(" "), c("--z")]
                } else {
                    dflt(&d.toks, i)
                }
            });
            f(w, &d.toks, &a, &t);
        }
        for k in 0..7 {
            w.transitions += 1;
            let t = render_c(&d.toks, |i| if gap_ok(&d.toks, i) { far_gap(9, (i + k) % 7) } else { dflt(&d.toks, i) });
            f(w, &d.toks, &a, &t);
        }
    });
}
/// the derivation with one gap replaced
pub fn one_gap(toks: &[GTok], at: usize, f: usize) -> CText {
    render_c(toks, |i| if i == at { gap_form(f) } else { dflt(toks, i) })
}

pub fn c06(ctx: &Ctx) {
    let b = if ctx.thorough { 3 } else { 2 };
    explore(ctx, &both(b, b - 1), |w, r, d| {
        w.count(r.name);
        let t = spaced(&d.toks);
        w.sample(|| json!({"root": r.name, "text": t.s}));
        let one = |w: &mut Worker, t: &Text, cm: &[(Tok, usize)]| {
            if let Out::Ok(ts) = w.parse(&t.s) {
                w.count("accepted");
                let mut all: Vec<Tok> = t.toks.clone();
                all.extend(cm.iter().map(|x| x.0.clone()));
                if let Some(m) = complete(&ts, &all) {
                    w.violation(&t.s, m);
                }
            }
        };
        one(w, &t, &[]);
        for f in 0..5 {
            let t = all_comments(&d.toks, f);
            one(w, &t.t, &t.comments);
        }
    });
    if !ctx.stopped() {
        crate::mutants::explore_mutants(ctx, |w, s| check_complete(w, s));
    }
    if !ctx.stopped() {
        crate::mutants::explore_words(ctx, |w, s| check_complete(w, s));
    }
    if !ctx.stopped() {
        crate::mutants::explore_phrases(ctx, |w, s| check_complete(w, s));
    }
}

// ----- C07 -----
/// returns the (min, max) token index of the subtree; Err on a broken rule
fn span(t: &Tree, idx: &dyn Fn(&Tok) -> Option<usize>) -> Result<Option<(usize, usize, usize)>, String> {
    let mut parts: Vec<(usize, usize, usize, &str)> = vec![];
    if let Some(k) = &t.tok {
        match idx(k) {
            Some(i) => parts.push((i, i, 1, "its own token")),
            None => return Err(format!("{} holds an unknown token {:?}", t.kind, k.lit)),
        }
    }
    for (n, c) in &t.ch {
        match c {
            Child::One(x) => {
                if let Some((a, b, k)) = span(x, idx)? {
                    parts.push((a, b, k, n));
                }
            }
            Child::Many(v) => {
                let mut last = None;
                for x in v {
                    if let Some((a, b, k)) = span(x, idx)? {
                        if let Some(l) = last {
                            if a <= l {
                                return Err(format!("{}.{} is not in source order", t.kind, n));
                            }
                        }
                        last = Some(b);
                        parts.push((a, b, k, n));
                    }
                }
            }
        }
    }
    if parts.is_empty() {
        return Ok(None);
    }
    parts.sort();
    for x in parts.windows(2) {
        if x[1].0 <= x[0].1 {
            return Err(format!("{}: {} and {} interleave", t.kind, x[0].3, x[1].3));
        }
        if x[1].0 != x[0].1 + 1 {
            return Err(format!("{}: its tokens are not contiguous between {} and {}", t.kind, x[0].3, x[1].3));
        }
    }
    Ok(Some((parts[0].0, parts[parts.len() - 1].1, parts.iter().map(|p| p.2).sum())))
}
pub fn mirror(ts: &[Tree], toks: &[Tok]) -> Option<String> {
    let mut all: Vec<&Tok> = toks.iter().collect();
    all.sort();
    let idx = |t: &Tok| all.binary_search(&t).ok();
    let mut last = None;
    for (i, t) in ts.iter().enumerate() {
        if (t.kind == "EOF") != (i + 1 == ts.len()) {
            return Some("the list does not end with exactly one end-of-input node".into());
        }
        match span(t, &idx) {
            Err(m) => return Some(m),
            Ok(Some((a, b, _))) => {
                let want = last.map_or(0, |l: usize| l + 1);
                if a != want {
                    return Some("the top-level list is not in source order".into());
                }
                last = Some(b);
            }
            Ok(None) => (),
        }
    }
    if ts.is_empty() {
        return Some("no end-of-input node".into());
    }
    None
}
pub fn c07(ctx: &Ctx) {
    let b = if ctx.thorough { 3 } else { 2 };
    explore(ctx, &both(b, b - 1), |w, r, d| {
        w.count(r.name);
        let t = spaced(&d.toks);
        w.sample(|| json!({"root": r.name, "text": t.s}));
        if let Some(ts) = base(w, &t) {
            if let Some(m) = mirror(&ts, &t.toks) {
                w.violation(&t.s, m);
            }
        }
        for f in 0..5 {
            let t = all_comments(&d.toks, f);
            if let Out::Ok(ts) = w.parse(&t.t.s) {
                let mut all = t.t.toks.clone();
                all.extend(t.comments.iter().map(|x| x.0.clone()));
                if let Some(m) = mirror(&ts, &all) {
                    w.violation(&t.t.s, m);
                }
            }
        }
    });
    if !ctx.stopped() {
        seqs(ctx, |w, _, t| {
            if let Out::Ok(ts) = w.parse(&t.s) {
                if let Some(m) = mirror(&ts, &t.toks) {
                    w.violation(&t.s, m);
                }
            }
        });
    }
}
/// all pairs of statements with no deviation (each statement kind twice over)
fn seqs(ctx: &Ctx, f: impl Fn(&mut Worker, &[GTok], &Text) + Sync) {
    let st = crate::seqchecks::statements(0);
    let n = st.len();
    ctx.run((0..n).collect::<Vec<_>>(), |w, i, _| {
        for j in 0..n {
            let mut toks = st[i].toks.clone();
            toks.extend(st[j].toks.iter().cloned());
            w.states += 1;
            let t = spaced(&toks);
            f(w, &toks, &t);
        }
    });
}

// ----- C08 -----
/// compare a text with comments with the parse of the same tokens without
fn same_parse(w: &mut Worker, norm0: &Result<Vec<Tree>, (u64, u64)>, ct: &CText, what: &str) {
    match (norm0, w.parse(&ct.t.s)) {
        (Ok(a), Out::Ok(ts)) => {
            let mut toks = ct.t.toks.clone();
            toks.extend(ct.comments.iter().map(|c| c.0.clone()));
            match norm_all(&ts, &ct.t.toks) {
                Ok(b) => {
                    if let Some(m) = ldiff(a, &b) {
                        w.violation(&ct.t.s, format!("{} changes the tree: {}", what, m));
                    }
                }
                Err(m) => w.violation(&ct.t.s, format!("{} changes the tree: {}", what, m)),
            }
        }
        (Ok(_), o) => w.violation(&ct.t.s, format!("{}: the text without is accepted, this one is {}", what, o.brief())),
        (Err(_), Out::Ok(_)) => w.violation(&ct.t.s, format!("{}: the text without is rejected, this one is accepted", what)),
        (Err(_), Out::Err { .. }) => (),
        (Err(_), o) => w.violation(&ct.t.s, o.brief()),
    }
}
fn norm0(w: &mut Worker, t: &Text) -> Result<Vec<Tree>, (u64, u64)> {
    match w.parse(&t.s) {
        Out::Ok(ts) => norm_all(&ts, &t.toks).map_err(|_| (0, 0)),
        Out::Err { line, col, .. } => Err((line, col)),
        _ => Err((0, 0)),
    }
}
/// a comment directly between two tokens without whitespace, where the lexical rules allow it
fn tight(toks: &[GTok], at: usize) -> Option<CText> {
    if at == 0 || at == toks.len() || toks[at].apart || toks[at].glue {
        return None;
    }
    let t = render_c(toks, |i| if i == at { vec![c("/*c*/")] } else { dflt(toks, i) });
    lexes(&t.t.s, toks, Some(at)).then_some(t)
}
/// by the lexical rules the text is these tokens (and a comment before token `at`)
fn lexes(s: &str, toks: &[GTok], at: Option<usize>) -> bool {
    let cs: Vec<char> = s.chars().collect();
    let Ok(m) = lexmodel::lex(&cs) else { return false };
    let got: Vec<String> = m
        .iter()
        .filter(|m| m.start < m.end)
        .map(|m| cs[m.start..m.end].iter().collect())
        .collect();
    let mut want: Vec<String> = toks.iter().map(|t| t.lit.clone()).collect();
    if let Some(at) = at {
        want.insert(at, "/*c*/".into());
    }
    got == want
}
pub fn c08(ctx: &Ctx) {
    let x = ctx.thorough as u8;
    // every gap x every form
    explore(ctx, &both(1 + x, x), |w, r, d| {
        w.count(r.name);
        let t = spaced(&d.toks);
        w.sample(|| json!({"root": r.name, "text": t.s}));
        let a = norm0(w, &t);
        for i in 0..=d.toks.len() {
            if gap_ok(&d.toks, i) {
                for f in 0..GAPS {
                    same_parse(w, &a, &one_gap(&d.toks, i, f), "a comment");
                }
            }
            if let Some(t) = tight(&d.toks, i) {
                same_parse(w, &a, &t, "a comment without whitespace");
            }
            if i < d.toks.len() && d.toks[i].glue {
                // inside a name: the same as blanks of that extent
                let at = |p: P| render_c(&d.toks, |k| if k == i { vec![p.clone()] } else { dflt(&d.toks, k) });
                let (blank, comment) = (at(crate::corpus::w("     ")), at(c("/*c*/")));
                if lexes(&blank.t.s, &d.toks, None) && lexes(&comment.t.s, &d.toks, Some(i)) {
                    let a = norm0(w, &blank.t);
                    same_parse(w, &a, &comment, "a comment");
                }
            }
        }
    });
    // every gap one comment, and comments everywhere
    if !ctx.stopped() {
        explore(ctx, &both(2 + x, 1 + x), |w, _, d| {
            let t = spaced(&d.toks);
            let a = norm0(w, &t);
            for i in 0..=d.toks.len() {
                if gap_ok(&d.toks, i) {
                    same_parse(w, &a, &one_gap(&d.toks, i, i % 4), "a comment");
                }
            }
            for f in 0..5 {
                same_parse(w, &a, &all_comments(&d.toks, f), "comments in every gap");
            }
        });
    }
    if !ctx.stopped() {
        odd_and_far(ctx, |w, _, a, t| same_parse(w, a, t, "a comment"));
    }
    // texts cut off or with a token missing: rejected with comments exactly when without
    if !ctx.stopped() {
        explore(ctx, &all(x), |w, _, d| {
            for k in 0..d.toks.len() {
                for del in [false, true] {
                    let toks: Vec<GTok> = if del {
                        let mut v = d.toks.clone();
                        v.remove(k);
                        if k < v.len() {
                            v[k].glue = false;
                        }
                        v
                    } else {
                        d.toks[..k].to_vec()
                    };
                    w.transitions += 1;
                    let t = spaced(&toks);
                    if !self_check(w, &t) {
                        continue;
                    }
                    let a = norm0(w, &t);
                    for i in 0..=toks.len() {
                        if gap_ok(&toks, i) {
                            same_parse(w, &a, &one_gap(&toks, i, i % 4), "a comment");
                        }
                    }
                }
            }
        });
    }
}

// ----- C09 -----
/// for every token index (toks.len() = end): the leading and trailing comments by the rule
pub fn attach(ct: &CText) -> Vec<(Vec<Tok>, Vec<Tok>)> {
    let n = ct.t.toks.len();
    let mut out = vec![(vec![], vec![]); n + 1];
    let mut broken = usize::MAX; // gap in which a comment has already gone to the next token
    for (cm, i) in &ct.comments {
        let i = *i;
        if i > 0 && broken != i && cm.line == ct.t.toks[i - 1].line {
            out[i - 1].1.push(cm.clone());
        } else {
            broken = i;
            out[i].0.push(cm.clone());
        }
    }
    out
}
fn comments_of(t: &Tree, name: &str) -> Result<Vec<Tok>, String> {
    match t.get(name) {
        None => Ok(vec![]),
        Some(Child::Many(v)) => v
            .iter()
            .map(|x| {
                if x.kind != "Comment" || !x.ch.is_empty() {
                    return Err(format!("{} holds a {} node", name, x.kind));
                }
                x.tok.clone().ok_or("comment node without token".to_string())
            })
            .collect(),
        _ => Err(format!("{} is not a list", name)),
    }
}
fn walk(t: &Tree, f: &mut dyn FnMut(&Tree) -> Result<(), String>) -> Result<(), String> {
    f(t)?;
    for (n, c) in &t.ch {
        if n == "leading_comments" || n == "trailing_comments" {
            continue;
        }
        match c {
            Child::One(x) => walk(x, f)?,
            Child::Many(v) => {
                for x in v {
                    walk(x, f)?
                }
            }
        }
    }
    Ok(())
}
fn check_attach(w: &mut Worker, ct: &CText) {
    let ts = match w.parse(&ct.t.s) {
        Out::Ok(ts) => ts,
        _ => {
            w.count("not accepted");
            return;
        }
    };
    let want = attach(ct);
    let n = ct.t.toks.len();
    let mut seen = vec![false; n + 1];
    let r = ts.iter().try_for_each(|t| {
        walk(t, &mut |x| {
            let lead = comments_of(x, "leading_comments")?;
            let trail = comments_of(x, "trailing_comments")?;
            let i = match &x.tok {
                Some(k) => match ct.t.toks.binary_search_by(|y| (y.line, y.col).cmp(&(k.line, k.col))) {
                    Ok(i) => i,
                    Err(_) => return Ok(()),
                },
                None if x.kind == "EOF" => n,
                None => {
                    if lead.is_empty() && trail.is_empty() {
                        return Ok(());
                    }
                    return Err(format!("{} node without token carries comments", x.kind));
                }
            };
            seen[i] = true;
            let name = if i < n { ct.t.toks[i].lit.as_str() } else { "end of input" };
            if lead != want[i].0 {
                return Err(format!("leading comments of {:?} should be [{}], are [{}]", name, show(&want[i].0), show(&lead)));
            }
            if trail != want[i].1 {
                return Err(format!("trailing comments of {:?} should be [{}], are [{}]", name, show(&want[i].1), show(&trail)));
            }
            Ok(())
        })
    });
    if let Err(m) = r {
        w.violation(&ct.t.s, m);
        return;
    }
    for i in 0..=n {
        if !seen[i] && !(want[i].0.is_empty() && want[i].1.is_empty()) {
            w.violation(&ct.t.s, format!("comments of token {} are nowhere", i));
            return;
        }
    }
}
pub fn c09(ctx: &Ctx) {
    let x = ctx.thorough as u8;
    explore(ctx, &both(1 + x, x), |w, r, d| {
        w.count(r.name);
        let t = spaced(&d.toks);
        w.sample(|| json!({"root": r.name, "text": t.s}));
        for i in 0..=d.toks.len() {
            if gap_ok(&d.toks, i) {
                for f in 0..GAPS {
                    check_attach(w, &one_gap(&d.toks, i, f));
                }
            }
        }
    });
    if !ctx.stopped() {
        explore(ctx, &both(2 + x, 1 + x), |w, _, d| {
            for f in 0..5 {
                check_attach(w, &all_comments(&d.toks, f));
            }
            for i in 0..=d.toks.len() {
                if gap_ok(&d.toks, i) {
                    check_attach(w, &one_gap(&d.toks, i, i % 4));
                }
            }
        });
    }
    // pairs of gaps
    if !ctx.stopped() {
        explore(ctx, &all(x), |w, _, d| {
            let n = d.toks.len();
            for i in 0..=n {
                for j in i + 1..=n {
                    if gap_ok(&d.toks, i) && gap_ok(&d.toks, j) {
                        for (f, g) in [(0, 0), (1, 0), (0, 2), (1, 2), (4, 4), (2, 1)] {
                            w.transitions += 1;
                            let t = render_c(&d.toks, |k| {
                                if k == i {
                                    gap_form(f)
                                } else if k == j {
                                    gap_form(g)
                                } else {
                                    dflt(&d.toks, k)
                                }
                            });
                            check_attach(w, &t);
                        }
                    }
                }
            }
        });
    }
    if !ctx.stopped() {
        odd_and_far(ctx, |w, _, _, t| check_attach(w, t));
    }
    // statement sequences: comments around the semicolon between any two statements
    if !ctx.stopped() {
        let st = crate::seqchecks::statements(0);
        ctx.run((0..st.len()).collect::<Vec<_>>(), |w, i, _| {
            for j in 0..st.len() {
                let mut toks = st[i].toks.clone();
                let k = toks.len();
                toks.extend(st[j].toks.iter().cloned());
                w.states += 1;
                for f in 0..GAPS {
                    check_attach(w, &one_gap(&toks, k, f));
                    check_attach(w, &one_gap(&toks, k - 1, f));
                }
            }
        });
    }
}

// ----- C10 -----
pub fn c10(ctx: &Ctx) {
    let x = ctx.thorough as u8;
    const WS: [&str; 6] = ["\n", "\t", "   ", "\r\n", " \n\n \t", "\u{3000}"];
    explore(ctx, &both(2 + x, 1 + x), |w, r, d| {
        w.count(r.name);
        let t = spaced(&d.toks);
        w.sample(|| json!({"root": r.name, "text": t.s}));
        let a = norm0(w, &t);
        if a.is_err() {
            w.count("base text not accepted");
        }
        let n = d.toks.len();
        let all = |s: &'static str| {
            render_c(&d.toks, |i| if dflt(&d.toks, i).is_empty() { vec![] } else { vec![crate::corpus::w(s)] })
        };
        for s in WS {
            same_parse(w, &a, &all(s), "other whitespace");
        }
        for (l, r) in [("\n", ""), ("", "\n"), ("  ", " \t"), ("\r\n\r\n", "\r\n"), ("", " ")] {
            let t = render_c(&d.toks, |k| {
                if k == 0 {
                    vec![crate::corpus::w(l)]
                } else if k == n {
                    vec![crate::corpus::w(r)]
                } else {
                    dflt(&d.toks, k)
                }
            });
            same_parse(w, &a, &t, "whitespace around the text");
        }
        // the same for the text without optional whitespace
        let ct = compact(&d.toks);
        let b = norm0(w, &ct);
        let joined: Vec<bool> = (0..=n)
            .map(|i| i == 0 || i == n || joinable(&d.toks[i - 1], &d.toks[i]))
            .collect();
        for s in ["\n", "\t ", "\r\n"] {
            let t = render_c(&d.toks, |i| if joined[i] { vec![] } else { vec![crate::corpus::w(s)] });
            same_parse(w, &b, &t, "other whitespace");
            let t = render_c(&d.toks, |i| {
                if i == 0 || i == n {
                    vec![crate::corpus::w(s)]
                } else if joined[i] {
                    vec![]
                } else {
                    vec![crate::corpus::w(" ")]
                }
            });
            same_parse(w, &b, &t, "whitespace around the text");
        }
    });
    // gaps of boundary sizes
    if !ctx.stopped() {
        explore(ctx, &both(x, x), |w, _, d| {
            let a = norm0(w, &spaced(&d.toks));
            for m in [100, 255, 256, 257, 1000] {
                for s in ["\n", " ", "\t", "\r\n"] {
                    w.transitions += 1;
                    let t = render_c(&d.toks, |i| if dflt(&d.toks, i).is_empty() { vec![] } else { vec![crate::corpus::w(&s.repeat(m))] });
                    same_parse(w, &a, &t, "other whitespace");
                }
            }
            for s in ["\n", " ", "\t", "\r\n"] {
                w.transitions += 1;
                let t = render_c(&d.toks, |i| if i == 0 || i == d.toks.len() { vec![crate::corpus::w(&s.repeat(65536))] } else { dflt(&d.toks, i) });
                same_parse(w, &a, &t, "whitespace around the text");
            }
        });
    }
    // every gap on its own
    if !ctx.stopped() {
        explore(ctx, &both(1 + x, x), |w, _, d| {
            let a = norm0(w, &spaced(&d.toks));
            for i in 1..d.toks.len() {
                if gap_ok(&d.toks, i) {
                    for s in ["\n", "\t  ", "\r\n", "\n\n  "] {
                        let t = render_c(&d.toks, |k| if k == i { vec![crate::corpus::w(s)] } else { dflt(&d.toks, k) });
                        same_parse(w, &a, &t, "other whitespace");
                    }
                }
            }
        });
    }
    // names, strings and parameters of other widths; texts cut off or with a token missing
    if !ctx.stopped() {
        explore(ctx, &all(1 + x), |w, _, d| {
            for m in 0..3 {
                let toks: Vec<GTok> = d.toks.iter().map(|t| widen(t, m)).collect();
                layouts(w, &toks);
            }
        });
    }
    if !ctx.stopped() {
        explore(ctx, &all(x), |w, _, d| {
            for k in 0..d.toks.len() {
                layouts(w, &d.toks[..k]);
                let mut v = d.toks.clone();
                v.remove(k);
                layouts(w, &v);
            }
        });
    }
}
/// the token with characters of several bytes
fn widen(t: &GTok, m: usize) -> GTok {
    let c = t.lit.chars().next().unwrap();
    let wide = ["é", "日本", "𝒳"][m];
    let lit = if c.is_lowercase() && t.is_word() && t.lit.chars().all(|c| c.is_lowercase() || c == '_' || c.is_ascii_digit()) {
        match m {
            0 => format!("{}{}", t.lit, wide),
            1 => format!("{}{}", wide, t.lit),
            _ => wide.to_string(),
        }
    } else if c == '\'' && t.lit.len() < 5 {
        format!("'{}'", wide)
    } else if c == '`' {
        format!("`{} x`", wide)
    } else {
        t.lit.clone()
    };
    GTok { lit, ..t.clone() }
}
fn layouts(w: &mut Worker, toks: &[GTok]) {
    if toks.is_empty() {
        return;
    }
    let t = spaced(toks);
    let a = norm0(w, &t);
    for s in ["\n", "  ", "\t", " \r\n  "] {
        let t = render_c(toks, |i| if dflt(toks, i).is_empty() { vec![] } else { vec![crate::corpus::w(s)] });
        same_parse(w, &a, &t, "other whitespace");
    }
}

// ----- C11 -----
fn flip(s: &str, m: usize) -> String {
    match m {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        2 => s
            .chars()
            .enumerate()
            .map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
            .collect(),
        3 => s
            .chars()
            .enumerate()
            .map(|(i, c)| if i % 2 == 1 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
            .collect(),
        _ => s
            .chars()
            .map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}
pub fn c11(ctx: &Ctx) {
    let x = ctx.thorough as u8;
    explore(ctx, &both(2 + x, 1 + x), |w, r, d| {
        w.count(r.name);
        let t = spaced(&d.toks);
        w.sample(|| json!({"root": r.name, "text": t.s}));
        let a = norm0(w, &t);
        let one = |w: &mut Worker, toks: &[GTok]| {
            let t = render_c(toks, |i| dflt(toks, i));
            if t.t.s == spaced(&d.toks).s {
                return;
            }
            same_parse(w, &a, &t, "other letter case");
        };
        for m in 0..4 {
            let v: Vec<GTok> = d
                .toks
                .iter()
                .map(|t| GTok {
                    lit: if t.is_word() { flip(&t.lit, m) } else { t.lit.clone() },
                    ..t.clone()
                })
                .collect();
            one(w, &v);
        }
        for i in 0..d.toks.len() {
            if d.toks[i].is_word() {
                let mut v = d.toks.clone();
                v[i].lit = flip(&v[i].lit, 4);
                one(w, &v);
            }
        }
    });
}
fn c11_ill(ctx: &Ctx) {
    let x = ctx.thorough as u8;
    let word = |t: &GTok, m: usize| GTok {
        lit: if t.is_word() { flip(&t.lit, m) } else { t.lit.clone() },
        ..t.clone()
    };
    explore(ctx, &all(1 + x), |w, _, d| {
        for k in 0..d.toks.len() {
            for del in 0..3 {
                let mut v = d.toks.clone();
                match del {
                    0 => v.truncate(k),
                    1 => {
                        v.remove(k);
                    }
                    _ if k + 1 < v.len() => v.swap(k, k + 1),
                    _ => continue,
                }
                if let Some(t) = v.first_mut() {
                    t.glue = false;
                }
                w.transitions += 1;
                let t = spaced(&v);
                if !lexes(&t.s, &v, None) {
                    continue;
                }
                let a = norm0(w, &t);
                for m in 0..3 {
                    let u: Vec<GTok> = v.iter().map(|t| word(t, m)).collect();
                    same_parse(w, &a, &render_c(&u, |i| dflt(&u, i)), "other letter case");
                }
            }
        }
    });
}
/// lists of 33 and 257 items
fn long_lists(ctx: &Ctx) {
    let x = ctx.thorough as u8;
    for n in [33, 257] {
        let rs: Vec<Root> = all(1 + (x == 1 && n == 33) as u8).into_iter().map(|r| r.long(n)).collect();
        explore(ctx, &rs, |w, _, d| {
            if d.toks.len() <= n {
                return;
            }
            w.count("long lists");
            let t = spaced(&d.toks);
            match &ctx.prop[..] {
                "C06" | "C07" => {
                    let mut v = vec![(spaced(&d.toks), vec![])];
                    for f in [1, 4] {
                        let t = all_comments(&d.toks, f);
                        v.push((t.t, t.comments));
                    }
                    for (t, cm) in v {
                        if let Out::Ok(ts) = w.parse(&t.s) {
                            let mut all: Vec<Tok> = t.toks.clone();
                            all.extend(cm.iter().map(|x| x.0.clone()));
                            let m = if ctx.prop == "C06" { complete(&ts, &all) } else { mirror(&ts, &all) };
                            if let Some(m) = m {
                                w.violation(&t.s, m);
                            }
                        }
                    }
                }
                "C08" => {
                    let a = norm0(w, &t);
                    for f in 0..5 {
                        same_parse(w, &a, &all_comments(&d.toks, f), "a comment");
                    }
                }
                "C09" => {
                    for f in 0..5 {
                        check_attach(w, &all_comments(&d.toks, f));
                    }
                }
                "C10" => layouts(w, &d.toks),
                _ => {
                    let a = norm0(w, &t);
                    for m in 0..3 {
                        let u: Vec<GTok> = d
                            .toks
                            .iter()
                            .map(|t| GTok { lit: if t.is_word() { flip(&t.lit, m) } else { t.lit.clone() }, ..t.clone() })
                            .collect();
                        same_parse(w, &a, &render_c(&u, |i| dflt(&u, i)), "other letter case");
                    }
                }
            }
        });
        if ctx.stopped() {
            return;
        }
    }
}
pub fn run(ctx: &Ctx) {
    long_lists(ctx);
    if ctx.stopped() {
        return;
    }
    match &ctx.prop[..] {
        "C06" => c06(ctx),
        "C07" => c07(ctx),
        "C08" => c08(ctx),
        "C09" => c09(ctx),
        "C10" => c10(ctx),
        "C11" => {
            c11(ctx);
            if !ctx.stopped() {
                c11_ill(ctx);
            }
        }
        _ => unreachable!(),
    }
}
#[allow(dead_code)]
fn _unused(_: &Deriv) {}
