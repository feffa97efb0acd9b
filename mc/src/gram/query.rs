use super::expr::*;
use super::types::*;
use super::*;

fn multi(g: &mut G, parts: &[&str]) -> E {
    let t = g.t(parts[0]);
    let tr = parts[1..].iter().map(|p| n("Identifier", g.glue(p))).collect();
    n("MultiTokenIdentifier", t).v("trailing_idents", tr)
}
/// table-like name: path with dashes, templates, quotes
pub fn table_ident(g: &mut G) -> E {
    let e = match g.alt(13) {
        0 => g.id(),
        1 => {
            let i = g.id();
            dotted(g, i, 1)
        }
        2 => {
            let i = g.id();
            dotted(g, i, 2)
        }
        3 => n("Identifier", g.t("`p-x.d.t`")),
        4 => {
            let i = multi(g, &["my", "-", "proj"]);
            dotted(g, i, 2)
        }
        5 => n("Identifier", g.t("{{ t }}")),
        6 => {
            let i = n("Identifier", g.t("`region-us`"));
            let d = g.t(".");
            let r = n("Identifier", g.t("INFORMATION_SCHEMA"));
            let e = n("DotOperator", d).c("left", i).c("right", r);
            dotted(g, e, 1)
        }
        7 => {
            let i = multi(g, &["my", "-", "proj", "-", "1.", "ds"]);
            dotted(g, i, 1)
        }
        8 => multi(g, &["a_", "{{x}}", "_b"]),
        9 => {
            let i = g.id();
            let d = g.t(".");
            let r = multi(g, &["t_", "{y}"]);
            n("DotOperator", d).c("left", i).c("right", r)
        }
        10 => {
            let i = g.id();
            let d = g.t(".");
            let r = n("Identifier", g.t("`q t`"));
            n("DotOperator", d).c("left", i).c("right", r)
        }
        11 => {
            let i = multi(g, &["a", "-", "b", "-", "c9"]);
            dotted(g, i, 1)
        }
        _ => {
            let w = g.pick(&["model", "date", "values_", "view"]);
            n("Identifier", g.t(w))
        }
    };
    if !g.toks.last().unwrap().lit.starts_with('`') {
        g.pending_apart = true;
    }
    e
}
fn trailing_alias(g: &mut G, e: &mut E) {
    match g.ralt(3) {
        0 => (),
        1 => {
            let a = g.kw("AS");
            let i = g.id();
            e.put("as", a);
            e.put("alias", i);
        }
        _ => {
            let i = g.id();
            e.put("alias", i);
        }
    }
}
/// grouped query `( ... )`
pub fn grouped_query(g: &mut G) -> E {
    let t = g.t("(");
    let q = g.nested(|g| query_x(g, true));
    let r = g.sym(")");
    n("GroupedStatement", t).c("stmt", q).c("rparen", r)
}
pub fn from_item(g: &mut G) -> E {
    let mut unnest = false;
    let mut base = false;
    // the first item of a focused root
    let focus = std::mem::replace(&mut g.focus, false);
    let head = if focus { g.free(7) } else { g.alt(7) };
    let mut e = match head {
        0 => {
            base = true;
            let i = g.id();
            g.pending_apart = true;
            i
        }
        1 => {
            base = true;
            table_ident(g)
        }
        2 => grouped_query(g),
        3 => {
            unnest = true;
            let f = n("Identifier", g.t("UNNEST"));
            call_with(g, f, |g| vec![Some(expr(g))]).kind("CallingUnnest")
        }
        4 => {
            let f = table_ident(g);
            let l = g.t("(");
            let k = g.count(&[1, 0, 2]);
            let args = g.listn(k, |g| match g.alt(3) {
                0 => expr(g),
                1 => {
                    let t = g.t("TABLE");
                    let i = table_ident(g);
                    n("UnaryOperator", t).c("right", i)
                }
                _ => subquery(g),
            });
            let r = g.sym(")");
            let e = n("CallingTableFunction", l).c("func", f).c("rparen", r);
            if args.is_empty() {
                e
            } else {
                e.v("args", args)
            }
        }
        5 => {
            // parenthesized join
            let t = g.t("(");
            let j = join(g, 1);
            let r = g.sym(")");
            return n("GroupedExpr", t).c("expr", j).c("rparen", r);
        }
        _ => {
            // parenthesized join that starts with a subquery
            let t = g.t("(");
            let q = grouped_query(g);
            let j = g.t("JOIN");
            let r2 = from_item(g);
            let on = g.kwx("ON", |g| expr(g));
            let r = g.sym(")");
            let jo = n("JoinOperator", j).c("left", q).c("right", r2).c("on", on);
            let mut e = n("GroupedExpr", t).c("expr", jo).c("rparen", r);
            trailing_alias(g, &mut e);
            return e;
        }
    };
    trailing_alias(g, &mut e);
    if base && g.opt() {
        let f = g.t("FOR");
        let s = g.kws(&["SYSTEM_TIME", "AS", "OF"]);
        let x = expr(g);
        e.put(
            "for_system_time_as_of",
            n("ForSystemTimeAsOfClause", f).v("system_time_as_of", s).c("expr", x),
        );
    }
    let mut offset = false;
    if (unnest || base) && g.opt() {
        offset = true;
        let w = g.t("WITH");
        let o = g.kw("OFFSET");
        let mut wo = n("WithOffsetClause", w).c("offset", o);
        trailing_alias(g, &mut wo);
        e.put("with_offset", wo);
    }
    if !unnest && !offset {
        let k = if focus { g.free(4) } else { g.alt(4) };
        match k {
            0 => (),
            1 => {
                let t = g.t("PIVOT");
                let c = pivot_config(g);
                let mut p = n("PivotOperator", t).c("config", c);
                trailing_alias(g, &mut p);
                e.put("pivot", p);
            }
            2 => {
                let t = g.t("UNPIVOT");
                let mut p = n("UnpivotOperator", t);
                if g.opt() {
                    let w = g.pick(&["INCLUDE", "EXCLUDE"]);
                    let w = g.kws(&[w, "NULLS"]);
                    p.putv("include_or_exclude_nulls", w);
                }
                let c = unpivot_config(g);
                p.put("config", c);
                trailing_alias(g, &mut p);
                e.put("unpivot", p);
            }
            _ => {
                let m = match_recognize(g, "MatchRecognizeClause");
                e.put("match_recognize", m);
            }
        }
    }
    if base && g.opt() {
        let t = g.t("TABLESAMPLE");
        let s = g.kw("SYSTEM");
        let r = sample_ratio(g);
        e.put("tablesample", n("TableSampleClause", t).c("system", s).c("group", r));
    }
    e
}
fn sample_ratio(g: &mut G) -> E {
    let t = g.t("(");
    let x = expr(g);
    let p = g.kw("PERCENT");
    let r = g.sym(")");
    n("TableSampleRatio", t).c("expr", x).c("percent", p).c("rparen", r)
}
fn pivot_config(g: &mut G) -> E {
    let t = g.t("(");
    let v = g.list(|g| {
        let f = n("Identifier", g.t("SUM"));
        let mut e = call_with(g, f, |g| vec![Some(expr(g))]);
        alias(g, &mut e);
        e
    });
    let f = g.kwx("FOR", |g| g.idx());
    let i = g.t("IN");
    let gr = grouped_exprs(g, |g| {
        let mut e = match g.alt(2) {
            0 => n("StringLiteral", g.t("'v'")),
            _ => expr(g),
        };
        alias(g, &mut e);
        e
    });
    let r = g.sym(")");
    n("PivotConfig", t)
        .v("exprs", v)
        .c("for", f)
        .c("in", n("KeywordWithGroupedXXX", i).c("group", gr))
        .c("rparen", r)
}
fn unpivot_config(g: &mut G) -> E {
    let t = g.t("(");
    let multi_col = g.opt();
    let cols = |g: &mut G| {
        let l = g.t("(");
        let v = g.listn(2, |g| g.id());
        let r = g.sym(")");
        n("GroupedExprs", l).v("exprs", v).c("rparen", r)
    };
    let x = if multi_col { cols(g) } else { g.id() };
    let f = g.kwx("FOR", |g| g.idx());
    let i = g.t("IN");
    let l = g.t("(");
    let v = g.list(|g| {
        let mut e = if multi_col { cols(g) } else { g.id() };
        match g.alt(4) {
            0 => (),
            1 => {
                let s = n("StringLiteral", g.t("'s'"));
                e.put("row_value_alias", s);
            }
            2 => {
                let a = g.kw("AS");
                let s = n("NumericLiteral", g.t("1"));
                e.put("as", a);
                e.put("row_value_alias", s);
            }
            _ => {
                let a = g.kw("AS");
                let s = n("StringLiteral", g.t("'s'"));
                e.put("as", a);
                e.put("row_value_alias", s);
            }
        }
        e
    });
    let r1 = g.sym(")");
    let gr = n("GroupedExprs", l).v("exprs", v).c("rparen", r1);
    let r = g.sym(")");
    n("UnpivotConfig", t)
        .c("expr", x)
        .c("for", f)
        .c("in", n("KeywordWithGroupedXXX", i).c("group", gr))
        .c("rparen", r)
}
pub fn match_recognize(g: &mut G, kind: &'static str) -> E {
    let t = g.t("MATCH_RECOGNIZE");
    let l = g.t("(");
    let mut c = n("MatchRecognizeConfig", l);
    if let Some(x) = g.maybe(|g| partitionby(g)) {
        c.put("partitionby", x);
    }
    let o = orderby(g);
    c.put("orderby", o);
    if g.opt() {
        let m = g.t("MEASURES");
        let v = g.list(|g| {
            let mut e = expr(g);
            let a = g.kw("AS");
            let i = g.id();
            e.put("as", a);
            e.put("alias", i);
            e
        });
        c.put("measures", n("KeywordWithExprs", m).v("exprs", v));
    }
    match g.alt(3) {
        0 => (),
        k => {
            let ws: &[&str] = if k == 1 {
                &["AFTER", "MATCH", "SKIP", "PAST", "LAST", "ROW"]
            } else {
                &["AFTER", "MATCH", "SKIP", "TO", "NEXT", "ROW"]
            };
            // the last word is a KeywordSequence too (pinned by the existing tests)
            let idx: Vec<usize> = ws.iter().map(|w| g.t(w)).collect();
            let mut e = n("KeywordSequence", idx[5]);
            for i in idx.iter().rev().skip(1) {
                e = n("KeywordSequence", *i).c("next_keyword", e);
            }
            c.put("skip_rule", e);
        }
    }
    let p = g.t("PATTERN");
    let gp = pattern_group(g);
    c.put("pattern", n("PatternClause", p).c("pattern", gp));
    let d = g.t("DEFINE");
    let v = g.list(|g| {
        let mut e = g.id();
        let a = g.kw("AS");
        let x = expr(g);
        e.put("as", a);
        e.put("alias", x);
        e
    });
    c.put("define", n("KeywordWithExprs", d).v("exprs", v));
    if let Some(o) = g.maybe(|g| options(g)) {
        c.put("options", o);
    }
    let r = g.sym(")");
    c.put("rparen", r);
    let mut e = n(kind, t).c("config", c);
    trailing_alias(g, &mut e);
    e
}
pub fn pattern_seq(g: &mut G) -> Vec<E> {
    let k = [1, 2, 3, 0][g.alt(4)];
    (0..k).map(|_| pattern_elem(g)).collect()
}
fn pattern_elem(g: &mut G) -> E {
    let e = match g.alt(4) {
        0 => {
            let s = g.name();
            n("Pattern", g.t(&s))
        }
        1 => return pattern_group(g),
        2 => n("Pattern", g.t("^")),
        _ => n("Pattern", g.t("$")),
    };
    let s = suffixes(g);
    e.v("suffixes", s)
}
fn pattern_group(g: &mut G) -> E {
    let l = g.t("(");
    let mut ps = pattern_seq(g);
    for _ in 0..g.alt(3) {
        let o = g.t("|");
        let right = pattern_seq(g);
        ps = vec![n("OrPattern", o).v("left", ps).v("right", right)];
    }
    let r = g.sym(")");
    let e = n("GroupedPattern", l).v("patterns", ps).c("rparen", r);
    let s = suffixes(g);
    e.v("suffixes", s)
}
fn suffixes(g: &mut G) -> Vec<E> {
    let q = |g: &mut G, lo: &str, comma: bool, hi: &str| {
        let t = g.t("{");
        let mut e = n("PatternQuantifier", t);
        // "{" must be directly followed by its content, or it would start a template
        let mut first = true;
        if !lo.is_empty() {
            let i = g.glue(lo);
            let x = n(if lo.starts_with('@') { "NumericLiteral" } else { "NumericLiteral" }, i);
            e.put("min", x);
            first = false;
        }
        if comma {
            let c = if first { n("Symbol", g.glue(",")) } else { g.sym(",") };
            e.put("comma", c);
        }
        if !hi.is_empty() {
            let h = n("NumericLiteral", g.t(hi));
            e.put("max", h);
        }
        let r = g.sym("}");
        e.c("rbrace", r)
    };
    match g.alt(10) {
        0 => vec![],
        1 => vec![g.sym("+")],
        2 => vec![g.sym("*")],
        3 => vec![g.sym("?")],
        4 => {
            let a = g.sym("+");
            let b = g.sym("?");
            vec![a, b]
        }
        5 => vec![q(g, "2", true, "3")],
        6 => vec![q(g, "2", false, "")],
        7 => vec![q(g, "", true, "3")],
        8 => vec![q(g, "2", true, "")],
        _ => {
            let a = q(g, "1", true, "2");
            let b = g.sym("?");
            vec![a, b]
        }
    }
}
/// from items joined left to right; at least `min` joins
pub fn join(g: &mut G, min: usize) -> E {
    let mut left = from_item(g);
    let k = min + g.count(&[0, 1, 2]);
    for i in 0..k {
        left = g.rep(i, k, |g| join_step(g, left));
    }
    left
}
fn join_step(g: &mut G, left: E) -> E {
    let kind = g.alt(9);
    let (jt, outer): (Option<&str>, bool) = match kind {
        0 => (None, false),
        1 => (Some("INNER"), false),
        2 => (Some("LEFT"), false),
        3 => (Some("LEFT"), true),
        4 => (Some("RIGHT"), false),
        5 => (Some("FULL"), true),
        6 => (Some("CROSS"), false),
        7 => (Some("right"), true),
        _ => (Some("FULL"), false),
    };
    if kind == 0 && g.opt() {
        let c = g.t(",");
        let r = from_item(g);
        return n("JoinOperator", c).c("left", left).c("right", r);
    }
    let ty = jt.map(|w| g.kw(w));
    let ou = if outer { Some(g.kw("OUTER")) } else { None };
    let t = g.t("JOIN");
    let r = from_item(g);
    let mut e = n("JoinOperator", t).c("left", left).c("right", r).co("join_type", ty).co("outer", ou);
    if kind != 6 {
        on_using(g, &mut e);
    }
    e
}
fn on_using(g: &mut G, e: &mut E) {
    match g.alt(3) {
        0 => {
            let on = g.kwx("ON", |g| expr(g));
            e.put("on", on);
        }
        1 => {
            let u = n("Identifier", g.t("USING"));
            let k = 1 + g.alt(2);
            let u = call_with(g, u, |g| g.listn(k, |g| g.id()).into_iter().map(Some).collect());
            e.put("using", u);
        }
        _ => (),
    }
}
/// item of a SELECT list
fn select_item(g: &mut G) -> E {
    match g.alt(3) {
        0 => {
            let mut e = expr(g);
            alias(g, &mut e);
            e
        }
        1 => star(g),
        _ => {
            let i = g.id();
            let d = g.t(".");
            let s = star(g);
            n("DotOperator", d).c("left", i).c("right", s)
        }
    }
}
fn window_clause(g: &mut G) -> E {
    let t = g.t("WINDOW");
    let v = g.list(|g| {
        let mut e = g.id();
        e.kind = "WindowExpr";
        let a = g.kw("AS");
        let w = match g.alt(2) {
            0 => window_spec(g),
            _ => g.id(),
        };
        e.c("as", a).c("window", w)
    });
    n("WindowClause", t).v("window_exprs", v)
}
fn groupby(g: &mut G, aliases: bool) -> E {
    let t = g.t("GROUP");
    let by = g.kw("BY");
    let mut e = n("GroupByExprs", t).c("by", by);
    match g.alt(5) {
        0 => {
            let v = g.list(|g| {
                let mut x = expr(g);
                if aliases {
                    alias(g, &mut x);
                    order(g, &mut x);
                }
                x
            });
            e.putv("exprs", v);
        }
        1 => {
            let k = g.kws(&["ALL"]);
            e.putv("how", k);
        }
        k => {
            let how = match k {
                2 => g.kws(&["ROLLUP"]),
                3 => g.kws(&["CUBE"]),
                _ => g.kws(&["GROUPING", "SETS"]),
            };
            e.putv("how", how);
            let v = match g.alt(2) {
                0 => {
                    let l = g.t("(");
                    let x = expr(g);
                    let r = g.sym(")");
                    vec![n("GroupedExpr", l).c("expr", x).c("rparen", r)]
                }
                _ => vec![tuple_plain(g, 2)],
            };
            e.putv("exprs", v);
        }
    }
    e
}
fn tuple_plain(g: &mut G, k: usize) -> E {
    let l = g.t("(");
    let v = g.listn(k, |g| expr(g));
    let r = g.sym(")");
    n("StructLiteral", l).v("exprs", v).c("rparen", r)
}
pub fn limit(g: &mut G) -> E {
    let t = g.t("LIMIT");
    let x = match g.alt(2) {
        0 => n("NumericLiteral", g.t("10")),
        _ => expr(g),
    };
    let o = g.maybe(|g| g.kwx("OFFSET", |g| expr(g)));
    n("LimitClause", t).c("expr", x).co("offset", o)
}
fn as_struct(g: &mut G) -> Option<&'static str> {
    match g.alt(3) {
        0 => None,
        1 => Some("STRUCT"),
        _ => Some("VALUE"),
    }
}
/// SELECT with its clauses; `tail`: ORDER BY and LIMIT allowed
pub fn select(g: &mut G, tail: bool) -> E {
    let t = g.t("SELECT");
    let mut e = n("SelectStatement", t);
    if g.opt() {
        let w = g.t("WITH");
        let d = g.pick(&["DIFFERENTIAL_PRIVACY", "AGGREGATION_THRESHOLD"]);
        let d = g.kw(d);
        let o = g.maybe(|g| options(g));
        e.put(
            "differential_privacy",
            n("DifferentialPrivacyClause", w).c("differential_privacy", d).co("options", o),
        );
    }
    match g.alt(3) {
        0 => (),
        k => {
            let d = g.kw(["", "DISTINCT", "ALL"][k]);
            e.put("distinct_or_all", d);
        }
    }
    if let Some(w) = as_struct(g) {
        let v = g.kws(&["AS", w]);
        e.putv("as_struct_or_value", v);
    }
    let mut v = g.list(|g| select_item(g));
    let has_from = g.alt(2);
    // trailing comma
    if has_from == 1 && g.opt() {
        let c = g.sym(",");
        v.last_mut().unwrap().put("comma", c);
    }
    e.putv("exprs", v);
    if has_from == 1 {
        let f = g.kwx("FROM", |g| join(g, 0));
        e.put("from", f);
    }
    if let Some(x) = g.maybe(|g| g.kwx("WHERE", |g| expr(g))) {
        e.put("where", x);
    }
    if let Some(x) = g.maybe(|g| groupby(g, false)) {
        e.put("groupby", x);
    }
    if let Some(x) = g.maybe(|g| g.kwx("HAVING", |g| expr(g))) {
        e.put("having", x);
    }
    if let Some(x) = g.maybe(|g| g.kwx("QUALIFY", |g| expr(g))) {
        e.put("qualify", x);
    }
    if let Some(x) = g.maybe(|g| window_clause(g)) {
        e.put("window", x);
    }
    if tail {
        if let Some(x) = g.maybe(|g| orderby(g)) {
            e.put("orderby", x);
        }
        if let Some(x) = g.maybe(|g| limit(g)) {
            e.put("limit", x);
        }
    }
    e
}
fn set_op_head(g: &mut G, kind: &'static str, doa: &'static str) -> E {
    let method = match g.alt(8) {
        0 => None,
        1 => Some(g.kw("INNER")),
        2 => Some(g.kw("LEFT")),
        3 => Some(g.kwseq(&["LEFT", "OUTER"])),
        4 => Some(g.kw("FULL")),
        5 => Some(g.kwseq(&["FULL", "OUTER"])),
        6 => Some(g.kw("OUTER")),
        _ => None,
    };
    let w = g.pick(&["UNION", "INTERSECT", "EXCEPT"]);
    let t = g.t(w);
    let d = g.pick(&["ALL", "DISTINCT"]);
    let d = g.kw(d);
    let mut e = n(kind, t).co("method", method).c(doa, d);
    match g.alt(7) {
        0 => (),
        1 => {
            let b = g.kwseq(&["BY", "NAME"]);
            e.put("by", b);
        }
        2 => {
            let b = g.t("BY");
            let nm = g.t("NAME");
            let on = g.t("ON");
            let gr = grouped_exprs(g, |g| g.id());
            let on = n("KeywordWithGroupedXXX", on).c("group", gr);
            e.put(
                "by",
                n("KeywordSequence", b).c("next_keyword", n("KeywordSequence", nm).c("next_keyword", on)),
            );
        }
        3 => {
            let c = g.kw("CORRESPONDING");
            e.put("corresponding", c);
        }
        4 => {
            let c = g.kwseq(&["STRICT", "CORRESPONDING"]);
            e.put("corresponding", c);
        }
        k => {
            let s = if k == 6 { Some(g.t("STRICT")) } else { None };
            let c = g.t("CORRESPONDING");
            let b = g.t("BY");
            let gr = grouped_exprs(g, |g| g.id());
            let mut c =
                n("KeywordSequence", c).c("next_keyword", n("KeywordWithGroupedXXX", b).c("group", gr));
            if let Some(s) = s {
                c = n("KeywordSequence", s).c("next_keyword", c);
            }
            e.put("corresponding", c);
        }
    }
    e
}
pub fn with_clause(g: &mut G, kind: &'static str, trailing_comma: bool) -> E {
    let w = g.t("WITH");
    let rec = g.maybe(|g| g.kw("RECURSIVE"));
    let mut v = g.list(|g| {
        let mut e = g.idx();
        e.kind = "WithQuery";
        let a = g.kw("AS");
        let gq = grouped_query(g);
        e.c("as", a).c("stmt", gq)
    });
    if trailing_comma && g.opt() {
        let c = g.sym(",");
        v.last_mut().unwrap().put("comma", c);
    }
    n(kind, w).co("recursive", rec).v("queries", v)
}
/// A query that starts with SELECT or WITH: what an expression subquery may hold.
pub fn query(g: &mut G) -> E {
    let mut e = query_body(g, Head::Plain);
    g.semi(&mut e);
    e
}
/// A query that starts with SELECT, WITH or a parenthesis, or also FROM.
pub fn query_x(g: &mut G, from_ok: bool) -> E {
    let mut e = query_body(g, if from_ok { Head::Any } else { Head::Paren });
    g.semi(&mut e);
    e
}
#[derive(Clone, Copy, PartialEq)]
pub enum Head {
    Plain,
    Paren,
    Any,
}
pub fn query_body(g: &mut G, head: Head) -> E {
    let k = g.alt(match head {
        Head::Plain => 4,
        Head::Paren => 5,
        Head::Any => 7,
    });
    let paren = head != Head::Plain;
    match k {
        0 => select(g, true),
        1 => {
            let w = with_clause(g, "WithClause", false);
            let mut q = match g.alt(5) {
                0 => select(g, true),
                1 => grouped_tail(g),
                2 => set_ops(g, true),
                3 => pipe(g, false, true),
                _ => pipe(g, true, true),
            };
            q.put("with", w);
            q
        }
        2 => set_ops(g, paren),
        3 => pipe(g, false, paren),
        4 => grouped_tail(g),
        5 => pipe(g, true, paren),
        _ => from_stmt(g),
    }
}
pub fn from_stmt(g: &mut G) -> E {
    let t = g.t("FROM");
    let j = join(g, 0);
    n("FromStatement", t).c("expr", j)
}
/// ( query ) [ORDER BY] [LIMIT]
pub fn grouped_tail(g: &mut G) -> E {
    let mut e = grouped_query(g);
    if let Some(x) = g.maybe(|g| orderby(g)) {
        e.put("orderby", x);
    }
    if let Some(x) = g.maybe(|g| limit(g)) {
        e.put("limit", x);
    }
    e
}
pub fn set_ops(g: &mut G, paren: bool) -> E {
    let mut left = match g.alt(if paren { 2 } else { 1 }) {
        0 => select(g, false),
        _ => grouped_query(g),
    };
    let k = g.count(&[1, 2, 3, 4]);
    let mut last_grouped = false;
    for i in 0..k {
        let h = g.rep(i, k, |g| set_op_head(g, "SetOperator", "distinct_or_all"));
        let right = g.rep(i, k, |g| match g.alt(2) {
            0 => {
                last_grouped = false;
                // ORDER BY and LIMIT after the last plain operand are kept in that operand
                select(g, i + 1 == k)
            }
            _ => {
                last_grouped = true;
                grouped_query(g)
            }
        });
        left = h.c("left", left).c("right", right);
    }
    if last_grouped {
        if let Some(x) = g.maybe(|g| orderby(g)) {
            left.put("orderby", x);
        }
        if let Some(x) = g.maybe(|g| limit(g)) {
            left.put("limit", x);
        }
    }
    left
}
pub fn pipe(g: &mut G, from: bool, paren: bool) -> E {
    let mut left = if from {
        from_stmt(g)
    } else {
        match g.alt(if paren { 3 } else { 2 }) {
            0 => select(g, true),
            1 => set_ops(g, paren),
            _ => grouped_query(g),
        }
    };
    let k = g.count(&[1, 2, 3]);
    for i in 0..k {
        let t = g.t("|>");
        let r = g.rep(i, k, |g| pipe_op(g));
        left = n("PipeStatement", t).c("left", left).c("right", r);
    }
    left
}
pub const PIPES: usize = 20;
pub fn pipe_op(g: &mut G) -> E {
    let k = g.alt(PIPES);
    pipe_op_k(g, k)
}
pub fn pipe_op_k(g: &mut G, k: usize) -> E {
    let base = |g: &mut G, w: &str, f: fn(&mut G) -> E| {
        let t = g.t(w);
        let v = g.list(f);
        n("BasePipeOperator", t).v("exprs", v)
    };
    match k {
        0 => {
            let t = g.t("WHERE");
            let e = expr(g);
            n("BasePipeOperator", t).v("exprs", vec![e])
        }
        1 => {
            let t = g.t("SELECT");
            let mut words: Vec<&str> = vec![];
            match g.alt(3) {
                0 => (),
                k => words.push(["", "DISTINCT", "ALL"][k]),
            }
            if let Some(w) = as_struct(g) {
                words.push("AS");
                words.push(w);
            }
            let kws = if words.is_empty() { None } else { Some(g.kwseq(&words)) };
            let v = g.list(|g| select_item(g));
            let w = g.maybe(|g| window_clause(g));
            n("SelectPipeOperator", t).co("keywords", kws).v("exprs", v).co("window", w)
        }
        2 => base(g, "EXTEND", |g| {
            let mut e = expr(g);
            alias(g, &mut e);
            e
        }),
        3 => base(g, "SET", |g| {
            let l = g.id();
            let o = g.t("=");
            let r = prim(g);
            n("BinaryOperator", o).c("left", l).c("right", r)
        }),
        4 => base(g, "DROP", |g| g.idx()),
        5 => base(g, "RENAME", |g| {
            let mut e = g.id();
            match g.alt(2) {
                0 => {
                    let a = g.kw("AS");
                    e.put("as", a);
                }
                _ => (),
            }
            let i = g.id();
            e.put("alias", i);
            e
        }),
        6 => {
            let t = g.t("AS");
            let i = g.idx();
            n("BasePipeOperator", t).v("exprs", vec![i])
        }
        7 => {
            let t = g.t("CALL");
            let f = match g.alt(2) {
                0 => g.id(),
                _ => {
                    let i = g.id();
                    dotted(g, i, 1)
                }
            };
            let k = g.alt(3);
            let mut c = call_with(g, f, |g| g.listn(k, |g| expr(g)).into_iter().map(Some).collect());
            alias(g, &mut c);
            n("BasePipeOperator", t).v("exprs", vec![c])
        }
        8 => {
            let t = g.t("ORDER");
            let b = g.kw("BY");
            let v = g.list(|g| {
                let mut e = expr(g);
                order(g, &mut e);
                e
            });
            n("BasePipeOperator", t).c("keywords", b).v("exprs", v)
        }
        9 => {
            let t = g.t("LIMIT");
            let x = match g.alt(2) {
                0 => n("NumericLiteral", g.t("10")),
                _ => expr(g),
            };
            let o = g.maybe(|g| g.kwx("OFFSET", |g| expr(g)));
            n("LimitPipeOperator", t).v("exprs", vec![x]).co("offset", o)
        }
        10 => {
            let t = g.t("AGGREGATE");
            let v = g.list(|g| {
                let mut e = match g.alt(2) {
                    0 => {
                        let f = n("Identifier", g.t("COUNT"));
                        call_with(g, f, |g| vec![Some(n("Asterisk", g.t("*")))])
                    }
                    _ => expr(g),
                };
                alias(g, &mut e);
                order(g, &mut e);
                e
            });
            let gb = g.maybe(|g| groupby(g, true));
            n("AggregatePipeOperator", t).v("exprs", v).co("groupby", gb)
        }
        11 => {
            let h = set_op_head(g, "UnionPipeOperator", "keywords");
            let v = g.list(|g| subquery(g));
            h.v("exprs", v)
        }
        12 => {
            let m = match g.alt(9) {
                0 => None,
                1 => Some(g.kw("INNER")),
                2 => Some(g.kw("LEFT")),
                3 => Some(g.kwseq(&["LEFT", "OUTER"])),
                4 => Some(g.kw("RIGHT")),
                5 => Some(g.kwseq(&["FULL", "OUTER"])),
                6 => Some(g.kw("CROSS")),
                7 => Some(g.kwseq(&["RIGHT", "OUTER"])),
                _ => Some(g.kw("FULL")),
            };
            let t = g.t("JOIN");
            let i = from_item(g);
            let mut e = n("JoinPipeOperator", t).co("method", m).v("exprs", vec![i]);
            on_using(g, &mut e);
            e
        }
        13 => {
            let t = g.t("TABLESAMPLE");
            let s = g.kw("SYSTEM");
            let r = sample_ratio(g);
            n("TableSamplePipeOperator", t).c("keywords", s).c("group", r)
        }
        14 => {
            let t = g.t("PIVOT");
            let c = pivot_config(g);
            let mut e = n("PivotPipeOperator", t).c("config", c);
            trailing_alias(g, &mut e);
            e
        }
        15 => {
            let t = g.t("UNPIVOT");
            let mut e = n("UnpivotPipeOperator", t);
            if g.opt() {
                let w = g.pick(&["INCLUDE", "EXCLUDE"]);
                let w = g.kwseq(&[w, "NULLS"]);
                e.put("keywords", w);
            }
            let c = unpivot_config(g);
            e.put("config", c);
            trailing_alias(g, &mut e);
            e
        }
        16 => with_clause(g, "WithPipeOperator", true),
        17 => match_recognize(g, "MatchRecognizePipeOperator"),
        18 => g.kw("DISTINCT"),
        _ => {
            // aggregate without aggregates
            let t = g.t("AGGREGATE");
            let gb = groupby(g, true);
            n("AggregatePipeOperator", t).c("groupby", gb)
        }
    }
}
