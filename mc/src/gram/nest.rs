//! Nesting: constructs with a hole, composed in every order and pumped to depth.
//!
//! A nesting is a sequence of layers, outermost first; each layer is a construct with one hole
//! for the rest of the sequence.  The roots enumerate every sequence up to a length and every
//! repetition of one or two alternating layers up to a depth.
use super::expr::*;
use super::script::block;
use super::types::struct_of;
use super::*;

/// how the sequences of one family are enumerated (all choices free)
fn seq(g: &mut G, nl: usize, max: usize) -> Vec<usize> {
    let mut v = vec![g.free(nl)];
    while v.len() < max {
        match g.free(nl + 1) {
            0 => break,
            k => v.push(k - 1),
        }
    }
    v
}
/// (a b)(a b)... of `depth` layers
fn pumped(g: &mut G, nl: usize, two: bool) -> Vec<usize> {
    let a = g.free(nl);
    let b = if two { g.free(nl) } else { a };
    let d = if two { [4, 5, 7, 10, 12][g.free(5)] } else { [4, 7][g.free(2)] };
    (0..d).map(|i| if i % 2 == 0 { a } else { b }).collect()
}
/// o a a a ... i
fn ends(g: &mut G, nl: usize, inner: bool) -> Vec<usize> {
    let o = g.free(nl);
    let a = g.free(nl);
    let i = if inner { g.free(nl) } else { a };
    let d = [2, 4, 7][g.free(3)];
    let mut v = vec![o];
    v.extend((0..d).map(|_| a));
    v.push(i);
    v
}
fn grouped(g: &mut G, f: impl FnOnce(&mut G) -> E) -> E {
    let l = g.t("(");
    let e = f(g);
    let r = g.sym(")");
    n("GroupedExpr", l).c("expr", e).c("rparen", r)
}
fn gstmt(g: &mut G, f: impl FnOnce(&mut G) -> E) -> E {
    let l = g.t("(");
    let e = f(g);
    let r = g.sym(")");
    n("GroupedStatement", l).c("stmt", e).c("rparen", r)
}
fn fcall(g: &mut G, name: &str, f: impl FnOnce(&mut G) -> Vec<E>) -> E {
    let i = n("Identifier", g.t(name));
    let l = g.t("(");
    let a = f(g);
    let r = g.sym(")");
    n("CallingFunction", l).c("func", i).v("args", a).c("rparen", r)
}
fn one(g: &mut G) -> E {
    n("NumericLiteral", g.t("1"))
}
fn sel(g: &mut G, f: impl FnOnce(&mut G) -> E) -> E {
    let t = g.t("SELECT");
    let x = f(g);
    n("SelectStatement", t).v("exprs", vec![x])
}
fn comma(g: &mut G, mut a: E, b: impl FnOnce(&mut G) -> E) -> Vec<E> {
    let c = g.sym(",");
    a.put("comma", c);
    let b = b(g);
    vec![a, b]
}
fn bin(g: &mut G, l: E, op: &str, r: impl FnOnce(&mut G) -> E) -> E {
    let o = g.t(op);
    let r = r(g);
    n("BinaryOperator", o).c("left", l).c("right", r)
}
fn tbl(g: &mut G) -> E {
    g.id()
}

// ----- expressions -----
pub const EX: usize = 54;
/// layers that are not primaries
fn is_op(k: usize) -> bool {
    k >= 36
}
/// any expression
fn ex(g: &mut G, ks: &[usize]) -> E {
    match ks.split_first() {
        None => g.id(),
        Some((k, ks)) => ex_layer(g, *k, ks),
    }
}
/// a primary: operators get parentheses
fn pr(g: &mut G, ks: &[usize]) -> E {
    if ks.first().map_or(false, |k| is_op(*k)) {
        grouped(g, |g| ex(g, ks))
    } else {
        ex(g, ks)
    }
}
fn case(g: &mut G, which: usize, ks: &[usize]) -> E {
    let t = g.t("CASE");
    let mut e = n("CaseExpr", t);
    if which == 0 {
        let x = ex(g, ks);
        e.put("expr", x);
    }
    let w = g.t("WHEN");
    let c = if which == 1 { ex(g, ks) } else { g.id() };
    let th = g.kw("THEN");
    let r = if which == 2 { ex(g, ks) } else { one(g) };
    let mut arms = vec![n("CaseExprArm", w).c("expr", c).c("then", th).c("result", r)];
    if which == 3 {
        let w = g.t("ELSE");
        let r = ex(g, ks);
        arms.push(n("CaseExprArm", w).c("result", r));
    }
    let end = g.kw("END");
    e.v("arms", arms).c("end", end)
}
fn ex_layer(g: &mut G, k: usize, ks: &[usize]) -> E {
    match k {
        0 => grouped(g, |g| ex(g, ks)),
        1 => {
            let l = g.t("[");
            let x = ex(g, ks);
            let r = g.sym("]");
            n("ArrayLiteral", l).v("exprs", vec![x]).c("rparen", r)
        }
        2 => fcall(g, "f", |g| vec![ex(g, ks)]),
        3 => fcall(g, "IF", |g| {
            let x = ex(g, ks);
            comma(g, x, |g| one(g))
        }),
        4 => fcall(g, "f", |g| {
            let x = one(g);
            comma(g, x, |g| ex(g, ks))
        }),
        5..=8 => case(g, k - 5, ks),
        9 => {
            // subscript of an array
            let i = g.id();
            let t = g.t("[");
            let x = ex(g, ks);
            let r = g.sym("]");
            n("AccessOperator", t).c("left", i).c("right", x).c("rparen", r)
        }
        10 => {
            let x = pr(g, ks);
            let t = g.t("[");
            let i = one(g);
            let r = g.sym("]");
            n("AccessOperator", t).c("left", x).c("right", i).c("rparen", r)
        }
        11 => {
            // field of a parenthesized expression
            let x = grouped(g, |g| ex(g, ks));
            let d = g.t(".");
            let r = g.id();
            n("DotOperator", d).c("left", x).c("right", r)
        }
        12 | 13 => {
            let f = n("Identifier", g.t(if k == 12 { "CAST" } else { "safe_cast" }));
            let l = g.t("(");
            let x = ex(g, ks);
            let a = g.t("AS");
            let ty = n("Type", g.t("INT64"));
            let r = g.sym(")");
            n("CallingFunction", l)
                .c("func", f)
                .v("args", vec![n("CastArgument", a).c("cast_from", x).c("cast_to", ty)])
                .c("rparen", r)
        }
        14 => {
            let l = g.t("(");
            let x = ex(g, ks);
            let v = comma(g, x, |g| one(g));
            let r = g.sym(")");
            n("StructLiteral", l).v("exprs", v).c("rparen", r)
        }
        15 => {
            let l = g.t("(");
            let x = one(g);
            let v = comma(g, x, |g| ex(g, ks));
            let r = g.sym(")");
            n("StructLiteral", l).v("exprs", v).c("rparen", r)
        }
        16 => {
            let ty = n("Type", g.t("STRUCT"));
            let l = g.t("(");
            let mut x = ex(g, ks);
            let a = g.kw("AS");
            let i = g.id();
            x.put("as", a);
            x.put("alias", i);
            let r = g.sym(")");
            n("StructLiteral", l).v("exprs", vec![x]).c("rparen", r).c("type", ty)
        }
        17 => {
            let ty = struct_of(g, |g| {
                let ty = n("Type", g.t("INT64"));
                vec![none("TypeDeclaration").c("type", ty)]
            });
            let l = g.t("(");
            let x = ex(g, ks);
            let r = g.sym(")");
            n("StructLiteral", l).v("exprs", vec![x]).c("rparen", r).c("type", ty)
        }
        18 => {
            let t = g.t("ARRAY");
            let l = g.t("<");
            let inner = n("Type", g.t("INT64"));
            let r = g.sym(">");
            let ty = n("Type", t).c("type_declaration", n("GroupedType", l).c("type", inner).c("rparen", r));
            let l = g.t("[");
            let x = ex(g, ks);
            let r = g.sym("]");
            n("ArrayLiteral", l).v("exprs", vec![x]).c("rparen", r).c("type", ty)
        }
        19 => gstmt(g, |g| sel(g, |g| ex(g, ks))),
        20 => fcall(g, "EXISTS", |g| vec![sel(g, |g| ex(g, ks))]),
        21 => fcall(g, "ARRAY", |g| vec![sel(g, |g| ex(g, ks))]),
        22 => gstmt(g, |g| {
            let mut s = sel(g, |g| g.id());
            let f = g.kwx("FROM", |g| tbl(g));
            let w = g.kwx("WHERE", |g| ex(g, ks));
            s.put("from", f);
            s.put("where", w);
            s
        }),
        23 => gstmt(g, |g| {
            let mut s = sel(g, |g| g.id());
            let f = g.kwx("FROM", |g| fcall(g, "UNNEST", |g| vec![ex(g, ks)]).kind("CallingUnnest"));
            s.put("from", f);
            s
        }),
        24 => gstmt(g, |g| {
            let mut s = sel(g, |g| g.id());
            let f = g.kwx("FROM", |g| {
                let l = tbl(g);
                let t = g.t("JOIN");
                let r = tbl(g);
                let on = g.kwx("ON", |g| ex(g, ks));
                n("JoinOperator", t).c("left", l).c("right", r).c("on", on)
            });
            s.put("from", f);
            s
        }),
        25 => {
            let t = g.t("INTERVAL");
            let x = ex(g, ks);
            let p = g.kw("DAY");
            n("IntervalLiteral", t).c("expr", x).c("date_part", p)
        }
        26 => {
            let f = n("Identifier", g.t("EXTRACT"));
            let l = g.t("(");
            let part = n("Identifier", g.t("DAY"));
            let fr = g.t("FROM");
            let e = ex(g, ks);
            let r = g.sym(")");
            n("CallingFunction", l)
                .c("func", f)
                .v("args", vec![n("ExtractArgument", fr).c("extract_datepart", part).c("extract_from", e)])
                .c("rparen", r)
        }
        27 => fcall(g, "f", |g| {
            let l = g.id();
            let o = g.t("=>");
            let r = ex(g, ks);
            vec![n("BinaryOperator", o).c("left", l).c("right", r)]
        }),
        28 | 29 => {
            let mut c = fcall(g, "SUM", |g| vec![if k == 28 { ex(g, ks) } else { g.id() }]);
            let o = g.t("OVER");
            let l = g.t("(");
            let w = g.t(if k == 28 { "PARTITION" } else { "ORDER" });
            let by = g.kw("BY");
            let x = if k == 28 { g.id() } else { ex(g, ks) };
            let r = g.sym(")");
            c.put(
                "over",
                n("OverClause", o).c(
                    "window",
                    n("WindowSpecification", l)
                        .c(if k == 28 { "partitionby" } else { "orderby" }, n("XXXByExprs", w).c("by", by).v("exprs", vec![x]))
                        .c("rparen", r),
                ),
            );
            c
        }
        30 => {
            // chained call
            let x = grouped(g, |g| ex(g, ks));
            let d = g.t(".");
            let c = fcall(g, "f", |g| vec![one(g)]);
            n("FunctionChain", d).c("left", x).c("right", c)
        }
        31 => {
            let x = grouped(g, |g| g.id());
            let d = g.t(".");
            let c = fcall(g, "f", |g| vec![ex(g, ks)]);
            n("FunctionChain", d).c("left", x).c("right", c)
        }
        32 => {
            // WITH(a AS x, 1)
            fcall(g, "WITH", |g| {
                let mut e = g.id();
                let a = g.kw("AS");
                let x = ex(g, ks);
                e.put("as", a);
                e.put("alias", x);
                comma(g, e, |g| one(g))
            })
        }
        33 => {
            let mut c = fcall(g, "ARRAY_AGG", |g| vec![g.id()]);
            // ORDER BY comes before the closing parenthesis
            g.toks.pop();
            let t = g.t("ORDER");
            let by = g.kw("BY");
            let x = ex(g, ks);
            let r = g.sym(")");
            c.ch.retain(|(k, _)| *k != "rparen");
            c.c("orderby", n("XXXByExprs", t).c("by", by).v("exprs", vec![x])).c("rparen", r)
        }
        34 => gstmt(g, |g| {
            let a = sel(g, |g| g.id());
            let u = g.t("UNION");
            let all = g.kw("ALL");
            let b = sel(g, |g| ex(g, ks));
            n("SetOperator", u).c("left", a).c("distinct_or_all", all).c("right", b)
        }),
        35 => gstmt(g, |g| {
            let t = g.t("SELECT");
            let s = n("Asterisk", g.t("*"));
            let rt = g.t("REPLACE");
            let l = g.t("(");
            let mut x = ex(g, ks);
            let a = g.kw("AS");
            let i = g.id();
            x.put("as", a);
            x.put("alias", i);
            let r = g.sym(")");
            let gr = n("GroupedExprs", l).v("exprs", vec![x]).c("rparen", r);
            n("SelectStatement", t).v("exprs", vec![s.c("replace", n("KeywordWithGroupedXXX", rt).c("group", gr))])
        }),
        36..=39 => {
            let t = g.t(["-", "~", "NOT", "+"][k - 36]);
            let x = pr(g, ks);
            n("UnaryOperator", t).c("right", x)
        }
        40 => {
            let x = pr(g, ks);
            bin(g, x, "+", |g| one(g))
        }
        41 => {
            let x = one(g);
            bin(g, x, "*", |g| pr(g, ks))
        }
        42 => {
            let x = pr(g, ks);
            bin(g, x, "AND", |g| g.id())
        }
        43 => {
            let x = g.id();
            bin(g, x, "OR", |g| pr(g, ks))
        }
        44 => {
            let x = pr(g, ks);
            bin(g, x, ">>", |g| g.id())
        }
        45 => {
            let x = g.id();
            bin(g, x, ">", |g| pr(g, ks))
        }
        46..=48 => {
            let l = if k == 46 { pr(g, ks) } else { g.id() };
            let not = if k == 47 { Some(g.kw("NOT")) } else { None };
            let o = g.t("BETWEEN");
            let a = if k == 47 { pr(g, ks) } else { one(g) };
            let and = g.kw("AND");
            let b = if k == 48 { pr(g, ks) } else { one(g) };
            n("BetweenOperator", o)
                .c("left", l)
                .co("not", not)
                .c("right_min", a)
                .c("and", and)
                .c("right_max", b)
        }
        49 | 50 => {
            let l = if k == 49 { pr(g, ks) } else { g.id() };
            let not = if k == 49 { Some(g.kw("NOT")) } else { None };
            let o = g.t("IN");
            let p = g.t("(");
            let x = if k == 50 { ex(g, ks) } else { one(g) };
            let r = g.sym(")");
            n("InOperator", o)
                .c("left", l)
                .co("not", not)
                .c("right", n("GroupedExprs", p).v("exprs", vec![x]).c("rparen", r))
        }
        51 => {
            let l = pr(g, ks);
            let o = g.t("IS");
            let not = g.kw("NOT");
            let r = n("NullLiteral", g.t("NULL"));
            n("BinaryOperator", o).c("left", l).c("not", not).c("right", r)
        }
        52 => {
            let l = g.id();
            let o = g.t("IS");
            let d = g.kw("DISTINCT");
            let f = g.kw("FROM");
            let r = pr(g, ks);
            n("IsDistinctFromOperator", o).c("left", l).c("distinct", d).c("from", f).c("right", r)
        }
        _ => {
            let l = g.id();
            let not = g.kw("NOT");
            let o = g.t("LIKE");
            let r = pr(g, ks);
            n("BinaryOperator", o).c("left", l).c("not", not).c("right", r)
        }
    }
}
// ----- queries and tables -----
pub const QU: usize = 20;
/// a query
fn qu(g: &mut G, ks: &[usize]) -> E {
    match ks.split_first() {
        None => sel(g, |g| g.id()),
        Some((k, ks)) => qu_layer(g, *k, ks),
    }
}
/// is the query in need of parentheses as operand of a set operation or pipe?
fn from(g: &mut G, f: impl FnOnce(&mut G) -> E) -> E {
    let s = sel(g, |g| g.id());
    let f = g.kwx("FROM", f);
    s.c("from", f)
}
fn join_on(g: &mut G, l: E, r: impl FnOnce(&mut G) -> E) -> E {
    let t = g.t("JOIN");
    let r = r(g);
    let on = g.kwx("ON", |g| g.id());
    n("JoinOperator", t).c("left", l).c("right", r).c("on", on)
}
fn union(g: &mut G, l: E, r: impl FnOnce(&mut G) -> E) -> E {
    let u = g.t("UNION");
    let all = g.kw("ALL");
    let r = r(g);
    n("SetOperator", u).c("left", l).c("distinct_or_all", all).c("right", r)
}
fn alias_as(g: &mut G, mut e: E) -> E {
    let a = g.kw("AS");
    let i = g.id();
    e.put("as", a);
    e.put("alias", i);
    e
}
fn qu_layer(g: &mut G, k: usize, ks: &[usize]) -> E {
    match k {
        0 => gstmt(g, |g| qu(g, ks)),
        1 => from(g, |g| gstmt(g, |g| qu(g, ks))),
        2 => from(g, |g| {
            let l = tbl(g);
            join_on(g, l, |g| {
                let q = gstmt(g, |g| qu(g, ks));
                alias_as(g, q)
            })
        }),
        3 => from(g, |g| {
            let q = gstmt(g, |g| qu(g, ks));
            let l = alias_as(g, q);
            join_on(g, l, |g| tbl(g))
        }),
        4 => from(g, |g| {
            grouped(g, |g| {
                let l = gstmt(g, |g| qu(g, ks));
                join_on(g, l, |g| tbl(g))
            })
        }),
        5 => from(g, |g| {
            grouped(g, |g| {
                let l = tbl(g);
                join_on(g, l, |g| gstmt(g, |g| qu(g, ks)))
            })
        }),
        6 => {
            let w = g.t("WITH");
            let mut c = g.id();
            c.kind = "WithQuery";
            let a = g.kw("AS");
            let q = gstmt(g, |g| qu(g, ks));
            let s = sel(g, |g| g.id());
            s.c("with", n("WithClause", w).v("queries", vec![c.c("as", a).c("stmt", q)]))
        }
        7 => {
            // WITH a AS (SELECT 1), b AS (q) (SELECT ...)
            let w = g.t("WITH");
            let mut c = g.id();
            c.kind = "WithQuery";
            let a = g.kw("AS");
            let q = gstmt(g, |g| sel(g, |g| g.id()));
            let c = c.c("as", a).c("stmt", q);
            let v = comma(g, c, |g| {
                let mut c = g.id();
                c.kind = "WithQuery";
                let a = g.kw("AS");
                let q = gstmt(g, |g| qu(g, ks));
                c.c("as", a).c("stmt", q)
            });
            let s = from(g, |g| tbl(g));
            s.c("with", n("WithClause", w).v("queries", v))
        }
        8 => {
            let l = gstmt(g, |g| qu(g, ks));
            union(g, l, |g| sel(g, |g| g.id()))
        }
        9 => {
            let l = sel(g, |g| g.id());
            union(g, l, |g| gstmt(g, |g| qu(g, ks)))
        }
        10 => {
            let l = gstmt(g, |g| qu(g, ks));
            let t = g.t("|>");
            let w = g.t("WHERE");
            let x = g.id();
            n("PipeStatement", t).c("left", l).c("right", n("BasePipeOperator", w).v("exprs", vec![x]))
        }
        11 => {
            let f = g.t("FROM");
            let q = gstmt(g, |g| qu(g, ks));
            let l = n("FromStatement", f).c("expr", q);
            let t = g.t("|>");
            let w = g.t("SELECT");
            let x = g.id();
            n("PipeStatement", t).c("left", l).c("right", n("SelectPipeOperator", w).v("exprs", vec![x]))
        }
        12 => {
            let f = g.t("FROM");
            let i = tbl(g);
            let l = n("FromStatement", f).c("expr", i);
            let t = g.t("|>");
            let j = g.t("JOIN");
            let q = gstmt(g, |g| qu(g, ks));
            let q = alias_as(g, q);
            let on = g.kwx("ON", |g| g.id());
            n("PipeStatement", t).c("left", l).c("right", n("JoinPipeOperator", j).v("exprs", vec![q]).c("on", on))
        }
        13 => {
            let f = g.t("FROM");
            let i = tbl(g);
            let l = n("FromStatement", f).c("expr", i);
            let t = g.t("|>");
            let u = g.t("UNION");
            let a = g.kw("ALL");
            let q = gstmt(g, |g| ex_query(g, ks));
            n("PipeStatement", t).c("left", l).c("right", n("UnionPipeOperator", u).c("keywords", a).v("exprs", vec![q]))
        }
        14 => sel(g, |g| fcall(g, "ARRAY", |g| vec![ex_query(g, ks)])),
        15 => {
            let mut s = from(g, |g| tbl(g));
            let w = g.kwx("WHERE", |g| {
                let l = g.id();
                let o = g.t("IN");
                let r = gstmt(g, |g| ex_query(g, ks));
                n("InOperator", o).c("left", l).c("right", r)
            });
            s.put("where", w);
            s
        }
        16 => {
            let mut e = gstmt(g, |g| qu(g, ks));
            let t = g.t("LIMIT");
            let x = one(g);
            e.put("limit", n("LimitClause", t).c("expr", x));
            e
        }
        17 => {
            // three operands
            let l = sel(g, |g| g.id());
            let l = union(g, l, |g| gstmt(g, |g| qu(g, ks)));
            union(g, l, |g| sel(g, |g| g.id()))
        }
        18 => from(g, |g| {
            // (a JOIN (b JOIN (q)))
            grouped(g, |g| {
                let l = tbl(g);
                join_on(g, l, |g| {
                    grouped(g, |g| {
                        let l = tbl(g);
                        join_on(g, l, |g| gstmt(g, |g| qu(g, ks)))
                    })
                })
            })
        }),
        _ => from(g, |g| {
            // table function
            let f = g.id();
            let l = g.t("(");
            let q = gstmt(g, |g| ex_query(g, ks));
            let r = g.sym(")");
            n("CallingTableFunction", l).c("func", f).v("args", vec![q]).c("rparen", r)
        }),
    }
}
/// a query inside an expression: one that starts with a keyword
fn ex_query(g: &mut G, ks: &[usize]) -> E {
    match ks.first() {
        Some(0 | 8 | 10 | 16) => from(g, |g| gstmt(g, |g| qu(g, ks))),
        Some(11 | 12 | 13) => from(g, |g| gstmt(g, |g| qu(g, ks))),
        _ => qu(g, ks),
    }
}
// ----- tables -----
pub const TA: usize = 8;
fn ta(g: &mut G, ks: &[usize]) -> E {
    match ks.split_first() {
        None => g.id(),
        Some((k, ks)) => match k {
            0 => grouped(g, |g| {
                let l = ta(g, ks);
                join_on(g, l, |g| tbl(g))
            }),
            1 => grouped(g, |g| {
                let l = tbl(g);
                join_on(g, l, |g| ta(g, ks))
            }),
            2 => grouped(g, |g| {
                let l = ta(g, ks);
                let c = g.t(",");
                let r = tbl(g);
                n("JoinOperator", c).c("left", l).c("right", r)
            }),
            3 => grouped(g, |g| {
                let l = tbl(g);
                let w = g.kw("CROSS");
                let t = g.t("JOIN");
                let r = ta(g, ks);
                n("JoinOperator", t).c("left", l).c("right", r).c("join_type", w)
            }),
            4 => gstmt(g, |g| from(g, |g| ta(g, ks))),
            5 => {
                let q = gstmt(g, |g| from(g, |g| ta(g, ks)));
                alias_as(g, q)
            }
            6 => gstmt(g, |g| gstmt(g, |g| from(g, |g| ta(g, ks)))),
            _ => gstmt(g, |g| {
                let t = g.t("FROM");
                let x = ta(g, ks);
                n("FromStatement", t).c("expr", x)
            }),
        },
    }
}
// ----- types -----
pub const TY: usize = 6;
fn tyl(g: &mut G, ks: &[usize]) -> E {
    let field = |g: &mut G, ks: &[usize]| {
        let mut d = g.id();
        d.kind = "TypeDeclaration";
        let t = tyl(g, ks);
        d.c("type", t)
    };
    match ks.split_first() {
        None => n("Type", g.t("INT64")),
        Some((0, ks)) => {
            let t = g.t("ARRAY");
            let l = g.t("<");
            let inner = tyl(g, ks);
            let r = g.sym(">");
            n("Type", t).c("type_declaration", n("GroupedType", l).c("type", inner).c("rparen", r))
        }
        Some((1, ks)) => struct_of(g, |g| {
            let t = tyl(g, ks);
            vec![none("TypeDeclaration").c("type", t)]
        }),
        Some((2, ks)) => struct_of(g, |g| vec![field(g, ks)]),
        Some((3, ks)) => struct_of(g, |g| {
            let a = field(g, ks);
            comma(g, a, |g| field(g, &[]))
        }),
        Some((4, ks)) => struct_of(g, |g| {
            let a = field(g, &[]);
            comma(g, a, |g| field(g, ks))
        }),
        Some((_, ks)) => {
            // a parameterized neighbour
            struct_of(g, |g| {
                let mut d = g.id();
                d.kind = "TypeDeclaration";
                let t = g.t("NUMERIC");
                let l = g.t("(");
                let x = one(g);
                let v = comma(g, x, |g| one(g));
                let r = g.sym(")");
                let ty = n("Type", t).c("parameter", n("GroupedExprs", l).v("exprs", v).c("rparen", r));
                comma(g, d.c("type", ty), |g| field(g, ks))
            })
        }
    }
}
// ----- statements -----
pub const ST: usize = 20;
fn semi(g: &mut G, e: E) -> E {
    let s = g.sym(";");
    e.c("semicolon", s)
}
fn leaf_st(g: &mut G) -> E {
    let e = sel(g, |g| g.id());
    semi(g, e)
}
/// one statement, without its semicolon
fn st(g: &mut G, ks: &[usize]) -> E {
    match ks.split_first() {
        None => sel(g, |g| g.id()),
        Some((k, ks)) => st_layer(g, *k, ks),
    }
}
fn inner(g: &mut G, ks: &[usize]) -> Vec<E> {
    block(g, |g| {
        let e = st(g, ks);
        vec![semi(g, e)]
    })
}
fn kws(g: &mut G, w: &str, ks: &[usize]) -> E {
    let t = g.t(w);
    let v = inner(g, ks);
    n("KeywordWithStatements", t).v("stmts", v)
}
fn label(g: &mut G) -> (E, E) {
    let i = g.id();
    let c = g.sym(":");
    (i, c)
}
fn unlabel(g: &mut G, e: E, l: (E, E), trailing: bool) -> E {
    let lit = g.toks[l.0.tok.unwrap()].lit.clone();
    let e = e.c("leading_label", l.0).c("colon", l.1);
    if trailing {
        let t = n("Identifier", g.t(&lit));
        e.c("trailing_label", t)
    } else {
        e
    }
}
fn begin(g: &mut G, ks: &[usize]) -> E {
    let e = n("BeginStatement", g.t("BEGIN"));
    let v = inner(g, ks);
    let end = g.kw("END");
    e.v("stmts", v).c("end", end)
}
fn st_layer(g: &mut G, k: usize, ks: &[usize]) -> E {
    match k {
        0 => begin(g, ks),
        1 => {
            let e = n("BeginStatement", g.t("BEGIN"));
            let v = inner(g, &[]);
            let x = g.kws(&["EXCEPTION", "WHEN", "ERROR"]);
            let t = kws(g, "THEN", ks);
            let end = g.kw("END");
            e.v("stmts", v).v("exception_when_error", x).c("then", t).c("end", end)
        }
        2 => {
            let e = n("BeginStatement", g.t("BEGIN"));
            let v = inner(g, ks);
            let x = g.kws(&["EXCEPTION", "WHEN", "ERROR"]);
            let t = kws(g, "THEN", &[]);
            let end = g.kw("END");
            e.v("stmts", v).v("exception_when_error", x).c("then", t).c("end", end)
        }
        3..=6 => {
            let t = g.t("IF");
            let c = g.id();
            let th = kws(g, "THEN", if k == 3 || k == 6 { ks } else { &[] });
            let mut e = n("IfStatement", t).c("condition", c).c("then", th);
            if k == 4 {
                let t = g.t("ELSEIF");
                let c = g.id();
                let th = kws(g, "THEN", ks);
                e.putv("elseifs", vec![n("ElseIfClause", t).c("condition", c).c("then", th)]);
            }
            if k == 5 || k == 6 {
                let x = kws(g, "ELSE", if k == 5 { ks } else { &[] });
                e.put("else", x);
            }
            let end = g.kws(&["END", "IF"]);
            e.v("end_if", end)
        }
        7 | 8 => {
            let mut e = n("CaseStatement", g.t("CASE"));
            if k == 8 {
                let x = g.id();
                e.put("expr", x);
            }
            let w = g.t("WHEN");
            let c = g.id();
            let t = g.kw("THEN");
            let s = inner(g, if k == 7 { ks } else { &[] });
            let mut arms = vec![n("CaseStatementArm", w).c("expr", c).c("then", t).v("stmts", s)];
            if k == 8 {
                let w = g.t("ELSE");
                let s = inner(g, ks);
                arms.push(n("CaseStatementArm", w).v("stmts", s));
            }
            let end = g.kws(&["END", "CASE"]);
            e.v("arms", arms).v("end_case", end)
        }
        9 => {
            let e = kws(g, "LOOP", ks).kind("LoopStatement");
            let end = g.kws(&["END", "LOOP"]);
            e.v("end_loop", end)
        }
        10 => {
            let e = kws(g, "REPEAT", ks).kind("RepeatStatement");
            let u = g.kwx("UNTIL", |g| g.id());
            let end = g.kws(&["END", "REPEAT"]);
            e.c("until", u).v("end_repeat", end)
        }
        11 => {
            let t = g.t("WHILE");
            let c = g.id();
            let d = kws(g, "DO", ks);
            let end = g.kws(&["END", "WHILE"]);
            n("WhileStatement", t).c("condition", c).c("do", d).v("end_while", end)
        }
        12 => {
            let t = g.t("FOR");
            let i = g.id();
            let in_ = g.t("IN");
            let q = gstmt(g, |g| sel(g, |g| g.id()));
            let d = kws(g, "DO", ks);
            let end = g.kws(&["END", "FOR"]);
            n("ForStatement", t)
                .c("ident", i)
                .c("in", n("KeywordWithGroupedXXX", in_).c("group", q))
                .c("do", d)
                .v("end_for", end)
        }
        13 => {
            let l = label(g);
            let e = begin(g, ks);
            unlabel(g, e, l, true)
        }
        14 => {
            let l = label(g);
            let e = st_layer(g, 9, ks);
            unlabel(g, e, l, true)
        }
        15 => {
            let l = label(g);
            let e = st_layer(g, 11, ks);
            unlabel(g, e, l, false)
        }
        16 => {
            let l = label(g);
            let e = st_layer(g, 12, ks);
            unlabel(g, e, l, true)
        }
        17 => {
            let l = label(g);
            let e = st_layer(g, 10, ks);
            unlabel(g, e, l, false)
        }
        18 => {
            // a statement before and after
            let e = n("BeginStatement", g.t("BEGIN"));
            let v = block(g, |g| {
                let a = leaf_st(g);
                let b = st(g, ks);
                let b = semi(g, b);
                let c = leaf_st(g);
                vec![a, b, c]
            });
            let end = g.kw("END");
            e.v("stmts", v).c("end", end)
        }
        _ => {
            let e = n("CreateProcedureStatement", g.t("CREATE"));
            let w = g.kw("PROCEDURE");
            let i = g.id();
            let l = g.t("(");
            let r = g.sym(")");
            let gr = n("GroupedTypeDeclarationOrConstraints", l).c("rparen", r);
            let b = begin(g, ks);
            e.c("what", w).c("ident", i).c("group", gr).c("stmt", b)
        }
    }
}

macro_rules! roots {
    ($seq2:ident, $seq3:ident, $seq4:ident, $one:ident, $two:ident, $ends:ident, $deep:ident, $n:expr, $f:expr) => {
        pub fn $seq2(g: &mut G) -> E {
            let ks = seq(g, $n, 2);
            $f(g, &ks)
        }
        pub fn $seq3(g: &mut G) -> E {
            let ks = seq(g, $n, 3);
            $f(g, &ks)
        }
        pub fn $seq4(g: &mut G) -> E {
            let ks = seq(g, $n, 4);
            $f(g, &ks)
        }
        pub fn $one(g: &mut G) -> E {
            let ks = pumped(g, $n, false);
            $f(g, &ks)
        }
        pub fn $two(g: &mut G) -> E {
            let ks = pumped(g, $n, true);
            $f(g, &ks)
        }
        pub fn $deep(g: &mut G) -> E {
            let k = g.free($n);
            let d = [16, 20, 33][g.free(3)];
            // a parenthesised table that opens with a query is retried level by level, at
            // twice the cost for each: such nestings stay at 10 levels
            let d = if stringify!($deep) == "qud" && k == 4 { 10 } else { d };
            $f(g, &vec![k; d])
        }
        pub fn $ends(g: &mut G) -> E {
            let ks = ends(g, $n, $n < 30);
            $f(g, &ks)
        }
    };
}
roots!(ex2, ex3, ex4, exp1, exp2, exe, exd, EX, |g: &mut G, ks: &[usize]| sel(g, |g| ex(g, ks)));
roots!(qu2, qu3, qu4, qup1, qup2, que, qud, QU, |g: &mut G, ks: &[usize]| qu(g, ks));
roots!(ta2, ta3, ta4, tap1, tap2, tae, tad, TA, |g: &mut G, ks: &[usize]| from(g, |g| ta(g, ks)));
roots!(ty2, ty3, ty4, typ1, typ2, tye, tyd, TY, |g: &mut G, ks: &[usize]| {
    let t = g.t("DECLARE");
    let i = g.id();
    let ty = tyl(g, ks);
    n("DeclareStatement", t).v("idents", vec![i]).c("variable_type", ty)
});
roots!(st2, st3, st4, stp1, stp2, ste, std, ST, |g: &mut G, ks: &[usize]| {
    let e = st(g, ks);
    semi(g, e)
});
