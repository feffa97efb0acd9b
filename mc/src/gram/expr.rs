use super::query::*;
use super::types::*;
use super::*;

pub fn leaf_num(g: &mut G) -> E {
    n("NumericLiteral", g.t("10"))
}
/// every lexical class of leaf
pub fn leaf(g: &mut G) -> E {
    const L: [(&str, &str); 35] = [
        ("NumericLiteral", "1"),
        ("NumericLiteral", "007"),
        ("NumericLiteral", "1.5"),
        ("NumericLiteral", ".5"),
        ("NumericLiteral", "1."),
        ("NumericLiteral", "1e10"),
        ("NumericLiteral", "1E-3"),
        ("NumericLiteral", "1.5e+3"),
        ("NumericLiteral", ".5e3"),
        ("NumericLiteral", "1.e3"),
        ("NumericLiteral", "0x1F"),
        ("NumericLiteral", "0XabE"),
        ("StringLiteral", "'s'"),
        ("StringLiteral", "\"s\""),
        ("StringLiteral", "''"),
        ("StringLiteral", "'it\\'s \\\\'"),
        ("StringLiteral", "'''m\nl ' '''"),
        ("StringLiteral", "\"\"\"a\"b\"\"\""),
        ("StringLiteral", "'--no /* comment'"),
        ("StringLiteral", "'é日'"),
        ("BooleanLiteral", "TRUE"),
        ("BooleanLiteral", "false"),
        ("NullLiteral", "NULL"),
        ("Parameter", "@p"),
        ("Parameter", "@@sys_var"),
        ("Parameter", "@`q p`"),
        ("Parameter", "?"),
        ("Template", "{{ t }}"),
        ("Template", "{x}"),
        ("Template", "{% if a %}"),
        ("Template", "{}"),
        ("Identifier", "`q.x`"),
        ("Identifier", "_"),
        ("Identifier", "json"),
        ("Identifier", "r"),
    ];
    let k = g.alt(L.len());
    n(L[k].0, g.t(L[k].1))
}
pub fn grouped_exprs(g: &mut G, f: impl FnMut(&mut G) -> E) -> E {
    let l = g.t("(");
    let v = g.list(f);
    let r = g.sym(")");
    n("GroupedExprs", l).v("exprs", v).c("rparen", r)
}
/// `( args )` applied to an already emitted function name; None = no argument
pub fn call_with(g: &mut G, func: E, f: impl FnOnce(&mut G) -> Vec<Option<E>>) -> E {
    let l = g.t("(");
    let args: Vec<E> = f(g).into_iter().flatten().collect();
    let r = g.sym(")");
    let mut e = n("CallingFunction", l).c("func", func).c("rparen", r);
    if !args.is_empty() {
        e.putv("args", args);
    }
    e
}
/// path a.b.c as an expression: DotOperators nested to the left
pub fn dotted(g: &mut G, first: E, k: usize) -> E {
    let mut e = first;
    for _ in 0..k {
        let d = g.t(".");
        let r = g.id();
        e = n("DotOperator", d).c("left", e).c("right", r);
    }
    e
}
/// `[AS] alias`
pub fn alias(g: &mut G, e: &mut E) {
    match g.ralt(3) {
        0 => (),
        1 => {
            let a = g.kw("AS");
            let i = g.idx();
            e.put("as", a);
            e.put("alias", i);
        }
        _ => {
            let i = g.id();
            e.put("alias", i);
        }
    }
}
pub fn order(g: &mut G, e: &mut E) {
    match g.ralt(3) {
        0 => (),
        k => {
            let o = g.kw(["", "ASC", "DESC"][k]);
            e.put("order", o);
        }
    }
    match g.ralt(3) {
        0 => (),
        k => {
            let o = g.kws(&["NULLS", ["", "FIRST", "LAST"][k]]);
            e.putv("null_order", o);
        }
    }
}
pub fn orderby(g: &mut G) -> E {
    let t = g.t("ORDER");
    let by = g.kw("BY");
    let v = g.list(|g| {
        let mut e = expr(g);
        order(g, &mut e);
        e
    });
    n("XXXByExprs", t).c("by", by).v("exprs", v)
}
pub fn partitionby(g: &mut G) -> E {
    let t = g.t("PARTITION");
    let by = g.kw("BY");
    let v = g.list(|g| expr(g));
    n("XXXByExprs", t).c("by", by).v("exprs", v)
}

/// Any expression.  Default: an identifier.
pub fn expr(g: &mut G) -> E {
    if g.small > 0 {
        return small_expr(g);
    }
    match g.alt(2 + OPS) {
        0 => g.id(),
        1 => prim_full(g),
        k => op(g, k - 2),
    }
}
/// A few representative expressions, for grammars that focus on clauses.
pub fn small_expr(g: &mut G) -> E {
    match g.alt(9) {
        0 => g.id(),
        1 => n("NumericLiteral", g.t("1")),
        2 => {
            let f = g.id();
            call_with(g, f, |g| vec![Some(n("StringLiteral", g.t("'s'")))])
        }
        3 => {
            let l = g.id();
            let o = g.t("+");
            let r = g.id();
            n("BinaryOperator", o).c("left", l).c("right", r)
        }
        4 => subquery(g),
        5 => {
            let i = g.id();
            dotted(g, i, 1)
        }
        6 => case_min(g),
        7 => {
            let t = g.t("-");
            let i = n("NumericLiteral", g.t("2"));
            n("UnaryOperator", t).c("right", i)
        }
        _ => {
            let l = g.id();
            let o = g.t("AND");
            let r = g.id();
            n("BinaryOperator", o).c("left", l).c("right", r)
        }
    }
}
fn case_min(g: &mut G) -> E {
    let t = g.t("CASE");
    let w = g.t("WHEN");
    let c = g.id();
    let th = g.kw("THEN");
    let r = g.id();
    let e = g.kw("END");
    n("CaseExpr", t)
        .v("arms", vec![n("CaseExprArm", w).c("expr", c).c("then", th).c("result", r)])
        .c("end", e)
}
/// Primary expression usable as operand of any operator.  Default: an identifier.
pub fn prim(g: &mut G) -> E {
    if g.small > 0 {
        return match g.alt(4) {
            0 => g.id(),
            1 => n("NumericLiteral", g.t("1")),
            2 => n("StringLiteral", g.t("'s'")),
            _ => {
                let f = g.id();
                call_with(g, f, |_| vec![])
            }
        };
    }
    match g.alt(2) {
        0 => g.id(),
        _ => prim_full(g),
    }
}
pub const OPS: usize = 7;
pub fn op(g: &mut G, k: usize) -> E {
    match k {
        0 => {
            // binary
            let l = prim(g);
            let o = g.pick(&[
                "+", "-", "*", "/", "||", "<<", ">>", "&", "^", "|", "=", "<", ">", "<=", ">=", "!=", "<>", "LIKE",
                "AND", "OR",
            ]);
            let o = g.t(o);
            let r = prim(g);
            n("BinaryOperator", o).c("left", l).c("right", r)
        }
        1 => {
            let o = g.pick(&["-", "+", "~", "NOT"]);
            let o = g.t(o);
            let r = prim(g);
            n("UnaryOperator", o).c("right", r)
        }
        2 => {
            // IS
            let l = prim(g);
            let o = g.t("IS");
            let not = g.maybe(|g| g.kw("NOT"));
            match g.alt(4) {
                0 => {
                    let r = n("NullLiteral", g.t("NULL"));
                    n("BinaryOperator", o).c("left", l).co("not", not).c("right", r)
                }
                1 => {
                    let r = n("BooleanLiteral", g.t("TRUE"));
                    n("BinaryOperator", o).c("left", l).co("not", not).c("right", r)
                }
                2 => {
                    let r = n("BooleanLiteral", g.t("FALSE"));
                    n("BinaryOperator", o).c("left", l).co("not", not).c("right", r)
                }
                _ => {
                    let d = g.kw("DISTINCT");
                    let f = g.kw("FROM");
                    let r = prim(g);
                    n("IsDistinctFromOperator", o)
                        .c("left", l)
                        .co("not", not)
                        .c("distinct", d)
                        .c("from", f)
                        .c("right", r)
                }
            }
        }
        3 => {
            let l = prim(g);
            let not = g.maybe(|g| g.kw("NOT"));
            let o = g.t("BETWEEN");
            let a = prim(g);
            let and = g.kw("AND");
            let b = prim(g);
            n("BetweenOperator", o)
                .c("left", l)
                .co("not", not)
                .c("right_min", a)
                .c("and", and)
                .c("right_max", b)
        }
        4 => {
            let l = prim(g);
            let not = g.maybe(|g| g.kw("NOT"));
            let o = g.t("IN");
            let r = match g.alt(3) {
                0 => grouped_exprs(g, |g| expr(g)),
                1 => {
                    let f = n("Identifier", g.t("UNNEST"));
                    call_with(g, f, |g| vec![Some(expr(g))]).kind("CallingUnnest")
                }
                _ => subquery(g),
            };
            n("InOperator", o).c("left", l).co("not", not).c("right", r)
        }
        5 => {
            // LIKE with NOT / quantifier
            let l = prim(g);
            let not = g.maybe(|g| g.kw("NOT"));
            let o = g.t("LIKE");
            match g.alt(4) {
                0 => {
                    let r = prim(g);
                    n("BinaryOperator", o).c("left", l).co("not", not).c("right", r)
                }
                k => {
                    let q = g.kw(["", "ANY", "ALL", "SOME"][k]);
                    let r = match g.alt(4) {
                        0 => tuple(g, 2),
                        1 => {
                            // a single parenthesized pattern
                            let t = g.t("(");
                            let e = expr(g);
                            let r = g.sym(")");
                            n("GroupedExpr", t).c("expr", e).c("rparen", r)
                        }
                        2 => subquery(g),
                        _ => {
                            let f = n("Identifier", g.t("UNNEST"));
                            call_with(g, f, |g| vec![Some(expr(g))])
                        }
                    };
                    n("BinaryOperator", o)
                        .c("left", l)
                        .co("not", not)
                        .c("quantifier", q)
                        .c("right", r)
                }
            }
        }
        _ => {
            // two operators of the same level: left associative
            let a = prim(g);
            let o1 = g.t("+");
            let b = prim(g);
            let o2 = g.t("-");
            let c = prim(g);
            let l = n("BinaryOperator", o1).c("left", a).c("right", b);
            n("BinaryOperator", o2).c("left", l).c("right", c)
        }
    }
}
pub fn tuple(g: &mut G, k: usize) -> E {
    let t = g.t("(");
    let v = g.listn(k, |g| {
        let mut e = expr(g);
        if g.small == 0 {
            alias(g, &mut e);
        }
        e
    });
    let r = g.sym(")");
    n("StructLiteral", t).v("exprs", v).c("rparen", r)
}
pub fn subquery(g: &mut G) -> E {
    let t = g.t("(");
    let q = g.nested(|g| query(g));
    let r = g.sym(")");
    n("GroupedStatement", t).c("stmt", q).c("rparen", r)
}
pub const PRIMS: usize = 20;
pub fn prim_full(g: &mut G) -> E {
    let k = g.free(PRIMS);
    prim_k(g, k)
}
pub fn prim_k(g: &mut G, k: usize) -> E {
    match k {
        0 => leaf(g),
        1 => g.idx(),
        2 => {
            // typed and prefixed literals
            match g.alt(10) {
                9 => {
                    let p = g.pick(&["r", "b", "rb", "br", "R", "B", "Rb", "bR"]);
                    let p = g.t(p);
                    let s = g.alt(3);
                    let s = g.glue(["'s'", "\"\\d\"", "'''t'''"][s]);
                    n("UnaryOperator", p).c("right", n("StringLiteral", s))
                }
                k => {
                    let w = [
                        "DATE", "TIME", "DATETIME", "TIMESTAMP", "NUMERIC", "BIGNUMERIC", "DECIMAL", "BIGDECIMAL",
                        "JSON",
                    ][k];
                    let t = g.t(w);
                    let r = match g.alt(3) {
                        0 => n("StringLiteral", g.t("'2020-01-01'")),
                        1 => n("StringLiteral", g.t("\"\"\"1\"\"\"")),
                        _ => {
                            let p = g.t("r");
                            let s = g.glue("'s'");
                            n("UnaryOperator", p).c("right", n("StringLiteral", s))
                        }
                    };
                    n("UnaryOperator", t).c("right", r)
                }
            }
        }
        3 => {
            // field access
            let first = match g.alt(8) {
                0 => g.id(),
                6 => n("Identifier", g.t("model")),
                7 => n("Identifier", g.t("table")),
                1 => n("Identifier", g.t("`q`")),
                2 => n("Parameter", g.t("@p")),
                3 => n("Template", g.t("{{t}}")),
                4 => {
                    let f = g.id();
                    call_with(g, f, |_| vec![])
                }
                _ => group(g),
            };
            let d = g.t(".");
            let right = match g.alt(5) {
                0 => g.id(),
                1 => n("Identifier", g.t("`q f`")),
                2 => n("Identifier", g.t("select")),
                3 => n("Identifier", g.t("date")),
                _ => n("Identifier", g.t("order")),
            };
            let e = n("DotOperator", d).c("left", first).c("right", right);
            let k = g.count(&[0, 1, 2]);
            dotted(g, e, k)
        }
        4 => {
            // subscript
            let first = match g.alt(4) {
                0 => g.id(),
                1 => {
                    let i = g.id();
                    dotted(g, i, 1)
                }
                2 => {
                    let f = g.id();
                    call_with(g, f, |_| vec![])
                }
                _ => {
                    let t = g.t("[");
                    let v = g.listn(2, |g| leaf_num(g));
                    let r = g.sym("]");
                    n("ArrayLiteral", t).v("exprs", v).c("rparen", r)
                }
            };
            let mut e = first;
            let k = g.count(&[1, 2]);
            for i in 0..k {
                let t = g.t("[");
                let i = g.rep(i, k, |g| match g.alt(3) {
                    0 => expr(g),
                    1 => n("StringLiteral", g.t("'k'")),
                    _ => {
                        let w = g.pick(&["OFFSET", "ORDINAL", "SAFE_OFFSET", "SAFE_ORDINAL"]);
                        let f = n("Identifier", g.t(w));
                        call_with(g, f, |g| vec![Some(expr(g))])
                    }
                });
                let r = g.sym("]");
                e = n("AccessOperator", t).c("left", e).c("right", i).c("rparen", r);
            }
            let k = g.alt(2);
            dotted(g, e, k)
        }
        5 => call(g),
        6 => {
            // calls with window
            let f = match g.alt(3) {
                0 => g.id(),
                1 => n("Identifier", g.t("COUNT")),
                _ => n("Identifier", g.t("first_value")),
            };
            let mut c = match g.alt(3) {
                0 => call_with(g, f, |g| vec![Some(expr(g))]),
                1 => call_with(g, f, |_| vec![]),
                _ => {
                    let l = g.t("(");
                    let a = expr(g);
                    let i = g.pick(&["IGNORE", "RESPECT"]);
                    let i = g.kws(&[i, "NULLS"]);
                    let r = g.sym(")");
                    n("CallingFunction", l)
                        .c("func", f)
                        .v("args", vec![a])
                        .v("ignore_nulls", i)
                        .c("rparen", r)
                }
            };
            let o = g.t("OVER");
            let w = match g.alt(2) {
                0 => window_spec(g),
                _ => g.id(),
            };
            c.put("over", n("OverClause", o).c("window", w));
            c
        }
        7 => {
            // CAST
            let f = g.pick(&["CAST", "SAFE_CAST"]);
            let f = n("Identifier", g.t(f));
            let l = g.t("(");
            let from = expr(g);
            let a = g.t("AS");
            let to = ty(g, TCtx::Plain);
            let fmt = g.maybe(|g| g.kwx("FORMAT", |g| expr(g)));
            let r = g.sym(")");
            n("CallingFunction", l)
                .c("func", f)
                .v(
                    "args",
                    vec![n("CastArgument", a).c("cast_from", from).c("cast_to", to).co("format", fmt)],
                )
                .c("rparen", r)
        }
        8 => {
            let f = n("Identifier", g.t("EXTRACT"));
            let l = g.t("(");
            let part = match g.alt(3) {
                0 => n("Identifier", g.t("DAY")),
                1 => n("Identifier", g.t("DATE")),
                _ => {
                    let w = n("Identifier", g.t("WEEK"));
                    call_with(g, w, |g| vec![Some(n("Identifier", g.t("MONDAY")))])
                }
            };
            let fr = g.t("FROM");
            let e = expr(g);
            let mut a = n("ExtractArgument", fr).c("extract_datepart", part).c("extract_from", e);
            if g.opt() {
                let k = g.kws(&["AT", "TIME", "ZONE"]);
                let z = expr(g);
                a.putv("at_time_zone", k);
                a.put("time_zone", z);
            }
            let r = g.sym(")");
            n("CallingFunction", l).c("func", f).v("args", vec![a]).c("rparen", r)
        }
        9 => {
            // CASE
            let t = g.t("CASE");
            let mut e = n("CaseExpr", t);
            if let Some(x) = g.maybe(|g| expr(g)) {
                e.put("expr", x);
            }
            let mut arms = vec![];
            let k = g.count(&[1, 2, 3]);
            for i in 0..k {
                arms.push(g.rep(i, k, |g| {
                    let w = g.t("WHEN");
                    let c = expr(g);
                    let th = g.kw("THEN");
                    let r = expr(g);
                    n("CaseExprArm", w).c("expr", c).c("then", th).c("result", r)
                }));
            }
            if g.opt() {
                let w = g.t("ELSE");
                let r = expr(g);
                arms.push(n("CaseExprArm", w).c("result", r));
            }
            let end = g.kw("END");
            e.v("arms", arms).c("end", end)
        }
        10 => {
            // INTERVAL
            let t = g.t("INTERVAL");
            let x = match g.alt(4) {
                0 => n("NumericLiteral", g.t("1")),
                1 => n("StringLiteral", g.t("'1-2'")),
                2 => {
                    let m = g.t("-");
                    let one = n("NumericLiteral", g.t("1"));
                    n("UnaryOperator", m).c("right", one)
                }
                _ => expr(g),
            };
            let p = g.pick(&["DAY", "YEAR", "MONTH", "hour", "MICROSECOND"]);
            let p = g.kw(p);
            let mut e = n("IntervalLiteral", t).c("expr", x).c("date_part", p);
            if g.opt() {
                let to = g.kw("TO");
                let q = g.kw("SECOND");
                e.put("to", to);
                e.put("to_date_part", q);
            }
            e
        }
        11 => {
            // STRUCT(...)
            let ty = match g.alt(2) {
                0 => n("Type", g.t("STRUCT")),
                _ => struct_type(g, "STRUCT", TCtx::Plain),
            };
            let l = g.t("(");
            let k = g.count(&[1, 0, 2, 3]);
            let v = g.listn(k, |g| {
                let mut e = expr(g);
                alias(g, &mut e);
                e
            });
            let r = g.sym(")");
            n("StructLiteral", l).v("exprs", v).c("rparen", r).c("type", ty)
        }
        12 => {
            // array constructors
            let ty = match g.alt(3) {
                0 => None,
                1 => Some(n("Type", g.t("ARRAY"))),
                _ => {
                    let t = g.t("ARRAY");
                    let l = g.t("<");
                    let inner = self::ty(g, TCtx::Plain);
                    let r = g.sym(">");
                    Some(
                        n("Type", t).c("type_declaration", n("GroupedType", l).c("type", inner).c("rparen", r)),
                    )
                }
            };
            let l = g.t("[");
            let k = g.count(&[1, 0, 2, 3]);
            let v = g.listn(k, |g| expr(g));
            let r = g.sym("]");
            n("ArrayLiteral", l).v("exprs", v).c("rparen", r).co("type", ty)
        }
        13 => {
            // ARRAY(subquery), EXISTS(subquery)
            let w = g.pick(&["ARRAY", "EXISTS"]);
            let f = n("Identifier", g.t(w));
            call_with(g, f, |g| vec![Some(g.nested(|g| query(g)))])
        }
        14 => subquery(g),
        15 => {
            let t = g.t("RANGE");
            let l = g.t("<");
            let inner = scalar(g);
            let r = g.sym(">");
            let ty = n("Type", t).c("type_declaration", n("GroupedType", l).c("type", inner).c("rparen", r));
            n("RangeLiteral", g.t("'[2020-01-01, 2021-01-01)'")).c("type", ty)
        }
        16 => {
            // WITH(a AS 1, b AS 2, a)
            let f = n("Identifier", g.t("WITH"));
            call_with(g, f, |g| {
                let mut v = vec![];
                let k = g.count(&[1, 2]);
                for i in 0..k {
                    let mut e = g.id();
                    let a = g.kw("AS");
                    let x = g.rep(i, k, |g| expr(g));
                    e.put("as", a);
                    e.put("alias", x);
                    let c = g.sym(",");
                    e.put("comma", c);
                    v.push(Some(e));
                }
                v.push(Some(expr(g)));
                v
            })
        }
        17 => {
            // chained calls
            let mut e = match g.alt(5) {
                0 => group(g),
                1 => {
                    let f = g.id();
                    call_with(g, f, |g| vec![Some(expr(g))])
                }
                2 => n("StringLiteral", g.t("'s'")),
                3 => n("Parameter", g.t("@p")),
                _ => {
                    let t = g.t("[");
                    let v = g.listn(1, |g| expr(g));
                    let r = g.sym("]");
                    n("ArrayLiteral", t).v("exprs", v).c("rparen", r)
                }
            };
            let k = g.count(&[1, 2, 3]);
            for i in 0..k {
                let d = g.t(".");
                let f = g.id();
                let c = g.rep(i, k, |g| call_with(g, f, |g| if g.opt() { vec![Some(expr(g))] } else { vec![] }));
                e = n("FunctionChain", d).c("left", e).c("right", c);
            }
            e
        }
        18 => match g.alt(3) {
            0 => group(g),
            1 => {
                let k = 2 + g.alt(2);
                tuple(g, k)
            }
            _ => {
                let t = g.t("(");
                let r = g.sym(")");
                n("EmptyStruct", t).c("rparen", r)
            }
        },
        _ => {
            // functions whose names are reserved words
            let w = g.pick(&["IF", "LEFT", "RIGHT", "RANGE", "COLLATE", "HASH", "UNNEST"]);
            let f = n("Identifier", g.t(w));
            let k = 1 + g.alt(3);
            call_with(g, f, |g| g.listn(k, |g| expr(g)).into_iter().map(Some).collect())
        }
    }
}
pub fn group(g: &mut G) -> E {
    let t = g.t("(");
    let e = match g.alt(2) {
        0 => expr(g),
        _ => op(g, 0),
    };
    let r = g.sym(")");
    n("GroupedExpr", t).c("expr", e).c("rparen", r)
}
/// * [EXCEPT (...)] [REPLACE (...)]
pub fn star(g: &mut G) -> E {
    let mut e = n("Asterisk", g.t("*"));
    if g.opt() {
        let t = g.t("EXCEPT");
        let gr = grouped_exprs(g, |g| g.id());
        e.put("except", n("KeywordWithGroupedXXX", t).c("group", gr));
    }
    if g.opt() {
        let t = g.t("REPLACE");
        let gr = grouped_exprs(g, |g| {
            let mut e = expr(g);
            let a = g.kw("AS");
            let i = g.id();
            e.put("as", a);
            e.put("alias", i);
            e
        });
        e.put("replace", n("KeywordWithGroupedXXX", t).c("group", gr));
    }
    e
}
pub fn call(g: &mut G) -> E {
    let f = match g.alt(8) {
        0 => g.id(),
        1 => {
            let i = g.id();
            dotted(g, i, 1)
        }
        2 => {
            let i = g.id();
            dotted(g, i, 2)
        }
        3 => n("Identifier", g.t("`p.d.f`")),
        4 => n("Identifier", g.t("DATE")),
        5 => n("Identifier", g.t("COUNT")),
        6 => {
            let i = n("Identifier", g.t("SAFE"));
            dotted(g, i, 1)
        }
        _ => n("Identifier", g.t("timestamp")),
    };
    let l = g.t("(");
    let mut e = n("CallingFunction", l).c("func", f);
    let k = g.count(&[1, 0, 2, 3]);
    if k == 0 {
        let r = g.sym(")");
        return e.c("rparen", r);
    }
    if let Some(d) = g.maybe(|g| g.kw("DISTINCT")) {
        e.put("distinct", d);
    }
    let args = g.listn(k, |g| match g.alt(5) {
        0 => expr(g),
        1 => star(g),
        2 => {
            let l = g.id();
            let o = g.t("=>");
            let r = expr(g);
            n("BinaryOperator", o).c("left", l).c("right", r)
        }
        3 => {
            let w = g.pick(&["TABLE", "MODEL"]);
            let t = g.t(w);
            let i = table_ident(g);
            n("UnaryOperator", t).c("right", i)
        }
        _ => subquery(g),
    });
    e.putv("args", args);
    if g.opt() {
        let i = g.pick(&["IGNORE", "RESPECT"]);
        let i = g.kws(&[i, "NULLS"]);
        e.putv("ignore_nulls", i);
    }
    if let Some(o) = g.maybe(|g| orderby(g)) {
        e.put("orderby", o);
    }
    if let Some(o) = g.maybe(|g| g.kwx("LIMIT", |g| expr(g))) {
        e.put("limit", o);
    }
    if g.opt() {
        let h = g.t("HAVING");
        let m = g.pick(&["MAX", "MIN"]);
        let m = g.kwx(m, |g| expr(g));
        e.put("having", n("KeywordSequence", h).c("next_keyword", m));
    }
    let r = g.sym(")");
    e.c("rparen", r)
}
pub fn window_spec(g: &mut G) -> E {
    let l = g.t("(");
    let mut w = n("WindowSpecification", l);
    if let Some(i) = g.maybe(|g| g.id()) {
        w.put("name", i);
    }
    if let Some(p) = g.maybe(|g| partitionby(g)) {
        w.put("partitionby", p);
    }
    if let Some(p) = g.maybe(|g| orderby(g)) {
        w.put("orderby", p);
    }
    if g.opt() {
        let t = g.pick(&["ROWS", "RANGE"]);
        let t = g.t(t);
        let mut f = n("WindowFrameClause", t);
        if g.opt() {
            let b = g.kw("BETWEEN");
            let s = frame_bound(g, 0);
            let a = g.kw("AND");
            let e = frame_bound(g, 1);
            f = f.c("between", b).v("start", s).c("and", a).v("end", e);
        } else {
            let s = frame_bound(g, 0);
            f = f.v("start", s);
        }
        w.put("frame", f);
    }
    let r = g.sym(")");
    w.c("rparen", r)
}
fn frame_bound(g: &mut G, dir: usize) -> Vec<E> {
    let d = if g.alt(2) == dir { "PRECEDING" } else { "FOLLOWING" };
    match g.alt(4) {
        0 => g.kws(&["UNBOUNDED", d]),
        1 => g.kws(&["CURRENT", "ROW"]),
        2 => {
            let x = n("NumericLiteral", g.t("2"));
            let k = g.kw(d);
            vec![x, k]
        }
        _ => {
            let x = expr(g);
            let k = g.kw(d);
            vec![x, k]
        }
    }
}
