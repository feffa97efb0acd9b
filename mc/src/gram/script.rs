//! DML, scripting and other statements.
use super::ddl::*;
use super::expr::*;
use super::query::*;
use super::types::*;
use super::*;

/// run `f` as the body of a block: every statement has its own semicolon
pub fn block<T>(g: &mut G, f: impl FnOnce(&mut G) -> T) -> T {
    let old = g.no_semi;
    g.no_semi = false;
    g.depth += 1;
    let r = f(g);
    g.depth -= 1;
    g.no_semi = old;
    r
}
/// a statement of a block; default `SELECT c;`
pub fn inner_stmt(g: &mut G) -> E {
    match g.alt(2) {
        0 => {
            let t = g.t("SELECT");
            let i = g.id();
            let mut e = n("SelectStatement", t).v("exprs", vec![i]);
            g.semi(&mut e);
            e
        }
        _ => any_stmt(g),
    }
}
pub fn any_stmt(g: &mut G) -> E {
    match g.free(2 + SCRIPT) {
        0 => g.small(|g| query_x(g, true)),
        1 => ddl(g),
        k => script_k(g, k - 2),
    }
}
pub fn stmts(g: &mut G) -> Vec<E> {
    let k = g.count(&[1, 0, 2, 3]);
    block(g, |g| (0..k).map(|i| g.rep(i, k, |g| inner_stmt(g))).collect())
}
fn kw_stmts(g: &mut G, w: &str) -> E {
    let t = g.t(w);
    let v = stmts(g);
    n("KeywordWithStatements", t).v("stmts", v)
}
/// BEGIN ... END, without label and semicolon
pub fn begin_block(g: &mut G) -> E {
    let mut e = n("BeginStatement", g.t("BEGIN"));
    // `BEGIN` directly followed by a statement that starts with a keyword of its own
    let v = stmts(g);
    if !v.is_empty() {
        e.putv("stmts", v);
    }
    if g.opt() {
        let x = g.kws(&["EXCEPTION", "WHEN", "ERROR"]);
        let t = kw_stmts(g, "THEN");
        e.putv("exception_when_error", x);
        e.put("then", t);
    }
    let end = g.kw("END");
    e.c("end", end)
}
pub const SCRIPT: usize = 29;
pub const SCRIPT_NAMES: [&str; SCRIPT] = [
    "INSERT", "DELETE", "TRUNCATE", "UPDATE", "MERGE", "DECLARE", "SET", "EXECUTE IMMEDIATE", "BEGIN", "IF", "CASE",
    "LOOP", "REPEAT", "WHILE", "FOR", "BREAK/CONTINUE", "TRANSACTION", "RAISE", "RETURN", "CALL", "ASSERT",
    "EXPORT DATA", "EXPORT MODEL", "LOAD DATA", "labelled BEGIN", "labelled LOOP", "labelled REPEAT",
    "labelled WHILE", "labelled FOR",
];
pub fn script(g: &mut G) -> E {
    let k = g.free(SCRIPT);
    script_k(g, k)
}
pub fn script_k(g: &mut G, k: usize) -> E {
    g.small(|g| {
        if (24..29).contains(&k) {
            return labelled(g, k);
        }
        let mut e = body(g, k);
        g.semi(&mut e);
        e
    })
}
fn labelled(g: &mut G, k: usize) -> E {
    let l = g.idx();
    let c = g.sym(":");
    let mut e = body(g, [8, 11, 12, 13, 14][k - 24]);
    e = e.c("leading_label", l.clone()).c("colon", c);
    if g.opt() {
        let lit = g.toks[l.tok.unwrap()].lit.clone();
        let t = n("Identifier", g.t(&lit));
        e.put("trailing_label", t);
    }
    g.semi(&mut e);
    e
}
fn set_exprs(g: &mut G) -> E {
    let t = g.t("SET");
    let v = g.list(|g| {
        let i = g.id();
        let l = match g.alt(3) {
            0 => i,
            1 => dotted(g, i, 1),
            _ => dotted(g, i, 2),
        };
        let o = g.t("=");
        let r = value(g);
        n("BinaryOperator", o).c("left", l).c("right", r)
    });
    n("KeywordWithExprs", t).v("exprs", v)
}
/// an operand, or DEFAULT
fn value(g: &mut G) -> E {
    match g.alt(3) {
        0 => n("NumericLiteral", g.t("1")),
        1 => prim(g),
        _ => n("Keyword", g.t("DEFAULT")),
    }
}
fn any_value(g: &mut G) -> E {
    match g.alt(2) {
        0 => expr(g),
        _ => n("Keyword", g.t("DEFAULT")),
    }
}
fn values(g: &mut G, max: usize) -> E {
    let t = g.t("VALUES");
    let k = if max > 1 { g.count(&[1, 2, 3]) } else { 1 };
    let v = g.listn(k, |g| grouped_exprs(g, |g| any_value(g)));
    n("KeywordWithExprs", t).v("exprs", v)
}
fn target(g: &mut G) -> E {
    let mut t = tname(g);
    match g.alt(3) {
        0 => (),
        1 => {
            let a = g.kw("AS");
            let i = g.idx();
            t.put("as", a);
            t.put("alias", i);
        }
        _ => {
            let i = g.id();
            t.put("alias", i);
        }
    }
    t
}
fn body(g: &mut G, k: usize) -> E {
    match k {
        0 => {
            let mut e = n("InsertStatement", g.t("INSERT"));
            if g.alt(2) == 0 {
                let i = g.kw("INTO");
                e.put("into", i);
            }
            let t = tname(g);
            e.put("target_name", t);
            let cols = g.alt(2) == 0;
            if cols {
                let c = grouped_exprs(g, |g| g.idx());
                e.put("columns", c);
            }
            let i = match g.alt(2) {
                0 => values(g, 3),
                // without columns a parenthesis would be the column list
                _ => {
                    if cols {
                        as_query(g)
                    } else {
                        match g.alt(2) {
                            0 => {
                                let t = g.t("SELECT");
                                let s = n("Asterisk", g.t("*"));
                                n("SelectStatement", t).v("exprs", vec![s])
                            }
                            _ => g.nested(|g| query(g)),
                        }
                    }
                }
            };
            e.c("input", i)
        }
        1 => {
            let mut e = n("DeleteStatement", g.t("DELETE"));
            if g.alt(2) == 0 {
                let f = g.kw("FROM");
                e.put("from", f);
            }
            let t = target(g);
            let w = g.kwx("WHERE", |g| expr(g));
            e.c("table_name", t).c("where", w)
        }
        2 => {
            let t = g.t("TRUNCATE");
            let k = g.kw("TABLE");
            let i = tname(g);
            n("TruncateStatement", t).c("table", k).c("table_name", i)
        }
        3 => {
            let t = g.t("UPDATE");
            let tn = target(g);
            let s = set_exprs(g);
            let mut e = n("UpdateStatement", t).c("table_name", tn).c("set", s);
            if g.opt() {
                let f = g.kwx("FROM", |g| join(g, 0));
                e.put("from", f);
            }
            let w = g.kwx("WHERE", |g| expr(g));
            e.c("where", w)
        }
        4 => {
            let mut e = n("MergeStatement", g.t("MERGE"));
            if g.opt() {
                let i = g.kw("INTO");
                e.put("into", i);
            }
            let t = target(g);
            let u = g.kwx("USING", |g| from_item(g));
            let o = g.kwx("ON", |g| expr(g));
            let mut whens = vec![];
            let k = g.count(&[1, 2, 3]);
            for i in 0..k {
                whens.push(g.rep(i, k, |g| {
                    let mut w = n("WhenClause", g.t("WHEN"));
                    match g.alt(4) {
                        0 => {
                            let m = g.kw("MATCHED");
                            w.put("matched", m);
                        }
                        k => {
                            let nn = g.kw("NOT");
                            let m = g.kw("MATCHED");
                            w = w.c("not", nn).c("matched", m);
                            if k > 1 {
                                let b = g.kws(&["BY", ["TARGET", "SOURCE"][k - 2]]);
                                w.putv("by_target_or_source", b);
                            }
                        }
                    }
                    if g.opt() {
                        let a = g.kwx("AND", |g| expr(g));
                        w.put("and", a);
                    }
                    let th = g.t("THEN");
                    let s = match g.alt(6) {
                        0 => n("SingleTokenStatement", g.t("DELETE")),
                        1 => {
                            let t = g.t("UPDATE");
                            let s = set_exprs(g);
                            n("UpdateStatement", t).c("set", s)
                        }
                        k => {
                            let mut i = n("InsertStatement", g.t("INSERT"));
                            if k == 3 || k == 5 {
                                let c = grouped_exprs(g, |g| g.idx());
                                i.put("columns", c);
                            }
                            let inp = if k < 4 { values(g, 1) } else { g.kw("ROW") };
                            i.c("input", inp)
                        }
                    };
                    w.put("then", n("KeywordWithStatement", th).c("stmt", s));
                    w
                }));
            }
            e.c("table_name", t).c("using", u).c("on", o).v("whens", whens)
        }
        5 => {
            let e = n("DeclareStatement", g.t("DECLARE"));
            let v = g.list(|g| g.idx());
            let mut e = e.v("idents", v);
            let k = g.alt(3);
            if k != 1 {
                let t = ty(g, TCtx::Plain);
                e.put("variable_type", t);
            }
            if k != 0 {
                let d = g.kwx("DEFAULT", |g| expr(g));
                e.put("default", d);
            }
            e
        }
        6 => {
            let t = g.t("SET");
            let l = match g.alt(4) {
                0 => g.id(),
                1 => n("Parameter", g.t("@@time_zone")),
                2 => {
                    let l = g.t("(");
                    let v = g.listn(2, |g| g.id());
                    let r = g.sym(")");
                    n("StructLiteral", l).v("exprs", v).c("rparen", r)
                }
                _ => {
                    let i = n("Parameter", g.t("@@query"));
                    let d = g.t(".");
                    let r = g.id();
                    n("DotOperator", d).c("left", i).c("right", r)
                }
            };
            let o = g.t("=");
            let r = match g.alt(3) {
                0 => prim(g),
                1 => subquery(g),
                _ => tuple(g, 2),
            };
            n("SetStatement", t).c("expr", n("BinaryOperator", o).c("left", l).c("right", r))
        }
        7 => {
            let e = n("ExecuteStatement", g.t("EXECUTE"));
            let i = g.kw("IMMEDIATE");
            let s = match g.alt(3) {
                0 => n("StringLiteral", g.t("'SELECT 1'")),
                1 => expr(g),
                _ => {
                    let f = g.id();
                    call_with(g, f, |g| g.listn(2, |g| expr(g)).into_iter().map(Some).collect())
                }
            };
            let mut e = e.c("immediate", i).c("sql_expr", s);
            if g.opt() {
                let t = g.t("INTO");
                let v = g.list(|g| g.idx());
                e.put("into", n("KeywordWithExprs", t).v("exprs", v));
            }
            if g.opt() {
                let t = g.t("USING");
                let v = g.list(|g| {
                    let mut e = expr(g);
                    alias(g, &mut e);
                    e
                });
                e.put("using", n("KeywordWithExprs", t).v("exprs", v));
            }
            e
        }
        8 => begin_block(g),
        9 => {
            let t = g.t("IF");
            let c = expr(g);
            let th = kw_stmts(g, "THEN");
            let mut e = n("IfStatement", t).c("condition", c).c("then", th);
            let k = g.count(&[0, 1, 2]);
            if k > 0 {
                let v = (0..k)
                    .map(|i| {
                        g.rep(i, k, |g| {
                            let t = g.t("ELSEIF");
                            let c = expr(g);
                            let th = kw_stmts(g, "THEN");
                            n("ElseIfClause", t).c("condition", c).c("then", th)
                        })
                    })
                    .collect();
                e.putv("elseifs", v);
            }
            if g.opt() {
                let x = kw_stmts(g, "ELSE");
                e.put("else", x);
            }
            let end = g.kws(&["END", "IF"]);
            e.v("end_if", end)
        }
        10 => {
            let mut e = n("CaseStatement", g.t("CASE"));
            if g.opt() {
                let x = expr(g);
                e.put("expr", x);
            }
            let mut arms = vec![];
            let k = g.count(&[1, 2, 3]);
            for i in 0..k {
                arms.push(g.rep(i, k, |g| {
                    let w = g.t("WHEN");
                    let c = expr(g);
                    let t = g.kw("THEN");
                    let s = stmts(g);
                    n("CaseStatementArm", w).c("expr", c).c("then", t).v("stmts", s)
                }));
            }
            if g.opt() {
                let w = g.t("ELSE");
                let s = stmts(g);
                arms.push(n("CaseStatementArm", w).v("stmts", s));
            }
            let end = g.kws(&["END", "CASE"]);
            e.v("arms", arms).v("end_case", end)
        }
        11 => {
            let e = kw_stmts(g, "LOOP").kind("LoopStatement");
            let end = g.kws(&["END", "LOOP"]);
            e.v("end_loop", end)
        }
        12 => {
            let e = kw_stmts(g, "REPEAT").kind("RepeatStatement");
            let u = g.kwx("UNTIL", |g| expr(g));
            let end = g.kws(&["END", "REPEAT"]);
            e.c("until", u).v("end_repeat", end)
        }
        13 => {
            let t = g.t("WHILE");
            let c = expr(g);
            let d = kw_stmts(g, "DO");
            let end = g.kws(&["END", "WHILE"]);
            n("WhileStatement", t).c("condition", c).c("do", d).v("end_while", end)
        }
        14 => {
            let t = g.t("FOR");
            let i = g.idx();
            let in_ = g.t("IN");
            let q = {
                let l = g.t("(");
                let q = match g.alt(2) {
                    0 => as_query(g),
                    _ => g.nested(|g| query_x(g, true)),
                };
                let r = g.sym(")");
                n("GroupedStatement", l).c("stmt", q).c("rparen", r)
            };
            let d = kw_stmts(g, "DO");
            let end = g.kws(&["END", "FOR"]);
            n("ForStatement", t)
                .c("ident", i)
                .c("in", n("KeywordWithGroupedXXX", in_).c("group", q))
                .c("do", d)
                .v("end_for", end)
        }
        15 => {
            let w = g.pick(&["BREAK", "LEAVE", "CONTINUE", "ITERATE"]);
            let e = n("BreakContinueStatement", g.t(w));
            let l = g.maybe(|g| g.idx());
            e.co("label", l)
        }
        16 => {
            let w = g.pick(&["BEGIN", "COMMIT", "ROLLBACK"]);
            let e = n("TransactionStatement", g.t(w));
            let l = if g.alt(2) == 0 { Some(g.kw("TRANSACTION")) } else { None };
            e.co("transaction", l)
        }
        17 => {
            let e = n("RaiseStatement", g.t("RAISE"));
            let u = g.maybe(|g| {
                g.kwx("USING", |g| {
                    let l = n("Identifier", g.t("MESSAGE"));
                    let o = g.t("=");
                    let r = prim(g);
                    n("BinaryOperator", o).c("left", l).c("right", r)
                })
            });
            e.co("using", u)
        }
        18 => n("SingleTokenStatement", g.t("RETURN")),
        19 => {
            let t = g.t("CALL");
            let i = g.id();
            let f = match g.alt(4) {
                0 => i,
                1 => dotted(g, i, 1),
                2 => dotted(g, i, 2),
                _ => {
                    g.toks.pop();
                    n("Identifier", g.t("`p.d.proc`"))
                }
            };
            let k = g.count(&[1, 0, 2, 3]);
            let c = call_with(g, f, |g| g.listn(k, |g| expr(g)).into_iter().map(Some).collect());
            n("CallStatement", t).c("procedure", c)
        }
        20 => {
            let t = g.t("ASSERT");
            let x = expr(g);
            let mut e = n("AssertStatement", t).c("expr", x);
            if g.opt() {
                let a = g.kw("AS");
                let d = n("StringLiteral", g.t("'why'"));
                e = e.c("as", a).c("description", d);
            }
            e
        }
        21 => {
            let e = n("ExportDataStatement", g.t("EXPORT"));
            let d = g.kw("DATA");
            let mut e = e.c("data", d);
            if g.opt() {
                let c = connection(g, true);
                e.put("with_connection", c);
            }
            let o = options(g);
            let a = g.t("AS");
            let q = match g.alt(2) {
                0 => as_query(g),
                _ => g.nested(|g| query_x(g, true)),
            };
            e.c("options", o).c("as", n("KeywordWithStatement", a).c("stmt", q))
        }
        22 => {
            let e = n("ExportModelStatement", g.t("EXPORT"));
            let w = g.kw("MODEL");
            let i = tname(g);
            let mut e = e.c("what", w).c("ident", i);
            opt_options(g, &mut e);
            e
        }
        _ => {
            let e = n("LoadStatement", g.t("LOAD"));
            let d = g.kw("DATA");
            let w = g.pick(&["INTO", "OVERWRITE"]);
            let i = g.kw(w);
            let mut e = e.c("data", d).c("into", i);
            if g.opt() {
                let w = g.pick(&["TEMP", "TEMPORARY"]);
                let k = g.kws(&[w, "TABLE"]);
                e.putv("temp_table", k);
            }
            let t = tname(g);
            e.put("ident", t);
            if g.opt() {
                let o = if g.alt(2) == 1 { Some(g.kw("OVERWRITE")) } else { None };
                let p = g.t("PARTITIONS");
                let l = g.t("(");
                let x = g.id();
                let eq = g.t("=");
                let y = prim(g);
                let r = g.sym(")");
                let gr = n("GroupedExpr", l)
                    .c("expr", n("BinaryOperator", eq).c("left", x).c("right", y))
                    .c("rparen", r);
                e.put(
                    "overwrite_partitions",
                    n("OverwritePartitionsClause", p).co("overwrite", o).c("grouped_expr", gr),
                );
            }
            if g.opt() {
                let c = plain_decls(g);
                e.put("column_group", c);
            }
            if g.opt() {
                let p = partitionby(g);
                e.put("partitionby", p);
            }
            if g.opt() {
                let t = g.t("CLUSTER");
                let by = g.kw("BY");
                let v = g.list(|g| expr(g));
                e.put("clusterby", n("XXXByExprs", t).c("by", by).v("exprs", v));
            }
            opt_options(g, &mut e);
            let f = g.kw("FROM");
            let fi = g.kw("FILES");
            let ff = opt_group(g);
            e = e.c("from", f).c("files", fi).c("from_files", ff);
            if let Some(w) = g.maybe(|g| partition_columns(g)) {
                e.put("with_partition_columns", w);
            }
            if g.opt() {
                let w = g.kw("WITH");
                let c = g.kw("CONNECTION");
                let nn = match g.alt(2) {
                    0 => n("Identifier", g.t("`p.us.c`")),
                    _ => {
                        let i = g.id();
                        dotted(g, i, 2)
                    }
                };
                e = e.c("with", w).c("connection", c).c("connection_name", nn);
            }
            e
        }
    }
}
