//! DDL and DCL statements.
use super::expr::*;
use super::query::*;
use super::script::begin_block;
use super::types::*;
use super::*;

/// name of a table or another object; the full range of spellings is one more deviation away
pub fn tname(g: &mut G) -> E {
    match g.alt(5) {
        0 => {
            let i = g.id();
            g.pending_apart = true;
            i
        }
        1 => {
            let i = g.id();
            let e = dotted(g, i, 1);
            g.pending_apart = true;
            e
        }
        2 => n("Identifier", g.t("`p-x.d.t`")),
        3 => {
            let i = g.id();
            let e = dotted(g, i, 2);
            g.pending_apart = true;
            e
        }
        _ => table_ident(g),
    }
}
/// the query of CREATE ... AS and the like; default `SELECT c`
pub fn as_query(g: &mut G) -> E {
    match g.alt(2) {
        0 => {
            let t = g.t("SELECT");
            let i = g.id();
            n("SelectStatement", t).v("exprs", vec![i])
        }
        _ => g.nested(|g| query_x(g, false)),
    }
}
fn or_replace(g: &mut G, e: &mut E) {
    if g.opt() {
        let v = g.kws(&["OR", "REPLACE"]);
        e.putv("or_replace", v);
    }
}
pub fn if_not_exists(g: &mut G, e: &mut E) {
    if g.opt() {
        let v = g.kws(&["IF", "NOT", "EXISTS"]);
        e.putv("if_not_exists", v);
    }
}
fn if_exists(g: &mut G, e: &mut E) {
    if g.opt() {
        let v = g.kws(&["IF", "EXISTS"]);
        e.putv("if_exists", v);
    }
}
fn ident(g: &mut G, e: &mut E) {
    let i = tname(g);
    e.put("ident", i);
}
fn what(g: &mut G, e: &mut E, w: &str) {
    let k = g.kw(w);
    e.put("what", k);
}
pub fn opt_options(g: &mut G, e: &mut E) {
    if g.opt() {
        let o = options(g);
        e.put("options", o);
    }
}
fn must_options(g: &mut G, e: &mut E) {
    let o = match g.alt(2) {
        0 => options(g),
        _ => {
            let t = g.t("OPTIONS");
            let l = g.t("(");
            let r = g.sym(")");
            n("KeywordWithGroupedXXX", t).c("group", n("GroupedExprs", l).c("rparen", r))
        }
    };
    e.put("options", o);
}
fn default_collate(g: &mut G, e: &mut E) {
    if g.opt() {
        let d = g.t("DEFAULT");
        let c = g.kwx("COLLATE", |g| n("StringLiteral", g.t("'und:ci'")));
        e.put("default_collate", n("KeywordSequence", d).c("next_keyword", c));
    }
}
pub fn connection(g: &mut G, default_ok: bool) -> E {
    let w = g.t("WITH");
    let c = g.kwx("CONNECTION", |g| match g.alt(if default_ok { 4 } else { 3 }) {
        0 => n("Identifier", g.t("`p.us.c`")),
        1 => {
            let i = g.id();
            dotted(g, i, 2)
        }
        2 => g.id(),
        _ => n("Keyword", g.t("DEFAULT")),
    });
    n("KeywordSequence", w).c("next_keyword", c)
}
fn by_exprs(g: &mut G, w: &str) -> E {
    let t = g.t(w);
    let by = g.kw("BY");
    let v = g.list(|g| expr(g));
    n("XXXByExprs", t).c("by", by).v("exprs", v)
}
fn key_columns(g: &mut G) -> E {
    grouped_exprs(g, |g| g.id())
}
/// [CONSTRAINT [IF NOT EXISTS] name] PRIMARY KEY (..) | FOREIGN KEY (..) REFERENCES t(..)
pub fn constraint(g: &mut G, ine: bool) -> E {
    let mut e = none("Constraint");
    if g.opt() {
        let c = g.kw("CONSTRAINT");
        e.put("constraint", c);
        if ine {
            if_not_exists(g, &mut e);
        }
        let i = g.idx();
        e.put("ident", i);
    }
    if g.alt(2) == 0 {
        e.tok = Some(g.t("PRIMARY"));
        let k = g.kw("KEY");
        let c = key_columns(g);
        e = e.c("key", k).c("columns", c);
    } else {
        e.tok = Some(g.t("FOREIGN"));
        let k = g.kw("KEY");
        let c = key_columns(g);
        let r = references(g);
        e = e.c("key", k).c("columns", c).c("references", r);
    }
    if let Some(x) = enforced(g) {
        e.put("enforced", x);
    }
    e
}
/// column name: also words that mean something elsewhere
fn column(g: &mut G) -> E {
    let mut d = match g.alt(3) {
        0 => g.id(),
        1 => {
            let w = g.pick(&["`q x`", "date", "primary", "foreign", "type", "options"]);
            n("Identifier", g.t(w))
        }
        _ => {
            let w = g.pick(&["out", "inout", "constraint"]);
            let i = g.t(w);
            let t = scalar(g);
            return n("TypeDeclaration", i).c("type", t);
        }
    };
    d.kind = "TypeDeclaration";
    let t = ty(g, TCtx::Column);
    d.put("type", t);
    d
}
/// ( column type ..., constraints )
pub fn schema(g: &mut G) -> E {
    let l = g.t("(");
    let k = g.count(&[1, 2, 3]);
    let nc = g.alt(3);
    let total = k + nc;
    let mut v = vec![];
    for i in 0..total {
        let mut e = g.rep(i, total, |g| if i < k { column(g) } else { constraint(g, false) });
        if i + 1 < total {
            let c = g.sym(",");
            e.put("comma", c);
        }
        v.push(e);
    }
    let r = g.sym(")");
    n("GroupedTypeDeclarationOrConstraints", l).v("declarations", v).c("rparen", r)
}
/// ( name type, ... ) without column attributes
pub fn plain_decls(g: &mut G) -> E {
    let l = g.t("(");
    let v = g.list(|g| {
        let mut d = g.idx();
        d.kind = "TypeDeclaration";
        let t = ty(g, TCtx::Plain);
        d.put("type", t);
        d
    });
    let r = g.sym(")");
    n("GroupedTypeDeclarationOrConstraints", l).v("declarations", v).c("rparen", r)
}
fn fn_args(g: &mut G, aggregate: bool, table: bool) -> E {
    let l = g.t("(");
    let k = g.count(&[1, 0, 2, 3]);
    let v = g.listn(k, |g| {
        let mut d = g.idx();
        d.kind = "TypeDeclaration";
        let mut t = if table && g.opt() {
            struct_type(g, "TABLE", TCtx::Plain)
        } else {
            ty(g, TCtx::Arg)
        };
        if aggregate && g.opt() {
            let na = g.kwseq(&["NOT", "AGGREGATE"]);
            t.put("aggregate", na);
        }
        d.put("type", t);
        d
    });
    let r = g.sym(")");
    let mut e = n("GroupedTypeDeclarationOrConstraints", l).c("rparen", r);
    if k > 0 {
        e.putv("declarations", v);
    }
    e
}
fn returns(g: &mut G, e: &mut E, table: bool) {
    if g.opt() {
        let t = g.t("RETURNS");
        let x = if table {
            struct_type(g, "TABLE", TCtx::Plain)
        } else {
            ty(g, TCtx::Plain)
        };
        e.put("returns", n("KeywordWithType", t).c("type", x));
    }
}
fn code(g: &mut G) -> E {
    match g.alt(4) {
        0 => n("StringLiteral", g.t("'return 1'")),
        1 => n("StringLiteral", g.t("\"\"\"\n  return '1'; -- \"no\"\n\"\"\"")),
        2 => {
            let p = g.t("r");
            let s = g.glue("'''a\\d'''");
            n("UnaryOperator", p).c("right", n("StringLiteral", s))
        }
        _ => n("Template", g.t("{{ code }}")),
    }
}
pub const DDL: usize = 33;
pub const DDL_NAMES: [&str; DDL] = [
    "CREATE SCHEMA",
    "CREATE TABLE",
    "CREATE EXTERNAL TABLE",
    "CREATE SNAPSHOT TABLE",
    "CREATE TABLE LIKE/COPY",
    "CREATE VIEW",
    "CREATE MATERIALIZED VIEW",
    "CREATE FUNCTION (SQL)",
    "CREATE FUNCTION (language)",
    "CREATE FUNCTION (remote)",
    "CREATE TABLE FUNCTION",
    "CREATE PROCEDURE",
    "CREATE PROCEDURE (Spark)",
    "CREATE ROW ACCESS POLICY",
    "CREATE INDEX",
    "CREATE MODEL",
    "CREATE CAPACITY/RESERVATION/ASSIGNMENT",
    "ALTER SCHEMA",
    "ALTER TABLE SET",
    "ALTER TABLE ADD COLUMN",
    "ALTER TABLE ADD CONSTRAINT",
    "ALTER TABLE RENAME",
    "ALTER TABLE DROP",
    "ALTER TABLE ALTER COLUMN",
    "ALTER VIEW",
    "ALTER VECTOR INDEX",
    "ALTER ... SET OPTIONS",
    "DROP",
    "DROP INDEX",
    "DROP ROW ACCESS POLICY",
    "UNDROP SCHEMA",
    "GRANT",
    "REVOKE",
];
pub fn ddl_k(g: &mut G, k: usize) -> E {
    let mut e = ddl_body(g, k);
    g.semi(&mut e);
    e
}
pub fn ddl(g: &mut G) -> E {
    let k = g.free(DDL);
    g.small(|g| ddl_k(g, k))
}
fn create(g: &mut G, kind: &'static str) -> E {
    n(kind, g.t("CREATE"))
}
fn put_as_query(g: &mut G, e: &mut E, name: &'static str) {
    let a = g.t("AS");
    let q = as_query(g);
    e.put(name, n("KeywordWithStatement", a).c("stmt", q));
}
fn ddl_body(g: &mut G, k: usize) -> E {
    match k {
        0 => {
            let mut e = create(g, "CreateSchemaStatement");
            if g.opt() {
                let x = g.kw("EXTERNAL");
                e.put("external", x);
            }
            what(g, &mut e, "SCHEMA");
            if_not_exists(g, &mut e);
            ident(g, &mut e);
            default_collate(g, &mut e);
            if g.opt() {
                let c = connection(g, true);
                e.put("with_connection", c);
            }
            opt_options(g, &mut e);
            e
        }
        1 => {
            let mut e = create(g, "CreateTableStatement");
            or_replace(g, &mut e);
            if g.opt() {
                let w = g.pick(&["TEMP", "TEMPORARY"]);
                let x = g.kw(w);
                e.put("temp", x);
            }
            what(g, &mut e, "TABLE");
            if_not_exists(g, &mut e);
            ident(g, &mut e);
            if g.alt(2) == 0 {
                let s = schema(g);
                e.put("column_schema_group", s);
            }
            default_collate(g, &mut e);
            if g.opt() {
                let p = by_exprs(g, "PARTITION");
                e.put("partitionby", p);
            }
            if g.opt() {
                let p = by_exprs(g, "CLUSTER");
                e.put("clusterby", p);
            }
            if g.opt() {
                let c = connection(g, true);
                e.put("with_connection", c);
            }
            opt_options(g, &mut e);
            if g.opt() {
                put_as_query(g, &mut e, "as");
            }
            e
        }
        2 => {
            let mut e = create(g, "CreateTableStatement");
            or_replace(g, &mut e);
            let x = g.kw("EXTERNAL");
            e.put("external", x);
            what(g, &mut e, "TABLE");
            if_not_exists(g, &mut e);
            ident(g, &mut e);
            if g.opt() {
                let s = schema(g);
                e.put("column_schema_group", s);
            }
            if g.opt() {
                let c = connection(g, true);
                e.put("with_connection", c);
            }
            if let Some(w) = g.maybe(|g| partition_columns(g)) {
                e.put("with_partition_columns", w);
            }
            opt_options(g, &mut e);
            e
        }
        3 => {
            let mut e = create(g, "CreateTableStatement");
            or_replace(g, &mut e);
            let x = g.kw("SNAPSHOT");
            e.put("snapshot", x);
            what(g, &mut e, "TABLE");
            if_not_exists(g, &mut e);
            ident(g, &mut e);
            clone(g, &mut e);
            opt_options(g, &mut e);
            e
        }
        4 => {
            let mut e = create(g, "CreateTableStatement");
            or_replace(g, &mut e);
            what(g, &mut e, "TABLE");
            if_not_exists(g, &mut e);
            ident(g, &mut e);
            match g.free(3) {
                2 => {
                    clone(g, &mut e);
                    opt_options(g, &mut e);
                }
                k => {
                    let w = g.kw(["LIKE", "COPY"][k]);
                    let s = tname(g);
                    e.put("like_or_copy", w);
                    e.put("source_table", s);
                    if g.opt() {
                        let p = by_exprs(g, "PARTITION");
                        e.put("partitionby", p);
                    }
                    if g.opt() {
                        let p = by_exprs(g, "CLUSTER");
                        e.put("clusterby", p);
                    }
                    opt_options(g, &mut e);
                    if g.opt() {
                        put_as_query(g, &mut e, "as");
                    }
                }
            }
            e
        }
        5 => {
            let mut e = create(g, "CreateViewStatement");
            or_replace(g, &mut e);
            what(g, &mut e, "VIEW");
            if_not_exists(g, &mut e);
            ident(g, &mut e);
            if g.opt() {
                let l = g.t("(");
                let v = g.list(|g| {
                    let mut i = g.idx();
                    i.kind = "IdentWithOptions";
                    opt_options(g, &mut i);
                    i
                });
                let r = g.sym(")");
                e.put("column_name_list", n("GroupedIdentWithOptions", l).v("idents", v).c("rparen", r));
            }
            opt_options(g, &mut e);
            put_as_query(g, &mut e, "as");
            e
        }
        6 => {
            let mut e = create(g, "CreateViewStatement");
            or_replace(g, &mut e);
            let m = g.kw("MATERIALIZED");
            e.put("materialized", m);
            what(g, &mut e, "VIEW");
            if_not_exists(g, &mut e);
            ident(g, &mut e);
            if g.opt() {
                let p = by_exprs(g, "PARTITION");
                e.put("partitionby", p);
            }
            if g.opt() {
                let p = by_exprs(g, "CLUSTER");
                e.put("clusterby", p);
            }
            opt_options(g, &mut e);
            if g.alt(2) == 0 {
                put_as_query(g, &mut e, "as");
            } else {
                let a = g.t("AS");
                let r = g.t("REPLICA");
                let o = g.kwx("OF", |g| tname(g));
                e.put(
                    "as",
                    n("KeywordSequence", a).c("next_keyword", n("KeywordSequence", r).c("next_keyword", o)),
                );
            }
            e
        }
        7 | 8 | 9 => {
            let mut e = create(g, "CreateFunctionStatement");
            or_replace(g, &mut e);
            if g.opt() {
                let w = g.pick(&["TEMP", "TEMPORARY"]);
                let x = g.kw(w);
                e.put("temp", x);
            }
            let agg = k != 9 && g.opt();
            if agg {
                let x = g.kw("AGGREGATE");
                e.put("aggregate", x);
            }
            what(g, &mut e, "FUNCTION");
            if_not_exists(g, &mut e);
            ident(g, &mut e);
            let a = fn_args(g, agg, false);
            e.put("group", a);
            returns(g, &mut e, false);
            if k == 7 {
                let a = g.t("AS");
                let l = g.t("(");
                let x = expr(g);
                let r = g.sym(")");
                e.put(
                    "as",
                    n("KeywordWithGroupedXXX", a).c("group", n("GroupedExpr", l).c("expr", x).c("rparen", r)),
                );
                opt_options(g, &mut e);
            } else if k == 8 {
                match g.alt(3) {
                    0 => (),
                    1 => {
                        let v = g.kws(&["DETERMINISTIC"]);
                        e.putv("determinism", v);
                    }
                    _ => {
                        let v = g.kws(&["NOT", "DETERMINISTIC"]);
                        e.putv("determinism", v);
                    }
                }
                let l = g.kwx("LANGUAGE", |g| {
                    let w = g.pick(&["js", "python"]);
                    n("Identifier", g.t(w))
                });
                e.put("language", l);
                if g.opt() {
                    let c = connection(g, false);
                    e.put("connection", c);
                }
                opt_options(g, &mut e);
                let a = g.kwx("AS", |g| code(g));
                e.put("as", a);
            } else {
                let r = g.kw("REMOTE");
                e.put("remote", r);
                let c = connection(g, false);
                e.put("connection", c);
                opt_options(g, &mut e);
            }
            e
        }
        10 => {
            let mut e = create(g, "CreateFunctionStatement");
            or_replace(g, &mut e);
            let t = g.kw("TABLE");
            e.put("table", t);
            what(g, &mut e, "FUNCTION");
            if_not_exists(g, &mut e);
            ident(g, &mut e);
            let a = fn_args(g, false, true);
            e.put("group", a);
            returns(g, &mut e, true);
            opt_options(g, &mut e);
            put_as_query(g, &mut e, "as");
            e
        }
        11 | 12 => {
            let mut e = create(g, "CreateProcedureStatement");
            or_replace(g, &mut e);
            what(g, &mut e, "PROCEDURE");
            if_not_exists(g, &mut e);
            ident(g, &mut e);
            let l = g.t("(");
            let kk = g.count(&[0, 1, 2, 3]);
            let v = g.listn(kk, |g| {
                let io = match g.alt(4) {
                    0 => None,
                    m => Some(g.kw(["", "IN", "OUT", "INOUT"][m])),
                };
                let mut d = g.idx();
                d.kind = "TypeDeclaration";
                let t = ty(g, TCtx::Arg);
                d.put("type", t);
                d.co("in_out", io)
            });
            let r = g.sym(")");
            let mut gr = n("GroupedTypeDeclarationOrConstraints", l).c("rparen", r);
            if kk > 0 {
                gr.putv("declarations", v);
            }
            e.put("group", gr);
            if k == 11 {
                opt_options(g, &mut e);
                let b = begin_block(g);
                e.put("stmt", b);
            } else {
                if g.opt() {
                    let w = g.pick(&["INVOKER", "DEFINER"]);
                    let x = g.kwseq(&["EXTERNAL", "SECURITY", w]);
                    e.put("external", x);
                }
                let c = connection(g, true);
                e.put("with_connection", c);
                opt_options(g, &mut e);
                let l = g.kwx("LANGUAGE", |g| {
                    let w = g.pick(&["PYTHON", "JAVA", "SCALA"]);
                    n("Identifier", g.t(w))
                });
                e.put("language", l);
                if g.opt() {
                    let a = g.kwx("AS", |g| code(g));
                    e.put("as", a);
                }
            }
            e
        }
        13 => {
            let mut e = create(g, "CreateRowAccessPolicyStatement");
            or_replace(g, &mut e);
            let w = g.kws(&["ROW", "ACCESS", "POLICY"]);
            e.putv("what", w);
            if_not_exists(g, &mut e);
            let i = g.idx();
            e.put("ident", i);
            let on = g.kwx("ON", |g| tname(g));
            e.put("on", on);
            if g.opt() {
                let gr = g.kw("GRANT");
                let t = g.t("TO");
                let gg = grouped_exprs(g, |g| n("StringLiteral", g.t("'user:a@b.c'")));
                e.put("grant", gr);
                e.put("to", n("KeywordWithGroupedXXX", t).c("group", gg));
            }
            let f = g.kw("FILTER");
            let u = g.kwx("USING", |g| {
                let l = g.t("(");
                let x = expr(g);
                let r = g.sym(")");
                n("GroupedExpr", l).c("expr", x).c("rparen", r)
            });
            e.c("filter", f).c("using", u)
        }
        14 => {
            let mut e = create(g, "CreateIndexStatement");
            or_replace(g, &mut e);
            let w = ["SEARCH", "VECTOR"][g.alt(2)];
            let w = g.kwseq(&[w, "INDEX"]);
            e.put("what", w);
            if_not_exists(g, &mut e);
            let i = g.idx();
            let on = g.kw("ON");
            let t = tname(g);
            e = e.c("ident", i).c("on", on).c("tablename", t);
            if g.alt(2) == 0 {
                let c = grouped_exprs(g, |g| {
                    let i = g.id();
                    let mut i = match g.alt(2) {
                        0 => i,
                        _ => dotted(g, i, 1),
                    };
                    let _ = &mut i;
                    i
                });
                e.put("column_group", c);
            } else {
                let l = g.t("(");
                let a = g.kwseq(&["ALL", "COLUMNS"]);
                let r = g.sym(")");
                e.put("column_group", n("GroupedExpr", l).c("expr", a).c("rparen", r));
            }
            if g.opt() {
                let t = g.t("STORING");
                let gg = grouped_exprs(g, |g| g.id());
                e.put("storing", n("KeywordWithGroupedXXX", t).c("group", gg));
            }
            if g.opt() {
                let p = by_exprs(g, "PARTITION");
                e.put("partitionby", p);
            }
            opt_options(g, &mut e);
            e
        }
        15 => {
            let mut e = create(g, "CreateModelStatement");
            or_replace(g, &mut e);
            what(g, &mut e, "MODEL");
            if_not_exists(g, &mut e);
            ident(g, &mut e);
            if g.opt() {
                let t = g.t("TRANSFORM");
                let gg = grouped_exprs(g, |g| match g.alt(2) {
                    0 => {
                        let mut e = expr(g);
                        alias(g, &mut e);
                        e
                    }
                    _ => star(g),
                });
                e.put("transform", n("KeywordWithGroupedXXX", t).c("group", gg));
            }
            if g.opt() {
                let t = g.t("INPUT");
                let d = plain_decls(g);
                e.put("input", n("KeywordWithGroupedXXX", t).c("group", d));
                let t = g.t("OUTPUT");
                let d = plain_decls(g);
                e.put("output", n("KeywordWithGroupedXXX", t).c("group", d));
            }
            if g.opt() {
                let r = g.t("REMOTE");
                let c = connection(g, true);
                e.put("remote", n("KeywordSequence", r).c("next_keyword", c));
            }
            opt_options(g, &mut e);
            match g.alt(3) {
                0 => put_as_query(g, &mut e, "query"),
                1 => (),
                _ => {
                    let a = g.t("AS");
                    let l = g.t("(");
                    let t = cte(g, "training_data");
                    let c = g.sym(",");
                    let t = t.c("comma", c);
                    let h = cte(g, "custom_holiday");
                    let r = g.sym(")");
                    e.put(
                        "training_data_custom_holiday",
                        n("KeywordWithGroupedXXX", a).c(
                            "group",
                            n("TrainingDataCustomHolidayClause", l)
                                .c("training_data", t)
                                .c("custom_holiday", h)
                                .c("rparen", r),
                        ),
                    );
                }
            }
            e
        }
        16 => {
            let mut e = create(g, "CreateReservationStatement");
            let w = g.pick(&["CAPACITY", "RESERVATION", "ASSIGNMENT"]);
            what(g, &mut e, w);
            ident(g, &mut e);
            match g.alt(2) {
                0 => must_options(g, &mut e),
                _ => {
                    let a = g.kw("AS");
                    let j = g.kw("JSON");
                    let s = code(g);
                    e = e.c("as", a).c("json", j).c("json_string", s);
                }
            }
            e
        }
        17 => {
            let mut e = n("AlterSchemaStatement", g.t("ALTER"));
            what(g, &mut e, "SCHEMA");
            if_exists(g, &mut e);
            ident(g, &mut e);
            match g.alt(4) {
                0 => {
                    let s = g.kw("SET");
                    e.put("set", s);
                    must_options(g, &mut e);
                }
                1 => {
                    let s = g.kw("SET");
                    e.put("set", s);
                    let d = g.t("DEFAULT");
                    let c = g.kwx("COLLATE", |g| n("StringLiteral", g.t("'und:ci'")));
                    e.put("default_collate", n("KeywordSequence", d).c("next_keyword", c));
                }
                2 => {
                    let a = g.t("ADD");
                    let r = g.kwx("REPLICA", |g| tname(g));
                    e.put("add", n("KeywordSequence", a).c("next_keyword", r));
                    opt_options(g, &mut e);
                }
                _ => {
                    let a = g.t("DROP");
                    let r = g.kwx("REPLICA", |g| tname(g));
                    e.put("drop", n("KeywordSequence", a).c("next_keyword", r));
                }
            }
            e
        }
        18..=23 => {
            let mut e = n("AlterTableStatement", g.t("ALTER"));
            what(g, &mut e, "TABLE");
            if_exists(g, &mut e);
            ident(g, &mut e);
            match k {
                18 => {
                    let s = g.kw("SET");
                    e.put("set", s);
                    match g.alt(2) {
                        0 => must_options(g, &mut e),
                        _ => {
                            let d = g.t("DEFAULT");
                            let c = g.kwx("COLLATE", |g| n("StringLiteral", g.t("'und:ci'")));
                            e.put("default_collate", n("KeywordSequence", d).c("next_keyword", c));
                        }
                    }
                }
                19 => {
                    let v = g.list(|g| {
                        let mut c = n("AddColumnClause", g.t("ADD"));
                        what(g, &mut c, "COLUMN");
                        if_not_exists(g, &mut c);
                        let d = column(g);
                        c.put("type_declaration", d);
                        c
                    });
                    e.putv("add_columns", v);
                }
                20 => {
                    let v = g.list(|g| {
                        let a = n("AddConstraintClause", g.t("ADD"));
                        let c = constraint(g, true);
                        a.c("what", c)
                    });
                    e.putv("add_constraints", v);
                }
                21 => match g.alt(2) {
                    0 => {
                        let r = g.kw("RENAME");
                        let t = g.kwx("TO", |g| tname(g));
                        e = e.c("rename", r).c("to", t);
                    }
                    _ => {
                        let v = g.list(|g| {
                            let r = n("RenameColumnClause", g.t("RENAME"));
                            let c = g.kw("COLUMN");
                            let mut r = r.c("column", c);
                            if g.opt() {
                                let x = g.kwseq(&["IF", "EXISTS"]);
                                r.put("if_exists", x);
                            }
                            let i = g.idx();
                            let t = g.kwx("TO", |g| g.idx());
                            r.c("ident", i).c("to", t)
                        });
                        e.putv("rename_columns", v);
                    }
                },
                22 => {
                    let v = g.list(|g| {
                        let mut d = n("AlterTableDropClause", g.t("DROP"));
                        match g.alt(3) {
                            2 => {
                                let p = g.kwx("PRIMARY", |g| n("Keyword", g.t("KEY")));
                                d.put("what", p);
                                if_exists(g, &mut d);
                            }
                            k => {
                                what(g, &mut d, ["COLUMN", "CONSTRAINT"][k]);
                                if_exists(g, &mut d);
                                let i = g.idx();
                                d.put("ident", i);
                            }
                        }
                        d
                    });
                    e.putv("drop_columns", v);
                }
                _ => {
                    let c = alter_column(g);
                    e.put("alter_column_stmt", c);
                }
            }
            e
        }
        24 => {
            let mut e = n("AlterViewStatement", g.t("ALTER"));
            if g.opt() {
                let m = g.kw("MATERIALIZED");
                e.put("materialized", m);
            }
            what(g, &mut e, "VIEW");
            if_exists(g, &mut e);
            ident(g, &mut e);
            match g.alt(2) {
                0 => {
                    let s = g.kw("SET");
                    e.put("set", s);
                    must_options(g, &mut e);
                }
                _ => {
                    let c = alter_column(g);
                    e.put("alter_column_stmt", c);
                }
            }
            e
        }
        25 => {
            let mut e = n("AlterVectorIndexStatement", g.t("ALTER"));
            let w = g.kwseq(&["VECTOR", "INDEX"]);
            e.put("what", w);
            if_exists(g, &mut e);
            let i = g.idx();
            let on = g.kwx("ON", |g| tname(g));
            let o = g.kw("REBUILD");
            e.c("ident", i).c("on", on).c("operation", o)
        }
        26 => {
            let t = g.t("ALTER");
            let mut e = match g.alt(6) {
                0 => {
                    let mut e = n("AlterOrganizationStatement", t);
                    what(g, &mut e, "ORGANIZATION");
                    e
                }
                1 => {
                    let mut e = n("AlterProjectStatement", t);
                    what(g, &mut e, "PROJECT");
                    if g.opt() {
                        ident(g, &mut e);
                    }
                    e
                }
                2 => {
                    let mut e = n("AlterBICapacityStatement", t);
                    what(g, &mut e, "BI_CAPACITY");
                    ident(g, &mut e);
                    e
                }
                3 => {
                    let mut e = n("AlterReservationStatement", t);
                    what(g, &mut e, "CAPACITY");
                    ident(g, &mut e);
                    e
                }
                4 => {
                    let mut e = n("AlterReservationStatement", t);
                    what(g, &mut e, "RESERVATION");
                    ident(g, &mut e);
                    e
                }
                _ => {
                    let mut e = n("AlterModelStatement", t);
                    what(g, &mut e, "MODEL");
                    if_exists(g, &mut e);
                    ident(g, &mut e);
                    e
                }
            };
            let s = g.kw("SET");
            e.put("set", s);
            must_options(g, &mut e);
            e
        }
        27 => {
            let mut e = n("DropStatement", g.t("DROP"));
            match g.alt(13) {
                0 => what(g, &mut e, "TABLE"),
                1 => what(g, &mut e, "SCHEMA"),
                2 => what(g, &mut e, "VIEW"),
                3 => what(g, &mut e, "FUNCTION"),
                4 => what(g, &mut e, "PROCEDURE"),
                5 => what(g, &mut e, "MODEL"),
                6 => {
                    let w = g.pick(&["CAPACITY", "RESERVATION", "ASSIGNMENT"]);
                    what(g, &mut e, w);
                }
                7 => {
                    let x = g.kw("EXTERNAL");
                    e.put("external", x);
                    what(g, &mut e, "TABLE");
                }
                8 => {
                    let x = g.kw("MATERIALIZED");
                    e.put("materialized", x);
                    what(g, &mut e, "VIEW");
                }
                9 => {
                    let x = g.kw("TABLE");
                    e.put("table", x);
                    what(g, &mut e, "FUNCTION");
                }
                10 => {
                    let x = g.kw("EXTERNAL");
                    e.put("external", x);
                    what(g, &mut e, "SCHEMA");
                }
                11 => {
                    let x = g.kw("SNAPSHOT");
                    e.put("snapshot", x);
                    what(g, &mut e, "TABLE");
                }
                _ => {
                    what(g, &mut e, "SCHEMA");
                    if_exists(g, &mut e);
                    ident(g, &mut e);
                    let c = g.pick(&["CASCADE", "RESTRICT"]);
                    let c = g.kw(c);
                    e.put("cascade_or_restrict", c);
                    return e;
                }
            }
            if_exists(g, &mut e);
            ident(g, &mut e);
            e
        }
        28 => {
            let mut e = n("DropStatement", g.t("DROP"));
            let w = ["SEARCH", "VECTOR"][g.alt(2)];
            let w = g.kwseq(&[w, "INDEX"]);
            e.put("what", w);
            if_exists(g, &mut e);
            let i = g.idx();
            let on = g.kwx("ON", |g| tname(g));
            e.c("ident", i).c("on", on)
        }
        29 => {
            let mut e = n("DropRowAccessPolicyStatement", g.t("DROP"));
            match g.alt(2) {
                0 => {
                    let w = g.kws(&["ROW", "ACCESS", "POLICY"]);
                    e.putv("what", w);
                    if_exists(g, &mut e);
                    let i = g.idx();
                    e.put("ident", i);
                }
                _ => {
                    let w = g.kws(&["ALL", "ROW", "ACCESS", "POLICIES"]);
                    e.putv("what", w);
                }
            }
            let on = g.kwx("ON", |g| tname(g));
            e.c("on", on)
        }
        30 => {
            let mut e = n("UndropStatement", g.t("UNDROP"));
            what(g, &mut e, "SCHEMA");
            if_not_exists(g, &mut e);
            ident(g, &mut e);
            e
        }
        _ => {
            let grant = k == 31;
            let e = if grant {
                n("GrantStatement", g.t("GRANT"))
            } else {
                n("RevokeStatement", g.t("REVOKE"))
            };
            let r = g.list(|g| match g.alt(2) {
                0 => n("Identifier", g.t("`roles/bigquery.dataViewer`")),
                _ => g.id(),
            });
            let on = g.kw("ON");
            let w = g.pick(&["SCHEMA", "TABLE", "VIEW", "EXTERNAL"]);
            let rt = if w == "EXTERNAL" {
                let x = g.t(w);
                let t = g.kw("TABLE");
                n("KeywordSequence", x).c("next_keyword", t)
            } else {
                g.kw(w)
            };
            let i = tname(g);
            let t = g.t(if grant { "TO" } else { "FROM" });
            let u = g.list(|g| {
                let s = g.alt(2);
                n("StringLiteral", g.t(["'user:a@b.c'", "\"group:g\""][s]))
            });
            e.v("roles", r)
                .c("on", on)
                .c("resource_type", rt)
                .c("ident", i)
                .c(if grant { "to" } else { "from" }, n("KeywordWithExprs", t).v("exprs", u))
        }
    }
}
fn cte(g: &mut G, name: &str) -> E {
    let i = g.t(name);
    let a = g.kw("AS");
    let l = g.t("(");
    let q = match g.alt(2) {
        0 => {
            let t = g.t("SELECT");
            let i = g.id();
            n("SelectStatement", t).v("exprs", vec![i])
        }
        _ => g.nested(|g| query_x(g, true)),
    };
    let r = g.sym(")");
    n("WithQuery", i).c("as", a).c("stmt", n("GroupedStatement", l).c("stmt", q).c("rparen", r))
}
pub fn partition_columns(g: &mut G) -> E {
    let w = g.t("WITH");
    let p = g.kws(&["PARTITION", "COLUMNS"]);
    let mut e = n("WithPartitionColumnsClause", w).v("partition_columns", p);
    if g.alt(2) == 0 {
        let d = plain_decls(g);
        e.put("column_schema_group", d);
    }
    e
}
fn clone(g: &mut G, e: &mut E) {
    let c = g.kwx("CLONE", |g| {
        let mut t = tname(g);
        if g.opt() {
            let f = g.t("FOR");
            let s = g.kws(&["SYSTEM_TIME", "AS", "OF"]);
            let x = expr(g);
            t.put(
                "for_system_time_as_of",
                n("ForSystemTimeAsOfClause", f).v("system_time_as_of", s).c("expr", x),
            );
        }
        t
    });
    e.put("clone", c);
}
fn alter_column(g: &mut G) -> E {
    let mut e = n("AlterColumnStatement", g.t("ALTER"));
    what(g, &mut e, "COLUMN");
    if_exists(g, &mut e);
    let i = g.idx();
    e.put("ident", i);
    match g.alt(5) {
        0 => {
            let s = g.kw("SET");
            e.put("set", s);
            must_options(g, &mut e);
        }
        1 => {
            let s = g.kw("SET");
            let d = g.kws(&["DATA", "TYPE"]);
            let t = ty(g, TCtx::Plain);
            e = e.c("set", s).v("data_type", d).c("type", t);
        }
        2 => {
            let s = g.kw("SET");
            let d = g.kwx("DEFAULT", |g| expr(g));
            e = e.c("set", s).c("default", d);
        }
        3 => {
            let v = g.kws(&["DROP", "DEFAULT"]);
            e.putv("drop_default", v);
        }
        _ => {
            let v = g.kws(&["DROP", "NOT", "NULL"]);
            e.putv("drop_not_null", v);
        }
    }
    e
}
