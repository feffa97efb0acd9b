//! C12–C17: every derivation of the reference grammar within the bound is accepted and
//! yields exactly the expected tree.
use crate::engine::{Ctx, Worker};
use crate::explore::*;
use crate::gram::{self, ddl, expr, nest, query, script, types, Deriv, E, EC, G};
use crate::lexmodel;
use crate::sut::Out;
use serde_json::json;

/// the grammar's own tokens must be what the lexical rules give for the text
pub fn self_check(w: &mut Worker, t: &Text) -> bool {
    let _ = w;
    let cs: Vec<char> = t.s.chars().collect();
    match lexmodel::lex(&cs) {
        Ok(v) => {
            let v: Vec<_> = v.iter().filter(|m| m.start < m.end).collect();
            v.len() == t.toks.len()
                && v.iter()
                    .zip(&t.toks)
                    .all(|(a, b)| cs[a.start..a.end].iter().copied().eq(b.lit.chars()))
        }
        Err(_) => false,
    }
}
pub fn check_text(w: &mut Worker, d: &Deriv, t: &Text) {
    if !self_check(w, t) {
        panic!("reference grammar and reference lexer disagree on {:?}", t.s);
    }
    match w.parse(&t.s) {
        Out::Ok(ts) => {
            if let Some(m) = diff_all(d, &ts, &t.toks) {
                w.violation(&t.s, m);
            }
        }
        o => w.violation(&t.s, o.brief()),
    }
}
pub fn wrap(kind: &'static str, v: Vec<E>) -> E {
    let mut e = gram::none("#");
    let _ = kind;
    e.ch.push(("stmts", EC::Many(v)));
    e
}
/// SELECT <expr>
fn sel(g: &mut G, e: impl FnOnce(&mut G) -> E) -> E {
    let t = g.t("SELECT");
    let x = e(g);
    gram::n("SelectStatement", t).v("exprs", vec![x])
}
pub fn r_expr(g: &mut G) -> E {
    sel(g, |g| {
        let mut e = expr::expr(g);
        expr::alias(g, &mut e);
        e
    })
}
pub fn r_prim(g: &mut G) -> E {
    sel(g, |g| expr::prim_full(g))
}
pub fn r_orderby(g: &mut G) -> E {
    let t = g.t("SELECT");
    let x = g.id();
    let o = expr::orderby(g);
    gram::n("SelectStatement", t).v("exprs", vec![x]).c("orderby", o)
}
pub fn r_cast(g: &mut G) -> E {
    sel(g, |g| {
        let f = gram::n("Identifier", g.t("CAST"));
        let l = g.t("(");
        let x = g.id();
        let a = g.t("AS");
        let ty = types::ty(g, types::TCtx::Plain);
        let r = g.sym(")");
        gram::n("CallingFunction", l)
            .c("func", f)
            .v("args", vec![gram::n("CastArgument", a).c("cast_from", x).c("cast_to", ty)])
            .c("rparen", r)
    })
}
/// DECLARE x type
fn r_declare(g: &mut G) -> E {
    let t = g.t("DECLARE");
    let i = g.id();
    let ty = types::ty(g, types::TCtx::Plain);
    gram::n("DeclareStatement", t).v("idents", vec![i]).c("variable_type", ty)
}
fn func(g: &mut G, arg: bool) -> E {
    let t = g.t("CREATE");
    let what = g.kw("FUNCTION");
    let i = g.id();
    let l = g.t("(");
    let mut gr = gram::n("GroupedTypeDeclarationOrConstraints", l);
    let mut ret = None;
    if arg {
        let a = g.id();
        let ty = types::ty(g, types::TCtx::Arg);
        gr.putv("declarations", vec![gram::n("TypeDeclaration", a.tok.unwrap()).c("type", ty)]);
    }
    let r = g.sym(")");
    if !arg {
        let k = g.t("RETURNS");
        let ty = types::ty(g, types::TCtx::Plain);
        ret = Some(gram::n("KeywordWithType", k).c("type", ty));
    }
    let a = g.t("AS");
    let l = g.t("(");
    let x = g.id();
    let rr = g.sym(")");
    gram::n("CreateFunctionStatement", t)
        .c("what", what)
        .c("ident", i)
        .c("group", gr.c("rparen", r))
        .co("returns", ret)
        .c("as", gram::n("KeywordWithGroupedXXX", a).c("group", gram::n("GroupedExpr", l).c("expr", x).c("rparen", rr)))
}
/// CREATE FUNCTION f (x type) AS (y)
fn r_arg(g: &mut G) -> E {
    func(g, true)
}
/// CREATE FUNCTION f () RETURNS type AS (y)
fn r_returns(g: &mut G) -> E {
    func(g, false)
}
/// ALTER TABLE t ADD COLUMN x type
fn r_addcol(g: &mut G) -> E {
    g.small(|g| ddl::ddl_k(g, 19))
}
/// ARRAY<type>[x]
fn r_tarray(g: &mut G) -> E {
    sel(g, |g| {
        let t = g.t("ARRAY");
        let l = g.t("<");
        let inner = types::ty(g, types::TCtx::Plain);
        let r = g.sym(">");
        let ty = gram::n("Type", t).c("type_declaration", gram::n("GroupedType", l).c("type", inner).c("rparen", r));
        let l = g.t("[");
        let x = g.id();
        let r = g.sym("]");
        gram::n("ArrayLiteral", l).v("exprs", vec![x]).c("rparen", r).c("type", ty)
    })
}
/// STRUCT<x type>(y)
fn r_tstruct(g: &mut G) -> E {
    sel(g, |g| {
        let ty = types::struct_type(g, "STRUCT", types::TCtx::Plain);
        let l = g.t("(");
        let x = g.id();
        let r = g.sym(")");
        gram::n("StructLiteral", l).v("exprs", vec![x]).c("rparen", r).c("type", ty)
    })
}
pub fn r_query(g: &mut G) -> E {
    g.small(|g| query::query_x(g, true))
}
pub fn roots(prop: &str, th: bool) -> Vec<Root> {
    let x = th as u8;
    let r = |name, f, bound| Root { name, f, bound, rich: false, long: 9 };
    match prop {
        "C12" => crate::prec::roots(th),
        "C13" => vec![
            r("SELECT expr", r_expr as fn(&mut G) -> E, 3 + x),
            r("SELECT primary", r_prim, 3 + x),
            r("ORDER BY", r_orderby, 3 + x),
            r("nested expressions", if th { nest::ex4 } else { nest::ex3 }, 0),
            r("deeply nested expressions", nest::exp2, 0),
            r("repeated expressions", nest::exe, 0),
            r("very deeply nested expressions", nest::exd, 0),
        ],
        "C14" => vec![
            r("CAST(x AS type)", r_cast as fn(&mut G) -> E, 4 + x),
            r("column", crate::corpus::r_coltype, 3 + x),
            r("DECLARE", r_declare, 4 + x),
            r("argument", r_arg, 4 + x),
            r("RETURNS", r_returns, 4 + x),
            r("ADD COLUMN", r_addcol, 3 + x),
            r("typed array", r_tarray, 4 + x),
            r("typed struct", r_tstruct, 4 + x),
            r("nested types", nest::ty4, 0),
            r("deeply nested types", nest::typ2, 0),
            r("repeated types", nest::tye, 0),
            r("very deeply nested types", nest::tyd, 0),
        ],
        "C15" => vec![
            r("query", r_query as fn(&mut G) -> E, 3 + x),
            r("FROM", crate::corpus::r_from, 3 + x),
            r("table expression", crate::corpus::r_item, 2 + x),
            r("pipe", crate::corpus::r_pipe, 2 + x),
            r("set operation", crate::corpus::r_setop, 3 + x),
            r("WITH", crate::corpus::r_with, 3 + x),
            r("nested queries", if th { nest::qu4 } else { nest::qu3 }, 0),
            r("deeply nested queries", nest::qup2, 0),
            r("repeated queries", nest::que, 0),
            r("very deeply nested queries", nest::qud, 0),
            r("nested tables", nest::ta4, 0),
            r("deeply nested tables", nest::tap2, 0),
            r("repeated tables", nest::tae, 0),
            r("very deeply nested tables", nest::tad, 0),
        ],
        "C16" => vec![r("DDL/DCL", ddl::ddl as fn(&mut G) -> E, 3 + x)],
        "C17" => vec![
            r("statements", script::script as fn(&mut G) -> E, 3 + x),
            r("nested statements", if th { nest::st4 } else { nest::st3 }, 0),
            r("deeply nested statements", nest::stp2, 0),
            r("repeated statements", nest::ste, 0),
            r("very deeply nested statements", nest::std, 0),
        ],
        _ => vec![],
    }
}
pub fn run(ctx: &Ctx) {
    let mut rs = roots(&ctx.prop, ctx.thorough);
    if ctx.prop != "C12" {
        // the same around the statements with all optional parts
        let more: Vec<Root> = rs
            .iter()
            .filter(|r| r.bound > 0)
            .map(|r| {
                let mut r = r.rich();
                r.bound = if ctx.prop == "C14" { 3 } else { 2 + ctx.thorough as u8 };
                r
            })
            .collect();
        rs.extend(more);
    }
    if ctx.prop != "C12" {
        let x = ctx.thorough as u8;
        for n in [17, 33, 65, 129, 257] {
            let more: Vec<Root> = crate::spell::with(&rs, 1 + (x == 1 && n == 17) as u8, 1).into_iter().map(|r| r.long(n)).collect();
            explore(ctx, &more, |w, _, d| {
                if d.toks.len() > n {
                    w.count("long lists");
                    check_text(w, d, &spaced(&d.toks));
                }
            });
            if ctx.stopped() {
                return;
            }
        }
    }
    explore(ctx, &rs, |w, r, d| {
        let t = spaced(&d.toks);
        w.sample(|| json!({"root": r.name, "text": t.s}));
        check_text(w, d, &t);
        w.count(r.name);
        let c = compact(&d.toks);
        if c.s != t.s {
            check_text(w, d, &c);
        }
    });
    if ctx.prop != "C12" && !ctx.stopped() {
        crate::spell::spelled(ctx, &rs);
    }
}
