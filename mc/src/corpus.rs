//! Roots shared by the properties that quantify over "every well-formed text", and texts with
//! comments and arbitrary gaps built from derivations.
use crate::explore::{Root, Text};
use crate::gram::{self, ddl, expr, nest, query, script, types, GTok, E, G};
use crate::gramchecks::*;
use crate::sut::{Child, Tok, Tree};

/// SELECT c FROM join
pub fn r_from(g: &mut G) -> E {
    g.small(|g| {
        let t = g.t("SELECT");
        let c = g.id();
        let f = query::from_stmt(g);
        let f = f.kind("KeywordWithExpr");
        let mut e = gram::n("SelectStatement", t).v("exprs", vec![c]).c("from", f);
        g.semi(&mut e);
        e
    })
}
/// SELECT c FROM item, each form of item free
pub fn r_item(g: &mut G) -> E {
    g.focus = true;
    let e = r_from(g);
    g.focus = false;
    e
}
/// FROM t |> operator (each operator free)
pub fn r_pipe(g: &mut G) -> E {
    g.small(|g| {
        let l = query::from_stmt(g);
        let t = g.t("|>");
        let k = g.free(query::PIPES);
        let r = query::pipe_op_k(g, k);
        let mut e = gram::n("PipeStatement", t).c("left", l).c("right", r);
        g.semi(&mut e);
        e
    })
}
pub fn r_setop(g: &mut G) -> E {
    g.small(|g| {
        let mut e = query::set_ops(g, true);
        g.semi(&mut e);
        e
    })
}
pub fn r_with(g: &mut G) -> E {
    g.small(|g| {
        let w = query::with_clause(g, "WithClause", false);
        let t = g.t("SELECT");
        let c = g.id();
        let mut e = gram::n("SelectStatement", t).v("exprs", vec![c]);
        e.put("with", w);
        g.semi(&mut e);
        e
    })
}
/// each primary form free
pub fn r_primk(g: &mut G) -> E {
    let t = g.t("SELECT");
    let k = g.free(expr::PRIMS);
    let x = expr::prim_k(g, k);
    gram::n("SelectStatement", t).v("exprs", vec![x])
}
/// each operator form free
pub fn r_opk(g: &mut G) -> E {
    let t = g.t("SELECT");
    let k = g.free(expr::OPS);
    let x = expr::op(g, k);
    gram::n("SelectStatement", t).v("exprs", vec![x])
}
/// CREATE TABLE t (c type)
pub fn r_coltype(g: &mut G) -> E {
    let t = g.t("CREATE");
    let what = g.kw("TABLE");
    let id = g.id();
    let l = g.t("(");
    let c = g.id();
    let ty = g.small(|g| types::ty(g, types::TCtx::Column));
    let r = g.sym(")");
    let d = gram::n("TypeDeclaration", c.tok.unwrap()).kind("TypeDeclaration").c("type", ty);
    gram::n("CreateTableStatement", t)
        .c("what", what)
        .c("ident", id)
        .c("column_schema_group", gram::n("GroupedTypeDeclarationOrConstraints", l).v("declarations", vec![d]).c("rparen", r))
}
/// All roots with `d` deviations (the free-headed ones one or the same as given).
pub fn all(d: u8) -> Vec<Root> {
    let r = |name, f: fn(&mut G) -> E, bound| Root { name, f, bound, rich: false, long: 9 };
    vec![
        r("expression", r_expr, d),
        r("primary", r_primk, d),
        r("operator", r_opk, d),
        r("ORDER BY", r_orderby, d),
        r("type", r_cast, d),
        r("column", r_coltype, d),
        r("query", r_query, d),
        r("FROM", r_from, d),
        r("table expression", r_item, d),
        r("pipe", r_pipe, d),
        r("set operation", r_setop, d),
        r("WITH", r_with, d),
        r("DDL/DCL", ddl::ddl, d),
        r("DML/script", script::script, d),
    ]
}

/// the same roots, deviating from the richest statements
pub fn rich(d: u8) -> Vec<Root> {
    all(d).into_iter().map(|r| r.rich()).collect()
}

pub fn both(d: u8, r: u8) -> Vec<Root> {
    let mut v = all(d);
    v.extend(rich(r));
    v.extend(nests());
    v
}
/// every nesting of two constructs, and every construct nested in itself to depth
pub fn nests() -> Vec<Root> {
    let r = |name, f: fn(&mut G) -> E| Root { name, f, bound: 0, rich: false, long: 9 };
    vec![
        r("nested expressions", nest::ex2),
        r("nested expressions", nest::exp1),
        r("nested queries", nest::qu2),
        r("nested queries", nest::qup1),
        r("nested tables", nest::ta2),
        r("nested tables", nest::tap1),
        r("nested types", nest::ty2),
        r("nested types", nest::typ1),
        r("nested statements", nest::st2),
        r("nested statements", nest::stp1),
    ]
}

#[derive(Clone, Debug)]
pub enum P {
    W(String),
    C(String),
}
pub fn w(s: &str) -> P {
    P::W(s.into())
}
pub fn c(s: &str) -> P {
    P::C(s.into())
}
pub struct CText {
    pub t: Text,
    /// comments with the index of the grammar token that follows (toks.len() = end)
    pub comments: Vec<(Tok, usize)>,
}
/// gap(i): the pieces before token i.
pub fn render_c(toks: &[GTok], mut gap: impl FnMut(usize) -> Vec<P>) -> CText {
    let mut s = String::new();
    let (mut line, mut col) = (1u64, 1u64);
    let mut out = vec![];
    let mut comments = vec![];
    let mut adv = |s: &mut String, t: &str, line: &mut u64, col: &mut u64| {
        for c in t.chars() {
            if c == '\n' {
                *line += 1;
                *col = 1;
            } else {
                *col += 1;
            }
        }
        s.push_str(t);
    };
    for i in 0..=toks.len() {
        for p in gap(i) {
            match p {
                P::W(x) => adv(&mut s, &x, &mut line, &mut col),
                P::C(x) => {
                    comments.push((
                        Tok {
                            line,
                            col,
                            lit: x.clone(),
                        },
                        i,
                    ));
                    adv(&mut s, &x, &mut line, &mut col);
                }
            }
        }
        if i < toks.len() {
            out.push(Tok {
                line,
                col,
                lit: toks[i].lit.clone(),
            });
            adv(&mut s, &toks[i].lit, &mut line, &mut col);
        }
    }
    CText {
        t: Text { s, toks: out },
        comments,
    }
}
/// the usual gap text
pub fn dflt(toks: &[GTok], i: usize) -> Vec<P> {
    if i == 0 || i == toks.len() || toks[i].glue {
        vec![]
    } else {
        vec![w(" ")]
    }
}
pub fn gap_ok(toks: &[GTok], i: usize) -> bool {
    i == 0 || i == toks.len() || !toks[i].glue
}

/// Replaces every token by its index in the text (line = index + 1, column 0) and drops comment
/// children; an unknown token is an error.
pub fn norm(t: &Tree, toks: &[Tok]) -> Result<Tree, String> {
    let tok = match &t.tok {
        None => None,
        Some(k) => match toks.binary_search_by(|x| (x.line, x.col).cmp(&(k.line, k.col))) {
            Ok(i) if toks[i].lit == k.lit => Some(Tok {
                line: i as u64 + 1,
                col: 0,
                lit: String::new(),
            }),
            _ => return Err(format!("the {} node holds {:?} at {}:{}, no token of the text", t.kind, k.lit, k.line, k.col)),
        },
    };
    let mut ch = Vec::with_capacity(t.ch.len());
    for (n, c) in &t.ch {
        if n == "leading_comments" || n == "trailing_comments" {
            continue;
        }
        ch.push((
            n.clone(),
            match c {
                Child::One(x) => Child::One(norm(x, toks)?),
                Child::Many(v) => Child::Many(v.iter().map(|x| norm(x, toks)).collect::<Result<_, _>>()?),
            },
        ));
    }
    Ok(Tree {
        kind: t.kind.clone(),
        tok,
        ch,
    })
}
pub fn norm_all(ts: &[Tree], toks: &[Tok]) -> Result<Vec<Tree>, String> {
    ts.iter().map(|t| norm(t, toks)).collect()
}
/// path of the first difference between two trees
pub fn tdiff(a: &Tree, b: &Tree) -> Option<String> {
    if a.kind != b.kind {
        return Some(format!("{} became {}", a.kind, b.kind));
    }
    if a.tok != b.tok {
        let f = |t: &Option<Tok>| t.as_ref().map_or("none".to_string(), |t| format!("#{}", t.line));
        return Some(format!("token of {} changed from {} to {}", a.kind, f(&a.tok), f(&b.tok)));
    }
    let na: Vec<_> = a.ch.iter().map(|x| &x.0).collect();
    let nb: Vec<_> = b.ch.iter().map(|x| &x.0).collect();
    if na != nb {
        return Some(format!("children of {} changed from {:?} to {:?}", a.kind, na, nb));
    }
    for ((k, x), (_, y)) in a.ch.iter().zip(&b.ch) {
        let d = match (x, y) {
            (Child::One(x), Child::One(y)) => tdiff(x, y),
            (Child::Many(x), Child::Many(y)) => ldiff(x, y),
            _ => Some("shape changed".into()),
        };
        if let Some(d) = d {
            return Some(format!("{}.{} > {}", a.kind, k, d));
        }
    }
    None
}
pub fn ldiff(x: &[Tree], y: &[Tree]) -> Option<String> {
    if x.len() != y.len() {
        return Some(format!("list of {} became list of {}", x.len(), y.len()));
    }
    x.iter().zip(y).find_map(|(x, y)| tdiff(x, y))
}
