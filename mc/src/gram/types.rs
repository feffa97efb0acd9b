use super::expr::*;
use super::query::table_ident;
use super::*;

pub const SCALARS: [&str; 16] = [
    "INT64", "STRING", "FLOAT64", "BOOL", "BYTES", "DATE", "DATETIME", "TIME", "TIMESTAMP", "GEOGRAPHY", "JSON",
    "INTERVAL", "NUMERIC", "BIGNUMERIC", "INTEGER", "`my type`",
];
#[derive(Clone, Copy, PartialEq)]
pub enum TCtx {
    /// CAST, RETURNS, DECLARE, literals
    Plain,
    /// column of a table schema: constraints, default, NOT NULL, OPTIONS
    Column,
    /// function argument: ANY TYPE, NOT AGGREGATE
    Arg,
    /// inside STRUCT<> of a schema
    Field,
}
fn inner_ctx(ctx: TCtx) -> TCtx {
    match ctx {
        TCtx::Column | TCtx::Field => TCtx::Field,
        TCtx::Arg => TCtx::Arg,
        TCtx::Plain => TCtx::Plain,
    }
}
pub fn scalar(g: &mut G) -> E {
    let s = g.pick(&SCALARS);
    n("Type", g.t(s))
}
pub fn ty(g: &mut G, ctx: TCtx) -> E {
    let mut e = match g.alt(8) {
        0 => n("Type", g.t("INT64")),
        1 => scalar(g),
        2 => {
            let t = g.pick(&["STRING", "NUMERIC", "BYTES", "bignumeric"]);
            let t = g.t(t);
            let p = grouped_exprs(g, |g| leaf_num(g));
            n("Type", t).c("parameter", p)
        }
        3 => {
            let t = g.t("ARRAY");
            let l = g.t("<");
            let inner = ty(g, inner_ctx(ctx));
            let r = g.sym(">");
            n("Type", t).c("type_declaration", n("GroupedType", l).c("type", inner).c("rparen", r))
        }
        4 => struct_type(g, "STRUCT", ctx),
        5 => {
            let t = g.t("RANGE");
            let l = g.t("<");
            let inner = scalar(g);
            let r = g.sym(">");
            n("Type", t).c("type_declaration", n("GroupedType", l).c("type", inner).c("rparen", r))
        }
        6 => {
            let w = g.pick(&["ARRAY", "STRUCT", "TABLE"]);
            n("Type", g.t(w))
        }
        _ => {
            if ctx == TCtx::Arg {
                let t = g.t("ANY");
                let k = g.kw("TYPE");
                n("Type", t).c("type", k)
            } else {
                // deeply nested
                let t = g.t("ARRAY");
                let l = g.t("<");
                let inner = struct_type(g, "STRUCT", ctx);
                let r = g.sym(">");
                n("Type", t).c("type_declaration", n("GroupedType", l).c("type", inner).c("rparen", r))
            }
        }
    };
    if ctx != TCtx::Arg && g.opt() {
        let c = g.kwx("COLLATE", |g| n("StringLiteral", g.t("'und:ci'")));
        e.put("collate", c);
    }
    if ctx == TCtx::Column {
        match g.ralt(3) {
            0 => (),
            1 => {
                let p = g.kwseq(&["PRIMARY", "KEY"]);
                e.put("primarykey", p);
                if let Some(x) = enforced(g) {
                    e.put("enforced", x);
                }
            }
            _ => {
                if g.opt() {
                    let c = g.kwx("CONSTRAINT", |g| g.idx());
                    e.put("constraint", c);
                }
                let r = references(g);
                e.put("references", r);
                if let Some(x) = enforced(g) {
                    e.put("enforced", x);
                }
            }
        }
        if let Some(d) = g.maybe(|g| g.kwx("DEFAULT", |g| expr(g))) {
            e.put("default", d);
        }
    }
    if ctx == TCtx::Column || ctx == TCtx::Field {
        if let Some(x) = g.maybe(|g| g.kws(&["NOT", "NULL"])) {
            e.putv("not_null", x);
        }
        if let Some(o) = g.maybe(|g| options(g)) {
            e.put("options", o);
        }
    }
    e
}
pub fn enforced(g: &mut G) -> Option<E> {
    match g.ralt(3) {
        0 => None,
        1 => Some(g.kwseq(&["NOT", "ENFORCED"])),
        _ => Some(g.kw("ENFORCED")),
    }
}
pub fn references(g: &mut G) -> E {
    g.kwx("REFERENCES", |g| {
        let f = table_ident(g);
        call_with(g, f, |g| vec![Some(g.id())])
    })
}
pub fn struct_type(g: &mut G, word: &str, ctx: TCtx) -> E {
    let t = g.t(word);
    let l = g.t("<");
    let fctx = inner_ctx(ctx);
    let d = g.list(|g| {
        let mut d = if fctx == TCtx::Field || g.alt(2) == 0 {
            let mut x = g.idx();
            x.kind = "TypeDeclaration";
            x
        } else {
            none("TypeDeclaration")
        };
        let ty = ty(g, fctx);
        d.put("type", ty);
        d
    });
    let r = g.sym(">");
    n("Type", t).c(
        "type_declaration",
        n("GroupedTypeDeclarationOrConstraints", l).v("declarations", d).c("rparen", r),
    )
}
/// STRUCT<fields>
pub fn struct_of(g: &mut G, f: impl FnOnce(&mut G) -> Vec<E>) -> E {
    let t = g.t("STRUCT");
    let l = g.t("<");
    let d = f(g);
    let r = g.sym(">");
    n("Type", t).c(
        "type_declaration",
        n("GroupedTypeDeclarationOrConstraints", l).v("declarations", d).c("rparen", r),
    )
}
/// OPTIONS (a = 1, b = 'x')
pub fn options(g: &mut G) -> E {
    let t = g.t("OPTIONS");
    let group = opt_group(g);
    n("KeywordWithGroupedXXX", t).c("group", group)
}
pub fn opt_group(g: &mut G) -> E {
    grouped_exprs(g, |g| {
        let l = g.id();
        let op = g.t("=");
        let r = g.small(|g| prim(g));
        n("BinaryOperator", op).c("left", l).c("right", r)
    })
}
