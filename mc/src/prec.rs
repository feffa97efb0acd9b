//! C12: operator nesting.  An expression is a flat list of operands and operators; the expected
//! tree is built by splitting at the weakest operator (rightmost of a level), which is a
//! direct reading of the precedence table and not an operator-precedence parser.
use crate::explore::Root;
use crate::gram::expr::*;
use crate::gram::*;

#[derive(Clone)]
enum It {
    /// prefix operators (token indices) and the primary
    Val(Vec<usize>, E),
    Op(Op),
}
#[derive(Clone)]
struct Op {
    level: u32,
    tok: usize,
    kind: &'static str,
    /// children that come with the operator (not, quantifier, distinct, from)
    ch: Vec<(&'static str, E)>,
    /// the AND of a BETWEEN: index among items of its BETWEEN
    and: bool,
}
/// (text, level): the documented table, tightest first
const BIN: [(&str, u32); 20] = [
    ("*", 3), ("/", 3), ("||", 3),
    ("+", 4), ("-", 4),
    ("<<", 5), (">>", 5),
    ("&", 6),
    ("^", 7),
    ("|", 8),
    ("=", 9), ("<", 9), (">", 9), ("<=", 9), (">=", 9), ("!=", 9), ("<>", 9), ("LIKE", 9),
    ("AND", 11),
    ("OR", 12),
];
const COMPARE: u32 = 9;
const NOT: u32 = 10;
const INFIX: usize = 31;

fn val(g: &mut G, not_ok: bool) -> It {
    // prefixes
    const P: [&[&str]; 9] = [&[], &["-"], &["+"], &["~"], &["-", "~"], &["-", "-"], &["NOT"], &["NOT", "NOT"], &["NOT", "-"]];
    let k = g.alt(if not_ok { 9 } else { 6 });
    let pre = P[k].iter().map(|p| g.t(p)).collect();
    let e = match g.alt(4) {
        0 => g.id(),
        1 => prim_full(g),
        2 => group(g),
        _ => post(g),
    };
    It::Val(pre, e)
}
/// field access, subscript and call, in any order
fn post(g: &mut G) -> E {
    let mut e = g.id();
    let k = 1 + g.alt(3);
    let mut callable = true;
    for _ in 0..k {
        let f = g.free(if callable { 3 } else { 2 });
        match f {
            0 => {
                let d = g.t(".");
                let r = g.id();
                e = n("DotOperator", d).c("left", e).c("right", r);
            }
            1 => {
                let t = g.t("[");
                let i = n("NumericLiteral", g.t("0"));
                let r = g.sym("]");
                e = n("AccessOperator", t).c("left", e).c("right", i).c("rparen", r);
                callable = false;
            }
            _ => {
                e = call_with(g, e, |g| vec![Some(g.id())]);
                callable = false;
            }
        }
        if f == 0 && matches!(e.kind, "DotOperator") {
            // a.b(x) is a call of a path only while the left side is a plain path
            callable = path(&e);
        }
    }
    e
}
fn path(e: &E) -> bool {
    match e.kind {
        "Identifier" => true,
        "DotOperator" => e.ch.iter().all(|(_, c)| match c {
            EC::One(x) => path(x),
            _ => false,
        }),
        _ => false,
    }
}
/// one infix operator and its operand(s)
fn infix(g: &mut G, items: &mut Vec<It>, tight_left: bool) {
    let k = if tight_left { 10 + g.free(INFIX - 10) } else { g.free(INFIX) };
    infix_k(g, items, k)
}
fn infix_k(g: &mut G, items: &mut Vec<It>, k: usize) {
    let op = |level, tok, kind, ch, and| It::Op(Op { level, tok, kind, ch, and });
    let fixed = |e| It::Val(vec![], e);
    match k {
        0..=19 => {
            let t = g.t(BIN[k].0);
            items.push(op(BIN[k].1, t, "BinaryOperator", vec![], false));
            let v = val(g, BIN[k].1 > NOT);
            items.push(v);
        }
        20 => {
            let nt = g.kw("NOT");
            let t = g.t("LIKE");
            items.push(op(COMPARE, t, "BinaryOperator", vec![("not", nt)], false));
            let v = val(g, false);
            items.push(v);
        }
        21 | 22 => {
            let nt = if k == 22 { Some(g.kw("NOT")) } else { None };
            let t = g.t("BETWEEN");
            items.push(op(COMPARE, t, "BetweenOperator", nt.map(|x| ("not", x)).into_iter().collect(), false));
            let v = val(g, false);
            items.push(v);
            if g.alt(2) == 1 {
                // a tighter operator inside the lower bound
                let j = g.free(10);
                let t = g.t(BIN[j].0);
                items.push(op(BIN[j].1, t, "BinaryOperator", vec![], false));
                let v = val(g, false);
                items.push(v);
            }
            let t = g.t("AND");
            items.push(op(COMPARE, t, "", vec![], true));
            let v = val(g, false);
            items.push(v);
        }
        23 | 24 => {
            let nt = if k == 24 { Some(g.kw("NOT")) } else { None };
            let t = g.t("IN");
            items.push(op(COMPARE, t, "InOperator", nt.map(|x| ("not", x)).into_iter().collect(), false));
            let e = if g.alt(2) == 0 {
                grouped_exprs(g, |g| g.id())
            } else {
                let f = n("Identifier", g.t("UNNEST"));
                call_with(g, f, |g| vec![Some(g.id())]).kind("CallingUnnest")
            };
            items.push(fixed(e));
        }
        25 | 26 => {
            let t = g.t("IS");
            let nt = if k == 26 { Some(g.kw("NOT")) } else { None };
            items.push(op(COMPARE, t, "BinaryOperator", nt.map(|x| ("not", x)).into_iter().collect(), false));
            let e = match g.alt(3) {
                0 => n("NullLiteral", g.t("NULL")),
                1 => n("BooleanLiteral", g.t("TRUE")),
                _ => n("BooleanLiteral", g.t("FALSE")),
            };
            items.push(fixed(e));
        }
        27 | 28 => {
            let t = g.t("IS");
            let mut ch = vec![];
            if k == 28 {
                ch.push(("not", g.kw("NOT")));
            }
            ch.push(("distinct", g.kw("DISTINCT")));
            ch.push(("from", g.kw("FROM")));
            items.push(op(COMPARE, t, "IsDistinctFromOperator", ch, false));
            let v = val(g, false);
            items.push(v);
        }
        _ => {
            let mut ch = vec![];
            if k == 30 {
                ch.push(("not", g.kw("NOT")));
            }
            let t = g.t("LIKE");
            let q = g.pick(&["ANY", "ALL", "SOME"]);
            ch.push(("quantifier", g.kw(q)));
            items.push(op(COMPARE, t, "BinaryOperator", ch, false));
            let e = tuple_ids(g);
            items.push(fixed(e));
        }
    }
}
fn tuple_ids(g: &mut G) -> E {
    let t = g.t("(");
    let v = g.listn(2, |g| g.id());
    let r = g.sym(")");
    n("StructLiteral", t).v("exprs", v).c("rparen", r)
}
fn build(items: &[It]) -> E {
    // weakest first
    for level in [12, 11] {
        if let Some(i) = items.iter().rposition(|x| matches!(x, It::Op(o) if o.level == level)) {
            return split(items, i);
        }
    }
    if let It::Val(pre, e) = &items[0] {
        // NOT is weaker than everything left in the list
        if let Some(&t) = pre.first() {
            if NOTS.with(|s| s.borrow().contains(&t)) {
                let mut rest = items.to_vec();
                rest[0] = It::Val(pre[1..].to_vec(), e.clone());
                return n("UnaryOperator", t).c("right", build(&rest));
            }
        }
    }
    for level in [9, 8, 7, 6, 5, 4, 3] {
        if let Some(i) = items.iter().rposition(|x| matches!(x, It::Op(o) if o.level == level)) {
            return split(items, i);
        }
    }
    match items {
        [It::Val(pre, e)] => {
            let mut x = e.clone();
            for t in pre.iter().rev() {
                x = n("UnaryOperator", *t).c("right", x);
            }
            x
        }
        _ => unreachable!(),
    }
}
fn split(items: &[It], i: usize) -> E {
    let o = match &items[i] {
        It::Op(o) => o,
        _ => unreachable!(),
    };
    if o.and {
        let b = items[..i].iter().rposition(|x| matches!(x, It::Op(o) if o.kind == "BetweenOperator")).unwrap();
        let bo = match &items[b] {
            It::Op(o) => o,
            _ => unreachable!(),
        };
        let mut e = n("BetweenOperator", bo.tok)
            .c("left", build(&items[..b]))
            .c("right_min", build(&items[b + 1..i]))
            .c("and", n("Keyword", o.tok))
            .c("right_max", build(&items[i + 1..]));
        for (k, x) in &bo.ch {
            e.put(k, x.clone());
        }
        return e;
    }
    let mut e = n(o.kind, o.tok).c("left", build(&items[..i])).c("right", build(&items[i + 1..]));
    for (k, x) in &o.ch {
        e.put(k, x.clone());
    }
    e
}
thread_local! {
    static NOTS: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(vec![]) };
}
/// after a predicate whose right side is not an expression only weaker operators follow
fn closed(items: &[It]) -> bool {
    items.len() >= 2
        && match (&items[items.len() - 2], &items[items.len() - 1]) {
            (It::Op(o), It::Val(p, v)) => {
                p.is_empty()
                    && (matches!(v.kind, "GroupedExprs" | "CallingUnnest" | "NullLiteral" | "BooleanLiteral") && o.level == COMPARE
                        || o.ch.iter().any(|c| c.0 == "quantifier"))
            }
            _ => false,
        }
}
fn finish(g: &mut G, items: &[It]) -> E {
    let nots: Vec<usize> = items
        .iter()
        .flat_map(|x| match x {
            It::Val(p, _) => p.clone(),
            _ => vec![],
        })
        .filter(|t| g.toks[*t].lit == "NOT")
        .collect();
    NOTS.with(|s| *s.borrow_mut() = nots);
    build(items)
}
/// an expression with exactly k infix operators
fn chain(g: &mut G, k: usize) -> E {
    let mut items = vec![val(g, true)];
    for _ in 0..k {
        let c = closed(&items);
        infix(g, &mut items, c);
    }
    finish(g, &items)
}
/// two operators alternating (or one group of the first, then the second) over a long chain
fn periodic(g: &mut G) -> E {
    let (a, b) = (g.free(INFIX), g.free(INFIX));
    let len = [5, 6, 9, 17, 33][g.free(5)];
    let block = g.free(2) == 1;
    context(g, |g| {
        let mut items = vec![val(g, true)];
        for i in 0..len {
            let k = if block && 2 * i < len || !block && i % 2 == 0 { a } else { b };
            if closed(&items) && k < 10 {
                break;
            }
            infix_k(g, &mut items, k);
        }
        finish(g, &items)
    })
}
/// runs of prefix operators, alone and after an operator
fn prefixes(g: &mut G) -> E {
    let p = g.free(6);
    let len = [1, 2, 3, 4, 5, 9, 17, 33][g.free(8)];
    let op = g.free(INFIX + 1);
    context(g, |g| {
        const Q: [[&str; 2]; 6] = [["-", "-"], ["+", "+"], ["~", "~"], ["-", "~"], ["NOT", "NOT"], ["+", "-"]];
        let pre: Vec<usize> = (0..len).map(|i| g.t(Q[p][i % 2])).collect();
        let e = g.id();
        let mut items = vec![It::Val(pre, e)];
        if op < INFIX {
            infix_k(g, &mut items, op);
        }
        finish(g, &items)
    })
}
/// the places an expression may stand in, with neighbours that must stay outside
fn context(g: &mut G, x: impl FnOnce(&mut G) -> E) -> E {
    let k = g.alt(12);
    let t = g.t("SELECT");
    let s = n("SelectStatement", t);
    let one = |e| s.clone().v("exprs", vec![e]);
    match k {
        0 => {
            let e = x(g);
            one(e)
        }
        1 => {
            let e = x(g);
            let a = g.kw("AS");
            let i = g.id();
            one(e.c("as", a).c("alias", i))
        }
        2 => {
            let e = x(g);
            let c = g.sym(",");
            let i = g.id();
            s.v("exprs", vec![e.c("comma", c), i])
        }
        3 => {
            let f = g.id();
            let l = g.t("(");
            let e = x(g);
            let c = g.sym(",");
            let i = g.id();
            let r = g.sym(")");
            one(n("CallingFunction", l).c("func", f).v("args", vec![e.c("comma", c), i]).c("rparen", r))
        }
        4 => {
            let l = g.t("[");
            let e = x(g);
            let c = g.sym(",");
            let i = g.id();
            let r = g.sym("]");
            one(n("ArrayLiteral", l).v("exprs", vec![e.c("comma", c), i]).c("rparen", r))
        }
        5 => {
            let l = g.t("(");
            let e = x(g);
            let r = g.sym(")");
            one(n("GroupedExpr", l).c("expr", e).c("rparen", r))
        }
        6 => {
            let l = g.t("(");
            let e = x(g);
            let r = g.sym(")");
            let o = g.t("*");
            let i = g.id();
            one(n("BinaryOperator", o).c("left", n("GroupedExpr", l).c("expr", e).c("rparen", r)).c("right", i))
        }
        7 => {
            let c = g.t("CASE");
            let w = g.t("WHEN");
            let e = x(g);
            let th = g.kw("THEN");
            let i = g.id();
            let en = g.kw("END");
            one(n("CaseExpr", c)
                .v("arms", vec![n("CaseExprArm", w).c("expr", e).c("then", th).c("result", i)])
                .c("end", en))
        }
        8 => {
            let i = g.id();
            let f = g.t("FROM");
            let tb = g.id();
            let w = g.t("WHERE");
            let e = x(g);
            let gr = g.t("GROUP");
            let by = g.kw("BY");
            let j = g.id();
            one(i)
                .c("from", n("KeywordWithExpr", f).c("expr", tb))
                .c("where", n("KeywordWithExpr", w).c("expr", e))
                .c("groupby", n("GroupByExprs", gr).c("by", by).v("exprs", vec![j]))
        }
        9 => {
            let i = g.id();
            let o = g.t("ORDER");
            let by = g.kw("BY");
            let e = x(g);
            let d = g.kw("DESC");
            let c = g.sym(",");
            let j = g.id();
            one(i).c("orderby", n("XXXByExprs", o).c("by", by).v("exprs", vec![e.c("order", d).c("comma", c), j]))
        }
        10 => {
            let i = g.id();
            let l = g.t("[");
            let e = x(g);
            let r = g.sym("]");
            one(n("AccessOperator", l).c("left", i).c("right", e).c("rparen", r))
        }
        _ => {
            let e = x(g);
            let f = g.t("FROM");
            let tb = g.id();
            one(e).c("from", n("KeywordWithExpr", f).c("expr", tb))
        }
    }
}
fn p0(g: &mut G) -> E {
    context(g, |g| chain(g, 0))
}
fn p1(g: &mut G) -> E {
    context(g, |g| chain(g, 1))
}
fn p2(g: &mut G) -> E {
    context(g, |g| chain(g, 2))
}
fn p3(g: &mut G) -> E {
    context(g, |g| chain(g, 3))
}
fn p4(g: &mut G) -> E {
    context(g, |g| chain(g, 4))
}
fn p5(g: &mut G) -> E {
    context(g, |g| chain(g, 5))
}
pub fn roots(th: bool) -> Vec<Root> {
    let x = th as u8;
    let r = |name, f: fn(&mut G) -> E, bound| Root { name, f, bound, rich: false, long: 9 };
    let mut v = vec![
        r("no infix operator", p0, 3 + x),
        r("1 infix operator", p1, 2 + x),
        r("2 infix operators", p2, 1 + x),
        r("3 infix operators", p3, x),
        r("4 infix operators", p4, 0),
        r("periodic chains", periodic, x),
        r("prefix runs", prefixes, x),
    ];
    if th {
        v.push(r("5 infix operators", p5, 0));
    }
    v
}
