//! Deviation-bounded exhaustive exploration of the reference grammar, rendering of
//! derivations to text, and comparison of expected with actual trees.
use crate::engine::{Ctx, Worker};
use crate::gram::{Deriv, GTok, E, EC, G};
use crate::sut::{Child, Tok, Tree};

/// A root of the exploration: a production and the bound on non-default choices.
#[derive(Clone, Copy)]
pub struct Root {
    pub name: &'static str,
    pub f: fn(&mut G) -> E,
    pub bound: u8,
    /// deviations are counted from the statement with all optional parts
    pub rich: bool,
    /// length of a long list
    pub long: usize,
}
impl Root {
    pub fn long(mut self, n: usize) -> Root {
        self.long = n;
        self
    }
    pub fn rich(mut self) -> Root {
        self.rich = true;
        self
    }
}
pub struct Item {
    root: usize,
    prefix: Vec<u16>,
    cost: u8,
}
/// Enumerates every derivation of every root with at most `bound` deviations, once.
pub fn explore(ctx: &Ctx, roots: &[Root], f: impl Fn(&mut Worker, &Root, &Deriv) + Sync) {
    let items: Vec<Item> = (0..roots.len())
        .map(|i| Item {
            root: i,
            prefix: vec![],
            cost: 0,
        })
        .collect();
    ctx.run(items, |w, it, push| {
        let r = &roots[it.root];
        let mut g = G::new(&it.prefix);
        g.rich = r.rich;
        g.long = r.long;
        let tree = (r.f)(&mut g);
        assert!(
            g.points.len() >= it.prefix.len(),
            "explorer diverged while replaying a prefix"
        );
        w.states += 1;
        let d = Deriv {
            toks: std::mem::take(&mut g.toks),
            tree: if tree.kind == "#" {
                match tree.ch.into_iter().next() {
                    Some((_, EC::Many(v))) => v,
                    _ => vec![],
                }
            } else {
                vec![tree]
            },
        };
        f(w, r, &d);
        for i in it.prefix.len()..g.points.len() {
            let p = g.points[i];
            let cost = it.cost + p.cost;
            if cost > r.bound {
                continue;
            }
            for a in 1..p.n {
                let mut prefix: Vec<u16> = Vec::with_capacity(i + 1);
                prefix.extend(g.points[..i].iter().map(|p| p.chosen));
                prefix.push(a);
                w.transitions += 1;
                push.push(Item {
                    root: it.root,
                    prefix,
                    cost,
                });
            }
        }
    });
}

/// Text of a derivation together with the position of every token.
pub struct Text {
    pub s: String,
    pub toks: Vec<Tok>,
}
/// `gap(i)` is the text before token i (i = toks.len() is the end); it must be "" where glue.
pub fn render(toks: &[GTok], mut gap: impl FnMut(usize) -> String) -> Text {
    let mut s = String::new();
    let (mut line, mut col) = (1u64, 1u64);
    let mut out = vec![];
    let mut adv = |s: &mut String, t: &str, line: &mut u64, col: &mut u64| {
        for c in t.chars() {
            if c == '\n' {
                *line += 1;
                *col = 1;
            } else {
                *col += 1;
            }
        }
        s.push_str(t);
    };
    for (i, t) in toks.iter().enumerate() {
        let g = gap(i);
        adv(&mut s, &g, &mut line, &mut col);
        out.push(Tok {
            line,
            col,
            lit: t.lit.clone(),
        });
        adv(&mut s, &t.lit, &mut line, &mut col);
    }
    let g = gap(toks.len());
    adv(&mut s, &g, &mut line, &mut col);
    Text { s, toks: out }
}
pub fn spaced(toks: &[GTok]) -> Text {
    render(toks, |i| {
        if i == 0 || i == toks.len() || toks[i].glue {
            String::new()
        } else {
            " ".into()
        }
    })
}
/// may b directly follow a without changing the tokens?
pub fn joinable(a: &GTok, b: &GTok) -> bool {
    if b.glue {
        return true;
    }
    if b.apart {
        return false;
    }
    let (x, y) = (&a.lit[..], &b.lit[..]);
    const OPEN: [&str; 4] = ["(", ",", ";", "["];
    const CLOSE: [&str; 5] = [")", ",", ";", "]", "["];
    let plain = |s: &str| {
        let c = s.chars().next().unwrap();
        c.is_alphanumeric() || c == '_' || c == '`' || c == '\''
    };
    let word = |s: &str| {
        let c = s.chars().next().unwrap();
        c.is_alphabetic() || c == '_' || c == '`'
    };
    if y == "(" {
        // after words, numbers, quoted things and opening brackets
        return plain(x) || OPEN.contains(&x) || x == "=" || x == ">";
    }
    if OPEN.contains(&x) {
        return y != "." && !(x == "," && y.starts_with('{'));
    }
    if CLOSE.contains(&y) {
        return !(x == "{");
    }
    if x == "." || y == "." {
        return (x == "." && word(y)) || (y == "." && (word(x) || x == ")" || x == "]" || x.starts_with('\'')));
    }
    const OP: [&str; 12] = ["=", "+", "*", "<=", ">=", "!=", "<>", "||", "&", "^", "-", "/"];
    if OP.contains(&x) {
        return plain(y) && !y.starts_with(|c: char| c.is_ascii_digit());
    }
    if OP.contains(&y) {
        return plain(x) && !x.ends_with('.') || x == ")";
    }
    false
}
/// no whitespace wherever the lexical rules allow that
pub fn compact(toks: &[GTok]) -> Text {
    render(toks, |i| {
        if i == 0 || i == toks.len() || joinable(&toks[i - 1], &toks[i]) {
            String::new()
        } else {
            " ".into()
        }
    })
}
/// one token per line
pub fn tall(toks: &[GTok]) -> Text {
    render(toks, |i| {
        if i == 0 {
            "\n ".into()
        } else if i == toks.len() {
            "\n".into()
        } else if toks[i].glue {
            String::new()
        } else {
            "\n\t".into()
        }
    })
}

/// Path of the first difference between expected and actual, if any.
pub fn diff(e: &E, t: &Tree, toks: &[Tok]) -> Option<String> {
    if e.kind != t.kind {
        return Some(format!(
            "node {} should be {}, is {}",
            t.tok.as_ref().map_or("None", |t| &t.lit[..]),
            e.kind,
            t.kind
        ));
    }
    match (e.tok, &t.tok) {
        (None, None) => (),
        (Some(i), Some(a)) => {
            if toks[i] != *a {
                return Some(format!("{} node should hold token {:?}, holds {:?}", e.kind, toks[i], a));
            }
        }
        (x, a) => return Some(format!("{} node should hold token {:?}, holds {:?}", e.kind, x, a)),
    }
    for (k, c) in &e.ch {
        match (c, t.get(k)) {
            (_, None) => return Some(format!("{}: child {} is missing", e.kind, k)),
            (EC::One(x), Some(Child::One(y))) => {
                if let Some(d) = diff(x, y, toks) {
                    return Some(format!("{}.{} > {}", e.kind, k, d));
                }
            }
            (EC::Many(x), Some(Child::Many(y))) => {
                if x.len() != y.len() {
                    return Some(format!("{}.{} should have {} items, has {}", e.kind, k, x.len(), y.len()));
                }
                for (i, (x, y)) in x.iter().zip(y).enumerate() {
                    if let Some(d) = diff(x, y, toks) {
                        return Some(format!("{}.{}[{}] > {}", e.kind, k, i, d));
                    }
                }
            }
            _ => return Some(format!("{}.{} has the wrong shape (single node or list)", e.kind, k)),
        }
    }
    if t.ch.len() != e.ch.len() {
        for (k, _) in &t.ch {
            if !e.ch.iter().any(|(n, _)| n == k) {
                return Some(format!("{}: unexpected child {}", e.kind, k));
            }
        }
    }
    None
}
/// expected statement list (without the end-of-input node) against the actual one
pub fn diff_all(d: &Deriv, ts: &[Tree], toks: &[Tok]) -> Option<String> {
    if ts.last().map_or(true, |t| t.kind != "EOF" || t.tok.is_some()) {
        return Some("the list does not end with the end-of-input node".into());
    }
    if ts.len() != d.tree.len() + 1 {
        return Some(format!(
            "should be {} statement(s), is {}: {}",
            d.tree.len(),
            ts.len() - 1,
            ts.iter().map(|t| t.kind.clone()).collect::<Vec<_>>().join(", ")
        ));
    }
    for (e, t) in d.tree.iter().zip(ts) {
        if let Some(d) = diff(e, t, toks) {
            return Some(d);
        }
    }
    None
}
