//! Reference attributed grammar of the supported GoogleSQL subset.
//!
//! Each production is Rust code that emits tokens and returns the syntax tree the published
//! types call for; choices go through `G`, so one run is one derivation.  The explorer
//! enumerates all derivations with at most `bound` non-default choices.
pub mod ddl;
pub mod expr;
pub mod nest;
pub mod query;
pub mod script;
pub mod types;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct GTok {
    pub lit: String,
    /// must follow the previous token without any gap
    pub glue: bool,
    /// a gap must stay before this token even where the lexer does not need it
    pub apart: bool,
}
impl GTok {
    pub fn is_word(&self) -> bool {
        self.lit.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_')
            && self.lit.chars().all(|c| c.is_alphanumeric() || c == '_')
    }
}
/// Expected node; `tok` indexes the derivation's token list.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct E {
    pub kind: &'static str,
    pub tok: Option<usize>,
    pub ch: Vec<(&'static str, EC)>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EC {
    One(E),
    Many(Vec<E>),
}
pub fn n(kind: &'static str, tok: usize) -> E {
    E {
        kind,
        tok: Some(tok),
        ch: vec![],
    }
}
pub fn none(kind: &'static str) -> E {
    E {
        kind,
        tok: None,
        ch: vec![],
    }
}
impl E {
    pub fn c(mut self, name: &'static str, e: E) -> E {
        self.put(name, e);
        self
    }
    pub fn v(mut self, name: &'static str, e: Vec<E>) -> E {
        self.putv(name, e);
        self
    }
    pub fn put(&mut self, name: &'static str, e: E) {
        debug_assert!(!self.ch.iter().any(|(k, _)| *k == name), "child {} twice", name);
        self.ch.push((name, EC::One(e)));
    }
    pub fn putv(&mut self, name: &'static str, e: Vec<E>) {
        debug_assert!(!self.ch.iter().any(|(k, _)| *k == name), "child {} twice", name);
        self.ch.push((name, EC::Many(e)));
    }
    pub fn co(mut self, name: &'static str, e: Option<E>) -> E {
        if let Some(e) = e {
            self.put(name, e);
        }
        self
    }
    pub fn vo(mut self, name: &'static str, e: Option<Vec<E>>) -> E {
        if let Some(e) = e {
            self.putv(name, e);
        }
        self
    }
    pub fn kind(mut self, k: &'static str) -> E {
        self.kind = k;
        self
    }
}

/// One choice point of a run.
#[derive(Clone, Copy, Debug)]
pub struct Point {
    pub chosen: u16,
    pub n: u16,
    pub cost: u8,
}
pub struct G<'a> {
    prefix: &'a [u16],
    pub points: Vec<Point>,
    pub toks: Vec<GTok>,
    names: usize,
    /// >0: only small expressions (set by statement grammars that focus on their own clauses)
    pub small: u32,
    /// nesting of queries/statements, to keep defaults finite
    pub depth: u32,
    pub allow_no_semicolon: bool,
    /// the next token would be glued to the unquoted table name emitted last
    pub pending_apart: bool,
    /// start from the statement with all optional parts present instead of absent
    pub rich: bool,
    /// the next table expression chooses its form freely
    pub focus: bool,
    /// do not emit the terminating semicolon at all (caller adds it)
    pub no_semi: bool,
    /// defaults only, no choice points: inner items of long lists
    quiet: bool,
    /// the long length of every list
    pub long: usize,
}
impl<'a> G<'a> {
    pub fn new(prefix: &'a [u16]) -> G<'a> {
        G {
            prefix,
            points: vec![],
            toks: vec![],
            names: 0,
            small: 0,
            depth: 0,
            allow_no_semicolon: true,
            pending_apart: false,
            no_semi: false,
            quiet: false,
            long: 9,
            rich: false,
            focus: false,
        }
    }
    pub fn choose(&mut self, nn: usize, cost: u8) -> usize {
        if self.quiet {
            return 0;
        }
        let i = self.points.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((c as usize) < nn, "explorer diverged while replaying a prefix");
        self.points.push(Point {
            chosen: c,
            n: nn as u16,
            cost,
        });
        c as usize
    }
    /// 0 by default; any other alternative is one deviation
    pub fn alt(&mut self, nn: usize) -> usize {
        self.choose(nn, 1)
    }
    /// like `alt`, but rich statements start from alternative 1
    pub fn ralt(&mut self, nn: usize) -> usize {
        let k = self.alt(nn);
        if self.rich && self.depth == 0 && k < 2 {
            1 - k
        } else {
            k
        }
    }
    /// all alternatives, no cost
    pub fn free(&mut self, nn: usize) -> usize {
        self.choose(nn, 0)
    }
    pub fn opt(&mut self) -> bool {
        let c = self.choose(2, 1);
        c == if self.rich && self.depth == 0 { 0 } else { 1 }
    }
    pub fn pick(&mut self, ws: &[&'static str]) -> &'static str {
        let i = self.alt(ws.len());
        ws[i]
    }
    // ----- tokens -----
    pub fn t(&mut self, lit: &str) -> usize {
        let apart = self.pending_apart && ![",", ".", "(", ")", ";"].contains(&lit);
        self.pending_apart = false;
        self.toks.push(GTok {
            lit: lit.to_string(),
            glue: false,
            apart,
        });
        self.toks.len() - 1
    }
    pub fn glue(&mut self, lit: &str) -> usize {
        let i = self.t(lit);
        self.toks[i].glue = true;
        i
    }
    pub fn kw(&mut self, lit: &str) -> E {
        n("Keyword", self.t(lit))
    }
    pub fn kws(&mut self, lits: &[&str]) -> Vec<E> {
        lits.iter().map(|l| n("Keyword", self.t(l))).collect()
    }
    /// KeywordSequence ... Keyword, nested under next_keyword
    pub fn kwseq(&mut self, lits: &[&str]) -> E {
        let idx: Vec<usize> = lits.iter().map(|l| self.t(l)).collect();
        let mut e = n("Keyword", *idx.last().unwrap());
        for i in idx.iter().rev().skip(1) {
            e = n("KeywordSequence", *i).c("next_keyword", e);
        }
        e
    }
    pub fn sym(&mut self, lit: &str) -> E {
        n("Symbol", self.t(lit))
    }
    pub fn name(&mut self) -> String {
        const NAMES: [&str; 8] = ["c1", "ab", "x_y", "_z9", "Col", "val", "k", "idx"];
        self.names += 1;
        NAMES[(self.names - 1) % 8].to_string()
    }
    /// plain identifier
    pub fn id(&mut self) -> E {
        let s = self.name();
        n("Identifier", self.t(&s))
    }
    /// identifier with lexical alternatives: quoted, or a word that is a keyword elsewhere
    pub fn idx(&mut self) -> E {
        const ALTS: [&str; 7] = ["", "`q x`", "date", "value", "offset", "type", "A"];
        let k = self.alt(ALTS.len());
        let s = if k == 0 { self.name() } else { ALTS[k].to_string() };
        n("Identifier", self.t(&s))
    }
    /// number of repetitions: one of the given, or `long`
    pub fn count(&mut self, ks: &[usize]) -> usize {
        let i = self.alt(ks.len() + 1);
        if i < ks.len() {
            ks[i]
        } else {
            self.long
        }
    }
    /// the i-th of k repetitions; of long ones only the first and the last deviate
    pub fn rep<T>(&mut self, i: usize, k: usize, f: impl FnOnce(&mut G) -> T) -> T {
        let was = self.quiet;
        self.quiet = was || (k > 4 && i > 0 && i + 1 < k);
        let r = f(self);
        self.quiet = was;
        r
    }
    /// comma separated list; default one item
    pub fn list(&mut self, mut f: impl FnMut(&mut G) -> E) -> Vec<E> {
        let k = if self.rich && self.depth == 0 {
            self.count(&[2, 1, 3])
        } else {
            self.count(&[1, 2, 3])
        };
        let mut v = vec![];
        for i in 0..k {
            let mut e = self.rep(i, k, &mut f);
            if i + 1 < k {
                let c = self.sym(",");
                e.put("comma", c);
            }
            v.push(e);
        }
        v
    }
    /// exactly k items
    pub fn listn(&mut self, k: usize, mut f: impl FnMut(&mut G) -> E) -> Vec<E> {
        let mut v = vec![];
        for i in 0..k {
            let mut e = self.rep(i, k, &mut f);
            if i + 1 < k {
                let c = self.sym(",");
                e.put("comma", c);
            }
            v.push(e);
        }
        v
    }
    pub fn maybe<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> Option<T> {
        if self.opt() {
            Some(f(self))
        } else {
            None
        }
    }
    /// keyword holding one expression: `WHERE expr`
    pub fn kwx(&mut self, kw: &str, f: impl FnOnce(&mut G) -> E) -> E {
        let t = self.t(kw);
        let e = f(self);
        n("KeywordWithExpr", t).c("expr", e)
    }
    pub fn semi(&mut self, e: &mut E) {
        if self.no_semi {
            return;
        }
        if self.allow_no_semicolon && self.depth == 0 && self.opt() {
            return;
        }
        let s = self.sym(";");
        e.put("semicolon", s);
    }
    /// run `f` with small expressions only
    pub fn small<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> T {
        self.small += 1;
        let r = f(self);
        self.small -= 1;
        r
    }
    /// run `f` as a nested query/statement (no own semicolon)
    pub fn nested<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> T {
        let old = self.no_semi;
        self.no_semi = true;
        self.depth += 1;
        let r = f(self);
        self.depth -= 1;
        self.no_semi = old;
        r
    }
}

/// A complete derivation.
#[derive(Clone)]
pub struct Deriv {
    pub toks: Vec<GTok>,
    pub tree: Vec<E>,
}
pub type Prod = fn(&mut G) -> E;
