//! Calls into the real bq2cst code and conversion of its results into plain trees.
use bq2cst::verif::{Lexer, Parser};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Tok {
    pub line: u64,
    pub col: u64,
    pub lit: String,
}
pub const MAXPOS: u64 = u64::MAX;
impl Tok {
    pub fn is_eof(&self) -> bool {
        self.lit.is_empty()
    }
    pub fn is_comment(&self) -> bool {
        self.lit.starts_with('#') || self.lit.starts_with("--") || self.lit.starts_with("/*")
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tree {
    pub kind: String,
    pub tok: Option<Tok>,
    /// sorted by name
    pub ch: Vec<(String, Child)>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Child {
    One(Tree),
    Many(Vec<Tree>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out<T> {
    Ok(T),
    Err { line: u64, col: u64, msg: String },
    Panic(String),
}
impl<T> Out<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn brief(&self) -> String {
        match self {
            Out::Ok(_) => "accepted".into(),
            Out::Err { line, col, msg } => {
                let f = |x: &u64| if *x == MAXPOS { "EOF".to_string() } else { x.to_string() };
                format!("rejected at {}:{} ({})", f(line), f(col), msg.replace('\n', " "))
            }
            Out::Panic(m) => format!("PANIC: {}", m),
        }
    }
}

fn num(v: &serde_json::Value) -> u64 {
    v.as_u64().expect("position is not a number")
}
fn err_of<E: serde::Serialize>(e: &E) -> (u64, u64, String) {
    let v = serde_json::to_value(e).expect("error not serializable");
    (
        num(&v["line"]),
        num(&v["column"]),
        v["message"].as_str().unwrap_or("").to_string(),
    )
}
fn tok_of(v: serde_json::Value) -> Tok {
    use serde_json::Value::*;
    if let Object(mut m) = v {
        let line = num(&m["line"]);
        let col = num(&m["column"]);
        match m.remove("literal") {
            Some(String(lit)) => return Tok { line, col, lit },
            _ => panic!("token without literal"),
        }
    }
    panic!("token is not an object")
}
pub fn tree_of(v: serde_json::Value) -> Tree {
    use serde_json::Value::*;
    if let Object(mut m) = v {
        let kind = match m.remove("node_type") {
            Some(String(s)) => s,
            _ => panic!("node without node_type"),
        };
        let tok = match m.remove("token") {
            None | Some(Null) => None,
            Some(t) => Some(tok_of(t)),
        };
        let mut ch = Vec::new();
        if let Some(Object(c)) = m.remove("children") {
            for (k, v) in c {
                let child = match v {
                    Object(mut o) => {
                        if let Some(n) = o.remove("Node") {
                            Child::One(tree_of(n))
                        } else if let Some(Array(a)) = o.remove("NodeVec") {
                            Child::Many(a.into_iter().map(tree_of).collect())
                        } else {
                            panic!("bad child shape")
                        }
                    }
                    _ => panic!("bad child"),
                };
                ch.push((k, child));
            }
        }
        ch.sort_by(|a, b| a.0.cmp(&b.0));
        return Tree { kind, tok, ch };
    }
    panic!("node is not an object")
}

fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
pub fn raw_tokenize(text: &str) -> Out<Vec<Tok>> {
    let t = text.to_string();
    let r = catch_unwind(AssertUnwindSafe(move || match Lexer::new(t).tokenize_code() {
        Ok(ts) => Ok(ts
            .into_iter()
            .map(|t| Tok {
                line: t.line as u64,
                col: t.column as u64,
                lit: t.literal,
            })
            .collect::<Vec<_>>()),
        Err(e) => Err(err_of(&e)),
    }));
    match r {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err((line, col, msg))) => Out::Err { line, col, msg },
        Err(p) => Out::Panic(panic_msg(p)),
    }
}
/// The whole pipeline: lexer then parser, exactly as lib.rs composes them.
pub fn raw_parse(text: &str) -> Out<Vec<Tree>> {
    let t = text.to_string();
    let r = catch_unwind(AssertUnwindSafe(move || {
        let toks = match Lexer::new(t).tokenize_code() {
            Ok(ts) => ts,
            Err(e) => return Err(err_of(&e)),
        };
        let mut p = Parser::new(toks);
        match p.parse_code() {
            Ok(n) => Ok(n
                .iter()
                .map(|n| tree_of(serde_json::to_value(n).expect("node not serializable")))
                .collect::<Vec<_>>()),
            Err(e) => Err(err_of(&e)),
        }
    }));
    match r {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err((line, col, msg))) => Out::Err { line, col, msg },
        Err(p) => Out::Panic(panic_msg(p)),
    }
}

impl Tree {
    pub fn get(&self, name: &str) -> Option<&Child> {
        self.ch.iter().find(|(k, _)| k == name).map(|(_, c)| c)
    }
    pub fn tokens<'a>(&'a self, out: &mut Vec<&'a Tok>) {
        if let Some(t) = &self.tok {
            out.push(t);
        }
        for (_, c) in &self.ch {
            match c {
                Child::One(n) => n.tokens(out),
                Child::Many(v) => v.iter().for_each(|n| n.tokens(out)),
            }
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.fmt(0, &mut s);
        s
    }
    fn fmt(&self, ind: usize, s: &mut String) {
        let t = match &self.tok {
            None => "None".to_string(),
            Some(t) if t.line == MAXPOS => "<EOF>".to_string(),
            Some(t) => format!("{} @{}:{}", t.lit, t.line, t.col),
        };
        s.push_str(&format!("{} ({})\n", t, self.kind));
        for (k, c) in &self.ch {
            match c {
                Child::One(n) => {
                    s.push_str(&format!("{}{}: ", "  ".repeat(ind + 1), k));
                    n.fmt(ind + 1, s);
                }
                Child::Many(v) => {
                    s.push_str(&format!("{}{}: [{}]\n", "  ".repeat(ind + 1), k, v.len()));
                    for n in v {
                        s.push_str(&format!("{}- ", "  ".repeat(ind + 2)));
                        n.fmt(ind + 2, s);
                    }
                }
            }
        }
    }
}
