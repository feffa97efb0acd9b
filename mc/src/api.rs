//! C20: the compiled package (wasm under node) against the tokenizer and parser run natively.
//! Every worker owns one node process and feeds it batches of enumerated texts.
use crate::corpus::*;
use crate::engine::{verif_dir, Ctx, Worker};
use crate::explore::*;
use crate::lexchecks::{explore_space, spaces};
use crate::mutants;
use crate::treechecks::all_comments;
use bq2cst::verif::{Lexer, Parser};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

struct Srv {
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    child: Child,
    batch: Vec<String>,
    text: String,
}
/// positions beyond 32 bits (end of input) as the 32-bit package shows them
fn to32(v: &mut Value) {
    match v {
        Value::Number(n) if n.as_u64() == Some(u64::MAX) => *v = json!(u32::MAX),
        // messages may quote the position
        Value::String(s) if s.contains("18446744073709551615") => *s = s.replace("18446744073709551615", "4294967295"),
        Value::Array(a) => a.iter_mut().for_each(to32),
        Value::Object(m) => m.values_mut().for_each(to32),
        _ => (),
    }
}
fn wrap<T: serde::Serialize, E: serde::Serialize>(r: Result<T, E>) -> Value {
    let mut v = match r {
        Ok(t) => json!({"ok": t}),
        Err(e) => json!({"err": e}),
    };
    to32(&mut v);
    v
}
fn native(text: &str) -> Option<(Value, Value)> {
    let text = text.to_string();
    catch_unwind(AssertUnwindSafe(move || match Lexer::new(text).tokenize_code() {
        Ok(t) => {
            let k = wrap::<_, ()>(Ok(&t));
            (wrap(Parser::new(t).parse_code()), k)
        }
        Err(e) => {
            let k = wrap::<(), _>(Err(&e));
            (k.clone(), k)
        }
    }))
    .ok()
}
impl Srv {
    fn new() -> Srv {
        let d = verif_dir();
        let mut child = Command::new("node")
            .args(["--stack-size=4000", &format!("{}/js/api.js", d), &format!("{}/target/pkg/bq2cst.js", d)])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("node does not start");
        Srv {
            inp: child.stdin.take().unwrap(),
            out: BufReader::new(child.stdout.take().unwrap()),
            child,
            batch: vec![],
            text: String::new(),
        }
    }
    fn flush(&mut self) -> Option<(String, String)> {
        if self.batch.is_empty() {
            return None;
        }
        self.text.push('\n');
        let mut l = String::new();
        let ok = self.inp.write_all(self.text.as_bytes()).is_ok()
            && self.inp.flush().is_ok()
            && matches!(self.out.read_line(&mut l), Ok(n) if n > 0);
        self.text.clear();
        let b = std::mem::take(&mut self.batch);
        if !ok {
            return Some((b[0].clone(), "node process died on a batch starting with this text".into()));
        }
        match serde_json::from_str::<Value>(l.trim()) {
            Ok(v) => Some((b[v[0].as_u64().unwrap_or(0) as usize].clone(), v[1].as_str().unwrap_or("").to_string())),
            Err(_) => None,
        }
    }
}
impl Drop for Srv {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
pub fn run(ctx: &Ctx) {
    let srv: Vec<Mutex<Option<Srv>>> = (0..ctx.nworkers).map(|_| Mutex::new(None)).collect();
    let one = |w: &mut Worker, text: &str| {
        let (p, k) = match w.guard(text, || native(text)) {
            Some(x) => x,
            None => {
                w.count("native panic (C05)");
                return;
            }
        };
        w.count(match (p.get("ok"), k.get("ok")) {
            (Some(_), _) => "accepted",
            (_, Some(_)) => "rejected by the parser",
            _ => "rejected by the tokenizer",
        });
        let mut g = srv[w.id].lock().unwrap();
        let s = g.get_or_insert_with(Srv::new);
        s.batch.push(text.into());
        s.text.push_str(&json!({"t": text, "p": p, "k": k}).to_string());
        s.text.push('\n');
        if s.batch.len() >= 64 {
            let r = w.guard(text, || s.flush());
            w.execs -= 1;
            if let Some((t, m)) = r {
                w.violation(&t, m);
            }
        }
    };
    let b = 1 + ctx.thorough as u8;
    explore(ctx, &both(b, b - 1), |w, r, d| {
        w.count(r.name);
        let t = spaced(&d.toks);
        w.sample(|| json!({"root": r.name, "text": t.s}));
        one(w, &t.s);
        one(w, &all_comments(&d.toks, 4).t.s);
        // a rejected relative of every derivation
        for i in 0..d.toks.len() {
            one(w, &spaced(&d.toks[..i]).s);
        }
    });
    if !ctx.stopped() {
        explore(ctx, &both(b + 1, b), |w, _, d| one(w, &spaced(&d.toks).s));
    }
    for mut s in spaces(false) {
        if ctx.stopped() {
            break;
        }
        // as deep as the size of the alphabet allows
        let cap: u64 = if ctx.thorough { 400_000 } else { 20_000 };
        let n = s.pieces.len() as u64;
        while n.pow(s.len as u32) > cap {
            s.len -= 1;
        }
        explore_space(ctx, &s, &|w: &mut Worker, t: &str| one(w, t));
    }
    if !ctx.stopped() {
        mutants::explore_words(ctx, |w, t| one(w, t));
    }
    for s in srv {
        if let Some(mut s) = s.into_inner().unwrap() {
            if let Some((t, m)) = s.flush() {
                ctx.violation(&t, m, Value::Null);
            }
        }
    }
}
