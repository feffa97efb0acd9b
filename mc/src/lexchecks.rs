//! C01-C04: exhaustive exploration of all texts over small alphabets, on the real tokenizer.
use crate::engine::{Ctx, Worker};
use crate::lexmodel::{self, MErr};
use crate::sut::{Out, Tok, MAXPOS};
use serde_json::json;

pub struct Space {
    pub name: &'static str,
    pub pieces: Vec<String>,
    pub len: usize,
}
fn chars(s: &str) -> Vec<String> {
    s.chars().map(|c| c.to_string()).collect()
}
fn words(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn spaces(thorough: bool) -> Vec<Space> {
    let t = thorough as usize;
    let sp = |name, pieces, q: usize, th: usize| Space {
        name,
        pieces,
        len: if t == 1 { th } else { q },
    };
    vec![
        sp(
            "general",
            chars("ae0.-+/*#'\"\\`{}@<>=|!,;\n é"),
            5,
            6,
        ),
        sp("core", chars("a0.-/*'\\`{@<>=|\n "), 6, 7),
        sp("strings", chars("'\"\\a\n"), 10, 11),
        sp("triple", chars("'\\a"), 12, 14),
        sp("triple2", chars("\"\n\\"), 11, 13),
        sp("prefix", chars("rRbB'\"\\`a"), 6, 7),
        sp("comments", chars("/*-\n#a "), 8, 9),
        sp("comments2", chars("/*\\\n"), 9, 11),
        sp("comments3", chars("-#\n\r \ta"), 7, 8),
        sp("templates", chars("{}a@0, "), 8, 9),
        sp("templates2", chars("{}%#\n"), 9, 10),
        sp("numbers", chars("09.eE+-a"), 8, 8),
        sp("hexadecimal", chars("01xXaFgE.+"), 6, 7),
        sp("parameters", chars("@`a_0\\. "), 7, 8),
        sp("quoted", chars("`\\a\n'"), 9, 10),
        sp("operators", chars("|<>=!&^~+-/"), 6, 7),
        sp(
            "types",
            words(&["ARRAY", "struct", "Range", "x", "<", ">", "=", " ", "/*c*/", ",", "\n"]),
            5,
            6,
        ),
        sp("types2", words(&["ARRAY<", "STRUCT <", ">", "<", "=", "x "]), 8, 9),
        sp("types3", words(&["ARRAY<", ">", "=", ">>", " "]), 10, 11),
        sp("types4", words(&["STRUCT<", "RANGE<", ">=", ">> ", "<", "|>", "/**/", ";"]), 7, 8),
        sp(
            "tokens",
            words(&[
                "SELECT", "a", "a1", "1", "1.5", ".5", "1e3", "1.", "0xF", "'s'", "\"d\"", "''", "'''t'''", "''''''", "r'x'", "`q`", "@p", "@@s", "?", "{{t}}", "{a}", "{1",
                "--c\n", "#c\n", "/*c*/", "/**/", "(", ")", ".", ",", "-", "<", ">", ">>", ">=", "|>", "=>", "ARRAY", "\\", "\n", " ",
            ]),
            4,
            4,
        ),
        sp(
            "unicode",
            chars("é日𝒳ß\u{a0}\u{3000}\u{2028}\u{feff}\t\r\n a_0'-"),
            4,
            5,
        ),
        sp(
            "multiline",
            words(&[
                "'a\nb'", "\"\\\n\"", "'''\n\n'''", "/*\né*/", "--c \n", "#\t\r\n", "{{\n}}", "`a\nb`", "@`\n`", "é",
                "日", "\t", "\r\n", "\n", "x", " ", "=>", "1.5e3",
            ]),
            4,
            5,
        ),
    ]
}

/// What a text must tokenize to: literals with exact positions, or a rejection.
fn check_c01(text: &[char], out: &Out<Vec<Tok>>) -> Option<String> {
    let toks = match out {
        Out::Ok(t) => t,
        _ => return None, // the statement is about accepted texts
    };
    let mut i = 0;
    let n = toks.len();
    if n == 0 || !toks[n - 1].is_eof() {
        return Some("the list does not end with an end-of-input token".into());
    }
    for (k, tk) in toks[..n - 1].iter().enumerate() {
        if tk.lit.is_empty() {
            return Some(format!("token {} is empty", k));
        }
        while i < text.len() && text[i].is_whitespace() {
            i += 1;
        }
        for c in tk.lit.chars() {
            if i >= text.len() || text[i] != c {
                return Some(format!(
                    "token {} is {:?} but the text reads {:?} there",
                    k,
                    tk.lit,
                    text[i..].iter().take(tk.lit.chars().count() + 3).collect::<String>()
                ));
            }
            i += 1;
        }
    }
    while i < text.len() && text[i].is_whitespace() {
        i += 1;
    }
    if i < text.len() {
        return Some(format!(
            "the rest of the text, {:?}, is in no token",
            text[i..].iter().take(40).collect::<String>()
        ));
    }
    None
}
fn check_c02(text: &[char], out: &Out<Vec<Tok>>) -> Option<String> {
    let toks = match out {
        Out::Ok(t) => t,
        _ => return None,
    };
    let pos = lexmodel::positions(text);
    let mut i = 0;
    for (k, tk) in toks.iter().enumerate() {
        if tk.is_eof() {
            continue;
        }
        while i < text.len() && text[i].is_whitespace() {
            i += 1;
        }
        if i >= text.len() || !tk.lit.starts_with(text[i]) {
            return None; // C01's business
        }
        if (tk.line, tk.col) != pos[i] {
            return Some(format!(
                "token {} {:?} is reported at {}:{} but starts at {}:{}",
                k, tk.lit, tk.line, tk.col, pos[i].0, pos[i].1
            ));
        }
        i += tk.lit.chars().count();
    }
    None
}
fn check_c03(text: &[char], out: &Out<Vec<Tok>>) -> Option<String> {
    let m = lexmodel::lex(text);
    match (out, &m) {
        (Out::Panic(_), Ok(_)) => Some(format!("the text is not tokenized: {}", out.brief())),
        (Out::Panic(_), Err(_)) => None,
        (Out::Ok(toks), Ok(mt)) => {
            let exp: Vec<String> = mt.iter().map(|m| text[m.start..m.end].iter().collect()).collect();
            let got: Vec<&str> = toks.iter().map(|t| &t.lit[..]).filter(|l| !l.is_empty()).collect();
            if exp != got {
                Some(format!("tokens are {:?}, the lexical rules give {:?}", got, exp))
            } else {
                None
            }
        }
        (Out::Ok(toks), Err(e)) => Some(format!(
            "accepted as {:?}, but the lexical rules reject it ({:?})",
            toks.iter().map(|t| &t.lit[..]).collect::<Vec<_>>(),
            e
        )),
        (Out::Err { .. }, Ok(_)) => Some(format!("{}, but the lexical rules accept it", out.brief())),
        (Out::Err { line, col, .. }, Err(MErr::Unterminated)) => {
            let end = *lexmodel::positions(text).last().unwrap();
            if (*line, *col) != end {
                Some(format!(
                    "unterminated text rejected at {}:{}, its end is {}:{}",
                    line, col, end.0, end.1
                ))
            } else {
                None
            }
        }
        (Out::Err { .. }, Err(MErr::BadParam(_))) => None,
    }
}
fn check_c04(text: &[char], out: &Out<Vec<Tok>>) -> Option<String> {
    match out {
        Out::Panic(m) => Some(format!("the tokenizer crashes: {}", m)),
        Out::Ok(_) => None,
        Out::Err { line, col, .. } => {
            if *line == MAXPOS || !lexmodel::positions(text).contains(&(*line, *col)) {
                Some(format!("the error position {}:{} is not in the text", line, col))
            } else {
                None
            }
        }
    }
}
pub fn check(prop: &str, text: &[char], out: &Out<Vec<Tok>>) -> Option<String> {
    match prop {
        "C01" => check_c01(text, out),
        "C02" => check_c02(text, out),
        "C03" => check_c03(text, out),
        "C04" => check_c04(text, out),
        _ => panic!("unknown property"),
    }
}

fn one(w: &mut Worker, text: &[char]) {
    let s: String = text.iter().collect();
    let out = w.tokenize(&s);
    w.states += 1;
    match &out {
        Out::Ok(t) => {
            w.transitions += t.len() as u64;
            w.count("accepted");
        }
        Out::Err { .. } => {
            w.transitions += 1;
            w.count("rejected");
        }
        Out::Panic(_) => w.count("crashed"),
    }
    if let Some(m) = check(&w.ctx.prop.clone(), text, &out) {
        w.violation(&s, m);
    }
}
fn rec(w: &mut Worker, sp: &[Vec<char>], left: usize, buf: &mut Vec<char>) {
    if w.ctx.stopped() {
        return;
    }
    one(w, buf);
    if left == 0 {
        return;
    }
    for p in sp {
        buf.extend(p);
        rec(w, sp, left - 1, buf);
        buf.truncate(buf.len() - p.len());
    }
}

/// every text of a space
pub fn explore_space(ctx: &Ctx, sp: &Space, f: &(dyn Fn(&mut Worker, &str) + Sync)) {
    ctx.run(vec![(String::new(), 0usize)], |w, (t, n), push| {
        w.states += 1;
        f(w, &t);
        if n < sp.len {
            for p in &sp.pieces {
                w.transitions += 1;
                push.push((format!("{}{}", t, p), n + 1));
            }
        }
    });
}

/// Token-class texts pumped to boundary sizes.
pub fn pump_sizes(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    v.extend([62, 63, 64, 65, 66, 99, 100, 101, 126, 127, 128, 129, 130, 199, 200, 254, 255, 256, 257, 258, 300]);
    v.extend([500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10000]);
    if thorough {
        v.extend([8191, 8192, 8193, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 100000, 131073]);
    } else {
        v.extend([65535, 65536, 65537]);
    }
    v
}
pub fn pumped(n: usize) -> Vec<String> {
    let mut v = vec![];
    let units = [
        "a", "é", "日", "𝒳", "0", " ", "\n", "\t", "\r\n", "\u{3000}", "\\\\", "x ", ", ", "'a' ", "`q` ", "--c\n",
        "/*c*/", "{{t}}", "@p ", "1.5 ", "(", ")", ";\n", "ARRAY<", ">", "ARRAY<x>", ">> ", "\"\n\" ", ".a", "#\n",
        "a-", "''", "'''\n'''", "=> ", "_",
    ];
    for u in units {
        let r = u.repeat(n);
        v.push(format!("{} z", r));
        v.push(format!("z {} z", r));
        if !u.contains('\n') && !u.contains('\'') && !u.contains('`') {
            v.push(format!("'{}' z", r));
            v.push(format!("--{}\nz", r));
        }
        if !u.contains('`') {
            v.push(format!("`{}` z", r));
        }
        if !u.contains("*/") {
            v.push(format!("/*{}*/ z", r));
        }
        if !u.contains("\"") {
            v.push(format!("\"\"\"{}\"\"\" z", r));
            v.push(format!("\"{}", r));
        }
        if !u.contains('}') {
            v.push(format!("{{{{{}}}}} z", r));
        }
    }
    v.push(format!("{}a{} z", "{".repeat(n), "}".repeat(n)));
    v.push(format!("{}a z", "@".repeat(n)));
    v.push(format!("1{}.{}e{} z", "0".repeat(n), "0".repeat(n), "1".repeat(n)));
    v.push(format!("{}INT64{} >> z >= y", "ARRAY<".repeat(n), ">".repeat(n)));
    v.push(format!("'{}' z", "\\'".repeat(n)));
    v.push(format!("{} z", "'\\''".repeat(n)));
    v
}

pub fn run(ctx: &Ctx) {
    let sps = spaces(ctx.thorough);
    let pieces: Vec<Vec<Vec<char>>> = sps
        .iter()
        .map(|s| s.pieces.iter().map(|p| p.chars().collect()).collect())
        .collect();
    ctx.note(
        "bounds",
        json!({
            "rule": "every text that is a sequence of at most `len` pieces of the alphabet",
            "spaces": sps.iter().map(|s| json!({"name": s.name, "alphabet": s.pieces, "len": s.len})).collect::<Vec<_>>(),
            "unicode": "every Unicode scalar value in 6 contexts",
            "pumped": "each token class pumped to boundary sizes",
        }),
    );
    enum W {
        Seq(usize, Vec<usize>),
        Uni(u32),
        Pump(usize),
    }
    let mut items = vec![];
    for (k, s) in sps.iter().enumerate() {
        for i in 0..s.pieces.len() {
            for j in 0..s.pieces.len() {
                items.push(W::Seq(k, vec![i, j]));
            }
        }
    }
    for b in 0..=0x10ff {
        items.push(W::Uni(b));
    }
    for n in pump_sizes(ctx.thorough) {
        items.push(W::Pump(n));
    }
    // short texts first
    ctx.run(vec![()], |w, _, _| {
        one(w, &[]);
        for p in &pieces {
            for q in p {
                one(w, q);
            }
        }
    });
    ctx.run(items, |w, it, _| match it {
        W::Seq(k, pre) => {
            let mut buf: Vec<char> = vec![];
            for i in &pre {
                buf.extend(&pieces[k][*i]);
            }
            if k < 6 && pre[0] == 0 {
                w.sample(|| json!({"space": sps[k].name, "prefix": buf.iter().collect::<String>()}));
            }
            rec(w, &pieces[k], sps[k].len - 2, &mut buf);
            w.count(sps[k].name);
        }
        W::Uni(b) => {
            for c in (b * 256)..(b * 256 + 256) {
                if w.ctx.stopped() {
                    return;
                }
                if let Some(c) = char::from_u32(c) {
                    one(w, &[c]);
                    one(w, &['a', c, 'b']);
                    one(w, &['\'', c, '\'', 'z']);
                    one(w, &['-', '-', c, '\n', 'z']);
                    one(w, &['@', c, ' ', 'z']);
                    one(w, &['{', c, '}', c, '>', '>']);
                }
            }
        }
        W::Pump(n) => {
            for t in pumped(n) {
                if w.ctx.stopped() {
                    return;
                }
                let c: Vec<char> = t.chars().collect();
                one(w, &c);
                w.count("pumped");
            }
        }
    });
}
