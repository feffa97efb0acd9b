//! Reference model of the lexical rules, written from the GoogleSQL lexical structure (plus the
//! template extension of bq2cst) as independent rules over the character sequence: each rule,
//! given a start, yields the end of the token that starts there.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MTok {
    pub start: usize,
    /// end of the literal
    pub end: usize,
    pub kind: Kind,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Word,
    Number,
    Str,
    Quoted,
    LineComment,
    BlockComment,
    Template,
    Param,
    Op,
    Other,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MErr {
    /// a string, quoted identifier, block comment or template is still open at the end of the text
    Unterminated,
    /// '@' not followed by a name: index of the offending character (or the end)
    BadParam(usize),
}

fn word_start(c: char) -> bool {
    c.is_alphabetic() || c == '_'
}
fn word_char(c: char) -> bool {
    word_start(c) || c.is_ascii_digit()
}
fn at(t: &[char], i: usize) -> Option<char> {
    t.get(i).copied()
}
/// index just past the first occurrence of `pat` at or after `from`
fn find_end(t: &[char], from: usize, pat: &[char]) -> Option<usize> {
    (from..=t.len().saturating_sub(pat.len()).max(from))
        .find(|&i| i + pat.len() <= t.len() && &t[i..i + pat.len()] == pat)
        .map(|i| i + pat.len())
}
/// As find_end, but a backslash hides the following character.
fn find_unescaped(t: &[char], from: usize, pat: &[char]) -> Option<usize> {
    let mut i = from;
    while i < t.len() {
        if t[i] == '\\' {
            i += 2;
            continue;
        }
        if t[i..].starts_with(pat) {
            return Some(i + pat.len());
        }
        i += 1;
    }
    None
}
fn run(t: &[char], from: usize, f: impl Fn(char) -> bool) -> usize {
    let mut i = from;
    while i < t.len() && f(t[i]) {
        i += 1;
    }
    i
}
fn number_end(t: &[char], i: usize) -> usize {
    let d = |c: char| c.is_ascii_digit();
    let hex = |c: char| c.is_ascii_hexdigit();
    if t[i] == '0' && matches!(at(t, i + 1), Some('x' | 'X')) && at(t, i + 2).map_or(false, hex) {
        return run(t, i + 2, hex);
    }
    let mut e = run(t, i, d);
    if at(t, e) == Some('.') {
        e = run(t, e + 1, d);
    }
    if matches!(at(t, e), Some('e') | Some('E')) {
        e += 1;
        if matches!(at(t, e), Some('+') | Some('-')) {
            e += 1;
        }
        e = run(t, e, d);
    }
    e
}

pub fn lex(t: &[char]) -> Result<Vec<MTok>, MErr> {
    let mut out: Vec<MTok> = vec![];
    let mut i = 0;
    // open ARRAY< / STRUCT< / RANGE< type lists
    let mut open = 0usize;
    loop {
        i = run(t, i, |c| c.is_whitespace());
        if i >= t.len() {
            return Ok(out);
        }
        let c = t[i];
        let n = at(t, i + 1);
        let un = |e: Option<usize>| e.ok_or(MErr::Unterminated);
        let (end, kind, resume) = match c {
            '#' => line_comment(t, i),
            '-' if n == Some('-') => line_comment(t, i),
            '/' if n == Some('*') => {
                let e = un(find_end(t, i + 2, &['*', '/']))?;
                (e, Kind::BlockComment, e)
            }
            '\'' | '"' => {
                let triple = [c, c, c];
                let e = if t[i..].starts_with(&triple) {
                    un(find_unescaped(t, i + 3, &triple))?
                } else {
                    un(find_unescaped(t, i + 1, &[c]))?
                };
                (e, Kind::Str, e)
            }
            '`' => {
                let e = un(find_unescaped(t, i + 1, &['`']))?;
                (e, Kind::Quoted, e)
            }
            '@' => {
                let j = run(t, i, |c| c == '@');
                let e = match at(t, j) {
                    Some('`') => un(find_unescaped(t, j + 1, &['`']))?,
                    Some(c) if word_start(c) => run(t, j, word_char),
                    _ => return Err(MErr::BadParam(j)),
                };
                (e, Kind::Param, e)
            }
            '{' => {
                let j = run(t, i, |c| c == '{');
                let quantifier =
                    j == i + 1 && matches!(at(t, j), Some('@' | ',' | '0'..='9'));
                if quantifier {
                    (j, Kind::Other, j)
                } else {
                    let e = un(find_end(t, j, &vec!['}'; j - i]))?;
                    (e, Kind::Template, e)
                }
            }
            '0'..='9' => {
                let e = number_end(t, i);
                (e, Kind::Number, e)
            }
            '.' if matches!(n, Some('0'..='9')) => {
                let e = number_end(t, i);
                (e, Kind::Number, e)
            }
            c if word_start(c) => {
                let e = run(t, i, word_char);
                (e, Kind::Word, e)
            }
            _ => {
                let mut len = 1;
                if let Some(n) = n {
                    let two: String = [c, n].iter().collect();
                    if ["||", "|>", "<<", "<=", "<>", ">>", ">=", "=>", "!="].contains(&&two[..]) {
                        len = 2;
                    }
                }
                if c == '>' && open > 0 {
                    open -= 1;
                    len = 1;
                }
                if c == '<' && len == 1 {
                    let prev = out
                        .iter()
                        .rev()
                        .find(|m| !matches!(m.kind, Kind::LineComment | Kind::BlockComment));
                    if let Some(p) = prev {
                        let w: String = t[p.start..p.end].iter().collect::<String>().to_uppercase();
                        if w == "ARRAY" || w == "STRUCT" || w == "RANGE" {
                            open += 1;
                        }
                    }
                }
                let kind = if c.is_ascii_punctuation() { Kind::Op } else { Kind::Other };
                (i + len, kind, i + len)
            }
        };
        out.push(MTok { start: i, end, kind });
        i = resume;
    }
}
fn line_comment(t: &[char], i: usize) -> (usize, Kind, usize) {
    let eol = run(t, i, |c| c != '\n');
    let mut e = eol;
    while e > i && t[e - 1].is_whitespace() {
        e -= 1;
    }
    (e, Kind::LineComment, eol)
}

/// 1-based line and column of every index of the text (and of its end).
pub fn positions(t: &[char]) -> Vec<(u64, u64)> {
    let mut v = Vec::with_capacity(t.len() + 1);
    let (mut l, mut c) = (1, 1);
    for &ch in t {
        v.push((l, c));
        if ch == '\n' {
            l += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    v.push((l, c));
    v
}
