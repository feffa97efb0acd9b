//! Other spellings of the same lexical class, which no rule of the language tells apart: every
//! name, string, number, parameter and template of a derivation is replaced by each of them.
use crate::engine::{Ctx, Worker};
use crate::explore::*;
use crate::gram::{Deriv, GTok};
use crate::gramchecks::{check_text, self_check};

const NAMES: [&str; 8] = ["c1", "ab", "x_y", "_z9", "Col", "val", "k", "idx"];
const QUOTED: [&str; 14] = [
    "`q`", "`a b`", "`a.b`", "`select`", "`END`", "`date`", "`a\\`b`", "`é日`", "`;`", "`--`", "`/*`", "`'`", "`(`", "`1`",
];
const PLAIN: [&str; 14] = ["_", "a", "z", "Z9", "__", "a1b2", "selects", "from_", "_end", "END1", "NotNull", "is_", "b", "r"];
const STRINGS: [&str; 16] = [
    "''", "\"\"", "\"a\"", "'''a'''", "\"\"\"a\"b\"\"\"", "'a\\'b'", "\"it's\"", "'é日'", "';'", "'--'", "'/*'", "'#'", "'''a\nb'''", "'\\\\'", "'SELECT'", "')'",
];
const NUMBERS: [&str; 14] = ["0xA", "0X0e1", "0", "9", "007", "1.", ".5", "1.5", "1e5", "1E-5", "1.5e+3", ".5e3", "12345678901234567890123", "3.e2"];
const PARAMS: [&str; 5] = ["?", "@P1", "@_x", "@select", "@@a"];
const TEMPLATES: [&str; 5] = ["{t}", "{%t%}", "{{ 'a' }}", "{{a\nb}}", "{{;}}"];

fn spellings(t: &GTok, glued: bool) -> Vec<String> {
    let all = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let l = &t.lit[..];
    let c = l.chars().next().unwrap();
    if NAMES.contains(&l) {
        let mut v = all(&PLAIN);
        v.push("x".repeat(300));
        if !glued {
            v.extend(all(&QUOTED));
        }
        v
    } else if c == '\'' || c == '"' {
        let mut v = all(&STRINGS);
        v.push(format!("'{}'", "x".repeat(300)));
        v
    } else if c.is_ascii_digit() && !glued {
        all(&NUMBERS)
    } else if c == '@' && l.len() > 1 && !l.starts_with("@@") && !glued {
        all(&PARAMS)
    } else if l.starts_with("{{") {
        all(&TEMPLATES)
    } else {
        vec![]
    }
}
/// words that are keywords in some places and ordinary names in all others
const WORDS: [&str; 195] = [
    "abort", "access", "action", "add", "aggregate", "alter", "analyze", "anonymize", "array_agg", "assert", "assignment", "batch", "begin",
    "bi_capacity", "bignumeric", "bool", "break", "bytes", "call", "capacity", "cascade", "check", "clamped", "clone", "cluster", "clustering",
    "column", "columns", "commit", "connection", "constraints", "continue", "copy", "corresponding", "count", "current_date", "data", "database",
    "date", "date_sub", "datetime", "day", "declare", "definer", "delete", "deletion", "depth", "describe", "description", "differential_privacy",
    "do", "drop", "elseif", "encoding", "enforced", "error", "exception", "exec", "execute", "explain", "export", "external", "files", "filter",
    "first", "float64", "foreign", "format", "generated", "geography", "grant", "graph_table", "group_rows", "hidden", "hour", "immediate",
    "include", "index", "input", "insert", "int64", "invoker", "isolation", "iterate", "json", "key", "language", "last", "leave", "level", "load",
    "log", "loop", "macro", "map", "match", "matched", "materialized", "max", "message", "min", "minute", "module", "month", "name", "national",
    "next", "numeric", "offset", "only", "ordinality", "ordinal", "overwrite", "page", "parquet", "partitions", "percent", "pivot", "policies",
    "policy", "precision", "primary", "private", "privilege", "privileges", "procedure", "project", "public", "raise", "read", "references",
    "remote", "remove", "rename", "repeat", "repeatable", "replace", "replica", "reservation", "restrict", "restriction", "return", "returns",
    "revoke", "rollback", "run", "safe", "schema", "second", "security", "session", "show", "simple", "snapshot", "source", "sql", "stable",
    "start", "static_describe", "storing", "strict", "string", "strpos", "sum", "system", "system_time", "tables", "target", "temp", "temporary",
    "time", "timestamp", "transaction", "transform", "truncate", "type", "undrop", "unique", "unknown", "unpivot", "until", "update", "user",
    "value", "vector", "version", "view", "views", "volatile", "week", "weight", "while", "write", "year", "zone",
];
/// begin or continue a statement, so no label
const STATEMENTS: [&str; 31] = [
    "alter", "assert", "begin", "break", "call", "commit", "continue", "declare", "delete", "drop", "elseif", "exception", "execute", "export", "grant", "insert",
    "iterate", "leave", "load", "loop", "raise", "repeat", "return", "revoke", "rollback", "transaction", "truncate", "undrop", "until", "update", "while",
];
/// make a typed literal of a following string
const TYPED: [&str; 8] = ["json", "date", "time", "datetime", "timestamp", "numeric", "bignumeric", "interval"];
fn words(next: Option<&GTok>) -> Vec<String> {
    let f = |c: char| next.map_or(false, |t| t.lit.starts_with(c));
    WORDS
        .iter()
        .filter(|w| !(f(':') && STATEMENTS.contains(w)) && !((f('\'') || f('"')) && TYPED.contains(w)))
        .map(|w| w.to_string())
        .collect()
}
pub fn with(rs: &[Root], plain: u8, rich: u8) -> Vec<Root> {
    rs.iter()
        .filter(|r| r.bound > 0)
        .map(|r| Root {
            name: r.name,
            f: r.f,
            bound: if r.rich { rich } else { plain },
            rich: r.rich,
            long: r.long,
        })
        .collect()
}
pub fn spelled(ctx: &Ctx, rs: &[Root]) {
    let x = ctx.thorough as u8;
    let go = |w: &mut Worker, d: &Deriv, i: usize, v: Vec<String>| {
        let mut d: Deriv = d.clone();
        for s in v {
            w.transitions += 1;
            d.toks[i].lit = s;
            let t = spaced(&d.toks);
            if self_check(w, &t) {
                w.count("other spellings");
                check_text(w, &d, &t);
            } else {
                w.count("other spelling is another token");
            }
        }
    };
    explore(ctx, &with(rs, 1 + x, x), |w, _, d| {
        let n = d.toks.len();
        for i in 0..n {
            let glued = d.toks[i].glue || i + 1 < n && d.toks[i + 1].glue;
            let mut v = spellings(&d.toks[i], glued);
            if let Some(t) = d.toks.get(i + 1) {
                // a prefix of the string
                if t.lit.starts_with('\'') || t.lit.starts_with('"') {
                    v.retain(|s| s != "b" && s != "r");
                }
            }
            go(w, d, i, v);
        }
    });
    if ctx.stopped() {
        return;
    }
    let big = matches!(&ctx.prop[..], "C15" | "C17");
    explore(ctx, &with(rs, x + !big as u8, x), |w, _, d| {
        for i in 0..d.toks.len() {
            if NAMES.contains(&&d.toks[i].lit[..]) {
                go(w, d, i, words(d.toks.get(i + 1)));
            }
        }
    });
}
