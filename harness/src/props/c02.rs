use super::c11::round6;
use crate::ensure;
use crate::fw::*;
use crate::gen_dm::*;
use crate::rng::Rng;
use dm::lexer::{Lexer, Punctuation as P, Token};
use dm::{Context, FileId};

pub static PROP: Prop = Prop {
    id: "C02",
    quick: 120000,
    thorough: 1200000,
    case,
    directed: &[("every pair of tokens", pairs), ("every triple of punctuation", triples), ("bracket structures", braces)],
    rule: "a case is a random token soup (every punctuation mark, numbers, raw, block and interpolated strings, resources, keywords) or a generated program run through the indentation pass; its token stream is pretty-printed and lexed again, and compared token by token with the original; single-line streams are also printed in the form used for macro bodies, and every token alone; distinct by text, non-trivial when it holds four or more tokens",
    assumptions: &["comments are not tokens of the program and are dropped by the printer; a line end prints as ';'", "floats keep six significant digits (the format's own precision); a bare quote inside a piece of an interpolated block string comes back escaped"],
    ..DEFAULT
};

pub fn lex(text: &[u8]) -> (Vec<Token>, Vec<String>) {
    let ctx = Context::default();
    let t: Vec<Token> = Lexer::new(&ctx, FileId::default(), text.to_vec()).map(|t| t.token).collect();
    let e = ctx.errors().iter().map(|e| format!("{}:{} {}", e.location().line, e.location().column, e.description())).collect();
    (t, e)
}

/// The comparable form of one token, given its neighbours.
fn norm(prev: Option<&Token>, t: &Token, next: Option<&Token>) -> String {
    match t {
        Token::Ident(s, _) => format!("id {}", s.as_str()),
        Token::Float(f) => format!("num {:?}", round6(*f)),
        // A float printed without fraction comes back as an integer of the same value.
        Token::Int(i) => if (*i as f32) as i64 == *i as i64 && i.abs() < 1_000_000 { format!("num {:?}", *i as f32) } else { format!("int {i}") },
        Token::InterpStringBegin(s) => format!("begin {}", esc(s)),
        Token::InterpStringPart(s) => format!("part {}", esc(s)),
        Token::InterpStringEnd(s) => format!("end {}", esc(s)),
        Token::Punct(P::Newline) => "';'".into(),
        Token::Punct(p @ (P::Colon | P::CloseColon)) => {
            let access = matches!(prev, Some(Token::Ident(..) | Token::Punct(P::RParen | P::RBracket))) && matches!(next, Some(Token::Ident(..)));
            if access { format!("{p:?}") } else { "':'".into() }
        },
        Token::Punct(p) => p.single_quoted().to_owned(),
        other => format!("{other:?}"),
    }
}
fn esc(s: &str) -> String {
    let mut out = String::new();
    let mut e = false;
    for c in s.chars() {
        if c == '"' && !e { out.push('\\'); }
        e = c == '\\' && !e;
        out.push(c);
    }
    out
}

fn norms(t: &[Token], drop_newlines: bool) -> Vec<String> {
    let v: Vec<&Token> = t.iter().filter(|t| !(matches!(t, Token::DocComment(_) | Token::Punct(P::Space | P::Tab)) || drop_newlines && matches!(t, Token::Punct(P::Newline)))).collect();
    (0..v.len()).map(|i| norm(if i > 0 { Some(v[i - 1]) } else { None }, v[i], v.get(i + 1).copied())).collect()
}

fn compare(cx: &mut Cx, toks: &[Token], show_ws: bool, what: &str) {
    let mut out = String::new();
    if let Err(p) = catch(|| dm::pretty_print(&mut out, toks.iter().cloned(), show_ws).unwrap()) {
        cx.violate(format!("panic {what}"), p);
        return;
    }
    let (back, errs) = lex(out.as_bytes());
    let want = norms(toks, false);
    let got = norms(&back, true);
    ensure!(cx, want == got, format!("tokens differ {what}"), "printed as\n{out}\n{}", diff(&want, &got));
    ensure!(cx, errs.is_empty(), format!("diagnostics {what}"), "printed as\n{out}\n{errs:?}");
    cx.count("token streams printed and lexed again", 1);
    cx.count("tokens compared", want.len() as u64);
}
fn diff(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("first difference at token {i}: want {:?}, got {:?}", &a[i.saturating_sub(1)..(i + 3).min(a.len())], &b[i.saturating_sub(1)..(i + 3).min(b.len())])
}

const PUNCTS: &[&str] = &["!", "!=", "#", "##", "%", "%%", "%%=", "%=", "&", "&&", "&&=", "&=", "(", ")", "*", "**", "*=", "+", "++", "+=", ",", "-", "--", "-=", ".", "..", "...", "/", "/=", ":", "::", ":=", ";", "<", "<<", "<<=", "<=", "<=>", "<>", "=", "==", ">", ">=", ">>", ">>=", "?", "?.", "?:", "?[", "[", "]", "^", "^=", "{", "|", "|=", "||", "||=", "}", "~", "~!", "~=", "in"];
const WORDS: &[&str] = &["a", "b7", "_x", "var", "proc", "if", "else", "a", "x", "e5", "INF", "list", "new", "inn", "x2"];
const NUMS: &[&str] = &["0", "1", "5", "10", "16777215", "1000000", "123456789", "2147483647", "0.5", "1.5", "2.25", "1e10", "1e-10", "3.14159", "0x1F", "017", "1_000", "1.#INF", "1e38", "0.0001", "0.00001", "999999.5"];

fn string(rng: &mut Rng, depth: usize, out: &mut String) {
    match rng.below(if depth == 0 { 5 } else { 8 }) {
        0 => { out.push('"'); piece(rng, false, out); out.push('"'); },
        1 => { out.push_str("{\""); piece(rng, true, out); out.push_str("\"}"); },
        2 => { out.push_str("@{\""); raw(rng, &["\"}"], out); out.push_str("\"}"); },
        3 => { let c = *rng.pick(&['@', '!', '%', 'x']); out.push('@'); out.push(c); raw(rng, &[&c.to_string(), "\n"], out); out.push(c); },
        4 => { out.push_str("@(zz)"); raw(rng, &["z", "\n"], out); out.push_str("zz"); },
        k => {
            let block = k == 7;
            out.push_str(if block { "{\"" } else { "\"" });
            for _ in 0..1 + rng.below(3) {
                piece(rng, block, out);
                out.push('[');
                let n = rng.below(4);
                for _ in 0..n { soup_token(rng, depth - 1, out, true); if rng.bool() { out.push(' '); } else { out.push_str(" "); } }
                out.push(']');
            }
            piece(rng, block, out);
            out.push_str(if block { "\"}" } else { "\"" });
        },
    }
}
fn piece(rng: &mut Rng, block: bool, out: &mut String) {
    for _ in 0..rng.below(6) {
        match rng.below(9) {
            0 => out.push_str(*rng.pick(&["\\n", "\\\"", "\\\\", "\\[", "\\]", "\\<", "\\the"])),
            1 => out.push_str(*rng.pick(&["'", "@", "//", "/*", "]", "}", "{", "#", ";", "\t"])),
            2 if block => out.push_str(*rng.pick(&["\" ", "\n", "a\"b", "\"\" "])),
            3 => out.push_str(*rng.pick(&["é", "日"])),
            _ => out.push((b'a' + rng.below(26) as u8) as char),
        }
    }
}
fn raw(rng: &mut Rng, avoid: &[&str], out: &mut String) {
    let mut s = String::new();
    for _ in 0..rng.below(7) {
        s.push_str(*rng.pick(&["a", "b", "[", "]", "\\", "\\n", "\"", "{", "}", "'", "@", "~0", "//", "\n", " "]));
        if avoid.iter().any(|a| s.contains(a)) { for a in avoid { s = s.replace(a, ""); } }
        if avoid.contains(&"\"}") && s.ends_with('"') { s.pop(); }
    }
    for a in avoid { s = s.replace(a, ""); }
    if avoid.contains(&"\"}") { s = s.trim_end_matches('"').to_owned(); }
    out.push_str(&s);
}
fn soup_token(rng: &mut Rng, depth: usize, out: &mut String, in_interp: bool) {
    match rng.below(12) {
        0..=3 => {
            let p = *rng.pick(PUNCTS);
            if in_interp && (p.contains('[') || p.contains(']')) { out.push('+'); } else { out.push_str(p); }
        },
        4..=6 => out.push_str(*rng.pick(WORDS)),
        7 | 8 => out.push_str(*rng.pick(NUMS)),
        9 => { out.push('\''); for _ in 0..rng.below(5) { out.push_str(*rng.pick(&["a", ".", "dmi", "/", "\\'", "\\\\", "\"", "[", "é"])); } out.push('\''); },
        10 if !in_interp => { let w = *rng.pick(WORDS); out.push_str(w); out.push(':'); out.push_str(*rng.pick(WORDS)); },
        _ => string(rng, depth, out),
    }
}

fn case(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    if rng.chance(2, 3) {
        let n = 1 + rng.below(4 + cx.size / 3);
        let mut text = String::new();
        for i in 0..n {
            let start = text.len();
            soup_token(&mut rng, 2, &mut text, false);
            if i > 0 && rng.chance(1, 8) { text.insert_str(start, "/* c */"); }
            match rng.below(14) {
                0 => text.push_str("\nz "),
                1 => text.push_str(" \\\n  "),
                2 => text.push_str("\t"),
                3 => text.push_str(" // note\nw "),
                4 => {},
                _ => text.push(' '),
            }
        }
        cx.input(text.clone());
        soup(cx, &text);
    } else {
        let b = Gen::new(&mut rng).block(1 + cx.size / 50, 4);
        if b.is_empty() { return; }
        let layout = *rng.pick(&[Layout::Indent("\t"), Layout::Indent("  "), Layout::Braces, Layout::BraceLines]);
        let ls = StmtRender { rng: &mut rng, redundant: 10 }.lines(&b);
        let mut o = Out::new(&mut rng, layout, Spacing { noise: 10, wrap: 10, tight: false }, 10);
        o.lines(&ls, 1, false);
        let text = format!("/proc/p()\n{}", o.s);
        cx.input(text.clone());
        let ctx = Context::default();
        let toks: Vec<Token> = dm::indents::IndentProcessor::new(&ctx, Lexer::new(&ctx, FileId::default(), text.as_bytes().to_vec())).map(|t| t.token).collect();
        if ctx.errors().iter().next().is_some() { cx.inconclusive("indentation diagnosed"); return; }
        cx.nontrivial();
        compare(cx, &toks, true, "after indentation");
        cx.count("programs through the indentation pass", 1);
    }
}

fn soup(cx: &mut Cx, text: &str) {
    let (toks, errs) = lex(text.as_bytes());
    if !errs.is_empty() { cx.count("texts with diagnostics, skipped", 1); return; }
    if toks.len() > 4 { cx.nontrivial(); }
    compare(cx, &toks, true, "with braces");
    if cx.violated() { return; }
    // The form used to show macro bodies: one line, no structure.
    let flat: Vec<Token> = toks.iter().filter(|t| !matches!(t, Token::Punct(P::Newline | P::Semicolon | P::LBrace | P::RBrace))).cloned().collect();
    compare(cx, &flat, false, "as macro body");
    if cx.violated() { return; }
    for t in &toks {
        let one = match t {
            Token::InterpStringBegin(_) => format!("{t}]\""),
            Token::InterpStringPart(_) => format!("\"[{t}]\""),
            Token::InterpStringEnd(_) => format!("\"[{t}"),
            Token::Punct(P::Newline) | Token::DocComment(_) => continue,
            Token::Punct(P::CloseColon) => format!("a{t}b"),
            _ => t.to_string(),
        };
        let (back, errs) = lex(one.as_bytes());
        let want = norm(None, t, None);
        let ok = back.iter().any(|b| norm(None, b, None) == want) && back.len() <= 4 && errs.is_empty();
        ensure!(cx, ok, "single token", "{t:?} prints as {one} and lexes as {back:?} {errs:?}");
        cx.count("single tokens printed and lexed again", 1);
    }
}

fn tokens_all() -> Vec<String> {
    let mut v: Vec<String> = PUNCTS.iter().chain(WORDS).chain(NUMS).map(|s| s.to_string()).collect();
    v.extend(["\"s\"", "{\"s\"t\"}", "@{\"[\"}", "\"a[b]c\"", "\"[]\"", "\"[1]d[2]\"", "{\"q\"[x]\"r\"}", "'f.dmi'", "'a\\'b'", "\"\""].map(String::from));
    v
}
fn pairs(cx: &mut Cx) {
    let all = tokens_all();
    for a in &all {
        for b in &all {
            for pre in ["", "x ", "( "] {
                for sep in [" ", ""] {
                    let text = format!("{pre}{a}{sep}{b}");
                    if text.contains("//") || text.contains("/*") { continue; }
                    if sep.is_empty() && (a.ends_with('@') || b.starts_with('@') && a.ends_with('@')) { continue; }
                    soup(cx, &text);
                    if cx.violated() { cx.input(text); return; }
                    cx.count("token pairs", 1);
                }
            }
        }
    }
    cx.nontrivial();
}
fn triples(cx: &mut Cx) {
    for a in PUNCTS { for b in PUNCTS { for c in PUNCTS {
        let text = format!("{a} {b} {c}");
        let (toks, errs) = lex(text.as_bytes());
        if !errs.is_empty() { continue; }
        compare(cx, &toks, true, "triple");
        if cx.violated() { cx.input(text); return; }
    }}}
    cx.nontrivial();
}
/// Arbitrary bracket structures must print without trouble, up to a length.
fn braces(cx: &mut Cx) {
    let parts = ["{", "}", ";", "\n", "a", "("];
    for len in 1..=6u32 {
        for i in 0..(parts.len() as u64).pow(len) {
            let mut v = i;
            let text: Vec<&str> = (0..len).map(|_| { let p = parts[(v % 6) as usize]; v /= 6; p }).collect();
            let text = text.join(" ");
            let (toks, _) = lex(text.as_bytes());
            compare(cx, &toks, true, "brackets");
            let mut s = String::new();
            let r = catch(|| dm::pretty_print(&mut s, toks.iter().cloned(), false).unwrap());
            if let Err(p) = r { cx.violate("panic brackets", format!("{text:?}: {p}")); }
            if cx.violated() { cx.input(text); return; }
            cx.count("bracket structures", 1);
        }
    }
    let deep = "{ ".repeat(400) + "x" + &" }".repeat(400);
    soup(cx, &deep);
    cx.nontrivial();
}
