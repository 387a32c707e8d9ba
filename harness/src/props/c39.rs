//! Analysis of single files in the language server.
use crate::fw::*;
use crate::gen_diag;
use crate::lsp::*;
use crate::rng::Rng;
use super::c38::{FEATURES, params, text};
use serde_json::{Value, json};

pub static PROP: Prop = Prop {
    id: "C39",
    quick: 1500,
    thorough: 40000,
    case,
    directed: &[("diagnostics come and go", come_and_go)],
    external: true,
    case_cpu: 120,
    rule: "a case is a session with the language server in single-file mode: up to three documents, valid programs and broken ones, are opened, edited through changes of ranges or as a whole, closed and reopened, requests interleaved; the diagnostics published last for a document when it is next asked about are compared with those of the parser and checker run here on the text it must hold, and, at the end and at times in between, together with the answers to requests at random places, with those of a new session in which the document alone is opened; distinct by history, non-trivial with 3 edits which changed the diagnostics",
    assumptions: &["documents include no other files"],
    ..DEFAULT
};

/// messages may print expressions with the internal numbers of their files
pub fn numberless(s: &str) -> String {
    let mut parts = s.split("FileId(");
    let mut out = parts.next().unwrap().to_owned();
    for p in parts { out += "FileId("; out += p.trim_start_matches(|c: char| c.is_ascii_digit()); }
    out
}
/// what the library finds in a text
fn library(uri: &str, t: &str, related: bool) -> Vec<String> {
    let ctx = dm::Context::default();
    let mut pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, uri.into(), t.to_owned());
    let tree = {
        let indents = dm::indents::IndentProcessor::new(&ctx, &mut pp);
        let mut p = dm::parser::Parser::new(&ctx, indents);
        p.enable_procs();
        p.parse_object_tree()
    };
    pp.finalize();
    dreamchecker::run(&ctx, &tree);
    let file = ctx.get_file(uri.as_ref());
    let mut out = vec![];
    for e in ctx.errors().iter() {
        if Some(e.location().file) != file { continue; }
        let at = |l: dm::Location| (l.line.saturating_sub(1), l.column.saturating_sub(1));
        let source = e.component().name().unwrap_or("dm-langserver");
        let severity = match e.severity() { dm::Severity::Error => 1, dm::Severity::Warning => 2, dm::Severity::Info => 3, dm::Severity::Hint => 4 };
        let notes: Vec<String> = e.notes().iter().map(|n| format!("{:?} {}", at(n.location()), n.description())).collect();
        out.push(format!("{:?} {severity} {source} {:?} {} {:?}", at(e.location()), e.errortype(), numberless(e.description()), if related { notes.clone() } else { vec![] }));
        if !related { for n in e.notes() { out.push(format!("{:?} 3 {source} None {} []", at(n.location()), n.description())); } }
    }
    out.sort();
    out
}
fn published(v: &Value, uri: &str) -> Vec<String> {
    let at = |p: &Value| (p["line"].as_u64().unwrap_or(999999), p["character"].as_u64().unwrap_or(999999));
    let range = |r: &Value| if r["start"] == r["end"] { format!("{:?}", at(&r["start"])) } else { format!("{r}") };
    let mut out: Vec<String> = v.as_array().into_iter().flatten().map(|d| {
        let notes: Vec<String> = d["relatedInformation"].as_array().into_iter().flatten().map(|n| format!("{} {}{}", range(&n["location"]["range"]), n["message"].as_str().unwrap_or("?"), if n["location"]["uri"] == uri { "" } else { " elsewhere" })).collect();
        format!("{} {} {} {:?} {} {:?}", range(&d["range"]), d["severity"], d["source"].as_str().unwrap_or("?"), d["code"].as_str(), numberless(d["message"].as_str().unwrap_or("?")), notes)
    }).collect();
    out.sort();
    out
}
fn caps(related: bool) -> Value { if related { json!({"textDocument": {"publishDiagnostics": {"relatedInformation": true}}}) } else { json!({}) } }

/// answers at some places, in an order of no meaning
fn answers(s: &mut Lsp, uri: &str, t: &str, mut r: Rng, found: &mut u64) -> Vec<String> {
    let lines: Vec<&str> = t.split('\n').collect();
    let mut out = vec![];
    for i in 0..10 {
        let m = FEATURES[if i < 5 { i } else { r.below(FEATURES.len()) }];
        let m = if r.chance(1, 3) { "textDocument/definition" } else { m };
        let mut l = r.below(lines.len());
        for _ in 0..5 { if lines[l].len() < 2 { l = r.below(lines.len()); } }
        let mut c = r.below(lines[l].encode_utf16().count() + 1);
        let b = lines[l].as_bytes();
        if lines[l].is_ascii() { for _ in 0..5 { if !b.get(c).is_some_and(|c| c.is_ascii_alphanumeric()) { c = r.below(b.len() + 1); } } }
        let p = params(m, uri, l as u32, c as u32, l as u32, c as u32 + 3);
        let a = s.call(m, p).unwrap_or(Value::Null);
        let a = match &a["result"] { Value::Array(v) => { let mut v: Vec<String> = v.iter().map(|x| x.to_string()).collect(); v.sort(); v.join("\n") }, x => format!("{x} {}", a["error"]) };
        if a != "null null" && a != "[]" { *found += 1; }
        out.push(format!("{m} {l}:{c} {a}"));
    }
    out
}

/// a change as an editor makes it: what differs is replaced
fn change(a: &str, b: &str) -> Value {
    let (x, y): (Vec<u16>, Vec<u16>) = (a.encode_utf16().collect(), b.encode_utf16().collect());
    let mut p = 0;
    while p < x.len() && p < y.len() && x[p] == y[p] { p += 1; }
    let mut q = 0;
    while q < x.len() - p && q < y.len() - p && x[x.len() - 1 - q] == y[y.len() - 1 - q] { q += 1; }
    let low = |u: &[u16], i: usize| i < u.len() && (0xDC00..0xE000).contains(&u[i]);
    // not within a pair, nor between carriage return and line feed
    while p > 0 && (low(&x, p) || low(&y, p) || x[p - 1] == 13) { p -= 1; }
    while q > 0 && (low(&x, x.len() - q) || low(&y, y.len() - q) || x[x.len() - q] == 10) { q -= 1; }
    let at = |i: usize| { let l = x[..i].iter().filter(|c| **c == 10).count(); let s = x[..i].iter().rposition(|c| *c == 10).map_or(0, |k| k + 1); pos(l as u32, (i - s) as u32) };
    json!([{"range": {"start": at(p), "end": at(x.len() - q)}, "text": String::from_utf16(&y[p..y.len() - q]).unwrap()}])
}

fn good(r: &mut Rng) -> String { gen_diag::project(r).into_iter().skip(1).map(|x| x.1).collect() }
fn some(r: &mut Rng) -> String {
    loop {
        let t = if r.chance(2, 3) { text(r) } else { good(r) };
        if !t.contains("include") && !t.contains("import") && t.bytes().enumerate().all(|(i, b)| b != 13 || t.as_bytes().get(i + 1) == Some(&10)) && t.len() < 6000 { return t; }
    }
}
fn edited(r: &mut Rng, t: &str) -> String {
    let lines: Vec<&str> = t.split_inclusive('\n').collect();
    let n = lines.len();
    for _ in 0..20 {
        let mut v: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
        match r.below(6) {
            0 => { let o = some(r); let o: Vec<&str> = o.split_inclusive('\n').collect(); if !o.is_empty() { let at = r.below(n + 1); for i in 0..1 + r.below(3) { v.insert(at, o[i % o.len()].to_owned()); } } },
            1 if n > 0 => { let at = r.below(n); for _ in 0..=r.below(3) { if at < v.len() { v.remove(at); } } },
            2 if n > 1 => { let (a, b) = (r.below(n), r.below(n)); v.swap(a, b); },
            3 if n > 0 => { let at = r.below(n); let l = &v[at]; let cuts: Vec<usize> = l.char_indices().map(|c| c.0).collect(); if let Some(&c) = cuts.get(r.below(cuts.len() + 1)) { v[at] = format!("{}{}{}", &l[..c], r.pick(&["(", ")", "x", "\t", "var/", "\"", "0", ",", ".", "//", "\n", "é", "😀", "{"]), &l[c..]); } },
            4 => v.insert(r.below(n + 1), "\n".to_owned()),
            _ => { let k = r.below(3); v.push((*r.pick(&["/proc/added()\n\treturn 1\n\tadded()\n", "/datum/added/var/x = 1 / 0\n", "/datum/added/proc/f(a)\n\tvar/datum/added/b = a\n\tb.g()\n"])).repeat(k)); },
        }
        let s = v.concat();
        if s != t && !s.contains("include") && s.bytes().enumerate().all(|(i, b)| b != 13 || s.as_bytes().get(i + 1) == Some(&10)) { return s; }
    }
    String::new()
}

fn against_new(cx: &mut Cx, s: &mut Lsp, uri: &str, t: &str, related: bool, seed: u64) -> Option<String> {
    let mut f = Lsp::session(&cx.dir("lsp"), None, caps(related));
    f.open(uri, 1, t);
    f.ask("textDocument/documentSymbol", doc(uri));
    s.ask("textDocument/documentSymbol", doc(uri));
    let p = |s: &Lsp| published(&s.diagnostics(uri).unwrap_or(Value::Null), uri);
    let (a, b) = (p(s), p(&f));
    if a != b { return Some(format!("diagnostics\n{a:?}\nof a new session\n{b:?}")); }
    let mut found = 0;
    let (a, b) = (answers(s, uri, t, Rng::new(seed), &mut found), answers(&mut f, uri, t, Rng::new(seed), &mut 0));
    cx.count("answers found", found);
    if f.stderr_has("panicked at") { return Some(f.stderr()); }
    for (a, b) in a.iter().zip(&b) { if a != b { return Some(format!("{a}\nin a new session\n{b}")); } }
    None
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let r = &mut r;
    let dir = cx.dir("lsp");
    let related = r.bool();
    let n = 1 + r.below(3);
    let uris: Vec<String> = (0..n).map(|i| format!("file://{}/{}.dm", dir.display(), ["a", "b b", "c"][i].replace(' ', "%20"))).collect();
    let mut s = Lsp::session(&dir, None, caps(related));
    let mut held: Vec<Option<String>> = vec![None; n];
    let mut version = 0;
    let mut last: Vec<Vec<String>> = vec![vec![]; n];
    let (mut told, mut changed) = (String::new(), 0);
    for _ in 0..4 + r.below(10) {
        let k = r.below(n);
        let u = &uris[k];
        version += 1;
        match (held[k].clone(), r.below(10)) {
            (None, _) => { let t = some(r); told += &format!("open {k} {t:?}\n"); s.open(u, version, &t); held[k] = Some(t); },
            (Some(_), 0) => { told += &format!("close {k}\n"); s.close_doc(u); held[k] = None; },
            (Some(_), 1) => { let t = some(r); told += &format!("change all of {k} {t:?}\n"); s.change(u, version, json!([{"text": t}])); held[k] = Some(t); },
            (Some(t), _) => { let t2 = edited(r, &t); let c = change(&t, &t2); told += &format!("change {k} {c}\n"); s.change(u, version, c); held[k] = Some(t2); },
        }
        cx.input(told.clone());
        if r.chance(1, 4) { continue; }
        for k in 0..n {
            if !r.chance(2, 3) { continue; }
            let Some(t) = held[k].clone() else { continue };
            told += &format!("ask {k}\n");
            cx.input(told.clone());
            if s.ask("textDocument/documentSymbol", doc(&uris[k])).is_none() { cx.violate("no answer", format!("{told}{}", s.stderr())); return; }
            let got = published(&s.diagnostics(&uris[k]).unwrap_or(Value::Null), &uris[k]);
            let Ok(want) = catch(|| library(&uris[k], &t, related)) else { cx.inconclusive("the library panics"); return };
            if got != want {
                let (a, b): (Vec<_>, Vec<_>) = (got.iter().filter(|x| !want.contains(x)).collect(), want.iter().filter(|x| !got.contains(x)).collect());
                cx.violate("other diagnostics", format!("{told}the text is {t:?}\npublished {} instead of {}; only published {a:?}\nmissing {b:?}", got.len(), want.len()));
                return;
            }
            cx.count("texts compared", 1);
            cx.count("diagnostics compared", want.len() as u64);
            if want != last[k] { changed += 1; last[k] = want; }
            if r.chance(1, 12) { let seed = r.u64(); if let Some(d) = against_new(cx, &mut s, &uris[k], &t, related, seed) { cx.violate("other than a new session", format!("{told}the text is {t:?}\n{d}")); return; } cx.count("new sessions compared", 1); }
        }
    }
    for k in 0..n {
        let Some(t) = held[k].clone() else { continue };
        let seed = r.u64();
        if let Some(d) = against_new(cx, &mut s, &uris[k], &t, related, seed) { cx.violate("other than a new session", format!("{told}the text is {t:?}\n{d}")); return; }
        cx.count("new sessions compared", 1);
    }
    if s.stderr_has("panicked at") { cx.violate("panic", format!("{told}{}", s.stderr())); }
    cx.sig(&told);
    if changed >= 3 { cx.nontrivial(); }
}

fn come_and_go(cx: &mut Cx) {
    let dir = cx.dir("lsp");
    let mut s = Lsp::session(&dir, None, json!({}));
    let (a, b) = ("file:///a.dm", "file:///b.dm");
    let good = "/proc/f()\n\treturn 1\n";
    let bad = ["/proc/f()\n\treturn 1\n\treturn 2\n", "/proc/f(\n", "/datum/x/var/y = 1 / 0 + nothing\n", "\"\n", "#if\n", "/proc/f()\n\tvar/datum/a/b = 1\n\tb.c()\n", "/proc/f()\n\tg()\n"];
    s.open(a, 0, good);
    s.open(b, 0, good);
    let mut v = 0;
    for t in bad { for (u, other) in [(a, b), (b, a)] { for t in [t, good, t, "", t, good] {
        v += 1;
        s.change(u, v, json!([{"text": t}]));
        s.ask("textDocument/documentSymbol", doc(u));
        let got = published(&s.diagnostics(u).unwrap_or(Value::Null), u);
        let want = library(u, t, false);
        if got != want { cx.violate("other diagnostics", format!("{t:?}: {got:?} instead of {want:?}")); return; }
        s.ask("textDocument/documentSymbol", doc(other));
        let o = published(&s.diagnostics(other).unwrap_or(Value::Null), other);
        if !o.is_empty() { cx.violate("diagnostics of another document", format!("{t:?}: {o:?}")); return; }
        cx.count("texts compared", 1);
    } } }
    cx.nontrivial();
    cx.input("come and go");
}
