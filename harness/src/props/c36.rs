//! The language server's copy of open documents.
use crate::fw::*;
use crate::lsp::*;
use crate::rng::Rng;
use serde_json::{Value, json};

pub static PROP: Prop = Prop {
    id: "C36",
    quick: 5000,
    thorough: 30000,
    case,
    directed: &[("end of line and surrogates", columns), ("closed documents are those on disk", closed), ("invalid notifications", invalid)],
    external: true,
    case_cpu: 120,
    rule: "a case opens documents with colour literals, region markers, definitions, non-ASCII and astral characters and both line endings in one session and edits them at random: ranges by UTF-16 columns within, at and past line ends, several per notification, full replacements, closing and reopening, with invalid notifications in between; after each step the colours, their positions, the folding regions and the document symbols answered must be those of the text an editor holds by the protocol's rules, computed here and by opening that text as a new document of the same session; distinct by history, non-trivial when 5 edits changed a document",
    assumptions: &["columns in the middle of a surrogate pair are not sent", "a carriage return occurs only before a line feed", "identifiers in documents are ASCII and precede other characters in their line (known finding of C37: columns of program elements count bytes)"],
    ..DEFAULT
};

/// an editor's text, in UTF-16 units as the protocol counts
#[derive(Clone, PartialEq, Debug)]
struct Text(Vec<u16>);
impl Text {
    fn new(s: &str) -> Text { Text(s.encode_utf16().collect()) }
    fn s(&self) -> String { String::from_utf16(&self.0).expect("whole characters") }
    /// start of each line and its length without the line ending
    fn lines(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        let mut start = 0;
        for (i, &c) in self.0.iter().enumerate() {
            if c == 10 { let end = if i > start && self.0[i - 1] == 13 { i - 1 } else { i }; v.push((start, end - start)); start = i + 1; }
        }
        let n = self.0.len();
        v.push((start, n - start - usize::from(n > start && self.0[n - 1] == 13)));
        v
    }
    fn offset(&self, l: u32, c: u32) -> Option<usize> { self.lines().get(l as usize).map(|&(s, n)| s + (c as usize).min(n)) }
    fn splits(&self, o: usize) -> bool { o > 0 && o < self.0.len() && (0xDC00..0xE000).contains(&self.0[o]) }
    fn apply(&mut self, ch: &Change) -> bool {
        match ch {
            Change::Full(t) => { self.0 = t.encode_utf16().collect(); true },
            Change::Range(a, b, c, d, t) => {
                let (Some(x), Some(y)) = (self.offset(*a, *b), self.offset(*c, *d)) else { return false };
                if x > y { return false; }
                self.0.splice(x..y, t.encode_utf16());
                true
            },
        }
    }
}
#[derive(Clone, Debug)]
enum Change { Full(String), Range(u32, u32, u32, u32, String) }
impl Change {
    fn json(&self) -> Value { match self { Change::Full(t) => json!({"text": t}), Change::Range(a, b, c, d, t) => json!({"range": {"start": pos(*a, *b), "end": pos(*c, *d)}, "text": t}) } }
}

/// colours as written: (line, start, end, rgba)
fn colours(t: &Text) -> Vec<(usize, usize, usize, [u8; 4])> {
    let mut out = vec![];
    for (l, (s, n)) in t.lines().into_iter().enumerate() {
        let u = &t.0[s..s + n];
        let mut i = 0;
        while i < u.len() {
            let q = u[i];
            if (q == 34 || q == 39) && u.get(i + 1) == Some(&35) {
                let digits: String = u[i + 2..].iter().map_while(|&c| char::from_u32(c as u32).filter(|c| c.is_ascii_hexdigit())).take(9).collect();
                if (3..=8).contains(&digits.len()) && u.get(i + 2 + digits.len()) == Some(&q) {
                    let end = i + 3 + digits.len();
                    let d = |k: usize| u8::from_str_radix(&digits[k..k + 1], 16).unwrap();
                    let b = |k: usize| u8::from_str_radix(&digits[k..k + 2], 16).unwrap();
                    let c = match digits.len() { 3 => Some([d(0) * 17, d(1) * 17, d(2) * 17, 255]), 4 => Some([d(0) * 17, d(1) * 17, d(2) * 17, d(3) * 17]), 6 => Some([b(0), b(2), b(4), 255]), 8 => Some([b(0), b(2), b(4), b(6)]), _ => None };
                    if let Some(c) = c { out.push((l, i, end, c)); }
                    i = end;
                    continue;
                }
            }
            i += 1;
        }
    }
    out
}
fn regions(t: &Text) -> Vec<(usize, usize)> {
    let (mut open, mut out) = (vec![], vec![]);
    for (l, (s, n)) in t.lines().into_iter().enumerate() {
        let line = String::from_utf16_lossy(&t.0[s..s + n]);
        let line = line.trim_start();
        let marker = |m: &str| line.strip_prefix("//").map(|r| r.strip_prefix(' ').unwrap_or(r)).and_then(|r| r.strip_prefix(m)).is_some_and(|r| r.chars().next().is_none_or(|c| c.is_whitespace()));
        if marker("#region") { open.push(l); } else if marker("#endregion") { if let Some(a) = open.pop() { out.push((a, l)); } }
    }
    out
}
fn got_colours(v: &Value) -> Option<Vec<(usize, usize, usize, [u8; 4])>> {
    v.as_array()?.iter().map(|c| {
        let (s, e) = (&c["range"]["start"], &c["range"]["end"]);
        if s["line"] != e["line"] { return None; }
        let f = |k: &str| (c["color"][k].as_f64().unwrap_or(-1.0) * 255.0).round() as u8;
        Some((s["line"].as_u64()? as usize, s["character"].as_u64()? as usize, e["character"].as_u64()? as usize, [f("red"), f("green"), f("blue"), f("alpha")]))
    }).collect()
}
fn got_regions(v: &Value) -> Option<Vec<(usize, usize)>> { v.as_array()?.iter().map(|r| Some((r["startLine"].as_u64()? as usize, r["endLine"].as_u64()? as usize))).collect() }

const PIECES: &[&str] = &["\"#ff0000\"", "'#0f08'", "\"#abc\"", "\"#12345678\"", "// #region a", "//#endregion", "// #endregion\tb", "\n", "\n", "\r\n", "\t", " ", "é", "日本", "😀", "𝒳", "// ", "/datum/t", "\n\tvar/a = 1", "\n\tproc/p()\n\t\treturn 1\n", "/proc/f(a)\n\tvar/b = a\n\treturn b\n", "#define M 1\n", "\"#00f\" // 😀 \"#00f\"", "/obj/x { name = \"n\" }\n", "x", "\"", "#"];
fn some(r: &mut Rng, n: usize) -> String { (0..n).map(|_| *r.pick(PIECES)).collect::<String>().replace("\r\n", if r.bool() { "\r\n" } else { "\n" }) }
fn lone_cr(t: &Text) -> bool { t.0.iter().enumerate().any(|(i, &c)| c == 13 && t.0.get(i + 1) != Some(&10)) }

struct World { s: Lsp, macros: bool, fresh: u64, root: Option<String>, told: String }

/// every answer there is about a document's text
fn answers(s: &mut Lsp, uri: &str) -> Option<[Value; 4]> {
    let d = doc(uri);
    Some([s.ask("textDocument/documentColor", d.clone())?, s.ask("textDocument/foldingRange", d.clone())?, s.ask("textDocument/documentSymbol", d.clone())?, s.ask("textDocument/completion", at(uri, 3, 3))?])
}
/// what is wrong, if the server holds another text than this one
fn differs(w: &mut World, uri: &str, t: &Text) -> Option<String> {
    let Some(got) = answers(&mut w.s, uri) else { return Some(format!("no answer\n{}", w.s.stderr())) };
    if got_colours(&got[0]) != Some(colours(t)) { return Some(format!("colours {:?} instead of {:?}", got_colours(&got[0]), colours(t))); }
    if got_regions(&got[1]) != Some(regions(t)) { return Some(format!("regions {:?} instead of {:?}", got_regions(&got[1]), regions(t))); }
    if w.macros { return None; }
    w.fresh += 1;
    let other = match &w.root { Some(_) => uri.replace(".dm", &format!("_fresh{}.dm", w.fresh)), None => format!("file:///fresh{}.dm", w.fresh) };
    w.s.open(&other, 1, &t.s());
    let Some(want) = answers(&mut w.s, &other) else { return Some(format!("no answer\n{}", w.s.stderr())) };
    w.s.close_doc(&other);
    // parameters are completed from the loaded project's procs, which know the file they stand in, not from the text
    let norm = |v: &[Value; 4], u: &str| {
        let mut v = v.clone();
        if let Some(items) = v[3].as_array_mut() { items.retain(|i| i["detail"] != "(parameter)"); }
        format!("{:?}", v).replace(u, "@")
    };
    if norm(&got, uri) != norm(&want, &other) { return Some(format!("answers differ from those for the text opened anew:\n{}\n{}", norm(&got, uri), norm(&want, &other))); }
    None
}
fn messages(w: &Lsp) -> usize { w.log.iter().filter(|m| m["method"] == "window/showMessage" && m["params"]["type"] == 1).count() }

fn change(r: &mut Rng, t: &Text) -> Change {
    if r.chance(1, 12) { let n = r.below(16); return Change::Full(some(r, n)); }
    let ls = t.lines();
    let mut spot = |r: &mut Rng| loop {
        let l = r.below(ls.len());
        let (s, n) = ls[l];
        let c = match r.below(8) { 0 => 0, 1 => n, 2 => n + 1 + r.below(40), 3 => *r.pick(&[65535, 65536, u32::MAX as usize]), _ => r.below(n + 1) };
        if !t.splits(s + c.min(n)) { return (l as u32, c as u32); }
    };
    let (mut a, mut b) = (spot(r), spot(r));
    if r.chance(2, 3) { b = (a.0, a.1.saturating_add(r.below(7) as u32)); let (s, n) = ls[b.0 as usize]; if t.splits(s + (b.1 as usize).min(n)) { b.1 += 1; } }
    let (x, y) = (t.offset(a.0, a.1).unwrap(), t.offset(b.0, b.1).unwrap());
    if x > y { std::mem::swap(&mut a, &mut b); }
    let n = r.below(4);
    Change::Range(a.0, a.1, b.0, b.1, some(r, n))
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let r = &mut r;
    let dir = cx.dir("lsp");
    let rooted = r.chance(1, 3);
    let root = rooted.then(|| format!("file://{}", dir.display()));
    std::fs::write(dir.join("e.dme"), "#include \"d0.dm\"\n#include \"d1.dm\"\n").unwrap();
    let n = 1 + r.below(2);
    let mut disk: Vec<Text> = vec![];
    for i in 0..2 { let k = r.below(10); let mut t = Text::new(&some(r, k)); if lone_cr(&t) { t = Text::new(""); } std::fs::write(dir.join(format!("d{i}.dm")), t.s()).unwrap(); disk.push(t); }
    let uris: Vec<String> = (0..n).map(|i| format!("file://{}/d{i}.dm", dir.display())).collect();
    let s = Lsp::session(&dir, root.as_deref(), json!({}));
    // a file of the project begins with the macros of those before it, any other with all of the project's
    let macros = rooted && disk.iter().any(|t| t.s().contains("def"));
    let mut w = World { s, macros, fresh: 0, root, told: format!("{} session\n", if rooted { "project" } else { "single-file" }) };
    // what the editor holds; None: not open
    let mut held: Vec<Option<Text>> = vec![None; n];
    let mut version = vec![0i64; n];
    let mut edits = 0;
    for _ in 0..5 + r.below(14) {
        let k = r.below(n);
        let u = uris[k].clone();
        let before = messages(&w.s);
        let mut error = false;
        let mut options: Option<Vec<Text>> = None;
        match (&held[k], r.below(14)) {
            (None, 0) => { w.told += &format!("close {k}, not open\n"); w.s.close_doc(&u); error = true; },
            (None, 1) => { w.told += &format!("change {k}, not open\n"); w.s.change(&u, 1, json!([{"text": "x"}])); error = true; },
            (None, 2) => { w.told += &format!("look at {k} on disk\n"); },
            (None, _) => { let len = r.below(20); let t = Text::new(&some(r, len)); if lone_cr(&t) { continue; } version[k] = r.range(-5, 5); w.told += &format!("open {k} {:?}\n", t.s()); w.s.open(&u, version[k], &t.s()); held[k] = Some(t); },
            (Some(_), 0) => { w.told += &format!("close {k}\n"); w.s.close_doc(&u); held[k] = None; },
            (Some(t), 1) => { let t2 = Text::new("\"#010203\""); w.told += &format!("open {k} again {:?}\n", t2.s()); options = Some(vec![t.clone(), t2.clone()]); w.s.open(&u, version[k], &t2.s()); error = true; },
            (Some(_), 2) => { w.told += &format!("change {k} at an older version\n"); w.s.change(&u, version[k] - 1, json!([{"text": "\"#040506\""}])); error = true; },
            (Some(t), 3) => {
                // one of several changes is invalid
                let ls = t.lines().len() as u32;
                let bad = if r.bool() { Change::Range(ls + 100 + r.below(3) as u32, 0, ls + 103, 0, "z".into()) } else { Change::Range(0, 0, ls + 100, 2, "\"#070809\"".into()) };
                let (a, b) = (change(r, t), Change::Full(some(r, 4)));
                let list = match r.below(3) { 0 => vec![bad], 1 => vec![a, bad], _ => vec![a, bad, b] };
                // none applied, all before the invalid one, or all valid ones
                let mut o = vec![t.clone()];
                let mut m = t.clone();
                for c in &list { if !m.apply(c) { error = true; } o.push(m.clone()); }
                if o.iter().any(lone_cr) { continue; }
                version[k] += 1;
                w.told += &format!("change {k} {list:?}\n");
                w.s.change(&u, version[k], Value::Array(list.iter().map(|c| c.json()).collect()));
                options = Some(o);
            },
            (Some(t), _) => {
                let mut m = t.clone();
                let mut list = vec![];
                for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 4]) {
                    let c = change(r, &m);
                    let mut m2 = m.clone();
                    assert!(m2.apply(&c));
                    if lone_cr(&m2) { continue; }
                    m = m2;
                    list.push(c);
                }
                version[k] += r.below(3) as i64;
                w.told += &format!("change {k} {list:?}\n");
                w.s.change(&u, version[k], Value::Array(list.iter().map(|c| c.json()).collect()));
                if Some(&m) != held[k].as_ref() { edits += 1; cx.count("edits", 1); }
                held[k] = Some(m);
            },
        }
        cx.input(w.told.clone());
        // the answers for this document, sometimes after other notifications
        if options.is_none() && !error && r.chance(1, 3) { continue; }
        if let Some(o) = options {
            let mut found = None;
            let mut why = String::new();
            for t in &o { match differs(&mut w, &u, t) { None => { found = Some(t.clone()); break; }, Some(d) => why += &format!("{:?}: {d}\n", t.s()) } }
            if found.is_none() { cx.violate("no text the editor could hold", format!("{}{why}", w.told)); return; }
            // which of them it is need not be clear from the answers: replaced
            if messages(&w.s) - before != usize::from(error) { cx.violate("error messages", format!("{}{} error messages for the last step", w.told, messages(&w.s) - before)); return; }
            error = false;
            cx.count("invalid notifications", 1);
            let len = r.below(9);
            let t = Text::new(&some(r, len));
            let t = if lone_cr(&t) { Text::new("") } else { t };
            version[k] += 1;
            w.told += &format!("change {k} to {:?}\n", t.s());
            w.s.change(&u, version[k], json!([{"text": t.s()}]));
            if let Some(d) = differs(&mut w, &u, &t) { cx.violate("another text after replacing all", format!("{}{d}", w.told)); return; }
            held[k] = Some(t);
            continue;
        } else {
            let t = held[k].clone().unwrap_or_else(|| disk[k].clone());
            if let Some(d) = differs(&mut w, &u, &t) { cx.violate(if held[k].is_some() { "another text" } else { "another text than on disk" }, format!("{}the editor's text is {:?}\n{d}", w.told, t.s())); return; }
        }
        let told = messages(&w.s) - before;
        if told != usize::from(error) { cx.violate("error messages", format!("{}{told} error messages for the last step", w.told)); return; }
        cx.count(if error { "invalid notifications" } else { "texts compared" }, 1);
    }
    for k in 0..n {
        let t = held[k].clone().unwrap_or_else(|| disk[k].clone());
        if let Some(d) = differs(&mut w, &uris[k], &t) { cx.violate("another text at the end", format!("{}the editor's text of {k} is {:?}\n{d}", w.told, t.s())); return; }
        cx.count("texts compared", 1);
    }
    if w.s.stderr_has("panicked at") { cx.violate("panic", format!("{}{}", w.told, w.s.stderr())); }
    if edits >= 5 { cx.nontrivial(); }
}

fn start(cx: &Cx) -> World { let dir = cx.dir("lsp"); World { s: Lsp::session(&dir, None, json!({})), macros: false, fresh: 0, root: None, told: String::new() } }
/// every column of a line, below, at and past its end, with every kind of character before it
fn columns(cx: &mut Cx) {
    let mut w = start(cx);
    let u = "file:///c.dm";
    w.s.open(u, 0, "");
    let mut v = 1;
    for line in ["", "abc", "é\"#fff\"", "😀", "a😀\"#123\"é", "\t\"#fff\""] { for eol in ["\n", "\r\n", ""] {
        let text = format!("\"#000\"{}{line}{eol}{}", if eol.is_empty() { "\n" } else { eol }, if eol.is_empty() { "" } else { "\"#111\"" });
        let n = line.encode_utf16().count() as u32;
        for c in 0..n + 4 { for d in [0, 1, 2, 50] {
            let mut t = Text::new(&text);
            let ch = Change::Range(1, c, 1, c + d, "\"#222\"".into());
            let o = t.lines()[1];
            if t.splits(o.0 + (c as usize).min(o.1)) || t.splits(o.0 + ((c + d) as usize).min(o.1)) { continue; }
            w.s.change(u, v, json!([{"text": text}, ch.json()]));
            v += 1;
            t.apply(&ch);
            let got = w.s.ask("textDocument/documentColor", doc(u)).unwrap_or_default();
            if got_colours(&got) != Some(colours(&t)) { cx.violate("column", format!("{text:?} with {ch:?}: {:?} instead of {:?}", got_colours(&got), colours(&t))); return; }
            cx.count("columns tried", 1);
        } }
    } }
    cx.nontrivial();
    cx.input("columns");
}
fn closed(cx: &mut Cx) {
    let mut w = start(cx);
    let dir = cx.dir("disk");
    let (a, b, c) = (Text::new("\"#aaa\"\n/datum/a\n"), Text::new("\n\n\"#bbb\"\n/datum/b/c\n"), Text::new("/proc/c()\n"));
    std::fs::write(dir.join("a.dm"), a.s()).unwrap();
    let u = format!("file://{}/a.dm", dir.display());
    for (what, t) in [("on disk", &a), ("open", &b), ("closed", &a), ("open with another", &c), ("closed again", &a)] {
        match what { "open" | "open with another" => w.s.open(&u, 1, &t.s()), "on disk" => {}, _ => w.s.close_doc(&u) }
        if let Some(d) = differs(&mut w, &u, t) { cx.violate(format!("document {what}"), d); return; }
    }
    cx.nontrivial();
    cx.input("closed");
}
fn invalid(cx: &mut Cx) {
    let mut w = start(cx);
    let (a, b) = ("file:///a.dm", "file:///b.dm");
    let t = Text::new("\"#abc\" /datum/a\n/datum/b\n");
    w.s.open(a, 3, &t.s());
    w.s.open(b, 3, "/datum/c\n");
    let bad: Vec<(&str, Value)> = vec![
        ("textDocument/didChange", json!({"textDocument": {"uri": b, "version": 4}, "contentChanges": [{"range": {"start": pos(9, 0), "end": pos(9, 1)}, "text": "x"}]})),
        ("textDocument/didChange", json!({"textDocument": {"uri": b, "version": 5}, "contentChanges": [{"range": {"start": pos(0, 5), "end": pos(0, 1)}, "text": "x"}]})),
        ("textDocument/didChange", json!({"textDocument": {"uri": b, "version": 1}, "contentChanges": [{"text": "x"}]})),
        ("textDocument/didChange", json!({"textDocument": {"uri": "file:///no.dm", "version": 1}, "contentChanges": [{"text": "x"}]})),
        ("textDocument/didChange", json!({"textDocument": {"uri": b}})),
        ("textDocument/didClose", json!({"textDocument": {"uri": "file:///no.dm"}})),
        ("textDocument/didClose", json!({"textDocument": 5})),
        ("textDocument/didOpen", json!({"textDocument": {"uri": "no url", "version": 1, "languageId": "dm", "text": ""}})),
        ("textDocument/didOpen", json!({"textDocument": {"uri": b, "version": 1, "languageId": "dm", "text": "/datum/c\n"}})),
    ];
    for (m, p) in bad {
        let before = messages(&w.s);
        w.s.notify(m, p.clone());
        if let Some(d) = differs(&mut w, a, &t) { cx.violate("another document changed", format!("{m} {p}: {d}")); return; }
        if let Some(d) = differs(&mut w, b, &Text::new("/datum/c\n")) { cx.violate("invalid notification changed the document", format!("{m} {p}: {d}")); return; }
        if messages(&w.s) != before + 1 { cx.violate("no error message", format!("{m} {p}")); return; }
        cx.count("invalid notifications", 1);
    }
    cx.nontrivial();
    cx.input("invalid");
}
