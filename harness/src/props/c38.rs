//! The language server's protocol: every request answered once, nothing kills it.
use crate::ensure;
use crate::fw::*;
use crate::gen_diag;
use crate::lsp::*;
use crate::rng::Rng;
use serde_json::{Value, json};
use std::time::Duration;

pub static PROP: Prop = Prop {
    id: "C38",
    quick: 900,
    thorough: 30000,
    case,
    directed: &[("life cycle", life), ("framing", framing), ("positions outside", outside), ("every request everywhere in broken programs", sweep)],
    external: true,
    case_cpu: 120,
    rule: "a case is a session with the language server built from /repo: a sequence of requests and notifications, valid or not, in every life-cycle state, with well-formed, broken and hostile documents in single-file mode or a project, some in batches, with malformed bodies in between, other header fields, and the bytes cut at random places; the answers must be one for each request with its id, in order, errors exactly where the state or the message demands them, none for notifications, the output nothing but well-formed messages, and the exit status the prescribed one without any panic; distinct by messages, non-trivial with 10 requests or more",
    assumptions: &["request ids are strings or non-negative integers, as every known client sends", "the debugger is not started", "the bytes form frames: what is within a frame may be anything"],
    ..DEFAULT
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want { Result, Error, Any }
#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Starting, Running, Down }

pub const FEATURES: &[&str] = &["textDocument/hover", "textDocument/definition", "textDocument/typeDefinition", "textDocument/references", "textDocument/implementation", "textDocument/completion", "textDocument/signatureHelp", "textDocument/documentSymbol", "textDocument/foldingRange", "textDocument/documentColor", "textDocument/colorPresentation", "textDocument/documentLink"];
pub fn params(m: &str, uri: &str, line: u32, ch: u32, line2: u32, ch2: u32) -> Value {
    let mut v = at(uri, line, ch);
    match m {
        "textDocument/references" => v["context"] = json!({"includeDeclaration": ch % 2 == 0}),
        "textDocument/documentSymbol" | "textDocument/foldingRange" | "textDocument/documentColor" | "textDocument/documentLink" => v = doc(uri),
        "textDocument/colorPresentation" => v = json!({"textDocument": {"uri": uri}, "color": {"red": 0.5, "green": 0.0, "blue": 1.0, "alpha": 0.25}, "range": {"start": pos(line, ch), "end": pos(line2, ch2)}}),
        _ => {},
    }
    v
}

const BITS: &[&str] = &["(", ")", "{", "}", "[", "]", "/", "..", ".", ":", "?.", "::", "var/", "proc/", "/proc", "\"", "'", "\"[", "]\"", "{\"", "\"}", "@", "#define X(a) a", "#if", "#endif", "#include \"", "//", "/*", "*/", "/**", "//!", "\\", "\n", "\t", "\r\n", "é", "😀", "\u{0}", "\u{feff}", "new", "in", "as", "set ", "for(", "switch(", "if(", "else", "list(", "rgb(1,2,3)", "\"#fff\"", "'#12345678'", "1e999", "0x", "#region", "// #region x", "// #endregion", "operator", "global.", "src.", "args[", ",", ";", "=", "?", "@{", "__TYPE__", "nameof(", "arglist(", "..()", ".()", "obj/", "/datum/a/proc/p", "X(", "X(1)", "__LINE__", "####", "^", "~=", "**", "verb/", "const/", "tmp/"];
/// a program, mostly broken
pub fn text(r: &mut Rng) -> String {
    let mut t: String = match r.below(5) {
        0 => (0..r.below(60)).map(|_| (*r.pick(BITS)).to_owned() + if r.bool() { " " } else { "" }).collect(),
        _ => gen_diag::project(r).into_iter().skip(1).map(|x| x.1).collect(),
    };
    for _ in 0..*r.pick(&[0, 0, 1, 1, 3, 8]) {
        let mut cuts: Vec<usize> = t.char_indices().map(|x| x.0).collect();
        cuts.push(t.len());
        let a = *r.pick(&cuts);
        match r.below(5) {
            0 => t.insert_str(a, *r.pick(BITS)),
            1 => { let b = (a + r.below(12)).min(t.len()); if t.is_char_boundary(b) { t.replace_range(a..b, ""); } },
            2 => t.truncate(a),
            3 => { let b = *r.pick(&cuts); let (a, b) = (a.min(b), a.max(b)); let part = t[a..b].chars().take(80).collect::<String>(); t.insert_str(a, &part); },
            _ => { let k = *r.pick(BITS); let b = (a + r.below(8)).min(t.len()); if t.is_char_boundary(b) { t.replace_range(a..b, k); } },
        }
    }
    if r.chance(1, 20) { t = t.replace('\n', "\r\n"); }
    t
}
fn place(r: &mut Rng) -> (u32, u32) {
    let l = match r.below(12) { 0 => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 65535, 65536, 100000]), _ => r.below(24) as u32 };
    let c = match r.below(12) { 0 => *r.pick(&[u32::MAX, u32::MAX - 1, 65534, 65535, 65536, 1 << 20]), _ => r.below(30) as u32 };
    (l, c)
}

struct Plan { r: Rng, st: St, open: Vec<String>, uris: Vec<String>, next: u64, project: bool, want: Vec<(Value, Want)>, told: String }
impl Plan {
    fn id(&mut self) -> Value { self.next += 1; if self.r.chance(1, 6) { json!(format!("r{}é", self.next)) } else { json!(self.next) } }
    /// one message and what must answer it
    fn call(&mut self) -> (Value, Option<(Value, Want)>) {
        let uri = if self.r.chance(1, 12) { (*self.r.pick(&["file:///nowhere/x.dm", "dm://docs/reference.dm", "untitled:one", "file:///%00/x", "file://host/x.dm", "data:text/plain,x", "http://a/b.dm"])).to_owned() } else { let k = self.r.below(self.uris.len()); self.uris[k].clone() };
        let run = self.st == St::Running;
        match self.r.weighted(&[if self.st == St::Starting { 40 } else { 1 }, if self.st == St::Running && self.next % 3 == 0 { 2 } else { 0 }, 30, 4, 4, 30, 4, 3, 4]) {
            0 => {
                let id = self.id();
                let bad = self.r.chance(1, 5);
                let root = self.r.pick(&[json!(null), json!("file:///tmp/nonexistent-root"), json!("untitled:x")]).clone();
                let p = if bad { self.r.pick(&[json!({}), json!([]), json!({"processId": "x"}), json!({"capabilities": 5}), json!({"processId": null, "rootUri": "not a url", "capabilities": {}})]).clone() } else { json!({"processId": 1, "rootUri": root, "capabilities": self.r.pick(&[json!({}), json!({"experimental": {"dreammaker": {"objectTree": true, "objectTree2": false}}}), json!({"experimental": {"dreammaker": {"objectTree2": true}}}), json!({"experimental": 5}), json!({"textDocument": {"publishDiagnostics": {"relatedInformation": true}, "signatureHelp": {"signatureInformation": {"parameterInformation": {"labelOffsetSupport": true}}}}})]).clone()}) };
                let w = if bad || self.st != St::Starting { Want::Error } else { Want::Result };
                if w == Want::Result { self.st = St::Running; self.project |= !root.is_null(); }
                (json!({"jsonrpc": "2.0", "id": id, "method": "initialize", "params": p}), Some((id, w)))
            },
            1 => { let id = self.id(); self.st = St::Down; (json!({"jsonrpc": "2.0", "id": id, "method": "shutdown"}), Some((id, Want::Result))) },
            2 => {
                let id = self.id();
                let m = *self.r.pick(FEATURES);
                let (l, c) = place(&mut self.r);
                let (l2, c2) = if self.r.bool() { (l, c.saturating_add(self.r.below(9) as u32)) } else { place(&mut self.r) };
                let known = self.open.contains(&uri);
                let w = if !run { Want::Error } else if known && m != "textDocument/colorPresentation" && !self.project { Want::Result } else { Want::Any };
                (json!({"jsonrpc": "2.0", "id": id, "method": m, "params": params(m, &uri, l, c, l2, c2)}), Some((id, w)))
            },
            3 => {
                let id = self.id();
                let m = *self.r.pick(&["workspace/symbol", "experimental/dreammaker/objectTree2"]);
                let p = if m.starts_with("w") { json!({"query": *self.r.pick(&["", "a", "var/x", "proc/", "#X", "/datum", "obj/item", "é", "İ", "_"])}) } else { json!({"path": *self.r.pick(&["", "/datum", "/obj/nope", "datum", "/"])}) };
                (json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p}), Some((id, if run { Want::Any } else { Want::Error })))
            },
            4 => { let id = self.id(); (json!({"jsonrpc": "2.0", "id": id, "method": *self.r.pick(&["textDocument/rename", "nope", "", "$/cancelRequest2", "textDocument/didOpen"]), "params": json!({"a": 1})}), Some((id, Want::Error))) },
            5 => {
                // documents
                let t = text(&mut self.r);
                let k = self.open.iter().position(|u| *u == uri);
                match (self.r.below(7), k) {
                    (0 | 1 | 2, None) => { if run { self.open.push(uri.clone()); } (json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "dm", "version": 1, "text": t}}}), None) },
                    (0, Some(k)) => { if run { self.open.remove(k); } (json!({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": uri}}}), None) },
                    (6, _) => (json!({"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": "file:///nowhere/neveropened.dm"}}}), None),
                    _ => {
                        let n = 1 + self.r.below(3);
                        let ch: Vec<Value> = (0..n).map(|_| { let (l, c) = place(&mut self.r); let (l2, c2) = if self.r.bool() { (l, c.saturating_add(self.r.below(9) as u32)) } else { place(&mut self.r) }; let t = (0..self.r.below(4)).map(|_| *self.r.pick(BITS)).collect::<String>(); if self.r.chance(1, 6) { json!({"text": t}) } else { json!({"range": {"start": pos(l, c), "end": pos(l2, c2)}, "text": t}) } }).collect();
                        (json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": uri, "version": self.r.pick(&[1, 2, 3, -5, i32::MAX, i32::MIN])}, "contentChanges": ch}}), None)
                    },
                }
            },
            6 => {
                let (m, p) = self.r.pick(&[("initialized", json!({})), ("$/cancelRequest", json!({"id": 1})), ("$/setTrace", json!({"value": "off"})), ("workspace/didChangeConfiguration", json!({"settings": {"dreammaker": {"extoolsDLL": "  "}}})), ("workspace/didChangeConfiguration", json!({"settings": 5})), ("workspace/didChangeConfiguration", json!({"settings": null})), ("experimental/dreammaker/reparse", json!({})), ("unknown/notification", json!([1, 2])), ("textDocument/hover", json!({}))]).clone();
                (json!({"jsonrpc": "2.0", "method": m, "params": p}), None)
            },
            7 => {
                // wrong parameters in notifications
                let m = *self.r.pick(&["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "workspace/didChangeConfiguration", "$/setTrace"]);
                (json!({"jsonrpc": "2.0", "method": m, "params": self.r.pick(&[json!({}), json!([]), json!({"textDocument": 5}), json!({"textDocument": {"uri": "::::", "version": 1, "text": "", "languageId": "dm"}})])}), None)
            },
            _ => {
                let id = self.id();
                let m = *self.r.pick(FEATURES);
                let p = self.r.pick(&[json!({}), json!([]), json!({"textDocument": 5}), json!({"textDocument": {"uri": "not a url"}, "position": {"line": 0, "character": 0}}), json!({"textDocument": {"uri": "file:///x.dm"}, "position": {"line": -1, "character": 0}}), json!({"textDocument": {"uri": "file:///x.dm"}, "position": {"line": 0.5, "character": 0}, "range": 1})]).clone();
                (json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p}), Some((id, if p["textDocument"]["uri"] == "file:///x.dm" { Want::Any } else { Want::Error })))
            },
        }
    }
}

const MALFORMED: &[&[u8]] = &[b"", b"{", b"nonsense", b"{\"jsonrpc\":\"2.0\",\"id\":7", b"5", b"\"x\"", b"null", b"{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":", b"\xff\xfe{}", b"{\"a\":\"\xc3\"", b"[1", b"{} trailing", b"[[[[[["];

/// compares what came with what had to
fn judge(cx: &mut Cx, s: &Lsp, want: &[(Value, Want)], told: &str) -> bool {
    let answers: Vec<&Value> = s.log.iter().filter(|m| m.get("method").is_none()).flat_map(|m| match m { Value::Array(a) => a.iter().collect::<Vec<_>>(), m => vec![m] }).collect();
    if !s.garbage.is_empty() { cx.violate("garbage on the output", format!("{:?}\n{told}", s.garbage)); return false; }
    for (k, (id, w)) in want.iter().enumerate() {
        let Some(a) = answers.get(k) else { cx.violate("request not answered", format!("{} answers for {} requests; the first without one has id {id}\n{told}\nstderr:\n{}", answers.len(), want.len(), s.stderr())); return false; };
        let (e, o) = (a.get("error").is_some(), a.get("result").is_some());
        if a["id"] != *id || e == o || a["jsonrpc"] != "2.0" { cx.violate("wrong answer", format!("answer {k} should be for {id}: {a}\n{told}")); return false; }
        if e && !(a["error"]["code"].is_i64() && a["error"]["message"].is_string()) { cx.violate("malformed error", format!("{a}\n{told}")); return false; }
        if *w == Want::Error && o || *w == Want::Result && e { cx.violate("wrong kind of answer", format!("wanted {w:?} for {id}: {a}\n{told}")); return false; }
        cx.count(if e { "error answers" } else { "results" }, 1);
    }
    if answers.len() > want.len() { cx.violate("answer to no request", format!("{}\n{told}", answers[want.len()])); return false; }
    cx.count("notifications from the server", s.log.iter().filter(|m| m.get("method").is_some()).count() as u64);
    if let Some(m) = s.log.iter().find(|m| m.get("method").is_some() && m.get("id").is_some()) { cx.violate("request from the server", format!("{m}\n{told}")); return false; }
    true
}
fn ended(cx: &mut Cx, s: &mut Lsp, code: i32, what: &str, told: &str) -> bool {
    let Some(st) = s.wait_end(Duration::from_secs(30)) else { cx.violate("does not exit", format!("{what}\n{told}\nstderr:\n{}", s.stderr())); return false; };
    s.drain();
    if s.stderr_has("panicked at") { cx.violate("panic", format!("{what}\n{told}\nstderr:\n{}", s.stderr())); return false; }
    if st.code() != Some(code) { cx.violate("exit status", format!("{st:?}, expected {code}: {what}\n{told}\nstderr:\n{}", s.stderr())); return false; }
    true
}

fn case(cx: &mut Cx) {
    let mut p = Plan { r: Rng::new(cx.rng.u64()), st: St::Starting, open: vec![], uris: vec![], next: 0, project: false, want: vec![], told: String::new() };
    let dir = cx.dir("lsp");
    let project = p.r.chance(1, 4);
    p.project = project;
    p.uris = if project {
        let files = gen_diag::project(&mut p.r);
        gen_diag::write(&dir, &files);
        files.iter().map(|f| format!("file://{}/{}", dir.display(), f.0)).collect()
    } else { vec!["file:///a.dm".into(), "file:///dir/b%20b.dm".into()] };
    let mut s = Lsp::start(&dir);
    let n = 6 + p.r.below(45);
    let cut = p.r.chance(1, 4);
    let mut bytes: Vec<u8> = vec![];
    if project {
        bytes.extend(Lsp::frame(json!({"jsonrpc": "2.0", "id": "i", "method": "initialize", "params": {"rootUri": format!("file://{}", dir.display()), "capabilities": {}}}).to_string().as_bytes()));
        p.want.push((json!("i"), Want::Result));
        p.st = St::Running;
        bytes.extend(Lsp::frame(json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}).to_string().as_bytes()));
    } else if p.r.chance(2, 3) {
        bytes.extend(Lsp::frame(b"{\"jsonrpc\":\"2.0\",\"id\":\"i\",\"method\":\"initialize\",\"params\":{\"capabilities\":{}}}"));
        p.want.push((json!("i"), Want::Result));
        p.st = St::Running;
    }
    p.told = if project { format!("project in {}\n", dir.display()) } else { String::new() };
    for _ in 0..n {
        let body: Vec<u8> = match p.r.below(20) {
            0 => { p.want.push((Value::Null, Want::Error)); p.r.pick(MALFORMED).to_vec() },
            1 => {
                // a batch of two or more
                let mut calls = vec![];
                for _ in 0..2 + p.r.below(3) { let (m, w) = p.call(); calls.push(m); if let Some(w) = w { p.want.push(w); } }
                json!(calls).to_string().into_bytes()
            },
            2 => {
                // not a request, but JSON
                let (b, id) = p.r.pick(&[("{\"foo\": 1}", Value::Null), ("{\"jsonrpc\":\"2.0\",\"id\":77,\"method\":5}", json!(77)), ("{\"id\":\"q\"}", json!("q")), ("{\"jsonrpc\":\"2.0\",\"id\":78,\"method\":\"textDocument/hover\",\"params\":\"x\"}", json!(78))]).clone();
                p.want.push((id, Want::Error));
                b.as_bytes().to_vec()
            },
            _ => { let (m, w) = p.call(); if let Some(w) = w { p.want.push(w); } m.to_string().into_bytes() },
        };
        let f = Lsp::frame(&body);
        if p.r.chance(1, 10) {
            let h = *p.r.pick(&["Content-Length: @\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n", "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: @\r\n\r\n", "content-length: @\r\n\r\n"]);
            bytes.extend(h.replace('@', &body.len().to_string()).into_bytes());
            bytes.extend(&body);
        } else { bytes.extend(f); }
        p.told += &format!("{}\n", String::from_utf8_lossy(&body));
    }
    let exit = p.r.chance(3, 4);
    let code = if exit { if p.st == St::Down { 0 } else { 1 } } else { 0 };
    if exit { bytes.extend(Lsp::frame(b"{\"jsonrpc\":\"2.0\",\"method\":\"exit\"}")); p.told += "exit\n"; }
    cx.input(p.told.clone());
    if cut {
        let mut at = 0;
        while at < bytes.len() {
            let n = (1 + p.r.below(*p.r.clone().pick(&[3, 40, 400]))).min(bytes.len() - at);
            if !s.raw(&bytes[at..at + n]) { break; }
            at += n;
            if p.r.chance(1, 200) { std::thread::sleep(Duration::from_millis(1)); }
        }
    } else { s.raw(&bytes); }
    s.close_input();
    s.drain_for(Duration::from_secs(100));
    let told = p.told.clone();
    cx.count("messages", n as u64);
    if !ended(cx, &mut s, code, if exit { "exit" } else { "end of input" }, &told) { return; }
    if !judge(cx, &s, &p.want, &told) { return; }
    if p.want.len() >= 10 { cx.nontrivial(); }
}

fn run(cx: &mut Cx, frames: &[Vec<u8>], want: &[(Value, Want)], code: i32) {
    let dir = cx.dir("lsp");
    let mut s = Lsp::start(&dir);
    for f in frames { s.raw(f); }
    s.close_input();
    s.drain_for(Duration::from_secs(60));
    let told: String = frames.iter().map(|f| String::from_utf8_lossy(f).into_owned() + "\n").collect();
    if ended(cx, &mut s, code, "directed", &told) { judge(cx, &s, want, &told); }
}
fn f(s: &str) -> Vec<u8> { Lsp::frame(s.as_bytes()) }
const INIT: &str = r#"{"jsonrpc":"2.0","id":1,"method":"initialize","params":{"capabilities":{}}}"#;
const HOVER: &str = r#"{"jsonrpc":"2.0","id":2,"method":"textDocument/hover","params":{"textDocument":{"uri":"file:///x.dm"},"position":{"line":0,"character":0}}}"#;
const DOWN: &str = r#"{"jsonrpc":"2.0","id":3,"method":"shutdown"}"#;
const EXIT: &str = r#"{"jsonrpc":"2.0","method":"exit"}"#;
fn life(cx: &mut Cx) {
    let e = |n: u64| (json!(n), Want::Error);
    let o = |n: u64| (json!(n), Want::Result);
    run(cx, &[f(EXIT)], &[], 1);
    run(cx, &[f(HOVER), f(DOWN), f(EXIT)], &[e(2), e(3)], 1);
    run(cx, &[f(INIT), f(EXIT)], &[o(1)], 1);
    run(cx, &[f(INIT), f(DOWN), f(EXIT)], &[o(1), o(3)], 0);
    run(cx, &[f(INIT), f(DOWN), f(HOVER), f(INIT), f(DOWN), f(EXIT), f(HOVER)], &[o(1), o(3), e(2), e(1), e(3)], 0);
    run(cx, &[f(INIT), f(INIT), f(DOWN), f(EXIT)], &[o(1), e(1), o(3)], 0);
    run(cx, &[f(INIT)], &[o(1)], 0);
    // dropped before initialisation: the document is not open afterwards
    let open = r#"{"jsonrpc":"2.0","method":"textDocument/didOpen","params":{"textDocument":{"uri":"file:///x.dm","languageId":"dm","version":1,"text":""}}}"#;
    let fold = r#"{"jsonrpc":"2.0","id":4,"method":"textDocument/foldingRange","params":{"textDocument":{"uri":"file:///x.dm"}}}"#;
    run(cx, &[f(open), f(INIT), f(fold), f(DOWN), f(EXIT)], &[o(1), e(4), o(3)], 0);
    run(cx, &[f(INIT), f(open), f(fold), f(DOWN), f(EXIT)], &[o(1), o(4), o(3)], 0);
    cx.nontrivial();
    cx.input("life cycle");
}
fn framing(cx: &mut Cx) {
    let o = |n: u64| (json!(n), Want::Result);
    let h = |head: &str, b: &str| { let mut v = head.replace('@', &b.len().to_string()).into_bytes(); v.extend_from_slice(b.as_bytes()); v };
    for head in ["Content-Length: @\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n", "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: @\r\n\r\n", "content-length: @\r\n\r\n", "Content-Length: @\r\nContent-Type: x y z\r\n\r\n"] {
        run(cx, &[h(head, INIT), h(head, DOWN), h(head, EXIT)], &[o(1), o(3)], 0);
    }
    for b in MALFORMED { run(cx, &[f(INIT), Lsp::frame(b), f(DOWN), f(EXIT)], &[o(1), (Value::Null, Want::Error), o(3)], 0); }
    // byte by byte
    let all: Vec<Vec<u8>> = [INIT, DOWN, EXIT].iter().flat_map(|m| f(m)).map(|b| vec![b]).collect();
    run(cx, &all, &[o(1), o(3)], 0);
    cx.nontrivial();
    cx.input("framing");
}
fn outside(cx: &mut Cx) {
    let dir = cx.dir("lsp");
    let u = "file:///p.dm";
    let mut s = Lsp::session(&dir, None, json!({}));
    s.open(u, 1, "/datum/a/proc/p()\n\treturn \"#ff0000\" // 😀\n");
    let far = [0u32, 1, 2, 3, 30, 65534, 65535, 65536, 65537, 1 << 31, u32::MAX - 1, u32::MAX];
    for m in FEATURES { for &l in &far { for &c in &far {
        let got = s.call(m, params(m, u, l, c, 1, 3));
        let ok = got.as_ref().is_some_and(|g| g.get("result").is_some() || *m == "textDocument/colorPresentation" && g.get("error").is_some());
        if !ok { cx.violate("position outside the document", format!("{m} at {l}:{c}: {got:?}\n{}", s.stderr())); return; }
        cx.count("positions asked", 1);
    } } }
    let mut v = 2;
    for &l in &far { for &c in &far { for &l2 in &far { for &c2 in &[0u32, 2, 65536, u32::MAX] {
        s.change(u, v, json!([{"range": {"start": pos(l, c), "end": pos(l2, c2)}, "text": ""}]));
        v += 1;
        s.change(u, v, json!([{"text": "/datum/a/proc/p()\n\treturn \"#ff0000\" // 😀\n"}]));
        v += 1;
    } } } }
    let got = s.ask("textDocument/documentColor", doc(u));
    ensure!(cx, got.as_ref().and_then(|g| g.as_array()).is_some_and(|a| a.len() == 1), "after edits outside the document", "{got:?}\n{}", s.stderr());
    s.call("shutdown", Value::Null);
    s.notify("exit", Value::Null);
    ended(cx, &mut s, 0, "outside", "");
    cx.nontrivial();
    cx.input("outside");
}
fn sweep(cx: &mut Cx) {
    let dir = cx.dir("lsp");
    let mut r = Rng::new(cx.rng.u64());
    let rooted = dir.join("w");
    std::fs::create_dir_all(&rooted).unwrap();
    std::fs::write(rooted.join("e.dme"), "#define M(x) (x + 1)\n#include \"f.dm\"\n").unwrap();
    std::fs::write(rooted.join("f.dm"), "/datum/a\n\tvar/datum/a/x\n\tproc/p(datum/a/y)\n\t\treturn M(y.x)\n").unwrap();
    for mode in 0..2 {
        let root = format!("file://{}", rooted.display());
        let mut s = Lsp::session(&dir, if mode == 1 { Some(&root) } else { None }, json!({}));
        let u = if mode == 1 { format!("{root}/f.dm") } else { "file:///s.dm".to_owned() };
        for k in 0..40 {
            let t = text(&mut r);
            if k == 0 { s.open(&u, 1, &t); } else { s.change(&u, k + 1, json!([{"text": t}])); }
            for (l, line) in t.lines().take(40).enumerate() { for c in 0..line.encode_utf16().count().min(40) + 2 {
                let m = *r.pick(&FEATURES[..7]);
                let got = s.call(m, params(m, &u, l as u32, c as u32, 0, 0));
                if got.as_ref().is_none_or(|g| g.get("result").is_none()) { cx.violate("broken program", format!("{m} at {l}:{c}: {got:?}\nin {t}\n{}", s.stderr())); return; }
                cx.count("positions asked", 1);
            } }
            for m in &FEATURES[7..] { let got = s.call(m, params(m, &u, 0, 0, 0, 3)); if got.as_ref().is_none_or(|g| g.get("result").is_none() && *m != "textDocument/colorPresentation") { cx.violate("broken program", format!("{m}: {got:?}\nin {t}\n{}", s.stderr())); return; } }
        }
        s.call("shutdown", Value::Null);
        s.notify("exit", Value::Null);
        if !ended(cx, &mut s, 0, "sweep", "") { return; }
    }
    cx.nontrivial();
    cx.input("sweep");
}
