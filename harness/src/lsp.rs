//! A language server client: starts the server built from /repo and exchanges messages with it.
use crate::cli;
use serde_json::{Value, json};
use std::io::{Read, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{Receiver, RecvTimeoutError, channel};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub enum Got {
    Message(Value),
    /// anything on standard output that is not a well-formed frame
    Garbage(String),
    Closed,
}

pub struct Lsp {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: Receiver<Got>,
    err: Arc<Mutex<Vec<u8>>>,
    next_id: u64,
    /// everything received, in order
    pub log: Vec<Value>,
    pub garbage: Vec<String>,
    pub closed: bool,
    pub limit: Duration,
}

pub fn reader(mut r: impl Read + Send + 'static) -> Receiver<Got> {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut buf: Vec<u8> = vec![];
        let mut chunk = [0u8; 65536];
        loop {
            // as many whole frames as there are
            loop {
                let Some(head) = buf.windows(4).position(|w| w == b"\r\n\r\n") else {
                    if buf.len() > 4096 { let _ = tx.send(Got::Garbage(String::from_utf8_lossy(&buf[..200]).into_owned())); buf.clear(); }
                    break;
                };
                let header = String::from_utf8_lossy(&buf[..head]).into_owned();
                let len = header.strip_prefix("Content-Length: ").and_then(|n| n.parse::<usize>().ok());
                let Some(len) = len else { let _ = tx.send(Got::Garbage(header)); buf.drain(..head + 4); continue; };
                if buf.len() < head + 4 + len { break; }
                let body: Vec<u8> = buf.drain(..head + 4 + len).skip(head + 4).collect();
                let got = match serde_json::from_slice::<Value>(&body) { Ok(v) => Got::Message(v), Err(e) => Got::Garbage(format!("{e}: {}", String::from_utf8_lossy(&body))) };
                if tx.send(got).is_err() { return; }
            }
            match r.read(&mut chunk) {
                Ok(0) | Err(_) => break,
                Ok(n) => buf.extend_from_slice(&chunk[..n]),
            }
        }
        if !buf.is_empty() { let _ = tx.send(Got::Garbage(String::from_utf8_lossy(&buf).into_owned())); }
        let _ = tx.send(Got::Closed);
    });
    rx
}

pub struct End { pub code: Option<i32>, pub hung: bool, pub err: String }

impl Lsp {
    pub fn start(cwd: &Path) -> Lsp {
        let mut child = Command::new(cli::bin("dm-langserver")).current_dir(cwd).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("cannot start dm-langserver");
        let rx = reader(child.stdout.take().unwrap());
        let err = Arc::new(Mutex::new(vec![]));
        let (e2, mut es) = (err.clone(), child.stderr.take().unwrap());
        std::thread::spawn(move || {
            let mut b = [0u8; 8192];
            while let Ok(n) = es.read(&mut b) {
                if n == 0 { break; }
                let mut g = e2.lock().unwrap();
                g.extend_from_slice(&b[..n]);
                let len = g.len();
                if len > 400_000 { g.drain(..len - 200_000); }
            }
        });
        let stdin = child.stdin.take();
        Lsp { child, stdin, rx, err, next_id: 1, log: vec![], garbage: vec![], closed: false, limit: Duration::from_secs(60) }
    }
    /// a session that has been initialised; `root` is a directory or None for single-file mode
    pub fn session(cwd: &Path, root: Option<&str>, caps: Value) -> Lsp {
        let mut s = Lsp::start(cwd);
        s.call("initialize", json!({"processId": null, "rootUri": root, "capabilities": caps}));
        s.notify("initialized", json!({}));
        s
    }
    pub fn stderr(&self) -> String {
        let g = self.err.lock().unwrap();
        let s = String::from_utf8_lossy(&g).into_owned();
        let n = s.chars().count();
        s.chars().skip(n.saturating_sub(2500)).collect()
    }
    pub fn stderr_has(&self, what: &str) -> bool { String::from_utf8_lossy(&self.err.lock().unwrap()).contains(what) }
    pub fn raw(&mut self, bytes: &[u8]) -> bool {
        match self.stdin.as_mut() { Some(s) => s.write_all(bytes).and_then(|_| s.flush()).is_ok(), None => false }
    }
    pub fn frame(body: &[u8]) -> Vec<u8> {
        let mut v = format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes();
        v.extend_from_slice(body);
        v
    }
    pub fn send(&mut self, v: &Value) -> bool { let f = Self::frame(v.to_string().as_bytes()); self.raw(&f) }
    pub fn notify(&mut self, method: &str, params: Value) -> bool { self.send(&json!({"jsonrpc": "2.0", "method": method, "params": params})) }
    pub fn request(&mut self, method: &str, params: Value) -> u64 {
        let id = self.next_id;
        self.next_id += 1;
        self.send(&json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
        id
    }
    /// the next message, None when the server closed its output or nothing came in time
    pub fn next(&mut self, limit: Duration) -> Option<Value> {
        let end = Instant::now() + limit;
        loop {
            match self.rx.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok(Got::Message(v)) => { self.log.push(v.clone()); return Some(v); },
                Ok(Got::Garbage(g)) => self.garbage.push(g),
                Ok(Got::Closed) | Err(RecvTimeoutError::Disconnected) => { self.closed = true; return None; },
                Err(RecvTimeoutError::Timeout) => return None,
            }
        }
    }
    /// waits for the answer to a request; the answer object, or None when the server died or hung
    pub fn wait(&mut self, id: u64) -> Option<Value> {
        let end = Instant::now() + self.limit;
        loop {
            let left = end.saturating_duration_since(Instant::now());
            let v = self.next(left)?;
            if v.get("id") == Some(&json!(id)) && v.get("method").is_none() { return Some(v); }
        }
    }
    pub fn call(&mut self, method: &str, params: Value) -> Option<Value> { let id = self.request(method, params); self.wait(id) }
    /// answer's result, or the error object under "error"
    pub fn ask(&mut self, method: &str, params: Value) -> Option<Value> {
        let v = self.call(method, params)?;
        Some(match v.get("result") { Some(r) => r.clone(), None => json!({"error": v.get("error")}) })
    }
    pub fn open(&mut self, uri: &str, version: i64, text: &str) { self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "dm", "version": version, "text": text}})); }
    pub fn close_doc(&mut self, uri: &str) { self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}})); }
    pub fn change(&mut self, uri: &str, version: i64, changes: Value) { self.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": changes})); }
    /// the last diagnostics published for a document
    pub fn diagnostics(&self, uri: &str) -> Option<Value> {
        self.log.iter().rev().find(|m| m["method"] == "textDocument/publishDiagnostics" && m["params"]["uri"] == uri).map(|m| m["params"]["diagnostics"].clone())
    }
    /// closes standard input (or has sent `exit`) and waits for the end
    pub fn finish(mut self) -> End {
        self.stdin = None;
        let start = Instant::now();
        loop {
            match self.child.try_wait() {
                Ok(Some(s)) => return End { code: s.code(), hung: false, err: self.stderr() },
                _ if start.elapsed() > Duration::from_secs(30) => { let _ = self.child.kill(); let _ = self.child.wait(); return End { code: None, hung: true, err: self.stderr() }; },
                _ => std::thread::sleep(Duration::from_millis(1)),
            }
        }
    }
    pub fn alive(&mut self) -> bool { matches!(self.child.try_wait(), Ok(None)) }
    pub fn wait_end(&mut self, limit: Duration) -> Option<std::process::ExitStatus> {
        let start = Instant::now();
        loop {
            if let Ok(Some(s)) = self.child.try_wait() { return Some(s); }
            if start.elapsed() > limit { return None; }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    pub fn close_input(&mut self) { self.stdin = None; }
    /// everything still to come after the end
    pub fn drain(&mut self) { while !self.closed && self.next(Duration::from_secs(5)).is_some() {} }
    /// everything until the output is closed
    pub fn drain_for(&mut self, limit: Duration) { let end = Instant::now() + limit; while !self.closed && Instant::now() < end { self.next(end.saturating_duration_since(Instant::now())); } }
}
impl Drop for Lsp { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

pub fn pos(line: u32, character: u32) -> Value { json!({"line": line, "character": character}) }
pub fn doc(uri: &str) -> Value { json!({"textDocument": {"uri": uri}}) }
pub fn at(uri: &str, line: u32, character: u32) -> Value { json!({"textDocument": {"uri": uri}, "position": pos(line, character)}) }
