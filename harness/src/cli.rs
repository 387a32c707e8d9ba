//! Runs the tool binaries built from /repo, watching how they end.
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Default)]
pub struct Out {
    /// None when a signal ended it
    pub code: Option<i32>,
    pub hung: bool,
    pub out: String,
    pub err: String,
}
impl Out {
    pub fn lines(&self) -> Vec<&str> { self.out.lines().collect() }
    pub fn told(&self) -> String { let cut = |s: &str| s.chars().take(1500).collect::<String>(); format!("code {:?} hung {}\n--- stdout\n{}\n--- stderr\n{}", self.code, self.hung, cut(&self.out), cut(&self.err)) }
}

pub fn bin(name: &str) -> PathBuf { std::env::current_exe().unwrap().parent().unwrap().join(name) }

pub fn run(name: &str, args: &[String], cwd: &Path, stdin: Option<&str>, limit_s: u64) -> Out {
    let mut child = Command::new(bin(name)).args(args).current_dir(cwd).env("RUST_BACKTRACE", "0").env("NO_COLOR", "1").env_remove("RUST_LOG").stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap_or_else(|e| panic!("cannot start {name}: {e}"));
    let mut si = child.stdin.take();
    let text = stdin.map(|s| s.to_owned());
    let w = std::thread::spawn(move || { if let (Some(si), Some(t)) = (si.as_mut(), text) { let _ = si.write_all(t.as_bytes()); } });
    fn drain(mut r: impl Read + Send + 'static) -> std::thread::JoinHandle<String> { std::thread::spawn(move || { let mut v = vec![]; let _ = r.read_to_end(&mut v); String::from_utf8_lossy(&v).into_owned() }) }
    let (o, e) = (drain(child.stdout.take().unwrap()), drain(child.stderr.take().unwrap()));
    let start = Instant::now();
    let mut nap = 200;
    let (code, hung) = loop {
        match child.try_wait() {
            Ok(Some(s)) => break (s.code(), false),
            _ if start.elapsed() > Duration::from_secs(limit_s) => { let _ = child.kill(); let _ = child.wait(); break (None, true); },
            _ => { std::thread::sleep(Duration::from_micros(nap)); nap = (nap * 2).min(4000); },
        }
    };
    let _ = w.join();
    Out { code, hung, out: o.join().unwrap_or_default(), err: e.join().unwrap_or_default() }
}

pub fn args(a: &[&str]) -> Vec<String> { a.iter().map(|s| (*s).to_owned()).collect() }
