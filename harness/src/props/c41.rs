//! The debug adapter, against a stand-in for the game: a server speaking the game's side of either engine's protocol.
use crate::cli;
use crate::fw::*;
use crate::lsp::{Got, Lsp, reader};
use crate::rng::Rng;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub static PROP: Prop = Prop {
    id: "C41",
    quick: 3000,
    thorough: 40000,
    case,
    directed: &[("answers race with events", races)],
    external: true,
    case_cpu: 60,
    rule: "a case is a debugging session of the adapter built from /repo (started by the language server, or on its own over standard input) on a generated project, against a stand-in game speaking the auxtools or the extools protocol, attached or launched: a sequence of requests, some sent several at once, mixed with stops, errors, messages and call stacks of the game cut into arbitrary pieces, ending in a disconnection, the loss of the game, or its exit; monitored are the answers (one for each request, in order), the breakpoints, steps and settings the game ends up with, the stops and the end told to the client, the frames, scopes and variables, and the exit status; distinct by requests and answers, non-trivial with a stop and 8 requests or more",
    assumptions: &["the game answers each request and does so in order", "proc references have the form /type/name, numbered among the definitions the project gives it", "a line breakpoint is never at the first instruction of a proc"],
    ..DEFAULT
};

// ------------------------------------------------------------------ the project and the game's state
#[derive(Clone, Debug)]
struct ProcDef { path: String, ovr: usize, file: usize, line: i64, body: Vec<(i64, i64)>, }
#[derive(Clone, Debug)]
enum Val { Null, Num(f32), Str(String), Path(String), File(String), Proc(String), Datum(i64), List(i64) }
#[derive(Clone, Debug)]
struct Frame { id: u32, def: usize, at: usize, stddef: Option<(String, usize, i64)>, usr: Val, src: Val, dot: Val, locals: Vec<(String, Val)>, args: Vec<(String, Val)>, line: Option<u32> }
#[derive(Clone, Debug)]
struct Stack { id: u32, name: String, frames: Vec<Frame> }
#[derive(Clone, Debug)]
enum Obj { Fields(Vec<(String, Val)>), Linear(Vec<Val>), Assoc(Vec<(Val, Val)>) }

#[derive(Default, Debug)]
struct State {
    defs: Vec<ProcDef>,
    objs: BTreeMap<i64, Obj>,
    stacks: Vec<Stack>,
    /// what the adapter has made of the game
    bps: BTreeMap<(String, usize, i64), Option<String>>,
    catch: Option<bool>,
    steps: Vec<String>,
    configured: usize,
    disconnected: bool,
    bad: Vec<String>,
    requests: u64,
    /// auxtools breakpoints the game refuses
    refuse: BTreeSet<i64>,
    stddef: String,
    closed: bool,
}
const STDDEF: &str = "/icon\n\tproc/Turn(a)\n\t\treturn 1\n\tNew(b)\n\t\tx = b\n\t\ty = 2\n";
const FILES: &[&str] = &["main.dm", "code/a.dm", "code/b b.dm"];

fn project(r: &mut Rng, dir: &Path, engine: usize) -> Vec<ProcDef> {
    let mut defs: Vec<ProcDef> = vec![];
    let mut count: BTreeMap<String, usize> = BTreeMap::new();
    std::fs::create_dir_all(dir.join("code")).unwrap();
    let mut dme = String::new();
    for (f, name) in FILES.iter().enumerate() {
        let mut lines: Vec<String> = vec![];
        let blank = |r: &mut Rng, lines: &mut Vec<String>| for _ in 0..r.below(3) { lines.push((*r.pick(&["", "// a comment", "#define A1 2", "/* x */"])).to_owned()); };
        blank(r, &mut lines);
        for _ in 0..1 + r.below(5) {
            let ty = *r.pick(&["", "/obj/a", "/obj/a/b", "/datum/d", "/mob"]);
            let names: &[&str] = if ty.is_empty() { &["g1", "g2", "main"] } else { &["f", "go", "x_y"] };
            let block = !ty.is_empty() && r.bool();
            if block { lines.push(ty.to_owned()); }
            let tab = if block { "\t" } else { "" };
            for _ in 0..if block { 1 + r.below(3) } else { 1 } {
                if block && r.chance(1, 4) { lines.push("\tvar/v = 1".into()); lines.push(String::new()); let l = lines.len(); lines[l - 2] = format!("\tvar/v{l}_{f} = 1"); }
                let builtin = if ty == "/mob" && r.chance(1, 2) { Some("Login") } else { None };
                let n = builtin.unwrap_or(*r.pick(names));
                let full = format!("{ty}/{n}");
                let first = !count.contains_key(&full) && builtin.is_none();
                let kw = if first { *r.pick(&["proc/", "verb/"]) } else { "" };
                // a global proc is defined by its declaration and overridden without
                let kw = if ty.is_empty() && first { "proc/" } else { kw };
                lines.push(match block { true => format!("\t{kw}{n}(a, b)"), false => format!("{ty}/{kw}{n}(a, b)") });
                let line = lines.len() as i64;
                let mut body = vec![];
                let mut off = 2 + r.below(3) as i64;
                for k in 0..1 + r.below(5) {
                    if r.chance(1, 5) { lines.push(String::new()); }
                    let deep = k > 0 && r.chance(1, 4);
                    if deep { lines.push(format!("{tab}\tif(a)")); body.push((off, lines.len() as i64)); off += 2 + r.below(9) as i64; lines.push(format!("{tab}\t\tb = {k}")); }
                    else { lines.push(format!("{tab}\ta = b + {k}")); }
                    body.push((off, lines.len() as i64));
                    off += 2 + r.below(9) as i64;
                }
                let c = count.entry(full.clone()).or_default();
                defs.push(ProcDef { path: full, ovr: *c, file: f, line, body });
                *c += 1;
                blank(r, &mut lines);
            }
        }
        std::fs::write(dir.join(name), lines.join("\n") + "\n").unwrap();
        dme += &format!("#include \"{}\"\n", name.replace('/', *r.pick(&["/", "\\"])));
    }
    std::fs::write(dir.join("e.dme"), dme).unwrap();
    std::fs::write(dir.join("SpacemanDMM.toml"), format!("[debugger]\nengine = \"{}\"\n", ["auxtools", "extools"][engine])).unwrap();
    defs
}
fn val(r: &mut Rng, objs: &[i64]) -> Val {
    match r.below(9) {
        0 => Val::Null,
        1 => Val::Num(*r.pick(&[0., 1., -2.5, 1e10, 0.1, 16777216.])),
        2 => Val::Str((*r.pick(&["", "abc", "a\"b", "é\n", "'"])).to_owned()),
        3 => Val::Path("/obj/a".into()),
        4 => Val::File("icons/x.dmi".into()),
        5 => Val::Proc((*r.pick(&["/obj/a/f", "/main"])).to_owned()),
        _ => { let o = *r.pick(objs); if o >> 24 == 15 { Val::List(o) } else { Val::Datum(o) } },
    }
}
fn stacks(r: &mut Rng, st: &State, engine: usize) -> Vec<Stack> {
    let ids: Vec<i64> = st.objs.keys().copied().collect();
    let names = ["x", "y", "x", "src", "usr", "é", "z"];
    let mut next = r.below(50) as u32;
    let n = 1 + r.below(4);
    let mut out = vec![];
    let mut tid = 0u32;
    for k in 0..n {
        let frames: Vec<Frame> = (0..1 + r.below(5)).map(|_| {
            let def = r.below(st.defs.len());
            let at = r.below(st.defs[def].body.len());
            let vars = |r: &mut Rng| (0..r.below(5)).map(|_| ((*r.pick(&names)).to_owned(), val(r, &ids))).collect::<Vec<_>>();
            next += 1 + r.below(3) as u32;
            let stddef = r.chance(1, 8).then(|| ("/icon/New".to_owned(), 0, 4));
            Frame { id: next, def, at, stddef, usr: val(r, &ids), src: val(r, &ids), dot: val(r, &ids), locals: vars(r), args: vars(r), line: r.chance(5, 6).then(|| 1 + r.below(900) as u32) }
        }).collect();
        let bottom = frames.last().unwrap();
        let name = match &bottom.stddef { Some(s) => s.0.clone(), None => st.defs[bottom.def].path.clone() };
        out.push(Stack { id: tid, name, frames });
        tid += if engine == 0 { 1 + r.below(3) as u32 } else { 1 };
        let _ = k;
    }
    out
}
impl Frame {
    fn path(&self, d: &[ProcDef]) -> (String, usize) { match &self.stddef { Some(s) => (s.0.clone(), s.1), None => (d[self.def].path.clone(), d[self.def].ovr) } }
    fn offset(&self, d: &[ProcDef]) -> i64 { match &self.stddef { Some(_) => 3, None => d[self.def].body[self.at].0 } }
}
fn show(v: &Val) -> String {
    match v {
        Val::Null => "null".into(),
        Val::Num(n) => n.to_string(),
        Val::Str(s) => format!("{s:?}"),
        Val::Path(p) => p.clone(),
        Val::File(f) => format!("'{f}'"),
        Val::Proc(p) => { let (a, b) = p.rsplit_once('/').unwrap(); format!("{a}/proc/{b}") },
        Val::Datum(0x0e000000) => "world".into(),
        Val::Datum(o) | Val::List(o) => format!("[0x{o:08x}]"),
    }
}
fn vref(v: &Val) -> i64 { match v { Val::Datum(o) | Val::List(o) => *o, _ => 0 } }

// ------------------------------------------------------------------ the game
struct Game { st: Arc<Mutex<State>>, w: Arc<Mutex<TcpStream>>, engine: usize, rng: Rng }

/// bincode, as the game's library writes it
#[derive(Default)]
struct Enc(Vec<u8>);
impl Enc {
    fn n(mut self, v: u32) -> Enc { self.0.extend(v.to_le_bytes()); self }
    fn b(mut self, v: bool) -> Enc { self.0.push(v as u8); self }
    fn s(mut self, v: &str) -> Enc { self.0.extend((v.len() as u64).to_le_bytes()); self.0.extend(v.as_bytes()); self }
    fn opt(self, v: Option<u32>) -> Enc { match v { None => self.b(false), Some(n) => self.b(true).n(n) } }
    fn len(mut self, n: usize) -> Enc { self.0.extend((n as u64).to_le_bytes()); self }
    fn framed(self) -> Vec<u8> { let mut v = (self.0.len() as u32).to_le_bytes().to_vec(); v.extend(self.0); v }
}
struct Dec<'a>(&'a [u8], bool);
impl Dec<'_> {
    fn take(&mut self, n: usize) -> Vec<u8> { if self.0.len() < n { self.1 = true; return vec![0; n]; } let (a, b) = self.0.split_at(n); self.0 = b; a.to_vec() }
    fn n(&mut self) -> u32 { u32::from_le_bytes(self.take(4).try_into().unwrap()) }
    fn b(&mut self) -> bool { self.take(1)[0] == 1 }
    fn s(&mut self) -> String { let n = u64::from_le_bytes(self.take(8).try_into().unwrap()) as usize; if n > 1 << 20 { self.1 = true; return String::new(); } String::from_utf8_lossy(&self.take(n)).into_owned() }
    fn optn(&mut self) -> Option<u32> { if self.b() { Some(self.n()) } else { None } }
    fn opts(&mut self) -> Option<String> { if self.b() { Some(self.s()) } else { None } }
}
/// writes in pieces
fn put(w: &Mutex<TcpStream>, r: &mut Rng, bytes: &[u8]) -> bool {
    let mut w = w.lock().unwrap();
    let mut rest = bytes;
    while !rest.is_empty() {
        let n = if r.chance(3, 4) { rest.len() } else { 1 + r.below(rest.len()) };
        if w.write_all(&rest[..n]).is_err() { return false; }
        if n < rest.len() && r.chance(1, 2) { std::thread::sleep(Duration::from_micros(r.below(400) as u64)); }
        rest = &rest[n..];
    }
    true
}
const BP_REFS: u32 = 0x40000000;
fn aux_answer(st: &mut State, body: &[u8]) -> Option<Enc> {
    let mut d = Dec(body, false);
    let kind = d.n();
    let e = Enc::default();
    let out = match kind {
        0 => { st.disconnected = true; None },
        1 => { st.configured += 1; Some(e.n(0)) },
        2 => Some(e.n(1).b(true).s(&st.stddef)),
        3 => { let (f, c, x) = (d.optn(), d.s(), d.opts()); Some(e.n(2).s(&format!("<{f:?} {c} {x:?}>")).opt(f)) },
        5 => {
            let (p, o, off, c) = (d.s(), d.n() as usize, d.n() as i64, d.opts());
            let known = st.defs.iter().find(|x| x.path == p && x.ovr == o);
            let line = known.and_then(|x| x.body.iter().find(|b| b.0 == off)).map(|b| b.1 as u32);
            if known.is_some() && !st.refuse.contains(&off) { st.bps.insert((p, o, off), c); Some(e.n(4).n(0).opt(line)) } else { Some(e.n(4).n(1)) }
        },
        6 => { let k = (d.s(), d.n() as usize, d.n() as i64); let was = st.bps.remove(&k).is_some(); Some(e.n(5).b(was)) },
        7 => { st.catch = Some(d.b()); None },
        9 => { let (p, o, l) = (d.s(), d.n() as usize, d.n() as i64); Some(e.n(7).opt(st.defs.iter().find(|x| x.path == p && x.ovr == o).and_then(|x| x.body.iter().find(|b| b.1 == l)).map(|b| b.0 as u32))) },
        10 => { let mut e = e.n(8).len(st.stacks.len()); for s in &st.stacks { e = e.n(s.id).s(&s.name); } Some(e) },
        11 => {
            let (id, from, n) = (d.n(), d.optn(), d.optn());
            let all: &[Frame] = st.stacks.iter().find(|s| s.id == id).map_or(&[], |s| &s.frames);
            let part: Vec<&Frame> = all.iter().skip(from.unwrap_or(0) as usize).take(n.unwrap_or(u32::MAX) as usize).collect();
            let mut e = e.n(9).len(part.len());
            for f in part { let (p, o) = f.path(&st.defs); e = e.n(f.id).s(&p).n(o as u32).n(f.offset(&st.defs) as u32).opt(f.line); }
            Some(e.n(all.len() as u32))
        },
        12 => { let f = d.n(); Some(e.n(10).opt((f % 3 != 0).then_some(f * 4 + 1)).opt((f % 5 != 0).then_some(f * 4 + 2)).opt((f % 7 != 0).then_some(BP_REFS))) },
        13 => {
            let v = d.n();
            let vars = aux_vars(st, v);
            let mut e = e.n(11).len(vars.len());
            for (n, s, k) in vars { e = e.s(&n).s(&s).opt(k); }
            Some(e)
        },
        14 => { let k = d.n(); let s = if k == 0 { "continue".to_owned() } else { let id = d.n(); format!("{} {id}", ["", "next", "stepIn", "stepOut"][k.min(3) as usize]) }; st.steps.push(s); Some(e.n(0)) },
        15 => { st.steps.push("pause".into()); Some(e.n(0)) },
        k => { st.bad.push(format!("request {k}")); None },
    };
    if d.1 || !d.0.is_empty() { st.bad.push(format!("request {kind} has another form: {body:?}")); }
    out
}
/// the variables behind a reference of an auxtools game
fn aux_vars(st: &State, v: u32) -> Vec<(String, String, Option<u32>)> {
    let mut out = vec![];
    if v == BP_REFS { return vec![("world".into(), "world".into(), None)]; }
    for f in st.stacks.iter().flat_map(|s| &s.frames) {
        let list = if v == f.id * 4 + 1 { &f.args } else if v == f.id * 4 + 2 { &f.locals } else { continue };
        for (n, x) in list { out.push((n.clone(), show(x), (vref(x) != 0).then(|| vref(x) as u32))); }
    }
    out
}
fn ex_val(v: &Val) -> Value {
    match v {
        Val::Null => json!({"literal": {"ref": 0}}),
        Val::Num(n) => json!({"literal": {"number": n}}),
        Val::Str(s) => json!({"literal": {"string": s}, "has_vars": false}),
        Val::Path(s) => json!({"literal": {"typepath": s}}),
        Val::File(s) => json!({"literal": {"resource": s}}),
        Val::Proc(s) => json!({"literal": {"proc": s}, "is_list": false}),
        Val::Datum(o) => json!({"literal": {"ref": o}, "has_vars": true, "is_list": false}),
        Val::List(o) => json!({"literal": {"ref": o}, "has_vars": false, "is_list": true}),
    }
}
fn bytecode(st: &State, p: &str, o: u64) -> Vec<Value> {
    let ins = |off: i64, m: &str, c: String| json!({"offset": off, "bytes": format!("{off:X} 00"), "mnemonic": m, "comment": c, "possible_jumps": [off]});
    let mut v = vec![];
    if let Some(d) = st.defs.iter().find(|x| x.path == p && x.ovr as u64 == o) {
        v.push(ins(0, "DBG FILE", format!("File name: {}", FILES[d.file])));
        for (k, b) in d.body.iter().enumerate() { v.push(ins(b.0, "DBG LINENO", format!("Line number: {}", b.1))); if d.body.get(k + 1).is_none_or(|n| n.0 > b.0 + 1) { v.push(ins(b.0 + 1, "CALL", "something".into())); } }
    } else if p == "/icon/New" { v.push(ins(0, "SET", "x".into())); v.push(ins(3, "RET", String::new())); }
    v
}
fn ex_answer(st: &mut State, m: &Value) -> Option<Value> {
    let c = &m["content"];
    let key = || (c["proc"].as_str().unwrap_or("?").to_owned(), c["override_id"].as_u64().unwrap_or(999) as usize, c["offset"].as_i64().unwrap_or(-1));
    let back = |v: Value| Some(json!({"type": m["type"], "content": v}));
    match m["type"].as_str().unwrap_or("?") {
        "proc disassembly" => back(json!({"proc": c["proc"], "override_id": c["override_id"], "instructions": bytecode(st, c["proc"].as_str().unwrap_or("?"), c["override_id"].as_u64().unwrap_or(99))})),
        "breakpoint set" => { st.bps.insert(key(), None); back(c.clone()) },
        "breakpoint unset" => { st.bps.remove(&key()); back(c.clone()) },
        "breakpoint step into" => { st.steps.push("stepIn".into()); None },
        "breakpoint step over" => { st.steps.push("next".into()); None },
        "breakpoint step out" => { st.steps.push("stepOut".into()); None },
        "breakpoint resume" => { st.steps.push("continue".into()); None },
        "breakpoint pause" => { st.steps.push("pause".into()); None },
        "get all fields" => { let o = c.as_i64().unwrap_or(0); match st.objs.get(&o) { Some(Obj::Fields(f)) => back(Value::Object(f.iter().map(|(n, v)| (n.clone(), ex_val(v))).collect())), _ => { st.bad.push(format!("fields of {o:x}")); back(json!({})) } } },
        "get list contents" => { let o = c.as_i64().unwrap_or(0); match st.objs.get(&o) {
            Some(Obj::Linear(l)) => back(json!({"linear": l.iter().map(ex_val).collect::<Vec<_>>()})),
            Some(Obj::Assoc(l)) => back(json!({"associative": l.iter().map(|(a, b)| json!([ex_val(a), ex_val(b)])).collect::<Vec<_>>()})),
            _ => { st.bad.push(format!("contents of {o:x}")); back(json!({"linear": []})) } } },
        "get source" => back(json!(st.stddef)),
        "break on runtimes" => { st.catch = c.as_bool(); back(json!(true)) },
        "configuration done" => { st.configured += 1; None },
        t => { st.bad.push(format!("message {t}")); None },
    }
}
/// acknowledges at once, so that the other side's small writes are not held back
struct Quick(TcpStream);
impl Read for Quick {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        use std::os::linux::net::TcpStreamExt;
        let _ = self.0.set_quickack(true);
        let n = self.0.read(b);
        let _ = self.0.set_quickack(true);
        n
    }
}
impl Game {
    fn on(stream: TcpStream, engine: usize, st: Arc<Mutex<State>>, seed: u64) -> Game {
        let _ = stream.set_nodelay(true);
        let w = Arc::new(Mutex::new(stream.try_clone().unwrap()));
        let g = Game { st: st.clone(), w: w.clone(), engine, rng: Rng::new(seed) };
        std::thread::spawn(move || {
            let mut s = Quick(stream);
            let mut r = Rng::new(seed ^ 77);
            let mut buf: Vec<u8> = vec![];
            let mut chunk = [0u8; 8192];
            loop {
                loop {
                    let (answer, chatter) = if engine == 0 {
                        if buf.len() < 4 { break; }
                        let n = u32::from_le_bytes(buf[..4].try_into().unwrap()) as usize;
                        if buf.len() < 4 + n { break; }
                        let body: Vec<u8> = buf.drain(..4 + n).skip(4).collect();
                        let a = { let mut g = st.lock().unwrap(); g.requests += 1; aux_answer(&mut g, &body) };
                        (a.map(Enc::framed), Enc::default().n(13).s("a notice").framed())
                    } else {
                        let Some(n) = buf.iter().position(|b| *b == 0) else { break };
                        let body: Vec<u8> = buf.drain(..n + 1).collect();
                        let a = { let mut g = st.lock().unwrap(); g.requests += 1; match serde_json::from_slice::<Value>(&body[..n]) { Ok(m) => ex_answer(&mut g, &m), Err(e) => { g.bad.push(format!("{e}: {}", String::from_utf8_lossy(&body))); None } } };
                        (a.map(|v| { let mut b = v.to_string().into_bytes(); b.push(0); b }), (*r.pick(&["{\"type\":\"raw message\",\"content\":\"a notice\"}\0", "{\"type\":\"call stack\",\"content\":3}\0", "neither\0", "\0", "{\"type\":\"unheard of\"}\0"])).as_bytes().to_vec())
                    };
                    // a notice may come between a request and its answer
                    let mut out = if r.chance(1, 6) { chatter.clone() } else { vec![] };
                    if let Some(a) = answer { out.extend(a); }
                    if r.chance(1, 10) { out.extend(chatter); }
                    if r.chance(1, 12) { std::thread::sleep(Duration::from_micros(r.below(1500) as u64)); }
                    put(&w, &mut r, &out);
                }
                match s.read(&mut chunk) { Ok(0) | Err(_) => break, Ok(n) => buf.extend_from_slice(&chunk[..n]) }
            }
            st.lock().unwrap().closed = true;
        });
        g
    }
    /// the game stops, or says so: reason as the client is to hear it
    fn stop(&mut self, reason: usize, message: &str) {
        let (first, second);
        {
            let st = self.st.lock().unwrap();
            if self.engine == 0 {
                let e = Enc::default().n(14).n(reason as u32);
                first = vec![];
                second = if reason == 3 { e.s(message) } else { e }.framed();
            } else {
                let frame = |f: &Frame| { let (p, o) = f.path(&st.defs); json!({"proc": p, "override_id": o, "offset": f.offset(&st.defs), "usr": ex_val(&f.usr), "src": ex_val(&f.src), "dot": ex_val(&f.dot),
                    "locals": f.locals.iter().map(|x| ex_val(&x.1)).collect::<Vec<_>>(), "local_names": f.locals.iter().map(|x| &x.0).collect::<Vec<_>>(), "args": f.args.iter().map(|x| ex_val(&x.1)).collect::<Vec<_>>(), "arg_names": f.args.iter().map(|x| &x.0).collect::<Vec<_>>()}) };
                let list = |s: &Stack| Value::Array(s.frames.iter().map(frame).collect());
                let nul = |v: Value| { let mut b = v.to_string().into_bytes(); b.push(0); b };
                first = nul(json!({"type": "call stack", "content": {"current": list(&st.stacks[0]), "suspended": st.stacks[1..].iter().map(list).collect::<Vec<_>>()}}));
                let f = &st.stacks[0].frames[0];
                let (p, o) = f.path(&st.defs);
                let mut c = json!({"proc": p, "override_id": o, "offset": f.offset(&st.defs)});
                second = if reason == 3 { c["message"] = json!(message); nul(json!({"type": "runtime", "content": c})) } else { c["reason"] = json!(["breakpoint opcode", "step", "pause"][reason]); nul(json!({"type": "breakpoint hit", "content": c})) };
            }
        }
        let all = [first, second].concat();
        put(&self.w, &mut self.rng, &all);
    }
    fn close(&self) { let _ = self.w.lock().unwrap().shutdown(std::net::Shutdown::Both); }
}

// ------------------------------------------------------------------ the client
/// without the members which say nothing
fn bare(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), bare(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(bare).collect()),
        v => v.clone(),
    }
}
struct Dap { w: Box<dyn Write>, rx: Receiver<Got>, seq: i64, events: Vec<Value>, told: String, broken: Option<String>, answers: Vec<Value>, want: Vec<(i64, String)>, sock: Option<TcpStream> }
impl Dap {
    fn send(&mut self, command: &str, args: Value) -> i64 {
        self.seq += 1;
        let mut m = json!({"seq": self.seq, "type": "request", "command": command});
        if !args.is_null() { m["arguments"] = args; }
        self.told += &format!("-> {} {}\n", m["command"], m["arguments"]);
        self.want.push((self.seq, command.to_owned()));
        let f = Lsp::frame(m.to_string().as_bytes());
        let _ = self.w.write_all(&f);
        let _ = self.w.flush();
        self.seq
    }
    fn step(&mut self, limit: Duration) -> Option<Value> {
        match self.rx.recv_timeout(limit) {
            Ok(Got::Message(v)) => {
                if v["type"] == "event" {
                    if v["event"] != "output" { self.told += &format!("   event {} {}\n", v["event"], bare(&v["body"])); self.events.push(v.clone()); }
                } else if v["type"] == "response" {
                    let mut t = format!("   {} {} {}", v["success"], v["message"], bare(&v["body"]));
                    if t.len() > 1500 { t = t.chars().take(1500).collect(); }
                    self.told += &format!("{t}\n");
                    match self.want.first() {
                        Some((s, c)) if v["request_seq"] == json!(s) && v["command"] == json!(c) => { self.want.remove(0); },
                        other => self.broken = Some(format!("an answer to {} {} while waiting for {other:?}", v["request_seq"], v["command"])),
                    }
                    if !v["success"].is_boolean() || v["success"] == false && !v["message"].is_string() { self.broken = Some(format!("malformed answer {v}")); }
                    self.answers.push(v.clone());
                } else { self.broken = Some(format!("neither answer nor event: {v}")); }
                Some(v)
            },
            Ok(Got::Garbage(g)) => { self.broken = Some(format!("not a message: {g}")); None },
            Ok(Got::Closed) | Err(RecvTimeoutError::Disconnected) => { if self.broken.is_none() { self.broken = Some("the adapter closed the connection".into()); } None },
            Err(RecvTimeoutError::Timeout) => None,
        }
    }
    fn answer(&mut self, seq: i64) -> Option<Value> {
        let end = Instant::now() + Duration::from_secs(40);
        loop {
            if let Some(v) = self.answers.iter().find(|v| v["request_seq"] == json!(seq)) { return Some(v.clone()); }
            if self.broken.is_some() { return None; }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() { self.broken = Some(format!("no answer to request {seq}")); return None; }
            self.step(left);
        }
    }
    fn call(&mut self, c: &str, a: Value) -> Option<Value> { let s = self.send(c, a); self.answer(s) }
    /// the first event of this kind after the given number of events
    fn event(&mut self, kind: &str, from: usize, what: impl Fn(&Value) -> bool) -> Option<Value> {
        let end = Instant::now() + Duration::from_secs(40);
        loop {
            if let Some(e) = self.events[from.min(self.events.len())..].iter().find(|e| e["event"] == kind && what(e)) { return Some(e.clone()); }
            if self.broken.is_some() { return None; }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() { self.broken = Some(format!("no {kind} event")); return None; }
            self.step(left);
        }
    }
}

enum Host { Server(Box<Lsp>), Own(Child, Arc<Mutex<Vec<u8>>>) }
fn own(dir: &Path, exe: &str) -> (Host, Dap) {
    let mut c = Command::new(cli::bin("dm-langserver")).args(["--debugger", "--dreamseeker-exe", exe]).current_dir(dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("cannot start dm-langserver");
    let rx = reader(c.stdout.take().unwrap());
    let err = Arc::new(Mutex::new(vec![]));
    let (e2, mut es) = (err.clone(), c.stderr.take().unwrap());
    std::thread::spawn(move || { let mut b = [0u8; 4096]; while let Ok(n) = es.read(&mut b) { if n == 0 { break; } e2.lock().unwrap().extend_from_slice(&b[..n]); } });
    let w = Box::new(c.stdin.take().unwrap());
    (Host::Own(c, err), Dap { w, rx, seq: 0, events: vec![], told: String::new(), broken: None, answers: vec![], want: vec![], sock: None })
}
fn hosted(s: &mut Lsp, exe: &str) -> Result<Dap, String> {
    let v = s.ask("experimental/dreammaker/startDebugger", json!({"dreamseeker_exe": exe, "env": {"GIVEN": "by the client"}})).ok_or("no answer to startDebugger")?;
    let port = v["port"].as_u64().ok_or(format!("startDebugger: {v}"))? as u16;
    let t = TcpStream::connect(("127.0.0.1", port)).map_err(|e| e.to_string())?;
    let _ = t.set_nodelay(true);
    Ok(Dap { rx: reader(Quick(t.try_clone().unwrap())), w: Box::new(t.try_clone().unwrap()), seq: 0, events: vec![], told: String::new(), broken: None, answers: vec![], want: vec![], sock: Some(t) })
}
fn panicked(h: &mut Host) -> Option<String> {
    let t = match h { Host::Server(s) => s.stderr(), Host::Own(_, e) => String::from_utf8_lossy(&e.lock().unwrap()).into_owned() };
    // writing to a client which has left is allowed to fail
    let n = t.matches("panicked at").count() - t.matches("JSON-RPC write error").count().min(t.matches("panicked at").count());
    (n > 0).then_some(t)
}

// ------------------------------------------------------------------ a session
struct Session<'a> { cx: &'a mut Cx, r: Rng, d: Dap, g: Option<Game>, st: Arc<Mutex<State>>, engine: usize, root: Option<String>, dir: std::path::PathBuf,
    lines: BTreeMap<usize, BTreeMap<(String, usize, i64), Option<String>>>, funcs: BTreeMap<(String, usize, i64), Option<String>>, error: String, stopped: bool, stops: u64, asked: u64, exe: String, child: Option<u32>, stddef: bool }

macro_rules! bad { ($s:expr, $key:expr, $($a:tt)*) => {{ let t = format!($($a)*); let told = $s.d.told.clone(); let n = told.chars().count(); let tail: String = told.chars().skip(n.saturating_sub(6000)).collect(); $s.cx.violate($key, format!("{t}\n...{tail}")); return false; }} }

impl Session<'_> {
    fn ok(&mut self) -> bool { if let Some(b) = self.d.broken.clone() { bad!(self, "protocol", "{b}"); } let b = self.st.lock().unwrap().bad.clone(); if !b.is_empty() { bad!(self, "requests to the game", "{b:?}"); } true }
    fn ask(&mut self, c: &str, a: Value) -> Option<Value> { self.asked += 1; self.d.call(c, a) }
    /// a successful answer's body
    fn get(&mut self, c: &str, a: Value) -> Option<Value> {
        let v = self.ask(c, a)?;
        if v["success"] != true { self.d.broken.get_or_insert(format!("{c} refused: {}", v["message"])); return None; }
        Some(v["body"].clone())
    }
    /// the game has seen all that was sent to it
    fn settle(&mut self) -> bool { if self.engine == 1 { let Some(_) = self.get("variables", json!({"variablesReference": 0x0e000001})) else { return self.ok() && false }; } self.ok() }
    fn path(&self, f: usize) -> String { match &self.root { Some(r) => format!("{r}/{}", FILES[f]), None => FILES[f].to_owned() } }

    fn start(&mut self) -> bool {
        let r = self.d.call("initialize", json!({"adapterID": "byond", "linesStartAt1": true}));
        if r.as_ref().is_none_or(|v| v["success"] != true || v["body"]["supportsConfigurationDoneRequest"] != true) { if !self.ok() { return false; } bad!(self, "initialize", "{r:?}"); }
        // nothing to ask before there is a game
        if self.engine == 1 && self.r.chance(1, 4) {
            let v = self.ask("threads", Value::Null);
            if v.is_some_and(|v| v["success"] != false) { bad!(self, "no game", "threads without a game"); }
            let p = self.path(0);
            let b = self.get("setBreakpoints", json!({"source": {"path": p}, "breakpoints": [{"line": 3}]}));
            if !self.ok() { return false; }
            if b.is_none_or(|b| b["breakpoints"][0]["verified"] != false) { bad!(self, "no game", "a breakpoint verified without a game"); }
        }
        let seed = self.r.u64();
        if self.r.chance(1, 3) { return self.launch(seed); }
        let l = TcpListener::bind(("127.0.0.1", 0)).unwrap();
        let port = l.local_addr().unwrap().port();
        if self.get("attach", json!({"port": port, "name": "x", "request": "attach", "type": "byond"})).is_none() { return self.ok() && false; }
        l.set_nonblocking(true).unwrap();
        let s = self.accept(&l);
        let Some(s) = s else { bad!(self, "attach", "never connected to the game") };
        self.g = Some(Game::on(s, self.engine, self.st.clone(), seed));
        self.begun()
    }
    fn accept(&mut self, l: &TcpListener) -> Option<TcpStream> {
        let end = Instant::now() + Duration::from_secs(20);
        while Instant::now() < end { if let Ok((s, _)) = l.accept() { s.set_nonblocking(false).unwrap(); return Some(s); } std::thread::sleep(Duration::from_micros(200)); }
        None
    }
    fn launch(&mut self, seed: u64) -> bool {
        let no_debug = self.r.chance(1, 6);
        for f in ["env", "stop"] { let _ = std::fs::remove_file(self.dir.join(f)); }
        let mut a = json!({"dmb": "some dir/e.dmb", "name": "x"});
        if no_debug { a["noDebug"] = json!(true); } else if self.r.bool() { a["noDebug"] = json!(false); }
        if self.get("launch", a).is_none() { return self.ok() && false; }
        let end = Instant::now() + Duration::from_secs(20);
        let env = loop {
            if let Ok(t) = std::fs::read_to_string(self.dir.join("env")) { break t; }
            if Instant::now() > end { bad!(self, "launch", "the game was not started"); }
            std::thread::sleep(Duration::from_micros(500));
        };
        let l: Vec<&str> = env.lines().collect();
        self.child = l[0].parse().ok();
        if l[1] != "some dir/e.dmb -trusted" { bad!(self, "launch", "arguments {:?}", l[1]); }
        if self.root.is_some() && l[2] != "by the client" { bad!(self, "launch", "environment {:?}", l[2]); }
        let port = l[3 + self.engine];
        if no_debug != port.is_empty() || !l[4 - self.engine].is_empty() { bad!(self, "launch", "ports {:?} {:?}, engine {}", l[3], l[4], self.engine); }
        if no_debug { return true; }
        let Some(s) = port.parse::<u16>().ok().and_then(|p| TcpStream::connect(("127.0.0.1", p)).ok()) else { bad!(self, "launch", "the adapter does not listen at {port:?}") };
        self.g = Some(Game::on(s, self.engine, self.st.clone(), seed));
        self.begun()
    }
    /// from the moment the client is told, all it asks must reach the game
    fn begun(&mut self) -> bool {
        if self.d.event("initialized", 0, |_| true).is_none() { return self.ok() && false; }
        for _ in 0..self.r.below(3) { if !self.set_lines() { return false; } }
        if self.r.chance(1, 2) && !self.set_funcs() { return false; }
        if self.r.chance(1, 2) && !self.catch() { return false; }
        if self.r.chance(9, 10) {
            if self.get("configurationDone", Value::Null).is_none() { return self.ok() && false; }
            if !self.settle() { return false; }
            self.stddef = true;
            let n = self.st.lock().unwrap().configured;
            if n != 1 { bad!(self, "configured", "the game was told {n} times"); }
        }
        true
    }
    fn place(&self, f: usize, line: i64) -> Option<usize> {
        let st = self.st.lock().unwrap();
        st.defs.iter().enumerate().filter(|(_, d)| d.file == f && d.line <= line).max_by_key(|(_, d)| d.line).map(|(i, _)| i)
    }
    fn compare_bps(&mut self) -> bool {
        if !self.settle() { return false; }
        let mut want: BTreeMap<(String, usize, i64), Option<String>> = self.funcs.clone();
        for m in self.lines.values() { want.extend(m.clone()); }
        if self.engine == 1 { want.values_mut().for_each(|v| *v = None); }
        let got = self.st.lock().unwrap().bps.clone();
        if got != want { bad!(self, "breakpoints in the game", "game has {got:?}\nthe client asked for {want:?}"); }
        self.cx.count("breakpoint states compared", 1);
        true
    }
    fn set_lines(&mut self) -> bool {
        let f = self.r.below(FILES.len());
        let lines: Vec<i64> = {
            let st = self.st.lock().unwrap();
            let mine: Vec<&ProcDef> = st.defs.iter().filter(|d| d.file == f).collect();
            let mut v = vec![];
            for _ in 0..self.r.below(5) {
                let d = *self.r.pick(&mine);
                v.push(match self.r.below(5) { 0 => 1 + self.r.below(30) as i64, 1 => d.line, _ => self.r.pick(&d.body).1 });
            }
            v
        };
        let conds: Vec<Option<String>> = lines.iter().map(|_| self.r.chance(1, 4).then(|| format!("a > {}", self.r.below(9)))).collect();
        let list: Vec<Value> = lines.iter().zip(&conds).map(|(l, c)| match c { Some(c) => json!({"line": l, "condition": c}), None => json!({"line": l}) }).collect();
        let p = self.path(f);
        let mut args = json!({"source": {"path": p, "name": FILES[f]}, "breakpoints": list});
        if self.r.chance(1, 8) {
            match self.r.below(3) { 0 => args["sourceModified"] = json!(true), 1 => args["source"] = json!({"name": "x"}), _ => args["source"]["path"] = json!("elsewhere/x.dm") }
            let v = self.ask("setBreakpoints", args);
            if !self.ok() { return false; }
            if v.is_some_and(|v| v["success"] != false) { bad!(self, "breakpoints", "accepted in a place that is not the project's"); }
            return self.compare_bps();
        }
        let Some(b) = self.get("setBreakpoints", args) else { return self.ok() && false };
        let mut keep = BTreeMap::new();
        let got = b["breakpoints"].as_array().cloned().unwrap_or_default();
        if got.len() != lines.len() { bad!(self, "breakpoints", "{} answers for {} breakpoints", got.len(), lines.len()); }
        for ((l, c), g) in lines.iter().zip(conds).zip(got) {
            let at = self.place(f, *l).and_then(|i| { let st = self.st.lock().unwrap(); let d = &st.defs[i]; d.body.iter().find(|b| b.1 == *l).map(|b| (d.path.clone(), d.ovr, b.0)) });
            let refused = at.as_ref().is_some_and(|a| self.engine == 0 && self.st.lock().unwrap().refuse.contains(&a.2));
            if g["verified"] != json!(at.is_some() && !refused) { bad!(self, "breakpoints", "line {l} of {}: {g}, the game knows {at:?}", FILES[f]); }
            if g["verified"] == true && g["line"] != json!(l) { bad!(self, "breakpoints", "line {l}: {g}"); }
            if let Some(a) = at { if !refused { keep.insert(a, c); } }
        }
        self.lines.insert(f, keep);
        self.compare_bps()
    }
    fn set_funcs(&mut self) -> bool {
        let mut keep = BTreeMap::new();
        let mut list = vec![];
        let mut want = vec![];
        for _ in 0..self.r.below(4) {
            let c = self.r.chance(1, 4).then(|| "b".to_owned());
            if self.r.chance(1, 5) {
                list.push(json!({"name": *self.r.pick(&["/obj/none", "/obj/a/f#77", "nothing"])}));
                want.push(None);
                continue;
            }
            let st = self.st.lock().unwrap();
            let d = &st.defs[self.r.below(st.defs.len())];
            let name = if d.ovr == 0 && self.r.bool() { d.path.clone() } else { format!("{}#{}", d.path, d.ovr) };
            let mut v = json!({"name": name});
            if let Some(c) = &c { v["condition"] = json!(c); }
            list.push(v);
            want.push(Some(d.line));
            keep.insert((d.path.clone(), d.ovr, 0), c);
        }
        let Some(b) = self.get("setFunctionBreakpoints", json!({"breakpoints": list})) else { return self.ok() && false };
        let got = b["breakpoints"].as_array().cloned().unwrap_or_default();
        if got.len() != want.len() { bad!(self, "function breakpoints", "{} answers for {}", got.len(), want.len()); }
        for (w, g) in want.iter().zip(&got) {
            if g["verified"] != json!(w.is_some()) { bad!(self, "function breakpoints", "{g} instead of {w:?}"); }
            if self.engine == 1 && w.is_some() && g["line"] != json!(w) { bad!(self, "function breakpoints", "{g} instead of {w:?}"); }
        }
        self.funcs = keep;
        self.compare_bps()
    }
    fn catch(&mut self) -> bool {
        let on = self.r.bool();
        let f: &[&str] = if on { &["runtimes"] } else if self.r.bool() { &[] } else { &["other"] };
        if self.get("setExceptionBreakpoints", json!({"filters": f})).is_none() { return self.ok() && false; }
        // not answered by the game: asked something else first
        if self.engine == 0 && self.get("threads", Value::Null).is_none() { return self.ok() && false; }
        if !self.settle() { return false; }
        let got = self.st.lock().unwrap().catch;
        if got != Some(on) { bad!(self, "runtimes", "{got:?} instead of {on}"); }
        true
    }
    fn stop(&mut self) -> bool {
        let reason = self.r.below(4);
        let n = self.stops;
        let message = format!("error {n} {}", self.r.pick(&["é", "\"q\"", "x"]));
        let s = { let st = self.st.lock().unwrap(); stacks(&mut self.r, &st, self.engine) };
        self.st.lock().unwrap().stacks = s;
        let from = self.d.events.len();
        self.g.as_mut().unwrap().stop(reason, &message);
        let Some(e) = self.d.event("stopped", from, |e| e["body"]["threadId"] == 0) else { return self.ok() && false };
        let want = ["breakpoint", "step", "pause", "exception"][reason];
        if e["body"]["reason"] != want { bad!(self, "stop", "{} instead of {want}", e["body"]); }
        if reason == 3 {
            if e["body"]["description"] != json!(message) && e["body"]["text"] != json!(message) { bad!(self, "stop", "{} without {message}", e["body"]); }
            self.error = message.clone();
        }
        self.stopped = true;
        self.stops += 1;
        self.cx.count("stops", 1);
        if reason == 3 && self.r.bool() && !self.exception() { return false; }
        true
    }
    fn exception(&mut self) -> bool {
        let Some(b) = self.get("exceptionInfo", json!({"threadId": 0})) else { return self.ok() && false };
        if b["exceptionId"] != json!(self.error) { bad!(self, "exception", "{b} instead of {:?}", self.error); }
        true
    }
    fn threads(&mut self) -> bool {
        let Some(b) = self.get("threads", Value::Null) else { return self.ok() && false };
        let mut got: Vec<(i64, String)> = b["threads"].as_array().into_iter().flatten().map(|t| (t["id"].as_i64().unwrap_or(-1), t["name"].as_str().unwrap_or("?").to_owned())).collect();
        got.sort();
        let mut want: Vec<(i64, String)> = self.st.lock().unwrap().stacks.iter().map(|s| (s.id as i64, s.name.clone())).collect();
        if want.is_empty() || self.engine == 1 && self.stops == 0 { want = vec![(0, "Main".into())]; }
        if got != want { bad!(self, "threads", "{got:?} instead of {want:?}"); }
        true
    }
    /// the frames of a thread as the client is to see them
    fn frames(&self, t: usize) -> Vec<Value> {
        let st = self.st.lock().unwrap();
        let s = &st.stacks[t];
        s.frames.iter().map(|f| {
            let (path, ovr) = f.path(&st.defs);
            let mut v = json!({"id": f.id, "name": path, "instructionPointerReference": format!("{path}#{ovr}@{}", f.offset(&st.defs))});
            match &f.stddef {
                Some((_, _, line)) => { if self.stddef { v["line"] = json!(line); v["source"] = json!({"name": "stddef.dm", "sourceReference": 1}); } else { v["line"] = json!(0); } },
                None => { let d = &st.defs[f.def]; v["line"] = json!(if self.engine == 0 { d.line } else { d.body[f.at].1 }); v["source"] = json!({"name": FILES[d.file].rsplit('/').next().unwrap(), "path": self.path(d.file)}); },
            }
            if self.engine == 0 && let Some(l) = f.line { v["line"] = json!(l); }
            v
        }).collect()
    }
    fn trace(&mut self) -> bool {
        if !self.stopped { return true; }
        let (t, id, len) = { let st = self.st.lock().unwrap(); let t = self.r.below(st.stacks.len()); (t, st.stacks[t].id, st.stacks[t].frames.len()) };
        let mut a = json!({"threadId": id});
        let (mut from, mut n) = (0, usize::MAX);
        if self.engine == 0 && self.r.bool() { from = self.r.below(len + 2); n = 1 + self.r.below(5); a["startFrame"] = json!(from); a["levels"] = json!(n); }
        let Some(b) = self.get("stackTrace", a) else { return self.ok() && false };
        if b["totalFrames"] != json!(len) { bad!(self, "stack", "{} frames in all instead of {len}", b["totalFrames"]); }
        let want: Vec<Value> = self.frames(t).into_iter().skip(from).take(n).collect();
        let got: Vec<Value> = b["stackFrames"].as_array().into_iter().flatten().map(|f| {
            let mut v = json!({"id": f["id"], "name": f["name"], "line": f["line"], "instructionPointerReference": f["instructionPointerReference"]});
            if !f["source"].is_null() { let mut s = json!({}); for k in ["name", "path", "sourceReference"] { if !f["source"][k].is_null() { s[k] = f["source"][k].clone(); } } v["source"] = s; }
            v
        }).collect();
        // the adapter numbers the frames of an extools game itself
        let own = self.engine == 1;
        let norm = |l: &[Value]| l.iter().cloned().map(|mut v| { v.as_object_mut().unwrap().remove("instructionPointerReference"); if own { v.as_object_mut().unwrap().remove("id"); } v }).collect::<Vec<_>>();
        if norm(&got) != norm(&want) { bad!(self, "stack", "thread {id}: {}\ninstead of {}", Value::Array(norm(&got)), Value::Array(norm(&want))); }
        self.cx.count("frames compared", got.len() as u64);
        if self.engine == 1 && self.r.bool() && !got.is_empty() {
            // a frame's instruction can be looked up
            let k = self.r.below(got.len());
            let Some(b) = self.get("disassemble", json!({"memoryReference": got[k]["instructionPointerReference"], "instructionCount": 100})) else { return self.ok() && false };
            let (p, o) = { let st = self.st.lock().unwrap(); st.stacks[t].frames[from + k].path(&st.defs) };
            let want: Vec<(Value, String)> = bytecode(&self.st.lock().unwrap(), &p, o as u64).iter().map(|i| (i["bytes"].clone(), i["mnemonic"].as_str().unwrap().to_owned())).collect();
            let got = b["instructions"].as_array().cloned().unwrap_or_default();
            if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| g["instructionBytes"] != w.0 || !g["instruction"].as_str().unwrap_or("").starts_with(&w.1)) { bad!(self, "disassembly", "of {p}#{o}: {got:?}\ninstead of {want:?}"); }
        }
        true
    }
    fn same_vars(&mut self, r: i64, want: Vec<(String, String, i64)>) -> bool {
        let Some(b) = self.get("variables", json!({"variablesReference": r})) else { return self.ok() && false };
        let got: Vec<(String, String, i64)> = b["variables"].as_array().into_iter().flatten().map(|v| (v["name"].as_str().unwrap_or("?").to_owned(), v["value"].as_str().unwrap_or("?").to_owned(), v["variablesReference"].as_i64().unwrap_or(-1))).collect();
        if got != want { bad!(self, "variables", "of {r:#x}: {got:?}\ninstead of {want:?}"); }
        self.cx.count("variables compared", got.len() as u64);
        true
    }
    fn scopes(&mut self) -> bool {
        if !self.stopped { return true; }
        let (f, id, i, t) = {
            let st = self.st.lock().unwrap();
            let n = st.stacks.len();
            let s = &st.stacks[self.r.below(n)];
            let i = self.r.below(s.frames.len());
            let f = s.frames[i].clone();
            (f.clone(), f.id as i64, i, s.id)
        };
        let id = if self.engine == 0 { id } else {
            let Some(b) = self.get("stackTrace", json!({"threadId": t})) else { return self.ok() && false };
            let Some(id) = b["stackFrames"][i]["id"].as_i64() else { bad!(self, "stack", "no frame {i} of thread {t}: {b}") };
            id
        };
        let Some(b) = self.get("scopes", json!({"frameId": id})) else { return self.ok() && false };
        let got: BTreeMap<String, i64> = b["scopes"].as_array().into_iter().flatten().map(|s| (s["name"].as_str().unwrap_or("?").to_owned(), s["variablesReference"].as_i64().unwrap_or(-1))).collect();
        let unique = |l: &[(String, Val)], taken: &[&str]| {
            let mut seen: BTreeMap<String, usize> = taken.iter().map(|t| ((*t).to_owned(), 1)).collect();
            l.iter().map(|(n, v)| { let k = seen.entry(n.clone()).or_insert(0); *k += 1; (if *k == 1 { n.clone() } else { format!("{n} #{}", *k - 1) }, show(v), vref(v)) }).collect::<Vec<_>>()
        };
        if self.engine == 0 {
            let fid = f.id;
            let mut want = BTreeMap::new();
            if fid % 5 != 0 { want.insert("Locals".to_owned(), i64::from(fid * 4 + 2)); }
            if fid % 3 != 0 { want.insert("Arguments".to_owned(), i64::from(fid * 4 + 1)); }
            if fid % 7 != 0 { want.insert("Globals".to_owned(), i64::from(BP_REFS)); }
            if got != want { bad!(self, "scopes", "{got:?} instead of {want:?}"); }
            if let Some(l) = want.get("Locals") && !self.same_vars(*l, unique(&f.locals, &[])) { return false; }
            if let Some(l) = want.get("Arguments") && !self.same_vars(*l, unique(&f.args, &[])) { return false; }
            return true;
        }
        let (Some(l), Some(a), Some(g)) = (got.get("Locals"), got.get("Arguments"), got.get("Globals")) else { bad!(self, "scopes", "{got:?}") };
        let (l, a, g) = (*l, *a, *g);
        let mut want = vec![(".".to_owned(), show(&f.dot), vref(&f.dot))];
        want.extend(unique(&f.locals, &[]));
        if !self.same_vars(l, want) { return false; }
        let mut want = vec![("src".to_owned(), show(&f.src), vref(&f.src)), ("usr".to_owned(), show(&f.usr), vref(&f.usr))];
        want.extend(unique(&f.args, &["src", "usr"]));
        if !self.same_vars(a, want) { return false; }
        if !self.object(g) { return false; }
        for v in [&f.dot, &f.src, &f.usr].into_iter().chain(f.locals.iter().map(|x| &x.1)) { if vref(v) != 0 && self.r.chance(1, 2) && !self.object(vref(v)) { return false; } }
        true
    }
    fn object(&mut self, o: i64) -> bool {
        let Some(x) = self.st.lock().unwrap().objs.get(&o).cloned() else { bad!(self, "scopes", "reference {o:#x} is nothing in the game") };
        let want: Vec<(String, String, i64)> = match x {
            Obj::Fields(mut f) => { f.sort_by(|a, b| a.0.cmp(&b.0)); f.iter().map(|(n, v)| (n.clone(), show(v), vref(v))).collect() },
            Obj::Linear(l) => l.iter().enumerate().map(|(i, v)| (format!("[{}]", i + 1), show(v), vref(v))).collect(),
            Obj::Assoc(l) => l.iter().enumerate().flat_map(|(i, (k, v))| [(format!("keys[{}]", i + 1), show(k), vref(k)), (format!("vals[{}]", i + 1), show(v), vref(v))]).collect(),
        };
        self.same_vars(o, want)
    }
    fn go(&mut self) -> bool {
        let what = *self.r.pick(&["continue", "next", "stepIn", "stepOut", "pause"]);
        let t = { let st = self.st.lock().unwrap(); st.stacks.first().map_or(0, |s| s.id) };
        let from = self.d.events.len();
        let before = self.st.lock().unwrap().steps.len();
        let others: Vec<i64> = if self.engine == 0 || self.stops > 0 { self.st.lock().unwrap().stacks.iter().map(|s| s.id as i64).filter(|i| *i != 0).collect() } else { vec![] };
        if self.get(what, json!({"threadId": t})).is_none() { return self.ok() && false; }
        if !self.settle() { return false; }
        let want = if self.engine == 0 && what != "continue" && what != "pause" { format!("{what} {t}") } else { what.to_owned() };
        let got = self.st.lock().unwrap().steps[before..].to_vec();
        if got != [want.clone()] { bad!(self, "steps", "the game was told {got:?} instead of {want}"); }
        if what == "pause" { return true; }
        let mut gone: Vec<i64> = self.d.events[from..].iter().filter(|e| e["event"] == "thread" && e["body"]["reason"] == "exited").map(|e| e["body"]["threadId"].as_i64().unwrap_or(-1)).collect();
        gone.sort();
        if gone != others { bad!(self, "steps", "threads ended {gone:?} instead of {others:?}"); }
        if !self.d.events[from..].iter().any(|e| e["event"] == "continued" && e["body"]["allThreadsContinued"] == true) { bad!(self, "steps", "the client was not told that the game continues"); }
        true
    }
    fn evaluate(&mut self) -> bool {
        if self.engine == 0 {
            let (f, x) = (self.r.chance(2, 3).then(|| self.r.below(90) as u32), self.r.bool().then(|| "hover".to_owned()));
            let c = *self.r.pick(&["src.x", "#help", " a b ", "é"]);
            let mut a = json!({"expression": c});
            if let Some(f) = f { a["frameId"] = json!(f); }
            if let Some(x) = &x { a["context"] = json!(x); }
            let Some(b) = self.get("evaluate", a) else { return self.ok() && false };
            let want = format!("<{f:?} {} {x:?}>", c.trim_start());
            if b["result"] != json!(want) || b["variablesReference"] != json!(f.unwrap_or(0)) { bad!(self, "evaluate", "{b} instead of {want}"); }
            return true;
        }
        if !self.stopped { return true; }
        let n = self.st.lock().unwrap().stacks.len();
        let f = self.st.lock().unwrap().stacks[0].frames[0].clone();
        let (p, o) = { let st = self.st.lock().unwrap(); f.path(&st.defs) };
        let _ = n;
        let Some(b) = self.get("evaluate", json!({"expression": "#dis", "frameId": 0})) else { return self.ok() && false };
        let t = b["result"].as_str().unwrap_or("").to_owned();
        let want = bytecode(&self.st.lock().unwrap(), &p, o as u64);
        if t.lines().count() != want.len() || t.lines().zip(&want).any(|(l, w)| !l.contains(w["mnemonic"].as_str().unwrap()) || !l.contains(w["bytes"].as_str().unwrap())) { bad!(self, "evaluate", "{t}\ninstead of {want:?}"); }
        true
    }
    fn source(&mut self) -> bool {
        let k = *self.r.pick(&[1, 1, 1, 0, 7]);
        let old = if self.r.bool() { k } else { 0 };
        let v = self.ask("source", json!({"sourceReference": old, "source": {"sourceReference": k}}));
        if !self.ok() { return false; }
        let v = v.unwrap();
        if (v["success"] == true) != (k == 1 && self.stddef) || v["success"] == true && v["body"]["content"] != STDDEF { bad!(self, "source", "{v}"); }
        true
    }
    /// several requests at once
    fn burst(&mut self) -> bool {
        let mut all = vec![];
        for _ in 0..2 + self.r.below(5) {
            let (c, a) = match self.r.below(10) {
                6 => ("scopes", json!({"frameId": self.r.below(9)})),
                7 => ("variables", json!({"variablesReference": 1 + self.r.below(40)})),
                8 => ("stackTrace", json!({"threadId": self.r.below(9)})),
                9 => ("variables", json!({"variablesReference": 0})),
                0 => ("threads", Value::Null),
                1 => ("stackTrace", json!({"threadId": 0})),
                2 => ("nonsense", json!({"x": 1})),
                3 => ("scopes", json!({"frameId": "not a number"})),
                4 => ("exceptionInfo", json!({"threadId": 0})),
                _ => ("evaluate", json!({"expression": "x", "frameId": 0})),
            };
            self.asked += 1;
            let fails = c == "nonsense" || a["frameId"].is_string();
            all.push((self.d.send(c, a), fails));
        }
        for (s, fails) in all {
            let Some(v) = self.d.answer(s) else { return self.ok() && false };
            if fails && v["success"] != false { bad!(self, "bad requests", "{v}"); }
        }
        self.cx.count("bursts", 1);
        self.ok()
    }
    fn run(&mut self, exit: bool) -> bool {
        if !self.start() { return false; }
        let live = self.g.is_some();
        if live {
            for _ in 0..6 + self.r.below(20) {
                let ok = match self.r.below(16) {
                    0 | 1 => self.set_lines(),
                    2 => self.set_funcs(),
                    3 | 4 => self.stop(),
                    5 => self.threads(),
                    6 | 7 => self.trace(),
                    8..=10 => self.scopes(),
                    11 => self.go(),
                    12 => if self.r.bool() { self.catch() } else { self.exception() },
                    13 => self.evaluate(),
                    14 => self.source(),
                    _ => self.burst(),
                };
                if !ok || !self.ok() { return false; }
            }
        }
        // the end
        let end = self.r.below(4);
        let from = self.d.events.len();
        match end {
            0 if live => {
                // the game is lost; everything is still answered
                self.g.as_ref().unwrap().close();
                let n = self.r.below(4);
                for k in 0..n + 1 {
                    if k == n && self.d.event("terminated", from, |_| true).is_none() { return self.ok() && false; }
                    for _ in 0..self.r.below(4) {
                        let p = self.path(0);
                        let (c, a) = self.r.pick(&[("threads", Value::Null), ("continue", json!({"threadId": 0})), ("pause", json!({"threadId": 0})), ("setBreakpoints", json!({"source": {"path": p}, "breakpoints": [{"line": 3}, {"line": 9}]})), ("setFunctionBreakpoints", json!({"breakpoints": [{"name": "/obj/a/f"}]})), ("variables", json!({"variablesReference": 0x0e000001})), ("stackTrace", json!({"threadId": 0})), ("exceptionInfo", json!({"threadId": 0})), ("setExceptionBreakpoints", json!({"filters": []})), ("configurationDone", Value::Null)]).clone();
                        self.ask(c, a);
                        if !self.ok() { return false; }
                    }
                }
                self.cx.count("games lost", 1);
            },
            1 if exit && self.child.is_some() => {
                // the game exits by itself
                let code = self.r.below(5) as i64;
                std::fs::write(self.dir.join("stop.tmp"), code.to_string()).unwrap();
                std::fs::rename(self.dir.join("stop.tmp"), self.dir.join("stop")).unwrap();
                if let Some(g) = &self.g { g.close(); }
                let Some(e) = self.d.event("exited", from, |_| true) else { return self.ok() && false };
                if e["body"]["exitCode"] != json!(code) { bad!(self, "exit code", "{} instead of {code}", e["body"]); }
                if self.d.event("terminated", from, |_| true).is_none() { return self.ok() && false; }
                self.child = None;
                self.cx.count("games ended", 1);
            },
            _ => {},
        }
        let terminate = match self.r.below(3) { 0 => None, 1 => Some(true), _ => Some(false) };
        let a = match terminate { None => json!({}), Some(t) => json!({"terminateDebuggee": t}) };
        if self.get("disconnect", a).is_none() { return self.ok() && false; }
        if let Some(pid) = self.child {
            if terminate != Some(false) {
                if self.d.event("exited", from, |_| true).is_none() { return self.ok() && false; }
                if Path::new(&format!("/proc/{pid}")).exists() { bad!(self, "terminate", "the game still runs"); }
                self.child = None;
            } else if !Path::new(&format!("/proc/{pid}")).exists() { bad!(self, "terminate", "the game was ended"); }
        }
        if live {
            if self.d.event("terminated", from, |_| true).is_none() { return self.ok() && false; }
            let end = Instant::now() + Duration::from_secs(20);
            loop { let st = self.st.lock().unwrap(); if st.closed { break; } drop(st); if Instant::now() > end { bad!(self, "disconnect", "the game is still connected"); } std::thread::sleep(Duration::from_micros(300)); }
        }
        self.ok()
    }
}

fn state(r: &mut Rng, defs: &[ProcDef]) -> State {
    let mut st = State { defs: defs.to_vec(), stddef: STDDEF.into(), ..State::default() };
    let ids: Vec<i64> = vec![0x0e000000, 0x0e000001, 0x21000005, 0x03000001, 0x0f000003, 0x0f00ffff, 0x0f000010];
    for i in &ids {
        let o = if i >> 24 == 15 {
            if r.bool() { Obj::Linear((0..r.below(6)).map(|_| val(r, &ids)).collect()) } else { Obj::Assoc((0..r.below(5)).map(|_| (val(r, &ids), val(r, &ids))).collect()) }
        } else {
            let mut f: BTreeMap<String, Val> = BTreeMap::new();
            let big = r.chance(1, 8);
            for k in 0..if big { 200 } else { r.below(7) } { f.insert(format!("{}{k}", r.pick(&["v", "a_", "Z", "é"])), val(r, &ids)); }
            Obj::Fields(f.into_iter().collect())
        };
        st.objs.insert(*i, o);
    }
    for d in defs { if r.chance(1, 10) { st.refuse.insert(r.pick(&d.body).0); } }
    st
}
fn game_script(dir: &Path) -> String {
    let p = dir.join("bin");
    std::fs::create_dir_all(&p).unwrap();
    let f = p.join("dreamseeker");
    let d = dir.display();
    std::fs::write(&f, format!("#!/bin/sh\nprintf '%s\\n' $$ \"$*\" \"$GIVEN\" \"$AUXTOOLS_DEBUG_PORT\" \"$EXTOOLS_PORT\" > '{d}/env.tmp'\nmv '{d}/env.tmp' '{d}/env'\necho started; echo problem >&2\nn=0\nwhile [ ! -f '{d}/stop' ] && [ $n -lt 3000 ]; do sleep 0.02; n=$((n+1)); done\nexit `cat '{d}/stop'`\n")).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
    f.to_string_lossy().into_owned()
}

fn session(cx: &mut Cx, r: &mut Rng, sessions: usize) {
    let dir = cx.dir("game");
    let engine = r.below(2);
    let defs = project(r, &dir, engine);
    let exe = game_script(&dir);
    let root = dir.to_string_lossy().into_owned();
    let hosted_mode = r.chance(2, 3);
    let mut host = None;
    let (mut asked, mut stops) = (0, 0);
    let mut told = String::new();
    for k in 0..if hosted_mode { sessions } else { 1 } {
        let d = if hosted_mode {
            if host.is_none() {
                let mut s = Lsp::session(&dir, Some(&format!("file://{root}")), json!({}));
                // the project is loaded when this is answered
                s.ask("workspace/symbol", json!({"query": "x"}));
                host = Some(Host::Server(Box::new(s)));
            }
            let Some(Host::Server(s)) = &mut host else { unreachable!() };
            match hosted(s, &exe) { Ok(d) => d, Err(e) => { let t = s.stderr(); cx.violate("start", format!("{e}\n{t}")); return; } }
        } else {
            let (h, d) = own(&dir, &exe);
            host = Some(h);
            d
        };
        let st = Arc::new(Mutex::new(state(r, &defs)));
        let seed = r.u64();
        let mut s = Session { cx, r: Rng::new(seed), d, g: None, st, engine, root: hosted_mode.then(|| root.clone()), dir: dir.clone(), lines: BTreeMap::new(), funcs: BTreeMap::new(), error: String::new(), stopped: false, stops: 0, asked: 0, exe: exe.clone(), child: None, stddef: false };
        let ok = s.run(true);
        let _ = &s.exe;
        asked += s.asked;
        stops += s.stops;
        // a game left running is ended here
        if let Some(pid) = s.child { std::fs::write(dir.join("stop"), "0").unwrap(); let end = Instant::now() + Duration::from_secs(10); while Path::new(&format!("/proc/{pid}")).exists() && Instant::now() < end { std::thread::sleep(Duration::from_millis(1)); } }
        if let Some(g) = &s.g { g.close(); }
        if s.cx.violated() && k == 0 { s.d.told = FILES.iter().map(|f| format!("== {f}\n{}", std::fs::read_to_string(dir.join(f)).unwrap_or_default())).collect::<String>() + &s.d.told; }
        let (t, sock, w) = (s.d.told, s.d.sock, s.d.w);
        told += &t;
        cx.input(format!("session {k}, {} {}\n{t}", ["auxtools", "extools"][engine], if hosted_mode { "hosted" } else { "own" }));
        drop(w);
        if let Some(t) = sock { let _ = t.shutdown(std::net::Shutdown::Both); }
        let p = host.as_mut().and_then(panicked);
        if let Some(p) = p { cx.violate("panic", format!("{p}\n{told}")); return; }
        if !ok { return; }
        cx.count("sessions", 1);
    }
    cx.count("requests", asked);
    match host {
        Some(Host::Own(mut c, e)) => {
            let end = Instant::now() + Duration::from_secs(30);
            loop {
                match c.try_wait() {
                    Ok(Some(s)) => { if s.code() != Some(0) { cx.violate("exit status", format!("{s:?}\n{}\n{told}", String::from_utf8_lossy(&e.lock().unwrap()))); return; } break; },
                    _ if Instant::now() > end => { let _ = c.kill(); let _ = c.wait(); cx.violate("hang", format!("does not end with its input\n{told}")); return; },
                    _ => std::thread::sleep(Duration::from_millis(1)),
                }
            }
            if let Some(p) = panicked(&mut Host::Own(c, e)) { cx.violate("panic", format!("{p}\n{told}")); return; }
        },
        Some(Host::Server(mut s)) => { if !s.alive() { cx.violate("server", format!("the language server ended\n{}", s.stderr())); return; } },
        None => {},
    }
    cx.sig(&told);
    if stops > 0 && asked >= 8 { cx.nontrivial(); }
}
fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    session(cx, &mut r, 3);
}
/// asks at the moment an event arrives, many times
fn races(cx: &mut Cx) {
    cx.input("races");
    let mut r = Rng::new(5);
    for _ in 0..20 { session(cx, &mut r, 8); if cx.violated() { return; } }
    cx.nontrivial();
}
