//! What the language server tells about a name while it is written or pointed at.
use crate::fw::*;
use crate::lsp::*;
use crate::rng::Rng;
use serde_json::{Value, json};

pub static PROP: Prop = Prop {
    id: "C45",
    quick: 700,
    thorough: 20000,
    case,
    directed: &[("links", links)],
    external: true,
    case_cpu: 120,
    rule: "a case is a project made from a plan of types, inheritance, variables, procs, macros and doc comments, and a document of it in which names are used, begun and called in procs with locals and parameters of their own; the language server built from /repo opens it, and the completions offered for what was begun (names, kinds, origins, docs and text to insert), the signature and argument shown within calls, the hover text at uses and declarations are compared with the plan, names which the plan did not make up set aside; distinct by project, non-trivial with 15 answers compared",
    assumptions: &["every name is declared once among a type and its ancestors", "the docs shown on hover may be those of any definition of the name", "a name offered for a proc path may be overridden rather than declared where the path leads", "no argument is left empty", "the server runs in the project's directory if a document includes others"],
    ..DEFAULT
};

struct Var { name: String, ty: String, cnst: bool, value: Option<(String, String)>, docs: Option<String>, declared: bool, at: (usize, u32, u32) }
#[derive(Clone, Default)]
struct Value1 { params: Vec<(String, String)>, docs: Option<String>, at: (usize, u32, u32) }
struct Proc { name: String, verb: bool, declared: bool, values: Vec<Value1> }
impl Proc { fn last(&self) -> &Value1 { self.values.last().unwrap() } }
#[derive(Default)]
struct Type { path: String, parent: usize, tree: usize, docs: Option<String>, vars: Vec<Var>, procs: Vec<Proc> }
impl Type {
    fn pretty(&self) -> &str { if self.path.is_empty() { "(global)" } else { &self.path } }
    fn name(&self) -> &str { self.path.rsplit('/').next().unwrap() }
}
struct Macro { name: &'static str, params: &'static str, body: &'static str, docs: Option<String> }
#[derive(Default)]
struct Plan { types: Vec<Type>, macros: Vec<Macro>, files: Vec<String> }

const VARS: &[&str] = &["zva", "zvB", "z_vc", "Zvd", "zvp"];
const PROCS: &[&str] = &["zpa", "zpB", "z_pc", "zvp"];
const LOCALS: &[&str] = &["zla", "zlb", "zva", "Zvd"];
const PARAMS: &[&str] = &["zqa", "zqb", "zvB"];
const TYPES: &[&str] = &["zta", "ztb", "ztc", "ztd"];
const NAMES: &[&str] = &["e.dme", "defs.dm", "sub/more.dm", "probe.dm"];

fn simple(s: &str) -> String { s.chars().filter(|c| c.is_alphanumeric()).flat_map(|c| c.to_lowercase()).collect() }
fn found(name: &str, query: &str) -> bool { simple(name).contains(&simple(query)) }
fn ours(label: &str) -> bool { let s = simple(label); label.len() > 2 && ["zt", "zv", "zp", "zl", "zq", "zm"].iter().any(|p| s.starts_with(p)) }

impl Plan {
    fn chain(&self, mut t: usize, root: bool) -> Vec<usize> {
        let mut v = vec![];
        while t != 0 { v.push(t); t = self.types[t].parent; }
        if root { v.push(0); }
        v
    }
    fn field(&self, t: usize, name: &str, root: bool) -> Option<(usize, &Var)> { self.chain(t, root).into_iter().find_map(|t| Some((t, self.types[t].vars.iter().find(|v| v.name == name && v.declared)?))) }
    fn by_path(&self, p: &str) -> Option<usize> { self.types.iter().position(|t| t.path == p).filter(|&t| t != 0) }
    fn w(&mut self, f: usize, s: &str) { self.files[f] += s; }
    fn here(&self, f: usize) -> (usize, u32, u32) { let t = &self.files[f]; (f, t.matches('\n').count() as u32, (t.len() - t.rfind('\n').map_or(0, |i| i + 1)) as u32) }
    fn docs(&mut self, r: &mut Rng, f: usize, indent: &str) -> Option<String> {
        if r.chance(2, 3) { return None; }
        let d = format!("Doc {} of it.", r.below(100000));
        let t = if r.bool() { format!("{indent}/// {d}\n") } else { format!("{indent}/** {d} */\n") };
        self.w(f, &t);
        Some(d)
    }
}
fn some_ty(r: &mut Rng, paths: &[String]) -> String {
    match r.below(6) { 0 | 1 => String::new(), 2 => "list/".into(), _ => format!("{}/", &r.pick(paths)[1..]) }
}
fn some_params(r: &mut Rng, paths: &[String]) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    for _ in 0..r.below(4) { let n = r.pick(PARAMS).to_string(); if !v.iter().any(|p| p.1 == n) { v.push((some_ty(r, paths), n)); } }
    v
}
fn listed(ps: &[(String, String)]) -> String { ps.iter().map(|(t, n)| format!("{t}{n}")).collect::<Vec<_>>().join(", ") }

fn plan(r: &mut Rng) -> Plan {
    let mut p = Plan { files: vec![String::new(); 4], ..Default::default() };
    p.files[0] = "#include \"defs.dm\"\n#include \"sub\\more.dm\"\n#include \"probe.dm\"\n".into();
    p.types.push(Type::default());
    for (name, params, body) in [("ZMA", "", "5"), ("ZMB", "(x)", "(x + 1)"), ("ZMC", "(x, y...)", "list(x, y)")] {
        if r.chance(1, 3) { continue; }
        let docs = p.docs(r, 1, "");
        p.w(1, &format!("#define {name}{params} {body}\n"));
        p.macros.push(Macro { name, params, body, docs });
    }
    for _ in 0..2 + r.below(4) {
        let tree = if r.bool() { 0 } else { r.below(p.types.len()) };
        let path = format!("{}/{}", p.types[tree].path, r.pick(TYPES));
        if p.by_path(&path).is_some() { continue; }
        let parent = if r.chance(1, 4) { r.below(p.types.len()) } else { tree };
        p.types.push(Type { path, tree, parent, ..Default::default() });
    }
    let paths: Vec<String> = p.types[1..].iter().map(|t| t.path.clone()).collect();
    for t in 0..p.types.len() {
        let f = 1 + r.below(2);
        let path = p.types[t].path.clone();
        if t > 0 {
            p.types[t].docs = p.docs(r, f, "");
            p.w(f, &format!("{path}\n"));
            if p.types[t].parent != p.types[t].tree {
                let q = p.types[p.types[t].parent].path.clone();
                if q.is_empty() { p.types[t].parent = p.types[t].tree; } else { p.w(f, &format!("\tparent_type = {q}\n")); }
            }
        }
        let block = t > 0 && r.bool();
        let (indent, lead) = if block { ("\t", "") } else { ("", "/") };
        for name in VARS {
            if r.chance(1, 2) { continue; }
            // names are declared once among a type and those it inherits from
            let above = p.field(t, name, false).map(|(_, v)| v.cnst);
            let declared = above.is_none();
            if above == Some(true) { continue; }
            let docs = p.docs(r, f, indent);
            let ty = if declared { some_ty(r, &paths) } else { String::new() };
            let cnst = declared && ty.is_empty() && r.chance(1, 3);
            let value = match r.below(6) { 0 => ("\"text\"".to_owned(), "\"text\"".to_owned()), 1 => ("2 + 3".into(), "5".into()), 2 => { let q = r.pick(&paths).clone(); (q.clone(), q) }, 3 => ("null".into(), "null".into()), _ => { let n = r.below(50).to_string(); (n.clone(), n) } };
            let value = (cnst || !declared || r.bool()).then_some(value);
            let base = if block { String::new() } else { format!("{}{lead}", path) };
            let before = if declared { format!("{indent}{base}var/{}{ty}", if cnst { "const/" } else { "" }) } else { format!("{indent}{base}") };
            p.w(f, &before);
            let at = p.here(f);
            p.w(f, &format!("{name}{}\n", value.as_ref().map_or(String::new(), |v| format!(" = {}", v.0))));
            p.types[t].vars.push(Var { name: name.to_string(), ty, cnst, value, docs, declared, at });
        }
        for name in PROCS {
            if r.chance(1, 2) { continue; }
            let declared = !p.chain(t, false).into_iter().any(|x| p.types[x].procs.iter().any(|q| q.name == *name));
            let verb = declared && t > 0 && r.chance(1, 5);
            let mut values = vec![];
            for k in 0..1 + usize::from(r.chance(1, 6)) {
                let docs = p.docs(r, f, indent);
                let base = if block { String::new() } else { format!("{}{lead}", path) };
                let kind = if k > 0 || !declared { "" } else if verb { "verb/" } else { "proc/" };
                p.w(f, &format!("{indent}{base}{kind}"));
                let at = p.here(f);
                let params = some_params(r, &paths);
                p.w(f, &format!("{name}({})\n{indent}\treturn\n", listed(&params)));
                values.push(Value1 { params, docs, at });
            }
            p.types[t].procs.push(Proc { name: name.to_string(), verb, declared, values });
        }
    }
    // two types may be children of types made in the other file
    p
}

// ---------------------------------------------------------------------------
// what is expected

fn var_item(p: &Plan, t: usize, v: &Var, insert: Option<String>) -> Value {
    let mut detail = format!("on {}", p.types[t].pretty());
    if v.declared && v.cnst { let c = &v.value.as_ref().unwrap().1; detail = if t == 0 { c.clone() } else { format!("{c} - {detail}") }; }
    json!([v.name, 5, detail, v.docs, insert])
}
fn proc_item(p: &Plan, t: usize, q: &Proc, insert: Option<String>) -> Value {
    json!([q.name, if t == 0 { 3 } else { 2 }, format!("on {}", p.types[t].pretty()), q.last().docs, insert])
}
/// members of a type with those inherited
fn members(p: &Plan, chain: &[usize], query: &str, path: bool) -> Vec<Value> {
    let (mut out, mut seen) = (vec![], vec![]);
    for &t in chain {
        for v in &p.types[t].vars { if !seen.contains(&(0, &v.name)) { seen.push((0, &v.name)); if found(&v.name, query) { out.push(var_item(p, t, v, path.then(|| format!("{} = ", v.name)))); } } }
        for q in &p.types[t].procs { if !seen.contains(&(1, &q.name)) { seen.push((1, &q.name)); if found(&q.name, query) {
            let insert = if path { format!("{}({})\n\t. = ..()\n\t", q.name, listed(&q.last().params)) } else { q.name.clone() };
            out.push(proc_item(p, t, q, Some(insert)));
        } } }
    }
    out
}
fn children(p: &Plan, t: usize, query: &str) -> Vec<Value> { (1..p.types.len()).filter(|&c| p.types[c].tree == t && found(p.types[c].name(), query)).map(|c| json!([p.types[c].name(), 7, null, p.types[c].docs, null])).collect() }
fn offered(v: &Value) -> Option<Vec<Value>> {
    if v.is_null() { return Some(vec![]); }
    v.as_array()?.iter().filter(|i| i["label"].as_str().is_some_and(ours)).map(|i| {
        let docs = &i["documentation"];
        if !docs.is_null() && docs["kind"] != "markdown" { return None; }
        Some(json!([i["label"], i["kind"], i["detail"], docs["value"].as_str().map(str::trim), i["insertText"]]))
    }).collect()
}
fn sorted(mut v: Vec<Value>) -> Vec<String> { v.sort_by_key(|x| x.to_string()); v.into_iter().map(|x| x.to_string()).collect() }

#[derive(Debug)]
enum Want { Items(Vec<Value>, Vec<Value>), Signature(Option<(String, Vec<(String, usize, usize)>, usize)>), Hover(Vec<String>, Vec<String>) }
struct Probe { at: (u32, u32), want: Want, what: &'static str }

struct Scope { t: usize, locals: Vec<(String, String)>, params: Vec<(String, String)> }
impl Scope {
    /// the type of a variable with a name, None when it has none
    fn of(&self, p: &Plan, name: &str) -> Option<usize> {
        let ty = match self.locals.iter().rev().find(|l| l.0 == name) { Some(l) => l.1.clone(), None => match self.params.iter().find(|q| q.1 == name) { Some(q) => q.0.clone(), None => p.field(self.t, name, true)?.1.ty.clone() } };
        p.by_path(&format!("/{}", ty.strip_suffix('/')?))
    }
    fn shadowed(&self, name: &str) -> bool { self.locals.iter().any(|l| l.0 == name) || self.params.iter().any(|q| q.1 == name) }
}
fn unscoped(p: &Plan, s: &Scope, query: &str) -> Vec<Value> {
    let mut v = members(p, &p.chain(s.t, true), query, false);
    for i in &mut v { if i[1] == 5 { i[4] = Value::Null; } }
    for (n, _) in &s.locals { if found(n, query) { v.push(json!([n, 6, "(local)", null, null])); } }
    for (_, n) in &s.params { if found(n, query) { v.push(json!([n, 6, "(parameter)", null, null])); } }
    for m in &p.macros { if found(m.name, query) { v.push(json!([m.name, 21, format!("#define {}{} {}", m.name, m.params, m.body), m.docs, null])); } }
    v
}
fn scoped(p: &Plan, chain: &[usize], query: &str) -> Vec<Value> { members(p, chain, query, false) }

fn link(dir: &str, p: (usize, u32, u32)) -> String { format!("file://{dir}/{}#{}", NAMES[p.0], p.1 + 1) }
fn var_hover(p: &Plan, dir: &str, chain: &[usize], name: &str) -> (Vec<String>, Vec<String>) {
    let mut docs = vec![];
    for &t in chain { if let Some(v) = p.types[t].vars.iter().find(|v| v.name == name) {
        docs.extend(v.docs.clone());
        if v.declared { return (vec![format!("[{}]({})\n```dm\nvar/{}{}{name}\n```", p.types[t].pretty(), link(dir, v.at), if v.cnst { "const/" } else { "" }, v.ty)], docs); }
    } }
    (vec![], vec![])
}
fn proc_hover(p: &Plan, dir: &str, chain: &[usize], name: &str) -> (Vec<String>, Vec<String>) {
    let (mut docs, mut head) = (vec![], None);
    for &t in chain { if let Some(q) = p.types[t].procs.iter().find(|q| q.name == name) {
        docs.extend(q.last().docs.clone());
        let (link, text) = head.get_or_insert_with(|| (format!("[{}]({})", p.types[t].pretty(), link(dir, q.last().at)), format!("{name}({})", listed(&q.last().params))));
        if q.declared { return (vec![format!("{link}\n```dm\n{}/{text}\n```", if q.verb { "verb" } else { "proc" })], docs); }
    } }
    (vec![], vec![])
}
fn var_declared(p: &Plan, dir: &str, t: usize, name: &str) -> (Vec<String>, Vec<String>) {
    let (mut docs, mut parts) = (vec![], vec![]);
    for t in p.chain(t, true) { if let Some(v) = p.types[t].vars.iter().find(|v| v.name == name) {
        docs.extend(v.docs.clone());
        parts.insert(0, format!("[{}]({}){}", p.types[t].pretty(), link(dir, v.at), if t > 0 || v.cnst { format!("\n```dm\n= {}\n```", v.value.as_ref().map_or("null", |c| &c.1)) } else { String::new() }));
        if v.declared { parts.insert(0, format!("```dm\nvar/{}{}{name}\n```", if v.cnst { "const/" } else { "" }, v.ty)); break; }
    } }
    (vec![parts.join("\n\n")], docs)
}
fn proc_declared(p: &Plan, dir: &str, t: usize, name: &str) -> (Vec<String>, Vec<String>) {
    let (mut docs, mut parts) = (vec![], vec![]);
    for t in p.chain(t, true) { if let Some(q) = p.types[t].procs.iter().find(|q| q.name == name) {
        docs.extend(q.last().docs.clone());
        parts.insert(0, format!("[{}]({})  \n```dm\n{name}({})\n```", p.types[t].pretty(), link(dir, q.last().at), listed(&q.last().params)));
        if q.declared { parts.insert(0, format!("```dm\n{}/{name}\n```", if q.verb { "verb" } else { "proc" })); break; }
    } }
    (vec![parts.join("\n\n")], docs)
}
fn signature(p: &Plan, chain: &[usize], name: &str, arg: usize) -> Want {
    for &t in chain { if let Some(q) = p.types[t].procs.iter().find(|q| q.name == name) {
        let mut label = format!("{}/{name}(", p.types[t].path);
        let mut spans = vec![];
        for (i, (ty, n)) in q.last().params.iter().enumerate() { if i > 0 { label += ", "; } label += ty; spans.push((n.clone(), label.len(), label.len() + n.len())); label += n; }
        return Want::Signature(Some((label + ")", spans, arg)));
    } }
    Want::Signature(None)
}

const QUERIES: &[&str] = &["z", "zv", "zva", "zVb", "vb", "z_v", "zp", "zpa", "pc", "z_p_b", "zl", "zq", "b", "c", "ZVD", "zm", "ZM", "zma", "unseen"];

struct Writer<'a> { p: &'a mut Plan, r: &'a mut Rng, dir: String, probes: Vec<Probe>, n: usize, paths: Vec<String> }
impl Writer<'_> {
    fn w(&mut self, s: &str) { self.p.w(3, s); }
    fn here(&self) -> (u32, u32) { let (_, l, c) = self.p.here(3); (l, c) }
    fn within(&mut self, word: &str) -> (u32, u32) { let (l, c) = self.here(); (l, c + 1 + self.r.below(word.len()) as u32) }
    fn probe(&mut self, at: (u32, u32), want: Want, what: &'static str) { self.probes.push(Probe { at, want, what }); }
    /// the head of a proc to write in
    fn head(&mut self, on_disk: bool) -> Scope {
        let t = self.r.below(self.p.types.len());
        // parameters are those of the project as last loaded
        let params = if on_disk { some_params(self.r, &self.paths) } else { vec![] };
        self.n += 1;
        let path = self.p.types[t].path.clone();
        self.w(&format!("{path}/proc/k{}({})\n", self.n, listed(&params)));
        let mut locals: Vec<(String, String)> = vec![];
        for _ in 0..self.r.below(3) {
            let n = self.r.pick(LOCALS).to_string();
            if params.iter().any(|q| q.1 == n) || locals.iter().any(|l| l.0 == n) { continue; }
            let ty = some_ty(self.r, &self.paths);
            self.w(&format!("\tvar/{ty}{n}\n"));
            locals.push((n, ty));
        }
        if self.r.chance(1, 5) {
            // a block whose locals are gone after it
            self.w("\tif(1)\n\t\tvar/zlc = 1\n\t\tworld.log << zlc\n\tworld.log << 2\n");
        }
        Scope { t, locals, params }
    }
    /// `a.b.` and the types whose members follow
    fn base(&mut self, s: &Scope) -> (String, Vec<usize>) {
        let mut first = match self.r.below(6) { 0 => "src".to_owned(), 1 => "global".to_owned(), _ => { let names: Vec<&str> = LOCALS.iter().chain(PARAMS).chain(VARS).copied().collect(); let mut n = *self.r.pick(&names); for _ in 0..6 { if s.of(self.p, n).is_some() { break; } n = *self.r.pick(&names); } n.to_owned() } };
        if s.t == 0 && first == "src" { first = "global".into(); }
        let mut at = match first.as_str() { "src" => Some(s.t), "global" => return ("global.".into(), vec![0]), n => s.of(self.p, n) };
        let mut text = first + ".";
        while self.r.chance(1, 3) {
            let Some(t) = at else { break };
            let n = *self.r.pick(VARS);
            let Some((_, v)) = self.p.field(t, n, false) else { break };
            at = v.ty.strip_suffix('/').and_then(|q| self.p.by_path(&format!("/{q}")));
            text += &format!("{n}.");
        }
        (text, at.map_or(vec![], |t| self.p.chain(t, false)))
    }
    /// a call of something, with the probes for it
    fn call(&mut self, s: &Scope, depth: usize) {
        let name = self.r.pick(PROCS).to_string();
        let (base, chain) = if self.r.bool() { (String::new(), self.p.chain(s.t, true)) } else { self.base(s) };
        self.w(&base);
        let at = self.within(&name[..2]);
        let (h, d) = proc_hover(self.p, &self.dir.clone(), &chain, &name);
        self.probe(at, Want::Hover(h, d), "hover at a call");
        self.w(&name);
        self.w("(");
        let args = self.r.below(4);
        if args == 0 { let at = self.here(); let want = signature(self.p, &chain, &name, 0); self.probe(at, want, "signature without arguments"); }
        for i in 0..args {
            if i > 0 { self.w(", "); }
            if depth < 3 && self.r.chance(1, 3) { self.call(s, depth + 1); continue; }
            let word = *self.r.pick(&["12345", "\"text\"", "unseen", "zla", "zvB"]);
            let at = self.within(&word[..word.len() - 1]);
            let want = signature(self.p, &chain, &name, i);
            self.probe(at, want, if depth > 0 { "signature in a call within a call" } else { "signature" });
            self.w(word);
        }
        self.w(")");
    }
    fn usage(&mut self) {
        let s = self.head(true);
        self.w("\t");
        match self.r.below(3) {
            0 => {
                let name = self.r.pick(VARS).to_string();
                let (base, chain) = self.base(&s);
                self.w(&base);
                let at = self.within(&name[..2]);
                let (h, d) = var_hover(self.p, &self.dir.clone(), &chain, &name);
                self.probe(at, Want::Hover(h, d), "hover at a member");
                self.w(&format!("{name} = 1\n"));
            },
            1 => {
                let name = self.r.pick(VARS).to_string();
                let at = self.within(&name[..2]);
                let chain = self.p.chain(s.t, true);
                let (h, d) = if s.shadowed(&name) { (vec![], vec![]) } else { var_hover(self.p, &self.dir.clone(), &chain, &name) };
                self.probe(at, Want::Hover(h, d), "hover at a name");
                self.w(&format!("{name} = 1\n"));
            },
            _ => { self.call(&s, 0); self.w("\n"); },
        }
        if self.r.bool() { self.w("\treturn\n"); }
    }
    fn completion(&mut self) {
        let s = self.head(true);
        self.w("\t");
        let query = self.r.pick(QUERIES).to_string();
        let mut query = query;
        if self.p.macros.iter().any(|m| m.name == query) { query = "zm".into(); }
        let call = if self.r.chance(1, 3) { "()" } else { " = 1" };
        match self.r.below(5) {
            0 | 1 => {
                let (base, chain) = self.base(&s);
                self.w(&base);
                let at = self.within(&query);
                let mut v = scoped(self.p, &chain, &query);
                for i in &mut v { if i[1] == 5 { i[4] = Value::Null; } }
                self.probe(at, Want::Items(v, vec![]), "completion of a member");
                self.w(&format!("{query}{call}\n"));
            },
            2 => {
                let at = self.within(&query);
                let v = unscoped(self.p, &s, &query);
                self.probe(at, Want::Items(v, vec![]), "completion of a name");
                self.w(&format!("{query}{call}\n"));
            },
            3 => {
                // a type path
                let t = self.r.below(self.p.types.len());
                let mut q = *self.r.pick(&["zt", "z", "b", "ta", "ztc", "unseen"]);
                if self.p.by_path(&format!("{}/{q}", self.p.types[t].path)).is_some() { q = "zt"; }
                let path = self.p.types[t].path.clone();
                self.w(&format!("world.log << {path}/"));
                let at = self.within(q);
                let v = children(self.p, t, q);
                self.probe(at, Want::Items(v, vec![]), "completion of a type path");
                self.w(&format!("{q}\n"));
            },
            _ => {
                let t = 1 + self.r.below(self.p.types.len() - 1);
                let verb = self.r.chance(1, 3);
                let q = *self.r.pick(&["zp", "z", "c", "unseen", "pb"]);
                let path = self.p.types[t].path.clone();
                self.w(&format!("world.log << {path}/{}/", if verb { "verb" } else { "proc" }));
                let at = self.within(q);
                let (mut must, mut may, mut seen) = (vec![], vec![], vec![]);
                for t in self.p.chain(t, false) { for x in &self.p.types[t].procs {
                    if found(&x.name, q) { let i = proc_item(self.p, t, x, None); if x.declared && x.verb == verb && !seen.contains(&&x.name) { must.push(i); } else { may.push(i); } }
                    seen.push(&x.name);
                } }
                let hidden: Vec<Value> = may.iter().map(|i: &Value| i[0].clone()).collect();
                must.retain(|i| if hidden.contains(&i[0]) { may.push(i.clone()); false } else { true });
                self.probe(at, Want::Items(must, may), "completion of a proc path");
                self.w(&format!("{q}\n"));
            },
        }
        if self.r.bool() { self.w("\treturn\n"); }
    }
    /// an end for the document which is not on disk, and what to offer at its end
    fn tail(&mut self) {
        let t = self.r.below(self.p.types.len());
        let path = self.p.types[t].path.clone();
        let at = |w: &Self| w.here();
        match self.r.below(6) {
            0 => {
                let s = self.head(false);
                let (base, chain) = self.base(&s);
                self.w(&format!("\t{base}"));
                let at = at(self);
                let mut v = scoped(self.p, &chain, "");
                for i in &mut v { if i[1] == 5 { i[4] = Value::Null; } }
                self.probe(at, Want::Items(v, vec![]), "completion after a dot");
            },
            1 => {
                let s = Scope { t, locals: vec![("zlb".into(), String::new())], params: vec![] };
                self.n += 1;
                self.w(&format!("{path}/proc/k{}()\n\tvar/zlb\n\tworld.log << 1\n\t", self.n));
                let at = at(self);
                self.w("\n\tworld.log << 2\n");
                let v = unscoped(self.p, &s, "");
                self.probe(at, Want::Items(v, vec![]), "completion of nothing in a proc");
            },
            k => {
                let q = *self.r.pick(&["z", "zt", "zv", "zp", "b", "unseen", "ztc", "pc"]);
                if t > 0 && k == 2 { self.w(&format!("{path}\n\t")); } else { self.w(&format!("{path}/")); }
                let (at, q) = if k == 5 && t > 0 { let a = at(self); self.w("\n"); (a, "") } else { let a = self.within(q); self.w(&format!("{q}\n")); (a, q) };
                let mut v = children(self.p, t, q);
                if t > 0 { v.extend(members(self.p, &self.p.chain(t, false), q, true)); }
                self.probe(at, Want::Items(v, vec![]), "completion of a declaration");
            },
        }
    }
}

fn differs(s: &mut Lsp, uri: &str, pr: &Probe, offsets: bool) -> Option<String> {
    let method = match pr.want { Want::Items(..) => "completion", Want::Signature(_) => "signatureHelp", Want::Hover(..) => "hover" };
    let Some(got) = s.ask(&format!("textDocument/{method}"), super::super::lsp::at(uri, pr.at.0, pr.at.1)) else { return Some(format!("no answer\n{}", s.stderr())) };
    if !got["error"].is_null() { return Some(format!("{got}")); }
    match &pr.want {
        Want::Items(must, may) => {
            let Some(mut items) = offered(&got) else { return Some(format!("not a list of items: {got}")) };
            for i in &mut items { if i[1] == 21 { let d = i[2].as_str().unwrap_or("").split_whitespace().collect::<Vec<_>>().join(" "); i[2] = json!(d); } }
            let keep: Vec<Value> = items.iter().filter(|i| must.contains(i) || !may.contains(i)).cloned().collect();
            if sorted(keep) != sorted(must.clone()) { return Some(format!("offered {:#?}\ninstead of {:#?}", sorted(items), sorted(must.clone()))); }
        },
        Want::Signature(None) => if !got.is_null() { return Some(format!("shown {got} where nothing known is called")); },
        Want::Signature(Some((label, spans, arg))) => {
            let g = &got["signatures"][0];
            let params: Vec<Value> = spans.iter().map(|(n, a, b)| if offsets { json!([a, b]) } else { json!(n) }).collect();
            let shown: Vec<Value> = g["parameters"].as_array().into_iter().flatten().map(|x| x["label"].clone()).collect();
            if g["label"] != json!(label) || shown != params || got["activeParameter"] != json!(arg) || got["signatures"].as_array().map_or(0, Vec::len) != 1 { return Some(format!("shown {got}\ninstead of {label} {params:?} at {arg}")); }
        },
        Want::Hover(want, docs) => {
            let list: Vec<String> = got["contents"].as_array().into_iter().flatten().filter_map(|x| Some(x.as_str()?.trim().to_owned())).filter(|x| x.starts_with('[') || x.starts_with('`') || x.starts_with("Doc")).collect();
            let (d, rest): (Vec<String>, Vec<String>) = list.into_iter().partition(|x| x.starts_with("Doc"));
            if rest != *want { return Some(format!("shown {rest:#?}\ninstead of {want:#?}")); }
            if d.len() != usize::from(!docs.is_empty()) || d.iter().any(|x| !docs.contains(x)) { return Some(format!("docs shown {d:?}, those there are {docs:?}")); }
        },
    }
    None
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let dir = cx.dir("lsp");
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let mut p = plan(&mut r);
    let paths: Vec<String> = p.types[1..].iter().map(|t| t.path.clone()).collect();
    let d = dir.display().to_string();
    let n = 6 + r.below(14);
    let mut w = Writer { p: &mut p, r: &mut r, dir: d.clone(), probes: vec![], n: 0, paths };
    for _ in 0..n { if w.r.bool() { w.usage() } else { w.completion() } }
    // macros are told by their docs
    let mut used: Vec<(Probe, String)> = vec![];
    for i in 0..w.p.macros.len() {
        let (name, params, docs) = (w.p.macros[i].name, w.p.macros[i].params, w.p.macros[i].docs.clone());
        w.n += 1;
        let n = w.n;
        w.w(&format!("/proc/k{n}()\n\tworld.log << "));
        let at = w.within(&name[..2]);
        used.push((Probe { at, want: Want::Hover(vec![], docs.into_iter().collect()), what: "hover at a macro" }, String::new()));
        w.w(&format!("{name}{}\n", match params { "" => "", "(x)" => "(1)", _ => "(1, 2)" }));
    }
    w.probes.extend(used.into_iter().map(|u| u.0));
    let probes = std::mem::take(&mut w.probes);
    let disk = w.p.files[3].clone();
    let mut tails = vec![];
    for _ in 0..6 { w.p.files[3] = disk.clone(); w.tail(); tails.push((w.p.files[3].clone(), std::mem::take(&mut w.probes))); }
    p.files[3] = disk.clone();
    for (n, t) in NAMES.iter().zip(&p.files) { std::fs::write(dir.join(n), t).unwrap(); }
    let told = NAMES.iter().zip(&p.files).map(|(n, t)| format!("---- {n}\n{t}")).collect::<String>();
    cx.input(&told);
    let offsets = r.bool();
    let caps = json!({"textDocument": {"signatureHelp": {"signatureInformation": {"parameterInformation": {"labelOffsetSupport": offsets}}}}});
    let mut s = Lsp::session(&dir, Some(&format!("file://{d}")), caps);
    let uri = format!("file://{d}/probe.dm");
    let mut compared = 0;
    s.open(&uri, 1, &disk);
    for pr in &probes {
        if let Some(x) = differs(&mut s, &uri, pr, offsets) { cx.violate(pr.what, format!("{} at {:?}: {x}\n{told}", pr.what, (pr.at.0 + 1, pr.at.1 + 1))); return; }
        cx.count(pr.what, 1);
        compared += 1;
    }
    for (i, (text, probes)) in tails.iter().enumerate() {
        s.change(&uri, 2 + i as i64, json!([{"text": text}]));
        for pr in probes {
            if let Some(x) = differs(&mut s, &uri, pr, offsets) { cx.violate(pr.what, format!("{} at {:?}: {x}\n{told}\n---- and at the end of probe.dm\n{}", pr.what, (pr.at.0 + 1, pr.at.1 + 1), text.strip_prefix(&disk).unwrap_or(text))); return; }
            cx.count(pr.what, 1);
            compared += 1;
        }
    }
    // declarations
    for f in 1..3 {
        let uri = format!("file://{d}/{}", NAMES[f]);
        s.open(&uri, 1, &p.files[f]);
        for t in 0..p.types.len() {
            let mut list = vec![];
            for v in &p.types[t].vars { if v.at.0 == f { list.push((v.at, var_declared(&p, &d, t, &v.name), "hover at a variable's definition")); } }
            for q in &p.types[t].procs { for v in &q.values { if v.at.0 == f { list.push((v.at, proc_declared(&p, &d, t, &q.name), "hover at a proc's definition")); } } }
            for (at, (h, docs), what) in list {
                let pr = Probe { at: (at.1, at.2 + 1), want: Want::Hover(h, docs), what };
                if let Some(x) = differs(&mut s, &uri, &pr, offsets) { cx.violate(what, format!("{what} at {:?} of {}: {x}\n{told}", (at.1 + 1, at.2 + 1), NAMES[f])); return; }
                cx.count(what, 1);
                compared += 1;
            }
        }
    }
    cx.count("answers compared", compared);
    if compared >= 15 { cx.nontrivial(); }
}

/// links of files included and of resources
fn links(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    for k in 0..12 {
        let dir = cx.dir(&format!("links{k}"));
        let other = cx.dir("elsewhere");
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        let (mut want, mut included) = (vec![], false);
        let mut text = String::new();
        let mut line = 0;
        for _ in 0..1 + r.below(8) {
            match r.below(4) {
                0 => { included = true; let f = format!("i{line}.dm"); std::fs::write(dir.join("sub").join(&f), "\n").unwrap(); text += &format!("#include \"{f}\"\n"); want.push(json!([line, 9, 11 + f.len(), format!("file://{}/sub/{f}", dir.display())])); line += 1; },
                1 => { text += "\n"; line += 1; },
                _ => { let f = *r.pick(&["icons/a.dmi", "b.png", "sub/sound.ogg"]); let head = format!("/var/v{line} = "); text += &format!("{head}'{f}'\n"); want.push(json!([line, head.len(), head.len() + 2 + f.len(), format!("file://{}/{f}", dir.display())])); line += 1; },
            }
        }
        std::fs::write(dir.join("e.dme"), "#include \"sub/doc.dm\"\n").unwrap();
        std::fs::write(dir.join("sub/doc.dm"), &text).unwrap();
        let cwd = if included || r.bool() { dir.clone() } else { other };
        let mut s = Lsp::session(&cwd, Some(&format!("file://{}", dir.display())), json!({}));
        let uri = format!("file://{}/sub/doc.dm", dir.display());
        s.open(&uri, 1, &text);
        let Some(got) = s.ask("textDocument/documentLink", doc(&uri)) else { cx.violate("no answer", s.stderr()); return };
        let got: Vec<Value> = got.as_array().into_iter().flatten().map(|l| json!([l["range"]["start"]["line"], l["range"]["start"]["character"], l["range"]["end"]["character"], l["target"]])).collect();
        if sorted(got.clone()) != sorted(want.clone()) { cx.violate("links", format!("run in {}: {:#?}\ninstead of {:#?}\n{text}", cwd.display(), sorted(got), sorted(want))); return; }
        cx.count("documents with links", 1);
        cx.input(&text);
    }
    cx.nontrivial();
}
