//! Declarations keep what was written, however they are nested.
use crate::dm_util::*;
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use dm::Severity;
use dm::ast::{InputType, ProcDeclKind, ProcFlags, ProcReturnType, VarTypeFlags};
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "C43",
    quick: 60000,
    thorough: 900000,
    case,
    directed: &[("every pair of flags, split everywhere", flags)],
    rule: "a case is a set of variable, proc and verb declarations of the generator's own model, written three times with paths cut into nested blocks (indented, in braces over several lines, in braces on one line), and what the real object tree says of each one is compared with the model: flags, type, dimensions, initial value, input types, parameters, kind, return type, definitions and line; some procs' bodies do not parse; distinct by text, non-trivial with three declarations or more and a nested block",
    assumptions: &["names of variables and procs are not flags, type keywords or reserved words"],
    ..DEFAULT
};

#[derive(Clone, Debug)]
enum Tail { Var(Var), Proc(Proc), Type }
#[derive(Clone, Debug, Default)]
struct Var { flags: u8, path: Vec<String>, dims: Vec<&'static str>, init: Option<&'static str>, input: Option<(String, u32)>, list: Option<&'static str> }
#[derive(Clone, Debug)]
struct Proc { declared: bool, verb: bool, last: bool, params: Vec<(String, Var)>, ret: Ret, body: usize }
#[derive(Clone, Debug)]
enum Ret { No, Input(String, u32), Path(Vec<String>) }
#[derive(Clone, Debug)]
struct Item { ty: Vec<String>, segs: Vec<String>, name: String, tail: Tail }

const TYPES: &[&[&str]] = &[&[], &["obj", "a"], &["obj", "a", "b"], &["datum", "d"], &["turf", "t"], &["mob", "m"], &["obj", "a", "c", "d"]];
const FLAGS: &[(&str, u8)] = &[("tmp", 1), ("const", 2), ("static", 4), ("global", 4), ("final", 8), ("SpacemanDMM_final", 8), ("SpacemanDMM_private", 16), ("SpacemanDMM_protected", 32)];
const VALUES: &[&str] = &["1", "-2", "\"s\"", "null", "list(1, 2)", "list(\"a\" = 1)", "'i.dmi'", "/obj/a", "1 + 2 * 3", "(1 << 4) | 2", "\"x\" + \"y\"", "1 ? 2 : 3", "list(list(1), 2)", "new /datum/d", "/obj/a{name = \"q\"}"];
const INPUTS: &[(&str, u32)] = &[("mob", 1), ("obj", 2), ("text", 4), ("num", 8), ("file", 16), ("turf", 32), ("key", 64), ("null", 128), ("area", 256), ("icon", 512), ("sound", 1024), ("message", 2048), ("anything", 4096)];
const OPERATORS: &[&str] = &["%", "%=", "%%", "%%=", "&", "&=", "*", "**", "*=", "/", "/=", "+", "++", "+=", "-", "--", "-=", "<", "<<", "<<=", "<=", "<=>", ">", ">=", ">>", ">>=", "^", "^=", "|", "|=", "~", "~=", ":=", "[]", "[]=", "\"\""];
const BODIES: usize = 7;

fn mask(f: VarTypeFlags) -> u8 {
    [(VarTypeFlags::TMP, 1), (VarTypeFlags::CONST, 2), (VarTypeFlags::STATIC, 4), (VarTypeFlags::FINAL, 8), (VarTypeFlags::PRIVATE, 16), (VarTypeFlags::PROTECTED, 32)].iter().filter(|(k, _)| f.contains(*k)).map(|k| k.1).sum()
}
fn bits(t: InputType) -> u32 {
    [InputType::MOB, InputType::OBJ, InputType::TEXT, InputType::NUM, InputType::FILE, InputType::TURF, InputType::KEY, InputType::NULL, InputType::AREA, InputType::ICON, InputType::SOUND, InputType::MESSAGE, InputType::ANYTHING]
        .iter().enumerate().filter(|(_, k)| t.contains(**k)).map(|(i, _)| 1u32 << i).sum()
}
fn input(r: &mut Rng) -> (String, u32) {
    let mut names = vec![];
    let mut b = 0;
    for _ in 0..1 + r.below(3) { let (n, k) = *r.pick(INPUTS); if b & k == 0 { names.push(n); b |= k; } }
    let sep = *r.pick(&["|", " | "]);
    (names.join(sep), b)
}
fn type_path(r: &mut Rng) -> Vec<String> {
    let p: &[&str] = match r.below(7) { 0 | 1 => &[], 2 => &["list"], 3 => &["obj", "a"], 4 => &["mob"], 5 => &["datum", "d"], _ => &["list", "obj", "a"] };
    p.iter().map(|s| (*s).to_owned()).collect()
}
fn var(r: &mut Rng, param: bool) -> Var {
    let dims = if r.chance(1, 6) { (0..1 + r.below(3)).map(|_| *r.pick(&["", "", "5", "2"])).collect() } else { vec![] };
    let init = if r.chance(3, 5) { Some(*r.pick(VALUES)) } else { None };
    let input = r.chance(1, 5).then(|| input(r));
    // `= value in list` is one expression
    let list = (param && (init.is_none() || input.is_some()) && r.chance(1, 6)).then(|| *r.pick(&["list(1, 2)", "view(1)", "world"]));
    Var { flags: 0, path: type_path(r), dims, init, input, list }
}
/// the segments saying so
fn flag_segs(r: &mut Rng, n: usize) -> (Vec<String>, u8) {
    let mut out = vec![];
    let mut m = 0;
    for _ in 0..n { let (s, k) = *r.pick(FLAGS); out.push(s.to_owned()); m |= k; }
    (out, m)
}

fn items(r: &mut Rng, n: usize) -> Vec<Item> {
    let mut out: Vec<Item> = vec![];
    let mut declared: BTreeSet<(String, String)> = BTreeSet::new();
    let mut k = 0;
    while out.len() < n {
        let ty: Vec<String> = r.pick(TYPES).iter().map(|s| (*s).to_owned()).collect();
        for _ in 0..1 + r.below(4) {
            k += 1;
            let mut segs = ty.clone();
            match r.below(10) {
                0 if !ty.is_empty() => {
                    let name = format!("sub{k}");
                    out.push(Item { ty: ty.clone(), segs: [segs, vec![name.clone()]].concat(), name, tail: Tail::Type });
                },
                0..=5 => {
                    let mut v = var(r, false);
                    let n = [0, 0, 0, 1, 1, 2, 3][r.below(7)];
                    let (f, m) = flag_segs(r, n);
                    v.flags = m;
                    segs.push("var".into());
                    segs.extend(f);
                    segs.extend(v.path.clone());
                    let name = format!("v{k}");
                    segs.push(name.clone());
                    out.push(Item { ty: ty.clone(), segs, name, tail: Tail::Var(v) });
                },
                c => {
                    // global procs are not defined twice
                    let name = if ty.is_empty() { format!("g{k}") } else if r.chance(1, 6) { format!("operator{}", r.pick(OPERATORS)) } else { format!("p{}", r.below(6)) };
                    let fresh = declared.insert((ty.join("/"), name.clone()));
                    let verb = c == 9;
                    let last = fresh && r.chance(1, 5);
                    if fresh {
                        segs.push(if verb { "verb" } else { "proc" }.into());
                        if last { segs.push("final".into()); }
                    }
                    segs.push(name.clone());
                    let params = (0..[0, 0, 1, 2, 3][r.below(5)]).map(|i| {
                        let mut v = var(r, true);
                        if r.chance(1, 8) { let (f, m) = (*r.pick(&["tmp", "const", "final"]), 0); let _ = m; v.flags = FLAGS.iter().find(|x| x.0 == f).unwrap().1; }
                        if r.chance(1, 10) { ("...".to_owned(), Var::default()) } else { (format!("a{i}"), v) }
                    }).collect();
                    let ret = if !fresh { Ret::No } else { match r.below(6) { 0 => { let (t, b) = input(r); Ret::Input(t, b) }, 1 => { let p = ["datum", "d"]; Ret::Path(p.iter().map(|s| (*s).to_owned()).collect()) }, _ => Ret::No } };
                    out.push(Item { ty: ty.clone(), segs, name, tail: Tail::Proc(Proc { declared: fresh, verb, last, params, ret, body: if r.chance(1, 14) { BODIES } else { r.below(BODIES) } }) });
                },
            }
        }
    }
    out
}

struct Emit<'a> { r: &'a mut Rng, items: &'a [Item], out: String, line: u32, lines: BTreeMap<usize, u32>, nested: usize, style: usize }
impl Emit<'_> {
    fn put(&mut self, s: &str) { self.line += s.matches('\n').count() as u32; self.out += s; }
    fn var_text(&mut self, v: &Var) -> String {
        let sp = *self.r.pick(&["", " "]);
        let mut t: String = v.dims.iter().map(|d| format!("[{d}]")).collect();
        if let Some(i) = v.init { t += &format!("{sp}={sp}{i}"); }
        if let Some((i, _)) = &v.input { t += &format!(" as {i}"); }
        if let Some(l) = v.list { t += &format!(" in {l}"); }
        t
    }
    fn params(&mut self, p: &Proc) -> String {
        let mut list = vec![];
        for (n, v) in &p.params {
            let mut t = String::new();
            if n != "..." && self.r.chance(1, 8) { t += "var/"; } else if n != "..." && !v.path.is_empty() && v.flags == 0 && self.r.chance(1, 8) { t += "/"; }
            for (f, k) in FLAGS { if v.flags & k != 0 && (*f == "tmp" || *f == "const" || *f == "final") { t += f; t += "/"; } }
            for s in &v.path { t += s; t += "/"; }
            t += n;
            t += &self.var_text(v);
            list.push(t);
        }
        let sep = *self.r.pick(&[", ", ",", ",\\\n\t\t"]);
        list.join(sep)
    }
    /// `inline`: on one line, between braces
    fn leaf(&mut self, id: usize, from: usize, ind: usize, inline: bool, lead: &str) {
        let it = self.items[id].clone();
        let head = format!("{lead}{}", it.segs[from..].join("/"));
        self.put(&head);
        self.lines.insert(id, self.line);
        match &it.tail {
            Tail::Type => self.put(if inline { "; " } else { "\n" }),
            Tail::Var(v) => { let t = self.var_text(v); self.put(&t); self.put(if inline { "; " } else { "\n" }); },
            Tail::Proc(p) => {
                let args = if inline { self.params(p).replace("\\\n\t\t", "") } else { self.params(p) };
                self.put(&format!("({args})"));
                match &p.ret { Ret::No => {}, Ret::Input(t, _) => self.put(&format!(" as {t}")), Ret::Path(t) => self.put(&format!(" as /{}", t.join("/"))) }
                let tabs = "\t".repeat(ind + 1);
                let b = match (p.body, inline) {
                    (BODIES, true) => "{ x = = 3 } ".to_owned(),
                    (BODIES, false) => match self.r.below(3) { 0 => " { x = = 3 }\n".into(), 1 => format!("\n{tabs}x = = 3\n{tabs}return 2\n"), _ => format!("\n{tabs}if(1)\n{tabs}\treturn )\n").replace("return )", "return *") },
                    (0, true) => "; ".into(),
                    (_, true) => "{ return 1 } ".into(),
                    (0, false) => "\n".into(),
                    (1, false) => " return 1\n".into(),
                    (2, false) => " { return 1 }\n".into(),
                    (3, false) => format!("\n{tabs}return 1\n"),
                    (4, false) => format!("\n\n{tabs}if(1) // c\n{tabs}\treturn 2\n\n{tabs}return 1\n"),
                    (5, false) => format!(" {{\n{tabs}return 1;\n}}\n"),
                    _ => format!(" // c\n{tabs}var/list/z = list(1)\n{tabs}for(var/i in z)\n{tabs}\tz += i\n"),
                };
                self.put(&b);
            },
        }
    }
    fn run(&mut self, ids: &[usize], from: usize, ind: usize, inline: bool) {
        let mut i = 0;
        while i < ids.len() {
            let segs = &self.items[ids[i]].segs;
            let n = segs.len() - from;
            let top = ind == 0 && !inline;
            if !inline { let t = "\t".repeat(ind); if self.r.chance(1, 12) { self.put("\n"); } if self.r.chance(1, 14) { self.put(&format!("{t}// c\n")); } self.put(&t); }
            let lead = if top && self.r.chance(3, 4) { "/" } else { "" };
            let k = if self.r.chance(2, 5) { n } else { 1 + self.r.below(n) };
            if k == n { self.leaf(ids[i], from, ind, inline, lead); i += 1; continue; }
            let head = segs[from..from + k].to_vec();
            let whole = segs[..from + k].to_vec();
            let mut len = ids[i..].iter().take_while(|j| { let s = &self.items[**j].segs; s.len() > whole.len() && s[..whole.len()] == whole[..] }).count();
            if self.r.bool() { len = 1 + self.r.below(len); }
            self.nested += 1;
            self.put(&format!("{lead}{}", head.join("/")));
            let sub = ids[i..i + len].to_vec();
            match if inline { 2 } else if self.style == 0 { 0 } else { self.r.below(3) } {
                0 => { self.put("\n"); self.run(&sub, from + k, ind + 1, false); },
                1 => { self.put(*self.r.clone().pick(&[" {\n", "{\n"])); self.run(&sub, from + k, ind + 1, false); let t = "\t".repeat(ind); self.put(&format!("{t}}}\n")); },
                _ => { self.put(" { "); self.run(&sub, from + k, ind + 1, true); self.put(if inline { "} " } else { "}\n" }); },
            }
            i += len;
        }
    }
}

fn want_var(v: &Var) -> (u8, String) {
    let mut p = v.path.clone();
    if !v.dims.is_empty() { p.insert(0, "list".into()); }
    (v.flags, p.join("/"))
}
thread_local! { static SX: std::cell::RefCell<BTreeMap<String, String>> = Default::default(); }
/// the tree of an expression, parsed on its own
fn tree_of(text: &str) -> String {
    if let Some(s) = SX.with(|m| m.borrow().get(text).cloned()) { return s; }
    let p = parse_text(&format!("/var/x = {text}\n"));
    let s = p.tree.root().get().vars.get("x").and_then(|v| v.value.expression.as_ref()).map_or("?".into(), sx);
    SX.with(|m| m.borrow_mut().insert(text.into(), s.clone()));
    s
}

fn check(cx: &mut Cx, items: &[Item], text: &str, lines: &BTreeMap<usize, u32>) {
    let parsed = parse_text(text);
    let broken = items.iter().filter(|i| matches!(&i.tail, Tail::Proc(p) if p.body == BODIES)).count();
    // evaluation of the values is another matter
    let errors: Vec<String> = parsed.context.errors().iter().filter(|e| e.severity() == Severity::Error).map(|e| diag(&parsed.context, e)).collect();
    let values = |e: &String| e.contains("const");
    let n = errors.iter().filter(|e| !values(e)).count();
    ensure!(cx, (n == 0) == (broken == 0) && n <= 3 * broken, "errors", "{broken} broken bodies, diagnostics {errors:?}\n{text}");
    let mut overs: BTreeMap<(String, String), usize> = BTreeMap::new();
    for (id, it) in items.iter().enumerate() {
        let path: String = it.ty.iter().map(|s| format!("/{s}")).collect();
        let Some(ty) = parsed.tree.find(&path) else { cx.violate("type", format!("no type {path}\n{text}")); return; };
        let line = lines[&id];
        match &it.tail {
            Tail::Type => ensure!(cx, parsed.tree.find(&format!("{path}/{}", it.name)).is_some(), "type", "no type {path}/{}\n{text}", it.name),
            Tail::Var(v) => {
                let Some(got) = ty.get().vars.get(it.name.as_str()) else { cx.violate("variable", format!("{path} has no variable {}\n{text}", it.name)); return; };
                let Some(d) = &got.declaration else { cx.violate("variable", format!("{path}/{} is not declared\n{text}", it.name)); return; };
                let have = (mask(d.var_type.flags), d.var_type.type_path.iter().map(|s| s.as_str()).collect::<Vec<_>>().join("/"));
                ensure!(cx, have == want_var(v), "variable", "{path}/{}: {have:?} instead of {:?}\n{text}", it.name, want_var(v));
                ensure!(cx, bits(d.var_type.input_type) == v.input.as_ref().map_or(0, |i| i.1), "as", "{path}/{}: {:?} instead of {:?}\n{text}", it.name, d.var_type.input_type, v.input);
                ensure!(cx, d.location.line == line && got.value.location.line == line, "line", "{path}/{}: lines {} and {} instead of {line}\n{text}", it.name, d.location.line, got.value.location.line);
                let sizes: Vec<&str> = v.dims.iter().copied().filter(|d| !d.is_empty()).collect();
                let want = match v.init { Some(i) => Some(tree_of(i)), None if !sizes.is_empty() => Some(tree_of(&format!("new /list({})", sizes.join(", ")))), None => None };
                let have = got.value.expression.as_ref().map(sx);
                ensure!(cx, have == want, "value", "{path}/{}: {have:?} instead of {want:?}\n{text}", it.name);
                cx.count("variables compared", 1);
            },
            Tail::Proc(p) => {
                let Some(got) = ty.get().procs.get(it.name.as_str()) else { cx.violate("proc", format!("{path} has no proc {}\n{text}", it.name)); return; };
                if p.declared {
                    let Some(d) = &got.declaration else { cx.violate("proc", format!("{path}/{} is not declared\n{text}", it.name)); return; };
                    ensure!(cx, (d.kind == ProcDeclKind::Verb) == p.verb, "kind", "{path}/{}: {:?}\n{text}", it.name, d.kind);
                    ensure!(cx, d.flags.contains(ProcFlags::FINAL) == p.last, "proc flags", "{path}/{}: {:?}\n{text}", it.name, d.flags);
                    let ok = match (&d.return_type, &p.ret) { (r, Ret::No) => r.is_empty(), (ProcReturnType::InputType(t), Ret::Input(_, b)) => bits(*t) == *b, (ProcReturnType::TypePath(t), Ret::Path(q)) => t.iter().map(|s| s.to_string()).collect::<Vec<_>>() == *q, _ => false };
                    ensure!(cx, ok, "return type", "{path}/{}: {:?} instead of {:?}\n{text}", it.name, d.return_type, p.ret);
                    ensure!(cx, d.location.line == line, "line", "{path}/{}: declared on line {} instead of {line}\n{text}", it.name, d.location.line);
                }
                let k = overs.entry((path.clone(), it.name.clone())).or_default();
                let Some(d) = got.value.get(*k) else { cx.violate("proc", format!("{path}/{} has {} definitions\n{text}", it.name, got.value.len())); return; };
                *k += 1;
                ensure!(cx, d.location.line == line, "line", "{path}/{}: line {} instead of {line}\n{text}", it.name, d.location.line);
                ensure!(cx, d.code.is_some() == (p.body != BODIES), "body", "{path}/{}: body {:?}\n{text}", it.name, d.code.is_some());
                let have: Vec<_> = d.parameters.iter().map(|a| (a.name.to_string(), mask(a.var_type.flags), a.var_type.type_path.iter().map(|s| s.as_str()).collect::<Vec<_>>().join("/"), a.default.as_ref().map(sx), a.input_type.map(bits), a.in_list.as_ref().map(sx))).collect();
                let want: Vec<_> = p.params.iter().map(|(n, v)| { let (f, t) = want_var(v); (n.clone(), f, t, v.init.map(tree_of), v.input.as_ref().map(|i| i.1), v.list.map(tree_of)) }).collect();
                ensure!(cx, have == want, "parameters", "{path}/{}: {have:?}\ninstead of {want:?}\n{text}", it.name);
                cx.count("procs compared", 1);
            },
        }
    }
    for ((p, n), k) in &overs {
        let got = parsed.tree.find(p).unwrap().get().procs[n.as_str()].value.len();
        ensure!(cx, got == *k, "proc", "{p}/{n} has {got} definitions instead of {k}\n{text}");
    }
}

fn write(r: &mut Rng, items: &[Item], style: usize) -> (String, BTreeMap<usize, u32>, usize) {
    let ids: Vec<usize> = (0..items.len()).collect();
    let mut e = Emit { r, items, out: String::new(), line: 1, lines: BTreeMap::new(), nested: 0, style };
    e.run(&ids, 0, 0, false);
    (e.out, e.lines, e.nested)
}

fn case(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let n = 1 + r.below(2 + cx.size / 5);
    let items = items(&mut r, n);
    for style in 0..3 {
        let (text, lines, nested) = write(&mut r, &items, style);
        cx.input(text.clone());
        if style == 0 && items.len() >= 3 && nested > 0 { cx.nontrivial(); }
        cx.count("texts parsed", 1);
        if let Err(e) = catch(|| check(cx, &items, &text, &lines)) { cx.violate("panic", format!("{e}\n{text}")); }
        if cx.violated() { return; }
    }
}

fn flags(cx: &mut Cx) {
    for (a, _) in FLAGS {
        for (b, _) in FLAGS {
            let m = [a, b].iter().map(|f| FLAGS.iter().find(|x| x.0 == **f).unwrap().1).fold(0, |x, y| x | y);
            for (i, text) in [format!("/obj/a/var/{a}/{b}/list/v = 1\n"), format!("/obj/a\n\tvar/{a}\n\t\t{b}/list/v = 1\n"), format!("/obj/a/var\n\t{a}\n\t\t{b}\n\t\t\tlist\n\t\t\t\tv = 1\n"), format!("/obj/a {{ var/{a}/{b} {{ list {{ v = 1 }} }} }}\n")].iter().enumerate() {
                let v = Var { flags: m, path: vec!["list".into()], init: Some("1"), ..Var::default() };
                let it = Item { ty: vec!["obj".into(), "a".into()], segs: vec![], name: "v".into(), tail: Tail::Var(v) };
                check(cx, &[it], text, &[(0, [1, 3, 5, 1][i])].into_iter().collect());
                if cx.violated() { return; }
            }
        }
    }
}
