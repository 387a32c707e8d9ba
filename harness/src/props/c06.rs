use crate::dm_util::*;
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use dm::lexer::{Punctuation, Token};
use dm::preprocessor::Preprocessor;
use dm::{Context, Severity};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub static PROP: Prop = Prop {
    id: "C06",
    quick: 12000,
    thorough: 300000,
    case,
    directed: &[("every pair of spellings", spellings), ("deep chains and self inclusion", deep)],
    rule: "a case is a random project written to disk (directories, files including each other under many spellings, cycles, repeated inclusion, missing, unreadable and non-code files, with and without final line end); the tokens delivered by the real preprocessor, the file and line of each, and its diagnostics are compared with an independent model of the include rules, and the object tree with that of the flattened text; distinct by project text, non-trivial when at least three inclusions succeed and one does not",
    assumptions: &["no symbolic links, case-sensitive file names"],
    ..DEFAULT
};

#[derive(Clone, Debug)]
pub enum Item { Def(usize, i64), Include { spelling: String, indent: bool, tail: &'static str }, Multiple, Blank, MacroDef(String, String), MacroUndef(String) }

#[derive(Clone, Debug, Default)]
pub struct FileM { pub items: Vec<Item>, pub crlf: bool, pub no_final_newline: bool, pub bom: bool, pub text: String, pub lines: Vec<u32> }

pub fn normalize(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {},
            ".." if v.last().is_some_and(|x| *x != "..") => { v.pop(); },
            x => v.push(x),
        }
    }
    v.join("/")
}

pub fn dir_of(p: &str) -> String {
    match p.rfind('/') { Some(i) => p[..i].to_owned(), None => String::new() }
}

/// A way to write the path of `target` in a file of directory `from`; may also be root-relative.
fn spell(rng: &mut Rng, dirs: &[String], from: &str, target: &str) -> String {
    let mut s = if rng.chance(1, 3) { target.to_owned() } else {
        let f: Vec<&str> = from.split('/').filter(|x| !x.is_empty()).collect();
        let t: Vec<&str> = target.split('/').collect();
        let common = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
        let mut v: Vec<&str> = vec![".."; f.len() - common];
        v.extend(&t[common..]);
        v.join("/")
    };
    if rng.chance(1, 5) { s = format!("./{s}"); }
    if rng.chance(1, 6) { s = s.replacen('/', "/./", 1); }
    if rng.chance(1, 8) { s = s.replacen('/', "//", 1); }
    if rng.chance(1, 6) {
        // through a directory that exists and back, in the file's own directory
        let subs: Vec<&String> = dirs.iter().filter(|d| dir_of(d) == from && !d.is_empty()).collect();
        if !subs.is_empty() { let d = rng.pick(&subs); s = format!("{}/../{s}", d.rsplit('/').next().unwrap()); }
    }
    if rng.chance(1, 4) { s = s.replace('/', "\\"); }
    s
}

pub struct Project { pub dirs: Vec<String>, pub files: BTreeMap<String, FileM>, pub odd: BTreeSet<String> }

pub fn generate(rng: &mut Rng, size: usize, macros: bool) -> Project {
    let mut dirs = vec![String::new()];
    for _ in 0..rng.below(4) {
        let p = rng.pick(&dirs).clone();
        let n = ["sub", "code", "a", "b.c"][rng.below(4)];
        let d = if p.is_empty() { n.to_owned() } else { format!("{p}/{n}") };
        if !dirs.contains(&d) { dirs.push(d); }
    }
    let n = 2 + rng.below(3 + size / 10);
    let mut names: Vec<String> = vec!["t.dme".into()];
    for i in 0..n {
        let d = rng.pick(&dirs).clone();
        // the same file name in several directories
        let f = if rng.chance(1, 3) { format!("f{}.dm", rng.below(3)) } else if rng.chance(1, 10) { format!("g{i}.dme") } else { format!("g{i}.dm") };
        let p = if d.is_empty() { f } else { format!("{d}/{f}") };
        if !names.contains(&p) { names.push(p); }
    }
    let mut odd = BTreeSet::new();
    for o in ["m.dmm", "s.dmf", "x.dms", "noext", "pic.png", "dir.dm/"] {
        if rng.chance(1, 2) { let d = rng.pick(&dirs).clone(); odd.insert(if d.is_empty() { o.to_owned() } else { format!("{d}/{o}") }); }
    }
    let mut files = BTreeMap::new();
    let mut k = 0;
    for name in &names {
        let mut f = FileM { crlf: rng.chance(1, 8), no_final_newline: rng.chance(1, 5), bom: rng.chance(1, 10), ..Default::default() };
        if rng.chance(1, 6) && name != "t.dme" { f.items.push(Item::Multiple); }
        let m = if name == "t.dme" { 3 + size / 15 } else { 1 + rng.below(4) };
        for _ in 0..m {
            let x = rng.weighted(&[5, 6, 1, if macros { 7 } else { 0 }, if macros { 4 } else { 0 }]);
            f.items.push(match x {
                0 => { k += 1; Item::Def(k, rng.range(0, 99)) },
                1 => {
                    let here = dir_of(name);
                    let s = if rng.chance(1, 10) && !odd.is_empty() {
                        let v: Vec<&String> = odd.iter().collect();
                        let t = rng.pick(&v).trim_end_matches('/').to_owned();
                        spell(rng, &dirs, &here, &t)
                    } else if rng.chance(1, 14) { ["nothere.dm", "sub/none.dm", "../../up.dm", "f9.dm"][rng.below(4)].to_owned() }
                    else { let t = rng.pick(&names).clone(); spell(rng, &dirs, &here, &t) };
                    Item::Include { spelling: s, indent: rng.chance(1, 8), tail: ["", "", "", " // c", " /* c */", "\t"][rng.below(6)] }
                },
                2 => Item::Blank,
                3 => { let n = rng.below(5); let i = rng.below(1000); Item::MacroDef(format!("K{n}"), match rng.below(4) { 0 => format!("K{n} v{i}"), 1 => format!("K{n}(x) x##v{i} #x"), 2 => format!("K{n}(x, y...) v{i}(y, x)"), _ => format!("K{n} K{} w{i}", rng.below(n + 1)).replace(&format!("K{n} K{n} "), &format!("K{n} ")) }) },
                _ => Item::MacroUndef(format!("K{}", rng.below(5))),
            });
        }
        let mut line = 1;
        let mut s = String::new();
        if f.bom { s.push('\u{feff}'); }
        for it in &f.items {
            f.lines.push(line);
            let t = match it {
                Item::Def(k, v) => format!("/t{k}\n\tvar/x = {v}\n"),
                Item::Include { spelling, indent, tail } => format!("{}#include \"{spelling}\"{tail}\n", if *indent { "\t" } else { "" }),
                Item::Multiple => "#pragma multiple\n".to_owned(),
                Item::Blank => "\n// #include \"t.dme\"\n".to_owned(),
                Item::MacroDef(_, b) => format!("#define {b}\n"),
                Item::MacroUndef(n) => format!("#undef {n}\n"),
            };
            line += t.matches('\n').count() as u32;
            s += &t;
        }
        if f.no_final_newline { while s.ends_with('\n') { s.pop(); } }
        if f.crlf { s = s.replace('\n', "\r\n"); }
        f.text = s;
        files.insert(name.clone(), f);
    }
    Project { dirs, files, odd }
}

impl Project {
    pub fn write(&self, root: &Path) {
        for d in &self.dirs { std::fs::create_dir_all(root.join(d)).unwrap(); }
        for (n, f) in &self.files { std::fs::write(root.join(n), &f.text).unwrap(); }
        for o in &self.odd { if o.ends_with('/') { std::fs::create_dir_all(root.join(o)).unwrap(); } else { std::fs::write(root.join(o), "junk tokens here\n").unwrap(); } }
    }
    pub fn show(&self) -> String {
        let mut s = format!("dirs {:?} other files {:?}\n", self.dirs, self.odd);
        for (n, f) in &self.files { s += &format!("---- {n}\n{}\n", f.text); }
        s
    }
    /// The path an include of `spelling` in `file` finds.
    pub fn resolve(&self, file: &str, spelling: &str) -> Option<String> {
        let s = spelling.replace('\\', "/");
        for base in [dir_of(file), String::new()] {
            let full = format!("{base}/{s}");
            // every directory on the way must exist, and nothing may climb out of the project
            let mut at: Vec<&str> = vec![];
            let mut ok = true;
            let comps: Vec<&str> = full.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
            for (i, c) in comps.iter().enumerate() {
                if *c == ".." { if at.pop().is_none() { ok = false; break; } } else { at.push(c); }
                let here = at.join("/");
                if i + 1 < comps.len() && !self.dirs.contains(&here) { ok = false; break; }
            }
            if !ok { continue; }
            let p = at.join("/");
            if self.files.contains_key(&p) || self.odd.contains(&p) || self.odd.contains(&format!("{p}/")) { return Some(p); }
        }
        None
    }
}

#[derive(Default)]
pub struct Run { seen: BTreeSet<String>, multiple: BTreeSet<String>, pub tokens: Vec<(String, String, u32)>, pub diags: Vec<(Severity, &'static str, String, u32)>, pub ok: usize, pub flat: String, pub depth: usize, overflow: bool, pub starts: Vec<(String, usize)>, pub events: Vec<Event>, pub maxdepth: usize, counts: BTreeMap<String, i32> }

#[derive(Clone, Debug)]
pub enum Event { Def { name: String, body: String, file: String, line: u32 }, Undef { name: String, file: String, line: u32 } }

impl Run {
    pub fn file(&mut self, p: &Project, name: &str) {
        self.depth += 1;
        self.maxdepth = self.maxdepth.max(self.depth);
        if self.overflow || self.depth > 60 || self.tokens.len() > 5000 { self.overflow = true; self.depth -= 1; return; }
        if !self.starts.iter().any(|s| s.0 == name) { self.starts.push((name.to_owned(), self.events.len())); }
        let f = &p.files[name];
        for (it, &line) in f.items.iter().zip(&f.lines) {
            match it {
                Item::Def(k, v) => {
                    for (t, l) in [("/".to_owned(), line), (format!("t{k}"), line), ("var".into(), line + 1), ("/".into(), line + 1), ("x".into(), line + 1), ("=".into(), line + 1), (v.to_string(), line + 1)] { self.tokens.push((t, name.to_owned(), l)); }
                    self.flat += &format!("/t{k}\n\tvar/x = {v}\n");
                },
                Item::Multiple => { self.multiple.insert(name.to_owned()); },
                Item::Blank => {},
                Item::MacroDef(n, b) => {
                    self.events.push(Event::Def { name: n.clone(), body: b.clone(), file: name.to_owned(), line });
                    let c = self.counts.entry(n.clone()).or_default();
                    if *c > 0 { self.diags.push((Severity::Warning, "macro redefined", name.to_owned(), line)); }
                    *c += 1;
                },
                Item::MacroUndef(n) => {
                    let c = self.counts.entry(n.clone()).or_default();
                    if *c > 0 { *c -= 1; self.events.push(Event::Undef { name: n.clone(), file: name.to_owned(), line }); }
                    else { self.diags.push((Severity::Warning, "macro undefined while not defined", name.to_owned(), line)); }
                },
                Item::Include { spelling, .. } => match p.resolve(name, spelling) {
                    None => self.diags.push((Severity::Error, "failed to find #include", name.to_owned(), line)),
                    Some(t) => {
                        let ext = t.rsplit('/').next().unwrap().rsplit_once('.').map(|x| x.1);
                        match ext {
                            Some("dm" | "dme") => {
                                if t == "t.dme" || (self.seen.contains(&t) && !self.multiple.contains(&t)) { self.diags.push((Severity::Warning, "duplicate #include", name.to_owned(), line)); continue; }
                                self.seen.insert(t.clone());
                                if p.odd.contains(&format!("{t}/")) { self.diags.push((Severity::Error, "directory", t, 0)); continue; }
                                self.ok += 1;
                                self.file(p, &t);
                            },
                            Some("dmm" | "dmf" | "dms") => {},
                            Some(_) => self.diags.push((Severity::Error, "unknown extension", name.to_owned(), line)),
                            None => self.diags.push((Severity::Error, "filename has no extension", name.to_owned(), line)),
                        }
                    },
                },
            }
        }
        self.depth -= 1;
    }
    pub fn overflow(&self) -> bool { self.overflow }
}

pub fn spell_real(t: &Token) -> Option<String> {
    Some(match t {
        Token::Punct(Punctuation::Newline | Punctuation::Space | Punctuation::Tab) => return None,
        Token::Ident(i, _) => i.to_string(),
        Token::Int(i) => i.to_string(),
        Token::String(s) => format!("{s:?}"),
        Token::Punct(p) => p.to_string(),
        other => format!("{other:?}"),
    })
}

fn case(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let p = generate(&mut rng, cx.size, false);
    cx.input(p.show());
    let root = cx.dir("p");
    p.write(&root);
    check(cx, &p, &root);
}

fn check(cx: &mut Cx, p: &Project, root: &Path) {
    let mut want = Run::default();
    want.file(p, "t.dme");
    if want.overflow() { cx.count("projects left out as too large", 1); return; }
    let dme = root.join("t.dme");
    let context = Context::default();
    let prefix = format!("{}/", root.display());
    let name = |f: dm::FileId| -> String { let s = fname(&context, f); s.strip_prefix(&prefix).unwrap_or(&s).to_owned() };
    let got: Vec<(String, String, u32)> = match catch(|| Preprocessor::new(&context, dme.clone()).unwrap().filter_map(|t| spell_real(&t.token).map(|s| (s, name(t.location.file), t.location.line))).collect()) {
        Ok(g) => g,
        Err(e) => { cx.violate("panic", e); return; },
    };
    cx.count("files included", want.ok as u64);
    cx.count("inclusions that must not succeed", want.diags.len() as u64);
    cx.count("tokens compared", got.len() as u64);
    cx.max("include depth", want.maxdepth as u64);
    if want.ok >= 3 && !want.diags.is_empty() { cx.nontrivial(); }
    if got != want.tokens {
        let i = got.iter().zip(&want.tokens).take_while(|(a, b)| a == b).count();
        cx.violate("tokens", format!("token {i}: got {:?}, want {:?}; diagnostics {:?}", got.get(i), want.tokens.get(i), diags(&context)));
        return;
    }
    let have: Vec<(Severity, String, String, u32)> = context.errors().iter().map(|e| (e.severity(), e.description().to_owned(), name(e.location().file), e.location().line)).collect();
    let same = have.len() == want.diags.len() && have.iter().zip(&want.diags).all(|(h, w)| h.0 == w.0 && (w.1 == "directory" || (h.1.starts_with(w.1) && h.2 == w.2 && h.3 == w.3)));
    ensure!(cx, same, "diagnostics", "diagnostics differ\n got {have:?}\nwant {:?}", want.diags);
    // the tree of the project is the tree of the spliced text
    let c2 = Context::default();
    let tree = match catch(|| parse_env(&c2, &dme)) { Ok(Ok(t)) => t, other => { cx.violate("parse", format!("{:?}", other.map(|r| r.map(|_| ())))); return; } };
    let a = dump_tree(&tree, DumpOpts::default());
    let b = dump_tree(&parse_text(&want.flat).tree, DumpOpts::default());
    ensure!(cx, a == b, "object tree", "tree of the project differs from that of the spliced text: {}", first_diff(&a, &b));
    cx.count("object trees compared", 1);
}

fn one(cx: &mut Cx, p: &Project, label: &str) {
    let root = cx.dir("q");
    p.write(&root);
    cx.input(format!("{label}\n{}", p.show()));
    check(cx, p, &root);
}

/// File a/b/x.dm and root x.dm included under all spellings, from three places.
fn spellings(cx: &mut Cx) {
    let forms = ["a/b/x.dm", "./a/b/x.dm", "a\\b\\x.dm", "a/../a/b/x.dm", "a/b/../b/x.dm", "a/./b//x.dm", "x.dm", "./x.dm", "a/../x.dm", "b/x.dm", "../x.dm", "../../x.dm", "../a/b/x.dm", "../../a/b/x.dm", "..\\b\\x.dm"];
    let mut n = 0;
    for from in ["t.dme", "a/m.dm", "a/b/m.dm"] {
        for s1 in forms {
            for s2 in forms {
                let mut files = BTreeMap::new();
                let inc = |s: &str| Item::Include { spelling: s.to_owned(), indent: false, tail: "" };
                let mk = |items: Vec<Item>| -> FileM {
                    let mut f = FileM::default();
                    let mut line = 1;
                    for it in &items {
                        f.lines.push(line);
                        let t = match it { Item::Def(k, v) => format!("/t{k}\n\tvar/x = {v}\n"), Item::Include { spelling, .. } => format!("#include \"{spelling}\"\n"), _ => "\n".into() };
                        line += t.matches('\n').count() as u32;
                        f.text += &t;
                    }
                    f.items = items;
                    f
                };
                files.insert("x.dm".to_owned(), mk(vec![Item::Def(1, 1)]));
                files.insert("a/b/x.dm".to_owned(), mk(vec![Item::Def(2, 2)]));
                let two = mk(vec![inc(s1), Item::Def(3, 3), inc(s2), Item::Def(4, 4)]);
                if from == "t.dme" { files.insert("t.dme".into(), two); } else {
                    files.insert(from.to_owned(), two);
                    files.insert("t.dme".into(), mk(vec![inc(from), Item::Def(5, 5), inc("x.dm")]));
                }
                let p = Project { dirs: vec!["".into(), "a".into(), "a/b".into()], files, odd: BTreeSet::new() };
                one(cx, &p, "spellings");
                if cx.violated() { return; }
                n += 1;
            }
        }
    }
    cx.count("spelling pairs enumerated", n);
    cx.nontrivial();
}

fn deep(cx: &mut Cx) {
    let root = cx.dir("deep");
    for depth in [10usize, 60, 150] {
        let mut want = vec![];
        for i in 0..depth {
            std::fs::write(root.join(format!("f{i}.dm")), format!("a{i}\n{}b{i}\n", if i + 1 < depth { format!("#include \"f{}.dm\"\n", i + 1) } else { String::new() })).unwrap();
            want.push(format!("a{i}"));
        }
        for i in (0..depth).rev() { want.push(format!("b{i}")); }
        std::fs::write(root.join("t.dme"), "#include \"f0.dm\"\n#include \"t.dme\"\n").unwrap();
        let context = Context::default();
        let got: Vec<String> = Preprocessor::new(&context, root.join("t.dme")).unwrap().filter_map(|t| spell_real(&t.token)).collect();
        ensure!(cx, got == want, "deep chain", "chain of {depth} includes: {} tokens", got.len());
        ensure!(cx, context.errors().len() == 1, "deep chain", "{:?}", diags(&context));
        cx.count("deep chains", 1);
    }
    // a file opting in to repeated inclusion that includes itself ends with a diagnostic
    std::fs::write(root.join("m.dm"), "#pragma multiple\nx\n#include \"m.dm\"\ny\n").unwrap();
    std::fs::write(root.join("t.dme"), "before\n#include \"m.dm\"\nafter\n").unwrap();
    let context = Context::default();
    let got: Vec<String> = Preprocessor::new(&context, root.join("t.dme")).unwrap().take(100000).filter_map(|t| spell_real(&t.token)).collect();
    ensure!(cx, got.first().map(|s| s.as_str()) == Some("before") && got.last().map(|s| s.as_str()) == Some("after"), "self inclusion", "{} tokens, last {:?}", got.len(), got.last());
    ensure!(cx, context.errors().iter().any(|e| e.severity() == Severity::Error), "self inclusion", "no error");
    cx.nontrivial();
}
