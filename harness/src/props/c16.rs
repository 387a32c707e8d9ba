use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use dm::Context;
use dm::docs::DocCollection;
use std::collections::BTreeMap;
use std::path::Path;

pub static PROP: Prop = Prop {
    id: "C16",
    quick: 50000,
    thorough: 3000000,
    case,
    directed: &[("paths and slashes in line comments", slashes), ("block comments opened on their first line", opened), ("comments before conditional directives", conditional)],
    rule: "a case writes a project of up to three files of macros, types, variables and procs (indented, braced, nested, in var/ and proc/ blocks, between conditionals) with documentation comments of all four markers before, on, inside and around them, decorated in every style, and stray comments in places that document nothing; the text collected for every type, variable, proc, macro and file is compared with what was written for it; distinct by text, non-trivial when four items or more were documented by both kinds of comment",
    assumptions: &[],
    ..DEFAULT
};

/// A documentation comment: how it is written and what it says.
#[derive(Clone, Debug)]
enum Com { Lines(Vec<String>), Block(Vec<String>), /** told loosely: only words are compared after the first line */ Loose(Vec<String>) }

type Docs = BTreeMap<String, Vec<Com>>;

struct Gen<'a> { r: &'a mut Rng, out: String, docs: Docs, n: usize, file: usize, kinds: [usize; 4], stray: usize }

const WORDS: &[&str] = &["the", "code", "don't", "\"quoted\"", "a*b", "x/y", "http://example.com/a", "`tick`", "[link]", "[a][b]", "{", "}", "(", "#define", "\\n", "100%", "naïve", "日本", "<b>", "&amp;", "@x", "var/x", "if(1)", "...", "!", "~", "a  b", "tab\there", "\u{a0}", "é", ";", "=", "c:\\dir", "&", "- item", "1. one", "|", "'"];

impl<'a> Gen<'a> {
    fn word(&mut self) -> String { self.n += 1; format!("w{}", self.n) }
    /// A line of content which neither starts nor ends with blanks, a slash or a star.
    fn plain(&mut self) -> String {
        let mut s = self.word();
        for _ in 0..self.r.below(4) { s += " "; s += *self.r.pick(WORDS); }
        s += " "; s += &self.word();
        s
    }
    /// Lines of content; the first is plain, so nothing common to all lines can be taken from the content itself.
    fn content(&mut self, most: usize, block: bool) -> Vec<String> {
        let k = 1 + self.r.below(most);
        let mut v = vec![self.plain()];
        for i in 1..k {
            let p = self.plain();
            let last = i + 1 == k;
            v.push(match self.r.below(7) {
                0 if !last => String::new(),
                1 if block => format!("* {p}"),
                1 => format!("/{p}"),
                2 => format!("    {p}"),
                3 if block => format!("{p} **bold**"),
                3 => format!("{p}/dir/"),
                4 if !block => format!("/* {p} */"),
                5 if block => format!("\"// {p} unclosed"),
                _ => p,
            });
        }
        if k > 2 && self.r.chance(1, 2) { let p = self.r.below(k - 1); v.swap(0, p); if v[0].is_empty() { v.swap(0, p); } }
        v
    }
    fn line_deco(&mut self) -> &'static str { *self.r.pick(&["", " ", " ", " ", "  ", "\t", "/ ", "// "]) }
    /// Line comments, one per line, each preceded by `ind` and ended with a newline.
    fn lines(&mut self, mark: char, deco: &str, ind: &str, content: &[String]) -> String {
        let mut s = String::new();
        for l in content {
            let d = if l.is_empty() { if self.r.bool() { "" } else { deco } } else { deco };
            s += &format!("{ind}//{mark}{d}{l}\n");
        }
        s
    }
    fn block(&mut self, mark: char, ind: &str) -> (String, Com) {
        match self.r.below(6) {
            0 => { let c = vec![self.plain()]; let e = if self.r.chance(1, 5) { " **/" } else { " */" }; let d = *self.r.pick(&[" ", "  ", ""]); (format!("{ind}/*{mark}{d}{}{e}", c[0]), Com::Block(c)) },
            1 | 2 => {
                let c = self.content(5, true);
                let d = *self.r.pick(&[" * ", " *", "* ", "  * ", "\t* "]);
                let mut s = format!("{ind}/*{mark}\n");
                for l in &c { s += &if l.is_empty() { format!("{ind}{}\n", d.trim_end()) } else { format!("{ind}{d}{l}\n") }; }
                s += ind; s += if self.r.bool() { " */" } else { "*/" };
                (s, Com::Block(c))
            },
            3 => {
                let c = self.content(5, true);
                let d = *self.r.pick(&["", "\t", "    "]);
                let mut s = format!("{ind}/*{mark}\n");
                for l in &c { s += &if l.is_empty() { "\n".to_owned() } else { format!("{ind}{d}{l}\n") }; }
                s += ind; s += "*/";
                (s, Com::Block(c))
            },
            4 => {
                let c = self.content(4, true);
                let mut s = format!("{ind}/*{mark}*********************\n");
                for l in &c { s += &format!("{ind} * {l}{}\n", if l.is_empty() { "" } else { " *" }); }
                s += ind; s += "**********************/";
                (s, Com::Block(c))
            },
            _ => {
                let k = 2 + self.r.below(3);
                let c: Vec<String> = (0..k).map(|_| self.plain()).collect();
                let d = *self.r.pick(&[" * ", "   ", "\t"]);
                let mut s = format!("{ind}/*{mark} {}", c[0]);
                for l in &c[1..] { s += &format!("\n{ind}{d}{l}"); }
                s += " */";
                (s, Com::Loose(c))
            },
        }
    }
    /// Some comments before an item; each ends its line.
    fn before(&mut self, key: &str, ind: &str, deco: &str) {
        while self.r.chance(2, 5) {
            if self.r.bool() { let c = self.content(3, false); let t = self.lines('/', deco, ind, &c); self.out += &t; self.docs.entry(key.to_owned()).or_default().push(Com::Lines(c)); self.kinds[0] += 1; } else { let (t, c) = self.block('*', ind); self.out += &t; self.out += "\n"; self.docs.entry(key.to_owned()).or_default().push(c); self.kinds[1] += 1; }
            match self.r.below(10) { 8 => self.out += "#if 1\n#endif\n", 9 => self.out += &format!("{ind}#ifdef NEVER\n{ind}world.log << /// stray\n#endif\n"), 0 => self.out += "\n", 1 => self.out += &format!("{ind}// plain\n"), 2 => self.out += &format!("{ind}/* plain */\n"), _ => {} }
        }
    }
    /// Perhaps a comment on the item's own line, without the newline.
    fn same(&mut self, key: &str, deco: &str) {
        if !self.r.chance(1, 3) { return; }
        if self.r.bool() { let c = vec![self.plain()]; self.out += &format!(" //!{deco}{}", c[0]); self.docs.entry(key.to_owned()).or_default().push(Com::Lines(c)); self.kinds[2] += 1; } else { let c = vec![self.plain()]; self.out += &format!(" /*! {} */", c[0]); self.docs.entry(key.to_owned()).or_default().push(Com::Block(c)); self.kinds[3] += 1; }
    }
    /// Comments at the start of a block.
    fn inside(&mut self, key: &str, ind: &str, deco: &str) -> bool {
        let mut any = false;
        while self.r.chance(1, 4) {
            any = true;
            if self.r.bool() { let c = self.content(3, false); let t = self.lines('!', deco, ind, &c); self.out += &t; self.docs.entry(key.to_owned()).or_default().push(Com::Lines(c)); self.kinds[2] += 1; } else { let (t, c) = self.block('!', ind); self.out += &t; self.out += "\n"; self.docs.entry(key.to_owned()).or_default().push(c); self.kinds[3] += 1; }
        }
        any
    }
    fn name(&mut self, p: &str) -> String { self.n += 1; format!("{p}{}", self.n) }
    fn define(&mut self, ind: &str) {
        let name = self.name("MAC");
        let key = format!("macro {name}");
        let deco = self.line_deco();
        self.before(&key, ind, deco);
        let what = match self.r.below(4) { 0 => String::new(), 1 => "(a, b) (a + b)".to_owned(), 2 => " (1 + 2)".to_owned(), _ => "(x...) list(x)".to_owned() };
        self.out += &format!("{ind}#define {name}{what}");
        self.same(&key, deco);
        self.out += "\n";
        if self.r.chance(1, 6) { self.out += &format!("#undef {name}\n"); }
    }
    fn var(&mut self, path: &str, ind: &str, in_block: bool) {
        let name = self.name("v");
        let key = format!("{path} var {name}");
        let deco = self.line_deco();
        self.before(&key, ind, deco);
        let head = if in_block { *self.r.pick(&["", "", "obj/", "list/"]) } else { *self.r.pick(&["var/", "var/", "var/static/", "var/obj/", "var/const/"]) };
        let arr = if self.r.chance(1, 10) { "[3]" } else { "" };
        let val = if head == "var/const/" { *self.r.pick(&[" = 1", " = 2 + 3"]) } else if arr.is_empty() && self.r.bool() { *self.r.pick(&[" = 1", " = \"s t\"", " = 2 + 3", " = (\n1 +\n2)", " = 1 as num", " = null"]) } else { "" };
        self.out += &format!("{ind}{head}{name}{arr}{val}");
        self.same(&key, deco);
        self.out += "\n";
    }
    fn body(&mut self, ind: &str) {
        for _ in 0..self.r.below(3) {
            match self.r.below(7) {
                0 => { let p = self.plain(); self.stray += 1; self.out += &format!("{ind}/// {p}\n{ind}world.log << 1\n") },
                1 => { let p = self.plain(); self.stray += 1; self.out += &format!("{ind}var/x{} = 1 //! {p}\n", self.n) },
                2 => { let p = self.plain(); self.stray += 1; self.out += &format!("{ind}if(1) /*! {p} */\n{ind}\tworld.log << 2\n") },
                3 => { let p = self.plain(); self.stray += 1; self.out += &format!("{ind}world.log << list(1, /* x */ /*! {p} */ 2)\n") },
                4 => { let p = self.plain(); self.stray += 1; self.out += &format!("{ind}/** {p} */\n{ind}for(var/i in 1 to 2)\n{ind}\tworld.log << i\n") },
                _ => self.out += &format!("{ind}world.log << 3\n"),
            }
        }
        self.out += &format!("{ind}return\n");
    }
    fn proc_(&mut self, path: &str, ind: &str, in_block: bool) {
        let name = self.name("p");
        let key = format!("{path} proc {name}");
        let deco = self.line_deco();
        self.before(&key, ind, deco);
        let head = if in_block { "" } else { *self.r.pick(&["proc/", "proc/", "verb/"]) };
        let params = *self.r.pick(&["", "a", "a, b = 2", "obj/a as obj", "a, // plain\n b"]);
        self.out += &format!("{ind}{head}{name}({params})");
        match self.r.below(4) {
            0 => { self.same(&key, deco); self.out += "\n"; },
            1 => {
                self.out += " {";
                if self.r.bool() { self.out += "\n"; let i = format!("{ind}\t"); self.inside(&key, &i, deco); self.out += &format!("{i}return\n{ind}}}\n"); } else { self.out += " return }\n"; }
            },
            _ => { self.same(&key, deco); self.out += "\n"; let i = format!("{ind}\t"); self.inside(&key, &i, deco); self.body(&i); },
        }
    }
    fn members(&mut self, path: &str, ind: &str, depth: usize) {
        for _ in 0..self.r.below(5) {
            match self.r.below(10) {
                0..=2 => self.var(path, ind, false),
                3 | 4 => self.proc_(path, ind, false),
                5 if depth < 3 => self.type_(path, ind, depth + 1),
                6 => { self.out += &format!("{ind}var\n"); let i = format!("{ind}\t"); for _ in 0..1 + self.r.below(3) { self.var(path, &i, true); } },
                7 => { self.out += &format!("{ind}proc\n"); let i = format!("{ind}\t"); for _ in 0..1 + self.r.below(2) { self.proc_(path, &i, true); } },
                8 => self.define(if depth > 1 { "" } else { ind }),
                _ => { let key = format!("{path} var tag"); if !self.docs.contains_key(&key) { let deco = self.line_deco(); self.docs.insert(key.clone(), vec![]); self.before(&key, ind, deco); self.out += &format!("{ind}tag = \"t\""); self.same(&key, deco); self.out += "\n"; } },
            }
        }
    }
    fn type_(&mut self, parent: &str, ind: &str, depth: usize) {
        let name = self.name("t");
        let path = format!("{parent}/{name}");
        let deco = self.line_deco();
        self.before(&path, ind, deco);
        let shown = if ind.is_empty() { path.clone() } else { name };
        if depth == 0 && self.r.chance(1, 6) {
            self.out += &format!("{shown} {{\n");
            let i = format!("{ind}\t");
            self.inside(&path, &i, deco);
            self.members(&path, &i, 3);
            self.out += &format!("{i}var/z{}\n}}\n", self.n);
            return;
        }
        self.out += &format!("{ind}{shown}");
        self.same(&path, deco);
        self.out += "\n";
        if self.r.chance(1, 4) { return; }
        let i = format!("{ind}\t");
        self.inside(&path, &i, deco);
        self.members(&path, &i, depth);
    }
    fn global(&mut self) {
        let name = self.name("g");
        if self.r.bool() {
            let key = format!("/ var {name}");
            let deco = self.line_deco();
            self.before(&key, "", deco);
            self.out += &format!("/var/{name}{}", *self.r.pick(&["", " = 1", " = list()"]));
            self.same(&key, deco);
            self.out += "\n";
        } else {
            let key = format!("/ proc {name}");
            let deco = self.line_deco();
            self.before(&key, "", deco);
            self.out += &format!("/proc/{name}()");
            self.same(&key, deco);
            self.out += "\n";
            self.inside(&key, "\t", deco);
            self.body("\t");
        }
    }
    fn detached(&mut self) {
        // a type's member defined from outside
        let ty = self.name("o");
        let path = format!("/obj/{ty}");
        self.out += &format!("{path}\n");
        let name = self.name("d");
        let deco = self.line_deco();
        if self.r.bool() { let key = format!("{path} proc {name}"); self.before(&key, "", deco); self.out += &format!("{path}/proc/{name}()"); self.same(&key, deco); self.out += "\n"; self.inside(&key, "\t", deco); self.body("\t"); } else { let key = format!("{path} var {name}"); self.before(&key, "", deco); self.out += &format!("{path}/var/{name} = 1"); self.same(&key, deco); self.out += "\n"; }
    }
    fn module(&mut self) {
        let key = format!("file f{}.dm", self.file);
        if self.r.bool() { let c = self.content(3, false); let deco = " "; let t = self.lines('!', deco, "", &c); self.out += &t; self.docs.entry(key).or_default().push(Com::Lines(c)); self.kinds[2] += 1; } else { let (t, c) = self.block('!', ""); self.out += &t; self.out += "\n"; self.docs.entry(key).or_default().push(c); self.kinds[3] += 1; }
    }
    fn item(&mut self, depth: usize) {
        match self.r.below(14) {
            0..=3 => { let p = *self.r.pick(&["/obj", "/mob", "/datum", "/turf"]); self.type_(p, "", 0) },
            4 | 5 => self.global(),
            6 | 7 => self.define(""),
            8 | 9 => self.module(),
            10 => self.detached(),
            11 => { self.n += 1; let p = self.plain(); self.stray += 1; self.out += &format!("/datum/s{}/proc/x(a, /* */ b) // plain /// {p}\n\treturn a // //! {p}\n", self.n) },
            12 if depth < 2 => {
                let cond = *self.r.pick(&["#if 1", "#ifndef NEVER", "#ifdef DM_VERSION"]);
                self.out += cond; self.out += "\n";
                for _ in 0..1 + self.r.below(2) { self.item(depth + 1); }
                if self.r.chance(1, 3) { let p = self.plain(); self.out += &format!("#else\n/// {p}\n/obj/never{}\n\tvar/a //! {p}\n//! {p}\n", self.n); self.stray += 1; }
                self.out += "#endif\n";
            },
            _ => self.out += "\n\n",
        }
    }
}

/// Matches `text` against the comments in order. Blank lines between comments are not judged.
fn matches(coms: &[Com], text: &str) -> Result<(), String> {
    let lines: Vec<&str> = text.split('\n').collect();
    let mut i = 0;
    for c in coms {
        while lines.get(i).is_some_and(|l| l.trim().is_empty()) { i += 1; }
        let (loose, want) = match c { Com::Loose(w) => (true, w), Com::Lines(w) | Com::Block(w) => (false, w) };
        for (k, w) in want.iter().enumerate() {
            let Some(l) = lines.get(i) else { return Err(format!("{w:?} is missing")) };
            let got = if loose && k > 0 { l.trim_matches(|c: char| c.is_whitespace() || c == '*') } else if loose { l.trim() } else { l };
            if got != w { return Err(format!("line {:?} should be {w:?}", l)); }
            i += 1;
        }
    }
    if lines[i.min(lines.len())..].iter().any(|l| !l.trim().is_empty()) { return Err(format!("extra text {:?}", &lines[i..])); }
    Ok(())
}

struct Found { docs: BTreeMap<String, String>, errors: Vec<String> }
fn read(dir: &Path) -> Found {
    let ctx = Context::default();
    let mut docs = BTreeMap::new();
    let mut pp = dm::preprocessor::Preprocessor::new(&ctx, dir.join("e.dme")).unwrap();
    let (tree, modules) = { let mut p = dm::parser::Parser::new(&ctx, dm::indents::IndentProcessor::new(&ctx, &mut pp)); p.enable_procs(); p.parse_with_module_docs() };
    let history = pp.finalize();
    let mut put = |k: String, d: &DocCollection| { if !d.is_empty() { docs.insert(k, d.text()); } };
    for (_, (name, def)) in history.iter() { put(format!("macro {name}"), def.docs()); }
    for (f, list) in modules { let mut c = DocCollection::default(); c.extend(list.into_iter().map(|x| x.1)); put(format!("file {}", ctx.file_path(f).display()), &c); }
    tree.root().recurse(&mut |ty| {
        let p = if ty.is_root() { "/".to_owned() } else { ty.path.clone() };
        put(p.clone(), &ty.docs);
        for (n, v) in ty.vars.iter() { put(format!("{p} var {n}"), &v.value.docs); }
        for (n, v) in ty.procs.iter() { for (i, v) in v.value.iter().enumerate() { put(format!("{p} proc {n}{}", if i > 0 { format!("#{i}") } else { String::new() }), &v.docs); } }
    });
    Found { docs, errors: crate::dm_util::diags(&ctx) }
}

fn judge(cx: &mut Cx, docs: &Docs, found: &Found) {
    for (k, coms) in docs {
        if coms.is_empty() { continue; }
        let kind = if k.starts_with("macro") { "macro" } else if k.starts_with("file") { "file" } else if k.contains(" var ") { "variable" } else if k.contains(" proc ") { "proc" } else { "type" };
        let Some(text) = found.docs.get(k) else { cx.violate(format!("lost:{kind}"), format!("the documentation of {k} is lost: {coms:?}")); return; };
        if let Err(e) = matches(coms, text) { cx.violate(format!("text:{kind}"), format!("{k} is documented by {coms:?}\nbut the text is {text:?}: {e}")); return; }
        cx.count("documented items compared", 1);
        cx.count(&format!("documented {kind}s"), 1);
    }
    for k in found.docs.keys() { ensure!(cx, docs.get(k).is_some_and(|c| !c.is_empty()), "misplaced", "{k} has documentation which was not written for it: {:?}", found.docs[k]); }
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let dir = cx.dir("c16");
    let mut g = Gen { r: &mut r, out: String::new(), docs: Docs::new(), n: 0, file: 0, kinds: [0; 4], stray: 0 };
    let nf = 1 + g.r.below(3);
    let crlf = g.r.chance(1, 6);
    let mut dme = String::new();
    let mut all = String::new();
    for f in 0..nf {
        g.file = f;
        g.out.clear();
        for _ in 0..1 + g.r.below(6) { g.item(0); }
        let text = if crlf { g.out.replace('\n', "\r\n") } else { g.out.clone() };
        std::fs::write(dir.join(format!("f{f}.dm")), &text).unwrap();
        all += &format!("---- f{f}.dm\n{}", g.out);
        dme += &format!("#include \"f{f}.dm\"\n");
    }
    std::fs::write(dir.join("e.dme"), &dme).unwrap();
    cx.sig(&all);
    cx.input(all);
    let (docs, kinds, stray) = (g.docs, g.kinds, g.stray);
    let found = match catch(|| read(&dir)) { Ok(f) => f, Err(e) => { cx.violate("panic", e); return; } };
    if let Some(e) = found.errors.iter().find(|e| e.contains(": Error: ")) { cx.inconclusive(&format!("not accepted: {e}")); return; }
    for (n, k) in ["///", "/**", "//!", "/*!"].iter().zip(kinds) { cx.count(&format!("comments {n}"), k as u64); }
    cx.count("stray comments", stray as u64);
    judge(cx, &docs, &found);
    if docs.values().filter(|c| !c.is_empty()).count() >= 4 && kinds[0] + kinds[2] > 0 && kinds[1] + kinds[3] > 0 { cx.nontrivial(); }
}

fn told(cx: &mut Cx, text: &str, want: &[(&str, &str)]) {
    let dir = cx.dir("c16");
    std::fs::write(dir.join("e.dme"), text).unwrap();
    cx.sig(&text);
    cx.input(text);
    let found = match catch(|| read(&dir)) { Ok(f) => f, Err(e) => { cx.violate("panic", e); return; } };
    if let Some(e) = found.errors.first() { cx.violate("told", e); return; }
    for (k, w) in want { let got = found.docs.get(*k).map(|s| s.trim_matches('\n')); ensure!(cx, got == Some(*w), "text:directed", "{k} should be documented as {w:?} and is as {got:?}"); }
}
fn slashes(cx: &mut Cx) {
    told(cx, "/// /obj/item is what this holds\n/obj/a\n\tvar/b = 1 //! see code/modules/\n\t/// /mob or\n\t/// /obj only\n\tvar/c\n", &[("/obj/a", "/obj/item is what this holds"), ("/obj/a var b", "see code/modules/"), ("/obj/a var c", "/mob or\n/obj only")]);
}
fn opened(cx: &mut Cx) {
    told(cx, "/** one\n    two */\n/obj/a\n/**three*/\n/obj/b\n/** four */\n/obj/c\n", &[("/obj/b", "three"), ("/obj/c", "four")]);
}

fn conditional(cx: &mut Cx) {
    told(cx, "/// one\n#ifndef NO\n#define NO 1\n#endif\n/// two\n#if 1\n/obj/a\n#endif\n/** three */\n#ifdef NO\n/obj/b\n\t/// four\n\t#if NO\n\tvar/c = 1\n\t#else\n\tvar/c = 2\n\t#endif\n#endif\n/// five\n#undef NO\n/obj/d\n", &[("macro NO", "one"), ("/obj/a", "two"), ("/obj/b", "three"), ("/obj/b var c", "four"), ("/obj/d", "five")]);
}
