use crate::cli;
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub static PROP: Prop = Prop {
    id: "C35",
    quick: 4000,
    thorough: 20000,
    case,
    directed: &[("many unresolved references", many), ("titles", titles), ("text files", texts)],
    external: true,
    rule: "a case writes a project of several files and directories with documented and undocumented types, variables, procs, macros and files, Markdown and text files, and crosslinks between them and to nothing; dmdoc runs on it dry and then for real; the HTML it wrote is parsed and every link and anchor followed, and the set of pages, the entries, their text, teasers, titles and crosslinks are compared with what was written; distinct by project, non-trivial when crosslinks led to items of three kinds",
    assumptions: &["the page of a file whose only documentation is that of types, variables or procs is optional"],
    ..DEFAULT
};

// ---------------------------------------------------------------------------------------------
// HTML

#[derive(Default, Debug)]
struct Page { base: String, ids: BTreeSet<String>, links: Vec<(String, String, String)>, srcs: Vec<String>, sections: BTreeMap<String, String>, rows: Vec<String>, h1: String, twice: Vec<String> }

fn decode(s: &str) -> String { s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&#x27;", "'").replace("&#39;", "'").replace("&amp;", "&") }
fn squash(s: &str) -> String { s.split_whitespace().collect::<Vec<_>>().join(" ") }

fn page(html: &str) -> Result<Page, String> {
    let mut p = Page::default();
    let mut at = 0;
    let mut section = "top".to_owned();
    let mut link: Option<(String, String)> = None;
    let (mut in_h1, mut in_tr, mut raw) = (false, false, false);
    let mut open: Vec<String> = vec![];
    while at < html.len() {
        if html[at..].starts_with("<!--") { at += html[at..].find("-->").ok_or("unclosed comment")? + 3; continue; }
        if html.as_bytes()[at] == b'<' {
            // a tag, quotes respected
            let mut q = None;
            let mut end = None;
            for (i, c) in html[at..].char_indices() { match (q, c) { (None, '>') => { end = Some(at + i); break; }, (None, '"' | '\'') => q = Some(c), (Some(x), c) if x == c => q = None, _ => {} } }
            let end = end.ok_or_else(|| format!("unclosed tag at {:?}", html[at..].chars().take(40).collect::<String>()))?;
            let tag = &html[at + 1..end];
            at = end + 1;
            let (close, body) = match tag.strip_prefix('/') { Some(t) => (true, t), None => (false, tag) };
            let name: String = body.chars().take_while(|c| c.is_alphanumeric() || *c == '!').collect();
            let name = name.to_lowercase();
            let mut attrs = BTreeMap::new();
            let mut rest = body[name.len()..].trim();
            while !rest.is_empty() && rest != "/" {
                let n: String = rest.chars().take_while(|c| !c.is_whitespace() && *c != '=').collect();
                if n.is_empty() { break; }
                rest = rest[n.len()..].trim_start();
                if let Some(r) = rest.strip_prefix('=') {
                    let r = r.trim_start();
                    let c = r.chars().next().ok_or("attribute without value")?;
                    if c == '"' || c == '\'' { let e = r[1..].find(c).ok_or("unclosed attribute")?; attrs.insert(n, decode(&r[1..1 + e])); rest = r[e + 2..].trim_start(); } else { let v: String = r.chars().take_while(|c| !c.is_whitespace()).collect(); rest = r[v.len()..].trim_start(); attrs.insert(n, v); }
                } else { attrs.insert(n, String::new()); }
            }
            if !close && !["meta", "link", "base", "img", "br", "hr", "!doctype", "input"].contains(&name.as_str()) { open.push(name.clone()); }
            if close && !["p", "br"].contains(&name.as_str()) { match open.pop() { Some(o) if o == name => {}, o => return Err(format!("</{name}> closes {o:?}")) } } else if close && name == "p" { match open.pop() { Some(o) if o == "p" => {}, o => return Err(format!("</p> closes {o:?}")) } }
            if let Some(id) = attrs.get("id") {
                if !close {
                    if !p.ids.insert(id.clone()) { p.twice.push(id.clone()); }
                    if (name == "h2" && ["var", "proc", "define"].contains(&id.as_str())) || (name == "h3" && ["var/", "proc/", "define/"].iter().any(|x| id.starts_with(x))) { section = id.clone(); }
                }
            }
            match name.as_str() {
                "base" => p.base = attrs.get("href").cloned().unwrap_or_default(),
                "a" if !close => link = attrs.get("href").map(|h| (h.clone(), String::new())),
                "a" => { if let Some((h, t)) = link.take() { p.links.push((h, squash(&t), section.clone())); } },
                "h1" => in_h1 = !close,
                "tr" => { in_tr = !close; if in_tr { p.rows.push(String::new()); } },
                "script" | "style" => raw = !close,
                _ => {},
            }
            if let Some(s) = attrs.get("src") { p.srcs.push(s.clone()); }
            if name == "link" { if let Some(h) = attrs.get("href") { p.srcs.push(h.clone()); } }
            if ["td", "th", "tr", "p", "li", "ul", "h1", "h2", "h3", "h4", "br", "aside", "pre", "table"].contains(&name.as_str()) { p.sections.entry(section.clone()).or_default().push(' '); if in_tr { p.rows.last_mut().unwrap().push(' '); } }
        } else {
            let end = html[at..].find('<').map_or(html.len(), |e| at + e);
            let t = decode(&html[at..end]);
            at = end;
            if raw { continue; }
            p.sections.entry(section.clone()).or_default().push_str(&t);
            if let Some((_, l)) = link.as_mut() { l.push_str(&t); }
            if in_h1 { p.h1 += &t; }
            if in_tr { p.rows.last_mut().unwrap().push_str(&t); }
        }
    }
    if !open.is_empty() { return Err(format!("never closed: {open:?}")); }
    for s in p.sections.values_mut() { *s = squash(s); }
    for s in p.rows.iter_mut() { *s = squash(s); }
    p.h1 = squash(&p.h1);
    Ok(p)
}

/// Resolves a reference made on the page at `from`: (file, fragment).
fn resolve(from: &str, base: &str, href: &str) -> (String, Option<String>) {
    let join = |dir: &str, rel: &str| -> String {
        let mut v: Vec<&str> = dir.split('/').filter(|s| !s.is_empty()).collect();
        if !rel.is_empty() { v.pop(); }
        let mut v: Vec<String> = v.into_iter().map(str::to_owned).collect();
        if rel.is_empty() { return dir.to_owned(); }
        for s in rel.split('/') { match s { "" | "." => {}, ".." => { if v.pop().is_none() { v.push("..".to_owned()); } }, s => v.push(s.to_owned()) } }
        let mut o = v.join("/");
        if rel.ends_with('/') || rel == ".." { o.push('/'); o.push('x'); }
        o
    };
    let doc = if base.is_empty() { from.to_owned() } else { join(from, base) };
    // a base directory is kept as "dir/x"; at the root as "/x"
    let doc = if doc.starts_with("/x") { "x".to_owned() } else { doc };
    if href.starts_with('/') { return (format!("(outside of the site) {href}"), None); }
    let (path, frag) = match href.split_once('#') { Some((p, f)) => (p, Some(f.to_owned())), None => (href, None) };
    let bytes = path.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < bytes.len() { if bytes[i] == b'%' && i + 2 < bytes.len() { if let Ok(b) = u8::from_str_radix(&path[i + 1..i + 3], 16) { out.push(b); i += 3; continue; } } out.push(bytes[i]); i += 1; }
    let path = String::from_utf8_lossy(&out).into_owned();
    (if path.is_empty() { doc } else { join(&doc, &path) }, frag)
}

// ---------------------------------------------------------------------------------------------
// Projects

/// (as written, as shown)
type Piece = (String, String);
#[derive(Clone, Debug, Default)]
struct Text { title: Option<Piece>, paras: Vec<Vec<Piece>>, links: Vec<(String, Option<String>)> }
impl Text {
    fn shown(&self) -> String { self.paras.iter().map(|p| p.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" ") }
    fn teaser(&self) -> String { self.paras.first().map(|p| p.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(" ")).unwrap_or_default() }
    fn written(&self) -> Vec<String> {
        let mut v = vec![];
        if let Some(t) = &self.title { v.push(format!("# {}", t.0)); v.push(String::new()); }
        for (i, p) in self.paras.iter().enumerate() { if i > 0 { v.push(String::new()); } v.push(p.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(" ")); }
        v
    }
}
#[derive(Clone, Debug, PartialEq)]
enum What { Type, Var, Proc, Macro }
#[derive(Clone, Debug)]
struct Item { what: What, name: String, owner: usize, file: usize, text: Option<Text>, parent: Option<usize>, extra: String, titled: Option<String> }

struct Plan { files: Vec<String>, items: Vec<Item>, file_docs: Vec<Option<Text>>, mds: Vec<(String, Text)>, txts: Vec<(String, String)>, index: Option<Text>, bad: BTreeSet<String>, good: BTreeSet<String>, n: usize, use_typepath_names: bool }

const ROOT: usize = usize::MAX;
fn stem(p: &str) -> String { let s = p.rsplit_once('.').map_or(p, |x| x.0); match s.strip_suffix("/README") { Some(d) => d.to_owned(), None => s.to_owned() } }

impl Plan {
    fn path(&self, i: usize) -> String { if i == ROOT { String::new() } else { self.items[i].name.clone() } }
    fn documented(&self, i: usize) -> bool { self.items[i].text.is_some() }
    fn described(&self, i: usize) -> bool { self.items[i].text.as_ref().is_some_and(|t| t.paras.len() > 1) }
    fn substance(&self, i: usize) -> bool { self.described(i) || self.items.iter().any(|m| m.what != What::Type && m.what != What::Macro && m.owner == i && m.text.is_some()) }
    fn page_of(&self, i: usize) -> String { if i == ROOT { "global.html".to_owned() } else { format!("{}.html", &self.items[i].name[1..]) } }
    /// files which must be in the modules tree, and files which may be
    fn module_pages(&self) -> (BTreeSet<String>, BTreeSet<String>) {
        let mut must = BTreeSet::new();
        let mut may = BTreeSet::new();
        for (i, f) in self.files.iter().enumerate() {
            let p = format!("{}.html", stem(f));
            if self.file_docs[i].is_some() || self.items.iter().any(|m| m.file == i && m.what == What::Macro && m.text.is_some()) { must.insert(p.clone()); }
            if self.items.iter().any(|m| m.file == i && m.text.is_some() && (m.what == What::Type || m.owner == ROOT)) { may.insert(p); }
        }
        for (f, _) in &self.mds { must.insert(format!("{}.html", stem(f))); }
        for (f, _) in &self.txts { must.insert(format!("{}.html", stem(f))); }
        (must, may)
    }
    fn word(&mut self) -> Piece { self.n += 1; let w = format!("w{}", self.n); (w.clone(), w) }
    fn piece(&mut self, r: &mut Rng) -> Piece {
        let (a, b) = self.word();
        match r.below(12) {
            0 => (format!("*{a}*"), b),
            1 => (format!("`{a} < b`"), format!("{b} < b")),
            2 => (format!("{a} & co"), format!("{b} & co")),
            3 => (format!("**{a}**"), b),
            4 => (format!("{a} \"q\" don't"), format!("{b} \"q\" don't")),
            5 => (format!("[{a}](https://example.com/{a})"), b),
            _ => (a, b),
        }
    }
    /// A crosslink: to something documented, or to nothing.
    fn crosslink(&mut self, r: &mut Rng, t: &mut Text) -> Option<Piece> {
        let (reference, target) = if r.chance(1, 5) {
            self.n += 1;
            let n = self.n;
            let some_type = { let v: Vec<usize> = (0..self.items.len()).filter(|i| self.items[*i].what == What::Type).collect(); if v.is_empty() { None } else { Some(self.items[*r.pick(&v)].name.clone()) } };
            let und: Vec<usize> = (0..self.items.len()).filter(|i| !self.documented(*i) && (self.items[*i].what != What::Type || !self.substance(*i))).collect();
            match r.below(7) {
                0 => (format!("/obj/nothing{n}"), None),
                1 => (format!("NO_MACRO_{n}"), None),
                2 => (format!("code/none{n}.dm"), None),
                3 if some_type.is_some() => (format!("{}/proc/none{n}", some_type.unwrap()), None),
                4 if some_type.is_some() => (format!("{}/var/none{n}", some_type.unwrap()), None),
                5 => (format!("/proc/none{n}"), None),
                _ if !und.is_empty() => (self.reference(*r.pick(&und)), None),
                _ => (format!("/var/none{n}"), None),
            }
        } else if r.chance(1, 10) {
            (r.pick(&["/datum", "/atom/var/icon_state", "/atom/proc/Click", "/client", "/proc/sleep", "/mob/proc/Login", "/list"]).to_string(), Some("https://www.byond.com/".to_owned()))
        } else if r.chance(1, 5) {
            let mut v: Vec<String> = self.mds.iter().map(|m| m.0.clone()).chain(self.txts.iter().map(|m| m.0.clone())).collect();
            for (i, f) in self.files.iter().enumerate() { if self.file_docs[i].is_some() { v.push(f.clone()); } }
            if v.is_empty() { return None; }
            let f = r.pick(&v).clone();
            let p = format!("{}.html", stem(&f));
            (f, Some(p))
        } else {
            let v: Vec<usize> = (0..self.items.len()).filter(|i| match self.items[*i].what { What::Type => self.substance(*i), _ => self.documented(*i) }).collect();
            if v.is_empty() { return None; }
            let i = *r.pick(&v);
            (self.reference(i), Some(self.url(i)))
        };
        if target.is_some() { self.good.insert(reference.clone()); } else { self.bad.insert(reference.clone()); }
        let (_, w) = self.word();
        let shown = if r.bool() { format!("link {w}") } else { reference.clone() };
        t.links.push((shown.clone(), target.clone()));
        let written = if shown == reference { format!("[{reference}]") } else { format!("[{shown}][{reference}]") };
        let seen = if target.is_some() { shown } else { String::new() };
        Some((written, seen))
    }
    fn reference(&self, i: usize) -> String { let m = &self.items[i]; match m.what { What::Type => m.name.clone(), What::Macro => m.name.clone(), What::Var => format!("{}/var/{}", self.path(m.owner), m.name), What::Proc => format!("{}/{}/{}", self.path(m.owner), if m.extra == "verb" { "verb" } else { "proc" }, m.name) } }
    fn url(&self, i: usize) -> String { let m = &self.items[i]; match m.what { What::Type => self.page_of(i), What::Macro => format!("{}.html#define/{}", stem(&self.files[m.file]), m.name), What::Var => format!("{}#var/{}", self.page_of(m.owner), m.name), What::Proc => format!("{}#proc/{}", self.page_of(m.owner), m.name) } }
}

fn fill(p: &mut Plan, r: &mut Rng, paras: usize, titled: bool) -> Text {
    let mut t = Text::default();
    if titled && r.chance(1, 3) { let w = p.word(); t.title = Some(match r.below(4) { 0 => (format!("{} & Co", w.0), format!("{} & Co", w.1)), 1 => (format!("The `{}`", w.0), format!("The {}", w.1)), _ => w }); }
    for _ in 0..paras {
        let mut v = vec![p.word()];
        for _ in 0..1 + r.below(4) { v.push(p.piece(r)); }
        if r.chance(1, 2) { if let Some(l) = p.crosslink(r, &mut t) { let at = 1 + r.below(v.len()); v.insert(at, l); } }
        v.push(p.word());
        t.paras.push(v);
    }
    t
}

fn plan(r: &mut Rng) -> Plan {
    let mut p = Plan { files: vec![], items: vec![], file_docs: vec![], mds: vec![], txts: vec![], index: None, bad: BTreeSet::new(), good: BTreeSet::new(), n: 0, use_typepath_names: r.chance(1, 6) };
    for k in 0..1 + r.below(4) { p.files.push(format!("{}f{k}.dm", *r.pick(&["code/", "code/", "code/deep/er/", "src/", ""]))); p.file_docs.push(if r.chance(1, 3) { Some(Text::default()) } else { None }); }
    if p.files.iter().all(|f| !f.contains('/')) { p.files[0] = "code/f0.dm".to_owned(); }
    let dirs: BTreeSet<String> = p.files.iter().filter_map(|f| f.split_once('/').map(|x| x.0.to_owned())).collect();
    for d in &dirs {
        if r.chance(1, 3) { p.mds.push((format!("{d}/notes.md"), Text::default())); }
        if r.chance(1, 5) { p.mds.push((format!("{d}/sub/README.md"), Text::default())); }
        if r.chance(1, 4) { let w = p.word(); p.txts.push((format!("{d}/plain.txt"), format!("{} <raw> & [notalink]{}", w.0, if r.bool() { "\n" } else { "" }))); }
    }
    // things; whether they are documented is decided first, so that crosslinks know
    let doc = |r: &mut Rng, num: usize| if r.chance(num, 3) { Some(Text { paras: vec![vec![]; 1 + r.below(3) / 2 * (1 + r.below(2))], ..Text::default() }) } else { None };
    for _ in 0..2 + r.below(6) {
        let owner = p.items.len();
        p.n += 1;
        let parents: Vec<usize> = (0..owner).filter(|i| p.items[*i].what == What::Type).collect();
        let parent = if !parents.is_empty() && r.chance(1, 2) { Some(*r.pick(&parents)) } else { None };
        let name = format!("{}/t{}", match parent { Some(q) => p.items[q].name.clone(), None => (*r.pick(&["/obj", "/mob", "/datum", "/turf"])).to_owned() }, p.n);
        let file = match parent { Some(q) => p.items[q].file + r.below(p.files.len() - p.items[q].file), None => r.below(p.files.len()) };
        let text = doc(r, 2);
        let extra = match if name.starts_with("/datum") { 9 } else { r.below(4) } { 0 => { p.n += 1; format!("Fancy N{}", p.n) }, 1 => { p.n += 1; format!("\\improper Thing N{}", p.n) }, _ => String::new() };
        p.items.push(Item { what: What::Type, name, owner: ROOT, file, text, parent, extra, titled: None });
        for _ in 0..r.below(4) { p.n += 1; let (what, name) = if r.bool() { (What::Var, format!("v{}", p.n)) } else { (What::Proc, format!("p{}", p.n)) }; let text = doc(r, 2); let extra = match (&what, r.below(3)) { (What::Proc, 0) => "verb".to_owned(), _ => String::new() }; p.items.push(Item { what, name, owner, file, text, parent: None, extra, titled: None }); }
        // an inherited member redefined here
        if let Some(q) = parent { if r.chance(1, 2) { let v: Vec<usize> = (0..p.items.len()).filter(|i| p.items[*i].owner == q && p.items[*i].extra.is_empty() && matches!(p.items[*i].what, What::Var | What::Proc)).collect(); if !v.is_empty() { let m = p.items[*r.pick(&v)].clone(); let text = doc(r, 2); p.items.push(Item { owner, file, text, extra: "again".to_owned(), ..m }); } } }
    }
    for _ in 0..r.below(4) { p.n += 1; let (what, name) = if r.bool() { (What::Var, format!("g{}", p.n)) } else { (What::Proc, format!("h{}", p.n)) }; let file = r.below(p.files.len()); let text = doc(r, 2); p.items.push(Item { what, name, owner: ROOT, file, text, parent: None, extra: String::new(), titled: None }); }
    for _ in 0..r.below(4) { p.n += 1; let file = r.below(p.files.len()); let text = doc(r, 2); p.items.push(Item { what: What::Macro, name: format!("MAC_{}", p.n), owner: ROOT, file, text, parent: None, extra: (*r.pick(&["", "(a, b)", "(x...)"])).to_owned(), titled: None }); }
    for i in 0..p.items.len() { if let Some(t) = p.items[i].text.clone() { let titled = p.items[i].what == What::Type; let t = fill(&mut p, r, t.paras.len(), titled); p.items[i].titled = t.title.as_ref().map(|t| t.1.clone()); p.items[i].text = Some(t); } }
    for i in 0..p.files.len() { if p.file_docs[i].is_some() { let k = 1 + r.below(3); p.file_docs[i] = Some(fill(&mut p, r, k, true)); } }
    for i in 0..p.mds.len() { let k = 1 + r.below(3); p.mds[i].1 = fill(&mut p, r, k, true); }
    if r.chance(1, 4) { p.index = Some(fill(&mut p, r, 2, true)); }
    p
}

fn comment(t: &Text, ind: &str, mark: char, r: &mut Rng) -> String {
    let v = t.written();
    let mut s = String::new();
    if r.bool() && (mark == '/' || v.len() == 1) { for l in &v { s += &format!("{ind}//{mark} {l}\n"); } } else {
        let m = if mark == '/' { '*' } else { '!' };
        s += &format!("{ind}/*{m}\n");
        for l in &v { s += &format!("{ind} * {l}\n"); }
        s += &format!("{ind} */\n");
    }
    s
}

fn write(p: &Plan, dir: &Path, r: &mut Rng) -> String {
    let mut files: BTreeMap<String, String> = BTreeMap::new();
    let mut dme = "/world\n\tname = \"World <1>\"\n".to_owned();
    for (k, f) in p.files.iter().enumerate() {
        let mut s = String::new();
        if let Some(t) = &p.file_docs[k] { s += &comment(t, "", '!', r); s += "\n"; }
        let mut order: Vec<usize> = (0..p.items.len()).filter(|i| p.items[*i].file == k).collect();
        // macros and globals anywhere; types keep their order
        let moved: Vec<usize> = order.iter().copied().filter(|i| p.items[*i].owner == ROOT && p.items[*i].what != What::Type).collect();
        order.retain(|i| !moved.contains(i));
        for m in moved { let at = r.below(order.len() + 1); order.insert(at, m); }
        for i in order {
            let m = &p.items[i];
            if m.owner != ROOT { continue; }
            let pre = m.text.as_ref().map(|t| (comment(t, "", '/', r), comment(t, "\t", '!', r)));
            match m.what {
                What::Macro => { if let Some((a, _)) = &pre { s += a; } s += &format!("#define {}{} 1\n", m.name, m.extra); },
                What::Var => { if let Some((a, _)) = &pre { s += a; } s += &format!("/var/{} = 1\n", m.name); },
                What::Proc => { let inside = r.bool(); if let (Some((a, _)), false) = (&pre, inside) { s += a; } s += &format!("/proc/{}(a)\n", m.name); if let (Some((_, b)), true) = (&pre, inside) { s += b; } s += "\treturn\n"; },
                What::Type => {
                    let inside = r.chance(1, 3);
                    if let (Some((a, _)), false) = (&pre, inside) { s += a; }
                    s += &format!("{}\n", m.name);
                    if let (Some((_, b)), true) = (&pre, inside) { s += b; }
                    if !m.extra.is_empty() { s += &format!("\tname = \"{}\"\n", m.extra); }
                    for q in p.items.iter().filter(|q| q.owner == i && q.what != What::Type && q.what != What::Macro) {
                        let again = q.extra == "again";
                        if q.what == What::Var {
                            let ty = if again { String::new() } else { format!("var{}/", match r.below(5) { 0 => "/static", 1 => "/const", 2 => "/list", 3 => { let v: Vec<&Item> = p.items.iter().filter(|t| t.what == What::Type).collect(); v[r.below(v.len())].name.as_str() }, _ => "" }) };
                            let same = q.text.as_ref().is_some_and(|t| t.written().len() == 1) && r.bool();
                            if !same { if let Some(t) = &q.text { s += &comment(t, "\t", '/', r); } }
                            s += &format!("\t{ty}{}{}", q.name, if again || ty.contains("const") { " = 2" } else if r.bool() && (ty == "var/" || ty.contains("static")) { " = 1" } else { "" });
                            if same { s += &format!(" //! {}", q.text.as_ref().unwrap().written()[0]); }
                            s += "\n";
                        } else {
                            let inside = r.bool();
                            if let (Some(t), false) = (&q.text, inside) { s += &comment(t, "\t", '/', r); }
                            let kind = if again { "" } else if q.extra == "verb" { "verb/" } else { "proc/" };
                            s += &format!("\t{kind}{}({})\n", q.name, *r.pick(&["", "a", "a, obj/b as obj", "list/a = 1, b as num|text"]));
                            if let (Some(t), true) = (&q.text, inside) { s += &comment(t, "\t\t", '!', r); }
                            if r.chance(1, 5) { s += "\t\tset SpacemanDMM_return_type = /obj\n"; }
                            s += "\t\treturn\n";
                        }
                    }
                },
            }
        }
        files.insert(f.clone(), s);
        dme += &format!("#include \"{f}\"\n");
    }
    for (i, (f, t)) in p.mds.iter().enumerate() { files.insert(f.clone(), t.written().join("\n") + &format!("\n\n## Part {i}: more, *than* that!\n\nAt the end.\n")); }
    for (f, t) in &p.txts { files.insert(f.clone(), t.clone()); }
    if let Some(t) = &p.index { files.insert("INDEX.md".to_owned(), t.written().join("\n") + "\n"); }
    files.insert("e.dme".to_owned(), dme);
    if p.use_typepath_names { files.insert("SpacemanDMM.toml".to_owned(), "[dmdoc]\nuse_typepath_names = true\n".to_owned()); }
    let mut told = String::new();
    for (f, s) in &files { let q = dir.join(f); std::fs::create_dir_all(q.parent().unwrap()).unwrap(); std::fs::write(q, s).unwrap(); told += &format!("---- {f}\n{s}"); }
    told
}

fn tree(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in walkdir::WalkDir::new(dir) { let e = e.unwrap(); let n = e.path().strip_prefix(dir).unwrap().display().to_string(); if e.file_type().is_file() { m.insert(n, std::fs::read(e.path()).unwrap()); } else { m.insert(n + "/", vec![]); } }
    m
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let r = &mut r;
    let dir = cx.dir("c35");
    let src = dir.join("p");
    std::fs::create_dir_all(&src).unwrap();
    let p = plan(r);
    let told = write(&p, &src, r);
    cx.sig(&told);
    cx.input(told);
    let before = tree(&src);
    let index: Vec<&str> = if p.index.is_some() { vec!["--index", "INDEX.md"] } else { vec![] };

    let dry = cli::run("dmdoc", &cli::args(&[&["-e", "e.dme", "--dry-run"][..], &index].concat()), &src, None, 60);
    ensure!(cx, !dry.hung && dry.code.is_some_and(|c| c != 101), "dry:fails", "{}", dry.told());
    ensure!(cx, tree(&src) == before, "dry:writes", "a dry run changed the project's directory\n{}", dry.told());
    ensure!(cx, (dry.code == Some(0)) == p.bad.is_empty(), "dry:status", "unresolved references {:?}, but the dry run ended with {:?}\n{}", p.bad, dry.code, dry.told());
    for b in &p.bad { ensure!(cx, dry.err.contains(&format!("[{b}]")), "dry:silent", "the unresolved reference [{b}] is not reported\n{}", dry.told()); }
    for g in &p.good { ensure!(cx, !dry.err.contains(&format!("[{g}]:")), "dry:complains", "the reference [{g}] is reported\n{}", dry.told()); }

    let out = dir.join("o");
    let real = cli::run("dmdoc", &cli::args(&[&["-e", "e.dme", "--output", "../o/docs"][..], &index].concat()), &src, None, 60);
    ensure!(cx, real.code == Some(0), "run:fails", "{}", real.told());
    ensure!(cx, tree(&src) == before, "run:writes", "the run changed the project's directory\n{}", real.told());
    let files = tree(&out.join("docs"));
    if r.chance(1, 3) {
        let again = cli::run("dmdoc", &cli::args(&[&["-e", "e.dme", "--output", "../again"][..], &index].concat()), &src, None, 60);
        ensure!(cx, again.out == real.out && again.err == real.err && tree(&dir.join("again")) == files, "run:differs", "a second run wrote something else\n{}\n{}", real.told(), again.told());
        cx.count("runs repeated", 1);
    }
    let mut pages = BTreeMap::new();
    for (f, b) in &files { if f.ends_with(".html") { match page(&String::from_utf8_lossy(b)) { Ok(p) => { pages.insert(f.clone(), p); }, Err(e) => { cx.violate("html", format!("{f}: {e}\n{}", String::from_utf8_lossy(b))); return; } } } }
    ensure!(cx, tree(&out).keys().all(|k| k == "/" || k.starts_with("docs")), "run:elsewhere", "files outside the output directory: {:?}", tree(&out).keys().collect::<Vec<_>>());

    // the pages
    let (must, may) = p.module_pages();
    let mut types: BTreeSet<String> = (0..p.items.len()).filter(|i| p.items[*i].what == What::Type && p.substance(*i)).map(|i| p.page_of(i)).collect();
    if p.items.iter().any(|m| m.owner == ROOT && matches!(m.what, What::Var | What::Proc) && m.text.is_some()) { types.insert("global.html".to_owned()); }
    let mut want: BTreeSet<String> = types.union(&must).cloned().collect();
    want.insert("index.html".to_owned());
    for w in &want { ensure!(cx, pages.contains_key(w), "page:missing", "there is no page {w}; written: {:?}", pages.keys().collect::<Vec<_>>()); }
    for w in pages.keys() { ensure!(cx, want.contains(w) || may.contains(w), "page:extra", "there is a page {w} for which nothing was documented"); }

    // every link and anchor
    for (f, pg) in &pages {
        ensure!(cx, pg.twice.is_empty(), "anchor:twice", "{f} has the anchors {:?} twice", pg.twice);
        for s in &pg.srcs { let (t, _) = resolve(f, &pg.base, s); ensure!(cx, files.contains_key(&t), "link:resource", "{f} uses {s}, which is {t} and is not there"); }
        for (h, text, _) in &pg.links {
            cx.count("links followed", 1);
            if h.starts_with("https://") { cx.count("links elsewhere", 1); continue; }
            let (t, frag) = resolve(f, &pg.base, h);
            let Some(tp) = pages.get(&t) else { cx.violate("link:page", format!("on {f}, {text:?} links to {h}, which is {t} and is not there")); return; };
            if t == "index.html" && frag.as_deref().is_some_and(|x| x == "modules" || x == "types") { continue; }
            if let Some(x) = frag { ensure!(cx, tp.ids.contains(&x), "link:anchor", "on {f}, {text:?} links to {h}, but {t} has no anchor {x}"); cx.count("anchors found", 1); }
        }
    }

    // the entries
    let mut kinds = BTreeSet::new();
    let mut links = |cx: &mut Cx, at: &str, section: Option<&str>, t: &Text| -> bool {
        let pg = &pages[at];
        for (shown, target) in &t.links {
            let found: Vec<&(String, String, String)> = pg.links.iter().filter(|l| l.1 == *shown && section.is_none_or(|s| s == l.2)).collect();
            match target {
                Some(u) if u.starts_with("https:") => { if !found.iter().any(|l| l.0.starts_with("https://www.byond.com/docs/ref/#")) { cx.violate("crosslink:builtin", format!("{shown:?} on {at} ({section:?}) should lead to the reference: {found:?}")); return false; } kinds.insert("builtin"); },
                Some(u) => {
                    let (want, frag) = resolve("index.html", "", u);
                    if !found.iter().any(|l| resolve(at, &pg.base, &l.0) == (want.clone(), frag.clone())) { cx.violate("crosslink:lost", format!("{shown:?} on {at} ({section:?}) should lead to {u}: {found:?}\nsection: {:?}", section.map(|s| pg.sections.get(s)))); return false; }
                    kinds.insert(if u.contains("#var") { "var" } else if u.contains("#proc") { "proc" } else if u.contains("#define") { "define" } else if types.contains(u) { "type" } else { "file" });
                    cx.count("crosslinks to documented items", 1);
                },
                None => cx.count("crosslinks to nothing", 1),
            }
        }
        true
    };
    let has = |page: &str, section: &str, text: &Text| -> Option<String> {
        let s = pages[page].sections.get(section).cloned().unwrap_or_default();
        // an unresolved reference may be shown or guessed: compare around it
        let mut at = 0;
        for para in &text.paras { let mut run = String::new(); for x in para.iter().chain([&(String::new(), "\u{0}".to_owned())]) { if x.1.is_empty() || x.1 == "\u{0}" { let k = run.trim(); if !k.is_empty() { match s[at..].find(k) { Some(q) => at += q + k.len(), None => return Some(format!("{k:?} is not in {s:?}")) } } run.clear(); } else { run += &x.1; run.push(' '); } } }
        None
    };
    let starts = |t: &Text| -> String { let t0: Vec<&str> = t.paras[0].iter().map(|x| x.1.as_str()).take_while(|x| !x.is_empty()).collect(); t0.join(" ") };
    for (i, m) in p.items.iter().enumerate() {
        if let (Some(t), true) = (&m.text, m.what != What::Type) {
            let (at, id) = { let u = p.url(i); let (a, b) = u.split_once('#').unwrap(); (a.to_owned(), b.to_owned()) };
            ensure!(cx, pages[&at].ids.contains(&id), "entry:missing", "{} has no entry on {at}", p.reference(i));
            if let Some(e) = has(&at, &id, t) { cx.violate("entry:text", format!("{} on {at}: {e}", p.reference(i))); return; }
            if !links(cx, &at, Some(&id), t) { return; }
            let row = format!("{} {}", m.name, starts(t));
            ensure!(cx, pages[&at].rows.iter().any(|r| r.contains(row.trim())), "entry:summary", "{} is not summed up on {at} as {row:?}: {:?}", p.reference(i), pages[&at].rows);
            if m.owner == ROOT && m.what != What::Macro { let mp = format!("{}.html", stem(&p.files[m.file])); if let Some(pg) = pages.get(&mp) { ensure!(cx, pg.rows.iter().any(|r| r.contains(row.trim())), "entry:file", "{} is not listed on {mp}: {:?}", p.reference(i), pg.rows); } }
            cx.count("entries compared", 1);
        } else if m.text.is_none() && m.what != What::Type {
            let id = match m.what { What::Var => format!("var/{}", m.name), What::Proc => format!("proc/{}", m.name), _ => format!("define/{}", m.name) };
            let at = if m.what == What::Macro { format!("{}.html", stem(&p.files[m.file])) } else { p.page_of(m.owner) };
            ensure!(cx, pages.get(&at).is_none_or(|pg| !pg.ids.contains(&id)), "entry:extra", "{} is not documented but has an entry on {at}", p.reference(i));
        }
        if m.what == What::Type {
            if let Some(t) = &m.text {
                if p.substance(i) { let at = p.page_of(i); if let Some(e) = has(&at, "top", t) { cx.violate("type:text", format!("{}: {e}", m.name)); return; } if !links(cx, &at, Some("top"), t) { return; } }
                let ix = &pages["index.html"].sections["top"];
                ensure!(cx, ix.contains(&starts(t)), "type:index", "the teaser {:?} of {} is not in the index: {ix:?}", starts(t), m.name);
                let mp = format!("{}.html", stem(&p.files[m.file]));
                if let Some(pg) = pages.get(&mp) { let row = format!("{} {}", m.name, starts(t)); ensure!(cx, pg.rows.iter().any(|r| r.contains(row.trim())), "type:file", "{} is not listed on {mp} as {row:?}: {:?}", m.name, pg.rows); }
                cx.count("type entries compared", 1);
            }
            if p.substance(i) {
                let at = p.page_of(i);
                let named = m.extra.trim_start_matches("\\improper ").to_owned();
                let title = match (&m.titled, m.extra.is_empty(), p.use_typepath_names) { (Some(t), _, _) => Some(t.clone()), (None, false, false) => Some(named), (None, _, true) => Some(m.name.rsplit('/').next().unwrap().to_owned()), _ => None };
                if let Some(t) = title {
                    ensure!(cx, pages[&at].h1.starts_with(&t), "title", "{} should be titled {t:?}: {:?}", m.name, pages[&at].h1);
                    ensure!(cx, pages["index.html"].links.iter().any(|l| l.1 == t && resolve("index.html", "", &l.0).0 == at), "title:index", "{} is not in the index as {t:?}: {:?}", m.name, pages["index.html"].links);
                    cx.count("titles compared", 1);
                } else { ensure!(cx, pages["index.html"].links.iter().any(|l| l.1 == m.name.rsplit('/').next().unwrap() && resolve("index.html", "", &l.0).0 == at), "index:type", "{} is not in the index: {:?}", m.name, pages["index.html"].links); }
                ensure!(cx, pages[&at].h1.contains(&m.name), "title:path", "the page of {} does not show its path: {:?}", m.name, pages[&at].h1);
            }
        }
    }
    for (f, t) in p.files.iter().zip(&p.file_docs).filter_map(|(f, t)| t.as_ref().map(|t| (f, t))).chain(p.mds.iter().map(|(f, t)| (f, t))) {
        let at = format!("{}.html", stem(f));
        if let Some(e) = has(&at, "top", t) { cx.violate("file:text", format!("{f}: {e}")); return; }
        if !links(cx, &at, Some("top"), t) { return; }
        if let Some((_, title)) = &t.title { ensure!(cx, pages[&at].h1.starts_with(title.as_str()), "title:file", "{f} should be titled {title:?}: {:?}", pages[&at].h1); }
        ensure!(cx, pages["index.html"].links.iter().any(|l| resolve("index.html", "", &l.0).0 == at), "index:file", "{f} is not in the index");
        cx.count("file entries compared", 1);
    }
    for (i, (f, _)) in p.mds.iter().enumerate() { let at = format!("{}.html", stem(f)); ensure!(cx, pages[&at].ids.contains(&format!("part-{i}-more-than-that")), "anchor:heading", "the heading in {f} has no anchor: {:?}", pages[&at].ids); cx.count("headings found", 1); }
    for (f, t) in &p.txts { let at = format!("{}.html", stem(f)); let s = &pages[&at].sections["top"]; ensure!(cx, s.contains(t.trim()) && !s.contains("```"), "text file", "{f} is {t:?} and shown as {s:?}"); cx.count("text files compared", 1); }
    if let Some(t) = &p.index { if let Some(e) = has("index.html", "top", t) { cx.violate("index:text", e); return; } if !links(cx, "index.html", Some("top"), t) { return; } if let Some((_, title)) = &t.title { ensure!(cx, pages["index.html"].h1 == *title, "title:front", "the front page should be titled {title:?}: {:?}", pages["index.html"].h1); } }
    cx.count("pages written", pages.len() as u64);
    if kinds.len() >= 3 { cx.nontrivial(); }
}

fn simple(cx: &mut Cx, text: &str, args: &[&str]) -> (cli::Out, BTreeMap<String, Vec<u8>>) {
    let dir = cx.dir("c35");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("p/code")).unwrap();
    std::fs::write(dir.join("p/e.dme"), "#include \"code/a.dm\"\n").unwrap();
    std::fs::write(dir.join("p/code/a.dm"), text).unwrap();
    cx.sig(&text);
    cx.input(text.chars().take(3000).collect::<String>());
    let o = cli::run("dmdoc", &cli::args(&[&["-e", "e.dme", "--output", "../o"][..], args].concat()), &dir.join("p"), None, 60);
    let t = if dir.join("o").exists() { tree(&dir.join("o")) } else { BTreeMap::new() };
    (o, t)
}
fn many(cx: &mut Cx) {
    for n in [1, 2, 255, 256, 257, 512, 1000] {
        let mut s = String::new();
        for k in 0..n { s += &format!("/// see [/obj/none{k}]\n/var/v{k}\n"); }
        let (o, _) = simple(cx, &s, &["--dry-run"]);
        ensure!(cx, o.code.is_some_and(|c| c != 0 && c != 101), "dry:many", "{n} unresolved references, but the dry run ended with {:?}", o.code);
    }
}
fn titles(cx: &mut Cx) {
    let (o, t) = simple(cx, "/**\n * # R&D `x < y` *now*\n *\n * one\n *\n * two\n */\n/obj/a\n//! # M&M\n//!\n//! text\n", &[]);
    ensure!(cx, o.code == Some(0), "run:fails", "{}", o.told());
    for (f, want) in [("obj/a.html", "R&D x < y now"), ("code/a.html", "M&M")] {
        let Some(b) = t.get(f) else { cx.violate("page:missing", f); return; };
        let pg = match page(&String::from_utf8_lossy(b)) { Ok(p) => p, Err(e) => { cx.violate("html", e); return; } };
        ensure!(cx, pg.h1.starts_with(want), "title", "{f} should be titled {want:?} and is {:?}", pg.h1);
    }
}
fn texts(cx: &mut Cx) {
    for end in ["", "\n", "\n\n"] {
        let dir = cx.dir("c35");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("p/code")).unwrap();
        std::fs::write(dir.join("p/e.dme"), "#include \"code/a.dm\"\n").unwrap();
        std::fs::write(dir.join("p/code/a.dm"), "/obj/a\n").unwrap();
        std::fs::write(dir.join("p/code/b.txt"), format!("the last line{end}")).unwrap();
        cx.input(format!("code/b.txt: the last line{end:?}"));
        let o = cli::run("dmdoc", &cli::args(&["-e", "e.dme", "--output", "../o"]), &dir.join("p"), None, 60);
        ensure!(cx, o.code == Some(0), "run:fails", "{}", o.told());
        let pg = page(&String::from_utf8_lossy(&std::fs::read(dir.join("o/code/b.html")).unwrap_or_default())).unwrap_or_default();
        let s = pg.sections.get("top").cloned().unwrap_or_default();
        ensure!(cx, s.contains("the last line") && !s.contains("`"), "text file", "\"the last line{end:?}\" is shown as {s:?}");
    }
}
