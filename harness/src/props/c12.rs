use crate::dm_util::*;
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use dm::ast::PathOp;
use dm::constants::Constant;
use dm::objtree::*;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "C12",
    quick: 12000,
    thorough: 300000,
    case,
    directed: &[("cycles of every length", cycles), ("odd parents", odd), ("standard types", standard), ("global procs are no parents", globals)],
    rule: "a case is a random forest of type, variable, proc and parent_type declarations; a model of the declarations computes every type's parent, every variable's and proc's nearest definition, the chain of parent implementations and the diagnostics, and every one of them is compared with the real object tree for every type and every name, in three different nestings of the same declarations; distinct by source text, non-trivial when at least one lookup crosses an explicit parent_type",
    assumptions: &["a variable set twice in one type keeps the last value and a proc's definition counts as written before the overrides of the same type, as the code documents", "the types that the DM language gives a fixed parent keep it"],
    ..DEFAULT
};

#[derive(Clone, Debug)]
enum It {
    Type,
    Parent(String),         // text of the value
    VarDecl(String, Option<i32>),
    VarSet(String, i32),
    Proc(bool, String, u32), // verb?, name, id
    Over(String, u32),
}

struct Model {
    /// path -> resolved parent ("" is the root); None when the type has no valid parent of its own
    parent: BTreeMap<String, String>,
    bad: BTreeSet<String>,
    cyclic: BTreeSet<String>,
    vars: BTreeMap<(String, String), (bool, Option<i32>)>, // declared here?, last value
    procs: BTreeMap<(String, String), (bool, Vec<u32>)>,
    diags: BTreeMap<String, usize>,
    explicit: BTreeSet<String>,
}

fn fixed_parent(p: &str) -> Option<&'static str> {
    Some(match p {
        "/datum" | "/list" | "/world" | "/savefile" | "/client" | "/alist" | "/vector" => "",
        "/atom" | "/image" => "/datum",
        "/turf" | "/area" => "/atom",
        "/obj" | "/mob" => "/atom/movable",
        _ => return None,
    })
}

fn model(items: &[(String, It)], builtin: &dyn Fn(&str) -> bool) -> Model {
    let mut types: BTreeSet<String> = BTreeSet::new();
    let mut m = Model { parent: BTreeMap::new(), bad: BTreeSet::new(), cyclic: BTreeSet::new(), vars: BTreeMap::new(), procs: BTreeMap::new(), diags: BTreeMap::new(), explicit: BTreeSet::new() };
    let mut par: BTreeMap<String, String> = BTreeMap::new();
    for (p, it) in items {
        let mut at = String::new();
        for seg in p.split('/').skip(1) {
            at.push('/');
            at.push_str(seg);
            types.insert(at.clone());
        }
        match it {
            It::Type => {}
            It::Parent(t) => { par.insert(p.clone(), t.clone()); }
            It::VarDecl(n, v) => {
                let e = m.vars.entry((p.clone(), n.clone())).or_default();
                e.0 = true;
                e.1 = *v;
            }
            It::VarSet(n, v) => { m.vars.entry((p.clone(), n.clone())).or_default().1 = Some(*v); }
            It::Proc(verb, n, id) => {
                let e = m.procs.entry((p.clone(), n.clone())).or_default();
                if e.0 { *m.diags.entry(format!("Error: duplicate definition of {}/{n}", if *verb { "verb" } else { "proc" })).or_default() += 1; }
                e.0 = true;
                if !e.1.is_empty() {
                    *m.diags.entry(format!("Hint: override of {p}/{n} precedes definition")).or_default() += 1;
                    e.1.insert(0, *id);
                } else {
                    e.1.push(*id);
                }
            }
            It::Over(n, id) => m.procs.entry((p.clone(), n.clone())).or_default().1.push(*id),
        }
    }
    for t in &types {
        let mut want = match (fixed_parent(t), t.rfind('/')) {
            (Some(f), _) => f.to_string(),
            (None, Some(0)) => "/datum".to_string(),
            (None, i) => t[..i.unwrap()].to_string(),
        };
        if let Some(text) = par.get(t) {
            m.explicit.insert(t.clone());
            let lit = text.trim_matches('"');
            if text.starts_with('/') || text.starts_with('"') {
                want = lit.to_string();
            } else {
                *m.diags.entry(format!("Error: value of {t}/parent_type must be a string or typepath, got {text}")).or_default() += 1;
            }
        }
        let known = types.contains(&want) || builtin(&want) || (want.is_empty() && (t == "/client" || fixed_parent(t) == Some("")));
        if !known {
            *m.diags.entry(format!("Error: bad parent type for {t}: {want}")).or_default() += 1;
            m.bad.insert(t.clone());
            want = String::new();
        }
        m.parent.insert(t.clone(), want);
    }
    // Types whose chain never ends.
    for t in &types {
        let mut cur = t.clone();
        let mut steps = 0;
        while let Some(p) = m.parent.get(&cur) {
            cur = p.clone();
            steps += 1;
            if steps > types.len() + 2 { m.cyclic.insert(t.clone()); break; }
        }
    }
    m
}

impl Model {
    fn parent_of(&self, t: &str) -> Option<String> {
        if t.is_empty() { return None; }
        if let Some(p) = self.parent.get(t) { return Some(p.clone()); }
        // a builtin type not mentioned by the program
        Some(match (fixed_parent(t), t.rfind('/').unwrap()) {
            (Some(f), _) => f.to_string(),
            (None, 0) => "/datum".into(),
            (None, i) => t[..i].into(),
        })
    }
    fn chain(&self, t: &str) -> Vec<String> {
        let mut v = vec![t.to_string()];
        while let Some(p) = self.parent_of(v.last().unwrap()) { v.push(p); }
        v
    }
}

/// Writes the items, in their order, nesting runs that share a prefix as the style says.
fn render(rng: &mut Rng, items: &[(String, It)], style: usize) -> String {
    // style 0: every item on one absolute line; 1: one segment per level; 2: random
    let mut out = String::new();
    let mut open: Vec<(String, usize)> = Vec::new(); // (full path prefix opened, depth)
    // pieces of the proc and var words are kept with the leaf, or opened as a block of their own
    let mut words: Option<String> = None;
    for (p, it) in items {
        let segs: Vec<&str> = p.split('/').skip(1).collect();
        let mut keep = 0;
        let full: Vec<String> = (0..=segs.len()).map(|i| segs[..i].iter().map(|s| format!("/{s}")).collect()).collect();
        if style != 0 {
            while keep < open.len() && full.contains(&open[keep].0) && full.iter().position(|f| *f == open[keep].0) > keep.checked_sub(1).and_then(|k| full.iter().position(|f| *f == open[k].0)) { keep += 1; }
            if style == 2 && rng.chance(1, 4) { keep = rng.below(keep + 1); }
        }
        if words.is_some() && !(keep == open.len() && open.last().map(|o| &o.0) == Some(p)) { words = None; }
        open.truncate(keep);
        let mut at = open.last().map(|o| full.iter().position(|f| *f == o.0).unwrap()).unwrap_or(0);
        // leaf text
        let (word, rest): (Option<&str>, String) = match it {
            It::Type => (None, String::new()),
            It::Parent(t) => (None, format!("parent_type = {t}")),
            It::VarDecl(n, v) => (Some("var"), match v { Some(v) => format!("{n} = {v}"), None => n.clone() }),
            It::VarSet(n, v) => (None, format!("{n} = {v}")),
            It::Proc(verb, n, id) => (Some(if *verb { "verb" } else { "proc" }), format!("{n}(a{id})")),
            It::Over(n, id) => (None, format!("{n}(a{id})")),
        };
        let isproc = matches!(it, It::Proc(..) | It::Over(..));
        let end = if matches!(it, It::Type) { segs.len().saturating_sub(1).max(at.min(segs.len())) } else { segs.len() };
        if words.is_some() && words.as_deref() != word { words = None; }
        // open blocks
        while style != 0 && at < end && (style == 1 || rng.chance(2, 3)) {
            let take = if style == 1 { 1 } else { 1 + rng.below(end - at) };
            let depth = open.len();
            let lead = if depth == 0 { "/" } else { "" };
            let text = segs[at..at + take].join("/");
            at += take;
            out.push_str(&format!("{}{lead}{text}\n", "\t".repeat(depth)));
            open.push((full[at].clone(), depth));
        }
        let mut depth = open.len();
        let mut line = segs[at..].join("/");
        if at >= segs.len() && matches!(it, It::Type) { continue; }
        if let Some(w) = word {
            if words.as_deref() == Some(w) && line.is_empty() && !open.is_empty() {
                depth += 1;
            } else if style != 0 && line.is_empty() && !open.is_empty() && rng.chance(1, 2) {
                out.push_str(&format!("{}{w}\n", "\t".repeat(depth)));
                words = Some(w.to_string());
                depth += 1;
            } else {
                words = None;
                if !line.is_empty() { line.push('/'); }
                line.push_str(w);
            }
        } else {
            words = None;
        }
        if !rest.is_empty() {
            if !line.is_empty() { line.push('/'); }
            line.push_str(&rest);
        }
        let lead = if depth == 0 { "/" } else { "" };
        out.push_str(&format!("{}{lead}{line}\n", "\t".repeat(depth)));
        if isproc { out.push_str(&format!("{}return\n", "\t".repeat(depth + 1))); }
    }
    out
}

const VARS: [&str; 5] = ["v0", "v1", "v2", "v3", "v4"];
const PROCS: [&str; 4] = ["p0", "p1", "p2", "p3"];

fn forest(rng: &mut Rng, size: usize) -> Vec<(String, It)> {
    let names = ["a", "b", "c", "dd"];
    let roots = ["/a", "/b", "/c", "/datum", "/obj", "/mob", "/atom/movable", "/turf/a", "/obj/b", "/datum/a", "/world", "/client"];
    let mut types: Vec<String> = Vec::new();
    for _ in 0..2 + rng.below(3 + size / 8) {
        let t = if types.is_empty() || rng.chance(1, 3) { rng.pick(&roots).to_string() } else { format!("{}/{}", rng.pick(&types), rng.pick(&names)) };
        if t.matches('/').count() <= 6 { types.push(t); }
    }
    types.sort();
    types.dedup();
    let mut items: Vec<(String, It)> = Vec::new();
    let mut id = 0;
    let mut has_parent = BTreeSet::new();
    for _ in 0..types.len() + rng.below(4 + size / 2) {
        let t = rng.pick(&types).clone();
        if t == "/world" || t == "/client" { if rng.bool() { continue; } }
        let it = match rng.below(12) {
            0 | 1 => It::Type,
            2 | 3 => {
                if t == "/client" || fixed_parent(&t).is_some() || t == "/atom/movable" || !has_parent.insert(t.clone()) { continue; }
                let target = if rng.chance(1, 12) { "/nowhere/at/all".to_string() } else { rng.pick(&types).clone() };
                // mostly acyclic: only earlier targets
                let dangling = rng.chance(1, 10);
                let target = if rng.chance(14, 15) && target >= t { if dangling { "/a0/none" } else { *rng.pick(&["/obj", "/mob", "/datum"]) }.to_string() } else { target };
                It::Parent(if rng.chance(1, 25) { rng.pick(&["4", "null"]).to_string() } else if rng.chance(1, 4) { format!("\"{target}\"") } else { target })
            }
            4 | 5 => It::VarDecl(rng.pick(&VARS).to_string(), if rng.bool() { Some(rng.below(1000) as i32) } else { None }),
            6 | 7 => It::VarSet(rng.pick(&VARS).to_string(), rng.below(1000) as i32),
            8 | 9 => { id += 1; It::Proc(rng.chance(1, 4), rng.pick(&PROCS).to_string(), id) }
            _ => { id += 1; It::Over(rng.pick(&PROCS).to_string(), id) }
        };
        items.push((t, it));
    }
    if rng.bool() { items.sort_by(|a, b| a.0.cmp(&b.0)); }
    if items.is_empty() { items.push(("/a".into(), It::Type)); }
    items
}

fn case(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let items = forest(&mut rng, cx.size);
    check_all(cx, &mut rng, &items);
}

thread_local! { static BUILTIN: BTreeSet<String> = ObjectTree::with_builtins().iter_types().map(|t| t.path.clone()).collect(); }

fn check_all(cx: &mut Cx, rng: &mut Rng, items: &[(String, It)]) {
    let m = model(items, &|p| BUILTIN.with(|b| b.contains(p) && !p.is_empty()));
    let mut first: Option<String> = None;
    for style in 0..3 {
        let text = render(rng, items, style);
        if first.is_none() { cx.input(text.clone()); first = Some(text.clone()); }
        cx.count("texts parsed", 1);
        check(cx, &text, &m, items);
        if cx.violated() { cx.input(text); return; }
    }
    cx.max("types in one case", m.parent.len() as u64);
    cx.max("longest chain of parents", m.parent.keys().filter(|t| !m.cyclic.contains(*t)).map(|t| m.chain(t).len()).max().unwrap_or(0) as u64);
}

fn check(cx: &mut Cx, text: &str, m: &Model, items: &[(String, It)]) {
    let parsed = parse_text(text);
    let tree = &parsed.tree;
    // --- diagnostics
    let mut got: BTreeMap<String, usize> = BTreeMap::new();
    let mut cyclic_reported = Vec::new();
    for e in parsed.context.errors().iter() {
        let d = format!("{:?}: {}", e.severity(), e.description());
        if let Some(t) = e.description().strip_prefix("cyclic parent type for ") { cyclic_reported.push(t.to_string()); continue; }
        *got.entry(d).or_default() += 1;
    }
    let mut want = m.diags.clone();
    for ((t, n), (declared, _)) in &m.vars {
        if *declared || m.cyclic.contains(t) { continue; }
        if !m.chain(t).iter().any(|a| m.vars.get(&(a.clone(), n.clone())).is_some_and(|v| v.0)) {
            *want.entry(format!("Error: undefined var '{n}' on type '{t}'")).or_default() += 1;
        }
    }
    got.retain(|d, _| !(m.cyclic.iter().chain(&m.bad).any(|t| d.contains(&format!("on type '{t}"))) && d.contains("undefined var '")) && !(d.contains("undefined var 'parent_type' on type")));
    want.retain(|d, _| !(m.cyclic.iter().chain(&m.bad).any(|t| d.contains(&format!("on type '{t}"))) && d.contains("undefined var '")));
    ensure!(cx, got == want, "diagnostics", "diagnostics differ\n got {got:?}\nwant {want:?}\n{text}");
    // every cycle is reported, on a member of it, and nothing else is
    for t in &cyclic_reported {
        ensure!(cx, m.cyclic.contains(t), "false cycle", "{t} is reported as cyclic but is not\n{text}");
    }
    for t in &m.cyclic {
        let mut cur = t.clone();
        let mut seen = Vec::new();
        while !seen.contains(&cur) { seen.push(cur.clone()); cur = m.parent[&cur].clone(); }
        ensure!(cx, seen.iter().any(|s| cyclic_reported.contains(s)), "unreported cycle", "the cycle reached from {t} is not reported: {cyclic_reported:?}\n{text}");
    }
    cx.count("cyclic types", m.cyclic.len() as u64);
    // --- types
    let all: BTreeSet<String> = tree.iter_types().map(|t| t.path.clone()).collect();
    let mut must: BTreeSet<String> = BUILTIN.with(|b| b.clone());
    must.extend(m.parent.keys().cloned());
    ensure!(cx, all == must, "set of types", "types differ: {:?}\n{text}", all.symmetric_difference(&must).collect::<Vec<_>>());
    let total = all.len();
    for ty in tree.iter_types() {
        // termination, whatever the declarations
        let mut n = 0;
        let mut cur = Some(ty);
        while let Some(c) = cur {
            n += 1;
            ensure!(cx, n <= total + 1, "walk does not end", "the parents of {} never end\n{text}", ty.path);
            cur = c.parent_type();
        }
    }
    let user: Vec<&String> = m.parent.keys().collect();
    let mut subs: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for t in tree.iter_types() {
        for a in t.iter_parent_types() { subs.entry(a.path.clone()).or_default().insert(t.path.clone()); }
    }
    for path in &user {
        let Some(ty) = tree.find(path) else { cx.violate("missing type", format!("{path}\n{text}")); return };
        // recurse_types is the exact inverse of the parent chain
        let mut seen = Vec::new();
        ty.recurse_types(&mut |t: TypeRef| seen.push(t.path.clone()));
        let set: BTreeSet<String> = seen.iter().cloned().collect();
        ensure!(cx, set.len() == seen.len() && set == subs[*path], "descendants", "descendants of {path}: got {seen:?} want {:?}\n{text}", subs[*path]);
        let segs: Vec<&str> = path.split('/').skip(1).collect();
        let by = tree.type_by_path(segs.iter()).map(|t| t.path.clone());
        ensure!(cx, by.as_ref() == Some(*path) || segs[0] == "list", "type_by_path", "{path} is found as {by:?}");
        let mut miss = segs.clone();
        miss.push("nonesuch");
        ensure!(cx, segs[0] == "list" || tree.type_by_path(miss.iter()).is_none(), "type_by_path", "{path}/nonesuch is found");
        ensure!(cx, ty.parent_path().map(|t| t.path.clone()).as_deref() == Some(&path[..path.rfind('/').unwrap()]), "parent path", "{path}");
        let kids: BTreeSet<String> = ty.children().map(|c| c.path.clone()).collect();
        let want_kids: BTreeSet<String> = all.iter().filter(|a| a.rfind('/').is_some_and(|i| &a[..i] == path.as_str())).cloned().collect();
        ensure!(cx, kids == want_kids, "children", "children of {path}: {kids:?} want {want_kids:?}");
        for name in ["a", "b", "c", "dd", "nonesuch"] {
            let slash = ty.navigate(PathOp::Slash, name).map(|t| t.path.clone());
            let w = format!("{path}/{name}");
            let w = if all.contains(&w) { Some(w) } else { None };
            ensure!(cx, slash == w, "navigate /", "{path}/{name}: {slash:?}");
            let mut w = None;
            let mut at = path.to_string();
            loop {
                let c = format!("{at}/{name}");
                if all.contains(&c) { w = Some(c); break; }
                match at.rfind('/') { Some(i) => at.truncate(i), None => break }
            }
            let dot = ty.navigate(PathOp::Dot, name).map(|t| t.path.clone());
            ensure!(cx, dot == w, "navigate .", "{path}.{name}: {dot:?} want {w:?}");
            let colon = ty.navigate(PathOp::Colon, name).map(|t| t.path.clone());
            let cands: Vec<&String> = all.iter().filter(|a| a.starts_with(&format!("{path}/")) && a.ends_with(&format!("/{name}"))).collect();
            ensure!(cx, match &colon { Some(c) => cands.contains(&c), None => cands.is_empty() }, "navigate :", "{path}:{name}: {colon:?} of {cands:?}");
        }
        if m.cyclic.contains(*path) || m.chain(path).iter().any(|a| m.cyclic.contains(a)) { continue; }
        // --- the chain itself
        let chain: Vec<String> = ty.iter_parent_types().map(|t| t.path.clone()).collect();
        let want = m.chain(path);
        ensure!(cx, chain == want, "parent chain", "the parents of {path}\n got {chain:?}\nwant {want:?}\n{text}");
        cx.count("chains compared", 1);
        if m.explicit.contains(*path) { cx.count("explicit parents", 1); }
        for other in &user {
            let o = tree.find(other).unwrap();
            let w = want.contains(other);
            ensure!(cx, ty.is_subtype_of(o.get()) == w, "is_subtype_of", "{path} subtype of {other}: should be {w}\n{text}");
            let wp = path.as_str() == other.as_str() || path.starts_with(&format!("{other}/"));
            ensure!(cx, ty.is_subpath_of(other) == wp, "is_subpath_of", "{path} subpath of {other}: should be {wp}");
        }
        // --- variables
        for v in VARS {
            let near = want.iter().find_map(|a| m.vars.get(&(a.clone(), v.to_string())).map(|x| (a.clone(), x.clone())));
            let got = ty.get_value(v).map(|x| match &x.constant { Some(Constant::Float(f)) => Some(*f as i32), Some(Constant::Null(_)) | None => None, Some(o) => Some(-(o.to_string().len() as i32)) });
            let w = near.as_ref().map(|x| x.1.1);
            let declared = want.iter().find(|a| m.vars.get(&(a.to_string(), v.to_string())).is_some_and(|x| x.0));
            if declared.is_some() || w.is_none() {
                ensure!(cx, got == w, "variable value", "{path}.{v}: got {got:?} want {near:?}\n{text}");
            }
            let gd = ty.get_var_declaration(v).map(|d| d.location.line);
            ensure!(cx, gd.is_some() == declared.is_some(), "variable declaration", "{path}.{v}: declared {gd:?}, want {declared:?}\n{text}");
            if let Some(d) = declared {
                let holder = tree.find(d).unwrap();
                let l = holder.vars.get(v).and_then(|x| x.declaration.as_ref()).map(|x| x.location.line);
                ensure!(cx, gd == l && l.is_some(), "variable declaration place", "{path}.{v} is declared on line {gd:?}, not on {d}'s {l:?}\n{text}");
            }
            if let Some((a, _)) = &near {
                cx.count("variable lookups", 1);
                if a != *path { cx.count("variable lookups answered by an ancestor", 1); let i = want.iter().position(|x| x == a).unwrap(); if want[..i].iter().any(|x| m.explicit.contains(x)) { cx.nontrivial(); } }
            }
        }
        // --- procs
        for p in PROCS {
            let mut w: Vec<(String, u32)> = Vec::new();
            let mut decl = None;
            for a in &want {
                if let Some((d, ids)) = m.procs.get(&(a.clone(), p.to_string())) {
                    for id in ids.iter().rev() { w.push((a.clone(), *id)); }
                    if *d && decl.is_none() { decl = Some(a.clone()); }
                }
            }
            let mut got = Vec::new();
            let mut cur = ty.get_proc(p);
            while let Some(pr) = cur {
                let id: u32 = pr.get().parameters[0].name[1..].parse().unwrap();
                got.push((pr.ty().path.clone(), id));
                if got.len() > w.len() + 3 { break; }
                ensure!(cx, pr.is_externally_visible() == (got.len() == 1 || got[got.len() - 2].0 != got[got.len() - 1].0), "externally visible", "{path}/{p} {got:?}\n{text}");
                cur = pr.parent_proc();
            }
            ensure!(cx, got == w, "chain of ..()", "{path}/{p}\n got {got:?}\nwant {w:?}\n{text}");
            if !w.is_empty() { cx.count("proc chains", 1); cx.max("longest proc chain", w.len() as u64); }
            let gd = ty.get_proc_declaration(p).map(|d| d.location);
            let wd = decl.as_ref().and_then(|d| tree.find(d).unwrap().procs.get(p).and_then(|x| x.declaration.as_ref()).map(|d| d.location));
            ensure!(cx, gd == wd && gd.is_some() == decl.is_some(), "proc declaration", "{path}/{p}: {gd:?} want {decl:?}\n{text}");
            // overriders of the outermost definition
            if let Some(pr) = ty.get_proc(p) {
                let mut o = Vec::new();
                pr.recurse_children(&mut |c: ProcRef| o.push((c.ty().path.clone(), c.index())));
                let wo: BTreeSet<(String, usize)> = subs[&pr.ty().path].iter().filter_map(|t| m.procs.get(&(t.clone(), p.to_string())).map(|x| (t.clone(), x.1.len() - 1))).collect();
                let os: BTreeSet<(String, usize)> = o.iter().cloned().collect();
                ensure!(cx, o.len() == os.len() && os == wo, "overriding procs", "{path}/{p}: {o:?} want {wo:?}\n{text}");
                cx.count("override sets", 1);
            }
        }
    }
    let _ = items;
}

fn cycles(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    for len in 1..=8usize {
        for tail in 0..3usize {
            for variant in 0..3 {
                let mut items: Vec<(String, It)> = Vec::new();
                for i in 0..len { items.push((format!("/k{i}"), It::Parent(format!("/k{}", (i + 1) % len)))); items.push((format!("/k{i}"), It::VarSet("v0".into(), 3))); }
                for i in 0..tail { items.push((format!("/t{i}"), It::Parent(if i == 0 { "/k0".into() } else { format!("/t{}", i - 1) }))); items.push((format!("/t{i}/sub"), It::Over("p0".into(), i as u32 + 1))); }
                if variant == 1 { items.reverse(); }
                if variant == 2 { items.push(("/k0/under".into(), It::VarDecl("v1".into(), Some(1)))); items.push(("/zz".into(), It::VarDecl("v1".into(), Some(1)))); items.push(("/zz/y".into(), It::VarSet("v1".into(), 2))); }
                check_all(cx, &mut rng, &items);
                if cx.violated() { return; }
            }
        }
    }
    // a type that is made the parent of its own ancestor
    for (a, b) in [("/a", "/a/b"), ("/a/b", "/a/b/c/d"), ("/obj/a", "/obj/a/b"), ("/a", "/a")] {
        let items = vec![(a.to_string(), It::Parent(b.to_string())), (b.to_string(), It::VarDecl("v0".into(), Some(4))), (format!("{b}/e"), It::VarSet("v0".into(), 5))];
        check_all(cx, &mut rng, &items);
        if cx.violated() { return; }
    }
}

fn odd(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    for v in ["4", "null", "\"\"", "\"/nope\"", "/nope", "\"a\"", "\"/obj/\"", "1.5"] {
        let items = vec![("/a".to_string(), It::Parent(v.to_string())), ("/a/b".to_string(), It::Over("p0".into(), 1))];
        // "" is only allowed for /client
        check_all(cx, &mut rng, &items);
        if cx.violated() { return; }
    }
    for p in ["/datum", "/list", "/world", "/savefile", "/alist"] {
        let parsed = parse_text(&format!("{p}\n\tparent_type = /obj\n/obj/var/zz = 1\n"));
        let d = diags(&parsed.context);
        ensure!(cx, d.iter().any(|x| x.contains("not allowed to change")), "fixed parent", "{p}: {d:?}");
        let t = parsed.tree.find(p).unwrap();
        ensure!(cx, t.parent_type().map(|x| x.is_root()) == Some(true) && t.get_value("zz").is_none(), "fixed parent", "{p} was reparented");
    }
    // /client may be reparented to /datum or left alone
    for (text, want) in [("/client\n\tparent_type = /datum\n", "/datum"), ("/client\n\tvar/q\n", ""), ("/client\n\tparent_type = \"\"\n", "")] {
        let parsed = parse_text(text);
        ensure!(cx, diags(&parsed.context).is_empty(), "client parent", "{:?}\n{text}", diags(&parsed.context));
        ensure!(cx, parsed.tree.find("/client").unwrap().parent_type().map(|x| x.path.clone()).as_deref() == Some(want), "client parent", "{text}");
    }
}

fn standard(cx: &mut Cx) {
    let parsed = parse_text("/obj/thing\n/list/x\n");
    for (t, p) in [("/datum", ""), ("/atom", "/datum"), ("/atom/movable", "/atom"), ("/obj", "/atom/movable"), ("/mob", "/atom/movable"), ("/turf", "/atom"), ("/area", "/atom"), ("/list", ""), ("/world", ""), ("/savefile", ""), ("/client", ""), ("/image", "/datum"), ("/mutable_appearance", "/image"), ("/sound", "/datum"), ("/icon", "/datum"), ("/regex", "/datum"), ("/obj/thing", "/obj")] {
        let ty = parsed.tree.find(t);
        ensure!(cx, ty.is_some(), "standard types", "{t} is missing");
        let got = ty.unwrap().parent_type().map(|x| x.path.clone());
        ensure!(cx, got.as_deref() == Some(p), "standard types", "the parent of {t} is {got:?}, not {p}");
    }
    ensure!(cx, parsed.tree.root().parent_type().is_none(), "standard types", "the root has a parent");
    ensure!(cx, parsed.tree.type_by_path(["list", "anything"]).map(|t| t.path.clone()).as_deref() == Some("/list"), "list lookups", "anything under /list is /list");
    cx.nontrivial();
}

/// `..()` in a method never means a global proc, which is found by its bare name all the same
fn globals(cx: &mut Cx) {
    for (t, above) in [("/datum/a", None), ("/datum/a/b", Some("/datum/a")), ("/obj/a/b", Some("/obj/a")), ("/x", None), ("/mob/m", None)] {
        for order in 0..2 {
            let global = "/proc/p0()\n\treturn 1\n";
            let mut text = String::new();
            if order == 0 { text += global; }
            if let Some(a) = above { text += &format!("{a}/proc/p0()\n\treturn 2\n{t}/p0()\n\treturn 3\n"); } else { text += &format!("{t}/proc/p0()\n\treturn 3\n"); }
            text += &format!("{t}/p0()\n\treturn 4\n{t}/proc/p1()\n\treturn 5\n");
            if order == 1 { text += global; }
            let parsed = parse_text(text.as_str());
            let ty = parsed.tree.find(t).unwrap();
            let mut chain = vec![];
            let mut next = ty.get_proc("p0");
            while let Some(p) = next { chain.push(p.ty().path.clone()); next = p.parent_proc(); }
            let mut want = vec![t.to_owned(), t.to_owned()];
            want.extend(above.map(str::to_owned));
            ensure!(cx, chain == want, "chain of ..()", "{t}: {chain:?}, not {want:?}\n{text}");
            ensure!(cx, ty.get_proc("p1").is_some_and(|p| p.parent_proc().is_none()), "chain of ..()", "p1 has a parent\n{text}");
            ensure!(cx, parsed.tree.root().get_proc("p0").is_some_and(|p| p.ty().is_root() && p.parent_proc().is_none()), "chain of ..()", "the global\n{text}");
            cx.count("chains beside globals", 1);
        }
    }
    cx.nontrivial();
}
