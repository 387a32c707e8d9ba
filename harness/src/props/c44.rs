//! Analysis of whole projects in the language server.
use crate::fw::*;
use crate::gen_diag;
use crate::lsp::*;
use crate::rng::Rng;
use super::c38::{FEATURES, params, text};
use super::c39::numberless;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::Path;
use std::time::{Duration, Instant};

pub static PROP: Prop = Prop {
    id: "C44",
    quick: 500,
    thorough: 12000,
    case,
    directed: &[("an analysis overtaken by the next", overtaken)],
    external: true,
    case_cpu: 120,
    rule: "a case is a session with the language server in a project of its own: files and configuration change on disk between requests to analyse it anew, documents are opened, edited and asked about in between; after each analysis the diagnostics published last for every file are compared with those of the library run here on the same files and configuration, none may remain elsewhere, and the object tree, sent whole or asked for type by type, with the library's; at the end a server started anew, with the same documents open, gives the same answers; distinct by history, non-trivial with 2 analyses that published different diagnostics",
    assumptions: &["an analysis is over when the server reports no more tasks"],
    ..DEFAULT
};

type Diags = BTreeMap<String, Vec<String>>;
fn escaped(path: &str) -> String {
    let mut out = String::new();
    for b in path.bytes() { if b.is_ascii_alphanumeric() || b"/._-+@~!$&'()*,;=:".contains(&b) { out.push(b as char); } else { out += &format!("%{b:02X}"); } }
    out
}
fn uri(dir: &Path, path: &Path) -> String { format!("file://{}", escaped(&dir.join(path).display().to_string())) }

struct Library { diags: Diags, tree: Value, types: Vec<(String, Value)>, checked: bool, fatal: bool }
fn at(l: dm::Location) -> (u64, u64) { (l.line.saturating_sub(1) as u64, l.column.saturating_sub(1) as u64) }
fn library(dir: &Path, dme: &str, related: bool) -> Option<Library> {
    let env = dir.join(dme);
    let mut ctx = dm::Context::default();
    ctx.autodetect_config(&env);
    let mut pp = dm::preprocessor::Preprocessor::new(&ctx, env).ok()?;
    let (fatal, tree) = {
        let indents = dm::indents::IndentProcessor::new(&ctx, &mut pp);
        let mut p = dm::parser::Parser::new(&ctx, indents);
        p.enable_procs();
        p.parse_object_tree_2()
    };
    pp.finalize();
    let checked = ctx.config().langserver.dreamchecker && !fatal;
    if checked { dreamchecker::run(&ctx, &tree); }
    let mut diags = Diags::new();
    let name = |l: dm::Location| uri(dir, &ctx.file_path(l.file));
    for e in ctx.errors().iter() {
        let source = e.component().name().unwrap_or("dm-langserver");
        let severity = match e.severity() { dm::Severity::Error => 1, dm::Severity::Warning => 2, dm::Severity::Info => 3, dm::Severity::Hint => 4 };
        let notes: Vec<String> = e.notes().iter().map(|n| format!("{:?} {} {}", at(n.location()), name(n.location()), n.description())).collect();
        diags.entry(name(e.location())).or_default().push(format!("{:?} {severity} {source} {:?} {} {:?}", at(e.location()), e.errortype(), numberless(e.description()), if related { notes } else { vec![] }));
        if !related { for n in e.notes() { diags.entry(name(n.location())).or_default().push(format!("{:?} 3 {source} None {} []", at(n.location()), n.description())); } }
    }
    for v in diags.values_mut() { v.sort(); }
    // the object tree as a client shows it
    let place = |l: dm::Location| if l.is_builtins() { json!("builtin") } else { json!([name(l), at(l).0, at(l).1]) };
    fn whole<'a>(ty: dm::objtree::TypeRef<'a>, place: &dyn Fn(dm::Location) -> Value, list: &mut Vec<(String, Value)>) -> Value {
        let mut vars: Vec<_> = ty.vars.iter().map(|(n, v)| json!([n.to_string(), if v.declaration.as_ref().is_some_and(|d| d.var_type.flags.is_const()) { 14 } else { 8 }, place(v.value.location), v.declaration.is_some()])).collect();
        vars.sort_by(|a, b| a[0].as_str().cmp(&b[0].as_str()));
        let mut procs: Vec<(String, usize, Value)> = vec![];
        for (n, p) in ty.procs.iter() {
            for (i, v) in p.value.iter().enumerate() {
                let kind = if ty.is_root() { 12 } else if matches!(n.as_str(), "New" | "init" | "Initialize") { 9 } else { 6 };
                let verb = if i == 0 { p.declaration.as_ref().map(|d| d.kind.is_verb()) } else { None };
                procs.push((n.to_string(), i, json!([n.to_string(), kind, place(v.location), verb])));
            }
        }
        procs.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
        let mut me = json!({"name": ty.name(), "at": place(ty.location), "vars": vars, "procs": procs.into_iter().map(|p| p.2).collect::<Vec<_>>(), "n": [ty.vars.len(), ty.procs.len(), ty.children().count()]});
        let mut kids: Vec<_> = ty.children().collect();
        kids.sort_by(|a, b| a.name().cmp(b.name()));
        let stubs: Vec<Value> = kids.iter().map(|k| json!({"name": k.name(), "at": place(k.location), "n": [k.vars.len(), k.procs.len(), k.children().count()]})).collect();
        let mut alone = me.clone();
        alone["children"] = json!(stubs);
        list.push((ty.path.to_string(), alone));
        me["children"] = json!(kids.iter().map(|k| whole(*k, place, list)).collect::<Vec<_>>());
        me
    }
    let mut types = vec![];
    let tree = whole(tree.root(), &place, &mut types);
    Some(Library { diags, tree, types, checked, fatal })
}

fn published(s: &Lsp) -> Diags {
    let p = |p: &Value| (p["line"].as_u64().unwrap_or(999999), p["character"].as_u64().unwrap_or(999999));
    let range = |r: &Value| if r["start"] == r["end"] { format!("{:?}", p(&r["start"])) } else { format!("{r}") };
    let mut out = Diags::new();
    for m in &s.log {
        if m["method"] != "textDocument/publishDiagnostics" { continue; }
        let mut list: Vec<String> = m["params"]["diagnostics"].as_array().into_iter().flatten().map(|d| {
            let notes: Vec<String> = d["relatedInformation"].as_array().into_iter().flatten().map(|n| format!("{} {} {}", range(&n["location"]["range"]), n["location"]["uri"].as_str().unwrap_or("?"), n["message"].as_str().unwrap_or("?"))).collect();
            format!("{} {} {} {:?} {} {:?}", range(&d["range"]), d["severity"], d["source"].as_str().unwrap_or("?"), d["code"].as_str(), numberless(d["message"].as_str().unwrap_or("?")), notes)
        }).collect();
        list.sort();
        out.insert(m["params"]["uri"].as_str().unwrap_or("?").to_owned(), list);
    }
    out.retain(|_, v| !v.is_empty());
    out
}
/// the shape the library's tree is compared in
fn shown(t: &Value, deep: bool) -> Value {
    let place = |l: &Value| match l["uri"].as_str() {
        None => Value::Null,
        Some(u) if u.starts_with("dm://docs/reference.dm#") => json!("builtin"),
        Some(u) => if l["range"]["start"] == l["range"]["end"] { json!([u, l["range"]["start"]["line"], l["range"]["start"]["character"]]) } else { json!("a range") },
    };
    let list = |k: &str| t[k].as_array().cloned().unwrap_or_default();
    let vars: Vec<Value> = list("vars").iter().map(|v| json!([v["name"], v["kind"], place(&v["location"]), v["is_declaration"]])).collect();
    let procs: Vec<Value> = list("procs").iter().map(|v| json!([v["name"], v["kind"], place(&v["location"]), v["is_verb"]])).collect();
    let n = json!([t["n_vars"], t["n_procs"], t["n_children"]]);
    let kids: Vec<Value> = list("children").iter().map(|c| if deep { shown(c, true) } else if c["vars"] == json!([]) && c["procs"] == json!([]) && c["children"] == json!([]) { json!({"name": c["name"], "at": place(&c["location"]), "n": [c["n_vars"], c["n_procs"], c["n_children"]]}) } else { json!("no placeholder") }).collect();
    json!({"name": t["name"], "at": place(&t["location"]), "vars": vars, "procs": procs, "n": n, "children": kids})
}
fn differ(a: &Value, b: &Value) -> String {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => { for (k, v) in x { if y.get(k) != Some(v) { return format!("{k} of {}: {}", x.get("name").unwrap_or(&Value::Null), differ(v, y.get(k).unwrap_or(&Value::Null))); } } },
        (Value::Array(x), Value::Array(y)) => { for (i, v) in x.iter().enumerate() { if y.get(i) != Some(v) { return format!("[{i}]: {}", differ(v, y.get(i).unwrap_or(&Value::Null))); } } },
        _ => {},
    }
    let cut = |v: &Value| v.to_string().chars().take(600).collect::<String>();
    format!("{} instead of {}", cut(a), cut(b))
}

/// reports of the server having nothing left to do, since it was told last to start over
fn idle(s: &Lsp, runs: usize) -> bool {
    let status = |m: &&Value| m["method"] == "$window/status";
    let loading = |m: &Value| m["params"]["tasks"] == json!(["loading"]);
    let all: Vec<&Value> = s.log.iter().filter(status).collect();
    all.iter().filter(|m| loading(m)).count() >= runs && all.iter().rev().take_while(|m| !loading(m)).any(|m| m["params"]["tasks"] == json!([]))
}
fn settle(s: &mut Lsp, runs: usize) -> bool {
    let end = Instant::now() + Duration::from_secs(60);
    while !idle(s, runs) && Instant::now() < end && !s.closed { s.next(Duration::from_millis(200)); }
    // and whatever it was still saying
    idle(s, runs) && s.call("workspace/symbol", json!({"query": ""})).is_some()
}

/// an answer without the order its parts came in
fn unordered(v: &Value) -> Value {
    match v {
        Value::Array(a) => { let mut a: Vec<Value> = a.iter().map(unordered).collect(); a.sort_by_key(|x| x.to_string()); Value::Array(a) },
        Value::Object(o) => o.iter().map(|(k, v)| (k.clone(), unordered(v))).collect(),
        Value::String(t) => json!(numberless(t)),
        v => v.clone(),
    }
}
/// what one answer says and the other does not
fn extra(a: &Value, b: &Value) -> String {
    let Some((x, y)) = a.as_array().zip(b.as_array()) else { return differ(a, b) };
    let only = |x: &Vec<Value>, y: &Vec<Value>| format!("{:?}", x.iter().filter(|v| !y.contains(v)).take(4).map(|v| v.to_string()).collect::<Vec<_>>());
    format!("{} parts, only here {}; a fresh server {}, only there {}", x.len(), only(x, y), y.len(), only(y, x))
}
/// a server started now gives the same answers
fn restarted(cx: &mut Cx, s: &mut Lsp, dir: &Path, root: &str, caps: &Value, opened: &[(String, String)], told: &str, r: &mut Rng) -> bool {
    let mut fresh = Lsp::session(dir, Some(root), caps.clone());
    if !settle(&mut fresh, 1) { cx.violate("no end of the analysis", format!("{told}{}", fresh.stderr())); return false; }
    for (u, t) in opened { fresh.open(u, 0, t); }
    for _ in 0..12 {
        let (m, p) = if opened.is_empty() || r.chance(1, 6) { ("workspace/symbol", json!({"query": r.pick(&["", "a", "o", "p", "#", "kw", "var/", "uc7"])})) } else {
            let (u, t) = r.pick(opened);
            let m = *r.pick(FEATURES);
            let lines: Vec<&str> = t.lines().collect();
            let l = if lines.is_empty() { 0 } else { r.below(lines.len()) };
            let c = r.below(1 + lines.get(l).map_or(0, |l| l.chars().count()));
            (m, params(m, u, l as u32, c as u32, l as u32, c as u32))
        };
        // both must have their table of references
        if m == "textDocument/references" || m == "textDocument/implementation" { continue; }
        let (Some(a), Some(b)) = (s.call(m, p.clone()), fresh.call(m, p.clone())) else { cx.violate("no answer", format!("{told}{m} {p}\n{}", s.stderr())); return false };
        let part = |v: &Value| if v.get("error").is_some() { json!({"error": v["error"]["code"]}) } else { unordered(&v["result"]) };
        if part(&a) != part(&b) { cx.violate("answers of an earlier analysis", format!("{told}// documents {opened:?}\n{m} {p}: {}", extra(&part(&a), &part(&b)))); return false; }
        cx.count("answers compared with a fresh server's", 1);
        if part(&a) != Value::Null && part(&a) != json!([]) { cx.count("answers that said something", 1); }
    }
    true
}

fn config(r: &mut Rng) -> String {
    let mut t = String::new();
    if r.chance(1, 3) { t += &format!("[display]\nerror_level = \"{}\"\n", r.pick(&["error", "warning", "info", "hint", "disabled"])); }
    if r.chance(3, 4) { t += &format!("[langserver]\ndreamchecker = {}\n", r.chance(3, 4)); }
    if r.chance(1, 3) { t += "[code_standards]\ndisallow_relative_type_definitions = true\ndisallow_relative_proc_definitions = true\n"; }
    if r.chance(1, 2) {
        t += "[diagnostics]\n";
        let mut seen = std::collections::BTreeSet::new();
        for _ in 0..r.below(8) { let k = *r.pick(gen_diag::TYPES); if seen.insert(k) { t += &format!("{k} = \"{}\"\n", r.pick(&["error", "warning", "info", "hint", "disabled"])); } }
    }
    t
}
/// a project of files under names of all kinds
fn project(r: &mut Rng) -> Vec<(String, String)> {
    let mut files = gen_diag::project(r);
    let n = files.len();
    for i in 1..n {
        if r.chance(4, 5) { continue; }
        let new = files[i].0.replace(&format!("f{}", i - 1), &format!("{}{i}", r.pick(&["a b ", "é", "x.y", "UP", "p+q", "n[1]", "c#", "100%41", "q?"])));
        let old = std::mem::replace(&mut files[i].0, new.clone());
        files[0].1 = files[0].1.replace(&format!("\"{old}\""), &format!("\"{new}\""));
    }
    files
}
fn change(r: &mut Rng, files: &mut Vec<(String, String)>) {
    let n = files.len();
    match r.below(7) {
        0 => *files = project(r),
        1 if n > 1 => { let k = 1 + r.below(n - 1); files.remove(k); },
        2 => { let k = files.len() + 40; let name = format!("new{k}.dm"); files[0].1 += &format!("#include \"{name}\"\n"); let t = gen_diag::project(r).pop().unwrap().1; files.push((name, t)); },
        3 if n > 1 => { let k = 1 + r.below(n - 1); files[k].1 = "/proc/nothing_wrong()\n\treturn 1\n".into(); },
        4 => { let mut lines: Vec<String> = files[0].1.lines().map(|l| format!("{l}\n")).collect(); if !lines.is_empty() { let a = r.below(lines.len()); let l = lines.remove(a); if r.bool() { lines.push(l); } } files[0].1 = lines.concat(); },
        _ if n > 1 => {
            let k = 1 + r.below(n - 1);
            let mut lines: Vec<String> = files[k].1.lines().map(|l| format!("{l}\n")).collect();
            if r.bool() && !lines.is_empty() { let a = r.below(lines.len()); lines.remove(a); } else { lines.insert(0, "// moved\n".into()); lines.push("/proc/ret_twice()\n\treturn 1\n\treturn 2\n".into()); }
            files[k].1 = lines.concat();
        },
        _ => {},
    }
}

fn compare(cx: &mut Cx, s: &mut Lsp, dir: &Path, dme: &str, related: bool, kind: usize, before: usize, runs: usize, told: &str, r: &mut Rng) -> Option<Diags> {
    let want = match catch(|| library(dir, dme, related)) { Ok(Some(w)) => w, Ok(None) => { cx.inconclusive("no environment"); return None }, Err(_) => { cx.inconclusive("the library panics"); return None } };
    let got = published(s);
    if got != want.diags {
        let mut t = String::new();
        for k in got.keys().chain(want.diags.keys()) {
            let (a, b) = (got.get(k).cloned().unwrap_or_default(), want.diags.get(k).cloned().unwrap_or_default());
            if a != b { t = format!("{k}: only published {:?}, missing {:?} ({} instead of {})", a.iter().filter(|x| !b.contains(x)).collect::<Vec<_>>(), b.iter().filter(|x| !a.contains(x)).collect::<Vec<_>>(), a.len(), b.len()); break; }
        }
        cx.violate("other diagnostics", format!("{told}{t}\n{}", s.stderr()));
        return None;
    }
    cx.count("diagnostics compared", want.diags.values().map(|v| v.len() as u64).sum());
    cx.count("files with diagnostics", want.diags.len() as u64);
    if want.checked { cx.count("analyses with the checker", 1); } else if want.fatal { cx.count("analyses stopped by a fatal error", 1); } else { cx.count("analyses without the checker", 1); }
    if kind == 1 {
        let end = Instant::now() + Duration::from_secs(60);
        // every analysis sends one
        let trees = |s: &Lsp| s.log.iter().filter(|m| m["method"] == "experimental/dreammaker/objectTree").nth(runs - 1).map(|m| m["params"]["root"].clone());
        while trees(s).is_none() && Instant::now() < end && !s.closed { s.next(Duration::from_millis(200)); }
        let Some(t) = trees(s) else { cx.violate("no object tree", format!("{told}{}", s.stderr())); return None };
        let t = shown(&t, true);
        if t != want.tree { cx.violate("another object tree", format!("{told}{}", differ(&t, &want.tree))); return None; }
        cx.count("object trees compared", 1);
    } else {
        if kind == 2 && !s.log[before..].iter().any(|m| m["method"] == "experimental/dreammaker/objectTree2") { cx.violate("no object tree", format!("{told}{}", s.stderr())); return None; }
        for i in 0..6 {
            let (p, w) = if i == 0 { &want.types[want.types.len() - 1] } else { r.pick(&want.types) };
            let Some(t) = s.ask("experimental/dreammaker/objectTree2", json!({"path": p})) else { cx.violate("no answer", format!("{told}{}", s.stderr())); return None };
            let t = shown(&t, false);
            if t != *w { cx.violate("another type", format!("{told}{p}: {}", differ(&t, w))); return None; }
            cx.count("types compared", 1);
        }
        let t = s.call("experimental/dreammaker/objectTree2", json!({"path": "/no/such/type"}));
        if t.is_none_or(|t| t.get("error").is_none()) { cx.violate("a type that does not exist", told); return None; }
    }
    Some(want.diags)
}

fn write(dir: &Path, files: &[(String, String)]) {
    for f in std::fs::read_dir(dir).unwrap().flatten() { let p = f.path(); if p.is_dir() { std::fs::remove_dir_all(p).unwrap(); } else if p.extension().is_some_and(|e| e == "dm" || e == "dme") { std::fs::remove_file(p).unwrap(); } }
    gen_diag::write(dir, files);
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let r = &mut r;
    let dir = cx.dir(if r.bool() { "project" } else { "a project" });
    let dir = dir.canonicalize().unwrap();
    let related = r.bool();
    let kind = r.below(3);
    let mut files = project(r);
    let mut told = format!("related {related}, tree {kind}\n{}", gen_diag::told(&files));
    write(&dir, &files);
    let toml = dir.join("SpacemanDMM.toml");
    let _ = std::fs::remove_file(&toml);
    let has_toml = r.chance(4, 5);
    if has_toml { let c = config(r); told += &format!("// ---- SpacemanDMM.toml\n{c}"); std::fs::write(&toml, c).unwrap(); }
    cx.input(told.clone());
    let caps = json!({"textDocument": {"publishDiagnostics": {"relatedInformation": related}}, "experimental": {"dreammaker": {"objectTree": kind == 1, "objectTree2": kind == 2}}});
    let root = uri(&dir, Path::new(""));
    let mut s = Lsp::session(&dir, Some(if r.bool() { &root } else { root.trim_end_matches('/') }), caps.clone());
    let mut runs = 1;
    let mut opened: Vec<(String, String)> = vec![];
    let mut before = 0;
    let mut changed = 0;
    let mut last = None;
    for step in 0..2 + r.below(5) {
        if !settle(&mut s, runs) { cx.violate("no end of the analysis", format!("{told}{}", s.stderr())); return; }
        let Some(d) = compare(cx, &mut s, &dir, "e.dme", related, kind, before, runs, &told, r) else { return };
        cx.count("analyses compared", 1);
        if last.as_ref() != Some(&d) { changed += 1; last = Some(d); }
        // meanwhile, in the editor
        for _ in 0..r.below(4) {
            let name = files[r.below(files.len())].0.clone();
            let u = uri(&dir, Path::new(&name));
            if let Some(k) = opened.iter().position(|x| x.0 == u) {
                if r.chance(1, 4) { s.close_doc(&u); opened.remove(k); continue; }
                let t = text(r); s.change(&u, 1 + step as i64, json!([{"text": t}])); opened[k].1 = t;
            } else {
                let t = if r.bool() { text(r) } else { files.iter().find(|f| f.0 == name).unwrap().1.clone() };
                s.open(&u, 0, &t); opened.push((u.clone(), t));
            }
            let m = *r.pick(FEATURES);
            let (l, c) = (r.below(20) as u32, r.below(12) as u32);
            let p = params(m, &u, l, c, l, c);
            if s.call(m, p).is_none() { cx.violate("no answer", format!("{told}{m} in {name}\n{}", s.stderr())); return; }
        }
        for _ in 0..1 + r.below(2) {
            change(r, &mut files);
            told += &format!("// ======== {step}\n{}", gen_diag::told(&files));
            write(&dir, &files);
            if has_toml && r.chance(1, 4) { let c = config(r); told += &format!("// ---- SpacemanDMM.toml\n{c}"); std::fs::write(&toml, c).unwrap(); }
            cx.input(told.clone());
            before = s.log.len();
            s.notify("experimental/dreammaker/reparse", json!({}));
            runs += 1;
            // it has read the files when it answers, but may still be checking them
            if s.call("workspace/symbol", json!({"query": "zz"})).is_none() { cx.violate("no answer", format!("{told}{}", s.stderr())); return; }
        }
    }
    if !settle(&mut s, runs) { cx.violate("no end of the analysis", format!("{told}{}", s.stderr())); return; }
    if compare(cx, &mut s, &dir, "e.dme", related, kind, before, runs, &told, r).is_none() { return; }
    if !restarted(cx, &mut s, &dir, &root, &caps, &opened, &told, r) { return; }
    if s.stderr_has("panicked at") { cx.violate("panic", format!("{told}{}", s.stderr())); }
    cx.sig(&told);
    if changed >= 2 { cx.nontrivial(); }
}

fn overtaken(cx: &mut Cx) {
    let dir = cx.dir("slow").canonicalize().unwrap();
    std::fs::write(dir.join("SpacemanDMM.toml"), "[langserver]\ndreamchecker = true\n").unwrap();
    let slow: String = (0..1500).map(|i| format!("/obj/o{i}/proc/p(a, b)\n\tvar/obj/o{i}/x = a\n\tif(a > b)\n\t\treturn x.p(b, a)\n\tfor(var/i in 1 to 10)\n\t\tx.p(i, i)\n\treturn nothing{i}\n")).collect();
    let quick = "/proc/fine()\n\treturn 1\n".to_owned();
    write(&dir, &[("e.dme".into(), slow.clone())]);
    let mut s = Lsp::session(&dir, Some(&uri(&dir, Path::new(""))), json!({}));
    let mut runs = 1;
    s.call("workspace/symbol", json!({"query": "zz"}));
    for round in 0..3 {
        for t in [&quick, &slow, &quick] {
            write(&dir, &[("e.dme".into(), t.clone())]);
            s.notify("experimental/dreammaker/reparse", json!({}));
            runs += 1;
            if s.call("workspace/symbol", json!({"query": "zz"})).is_none() { cx.violate("no answer", s.stderr()); return; }
        }
        if !settle(&mut s, runs) { cx.violate("no end of the analysis", s.stderr()); return; }
        let got = published(&s);
        if !got.is_empty() { cx.violate("diagnostics of an earlier analysis", format!("round {round}: {} diagnostics of a program no longer there", got.values().map(|v| v.len()).sum::<usize>())); return; }
        cx.count("analyses compared", 1);
    }
    cx.nontrivial();
    cx.input("overtaken");
}
