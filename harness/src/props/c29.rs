use crate::dm_util::diags;
use crate::ensure;
use crate::fw::*;
use crate::gen_dc::place;
use crate::rng::Rng;
use dreamchecker::test_helpers::parse_a_file_for_test;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "C29",
    quick: 15000,
    thorough: 1000000,
    case,
    rule: "a case is a tree of up to nine types (some placed by parent_type) declaring variables and procs that are plain, private, protected or final in random text order, overrides of them, and uses from random types and global procs through every kind of statically typed receiver, read, written, called, at random places of bodies; the reports are compared, by line, with the access each use has; distinct by text, non-trivial when a use or override is reported and one of a restricted member is not",
    assumptions: &[
        "a descendant's use of a private variable of its own object, and a private member's use on a descendant of the declaring type by the declaring type, may be judged either way",
        "new, and static access with ::, are not uses",
    ],
    ..DEFAULT
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Access { Plain, Private, Protected, Final }
const NAMES: [&str; 4] = ["alpha", "beta", "gamma", "delta"];

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let n = 1 + r.below(2 + cx.size / 14);
    let mut path: Vec<String> = vec!["/datum/t0".into()];
    let mut up: Vec<Option<usize>> = vec![None];
    let mut moved = vec![false];
    for i in 1..n {
        let p = if r.chance(1, 2) { i - 1 } else { r.below(i) };
        match r.below(8) { 0 => { path.push(format!("/datum/t{i}")); up.push(None); moved.push(false); }, 1 => { path.push(format!("/datum/t{i}")); up.push(Some(p)); moved.push(true); }, _ => { path.push(format!("{}/t{i}", path[p])); up.push(Some(p)); moved.push(false); } }
    }
    let is = |mut x: usize, t: usize| loop { if x == t { return true; } match up[x] { Some(p) => x = p, None => return false } };
    // declarations: (type, name) -> access
    let mut vars: BTreeMap<(usize, usize), Access> = BTreeMap::new();
    let mut procs: BTreeMap<(usize, usize), Access> = BTreeMap::new();
    for k in 0..4 { for _ in 0..r.below(3) {
        let t = r.below(n);
        let a = *r.pick(&[Access::Plain, Access::Private, Access::Protected, Access::Final]);
        if k < 2 { if !vars.keys().any(|(u, m)| *m == k && (is(*u, t) || is(t, *u))) { vars.insert((t, k), a); } }
        else if !procs.keys().any(|(u, m)| *m == k && (is(*u, t) || is(t, *u))) { procs.insert((t, k), if a == Access::Final { Access::Plain } else { a }); }
    } }
    let owner = |tbl: &BTreeMap<(usize, usize), Access>, t: usize, k: usize| -> Option<(usize, Access)> { tbl.iter().find(|((u, m), _)| *m == k && is(t, *u)).map(|((u, _), a)| (*u, *a)) };
    // blocks of text, and what each line must say
    #[derive(Clone, Copy, PartialEq)]
    enum Want { Yes, No, Either }
    let mut blocks: Vec<(Vec<String>, Vec<(String, &'static str, Want)>)> = vec![];
    for t in 0..n { if moved[t] { blocks.push((vec![path[t].clone(), format!("\tparent_type = {}", path[up[t].unwrap()])], vec![])); } else { blocks.push((vec![path[t].clone(), format!("\tvar/mark{t}")], vec![])); } }
    let flag = |r: &mut Rng, a: Access| match a { Access::Plain => "", Access::Private => "/SpacemanDMM_private", Access::Protected => "/SpacemanDMM_protected", Access::Final => *r.pick(&["/SpacemanDMM_final", "/final"]) };
    for (&(t, k), &a) in &vars {
        let v = format!("var{}{}/{}{}", flag(&mut r, a), r.pick(&["", "/tmp"]), NAMES[k], r.pick(&["", " = 1"]));
        blocks.push((if r.chance(1, 2) { vec![format!("{}/{v}", path[t])] } else { vec![path[t].clone(), format!("\t{v}")] }, vec![]));
    }
    for (&(t, k), &a) in &procs {
        let mut b = vec![format!("{}/proc/{}(x)", path[t], NAMES[k])];
        match a { Access::Private => b.push("\tset SpacemanDMM_private_proc = 1".into()), Access::Protected => b.push("\tset SpacemanDMM_protected_proc = TRUE".into()), _ => {} }
        b.push("\treturn x".into());
        blocks.push((b, vec![]));
    }
    // overrides: at most one of each name per type
    for t in 0..n { for k in 0..4 {
        if !r.chance(1, 4) { continue; }
        let mut head = format!("{}/{}", path[t], NAMES[k]);
        if k < 2 {
            let Some((u, a)) = owner(&vars, t, k) else { continue };
            if u == t { continue; }
            // find the line by its value
            let v = 1000 + blocks.len();
            let (b, l) = if r.chance(1, 2) { let l = format!("{head} = {v}"); (vec![l.clone()], l) } else { let l = format!("\t{} = {v}", NAMES[k]); (vec![path[t].clone(), l.clone()], l) };
            blocks.push((b, vec![(l.clone(), "final_var", if a == Access::Final { Want::Yes } else { Want::No }), (l, "private_var", if a == Access::Private { Want::Yes } else { Want::No })]));
        } else {
            let Some((u, a)) = owner(&procs, t, k) else { continue };
            if u == t { continue; }
            head += &format!("(o{})", blocks.len());
            blocks.push((vec![head.clone(), format!("\treturn {}", if r.chance(1, 2) { "..()" } else { "1" })], vec![(head, "private_proc", if a == Access::Private { Want::Yes } else { Want::No })]));
            // a parent call on its own line would be a use: it is on the line after, and is one
            let at = blocks.len() - 1;
            let line = blocks[at].0[1].clone();
            let un = format!("{line} + {}", 5000 + at);
            if line.contains("..()") { blocks[at].0[1] = un.clone(); blocks[at].1.push((un, "private_proc", if a == Access::Private { Want::Yes } else { Want::No })); }
        }
    } }
    for t in 0..n { blocks.push((vec![format!("/proc/get{t}()"), format!("\tset SpacemanDMM_return_type = {}", path[t]), "\treturn null".into()], vec![])); if up[t].is_none() { blocks.push((vec![format!("{}/var/datum/other", path[t])], vec![])); } }
    for s in 0..n { for t in 0..n { if up[t].is_none() { blocks.push((vec![format!("{}/var{}/f{s}", path[t], path[s])], vec![])); } } }
    // uses
    let mut uses = 0;
    for _ in 0..1 + r.below(3 + cx.size / 10) {
        let me = if r.chance(1, 5) { None } else { Some(r.below(n)) };
        let id = blocks.len();
        let mut params = vec!["x".to_owned()];
        let mut pre: Vec<String> = vec![];
        let mut body: Vec<Vec<String>> = vec![];
        let mut wants = vec![];
        for j in 0..1 + r.below(3) {
            let k = r.below(4);
            let t = if let (Some(m), true) = (me, r.chance(1, 3)) { m } else { r.below(n) };
            let tag = format!("{id}{j}");
            let own = if k < 2 { owner(&vars, t, k) } else { owner(&procs, t, k) };
            let Some((d, a)) = own else { continue };
            let (recv, n_ty) = match r.below(10) {
                0 | 1 => { pre.push(format!("var{}/v{tag}", path[t])); (format!("v{tag}."), Some(t)) },
                2 => { params.push(format!("{}/p{tag}", &path[t][1..])); (format!("p{tag}."), Some(t)) },
                3 => { pre.push(format!("var{}/v{tag} = new", path[t])); (format!("v{tag}?."), Some(t)) },
                4 => (format!("get{t}(\"{tag}\")."), Some(t)),
                5 => { pre.push(format!("var/list{}/l{tag}", path[t])); (format!("l{tag}[1]."), Some(t)) },
                6 => { let h = (0..n).find(|h| up[*h].is_none()).unwrap(); pre.push(format!("var{}/w{tag}", path[h])); (format!("w{tag}.f{t}."), Some(t)) },
                7 if me == Some(t) => (String::from("src."), Some(t)),
                _ if me == Some(t) => (String::new(), None),
                _ => { pre.push(format!("var{}/v{tag} = x", path[t])); (format!("v{tag}."), Some(t)) },
            };
            let e = if k < 2 { format!("{recv}{}", NAMES[k]) } else { format!("{recv}{}({tag})", NAMES[k]) };
            let e = if k < 2 { match r.below(4) { 0 => format!("{e}[\"{tag}\"]"), 1 => format!("({e} + {tag})"), 2 => format!("({e} = {tag})"), _ => format!("list({e}, {tag})") } } else { e };
            let within = me.is_some_and(|m| is(m, d));
            let want = match a {
                Access::Plain | Access::Final => Want::No,
                Access::Protected => if within { Want::No } else { Want::Yes },
                Access::Private => if me == Some(d) { if n_ty.is_none() || n_ty == Some(d) { Want::No } else { Want::Either } }
                    else if k < 2 && n_ty.is_none() { Want::No }
                    else if k < 2 && me == Some(t) { Want::Either }
                    else { Want::Yes },
            };
            // a bare private variable of an ancestor is not a use through an object
            let kind = match (k < 2, a) { (true, Access::Protected) => "protected_var", (true, _) => "private_var", (false, Access::Protected) => "protected_proc", (false, _) => "private_proc" };
            let depth = r.below(3);
            let mut lines = place(&mut r, &e, depth, true);
            lines = std::iter::once("if(x)".to_owned()).chain(lines.into_iter().map(|l| format!("\t{l}"))).collect();
            let Some(line) = lines.iter().find(|l| l.contains(&e)).cloned() else { continue };
            wants.push((format!("\t{line}"), kind, want));
            if a != Access::Plain { uses += 1; }
            body.push(lines);
        }
        let head = match me { None => format!("/proc/use{id}"), Some(m) => format!("{}/proc/use{id}", path[m]) };
        let mut b = vec![format!("{head}({})", params.join(", "))];
        b.extend(pre.iter().chain(body.iter().flatten()).map(|l| format!("\t{l}")));
        b.push("\treturn".into());
        blocks.push((b, wants));
    }
    r.shuffle(&mut blocks);
    let mut text = String::from("/proc/foo(a)\n\treturn a\n/datum/maker/New(a)\n\treturn\n");
    let mut line = text.lines().count();
    let mut expect: BTreeMap<(usize, &str), Want> = BTreeMap::new();
    for (b, ws) in &blocks {
        for l in b {
            line += 1;
            text += l; text += "\n";
            for (wl, kind, want) in ws { if wl == l {
                let e = expect.entry((line, *kind)).or_insert(*want);
                if *want == Want::Yes { *e = Want::Yes; }
            } }
        }
    }
    cx.input(text.clone());
    cx.sig(&text);
    let ctx = match catch(|| parse_a_file_for_test(text.clone())) { Ok(c) => c, Err(m) => { cx.violate("panic", m); return; } };
    let all = diags(&ctx).join("\n");
    let mut got: BTreeSet<(usize, String)> = BTreeSet::new();
    for e in ctx.errors().iter() {
        let l = e.location().line as usize;
        match e.errortype() {
            Some(k @ ("private_proc" | "protected_proc" | "private_var" | "protected_var" | "final_var")) => { got.insert((l, k.to_owned())); },
            _ => if e.component() == dm::Component::Unspecified && e.severity() == dm::Severity::Error { cx.inconclusive(&format!("does not parse: {}: {}", e.description(), text.lines().nth(l.max(1) - 1).unwrap_or(""))); return; },
        }
    }
    let (mut yes, mut no) = (0, 0);
    for ((l, k), w) in &expect {
        let g = got.contains(&(*l, k.to_string()));
        match w {
            Want::Yes => { yes += 1; ensure!(cx, g, format!("missed {k}"), "line {l}: {}\n{all}", text.lines().nth(l - 1).unwrap()); cx.count(&format!("reported {k}"), 1); },
            Want::No => { no += 1; ensure!(cx, !g, format!("false {k}"), "line {l}: {}\n{all}", text.lines().nth(l - 1).unwrap()); },
            Want::Either => cx.count("judged either way", 1),
        }
    }
    for (l, k) in &got { ensure!(cx, expect.contains_key(&(*l, k.as_str())), format!("false {k}"), "line {l}: {}\n{all}", text.lines().nth(l - 1).unwrap_or("")); }
    cx.count("uses of restricted members", uses);
    if yes > 0 && no > 0 { cx.nontrivial(); }
}
