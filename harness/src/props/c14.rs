use crate::dm_util::*;
use crate::fw::*;
use crate::gen_dm::*;
use crate::rng::Rng;
use dm::Severity;

pub static PROP: Prop = Prop {
    id: "C14",
    quick: 6000,
    thorough: 250000,
    case,
    directed: &[("every position and every corruption", grid)],
    rule: "a case is a random project of types, variables and procs with random bodies in one of several nestings, of which one proc's body is corrupted at token or line level with balanced brackets; the dump of the object tree (every constant, syntax tree and position) outside that proc, and all parser and static checker diagnostics located outside it, are compared with those of the same project whose proc holds a plain return; distinct by source text, non-trivial when the corrupted body was really rejected",
    assumptions: &["a corruption keeps quotes, comments, preprocessor lines and line indentation as they were and only adds properly nested brackets, none of them at the start of a line, where a brace belongs to the layout"],
    ..DEFAULT
};

const BAD: &[&str] = &[
    "1 2", "x +", "+ +", "* 3", "a b c", "x = ", "= 4", "if ()", "for (var/x in)", "for (in in in)", "else", "a . . b", "while", "switch", "[ 1 ]", "( )", "f ( , ( ] ) )", "goto", "new new", "return return", "a ? b", ": b", ", ,", "{ 1 2 }", "{ { ( 1 2 ) } }", "( { } )", "[ { ; } ]", "( ; )", "( 1 ; ; 2 )", "1 to 2", "in", "var", "do do", "catch", "try 1", "spawn (1, 2, 3", "a :: ", "<", "**", "...", "x [ ]", "f ( { x } )", "{ ( ) [ ] { } }", "[ ( { 1 + } ) ]", "else if", "else ( 1 )", "step 3", "set", "set x", "set = 3", "break break", "del", "throw", "input ( ) as", "as num", "list ( 1 = )", ". .", "% x", "=> 3", "operator", "proc", "verb/x", "var/proc", "/proc/f()", "/obj/q = 2", "static/x", "unknown words here", "( ( ( 1 ) )  2 )", "} {", "1 = 2 = = 3",
];

#[derive(Clone)]
struct P { ty: String, word: &'static str, name: String, params: String, body: Vec<String>, brace: bool }

enum Part { Var(String, String, String), Proc(P) }

fn body(rng: &mut Rng, size: usize) -> Vec<String> {
    let depth = 1 + rng.below(2 + size / 50);
    let b = Gen::new(rng).block(depth, 3);
    let ls = StmtRender { rng, redundant: 10 }.lines(&b);
    let mut o = Out::new(rng, Layout::Indent("\t"), Spacing::default(), 0);
    o.lines(&ls, 0, false);
    let mut v: Vec<String> = o.s.lines().map(|l| l.to_owned()).collect();
    if v.is_empty() { v.push("return".into()); }
    v
}

fn project(rng: &mut Rng, size: usize) -> Vec<Part> {
    let types = ["", "/obj", "/obj/item", "/mob/living", "/datum/x", "/a", "/a/b"];
    let mut parts = Vec::new();
    let mut used = std::collections::BTreeSet::new();
    for i in 0..3 + rng.below(3 + size / 12) {
        let ty = rng.pick(&types).to_string();
        if rng.chance(1, 3) {
            parts.push(Part::Var(ty, format!("v{i}"), rng.pick(&["1", "\"s\"", "list(1, 2)", "3 + 4 * 2", "/obj/item", "null", "'a.dmi'"]).to_string()));
        } else {
            let name = format!("p{}", rng.below(5));
            let first = used.insert((ty.clone(), name.clone()));
            let word = if first && rng.chance(2, 3) { *rng.pick(&["/proc", "/proc", "/verb"]) } else { "" };
            if word.is_empty() && ty.is_empty() { continue; }
            parts.push(Part::Proc(P { ty, word, name, params: rng.pick(&["", "x", "x, y = 2", "obj/item/x as obj in world"]).to_string(), body: body(rng, size), brace: rng.chance(1, 6) }));
        }
    }
    parts.push(Part::Proc(P { ty: "/obj".into(), word: "/proc", name: "last".into(), params: String::new(), body: body(rng, size), brace: false }));
    parts
}

/// The text and the line range (inclusive) of part `mark`, whose body is `lines`.
fn render(parts: &[Part], style: usize, mark: usize, lines: &[String]) -> (String, u32, u32) {
    let mut s = String::new();
    let mut line = 1;
    let mut range = (0, 0);
    let mut add = |t: String| { let n = t.matches('\n').count() as u32; s.push_str(&t); line += n; line };
    for (i, p) in parts.iter().enumerate() {
        match p {
            Part::Var(t, n, v) => { add(if style == 0 || t.is_empty() { format!("{t}/var/{n} = {v}\n") } else { format!("{t}\n\tvar/{n} = {v}\n") }); }
            Part::Proc(p) => {
                let body: &[String] = if i == mark { lines } else { &p.body };
                let start;
                let (head, ind) = match style {
                    1 if !p.ty.is_empty() => { add(format!("{}\n", p.ty)); ((format!("\t{}{}({})", if p.word.is_empty() { String::new() } else { format!("{}/", &p.word[1..]) }, p.name, p.params)), "\t\t") }
                    2 if !p.ty.is_empty() && !p.word.is_empty() => { add(format!("{}\n\t{}\n", p.ty, &p.word[1..])); (format!("\t\t{}({})", p.name, p.params), "\t\t\t") }
                    _ => (format!("{}{}/{}({})", p.ty, p.word, p.name, p.params), "\t"),
                };
                start = add(String::new());
                add(format!("{head}{}\n", if p.brace { " {" } else { "" }));
                for l in body { add(format!("{ind}{l}\n")); }
                if p.brace { add(format!("{}}}\n", &ind[1..])); }
                let end = add(String::new());
                if i == mark { range = (start, end); }
                add("\n".into());
            }
        }
    }
    (s, range.0, range.1)
}

fn corrupt(rng: &mut Rng, body: &[String]) -> Vec<String> {
    let mut v = body.to_vec();
    for _ in 0..1 + rng.below(3) {
        let i = rng.below(v.len());
        let ind = v[i].len() - v[i].trim_start_matches('\t').len();
        let tabs = "\t".repeat(ind);
        let bad = loop { let b = *rng.pick(BAD); if b != "} {" && !b.ends_with("2, 3") && !b.contains("( ]") { break b; } };
        let plain = !v[i].contains(['"', '\'', '/', '@', '#', '\\', '{', '}']);
        // a brace at the start of a line is part of the layout
        match if bad.starts_with('{') { 1 } else { rng.below(6) } {
            0 => v[i] = format!("{tabs}{bad}"),
            1 => v[i] = format!("{} {bad}", v[i]),
            2 => v[i] = format!("{tabs}{bad} {}", &v[i][ind..]),
            3 if plain => {
                let mut w: Vec<&str> = v[i][ind..].split(' ').collect();
                let k = rng.below(w.len() + 1);
                w.insert(k, bad);
                let t = w.join(" ");
                // keep it balanced: an insertion inside a bracket is still nested
                v[i] = format!("{tabs}{t}");
            }
            4 if plain => {
                let w: Vec<&str> = v[i][ind..].split(' ').filter(|x| !x.contains(['(', ')', '[', ']'])).collect();
                if let Some(x) = w.get(rng.below(w.len().max(1))) { if !x.is_empty() { v[i] = v[i].replacen(*x, bad, 1); } }
            }
            _ => v.insert(i, format!("{tabs}{bad}")),
        }
    }
    v
}

fn outside(context: &dm::Context, a: u32, b: u32) -> (Vec<String>, usize, usize) {
    let mut out = Vec::new();
    let (mut inside, mut inside_err) = (0, 0);
    for e in context.errors().iter() {
        let l = e.location();
        // a body that ends too early is reported at the token that ends it, the start of the next line of code
        let ender = l.line == b + 1 && l.column <= 1 && (e.description().starts_with("got ") || e.errortype() == Some("as_local_var"));
        if l.line >= a && l.line <= b || ender { inside += 1; if e.severity() == Severity::Error { inside_err += 1; } continue; }
        out.push(diag(context, e));
    }
    (out, inside, inside_err)
}

fn compare(cx: &mut Cx, parts: &[Part], style: usize, mark: usize, bad: &[String], must_fail: bool) -> bool {
    let Part::Proc(target) = &parts[mark] else { unreachable!() };
    let mut plain = vec!["return".to_string()];
    let mut reference = Vec::new();
    reference.append(&mut plain);
    while reference.len() < bad.len() { reference.push(String::new()); }
    let mut bad = bad.to_vec();
    while bad.len() < reference.len() { bad.push(String::new()); }
    let (tb, a, b) = render(parts, style, mark, &bad);
    let (tr, _, _) = render(parts, style, mark, &reference);
    cx.input(tb.clone());
    let good = parse_text(&tr);
    let dam = parse_text(&tb);
    let find = |t: &dm::objtree::ObjectTree| -> Option<bool> {
        let ty = t.find(&target.ty)?;
        let p = ty.procs.get(target.name.as_str())?;
        p.value.iter().find(|v| v.location.line == a).map(|v| v.code.is_none())
    };
    let Some(rejected) = find(&dam.tree) else { cx.violate("declaration lost", format!("the proc on line {a} is gone\n{tb}")); return false; };
    // everything but the body of the damaged proc
    let blank = |p: Parsed| -> (Parsed, String) {
        let mut s = String::new();
        for t in p.tree.iter_types() {
            let _ = std::fmt::Write::write_fmt(&mut s, format_args!("{} parent {:?} at {}:{}\n", t.path, t.parent_type().map(|x| x.path.clone()), t.location.line, t.location.column));
            for (n, v) in t.vars.iter() {
                let _ = std::fmt::Write::write_fmt(&mut s, format_args!("  var {n} {:?} at {}:{} decl {:?} = {:?}\n", v.value.constant, v.value.location.line, v.value.location.column, v.declaration.as_ref().map(|d| sx_vt(&d.var_type)), v.value.expression.as_ref().map(sx)));
            }
            for (n, pr) in t.procs.iter() {
                let _ = std::fmt::Write::write_fmt(&mut s, format_args!("  proc {n} decl {:?}\n", pr.declaration.as_ref().map(|d| (d.kind.name(), d.location.line))));
                for v in pr.value.iter() {
                    let mine = v.location.line == a && !v.location.is_builtins();
                    let _ = std::fmt::Write::write_fmt(&mut s, format_args!("    at {}:{} ({}) {:?} {}\n", v.location.line, v.location.column, v.parameters.iter().map(sx_param).collect::<Vec<_>>().join(","), if mine { None } else { v.body_range.as_ref().map(|r| (r.start.line, r.start.column, r.end.line, r.end.column)) }, if mine { "-".to_string() } else { v.code.as_ref().map(|c| sx_block(c)).unwrap_or("none".into()) }));
                }
            }
        }
        (p, s)
    };
    let (good, dg) = blank(good);
    let (dam, dd) = blank(dam);
    if dg != dd { cx.violate("other definitions changed", format!("first difference: {}\nthe damaged proc is on lines {a} to {b}\n{tb}", first_diff(&dg, &dd))); return false; }
    cx.count("trees compared", 1);
    let (og, ig, _) = outside(&good.context, a, b);
    let (od, _, ie) = outside(&dam.context, a, b);
    let _ = ig;
    if rejected && ie == 0 { cx.violate("no error", format!("the body was dropped without an error inside lines {a} to {b}: {:?}\n{tb}", diags(&dam.context))); return false; }
    if must_fail && !rejected { cx.violate("corruption accepted", format!("the corrupted body is accepted, lines {a} to {b}\n{tb}")); return false; }
    if og != od { cx.violate("other diagnostics changed", format!("without: {og:?}\nwith: {od:?}\nthe damaged proc is on lines {a} to {b}\n{tb}")); return false; }
    if rejected {
        cx.count("bodies rejected", 1);
        cx.nontrivial();
        dreamchecker::run(&good.context, &good.tree);
        dreamchecker::run(&dam.context, &dam.tree);
        let (og, _, _) = outside(&good.context, a, b);
        let (od, _, _) = outside(&dam.context, a, b);
        if og != od { cx.violate("checks of other code changed", format!("without: {og:#?}\nwith: {od:#?}\nthe damaged proc is on lines {a} to {b}\n{tb}")); return false; }
        cx.count("diagnostics of other code compared", og.len() as u64);
    } else {
        cx.count("bodies accepted after all", 1);
    }
    true
}

fn case(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let parts = project(&mut rng, cx.size);
    let procs: Vec<usize> = (0..parts.len()).filter(|i| matches!(parts[*i], Part::Proc(_))).collect();
    let mark = *rng.pick(&procs);
    let Part::Proc(p) = &parts[mark] else { unreachable!() };
    let style = rng.below(3);
    let bad = corrupt(&mut rng, &p.body);
    compare(cx, &parts, style, mark, &bad, false);
}

fn grid(cx: &mut Cx) {
    let mk = |ty: &str, word: &'static str, name: &str, body: &[&str], brace: bool| Part::Proc(P { ty: ty.into(), word, name: name.into(), params: "x".into(), body: body.iter().map(|s| s.to_string()).collect(), brace });
    let base = ["var/y = x + 1", "if(x)", "\tfor(var/i in 1 to 3)", "\t\ty += i", "else", "\treturn undefined_thing", "return y"];
    for brace in [false, true] {
        for style in 0..3 {
            let parts = vec![
                Part::Var("/obj".into(), "v1".into(), "4 + 5".into()),
                mk("", "/proc", "before", &["return x.nope"], false),
                mk("/obj", "/proc", "p", &base, brace),
                mk("/obj/item", "", "p", &["..()", "return missing"], false),
                mk("/obj", "", "p", &["return ..()"], false),
                Part::Var("/obj/item".into(), "v2".into(), "list(1)".into()),
                mk("/obj/item", "/verb", "after", &["p(1)", "return nothing()"], brace),
            ];
            for mark in [1usize, 2, 3, 4, 6] {
                let Part::Proc(p) = &parts[mark] else { unreachable!() };
                for (k, bad) in BAD.iter().enumerate() {
                    if !cx.thorough && (k + mark) as u64 % 5 != cx.seed % 5 { continue; }
                    // these are only invalid, not unbalanced, as whole statements
                    if *bad == "} {" || bad.ends_with("2, 3") || bad.contains("( ]") || bad.starts_with('{') { continue; }
                    for at in 0..=p.body.len() {
                        let mut b = p.body.clone();
                        let ind = b[at.min(b.len() - 1)].len() - b[at.min(b.len() - 1)].trim_start_matches('\t').len();
                        b.insert(at, format!("{}{bad}", "\t".repeat(ind)));
                        let sure = !matches!(*bad, "else" | "else if" | "else ( 1 )" | "var" | "{ ( ) [ ] { } }" | "proc" | "operator" | "( { } )" | "set" | "goto" | "catch" | "static/x" | "/obj/q = 2" | "del" | "throw" | "verb/x" | "/proc/f()" | "var/proc" | "step 3" | "do do" | "while" | "switch" | "for (in in in)" | "x [ ]" | "=> 3" | "break break" | "f ( { x } )" | "list ( 1 = )" | "<" | "in" | "1 to 2" | "= 4" | ". ." | "( )" | "[ 1 ]" | "x +" | "a . . b" | "return return" | "+ +" | "x = " | "a ? b" | "a :: " | "**" | "* 3" | "new new" | "..." | ": b" | "% x" | "if ()" | "try 1" | "input ( ) as");
                        if !compare(cx, &parts, style, mark, &b, sure) { return; }
                    }
                }
            }
        }
    }
}
