use crate::dm_util::*;
use crate::ensure;
use crate::fw::*;
use crate::gen_dm::*;
use dm::Severity;

pub static PROP: Prop = Prop {
    id: "C09",
    quick: 12000,
    thorough: 400000,
    case,
    directed: &[("every pair of operators", pairs), ("prefix and postfix", unaries)],
    rule: "a case is a random expression tree or statement tree of the generator's own model, written out with minimal and with redundant parentheses under several spacings, parsed by the real parser, and compared node by node with the model; distinct by source text, non-trivial when it holds at least three operators or two nested statements",
    assumptions: &["the precedence table of the DM reference as quoted in the parser's own comments (power to 'in'), left associative except assignment", "':' member access inside a ternary is only generated directly after a chain of names, the one place DM's tokens leave it unambiguous"],
    ..DEFAULT
};

fn check(cx: &mut Cx, text: &str, want: &str, what: &str) {
    let parsed = parse_text(text);
    let bad: Vec<String> = parsed.context.errors().iter().filter(|e| e.severity() == Severity::Error).map(|e| diag(&parsed.context, e)).collect();
    ensure!(cx, bad.is_empty(), format!("rejected {what}"), "valid code is rejected: {:?}\n{text}", bad);
    let got = parsed.tree.root().get_proc("p").and_then(|p| p.code.as_ref().map(|c| sx_block(c)));
    ensure!(cx, got.as_deref() == Some(want), format!("tree {what}"), "parsed tree differs\n got {:?}\nwant {:?}\n{text}", got.unwrap_or_default(), want);
}

fn case(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let size = cx.size;
    if rng.chance(3, 5) {
        let depth = 1 + rng.below(2 + size / 20);
        let e = Gen::new(&mut rng).expr(depth);
        let want = format!("{{ (return {}) }}", e.sx());
        let mut texts = Vec::new();
        for (red, sp) in [(0, Spacing::default()), (25, Spacing { noise: 10, wrap: 15, tight: false }), (0, Spacing { tight: true, ..Spacing::default() }), (70, Spacing::default())] {
            let mut r = Render::new(&mut rng, red);
            r.top(&e);
            let (lex, added) = (r.out, r.parens_added);
            cx.count("redundant parentheses added", added as u64);
            let t = join(&mut rng, &lex, sp);
            texts.push(format!("/proc/p()\n\treturn {t}\n"));
        }
        cx.input(texts[0].clone());
        let n = e.size();
        if n >= 4 { cx.nontrivial(); }
        cx.count("expression nodes", n as u64);
        cx.max("expression nodes in one case", n as u64);
        for t in &texts {
            cx.count("texts parsed", 1);
            check(cx, t, &want, "expression");
            if cx.violated() { cx.input(t.clone()); return; }
        }
    } else {
        let depth = 1 + rng.below(2 + size / 40);
        let mut b = Gen::new(&mut rng).block(depth, 4);
        if b.is_empty() { b = vec![S::Return(None)]; }
        let want = block_sx(&b);
        for layout in [Layout::Indent("\t"), Layout::Braces, Layout::BraceLines] {
            let ls = StmtRender { rng: &mut rng, redundant: 10 }.lines(&b);
            let mut o = Out::new(&mut rng, layout, Spacing::default(), 0);
            o.lines(&ls, 1, false);
            let t = format!("/proc/p()\n{}", o.s);
            cx.input(t.clone());
            cx.count("statement texts parsed", 1);
            check(cx, &t, &want, "statement");
            if cx.violated() { return; }
        }
        cx.count("statements", want.matches('(').count() as u64);
        if depth > 1 { cx.nontrivial(); }
    }
}

/// All pairs and triples of binary operators, minimal spelling: a op1 b op2 c op3 d.
fn pairs(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let id = |s: &str| E::Id(s.into());
    let mut all: Vec<usize> = (0..BINOPS.len() + ASSIGNOPS.len() + 2).collect();
    all.sort();
    let build = |o: usize, a: E, b: E| -> E {
        if o < BINOPS.len() { E::Bin(o, Box::new(a), Box::new(b)) }
        else if o < BINOPS.len() + ASSIGNOPS.len() { E::Asg(o - BINOPS.len(), Box::new(a), Box::new(b)) }
        else if o == BINOPS.len() + ASSIGNOPS.len() { E::In(Box::new(a), Box::new(b)) }
        else { E::Tern(Box::new(a), Box::new(E::Id("t".into())), Box::new(b)) }
    };
    let mut n = 0;
    for &o in &all {
        for &q in &all {
            for shape in 0..4 {
                let e = match shape {
                    0 => build(o, build(q, id("a"), id("b")), id("c")),
                    1 => build(o, id("a"), build(q, id("b"), id("c"))),
                    2 => E::Un(rng.below(PREFIX.len()), Box::new(build(o, E::Un(rng.below(PREFIX.len()), Box::new(id("a"))), build(q, id("b"), E::Field(0, Box::new(id("c")), "d".into()))))),
                    _ => build(o, build(q, id("a"), E::Index(false, Box::new(id("b")), Box::new(id("i")))), build(q, id("c"), E::Post(0, Box::new(id("d"))))),
                };
                let want = format!("{{ (return {}) }}", e.sx());
                let mut r = Render::new(&mut rng, 0);
                r.top(&e);
                let lex = r.out;
                let t = format!("/proc/p()\n\treturn {}\n", join(&mut rng, &lex, Spacing::default()));
                check(cx, &t, &want, "pair");
                if cx.violated() { cx.input(t); return; }
                n += 1;
            }
        }
    }
    cx.count("operator pairs", n);
    cx.nontrivial();
}

fn unaries(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let id = |s: &str| E::Id(s.into());
    let mut n = 0;
    for a in 0..PREFIX.len() {
        for b in 0..PREFIX.len() {
            for k in 0..6 {
                let inner = match k {
                    0 => id("a"),
                    1 => E::Post(0, Box::new(id("a"))),
                    2 => E::Field(0, Box::new(id("a")), "b".into()),
                    3 => E::Meth(2, Box::new(E::Index(true, Box::new(id("a")), Box::new(id("b")))), "c".into(), vec![E::Int(1)]),
                    4 => E::Call("f".into(), vec![]),
                    _ => E::Int(4),
                };
                let e = E::Un(a, Box::new(E::Un(b, Box::new(inner))));
                let want = format!("{{ (return {}) }}", e.sx());
                let mut r = Render::new(&mut rng, 0);
                r.top(&e);
                let lex = r.out;
                let t = format!("/proc/p()\n\treturn {}\n", join(&mut rng, &lex, Spacing::default()));
                check(cx, &t, &want, "unary");
                if cx.violated() { cx.input(t); return; }
                n += 1;
            }
        }
    }
    cx.count("unary stacks", n);
    cx.nontrivial();
}
