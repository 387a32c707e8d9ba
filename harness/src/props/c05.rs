use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use dm::Context;
use dm::Severity;
use dm::lexer::{Punctuation, Token};
use dm::preprocessor::Preprocessor;
use std::collections::BTreeMap;

pub static PROP: Prop = Prop {
    id: "C05",
    quick: 150000,
    thorough: 2500000,
    case,
    directed: &[("recursive macros", recursive), ("argument count", counts), ("paste and stringify table", table)],
    rule: "a case is a random sequence of object and function macro definitions (each using earlier ones, arguments, pasting, stringification, variadics), redefinitions, undefinitions and text lines using them with nested and empty arguments; the tokens delivered by the real preprocessor are compared with those of an independent expander; distinct by text, non-trivial when at least three expansions happen, one of them inside another",
    assumptions: &["stringified arguments are names, numbers and operators separated by one space, the form the tokens are joined in", "macros without self reference stay below the nesting limit of 32 and below 20000 tokens; others are only required to end with a diagnostic"],
    ..DEFAULT
};

#[derive(Clone, Debug, PartialEq)]
enum T { Id(String), Int(i64), Str(String), P(&'static str), Paste, Hash }

#[derive(Clone, Debug)]
struct M { params: Option<Vec<String>>, variadic: bool, body: Vec<T> }

struct Frame { toks: std::collections::VecDeque<T>, }

struct Ex<'a> { defs: &'a BTreeMap<String, Vec<M>>, expansions: usize, nested: usize, maxdepth: usize, total: usize, overflow: bool, wrong: usize, line: u32 }

impl Ex<'_> {
    fn next(stack: &mut Vec<Frame>) -> Option<T> {
        loop {
            let f = stack.last_mut()?;
            if let Some(t) = f.toks.pop_front() { return Some(t); }
            stack.pop();
        }
    }
    fn line(&mut self, toks: &[T]) -> Vec<T> {
        let mut out = Vec::new();
        let mut stack = vec![Frame { toks: toks.iter().cloned().collect() }];
        let mut back: Option<T> = None;
        loop {
            let Some(t) = back.take().or_else(|| Self::next(&mut stack)) else { break };
            self.total += 1;
            self.maxdepth = self.maxdepth.max(stack.len());
            if self.total > 20000 || stack.len() > 28 { self.overflow = true; break; }
            let T::Id(n) = &t else { out.push(t); continue };
            if n == "__LINE__" { out.push(T::Int(self.line as i64)); continue }
            let Some(m) = self.defs.get(n).and_then(|v| v.last()).cloned() else { out.push(t); continue };
            let Some(params) = &m.params else {
                self.did(stack.len());
                stack.push(Frame { toks: m.body.iter().cloned().collect() });
                continue;
            };
            match Self::next(&mut stack) {
                Some(T::P("(")) => {},
                other => { out.push(t); back = other; continue },
            }
            let mut args: Vec<Vec<T>> = vec![vec![]];
            let mut depth = 0;
            loop {
                let Some(a) = Self::next(&mut stack) else { self.overflow = true; return out };
                match a {
                    T::P("(") => depth += 1,
                    T::P(")") if depth == 0 => break,
                    T::P(")") => depth -= 1,
                    T::P(",") if depth == 0 => { args.push(vec![]); continue },
                    _ => {},
                }
                args.last_mut().unwrap().push(a);
            }
            if m.variadic {
                while args.len() > params.len() { let x = args.pop().unwrap(); let l = args.last_mut().unwrap(); l.push(T::P(",")); l.extend(x); }
                if args.len() + 1 == params.len() { args.push(vec![]); }
            }
            if args.len() != params.len() { self.wrong += 1; continue; }
            self.did(stack.len());
            let arg = |n: &T| -> Option<&Vec<T>> { if let T::Id(n) = n { params.iter().position(|p| p == n).map(|i| &args[i]) } else { None } };
            // elements separated by ##, each a list of tokens
            let mut res: Vec<T> = Vec::new();
            let mut i = 0;
            while i < m.body.len() {
                let mut cur: Vec<T> = Vec::new();
                let mut first = true;
                loop {
                    let piece: Vec<T> = match &m.body[i] {
                        T::Hash => { i += 1; vec![T::Str(arg(&m.body[i]).unwrap().iter().map(spell).collect::<Vec<_>>().join(" "))] },
                        t => arg(t).cloned().unwrap_or_else(|| vec![t.clone()]),
                    };
                    i += 1;
                    if first { cur = piece } else {
                        match (cur.last(), piece.first()) {
                            (Some(T::Id(a)), Some(T::Id(b))) => { let s = format!("{a}{b}"); *cur.last_mut().unwrap() = T::Id(s); cur.extend_from_slice(&piece[1..]); },
                            (Some(T::Id(a)), Some(T::Int(b))) => { let s = format!("{a}{b}"); *cur.last_mut().unwrap() = T::Id(s); cur.extend_from_slice(&piece[1..]); },
                            _ => cur.extend(piece),
                        }
                    }
                    first = false;
                    if m.body.get(i) == Some(&T::Paste) { i += 1 } else { break }
                }
                res.extend(cur);
                if res.len() > 1000 { self.overflow = true; return out }
            }
            stack.push(Frame { toks: res.into() });
        }
        out
    }
    fn did(&mut self, depth: usize) {
        self.expansions += 1;
        if depth > 1 { self.nested += 1 }
    }
}

fn spell(t: &T) -> String {
    match t { T::Id(s) => s.clone(), T::Int(i) => i.to_string(), T::Str(s) => format!("\"{s}\""), T::P(p) => p.to_string(), T::Paste => "##".into(), T::Hash => "#".into() }
}

fn spell_real(t: &Token) -> Option<String> {
    Some(match t {
        Token::Punct(Punctuation::Newline | Punctuation::Space | Punctuation::Tab) => return None,
        Token::Ident(i, _) => i.to_string(),
        Token::Int(i) => i.to_string(),
        Token::String(s) => format!("\"{s}\""),
        Token::Punct(p) => p.to_string(),
        other => format!("{other:?}"),
    })
}

fn preprocess(text: &str) -> (Vec<String>, Vec<(Severity, String, u32)>) {
    let context = Context::default();
    let pp = Preprocessor::from_buffer(&context, "t.dme".into(), text.to_owned());
    let toks = pp.filter_map(|t| spell_real(&t.token)).collect();
    let d = context.errors().iter().map(|e| (e.severity(), e.description().to_owned(), e.location().line)).collect();
    (toks, d)
}

const OPS: &[&str] = &["+", "-", "*", "=", "==", ".", "[", "]", "{", "}", "?", "&&", "|"];

struct G<'a> { rng: &'a mut Rng, defs: BTreeMap<String, Vec<M>>, rank: BTreeMap<String, usize> }

impl G<'_> {
    fn plain(&mut self) -> T {
        match self.rng.below(8) {
            0 | 1 => T::Int(self.rng.range(0, 12)),
            2 => T::P(OPS[self.rng.below(OPS.len())]),
            3 => T::Str(["s", "a b", "AA", "x(y", ""][self.rng.below(5)].into()),
            4 => T::Id("__LINE__".into()),
            5 => T::Id(["x", "y", "z"][self.rng.below(3)].into()),
            _ => T::Id(["foo", "bar", "p1", "M", "MF", "qu", "M1x"][self.rng.below(7)].into()),
        }
    }
    /// Tokens using macros of rank below `rank` and the given parameters.
    fn seq(&mut self, rank: usize, params: &[String], len: usize, depth: usize, out: &mut Vec<T>) {
        for _ in 0..len {
            match self.rng.weighted(&[5, if params.is_empty() { 0 } else { 5 }, 5, 1]) {
                0 => { let t = self.plain(); out.push(t) },
                1 => { let p = self.rng.pick(params).clone(); out.push(T::Id(p)) },
                2 => {
                    let names: Vec<(String, usize, bool)> = self.defs.iter().filter(|(n, v)| !v.is_empty() && self.rank[*n] < rank)
                        .map(|(n, v)| (n.clone(), v.last().unwrap().params.as_ref().map_or(usize::MAX, |p| p.len()), v.last().unwrap().variadic)).collect();
                    if names.is_empty() { continue; }
                    let (n, k, variadic) = self.rng.pick(&names).clone();
                    out.push(T::Id(n));
                    if k == usize::MAX || self.rng.chance(1, 12) { continue; }
                    out.push(T::P("("));
                    let mut k = k;
                    if variadic { k = (k - 1 + self.rng.below(4)).max(1); } else if self.rng.chance(1, 60) { k += 1; }
                    for i in 0..k {
                        if i > 0 { out.push(T::P(",")) }
                        let l = [0, 1, 1, 1, 2, 3][self.rng.below(6)];
                        if depth > 0 {
                            let paren = self.rng.chance(1, 8);
                            if paren { out.push(T::P("(")); }
                            self.seq(rank, params, l, depth - 1, out);
                            if paren { out.push(T::P(",")); out.push(T::P(")")); }
                        } else { for _ in 0..l { let t = self.plain(); out.push(t) } }
                    }
                    out.push(T::P(")"));
                },
                _ => { out.push(T::P("(")); self.seq(rank, params, 2, depth, out); out.push(T::P(")")); },
            }
        }
    }
    fn define(&mut self, name: &str, rank: usize) -> M {
        let fun = self.rng.chance(2, 3);
        let mut params: Vec<String> = vec![];
        let mut variadic = false;
        if fun {
            let k = 1 + self.rng.below(3);
            params = ["x", "y", "z"][..k].iter().map(|s| s.to_string()).collect();
            if self.rng.chance(1, 4) { variadic = true; if self.rng.bool() { *params.last_mut().unwrap() = "__VA_ARGS__".into(); } }
        }
        let mut body: Vec<T> = vec![];
        let n = self.rng.below(4);
        for _ in 0..n {
            if fun && self.rng.chance(1, 4) {
                // a paste group
                let k = 2 + self.rng.below(2);
                for i in 0..k {
                    if i > 0 { body.push(T::Paste) }
                    let p = self.rng.pick(&params).clone();
                    body.push(match self.rng.below(if i == 0 { 4 } else { 5 }) { 0 | 1 => T::Id(p), 4 => T::Int(self.rng.range(0, 12)), _ => T::Id(["M", "foo", "p", "x1"][self.rng.below(4)].into()) });
                }
            } else if fun && self.rng.chance(1, 7) {
                body.push(T::Hash);
                let p = self.rng.pick(&params).clone();
                body.push(T::Id(p));
            } else {
                self.seq(rank, &params, 1, 1, &mut body);
            }
        }
        let m = M { params: fun.then_some(params), variadic, body };
        self.rank.insert(name.to_owned(), rank);
        m
    }
}

fn write(rng: &mut Rng, toks: &[T], wide: bool) -> String {
    let mut s = String::new();
    let mut prev: Option<&T> = None;
    for t in toks {
        let glue = match (prev, t) {
            (None, _) => true,
            // keep a call's parenthesis and paste operators as tight as they like; names and numbers apart
            (Some(T::Hash), _) => true,
            (Some(T::Id(_)), T::P("(")) => !wide || rng.bool(),
            (Some(T::P("(")), _) | (_, T::P(")")) | (_, T::P(",")) | (_, T::Paste) | (Some(T::Paste), _) => rng.chance(2, 3),
            _ => false,
        };
        if !glue { s.push(' ') }
        s += &spell(t);
        prev = Some(t);
    }
    s
}

/// The largest arguments of `#x` are compared as joined by one space, so the model needs no spacing.
fn case(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let mut g = G { rng: &mut rng, defs: BTreeMap::new(), rank: BTreeMap::new() };
    let steps = 4 + cx.size / 5;
    let mut text = String::new();
    let mut want: Vec<String> = vec![];
    let mut line = 1;
    let (mut expansions, mut nested, mut wrong, mut pastes, mut strings) = (0, 0, 0, 0, 0);
    let mut maxdepth = 0;
    for step in 0..steps {
        let k = if step < 3 { 0 } else { g.rng.weighted(&[4, 1, 6]) };
        match k {
            0 => {
                let name = format!("M{}", g.rng.below(10));
                // a macro keeps its rank over redefinitions, so that the set stays acyclic
                let rank = name[1..].parse::<usize>().unwrap() + 1;
                let m = g.define(&name, rank);
                let mut s = format!("#define {name}");
                if let Some(p) = &m.params {
                    s += "(";
                    for (i, x) in p.iter().enumerate() {
                        if i > 0 { s += [",", ", "][g.rng.below(2)]; }
                        if m.variadic && i + 1 == p.len() { if x == "__VA_ARGS__" { s += "..." } else { s += x; s += "..." } } else { s += x }
                    }
                    s += ")";
                }
                s += " ";
                s += &write(g.rng, &m.body, false);
                pastes += m.body.iter().filter(|t| **t == T::Paste).count();
                strings += m.body.iter().filter(|t| **t == T::Hash).count();
                text += &s;
                text += "\n";
                g.defs.entry(name).or_default().push(m);
            },
            1 => {
                let name = format!("M{}", g.rng.below(10));
                text += &format!("#undef {name}\n");
                if let Some(v) = g.defs.get_mut(&name) { v.pop(); }
            },
            _ => {
                let mut toks = vec![];
                g.seq(100, &[], 3, 2, &mut toks);
                let mut ex = Ex { defs: &g.defs, expansions: 0, nested: 0, maxdepth: 0, total: 0, overflow: false, wrong: 0, line };
                let out = ex.line(&toks);
                if ex.overflow { cx.count("lines left out as too large or incomplete", 1); continue; }
                expansions += ex.expansions;
                nested += ex.nested;
                wrong += ex.wrong;
                maxdepth = maxdepth.max(ex.maxdepth);
                want.extend(out.iter().map(spell));
                text += &write(g.rng, &toks, true);
                text += "\n";
            },
        }
        line += 1;
    }
    cx.input(text.clone());
    cx.count("expansions", expansions as u64);
    cx.count("expansions inside expansions", nested as u64);
    cx.count("paste operators", pastes as u64);
    cx.count("stringifications", strings as u64);
    cx.count("calls with a wrong number of arguments", wrong as u64);
    cx.max("expansion depth", maxdepth as u64);
    if expansions >= 3 && nested > 0 { cx.nontrivial(); }
    let (got, diags) = match catch(|| preprocess(&text)) { Ok(g) => g, Err(e) => { cx.violate("panic", format!("{e}\n{text}")); return; } };
    if got != want {
        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        cx.violate("tokens", format!("token {i}: got {:?}, want {:?}\ndiagnostics {diags:?}\n{text}", &got[i.min(got.len())..(i + 6).min(got.len())], &want[i.min(want.len())..(i + 6).min(want.len())]));
        return;
    }
    let errors: Vec<_> = diags.iter().filter(|d| d.0 == Severity::Error).collect();
    ensure!(cx, errors.len() == wrong && errors.iter().all(|e| e.1.contains("number of arguments")), "diagnostics", "{wrong} calls have a wrong number of arguments, but the errors are {errors:?}\n{text}");
}

fn recursive(cx: &mut Cx) {
    let defs: &[&str] = &[
        "#define A A\nA\n", "#define A A A\nA\n", "#define A A A A A\nA A\n", "#define A B\n#define B A\nA B\n", "#define A B B\n#define B C C\n#define C A A\nA\n",
        "#define F(x) F(x)\nF(1)\n", "#define F(x) F(F(x))\nF(1)\n", "#define F(x) F(x) F(x)\nF(F(1))\n", "#define F(x) x(x)\nF(F)\n", "#define F(x) x(x) x(x)\nF(F)\n",
        "#define F(x, y) y(x, y) y(x x, y)\nF(1, F)\n", "#define F(x) G(x x)\n#define G(x) F(x x)\nF(1)\n", "#define F(x...) F(x, x)\nF(1)\n", "#define F(x) x##F(x)\nF(F)\n",
        "#define A A\n#if A\n#endif\n", "#define A A A A\n#if A == 1\n#endif\n", "#define F(x) F(x)+F(x)\n#if F(1)\n#endif\n", "#define A F(A A)\n#define F(x) A x A\nA\n",
        "#define A (A)\n#define F(x) x\nF(A F(A))\n", "#define A \"[A]\"\nA\n", "#define F(x) x##x(x##x)\nF(F)\n",
    ];
    for d in defs {
        let t = format!("{d}\nafter\n#define OK fine\nOK\n");
        cx.input(t.clone());
        let start = std::time::Instant::now();
        match catch(|| preprocess(&t)) {
            Err(e) => { cx.violate("panic", e); return; },
            Ok((toks, diags)) => {
                let recursive = !t.contains("x##F(x)") && !t.contains("x##x(") && !t.contains("[A]");
                ensure!(cx, !recursive || diags.iter().any(|d| d.0 == Severity::Error), "recursion unreported", "no error for a recursive macro\n{t}");
                ensure!(cx, toks.ends_with(&["after".into(), "fine".into()]), "after recursion", "the lines after the recursive macro are lost: {:?}\n{t}", &toks[toks.len().saturating_sub(10)..]);
                ensure!(cx, toks.len() < 2_000_000 && diags.len() < 200, "unbounded", "{} tokens and {} diagnostics\n{t}", toks.len(), diags.len());
                cx.max("tokens from a recursive macro", toks.len() as u64);
                cx.max("milliseconds for a recursive macro", start.elapsed().as_millis() as u64);
                cx.count("recursive macro sets", 1);
            },
        }
    }
    // deep but finite nesting of files and macros does not count as recursion
    for depth in [1usize, 5, 20, 28] {
        let mut t = String::from("#define M0 done\n");
        for i in 1..=depth { t += &format!("#define M{i} M{}\n", i - 1); }
        t += &format!("M{depth}\n");
        let (toks, diags) = preprocess(&t);
        ensure!(cx, toks == ["done"] && diags.is_empty(), "chain", "chain of {depth}: {toks:?} {diags:?}");
    }
    let dir = cx.dir("deep");
    let n = 120;
    for i in 0..n {
        std::fs::write(dir.join(format!("f{i}.dm")), format!("ID({i})\n{}", if i + 1 < n { format!("#include \"f{}.dm\"\n", i + 1) } else { String::new() })).unwrap();
    }
    let context = Context::default();
    let toks: Vec<String> = Preprocessor::from_buffer(&context, dir.join("t.dme"), "#define ID(x) file##x\n#define file1 one\n#include \"f0.dm\"\n").filter_map(|t| spell_real(&t.token)).collect();
    let want: Vec<String> = (0..n).map(|i| if i == 1 { "one".into() } else { format!("file{i}") }).collect();
    // ID(x) pastes the literal name with the argument's number
    ensure!(cx, toks == want && context.errors().is_empty(), "deep includes", "macros in deeply included files: {:?}", context.errors().iter().map(|e| e.description().to_owned()).collect::<Vec<_>>());
    cx.nontrivial();
}

fn counts(cx: &mut Cx) {
    let mut n = 0;
    for params in 1..=4usize {
        for variadic in [false, true] {
            for named in [false, true] {
                for args in 0..=7usize {
                    let mut p: Vec<String> = (0..params).map(|i| format!("a{i}")).collect();
                    if variadic { let l = p.last_mut().unwrap(); *l = if named { format!("{l}...") } else { "...".into() }; }
                    let last = if variadic && !named { "__VA_ARGS__".to_owned() } else { format!("a{}", params - 1) };
                    let body: Vec<String> = (0..params).map(|i| format!("{{ {} }}", if i + 1 == params { last.clone() } else { format!("a{i}") })).collect();
                    let a: Vec<String> = (0..args).map(|i| if i % 3 == 2 { format!("(v{i},w)") } else { format!("v{i}") }).collect();
                    let t = format!("#define F({}) {}\n[ F({}) ]\nnext\n", p.join(", "), body.join(" ; "), a.join(", "));
                    let eff = args.max(1);
                    let ok = if variadic { eff + 1 >= params } else { eff == params };
                    let toks = |s: &str| -> Vec<String> { preprocess(&format!("{s}\n")).0 };
                    let mut want = String::from("[ ");
                    if ok {
                        let get = |i: usize| -> String { a.get(i).cloned().unwrap_or_default() };
                        let vals: Vec<String> = (0..params).map(|i| if variadic && i + 1 == params { a.get(i..).unwrap_or_default().join(",") } else { get(i) }).collect();
                        want += &vals.iter().map(|v| format!("{{ {v} }}")).collect::<Vec<_>>().join(" ; ");
                    }
                    want += " ]\nnext";
                    let want = toks(&want);
                    let (got, d) = match catch(|| preprocess(&t)) { Ok(x) => x, Err(e) => { cx.input(t); cx.violate("panic", e); return; } };
                    if got != want || d.is_empty() != ok { cx.input(t.clone()); cx.violate("argument count", format!("got {got:?} want {want:?} {d:?}\n{t}")); return; }
                    n += 1;
                }
            }
        }
    }
    cx.count("argument counts enumerated", n);
    cx.nontrivial();
}

/// Every shape of `A l ## r B` and `#x` over small arguments.
fn table(cx: &mut Cx) {
    let vals: &[&[T]] = &[&[], &[T::P("+")], &[T::Int(7)]];
    let id = |s: &str| T::Id(s.into());
    let mut args: Vec<Vec<T>> = vals.iter().map(|v| v.to_vec()).collect();
    args.push(vec![id("k")]);
    args.push(vec![id("k"), T::P("+"), id("m")]);
    args.push(vec![T::Int(1), id("k")]);
    args.push(vec![id("k"), T::Int(2)]);
    let elems = [id("x"), id("y"), id("lit")];
    let mut n = 0;
    for a in &args {
        for b in &args {
            for before in [None, Some(id("pre")), Some(T::P("*")), Some(id("x"))] {
                for e1 in &elems {
                    for e2 in &elems {
                        for e3 in [None, Some(id("y")), Some(id("lit")), Some(T::Int(5))] {
                            let mut body: Vec<T> = before.clone().into_iter().collect();
                            body.extend([e1.clone(), T::Paste, e2.clone()]);
                            if let Some(e) = &e3 { body.extend([T::Paste, e.clone()]); }
                            body.extend([id("post"), T::Hash, id("y")]);
                            let m = M { params: Some(vec!["x".into(), "y".into()]), variadic: false, body: body.clone() };
                            let mut defs = BTreeMap::new();
                            defs.insert("F".to_owned(), vec![m]);
                            let mut call = vec![id("F"), T::P("(")];
                            call.extend(a.iter().cloned());
                            call.push(T::P(","));
                            call.extend(b.iter().cloned());
                            call.push(T::P(")"));
                            let t = format!("#define F(x,y) {}\n{}\n", write(&mut cx.rng, &body, false), write(&mut cx.rng, &call, false));
                            let mut ex = Ex { defs: &defs, expansions: 0, nested: 0, maxdepth: 0, total: 0, overflow: false, wrong: 0, line: 2 };
                            let want: Vec<String> = ex.line(&call).iter().map(spell).collect();
                            let (got, d) = preprocess(&t);
                            if got != want || !d.is_empty() { cx.input(t.clone()); cx.violate("paste table", format!("got {got:?} want {want:?} {d:?}\n{t}")); return; }
                            n += 1;
                        }
                    }
                }
            }
        }
    }
    cx.count("paste shapes enumerated", n);
    cx.nontrivial();
}
