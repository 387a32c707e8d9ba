use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use dm::Context;
use dm::lexer::{Punctuation, Token};
use dm::preprocessor::Preprocessor;
use std::collections::BTreeMap;
use std::path::PathBuf;

pub static PROP: Prop = Prop {
    id: "C04",
    quick: 100000,
    thorough: 900000,
    case,
    directed: &[("every truth pattern of short chains", chains), ("every pair of misplaced directives", faults)],
    rule: "a case is a random nest of conditional chains, definitions, undefinitions, messages and text over one or several files, written while a model decides which regions are selected; the tokens delivered by the real preprocessor and its diagnostics are compared with the model's; then the same text with one directive removed, doubled or misplaced must be reported as an error; distinct by text, non-trivial when at least one region is selected and one is not",
    assumptions: &["names that are not macros are errors in #if and are only generated where the condition must not be evaluated"],
    ..DEFAULT
};

#[derive(Clone, Debug)]
enum Def { Int(i64), Flag, Alias(String), Expr(String, i64), Has(String, String) }

/// Lines of one file; each entry is one logical line.
#[derive(Default, Clone)]
struct Lines(Vec<(String, char)>);

struct W<'a> {
    rng: &'a mut Rng,
    defs: BTreeMap<String, Vec<Def>>,
    want: Vec<String>,
    redefined: Vec<String>,
    not_defined: Vec<String>,
    messages: Vec<(bool, String)>,
    n: usize,
    budget: isize,
    on: usize,
    off: usize,
    maxdepth: usize,
    files: Vec<(String, String)>,
    multi: bool,
    evaluated: usize,
    in_main: bool,
    cur: String,
}

const NAMES: &[&str] = &["AA", "BB", "CC", "DD", "EE", "FF"];

impl W<'_> {
    fn val(&self, name: &str, depth: usize) -> Option<i64> {
        if depth == 0 { return None; }
        match self.defs.get(name)?.last()? {
            Def::Int(i) => Some(*i),
            Def::Flag => None,
            Def::Alias(n) => self.val(n, depth - 1),
            Def::Expr(n, k) => self.val(n, depth - 1).map(|v| v + k),
            Def::Has(n, _) => Some(self.is_def(n) as i64),
        }
    }
    fn is_def(&self, n: &str) -> bool {
        if n == "__MAIN__" { return self.in_main; }
        if n == "DM_VERSION" { return true; }
        self.defs.get(n).is_some_and(|v| !v.is_empty())
    }

    /// A condition with its value; both numbers and truth values are small.
    fn num(&mut self, d: usize) -> (String, i64) {
        match self.rng.below(if d == 0 { 4 } else { 7 }) {
            0 | 1 => {
                let v: Vec<(String, i64)> = NAMES.iter().filter_map(|n| self.val(n, 6).map(|v| (n.to_string(), v))).collect();
                if v.is_empty() { let i = self.rng.range(0, 3); (i.to_string(), i) } else { self.rng.pick(&v).clone() }
            },
            2 | 3 => { let i = self.rng.range(0, 4); (i.to_string(), i) },
            4 => { let (a, x) = self.num(d - 1); let (b, y) = self.num(d - 1); (format!("({a} + {b})"), x + y) },
            5 => { let (a, x) = self.num(d - 1); let (b, y) = self.num(d - 1); (format!("({a}-{b})"), x - y) },
            _ => { let (a, x) = self.num(d - 1); (format!("(-({a}))"), -x) },
        }
    }
    fn cond(&mut self, d: usize) -> (String, bool) {
        match self.rng.below(if d == 0 { 6 } else { 11 }) {
            0 | 1 => {
                let n = if self.rng.chance(1, 12) { "__MAIN__" } else { self.rng.pick(NAMES) };
                let b = self.is_def(n);
                (format!("defined({n})"), b)
            },
            2 => { let (a, x) = self.num(1); (a, x != 0) },
            3 | 4 => {
                let (a, x) = self.num(1);
                let (b, y) = self.num(1);
                let (op, r) = match self.rng.below(6) { 0 => ("==", x == y), 1 => ("!=", x != y), 2 => ("<", x < y), 3 => ("<=", x <= y), 4 => (">", x > y), _ => (">=", x >= y) };
                (format!("{a} {op} {b}"), r)
            },
            5 => { let b = self.rng.bool(); if b { ("DM_VERSION >= 400".into(), true) } else { ("DM_VERSION < 400".into(), false) } },
            6 | 7 => { let (a, x) = self.cond(d - 1); (format!("!({a})"), !x) },
            8 => { let (a, x) = self.cond(d - 1); let (b, y) = self.cond(d - 1); (format!("({a}) && ({b})"), x && y) },
            9 => { let (a, x) = self.cond(d - 1); let (b, y) = self.cond(d - 1); (format!("({a}) || ({b})"), x || y) },
            _ => { let (a, x) = self.cond(d - 1); (format!("({a})"), x) },
        }
    }
    /// A condition that must not be looked at.
    fn bad_cond(&mut self) -> String {
        match self.rng.below(5) {
            0 => "nosuchmacro == 3".into(),
            1 => "1 +".into(),
            2 => "f(2)".into(),
            3 => "1 / 0".into(),
            _ => self.cond(1).0,
        }
    }
    fn directive(&mut self, name: &str, rest: &str) -> String {
        let r = &mut *self.rng;
        let lead = ["", "", "", "", "\t", "  "][r.below(6)];
        let gap = ["", "", "", "", " ", "\t"][r.below(6)];
        let mut rest = rest.to_owned();
        if r.chance(1, 8) { if let Some(i) = rest.find(' ') { rest = format!("{} \\\n {}", &rest[..i], &rest[i + 1..]); } }
        let tail = if name == "error" || name == "warn" { "" } else { ["", "", "", "", "", " // x #endif", " /* #else */", "  "][r.below(8)] };
        format!("{lead}#{gap}{name}{}{rest}{tail}\n", if rest.is_empty() { "" } else { " " })
    }
    fn push(&mut self, out: &mut Lines, kind: char, name: &str, rest: &str) {
        let l = self.directive(name, rest);
        out.0.push((l, kind));
    }

    fn items(&mut self, out: &mut Lines, active: bool, depth: usize) {
        self.maxdepth = self.maxdepth.max(depth);
        let n = 1 + self.rng.below(5);
        for _ in 0..n {
            if self.budget <= 0 { return; }
            self.budget -= 1;
            match self.rng.weighted(&[6, 4, 3, if depth < 7 { 7 } else { 0 }, 1, if self.multi && depth < 5 { 2 } else { 0 }, if active { 0 } else { 4 }]) {
                0 => {
                    self.n += 1;
                    let t = format!("t{}", self.n);
                    if active { self.on += 1; self.want.push(t.clone()); } else { self.off += 1; }
                    // text that mentions no macro
                    let extra = ["", "", "", "(1, 2)", "= 3", "/a/b", "\"#endif\"", "// #else", "/* \n#endif\n*/ x", "__FILE__"][self.rng.below(10)];
                    if active { for w in match extra { "(1, 2)" => vec!["(", "1", ",", "2", ")"], "= 3" => vec!["=", "3"], "/a/b" => vec!["/", "a", "/", "b"], "\"#endif\"" => vec!["\"#endif\""], "/* \n#endif\n*/ x" => vec!["x"], "__FILE__" => vec![self.cur.as_str()], _ => vec![] } { self.want.push(w.into()); } }
                    let lead = ["", "\t", "  "][self.rng.below(3)];
                    out.0.push((format!("{lead}{t} {extra}\n"), 't'));
                },
                1 => {
                    let name = self.rng.pick(NAMES).to_string();
                    let other = self.rng.pick(NAMES).to_string();
                    let def = match self.rng.below(7) { 0 | 1 | 2 => Def::Int(self.rng.range(0, 4)), 3 => Def::Flag, 4 => Def::Alias(other), 5 => Def::Expr(other, self.rng.range(0, 3)), _ => Def::Has(other, "".into()) };
                    let rest = match &def { Def::Int(i) => format!("{name} {i}"), Def::Flag => name.clone(), Def::Alias(o) => format!("{name} {o}"), Def::Expr(o, k) => format!("{name} ({o} + {k})"), Def::Has(o, _) => format!("{name} defined({o})") };
                    let d = self.directive("define", &rest);
                    out.0.push((d, 'd'));
                    if active {
                        let v = self.defs.entry(name.clone()).or_default();
                        if !v.is_empty() { self.redefined.push(name.clone()); }
                        v.push(def);
                    }
                },
                2 => {
                    let name = self.rng.pick(NAMES).to_string();
                    self.push(out, 'd', "undef", &name);
                    if active {
                        if self.defs.entry(name.clone()).or_default().pop().is_none() { self.not_defined.push(name); }
                    }
                },
                3 => self.chain(out, active, depth),
                4 => {
                    let err = self.rng.bool();
                    self.n += 1;
                    let m = format!("message number {} isn't #endif", self.n);
                    self.push(out, 'm', if err { "error" } else { "warn" }, &m);
                    if active { self.messages.push((err, format!("#{} {m}", if err { "error" } else { "warn" }))); }
                },
                5 => {
                    let f = format!("inc{}.dm", self.files.len());
                    self.files.push((f.clone(), String::new()));
                    let k = self.files.len() - 1;
                    let mut sub = Lines::default();
                    let outer = std::mem::replace(&mut self.in_main, false);
                    let file = std::mem::replace(&mut self.cur, format!("__FILE__{f}"));
                    self.items(&mut sub, active, depth + 1);
                    self.in_main = outer;
                    self.cur = file;
                    self.files[k].1 = sub.0.iter().map(|l| l.0.as_str()).collect();
                    self.push(out, 'i', "include", &format!("\"{f}\""));
                },
                _ => {
                    let l = match self.rng.below(7) {
                        0 => "#include \"missing.dm\"\n".to_owned(),
                        1 => "#nonsense here\n".to_owned(),
                        2 => "#define F(\n".to_owned(),
                        3 => "#define G(x) #x ##x\n".to_owned(),
                        4 => "#undef\n".to_owned(),
                        5 => "AA BB (CC) #AA\n".to_owned(),
                        _ => "#pragma multiple\n".to_owned(),
                    };
                    out.0.push((l, 'j'));
                },
            }
        }
    }

    fn chain(&mut self, out: &mut Lines, active: bool, depth: usize) {
        let mut taken;
        match self.rng.below(4) {
            0 => { let n = self.rng.pick(NAMES).to_string(); self.push(out, 'b', "ifdef", &n); taken = self.is_def(&n); },
            1 => { let n = self.rng.pick(NAMES).to_string(); self.push(out, 'b', "ifndef", &n); taken = !self.is_def(&n); },
            _ => {
                let (c, v) = if active { self.evaluated += 1; self.cond(2) } else { (self.bad_cond(), false) };
                self.push(out, 'b', "if", &c);
                taken = v;
            },
        }
        self.items(out, active && taken, depth + 1);
        let n = [0, 0, 1, 1, 2, 4][self.rng.below(6)];
        for _ in 0..n {
            let live = active && !taken;
            let (c, v) = if live { self.evaluated += 1; self.cond(2) } else { (self.bad_cond(), true) };
            self.push(out, 'c', "elif", &c);
            let sel = !taken && v;
            taken |= v;
            self.items(out, active && sel, depth + 1);
        }
        if self.rng.bool() {
            self.push(out, 'e', "else", "");
            self.items(out, active && !taken, depth + 1);
        }
        self.push(out, 'f', "endif", "");
    }
}

struct Got { tokens: Vec<String>, diags: Vec<(dm::Severity, String)> }

fn spell(t: &Token) -> Option<String> {
    Some(match t {
        Token::Punct(Punctuation::Newline | Punctuation::Space | Punctuation::Tab) => return None,
        Token::Ident(i, _) => i.to_string(),
        Token::Int(i) => i.to_string(),
        Token::String(s) => format!("\"{s}\""),
        Token::Punct(p) => p.to_string(),
        other => format!("{other:?}"),
    })
}

fn run(main: PathBuf, text: &str) -> Got {
    let context = Context::default();
    let pp = Preprocessor::from_buffer(&context, main, text.to_owned());
    let tokens = pp.filter_map(|t| spell(&t.token)).collect();
    let diags = context.errors().iter().map(|e| (e.severity(), e.description().to_owned())).collect();
    Got { tokens, diags }
}

fn case(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let multi = rng.chance(1, 6);
    let budget = 4 + (cx.size as isize) / 2;
    let mut w = W { rng: &mut rng, defs: BTreeMap::new(), want: vec![], redefined: vec![], not_defined: vec![], messages: vec![], n: 0, budget, on: 0, off: 0, maxdepth: 0, files: vec![], multi, evaluated: 0, in_main: true, cur: "__FILE__t.dme".into() };
    let mut out = Lines::default();
    w.items(&mut out, true, 0);
    while w.budget > 0 { w.items(&mut out, true, 0); }
    let (mut want, redefined, not_defined, messages, files) = (w.want, w.redefined, w.not_defined, w.messages, w.files);
    let (on, off, maxdepth, evaluated) = (w.on, w.off, w.maxdepth, w.evaluated);
    let text: String = out.0.iter().map(|l| l.0.as_str()).collect();
    let mut shown = text.clone();
    for (f, t) in &files { shown += &format!("---- {f}\n{t}"); }
    cx.input(shown);
    let main = if multi {
        let d = cx.dir("p");
        for (f, t) in &files { std::fs::write(d.join(f), t).unwrap(); }
        d.join("t.dme")
    } else { PathBuf::from("t.dme") };
    // the name of the file, as it was opened
    for w in &mut want { if let Some(f) = w.strip_prefix("__FILE__") { *w = format!("\"{}\"", main.with_file_name(f).display()); } }
    let got = match catch(|| run(main.clone(), &text)) { Ok(g) => g, Err(e) => { cx.violate("panic", format!("{e}\n{text}")); return; } };
    cx.count("conditions evaluated by the model", evaluated as u64);
    cx.count("text lines selected", on as u64);
    cx.count("text lines skipped", off as u64);
    cx.count("included files", files.len() as u64);
    cx.max("nesting depth", maxdepth as u64);
    if on > 0 && off > 0 { cx.nontrivial(); }
    if got.tokens != want {
        let i = got.tokens.iter().zip(&want).take_while(|(a, b)| a == b).count();
        cx.violate("selected text", format!("token {i}: got {:?}, want {:?}\ndiagnostics {:?}\n{text}", got.tokens.get(i), want.get(i), got.diags));
        return;
    }
    let mut expect: Vec<String> = Vec::new();
    for r in &redefined { expect.push(format!("Warning macro redefined: {r}")); }
    for r in &not_defined { expect.push(format!("Warning macro undefined while not defined: {r}")); }
    for (e, m) in &messages { expect.push(format!("{} {m}", if *e { "Error" } else { "Warning" })); }
    expect.sort();
    let mut have: Vec<String> = got.diags.iter().map(|(s, m)| format!("{s:?} {m}")).collect();
    have.sort();
    cx.count("diagnostics matched", expect.len() as u64);
    ensure!(cx, have == expect, "diagnostics", "diagnostics differ\n got {have:?}\nwant {expect:?}\n{text}");

    // one fault
    if out.0.iter().any(|l| l.1 == 'b') {
        let mut ls = out.0.clone();
        let idx = |k: char, ls: &[(String, char)]| -> Vec<usize> { ls.iter().enumerate().filter(|l| l.1.1 == k).map(|l| l.0).collect() };
        let rng = &mut cx.rng;
        let mut depth = 0i32;
        let mut tops = vec![0];
        for (i, l) in ls.iter().enumerate() {
            if l.1 == 'b' { depth += 1 }
            if l.1 == 'f' { depth -= 1 }
            if depth == 0 { tops.push(i + 1) }
        }
        let what = match rng.below(6) {
            0 => { let i = rng.below(ls.len() + 1); ls.insert(i, ("#endif\n".into(), 'f')); "extra #endif" },
            1 => { let v = idx('f', &ls); let i = *rng.pick(&v); ls.remove(i); "missing #endif" },
            2 => { let v = idx('b', &ls); let i = *rng.pick(&v); ls.remove(i); "missing #if" },
            3 => { let i = *rng.pick(&tops); ls.insert(i, ("#else\n".into(), 'e')); "#else without #if" },
            4 => { let i = *rng.pick(&tops); ls.insert(i, (["#elif 1\n", "#elif 0\n", "#elif defined(AA)\n"][rng.below(3)].into(), 'c')); "#elif without #if" },
            _ => {
                let v = idx('e', &ls);
                if v.is_empty() { return; }
                let i = *rng.pick(&v);
                ls.insert(i + 1, (["#else\n", "#elif 1\n", "#elif 0\n"][rng.below(3)].into(), 'e'));
                "branch after #else"
            },
        };
        let text: String = ls.iter().map(|l| l.0.as_str()).collect();
        let errors = |g: &Got| g.diags.iter().filter(|d| d.0 == dm::Severity::Error && (d.1.contains("#if") || d.1.contains("#e"))  && !d.1.starts_with("#error")).count();
        match catch(|| run(main, &text)) {
            Ok(g) => {
                cx.count(&format!("faults: {what}"), 1);
                ensure!(cx, errors(&g) > 0, "fault not reported", "{what} is not reported as an error; diagnostics {:?}\n{text}", g.diags);
            },
            Err(e) => cx.violate("panic", format!("{e}\n{text}")),
        }
    }
}

/// if/elif/elif/else chains for all truth values, nested in selected and unselected regions.
fn chains(cx: &mut Cx) {
    let mut n = 0;
    for outer in 0..3 {
        for len in 1..=4usize {
            for bits in 0..(1u32 << len) {
                for els in 0..2 {
                    for form in 0..3 {
                        let mut t = String::from("#define ONE 1\n#define ZERO 0\n");
                        let mut want = vec![];
                        if outer > 0 { t += if outer == 1 { "#if 1\n" } else { "#if ZERO\n" }; }
                        let mut taken = false;
                        for i in 0..len {
                            let b = bits >> i & 1 == 1;
                            t += &match (i, form) {
                                (0, 1) => format!("#ifdef {}\n", if b { "ONE" } else { "NONE" }),
                                (0, 2) => format!("#ifndef {}\n", if b { "NONE" } else { "ONE" }),
                                (0, _) => format!("#if {}\n", if b { "ONE" } else { "ZERO" }),
                                (_, 1) => format!("#elif {}\n", if b { "defined(ONE)" } else { "defined(NONE)" }),
                                _ => format!("#elif {}\n", if b { "ONE == 1" } else { "ONE == ZERO" }),
                            };
                            t += &format!("x{i}\n#define D{i}\n");
                            if b && !taken && outer < 2 { want.push(format!("x{i}")); want.push(format!("y{i}")); }
                            taken |= b;
                        }
                        if els == 1 { t += "#else\nxe\n"; if !taken && outer < 2 { want.push("xe".into()); } }
                        t += "#endif\n";
                        let (pairs, _) = want.clone().into_iter().partition::<Vec<_>, _>(|w| w.starts_with('y'));
                        want.retain(|w| !w.starts_with('y'));
                        if outer > 0 { t += "#else\nxo\n#endif\n"; if outer == 2 { want.push("xo".into()); } }
                        for i in 0..len { t += &format!("#ifdef D{i}\ny{i}\n#endif\n"); }
                        want.extend(pairs);
                        let g = run("t.dme".into(), &t);
                        n += 1;
                        if g.tokens != want || !g.diags.is_empty() { cx.input(t.clone()); cx.violate("chain", format!("got {:?} want {want:?} {:?}\n{t}", g.tokens, g.diags)); return; }
                    }
                }
            }
        }
    }
    cx.count("chains enumerated", n);
    cx.nontrivial();
}

/// All sequences of up to six directives that are not balanced are reported, all balanced ones are not.
fn faults(cx: &mut Cx) {
    let ds = ["#if 1\n", "#if 0\n", "#ifdef X\n", "#elif 1\n", "#elif 0\n", "#else\n", "#endif\n"];
    let mut n = 0;
    let mut bad_n = 0;
    for len in 1..=5usize {
        for code in 0..7usize.pow(len as u32) {
            let mut c = code;
            let mut t = String::new();
            let mut stack: Vec<bool> = vec![];
            let mut bad = false;
            for i in 0..len {
                let k = c % 7;
                c /= 7;
                t += ds[k];
                t += &format!("t{i}\n");
                match k {
                    0..=2 => stack.push(false),
                    3 | 4 => match stack.last() { Some(false) => {}, _ => bad = true },
                    5 => match stack.last_mut() { Some(e @ false) => *e = true, _ => bad = true },
                    _ => bad |= stack.pop().is_none(),
                }
            }
            bad |= !stack.is_empty();
            let g = match catch(|| run("t.dme".into(), &t)) { Ok(g) => g, Err(e) => { cx.input(t.clone()); cx.violate("panic", e); return; } };
            let err = g.diags.iter().any(|d| d.0 == dm::Severity::Error);
            if err != bad { cx.input(t.clone()); cx.violate("balance", format!("{} but diagnostics are {:?}\n{t}", if bad { "unbalanced" } else { "balanced" }, g.diags)); return; }
            n += 1;
            bad_n += bad as u64;
        }
    }
    cx.count("directive sequences enumerated", n);
    cx.count("of them unbalanced", bad_n);
    cx.nontrivial();
}
