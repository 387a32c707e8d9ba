//! Generator of DM expressions, statements and declarations: an own tree, its rendering into
//! lexemes in several spellings, and the canonical form (crate::dm_util::sx) it must parse to.
#![allow(dead_code)]
use crate::rng::Rng;
use std::fmt::Write;

/// A lexeme and whether white space may separate it from the next.
#[derive(Clone, Debug, PartialEq)]
pub struct Lex {
    pub t: String,
    /// the next lexeme must follow without white space
    pub glue: bool,
}

pub fn lx(t: impl Into<String>) -> Lex { Lex { t: t.into(), glue: false } }
pub fn lg(t: impl Into<String>) -> Lex { Lex { t: t.into(), glue: true } }

// name, source, sx name, strength (0 binds tightest)
pub const BINOPS: &[(&str, &str, u8)] = &[
    ("**", "Pow", 0),
    ("*", "Mul", 1), ("/", "Div", 1), ("%", "Mod", 1), ("%%", "FloatMod", 1),
    ("+", "Add", 2), ("-", "Sub", 2),
    ("<", "Less", 3), (">", "Greater", 3), ("<=", "LessEq", 3), (">=", "GreaterEq", 3), ("<=>", "LessOrGreater", 3),
    ("<<", "LShift", 4), (">>", "RShift", 4),
    ("==", "Eq", 5), ("!=", "NotEq", 5), ("<>", "NotEq", 5), ("~=", "Equiv", 5), ("~!", "NotEquiv", 5),
    ("&", "BitAnd", 6), ("^", "BitXor", 7), ("|", "BitOr", 8), ("&&", "And", 9), ("||", "Or", 10),
];
pub const S_UNARY: i32 = -1;
pub const S_COND: i32 = 11;
pub const S_ASSIGN: i32 = 12;
pub const S_IN: i32 = 13;
pub const ASSIGNOPS: &[(&str, &str)] = &[
    ("=", "Assign"), ("+=", "AddAssign"), ("-=", "SubAssign"), ("*=", "MulAssign"), ("/=", "DivAssign"), ("%=", "ModAssign"),
    ("%%=", "FloatModAssign"), ("&=", "BitAndAssign"), ("|=", "BitOrAssign"), ("^=", "BitXorAssign"), ("<<=", "LShiftAssign"),
    (">>=", "RShiftAssign"), (":=", "AssignInto"), ("&&=", "AndAssign"), ("||=", "OrAssign"),
];
pub const PREFIX: &[(&str, &str)] = &[("-", "Neg"), ("!", "Not"), ("~", "BitNot"), ("++", "PreIncr"), ("--", "PreDecr"), ("&", "Reference"), ("*", "Dereference")];
pub const POSTFIX: &[(&str, &str)] = &[("++", "PostIncr"), ("--", "PostDecr")];
pub const ACCESS: &[(&str, &str)] = &[(".", "Dot"), (":", "Colon"), ("?.", "SafeDot"), ("?:", "SafeColon")];

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Null,
    Int(i32),
    Float(String),
    Id(String),
    Str(String),
    Res(String),
    Path(Vec<(char, String)>, Vec<(String, E)>),
    Interp(String, Vec<(Option<E>, String)>),
    Call(String, Vec<E>),
    Super(Vec<E>),
    SelfC(Vec<E>),
    New(Option<Vec<E>>),
    NewPath(Vec<(char, String)>, Vec<(String, E)>, Option<Vec<E>>),
    NewMini(String, Vec<(usize, String)>, Option<Vec<E>>),
    List(Vec<E>),
    Locate(Vec<E>, Option<Box<E>>),
    Input(Vec<E>, Option<&'static str>, Option<Box<E>>),
    Pick(Vec<(Option<E>, E)>),
    DynCall(Vec<E>, Vec<E>),
    GlobalId(String),
    GlobalCall(String, Vec<E>),
    Un(usize, Box<E>),
    Post(usize, Box<E>),
    Index(bool, Box<E>, Box<E>),
    Field(usize, Box<E>, String),
    Meth(usize, Box<E>, String, Vec<E>),
    Static(Vec<(char, String)>, String),
    Bin(usize, Box<E>, Box<E>),
    Asg(usize, Box<E>, Box<E>),
    Tern(Box<E>, Box<E>, Box<E>),
    In(Box<E>, Box<E>),
    InTo(Box<E>, Box<E>, Box<E>),
}
use E::*;

fn path_sx(p: &[(char, String)]) -> String {
    p.iter().map(|(c, n)| format!("{}.{n}", match c { '/' => "Slash", '.' => "Dot", _ => "Colon" })).collect()
}

fn prefab_sx(p: &[(char, String)], vars: &[(String, E)]) -> String {
    let mut s = format!("(prefab {}", path_sx(p));
    for (k, v) in vars { let _ = write!(s, " {k}={}", v.sx()); }
    s.push(')');
    s
}

fn args_sx(a: &[E]) -> String { a.iter().map(|x| format!(" {}", x.sx())).collect() }
fn oargs_sx(a: &Option<Vec<E>>) -> String { match a { None => " noargs".into(), Some(a) => format!(" args{}", args_sx(a)) } }

impl E {
    pub fn sx(&self) -> String {
        match self {
            Null => "null".into(),
            Int(i) => format!("i{i}"),
            Float(s) => format!("f{:?}", s.parse::<f32>().unwrap()),
            Id(s) => s.clone(),
            Str(s) => format!("{s:?}"),
            Res(s) => format!("r{s:?}"),
            Path(p, v) => prefab_sx(p, v),
            Interp(b, parts) => {
                let mut s = format!("(interp {b:?}");
                for (e, t) in parts { let _ = write!(s, " {} {t:?}", e.as_ref().map(|e| e.sx()).unwrap_or("-".into())); }
                s + ")"
            },
            Call(n, a) => format!("(call {n}{})", args_sx(a)),
            Super(a) => format!("(super{})", args_sx(a)),
            SelfC(a) => format!("(self{})", args_sx(a)),
            New(a) => format!("(new{})", oargs_sx(a)),
            NewPath(p, v, a) => format!("(new {}{})", prefab_sx(p, v), oargs_sx(a)),
            NewMini(n, f, a) => {
                let mut s = format!("(newmini {n}");
                for (k, x) in f { let _ = write!(s, " {}.{x}", ACCESS[*k].1); }
                format!("{s}{})", oargs_sx(a))
            },
            List(a) => format!("(list{})", args_sx(a)),
            Locate(a, i) => format!("(locate{} in {})", args_sx(a), i.as_ref().map(|e| e.sx()).unwrap_or("-".into())),
            Input(a, t, i) => format!("(input{} as {} in {})", args_sx(a), input_type_sx(*t), i.as_ref().map(|e| e.sx()).unwrap_or("-".into())),
            Pick(p) => {
                let mut s = "(pick".to_owned();
                for (w, v) in p { let _ = write!(s, " {}:{}", w.as_ref().map(|e| e.sx()).unwrap_or("-".into()), v.sx()); }
                s + ")"
            },
            DynCall(a, b) => format!("(dyncall [{}] [{}])", args_sx(a), args_sx(b)),
            GlobalId(i) => format!("(global {i})"),
            GlobalCall(i, a) => format!("(globalcall {i}{})", args_sx(a)),
            Un(o, e) => format!("({} {})", PREFIX[*o].1, e.sx()),
            Post(o, e) => format!("({} {})", POSTFIX[*o].1, e.sx()),
            Index(s, a, b) => format!("(index{} {} {})", if *s { "?" } else { "" }, a.sx(), b.sx()),
            Field(k, e, n) => format!("(field {} {} {n})", ACCESS[*k].1, e.sx()),
            Meth(k, e, n, a) => format!("(callm {} {} {n}{})", ACCESS[*k].1, e.sx(), args_sx(a)),
            Static(p, n) => format!("(static {} {n})", prefab_sx(p, &[])),
            Bin(o, a, b) => format!("({} {} {})", BINOPS[*o].1, a.sx(), b.sx()),
            Asg(o, a, b) => format!("({} {} {})", ASSIGNOPS[*o].1, a.sx(), b.sx()),
            Tern(c, a, b) => format!("(? {} {} {})", c.sx(), a.sx(), b.sx()),
            In(a, b) => format!("(In {} {})", a.sx(), b.sx()),
            InTo(a, b, c) => format!("(In {} (To {} {}))", a.sx(), b.sx(), c.sx()),
        }
    }

    pub fn strength(&self) -> i32 {
        match self {
            Bin(o, ..) => BINOPS[*o].2 as i32,
            Tern(..) => S_COND,
            Asg(..) => S_ASSIGN,
            In(..) | InTo(..) => S_IN,
            Un(..) => S_UNARY,
            // greedy or ambiguous when something follows: always parenthesised inside another expression
            Locate(..) | Input(..) => 99,
            Path(..) | New(None) | NewPath(_, _, None) | NewMini(_, _, None) => 99,
            _ => -2,
        }
    }

    pub fn size(&self) -> usize {
        let mut n = 1;
        self.visit_children(&mut |c| n += c.size());
        n
    }

    pub fn visit_children<'a>(&'a self, f: &mut dyn FnMut(&'a E)) {
        match self {
            Null | Int(_) | Float(_) | Id(_) | Str(_) | Res(_) | GlobalId(_) | Static(..) => {},
            Path(_, v) => v.iter().for_each(|x| f(&x.1)),
            Interp(_, p) => p.iter().for_each(|x| if let Some(e) = &x.0 { f(e) }),
            Call(_, a) | Super(a) | SelfC(a) | List(a) | GlobalCall(_, a) => a.iter().for_each(f),
            New(a) | NewMini(_, _, a) => a.iter().flatten().for_each(f),
            NewPath(_, v, a) => { v.iter().for_each(|x| f(&x.1)); a.iter().flatten().for_each(f) },
            Locate(a, i) | Input(a, _, i) => { a.iter().for_each(&mut *f); if let Some(i) = i { f(i) } },
            Pick(p) => p.iter().for_each(|(w, v)| { if let Some(w) = w { f(w) } f(v) }),
            DynCall(a, b) => { a.iter().for_each(&mut *f); b.iter().for_each(f) },
            Un(_, e) | Post(_, e) | Field(_, e, _) => f(e),
            Meth(_, e, _, a) => { f(e); a.iter().for_each(f) },
            Index(_, a, b) | Bin(_, a, b) | Asg(_, a, b) | In(a, b) => { f(a); f(b) },
            Tern(a, b, c) | InTo(a, b, c) => { f(a); f(b); f(c) },
        }
    }
}

fn input_type_sx(t: Option<&'static str>) -> String {
    match t {
        None => "None".into(),
        Some(t) => {
            let mut it = t.split('|').map(|x| x.parse::<dm::ast::InputType>().unwrap());
            let mut v = it.next().unwrap();
            for x in it { v |= x; }
            format!("{:?}", Some(v))
        },
    }
}

// ---------------------------------------------------------------------------------------------
// rendering

/// How much redundant bracketing to add, in percent.
pub struct Render<'a> {
    pub rng: &'a mut Rng,
    pub redundant: usize,
    pub out: Vec<Lex>,
    pub parens_added: usize,
}

impl<'a> Render<'a> {
    pub fn new(rng: &'a mut Rng, redundant: usize) -> Self { Render { rng, redundant, out: vec![], parens_added: 0 } }
    fn p(&mut self, t: &str) { self.out.push(lx(t)); }
    fn g(&mut self, t: &str) { self.out.push(lg(t)); }
    /// member access: ':' must touch both its neighbours
    fn acc(&mut self, k: usize) {
        if k == 1 { if let Some(l) = self.out.last_mut() { l.glue = true; } }
        self.g(ACCESS[k].0);
    }

    /// Top of an expression position (after '=', inside brackets, an argument).
    pub fn top(&mut self, e: &E) { self.expr(e, S_IN + 1, false, true); }

    /// Render so that the parser reads `e` as one operand binding no weaker than `max`.
    pub fn expr(&mut self, e: &E, max: i32, tern: bool, top: bool) {
        let s = e.strength();
        let need = if s == 99 { !top } else { s > max } || (tern && self.colon_hazard(e));
        let extra = self.redundant > 0 && self.rng.chance(self.redundant, 100);
        if need || extra {
            if !need { self.parens_added += 1; }
            self.p("(");
            self.expr(e, S_IN + 1, false, true);
            self.p(")");
            return;
        }
        match e {
            Null => self.p("null"),
            Int(i) => { let t = int_text(self.rng, *i); self.p(&t) },
            Float(s) => self.p(s),
            Id(s) => self.p(s),
            Str(s) => { let t = format!("\"{s}\""); self.p(&t) },
            Res(s) => { let t = format!("'{s}'"); self.p(&t) },
            Path(p, v) => self.prefab(p, v),
            Interp(b, parts) => {
                self.p(&format!("\"{b}["));
                let n = parts.len();
                for (i, (e, t)) in parts.iter().enumerate() {
                    if let Some(e) = e { self.top(e); }
                    self.p(&format!("]{t}{}", if i + 1 == n { "\"" } else { "[" }));
                }
            },
            Call(n, a) => { self.p(n); self.args(a) },
            Super(a) => { self.p(".."); self.args(a) },
            SelfC(a) => { self.g("."); self.args(a) },
            New(a) => { self.p("new"); if let Some(a) = a { self.args(a) } },
            NewPath(p, v, a) => { self.p("new"); self.prefab(p, v); if let Some(a) = a { self.args(a) } },
            NewMini(n, f, a) => {
                self.p("new");
                self.p(n);
                for (k, x) in f { self.acc(*k); self.p(x); }
                if let Some(a) = a { self.args(a) }
            },
            List(a) => { self.p("list"); self.args(a) },
            Locate(a, i) => { self.p("locate"); self.args(a); if let Some(i) = i { self.p("in"); self.top(i); } },
            Input(a, t, i) => {
                self.p("input");
                self.args(a);
                if let Some(t) = t { self.p("as"); for (k, x) in t.split('|').enumerate() { if k > 0 { self.p("|") } self.p(x) } }
                if let Some(i) = i { self.p("in"); self.top(i); }
            },
            Pick(p) => {
                self.p("pick");
                self.p("(");
                for (k, (w, v)) in p.iter().enumerate() {
                    if k > 0 { self.p(","); }
                    if let Some(w) = w { self.top(w); self.p(";"); }
                    self.top(v);
                }
                self.p(")");
            },
            DynCall(a, b) => { self.p("call"); self.args(a); self.args(b) },
            GlobalId(i) => { self.g("::"); self.p(i) },
            GlobalCall(i, a) => { self.g("::"); self.p(i); self.args(a) },
            Un(o, x) => {
                self.p(PREFIX[*o].0);
                self.expr(x, S_UNARY, tern, false);
            },
            Post(o, x) => { self.recv(x, tern); self.p(POSTFIX[*o].0) },
            Index(safe, a, b) => {
                self.recv(a, tern);
                self.p(if *safe { "?[" } else { "[" });
                self.top(b);
                self.p("]");
            },
            Field(1, x, _) | Meth(1, x, ..) if matches!(**x, Str(_) | Interp(..) | Res(_) | Post(..)) => {
                self.p("(");
                self.top(x);
                self.p(")");
                self.acc(1);
                match e { Field(_, _, n) => self.p(n), Meth(_, _, n, a) => { self.p(n); self.args(a) }, _ => {} }
            },
            Field(k, x, n) => { self.recv(x, tern); self.acc(*k); self.p(n) },
            Meth(k, x, n, a) => { self.recv(x, tern); self.acc(*k); self.p(n); self.args(a) },
            Static(p, n) => { self.prefab(p, &[]); self.g("::"); self.p(n) },
            Bin(o, a, b) => {
                let s = s_of(*o);
                self.expr(a, s, tern, false);
                self.p(BINOPS[*o].0);
                self.expr(b, s - 1, tern, false);
            },
            Asg(o, a, b) => {
                self.expr(a, S_ASSIGN - 1, tern, false);
                self.p(ASSIGNOPS[*o].0);
                self.expr(b, S_ASSIGN, tern, false);
            },
            Tern(c, a, b) => {
                self.expr(c, S_COND - 1, true, false);
                self.p("?");
                self.expr(a, S_COND, true, false);
                self.p(":");
                self.expr(b, S_COND, true, false);
            },
            In(a, b) => {
                self.expr(a, S_IN - 1, tern, false);
                self.p("in");
                self.expr(b, S_IN - 1, tern, false);
            },
            InTo(a, b, c) => {
                self.expr(a, S_IN - 1, tern, false);
                self.p("in");
                self.expr(b, S_IN - 1, tern, false);
                self.p("to");
                self.expr(c, S_COND - 1, tern, false);
            },
        }
    }

    /// ':' access inside a ternary is only read as access right after a chain of names.
    fn colon_hazard(&self, e: &E) -> bool {
        match e {
            Field(1, x, _) | Meth(1, x, _, _) => self.redundant > 0 || !name_chain(x) || self.colon_hazard(x),
            NewMini(_, f, _) => f.iter().any(|x| x.0 == 1),
            Field(_, x, _) | Meth(_, x, _, _) | Post(_, x) | Un(_, x) | Index(_, x, _) => self.colon_hazard(x),
            Path(p, _) => p.iter().any(|x| x.0 == ':'),
            NewPath(p, ..) | Static(p, _) => p.iter().any(|x| x.0 == ':'),
            _ => false,
        }
    }

    /// The receiver of a postfix: a term or another postfix chain.
    fn recv(&mut self, e: &E, tern: bool) {
        match e {
            Int(_) | Float(_) | Path(..) | New(_) | NewPath(..) | NewMini(..) | Static(..) => {
                self.p("(");
                self.expr(e, S_IN + 1, false, true);
                self.p(")");
            },
            _ => self.expr(e, -2, tern, false),
        }
    }

    pub fn args(&mut self, a: &[E]) {
        self.p("(");
        for (k, x) in a.iter().enumerate() {
            if k > 0 { self.p(","); }
            self.top(x);
        }
        self.p(")");
    }

    pub fn prefab(&mut self, p: &[(char, String)], v: &[(String, E)]) {
        for (c, n) in p { self.g(&c.to_string()); self.g(n); }
        self.out.last_mut().unwrap().glue = false;
        if !v.is_empty() {
            self.p("{");
            for (k, (n, x)) in v.iter().enumerate() {
                if k > 0 { self.p(";"); }
                self.p(n);
                self.p("=");
                self.top(x);
            }
            self.p("}");
        }
    }
}

fn s_of(o: usize) -> i32 { BINOPS[o].2 as i32 }

fn name_chain(e: &E) -> bool {
    match e {
        Id(s) => s != ".",
        Field(_, x, _) => name_chain(x),
        _ => false,
    }
}

pub fn int_text(rng: &mut Rng, i: i32) -> String {
    if i >= 0 && rng.chance(1, 12) { format!("0x{i:X}") } else { format!("{i}") }
}

/// Spacing of lexemes within a logical line.
#[derive(Clone, Copy, Default)]
pub struct Spacing {
    /// percent chance of a comment or extra space between lexemes
    pub noise: usize,
    /// newline + indentation inside parentheses
    pub wrap: usize,
    /// leave out optional spaces
    pub tight: bool,
}

fn is_word(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }

pub fn join(rng: &mut Rng, lex: &[Lex], sp: Spacing) -> String {
    let mut s = String::new();
    let mut depth = 0i32;
    let mut interp = 0;
    for (i, l) in lex.iter().enumerate() {
        s.push_str(&l.t);
        match l.t.as_str() { "(" => depth += 1, ")" => depth -= 1, _ => {} }
        if l.t.len() > 1 && l.t.starts_with('"') && l.t.ends_with('[') { interp += 1; }
        if l.t.starts_with(']') && l.t.ends_with('"') { interp -= 1; }
        let Some(n) = lex.get(i + 1) else { break };
        if l.glue { continue; }
        let a = l.t.chars().last().unwrap();
        let b = n.t.chars().next().unwrap();
        // fixed spacing where the language distinguishes it
        if l.t == "?" || n.t == "?" || l.t == ":" || n.t == ":" { s.push(' '); continue; }
        let safe = |c: char| matches!(c, '(' | ')' | ',' | ';' | '{' | '}');
        let optional = safe(a) || safe(b) || b == '[' || b == ']' || a == '[' || a == ']'
            || (is_word(a) != is_word(b) && !matches!(b, '.' | ':' | '?' | '"' | '\'') && !matches!(a, '.' | ':' | '?' | '/' | '"' | '\'') && !(b == '/' || a == '/'));
        if sp.wrap > 0 && depth > 0 && interp == 0 && rng.chance(sp.wrap, 100) {
            let pad = match rng.below(3) { 0 => "".to_owned(), 1 => "\t\t".to_owned(), _ => " ".repeat(rng.below(7)) };
            s.push_str("\n");
            s.push_str(&pad);
            if !optional && pad.is_empty() { s.push(' '); }
            continue;
        }
        if sp.noise > 0 && interp == 0 && rng.chance(sp.noise, 100) {
            s.push_str(*rng.pick(&[" /* c */ ", "  ", " /* /* nested */ ( { */ ", " \t"]));
            continue;
        }
        if optional && (sp.tight || matches!(n.t.as_str(), "(" | ")" | "," | ";" | "[" | "]") || matches!(l.t.as_str(), "(" | "[")) { continue; }
        s.push(' ');
    }
    s
}

// ---------------------------------------------------------------------------------------------
// random expressions

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    /// names usable as variables
    pub vars: Vec<String>,
    pub procs: Vec<String>,
    pub fields: Vec<String>,
    pub types: Vec<Vec<(char, String)>>,
    /// allow forms that only make sense inside procs
    pub in_proc: bool,
}

pub fn apath(s: &str) -> Vec<(char, String)> {
    s.split('/').filter(|x| !x.is_empty()).map(|x| ('/', x.to_owned())).collect()
}

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng) -> Self {
        Gen {
            rng,
            vars: ["aa", "bb", "x", "y1", "foo", "_q", "Zed", "src", "usr", "e5"].iter().map(|s| s.to_string()).collect(),
            procs: ["fun", "do_it", "Moved", "f2"].iter().map(|s| s.to_string()).collect(),
            fields: ["name", "hp", "loc", "contents", "v2"].iter().map(|s| s.to_string()).collect(),
            types: ["/obj", "/obj/item", "/mob/living/carbon", "/datum", "/area/a"].iter().map(|s| apath(s)).collect(),
            in_proc: true,
        }
    }

    fn name(&mut self) -> String { self.rng.pick(&self.vars).clone() }
    fn field(&mut self) -> String { self.rng.pick(&self.fields).clone() }
    fn procn(&mut self) -> String { self.rng.pick(&self.procs).clone() }

    pub fn string(&mut self) -> String {
        let n = self.rng.below(8);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(*self.rng.pick(&["a", "B", " ", "7", "\\n", "\\\"", "\\[", "\\\\", "'", "{", "(", "//", "/*", "]", ";", "é", "%", "\\the", "#", "\\t"]));
        }
        s
    }

    pub fn path(&mut self) -> Vec<(char, String)> {
        let mut p = self.rng.pick(&self.types).clone();
        if self.rng.chance(1, 8) {
            p[0].0 = '.';
        } else if self.rng.chance(1, 10) && p.len() > 1 {
            let k = 1 + self.rng.below(p.len() - 1);
            p[k].0 = *self.rng.pick(&['.', ':']);
        }
        p
    }

    fn abs_path(&mut self) -> Vec<(char, String)> { self.rng.pick(&self.types).clone() }

    pub fn args(&mut self, d: usize) -> Vec<E> {
        let n = self.rng.below(4);
        (0..n).map(|_| self.expr(d.saturating_sub(1))).collect()
    }

    fn pvars(&mut self, d: usize) -> Vec<(String, E)> {
        if d > 0 && self.rng.chance(1, 5) { let n = 1 + self.rng.below(2); (0..n).map(|_| (self.field(), self.expr(d - 1))).collect() } else { vec![] }
    }

    pub fn float(&mut self) -> String {
        match self.rng.below(5) {
            0 => format!("{}.{}", self.rng.below(100), self.rng.below(1000)),
            1 => format!("{}e{}", 1 + self.rng.below(9), self.rng.below(20)),
            2 => format!("{}.5e-{}", self.rng.below(10), 1 + self.rng.below(9)),
            3 => "0.1".into(),
            _ => format!("{}.25", self.rng.below(100000)),
        }
    }

    pub fn atom(&mut self, d: usize) -> E {
        match self.rng.weighted(&[30, 15, 6, 10, 3, 6, 3, 2]) {
            0 => Id(self.name()),
            1 => Int(match self.rng.below(4) { 0 => 0, 1 => self.rng.below(10) as i32, 2 => self.rng.below(70000) as i32, _ => self.rng.below(1 << 30) as i32 }),
            2 => Float(self.float()),
            3 => Str(self.string()),
            4 => Res(format!("icons/{}.dmi", self.name())),
            5 => { let p = self.path(); let v = self.pvars(d); Path(p, v) },
            6 => Null,
            _ => if self.in_proc { GlobalId(self.name()) } else { Null },
        }
    }

    /// receiver of postfix operators
    fn recv(&mut self, d: usize) -> E {
        if self.rng.chance(2, 3) { Id(self.name()) } else { self.expr(d - 1) }
    }

    pub fn expr(&mut self, d: usize) -> E {
        if d == 0 || self.rng.chance(1, 6) { return self.atom(d); }
        let d1 = d - 1;
        match self.rng.weighted(&[45, 12, 4, 7, 6, 8, 8, 8, 6, 3, 2, 2, 3, 3, 4, 3, 2, 2, 4, 2, 2, 2]) {
            0 => { let o = self.rng.below(BINOPS.len()); Bin(o, Box::new(self.expr(d1)), Box::new(self.expr(d1))) },
            1 => { let o = self.rng.below(if self.in_proc { PREFIX.len() } else { 3 }); Un(o, Box::new(self.expr(d1))) },
            2 => { let o = self.rng.below(2); Post(o, Box::new(self.recv(d))) },
            3 => Tern(Box::new(self.expr(d1)), Box::new(self.expr(d1)), Box::new(self.expr(d1))),
            4 => { let o = self.rng.below(ASSIGNOPS.len()); Asg(o, Box::new(self.expr(d1)), Box::new(self.expr(d1))) },
            5 => Index(self.rng.chance(1, 3), Box::new(self.recv(d)), Box::new(self.expr(d1))),
            6 => { let k = self.rng.below(4); Field(k, Box::new(self.recv(d)), self.field()) },
            7 => { let k = self.rng.below(4); Meth(k, Box::new(self.recv(d)), self.procn(), self.args(d)) },
            8 => Call(self.procn(), self.args(d)),
            9 => Super(self.args(d)),
            10 => SelfC(self.args(d)),
            11 => New(if self.rng.bool() { Some(self.args(d)) } else { None }),
            12 => { let p = self.path(); let v = self.pvars(d); NewPath(p, v, if self.rng.bool() { Some(self.args(d)) } else { None }) },
            13 => { let n = self.rng.below(3); let f = (0..n).map(|_| (self.rng.below(4), self.field())).collect(); NewMini(self.name(), f, if self.rng.bool() { Some(self.args(d)) } else { None }) },
            14 => List(self.args(d)),
            15 => {
                let b = self.string();
                let n = 1 + self.rng.below(3);
                Interp(b, (0..n).map(|_| (if self.rng.chance(1, 8) { None } else { Some(self.expr(d1)) }, self.string())).collect())
            },
            16 => {
                let a = self.args(d);
                let l = if self.rng.bool() { Some(Box::new(self.expr(d1))) } else { None };
                if a.first().is_some_and(|x| matches!(x, In(..) | InTo(..))) || (l.is_some() && a.len() > 1) { return Id(self.name()); }
                Locate(a, l)
            },
            17 => {
                let t = *self.rng.pick(&[None, Some("text"), Some("num|null"), Some("obj|mob|turf"), Some("anything")]);
                Input(self.args(d), t, if self.rng.bool() { Some(Box::new(self.expr(d1))) } else { None })
            },
            18 => { let a = self.expr(d1); let b = self.expr(d1); if self.rng.chance(1, 3) { InTo(Box::new(a), Box::new(b), Box::new(self.expr(d1))) } else { In(Box::new(a), Box::new(b)) } },
            19 => { let n = 1 + self.rng.below(3); Pick((0..n).map(|_| (if self.rng.bool() { Some(self.expr(d1)) } else { None }, self.expr(d1))).collect()) },
            20 => DynCall(vec![self.expr(d1), self.expr(d1)], self.args(d)),
            _ => if self.rng.bool() { GlobalCall(self.procn(), self.args(d)) } else { Static(self.abs_path(), self.field()) },
        }
    }
}

// ---------------------------------------------------------------------------------------------
// statements

#[derive(Clone, Debug)]
pub struct VarDecl { pub flags: Vec<&'static str>, pub path: Vec<String>, pub name: String, pub suffix: usize, pub value: Option<E> }

#[derive(Clone, Debug)]
pub enum Case { One(E), Range(E, E) }

#[derive(Clone, Debug)]
pub enum S {
    Expr(E),
    Return(Option<E>),
    Throw(E),
    While(E, Vec<S>),
    DoWhile(Vec<S>, E),
    If(Vec<(E, Vec<S>)>, Option<Vec<S>>),
    ForInf(Vec<S>),
    For3(bool, Option<Box<S>>, Option<E>, Option<Box<S>>, Vec<S>),
    ForIn(bool, Vec<String>, String, Option<&'static str>, Option<E>, Vec<S>),
    ForKv(bool, Vec<String>, String, String, E, Vec<S>),
    /// style: 0 `var/x = a to b`, 1 `var/x in a to b`, 2 `x = a to b`, 3 `x in a to b`
    ForRange(u8, Vec<String>, String, E, E, Option<E>, Vec<S>),
    Var(Vec<VarDecl>),
    Set(String, bool, E),
    Spawn(Option<Option<E>>, Vec<S>),
    Switch(E, Vec<(Vec<Case>, Vec<S>)>, Option<Vec<S>>),
    Try(Vec<S>, Option<Vec<String>>, Vec<S>),
    Continue(Option<String>),
    Break(Option<String>),
    Goto(String),
    Label(String, Vec<S>),
    Del(E),
    Crash(Option<E>),
}

pub fn vt_sx(flags: &[&'static str], path: &[String], suffix: usize) -> String {
    let mut p: Vec<String> = Vec::new();
    // array suffixes turn the type into a list of it
    if suffix > 0 { p.push("list".into()); }
    p.extend(path.iter().cloned());
    let mut f: Vec<&str> = Vec::new();
    for (n, m) in [("static", &["static", "global"][..]), ("const", &["const"][..]), ("tmp", &["tmp"][..]), ("SpacemanDMM_final", &["SpacemanDMM_final"][..]), ("SpacemanDMM_private", &["SpacemanDMM_private"][..]), ("SpacemanDMM_protected", &["SpacemanDMM_protected"][..])] {
        if flags.iter().any(|x| m.contains(x)) { f.push(n); }
    }
    let it = dm::ast::InputType::default();
    format!("[{f:?} {:?} {it:?}]", p.join("/"))
}

pub fn block_sx(b: &[S]) -> String {
    let mut s = "{".to_owned();
    for x in b { s.push(' '); s.push_str(&x.sx()); }
    s + " }"
}

fn osx(e: &Option<E>) -> String { e.as_ref().map(|e| e.sx()).unwrap_or("-".into()) }

impl VarDecl {
    pub fn sx(&self) -> String { format!("(var {} {} {})", vt_sx(&self.flags, &self.path, self.suffix), self.name, osx(&self.value)) }
}

impl S {
    pub fn sx(&self) -> String {
        match self {
            S::Expr(e) => e.sx(),
            S::Return(e) => format!("(return {})", osx(e)),
            S::Throw(e) => format!("(throw {})", e.sx()),
            S::While(c, b) => format!("(while {} {})", c.sx(), block_sx(b)),
            S::DoWhile(b, c) => format!("(dowhile {} {})", block_sx(b), c.sx()),
            S::If(arms, els) => {
                let mut o = "(if".to_owned();
                for (c, b) in arms { let _ = write!(o, " {} {}", c.sx(), block_sx(b)); }
                if let Some(b) = els { let _ = write!(o, " else {}", block_sx(b)); }
                o + ")"
            },
            S::ForInf(b) => format!("(for {})", block_sx(b)),
            S::For3(_, i, t, n, b) => format!("(for3 {} {} {} {})", i.as_ref().map(|x| x.sx()).unwrap_or("-".into()), osx(t), n.as_ref().map(|x| x.sx()).unwrap_or("-".into()), block_sx(b)),
            S::ForIn(v, p, n, t, l, b) => format!("(forin {} {n} {} {} {})", if *v { vt_sx(&[], p, 0) } else { "-".into() }, input_type_sx(*t), osx(l), block_sx(b)),
            S::ForKv(v, p, k, x, l, b) => format!("(forkv {} {k} None {x} {} {})", if *v { vt_sx(&[], p, 0) } else { "-".into() }, l.sx(), block_sx(b)),
            S::ForRange(st, p, n, a, z, step, b) => format!("(forrange {} {n} {} {} {} {})", if *st < 2 { vt_sx(&[], p, 0) } else { "-".into() }, a.sx(), z.sx(), osx(step), block_sx(b)),
            S::Var(v) => if v.len() == 1 { v[0].sx() } else { format!("(vars {})", v.iter().map(|x| x.sx()).collect::<Vec<_>>().join(" ")) },
            S::Set(n, m, e) => format!("(set {n} {} {})", if *m { "In" } else { "Assign" }, e.sx()),
            S::Spawn(d, b) => format!("(spawn {} {})", d.as_ref().and_then(|x| x.as_ref()).map(|e| e.sx()).unwrap_or("-".into()), block_sx(b)),
            S::Switch(e, cases, d) => {
                let mut o = format!("(switch {}", e.sx());
                for (c, b) in cases {
                    o.push_str(" (");
                    for x in c {
                        match x {
                            Case::One(e) => { let _ = write!(o, " {}", e.sx()); },
                            Case::Range(a, b) => { let _ = write!(o, " {}..{}", a.sx(), b.sx()); },
                        }
                    }
                    let _ = write!(o, " {})", block_sx(b));
                }
                if let Some(b) = d { let _ = write!(o, " else {}", block_sx(b)); }
                o + ")"
            },
            S::Try(a, p, b) => format!("(try {} [{}] {})", block_sx(a), p.as_ref().map(|x| x.join("/")).unwrap_or_default(), block_sx(b)),
            S::Continue(l) => format!("(continue {l:?})"),
            S::Break(l) => format!("(break {l:?})"),
            S::Goto(l) => format!("(goto {l})"),
            S::Label(l, b) => format!("(label {l} {})", block_sx(b)),
            S::Del(e) => format!("(del {})", e.sx()),
            S::Crash(e) => format!("(crash {})", osx(e)),
        }
    }
}

/// A logical line: its lexemes, then an optional block. `bare` lines end in `;`.
#[derive(Clone, Debug)]
pub struct Line {
    pub lex: Vec<Lex>,
    pub block: Option<Vec<Line>>,
    /// must be continued by the next line in the same statement (do/while, if/else, try/catch)
    pub joined: bool,
    /// block must be braced or indented even if it is a single statement (switch)
    pub needs_braces: bool,
}

pub fn simple(lex: Vec<Lex>) -> Line { Line { lex, block: None, joined: false, needs_braces: false } }
pub fn with(lex: Vec<Lex>, block: Vec<Line>) -> Line { Line { lex, block: Some(block), joined: false, needs_braces: false } }

pub struct StmtRender<'a> { pub rng: &'a mut Rng, pub redundant: usize }

impl<'a> StmtRender<'a> {
    pub fn ex(&mut self, out: &mut Vec<Lex>, e: &E) {
        let mut r = Render::new(self.rng, self.redundant);
        r.top(e);
        out.append(&mut r.out);
    }
    /// expression that must not contain a top level `in`/assignment
    fn tight(&mut self, out: &mut Vec<Lex>, e: &E) {
        let mut r = Render::new(self.rng, self.redundant);
        r.expr(e, S_COND, false, false);
        out.append(&mut r.out);
    }
    pub fn vardecl(&mut self, out: &mut Vec<Lex>, v: &VarDecl) {
        out.push(lg("/"));
        for f in &v.flags { out.push(lg(*f)); out.push(lg("/")); }
        for p in &v.path { out.push(lg(p.clone())); out.push(lg("/")); }
        out.push(lx(v.name.clone()));
        for _ in 0..v.suffix { out.push(lx("[")); out.push(lx("]")); }
        if let Some(e) = &v.value {
            out.push(lx("="));
            let mut r = Render::new(self.rng, self.redundant);
            // `in` after the value would be read as the input list
            r.expr(e, S_ASSIGN, false, false);
            out.append(&mut r.out);
        }
    }
    fn forvar(&self, out: &mut Vec<Lex>, decl: bool, p: &[String], n: &str) {
        if decl {
            out.push(lg("var"));
            out.push(lg("/"));
            for x in p { out.push(lg(x.clone())); out.push(lg("/")); }
        }
        out.push(lx(n));
    }
    pub fn simple_lex(&mut self, s: &S) -> Vec<Lex> {
        let mut o = Vec::new();
        match s {
            S::Expr(e) => self.ex(&mut o, e),
            S::Return(e) => { o.push(lx("return")); if let Some(e) = e { self.ex(&mut o, e) } },
            S::Throw(e) => { o.push(lx("throw")); self.ex(&mut o, e) },
            S::Var(vs) => {
                o.push(lg("var"));
                for (k, v) in vs.iter().enumerate() {
                    if k > 0 { o.push(lx(",")); let mut t = Vec::new(); self.vardecl(&mut t, v); o.extend(t.into_iter().skip(1)); }
                    else { self.vardecl(&mut o, v); }
                }
            },
            S::Set(n, m, e) => { o.push(lx("set")); o.push(lx(n.clone())); o.push(lx(if *m { "in" } else { "=" })); self.ex(&mut o, e) },
            S::Continue(l) => { o.push(lx("continue")); if let Some(l) = l { o.push(lx(l.clone())) } },
            S::Break(l) => { o.push(lx("break")); if let Some(l) = l { o.push(lx(l.clone())) } },
            S::Goto(l) => { o.push(lx("goto")); o.push(lx(l.clone())) },
            S::Del(e) => { o.push(lx("del")); self.ex(&mut o, e) },
            S::Crash(e) => { o.push(lx("CRASH")); o.push(lx("(")); if let Some(e) = e { self.ex(&mut o, e) } o.push(lx(")")) },
            _ => unreachable!(),
        }
        o
    }
    pub fn lines(&mut self, b: &[S]) -> Vec<Line> {
        let mut v = Vec::new();
        for s in b { self.stmt(s, &mut v); }
        v
    }
    fn head(&mut self, kw: &str, e: &E) -> Vec<Lex> {
        let mut o: Vec<Lex> = kw.split(' ').map(lx).collect();
        o.push(lx("("));
        self.ex(&mut o, e);
        o.push(lx(")"));
        o
    }
    pub fn stmt(&mut self, s: &S, v: &mut Vec<Line>) {
        match s {
            S::While(c, b) => { let h = self.head("while", c); let b = self.lines(b); v.push(with(h, b)) },
            S::DoWhile(b, c) => {
                let b = self.lines(b);
                v.push(Line { lex: vec![lx("do")], block: Some(b), joined: true, needs_braces: false });
                let h = self.head("while", c);
                v.push(simple(h));
            },
            S::If(arms, els) => {
                let n = arms.len();
                for (k, (c, b)) in arms.iter().enumerate() {
                    let h = self.head(if k == 0 { "if" } else { "else if" }, c);
                    let b = self.lines(b);
                    v.push(Line { lex: h, block: Some(b), joined: k + 1 < n || els.is_some(), needs_braces: false });
                }
                if let Some(b) = els { let b = self.lines(b); v.push(with(vec![lx("else")], b)); }
            },
            S::ForInf(b) => { let b = self.lines(b); v.push(with(vec![lx("for"), lx("("), lx(")")], b)) },
            S::For3(semi, i, t, n, b) => {
                let sep = if *semi { ";" } else { "," };
                let mut o = vec![lx("for"), lx("(")];
                if let Some(i) = i { let mut x = self.simple_lex(i); o.append(&mut x); }
                o.push(lx(sep));
                if let Some(t) = t { self.tight(&mut o, t); }
                if n.is_some() || *semi { o.push(lx(sep)); }
                if let Some(n) = n { let mut x = self.simple_lex(n); o.append(&mut x); }
                o.push(lx(")"));
                let b = self.lines(b);
                v.push(with(o, b));
            },
            S::ForIn(d, p, n, t, l, b) => {
                let mut o = vec![lx("for"), lx("(")];
                self.forvar(&mut o, *d, p, n);
                if let Some(t) = t { o.push(lx("as")); for (k, x) in t.split('|').enumerate() { if k > 0 { o.push(lx("|")) } o.push(lx(x)) } }
                if let Some(l) = l { o.push(lx("in")); self.tight(&mut o, l); }
                o.push(lx(")"));
                let b = self.lines(b);
                v.push(with(o, b));
            },
            S::ForKv(d, p, k, x, l, b) => {
                let mut o = vec![lx("for"), lx("(")];
                self.forvar(&mut o, *d, p, k);
                o.push(lx(","));
                o.push(lx(x.clone()));
                o.push(lx("in"));
                self.tight(&mut o, l);
                o.push(lx(")"));
                let b = self.lines(b);
                v.push(with(o, b));
            },
            S::ForRange(st, p, n, a, z, step, b) => {
                let mut o = vec![lx("for"), lx("(")];
                self.forvar(&mut o, *st < 2, p, n);
                o.push(lx(if st % 2 == 0 { "=" } else { "in" }));
                self.tight(&mut o, a);
                o.push(lx("to"));
                self.tight(&mut o, z);
                if let Some(s) = step { o.push(lx("step")); self.tight(&mut o, s); }
                o.push(lx(")"));
                let b = self.lines(b);
                v.push(with(o, b));
            },
            S::Spawn(d, b) => {
                let mut o = vec![lx("spawn")];
                if let Some(d) = d { o.push(lx("(")); if let Some(d) = d { self.ex(&mut o, d) } o.push(lx(")")); }
                let b = self.lines(b);
                v.push(with(o, b));
            },
            S::Switch(e, cases, d) => {
                let h = self.head("switch", e);
                let mut inner = Vec::new();
                for (c, b) in cases {
                    let mut o = vec![lx("if"), lx("(")];
                    for (k, x) in c.iter().enumerate() {
                        if k > 0 { o.push(lx(",")); }
                        match x {
                            Case::One(e) => self.ex(&mut o, e),
                            Case::Range(a, b) => { self.tight(&mut o, a); o.push(lx("to")); self.tight(&mut o, b) },
                        }
                    }
                    o.push(lx(")"));
                    let b = self.lines(b);
                    inner.push(with(o, b));
                }
                if let Some(b) = d { let b = self.lines(b); inner.push(with(vec![lx("else")], b)); }
                v.push(Line { lex: h, block: Some(inner), joined: false, needs_braces: true });
            },
            S::Try(a, p, b) => {
                let a = self.lines(a);
                v.push(Line { lex: vec![lx("try")], block: Some(a), joined: true, needs_braces: false });
                let mut o = vec![lx("catch")];
                if let Some(p) = p {
                    o.push(lx("("));
                    for (k, x) in p.iter().enumerate() { if k > 0 { o.push(lg("/")); } o.push(lg(x.clone())); }
                    o.last_mut().unwrap().glue = false;
                    o.push(lx(")"));
                }
                let b = self.lines(b);
                v.push(with(o, b));
            },
            S::Label(n, b) => { let b = self.lines(b); v.push(with(vec![lg(n.clone()), lx(":")], b)) },
            s => { let l = self.simple_lex(s); v.push(simple(l)) },
        }
    }
}

/// How to lay out blocks.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout {
    /// indentation only, with this unit
    Indent(&'static str),
    /// braces and semicolons on one line
    Braces,
    /// braces with newlines, one tab per level
    BraceLines,
    /// a different choice for every block (indentation unit one tab)
    Mixed,
}

pub struct Out<'a> {
    pub rng: &'a mut Rng,
    pub layout: Layout,
    pub sp: Spacing,
    /// blank lines, comments
    pub noise_lines: usize,
    /// indentation unit of layouts that do not name one
    pub brace_unit: &'static str,
    pub s: String,
}

impl<'a> Out<'a> {
    pub fn new(rng: &'a mut Rng, layout: Layout, sp: Spacing, noise_lines: usize) -> Self { Out { rng, layout, sp, noise_lines, brace_unit: "\t", s: String::new() } }

    fn unit(&self) -> &'static str { match self.layout { Layout::Indent(u) => u, _ => self.brace_unit } }

    fn noise(&mut self) {
        if self.noise_lines > 0 && self.rng.chance(self.noise_lines, 100) {
            let t = *self.rng.pick(&["\n", "\t\t\n", "   \n", "// comment { ( \"\n", "\t\t\t\t// odd indentation\n", "/* block\n\tcomment */\n", "   /* x */\n"]);
            self.s.push_str(t);
        }
    }

    /// Lines at `depth`; `inline` means inside one-line braces.
    pub fn lines(&mut self, ls: &[Line], depth: usize, inline: bool) {
        let mut i = 0;
        while i < ls.len() {
            let l = &ls[i];
            i += 1;
            if !inline {
                self.noise();
                for _ in 0..depth { let u = self.unit(); self.s.push_str(u); }
            }
            let t = { let sp = if inline { Spacing { wrap: 0, ..self.sp } } else { self.sp }; join(self.rng, &l.lex, sp) };
            self.s.push_str(&t);
            match &l.block {
                None => self.s.push_str(if inline { "; " } else { "" }),
                Some(b) => {
                    let how = if inline { 1 } else {
                        match self.layout {
                            Layout::Indent(_) => if l.needs_braces && b.is_empty() { 1 } else { 0 },
                            Layout::Braces => 1,
                            Layout::BraceLines => 2,
                            Layout::Mixed => if l.needs_braces && b.is_empty() { 1 } else { self.rng.below(3) },
                        }
                    };
                    match how {
                        // a blank block written by indentation is just `;`, spelled out so that nothing follows it
                        0 if b.is_empty() => self.s.push_str(" ;"),
                        0 => { self.s.push('\n'); self.lines(b, depth + 1, false); if !self.s.ends_with('\n') { self.s.push('\n'); } continue; },
                        1 => {
                            self.s.push_str(" { ");
                            self.lines(b, depth, true);
                            self.s.push_str("} ");
                            if inline && !l.joined && i < ls.len() { self.s.push_str("; "); }
                        },
                        _ => {
                            self.s.push_str(" {\n");
                            self.lines(b, depth + 1, false);
                            if !self.s.ends_with('\n') { self.s.push('\n'); }
                            for _ in 0..depth { let u = self.unit(); self.s.push_str(u); }
                            self.s.push_str("}");
                        },
                    }
                },
            }
            if !inline {
                if self.rng.chance(self.noise_lines, 300) { self.s.push_str(" // trailing"); }
                self.s.push('\n');
            }
        }
    }
}

impl<'a> Gen<'a> {
    pub fn block(&mut self, d: usize, max: usize) -> Vec<S> {
        let n = if d == 0 { self.rng.below(2) } else { self.rng.below(max + 1) };
        (0..n).map(|_| self.stmt(d)).collect()
    }

    fn vtype(&mut self) -> Vec<String> {
        match self.rng.below(4) { 0 => vec!["obj".into()], 1 => vec!["mob".into(), "living".into()], 2 => vec!["list".into()], _ => vec![] }
    }

    pub fn vardecl(&mut self) -> VarDecl {
        let mut flags = vec![];
        if self.rng.chance(1, 8) { flags.push(*self.rng.pick(&["static", "const", "global"])); }
        let suffix = if self.rng.chance(1, 10) { 1 } else { 0 };
        let value = if suffix == 0 && self.rng.chance(2, 3) { Some(self.expr(2)) } else { None };
        VarDecl { flags, path: self.vtype(), name: self.name(), suffix, value }
    }

    /// expression usable as a statement
    fn stmt_expr(&mut self, d: usize) -> E {
        match self.rng.below(6) {
            0 => Post(self.rng.below(2), Box::new(Id(self.name()))),
            1 => Call(self.procn(), self.args(d)),
            2 => { let k = self.rng.below(4); Meth(k, Box::new(Id(self.name())), self.procn(), self.args(d)) },
            _ => { let o = self.rng.below(ASSIGNOPS.len()); Asg(o, Box::new(Id(self.name())), Box::new(self.expr(d))) },
        }
    }

    pub fn stmt(&mut self, d: usize) -> S {
        let ed = 2;
        if d == 0 || self.rng.chance(2, 5) {
            return match self.rng.weighted(&[40, 10, 3, 12, 3, 4, 4, 3, 3, 3]) {
                0 => S::Expr(self.stmt_expr(ed)),
                1 => S::Return(if self.rng.bool() { Some(self.expr(ed)) } else { None }),
                2 => S::Throw(self.expr(ed)),
                3 => { let n = if self.rng.chance(1, 6) { 2 } else { 1 }; S::Var((0..n).map(|_| self.vardecl()).collect()) },
                4 => if self.rng.bool() { S::Set("background".into(), false, self.expr(1)) } else { S::Set("src".into(), true, Call("view".into(), vec![])) },
                5 => S::Continue(if self.rng.chance(1, 4) { Some("lab".into()) } else { None }),
                6 => S::Break(if self.rng.chance(1, 4) { Some("lab".into()) } else { None }),
                7 => S::Goto("lab".into()),
                8 => S::Del(self.expr(1)),
                _ => S::Crash(if self.rng.bool() { Some(self.expr(1)) } else { None }),
            };
        }
        let d1 = d - 1;
        match self.rng.weighted(&[30, 8, 5, 4, 8, 10, 4, 8, 6, 8, 5, 3]) {
            0 => {
                let n = 1 + self.rng.below(3);
                let arms = (0..n).map(|_| (self.expr(ed), self.block(d1, 3))).collect();
                S::If(arms, if self.rng.bool() { Some(self.block(d1, 3)) } else { None })
            },
            1 => S::While(self.expr(ed), self.block(d1, 3)),
            2 => S::DoWhile(self.block(d1, 3), self.expr(ed)),
            3 => S::ForInf(self.block(d1, 3)),
            4 => {
                let init = match self.rng.below(3) { 0 => None, 1 => Some(Box::new(S::Expr(Asg(0, Box::new(Id(self.name())), Box::new(self.expr(1)))))), _ => {
                    let mut v = self.vardecl(); v.suffix = 0; Some(Box::new(S::Var(vec![v]))) } };
                let mut test = if self.rng.chance(3, 4) { Some(self.expr(ed)) } else { None };
                let inc = if self.rng.chance(3, 4) { Some(Box::new(S::Expr(self.stmt_expr(1)))) } else { None };
                let semi = self.rng.bool();
                // `for(a, b)` with commas needs an increment or a plain test
                if !semi && inc.is_none() && test.is_none() { test = Some(Id(self.name())); }
                S::For3(semi, init, test, inc, self.block(d1, 3))
            },
            5 => {
                let decl = self.rng.bool();
                let t = if decl && self.rng.chance(1, 5) { Some("obj|mob") } else { None };
                let p = self.vtype();
                S::ForIn(decl, p, self.name(), t, if decl && self.rng.chance(1, 6) { None } else { Some(self.expr(ed)) }, self.block(d1, 3))
            },
            6 => { let p = self.vtype(); S::ForKv(self.rng.bool(), p, self.name(), self.name(), self.expr(1), self.block(d1, 3)) },
            7 => {
                let p = self.vtype();
                S::ForRange(self.rng.below(4) as u8, p, self.name(), self.expr(1), self.expr(1), if self.rng.bool() { Some(self.expr(1)) } else { None }, self.block(d1, 3))
            },
            8 => S::Spawn(match self.rng.below(3) { 0 => None, 1 => Some(None), _ => Some(Some(self.expr(1))) }, self.block(d1, 3)),
            9 => {
                let n = self.rng.below(4);
                let cases = (0..n).map(|_| {
                    let k = 1 + self.rng.below(3);
                    ((0..k).map(|_| if self.rng.chance(1, 3) { Case::Range(Int(self.rng.below(10) as i32), Int(10 + self.rng.below(10) as i32)) } else { Case::One(self.expr(1)) }).collect(), self.block(d1, 3))
                }).collect();
                S::Switch(self.expr(ed), cases, if n > 0 && self.rng.bool() { Some(self.block(d1, 3)) } else { None })
            },
            10 => {
                let t = self.block(d1, 3);
                let p = match self.rng.below(3) { 0 => None, 1 => Some(vec!["e".to_owned()]), _ => Some(vec!["var".to_owned(), "exception".to_owned(), "e".to_owned()]) };
                S::Try(t, p, self.block(d1, 3))
            },
            _ => S::Label("lab".into(), self.block(d1, 3)),
        }
    }
}
