use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use dm::constants::{ConstFn, Constant, Pop, evaluate_str};
use dm::{FileId, Location};
use std::collections::hash_map::DefaultHasher;
use std::hash::{BuildHasher, Hash, Hasher};

pub static PROP: Prop = Prop {
    id: "C11",
    quick: 200000,
    thorough: 3000000,
    case,
    directed: &[("numbers of every exponent", exponents), ("all texts over the special characters", texts), ("integers", integers), ("equal but differently built", twins)],
    rule: "a case is a random constant (nested lists, prefabs with variables, new, constructor calls, strings and resources over a hostile alphabet, numbers of every exponent) printed, read back through the real lexer, parser and folder, compared structurally with an independently rounded copy, and printed again; its hash and equality are compared with those of a copy whose prefab variables were inserted in another order; distinct by printed text, non-trivial when nested or holding a text that needs quoting",
    assumptions: &["numbers are compared after rounding to six significant digits, which is what the format keeps by design (BYOND prints numbers as %g)", "strings are restricted to what can stand between the quotes of some DM string literal (no carriage returns at escapes); type hints of null are not part of the text"],
    ..DEFAULT
};

pub fn round6(f: f32) -> f32 {
    if f.is_nan() { return f32::NAN; }
    if f.is_infinite() { return f; }
    if f == 0.0 { return 0.0; }
    format!("{f:.5e}").parse::<f32>().unwrap()
}

/// Structural equality written here, so that it does not depend on the code under test.
pub fn same(a: &Constant, b: &Constant) -> bool {
    use Constant::*;
    match (a, b) {
        (Null(_), Null(_)) => true,
        (New { type_: t, args: x }, New { type_: u, args: y }) => {
            (match (t, u) { (None, None) => true, (Some(t), Some(u)) => same_pop(t, u), _ => false })
                && (match (x, y) { (None, None) => true, (Some(x), Some(y)) => same_args(x, y), _ => false })
        },
        (List(x), List(y)) => same_args(x, y),
        (Call(f, x), Call(g, y)) => f == g && same_args(x, y),
        (Prefab(p), Prefab(q)) => same_pop(p, q),
        (String(x), String(y)) | (Resource(x), Resource(y)) => x.as_bytes() == y.as_bytes(),
        (Float(x), Float(y)) => same_num(*x, *y),
        _ => false,
    }
}
fn same_num(x: f32, y: f32) -> bool {
    let (x, y) = (round6(x), round6(y));
    x == y || x.is_nan() && y.is_nan()
}
fn same_pop(a: &Pop, b: &Pop) -> bool {
    a.path == b.path && a.vars.len() == b.vars.len() && a.vars.iter().all(|(k, v)| b.vars.get(k).is_some_and(|w| same(v, w)))
        && a.vars.keys().eq(b.vars.keys())
}
fn same_args(a: &[(Constant, Option<Constant>)], b: &[(Constant, Option<Constant>)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, w))| same(k, l) && match (v, w) { (None, None) => true, (Some(v), Some(w)) => same(v, w), _ => false })
}

pub struct CGen<'a> { pub rng: &'a mut Rng, pub plain_ascii: bool }
impl CGen<'_> {
    pub fn float(&mut self) -> f32 {
        let r = &mut *self.rng;
        match r.below(12) {
            0 => 0.0,
            1 | 2 => r.below(300) as f32 - 40.0,
            3 => r.range(-20000000, 20000000) as f32,
            4 => (r.range(-200000, 200000) as f32) / 100.0,
            5 => f32::from_bits(r.u64() as u32),
            6 => { let e = r.range(-45, 38); let m = 1.0 + r.below(900000) as f64 / 100000.0; (m * 10f64.powi(e as i32)) as f32 },
            7 => { let e = r.range(-8, 9); (*r.pick(&[9.999995f64, 9.99999, 9.999994, 1.000005, 0.9999995, 99999.95, 5.0, 1.0, 1.5]) * 10f64.powi(e as i32)) as f32 },
            8 => if r.bool() { f32::INFINITY } else { f32::NEG_INFINITY },
            9 => -1.0 * r.below(16777217) as f32,
            10 => *r.pick(&[f32::MIN_POSITIVE, f32::MAX, f32::MIN, 1e-45, -1e-45, 16777216.0, 999999.0, 999999.5, 1000000.0, 0.0001, 0.00001, 0.000099999, -0.0]),
            _ => f32::from_bits(0x3f800000 + r.below(0x1000) as u32),
        }
    }
    pub fn text(&mut self) -> String {
        let n = if self.rng.chance(1, 3) { self.rng.below(3) } else { self.rng.below(14) };
        let mut s = String::new();
        for _ in 0..n {
            let r = &mut *self.rng;
            match r.below(14) {
                0 => s.push('"'),
                1 => s.push_str("\"}"),
                2 => s.push_str("{\""),
                3 => s.push('\n'),
                4 => { s.push('\\'); s.push(*r.pick(&['n', 't', '"', '\\', '[', ']', '<', 'a', '@', '}'])); },
                5 => s.push_str(*r.pick(&["[", "]", "[x]", "[[", "[\"", "]\""])),
                6 => s.push(*r.pick(&['@', '~', '0', '(', ')', '\'', '#', '$', '%', '|', ';'])),
                7 => s.push_str(*r.pick(&["//", "/*", "*/", "~0", "~1", "@(", "@@", "{", "}", "'", "\t", "  "])),
                8 if !self.plain_ascii => s.push(*r.pick(&['é', 'ß', '日', '😀', '\u{7f}', '\u{a0}', '\u{ff}'])),
                _ => s.push((b'a' + r.below(26) as u8) as char),
            }
        }
        if self.rng.chance(1, 25) { s.push('\\'); }
        s
    }
    pub fn ident(&mut self) -> String { (*self.rng.pick(&["name", "a", "icon_state", "dir", "x1", "_v", "pixel_x", "desc", "list", "new", "tag", "null2"])).to_owned() }
    pub fn pop(&mut self, d: usize) -> Pop {
        let n = 1 + self.rng.below(4);
        let mut p: Vec<String> = vec![];
        for i in 0..n { p.push((*self.rng.pick(&["obj", "turf", "a", "b2", "mob", "area", "item", "floor", "x_y", "datum"])).to_owned()); if i + 2 == n && self.rng.chance(1, 8) { p.push((*self.rng.pick(&["proc", "verb"])).to_owned()); } }
        let mut pop = Pop::from(p.into_iter().map(|s| s.into()).collect::<Vec<_>>().into_boxed_slice());
        if d > 0 && self.rng.chance(1, 2) {
            for _ in 0..self.rng.below(4) {
                let k = self.ident();
                let v = self.constant(d - 1);
                if k == "list" || k == "new" { continue; }
                pop.vars.insert(k.into(), v);
            }
        }
        pop
    }
    fn args(&mut self, d: usize, max: usize) -> Box<[(Constant, Option<Constant>)]> {
        (0..self.rng.below(max + 1)).map(|_| { let k = self.constant(d); let v = if self.rng.chance(2, 5) { Some(self.constant(d)) } else { None }; (k, v) }).collect()
    }
    pub fn constant(&mut self, d: usize) -> Constant {
        let top = if d == 0 { 8 } else { 13 };
        match self.rng.below(top) {
            0 | 1 => Constant::Float(self.float()),
            2 | 3 => Constant::String(self.text().into()),
            4 => { let t = self.text().replace('\n', ""); Constant::Resource(t.into()) },
            5 => Constant::Null(None),
            6 => Constant::Prefab(Box::new(self.pop(0))),
            7 => Constant::Float(self.rng.below(10) as f32),
            8 => Constant::Prefab(Box::new(self.pop(d - 1))),
            9 | 10 => { let a = self.args(d - 1, 5); Constant::List(a) },
            11 => {
                let type_ = if self.rng.bool() { Some(Box::new(self.pop(d - 1))) } else { None };
                let args = if self.rng.bool() { Some(self.args(d - 1, 3)) } else { None };
                Constant::New { type_, args }
            },
            _ => {
                let f = *self.rng.pick(&[ConstFn::Icon, ConstFn::Matrix, ConstFn::Sound, ConstFn::Filter, ConstFn::File, ConstFn::Generator, ConstFn::Vector, ConstFn::Newlist]);
                let a = if f == ConstFn::Newlist {
                    (0..self.rng.below(4)).map(|_| (Constant::Prefab(Box::new(self.pop(d - 1))), None)).collect()
                } else { self.args(d - 1, 4) };
                Constant::Call(f, a)
            },
        }
    }
}

pub fn hash_of(c: &Constant) -> u64 { let mut h = DefaultHasher::new(); c.hash(&mut h); h.finish() }

/// Same constant with prefab variables inserted in reverse and zeros and NaNs of another bit pattern.
fn twin(c: &Constant) -> Constant {
    use Constant::*;
    let pop = |p: &Pop| { let mut q = Pop::from(p.path.clone()); for (k, v) in p.vars.iter().rev() { q.vars.insert(k.clone(), twin(v)); } q };
    let args = |a: &[(Constant, Option<Constant>)]| -> Box<[(Constant, Option<Constant>)]> { a.iter().map(|(k, v)| (twin(k), v.as_ref().map(twin))).collect() };
    match c {
        Null(t) => Null(t.clone()),
        New { type_, args: a } => New { type_: type_.as_ref().map(|p| Box::new(pop(p))), args: a.as_ref().map(|a| args(a)) },
        List(a) => List(args(a)),
        Call(f, a) => Call(*f, args(a)),
        Prefab(p) => Prefab(Box::new(pop(p))),
        String(s) => String(s.to_string().into()),
        Resource(s) => Resource(s.to_string().into()),
        Float(f) if *f == 0.0 => Float(-*f),
        Float(f) if f.is_nan() => Float(f32::from_bits((f.to_bits() ^ 0x80000000) | 0x00400001)),
        Float(f) => Float(*f),
    }
}

fn check(cx: &mut Cx, c: &Constant) {
    let text = match catch(|| c.to_string()) {
        Ok(t) => t,
        Err(e) => { cx.violate("panic printing", format!("{c:?}: {e}")); return; },
    };
    let back = match catch(|| evaluate_str(Location { file: FileId::default(), line: 1, column: 1 }, text.as_bytes())) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => { cx.violate("not readable", format!("{c:?} is printed as\n{text}\nwhich is rejected: {}", e.description())); return; },
        Err(e) => { cx.violate("panic reading", format!("{text}: {e}")); return; },
    };
    ensure!(cx, same(c, &back), "reads back different", "{c:?}\nis printed as {text}\nand reads back as {back:?}");
    let again = back.to_string();
    ensure!(cx, again == text, "second printing differs", "{text}\nthen {again}");
    cx.count("constants printed and read back", 1);
    let t = twin(c);
    ensure!(cx, t == *c && *c == t, "equality", "{c:?}\nnot equal to {t:?}");
    ensure!(cx, hash_of(&t) == hash_of(c), "hash of equal constants", "{c:?}\nand {t:?} are equal but hash differently");
    ensure!(cx, foldhash::fast::FixedState::default().hash_one(&t) == foldhash::fast::FixedState::default().hash_one(c), "hash of equal constants", "{c:?}\nand {t:?}");
}

fn case(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let d = cx.size / 25;
    let c = CGen { rng: &mut rng, plain_ascii: false }.constant(d.min(3));
    cx.input(format!("{c}"));
    if !matches!(c, Constant::Float(_) | Constant::Null(_)) && cx_text_len(&c) > 6 { cx.nontrivial(); }
    check(cx, &c);
    // Two different constants of a case must not be equal, nor one of its mutations.
    let e = CGen { rng: &mut rng, plain_ascii: false }.constant(d.min(2));
    let exact = |a: &Constant, b: &Constant| format!("{:?}", Norm(a)) == format!("{:?}", Norm(b));
    ensure!(cx, (c == e) == exact(&c, &e), "equality of different constants", "{c:?}\n== is {}\n{e:?}", c == e);
    cx.count("pairs compared", 1);
    let m = mutate(&mut rng, &c);
    ensure!(cx, (c == m) == exact(&c, &m), "equality after a change", "{c:?}\n== is {}\n{m:?}", c == m);
}
fn cx_text_len(c: &Constant) -> usize { c.to_string().len() }

/// Order-free, bit-pattern-free rendering used as the model of equality.
struct Norm<'a>(&'a Constant);
impl std::fmt::Debug for Norm<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use Constant::*;
        fn pop(p: &Pop) -> std::string::String { let mut v: Vec<_> = p.vars.iter().map(|(k, v)| format!("{k:?}={:?}", Norm(v))).collect(); v.sort(); format!("{:?}{{{}}}", p.path, v.join(";")) }
        fn args(a: &[(Constant, Option<Constant>)]) -> std::string::String { a.iter().map(|(k, v)| format!("{:?}:{:?}", Norm(k), v.as_ref().map(Norm))).collect::<Vec<_>>().join(",") }
        match self.0 {
            Null(p) => write!(f, "null{p:?}"),
            New { type_, args: a } => write!(f, "new {:?} {:?}", type_.as_ref().map(|p| pop(p)), a.as_ref().map(|a| args(a))),
            List(a) => write!(f, "list({})", args(a)),
            Call(g, a) => write!(f, "{g:?}({})", args(a)),
            Prefab(p) => write!(f, "P{}", pop(p)),
            String(s) => write!(f, "S{:?}", s.to_string()),
            Resource(s) => write!(f, "R{:?}", s.to_string()),
            Float(x) if *x == 0.0 => write!(f, "F0"),
            Float(x) if x.is_nan() => write!(f, "Fnan"),
            Float(x) => write!(f, "F{:x}", x.to_bits()),
        }
    }
}

fn mutate(rng: &mut Rng, c: &Constant) -> Constant {
    use Constant::*;
    match c {
        List(a) if !a.is_empty() => { let mut v = a.to_vec(); let i = rng.below(v.len()); match rng.below(3) { 0 => { v.remove(i); }, 1 => { let x = mutate(rng, &v[i].0); v[i].0 = x; }, _ => v[i].1 = match &v[i].1 { None => Some(Null(None)), Some(x) => if rng.bool() { None } else { Some(mutate(rng, x)) } } } List(v.into()) },
        Prefab(p) if !p.vars.is_empty() => { let mut q = (**p).clone(); let k = q.vars.keys().nth(rng.below(q.vars.len())).unwrap().clone(); if rng.bool() { q.vars.shift_remove(&k); } else { let x = mutate(rng, &q.vars[&k]); q.vars.insert(k, x); } Prefab(Box::new(q)) },
        Float(x) => Float(if rng.bool() { f32::from_bits(x.to_bits() ^ 1) } else { -x }),
        String(s) => if rng.bool() { Resource(s.clone()) } else { String(format!("{s} ").into()) },
        Resource(s) => String(s.clone()),
        Null(_) => Float(0.0),
        New { type_, args: Some(_) } => New { type_: type_.clone(), args: None },
        New { type_, args: None } => New { type_: type_.clone(), args: Some(Box::new([])) },
        Call(_, a) => if rng.bool() { List(a.clone()) } else { Call(ConstFn::Sound, a.clone()) },
        other => other.clone(),
    }
}

fn exponents(cx: &mut Cx) {
    let mut n = 0u64;
    for e in 0..255u32 {
        for m in 0..160u32 {
            let mant = match m { 0..=63 => m, 64..=127 => 0x7fffff - (m - 64), _ => mix(e as u64 * 1000 + m as u64) & 0x7fffff };
            for s in 0..2u32 {
                let f = f32::from_bits(s << 31 | e << 23 | mant);
                check(cx, &Constant::Float(f));
                if cx.violated() { cx.input(format!("{f:e}")); return; }
                n += 1;
            }
        }
    }
    // decimal boundaries: just below and above every power of ten and every rounding step
    for e in -44..=38i32 {
        for k in [1.0f64, 9.99999, 9.999995, 9.9999949, 1.000005, 1.0000049, 5.0, 2.5, 9.5, 1.23456, 1.234565] {
            let f = (k * 10f64.powi(e)) as f32;
            for d in -2i32..=2 {
                let g = f32::from_bits((f.to_bits() as i32 + d).max(0) as u32);
                check(cx, &Constant::Float(g));
                if cx.violated() { cx.input(format!("{g:e}")); return; }
                n += 1;
            }
        }
    }
    cx.count("numbers of every exponent", n);
    cx.nontrivial();
}
fn mix(x: u64) -> u32 { (x.wrapping_mul(0x9e3779b97f4a7c15) >> 40) as u32 }

fn integers(cx: &mut Cx) {
    let mut i = 0i64;
    let mut n = 0;
    while i <= 1_000_000 {
        for v in [i as f32, -(i as f32)] {
            let t = Constant::Float(v).to_string();
            if i < 1_000_000 && v != 0.0 { ensure!(cx, t == format!("{}", v as i64), "integers print in full", "{v} printed as {t}"); }
            check(cx, &Constant::Float(v));
            if cx.violated() { cx.input(t); return; }
            n += 1;
        }
        i += if i < 20000 { 1 } else { 487 };
    }
    cx.count("integers", n);
    cx.nontrivial();
}

fn texts(cx: &mut Cx) {
    const A: &[char] = &['"', '}', '{', '\\', '[', '@', '\n', 'x', ']'];
    let mut n = 0u64;
    for len in 0..=4u32 {
        for i in 0..(A.len() as u64).pow(len) {
            let mut v = i;
            let s: String = (0..len).map(|_| { let c = A[(v % A.len() as u64) as usize]; v /= A.len() as u64; c }).collect();
            for c in [Constant::String(s.clone().into()), Constant::Resource(s.replace('\n', "").into())] {
                check(cx, &c);
                if cx.violated() { cx.input(format!("{c:?}")); return; }
                n += 1;
            }
        }
    }
    cx.count("short texts over special characters", n);
    cx.nontrivial();
}

fn twins(cx: &mut Cx) {
    use indexmap::IndexMap;
    let mut map: IndexMap<Constant, usize> = IndexMap::new();
    let mut rng = cx.rng.clone();
    let mut model: Vec<(String, usize)> = vec![];
    for i in 0..3000 {
        let c = CGen { rng: &mut rng, plain_ascii: false }.constant(2);
        let key = format!("{:?}", Norm(&c));
        let want = model.iter().find(|m| m.0 == key).map(|m| m.1);
        let got = map.get(&twin(&c)).copied();
        ensure!(cx, want == got, "dictionary", "{c:?} found as {got:?}, expected {want:?}");
        if want.is_none() { map.insert(c, i); model.push((key, i)); }
        cx.count("dictionary look-ups", 1);
    }
    cx.nontrivial();
}
