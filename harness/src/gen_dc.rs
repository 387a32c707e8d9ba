//! Proc bodies with one marked expression in a random reachable place: used to ask whether the checker
//! looks everywhere.
#![allow(dead_code)]
use crate::rng::Rng;

/// Wraps `e` in an expression that evaluates it (on some path), with `x` a local or parameter in scope
/// and `foo(a)` a global proc.
pub fn wrap(r: &mut Rng, e: String, depth: usize) -> String {
    let mut e = e;
    for _ in 0..depth {
        e = match r.below(52) {
            0 => format!("({e})"),
            1 => format!("!{e}"),
            2 => format!("-({e})"),
            3 => format!("({e}) + 1"),
            4 => format!("1 - ({e})"),
            5 => format!("(x && ({e}))"),
            6 => format!("(x || ({e}))"),
            7 => format!("(x ? ({e}) : 1)"),
            8 => format!("(x ? 1 : ({e}))"),
            9 => format!("(({e}) ? x : 1)"),
            10 => format!("list({e})"),
            11 => format!("list(\"k\" = ({e}))"),
            12 => format!("list(1, x, {e})"),
            13 => format!("x[{e}]"),
            14 => format!("foo({e})"),
            15 => format!("foo(a = ({e}))"),
            16 => format!("x.untyped({e})"),
            17 => format!("x:untyped({e})"),
            18 => format!("\"text [{e}] text\""),
            19 => format!("pick({e}, 1)"),
            20 => format!("pick(50;({e}), 50;1)"),
            21 => format!("locate({e})"),
            22 => format!("new /datum/maker({e})"),
            23 => format!("call(x, \"y\")({e})"),
            24 => format!("call({e}, \"y\")()"),
            25 => format!("istype({e})"),
            26 => format!("(({e}) == x)"),
            27 => format!("(x in ({e}))"),
            28 => format!("locate(x) in ({e})"),
            29 => format!("x?[{e}]"),
            30 => format!("(({e}) << 1)"),
            32 => format!("nosuch({e})"),
            33 => format!("new x.kind({e})"),
            34 => format!("new /list({e})"),
            35 => format!("new /list(2, {e})"),
            36 => format!("global.foo({e})"),
            37 => format!("global.nosuch(a = ({e}))"),
            38 => format!("x.nosuch(a = ({e}))"),
            39 => format!("(x = ({e}))"),
            40 => format!("(x |= ({e}))"),
            41 => format!("x.a.b({e})"),
            42 => format!("x:a.b({e})"),
            43 => format!("max({e}, x)"),
            44 => format!("input(x, {e}) as text"),
            45 => format!("input(x) in ({e})"),
            46 => format!("call_ext({e}, \"y\")(x)"),
            47 => format!("call_ext(x, \"y\")({e})"),
            48 => format!("(~({e}) ** 2)"),
            49 => format!("foo(x)[{e}]"),
            50 => format!("alist(({e}) = 1)"),
            51 => format!("new /datum/nosuch({e})"),
            _ => format!("x?.untyped({e})"),
        };
    }
    e
}

fn ind(v: Vec<String>) -> Vec<String> { v.into_iter().map(|l| format!("\t{l}")).collect() }
fn cat(a: &[&str], b: Vec<String>, c: &[&str]) -> Vec<String> { a.iter().map(|s| s.to_string()).chain(ind(b)).chain(c.iter().map(|s| s.to_string())).collect() }

/// Statements of which one evaluates `e`, reachable, at nesting depth up to `depth`. `detached` allows
/// places that run in another context (spawn).
pub fn place(r: &mut Rng, e: &str, depth: usize, detached: bool) -> Vec<String> {
    if depth > 0 && r.chance(2, 3) {
        let b = place(r, e, depth - 1, detached);
        return match r.below(if detached { 16 } else { 15 }) {
            0 => cat(&["if(x)"], b, &[]),
            1 => cat(&["if(x)", "\tx = 1", "else"], b, &[]),
            2 => cat(&["if(x)", "\tx = 1", "else if(x > 2)"], b, &["else", "\tx = 2"]),
            3 => cat(&["while(x)"], b, &[]),
            4 => cat(&["do"], b, &["while(x)"]),
            5 => cat(&["for(var/i in x)"], b, &[]),
            6 => cat(&["for(var/i = 1 to x)"], b, &[]),
            7 => cat(&["for(var/i = 1, i < x, i++)"], b, &[]),
            8 => cat(&["for(var/k, v in x)"], b, &[]),
            9 => cat(&["switch(x)", "\tif(1)", "\t\tx = 3", "\tif(2, 4 to 5)"], ind(b), &[]),
            10 => cat(&["switch(x)", "\tif(1)", "\t\tx = 3", "\telse"], ind(b), &[]),
            11 => cat(&["try"], b, &["catch(var/exception/e)", "\tx = e"]),
            12 => cat(&["try", "\tx = 1", "catch"], b, &[]),
            13 => cat(&["for()"], b, &[]),
            14 => { let mut v = vec![(*r.pick(&["x = 1", "x++", "if(x) return", "var/unused = x", "foo(x)", "if(x == 3)\n\t\treturn 4", "while(x) { x--; if(x == 7) { break } }", "switch(x) { if(1) { return } if(2) { x = 4 } }"])).replace("\n\t\t", " ").to_string()]; v.extend(b); v },
            _ => cat(&["spawn(5)"], b, &[]),
        };
    }
    let w = r.below(3);
    let e = wrap(r, e.to_owned(), w);
    let s = |a: &[String]| a.to_vec();
    match r.below(if detached { 38 } else { 37 }) {
        0..=3 => s(&[if w == 0 { e } else { format!("x = {e}") }]),
        4 => s(&[format!("return {e}")]),
        5 => s(&[format!(". = {e}")]),
        6 => s(&[format!("x += {e}")]),
        7 => s(&[format!("var/v = {e}"), "x = v".into()]),
        8 => s(&[format!("if({e})"), "\tx = 1".into()]),
        9 => s(&["if(x)".into(), "\tx = 1".into(), format!("else if({e})"), "\tx = 2".into()]),
        10 => s(&[format!("while({e})"), "\tx = 1".into()]),
        11 => s(&["do".into(), "\tx = 1".into(), format!("while({e})")]),
        12 => s(&[format!("for(var/i in {e})"), "\tx = 1".into()]),
        13 => s(&[format!("for(var/i = ({e}) to 5)"), "\tx = 1".into()]),
        14 => s(&[format!("for(x = ({e}) to 5)"), "\tfoo(x)".into()]),
        15 => s(&[format!("for(var/i = 1 to ({e}))"), "\tx = 1".into()]),
        16 => s(&[format!("for(var/i = 1 to 9 step ({e}))"), "\tx = 1".into()]),
        17 => s(&[format!("for(var/i = ({e}), i < 5, i++)"), "\tx = 1".into()]),
        18 => s(&[format!("for(var/i = 1, ({e}) < 5, i++)"), "\tx = 1".into()]),
        19 => s(&[format!("for(var/i = 1, i < 5, i += ({e}))"), "\tx = 1".into()]),
        20 => s(&[format!("for(var/k, v in {e})"), "\tx = 1".into()]),
        21 => s(&[format!("switch({e})"), "\tif(1)".into(), "\t\tx = 1".into()]),
        22 => s(&[format!("del({e})")]),
        23 => s(&[format!("throw {e}")]),
        24 => s(&[format!("CRASH({e})")]),
        25 => s(&["x = 1".into(), "spot:".into(), format!("\tx = {e}")]),
        26 => s(&[format!("world << ({e})")]),
        27 => s(&[format!("for(x in {e})"), "\tfoo(x)".into()]),
        28 => s(&[format!("for(var/i as anything in {e})"), "\tx = i".into()]),
        29 => s(&[format!("var/a = 1, b = {e}"), "x = a + b".into()]),
        30 => s(&[format!("var/a = 1, b, c = {e}"), "x = a + b + c".into()]),
        31 => s(&[format!("if(x) x = {e}")]),
        32 => s(&["if(x)".into(), "\tx = 1".into(), format!("else x = {e}")]),
        33 => s(&[format!("while(x) {{ x = {e}; x = 1 }}")]),
        34 => s(&[format!("x[{e}] = 3")]),
        35 => s(&["switch(x)".into(), "\tif(1) x = 2".into(), format!("\telse x = {e}")]),
        36 => s(&[format!("var/datum/maker/m = new({e})"), "x = m".into()]),
        _ => s(&[format!("spawn({e})"), "\tx = 1".into()]),
    }
}
