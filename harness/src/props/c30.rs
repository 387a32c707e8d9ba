use crate::dm_util::diags;
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use dreamchecker::test_helpers::parse_a_file_for_test;

pub static PROP: Prop = Prop {
    id: "C30",
    quick: 40000,
    thorough: 4000000,
    case,
    directed: &[("all small switches", small), ("huge bounds", huge)],
    rule: "a case is a switch on rand() with constant bounds (one or two arguments, either order, spelled as numbers or expressions) and up to ten cases of values, ranges and lists of them, each on its own lines, at a random depth of a proc; the reports are compared with a count over every integer of the roll's range: a case value or range is reported at its case exactly when no roll lies in it, and missing coverage exactly when some roll has no case, naming such a roll (not judged, except that it must not be reported wrongly, when a case is a name or a text); distinct by text, non-trivial with at least two cases of which one overlaps or touches another",
    assumptions: &["bounds are integers a 32-bit float holds exactly"],
    ..DEFAULT
};

#[derive(Clone, Debug)]
enum C { One(f32), Range(f32, f32), Text, Other }
fn num(v: f32) -> String { if v < 0. { format!("-{}", -v) } else { format!("{v}") } }
fn spell(r: &mut Rng, v: f32) -> String {
    if v.fract() != 0. || v.abs() > 1e6 { return num(v); }
    match r.below(6) { 0 => format!("{} + {}", num(v - 3.), 3), 1 => format!("({})", num(v)), 2 => format!("{} * 2 - {}", num(v), num(v)), 3 => format!("- {}", num(-v)), _ => num(v) }
}

fn check(cx: &mut Cx, r: &mut Rng, lo: f32, hi: f32, one_arg: bool, cases: &[Vec<C>], default: bool) {
    let mut text = String::from("/proc/test(x)\n");
    let depth = r.below(3);
    let mut ind = 1;
    for _ in 0..depth { text += &format!("{}{}\n", "\t".repeat(ind), r.pick(&["while(x)", "if(x)", "for(var/i in x)", "spawn(5)"])); ind += 1; }
    let t = "\t".repeat(ind);
    let head = if one_arg { format!("rand({})", spell(r, hi)) } else { format!("rand({}, {})", spell(r, lo), spell(r, hi)) };
    text += &format!("{t}switch({head})\n");
    let switch_line = 2 + depth;
    let first = switch_line + 1;
    for c in cases {
        let v: Vec<String> = c.iter().map(|c| match c { C::One(v) => spell(r, *v), C::Range(a, b) => format!("{} to {}", spell(r, *a), spell(r, *b)), C::Text => "\"one\"".into(), C::Other => "SIX".into() }).collect();
        text += &format!("{t}\tif({})\n{t}\t\tx = 1\n{t}\t\tx = 2\n", v.join(", "));
    }
    if default { text += &format!("{t}\telse\n{t}\t\tx = 3\n"); }
    if cases.is_empty() && !default { return; }
    text += "/var/const/SIX = 6\n";
    cx.input(text.clone());
    cx.sig(&text);
    let ctx = match catch(|| parse_a_file_for_test(text.clone())) { Ok(c) => c, Err(m) => { cx.violate("panic", m); return; } };
    // the oracle counts
    let (a, b) = if one_arg { (0f64.min(hi as f64), 0f64.max(hi as f64)) } else { (lo.min(hi) as f64, lo.max(hi) as f64) };
    let hit = |c: &C, n: f64| match c { C::One(v) => *v as f64 == n, C::Range(x, y) => *x as f64 <= n && n <= *y as f64, C::Text => false, C::Other => n == 6. };
    let dead = |c: &C| match c {
        C::One(v) => v.fract() != 0. || (*v as f64) < a || (*v as f64) > b,
        C::Range(x, y) => (*x as f64).ceil().max(a) > (*y as f64).floor().min(b),
        // text and named constants are not judged
        C::Text | C::Other => false,
    };
    let unknown = cases.iter().flatten().any(|c| matches!(c, C::Other | C::Text));
    // some roll without a case: only the rolls next to an end of a case matter
    let mut gap = None;
    for n in [a].into_iter().chain(cases.iter().flatten().filter_map(|c| match c { C::One(v) => Some(*v as f64 + 1.), C::Range(_, y) => Some((*y as f64).floor() + 1.), _ => None })) {
        if n >= a && n <= b && n.fract() == 0. && !cases.iter().flatten().any(|c| hit(c, n)) { gap = Some(n); }
    }
    let mut per_case = vec![0usize; cases.len()];
    let mut gaps = vec![];
    let all = diags(&ctx).join("\n");
    {
        let errs = ctx.errors();
        for e in errs.iter() {
            let line = e.location().line as usize;
            let text = e.description();
            if text.contains("no case branch") {
                let n: f64 = text.rsplit(' ').next().and_then(|x| x.parse().ok()).unwrap_or(f64::NAN);
                gaps.push((line, n));
            } else if text.contains("will never trigger") && line >= first && (line - first) / 3 < cases.len() {
                per_case[(line - first) / 3] += 1;
            } else { cx.inconclusive(&format!("unexpected diagnostics: {all}")); return; }
        }
    }
    for (i, c) in cases.iter().enumerate() {
        let want = c.iter().filter(|c| dead(c)).count();
        ensure!(cx, per_case[i] == want, "case", "case {i} {c:?}: {} reports instead of {want}\n{}", per_case[i], all);
        cx.count("case values judged", c.len() as u64);
        cx.count("dead values", want as u64);
    }
    let report = gap.is_some() && !default;
    if unknown { cx.count("gaps not judged", 1); ensure!(cx, gaps.is_empty() || report, "gap", "no roll is without a case; reports: {gaps:?}"); }
    else { ensure!(cx, gaps.len() == report as usize, "gap", "roll without a case: {gap:?}, default: {default}; reports: {gaps:?}\n{}", all); }
    for (line, n) in &gaps {
        ensure!(cx, *line == switch_line, "place", "the gap is reported at line {line}");
        ensure!(cx, unknown || *n >= a && *n <= b && !cases.iter().flatten().any(|c| hit(c, *n)), "gap", "the roll {n} named in the report has a case");
    }
    if report { cx.count("gaps", 1); }
    let flat: Vec<(f32, f32)> = cases.iter().flatten().filter_map(|c| match c { C::One(v) => Some((*v, *v)), C::Range(x, y) => Some((*x, *y)), _ => None }).collect();
    if flat.iter().enumerate().any(|(i, p)| flat[..i].iter().any(|q| p.0 <= q.1 + 1. && q.0 <= p.1 + 1.)) { cx.nontrivial(); }
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let big = r.chance(1, 6);
    let pt = |r: &mut Rng| -> f32 { if big { *r.pick(&[-2147483520f32, 2147483520., -16777216., 16777216., 1e9, 0., 1., -1., 5.]) } else { r.range(-4, 8) as f32 } };
    let (lo, hi) = (pt(&mut r), pt(&mut r));
    let (lo, hi) = if r.chance(3, 4) { (lo.min(hi), lo.max(hi)) } else { (lo, hi) };
    let one_arg = r.chance(1, 6);
    let n = r.below(2 + cx.size / 12);
    let val = |r: &mut Rng| -> f32 {
        if big { *r.pick(&[-2147483648f32, 2147483520., -16777216., 16777216., 1e9, 1e10, -1e10, 1e30, 0., 1., 2., -1., 5., 2147483648.]) }
        else if r.chance(1, 8) { r.range(-9, 18) as f32 / 2. } else { r.range(-5, 9) as f32 }
    };
    let cases: Vec<Vec<C>> = (0..n).map(|_| { let k = 1 + if r.chance(1, 3) { r.below(3) } else { 0 }; (0..k).map(|_| match r.below(20) { 0 => C::Text, 1 if !big => C::Other, 2..=7 => { let (x, y) = (val(&mut r), val(&mut r)); if r.chance(7, 8) { C::Range(x.min(y), x.max(y)) } else { C::Range(x, y) } }, _ => C::One(val(&mut r)) }).collect() }).collect();
    let default = r.chance(1, 4);
    check(cx, &mut r, lo, hi, one_arg, &cases, default);
}

/// Every switch on a roll within 0..=3 with up to two cases of values or ranges within -1..=4.
fn small(cx: &mut Cx) {
    let mut r = Rng::new(7);
    let mut shapes = vec![];
    for a in -1..=4 { shapes.push(C::One(a as f32)); for b in a..=4 { shapes.push(C::Range(a as f32, b as f32)); } }
    for lo in 0..=3 { for hi in lo..=3 { for (i, a) in shapes.iter().enumerate() {
        check(cx, &mut r, lo as f32, hi as f32, false, &[vec![a.clone()]], false);
        for b in &shapes[i..] { if (i + lo) % 3 == 0 { check(cx, &mut r, lo as f32, hi as f32, false, &[vec![b.clone()], vec![a.clone()]], false); } }
        if cx.violated() { return; }
    } } }
}
fn huge(cx: &mut Cx) {
    let mut r = Rng::new(8);
    let pts = [-2147483520f32, -1e9, 0., 7., 1e9, 2147483520., 2147483648., 1e20];
    for lo in &pts[..6] { for hi in &pts[..6] { for x in pts { for y in pts {
        check(cx, &mut r, *lo, *hi, false, &[vec![C::Range(x, y)], vec![C::One(x)]], false);
        if cx.violated() { return; }
    } } } }
}
