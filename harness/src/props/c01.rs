//! C01: interval tree against a sorted list of (interval, values).
use crate::ensure;
use crate::fw::*;
use interval_tree::{IntervalTree, range};
use std::collections::BTreeMap;
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "C01",
    quick: 40_000,
    thorough: 600_000,
    case,
    directed: &[("exhaustive-small", exhaustive_small), ("large", large)],
    rule: "a case is a random history of insert/remove/merge over a small or large coordinate universe with skewed, sorted, nested or random interval shapes; every query is compared with a sorted-list model after each operation (small histories) or at intervals (large). Non-trivial: at least one removal of a present key and a tree of at least 4 distinct intervals. The directed scenario enumerates all insert/remove histories of length 6 over 4 intervals.",
    ..DEFAULT
};

type Model = BTreeMap<(i64, i64), Vec<u32>>;

fn check(cx: &mut Cx, t: &IntervalTree<i64, u32>, m: &Model, queries: &[(i64, i64)]) -> bool {
    macro_rules! eq {
        ($what:expr, $a:expr, $b:expr) => {
            let (a, b) = ($a, $b);
            if a != b {
                cx.violate(format!("query {}", $what), format!("{}: tree gives {:?}, model gives {:?}\nmodel {:?}", $what, a, b, m));
                return false;
            }
        };
    }
    let flat: Vec<((i64, i64), u32)> = m.iter().flat_map(|(k, v)| v.iter().map(move |x| (*k, *x))).collect();
    eq!("iter", t.iter().map(|(k, v)| ((k.start, k.end), *v)).collect::<Vec<_>>(), flat.clone());
    eq!("is_empty", t.is_empty(), m.is_empty());
    eq!("min", t.min().map(|(k, v)| ((k.start, k.end), v.to_vec())), m.iter().next().map(|(k, v)| (*k, v.clone())));
    eq!("max", t.max().map(|(k, v)| ((k.start, k.end), v.to_vec())), m.iter().next_back().map(|(k, v)| (*k, v.clone())));
    // AVL bound: a tree of height h has at least F(h+2)-1 nodes
    let h = t.height();
    let (mut a, mut b) = (0u64, 1u64); // min nodes for heights 0 and 1
    for _ in 0..h { let c = a + b + 1; a = b; b = c; }
    if (m.len() as u64) < a {
        cx.violate("height", format!("height {h} for {} distinct intervals exceeds the AVL bound", m.len()));
        return false;
    }
    if h < 64 && (m.len() as u64) > (1u64 << h) - 1 {
        cx.violate("height", format!("height {h} too small for {} distinct intervals", m.len()));
        return false;
    }
    for &(a, b) in queries {
        let want: Vec<_> = flat.iter().filter(|((s, e), _)| *s <= b && a <= *e).cloned().collect();
        eq!(format!("range {a}..={b}"), t.range(range(a, b)).map(|(k, v)| ((k.start, k.end), *v)).collect::<Vec<_>>(), want);
        eq!(format!("get {a}..={b}"), t.get(range(a, b)).map(|x| x.to_vec()), m.get(&(a, b)).cloned());
        eq!(format!("get_or {a}..={b}"), t.get_or(range(a, b), &[77]).to_vec(), m.get(&(a, b)).cloned().unwrap_or(vec![77]));
        eq!(format!("contains {a}..={b}"), t.contains(range(a, b)), m.contains_key(&(a, b)));
        cx.count("range queries compared", 1);
    }
    true
}

fn exhaustive_small(cx: &mut Cx) {
    // all histories of length 6 over 4 intervals x {insert, remove}
    let ivs = [(0, 3), (1, 1), (2, 5), (1, 4)];
    let all: Vec<(i64, i64)> = (0..6).flat_map(|a| (a..6).map(move |b| (a, b))).collect();
    for code in 0..8u64.pow(6) {
        let mut c = code;
        let mut t = IntervalTree::new();
        let mut m = Model::new();
        for step in 0..6 {
            let op = c % 8;
            c /= 8;
            let iv = ivs[(op % 4) as usize];
            if op < 4 {
                t.insert(range(iv.0, iv.1), step);
                m.entry(iv).or_default().push(step);
            } else {
                t.remove(range(iv.0, iv.1));
                m.remove(&iv);
            }
        }
        cx.count("exhaustive histories", 1);
        if !check(cx, &t, &m, if code % 16 == 0 { &all } else { &ivs }) {
            cx.input(format!("history code {code}"));
            return;
        }
    }
}

fn large(cx: &mut Cx) {
    // sorted and reversed bulk loads and removals: depth and maximum bookkeeping on big trees
    let rounds = if cx.thorough { 20 } else { 4 };
    for round in 0..rounds {
        let n = 3000;
        let mut t = IntervalTree::new();
        let mut m = Model::new();
        let mut keys = vec![];
        for i in 0..n as i64 {
            let s = match round % 4 { 0 => i, 1 => n as i64 - i, 2 => (i * 7919) % n as i64, _ => cx.rng.range(0, 500) };
            let e = s + if round % 2 == 0 { cx.rng.range(0, 40) } else { cx.rng.range(0, 3000) };
            t.insert(range(s, e), i as u32);
            m.entry((s, e)).or_default().push(i as u32);
            keys.push((s, e));
        }
        let q: Vec<_> = (0..200).map(|_| { let a = cx.rng.range(-10, 4000); (a, a + cx.rng.range(0, 100)) }).chain(keys.iter().take(50).cloned()).collect();
        if !check(cx, &t, &m, &q) { return; }
        cx.max("tree height", t.height() as u64);
        cx.rng.shuffle(&mut keys);
        for k in keys.iter().take(n - 100) {
            t.remove(range(k.0, k.1));
            m.remove(k);
        }
        if !check(cx, &t, &m, &q) { return; }
        let got: Vec<_> = t.into_iter().map(|(k, v)| ((k.start, k.end), v)).collect();
        let want: Vec<_> = m.iter().flat_map(|(k, v)| v.iter().map(move |x| (*k, *x))).collect();
        ensure!(cx, got == want, "into_iter", "consuming iteration differs: {:?} vs {:?}", got, want);
    }
}

fn case(cx: &mut Cx) {
    let uni = *cx.rng.pick(&[3i64, 6, 12, 40, 1000]);
    let shape = cx.rng.below(5);
    let nops = 4 + cx.rng.below(4 + cx.size * 2);
    let every = if nops < 40 { 1 } else { nops / 10 };
    let mut t = IntervalTree::new();
    let mut m = Model::new();
    let mut log = String::new();
    let mut removed_present = 0;
    let mut next = 0i64;
    let mut heights = BTreeSet::new();
    for step in 0..nops {
        let mut gen_iv = |cx: &mut Cx| -> (i64, i64) {
            match shape {
                0 => { next += 1; (next % uni.max(20), next % uni.max(20) + cx.rng.range(0, 3)) },
                1 => { next -= 1; (next, next + cx.rng.range(0, uni)) },
                2 => { let a = cx.rng.range(0, uni / 2); (a, uni - a) },
                3 => { let a = cx.rng.range(0, 2); (a, a + cx.rng.range(0, uni)) },
                _ => { let a = cx.rng.range(0, uni); (a, a + cx.rng.range(0, uni)) },
            }
        };
        let v = step as u32;
        match cx.rng.weighted(&[60, 35, 3, 2]) {
            0 => {
                let (a, b) = gen_iv(cx);
                log += &format!("+{a},{b} ");
                t.insert(range(a, b), v);
                m.entry((a, b)).or_default().push(v);
            },
            1 => {
                let k = if m.is_empty() || cx.rng.chance(1, 4) { gen_iv(cx) } else { *m.keys().nth(cx.rng.below(m.len())).unwrap() };
                log += &format!("-{},{} ", k.0, k.1);
                t.remove(range(k.0, k.1));
                if m.remove(&k).is_some() { removed_present += 1; }
            },
            2 => {
                log += "merge[";
                let mut o = IntervalTree::new();
                let mut om = Model::new();
                for j in 0..cx.rng.below(12) {
                    let (a, b) = gen_iv(cx);
                    let v = 1000 + v * 100 + j as u32;
                    log += &format!("{a},{b} ");
                    o.insert(range(a, b), v);
                    om.entry((a, b)).or_default().push(v);
                }
                log += "] ";
                t.merge(o);
                for (k, vs) in om { m.entry(k).or_default().extend(vs); }
            },
            _ => {
                // clone must be independent
                log += "clone ";
                let mut c = t.clone();
                for _ in 0..3 { let (a, b) = gen_iv(cx); c.insert(range(a, b), 9); c.remove(range(a, b)); }
                t = t.clone();
            },
        }
        heights.insert(t.height());
        if step % every == 0 || step + 1 == nops {
            let mut q: Vec<(i64, i64)> = (0..6).map(|_| { let a = cx.rng.range(-2, uni + 2); (a, a + cx.rng.range(0, uni)) }).collect();
            for _ in 0..2 { let a = cx.rng.range(-1, 2 * uni); q.push((a, a)); }
            if let Some(k) = m.keys().nth(cx.rng.below(m.len().max(1))) { q.push(*k); q.push((k.1, k.1)); q.push((k.1 + 1, k.1 + 1)); q.push((k.0 - 1, k.0 - 1)); }
            if !check(cx, &t, &m, &q) { cx.input(log); return; }
        }
    }
    cx.count("operations", nops as u64);
    cx.count("removals of a present key", removed_present);
    cx.max("distinct intervals", m.len() as u64);
    cx.max("tree height", t.height() as u64);
    if removed_present > 0 && (m.len() >= 4 || heights.iter().any(|h| *h >= 3)) { cx.nontrivial(); }
    cx.input(log);
    let got: Vec<_> = t.into_iter().map(|(k, v)| ((k.start, k.end), v)).collect();
    let want: Vec<_> = m.iter().flat_map(|(k, v)| v.iter().map(move |x| (*k, *x))).collect();
    ensure!(cx, got == want, "into_iter", "consuming iteration differs: {:?} vs {:?}", got, want);
}
