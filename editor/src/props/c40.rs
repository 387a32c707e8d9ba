//! The map editor's undo history.
use crate::fw::*;
use crate::history::History;
use crate::rng::Rng;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "C40",
    quick: 60000,
    thorough: 2000000,
    case,
    directed: &[("branches", branches)],
    rule: "a case makes a history and applies up to 80 random steps: edits which insert, overwrite, remove, rotate and sum up the elements of the value and give out fresh serial numbers their undo depends on, undos, redos, saves and replacements of the value by an equal one; after every step the value, whether undo and redo are possible, whether the value is dirty, and which of the edits' closures were called are compared with a tree of recorded values; distinct by step sequence, non-trivial when a branch was left and another redone and 4 levels were undone in a row",
    assumptions: &["the history is judged with edits that undo what they did when applied to the value they produced"],
    ..DEFAULT
};

/// an element: what it is, and the serial number it got when it was made
type Value = Vec<(i64, u64)>;
#[derive(Default)]
struct Env { serial: Cell<u64>, log: RefCell<Vec<(usize, &'static str)>>, wrong: RefCell<Vec<String>> }
impl Env { fn fresh(&self) -> u64 { self.serial.set(self.serial.get() + 1); self.serial.get() } }
type H = History<Value, Env>;
fn values(v: &Value) -> Vec<i64> { v.iter().map(|e| e.0).collect() }

/// performs an edit; `n` identifies it
fn edit(h: &mut H, env: &Env, n: usize, kind: usize, arg: i64) {
    h.edit(env, format!("edit {n}"), move |env: &Env, v: &mut Value| -> Box<dyn Fn(&Env, &mut Value)> {
        env.log.borrow_mut().push((n, "do"));
        let undo = move |env: &Env| env.log.borrow_mut().push((n, "undo"));
        match kind {
            0 => { let id = env.fresh(); let at = arg as usize % (v.len() + 1); v.insert(at, (arg, id)); Box::new(move |env, v| { undo(env); match v.iter().position(|e| e.1 == id) { Some(i) => { v.remove(i); }, None => env.wrong.borrow_mut().push(format!("edit {n} undone: no element with serial {id}")) } }) },
            1 if !v.is_empty() => { let at = arg as usize % v.len(); let old = v[at]; let id = env.fresh(); v[at] = (arg * 3, id); Box::new(move |env, v| { undo(env); if v.get(at).is_none_or(|e| e.1 != id) { env.wrong.borrow_mut().push(format!("edit {n} undone: another element at {at}")); } else { v[at] = old; } }) },
            2 if !v.is_empty() => { let at = arg as usize % v.len(); let old = v.remove(at); Box::new(move |env, v| { undo(env); if at > v.len() { env.wrong.borrow_mut().push(format!("edit {n} undone: too short")); } else { v.insert(at, old); } }) },
            3 => { let k = if v.is_empty() { 0 } else { arg as usize % v.len() }; v.rotate_left(k); let len = v.len(); Box::new(move |env, v| { undo(env); if v.len() != len { env.wrong.borrow_mut().push(format!("edit {n} undone: another length")); } else { v.rotate_right(k); } }) },
            4 => { let id = env.fresh(); let old = std::mem::replace(v, vec![(v.iter().map(|e| e.0 % 1000).sum::<i64>() + arg, id)]); Box::new(move |env, v| { undo(env); if v.len() != 1 || v[0].1 != id { env.wrong.borrow_mut().push(format!("edit {n} undone: not its value")); } *v = old.clone(); }) },
            _ => Box::new(move |env, _| undo(env)),
        }
    });
}

struct Node { value: Vec<i64>, parent: Option<usize>, edit: usize, redo: Option<usize> }

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let r = &mut r;
    let env = Env::default();
    let start: Value = (0..r.below(4)).map(|i| (i as i64 * 10, env.fresh())).collect();
    let mut tree = vec![Node { value: values(&start), parent: None, edit: usize::MAX, redo: None }];
    let (mut at, mut clean) = (0, 0);
    let mut h = H::new("start".into(), start);
    let mut told = vec![];
    let (mut branched, mut deep, mut run) = (false, 0, 0);
    let style = r.below(4);
    for step in 0..10 + r.below(70) {
        let w: [usize; 5] = match style { 0 => [6, 5, 4, 1, 1], 1 => [3, 8, 8, 1, 0], 2 => [8, 3, 2, 2, 1], _ => [4, 4, 1, 3, 1] };
        let mut expect: Option<(usize, &'static str)> = None;
        match r.weighted(&w) {
            0 => {
                let (kind, arg) = (r.below(6), r.below(1000) as i64);
                told.push(format!("edit {kind} {arg}"));
                edit(&mut h, &env, step, kind, arg);
                if tree[at].redo.is_some() { branched = true; }
                tree.push(Node { value: values(h.current()), parent: Some(at), edit: step, redo: None });
                let new = tree.len() - 1;
                tree[at].redo = Some(new);
                at = new;
                expect = Some((step, "do"));
                run = 0;
            },
            1 => { told.push("undo".into()); h.undo(&env); if let Some(p) = tree[at].parent { expect = Some((tree[at].edit, "undo")); at = p; run += 1; deep = deep.max(run); } },
            2 => { told.push("redo".into()); h.redo(&env); if let Some(c) = tree[at].redo { expect = Some((tree[c].edit, "do")); at = c; } run = 0; },
            3 => { told.push("save".into()); h.mark_clean(); clean = at; },
            _ => { told.push("replace".into()); let v = h.current().clone(); h.replace_current(v); },
        }
        cx.input(told.join("; "));
        let log: Vec<_> = env.log.borrow_mut().drain(..).collect();
        if log != expect.into_iter().collect::<Vec<_>>() { cx.violate("another edit", format!("{}: called {log:?} instead of {expect:?}", told.join("; "))); return; }
        if let Some(w) = env.wrong.borrow().first() { cx.violate("undone from another value", format!("{}: {w}", told.join("; "))); return; }
        if values(h.current()) != tree[at].value { cx.violate("another value", format!("{}: {:?} instead of {:?}", told.join("; "), values(h.current()), tree[at].value)); return; }
        if h.can_undo() != tree[at].parent.is_some() || h.can_redo() != tree[at].redo.is_some() { cx.violate("can undo or redo", format!("{}: undo {} redo {}", told.join("; "), h.can_undo(), h.can_redo())); return; }
        if h.is_dirty() != (at != clean) { cx.violate("dirty", format!("{}: {}", told.join("; "), h.is_dirty())); return; }
        cx.count("states compared", 1);
    }
    cx.max("undone in a row", deep as u64);
    if branched { cx.count("histories with branches", 1); }
    if branched && deep >= 4 { cx.nontrivial(); }
    cx.sig(&told);
}

fn branches(cx: &mut Cx) {
    for n in 1..5i64 {
        let env = Env::default();
        let calls = Rc::new(Cell::new(0));
        let mut h = H::new("start".into(), vec![]);
        for k in 0..n { edit(&mut h, &env, k as usize, 0, k * 7 + 1); let v = values(h.current()); h.undo(&env); h.redo(&env); calls.set(calls.get() + 1); if values(h.current()) != v { cx.violate("redo follows the newest branch", format!("{} branches: {:?} instead of {v:?}", k + 1, values(h.current()))); return; } h.undo(&env); }
        cx.count("branches", n as u64);
    }
    cx.nontrivial();
    cx.input("branches");
}
