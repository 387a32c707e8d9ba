//! A writer of map files of our own, in both layouts, from tiles as (path, variables) lists.
use crate::rng::Rng;

pub type Obj = (String, Vec<(String, String)>);
pub type Tile = Vec<Obj>;

#[derive(Clone, Debug)]
pub struct MapM { pub x: usize, pub y: usize, pub z: usize, pub pool: Vec<Tile>, pub grid: Vec<usize> }
impl MapM {
    /// from the bottom left
    pub fn at(&self, x: usize, y: usize, z: usize) -> usize { self.grid[(z * self.y + y) * self.x + x] }
    pub fn set(&mut self, x: usize, y: usize, z: usize, t: usize) { let i = (z * self.y + y) * self.x + x; self.grid[i] = t; }
    pub fn tile(&self, x: usize, y: usize, z: usize) -> &Tile { &self.pool[self.at(x, y, z)] }
}

const B52: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
pub fn key(mut n: usize, len: usize) -> String {
    let mut v = vec![];
    for _ in 0..len { v.push(B52[n % 52]); n /= 52; }
    v.reverse();
    String::from_utf8(v).unwrap()
}

/// The text, the key length and the number of keys. With `split`, equal tiles may be stored under several keys.
pub fn write(r: &mut Rng, m: &MapM, split: bool, extra: usize) -> (String, usize, usize) {
    let mut keys: Vec<(usize, usize)> = vec![]; // (number, pool index)
    let mut of: Vec<Vec<usize>> = vec![vec![]; m.pool.len()];
    for p in 0..m.pool.len() { for _ in 0..if split { 1 + r.below(2) } else { 1 } { of[p].push(keys.len()); keys.push((0, p)); } }
    for _ in 0..extra { keys.push((0, r.below(m.pool.len()))); }
    let len = if keys.len() <= 52 && r.chance(2, 3) { 1 } else { 2 + r.below(2) };
    let space = if len == 1 { 52 } else if len == 2 { 2704 } else { 60000 };
    let mut nums: Vec<usize> = vec![];
    while nums.len() < keys.len() { let n = if r.bool() { nums.len() } else { r.below(space) }; if !nums.contains(&n) { nums.push(n); } else { let k = (0..space).find(|k| !nums.contains(k)).unwrap(); nums.push(k); } }
    for (k, n) in keys.iter_mut().zip(nums) { k.0 = n; }
    let tgm = r.bool();
    let mut order: Vec<usize> = (0..keys.len()).collect();
    if r.bool() { r.shuffle(&mut order); }
    let mut s = String::new();
    if tgm { s += "//MAP CONVERTED BY dmm2tgm.py THIS HEADER COMMENT PREVENTS RECONVERSION, DO NOT REMOVE\n"; }
    for i in order {
        let (n, p) = keys[i];
        s += &format!("\"{}\" = (", key(n, len));
        if tgm { s.push('\n'); }
        for (j, (path, vars)) in m.pool[p].iter().enumerate() {
            if j > 0 { s += if tgm { ",\n" } else { "," }; }
            s += path;
            if !vars.is_empty() {
                s += "{";
                for (k, (name, v)) in vars.iter().enumerate() { if k > 0 { s += if tgm { ";" } else { "; " }; } if tgm { s += "\n\t"; } s += &format!("{name} = {v}"); }
                s += if tgm { "\n\t}" } else { "}" };
            }
        }
        s += ")\n";
    }
    s.push('\n');
    let mut pick = |r: &mut Rng, t: usize| key(keys[*r.pick(&of[t])].0, len);
    for z in 0..m.z {
        if tgm {
            for x in 0..m.x { s += &format!("({},1,{}) = {{\"\n", x + 1, z + 1); for y in (0..m.y).rev() { s += &pick(r, m.at(x, y, z)); s.push('\n'); } s += "\"}\n"; }
        } else {
            s += &format!("(1,1,{}) = {{\"\n", z + 1);
            for y in (0..m.y).rev() { for x in 0..m.x { s += &pick(r, m.at(x, y, z)); } s.push('\n'); }
            s += "\"}\n\n";
        }
    }
    (s, len, keys.len())
}
