//! The scoped map against a stack of maps.

use layout::adt::map::ScopedMap;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use vh::ck;
use vh::ctx::*;
use vh::rng::{hash_str, Rng};
use vh::runner::Prop;

/// A key whose equality ignores its case, and whose hashes collide.
#[derive(Clone, Debug)]
struct Fold(String);
impl PartialEq for Fold {
    fn eq(&self, o: &Fold) -> bool {
        self.0.eq_ignore_ascii_case(&o.0)
    }
}
impl Eq for Fold {}
impl Hash for Fold {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0.len() % 3).hash(h)
    }
}

struct Model<K, V> {
    stack: Vec<HashMap<K, V>>,
}

impl<K: Clone + Eq + Hash + Debug, V: Clone + PartialEq + Debug> Model<K, V> {
    fn get(&self, k: &K) -> Option<V> {
        self.stack.iter().rev().find_map(|s| s.get(k)).cloned()
    }
    fn flat(&self) -> HashMap<K, V> {
        let mut r = HashMap::new();
        for s in &self.stack {
            for (k, v) in s {
                // The value of the innermost scope wins.
                r.remove(k);
                r.insert(k.clone(), v.clone());
            }
        }
        r
    }
}

fn compare<K, V>(m: &Model<K, V>, r: &ScopedMap<K, V>, keys: &[K], full: bool, log: &str) -> R
where
    K: Clone + Eq + Hash + Debug,
    V: Clone + PartialEq + Debug,
{
    ck!(
        r.len() == m.stack.len(),
        "length",
        "length {} with {} open scopes; {}",
        r.len(),
        m.stack.len(),
        log
    );
    ck!(
        r.is_empty() == m.stack.is_empty(),
        "emptiness",
        "is_empty() is {} with {} scopes; {}",
        r.is_empty(),
        m.stack.len(),
        log
    );
    for k in keys {
        let want = m.get(k);
        let got = r.get(k);
        ck!(
            got == want,
            "lookup",
            "{:?} is {:?} instead of {:?}; {}",
            k,
            got,
            want,
            log
        );
        ck!(
            r.has(k) == want.is_some(),
            "membership",
            "has({:?}) is {}; {}",
            k,
            r.has(k),
            log
        );
    }
    if full {
        let want = m.flat();
        let got = r.flatten();
        ck!(
            got == want,
            "flattened",
            "flattened to {:?} instead of {:?}; {}",
            got,
            want,
            log
        );
    }
    Ok(())
}

fn history<K, V>(ctx: &mut Ctx, keys: Vec<K>, mut val: impl FnMut(&mut Rng) -> V) -> R
where
    K: Clone + Eq + Hash + Debug,
    V: Clone + PartialEq + Debug,
{
    let mut rng = ctx.rng.clone();
    let big = rng.pct(3);
    let n = if big { rng.range(200, 1500) } else { rng.range(1, 60) };
    let p_push = rng.range(5, 30);
    let p_pop = rng.range(5, 30);
    let mut real: ScopedMap<K, V> =
        if rng.pct(50) { ScopedMap::new() } else { ScopedMap::default() };
    let mut m: Model<K, V> = Model { stack: Vec::new() };
    let mut log = String::new();
    let (mut ins, mut over, mut shadow, mut depth, mut restored) = (0, 0, 0, 0, 0);
    compare(&m, &real, &keys, true, "new")?;
    for _ in 0..n {
        let c = rng.below(100);
        if c < p_push {
            real.push();
            m.stack.push(HashMap::new());
            log.push_str("push; ");
        } else if c < p_push + p_pop {
            // Also on an empty map, where there is nothing to pop.
            real.pop();
            if let Some(s) = m.stack.pop() {
                restored += s.keys().filter(|k| m.get(k).is_some()).count() as u64;
            }
            log.push_str("pop; ");
        } else if !m.stack.is_empty() {
            let k = rng.pick(&keys).clone();
            let v = val(&mut rng);
            real.insert(&k, &v);
            log.push_str(&format!("{:?}={:?}; ", k, v));
            ins += 1;
            let top = m.stack.len() - 1;
            if m.stack[top].contains_key(&k) {
                over += 1;
            } else if m.get(&k).is_some() {
                shadow += 1;
            }
            m.stack[top].insert(k, v);
        }
        depth = depth.max(m.stack.len());
        ctx.count("operations", 1);
        ctx.set_input(log.clone());
        if big && log.len() > 4000 {
            let mut cut = log.len() - 2000;
            while !log.is_char_boundary(cut) {
                cut += 1;
            }
            log = format!("... {}", &log[cut..]);
        }
        let full = rng.pct(30);
        compare(&m, &real, &keys, full, "")?;
    }
    // Unwind everything.
    while m.stack.pop().is_some() {
        real.pop();
        compare(&m, &real, &keys, true, "unwinding")?;
    }
    ctx.count("insertions", ins);
    ctx.count("overwrites_in_a_scope", over);
    ctx.count("shadowing_insertions", shadow);
    ctx.count("bindings_restored_by_pop", restored);
    ctx.max("depth", depth as u64);
    if ins > 1 && depth > 1 {
        ctx.nontrivial(hash_str(&log));
        ctx.sample(log);
    }
    Ok(())
}

fn distinct<K: Clone + Eq + Hash>(v: Vec<K>) -> Vec<K> {
    let mut seen = HashSet::new();
    v.into_iter().filter(|k| seen.insert(k.clone())).collect()
}

fn scoped_map(ctx: &mut Ctx) -> R {
    let nk = ctx.rng.range(1, if ctx.rng.clone().pct(10) { 80 } else { 7 });
    match ctx.rng.below(4) {
        0 => {
            let keys: Vec<usize> =
                (0..nk).map(|i| if i % 2 == 0 { i } else { usize::MAX - i }).collect();
            history(ctx, keys, |r| r.next() % 5)
        }
        1 => {
            let mut keys = Vec::new();
            for i in 0..nk {
                keys.push(match ctx.rng.below(4) {
                    0 => String::new(),
                    1 => "a".repeat(i + 1),
                    2 => format!("κ{}", i),
                    _ => format!("k{}", i),
                });
            }
            history(ctx, distinct(keys), |r| {
                if r.pct(20) {
                    String::new()
                } else {
                    format!("v{}", r.below(9))
                }
            })
        }
        2 => {
            let mut keys = Vec::new();
            for i in 0..nk {
                let s = format!("{}{}", ["ab", "AB", "aB", "x"][ctx.rng.below(4)], i / 3);
                keys.push(Fold(s));
            }
            history(ctx, keys, |r| Some(r.below(3)).filter(|x| *x > 0))
        }
        _ => {
            let keys: Vec<(i8, bool)> =
                (0..nk.min(100)).map(|i| ((i / 2) as i8 - 3, i % 2 == 0)).collect();
            history(ctx, keys, |r| vec![r.below(3); r.below(3)])
        }
    }
}

static PROPS: &[Prop] = &[Prop {
    id: "C20",
    quick: 500_000,
    thorough: 10_000_000,
    fuel: 2_000_000_000,
    run: scoped_map,
    rule: "a distinct history with insertions under two or more scopes",
    assumptions: &[
        "a value is inserted only when a scope is open",
        "keys: integers, strings, pairs, and strings whose equality ignores the case and whose hashes collide",
    ],
}];

fn main() {
    vh::runner::main(PROPS)
}
