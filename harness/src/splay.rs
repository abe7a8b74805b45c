//! Searches for the sorted map / set (C01) and its consuming iteration (C02).
use crate::common::*;
use crate::ensure;
use geo_crossings::{SplaySet, SplayTree};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::ops::Bound::*;
use std::rc::Rc;

/// A key: ordered by `k` only; `tag` tells apart keys that compare equal.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Key {
    pub k: i32,
    pub tag: u32,
}

#[derive(Clone, Debug)]
pub enum Op {
    Insert(i32),
    Remove(i32),
    Get(i32),
    Contains(i32),
    FindKey(i32),
    GetMut(i32),
    Next(i32),
    Prev(i32),
    Min,
    Max,
    Clear,
    Extend(Vec<i32>),
    Index(i32),
    IndexMut(i32),
    /// consume; true = take from the front
    Drain(Vec<bool>),
    /// run over the map ascending with `next`, or descending with `prev`
    Walk(bool),
}

/// How keys are compared.
#[derive(Clone, Copy, Debug)]
pub enum Cmp {
    Natural,
    Reverse,
    /// keys are equal when equal modulo 2
    Halves,
}
fn cmp_of(c: Cmp) -> impl Fn(&Key, &Key) -> Ordering + Copy {
    move |a: &Key, b: &Key| match c {
        Cmp::Natural => a.k.cmp(&b.k),
        Cmp::Reverse => b.k.cmp(&a.k),
        Cmp::Halves => a.k.div_euclid(2).cmp(&b.k.div_euclid(2)),
    }
}
fn rank(c: Cmp, k: i32) -> i64 {
    match c {
        Cmp::Natural => k as i64,
        Cmp::Reverse => -(k as i64),
        Cmp::Halves => k.div_euclid(2) as i64,
    }
}

/// A value that counts how many of its kind are alive.
#[derive(Debug)]
pub struct Val {
    v: u32,
    live: Rc<Cell<i64>>,
}
impl Val {
    fn new(v: u32, live: &Rc<Cell<i64>>) -> Val {
        live.set(live.get() + 1);
        Val { v, live: live.clone() }
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        self.live.set(self.live.get() - 1);
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub cmp: Cmp,
    pub ops: Vec<Op>,
}

fn kv(o: Option<(&Key, &Val)>) -> Option<(Key, u32)> {
    o.map(|(k, v)| (*k, v.v))
}

pub fn check_map(case: &Case) -> Res {
    let live = Rc::new(Cell::new(0i64));
    let cmp = cmp_of(case.cmp);
    let r = |k: i32| rank(case.cmp, k);
    let mut t = SplayTree::new(cmp);
    let mut m: BTreeMap<i64, (Key, u32)> = BTreeMap::new();
    let mut n = 0u32;
    for (i, op) in case.ops.iter().enumerate() {
        n += 1;
        let key = |k: i32| Key { k, tag: 1000 + i as u32 };
        match op {
            Op::Insert(k) => {
                let got = t.insert(key(*k), Val::new(n, &live)).map(|v| v.v);
                let want = match m.get_mut(&r(*k)) {
                    Some(e) => {
                        let o = e.1;
                        e.1 = n;
                        Some(o)
                    }
                    None => {
                        m.insert(r(*k), (key(*k), n));
                        None
                    }
                };
                ensure!(got == want, "step {i} {op:?}: returned {got:?}, a sorted map returns {want:?}");
            }
            Op::Remove(k) => {
                let got = t.remove(&key(*k)).map(|v| v.v);
                let want = m.remove(&r(*k)).map(|e| e.1);
                ensure!(got == want, "step {i} {op:?}: returned {got:?}, a sorted map returns {want:?}");
            }
            Op::Get(k) => {
                let got = t.get(&key(*k)).map(|v| v.v);
                let want = m.get(&r(*k)).map(|e| e.1);
                ensure!(got == want, "step {i} {op:?}: returned {got:?}, a sorted map returns {want:?}");
            }
            Op::Contains(k) => {
                ensure!(t.contains(&key(*k)) == m.contains_key(&r(*k)), "step {i} {op:?}: wrong answer");
            }
            Op::FindKey(k) => {
                let got = t.find_key(&key(*k)).copied();
                let want = m.get(&r(*k)).map(|e| e.0);
                ensure!(got == want, "step {i} {op:?}: returned {got:?}, a sorted map holds {want:?}");
            }
            Op::GetMut(k) => {
                let got = t.get_mut(&key(*k)).map(|v| {
                    let o = v.v;
                    v.v = n;
                    o
                });
                let want = m.get_mut(&r(*k)).map(|e| {
                    let o = e.1;
                    e.1 = n;
                    o
                });
                ensure!(got == want, "step {i} {op:?}: returned {got:?}, a sorted map returns {want:?}");
            }
            Op::Next(k) => {
                let got = kv(t.next(&key(*k)));
                let want = m.range((Excluded(r(*k)), Unbounded)).next().map(|(_, e)| *e);
                ensure!(got == want, "step {i} {op:?}: returned {got:?}, a sorted map has {want:?}");
            }
            Op::Prev(k) => {
                let got = kv(t.prev(&key(*k)));
                let want = m.range((Unbounded, Excluded(r(*k)))).next_back().map(|(_, e)| *e);
                ensure!(got == want, "step {i} {op:?}: returned {got:?}, a sorted map has {want:?}");
            }
            Op::Min => {
                let got = t.min().copied();
                let want = m.values().next().map(|e| e.0);
                ensure!(got == want, "step {i} min: returned {got:?}, a sorted map has {want:?}");
            }
            Op::Max => {
                let got = t.max().copied();
                let want = m.values().next_back().map(|e| e.0);
                ensure!(got == want, "step {i} max: returned {got:?}, a sorted map has {want:?}");
            }
            Op::Clear => {
                t.clear();
                m.clear();
            }
            Op::Extend(ks) => {
                t.extend(ks.iter().enumerate().map(|(j, k)| (Key { k: *k, tag: 5000 + j as u32 }, Val::new(n * 100 + j as u32, &live))));
                for (j, k) in ks.iter().enumerate() {
                    let nk = Key { k: *k, tag: 5000 + j as u32 };
                    m.entry(r(*k)).or_insert((nk, 0)).1 = n * 100 + j as u32;
                }
            }
            Op::Index(k) => {
                if let Some(e) = m.get(&r(*k)) {
                    ensure!(t[&key(*k)].v == e.1, "step {i} {op:?}: wrong value");
                } else {
                    let q = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t[&key(*k)].v));
                    ensure!(q.is_err(), "step {i} {op:?}: indexing by an absent key answered {:?}", q);
                }
            }
            Op::IndexMut(k) => {
                if let Some(e) = m.get_mut(&r(*k)) {
                    let x = &mut t[&key(*k)];
                    ensure!(x.v == e.1, "step {i} {op:?}: wrong value");
                    x.v = n;
                    e.1 = n;
                }
            }
            Op::Walk(up) => {
                let mut got = vec![];
                let lo = case_extreme(&m, *up);
                if let Some(first) = lo {
                    got.push(first);
                    let mut k = first.0;
                    loop {
                        let nx = kv(if *up { t.next(&k) } else { t.prev(&k) });
                        match nx {
                            Some(e) => {
                                got.push(e);
                                k = e.0;
                            }
                            None => break,
                        }
                        ensure!(got.len() <= m.len(), "step {i} {op:?}: visits more entries than there are");
                    }
                }
                let mut want: Vec<_> = m.values().copied().collect();
                if !*up {
                    want.reverse();
                }
                ensure!(got == want, "step {i} {op:?}: visits {got:?}, a sorted map has {want:?}");
            }
            Op::Drain(front) => {
                let old = std::mem::replace(&mut t, SplayTree::new(cmp));
                let mut want: Vec<(Key, u32)> = std::mem::take(&mut m).into_values().collect();
                check_drain(i, old.into_iter().map(|(k, v)| (k, v.v)), &mut want, front)?;
            }
        }
        ensure!(t.len() == m.len(), "step {i} {op:?}: length {} but {} entries", t.len(), m.len());
        ensure!(t.is_empty() == m.is_empty(), "step {i} {op:?}: is_empty is wrong");
        ensure!(live.get() == m.len() as i64, "step {i} {op:?}: {} values alive, {} entries stored", live.get(), m.len());
    }
    for (k, e) in m.iter() {
        let key = Key { k: e.0.k, tag: 0 };
        ensure!(t.get(&key).map(|v| v.v) == Some(e.1), "at the end: entry {k} lost or wrong");
    }
    let want: Vec<(Key, u32)> = m.values().copied().collect();
    let got: Vec<(Key, u32)> = t.into_iter().map(|(k, v)| (k, v.v)).collect();
    ensure!(got == want, "at the end: contents {got:?}, a sorted map holds {want:?}");
    ensure!(live.get() == 0, "{} values leaked", live.get());
    Ok(())
}

fn case_extreme(m: &BTreeMap<i64, (Key, u32)>, up: bool) -> Option<(Key, u32)> {
    if up { m.values().next().copied() } else { m.values().next_back().copied() }
}

fn check_drain<T: PartialEq + std::fmt::Debug + Clone>(i: usize, mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator, want: &mut Vec<T>, front: &[bool]) -> Res {
    for (j, f) in front.iter().enumerate() {
        ensure!(it.size_hint() == (want.len(), Some(want.len())), "step {i}, item {j}: size_hint {:?}, {} entries left", it.size_hint(), want.len());
        ensure!(it.len() == want.len(), "step {i}, item {j}: len {}", it.len());
        let got = if *f { it.next() } else { it.next_back() };
        let w = if want.is_empty() {
            None
        } else if *f {
            Some(want.remove(0))
        } else {
            want.pop()
        };
        ensure!(got == w, "step {i}, item {j} from the {}: {:?}, expected {:?}", if *f { "front" } else { "back" }, got, w);
    }
    ensure!(it.size_hint() == (want.len(), Some(want.len())), "step {i}: size_hint {:?} with {} entries left", it.size_hint(), want.len());
    Ok(())
}

pub fn check_set(case: &Case) -> Res {
    let cmp = cmp_of(case.cmp);
    let r = |k: i32| rank(case.cmp, k);
    let mut t = SplaySet::new(cmp);
    let mut m: BTreeMap<i64, Key> = BTreeMap::new();
    for (i, op) in case.ops.iter().enumerate() {
        let key = |k: i32| Key { k, tag: 1000 + i as u32 };
        match op {
            Op::Insert(k) | Op::GetMut(k) | Op::IndexMut(k) => {
                let got = t.insert(key(*k));
                let want = !m.contains_key(&r(*k));
                m.entry(r(*k)).or_insert(key(*k));
                ensure!(got == want, "step {i} set insert {k}: answered {got}");
            }
            Op::Remove(k) => {
                let got = t.remove(&key(*k));
                let want = m.remove(&r(*k)).is_some();
                ensure!(got == want, "step {i} set {op:?}: answered {got}");
            }
            Op::Get(k) | Op::FindKey(k) | Op::Index(k) => {
                let got = t.find(&key(*k)).copied();
                let want = m.get(&r(*k)).copied();
                ensure!(got == want, "step {i} set find {k}: {got:?}, expected {want:?}");
            }
            Op::Contains(k) => ensure!(t.contains(&key(*k)) == m.contains_key(&r(*k)), "step {i} set {op:?}: wrong answer"),
            Op::Next(k) => {
                let got = t.next(&key(*k)).copied();
                let want = m.range((Excluded(r(*k)), Unbounded)).next().map(|e| *e.1);
                ensure!(got == want, "step {i} set {op:?}: {got:?}, expected {want:?}");
            }
            Op::Prev(k) => {
                let got = t.prev(&key(*k)).copied();
                let want = m.range((Unbounded, Excluded(r(*k)))).next_back().map(|e| *e.1);
                ensure!(got == want, "step {i} set {op:?}: {got:?}, expected {want:?}");
            }
            Op::Min | Op::Walk(true) => ensure!(t.min().copied() == m.values().next().copied(), "step {i} set min: {:?}", t.min()),
            Op::Max | Op::Walk(false) => ensure!(t.max().copied() == m.values().next_back().copied(), "step {i} set max: {:?}", t.max()),
            Op::Clear => {
                t.clear();
                m.clear();
            }
            Op::Extend(ks) => {
                t.extend(ks.iter().enumerate().map(|(j, k)| Key { k: *k, tag: 5000 + j as u32 }));
                for (j, k) in ks.iter().enumerate() {
                    m.entry(r(*k)).or_insert(Key { k: *k, tag: 5000 + j as u32 });
                }
            }
            Op::Drain(front) => {
                let old = std::mem::replace(&mut t, SplaySet::new(cmp));
                let mut want: Vec<Key> = std::mem::take(&mut m).into_values().collect();
                check_drain2(i, old.into_iter(), &mut want, front)?;
            }
        }
        ensure!(t.len() == m.len() && t.is_empty() == m.is_empty(), "step {i} set {op:?}: length {} but {} entries", t.len(), m.len());
    }
    let want: Vec<Key> = m.values().copied().collect();
    let got: Vec<Key> = t.into_iter().collect();
    ensure!(got == want, "at the end: set {got:?}, expected {want:?}");
    Ok(())
}

fn check_drain2<T: PartialEq + std::fmt::Debug + Clone>(i: usize, mut it: impl DoubleEndedIterator<Item = T>, want: &mut Vec<T>, front: &[bool]) -> Res {
    for (j, f) in front.iter().enumerate() {
        ensure!(it.size_hint() == (want.len(), Some(want.len())), "step {i}, item {j}: set size_hint {:?}, {} left", it.size_hint(), want.len());
        let got = if *f { it.next() } else { it.next_back() };
        let w = if want.is_empty() {
            None
        } else if *f {
            Some(want.remove(0))
        } else {
            want.pop()
        };
        ensure!(got == w, "step {i}, item {j} from the {}: {:?}, expected {:?}", if *f { "front" } else { "back" }, got, w);
    }
    Ok(())
}

pub fn check_both(case: &Case) -> Res {
    check_map(case)?;
    check_set(case)
}

/// Building, clearing, dropping and draining large collections.
#[derive(Clone, Debug)]
pub struct Deep {
    n: usize,
    order: u8,
    act: u8,
}
pub fn check_deep(d: &Deep) -> Res {
    let live = Rc::new(Cell::new(0i64));
    let mut t = SplayTree::new(|a: &usize, b: &usize| a.cmp(b));
    for i in 0..d.n {
        let k = match d.order {
            0 => i,
            1 => d.n - 1 - i,
            _ => (i.wrapping_mul(7919)) % d.n,
        };
        t.insert(k, Val::new(k as u32, &live));
    }
    ensure!(t.len() == d.n, "{} distinct keys inserted, length {}", d.n, t.len());
    match d.act {
        0 => {
            t.clear();
            ensure!(live.get() == 0 && t.len() == 0, "clear left {} values", live.get());
        }
        1 => drop(t),
        2 => {
            let mut it = t.into_iter();
            ensure!(it.next_back().map(|e| e.0) == Some(d.n - 1), "next_back of a large map");
            ensure!(it.next().map(|e| e.0) == (if d.n > 1 { Some(0) } else { None }), "next of a large map");
            drop(it);
        }
        3 => {
            let mut x = 0;
            for (k, v) in t.into_iter() {
                ensure!(k == x && v.v == x as u32, "iteration at {x} gave {k}");
                x += 1;
            }
            ensure!(x == d.n, "iteration ended after {x} of {}", d.n);
        }
        _ => {
            for (x, (k, _)) in t.into_iter().rev().enumerate() {
                ensure!(k == d.n - 1 - x, "reverse iteration at {x} gave {k}");
            }
        }
    }
    ensure!(live.get() == 0, "{} values not dropped", live.get());
    Ok(())
}

fn shrink(c: &Case) -> Vec<Case> {
    drop_one(&c.ops).into_iter().map(|ops| Case { cmp: c.cmp, ops }).collect()
}

fn rand_op(g: &mut Rng, dom: i64, drains: bool) -> Op {
    let k = g.range(0, dom - 1) as i32;
    match g.below(if drains { 34 } else { 31 }) {
        0..=8 => Op::Insert(k),
        9..=13 => Op::Remove(k),
        14 | 15 => Op::Get(k),
        16 => Op::Contains(k),
        17 => Op::FindKey(k),
        18 => Op::GetMut(k),
        19..=21 => Op::Next(k),
        22..=24 => Op::Prev(k),
        25 => Op::Min,
        26 => Op::Max,
        27 => if g.chance(1, 6) { Op::Clear } else { Op::Walk(g.chance(1, 2)) },
        28 => Op::Extend((0..g.below(6)).map(|_| g.range(0, dom - 1) as i32).collect()),
        29 => Op::Index(k),
        30 => Op::IndexMut(k),
        _ => Op::Drain((0..g.below(dom as u64 + 3)).map(|_| g.chance(1, 2)).collect()),
    }
}

const CMPS: [Cmp; 3] = [Cmp::Natural, Cmp::Reverse, Cmp::Halves];

pub fn run(ctx: &mut Ctx, drains: bool) {
    // exhaustive: build from every insertion order of up to 5 keys (odd keys, so that gaps exist),
    // then every single operation, then the whole contents
    let perms = permutations(5);
    let n_perm = perms.len() as u64;
    ctx.family("insertion orders x operation x key", u64::MAX, 0.35, |n| {
        let (p, rest) = (n % n_perm, n / n_perm);
        let p = &perms[p as usize];
        let (o, k) = (rest % 12, (rest / 12) as i32);
        if k > 11 { return None; }
        let mut ops: Vec<Op> = p.iter().map(|x| Op::Insert(2 * *x as i32 + 1)).collect();
        ops.push(match o {
            0 => Op::Remove(k), 1 => Op::Next(k), 2 => Op::Prev(k), 3 => Op::Get(k), 4 => Op::FindKey(k), 5 => Op::Insert(k), 6 => Op::Index(k),
            7 => Op::GetMut(k), 8 => Op::Walk(k % 2 == 0), 9 => Op::Extend(vec![k, 11 - k]), 10 => if k % 2 == 0 { Op::Min } else { Op::Max },
            _ => Op::Drain((0..7).map(|b| (k as u32 >> (b % 4)) & 1 == 0).collect()),
        });
        if !drains && matches!(ops.last(), Some(Op::Drain(_))) { ops.pop(); ops.push(Op::Clear); }
        ops.push(Op::Remove((k + 5) % 11));
        Some(Case { cmp: CMPS[(n % 3) as usize], ops })
    }, check_both, shrink);
    let mut g = ctx.rng(1);
    ctx.family("random histories, small keys", u64::MAX, 0.5, |n| {
        let len = 1 + g.below(if n % 4 == 0 { 120 } else { 24 });
        let dom = *[3i64, 6, 12, 40].get(g.below(4) as usize).unwrap();
        Some(Case { cmp: CMPS[g.below(3) as usize], ops: (0..len).map(|_| rand_op(&mut g, dom, drains)).collect() })
    }, check_both, shrink);
    let mut g = ctx.rng(2);
    ctx.family("large collections", 60, 0.6, |n| {
        let ns = [1usize, 2, 3, 1000, 150_000, 400_000];
        if n < 30 {
            return Some(Deep { n: ns[(n % 6) as usize], order: if n % 6 >= 4 { (n / 6 % 2) as u8 } else { (n % 3) as u8 }, act: (n / 6) as u8 });
        }
        Some(Deep { n: 1 + g.below(3000) as usize * 2, order: g.below(2) as u8, act: g.below(5) as u8 })
    }, check_deep, |d| if d.n > 1 { vec![Deep { n: d.n / 2, ..d.clone() }, Deep { n: d.n - 1, ..d.clone() }] } else { vec![] });
    let mut g = ctx.rng(3);
    ctx.family("random histories, wide keys", u64::MAX, 1.0, |_| {
        let len = 1 + g.below(400);
        Some(Case { cmp: CMPS[g.below(3) as usize], ops: (0..len).map(|_| rand_op(&mut g, 300, drains)).collect() })
    }, check_both, shrink);
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        let mut next: Vec<Vec<usize>> = vec![];
        for p in &out {
            for x in 0..n {
                if !p.contains(&x) {
                    let mut q = p.clone();
                    q.push(x);
                    next.push(q);
                }
            }
        }
        out = next;
    }
    out
}
