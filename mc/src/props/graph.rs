//! C15-C19: constraint graphs against the minimal network computed by Floyd-Warshall
use super::Fams;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, with_forms};
use chronologic::graph::*;
use chronologic::*;
use std::cmp::Ordering;
use std::sync::Arc;

// ------------------------------------------------------------ model
/// minimal network: u[i*n+j] is the greatest value of t_j - t_i (INF: unbounded)
#[derive(Clone, PartialEq, Debug)]
pub struct Net { pub n: usize, pub u: Vec<i64> }
pub type Con = (u32, u32, Iv);
impl Net {
    pub fn new(n: usize) -> Net { let mut u = vec![INF; n * n]; for i in 0..n { u[i * n + i] = 0 } Net { n, u } }
    pub fn resize(&self, n: usize) -> Net {
        let mut r = Net::new(n);
        for i in 0..n.min(self.n) { for j in 0..n.min(self.n) { r.u[i * n + j] = self.u[i * self.n + j] } }
        r
    }
    pub fn span(&self, i: usize, j: usize) -> Iv {
        if i >= self.n || j >= self.n { (-INF, INF) } else { (-self.u[j * self.n + i], self.u[i * self.n + j]) }
    }
    /// a sum of bounds could leave the range of the durations
    pub fn far(&self) -> bool { self.u.iter().any(|x| fin(*x) && (*x > 1 << 60 || *x < -(1 << 60))) }
    /// shortest paths with exact sums (none: unbounded); None: negative cycle
    pub fn close_wide(&self) -> Option<Vec<Option<i128>>> {
        let n = self.n;
        let mut u: Vec<Option<i128>> = self.u.iter().map(|x| if *x == INF { None } else { Some(*x as i128) }).collect();
        for k in 0..n { for i in 0..n {
            let Some(a) = u[i * n + k] else { continue };
            for j in 0..n {
                let Some(b) = u[k * n + j] else { continue };
                if u[i * n + j].is_none_or(|x| a + b < x) { u[i * n + j] = Some(a + b) }
            }
            if u[i * n + i].unwrap() < 0 { return None }
        } }
        Some(u)
    }
    /// a duration has to be in the range, hence a lower bound beyond it is not satisfiable and an upper
    /// bound beyond it is no bound
    fn close_exact(&self) -> Option<Net> {
        let u = self.close_wide()?;
        if u.iter().flatten().any(|x| *x <= -(INF as i128)) { return None }
        Some(Net { n: self.n, u: u.iter().map(|x| x.map_or(INF, |x| x.min(INF as i128) as i64)).collect() })
    }
    /// shortest paths; None: negative cycle
    pub fn close(mut self) -> Option<Net> {
        if self.far() { return self.close_exact() }
        let n = self.n;
        for k in 0..n { for i in 0..n {
            let a = self.u[i * n + k];
            if a == INF { continue }
            for j in 0..n {
                let b = self.u[k * n + j];
                if b != INF { let s = clip(a as i128 + b as i128); if s < self.u[i * n + j] { self.u[i * n + j] = s } }
            }
        } }
        if (0..n).any(|i| self.u[i * n + i] < 0) { None } else { Some(self) }
    }
    /// the network with one more constraint; None: not satisfiable
    pub fn add(&self, (i, j, (lo, hi)): Con) -> Option<Net> {
        if lo > hi { return None }
        let (i, j) = (i as usize, j as usize);
        let mut r = self.resize(self.n.max(i + 1).max(j + 1));
        let n = r.n;
        r.u[i * n + j] = r.u[i * n + j].min(hi);
        r.u[j * n + i] = r.u[j * n + i].min(-lo);
        r.close()
    }
    /// the same as `add` in quadratic time: the network is already closed, so a path uses the new
    /// constraint at most once in each direction
    pub fn add_fast(&self, (i, j, (lo, hi)): Con) -> Option<Net> {
        if lo > hi { return None }
        let (i, j) = (i as usize, j as usize);
        let mut r = self.resize(self.n.max(i + 1).max(j + 1));
        let n = r.n;
        if r.far() || [hi, lo].iter().any(|x| fin(*x) && (*x > 1 << 60 || *x < -(1 << 60))) { return self.add((i as u32, j as u32, (lo, hi))) }
        for (a, b, w) in [(i, j, hi), (j, i, -lo)] {
            if w == INF || w >= r.u[a * n + b] { continue }
            let back = r.u[b * n + a];
            if back != INF && back as i128 + (w as i128) < 0 { return None }
            let (to_a, from_b): (Vec<i64>, Vec<i64>) = ((0..n).map(|x| r.u[x * n + a]).collect(), (0..n).map(|y| r.u[b * n + y]).collect());
            for x in 0..n { if to_a[x] == INF { continue } for y in 0..n {
                if from_b[y] == INF { continue }
                let s = clip(to_a[x] as i128 + w as i128 + from_b[y] as i128);
                if s < r.u[x * n + y] { r.u[x * n + y] = s }
            } }
        }
        Some(r)
    }
    /// all the constraints at once
    fn of_list(n: usize, v: &[Con]) -> Option<Net> {
        let mut r = v.iter().fold(Net::new(n), |r, c| r.resize(r.n.max(c.0 as usize + 1).max(c.1 as usize + 1)));
        let n = r.n;
        for (i, j, (lo, hi)) in v {
            let (i, j) = (*i as usize, *j as usize);
            r.u[i * n + j] = r.u[i * n + j].min(*hi);
            r.u[j * n + i] = r.u[j * n + i].min(-lo);
        }
        r.close()
    }
    pub fn add_all(&self, v: &[Con]) -> Option<Net> { v.iter().try_fold(self.clone(), |m, c| m.add(*c)) }
    pub fn merge(&self, o: &Net) -> Option<Net> {
        let n = self.n.max(o.n);
        let mut r = self.resize(n);
        for i in 0..o.n { for j in 0..o.n { r.u[i * n + j] = r.u[i * n + j].min(o.u[i * o.n + j]) } }
        r.close()
    }
    pub fn linked(&self, i: usize, j: usize) -> bool { i != j && self.span(i, j) != (-INF, INF) }
    pub fn fitted(&self) -> Net {
        let n = (0..self.n).rev().find(|&i| (0..self.n).any(|j| self.linked(i, j))).map_or(0, |i| i + 1);
        self.resize(n)
    }
    pub fn hash(&self) -> u64 { let mut w = self.u.clone(); w.push(self.n as i64); hash_words(&w) }
    pub fn show(&self) -> String {
        let mut s = format!("{} instants", self.n);
        for i in 0..self.n { for j in i + 1..self.n { if self.linked(i, j) { s += &format!(", t{j}-t{i} in {}", show_iv(self.span(i, j))) } } }
        s
    }
}
pub fn show_con(c: &Con) -> String { format!("({}->{}) in {}", c.0, c.1, if c.2 .0 > c.2 .1 { "{}".into() } else { show_iv(c.2) }) }
pub fn show_cons(v: &[Con]) -> String { format!("[{}]", v.iter().map(show_con).collect::<Vec<_>>().join(", ")) }

// ------------------------------------------------------------ bridges
type K = ((Instant, Instant), TimeSpan);
pub fn con(c: &Con) -> K { ((c.0, c.1), iv_of::<TimeValue>(c.2)) }
pub fn build(size: u32, v: &[Con]) -> TimeGraph {
    let mut g = TimeGraph::with_size(size);
    for c in v { let _ = g.propagate(con(c)); }
    g
}
/// everything one can see of the windows
pub fn obs(g: &TimeGraph) -> Vec<i64> {
    let n = g.size();
    let mut w = vec![n as i64];
    for i in 0..n { for j in 0..n { let s = g.timespan(i, j); w.push(s.lower_bound().tk()); w.push(s.upper_bound().tk()) } }
    w
}
/// the graph must hold exactly the windows of the model
pub fn same_net(what: &str, g: &TimeGraph, m: &Net) -> R {
    ensure!(g.size() as usize == m.n, "{what}: {} instants instead of {}", g.size(), m.n);
    let x = m.n as u32 + 2;
    for i in 0..x { for j in 0..x {
        let (s, w) = (raw_iv(&g.timespan(i, j)), m.span(i as usize, j as usize));
        ensure!(s == w, "{what}: window from {i} to {j} is {} instead of {}", show_iv(s), show_iv(w));
    } }
    Ok(())
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Rep { Unchanged, Propagated, Recovered, Fatal }
fn rep<A: std::fmt::Debug, B: std::fmt::Debug>(r: Result<A, B>) -> Rep {
    match r {
        Ok(a) => match format!("{a:?}").as_str() { "Unchanged" => Rep::Unchanged, "Propagated" => Rep::Propagated, s => panic!("unknown report {s}") },
        Err(e) => match format!("{e:?}").as_str() { "Recovered" => Rep::Recovered, "Fatal" => Rep::Fatal, s => panic!("unknown error {s}") },
    }
}

// ------------------------------------------------------------ reads (C19)
pub fn check_reads(g: &TimeGraph, m: &Net, rec: &mut Rec) -> R {
    let n = m.n as u32;
    // direct queries
    for i in 0..n + 2 { for j in 0..n + 2 {
        let (a, b) = (i as usize, j as usize);
        let w = m.span(a, b);
        rec.tr(4);
        let out = i >= n || j >= n;
        ensure!(raw_iv(&g.timespan(i, j)) == w, "timespan({i},{j}) = {:?}", g.timespan(i, j));
        match g.constraint(i, j) {
            Some(k) => {
                ensure!(w != (-INF, INF), "constraint({i},{j}) = {k:?} although unconstrained");
                ensure!(k.from() == i && k.to() == j && (k.lower_bound().tk(), k.upper_bound().tk()) == w, "constraint({i},{j}) = {k:?}");
                ensure!(raw_iv(&TimeSpan::from(k)) == w, "constraint({i},{j}) as a span");
                let ((x, y), s): K = g.constraint(i, j).unwrap().into();
                ensure!((x, y) == (i, j) && raw_iv(&s) == w, "constraint({i},{j}) as a pair");
            }
            None => ensure!(w == (-INF, INF), "constraint({i},{j}) is none although {}", show_iv(w)),
        }
        let cmp = if out { None } else if w.0 > 0 { Some(Ordering::Less) } else if w.1 < 0 { Some(Ordering::Greater) } else if w == (0, 0) { Some(Ordering::Equal) } else { None };
        ensure!(g.instant_cmp(i, j) == cmp, "instant_cmp({i},{j}) = {:?} for {}", g.instant_cmp(i, j), show_iv(w));
        let dis = !out && (w.0 > 0 || w.1 < 0);
        ensure!(g.are_distinct_instants(i, j) == dis, "are_distinct_instants({i},{j}) = {} for {}", !dis, show_iv(w));
    } }
    // iteration of everything
    let all: Vec<(usize, usize)> = (0..m.n).flat_map(|i| (i + 1..m.n).map(move |j| (i, j))).filter(|&(i, j)| m.linked(i, j)).collect();
    let mut seen = std::collections::HashSet::new();
    walk("iter", g.iter(), all.len(), rec, |k| {
        let (i, j) = (k.from() as usize, k.to() as usize);
        ensure!((k.lower_bound().tk(), k.upper_bound().tk()) == m.span(i, j), "{k:?} instead of {}", show_iv(m.span(i, j)));
        ensure!(i < m.n && j < m.n && m.linked(i, j), "{k:?} although unconstrained");
        let p = (i.min(j), i.max(j));
        ensure!(seen.insert(p), "{k:?} twice");
        Ok(())
    })?;
    // iteration around one instant
    for i in 0..n + 2 {
        let near: Vec<usize> = (0..m.n).filter(|&j| (i as usize) < m.n && m.linked(i as usize, j)).collect();
        for to in [false, true] {
            let mut seen = std::collections::HashSet::new();
            let visit = |k: TimeGraphK<'_>| -> R {
                let (me, other) = if to { (k.1, k.0) } else { (k.0, k.1) };
                ensure!(me == i, "({}->{}) instead of an end on {i}", k.0, k.1);
                ensure!(near.binary_search(&(other as usize)).is_ok(), "({}->{}) although not constrained", k.0, k.1);
                ensure!(k.2 == m.span(k.0 as usize, k.1 as usize), "({}->{}) in {} instead of {}", k.0, k.1, show_iv(k.2), show_iv(m.span(k.0 as usize, k.1 as usize)));
                ensure!(seen.insert(other as usize), "({}->{}) twice", k.0, k.1);
                Ok(())
            };
            let mut visit = visit;
            let f = |k: (u32, u32, Iv)| visit(TimeGraphK(k.0, k.1, k.2, std::marker::PhantomData));
            if to { walk(&format!("constraints_to({i})"), g.constraints_to(i).map(|k| (k.from(), k.to(), (k.lower_bound().tk(), k.upper_bound().tk()))), near.len(), rec, f)? }
            else { walk(&format!("constraints_from({i})"), g.constraints_from(i).map(|k| (k.from(), k.to(), (k.lower_bound().tk(), k.upper_bound().tk()))), near.len(), rec, f)? }
        }
    }
    // skipping, counting and taking the last agree with stepping
    type Raw = (u32, u32, i64, i64);
    fn raw_k<X: TimeConstraint>(k: X) -> Raw { (TimeConstraint::from(&k), TimeConstraint::to(&k), k.lower_bound().tk(), k.upper_bound().tk()) }
    fn skips<X: TimeConstraint, I: Iterator<Item = X>>(what: &str, mk: impl Fn() -> I, rec: &mut Rec) -> R {
        let mut all: Vec<Raw> = vec![];
        let mut it = mk();
        while let Some(k) = it.next() { all.push(raw_k(k)) }
        rec.tr(3);
        ensure!(mk().count() == all.len(), "{what}: count");
        ensure!(mk().last().map(raw_k) == all.last().copied(), "{what}: last");
        ensure!(mk().fold(vec![], |mut v, k| { v.push(raw_k(k)); v }) == all, "{what}: fold");
        let top = all.len() + 2;
        for k in (1..top).step_by(1 + top / 6) {
            let at = || { let mut it = mk(); for _ in 0..k { it.next(); } it };
            let rest = &all[k.min(all.len())..];
            rec.tr(4);
            ensure!(at().count() == rest.len(), "{what} after {k} steps: count is {} instead of {}", at().count(), rest.len());
            ensure!(at().last().map(raw_k) == rest.last().copied(), "{what} after {k} steps: last");
            ensure!(at().fold(vec![], |mut v, k| { v.push(raw_k(k)); v }) == rest, "{what} after {k} steps: fold");
            ensure!(at().step_by(2).map(raw_k).eq(rest.iter().copied().step_by(2)), "{what} after {k} steps: every second one");
        }
        for a in (0..top).step_by(1 + top / 12) { for b in [0, 1, 2, top / 2] {
            let mut it = mk();
            rec.tr(3);
            ensure!(it.nth(a).map(raw_k) == all.get(a).copied(), "{what}: nth({a})");
            let (lo, up) = it.size_hint();
            let left = all.len().saturating_sub(a + 1);
            ensure!(lo <= left && up.is_none_or(|u| u >= left), "{what}: size_hint after nth({a})");
            if a >= all.len() { continue }
            ensure!(it.nth(b).map(raw_k) == all.get(a + 1 + b).copied(), "{what}: nth({b}) after nth({a})");
            ensure!(it.next().map(raw_k) == all.get(a + b + 2).copied(), "{what}: next after nth({a}) and nth({b})");
        } }
        Ok(())
    }
    skips("iter", || g.iter(), rec)?;
    for i in (0..n + 1).filter(|&i| n < 100 || i < 3 || i % 41 == 0 || i > n - 3) { skips(&format!("constraints_from({i})"), || g.constraints_from(i), rec)?; skips(&format!("constraints_to({i})"), || g.constraints_to(i), rec)? }
    // equivalence of constraints
    let mut ks: Vec<Con> = vec![];
    for i in 0..n.min(3) { for j in 0..n.min(4) { if i != j { ks.push((i, j, m.span(i as usize, j as usize))); } } }
    for (i, j, w) in ks.clone() {
        let Some(k) = g.constraint(i, j) else { continue };
        for c in &ks {
            rec.tr(2);
            for w2 in [c.2, (c.2 .0, INF), (-INF, c.2 .1)] {
                let want = (c.0 == i && c.1 == j && w2 == w) || (c.0 == j && c.1 == i && (-w2.1, -w2.0) == w);
                let t = con(&(c.0, c.1, w2));
                ensure!(k.equiv(&t) == want && t.equiv(&k) == want, "{k:?} equivalent to {}: {}", show_con(&(c.0, c.1, w2)), !want);
            }
            if let Some(k2) = g.constraint(c.0, c.1) {
                let want = (c.0 == i && c.1 == j) || (c.0 == j && c.1 == i);
                ensure!(k.equiv(&k2) == want, "{k:?} equivalent to {k2:?}: {}", !want);
            }
        }
    }
    // rebuilt from its constraints
    rec.tr(3);
    let h: TimeGraph = g.iter().collect();
    same_net("graph collected from iter()", &h.resized(n), m)?;
    let h: TimeGraph = g.iter().map(|k| -> K { k.into() }).collect::<Vec<_>>().into_iter().rev().collect();
    same_net("graph collected from reversed constraints", &h.resized(n), m)?;
    if n < 100 || all.len() < 400 {
        let mut h = TimeGraph::default();
        for k in g.iter() { let r = h.propagate(k); ensure!(matches!(rep(r), Rep::Propagated | Rep::Unchanged), "a constraint of the graph is refused by its copy") }
        same_net("graph rebuilt one by one", &h.resized(n), m)?;
    }
    // printed forms are functions of the windows
    let mut h = TimeGraph::with_size(n);
    if n < 100 { for &(i, j) in all.iter().rev() { let _ = h.propagate(con(&(j as u32, i as u32, m.span(j, i)))); } }
    else { let _ = h.extend(all.iter().rev().map(|&(i, j)| con(&(j as u32, i as u32, m.span(j, i)))).collect::<Vec<_>>()); }
    ensure!(g.to_string() == h.to_string(), "prints as '{g}' but the same graph built otherwise as '{h}'");
    ensure!(format!("{g:?}") == format!("{h:?}"), "debug prints as '{g:?}' but the same graph built otherwise as '{h:?}'");
    let text = g.to_string();
    ensure!(text.contains(&format!("{n} instants")) && text.contains(&format!("{} constraints", all.len())), "printed counts in '{text}'");
    let mut lines = 0;
    let printed: std::collections::HashSet<&str> = text.lines().map(|l| l.trim()).collect();
    for k in g.iter() { lines += 1; ensure!(printed.contains(k.to_string().as_str()), "'{k}' is not printed in '{text}'"); let w = TimeInterval::from(g.constraint(k.from(), k.to()).unwrap()); ensure!(k.to_string().ends_with(&format!(" in {w}")), "constraint prints as '{k}'") }
    ensure!(text.lines().count() == lines + 2, "printed lines in '{text}'");
    // a printed constraint tells which instant is subtracted from the other
    for i in 0..n.min(4) { for j in 0..n.min(5) {
        let Some(k) = g.constraint(i, j) else { continue };
        rec.tr(2);
        let w = TimeInterval::from(g.constraint(i, j).unwrap());
        ensure!(k.to_string() == format!("t{j} - t{i} in {w}"), "constraint ({i}->{j}) in {w} prints as '{k}'");
        ensure!(format!("{k:?}") == format!("({i}->{j})={w:?}"), "constraint ({i}->{j}) in {w} debug prints as '{k:?}'");
    } }
    Ok(())
}
struct TimeGraphK<'a>(u32, u32, Iv, std::marker::PhantomData<&'a ()>);
trait Resized { fn resized(&self, n: u32) -> TimeGraph; }
impl Resized for TimeGraph { fn resized(&self, n: u32) -> TimeGraph { let mut g = self.clone(); if g.size() < n { g.resize(n) } g } }
/// walks an iterator to its end, checking the announced bounds at every step
fn walk<X>(what: &str, mut it: impl Iterator<Item = X>, count: usize, rec: &mut Rec, mut f: impl FnMut(X) -> R) -> R {
    let mut left = count as i64;
    for step in 0.. {
        rec.tr(1);
        let (lo, up) = it.size_hint();
        ensure!(left < 0 || (lo as i64 <= left && up.is_none_or(|u| u as i64 >= left)), "{what}: size_hint {:?} with {left} left", (lo, up));
        match it.next() {
            Some(x) => { f(x).map_err(|m| format!("{what}: {m}"))?; left -= 1 }
            None => { ensure!(left == 0, "{what}: stops with {left} constraints missing"); break }
        }
        ensure!(step < 10_000 || left >= 0, "{what}: does not stop");
    }
    for _ in 0..3 { ensure!(it.next().is_none(), "{what}: restarts after its end"); let (lo, _) = it.size_hint(); ensure!(lo == 0, "{what}: size_hint {lo} after its end") }
    Ok(())
}

// ------------------------------------------------------------ machine
#[derive(Clone)]
enum Op {
    Add(Con),
    /// batch, kind of iterator
    Extend(Vec<Con>, usize),
    /// merge with a graph built so; true: self is merged into it instead
    Merge(u32, Vec<Con>, bool),
    Resize(u32), Fit, ShrinkTo(u32), Reset, Clone,
}
const KINDS: [&str; 13] = ["exact", "filtered", "unknown length", "as graph constraints", "std Extend", "rebuilt by collect",
    "announced as at least one", "announced as one or more", "announced as that many or more", "announced as one more at most",
    "announced as any number", "in two chained parts", "one by one in nested parts"];
/// an iterator with loose but true announcements
struct Hinted { it: std::vec::IntoIter<K>, lo: usize, up: Option<usize> }
impl Iterator for Hinted {
    type Item = K;
    fn next(&mut self) -> Option<K> { self.it.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.it.len(); (self.lo.min(n), self.up.map(|u| n.saturating_add(u))) }
}
impl Op {
    fn show(&self) -> String {
        match self {
            Op::Add(c) => format!("add {}", show_con(c)),
            Op::Extend(v, k) => format!("extend {} ({})", show_cons(v), KINDS[*k]),
            Op::Merge(n, v, false) => format!("merge graph of {n}+ instants {}", show_cons(v)),
            Op::Merge(n, v, true) => format!("merged into graph of {n}+ instants {}", show_cons(v)),
            Op::Resize(n) => format!("resize {n}"),
            Op::Fit => "shrink_to_fit".into(),
            Op::ShrinkTo(n) => format!("shrink_to {n}"),
            Op::Reset => "reset".into(),
            Op::Clone => "clone".into(),
        }
    }
    fn tag(&self) -> i64 { match self { Op::Add(_) => 0, Op::Extend(..) => 1, Op::Merge(..) => 2, Op::Resize(_) => 3, Op::Fit => 4, Op::ShrinkTo(_) => 5, Op::Reset => 6, Op::Clone => 7 } }
}
#[derive(Clone, Copy, PartialEq)]
enum Focus { Windows, Reports, Batch, Shape, Reads }
#[derive(Clone)]
struct St { g: TimeGraph, m: Net, /// traces of the past that the windows do not show
    hid: [i64; 3] }
struct GM { ops: Vec<Op>, sizes: Vec<u32>, focus: Focus, limit: u32 }

fn extend_kind(g: &mut TimeGraph, v: &[Con], kind: usize) -> Rep {
    let ks: Vec<K> = v.iter().map(con).collect();
    match kind {
        0 => rep(g.extend(ks)),
        1 => rep(g.extend(ks.into_iter().filter(|_| true))),
        2 => { let mut it = ks.into_iter(); rep(g.extend(std::iter::from_fn(move || it.next()))) }
        3 => { // through the constraints of another graph when they make one
            let mut h = TimeGraph::default();
            for k in &ks { if h.propagate(*k).is_err() { return rep(g.extend(ks)) } }
            let big = h.size();
            let r = rep(g.extend(h.iter()));
            if matches!(r, Rep::Unchanged | Rep::Propagated) && g.size() < big { g.resize(big); return Rep::Propagated }
            r
        }
        6 => rep(g.extend(Hinted { it: ks.into_iter(), lo: 1, up: None })),
        7 => rep(g.extend(Hinted { it: ks.into_iter(), lo: 1, up: Some(0) })),
        8 => rep(g.extend(Hinted { it: ks.into_iter(), lo: usize::MAX, up: None })),
        9 => rep(g.extend(Hinted { it: ks.into_iter(), lo: 0, up: Some(1) })),
        10 => rep(g.extend(Hinted { it: ks.into_iter(), lo: 0, up: Some(usize::MAX) })),
        11 => { let h = ks.len() / 2; rep(g.extend(ks[..h].iter().copied().chain(ks[h..].iter().copied()))) }
        12 => rep(g.extend(ks.iter().flat_map(|k| [*k]))),
        _ => unreachable!(),
    }
}
impl GM {
    fn step_add(&self, s: &St, c: &Con, rec: &mut Rec) -> R<Option<St>> {
        let want = s.m.add(*c);
        let before = obs(&s.g);
        let mut out: Option<TimeGraph> = None;
        with_forms!(TimeValue, c.2, |w, what| {
            rec.tr(1);
            let mut g = s.g.clone();
            let r = rep(g.propagate(((c.0, c.1), w)));
            let after = obs(&g);
            match self.focus {
                Focus::Windows => match r {
                    Rep::Unchanged | Rep::Propagated => match &want {
                        Some(m) => same_net(what, &g, m)?,
                        None => return Err(format!("{what}: accepted although inconsistent")),
                    },
                    Rep::Recovered => same_net(what, &g, &s.m)?,
                    Rep::Fatal => {}
                },
                Focus::Reports => {
                    let ok = matches!(r, Rep::Unchanged | Rep::Propagated);
                    ensure!(ok == want.is_some(), "{what}: {r:?} although {}", if want.is_some() { "satisfiable" } else { "inconsistent" });
                    match r {
                        Rep::Unchanged => ensure!(before == after, "{what}: reports Unchanged but the graph changed"),
                        Rep::Propagated => ensure!(before != after, "{what}: reports Propagated but nothing changed"),
                        Rep::Recovered => ensure!(before == after, "{what}: refused but the graph changed"),
                        Rep::Fatal => ensure!(g.size() == 0, "{what}: fatal but not emptied"),
                    }
                }
                _ => {}
            }
            if let Some(o) = &out { ensure!(obs(o) == after, "{what} and the other forms of the same window give different graphs") }
            if out.is_none() { out = Some(g) }
        });
        let g = out.unwrap();
        let m = if g.size() == 0 && s.m.n > 0 { Net::new(0) } else { want.unwrap_or_else(|| s.m.clone()) };
        Ok(Some(St { g, m, hid: s.hid }))
    }
    fn settle(&self, s: &St, g: TimeGraph, r: Rep, want: Option<Net>, before: &[i64]) -> R<St> {
        let ok = matches!(r, Rep::Unchanged | Rep::Propagated);
        let strict = matches!(self.focus, Focus::Batch | Focus::Reports);
        if strict { ensure!(ok == want.is_some(), "{r:?} although {}", if want.is_some() { "satisfiable" } else { "inconsistent" }); }
        let m = match (r, want) {
            (Rep::Recovered, _) => { ensure!(!strict || obs(&g) == before, "refused but the graph changed"); s.m.clone() }
            (Rep::Fatal, _) => { ensure!(!strict || g.size() == 0, "fatal error but the graph is not emptied"); Net::new(0) }
            (_, Some(m)) => { same_net("result", &g, &m)?; m }
            (_, None) => return Err("accepted although inconsistent".into()),
        };
        if strict && ok { let same = obs(&g) == before; ensure!(same == (r == Rep::Unchanged), "reports {r:?} but the graph {}", if same { "did not change" } else { "changed" }) }
        Ok(St { g, m, hid: s.hid })
    }
}
impl Machine for GM {
    type S = St;
    fn inits(&self) -> usize { self.sizes.len() }
    fn init(&self, i: usize) -> St {
        let n = self.sizes[i];
        St { g: if n == 0 { TimeGraph::default() } else { TimeGraph::with_size(n) }, m: Net::new(n as usize), hid: [n as i64, -1, 0] }
    }
    fn init_name(&self, i: usize) -> String { format!("{} instants", self.sizes[i]) }
    fn ops(&self) -> usize { self.ops.len() }
    fn op_name(&self, op: usize) -> String { self.ops[op].show() }
    fn step(&self, s: &St, op: usize, rec: &mut Rec) -> R<Option<St>> {
        let o = &self.ops[op];
        let before = obs(&s.g);
        let x = match o {
            Op::Add(c) => self.step_add(s, c, rec)?,
            Op::Extend(v, kind) => {
                rec.tr(1);
                let want = s.m.add_all(v);
                if *kind == 4 || *kind == 5 {
                    // the forms that panic on failure
                    let mut g = s.g.clone();
                    let ks: Vec<K> = v.iter().map(con).collect();
                    let p = if *kind == 4 { panics(|| Extend::extend(&mut g, ks)) }
                        else { let all: Vec<K> = s.g.iter().map(|k| k.into()).chain(ks).collect(); panics(|| { let h: TimeGraph = all.into_iter().collect(); g = h; }) };
                    match &want {
                        Some(m) => { ensure!(!p, "panics although satisfiable"); let size = g.size().max(s.m.n as u32); if *kind == 5 { g.resize(size) } same_net("result", &g, m)? }
                        None => ensure!(p, "does not panic although inconsistent"),
                    }
                    return Ok(None);
                }
                let mut g = s.g.clone();
                let r = extend_kind(&mut g, v, *kind);
                Some(self.settle(s, g, r, want, &before)?)
            }
            Op::Merge(n, v, into) => {
                rec.tr(1);
                let other = build(*n, v);
                let om = Net::new(*n as usize).add_all(v).expect("merge operands are consistent");
                same_net("operand", &other, &om)?;
                let want = s.m.merge(&om);
                if *into {
                    let base = St { g: other.clone(), m: om, hid: s.hid };
                    let b2 = obs(&other);
                    let mut g = other;
                    let r = rep(g.merge(s.g.clone()));
                    Some(self.settle(&base, g, r, want, &b2)?)
                } else {
                    let mut g = s.g.clone();
                    let r = rep(g.merge(other));
                    Some(self.settle(s, g, r, want, &before)?)
                }
            }
            Op::Resize(n) => { rec.tr(1); let mut g = s.g.clone(); g.resize(*n); Some(St { g, m: s.m.resize(*n as usize), hid: s.hid }) }
            Op::Fit => { rec.tr(1); let mut g = s.g.clone(); g.shrink_to_fit(); Some(St { g, m: s.m.fitted(), hid: s.hid }) }
            Op::ShrinkTo(n) => { rec.tr(1); let mut g = s.g.clone(); g.shrink_to(*n); Some(St { g, m: s.m.clone(), hid: s.hid }) }
            Op::Reset => { rec.tr(1); let mut g = s.g.clone(); g.reset(); Some(St { g, m: Net::new(s.m.n), hid: s.hid }) }
            Op::Clone => {
                rec.tr(2);
                // whatever happens to one of them, the other keeps its windows
                for k in 0..6 {
                    let (mut a, mut b) = (s.g.clone(), s.g.clone());
                    b.clone_from(&a);
                    match k {
                        0 => { let _ = a.propagate(con(&(0, 1, (1, 1)))); }
                        1 => { let _ = a.propagate(con(&(1, 0, (7, 9)))); }
                        2 => a.reset(),
                        3 => a.resize(0),
                        4 => { let _ = a.extend(vec![con(&(0, 1, (1, 1))), con(&(1, 0, (1, 1)))]); }
                        _ => { a.resize(6); let _ = a.propagate(con(&(5, 0, (2, 2)))); }
                    }
                    ensure!(obs(&b) == before && obs(&s.g) == before, "a clone and its origin are not independent");
                }
                // cloned into a graph which has its own instants and constraints
                for n in [0, 1, 2, 3, 5, 7] {
                    let mut o = TimeGraph::with_size(n);
                    for j in 1..n { let _ = o.propagate(con(&(0, j, (j as i64, 9)))); }
                    o.clone_from(&s.g);
                    ensure!(obs(&o) == before, "cloned into a graph of {n} instants, {o} instead of {}", s.g);
                    o.resize(8);
                    ensure!(obs(&o) == { let mut g = s.g.clone(); g.resize(8); obs(&g) }, "cloned into a graph of {n} instants then resized, {o}");
                }
                Some(St { g: s.g.clone(), m: s.m.clone(), hid: s.hid })
            }
        };
        let Some(mut x) = x else { return Ok(None) };
        if x.g.size() > self.limit { return Ok(None) }
        x.hid[0] = x.hid[0].max(x.m.n as i64);
        if o.tag() != 0 { x.hid[1] = o.tag(); x.hid[2] = s.m.n as i64; }
        if x.m.n == 0 && x.hid[1] == 6 { x.hid[1] = -1 }
        match self.focus {
            Focus::Shape => same_net("graph", &x.g, &x.m)?,
            Focus::Reads => { same_net("graph", &x.g, &x.m)?; check_reads(&x.g, &x.m, rec)? }
            _ => {}
        }
        rec.st(x.m.hash());
        Ok(Some(x))
    }
    fn key(&self, s: &St) -> Vec<i64> { let mut k = obs(&s.g); k.extend(&s.m.u); k.extend(s.hid); k }
}

// ------------------------------------------------------------ operation sets
fn windows(small: bool) -> Vec<Iv> {
    if small { vec![(0, 0), (1, 3), (-1, 1), (2, INF), (-INF, 1), (-INF, INF)] }
    else { vec![(-INF, INF), (0, 0), (1, 1), (0, 2), (1, 3), (-1, 1), (2, INF), (-INF, 1), (-2, -1), (0, INF), EMPTY, (-3, 2)] }
}
/// windows whose bounds are of different magnitudes
fn mixed_windows() -> Vec<Iv> {
    let (y, c) = (31_556_952 * S1, 3_155_695_200 * S1);
    vec![(1, 3), (-y, 2), (0, c), (c + 1, INF), (-INF, -y - 1), (-1, (1 << 53) + 1), (-c - 7, y + 1), (y, y), (c - 1, c + 1), (-INF, 5), ((1 << 53) - 1, c), (-3, c + 2)]
}
/// additions which make instants known, the gaps between them and the instants themselves included
fn news(f: Focus, th: bool) -> Box<dyn Family> {
    let mut ops = vec![];
    for i in [0u32, 1, 3, 4, 6] { for j in [0u32, 2, 3, 4, 6] { for w in [(0, 0), (-1, 1), (0, INF), (-INF, 0), (2, INF), (-INF, -1), (1, 4), (-INF, INF), EMPTY] { ops.push(Op::Add((i, j, w))) } } }
    for w in [(0, 0), (-2, 0), (0, 3), (-INF, INF), (1, 1)] { ops.push(Op::Add((2, 2, w))); ops.push(Op::Add((1, 1, w))) }
    bfs("histories of additions which make instants known", "9 windows on all pairs of chosen instants, themselves included", gm(ops, &[0, 1, 2, 3, 4, 5, 6, 7], f, 9), 2 + th as usize, true)
}
fn scale_w(w: Iv, k: i64) -> Iv { let f = |x: i64| if fin(x) { clip(x as i128 * k as i128) } else { x }; (f(w.0), f(w.1)) }
/// windows of durations which, once added, leave the range
fn far_windows(all: bool) -> Vec<Iv> {
    let (m, h, q) = (TMAX - 1, TMAX / 2 + 1, TMAX / 4 + 1);
    let mut v = vec![(-INF, h), (h, INF), (-h, INF), (-INF, -h), (1, h - 1), (-q, m)];
    if all { v.extend([(m, m), (-m, m), (-m, -h), (q, q), (-INF, -1), (0, 0), (3 * (q / 2), INF), (-INF, INF), (m, INF), (-INF, -m), (2, 3), (-q, -9)]) }
    v
}
fn adds(n: u32, ws: &[Iv], scale: i64, selfs: bool) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..n { for j in 0..n { if i != j || selfs { for w in ws { v.push(Op::Add((i, j, scale_w(*w, scale)))) } } } }
    v
}
fn lists() -> Vec<Vec<Con>> {
    let c = |i, j, a, b| -> Con { (i, j, (a, b)) };
    vec![
        vec![], vec![c(0, 1, 1, 2)], vec![c(1, 0, 1, 2)], vec![c(0, 0, 0, 1)], vec![c(0, 0, 1, 1)], vec![(0, 1, EMPTY)], vec![c(2, 1, -1, INF)], vec![c(3, 3, -1, 1)], vec![c(0, 2, -INF, INF)],
        vec![c(0, 1, 1, 2), c(1, 2, 1, 2)], vec![c(0, 1, 1, 2), c(0, 1, 2, 5)], vec![c(0, 1, 1, 2), c(1, 0, 1, 2)], vec![c(0, 1, 1, 2), c(1, 0, -2, -1)], vec![c(0, 2, 0, 4), c(1, 1, 0, 0)],
        vec![c(0, 1, 1, 2), (1, 2, EMPTY)], vec![c(2, 0, 1, INF), c(0, 1, 0, INF)], vec![(1, 1, EMPTY), c(0, 1, 0, 0)], vec![c(0, 1, -INF, INF), c(0, 1, -INF, INF)],
        vec![c(0, 1, 1, 2), c(1, 2, 1, 2), c(0, 2, 4, 4)], vec![c(0, 1, 1, 2), c(1, 2, 1, 2), c(0, 2, 5, 5)], vec![c(0, 1, 0, INF), c(1, 2, 0, INF), c(2, 0, 0, INF)], vec![c(0, 1, 1, INF), c(1, 2, 0, INF), c(2, 0, 0, INF)],
        vec![c(3, 0, 1, 2), c(0, 1, 1, 1), c(1, 3, -4, 4)], vec![c(2, 1, 0, 1), c(2, 2, 1, 2), c(0, 1, 0, 1)], vec![c(1, 2, -1, 1), c(1, 2, 0, 3), c(2, 1, -2, 0)],
    ]
}
fn batch_ops(kinds: &[usize]) -> Vec<Op> {
    let mut v = vec![];
    for k in kinds { for l in lists() { v.push(Op::Extend(l, *k)) } }
    v
}
fn merge_ops() -> Vec<Op> {
    let mut v = vec![];
    for into in [false, true] {
        for n in [0, 1, 2, 4] { v.push(Op::Merge(n, vec![], into)) }
        for l in lists() { if Net::new(0).add_all(&l).is_some() { v.push(Op::Merge(0, l.clone(), into)); } }
        v.push(Op::Merge(4, lists()[9].clone(), into));
    }
    v
}
/// scale at which the structured lists leave the range of the durations
const FARS: i64 = (7 << 57) + 3;
/// batches and merges of constraints which, once added, leave the range
fn far_batches() -> Vec<Op> {
    let ws = far_windows(true);
    let mut v = vec![];
    for (x, a) in ws.iter().enumerate() { for (y, b) in ws.iter().enumerate() {
        let l = vec![(0, 1, *a), (1, 2, *b)];
        v.push(Op::Extend(l.clone(), 0));
        if (x + y) % 3 == 0 { v.push(Op::Extend(vec![(2, 1, *a), (1, 0, *b), (0, 2, (-INF, 0))], 2)); v.push(Op::Extend(vec![(1, 1, *a), (0, 1, *b)], 0)); }
        if Net::new(0).add_all(&l).is_some() && (x + y) % 2 == 0 { v.push(Op::Merge(0, l, x % 2 == 0)) }
    } }
    v
}
fn shape_ops(ns: &[u32]) -> Vec<Op> {
    let mut v: Vec<Op> = ns.iter().map(|n| Op::Resize(*n)).collect();
    v.extend([Op::Fit, Op::ShrinkTo(0), Op::ShrinkTo(2), Op::ShrinkTo(6), Op::Reset, Op::Clone]);
    v
}

// ------------------------------------------------------------ idx families
/// exhaustive search of assignments on three instants
fn brute(th: bool) -> Box<dyn Family> {
    let ws: Vec<Iv> = { let mut v = vec![(-INF, INF)]; let r = if th { 3 } else { 2 }; for a in -r..=r { v.push((a, INF)); v.push((-INF, a)); for b in a..=r { v.push((a, b)) } } v };
    let ws = Arc::new(ws);
    let k = ws.len() as u64;
    let w2 = ws.clone();
    let cons = move |ws: &[Iv], i: u64| -> Vec<Con> { vec![(0, 1, ws[(i / k / k) as usize]), (1, 2, ws[(i / k % k) as usize]), (0, 2, ws[(i % k) as usize])] };
    idx("every assignment of three instants", format!("all {k}^3 triples of windows; solutions searched by enumeration of dates in -14..=14"), k * k * k,
        move |i, rec| {
            let cs = cons(&ws, i);
            let mut proj: Vec<Option<(i64, i64)>> = vec![None; 3];
            const B: i64 = 14;
            for a in -B..=B { for b in -B..=B {
                let t = [0, a, b];
                if cs.iter().all(|c| { let d = t[c.1 as usize] - t[c.0 as usize]; (c.2 .0 == -INF || c.2 .0 <= d) && (c.2 .1 == INF || d <= c.2 .1) }) {
                    for (p, d) in proj.iter_mut().zip([a, b - a, b]) { *p = Some(p.map_or((d, d), |(x, y)| (x.min(d), y.max(d)))) }
                }
            } }
            let mut g = TimeGraph::default();
            let acc = cs.iter().all(|c| g.propagate(con(c)).is_ok());
            rec.tr(4);
            ensure!(acc == proj[0].is_some(), "{} but solutions {}", if acc { "accepted" } else { "refused" }, if acc { "do not exist" } else { "exist" });
            if !acc { return Ok(()) }
            // beyond 7 only unbounded windows reach (three windows of at most 3)
            for (p, (x, y)) in proj.iter().zip([(0, 1), (1, 2), (0, 2)]) {
                let (lo, hi) = p.unwrap();
                let w = (if lo <= -7 { -INF } else { lo }, if hi >= 7 { INF } else { hi });
                let s = raw_iv(&g.timespan(x, y));
                ensure!(s == w, "window from {x} to {y} is {} but solutions give {}", show_iv(s), show_iv(w));
                ensure!(raw_iv(&g.timespan(y, x)) == (-w.1, -w.0), "window from {y} to {x} is not the opposite");
            }
            rec.st(hash_words(&obs(&g)));
            Ok(())
        },
        move |i| show_cons(&cons(&w2, i)))
}
fn shapes() -> Vec<(&'static str, Vec<Con>)> {
    let c = |i, j, a, b| -> Con { (i, j, (a, b)) };
    vec![
        ("chain of 6", vec![c(0, 1, 1, 3), c(1, 2, 0, 2), c(2, 3, 2, INF), c(3, 4, -1, 4), c(4, 5, 1, 1), c(0, 5, -INF, 9)]),
        ("chain of 6, inconsistent", vec![c(0, 1, 1, 3), c(1, 2, 0, 2), c(2, 3, 2, 5), c(3, 4, 1, 4), c(4, 5, 1, 1), c(0, 5, 0, 4)]),
        ("star", vec![c(3, 0, 1, 3), c(3, 1, 2, 4), c(3, 2, -INF, 0), c(3, 4, 0, 0), c(0, 2, -5, 5), c(1, 4, -3, INF)]),
        ("cycle", vec![c(0, 1, 1, 2), c(1, 2, 1, 2), c(2, 3, 1, 2), c(3, 4, 1, 2), c(4, 0, -6, -5), c(1, 3, 0, 3)]),
        ("complete on 4", vec![c(0, 1, 0, 4), c(0, 2, 1, 5), c(0, 3, 2, 6), c(1, 2, 0, 3), c(1, 3, 1, 4), c(2, 3, -1, 1)]),
        ("complete on 4, tight", vec![c(0, 1, 1, 1), c(0, 2, 2, 3), c(0, 3, 0, INF), c(1, 2, 2, 2), c(1, 3, 3, 6), c(2, 3, 1, 2)]),
        ("two parts and a bridge", vec![c(0, 1, 1, 2), c(1, 2, 1, 2), c(3, 4, 2, 3), c(4, 5, 2, 3), c(2, 3, 0, 7), c(0, 5, 8, 11)]),
        ("equalities", vec![c(0, 1, 0, 0), c(1, 2, 0, 0), c(3, 2, 0, 0), c(3, 4, 0, 0), c(4, 5, 0, 0), c(5, 0, -1, 1)]),
        ("last instants first", vec![c(7, 6, 1, 2), c(6, 5, 1, 2), c(5, 1, 1, INF), c(1, 0, 1, 2), c(7, 0, 5, 20), c(0, 6, -9, -3)]),
    ]
}
fn permutation(n: usize, mut k: u64) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    for r in (1..=n as u64).rev() { v.push(pool.remove((k % r) as usize)); k /= r }
    v
}
/// every insertion order and every orientation of structured lists of six constraints
fn orders(scale: i64, batch: bool, reads: bool) -> Box<dyn Family> {
    let sh = Arc::new(shapes());
    let s2 = sh.clone();
    let per = 720 * 64;
    let list = move |sh: &[(&str, Vec<Con>)], i: u64| -> Vec<Con> {
        let base = &sh[(i / per) as usize].1;
        let (p, mask) = (permutation(6, i % per / 64), i % 64);
        p.iter().enumerate().map(|(x, k)| { let (a, b, w) = base[*k]; let w = scale_w(w, scale); if mask >> x & 1 == 1 { (b, a, (-w.1, -w.0)) } else { (a, b, w) } }).collect()
    };
    idx(format!("{} of six constraints, scale {scale}", if batch { "batches" } else if reads { "readings of graphs" } else { "all orders" }), "9 shapes of six constraints on 4 to 8 instants, all 720 orders, all 64 choices of orientation", sh.len() as u64 * per,
        move |i, rec| {
            let l = list(&sh, i);
            if reads && (i % 64) % 9 != 0 { return Ok(()) }
            if batch {
                let want = Net::new(0).add_all(&l);
                for kind in [0, 2] {
                    let mut g = TimeGraph::default();
                    let r = extend_kind(&mut g, &l, kind);
                    rec.tr(1);
                    ensure!(matches!(r, Rep::Propagated) == want.is_some(), "{} gives {r:?}", KINDS[kind]);
                    match &want { Some(m) => { rec.st(m.hash()); same_net(KINDS[kind], &g, m)? } None => ensure!(g.size() == 0, "not emptied") }
                }
                return Ok(());
            }
            for start in [0u32, 8] {
                let mut g = if start == 0 { TimeGraph::default() } else { TimeGraph::with_size(start) };
                let mut m = Net::new(start as usize);
                let mut accepted: Vec<Con> = vec![];
                for (k, c) in l.iter().enumerate() {
                    rec.tr(1);
                    let r = rep(g.propagate(con(c)));
                    let want = m.add(*c);
                    ensure!(matches!(r, Rep::Unchanged | Rep::Propagated) == want.is_some(), "constraint {k}: {r:?}");
                    if let Some(w) = want { m = w; accepted.push(*c) }
                    rec.st(m.hash());
                    same_net(&format!("after {} constraints", k + 1), &g, &m)?;
                }
                if scale == FARS { let all = Net::of_list(start as usize, &accepted); ensure!(all.as_ref() == Some(&m), "the accepted constraints {} give another network: {} instead of {}", show_cons(&accepted), all.map_or("none".into(), |a| a.show()), m.show()) }
                if reads { check_reads(&g, &m, rec)?; }
            }
            Ok(())
        },
        move |i| format!("{}: {}", s2[(i / per) as usize].0, show_cons(&list(&s2, i))))
}
/// larger graphs: chains with chords, inserted in structured orders
fn large(reads: bool, batch: bool, th: bool) -> Box<dyn Family> {
    let nmax = if th { 24 } else { 14 };
    let mut cases: Vec<(usize, usize, usize, i64)> = vec![];
    for n in 5..=nmax { for stride in [1usize, 2, 3, 5, 7] { for rot in 0..n { for sc in [1, 3600 * S1] { cases.push((n, stride, rot, sc)) } } } }
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    let list = |(n, stride, rot, sc): (usize, usize, usize, i64)| -> Vec<Con> {
        let mut v: Vec<Con> = vec![];
        for i in 0..n - 1 { v.push((i as u32, i as u32 + 1, scale_w([(1, 3), (0, 2), (2, 2), (1, INF), (-1, 1)][(i + stride) % 5], sc))) }
        for i in (0..n - 3).step_by(2) { v.push((i as u32 + 3, i as u32, scale_w([(-9, 0), (-INF, -1), (-7, -2)][(i + rot) % 3], sc))) }
        v.push((0, n as u32 - 1, scale_w((-INF, 2 * n as i64), sc)));
        v.push((n as u32 / 2, 0, scale_w((-(n as i64) - 2, 1), sc)));
        let len = v.len();
        let step = (stride..).find(|s| { let (mut a, mut b) = (*s, len); while b > 0 { (a, b) = (b, a % b) } a == 1 }).unwrap();
        (0..len).map(|k| v[(rot + k * step) % len]).collect()
    };
    idx(if reads { "readings of larger graphs" } else if batch { "batches on larger graphs" } else { "larger graphs" }, format!("graphs of 5 to {nmax} instants: chains with chords, 5 strides, all rotations, 2 scales"), cases.len() as u64,
        move |i, rec| {
            let l = list(cases[i as usize]);
            let mut g = TimeGraph::default();
            let mut m = Net::new(0);
            if batch {
                let want = m.add_all(&l);
                let r = extend_kind(&mut g, &l, 1);
                rec.tr(1);
                ensure!(matches!(r, Rep::Propagated) == want.is_some(), "{r:?}");
                if let Some(m) = want { rec.st(m.hash()); same_net("batch", &g, &m)?; }
                // two halves merged
                let (a, b) = l.split_at(l.len() / 2);
                if let (Some(ma), Some(mb)) = (Net::new(0).add_all(a), Net::new(0).add_all(b)) {
                    let mut x = build(0, a);
                    let r = rep(x.merge(build(0, b)));
                    rec.tr(1);
                    match ma.merge(&mb) { Some(w) => { ensure!(matches!(r, Rep::Propagated | Rep::Unchanged), "merge: {r:?}"); same_net("merge", &x, &w)? } None => ensure!(matches!(r, Rep::Fatal | Rep::Recovered), "merge: {r:?}") }
                }
                return Ok(());
            }
            for (k, c) in l.iter().enumerate() {
                rec.tr(1);
                let r = rep(g.propagate(con(c)));
                let want = m.add(*c);
                ensure!(matches!(r, Rep::Unchanged | Rep::Propagated) == want.is_some(), "constraint {k}: {r:?}");
                if let Some(w) = want { m = w }
                rec.st(m.hash());
                same_net(&format!("after {} constraints", k + 1), &g, &m)?;
            }
            if reads { check_reads(&g, &m, rec)?; }
            Ok(())
        },
        move |i| { let c = c2[i as usize]; format!("n={} {}", c.0, show_cons(&list(c))) })
}
/// graphs of many instants: sizes where an implementation could switch strategy
fn huge(focus: Focus, th: bool) -> Box<dyn Family> {
    let sizes: &[usize] = if th { &[17, 31, 32, 33, 40, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 256, 257, 258] } else { &[17, 32, 33, 40, 64, 65, 66, 130] };
    let mut cases: Vec<(usize, usize)> = vec![];
    for n in sizes { for shape in 0..10usize { cases.push((*n, shape)) } }
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    let what = match focus { Focus::Windows => "graphs of many instants", Focus::Reports => "reports on graphs of many instants", Focus::Batch => "batches on graphs of many instants", Focus::Shape => "shape changes of graphs of many instants", Focus::Reads => "readings of graphs of many instants" };
    idx(what, format!("graphs of up to {} instants of 10 shapes (chains, stars, trees, blocks, orders of insertion)", sizes.last().unwrap()), cases.len() as u64,
        move |i, rec| {
            let (n, shape) = cases[i as usize];
            let l = huge_list(n, shape);
            match focus {
                Focus::Windows | Focus::Reports | Focus::Reads => {
                    let start = if shape % 2 == 0 { 0 } else { n };
                    let mut g = TimeGraph::with_size(start as u32);
                    let mut m = Net::new(start);
                    let stride = 1 + l.len() / 24;
                    for (k, c) in l.iter().enumerate() {
                        rec.tr(1);
                        let look = k % stride == 0 || k + 3 >= l.len();
                        let before = if look { obs(&g) } else { vec![] };
                        let r = rep(g.propagate(con(c)));
                        let want = m.add_fast(*c);
                        let ok = matches!(r, Rep::Unchanged | Rep::Propagated);
                        ensure!(ok == want.is_some(), "constraint {k} {}: {r:?}", show_con(c));
                        let changed = want.as_ref().is_some_and(|w| *w != m);
                        if ok && focus == Focus::Reports { ensure!(changed == (r == Rep::Propagated), "constraint {k} {}: reports {r:?}", show_con(c)) }
                        if !ok && look && r == Rep::Recovered { ensure!(obs(&g) == before, "constraint {k}: refused but the graph changed") }
                        if r == Rep::Fatal { m = Net::new(0) } else if let Some(w) = want { m = w }
                        if look { rec.st(m.hash()); same_net(&format!("after constraint {k} {}", show_con(c)), &g, &m)? }
                    }
                    if focus == Focus::Reads { check_reads(&g, &m, rec)? }
                }
                Focus::Batch => {
                    let want = l.iter().try_fold(Net::new(0), |m, c| m.add_fast(*c));
                    for kind in [0, 1, 3, 8, 10] {
                        let mut g = TimeGraph::default();
                        let r = extend_kind(&mut g, &l, kind);
                        rec.tr(1);
                        ensure!(matches!(r, Rep::Propagated) == want.is_some(), "{}: {r:?}", KINDS[kind]);
                        match &want { Some(m) => same_net(KINDS[kind], &g, m)?, None => ensure!(g.size() == 0, "not emptied") }
                    }
                    let ok: Vec<Con> = { let mut m = Net::new(0); l.iter().filter(|c| m.add_fast(**c).map(|w| m = w).is_some()).copied().collect() };
                    let full = ok.iter().try_fold(Net::new(0), |m, c| m.add_fast(*c)).unwrap();
                    rec.st(full.hash());
                    for cut in [1, ok.len() / 3, ok.len() / 2, ok.len() - 1] {
                        let (a, b) = ok.split_at(cut);
                        let mut x = build(0, a);
                        let r = rep(x.merge(build(0, b)));
                        rec.tr(2);
                        ensure!(matches!(r, Rep::Propagated | Rep::Unchanged), "merge of the first {cut} with the others: {r:?}");
                        same_net("merge", &x, &full)?;
                        let mut x = build(0, a);
                        let r = extend_kind(&mut x, b, 2);
                        ensure!(matches!(r, Rep::Propagated | Rep::Unchanged), "batch after the first {cut}: {r:?}");
                        same_net("batch after additions", &x, &full)?;
                    }
                }
                Focus::Shape => {
                    let ok: Vec<Con> = { let mut m = Net::new(0); l.iter().filter(|c| m.add_fast(**c).map(|w| m = w).is_some()).copied().collect() };
                    let m = ok.iter().try_fold(Net::new(0), |m, c| m.add_fast(*c)).unwrap();
                    let g = build(0, &ok);
                    same_net("graph", &g, &m)?;
                    for k in [0, 1, 2, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, n / 2, n - 1, n, n + 1, n + 9, 2 * n, 2 * n + 1] {
                        rec.tr(5);
                        let mut x = g.clone();
                        x.resize(k as u32);
                        let mut w = m.resize(k);
                        rec.st(w.hash());
                        same_net(&format!("resized to {k}"), &x, &w)?;
                        let mut y = x.clone();
                        y.shrink_to_fit();
                        same_net(&format!("resized to {k} and fitted"), &y, &w.fitted())?;
                        x.shrink_to(k as u32 / 2);
                        same_net(&format!("resized to {k} and shrunk"), &x, &w)?;
                        x.resize(n as u32 + 3);
                        w = w.resize(n + 3);
                        same_net(&format!("resized to {k} and back"), &x, &w)?;
                        x.reset();
                        same_net("reset", &x, &Net::new(n + 3))?;
                        same_net("its origin", &g, &m)?;
                    }
                }
            }
            Ok(())
        },
        move |i| { let c = c2[i as usize]; format!("{} instants, shape {}: {} constraints, {}...", c.0, c.1, huge_list(c.0, c.1).len(), show_cons(&huge_list(c.0, c.1)[..3])) })
}
/// graphs of many instants with one or two constraints, on every pair of instants
/// the exact way for small networks, which can be out of the range
fn plus(m: &Net, c: &Con) -> Option<Net> { if m.n > 3 { m.add_fast(*c) } else { m.add(*c) } }
fn lone(focus: Focus, th: bool) -> Box<dyn Family> {
    let mut cases: Vec<(usize, Vec<Con>)> = vec![];
    let one: [Iv; 4] = [(2, INF), (-INF, 3), (1, 4), (0, 0)];
    let all = |n: usize| (0..n as u32).collect::<Vec<_>>();
    let some = |n: usize| { let mut v: Vec<u32> = [0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, n / 2, n - 2, n - 1].iter().filter(|x| **x < n).map(|x| *x as u32).collect(); v.sort(); v.dedup(); v };
    let reads = focus == Focus::Reads;
    for n in (2..=34).chain([40, 48, 63, 64, 65, 66, 100, 128, 129, 130, 255, 256, 257]) {
        if reads && n > 66 && !(if th { vec![100, 129, 130, 255, 256, 257] } else { vec![130, 257] }).contains(&n) || focus == Focus::Batch && (n > 130 || n > 34 && n % 2 == 0) { continue }
        let is = if n <= if reads { 18 } else if focus == Focus::Batch { 22 } else { 34 } || (th && n <= 130 && !reads) { all(n) } else { some(n) };
        for i in &is { for j in &is { if i != j { for (k, w) in one.iter().enumerate() {
            if (n > 34 || reads) && (*i + *j) as usize % 3 != k % 3 { continue }
            if reads && n > 66 && !th && (*i * 3 + *j) % 5 != 0 { continue }
            cases.push((n, vec![(*i, *j, *w)]))
        } } } }
    }
    let two: [[Iv; 2]; 4] = [[(2, INF), (1, INF)], [(1, 4), (-INF, 3)], [(0, 0), (2, 2)], [(-INF, -1), (-3, 5)]];
    for n in [3usize, 5, 8, 9, 16, 17, 33, 65, 130] {
        if reads && n > 17 || focus == Focus::Batch && n > 33 { continue }
        let is = if n <= if reads || focus == Focus::Batch { 9 } else { 17 } || (th && n <= 33) { all(n) } else { some(n) };
        for i in &is { for j in &is { for k in &is { if i != j && j != k { for (x, w) in two.iter().enumerate() {
            if n > 9 && (*i + *j + *k) as usize % 4 != x { continue }
            cases.push((n, vec![(*i, *j, w[0]), (*j, *k, w[1])]))
        } } } } }
    }
    // one or two constraints of every magnitude
    for k in 1..63u32 { for d in -1..=1i64 { for s in [1i64, -1] {
        let x = s * (((1i128 << k) + d as i128).min(TMAX as i128 - 2) as i64);
        for (y, w) in [(x, INF), (-INF, x), (x, x), (x, x + 2)].into_iter().enumerate() {
            if focus == Focus::Batch && (k as usize + y) % 2 == 1 { continue }
            cases.push((2, vec![(0, 1, w)]));
            cases.push((3, vec![(2, 0, w), (0, 1, w)]));
            if !reads || d == 0 { cases.push((3, vec![(1, 2, w), (2, 0, (-1, INF))])); cases.push((3, vec![(0, 1, w), (2, 1, w)])) }
        }
    } } }
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    let what = match focus { Focus::Windows => "graphs", Focus::Reports => "reports on graphs", Focus::Batch => "batches on graphs", Focus::Shape => "shape changes of graphs", Focus::Reads => "readings of graphs" };
    idx(format!("{what} of many instants and few constraints"), format!("all pairs of up to 34 instants, and chosen ones of up to {}; all chains of two constraints on up to {} instants, and chosen ones; one or two constraints of every power of two ticks, plus or minus one, on 2 and 3 instants", 257, if reads { 9 } else { 17 }), cases.len() as u64,
        move |i, rec| {
            let (n, l) = &cases[i as usize];
            let n = *n;
            rec.tr(1);
            match focus {
                Focus::Windows | Focus::Reports | Focus::Reads => {
                    let (mut g, mut m) = (TimeGraph::with_size(n as u32), Net::new(n));
                    for c in l {
                        let before = if focus == Focus::Reports { obs(&g) } else { vec![] };
                        let r = rep(g.propagate(con(c)));
                        let want = plus(&m, c);
                        ensure!(matches!(r, Rep::Unchanged | Rep::Propagated) == want.is_some(), "{}: {r:?}", show_con(c));
                        if r == Rep::Fatal { return Ok(()) }
                        if focus == Focus::Reports {
                            let after = obs(&g);
                            ensure!((before != after) == (r == Rep::Propagated), "{}: {r:?} but {}", show_con(c), if before == after { "nothing changed" } else { "changed" });
                            if want.is_none() { return Ok(()) }
                            let r = rep(g.propagate(con(c)));
                            ensure!(r == Rep::Unchanged && obs(&g) == after, "{} again: {r:?}", show_con(c));
                            let (lo, hi) = c.2;
                            let no = if fin(hi) { (c.0, c.1, (hi + 1, INF)) } else { (c.1, c.0, (1 - lo, hi)) };
                            let r = rep(g.clone().propagate(con(&no)));
                            ensure!(matches!(r, Rep::Recovered | Rep::Fatal), "{} then {}: {r:?}", show_con(c), show_con(&no));
                        }
                        if let Some(w) = want { m = w }
                        rec.st(m.hash());
                        same_net(&format!("after {}", show_con(c)), &g, &m)?;
                    }
                    if reads { check_reads(&g, &m, rec)? } else {
                        // the same without announcing the number of instants
                        let mut g = TimeGraph::default();
                        for c in l { let _ = g.propagate(con(c)); }
                        let top = l.iter().map(|c| c.0.max(c.1) as usize + 1).max().unwrap();
                        if g.size() > 0 { same_net("grown", &g, &m.resize(top))? }
                    }
                }
                Focus::Batch => {
                    let want = if n > 3 { l.iter().try_fold(Net::new(n), |m, c| m.add_fast(*c)) } else { Net::new(n).add_all(l) };
                    for kind in [0, 2, 3] {
                        let mut g = TimeGraph::with_size(n as u32);
                        let r = extend_kind(&mut g, l, kind);
                        ensure!(matches!(r, Rep::Propagated) == want.is_some(), "{}: {r:?}", KINDS[kind]);
                        if let Some(m) = &want { same_net(KINDS[kind], &g, m)? }
                    }
                    let (mut a, mut b) = (build(n as u32, &l[..1]), build(0, &l[1..]));
                    let a2 = a.clone();
                    let r = rep(a.merge(b.clone()));
                    ensure!(matches!(r, Rep::Unchanged | Rep::Propagated) == want.is_some(), "merge: {r:?}");
                    if let Some(m) = &want { rec.st(m.hash()); same_net("merge", &a, m)? }
                    let r = rep(b.merge(a2));
                    ensure!(matches!(r, Rep::Unchanged | Rep::Propagated) == want.is_some(), "merge into the small one: {r:?}");
                    if let Some(m) = &want { same_net("merge into the small one", &b, m)? }
                }
                Focus::Shape => {
                    let Some(m) = l.iter().try_fold(Net::new(n), |m, c| plus(&m, c)) else { return Ok(()) };
                    let g = build(n as u32, l);
                    let mut f = g.clone();
                    f.shrink_to_fit();
                    let fit = m.fitted();
                    rec.st(m.hash());
                    same_net("fitted", &f, &fit)?;
                    f.resize(n as u32 + 1);
                    same_net("fitted and enlarged", &f, &fit.resize(n + 1))?;
                    let k = fit.n;
                    for to in [k - 1, k, k / 2] {
                        let mut x = g.clone();
                        x.resize(to as u32);
                        let w = m.resize(to);
                        same_net(&format!("resized to {to}"), &x, &w)?;
                        let mut y = x.clone();
                        y.shrink_to_fit();
                        same_net(&format!("resized to {to} and fitted"), &y, &w.fitted())?;
                        x.resize(n as u32 + 2);
                        same_net(&format!("resized to {to} and back"), &x, &w.resize(n + 2))?;
                        x.shrink_to(to as u32);
                        x.shrink_to_fit();
                        same_net(&format!("resized to {to}, back and fitted"), &x, &w.fitted())?;
                    }
                    let mut x = g.clone();
                    x.shrink_to(1);
                    same_net("shrunk", &x, &m)?;
                    x.reset();
                    same_net("reset", &x, &Net::new(n))?;
                    x.shrink_to_fit();
                    same_net("reset and fitted", &x, &Net::new(0))?;
                    same_net("its origin", &g, &m)?;
                }
            }
            Ok(())
        },
        move |i| { let c = &c2[i as usize]; format!("{} instants, {}", c.0, show_cons(&c.1)) })
}
fn huge_list(n: usize, shape: usize) -> Vec<Con> {
    let m = n as u32;
    let w = |k: usize| -> Iv { [(1, 3), (0, 2), (2, 2), (1, INF), (-1, 1), (-INF, 4), (0, 0)][k % 7] };
    let mut v: Vec<Con> = vec![];
    match shape {
        0 => for i in 0..m - 1 { v.push((i, i + 1, w(i as usize))) },
        1 => for i in (0..m - 1).rev() { v.push((i + 1, i, w(i as usize))) },
        2 => for i in 0..m - 1 { v.push((m - 1, i, (-(i as i64 % 9), 5 + i as i64 % 4))) },
        3 => for i in 1..m { v.push(((i - 1) / 2, i, w(i as usize))) },
        4 => for i in 1..m { v.push((i, 0, w(i as usize * 3))) },
        5 => { for i in 0..m { if i % 4 != 3 && i + 1 < m { v.push((i, i + 1, w(i as usize))) } } for i in (3..m - 1).step_by(4) { v.push((i + 1, i, (-3, 8))) } }
        6 => for i in 0..m - 1 { let (a, b) = (i * 7 % m, (i * 7 + 7) % m); if a != b { v.push((a, b, (0, 6))) } },
        7 => { for i in 0..m - 2 { v.push((i, i + 2, (2, 5))) } v.push((1, 0, (-2, 3))) }
        8 => for i in 0..m / 2 { v.push((i, m - 1 - i, (i as i64, 2 * m as i64))); if i > 0 { v.push((m - i, i, (-(m as i64), m as i64))) } },
        _ => for i in 0..m - 1 { v.push((i, i + 1, (1, 1))) },
    }
    // chords over the whole graph, some redundant, some not satisfiable
    let x = n as i64;
    v.push((0, m - 1, (-INF, 3 * x)));
    v.push((m / 2, 0, (-3 * x, x)));
    v.push((m / 3, m - 2, (-INF, x)));
    v.push((m - 1, m / 4, (-2 * x, INF)));
    v.push((0, m - 1, (4 * x, INF)));
    v.push((m - 1, 0, (-7 * x, -1)));
    v.push((m / 2, m / 2 + 1, (0, 1)));
    v.push((1, m - 3, (x / 2, x / 2 + 4)));
    if shape < 6 { let k = v.len() / 2; v.rotate_left(k) }
    v
}
/// all pairs of small graphs
fn merges(th: bool) -> Box<dyn Family> {
    let ws = windows(true);
    let n = 3u32;
    let mut cs: Vec<Con> = vec![];
    for i in 0..n { for j in 0..n { if i < j { for w in &ws { cs.push((i, j, *w)) } } } }
    if th { for w in windows(false) { cs.push((1, 0, w)); cs.push((0, 3, w)) } }
    let mut pool: Vec<(u32, Vec<Con>)> = vec![(0, vec![]), (1, vec![]), (2, vec![]), (4, vec![])];
    for (x, a) in cs.iter().enumerate() {
        pool.push((0, vec![*a]));
        for b in &cs[x + 1..] { if Net::new(0).add_all(&[*a, *b]).is_some() { pool.push((if x % 2 == 0 { 0 } else { 3 }, vec![*a, *b])) } }
    }
    pool.retain(|p| Net::new(p.0 as usize).add_all(&p.1).is_some());
    let pool = Arc::new(pool);
    let k = pool.len() as u64;
    let p2 = pool.clone();
    idx("merges of all pairs of small graphs", format!("all {k}x{k} pairs of graphs of up to two constraints"), k * k,
        move |i, rec| {
            let (a, b) = (&pool[(i / k) as usize], &pool[(i % k) as usize]);
            let (ma, mb) = (Net::new(a.0 as usize).add_all(&a.1).unwrap(), Net::new(b.0 as usize).add_all(&b.1).unwrap());
            let mut g = build(a.0, &a.1);
            let before = obs(&g);
            let r = rep(g.merge(build(b.0, &b.1)));
            rec.tr(1);
            match ma.merge(&mb) {
                Some(m) => {
                    rec.st(m.hash());
                    ensure!(matches!(r, Rep::Unchanged | Rep::Propagated), "{r:?} although satisfiable");
                    same_net("merge", &g, &m)?;
                    ensure!((obs(&g) == before) == (r == Rep::Unchanged), "reports {r:?}");
                }
                None => {
                    ensure!(matches!(r, Rep::Recovered | Rep::Fatal), "{r:?} although inconsistent");
                    if r == Rep::Fatal {
                        ensure!(g.size() == 0, "fatal but not emptied");
                        g.resize(4); same_net("after a fatal merge and a resize", &g, &Net::new(4))?;
                    } else { ensure!(obs(&g) == before, "refused but changed") }
                }
            }
            Ok(())
        },
        move |i| { let (a, b) = (&p2[(i / k) as usize], &p2[(i % k) as usize]); format!("({}+ instants {}) merged with ({}+ instants {})", a.0, show_cons(&a.1), b.0, show_cons(&b.1)) })
}

/// long histories: windows tightened tick by tick, refused constraints and shape changes among them
fn deep(focus: Focus, th: bool) -> Box<dyn Family> {
    let mut ops = vec![];
    for k in 0..40i64 { for (i, j) in [(0u32, 1u32), (2, 1), (0, 3), (3, 2), (1, 3), (2, 0)] {
        let z = k + i as i64;
        ops.push(Op::Add((i, j, match z % 3 { 0 => (k - 60, INF), 1 => (-INF, 50 - k), _ => (k - 70, 60 - k) })));
        if z % 11 == 3 { ops.push(Op::Add((j, i, (90 + k, 200)))) }
        if z % 13 == 5 { ops.push(Op::Extend(vec![(i, j, (k - 50, 55 - k)), (j, i, (-70 + k, INF))], 0)) }
        if focus == Focus::Shape && z % 9 == 4 { ops.push([Op::Resize(6), Op::Fit, Op::Resize(3), Op::ShrinkTo(4), Op::Resize(8)][(z / 9) as usize % 5].clone()) }
        if focus == Focus::Batch && z % 7 == 2 { ops.push(Op::Merge(0, vec![(i, j, (k - 48, 52 - k)), (1, 2, (k - 66, 77))], z % 2 == 0)) }
    } }
    let m = gm(ops, &[0, 4], focus, 9);
    let paths = strides(m.ops.len(), if th { 60 } else { 12 }).into_iter().flat_map(|p| [(0, p.clone()), (1, p.iter().rev().copied().collect())]).collect();
    runs("long histories on 4 instants", "windows tightened tick by tick", m, paths)
}

// ------------------------------------------------------------ properties
fn gm(ops: Vec<Op>, sizes: &[u32], focus: Focus, limit: u32) -> GM { GM { ops, sizes: sizes.to_vec(), focus, limit } }
pub fn c15(th: bool) -> Fams {
    let f = Focus::Windows;
    let d = th as usize;
    vec![
        huge(Focus::Windows, th), lone(Focus::Windows, th), deep(Focus::Windows, th), news(f, th),
        brute(th),
        bfs("histories of additions on 3 instants", "12 windows, all 9 ordered pairs", gm(adds(3, &windows(false), 1, true), &[0, 1, 3], f, 9), 3 + d, true),
        bfs("histories of additions on 3 instants, hours", "12 windows, all 9 ordered pairs", gm(adds(3, &windows(false), 3600 * S1, true), &[0, 3], f, 9), 3, true),
        bfs("histories of additions on 4 instants", "6 windows, all 16 ordered pairs", gm(adds(4, &windows(true), 1, true), &[0, 2, 4], f, 9), 3 + d, true),
        bfs("histories of additions on 5 instants, near the range", "6 windows of 2^57 ticks, all 20 ordered pairs", gm(adds(5, &windows(true), (1 << 57) + 1, false), &[0, 5], f, 9), 3, true),
        bfs("histories of additions on 3 instants, beyond the range", "18 windows of up to 2^63 ticks, all 9 ordered pairs", gm(adds(3, &far_windows(true), 1, true), &[0, 3], f, 9), 3 + d, true),
        bfs("histories of additions on 4 instants, beyond the range", "6 windows of up to 2^63 ticks, all 12 ordered pairs", gm(adds(4, &far_windows(false), 1, false), &[0, 4], f, 9), 3 + d, true),
        bfs("histories of additions on 3 instants, mixed magnitudes", "12 windows from ticks to centuries, all 6 ordered pairs", gm(adds(3, &mixed_windows(), 1, false), &[0, 3], f, 9), 3 + d, true),
        bfs("additions and shape changes", "3 instants, 6 windows, resize, reset, batch", gm([adds(3, &windows(true), 1, false), shape_ops(&[0, 1, 2, 3, 4]), batch_ops(&[0])[..24].to_vec()].concat(), &[0, 3], f, 6), 3, true),
        orders(1, false, false), orders(86400 * S1, false, false), orders(FARS, false, false), large(false, false, th),
    ]
}
pub fn c16(th: bool) -> Fams {
    let f = Focus::Reports;
    let d = th as usize;
    vec![
        huge(Focus::Reports, th), lone(Focus::Reports, th), deep(Focus::Reports, th), news(f, th),
        bfs("reports of additions on 3 instants", "12 windows, all 9 ordered pairs", gm(adds(3, &windows(false), 1, true), &[0, 1, 3], f, 9), 3 + d, true),
        bfs("reports of additions on 4 instants", "6 windows, all 16 ordered pairs", gm(adds(4, &windows(true), S1, true), &[0, 2, 4], f, 9), 3 + d, true),
        bfs("reports of additions and batches", "3 instants, 6 windows, batches of up to 3 constraints, merges, shape changes", gm([adds(3, &windows(true), 1, true), batch_ops(&[0, 2]), merge_ops(), shape_ops(&[0, 2, 4])].concat(), &[0, 3], f, 6), 3, true),
        bfs("every short history, nothing merged", "2 instants, 12 windows", gm([adds(2, &windows(false), 1, false), batch_ops(&[0])[..20].to_vec()].concat(), &[0, 2], f, 6), 3, false),
        bfs("reports of additions on 3 instants, beyond the range", "18 windows of up to 2^63 ticks, all 6 ordered pairs", gm(adds(3, &far_windows(true), 1, false), &[0, 3], f, 9), 3, true),
        bfs("reports of additions, beyond the range", "4 instants, 6 windows of up to 2^63 ticks, shape changes", gm([adds(4, &far_windows(false), 1, false), shape_ops(&[0, 2, 4, 5])].concat(), &[0, 2, 4], f, 9), 3 + d, true),
        merges(th), orders(1, false, false), orders(FARS, false, false), large(false, false, th),
    ]
}
/// batches made of many constraints which change nothing and of one which does
fn repeated(th: bool) -> Box<dyn Family> {
    let counts: Vec<usize> = if th { (0..=140).chain([200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049]).collect() } else { (0..=34).chain([47, 48, 49, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 512, 1000, 1024]).collect() };
    let c = |i, j, a, b| -> Con { (i, j, (a, b)) };
    let fills: Vec<Vec<Con>> = vec![
        vec![c(0, 1, 0, 5)], vec![c(0, 1, 1, 2)], vec![c(0, 1, -INF, INF)], vec![c(1, 0, -2, INF), c(0, 1, -9, 7)], vec![c(1, 1, -1, 1), c(0, 1, 1, 2), c(0, 2, -INF, INF)],
    ];
    let ends: Vec<Vec<Con>> = vec![vec![], vec![c(1, 2, 3, 4)], vec![c(0, 1, 2, 2)], vec![c(2, 0, -INF, -1), c(1, 2, 1, 9)], vec![c(0, 1, 3, 9)], vec![c(2, 2, 1, 1)], vec![(1, 0, EMPTY)], vec![c(4, 1, 0, 6)], vec![c(1, 2, 1, 1), c(0, 2, 0, 1)]];
    let starts: Vec<(u32, Vec<Con>)> = vec![(0, vec![]), (3, vec![]), (2, vec![c(0, 1, 1, 2)]), (3, vec![c(1, 0, -2, -1), c(0, 2, 0, 30)])];
    let kinds = [0usize, 2, 8, 11];
    let (nc, nf, ne, ns) = (counts.len() as u64, fills.len() as u64, ends.len() as u64, starts.len() as u64);
    let list = move |i: u64| -> (usize, Vec<Con>) {
        let (n, f, e, at) = (counts[(i % nc) as usize], &fills[(i / nc % nf) as usize], &ends[(i / nc / nf % ne) as usize], i / nc / nf / ne % 3);
        let mut v: Vec<Con> = (0..n).map(|k| f[k % f.len()]).collect();
        // at the end, at the beginning, in the middle
        let p = [n, 0, n / 2][at as usize];
        v.splice(p..p, e.iter().copied());
        ((i / nc / nf / ne / 3) as usize, v)
    };
    let l2 = list.clone();
    let s2 = starts.clone();
    idx("batches of repeated constraints", format!("{nc} numbers of repetitions of 5 lists which change nothing once added, 9 lists of effective constraints at the end, the beginning or the middle, 4 graphs, 4 kinds of iterators"), nc * nf * ne * ns * 3,
        move |i, rec| {
            let (s, l) = list(i);
            let (size, cs) = &starts[s];
            let base = build(*size, cs);
            let before = obs(&base);
            let want = Net::new(*size as usize).add_all(cs).unwrap().add_all(&l);
            for kind in kinds {
                let mut g = base.clone();
                let r = extend_kind(&mut g, &l, kind);
                rec.tr(1);
                ensure!(matches!(r, Rep::Unchanged | Rep::Propagated) == want.is_some(), "{}: {r:?} although {}", KINDS[kind], if want.is_some() { "satisfiable" } else { "inconsistent" });
                match &want {
                    Some(m) => { rec.st(m.hash()); same_net(KINDS[kind], &g, m)?; ensure!((r == Rep::Unchanged) == (obs(&g) == before), "{}: {r:?}", KINDS[kind]) }
                    None => ensure!(if r == Rep::Fatal { g.size() == 0 } else { obs(&g) == before }, "{}: {r:?} but the graph is {g}", KINDS[kind]),
                }
            }
            Ok(())
        },
        move |i| { let (s, l) = l2(i); format!("graph {} on {} instants, {} constraints: {}...", show_cons(&s2[s].1), s2[s].0, l.len(), show_cons(&l[..l.len().min(4)])) })
}
/// every list of three constraints, on any pairs in both directions
fn triples(th: bool) -> Box<dyn Family> {
    let mut al: Vec<Con> = vec![];
    for w in [(0, 9), (-INF, -3), (2, INF), (-1, 1), (1, 1), (-INF, INF)] { for (i, j) in [(0u32, 1u32), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)] { if th || !(w.0 == -INF && w.1 == INF && j == 2) { al.push((i, j, w)) } } }
    al.extend([(1, 1, (-1, 0)), (0, 0, (1, INF)), (2, 1, EMPTY), (3, 1, (0, 2)), (1, 3, (-INF, 2))]);
    let starts: Vec<(u32, Vec<Con>)> = vec![(0, vec![]), (3, vec![]), (3, vec![(0, 1, (0, 5)), (1, 2, (-INF, 4))])];
    let kinds = [0usize, 2];
    let (k, len) = (al.len() as u64, if th { 4 } else { 3 });
    let n = k.pow(len);
    let (al, starts) = (Arc::new(al), Arc::new(starts));
    let (a2, s2) = (al.clone(), starts.clone());
    let list = move |al: &[Con], i: u64| -> Vec<Con> { (0..len).map(|p| al[(i / k.pow(p) % k) as usize]).collect::<Vec<_>>() };
    idx(format!("every batch of {len} constraints"), format!("{k} constraints on 3 or 4 instants in both directions, 3 graphs, 2 kinds of iterators"), n * 3,
        move |i, rec| {
            let (l, (size, cs)) = (list(&al, i % n), &starts[(i / n) as usize]);
            let want = Net::new(*size as usize).add_all(cs).unwrap().add_all(&l);
            let base = build(*size, cs);
            let before = obs(&base);
            for kind in kinds {
                let mut g = base.clone();
                let r = extend_kind(&mut g, &l, kind);
                rec.tr(1);
                ensure!(matches!(r, Rep::Unchanged | Rep::Propagated) == want.is_some(), "{}: {r:?} although {}", KINDS[kind], if want.is_some() { "satisfiable" } else { "inconsistent" });
                match &want {
                    Some(m) => { if !th { rec.st(m.hash()) } same_net(KINDS[kind], &g, m)?; ensure!((r == Rep::Unchanged) == (obs(&g) == before), "{}: {r:?}", KINDS[kind]) }
                    None => ensure!(if r == Rep::Fatal { g.size() == 0 } else { obs(&g) == before }, "{}: {r:?} but the graph is {g}", KINDS[kind]),
                }
            }
            Ok(())
        },
        move |i| { let (size, cs) = &s2[(i / n) as usize]; format!("graph {} on {size} instants, batch {}", show_cons(cs), show_cons(&list(&a2, i % n))) })
}
pub fn c17(th: bool) -> Fams {
    let f = Focus::Batch;
    let d = th as usize;
    vec![
        huge(Focus::Batch, th), lone(Focus::Batch, th), deep(Focus::Batch, th), repeated(th), triples(th),
        bfs("batches on graphs of 3 instants", "25 batches of up to 3 constraints by 13 kinds of iterators, 6 windows", gm([batch_ops(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]), adds(3, &windows(true), 1, false)].concat(), &[0, 3, 4], f, 6), 3 + d, true),
        bfs("merges of graphs of 3 instants", "merges both ways with 36 graphs, 12 windows", gm([merge_ops(), adds(3, &windows(false), 1, false)].concat(), &[0, 1, 3], f, 6), 3 + d, true),
        bfs("batches, merges and shape changes, nothing merged", "2 instants, 6 windows", gm([batch_ops(&[0, 2]), merge_ops(), adds(2, &windows(true), 1, false), shape_ops(&[0, 3])].concat(), &[0, 2], f, 6), 2 + d, false),
        bfs("batches and merges, beyond the range", "3 instants, 18 windows of up to 2^63 ticks", gm([far_batches(), adds(3, &far_windows(true), 1, false)].concat(), &[0, 3], f, 6), 2 + d, true),
        merges(th), orders(1, true, false), orders(FARS, true, false), large(false, true, th),
    ]
}
/// numbers of instants that no matrix could hold: refused, and nothing changes
fn unbuildable(th: bool) -> Box<dyn Family> {
    // those which no allocator could give whatever the way of indexing, and the ones just beyond the indexes of the matrix
    let mut sizes: Vec<u32> = vec![1 << 31, (1 << 31) + 1, 3 << 30, u32::MAX - 1, u32::MAX];
    if th { sizes.extend([1 << 16, (1 << 16) + 1, 70_000, 92_682]) }
    let shrinks: Vec<u32> = vec![0, 1, 2, 255, 256, 65_534, 65_535, 65_536, 65_537, 70_000, 92_681, 92_682, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX];
    let (n, k) = (sizes.len() as u64, shrinks.len() as u64);
    let (s2, k2) = (sizes.clone(), shrinks.clone());
    let starts = || -> Vec<(u32, Vec<Con>)> { vec![(0, vec![]), (3, vec![]), (3, vec![(0, 1, (2, 7)), (1, 2, (-INF, 5))]), (6, vec![(5, 0, (1, 1))])] };
    let ways = ["with_size", "resize", "propagate from", "propagate to", "propagate on itself", "extend", "collect"];
    let w = ways.len() as u64;
    idx("graphs which could not be built", format!("4 graphs by {n} numbers of instants which no matrix could hold ({} ways of reaching them), and by {k} capacities to keep when shrinking", w), 4 * (n * w + k),
        move |i, rec| {
            let (size, cs) = starts().swap_remove((i % 4) as usize);
            let i = i / 4;
            let mut g = build(size, &cs);
            let m = Net::new(size as usize).add_all(&cs).unwrap();
            rec.st(m.hash() ^ i); rec.tr(1);
            if i >= n * w {
                g.shrink_to(shrinks[(i - n * w) as usize]);
                return same_net("shrunk", &g, &m);
            }
            let (x, way) = (sizes[(i % n) as usize], i / n);
            // the last instant of a graph of x instants, and the one which does not fit the type of their number
            for last in [x - 1, u32::MAX] {
                let span = iv_of::<TimeValue>((1, 4));
                let refused = match way {
                    0 => panics(|| TimeGraph::with_size(x)),
                    1 => panics(|| g.resize(x)),
                    2 => panics(|| g.propagate(((last, 1), span))),
                    3 => panics(|| g.propagate(((0, last), span))),
                    4 => panics(|| g.propagate(((last, last), TimeInterval::<TimeValue>::all()))),
                    5 => panics(|| { let mut h = g.clone(); h.extend([((0, 1), span), ((0, last), span)]) }),
                    _ => panics(|| [((0, last), span), ((0, 1), span)].into_iter().collect::<TimeGraph>()),
                };
                ensure!(refused, "{} with instant {last} is accepted", ways[way as usize]);
                same_net("after the refusal", &g, &m)?;
            }
            Ok(())
        },
        move |i| { let (g, i) = (i % 4, i / 4); if i >= n * w { format!("graph {g}, shrink_to({})", k2[(i - n * w) as usize]) } else { format!("graph {g}, {} instants by {}", s2[(i % n) as usize], ways[(i / n) as usize]) } })
}
pub fn c18(th: bool) -> Fams {
    let f = Focus::Shape;
    let d = th as usize;
    let few: Vec<Iv> = vec![(1, 3), (-INF, 2)];
    let failing: Vec<Op> = [11usize, 14, 19].iter().map(|k| Op::Extend(lists()[*k].clone(), 0)).collect();
    vec![
        unbuildable(th), huge(Focus::Shape, th), lone(Focus::Shape, th), deep(Focus::Shape, th),
        bfs("histories of shape changes on 4 instants", "2 windows on 12 ordered pairs; resize, shrink, reset, clone", gm([adds(4, &few, 1, false), shape_ops(&[0, 1, 2, 3, 4, 5])].concat(), &[0, 1, 4], f, 6), 4 + d, true),
        bfs("histories of shape changes, batches and merges", "3 instants", gm([adds(3, &windows(true), S1, false), shape_ops(&[0, 1, 2, 4]), failing, merge_ops()].concat(), &[0, 3], f, 6), 3 + d, true),
        bfs("every short history of shape changes, nothing merged", "2 windows on 3 instants", gm([adds(3, &few, 1, false), shape_ops(&[0, 1, 2, 3, 5])].concat(), &[0, 2, 3], f, 6), 3 + d, false),
        bfs("shape changes of larger graphs", "1 window on chosen pairs of 9 instants", gm([[(0u32, 1u32), (3, 2), (1, 5), (8, 4), (6, 7), (8, 0)].iter().map(|p| Op::Add((p.0, p.1, (2, 4)))).collect(), shape_ops(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 12])].concat(), &[0, 5, 9], f, 12), 4 + d, true),
    ]
}
pub fn c19(th: bool) -> Fams {
    let f = Focus::Reads;
    let d = th as usize;
    vec![
        huge(Focus::Reads, th), lone(Focus::Reads, th), deep(Focus::Reads, th),
        bfs("readings after histories of additions on 3 instants", "12 windows, 6 ordered pairs", gm(adds(3, &windows(false), 1, false), &[0, 1, 3, 4], f, 9), 3, true),
        bfs("readings after histories of additions on 4 instants", "6 windows, 12 ordered pairs", gm(adds(4, &windows(true), 1, false), &[0, 4, 5], f, 9), 2 + d, true),
        bfs("readings after shape changes and batches", "3 instants", gm([adds(3, &[(1, 3), (-INF, 1), (0, 0)], S1, false), shape_ops(&[0, 1, 2, 4]), batch_ops(&[0]), merge_ops()].concat(), &[0, 3], f, 6), 2 + d, true),
        bfs("readings after histories of additions on 3 instants, beyond the range", "18 windows of up to 2^63 ticks, 6 ordered pairs", gm(adds(3, &far_windows(true), 1, false), &[0, 3], f, 9), 2 + d, true),
        bfs("readings after histories of additions on 3 instants, mixed magnitudes", "12 windows from ticks to centuries, 6 ordered pairs", gm(adds(3, &mixed_windows(), 1, false), &[0, 3], f, 9), 2 + d, true),
        orders(1, false, true), orders(FARS, false, true), large(true, false, th),
    ]
}
