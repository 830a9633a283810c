//! C20-C23: schedulers against exact projections of the solution set
use super::graph::{build, obs, show_cons, Con, Net};
use super::Fams;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use chronologic::graph::*;
use chronologic::*;
use std::sync::Arc;

type Doms = Vec<Vec<Iv>>;
// ------------------------------------------------------------ model
/// for each instant, the dates it takes in some solution; None: no solution.
/// Every choice of one piece per instant is a simple temporal problem solved by shortest paths
/// with an origin node.
pub fn project(net: &Net, doms: &Doms) -> Option<Doms> {
    let n = net.n;
    if doms.iter().any(|d| d.is_empty()) { return None }
    let far = net.far() || doms.iter().flatten().any(|w| [w.0, w.1].iter().any(|x| fin(*x) && (*x > 1 << 60 || *x < -(1 << 60))));
    if far { return project_far(net, doms) }
    let mut out: Doms = vec![vec![]; n];
    choose(net, doms, 0, &vec![(-INF, INF); n], &mut out);
    if out[0].is_empty() { None } else { Some(out.into_iter().map(canon).collect()) }
}
/// chooses a piece for each instant from the i-th one. The network is closed, so that a window put
/// on one instant bounds each other one through their window.
fn choose(net: &Net, doms: &Doms, i: usize, r: &[Iv], out: &mut Doms) {
    let n = net.n;
    if i == n { for (o, w) in out.iter_mut().zip(r) { if o.last() != Some(w) { o.push(*w) } } return }
    for p in &doms[i] {
        let w = (p.0.max(r[i].0), p.1.min(r[i].1));
        if w.0 > w.1 { continue }
        let mut x = r.to_vec();
        for j in 0..n {
            let (up, dn) = (net.u[i * n + j], net.u[j * n + i]);
            if w.1 != INF && up != INF { x[j].1 = x[j].1.min(clip(w.1 as i128 + up as i128)) }
            if w.0 != -INF && dn != INF { x[j].0 = x[j].0.max(clip(w.0 as i128 - dn as i128)) }
        }
        if x.iter().all(|w| w.0 <= w.1) { choose(net, doms, i + 1, &x, out) }
    }
}
fn project_far(net: &Net, doms: &Doms) -> Option<Doms> {
    let n = net.n;
    let mut out: Doms = vec![vec![]; n];
    let mut some = false;
    let mut pick = vec![0usize; n];
    loop {
        // node n is the origin
        let mut m = net.resize(n + 1);
        for i in 0..n {
            let (lo, hi) = doms[i][pick[i]];
            m.u[n * (n + 1) + i] = hi;
            m.u[i * (n + 1) + n] = -lo;
        }
        // dates out of the range do not exist, but two dates may be further than any duration
        if let Some(u) = m.close_wide() {
            let w: Vec<(i128, i128)> = (0..n).map(|i| (u[i * (n + 1) + n].map_or(-(INF as i128), |x| -x), u[n * (n + 1) + i].unwrap_or(INF as i128))).collect();
            if w.iter().all(|(lo, hi)| *lo < INF as i128 && *hi > -(INF as i128)) {
                some = true;
                for (o, (lo, hi)) in out.iter_mut().zip(w) { o.push((clip(lo), clip(hi))) }
            }
        }
        let mut k = 0;
        loop {
            if k == n { return if some { Some(out.into_iter().map(canon).collect()) } else { None } }
            pick[k] += 1;
            if pick[k] < doms[k].len() { break }
            pick[k] = 0;
            k += 1;
        }
    }
}
/// is this assignment a solution?
fn solves(net: &Net, doms: &Doms, t: &[i64]) -> bool {
    t.iter().enumerate().all(|(i, x)| p_has(&doms[i], *x)
        && t.iter().enumerate().all(|(j, y)| { let (lo, hi) = net.span(i, j); let d = *y as i128 - *x as i128; (lo == -INF || lo as i128 <= d) && (hi == INF || d <= hi as i128) }))
}

// ------------------------------------------------------------ bridges
type Sch = TimeScheduler<'static>;
fn slots(s: &Sch) -> Doms { s.schedule().iter().map(raw).collect() }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Rep { Unchanged, Propagated, Recovered, Fatal }
fn rep<A: std::fmt::Debug, B: std::fmt::Debug>(r: Result<A, B>) -> Rep {
    match r {
        Ok(a) => match format!("{a:?}").as_str() { "Unchanged" => Rep::Unchanged, "Propagated" => Rep::Propagated, s => panic!("unknown report {s}") },
        Err(e) => match format!("{e:?}").as_str() { "Recovered" => Rep::Recovered, "Fatal" => Rep::Fatal, s => panic!("unknown error {s}") },
    }
}
impl Rep { fn ok(self) -> bool { matches!(self, Rep::Unchanged | Rep::Propagated) } }

// ------------------------------------------------------------ operations
#[derive(Clone, Debug)]
enum Op { Retain(usize, Vec<Iv>), Remove(usize, Vec<Iv>), Deadline(i64), Startline(i64) }
impl Op {
    fn show(&self) -> String {
        match self {
            Op::Retain(i, p) => format!("retain t{i} in {}", show_ps(p)),
            Op::Remove(i, p) => format!("remove {} from t{i}", show_ps(p)),
            Op::Deadline(d) => format!("deadline {}", show(*d)),
            Op::Startline(d) => format!("startline {}", show(*d)),
        }
    }
    /// the kept dates of each restricted instant
    fn restrict(&self, d: &Doms) -> Doms {
        let mut r = d.clone();
        match self {
            Op::Retain(i, p) => r[*i] = p_inter(&r[*i], p),
            Op::Remove(i, p) => r[*i] = p_inter(&r[*i], &p_compl(p)),
            Op::Deadline(x) => for k in r.iter_mut() { *k = p_inter(k, &[(-INF, *x)]) },
            Op::Startline(x) => for k in r.iter_mut() { *k = p_inter(k, &[(*x, INF)]) },
        }
        r
    }
    fn convex(&self) -> bool { match self { Op::Retain(_, p) => p.len() <= 1, Op::Remove(_, p) => p_compl(p).len() <= 1, _ => true } }
    /// the same operation written in different ways
    fn forms(&self) -> usize { match self { Op::Retain(_, p) => if p.len() <= 1 { 3 } else { 1 }, Op::Remove(_, p) => if p.len() <= 1 { 3 } else { 2 }, _ => 1 } }
    fn run(&self, s: &mut Sch, form: usize) -> Rep {
        match self {
            Op::Retain(i, p) => {
                let i = *i as u32;
                match (form, p.len()) {
                    (0, _) => rep(s.retain(i, set_of::<Timestamp>(p))),
                    (1, _) => rep(s.retain(i, iv_of::<Timestamp>(p.first().copied().unwrap_or(EMPTY)))),
                    (_, 0) => rep(s.retain(i, Timestamp::of(4)..=Timestamp::of(1))),
                    _ => {
                        let (lo, hi) = p[0];
                        let (a, b) = (Timestamp::of(lo), Timestamp::of(hi));
                        if lo == hi { rep(s.retain(i, a)) } else if lo == -INF && hi == INF { rep(s.retain(i, a..)) } else if lo == -INF { rep(s.retain(i, ..=b)) } else if hi == INF { rep(s.retain(i, a..)) } else { rep(s.retain(i, a..=b)) }
                    }
                }
            }
            Op::Remove(i, p) => {
                let i = *i as u32;
                match (form, p.len()) {
                    (0, _) => rep(s.remove(i, set_of::<Timestamp>(p))),
                    (1, n) if n != 1 => { let s2 = set_of::<Timestamp>(p); rep(s.remove(i, s2)) }
                    (1, _) => rep(s.remove(i, iv_of::<Timestamp>(p[0]))),
                    (_, 1) if p[0].0 == p[0].1 => rep(s.remove(i, Timestamp::of(p[0].0))),
                    _ => rep(s.remove(i, set_of::<Timestamp>(p).into_iter().collect::<TimeSlots>())),
                }
            }
            Op::Deadline(d) => rep(s.set_deadline(Timestamp::of(*d))),
            Op::Startline(d) => rep(s.set_startline(Timestamp::of(*d))),
        }
    }
}

// ------------------------------------------------------------ machine
#[derive(Clone, Copy, PartialEq)]
enum Focus { Sound, Complete, Reports, Lines }
#[derive(Clone)]
struct St { s: Sch, g: usize, d: Doms, convex: bool }
struct Gr { name: String, g: &'static TimeGraph, net: Net }
/// `pre`: what is done first on each graph; `of`: the graph each operation is for (none: all of them)
struct SM { graphs: Vec<Gr>, ops: Vec<Op>, n: usize, focus: Focus, pre: Vec<Vec<Op>>, of: Vec<usize> }

impl SM {
    fn after(&self, s: &St, op: &Op, form: usize, rec: &mut Rec) -> R<Option<St>> {
        let gr = &self.graphs[s.g];
        let before = slots(&s.s);
        let want = op.restrict(&s.d);
        let proj = project(&gr.net, &want);
        let mut x = s.s.clone();
        let r = op.run(&mut x, form);
        let after = slots(&x);
        rec.tr(1);
        match self.focus {
            Focus::Sound => {
                if let Some(p) = &proj {
                    ensure!(r.ok(), "refused ({r:?}) although {:?} is a solution set", p.iter().map(|d| show_ps(d)).collect::<Vec<_>>());
                    for (i, d) in p.iter().enumerate() {
                        ensure!(p_subset(d, &after[i]), "t{i} keeps {} but takes {} in solutions", show_ps(&after[i]), show_ps(d));
                    }
                }
            }
            Focus::Complete => if r.ok() {
                let Some(p) = &proj else { return Err(format!("accepted ({r:?}) although no assignment remains; slots {:?}", after.iter().map(|d| show_ps(d)).collect::<Vec<_>>())) };
                if s.convex && op.convex() {
                    for (i, d) in p.iter().enumerate() { ensure!(after[i] == *d, "t{i} keeps {} but takes {} in solutions", show_ps(&after[i]), show_ps(d)); }
                } else {
                    for (i, d) in after.iter().enumerate() { ensure!(!d.is_empty(), "t{i} has no slot left"); }
                    let lo: Vec<i64> = after.iter().map(|d| d[0].0).collect();
                    if lo.iter().all(|t| fin(*t)) { ensure!(solves(&gr.net, &want, &lo), "earliest dates {lo:?} are not a solution") }
                    let hi: Vec<i64> = after.iter().map(|d| d[d.len() - 1].1).collect();
                    if hi.iter().all(|t| fin(*t)) { ensure!(solves(&gr.net, &want, &hi), "latest dates {hi:?} are not a solution") }
                }
            },
            Focus::Reports => {
                match r {
                    Rep::Unchanged => ensure!(before == after, "reports Unchanged but slots changed"),
                    Rep::Propagated => ensure!(before != after, "reports Propagated but no slot changed"),
                    Rep::Fatal => return Err("refused as if the slots were lost (Fatal)".into()),
                    Rep::Recovered => ensure!(before == after, "refused ({r:?}) but slots changed from {:?} to {:?}", before.iter().map(|d| show_ps(d)).collect::<Vec<_>>(), after.iter().map(|d| show_ps(d)).collect::<Vec<_>>()),
                }
                ensure!(slots(&s.s) == before, "the scheduler it was cloned from changed");
                // the clone and a newcomer do not see anything
                let fresh = TimeScheduler::new(gr.g);
                ensure!(slots(&fresh).iter().all(|d| *d == [(-INF, INF)]) && fresh.schedule().len() == self.n, "a new scheduler is not free");
                let mut other = x.clone();
                let _ = op.run(&mut other, form);
                let _ = other.retain(0, Timestamp::of(2));
                ensure!(slots(&x) == after && slots(&s.s) == before && slots(&fresh).iter().all(|d| *d == [(-INF, INF)]), "schedulers influence each other");
                // a scheduler of another graph, overwritten by a clone, behaves as its origin
                let mut other = TimeScheduler::new(self.graphs[(s.g + 1) % self.graphs.len()].g);
                let _ = other.retain(0, Timestamp::of(7));
                other.clone_from(&s.s);
                ensure!(slots(&other) == before, "clone_from does not give the same slots");
                ensure!(op.run(&mut other, form) == r && slots(&other) == after, "after clone_from, the restriction does not give the same result");
                // an instant which is not in the graph
                if form == 0 && before.iter().all(|d| *d == [(-INF, INF)]) { for i in [self.n, self.n + 1, u32::MAX as usize] {
                    let mut y = x.clone();
                    for form in 0..op.forms() {
                        let o = match op { Op::Retain(_, p) => Op::Retain(i, p.clone()), Op::Remove(_, p) => Op::Remove(i, p.clone()), _ => continue };
                        ensure!(panics(|| o.run(&mut y, form)), "{} is accepted although there is no such instant", o.show());
                        ensure!(slots(&y) == after, "{} changes slots", o.show());
                    }
                } }
                for i in 0..self.n as u32 + 2 { let v = x.scheduling(i).map(raw); ensure!(v.as_ref() == after.get(i as usize), "scheduling({i}) differs from the schedule") }
                rec.tr(4);
            }
            Focus::Lines => {
                // the same as restricting every instant, in any order
                let each: Option<Box<dyn Fn(usize) -> Op>> = match *op {
                    Op::Deadline(d) => Some(Box::new(move |i| Op::Retain(i, vec![(-INF, d)]))),
                    Op::Startline(d) => Some(Box::new(move |i| Op::Retain(i, vec![(d, INF)]))),
                    _ => None,
                };
                if let Some(each) = each {
                    ensure!(r.ok() == proj.is_some(), "{r:?} although {}", if proj.is_some() { "feasible" } else { "infeasible" });
                    if !r.ok() { ensure!(before == after, "refused but slots changed") }
                    for order in orders(self.n) {
                        let mut y = s.s.clone();
                        let mut rs = vec![];
                        for i in &order { rs.push(each(*i).run(&mut y, 2)); rec.tr(1); }
                        let all = rs.iter().all(|r| r.ok());
                        ensure!(all == r.ok(), "{r:?} but one by one in order {order:?}: {rs:?}");
                        if all {
                            ensure!(slots(&y) == after, "slots {:?} but one by one in order {order:?}: {:?}", after.iter().map(|d| show_ps(d)).collect::<Vec<_>>(), slots(&y).iter().map(|d| show_ps(d)).collect::<Vec<_>>());
                            ensure!((r == Rep::Unchanged) == rs.iter().all(|r| *r == Rep::Unchanged), "{r:?} but one by one in order {order:?}: {rs:?}");
                        }
                    }
                }
                if after.iter().all(|d| !d.is_empty()) {
                    let hi = after.iter().map(|d| d[d.len() - 1].1).min().unwrap();
                    let lo = after.iter().map(|d| d[0].0).max().unwrap();
                    rec.tr(2);
                    ensure!(x.latest_beginning().tk() == hi, "latest_beginning = {:?} instead of {}", x.latest_beginning(), show(hi));
                    ensure!(x.earliest_ending().tk() == lo, "earliest_ending = {:?} instead of {}", x.earliest_ending(), show(lo));
                }
            }
        }
        rec.st(hash_words(&flat(&after)));
        if r.ok() && proj.is_none() { return Ok(None) } // only reached where this is judged by another property
        Ok(Some(if r.ok() { St { s: x, g: s.g, d: want, convex: s.convex && op.convex() } } else { St { s: x, g: s.g, d: s.d.clone(), convex: s.convex } }))
    }
}
fn orders(n: usize) -> Vec<Vec<usize>> {
    match n { 1 => vec![vec![0]], 2 => vec![vec![0, 1], vec![1, 0]], 3 => vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]],
        _ => vec![(0..n).collect(), (0..n).rev().collect(), (0..n).map(|k| (k * 3 + 1) % n).collect::<Vec<_>>()].into_iter().filter(|v: &Vec<usize>| { let mut w = v.clone(); w.sort(); w.dedup(); w.len() == n }).collect() }
}
fn flat(d: &Doms) -> Vec<i64> { let mut v = vec![]; for p in d { v.push(p.len() as i64); for i in p { v.push(i.0); v.push(i.1) } } v }
impl Machine for SM {
    type S = St;
    fn inits(&self) -> usize { self.graphs.len() }
    fn init(&self, i: usize) -> St {
        let gr = &self.graphs[i];
        let mut s = St { s: TimeScheduler::new(gr.g), g: i, d: vec![vec![(-INF, INF)]; self.n], convex: true };
        for o in self.pre.get(i).into_iter().flatten() {
            s.d = o.restrict(&s.d);
            s.convex &= o.convex();
            assert!(o.run(&mut s.s, 0).ok(), "{} is refused", o.show());
        }
        s
    }
    fn init_name(&self, i: usize) -> String { format!("graph {}{}", self.graphs[i].name, self.pre.get(i).into_iter().flatten().map(|o| format!("; {}", o.show())).collect::<String>()) }
    fn ops(&self) -> usize { self.ops.len() }
    fn op_name(&self, op: usize) -> String { self.ops[op].show() }
    fn step(&self, s: &St, op: usize, rec: &mut Rec) -> R<Option<St>> {
        let o = &self.ops[op];
        if self.of.get(op).is_some_and(|g| *g != s.g) { return Ok(None) }
        let mut out = None;
        for form in 0..o.forms() {
            let x = self.after(s, o, form, rec)?;
            if form == 0 { out = x }
        }
        if self.focus == Focus::Reports { let gr = &self.graphs[s.g]; ensure!(obs(gr.g) == obs(s.s.constraints()) && obs(gr.g)[0] == self.n as i64, "the graph changed") }
        Ok(out)
    }
    fn key(&self, s: &St) -> Vec<i64> {
        let mut k = vec![s.g as i64, s.convex as i64];
        k.extend(flat(&s.d)); k.push(-7); k.extend(flat(&slots(&s.s)));
        k
    }
}

// ------------------------------------------------------------ sets of graphs and operations
fn graph(n: usize, cs: &[Con], scale: i64) -> Gr {
    let cs: Vec<Con> = cs.iter().map(|c| (c.0, c.1, sc(c.2, scale))).collect();
    let net = cs.iter().try_fold(Net::new(n), |m, c| m.add_fast(*c)).expect("consistent graph");
    Gr { name: show_cons(&cs), g: Box::leak(Box::new(build(n as u32, &cs))), net }
}
fn sc(w: Iv, k: i64) -> Iv { let f = |x: i64| if fin(x) { x * k } else { x }; (f(w.0), f(w.1)) }
fn graphs2(scale: i64, all: bool) -> Vec<Gr> {
    let ws: Vec<Iv> = if all { vec![(-INF, INF), (0, 0), (1, 1), (2, 3), (-1, 1), (1, INF), (-INF, 2), (-4, -2), (3, 6), (0, INF)] } else { vec![(1, 1), (2, 3), (-1, 2), (1, INF)] };
    ws.iter().map(|w| graph(2, &[(0, 1, *w)], scale)).collect()
}
fn graphs3(scale: i64, all: bool) -> Vec<Gr> {
    let c = |i, j, a, b| -> Con { (i, j, (a, b)) };
    let mut v: Vec<Vec<Con>> = vec![
        vec![c(0, 1, 1, 2), c(1, 2, 1, 2)], vec![c(0, 1, 2, 3), c(0, 2, 1, 4), c(1, 2, -1, INF)], vec![c(0, 1, 0, 0), c(1, 2, 3, 3)], vec![c(0, 1, 1, INF), c(1, 2, 1, INF)],
    ];
    if all { v.extend([
        vec![], vec![c(0, 2, 2, 5)], vec![c(0, 1, 1, 4), c(2, 1, 1, 4)], vec![c(2, 0, 1, 3), c(1, 0, -2, 2), c(1, 2, -INF, 0)], vec![c(1, 0, 0, 2), c(2, 1, 0, 2), c(2, 0, 3, 4)], vec![c(0, 1, 3, 3), c(1, 2, 3, 3)], vec![c(2, 1, 0, INF), c(1, 0, 2, 6)],
    ]) }
    v.iter().map(|v| graph(3, v, scale)).collect()
}
fn graphs4(scale: i64) -> Vec<Gr> {
    let c = |i, j, a, b| -> Con { (i, j, (a, b)) };
    [vec![c(0, 1, 1, 2), c(1, 2, 1, 2), c(2, 3, 1, 2)], vec![c(0, 1, 1, 3), c(0, 2, 1, 3), c(1, 3, 0, 4), c(2, 3, 0, 4)], vec![c(3, 0, 0, 2), c(1, 2, 1, INF)], vec![c(0, 3, 2, 2), c(1, 3, 0, 3), c(2, 1, 1, 1)]]
        .iter().map(|v| graph(4, v, scale)).collect()
}
fn convex_w() -> Vec<Vec<Iv>> { [(0, 5), (3, 7), (2, 2), (-INF, 4), (4, INF), (1, 1), (6, 9), (-INF, INF)].iter().map(|i| vec![*i]).chain([vec![]]).collect() }
fn multi_w() -> Vec<Vec<Iv>> {
    vec![vec![(0, 1), (5, 6)], vec![(0, 0), (3, 3), (6, 6)], vec![(-INF, 1), (5, INF)], vec![(2, 3), (7, 9)], vec![(-INF, 2), (4, INF)], vec![(0, 2), (4, 6), (9, INF)], vec![(-INF, 0), (2, 2), (8, 8)]]
}
fn scp(p: &[Iv], k: i64) -> Vec<Iv> { p.iter().map(|i| sc(*i, k)).collect() }
fn lines(k: i64) -> Vec<Op> {
    let mut v = vec![];
    for d in [0, 2, 3, 4, 5, 7, 10] { v.push(Op::Deadline(d * k)); v.push(Op::Startline(d * k)) }
    v.push(Op::Deadline(INF)); v.push(Op::Startline(-INF));
    v
}
fn ops(n: usize, convex: bool, multi: bool, k: i64) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..n {
        if convex {
            for w in convex_w() { v.push(Op::Retain(i, scp(&w, k))) }
            for w in [vec![(4, INF)], vec![(-INF, 1)], vec![], vec![(-INF, INF)]] { v.push(Op::Remove(i, scp(&w, k))) }
        }
        if multi {
            for w in multi_w() { v.push(Op::Retain(i, scp(&w, k))) }
            for w in [vec![(1, 2)], vec![(3, 3)], vec![(0, 0), (2, 5)], vec![(-INF, 0), (4, 6)]] { v.push(Op::Remove(i, scp(&w, k))) }
        }
    }
    v
}
/// the same operations on later dates
fn moved(v: Vec<Op>, off: i128) -> Vec<Op> {
    let m = |x: i64| if fin(x) { clip(x as i128 + off) } else { x };
    let mp = |p: Vec<Iv>| p.iter().map(|i| (m(i.0), m(i.1))).filter(|i| i.0 < INF && i.1 > -INF).collect::<Vec<Iv>>();
    v.into_iter().filter(|o| match o { Op::Deadline(d) => !fin(*d) || m(*d) > -INF, Op::Startline(d) => !fin(*d) || m(*d) < INF, _ => true }).map(|o| match o { Op::Retain(i, p) => Op::Retain(i, mp(p)), Op::Remove(i, p) => Op::Remove(i, mp(p)), Op::Deadline(d) => Op::Deadline(m(d)), Op::Startline(d) => Op::Startline(m(d)) }).collect()
}
/// graphs whose windows are as wide as the range of the durations
fn graphs_far() -> Vec<Gr> {
    let (m, h) = (TMAX - 1, TMAX / 2 + 1);
    [(h, INF), (-INF, h), (-h, h), (m, m), (-m, -h), (1, m), (-m, m), (-INF, INF)].iter().map(|w| graph(2, &[(0, 1, *w)], 1)).collect()
}
fn ops_far(n: usize) -> Vec<Op> {
    let (m, h) = (TMAX - 1, TMAX / 2 + 1);
    let mut v = vec![];
    for i in 0..n {
        for w in [vec![(0, 5)], vec![(h, INF)], vec![(-INF, -h)], vec![(m, INF)], vec![(-m, -m)], vec![(-m, -h), (h, m)], vec![(-INF, -h), (0, 0), (h + 1, INF)], vec![(-m, -m), (-3, 3), (m, m)], vec![(TMIN, TMIN), (TMAX, TMAX)]] { v.push(Op::Retain(i, w)) }
        for w in [vec![(-h, h)], vec![(0, 0)], vec![(m, m)]] { v.push(Op::Remove(i, w)) }
    }
    for d in [0, h, -h, m, -m, TMIN, TMAX] { v.push(Op::Deadline(d)); v.push(Op::Startline(d)) }
    v
}
fn sm(graphs: Vec<Gr>, ops: Vec<Op>, focus: Focus) -> SM { let n = graphs[0].net.n; SM { graphs, ops, n, focus, pre: vec![], of: vec![] } }
const H: i64 = 3600 * S1;
/// 16 of them are still in range
const FAR: i64 = (1 << 58) + 1;

/// larger graphs, by shape
fn graphs_n(n: usize, scale: i64) -> Vec<Gr> {
    let m = n as u32;
    let w = |k: u32| -> Iv { [(1, 2), (0, 2), (2, 2), (0, INF), (-1, 1)][k as usize % 5] };
    let mut v: Vec<Vec<Con>> = vec![
        (0..m - 1).map(|i| (i, i + 1, (1, 2))).collect(),
        (0..m - 1).map(|i| (m - 1, i, (-(i as i64) - 1, 2))).collect(),
        (1..m).map(|i| ((i - 1) / 2, i, w(i))).collect(),
        (0..m - 1).map(|i| (i, i + 1, w(i))).chain([(0, m - 1, (-INF, m as i64 + 2))]).collect(),
        (0..m - 1).filter(|i| i % 3 != 2).map(|i| (i, i + 1, w(i + 1))).collect(),
        (0..m - 2).map(|i| (i, i + 2, (1, 3))).chain([(1, 0, (-1, 1))]).collect(),
    ];
    v.push((0..m - 1).rev().map(|i| (i + 1, i, (-3, 0))).collect());
    v.iter().map(|v| graph(n, v, scale)).collect()
}
/// many instants, few of them constrained
fn graphs_few(n: usize) -> Vec<Gr> {
    let m = n as u32;
    let far = vec![(0, m - 1, (1, 4)), (m - 1, m / 2, (-2, INF)), (1, m - 2, (2, 2))];
    vec![graph(n, &far[..2], 1), if n < 300 { graph(n, &(0..m - 1).map(|i| (i, i + 1, [(1, 2), (0, 1), (-1, INF)][i as usize % 3])).collect::<Vec<_>>(), 1) } else { graph(2, &[], 1) }, graph(n, &far, 1)]
}
fn few_ops(n: usize, which: &[usize], multi: bool, k: i64) -> Vec<Op> {
    let m = n as i64;
    let mut v = vec![];
    for i in which {
        for w in [vec![(0, 5)], vec![(3, 3)], vec![(-INF, m)], vec![(m / 2, INF)], vec![(m + 1, 2 * m)]] { v.push(Op::Retain(*i, scp(&w, k))) }
        v.push(Op::Remove(*i, scp(&[(4, INF)], k)));
        if multi {
            for w in [vec![(0, 1), (5, 6)], vec![(-INF, 1), (4, INF)], vec![(0, 0), (3, 3), (m, m + 1)]] { v.push(Op::Retain(*i, scp(&w, k))) }
            v.push(Op::Remove(*i, scp(&[(2, 4)], k)));
        }
    }
    for d in [2, m, 2 * m] { v.push(Op::Deadline(d * k)); v.push(Op::Startline(d * k)) }
    v
}
/// many instants, few operations
fn many(f: Focus, th: bool) -> Fams {
    let d = th as usize;
    let all = |n: usize| (0..n).collect::<Vec<_>>();
    let ends = |n: usize| vec![0, 1, n / 2, n - 1];
    let mut v: Fams = vec![];
    for n in [5usize, 6, 8] { v.push(bfs(format!("convex histories on {n} instants"), "7 graphs", sm(graphs_n(n, 1), few_ops(n, &all(n), false, 1), f), 2 + d, true)) }
    v.push(bfs("histories in pieces on 5 instants", "7 graphs", sm(graphs_n(5, 1), few_ops(5, &all(5), true, 1), f), 2 + d, true));
    v.push(bfs("histories in pieces on 7 instants, hours", "7 graphs", sm(graphs_n(7, H), few_ops(7, &ends(7), true, H), f), 2, true));
    for n in [12usize, 17, 33] { v.push(bfs(format!("histories on {n} instants"), "7 graphs, 4 instants restricted", sm(graphs_n(n, 1), few_ops(n, &ends(n), n < 33, 1), f), if n < 33 { 2 } else { 1 + d }, true)) }
    for n in [129usize, 257] { v.push(bfs(format!("histories on {n} instants"), "3 graphs, 4 instants restricted", sm(graphs_few(n), few_ops(n, &ends(n), true, 1), f), 1, true)) }
    v.push(bfs(format!("histories on {} instants", if th { 2049 } else { 1025 }), "1 graph, 2 instants restricted", sm(graphs_few(if th { 2049 } else { 1025 }).split_off(2), few_ops(if th { 2049 } else { 1025 }, &[0, if th { 2048 } else { 1024 }], false, 1).into_iter().step_by(3).collect(), f), 1, true));
    v.push(bfs("histories on 65 instants", "7 graphs, 4 instants restricted", sm(graphs_n(65, S1), few_ops(65, &ends(65), true, S1), f), 1, true));
    v
}
/// graphs and dates for which many updates follow the loss of one date (found by a separate search)
type Chain = (&'static [&'static [i64]], &'static [u32]);
const CHAINS3: &[Chain] = &[
    (&[&[0, 1, 4], &[1, 0, 3], &[-2, -1, 0]], &[21569536, 52727808, 315195392]),
    (&[&[0, 4, 4], &[-1, 0, 3], &[-1, 0, 0]], &[10626624, 27337344, 29920256]),
    (&[&[0, 2, 4], &[1, 0, 2], &[-1, 1, 0]], &[152120320, 815345664, 680091648]),
    (&[&[0, 3, 4], &[-1, 0, 3], &[-2, -1, 0]], &[13181952, 23664640, 120111104]),
    (&[&[0, -1, 2], &[3, 0, 5], &[0, -3, 0]], &[52711424, 4859392, 119848960]),
    (&[&[0, 2, 5], &[0, 0, 3], &[-3, -1, 0]], &[2378, 14936, 58672]),
    (&[&[0, 0, -1], &[3, 0, 2], &[3, 1, 0]], &[168210, 18569, 25123]),
    (&[&[0, 1, 3], &[2, 0, 4], &[0, -2, 0]], &[823205888, 237187072, 571670528]),
];
const CHAINS4: &[Chain] = &[
    (&[&[0, 1, 0, 6], &[2, 0, 1, 5], &[3, 1, 0, 6], &[-3, -3, -3, 0]], &[3789192, 5382952, 2385500, 246487808]),
    (&[&[0, -1, -1, 2], &[3, 0, 2, 5], &[3, 1, 0, 3], &[0, -2, -1, 0]], &[346030080, 54788096, 212336640, 717225984]),
    (&[&[0, 2, 3, 6], &[0, 0, 1, 4], &[-1, 1, 0, 3], &[-3, -2, -1, 0]], &[14286848, 43253760, 105381888, 913309696]),
    (&[&[0, -1, -1, 2], &[3, 0, 2, 5], &[3, 0, 0, 5], &[0, -3, -3, 0]], &[74752, 53888, 60288, 503808]),
    (&[&[0, 1, 0, 1], &[1, 0, 0, 1], &[2, 1, 0, 2], &[1, 0, -1, 0]], &[3295232, 1349632, 1887232, 2699264]),
    (&[&[0, 1, 1, 4], &[2, 0, 3, 4], &[2, 0, 0, 3], &[-1, -2, 0, 0]], &[148992, 83072, 78720, 1002496]),
];
const CHAINS5: &[Chain] = &[
    (&[&[0, 2, 2, 5, 2], &[1, 0, 2, 3, 2], &[0, 0, 0, 3, 0], &[-2, -1, 0, 0, -1], &[1, 0, 1, 3, 0]], &[78, 50, 216, 456, 236]),
    (&[&[0, 0, 1, -1, 1], &[1, 0, 2, 0, 2], &[0, -1, 0, -2, 0], &[2, 1, 3, 0, 3], &[0, -1, 1, -1, 0]], &[1664, 1728, 2688, 992, 3968]),
    (&[&[0, 1, 0, 4, 5], &[0, 0, 0, 4, 5], &[1, 1, 0, 4, 6], &[-2, -2, -3, 0, 3], &[-3, -3, -4, -1, 0]], &[240, 208, 88, 1472, 6016]),
    (&[&[0, 0, 2, -1, 2], &[2, 0, 4, 1, 4], &[-1, -2, 0, -2, 1], &[2, 1, 3, 0, 3], &[-1, -2, 0, -2, 0]], &[54525952, 19922944, 125829120, 23068672, 260046848]),
    (&[&[0, 0, -1, 0, 2], &[1, 0, 0, 1, 2], &[2, 1, 0, 1, 3], &[1, 0, 0, 0, 2], &[-1, -1, -2, -1, 0]], &[55296, 27648, 15360, 30720, 86016]),
];
const CHAINS6: &[Chain] = &[
    (&[&[0, -1, -1, -1, 2, 1], &[2, 0, 1, 1, 3, 3], &[2, 0, 0, 0, 3, 2], &[3, 2, 2, 0, 4, 4], &[-1, -2, -2, -2, 0, 0], &[0, -1, -1, -2, 2, 0]], &[40, 22, 28, 23, 112, 120]),
    (&[&[0, 2, 3, 1, 0, 1], &[-1, 0, 1, -1, -2, -1], &[-2, 0, 0, -1, -2, -1], &[0, 1, 2, 0, -1, 0], &[1, 3, 3, 2, 0, 2], &[0, 2, 3, 1, 0, 0]], &[163840, 393216, 917504, 196608, 114688, 229376]),
    (&[&[0, 2, 1, 1, 3, 2], &[-1, 0, 0, 0, 2, 1], &[-1, 1, 0, 0, 2, 1], &[0, 1, 1, 0, 3, 2], &[-2, 0, -1, -1, 0, 0], &[-2, 0, -1, -1, 1, 0]], &[4194320, 25165920, 8388640, 8388640, 33554560, 16777280]),
];
/// all the dates but one: the loss goes from instant to instant, several times over each of them
fn chains(f: Focus, th: bool) -> Fams {
    let d = th as usize;
    [(CHAINS3, 2 + d), (CHAINS4, 2), (CHAINS5, 2), (CHAINS6, 2)].into_iter().map(|(cs, depth)| {
        let n = cs[0].1.len();
        let (mut graphs, mut pre, mut ops, mut of) = (vec![], vec![], vec![], vec![]);
        for (k, (u, dates)) in cs.iter().enumerate() {
            let mut l: Vec<Con> = vec![];
            for i in 0..n { for j in i + 1..n { l.push((i as u32, j as u32, (-u[j][i], u[i][j]))) } }
            graphs.push(graph(n, &l, 1));
            let p = |m: u32| -> Vec<Iv> { canon((0..32).filter(|b| m >> b & 1 == 1).map(|b| (b, b)).collect()) };
            pre.push((0..n).map(|i| Op::Retain(i, p(dates[i]))).collect());
            for i in 0..n { for b in 0..32 { if dates[i] >> b & 1 == 1 { ops.push(Op::Remove(i, vec![(b, b)])); of.push(k) } } }
            for b in (1..30).step_by(4) { if b % 3 != 0 { ops.push(Op::Retain(b as usize % n, vec![(-INF, b), (b + 2, INF)])); } else { ops.push(Op::Deadline(b)); ops.push(Op::Startline(b)); of.push(k) } of.push(k) }
        }
        bfs(format!("losses of dates on {n} instants"), format!("{} graphs and sets of dates, each date removed", graphs.len()), SM { graphs, ops, n, focus: f, pre, of }, depth, true)
    }).collect()
}
/// graphs of one or two constraints at every place, each restricted at the ends of its constraints
fn lone(f: Focus, th: bool) -> Box<dyn Family> {
    let one: [Iv; 6] = [(2, INF), (-INF, 3), (1, 4), (0, 0), (-INF, -1), (-3, INF)];
    let two: [[Iv; 2]; 4] = [[(2, INF), (1, INF)], [(1, 4), (-INF, 3)], [(0, 0), (2, 2)], [(-INF, -1), (-3, 5)]];
    let mut lists: Vec<(usize, Vec<Con>)> = vec![];
    let top = if th { 24 } else { 12 };
    for n in (2..=top).chain([16, 17, 18, 31, 32, 33, 34, 64, 65, 66]) {
        let is: Vec<u32> = if n <= top { (0..n as u32).collect() } else { let mut v: Vec<u32> = [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, n / 2, n - 2, n - 1].iter().filter(|x| **x < n).map(|x| *x as u32).collect(); v.sort(); v.dedup(); v };
        for i in &is { for j in &is { if i != j { for (k, w) in one.iter().enumerate() { if n <= top || (*i + *j) as usize % 3 == k % 3 { lists.push((n, vec![(*i, *j, *w)])) } } } } }
        if n <= if th { 9 } else { 6 } { for i in &is { for j in &is { for k in &is { if i != j && j != k { for w in &two { if Net::new(n).add_fast((*i, *j, w[0])).and_then(|m| m.add_fast((*j, *k, w[1]))).is_some() { lists.push((n, vec![(*i, *j, w[0]), (*j, *k, w[1])])) } } } } } } }
    }
    let ms: Vec<SM> = lists.iter().map(|(n, l)| {
        let gr = graph(*n, l, 1);
        let mut ends: Vec<usize> = l.iter().flat_map(|c| [c.0 as usize, c.1 as usize]).collect();
        ends.sort(); ends.dedup();
        let mut ops = vec![];
        for i in ends {
            for w in [vec![(0, 5)], vec![(-INF, 2)], vec![(0, 1), (5, 6), (20, INF)]] { ops.push(Op::Retain(i, w)) }
            ops.push(Op::Remove(i, vec![(4, 9)]));
        }
        ops.extend([Op::Deadline(7), Op::Startline(3)]);
        sm(vec![gr], ops, f)
    }).collect();
    let ms = Arc::new(ms);
    let m2 = ms.clone();
    let n = ms.len();
    idx("schedulers of graphs of one or two constraints", format!("{n} graphs of up to 66 instants, each one restricted at each end of the constraints, then at another one"), n as u64,
        move |i, rec| {
            let m = &ms[i as usize];
            let s = m.init(0);
            for (k, o) in m.ops.iter().enumerate() {
                for form in 0..o.forms() {
                    let Some(x) = m.after(&s, o, form, rec).map_err(|e| format!("{}: {e}", o.show()))? else { continue };
                    if form > 0 { continue }
                    rec.st(hash_words(&m.key(&x)));
                    let o2 = &m.ops[(k + 3) % m.ops.len()];
                    m.after(&x, o2, 0, rec).map_err(|e| format!("{}; {}: {e}", o.show(), o2.show()))?;
                }
            }
            Ok(())
        },
        move |i| m2[i as usize].init_name(0) + &format!(" on {} instants", m2[i as usize].n))
}
/// three instants for which the loss of the first dates goes round, one date of each at each turn
fn spirals(f: Focus, th: bool) -> Fams {
    let mut v: Fams = vec![];
    for k in if th { vec![12, 65, 200, 700] } else { vec![12, 65, 200] } {
        let k: i64 = k;
        let (mut graphs, mut pre, mut ops, mut of) = (vec![], vec![], vec![], vec![]);
        for (x, perm) in orders(3).into_iter().enumerate() { for back in [false, true] {
            if x % 2 == 1 && k > 100 && !th { continue }
            let c = |a: usize, b: usize, w: Iv| -> Con { (perm[a] as u32, perm[b] as u32, if back { (-w.1, -w.0) } else { w }) };
            let (p, q) = (3 + x as i64, 5);
            graphs.push(graph(3, &[c(0, 1, (p - 1, p)), c(1, 2, (q - 1, q)), c(0, 2, (p + q - 2, p + q - 1))], 1));
            // isolated dates every two ticks, between two unbounded pieces
            let slots = |off: i64| -> Vec<Iv> {
                let v = canon((0..=k).map(|j| if j == 0 { (-INF, off) } else if j == k { (2 * k + off, INF) } else { (2 * j + off, 2 * j + off) }).collect());
                if back { v.into_iter().rev().map(|i| (-i.1, -i.0)).collect() } else { v }
            };
            pre.push(vec![Op::Retain(perm[0], slots(0)), Op::Retain(perm[1], slots(p)), Op::Retain(perm[2], slots(p + q))]);
            let g = graphs.len() - 1;
            let m = |t: i64| if back { -t } else { t };
            for (i, off) in [(0usize, 0), (1, p), (2, p + q)] {
                let keep = if back { vec![(-INF, -1 - off)] } else { vec![(off + 1, INF)] };
                ops.push(Op::Retain(perm[i], keep.clone()));
                if k < 100 { ops.push(Op::Remove(perm[i], p_compl(&keep))); ops.push(Op::Remove(perm[i], vec![(m(off + k / 2 * 2), m(off + k / 2 * 2))])); }
            }
            ops.push(if back { Op::Deadline(-1) } else { Op::Startline(1) });
            if k < 100 { ops.push(if back { Op::Startline(-2 * k) } else { Op::Deadline(2 * k) }) }
            of.resize(ops.len(), g);
        } }
        v.push(bfs(format!("losses which go round {k} times"), format!("{} graphs of 3 instants, slots of {} pieces, lost one after the other", graphs.len(), k + 1), SM { graphs, ops, n: 3, focus: f, pre, of }, if k < 50 { 2 } else { 1 }, true));
    }
    v
}
/// the same where each of the three instants has several others at the very same date
fn crowds(f: Focus, th: bool) -> Fams {
    let mut v: Fams = vec![];
    for (m, k) in if th { vec![(2usize, 12i64), (4, 12), (9, 12), (4, 65), (22, 12)] } else { vec![(2, 12), (4, 12), (9, 9)] } {
        let n = 3 * m;
        let (mut graphs, mut pre, mut ops, mut of) = (vec![], vec![], vec![], vec![]);
        for (x, perm) in orders(3).into_iter().enumerate() { for spread in [false, true] {
            // the j-th instant of role r
            let at = |r: usize, j: usize| -> usize { if spread { 3 * j + perm[r] } else { perm[r] * m + (j + x) % m } };
            let c = |a: usize, b: usize, w: Iv| -> Con { (a as u32, b as u32, w) };
            let (p, q) = (3, 5 + x as i64);
            let mut l = vec![c(at(0, 0), at(1, m - 1), (p - 1, p)), c(at(1, 0), at(2, m / 2), (q - 1, q)), c(at(0, m / 2), at(2, 0), (p + q - 2, p + q - 1))];
            for r in 0..3 { for j in 1..m { l.push(if x % 2 == 0 { c(at(r, j - 1), at(r, j), (0, 0)) } else { c(at(r, j), at(r, 0), (0, 0)) }) } }
            graphs.push(graph(n, &l, 1));
            let slots = |off: i64| canon((0..=k).map(|j| if j == 0 { (-INF, off) } else if j == k { (2 * k + off, INF) } else { (2 * j + off, 2 * j + off) }).collect());
            pre.push([0, p, p + q].iter().enumerate().map(|(r, o)| Op::Retain(at(r, (x + r) % m), slots(*o))).collect());
            for (r, off) in [(0usize, 0), (1, p), (2, p + q)] { for j in [0, m - 1] {
                ops.push(Op::Retain(at(r, j), vec![(off + 1, INF)]));
                ops.push(Op::Remove(at(r, j), vec![(off + k / 2 * 2, off + k / 2 * 2)]));
            } }
            ops.push(Op::Startline(1));
            ops.push(Op::Deadline(2 * k));
            of.resize(ops.len(), graphs.len() - 1);
        } }
        v.push(bfs(format!("losses which go round {k} times among {n} instants"), format!("{} graphs of three groups of {m} simultaneous instants", graphs.len()), SM { graphs, ops, n, focus: f, pre, of }, if m < 9 { 2 } else { 1 }, true));
    }
    v
}
/// long histories: dates removed one by one, lines moved one date at a time
fn deep(f: Focus, th: bool) -> Fams {
    let mut v: Fams = vec![];
    for n in [2usize, 3] {
        let graphs = if n == 2 { graphs2(1, false) } else { graphs3(1, false) };
        let m = if n == 2 { 60 } else { 24 };
        let mut ops = vec![];
        for b in 0..m { for i in 0..n { if (b + i as i64) % 4 != 0 { ops.push(Op::Remove(i, vec![(b, b)])) } } if b % 5 == 0 { ops.push(Op::Deadline(m + 40 - b)); ops.push(Op::Startline(b / 4 - 30)) } if b % 8 == 3 { ops.push(Op::Retain(b as usize % n, vec![(-INF, b + 1), (b + 4, INF)])) } }
        let k = graphs.len();
        let paths = strides(ops.len(), if th { 30 } else { 8 }).into_iter().flat_map(|p| (0..k).map(move |g| (g, p.clone()))).collect();
        v.push(runs(format!("long histories on {n} instants"), "dates removed one by one, lines moved", sm(graphs, ops, f), paths));
    }
    v
}
/// lines at the very dates where one instant begins or ends, among any number of instants with few constraints or none
fn lined(f: Focus, th: bool) -> Fams {
    let d = 7i64;
    [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33, 65].into_iter().filter(|n| th || *n < 65).map(|n| {
        let m = n as u32;
        let mut graphs = vec![graph(n, &[], 1)];
        if n > 2 {
            graphs.push(graph(n, &[(0, 1, (0, 2))], 1));
            graphs.push(graph(n, &[(m - 1, m - 2, (1, INF))], 1));
            graphs.push(graph(n, &(0..m - 1).step_by(2).map(|i| (i, i + 1, (0, 0))).collect::<Vec<_>>(), 1));
            graphs.push(graph(n, &(0..m - 1).map(|i| (i, m - 1, (-INF, 1))).collect::<Vec<_>>(), 1));
        }
        let mut ops = vec![];
        for i in if n <= 12 { (0..n).collect::<Vec<_>>() } else { vec![0, 1, n / 2, n - 1] } {
            for w in [vec![(d, INF)], vec![(-INF, d)], vec![(d, d)], vec![(-INF, d), (d + 2, INF)], vec![(d - 2, d - 2), (d, d + 3)]] { ops.push(Op::Retain(i, w)) }
            ops.push(Op::Remove(i, vec![(d - 1, d + 1)]));
        }
        for x in [d - 1, d, d + 1] { ops.push(Op::Deadline(x)); ops.push(Op::Startline(x)) }
        bfs(format!("lines at the ends of the windows of {n} instants"), format!("{} graphs of few constraints", graphs.len()), sm(graphs, ops, f), if n > 17 { 1 + th as usize } else { 2 }, true)
    }).collect()
}
/// every interval, half-line and pair of intervals as restriction of instants which have several slots
fn cuts(f: Focus, th: bool) -> Fams {
    let base: Vec<Vec<Iv>> = vec![
        vec![(2, 9)], vec![(1, 4), (8, 11)], vec![(-INF, 2), (5, 5), (9, INF)], vec![(1, 3), (5, 8), (11, 12)], vec![(0, 0), (2, 4), (6, 6), (9, 12)],
        vec![(-INF, 0), (2, 2), (4, 5), (8, 9), (11, INF)], vec![(0, 1), (3, 4), (6, 6), (8, 8), (10, 10), (12, 13)], vec![(-INF, 6), (8, INF)],
    ];
    let top = 14i64;
    let mut v: Fams = vec![];
    for n in [1usize, 2, 3] {
        let gs: Vec<Vec<Con>> = match n { 1 => vec![vec![]], 2 => vec![vec![], vec![(0, 1, (2, 3))], vec![(0, 1, (0, 0))], vec![(1, 0, (-1, INF))]], _ => vec![vec![(0, 1, (1, 2)), (1, 2, (0, 1))], vec![(2, 0, (-4, -3)), (1, 2, (-INF, 2))]] };
        let (mut graphs, mut pre, mut ops, mut of) = (vec![], vec![], vec![], vec![]);
        for g in &gs { for (x, b) in base.iter().enumerate() {
            if n == 3 && x % 2 == 0 && !th { continue }
            graphs.push(graph(n, g, 1));
            let mut l = vec![Op::Retain(0, b.clone())];
            if n > 1 { l.push(Op::Retain(1, base[(x * 3 + 1) % base.len()].iter().map(|i| (if fin(i.0) { i.0 + 2 } else { i.0 }, if fin(i.1) { i.1 + 2 } else { i.1 })).collect())) }
            pre.push(l);
            let mut ws: Vec<Vec<Iv>> = vec![];
            for a in -1..=top { for c in a..=top { ws.push(vec![(a, c)]) } ws.push(vec![(a, INF)]); ws.push(vec![(-INF, a)]); ws.push(vec![(-INF, a), (a + 2, INF)]) }
            for a in 0..=top - 4 { for c in a + 2..=top { ws.push(vec![(a, a), (c, c + (a + c) % 3)]) } }
            for (k, w) in ws.into_iter().enumerate() { for i in 0..n.min(2) {
                ops.push(Op::Retain(i, w.clone()));
                if k % 2 == i { ops.push(Op::Remove(i, w.clone())) }
            } }
            for a in -1..=top { ops.push(Op::Deadline(a)); ops.push(Op::Startline(a)) }
            of.resize(ops.len(), graphs.len() - 1);
        } }
        v.push(bfs(format!("every interval as restriction of {n} instants in several slots"), format!("{} graphs and sets of slots", graphs.len()), SM { graphs, ops, n, focus: f, pre, of }, if th && n == 1 { 2 } else { 1 }, true));
    }
    v
}
/// restrictions in many pieces
fn long_ops(sizes: &[usize]) -> Vec<Op> {
    let mut v = vec![];
    for n in sizes { let n = *n as i64;
        v.push(Op::Retain(0, (0..n).map(|k| (10 * k, 10 * k + 3)).collect()));
        v.push(Op::Retain(1, (0..n).map(|k| (10 * k + 5, 10 * k + 6)).collect()));
        v.push(Op::Retain(1, (0..n).map(|k| (7 * k, 7 * k + 1)).collect()));
        v.push(Op::Remove(0, (0..n).map(|k| (11 * k, 11 * k + 4)).collect()));
        v.push(Op::Retain(0, (0..n).map(|k| (if k == 0 { -INF } else { 3 * k }, if k == n - 1 { INF } else { 3 * k })).collect()));
    }
    v.push(Op::Deadline(77)); v.push(Op::Startline(31));
    v
}
fn long(f: Focus, th: bool) -> Fams {
    let sizes: &[usize] = if th { &[5, 16, 17, 31, 32, 33, 40, 63, 64, 65, 66, 100] } else { &[5, 17, 33, 40, 65] };
    vec![bfs("restrictions in many pieces", format!("4 graphs of 2 instants, windows of up to {} pieces", sizes.last().unwrap()), sm(graphs2(1, false), long_ops(sizes), f), 2, true)]
}
/// brute force over dates 0..=9: no assignment outside the slots, for a bare history
fn brute(th: bool) -> Box<dyn Family> {
    let gs: Arc<Vec<Gr>> = Arc::new(graphs3(1, true));
    let bits: Vec<u64> = { let m = if th { 1u64 << 6 } else { 1 << 5 }; (1..m).collect() };
    let k = bits.len() as u64;
    let g2 = gs.clone();
    let p = |m: u64| -> Vec<Iv> { canon((0..6).filter(|b| m >> b & 1 == 1).map(|b| (b * 2, b * 2 + if b == 3 { 1 } else { 0 })).collect()) };
    let per = k * k * k;
    let b2 = bits.clone();
    idx("every assignment of three instants", format!("11 graphs, all {k}^3 triples of sets of dates retained; solutions enumerated over dates 0..=11"), gs.len() as u64 * per,
        move |i, rec| {
            let gr = &gs[(i / per) as usize];
            let j = i % per;
            let w: Vec<Vec<Iv>> = [bits[(j / k / k) as usize], bits[(j / k % k) as usize], bits[(j % k) as usize]].iter().map(|m| p(*m)).collect();
            let mut seen = [0u64; 3];
            for a in 0..12i64 { if !p_has(&w[0], a) { continue } for b in 0..12i64 { if !p_has(&w[1], b) { continue } for c in 0..12i64 {
                if p_has(&w[2], c) && solves(&gr.net, &w, &[a, b, c]) { for (s, t) in seen.iter_mut().zip([a, b, c]) { *s |= 1 << t } }
            } } }
            let mut s = TimeScheduler::new(gr.g);
            let acc = (0..3).all(|x| s.retain(x as u32, set_of::<Timestamp>(&w[x])).is_ok());
            rec.tr(3);
            ensure!(acc == (seen[0] != 0), "{} although solutions {}", if acc { "accepted" } else { "refused" }, if acc { "do not exist" } else { "exist" });
            if acc {
                let sl = slots(&s);
                rec.st(hash_words(&flat(&sl)));
                for x in 0..3 { for t in 0..12 { if seen[x] >> t & 1 == 1 { ensure!(p_has(&sl[x], t), "t{x} loses {t} which belongs to a solution") } } }
            }
            Ok(())
        },
        move |i| { let j = i % per; format!("graph {} retain {} / {} / {}", g2[(i / per) as usize].name, show_ps(&p(b2[(j / k / k) as usize])), show_ps(&p(b2[(j / k % k) as usize])), show_ps(&p(b2[(j % k) as usize]))) })
}
fn histories(f: Focus, th: bool) -> Fams {
    let d = th as usize;
    vec![
        bfs("convex histories on 2 instants", "10 graphs", sm(graphs2(1, true), [ops(2, true, false, 1), lines(1)].concat(), f), 3 + d, true),
        bfs("histories in pieces on 2 instants", "10 graphs", sm(graphs2(1, true), [ops(2, true, true, 1), lines(1)].concat(), f), 3, true),
        bfs("convex histories on 3 instants", "11 graphs", sm(graphs3(1, true), [ops(3, true, false, 1), lines(1)].concat(), f), 3, true),
        bfs("histories in pieces on 3 instants", "11 graphs", sm(graphs3(1, true), [ops(3, false, true, 1), lines(1)].concat(), f), 3, true),
        bfs("mixed histories on 3 instants, hours", "4 graphs", sm(graphs3(H, false), [ops(3, true, true, H), lines(H)].concat(), f), 2 + d, true),
        bfs("mixed histories on 4 instants", "4 graphs", sm(graphs4(1), [ops(4, true, true, 1), lines(1)].concat(), f), 2 + d, true),
        bfs("mixed histories on 2 instants, near the range", "10 graphs", sm(graphs2(FAR, true), [ops(2, true, true, FAR), lines(FAR)].concat(), f), 2 + d, true),
        bfs("mixed histories on 3 instants, near the range", "4 graphs", sm(graphs3(FAR, false), [ops(3, true, true, FAR), lines(FAR)].concat(), f), 2, true),
        bfs("mixed histories on 3 instants, around the origin", "4 graphs", sm(graphs3(1, false), moved([ops(3, true, true, 1), lines(1)].concat(), -5), f), 2, true),
        bfs("mixed histories on 2 instants, at the last dates", "10 graphs", sm(graphs2(1, true), moved([ops(2, true, true, 1), lines(1)].concat(), TMAX as i128 - 6), f), 2 + d, true),
        bfs("mixed histories on 3 instants, at the last dates", "4 graphs", sm(graphs3(1, false), moved([ops(3, true, true, 1), lines(1)].concat(), TMAX as i128 - 7), f), 2, true),
        bfs("mixed histories on 2 instants, at the first dates", "10 graphs", sm(graphs2(1, true), moved([ops(2, true, true, 1), lines(1)].concat(), TMIN as i128 - 3), f), 2 + d, true),
        bfs("mixed histories on 3 instants, at the first dates", "4 graphs", sm(graphs3(1, false), moved([ops(3, true, true, 1), lines(1)].concat(), TMIN as i128 - 2), f), 2, true),
        bfs("mixed histories on 2 instants, from the first to the last dates", "8 graphs", sm(graphs_far(), ops_far(2), f), 2 + d, true),
        bfs("mixed histories on 3 instants, long before the origin", "4 graphs", sm(graphs3(H, false), moved([ops(3, true, true, H), lines(H)].concat(), -(1 << 62) - 1), f), 2, true),
    ]
}
fn wide(f: Focus, th: bool) -> Fams { let mut v = many(f, th); v.extend(long(f, th)); v.extend(chains(f, th)); v.extend(deep(f, th)); v.extend(lined(f, th)); v.extend(cuts(f, th)); v.push(lone(f, th)); v.extend(spirals(f, th)); v.extend(crowds(f, th)); v }
pub fn c20(th: bool) -> Fams { let mut v = histories(Focus::Sound, th); v.push(brute(th)); v.extend(wide(Focus::Sound, th)); v }
pub fn c21(th: bool) -> Fams { let mut v = histories(Focus::Complete, th); v.extend(wide(Focus::Complete, th)); v }
pub fn c22(th: bool) -> Fams {
    let mut v = histories(Focus::Reports, th);
    v.push(bfs("every short history, nothing merged", "4 graphs of 2 instants", sm(graphs2(1, false), [ops(2, true, true, 1), lines(1)].concat(), Focus::Reports), 2 + th as usize, false));
    v.extend(wide(Focus::Reports, th));
    v
}
pub fn c23(th: bool) -> Fams {
    let d = th as usize;
    let f = Focus::Lines;
    let few = |n: usize, k: i64| -> Vec<Op> { let mut v = lines(k); for i in 0..n { for w in [vec![(0, 5)], vec![(2, 2)], vec![(4, INF)], vec![(0, 1), (5, 6)], vec![(-INF, 1), (5, INF)], vec![(0, 0), (3, 3), (6, 6)]] { v.push(Op::Retain(i, scp(&w, k))) } v.push(Op::Remove(i, scp(&[(3, 4)], k))) } v };
    let mut v = wide(f, th);
    v.extend(vec![
        bfs("lines and restrictions on 1 instant", "1 graph", sm(vec![graph(1, &[], 1)], few(1, 1), f), 4 + d, true),
        bfs("lines and restrictions on 2 instants", "10 graphs", sm(graphs2(1, true), few(2, 1), f), 3 + d, true),
        bfs("lines and restrictions on 3 instants", "11 graphs", sm(graphs3(1, true), few(3, 1), f), 3, true),
        bfs("lines and restrictions on 3 instants, hours", "4 graphs", sm(graphs3(H, false), few(3, H), f), 2 + d, true),
        bfs("lines and restrictions on 4 instants", "4 graphs", sm(graphs4(1), few(4, 1), f), 2 + d, true),
        bfs("lines and restrictions on 2 instants, near the range", "10 graphs", sm(graphs2(FAR, true), few(2, FAR), f), 2 + d, true),
        bfs("lines and restrictions on 2 instants, around the origin", "10 graphs", sm(graphs2(1, true), moved(few(2, 1), -3), f), 2 + d, true),
        bfs("lines and restrictions on 2 instants, at the last dates", "10 graphs", sm(graphs2(1, true), moved(few(2, 1), TMAX as i128 - 6), f), 2 + d, true),
        bfs("lines and restrictions on 2 instants, at the first dates", "10 graphs", sm(graphs2(1, true), moved(few(2, 1), TMIN as i128 - 3), f), 2 + d, true),
        bfs("lines and restrictions on 2 instants, from the first to the last dates", "8 graphs", sm(graphs_far(), ops_far(2), f), 2 + d, true),
    ] as Fams);
    v
}
