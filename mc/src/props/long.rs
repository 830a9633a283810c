//! Windows of many pieces, for every property about windows: each way of writing many pieces, at
//! every number of pieces around the sizes where an implementation could switch strategy
use super::arith::{sc_ops, tr_ops};
use super::iters::{two, walk};
use super::sets::{c05_one, chk_canon, chk_window, p_lt, pair_ops};
use super::text::{chk_text, rt, Txt};
use super::Fams;
use crate::engine::*;
use crate::model::*;
use crate::{chk_cmp, ensure};
use chronologic::iter::*;
use chronologic::*;
use std::cmp::Ordering;
use std::sync::Arc;

const KINDS: usize = 10;
fn pattern(kind: usize, n: usize) -> Vec<Iv> {
    let m = n as i64;
    let v: Vec<Iv> = (0..m).map(|k| match kind {
        0 => (10 * k, 10 * k + 3),
        1 => (10 * k + 4, 10 * k + 9 - (k + 1 == m) as i64), // fills the gaps of the first
        2 => (10 * k + 2, 10 * k + 6),
        3 => (10 * k + 5, 10 * k + 5),
        4 => (70 * k + 1, 70 * k + 62),
        5 => (10 * (k + 33) + 1, 10 * (k + 33) + 8),
        6 => (if k == 0 { -INF } else { 20 * k }, if k + 1 == m { INF } else { 20 * k + 7 }),
        7 => (-10 * (m - k), -10 * (m - k) + 4),
        8 => (if k == 0 { -INF } else { 9 * (k - m / 2) }, 9 * (k - m / 2) + 5),
        _ => (6 * (k - m / 3), if k + 1 == m { INF } else { 6 * (k - m / 3) + 4 }),
    }).collect();
    if kind == 1 { v.into_iter().filter(|i| i.0 <= i.1).map(|i| (i.0, if i.1 % 10 == 9 { i.1 - 1 } else { i.1 })).collect() } else { v }
}
fn sizes(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = if th { (0..=140).collect() } else { (0..=18).chain(30..=35).chain(62..=66).chain(126..=130).collect() };
    v.extend([254usize, 255, 256, 257, 258].iter().take(if th { 5 } else { 0 }));
    v
}
/// linear versions of the reference operations, for canonical operands
fn f_union(a: &[Iv], b: &[Iv]) -> Vec<Iv> {
    let (mut i, mut j, mut r): (usize, usize, Vec<Iv>) = (0, 0, Vec::with_capacity(a.len() + b.len()));
    while i < a.len() || j < b.len() {
        let x = if j == b.len() || (i < a.len() && a[i].0 <= b[j].0) { i += 1; a[i - 1] } else { j += 1; b[j - 1] };
        match r.last_mut() { Some(l) if l.1 == INF || x.0 == -INF || x.0 <= l.1 + 1 => l.1 = l.1.max(x.1), _ => r.push(x) }
    }
    r
}
fn f_inter(a: &[Iv], b: &[Iv]) -> Vec<Iv> {
    let (mut i, mut j, mut r) = (0, 0, vec![]);
    while i < a.len() && j < b.len() {
        let x = (a[i].0.max(b[j].0), a[i].1.min(b[j].1));
        if x.0 <= x.1 { r.push(x) }
        if a[i].1 < b[j].1 { i += 1 } else { j += 1 }
    }
    r
}
struct Bank<T: Pt> { p: Vec<Vec<Iv>>, s: Vec<TimeSet<T>>, name: Vec<String> }
fn bank<T: Pt>(th: bool, more: &[usize]) -> Arc<Bank<T>> {
    let mut b = Bank { p: vec![], s: vec![], name: vec![] };
    for kind in 0..KINDS { for n in sizes(th).into_iter().chain(more.iter().copied()) {
        if kind >= 8 && n % 3 == 0 && n > 20 { continue }
        let p = canon(pattern(kind, n));
        if b.p.contains(&p) { continue }
        b.s.push(set_of::<T>(&p));
        b.name.push(format!("{} pieces of pattern {kind}", p.len()));
        b.p.push(p);
    } }
    Arc::new(b)
}
fn pairs<T: Pt>(what: &str, th: bool, f: impl Fn(&Bank<T>, usize, usize, &mut Rec) -> R + Sync + Send + 'static) -> Box<dyn Family> {
    let b = bank::<T>(th, &[]);
    let n = b.p.len() as u64;
    let b2 = b.clone();
    let max = b.p.iter().map(|p| p.len()).max().unwrap();
    idx(format!("{what} of long windows, {}", T::NAME), format!("all {n}x{n} pairs of patterned windows of up to {max} pieces"), n * n,
        move |i, rec| { rec.st(i); f(&b, (i / n) as usize, (i % n) as usize, rec) },
        move |i| format!("A={} B={}", b2.name[(i / n) as usize], b2.name[(i % n) as usize]))
}
fn each<T: Pt>(what: &str, th: bool, f: impl Fn(&[Iv], &TimeSet<T>, &mut Rec) -> R + Sync + Send + 'static) -> Box<dyn Family> {
    let b = bank::<T>(th, if th { &[511, 512, 513, 1000, 1024, 1025, 4097] } else { &[255, 256, 257, 512, 513, 1025] });
    let n = b.p.len() as u64;
    let b2 = b.clone();
    let max = b.p.iter().map(|p| p.len()).max().unwrap();
    idx(format!("{what} of long windows, {}", T::NAME), format!("{n} patterned windows of up to {max} pieces"), n,
        move |i, rec| { rec.st(i); f(&b.p[i as usize], &b.s[i as usize], rec) },
        move |i| format!("A={}", b2.name[i as usize]))
}

fn operators<T: Pt>(th: bool) -> Box<dyn Family> where TimeSet<T>: std::ops::Not<Output = TimeSet<T>> {
    pairs::<T>("operators", th, |b, i, j, rec| {
        pair_ops(&b.s[i], &b.s[j], &f_union(&b.p[i], &b.p[j]), &f_inter(&b.p[i], &b.p[j]), rec)?;
        if j == 0 { chk_set("!A", &!b.s[i].clone(), &p_compl(&b.p[i]))?; rec.tr(1) }
        Ok(())
    })
}
/// one convex window laid over each run of pieces
fn with_convex<T: Pt>(th: bool) -> Box<dyn Family> {
    each::<T>("operators with convex windows", th, |p, s, rec| {
        let step = (p.len() / 7).max(1);
        for i in (0..p.len()).step_by(step) { for j in (i..p.len()).step_by(step) {
            if !fin(p[i].0) || !fin(p[j].1) { continue }
            for (d, e) in [(0, 0), (-1, 1), (1, -1), (2, 2), (-2, -2), (-INF, 0), (0, INF)] {
                let iv = (if d == -INF { d } else { p[i].0 + d }, if e == INF { e } else { p[j].1 + e });
                if iv.0 > iv.1 { continue }
                let x = iv_of::<T>(iv);
                let (or, and) = (f_union(p, &[iv]), f_inter(p, &[iv]));
                rec.tr(6);
                chk_set("A | interval", &(s | x), &or)?;
                chk_set("A & interval", &(s & x), &and)?;
                let mut y = s.clone(); y |= x; chk_set("A |= interval", &y, &or)?;
                let mut y = s.clone(); y &= x; chk_set("A &= interval", &y, &and)?;
                ensure!(s.contains(&x) == (and == [iv]), "contains {} is {}", show_iv(iv), s.contains(&x));
                ensure!(s.overlaps(&x) != and.is_empty(), "overlaps {} is {}", show_iv(iv), s.overlaps(&x));
            }
        } }
        Ok(())
    })
}
/// a window of many pieces cut in two, so that the parts overlap, touch or miss each other by one
/// date; and each piece cut in two, all first halves together
fn rejoined<T: Pt>(th: bool) -> Box<dyn Family> where TimeSet<T>: std::ops::Not<Output = TimeSet<T>> {
    each::<T>("cuts", th, |p, s, rec| {
        let step = if p.len() <= 70 { 1 } else { 5 };
        for k in (0..p.len()).step_by(step) {
            for d in -1..=2i64 { for at in 0..3 {
                // the first part ends at t, the second one starts d dates later
                let t = match at { 0 => p[k].0, 1 => p[k].1, _ => if fin(p[k].0) && fin(p[k].1) { (p[k].0 + p[k].1) / 2 } else { continue } };
                if !fin(t) { continue }
                let a = f_inter(p, &[(-INF, t)]);
                let b = f_inter(&f_union(p, &[(t - 1, t + 3)]), &[(t + d, INF)]);
                let (or, and) = (f_union(&a, &b), f_inter(&a, &b));
                let (x, y) = (set_of::<T>(&a), set_of::<T>(&b));
                if d == 1 && at == 2 {
                    pair_ops(&x, &y, &or, &and, rec)?;
                    pair_ops(&y, &x, &or, &and, rec)?;
                } else {
                    rec.tr(8);
                    chk_set("&A | &B", &(&x | &y), &or)?; chk_set("&B | &A", &(&y | &x), &or)?;
                    chk_set("&A & &B", &(&x & &y), &and)?; chk_set("&B & &A", &(&y & &x), &and)?;
                    let mut z = x.clone(); z |= &y; chk_set("A |= &B", &z, &or)?;
                    let mut z = y.clone(); z |= x.clone(); chk_set("B |= A", &z, &or)?;
                    let mut z = x.clone(); z &= &y; chk_set("A &= &B", &z, &and)?;
                    chk_set("B & A", &(y & x), &and)?;
                }
            } }
        }
        let half = |i: &Iv| if fin(i.0) && fin(i.1) { (i.0 + i.1).div_euclid(2) } else if fin(i.0) { i.0 + 2 } else if fin(i.1) { i.1 - 2 } else { 0 };
        let a = canon(p.iter().map(|i| (i.0, half(i))).collect());
        for d in 0..=2 {
            let b = canon(p.iter().map(|i| (half(i) + d, i.1)).filter(|i| i.0 <= i.1).collect());
            pair_ops(&set_of::<T>(&a), &set_of::<T>(&b), &f_union(&a, &b), &f_inter(&a, &b), rec)?;
            pair_ops(&set_of::<T>(&b), &set_of::<T>(&a), &f_union(&a, &b), &f_inter(&a, &b), rec)?;
        }
        // the complement fills each gap exactly
        let no = p_compl(p);
        let n = set_of::<T>(&no);
        rec.tr(4);
        chk_canon("!A", &!s.clone(), &no)?; chk_canon("!!A", &!!s.clone(), p)?;
        chk_canon("-A", &-s.clone(), &p_neg(p))?; chk_canon("-!A", &-!s.clone(), &p_neg(&no))?;
        pair_ops(s, &n, &[(-INF, INF)], &[], rec)?;
        pair_ops(&n, s, &[(-INF, INF)], &[], rec)
    })
}
fn canonical<T: Pt>(th: bool) -> Box<dyn Family> {
    pairs::<T>("collecting", th, |b, i, j, rec| {
        let (a, c) = (&b.p[i], &b.p[j]);
        let want = f_union(a, c);
        rec.tr(4);
        let iv = |x: &Iv| iv_of::<T>(*x);
        chk_canon("one after the other", &a.iter().chain(c).map(iv).collect(), &want)?;
        chk_canon("backwards", &a.iter().chain(c).rev().map(iv).collect(), &want)?;
        let (x, y) = (a.iter().map(Some).chain(std::iter::repeat(None)), c.iter().rev().map(Some).chain(std::iter::repeat(None)));
        let woven: Vec<TimeInterval<T>> = x.zip(y).take(a.len().max(c.len())).flat_map(|(x, y)| [x.map(iv), Some(TimeInterval::empty()), y.map(iv)]).flatten().collect();
        chk_canon("woven with empty ones", &woven.into_iter().collect(), &want)?;
        chk_canon("intersection", &(&b.s[i] & &b.s[j]), &f_inter(a, c))
    })
}
/// long collections in every regular order, of pieces which stand apart, touch, hide or overlap each other
fn shuffled<T: Pt>(th: bool) -> Box<dyn Family> {
    const SHAPES: usize = 9;
    fn shape(k: usize, n: usize) -> Vec<Iv> {
        let m = n as i64;
        (0..m).map(|i| match k {
            0 => (10 * i, 10 * i + 3),              // apart
            1 => (10 * i, 10 * i + 9),              // touching
            2 => (10 * i, 10 * i + 8),              // one missing tick
            3 => (-i, 10 * m - i),                  // staircase
            4 => (i, 4 * m - i),                    // each inside the previous one
            5 => if i % 3 == 0 { (100 * i, 100 * i + 250) } else { (100 * i + 5, 100 * i + 7) }, // hidden by others
            6 => (10 * (i % 5), 10 * (i % 5) + i),  // groups beginning together
            7 => (10 * (i / 2), 10 * (i / 2) + 4 + 5 * (i % 2)), // in pairs: the second half reaches further
            _ => if i == 0 { (-INF, 0) } else if i + 1 == m { (20 * i, INF) } else { (20 * i - if i % 4 == 0 { 30 } else { 0 }, 20 * i + 5) },
        }).collect()
    }
    fn order(k: usize, n: usize) -> Vec<usize> {
        fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
        match k {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(), // from both ends
            3 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
            4 => (n / 2..n).chain(0..n / 2).collect(),
            5 => { let mut v: Vec<usize> = (0..n).collect(); v.sort_by_key(|i| i.reverse_bits()); v }
            6 => { let mut v: Vec<usize> = (0..n).collect(); if n > 1 { v.swap(0, n - 1) } v }
            7 => { let mut v: Vec<usize> = (0..n).collect(); if n > 2 { v.swap(n - 2, n - 1) } v } // late by the last one only
            8 => (0..n).flat_map(|i| [i, i]).collect(),
            9 => (0..n).chain((0..n).rev()).collect(),
            k => { let m = k - 8; let m = (m..).find(|&x| gcd(x, n.max(1)) == 1).unwrap(); (0..n).map(|i| i * m % n.max(1)).collect() }
        }
    }
    let orders = if th { 24 } else { 16 };
    let mut sz = sizes(th);
    sz.extend([255, 256, 257, 512].iter().filter(|_| !th));
    sz.extend([511, 512, 513, 1025].iter().filter(|_| th));
    let (ns, sz2) = (sz.len() as u64, sz.clone());
    let total = ns * SHAPES as u64 * orders as u64;
    let dec = move |i: u64| { let (a, r) = ((i % ns) as usize, i / ns); (a, (r % SHAPES as u64) as usize, (r / SHAPES as u64) as usize) };
    idx(format!("collecting long disorders, {}", T::NAME), format!("{} numbers of pieces up to {}, {SHAPES} shapes, {orders} orders; as intervals, as sets by groups of 1, 2, 3 and 7, and added one by one", sz.len(), sz.last().unwrap()), total,
        move |i, rec| {
            rec.st(i);
            let (n, sh, o) = dec(i);
            let p = shape(sh, sz[n]);
            let l: Vec<Iv> = order(o, sz[n]).into_iter().map(|k| p[k]).collect();
            let want = canon(l.clone());
            let ivs: Vec<TimeInterval<T>> = l.iter().map(|x| iv_of::<T>(*x)).collect();
            rec.tr(9);
            chk_canon("collected intervals", &ivs.iter().copied().collect(), &want)?;
            chk_canon("collected without a known size", &ivs.iter().copied().filter(|_| true).collect(), &want)?;
            chk_canon("collected with empty ones", &ivs.iter().flat_map(|x| [TimeInterval::empty(), *x, TimeInterval::empty()]).collect(), &want)?;
            for g in [1, 2, 3, 7] {
                let groups: Vec<TimeSet<T>> = ivs.chunks(g).map(|c| c.iter().copied().collect()).collect();
                chk_canon("collected sets", &groups.iter().cloned().collect(), &want)?;
                if g == 3 { chk_canon("collected sets with empty ones", &groups.iter().cloned().flat_map(|x| [x, TimeSet::empty()]).collect(), &want)? }
                if g == 2 {
                    let mut s = TimeSet::empty();
                    for x in &groups { s |= x }
                    chk_canon("sets added one by one", &s, &want)?;
                }
            }
            let mut s = TimeSet::<T>::empty();
            for x in &ivs { s |= *x }
            chk_canon("intervals added one by one", &s, &want)?;
            let s = ivs.iter().rev().fold(TimeSet::<T>::empty(), |s, x| &s | *x);
            chk_canon("intervals added from the last one", &s, &want)
        },
        move |i| { let (n, sh, o) = dec(i); format!("{} pieces of shape {sh} in order {o}", sz2[n]) })
}
fn lazy<T: Pt>(th: bool) -> Box<dyn Family> {
    pairs::<T>("lazy iterators", th, |b, i, j, rec| {
        let (p, q, no) = (&b.p[i], &b.p[j], p_compl(&b.p[j]));
        two(&b.s[i], &b.s[j], &f_union(p, q), &f_inter(p, q), &f_inter(p, &no), rec)?;
        if i == 0 { walk("complementary", b.s[j].iter().complementary(), &no, rec)?; walk("double complementary", b.s[j].iter().complementary().complementary(), q, rec)? }
        Ok(())
    })
}
fn relations<T: Pt>(th: bool) -> Box<dyn Family> {
    pairs::<T>("relations", th, |b, i, j, rec| {
        let (p, q, s, t) = (&b.p[i], &b.p[j], &b.s[i], &b.s[j]);
        let and = f_inter(p, q);
        rec.tr(9);
        ensure!(s.contains(t) == (and == *q), "contains is {}", s.contains(t));
        ensure!(s.overlaps(t) != and.is_empty(), "overlaps is {}", s.overlaps(t));
        chk_cmp!("set with set", *s, *t, p == q, p_lt(p, q), p_lt(q, p));
        // one date more, one date less, one piece more
        if i == j && p.len() > 1 {
            for k in 0..p.len() {
                let mut less = p.clone();
                if less[k].0 == less[k].1 { less.remove(k); } else if fin(less[k].1) { less[k].1 -= 1 } else { less[k].0 += 1 }
                let l = set_of::<T>(&less);
                rec.tr(3);
                ensure!(s.contains(&l) && !l.contains(s) && *s != l && l.overlaps(s), "with less at piece {k}");
                let hole = set_of::<T>(&p_compl(&less));
                ensure!(hole.overlaps(s) && !hole.overlaps(&l), "overlap with the complement at piece {k}");
            }
        }
        Ok(())
    })
}
fn truncations<T: Pt>(th: bool) -> Box<dyn Family> {
    each::<T>("truncations", th, |p, _, rec| {
        for i in p { for t in [i.0, i.1] { for d in -1..=1 { c05_one::<T>(p, if fin(t) { t + d } else { t }, rec)? } } }
        Ok(())
    })
}
fn queries<T: Pt>(th: bool) -> Box<dyn Family> {
    each::<T>("queries", th, |p, s, rec| {
        rec.tr(14);
        chk_window("set", s, p)?;
        for k in 0..p.len() + 2 {
            let mut it = TimeWindow::iter(s);
            ensure!(it.nth(k).map(|i| raw_iv(&i)) == p.get(k).copied(), "iter().nth({k})");
            ensure!(it.next().map(|i| raw_iv(&i)) == p.get(k + 1).copied(), "next after nth({k})");
            rec.tr(2);
        }
        ensure!(s.iter().count() == p.len() && s.iter().last().map(|i| raw_iv(&i)) == p.last().copied(), "count or last");
        Ok(())
    })
}
fn translations<T>(th: bool) -> Box<dyn Family>
    where T: Pt + std::ops::Add<TimeValue, Output = T> + std::ops::Sub<TimeValue, Output = T> + std::ops::AddAssign<TimeValue> + std::ops::SubAssign<TimeValue>
{
    each::<T>("translations", th, |p, s, rec| {
        let w: Vec<Vec<Iv>> = vec![vec![], vec![(3, 3)], vec![(-2, 0)], vec![(0, 5)], vec![(-1, 6)], vec![(0, 40)], vec![(-INF, 2)], vec![(1, INF)], vec![(0, 0), (4, 4)], vec![(0, 1), (6, 8), (20, 20)], (0..40).map(|k| (25 * k, 25 * k + 2)).collect()];
        for q in &w {
            if p.len() * q.len() > 3000 { continue }
            tr_ops::<T>(p, s, q, rec)?;
            if q.len() == 1 { walk("translation", s.iter().translation(&iv_of::<TimeValue>(q[0])), &p_sum(p, q), rec)? }
        }
        Ok(())
    })
}
fn scalings(th: bool) -> Box<dyn Family> { each::<TimeValue>("scalings", th, |p, _, rec| sc_ops(p, rec)) }
fn texts<T: Txt>(th: bool) -> Box<dyn Family> {
    each::<T>("texts", th, |p, s, rec| {
        rec.tr(3);
        chk_text("debug", &format!("{s:?}"), p, T::debug_bound)?;
        chk_text("display", &s.to_string(), p, T::display_bound)?;
        chk_text("format_timeset", &s.format_timeset(T::FMT), p, T::format_bound)
    })
}
fn serialized<T: Pt + serde::Serialize + serde::de::DeserializeOwned>(th: bool) -> Box<dyn Family> {
    each::<T>("serialization", th, |p, s, rec| {
        rt("set", s, rec)?;
        let back: TimeSet<T> = serde_json::from_str(&serde_json::to_string(s).unwrap()).unwrap();
        chk_set("set read back", &back, p)
    })
}
pub fn families(id: &str, th: bool) -> Fams {
    type V = TimeValue;
    type D = Timestamp;
    match id {
        "C01" => vec![operators::<V>(th), operators::<D>(false), with_convex::<V>(th), with_convex::<D>(th), rejoined::<V>(th), rejoined::<D>(th)],
        "C02" => vec![rejoined::<V>(th), rejoined::<D>(th), canonical::<V>(th), canonical::<D>(false), shuffled::<V>(th), shuffled::<D>(th)],
        "C03" => vec![lazy::<V>(th), lazy::<D>(false)],
        "C04" => vec![relations::<V>(th), relations::<D>(false), with_convex::<D>(th)],
        "C05" => vec![truncations::<V>(th), truncations::<D>(th)],
        "C06" => vec![queries::<V>(th), queries::<D>(th)],
        "C07" => vec![translations::<V>(th), translations::<D>(th)],
        "C08" => vec![scalings(th)],
        "C13" => vec![texts::<V>(th), texts::<D>(th)],
        "C24" => vec![serialized::<V>(th), serialized::<D>(th)],
        _ => vec![],
    }
}
