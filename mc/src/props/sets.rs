//! C01 operators, C02 canonical form, C04 relations, C05 truncation, C06 queries
use super::Fams;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, with_forms};
use chronologic::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

// ================================================================= C01
pub fn pair_ops<T: Pt>(a: &TimeSet<T>, b: &TimeSet<T>, or: &[Iv], and: &[Iv], rec: &mut Rec) -> R {
    chk_set("&A | &B", &(a | b), or)?;
    chk_set("&A | B", &(a | b.clone()), or)?;
    chk_set("A | &B", &(a.clone() | b), or)?;
    chk_set("A | B", &(a.clone() | b.clone()), or)?;
    let mut x = a.clone(); x |= b; chk_set("A |= &B", &x, or)?;
    let mut x = a.clone(); x |= b.clone(); chk_set("A |= B", &x, or)?;
    chk_set("&A & &B", &(a & b), and)?;
    chk_set("&A & B", &(a & b.clone()), and)?;
    chk_set("A & &B", &(a.clone() & b), and)?;
    chk_set("A & B", &(a.clone() & b.clone()), and)?;
    let mut x = a.clone(); x &= b; chk_set("A &= &B", &x, and)?;
    let mut x = a.clone(); x &= b.clone(); chk_set("A &= B", &x, and)?;
    rec.tr(12);
    Ok(())
}
fn c01_pairs<T: Pt>(kind: usize, cells: usize, all_forms: bool) -> Box<dyn Family> {
    let g = Arc::new(std_grid(kind, cells));
    let sets: Arc<Vec<TimeSet<T>>> = Arc::new(g.pieces.iter().map(|p| set_of::<T>(p)).collect());
    let n = g.masks();
    let (g2, nm) = (g.clone(), g.name.clone());
    idx(format!("set op set, {} ({nm})", T::NAME), format!("all {n}x{n} pairs of windows made of {cells} cells"), n * n,
        move |i, rec| {
            let (ma, mb) = (i / n, i % n);
            let (a, b) = (&sets[ma as usize], &sets[mb as usize]);
            let (or, and) = (g.p(ma | mb), g.p(ma & mb));
            rec.st(ma | mb); rec.st(ma & mb);
            if all_forms { pair_ops(a, b, or, and, rec) }
            else {
                chk_set("&A | &B", &(a | b), or)?;
                chk_set("&A & &B", &(a & b), and)?;
                rec.tr(2); Ok(())
            }
        },
        move |i| format!("A={} B={}", show_ps(g2.p(i / n)), show_ps(g2.p(i % n))))
}
fn c01_comb<T: Pt>(cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(1, cells));
    let masks = Arc::new(comb_masks(cells));
    let n = masks.len() as u64;
    let sets: Arc<Vec<TimeSet<T>>> = Arc::new(masks.iter().map(|m| set_of::<T>(&g.cut(*m))).collect());
    let (g2, m2) = (g.clone(), masks.clone());
    idx(format!("many-piece set op set, {} ({cells} cells)", T::NAME), format!("all pairs of {n} patterned windows of up to {} pieces", cells / 2), n * n,
        move |i, rec| {
            let (ka, kb) = ((i / n) as usize, (i % n) as usize);
            let (ma, mb) = (masks[ka], masks[kb]);
            rec.st(ma | mb); rec.st(ma & mb);
            pair_ops(&sets[ka], &sets[kb], &g.cut(ma | mb), &g.cut(ma & mb), rec)?;
            if kb == 0 { chk_set("!A", &!sets[ka].clone(), &g.cut(!ma & g.full()))?; rec.tr(1) }
            Ok(())
        },
        move |i| format!("A={} B={}", show_ps(&g2.cut(m2[(i / n) as usize])), show_ps(&g2.cut(m2[(i % n) as usize]))))
}
fn c01_mixed<T: Pt>(kind: usize, cells: usize) -> Box<dyn Family>
    where TimeSet<T>: std::ops::Not<Output = TimeSet<T>>
{
    let g = Arc::new(std_grid(kind, cells));
    let mut ivs = g.intervals();
    for c in &g.cells { if fin(c.0) { ivs.push((c.0, c.0)); if fin(c.1) { ivs.push((c.1, c.1)) } } }
    ivs.sort(); ivs.dedup();
    let ivs = Arc::new(ivs);
    let (n, k) = (g.masks(), ivs.len() as u64);
    let (g2, v2) = (g.clone(), ivs.clone());
    idx(format!("set op convex window, {} ({})", T::NAME, g.name), format!("all {n} sets of {cells} cells with all {k} convex windows in all their forms"), n * k,
        move |i, rec| {
            let (pa, iv) = (g.p(i / k), ivs[(i % k) as usize]);
            let pb = one(iv);
            let (or, and) = (p_union(pa, &pb), p_inter(pa, &pb));
            let a = set_of::<T>(pa);
            rec.st(p_hash(&or)); rec.st(p_hash(&and));
            with_forms!(T, iv, |x, w| {
                chk_set(&format!("&A | {w}"), &(&a | x.clone()), &or)?;
                chk_set(&format!("A | {w}"), &(a.clone() | x.clone()), &or)?;
                let mut y = a.clone(); y |= x.clone(); chk_set(&format!("A |= {w}"), &y, &or)?;
                chk_set(&format!("&A & {w}"), &(&a & x.clone()), &and)?;
                chk_set(&format!("A & {w}"), &(a.clone() & x.clone()), &and)?;
                let mut y = a.clone(); y &= x.clone(); chk_set(&format!("A &= {w}"), &y, &and)?;
                rec.tr(6);
            });
            if i % k == 0 { chk_set("!A", &!a, &p_compl(pa))?; rec.tr(1); }
            Ok(())
        },
        move |i| format!("A={} B={}", show_ps(g2.p(i / k)), show_iv(v2[(i % k) as usize])))
}
macro_rules! c01_convex {
    ($name:ident, $t:ty) => {
        fn $name(kind: usize, cells: usize) -> Box<dyn Family> {
            type T = $t;
            let g = Arc::new(std_grid(kind, cells));
            let mut ivs = g.intervals();
            for c in &g.cells { for t in [c.0, c.1] { if fin(t) { ivs.push((t, t)) } } }
            ivs.sort(); ivs.dedup();
            let ivs = Arc::new(ivs);
            let k = ivs.len() as u64;
            let v2 = ivs.clone();
            idx(format!("convex op convex, {} ({})", T::NAME, g.name), format!("all {k}x{k} pairs of convex windows on {cells} cells, all their forms"), k * k,
                move |i, rec| {
                    let (ia, ib) = (ivs[(i / k) as usize], ivs[(i % k) as usize]);
                    let (or, and) = (p_union(&one(ia), &one(ib)), iv_inter(ia, ib));
                    rec.st(p_hash(&or)); rec.st(p_hash(&one(and)));
                    let a = iv_of::<T>(ia);
                    with_forms!(T, ib, |x, w| {
                        chk_set(&format!("interval | {w}"), &(a | x.clone()), &or)?;
                        chk_set(&format!("&interval | {w}"), &(&a | x.clone()), &or)?;
                        chk_iv(&format!("interval & {w}"), &(a & x.clone()), and)?;
                        chk_iv(&format!("&interval & {w}"), &(&a & x.clone()), and)?;
                        let mut y = a; y &= x.clone(); chk_iv(&format!("interval &= {w}"), &y, and)?;
                        rec.tr(5);
                        if ia.0 == ia.1 {
                            let p = T::of(ia.0);
                            chk_set(&format!("point | {w}"), &(p | x.clone()), &or)?;
                            chk_iv(&format!("point & {w}"), &(p & x.clone()), and)?;
                            rec.tr(2);
                        }
                    });
                    if i % k == 0 {
                        let no = p_compl(&one(ia));
                        chk_set("!interval", &!a, &no)?;
                        chk_set("!set", &!TimeSet::<T>::from(a), &no)?;
                        if ia.0 == ia.1 { chk_set("!point", &!T::of(ia.0), &no)?; }
                        rec.tr(3);
                    }
                    Ok(())
                },
                move |i| format!("A={} B={}", show_iv(v2[(i / k) as usize]), show_iv(v2[(i % k) as usize])))
        }
    };
}
c01_convex!(c01_convex_tv, TimeValue);
c01_convex!(c01_convex_ts, Timestamp);

/// windows touching the ends of the tick range
fn c01_extreme<T: Pt>() -> Box<dyn Family>
    where TimeSet<T>: std::ops::Not<Output = TimeSet<T>>, TimeInterval<T>: std::ops::Not<Output = TimeSet<T>>
{
    let sets = Arc::new(extreme_sets());
    let n = sets.len() as u64;
    let s2 = sets.clone();
    idx(format!("windows at the ends of the range, {}", T::NAME), format!("all {n}x{n} pairs of windows bounded by the extreme ticks or unbounded"), n * n,
        move |i, rec| {
            let (pa, pb) = (&sets[(i / n) as usize], &sets[(i % n) as usize]);
            let (a, b) = (set_of::<T>(pa), set_of::<T>(pb));
            let (na, nb) = (norm(pa), norm(pb));
            let (or, and) = (p_union(&na, &nb), p_inter(&na, &nb));
            rec.st(p_hash(&or)); rec.st(p_hash(&and)); rec.tr(4);
            chk_norm("A | B", &raw(&(&a | &b)), &or)?;
            chk_norm("A & B", &raw(&(&a & &b)), &and)?;
            let mut x = a.clone(); x |= b.clone(); chk_norm("A |= B", &raw(&x), &or)?;
            let mut x = a.clone(); x &= b.clone(); chk_norm("A &= B", &raw(&x), &and)?;
            if pb.len() <= 1 {
                let w = iv_of::<T>(first_iv(pb));
                rec.tr(2);
                chk_norm("A | interval", &raw(&(&a | w)), &or)?;
                chk_norm("A & interval", &raw(&(&a & w)), &and)?;
                if pa.len() <= 1 {
                    rec.tr(2);
                    let z = iv_of::<T>(first_iv(pa));
                    chk_norm("interval | interval", &raw(&(z | w)), &or)?;
                    let y = z & w;
                    chk_norm("interval & interval", &if y.is_empty() { vec![] } else { vec![raw_iv(&y)] }, &and)?;
                }
            }
            if i % n == 0 {
                rec.tr(2);
                chk_norm("!A", &raw(&!a.clone()), &p_compl(&na))?;
                if pa.len() <= 1 { chk_norm("!interval", &raw(&!iv_of::<T>(first_iv(pa))), &p_compl(&na))? }
            }
            Ok(())
        },
        move |i| format!("A={} B={}", show_ps(&s2[(i / n) as usize]), show_ps(&s2[(i % n) as usize])))
}
macro_rules! c01_ends {
    ($name:ident, $t:ty) => {
        fn $name() -> Box<dyn Family> {
            type T = $t;
            let ivs: Arc<Vec<Iv>> = Arc::new(extreme_sets().iter().filter(|p| p.len() <= 1).map(|p| first_iv(p)).collect());
            let k = ivs.len() as u64;
            let v2 = ivs.clone();
            idx(format!("convex windows at the ends of the range, {}", T::NAME), format!("all {k}x{k} pairs of convex windows bounded by the extreme ticks or unbounded, all their forms"), k * k,
                move |i, rec| {
                    let (ia, ib) = (ivs[(i / k) as usize], ivs[(i % k) as usize]);
                    let (na, nb) = (norm(&one(ia)), norm(&one(ib)));
                    let (or, and) = (p_union(&na, &nb), p_inter(&na, &nb));
                    rec.st(i);
                    let a = iv_of::<T>(ia);
                    let chk_i = |w: &str, y: TimeInterval<T>| chk_norm(w, &if y.is_empty() { vec![] } else { vec![raw_iv(&y)] }, &and);
                    with_forms!(T, ib, |x, w| {
                        chk_norm(&format!("interval | {w}"), &raw(&(a | x.clone())), &or)?;
                        chk_i(&format!("interval & {w}"), a & x.clone())?;
                        let mut y = a; y &= x.clone(); chk_i(&format!("interval &= {w}"), y)?;
                        let s = TimeSet::<T>::from(a);
                        chk_norm(&format!("set | {w}"), &raw(&(&s | x.clone())), &or)?;
                        chk_norm(&format!("set & {w}"), &raw(&(&s & x.clone())), &and)?;
                        rec.tr(5);
                        if ia.0 == ia.1 {
                            let p = T::of(ia.0);
                            chk_norm(&format!("point | {w}"), &raw(&(p | x.clone())), &or)?;
                            chk_i(&format!("point & {w}"), p & x.clone())?;
                            rec.tr(2);
                        }
                    });
                    if i % k == 0 {
                        chk_norm("!interval", &raw(&!a), &p_compl(&na))?;
                        if ia.0 == ia.1 { chk_norm("!point", &raw(&!T::of(ia.0)), &p_compl(&na))?; }
                        rec.tr(2);
                    }
                    Ok(())
                },
                move |i| format!("A={} B={}", show_iv(v2[(i / k) as usize]), show_iv(v2[(i % k) as usize])))
        }
    };
}
c01_ends!(c01_ends_tv, TimeValue);
c01_ends!(c01_ends_ts, Timestamp);
fn first_iv(p: &[Iv]) -> Iv { p.first().copied().unwrap_or(EMPTY) }

pub fn c01(th: bool) -> Fams {
    let mut v: Fams = vec![
        c01_extreme::<TimeValue>(), c01_extreme::<Timestamp>(), c01_ends_tv(), c01_ends_ts(),
        c01_convex_tv(0, 12), c01_convex_tv(1, 12), c01_convex_ts(1, 12), c01_convex_ts(2, 11),
        c01_mixed::<TimeValue>(0, 10), c01_mixed::<Timestamp>(1, 10),
        c01_pairs::<TimeValue>(0, 10, true), c01_pairs::<Timestamp>(1, 10, true), c01_pairs::<Timestamp>(2, 9, true),
        c01_pairs::<TimeValue>(3, 9, true), c01_pairs::<Timestamp>(3, 9, false), c01_mixed::<TimeValue>(3, 10), c01_mixed::<Timestamp>(3, 9), c01_convex_tv(3, 15), c01_convex_ts(3, 15),
        c01_comb::<TimeValue>(40), c01_comb::<Timestamp>(64),
    ];
    if th {
        v.push(c01_pairs::<TimeValue>(0, 13, false));
        v.push(c01_pairs::<Timestamp>(1, 13, false));
        v.push(c01_pairs::<TimeValue>(1, 12, true));
        v.push(c01_mixed::<TimeValue>(1, 13));
        v.push(c01_mixed::<Timestamp>(2, 11));
        v.push(c01_convex_tv(2, 16)); v.push(c01_convex_ts(0, 16));
    }
    v
}

// ================================================================= C02
fn hash_of<X: Hash>(x: &X) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }
/// the whole canonical-form check against the model pieces
pub fn chk_canon<T: Pt>(what: &str, s: &TimeSet<T>, want: &[Iv]) -> R {
    chk_set(what, s, want)?;
    ensure!(s.convex_count() == want.len(), "{what}: convex_count {} for {}", s.convex_count(), show_ps(want));
    ensure!(s.is_empty() == want.is_empty(), "{what}: is_empty {} for {}", s.is_empty(), show_ps(want));
    let fresh = set_of::<T>(want);
    ensure!(*s == fresh && fresh == *s, "{what}: differs from the same set built directly, {}", show_ps(want));
    ensure!(hash_of(s) == hash_of(&fresh), "{what}: hash differs from the same set built directly, {}", show_ps(want));
    Ok(())
}
#[derive(Clone, Copy, PartialEq)]
enum SOp { Or(usize), And(usize), OrIv(Iv), AndIv(Iv), Not, Before(i64), After(i64), Add(i64), AddIv(Iv), SubIv(Iv), AddSet(usize), Neg, Mul(i64), Div(i64), MulF(f64), Reverse, Fused }
struct SetMachine { bank: Vec<Vec<Iv>>, ops: Vec<(String, SOp)>, lim: i64 }
impl SetMachine {
    fn new() -> Self {
        let bank = vec![
            vec![], vec![(-INF, INF)], vec![(0, 0)], vec![(2, 3)], vec![(4, 5)], vec![(-3, -2), (0, 1)],
            vec![(-INF, -5), (5, INF)], vec![(-6, -6), (-4, -4), (-2, -2), (0, 0), (2, 2), (4, 4), (6, 6)],
        ];
        let mut ops: Vec<(String, SOp)> = vec![];
        for (k, b) in bank.iter().enumerate() {
            ops.push((format!("|= {}", show_ps(b)), SOp::Or(k)));
            ops.push((format!("&= {}", show_ps(b)), SOp::And(k)));
        }
        for iv in [EMPTY, (1, 1), (-1, 4), (-INF, 2), (-4, INF)] {
            ops.push((format!("|= interval {}", show_iv(iv)), SOp::OrIv(iv)));
            ops.push((format!("&= interval {}", show_iv(iv)), SOp::AndIv(iv)));
        }
        ops.push(("not".into(), SOp::Not));
        for t in [-INF, -4, 0, 1, 3, INF] {
            ops.push((format!("truncate_before {}", show(t)), SOp::Before(t)));
            ops.push((format!("truncate_after {}", show(t)), SOp::After(t)));
        }
        for t in [-3, 2] { ops.push((format!("+= {t}"), SOp::Add(t))) }
        for iv in [(0, 1), (-1, 2), (3, INF), (-INF, 0)] {
            ops.push((format!("+= span {}", show_iv(iv)), SOp::AddIv(iv)));
            ops.push((format!("-= span {}", show_iv(iv)), SOp::SubIv(iv)));
        }
        for k in [0, 3, 5, 6] { ops.push((format!("+= spans {}", show_ps(&bank[k])), SOp::AddSet(k))) }
        ops.push(("neg".into(), SOp::Neg));
        for n in [-1, 0, 2, -3] { ops.push((format!("*= {n}"), SOp::Mul(n))) }
        for n in [2, -3] { ops.push((format!("/= {n}"), SOp::Div(n))) }
        for f in [0.0, 0.5, -0.5, 1.5] { ops.push((format!("* {f:?}"), SOp::MulF(f))) }
        ops.push(("pieces collected in reverse order, with empty ones between".into(), SOp::Reverse));
        ops.push(("pieces collected twice over".into(), SOp::Fused));
        SetMachine { bank, ops, lim: 60 }
    }
}
fn p_scale(a: &[Iv], f: impl Fn(i64) -> i64, neg: bool, zero: bool) -> Vec<Iv> {
    let g = |x: i64| if zero { 0 } else if fin(x) { f(x) } else if neg { -x } else { x };
    canon(a.iter().map(|i| if neg { (g(i.1), g(i.0)) } else { (g(i.0), g(i.1)) }).collect())
}
impl Machine for SetMachine {
    type S = (TimeSpans, Vec<Iv>);
    fn inits(&self) -> usize { self.bank.len() }
    fn init(&self, i: usize) -> Self::S { (set_of(&self.bank[i]), self.bank[i].clone()) }
    fn ops(&self) -> usize { self.ops.len() }
    fn op_name(&self, op: usize) -> String { self.ops[op].0.clone() }
    fn init_name(&self, i: usize) -> String { show_ps(&self.bank[i]) }
    fn key(&self, s: &Self::S) -> Vec<i64> { raw(&s.0).iter().flat_map(|i| [i.0, i.1]).collect() }
    fn step(&self, s: &Self::S, op: usize, rec: &mut Rec) -> R<Option<Self::S>> {
        let (mut x, p) = (s.0.clone(), s.1.as_slice());
        let mut frac = None;
        let want = match self.ops[op].1 {
            SOp::Or(k) => p_union(p, &self.bank[k]),
            SOp::And(k) => p_inter(p, &self.bank[k]),
            SOp::OrIv(i) => p_union(p, &one(i)),
            SOp::AndIv(i) => p_inter(p, &one(i)),
            SOp::Not => p_compl(p),
            SOp::Before(t) => p_inter(p, &canon(vec![(t, INF)])),
            SOp::After(t) => p_inter(p, &canon(vec![(-INF, t)])),
            SOp::Add(t) => p_sum(p, &[(t, t)]),
            SOp::AddIv(i) => p_sum(p, &[i]),
            SOp::SubIv(i) => p_diff(p, &[i]),
            SOp::AddSet(k) => p_sum(p, &self.bank[k]),
            SOp::Neg => p_neg(p),
            SOp::Mul(n) => p_scale(p, |x| x * n, n < 0, n == 0),
            SOp::Div(n) => p_scale(p, |x| x / n, n < 0, false),
            SOp::MulF(f) => { frac = Some(f); p_scale(p, |x| (x as f64 * f).trunc() as i64, f < 0., f == 0.) }
            SOp::Reverse | SOp::Fused => p.to_vec(),
        };
        // keep the explored space finite
        if want.len() > 8 || want.iter().any(|i| (fin(i.0) && i.0.abs() > self.lim) || (fin(i.1) && i.1.abs() > self.lim)) { return Ok(None) }
        match self.ops[op].1 {
            SOp::Or(k) => x |= set_of::<TimeValue>(&self.bank[k]),
            SOp::And(k) => x &= set_of::<TimeValue>(&self.bank[k]),
            SOp::OrIv(i) => x |= iv_of::<TimeValue>(i),
            SOp::AndIv(i) => x &= iv_of::<TimeValue>(i),
            SOp::Not => x = !x,
            SOp::Before(t) => { x.truncate_before(tv(t)); }
            SOp::After(t) => { x.truncate_after(tv(t)); }
            SOp::Add(t) => x += tv(t),
            SOp::AddIv(i) => x += iv_of::<TimeValue>(i),
            SOp::SubIv(i) => x -= iv_of::<TimeValue>(i),
            SOp::AddSet(k) => x += set_of::<TimeValue>(&self.bank[k]),
            SOp::Neg => x = -x,
            SOp::Mul(n) => { x *= n; chk_canon("A*n", &(s.0.clone() * n), &want)?; rec.tr(1) }
            SOp::Div(n) => { x /= n; chk_canon("A/n", &(s.0.clone() / n), &want)?; rec.tr(1) }
            SOp::MulF(_) => { x = x * frac.unwrap(); let mut y = s.0.clone(); y *= frac.unwrap(); chk_canon("A*=f", &y, &want)?; rec.tr(1) }
            SOp::Reverse => x = p.iter().rev().flat_map(|i| [TimeSpan::empty(), iv_of(*i), TimeSpan::empty()]).collect(),
            SOp::Fused => x = p.iter().chain(p).map(|i| iv_of::<TimeValue>(*i)).collect(),
        }
        rec.tr(1);
        chk_canon("the result", &x, &want)?;
        Ok(Some((x, want)))
    }
}
fn c02_collect<T: Pt>(cells: usize, len: u32) -> Box<dyn Family> {
    let g = std_grid(0, cells);
    let mut ivs = g.intervals();
    ivs.push((7, 7)); // far away
    let ivs = Arc::new(ivs);
    let k = ivs.len() as u64;
    let total: u64 = (0..=len).map(|l| k.pow(l)).sum();
    let dec = move |mut i: u64| { let mut l = 0u32; while i >= k.pow(l) { i -= k.pow(l); l += 1 } (0..l).map(|d| (i / k.pow(d) % k) as usize).collect::<Vec<_>>() };
    let v2 = ivs.clone();
    idx(format!("collect intervals, {}", T::NAME), format!("every sequence of up to {len} of {k} intervals (any order, overlaps, empty ones)"), total,
        move |i, rec| {
            let l: Vec<Iv> = dec(i).iter().map(|x| ivs[*x]).collect();
            let want = canon(l.clone());
            let s: TimeSet<T> = l.iter().map(|i| iv_of::<T>(*i)).collect();
            rec.st(p_hash(&want)); rec.tr(1);
            chk_canon("collect", &s, &want)
        },
        move |i| dec(i).iter().map(|x| show_iv(v2[*x])).collect::<Vec<_>>().join(", "))
}
fn c02_collect_sets<T: Pt>(cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(0, cells));
    let n = g.masks();
    let g2 = g.clone();
    let dec = move |i: u64| { let v = [i % (n + 1), i / (n + 1) % (n + 1), i / (n + 1) / (n + 1)]; v.iter().take_while(|m| **m < n).copied().collect::<Vec<u64>>() };
    idx(format!("collect sets, {}", T::NAME), format!("every sequence of up to 3 sets on {cells} cells"), (n + 1).pow(3),
        move |i, rec| {
            let l = dec(i);
            let want = g.p(l.iter().fold(0, |a, b| a | b));
            let s: TimeSet<T> = l.iter().map(|m| set_of::<T>(g.p(*m))).collect();
            rec.st(p_hash(want)); rec.tr(1);
            chk_canon("collect", &s, want)
        },
        move |i| dec(i).iter().map(|m| show_ps(g2.p(*m))).collect::<Vec<_>>().join(", "))
}
/// equal sets obtained by different routes are equal and hash alike
fn c02_routes<T: Pt>(kind: usize, cells: usize) -> Box<dyn Family>
    where TimeSet<T>: std::ops::Not<Output = TimeSet<T>>
{
    let g = Arc::new(std_grid(kind, cells));
    let n = g.masks();
    let g2 = g.clone();
    idx(format!("routes to one set, {} ({})", T::NAME, g.name), format!("all {n} sets of {cells} cells"), n,
        move |m, rec| {
            let p = g.p(m);
            let s = set_of::<T>(p);
            rec.st(m); rec.tr(9);
            let mut un = TimeSet::<T>::empty();
            for (k, c) in g.cells.iter().enumerate() { if m >> k & 1 == 1 { un |= iv_of::<T>(*c) } }
            chk_canon("union of cells", &un, p)?;
            let mut un = TimeSet::<T>::empty();
            for (k, c) in g.cells.iter().enumerate().rev() { if m >> k & 1 == 1 { un |= iv_of::<T>(*c) } }
            chk_canon("union of cells backwards", &un, p)?;
            let mut de = TimeSet::<T>::all();
            for (k, c) in g.cells.iter().enumerate() { if m >> k & 1 == 0 { de &= !iv_of_not::<T>(*c) } }
            chk_canon("whole line minus cells", &de, p)?;
            chk_canon("double complement", &!!s.clone(), p)?;
            chk_canon("double negation", &-(-s.clone()), p)?;
            chk_canon("self union", &(&s | &s), p)?;
            chk_canon("self intersection", &(&s & &s), p)?;
            chk_canon("clone", &s.clone(), p)?;
            for o in [TimeSet::empty(), TimeSet::all(), set_of::<T>(&[(0, 1), (3, 4), (6, 7)]), set_of::<T>(&(0..cells as i64 + 3).map(|k| (4 * k, 4 * k + 1)).collect::<Vec<_>>())] {
                let mut o = o; o.clone_from(&s);
                chk_canon("clone_from", &o, p)?;
            }
            let mut k = s.clone(); k.shrink_to_fit();
            chk_canon("shrink_to_fit", &k, p)?;
            ensure!(hash_of(&un) == hash_of(&s) && un == s, "two routes differ");
            Ok(())
        },
        move |m| show_ps(g2.p(m)))
}
fn iv_of_not<T: Pt>(c: Iv) -> TimeSet<T> { TimeSet::from(iv_of::<T>(c)) }
fn c02_build<T: Pt>() -> Box<dyn Family> {
    let g = std_grid(1, 12);
    let pr = Arc::new(g.probes());
    let n = pr.len() as u64;
    let p2 = pr.clone();
    idx(format!("constructors, {}", T::NAME), format!("all pairs of {n} time points, infinities included"), n * n,
        move |i, rec| {
            let (a, b) = (pr[(i / n) as usize], pr[(i % n) as usize]);
            let want = canon(vec![(a, b)]);
            rec.st(p_hash(&want)); rec.tr(6);
            chk_canon("convex", &TimeSet::<T>::convex(T::of(a), T::of(b)), &want)?;
            chk_canon("from interval", &TimeSet::from(TimeInterval::new(T::of(a), T::of(b))), &want)?;
            chk_canon("from pair", &TimeSet::from(TimeInterval::from((T::of(a), T::of(b)))), &want)?;
            chk_canon("singleton", &TimeSet::<T>::singleton(T::of(a)), &canon(vec![(a, a)]))?;
            chk_canon("all", &TimeSet::<T>::all(), &[(-INF, INF)])?;
            chk_canon("empty", &TimeSet::<T>::empty(), &[])?;
            let (x, w) = (TimeInterval::new(T::of(a), T::of(b)), want.first().copied().unwrap_or(EMPTY));
            chk_iv("new", &x, w)?;
            for y in [TimeInterval::empty(), TimeInterval::default()] { chk_iv("empty", &y, EMPTY)?; if w == EMPTY { ensure!(x == y && hash_of(&x) == hash_of(&y), "empty intervals differ") } }
            // intervals computed to be empty are recognised as empty, and vanish in sets
            let e = TimeInterval::new(T::of(3), T::of(5)) & TimeInterval::new(T::of(8), T::of(9));
            ensure!(e.is_empty() && e == TimeInterval::empty() && hash_of(&e) == hash_of(&TimeInterval::<T>::empty()), "disjoint intersection is not the empty interval");
            let mut e = TimeInterval::new(T::of(3), T::of(5)); e &= TimeInterval::new(T::of(8), T::of(9));
            ensure!(e.is_empty() && e == TimeInterval::empty(), "disjoint in-place intersection is not the empty interval");
            Ok(())
        },
        move |i| format!("bounds {} and {}", show(p2[(i / n) as usize]), show(p2[(i % n) as usize])))
}
fn c02_extreme<T: Pt>() -> Box<dyn Family>
    where TimeSet<T>: std::ops::Not<Output = TimeSet<T>>
{
    let sets = Arc::new(extreme_sets());
    let n = sets.len() as u64;
    let s2 = sets.clone();
    idx(format!("pieces at the ends of the range, {}", T::NAME), format!("all {n}x{n} pairs of windows bounded by the extreme ticks or unbounded, collected and combined"), n * n,
        move |i, rec| {
            let (pa, pb) = (&sets[(i / n) as usize], &sets[(i % n) as usize]);
            let mut l: Vec<Iv> = pa.iter().chain(pb).copied().collect();
            let want = canon(l.clone());
            rec.st(p_hash(&want)); rec.tr(4);
            chk_canon("collected in order", &l.iter().map(|i| iv_of::<T>(*i)).collect(), &want)?;
            l.reverse();
            chk_canon("collected backwards", &l.iter().map(|i| iv_of::<T>(*i)).collect(), &want)?;
            let (a, b) = (set_of::<T>(pa), set_of::<T>(pb));
            chk_canon("union", &(&a | &b), &want)?;
            chk_canon("intersection", &(&a & &b), &p_inter(pa, pb))?;
            if i % n == 0 {
                rec.tr(3);
                chk_canon("double negation", &-(-a.clone()), pa)?;
                chk_norm("double complement", &raw(&!!a.clone()), pa)?;
                let u = norm(pa); // unbounded form: exact
                chk_norm("complement", &raw(&!set_of::<T>(&u)), &p_compl(&u))?;
            }
            Ok(())
        },
        move |i| format!("A={} B={}", show_ps(&s2[(i / n) as usize]), show_ps(&s2[(i % n) as usize])))
}
pub fn c02(th: bool) -> Fams {
    let mut v: Fams = vec![
        c02_extreme::<TimeValue>(), c02_extreme::<Timestamp>(),
        c02_build::<TimeValue>(), c02_build::<Timestamp>(),
        c02_routes::<TimeValue>(0, 12), c02_routes::<Timestamp>(1, 12), c02_routes::<Timestamp>(2, 11), c02_routes::<TimeValue>(3, 11),
        c02_collect::<TimeValue>(6, 3), c02_collect::<Timestamp>(5, 4),
        c02_collect_sets::<TimeValue>(6),
        bfs("operation histories", "start sets and operations of a bank of 8 sets, bounds within 60 ticks, at most 8 pieces", SetMachine::new(), if th { 5 } else { 3 }, true),
    ];
    if th {
        v.push(c02_collect::<TimeValue>(6, 5)); v.push(c02_collect::<Timestamp>(5, 5));
        v.push(c02_collect_sets::<Timestamp>(8));
        v.push(c02_routes::<TimeValue>(1, 16));
    }
    v
}

// ================================================================= C04
pub fn p_lt(a: &[Iv], b: &[Iv]) -> bool { !a.is_empty() && !b.is_empty() && a[a.len() - 1].1 < b[0].0 }
#[macro_export]
macro_rules! chk_cmp {
    ($w:expr, $a:expr, $b:expr, $eq:expr, $lt:expr, $gt:expr) => {{
        let (eq, lt, gt) = ($eq, $lt, $gt);
        let pc = if lt { Some(Ordering::Less) } else if gt { Some(Ordering::Greater) } else if eq { Some(Ordering::Equal) } else { None };
        ensure!(($a == $b) == eq, "{}: == is {}", $w, !eq);
        ensure!(($a != $b) == !eq, "{}: != is {}", $w, eq);
        ensure!(($a < $b) == lt, "{}: < is {}", $w, !lt);
        ensure!(($a > $b) == gt, "{}: > is {}", $w, !gt);
        ensure!(($a <= $b) == (lt || eq), "{}: <= is {}", $w, !(lt || eq));
        ensure!(($a >= $b) == (gt || eq), "{}: >= is {}", $w, !(gt || eq));
        let r = $a.partial_cmp(&$b);
        ensure!(r == pc, "{}: partial_cmp is {:?} instead of {:?}", $w, r, pc);
    }};
}
fn c04_sets<T: Pt>(kind: usize, cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(kind, cells));
    let sets: Arc<Vec<TimeSet<T>>> = Arc::new(g.pieces.iter().map(|p| set_of::<T>(p)).collect());
    let n = g.masks();
    let g2 = g.clone();
    idx(format!("set with set, {} ({})", T::NAME, g.name), format!("all {n}x{n} pairs of sets of {cells} cells"), n * n,
        move |i, rec| {
            let (ma, mb) = (i / n, i % n);
            let (a, b) = (&sets[ma as usize], &sets[mb as usize]);
            rec.st(ma); rec.tr(9);
            ensure!(a.contains(b) == (mb & !ma == 0), "contains is {}", a.contains(b));
            ensure!(a.overlaps(b) == (ma & mb != 0), "overlaps is {}", a.overlaps(b));
            chk_cmp!("set with set", *a, *b, ma == mb, p_lt(g.p(ma), g.p(mb)), p_lt(g.p(mb), g.p(ma)));
            Ok(())
        },
        move |i| format!("A={} B={}", show_ps(g2.p(i / n)), show_ps(g2.p(i % n))))
}
fn c04_comb<T: Pt>(cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(1, cells));
    let masks = Arc::new(comb_masks(cells));
    let n = masks.len() as u64;
    let ps: Arc<Vec<Vec<Iv>>> = Arc::new(masks.iter().map(|m| g.cut(*m)).collect());
    let sets: Arc<Vec<TimeSet<T>>> = Arc::new(ps.iter().map(|p| set_of::<T>(p)).collect());
    let p2 = ps.clone();
    idx(format!("many-piece sets, {}", T::NAME), format!("all pairs of {n} patterned sets on {cells} cells"), n * n,
        move |i, rec| {
            let (ka, kb) = ((i / n) as usize, (i % n) as usize);
            let (a, b, ma, mb) = (&sets[ka], &sets[kb], masks[ka], masks[kb]);
            rec.st(ma); rec.tr(9);
            ensure!(a.contains(b) == (mb & !ma == 0), "contains is {}", a.contains(b));
            ensure!(a.overlaps(b) == (ma & mb != 0), "overlaps is {}", a.overlaps(b));
            chk_cmp!("set with set", *a, *b, ma == mb, p_lt(&ps[ka], &ps[kb]), p_lt(&ps[kb], &ps[ka]));
            Ok(())
        },
        move |i| format!("A={} B={}", show_ps(&p2[(i / n) as usize]), show_ps(&p2[(i % n) as usize])))
}
fn c04_mixed<T: Pt>(kind: usize, cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(kind, cells));
    let mut ivs = g.intervals();
    for c in &g.cells { for t in [c.0, c.1] { if fin(t) { ivs.push((t, t)) } } }
    ivs.sort(); ivs.dedup();
    let ivs = Arc::new(ivs);
    let (n, k) = (g.masks(), ivs.len() as u64);
    let (g2, v2) = (g.clone(), ivs.clone());
    idx(format!("set with convex window, {} ({})", T::NAME, g.name), format!("all {n} sets of {cells} cells with all {k} convex windows in all forms"), n * k,
        move |i, rec| {
            let (pa, iv) = (g.p(i / k), ivs[(i % k) as usize]);
            let pb = one(iv);
            let a = set_of::<T>(pa);
            let (a_has_b, b_has_a, ov) = (p_subset(&pb, pa), p_subset(pa, &pb), !p_inter(pa, &pb).is_empty());
            let (eq, lt, gt) = (pa == pb.as_slice(), p_lt(pa, &pb), p_lt(&pb, pa));
            rec.st(p_hash(pa)); rec.st(p_hash(&pb));
            with_forms!(T, iv, |x, w| {
                ensure!(a.contains(&x) == a_has_b, "set contains {w}: {}", a.contains(&x));
                ensure!(TimeContaining::<TimeSet<T>>::contains(&x, &a) == b_has_a, "{w} contains set: {}", !b_has_a);
                ensure!(a.overlaps(&x) == ov, "set overlaps {w}: {}", !ov);
                ensure!(TimeOverlapping::<TimeSet<T>>::overlaps(&x, &a) == ov, "{w} overlaps set: {}", !ov);
                chk_cmp!(format!("set with {w}"), a, x, eq, lt, gt);
                rec.tr(11);
            });
            let x = iv_of::<T>(iv);
            chk_cmp!("interval with set", x, a, eq, gt, lt);
            rec.tr(7);
            Ok(())
        },
        move |i| format!("A={} B={}", show_ps(g2.p(i / k)), show_iv(v2[(i % k) as usize])))
}
fn c04_convex<T: Pt>(kind: usize, cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(kind, cells));
    let mut ivs = g.intervals();
    for c in &g.cells { for t in [c.0, c.1] { if fin(t) { ivs.push((t, t)) } } }
    ivs.sort(); ivs.dedup();
    let ivs = Arc::new(ivs);
    let k = ivs.len() as u64;
    let v2 = ivs.clone();
    idx(format!("convex with convex, {} ({})", T::NAME, g.name), format!("all {k}x{k} pairs of convex windows on {cells} cells, in all pairs of forms"), k * k,
        move |i, rec| {
            let (ia, ib) = (ivs[(i / k) as usize], ivs[(i % k) as usize]);
            let (pa, pb) = (one(ia), one(ib));
            let (has, ov) = (p_subset(&pb, &pa), !p_inter(&pa, &pb).is_empty());
            let (eq, lt, gt) = (pa == pb, p_lt(&pa, &pb), p_lt(&pb, &pa));
            rec.st(p_hash(&pa));
            with_forms!(T, ia, |y, v| { with_forms!(T, ib, |x, w| {
                ensure!(TimeContaining::contains(&y, &x) == has, "{v} contains {w}: {}", !has);
                ensure!(TimeOverlapping::overlaps(&y, &x) == ov, "{v} overlaps {w}: {}", !ov);
                rec.tr(2);
            }); });
            let a = iv_of::<T>(ia);
            with_forms!(T, ib, |x, w| { chk_cmp!(format!("interval with {w}"), a, x, eq, lt, gt); rec.tr(7); });
            Ok(())
        },
        move |i| format!("A={} B={}", show_iv(v2[(i / k) as usize]), show_iv(v2[(i % k) as usize])))
}
/// at the ends of the range, whenever the finite dates and the bounds tell the same
fn c04_extreme<T: Pt>() -> Box<dyn Family> {
    let sets = Arc::new(extreme_sets());
    let n = sets.len() as u64;
    let s2 = sets.clone();
    idx(format!("relations at the ends of the range, {}", T::NAME), format!("all {n}x{n} pairs of windows bounded by the extreme ticks or unbounded"), n * n,
        move |i, rec| {
            let (pa, pb) = (&sets[(i / n) as usize], &sets[(i % n) as usize]);
            let (a, b) = (set_of::<T>(pa), set_of::<T>(pb));
            let (na, nb) = (norm(pa), norm(pb));
            rec.st(p_hash(&na)); rec.tr(4);
            let has = p_subset(pb, pa);
            if has == p_subset(&nb, &na) { ensure!(a.contains(&b) == has, "contains is {}", !has) }
            let ov = !p_inter(&na, &nb).is_empty();
            ensure!(a.overlaps(&b) == ov, "overlaps is {}", !ov);
            if (pa == pb) == (na == nb) { chk_cmp!("set with set", a, b, pa == pb, p_lt(pa, pb), p_lt(pb, pa)) }
            if pb.len() <= 1 {
                let w = iv_of::<T>(first_iv(pb));
                rec.tr(3);
                if has == p_subset(&nb, &na) { ensure!(a.contains(&w) == has, "contains interval is {}", !has) }
                ensure!(a.overlaps(&w) == ov, "overlaps interval is {}", !ov);
                if (pa == pb) == (na == nb) { chk_cmp!("set with interval", a, w, pa == pb, p_lt(pa, pb), p_lt(pb, pa)) }
            }
            Ok(())
        },
        move |i| format!("A={} B={}", show_ps(&s2[(i / n) as usize]), show_ps(&s2[(i % n) as usize])))
}
pub fn c04(th: bool) -> Fams {
    let mut v: Fams = vec![
        c04_extreme::<TimeValue>(), c04_extreme::<Timestamp>(),
        c04_convex::<TimeValue>(0, 10), c04_convex::<Timestamp>(1, 10),
        c04_mixed::<TimeValue>(0, 10), c04_mixed::<Timestamp>(1, 9), c04_mixed::<Timestamp>(2, 9),
        c04_sets::<TimeValue>(0, 11), c04_sets::<Timestamp>(1, 10), c04_sets::<Timestamp>(2, 9),
        c04_convex::<TimeValue>(3, 15), c04_mixed::<TimeValue>(3, 10), c04_mixed::<Timestamp>(3, 9), c04_sets::<TimeValue>(3, 9), c04_sets::<Timestamp>(3, 9),
        c04_comb::<TimeValue>(40), c04_comb::<Timestamp>(64),
    ];
    if th {
        v.push(c04_sets::<TimeValue>(1, 13)); v.push(c04_sets::<Timestamp>(0, 13));
        v.push(c04_mixed::<TimeValue>(1, 13)); v.push(c04_convex::<TimeValue>(2, 16));
    }
    v
}

// ================================================================= C05
fn c05_sets<T: Pt>(kind: usize, cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(kind, cells));
    let pr = Arc::new(g.probes());
    let (n, k) = (g.masks(), pr.len() as u64);
    let (g2, p2) = (g.clone(), pr.clone());
    idx(format!("truncations, {} ({})", T::NAME, g.name), format!("all {n} windows of {cells} cells at all {k} cut points around the bounds and the infinities"), n * k,
        move |i, rec| c05_one::<T>(g.p(i / k), pr[(i % k) as usize], rec),
        move |i| format!("A={} cut at {}", show_ps(g2.p(i / k)), show(p2[(i % k) as usize])))
}
pub fn c05_one<T: Pt>(p: &[Iv], t: i64, rec: &mut Rec) -> R {
    let keep_after = p_inter(p, &canon(vec![(t, INF)]));
    let keep_before = p_inter(p, &canon(vec![(-INF, t)]));
    rec.st(p_hash(&keep_after)); rec.st(p_hash(&keep_before));
    let mut s = set_of::<T>(p);
    let f = s.truncate_before(T::of(t));
    chk_set("set truncate_before", &s, &keep_after)?;
    ensure!(f == (keep_after != p), "set truncate_before reports {f}");
    ensure!(!s.truncate_before(T::of(t)), "set truncate_before reports a change the second time");
    let mut s = set_of::<T>(p);
    let f = s.truncate_after(T::of(t));
    chk_set("set truncate_after", &s, &keep_before)?;
    ensure!(f == (keep_before != p), "set truncate_after reports {f}");
    ensure!(!s.truncate_after(T::of(t)), "set truncate_after reports a change the second time");
    rec.tr(4);
    if p.len() <= 1 {
        let iv = p.first().copied().unwrap_or(EMPTY);
        let (wa, wb) = (keep_after.first().copied().unwrap_or(EMPTY), keep_before.first().copied().unwrap_or(EMPTY));
        let mut x = iv_of::<T>(iv);
        let f = x.truncate_before(T::of(t));
        chk_iv("interval truncate_before", &x, wa)?;
        ensure!(f == (wa != iv), "interval truncate_before reports {f}");
        let mut x = iv_of::<T>(iv);
        let f = x.truncate_after(T::of(t));
        chk_iv("interval truncate_after", &x, wb)?;
        ensure!(f == (wb != iv), "interval truncate_after reports {f}");
        rec.tr(2);
    }
    Ok(())
}
fn c05_comb<T: Pt>(cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(1, cells));
    let masks = Arc::new(comb_masks(cells));
    let pr = Arc::new(g.probes());
    let k = pr.len() as u64;
    let (g2, m2, p2) = (g.clone(), masks.clone(), pr.clone());
    idx(format!("truncations of many-piece sets, {}", T::NAME), format!("{} patterned sets on {cells} cells at {k} cut points", masks.len()), masks.len() as u64 * k,
        move |i, rec| c05_one::<T>(&g.cut(masks[(i / k) as usize]), pr[(i % k) as usize], rec),
        move |i| format!("A={} cut at {}", show_ps(&g2.cut(m2[(i / k) as usize])), show(p2[(i % k) as usize])))
}
fn c05_extreme<T: Pt>() -> Box<dyn Family> {
    let sets = Arc::new(extreme_sets());
    let pr: Arc<Vec<i64>> = Arc::new(vec![-INF, TMIN, TMIN + 1, TMIN + 2, TMIN + 3, TMIN + 5, -1, 0, 1, TMAX - 6, TMAX - 5, TMAX - 2, TMAX - 1, TMAX, INF]);
    let (n, k) = (sets.len() as u64, pr.len() as u64);
    let (s2, p2) = (sets.clone(), pr.clone());
    idx(format!("truncations at the ends of the range, {}", T::NAME), format!("{n} windows bounded by the extreme ticks or unbounded at {k} cut points"), n * k,
        move |i, rec| {
            let (p, t) = (&sets[(i / k) as usize], pr[(i % k) as usize]);
            for after in [false, true] {
                let half = canon(vec![if after { (-INF, t) } else { (t, INF) }]);
                let keep = p_inter(p, &half);
                rec.st(p_hash(&keep)); rec.tr(1);
                let mut s = set_of::<T>(p);
                let f = if after { s.truncate_after(T::of(t)) } else { s.truncate_before(T::of(t)) };
                let w = if after { "truncate_after" } else { "truncate_before" };
                chk_norm(w, &raw(&s), &keep)?;
                let same = (norm(&keep) == norm(p), keep == *p);
                if same.0 == same.1 { ensure!(f != same.0, "{w} reports {f}") }
                if p.len() <= 1 {
                    let mut x = iv_of::<T>(first_iv(p));
                    let f = if after { x.truncate_after(T::of(t)) } else { x.truncate_before(T::of(t)) };
                    chk_norm(w, &if x.is_empty() { vec![] } else { vec![raw_iv(&x)] }, &keep)?;
                    if same.0 == same.1 { ensure!(f != same.0, "interval {w} reports {f}") }
                    rec.tr(1);
                }
            }
            Ok(())
        },
        move |i| format!("A={} cut at {}", show_ps(&s2[(i / k) as usize]), show(p2[(i % k) as usize])))
}
pub fn c05(th: bool) -> Fams {
    let mut v: Fams = vec![
        c05_extreme::<TimeValue>(), c05_extreme::<Timestamp>(),
        c05_sets::<TimeValue>(0, 12), c05_sets::<TimeValue>(1, 12), c05_sets::<Timestamp>(1, 12), c05_sets::<Timestamp>(2, 11), c05_sets::<TimeValue>(3, 12), c05_sets::<Timestamp>(3, 11),
        c05_comb::<TimeValue>(40), c05_comb::<Timestamp>(64),
    ];
    if th { v.push(c05_sets::<TimeValue>(1, 16)); v.push(c05_sets::<Timestamp>(0, 16)); v.push(c05_sets::<Timestamp>(2, 15)); }
    v
}

// ================================================================= C06
/// every query of a window against the pieces it should hold
pub fn chk_window<T: Pt, W: TimeWindow<TimePoint = T>>(w: &str, x: &W, p: &[Iv]) -> R {
    let e = p.is_empty();
    let (lo, hi) = if e { EMPTY } else { (p[0].0, p[p.len() - 1].1) };
    let q = |n: &str, got: bool, want: bool| -> R { if got == want { Ok(()) } else { Err(format!("{w} {}: {n} is {got}", show_ps(p))) } };
    q("is_empty", x.is_empty(), e)?;
    q("is_low_bounded", x.is_low_bounded(), !e && lo != -INF)?;
    q("is_up_bounded", x.is_up_bounded(), !e && hi != INF)?;
    q("is_bounded", x.is_bounded(), !e && lo != -INF && hi != INF)?;
    q("is_singleton", x.is_singleton(), !e && lo == hi)?;
    q("is_all", x.is_all(), p == [(-INF, INF)])?;
    q("is_convex", x.is_convex(), p.len() <= 1)?;
    ensure!(x.convex_count() == p.len(), "{w} {}: convex_count is {}", show_ps(p), x.convex_count());
    let it: Vec<Iv> = x.iter().map(|i| raw_iv(&i)).collect();
    ensure!(it == p, "{w}: iterates {} instead of {}", show_ps(&it), show_ps(p));
    let h = x.iter().size_hint();
    ensure!(h.0 <= p.len() && h.1.map(|m| m >= p.len()).unwrap_or(true), "{w} {}: size_hint {h:?}", show_ps(p));
    if !e {
        ensure!(x.lower_bound().tk() == lo, "{w} {}: lower_bound is {}", show_ps(p), show(x.lower_bound().tk()));
        ensure!(x.upper_bound().tk() == hi, "{w} {}: upper_bound is {}", show_ps(p), show(x.upper_bound().tk()));
    }
    chk_iv(&format!("{w} convex_envelope"), &x.convex_envelope(), (lo, hi))
}
fn c06_sets<T: Pt>(kind: usize, cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(kind, cells));
    let n = g.masks();
    let g2 = g.clone();
    idx(format!("set queries, {} ({})", T::NAME, g.name), format!("all {n} sets of {cells} cells"), n,
        move |m, rec| {
            let p = g.p(m);
            let s = set_of::<T>(p);
            rec.st(m); rec.tr(14);
            chk_window("set", &s, p)?;
            let it: Vec<Iv> = s.clone().into_iter().map(|i| raw_iv(&i)).collect();
            ensure!(it == p, "into_iter gives {}", show_ps(&it));
            super::iters::consume("iter()", || TimeWindow::iter(&s), |x| raw_iv(&x), p, rec)?;
            super::iters::consume("into_iter()", || s.clone().into_iter(), |x| raw_iv(&x), p, rec)?;
            super::iters::consume("(&set).into_iter()", || (&s).into_iter(), |x| raw_iv(&x), p, rec)?;
            Ok(())
        },
        move |m| show_ps(g2.p(m)))
}
fn c06_convex<T: Pt + std::ops::Add<TimeValue, Output = T> + std::ops::Sub<TimeValue, Output = T>>(kind: usize, cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(kind, cells));
    let pr = Arc::new(g.probes());
    let n = pr.len() as u64;
    let p2 = pr.clone();
    let dur: Vec<i64> = vec![0, 1, -1, 2, -2, 3, -3, 5, -7, 12, S1, -S1];
    idx(format!("convex queries and constructors, {} ({})", T::NAME, g.name), format!("all pairs of {n} time points around {} boundaries, infinities included", cells - 1), n * n,
        move |i, rec| {
            let (a, b) = (pr[(i / n) as usize], pr[(i % n) as usize]);
            let p = canon(vec![(a, b)]);
            let iv = p.first().copied().unwrap_or(EMPTY);
            rec.st(p_hash(&p));
            chk_iv("new", &TimeInterval::new(T::of(a), T::of(b)), iv)?;
            chk_iv("from pair", &TimeInterval::from((T::of(a), T::of(b))), iv)?;
            chk_set("convex", &TimeSet::convex(T::of(a), T::of(b)), &p)?;
            if a != INF && b != -INF && a < b {
                let r: TimeInterval<T> = (T::of(a)..T::of(b)).into();
                chk_iv("from a..b", &r, canon(vec![(a, if b == INF { b } else { b - 1 })]).first().copied().unwrap_or(EMPTY))?;
            }
            if !p.is_empty() {
                let (x, w): (TimeInterval<T>, _) = (unsafe { TimeInterval::new_unchecked(T::of(a), T::of(b)) }, iv);
                chk_iv("new_unchecked", &x, w)?;
            }
            with_forms!(T, iv, |x, w| {
                chk_window(w, &x, &p)?;
                let y: TimeInterval<T> = x.clone().into();
                chk_window(&format!("interval from {w}"), &y, &p)?;
                let s: TimeSet<T> = TimeSet::<T>::from(x.clone());
                chk_window(&format!("set from {w}"), &s, &p)?;
                rec.tr(36);
            });
            chk_window("interval.clone()", &iv_of::<T>(iv).clone(), &p)?;
            if i % n == 0 {
                chk_iv("before", &TimeInterval::before(T::of(a)), canon(vec![(-INF, a)]).first().copied().unwrap_or(EMPTY))?;
                chk_iv("after", &TimeInterval::after(T::of(a)), canon(vec![(a, INF)]).first().copied().unwrap_or(EMPTY))?;
                chk_iv("singleton", &TimeInterval::singleton(T::of(a)), canon(vec![(a, a)]).first().copied().unwrap_or(EMPTY))?;
                chk_iv("from point", &TimeInterval::from(T::of(a)), canon(vec![(a, a)]).first().copied().unwrap_or(EMPTY))?;
                chk_set("set singleton", &TimeSet::singleton(T::of(a)), &canon(vec![(a, a)]))?;
                chk_window("all", &TimeInterval::<T>::all(), &[(-INF, INF)])?;
                chk_window("..", &TimeInterval::<T>::from(..), &[(-INF, INF)])?;
                chk_window("set all", &TimeSet::<T>::all(), &[(-INF, INF)])?;
                chk_window("empty", &TimeInterval::<T>::empty(), &[])?;
                chk_window("default", &TimeInterval::<T>::default(), &[])?;
                chk_window("set empty", &TimeSet::<T>::empty(), &[])?;
                rec.tr(11);
                if fin(a) { for d in &dur {
                    let c = TimeInterval::centered(T::of(a), tv(*d));
                    ensure!(c.is_some() == (*d >= 0), "centered({}, {d}) is {c:?}", show(a));
                    if let Some(c) = c { chk_window("centered", &c, &[(a - d, a + d)])? }
                    rec.tr(1);
                } }
            }
            for d in &dur {
                let e = iv_of::<T>(iv).enlarge(tv(*d));
                let w = if p.is_empty() { None } else {
                    let lo = if fin(iv.0) { iv.0 - d } else { iv.0 };
                    let hi = if fin(iv.1) { iv.1 + d } else { iv.1 };
                    if lo <= hi { Some((lo, hi)) } else { None }
                };
                ensure!(e.map(|x| raw_iv(&x)) == w, "{}.enlarge({d}) is {e:?}", show_iv(iv));
                if let (Some(e), Some(w)) = (e, w) { chk_window("enlarged", &e, &[w])? }
                rec.tr(1);
            }
            Ok(())
        },
        move |i| format!("bounds {} and {}", show(p2[(i / n) as usize]), show(p2[(i % n) as usize])))
}
fn c06_duration() -> Box<dyn Family> {
    let g = std_grid(2, 14);
    let mut pr = g.probes(); pr.extend([0, 1, -1, S1, -S1]); pr.sort(); pr.dedup();
    let pr = Arc::new(pr);
    let n = pr.len() as u64;
    let p2 = pr.clone();
    idx("duration of slots", format!("all pairs of {n} dates"), n * n,
        move |i, rec| {
            let (a, b) = (pr[(i / n) as usize], pr[(i % n) as usize]);
            let s = TimeSlot::new(Timestamp::of(a), Timestamp::of(b));
            let want = if a >= b { 0 } else if fin(a) && fin(b) { clip(b as i128 - a as i128) } else { INF };
            rec.st(want as u64); rec.tr(1);
            ensure!(s.duration().tk() == want, "duration is {} instead of {}", show(s.duration().tk()), show(want));
            Ok(())
        },
        move |i| format!("slot from {} to {}", show(p2[(i / n) as usize]), show(p2[(i % n) as usize])))
}
/// the window of a graph constraint and of a tuple constraint are windows too
fn c06_constraints() -> Box<dyn Family> {
    let pr = Arc::new(vec![-INF, -9, -1, 0, 1, 2, 7, INF]);
    let n = pr.len() as u64;
    let p2 = pr.clone();
    idx("graph constraint windows", format!("all windows over {n} bounds, between each ordered pair of 4 instants"), n * n * 12,
        move |i, rec| {
            let (a, b) = (pr[(i / 12 / n) as usize], pr[(i / 12 % n) as usize]);
            let (f, t) = { let k = i % 12; let f = k / 3; let t = k % 3; (f as u32, if t >= f { t + 1 } else { t } as u32) };
            let p = canon(vec![(a, b)]);
            let iv = p.first().copied().unwrap_or(EMPTY);
            rec.st(p_hash(&p)); rec.tr(14);
            chk_window("tuple constraint", &((f, t), iv_of::<TimeValue>(iv)), &p)?;
            if p.is_empty() { return Ok(()) }
            let mut g = chronologic::graph::TimeGraph::with_size(4);
            ensure!(g.propagate(((f, t), iv_of::<TimeValue>(iv))).is_ok(), "refused");
            chk_window("timespan", &g.timespan(f, t), &p)?;
            chk_window("reverse timespan", &g.timespan(t, f), &p_neg(&p))?;
            if p != [(-INF, INF)] {
                chk_window("graph constraint", &g.constraint(f, t).ok_or("no constraint")?, &p)?;
                chk_window("reverse graph constraint", &g.constraint(t, f).ok_or("no constraint")?, &p_neg(&p))?;
                rec.tr(28);
            }
            Ok(())
        },
        move |i| format!("window {} .. {}", show(p2[(i / 12 / n) as usize]), show(p2[(i / 12 % n) as usize])))
}
fn c06_extreme<T: Pt>() -> Box<dyn Family> {
    let sets = Arc::new(extreme_sets());
    let n = sets.len() as u64;
    let s2 = sets.clone();
    idx(format!("queries at the ends of the range, {}", T::NAME), format!("{n} windows bounded by the extreme ticks or unbounded"), n,
        move |i, rec| {
            let p = &sets[i as usize];
            rec.st(p_hash(p)); rec.tr(28);
            chk_window("set", &set_of::<T>(p), p)?;
            if p.len() <= 1 { chk_window("interval", &iv_of::<T>(first_iv(p)), p)? }
            for q in p { chk_window("interval from pair", &TimeInterval::from((T::of(q.0), T::of(q.1))), &[*q])?; chk_window("a..=b", &(T::of(q.0)..=T::of(q.1)), &[*q])? }
            Ok(())
        },
        move |i| show_ps(&s2[i as usize]))
}
pub fn c06(th: bool) -> Fams {
    let mut v: Fams = vec![
        c06_extreme::<TimeValue>(), c06_extreme::<Timestamp>(),
        c06_convex::<TimeValue>(0, 10), c06_convex::<TimeValue>(1, 14), c06_convex::<Timestamp>(1, 14), c06_convex::<Timestamp>(2, 11),
        c06_sets::<TimeValue>(0, 14), c06_sets::<Timestamp>(1, 14), c06_sets::<Timestamp>(2, 11), c06_sets::<TimeValue>(3, 11), c06_sets::<Timestamp>(3, 11), c06_convex::<TimeValue>(3, 14), c06_convex::<Timestamp>(3, 14),
        c06_duration(), c06_constraints(),
    ];
    if th { v.push(c06_sets::<TimeValue>(1, 16)); v.push(c06_sets::<Timestamp>(2, 16)); v.push(c06_convex::<TimeValue>(2, 16)); v.push(c06_convex::<Timestamp>(0, 16)); }
    v
}
