//! C07 translation, C08 scaling
use super::Fams;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use chronologic::*;
use std::ops::*;
use std::sync::Arc;

// ================================================================= C07
fn neg_iv(i: Iv) -> Iv { if i.0 > i.1 { EMPTY } else { (-i.1, -i.0) } }
fn first(p: &[Iv]) -> Iv { p.first().copied().unwrap_or(EMPTY) }

/// windows of durations added to and subtracted from windows of durations or dates
fn gen<T>(g: Arc<Grid>, h: Arc<Grid>) -> Box<dyn Family>
    where T: Pt + Add<TimeValue, Output = T> + Sub<TimeValue, Output = T> + AddAssign<TimeValue> + SubAssign<TimeValue>,
{
    let (n, k) = (g.masks(), h.masks());
    let (g2, h2) = (g.clone(), h.clone());
    idx(format!("{} windows plus and minus duration windows ({}, {})", T::NAME, g.name, h.name),
        format!("all {n} windows of {} cells with all {k} duration windows of {} cells", g.n(), h.n()), n * k,
        move |i, rec| {
            let (pa, pb) = (g.p(i / k), h.p(i % k));
            let (sum, dif) = (p_sum(pa, pb), p_diff(pa, pb));
            rec.st(p_hash(&sum)); rec.st(p_hash(&dif));
            let (a, b) = (set_of::<T>(pa), set_of::<TimeValue>(pb));
            chk_set("A + B", &(a.clone() + b.clone()), &sum)?;
            chk_set("A - B", &(a.clone() - b.clone()), &dif)?;
            let mut x = a.clone(); x += b.clone(); chk_set("A += B", &x, &sum)?;
            let mut x = a.clone(); x -= b.clone(); chk_set("A -= B", &x, &dif)?;
            rec.tr(4);
            if pb.len() <= 1 {
                let s: TimeSpan = iv_of(first(pb));
                chk_set("A + span", &(a.clone() + s), &sum)?;
                chk_set("A - span", &(a.clone() - s), &dif)?;
                let mut x = a.clone(); x += s; chk_set("A += span", &x, &sum)?;
                let mut x = a.clone(); x -= s; chk_set("A -= span", &x, &dif)?;
                rec.tr(4);
                if pa.len() <= 1 {
                    let w: TimeInterval<T> = iv_of(first(pa));
                    chk_iv("interval + span", &(w + s), first(&sum))?;
                    chk_iv("interval - span", &(w - s), first(&dif))?;
                    let mut x = w; x += s; chk_iv("interval += span", &x, first(&sum))?;
                    let mut x = w; x -= s; chk_iv("interval -= span", &x, first(&dif))?;
                    rec.tr(4);
                }
            }
            Ok(())
        },
        move |i| format!("A={} B={}", show_ps(g2.p(i / k)), show_ps(h2.p(i % k))))
}
fn by_value<T>(g: Arc<Grid>) -> Box<dyn Family>
    where T: Pt + Add<TimeValue, Output = T> + Sub<TimeValue, Output = T> + AddAssign<TimeValue> + SubAssign<TimeValue>,
{
    let d: Arc<Vec<i64>> = Arc::new(vec![0, 1, -1, 2, -2, 5, -7, 100, S1, -S1, 86400 * S1 + 1, -365 * 86400 * S1, 1 << 58, -(1 << 58)]);
    let (n, k) = (g.masks(), d.len() as u64);
    let (g2, d2) = (g.clone(), d.clone());
    idx(format!("{} windows plus and minus one duration ({})", T::NAME, g.name), format!("all {n} windows of {} cells with {k} durations", g.n()), n * k,
        move |i, rec| {
            let (pa, t) = (g.p(i / k), d[(i % k) as usize]);
            let (sum, dif) = (p_sum(pa, &[(t, t)]), p_diff(pa, &[(t, t)]));
            rec.st(p_hash(&sum)); rec.st(p_hash(&dif));
            let (a, v) = (set_of::<T>(pa), tv(t));
            chk_set("A + t", &(a.clone() + v), &sum)?;
            chk_set("A - t", &(a.clone() - v), &dif)?;
            let mut x = a.clone(); x += v; chk_set("A += t", &x, &sum)?;
            let mut x = a.clone(); x -= v; chk_set("A -= t", &x, &dif)?;
            chk_set("-A", &-a.clone(), &p_neg(pa))?;
            rec.tr(5);
            if pa.len() <= 1 {
                let w: TimeInterval<T> = iv_of(first(pa));
                chk_iv("interval + t", &(w + v), first(&sum))?;
                chk_iv("t + interval", &(v + w), first(&sum))?;
                chk_iv("interval - t", &(w - v), first(&dif))?;
                chk_iv("t - interval", &(v - w), neg_iv(first(&dif)))?;
                let mut x = w; x += v; chk_iv("interval += t", &x, first(&sum))?;
                let mut x = w; x -= v; chk_iv("interval -= t", &x, first(&dif))?;
                chk_iv("-interval", &-w, neg_iv(first(pa)))?;
                rec.tr(7);
            }
            Ok(())
        },
        move |i| format!("A={} t={}", show_ps(g2.p(i / k)), d2[(i % k) as usize]))
}
/// dates with windows of durations, dates with windows of dates
fn dates(g: Arc<Grid>) -> Box<dyn Family> {
    let d: Arc<Vec<i64>> = Arc::new(vec![0, 1, -1, 3, -4, 90, S1, -S1 - 1, 1_700_000_000 * S1 + 12345, -(1 << 60)]);
    let (n, k) = (g.masks(), d.len() as u64);
    let (g2, d2) = (g.clone(), d.clone());
    idx(format!("one date with windows ({})", g.name), format!("all {n} windows of {} cells with {k} dates", g.n()), n * k,
        move |i, rec| {
            let (p, t) = (g.p(i / k), d[(i % k) as usize]);
            let date = Timestamp::of(t);
            let at = [(t, t)];
            let (sum, fwd, bwd) = (p_sum(p, &at), p_diff(p, &at), p_diff(&at, p));
            rec.st(p_hash(&sum)); rec.st(p_hash(&bwd));
            let s = set_of::<TimeValue>(p);
            chk_set("spans + date", &(s.clone() + date), &sum)?;
            chk_set("date + spans", &(date + s.clone()), &sum)?;
            chk_set("date - spans", &(date - s.clone()), &bwd)?;
            chk_set("spans - date", &(s.clone() - date), &fwd)?;
            rec.tr(4);
            if p.len() <= 1 {
                let w: TimeSpan = iv_of(first(p));
                chk_iv("span + date", &(w + date), first(&sum))?;
                chk_iv("date + span", &(date + w), first(&sum))?;
                chk_iv("date - span", &(date - w), first(&bwd))?;
                chk_iv("span - date", &(w - date), first(&fwd))?;
                let sl: TimeSlot = iv_of(first(p));
                chk_iv("slot - date", &(sl - date), first(&fwd))?;
                chk_iv("date - slot", &(date - sl), first(&bwd))?;
                rec.tr(5);
            }
            Ok(())
        },
        move |i| format!("A={} date={}", show_ps(g2.p(i / k)), d2[(i % k) as usize]))
}
fn slots(g: Arc<Grid>) -> Box<dyn Family> {
    let ivs = Arc::new(g.intervals());
    let k = ivs.len() as u64;
    let v2 = ivs.clone();
    idx(format!("slot minus slot ({})", g.name), format!("all {k}x{k} pairs of slots on {} cells", g.n()), k * k,
        move |i, rec| {
            let (a, b) = (ivs[(i / k) as usize], ivs[(i % k) as usize]);
            let want = first(&p_diff(&one(a), &one(b)));
            rec.st(p_hash(&one(want))); rec.tr(1);
            chk_iv("slot - slot", &(iv_of::<Timestamp>(a) - iv_of::<Timestamp>(b)), want)
        },
        move |i| format!("A={} B={}", show_iv(v2[(i / k) as usize]), show_iv(v2[(i % k) as usize])))
}
fn points() -> Box<dyn Family> {
    let d: Arc<Vec<i64>> = Arc::new(vec![0, 1, -1, 2, 7, -9, S1, -S1, 3 * S1 + 1, 1 << 60, -(1 << 60), INF / 2, -(INF / 2)]);
    let k = d.len() as u64;
    let d2 = d.clone();
    idx("dates and durations", format!("all {k}x{k} pairs of values"), k * k,
        move |i, rec| {
            let (a, b) = (d[(i / k) as usize], d[(i % k) as usize]);
            let (da, vb, db) = (Timestamp::of(a), tv(b), Timestamp::of(b));
            rec.st(i); rec.tr(9);
            let (s, m) = (xadd(a, b).unwrap(), xadd(a, -b).unwrap());
            ensure!((da + vb).tk() == s, "date + t = {:?}", da + vb);
            ensure!((vb + da).tk() == s, "t + date = {:?}", vb + da);
            ensure!((da - vb).tk() == m, "date - t = {:?}", da - vb);
            ensure!((vb - da).tk() == -m, "t - date = {:?}", vb - da);
            ensure!((da - db).tk() == m, "date - date = {:?}", da - db);
            ensure!((-da).tk() == -a, "-date = {:?}", -da);
            let mut x = da; x += vb; ensure!(x.tk() == s, "date += t = {x:?}");
            let mut x = da; x -= vb; ensure!(x.tk() == m, "date -= t = {x:?}");
            ensure!(da.since_origin().as_ticks() == a && da.lower_bound() == da && da.upper_bound() == da, "date fields");
            Ok(())
        },
        move |i| format!("{} and {}", d2[(i / k) as usize], d2[(i % k) as usize]))
}
/// does every piece keep a finite or unbounded extent (no piece wholly pushed out of the range)?
pub fn stays(p: &[Iv], q: &[Iv]) -> bool {
    p.iter().all(|x| q.iter().all(|y| {
        (x.0 == -INF || y.0 == -INF || x.0 as i128 + (y.0 as i128) < INF as i128) && (x.1 == INF || y.1 == INF || x.1 as i128 + y.1 as i128 > -(INF as i128))
    }))
}
pub fn edge_spans() -> Vec<Vec<Iv>> {
    let h = INF / 2;
    vec![
        vec![], vec![(-INF, INF)], vec![(0, 0)], vec![(1, 1)], vec![(-1, -1)], vec![(-3, 2)], vec![(5, INF)], vec![(-INF, -4)], vec![(0, 0), (3, 4)], vec![(-9, -9), (-5, -1), (2, 2)],
        vec![(h, h + 1)], vec![(-h - 1, -h)], vec![(h, INF)], vec![(-INF, -h)], vec![(-h, -h), (h, h)], vec![(TMAX - 3, TMAX)], vec![(TMIN, TMIN + 3)], vec![(TMAX, TMAX)], vec![(TMIN, TMIN)],
        vec![(TMIN, TMAX)], vec![(-INF, TMAX)], vec![(TMIN, INF)], vec![(TMIN, TMIN + 2), (0, 1), (TMAX - 2, INF)], vec![(7, 7), (h, TMAX)],
    ]
}
/// translations where bounds leave the range: they become unbounded, the rest stays exact
fn edges<T>() -> Box<dyn Family>
    where T: Pt + Add<TimeValue, Output = T> + Sub<TimeValue, Output = T> + AddAssign<TimeValue> + SubAssign<TimeValue>,
{
    let (sets, spans) = (Arc::new(extreme_sets()), Arc::new(edge_spans()));
    let (n, k) = (sets.len() as u64, spans.len() as u64);
    let (s2, p2) = (sets.clone(), spans.clone());
    idx(format!("{} windows translated at the ends of the range", T::NAME), format!("{n} windows bounded by the extreme ticks or unbounded with {k} windows of durations up to the whole range"), n * k,
        move |i, rec| {
            let (pa, pb) = (&sets[(i / k) as usize], &spans[(i % k) as usize]);
            let (a, b) = (set_of::<T>(pa), set_of::<TimeValue>(pb));
            for minus in [false, true] {
                let q = if minus { p_neg(pb) } else { pb.clone() };
                if !stays(pa, &q) { continue }
                let want = p_sum(pa, &q);
                rec.st(p_hash(&want)); rec.tr(2);
                let (o, oe) = if minus { ("A - B", "A -= B") } else { ("A + B", "A += B") };
                chk_set(o, &if minus { a.clone() - b.clone() } else { a.clone() + b.clone() }, &want)?;
                let mut x = a.clone(); if minus { x -= b.clone() } else { x += b.clone() } chk_set(oe, &x, &want)?;
                if pb.len() <= 1 {
                    let s: TimeSpan = iv_of(first(pb));
                    rec.tr(2);
                    chk_set("with span", &if minus { a.clone() - s } else { a.clone() + s }, &want)?;
                    let mut x = a.clone(); if minus { x -= s } else { x += s } chk_set("in place with span", &x, &want)?;
                    if pa.len() <= 1 {
                        let w: TimeInterval<T> = iv_of(first(pa));
                        rec.tr(2);
                        chk_iv("interval with span", &if minus { w - s } else { w + s }, first(&want))?;
                        let mut x = w; if minus { x -= s } else { x += s } chk_iv("interval in place with span", &x, first(&want))?;
                    }
                    if !pb.is_empty() && pb[0].0 == pb[0].1 {
                        let t = tv(pb[0].0);
                        rec.tr(2);
                        chk_set("with a duration", &if minus { a.clone() - t } else { a.clone() + t }, &want)?;
                        let mut x = a.clone(); if minus { x -= t } else { x += t } chk_set("in place with a duration", &x, &want)?;
                        if pa.len() <= 1 {
                            let w: TimeInterval<T> = iv_of(first(pa));
                            rec.tr(3);
                            chk_iv("interval with a duration", &if minus { w - t } else { w + t }, first(&want))?;
                            if minus { chk_iv("duration - interval", &(t - w), neg_iv(first(&want)))? } else { chk_iv("duration + interval", &(t + w), first(&want))? }
                            let mut x = w; if minus { x -= t } else { x += t } chk_iv("interval in place with a duration", &x, first(&want))?;
                        }
                    }
                }
            }
            chk_set("-A", &-a, &p_neg(pa))
        },
        move |i| format!("A={} B={}", show_ps(&s2[(i / k) as usize]), show_ps(&p2[(i % k) as usize])))
}
/// dates at the ends of the range with windows
fn edge_dates() -> Box<dyn Family> {
    let (sets, ds) = (Arc::new([extreme_sets(), edge_spans()].concat()), Arc::new(vec![0, 1, -1, 5, -6, INF / 2, -(INF / 2), TMAX - 4, TMIN + 4, TMAX, TMIN]));
    let (n, k) = (sets.len() as u64, ds.len() as u64);
    let (s2, d2) = (sets.clone(), ds.clone());
    idx("one date with windows at the ends of the range", format!("{n} windows with {k} dates"), n * k,
        move |i, rec| {
            let (p, t) = (&sets[(i / k) as usize], ds[(i % k) as usize]);
            let (date, at) = (Timestamp::of(t), [(t, t)]);
            let (s, single) = (set_of::<TimeValue>(p), p.len() <= 1);
            if stays(p, &at) {
                let sum = p_sum(p, &at);
                rec.st(p_hash(&sum)); rec.tr(2);
                chk_set("spans + date", &(s.clone() + date), &sum)?;
                chk_set("date + spans", &(date + s.clone()), &sum)?;
                if single { let w: TimeSpan = iv_of(first(p)); rec.tr(2); chk_iv("span + date", &(w + date), first(&sum))?; chk_iv("date + span", &(date + w), first(&sum))?; }
            }
            let q = p_neg(p);
            if stays(&q, &at) {
                let bwd = p_sum(&q, &at);
                rec.st(p_hash(&bwd)); rec.tr(1);
                chk_set("date - spans", &(date - s.clone()), &bwd)?;
                if single {
                    rec.tr(3);
                    let w: TimeSpan = iv_of(first(p));
                    chk_iv("date - span", &(date - w), first(&bwd))?;
                    let sl: TimeSlot = iv_of(first(p));
                    chk_iv("date - slot", &(date - sl), first(&bwd))?;
                    chk_iv("slot - date", &(sl - date), neg_iv(first(&bwd)))?;
                }
            }
            Ok(())
        },
        move |i| format!("A={} date={}", show_ps(&s2[(i / k) as usize]), d2[(i % k) as usize]))
}
/// sets of many pieces translated by sets of many pieces
fn crowds<T>(th: bool) -> Box<dyn Family>
    where T: Pt + Add<TimeValue, Output = T> + Sub<TimeValue, Output = T> + AddAssign<TimeValue> + SubAssign<TimeValue>,
{
    let sizes: &[i64] = if th { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 40] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17] };
    let make = |n: i64, step: i64, w: i64, quad: bool, open: i64| -> Vec<Iv> {
        canon((0..n).map(|k| {
            let b = k * step + if quad { k * k * 7 } else { 0 } - n * step / 3;
            (if k == 0 && open & 1 == 1 { -INF } else { b }, if k == n - 1 && open & 2 == 2 { INF } else { b + w })
        }).collect())
    };
    let (mut pa, mut pb): (Vec<Vec<Iv>>, Vec<Vec<Iv>>) = (vec![], vec![]);
    for (x, &n) in sizes.iter().enumerate() {
        for (y, (step, w, quad)) in [(7, 2, false), (100, 2, false), (1000, 0, false), (13, 1, true), (S1, 3, false), (1000, 998, false)].into_iter().enumerate() { pa.push(make(n, step, w, quad, if (x + y) % 5 == 0 { (x % 4) as i64 } else { 0 })) }
        for (y, (step, w, quad)) in [(3, 1, false), (5, 1, false), (2, 0, false), (13, 0, true), (1000, 1, false), (4, 0, true), (7 * S1, S1, false)].into_iter().enumerate() { pb.push(make(n, step, w, quad, if (x + y) % 6 == 0 { (x % 4) as i64 } else { 0 })) }
    }
    let (pa, pb) = (Arc::new(pa), Arc::new(pb));
    let (a2, b2) = (pa.clone(), pb.clone());
    let k = pb.len() as u64;
    idx(format!("sets of many pieces by sets of many pieces, {}", T::NAME), format!("{} sets of up to {} pieces translated by {k} sets", pa.len(), sizes.last().unwrap()), pa.len() as u64 * k,
        move |i, rec| {
            let (p, q) = (&pa[(i / k) as usize], &pb[(i % k) as usize]);
            rec.st(i);
            tr_ops::<T>(p, &set_of::<T>(p), q, rec)
        },
        move |i| format!("A={} B={}", show_ps(&a2[(i / k) as usize]), show_ps(&b2[(i % k) as usize])))
}
pub fn c07(th: bool) -> Fams {
    let gr = |kind, n| Arc::new(std_grid(kind, n));
    let spread = |m: i64| Arc::new(Grid::new(&format!("gaps x{m}"), &[-9 * m, -8 * m, -4 * m, -3 * m, 0, m, 6 * m, 8 * m]));
    let mut v: Fams = vec![
        edges::<TimeValue>(), edges::<Timestamp>(), edge_dates(),
        gen::<TimeValue>(gr(0, 9), gr(0, 8)), gen::<Timestamp>(gr(1, 9), gr(0, 8)), gen::<TimeValue>(spread(1), gr(0, 7)), gen::<Timestamp>(spread(S1), spread(S1)), gen::<Timestamp>(gr(2, 9), gr(2, 8)), gen::<TimeValue>(gr(3, 9), gr(3, 8)), gen::<Timestamp>(gr(3, 8), gr(3, 8)), by_value::<TimeValue>(gr(3, 10)), by_value::<Timestamp>(gr(3, 10)), dates(gr(3, 10)), slots(gr(3, 12)),
        by_value::<TimeValue>(gr(0, 12)), by_value::<Timestamp>(gr(1, 12)), by_value::<Timestamp>(gr(2, 10)),
        dates(gr(0, 12)), dates(gr(1, 12)), dates(gr(2, 10)), slots(gr(0, 12)), slots(gr(2, 11)), points(),
    ];
    v.push(crowds::<TimeValue>(th)); v.push(crowds::<Timestamp>(th));
    if th {
        v.push(gen::<TimeValue>(gr(1, 12), gr(0, 9))); v.push(gen::<Timestamp>(gr(0, 10), gr(1, 11)));
        v.push(gen::<TimeValue>(gr(2, 11), spread(S1))); v.push(by_value::<TimeValue>(gr(1, 16))); v.push(dates(gr(1, 16)));
        v.push(slots(gr(1, 16)));
    }
    v
}

/// one set translated by one window of durations, in every form
pub fn tr_ops<T>(p: &[Iv], a: &TimeSet<T>, q: &[Iv], rec: &mut Rec) -> R
    where T: Pt + Add<TimeValue, Output = T> + Sub<TimeValue, Output = T> + AddAssign<TimeValue> + SubAssign<TimeValue>,
{
    let (sum, dif, b) = (p_sum(p, q), p_diff(p, q), set_of::<TimeValue>(q));
    rec.tr(5);
    chk_set("A + B", &(a.clone() + b.clone()), &sum)?;
    chk_set("A - B", &(a.clone() - b.clone()), &dif)?;
    let mut x = a.clone(); x += b.clone(); chk_set("A += B", &x, &sum)?;
    let mut x = a.clone(); x -= b.clone(); chk_set("A -= B", &x, &dif)?;
    chk_set("-A", &-a.clone(), &p_neg(p))?;
    if q.len() <= 1 {
        let s: TimeSpan = iv_of(first(q));
        rec.tr(4);
        chk_set("A + span", &(a.clone() + s), &sum)?;
        chk_set("A - span", &(a.clone() - s), &dif)?;
        let mut x = a.clone(); x += s; chk_set("A += span", &x, &sum)?;
        let mut x = a.clone(); x -= s; chk_set("A -= span", &x, &dif)?;
        if s.is_singleton() {
            let v = s.lower_bound();
            rec.tr(4);
            chk_set("A + t", &(a.clone() + v), &sum)?;
            chk_set("A - t", &(a.clone() - v), &dif)?;
            let mut x = a.clone(); x += v; chk_set("A += t", &x, &sum)?;
            let mut x = a.clone(); x -= v; chk_set("A -= t", &x, &dif)?;
        }
    }
    Ok(())
}

// ================================================================= C08
/// one set scaled by factors of every type
pub fn sc_ops(p: &[Iv], rec: &mut Rec) -> R {
    for n in [-7i128, -2, -1, 0, 1, 2, 3, 12, 1000] {
        macro_rules! all { ($($t:ty),*) => { $( int_ops::<$t>(stringify!($t), p, n, rec)?; )* } }
        all!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
    }
    for (a, b) in [(-3i128, 2i128), (-1, 4), (1, 8), (1, 2), (5, 4), (3, 1)] {
        float_ops::<f64>("f64", p, a as f64 / b as f64, a, b, rec)?;
        float_ops::<f32>("f32", p, a as f32 / b as f32, a, b, rec)?;
    }
    Ok(())
}
/// scaled pieces, bounds out of range being unbounded; None when a whole piece leaves the range
fn scaled(p: &[Iv], num: i128, den: i128) -> Option<Vec<Iv>> {
    let neg = (num < 0) != (den < 0);
    let g = |x: i64| -> i64 {
        if num == 0 { 0 } else if !fin(x) { if neg { -x } else { x } }
        else { match (x as i128).checked_mul(num) { Some(y) => clip(y / den), None => if (x < 0) != neg { -INF } else { INF } } }
    };
    let mut v = vec![];
    for i in p {
        let (a, b) = (g(i.0), g(i.1));
        let w = if neg { (b, a) } else { (a, b) };
        if w.0 == INF || w.1 == -INF { return None }
        v.push(w)
    }
    Some(canon(v))
}
trait Fac: Copy { fn cast(n: i128) -> Option<Self> where Self: Sized; }
macro_rules! facs { ($($t:ty),*) => { $(impl Fac for $t { fn cast(n: i128) -> Option<Self> { <$t>::try_from(n).ok() } })* } }
facs!(i8, u8, i16, u16, i32, u32, i64, u64, i128, isize, usize);
impl Fac for u128 { fn cast(n: i128) -> Option<Self> { if n == i128::MAX { Some(u128::MAX) } else { u128::try_from(n).ok() } } }

fn ints() -> Vec<i128> {
    let mut v: Vec<i128> = vec![];
    for n in [0i128, 1, 2, 3, 5, 7, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 1 << 62, (1 << 63) - 2, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, 1 << 100, i128::MAX] { v.push(n); v.push(-n); }
    v.push(i128::MIN); v.sort(); v.dedup(); v
}
fn int_ops<S>(w: &str, p: &[Iv], n: i128, rec: &mut Rec) -> R
    where S: Fac + Mul<TimeSpans, Output = TimeSpans> + Mul<TimeSpan, Output = TimeSpan>,
          TimeSpans: Mul<S, Output = TimeSpans> + Div<S, Output = TimeSpans> + MulAssign<S> + DivAssign<S>,
          TimeSpan: Mul<S, Output = TimeSpan> + Div<S, Output = TimeSpan> + MulAssign<S> + DivAssign<S>,
{
    let Some(f) = S::cast(n) else { return Ok(()) };
    let s = set_of::<TimeValue>(p);
    let single = p.len() <= 1;
    let i = iv_of::<TimeValue>(first(p));
    if let Some(m) = scaled(p, n, 1) {
        rec.st(p_hash(&m)); rec.tr(3);
        chk_set(&format!("set * {w}"), &(s.clone() * f), &m)?;
        chk_set(&format!("{w} * set"), &(f * s.clone()), &m)?;
        let mut x = s.clone(); x *= f; chk_set(&format!("set *= {w}"), &x, &m)?;
        if single {
            rec.tr(3);
            chk_iv(&format!("span * {w}"), &(i * f), first(&m))?;
            chk_iv(&format!("{w} * span"), &(f * i), first(&m))?;
            let mut x = i; x *= f; chk_iv(&format!("span *= {w}"), &x, first(&m))?;
        }
    }
    if n != 0 {
        let d = scaled(p, 1, n).unwrap();
        rec.st(p_hash(&d)); rec.tr(2);
        chk_set(&format!("set / {w}"), &(s.clone() / f), &d)?;
        let mut x = s.clone(); x /= f; chk_set(&format!("set /= {w}"), &x, &d)?;
        if single {
            rec.tr(2);
            chk_iv(&format!("span / {w}"), &(i / f), first(&d))?;
            let mut x = i; x /= f; chk_iv(&format!("span /= {w}"), &x, first(&d))?;
        }
    }
    Ok(())
}
fn c08_ints(name: &str, sets: Vec<Vec<Iv>>) -> Box<dyn Family> {
    let sets = Arc::new(sets);
    let fs = Arc::new(ints());
    let k = fs.len() as u64;
    let (s2, f2) = (sets.clone(), fs.clone());
    idx(format!("integer factors, {name}"), format!("{} windows with {k} factors in all 12 integer types that hold them", sets.len()), sets.len() as u64 * k,
        move |i, rec| {
            let (p, n) = (&sets[(i / k) as usize], fs[(i % k) as usize]);
            macro_rules! all { ($($t:ty),*) => { $( int_ops::<$t>(stringify!($t), p, n, rec)?; )* } }
            all!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
            Ok(())
        },
        move |i| format!("A={} factor {}", show_ps(&s2[(i / k) as usize]), f2[(i % k) as usize]))
}
fn float_ops<S>(w: &str, p: &[Iv], f: S, num: i128, den: i128, rec: &mut Rec) -> R
    where S: Copy + Mul<TimeSpans, Output = TimeSpans> + Mul<TimeSpan, Output = TimeSpan>,
          TimeSpans: Mul<S, Output = TimeSpans> + Div<S, Output = TimeSpans> + MulAssign<S> + DivAssign<S>,
          TimeSpan: Mul<S, Output = TimeSpan> + Div<S, Output = TimeSpan> + MulAssign<S> + DivAssign<S>,
{
    let s = set_of::<TimeValue>(p);
    let single = p.len() <= 1;
    let i = iv_of::<TimeValue>(first(p));
    if den & (den - 1) == 0 { // dyadic factors are exact
        let m = scaled(p, num, den).unwrap();
        rec.st(p_hash(&m)); rec.tr(3);
        chk_set(&format!("set * {w}"), &(s.clone() * f), &m)?;
        chk_set(&format!("{w} * set"), &(f * s.clone()), &m)?;
        let mut x = s.clone(); x *= f; chk_set(&format!("set *= {w}"), &x, &m)?;
        if single {
            rec.tr(3);
            chk_iv(&format!("span * {w}"), &(i * f), first(&m))?;
            chk_iv(&format!("{w} * span"), &(f * i), first(&m))?;
            let mut x = i; x *= f; chk_iv(&format!("span *= {w}"), &x, first(&m))?;
        }
    }
    if num != 0 {
        let d = if num > 0 { scaled(p, den, num) } else { scaled(p, -den, -num) }.unwrap();
        rec.st(p_hash(&d)); rec.tr(2);
        chk_set(&format!("set / {w}"), &(s.clone() / f), &d)?;
        let mut x = s.clone(); x /= f; chk_set(&format!("set /= {w}"), &x, &d)?;
        if single {
            rec.tr(2);
            chk_iv(&format!("span / {w}"), &(i / f), first(&d))?;
            let mut x = i; x /= f; chk_iv(&format!("span /= {w}"), &x, first(&d))?;
        }
    }
    Ok(())
}
fn c08_floats(name: &str, sets: Vec<Vec<Iv>>, f32_ok: bool) -> Box<dyn Family> {
    let sets = Arc::new(sets);
    let mut fs: Vec<(i128, i128)> = vec![];
    for n in 0i128..=12 { for d in [1i128, 2, 4, 8] { fs.push((n, d)); fs.push((-n, d)); } }
    for n in [1i128, 49, 100, 1000] { fs.push((n, 1)); fs.push((-n, 1)); }
    fs.sort(); fs.dedup();
    let fs = Arc::new(fs);
    let k = fs.len() as u64;
    let (s2, f2) = (sets.clone(), fs.clone());
    idx(format!("float factors, {name}"), format!("{} windows with {k} float factors", sets.len()), sets.len() as u64 * k,
        move |i, rec| {
            let (p, (a, b)) = (&sets[(i / k) as usize], fs[(i % k) as usize]);
            float_ops::<f64>("f64", p, a as f64 / b as f64, a, b, rec)?;
            if f32_ok { float_ops::<f32>("f32", p, a as f32 / b as f32, a, b, rec)?; }
            Ok(())
        },
        move |i| { let (a, b) = f2[(i % k) as usize]; format!("A={} factor {a}/{b}", show_ps(&s2[(i / k) as usize])) })
}
/// factors whose products are rounded: each bound is the product of the duration, and the pieces which meet are joined
fn c08_rounded(th: bool) -> Box<dyn Family> {
    let mut sets: Vec<Vec<Iv>> = vec![];
    for p in [0u32, 20, 24, 25, 31, 40, 53, 54, 55, 60, 61] { for sign in [1i64, -1] {
        let b = sign * (1i64 << p) - 4;
        let base = Grid::new("b", &(0..if th { 9 } else { 7 }).map(|k| b + [0, 1, 2, 3, 5, 8, 9, 16, 17][k]).collect::<Vec<_>>()).pieces;
        sets.extend(base.into_iter().filter(|x| x.iter().all(|i| fin(i.0) && fin(i.1)) || p % 4 == 0));
    } }
    let fs: Vec<f64> = [1.0, 1.5, 2.0, 3.0, 7.0, 0.5, 0.1, 0.3, 0.75, 1e-3, 1.0000001, 1e3, 123456.789, 1e-9, 2.5, 1.1].iter().flat_map(|f| [*f, -*f]).collect();
    let (sets, k) = (Arc::new(sets), fs.len() as u64);
    let (s2, f2) = (sets.clone(), fs.clone());
    fn one<S>(w: &str, p: &[Iv], f: S, neg: bool, rec: &mut Rec) -> R
        where S: Copy + Mul<TimeSpans, Output = TimeSpans> + Mul<TimeSpan, Output = TimeSpan>,
              TimeValue: Mul<S, Output = TimeValue> + Div<S, Output = TimeValue>,
              TimeSpans: Mul<S, Output = TimeSpans> + Div<S, Output = TimeSpans> + MulAssign<S> + DivAssign<S>,
              TimeSpan: Mul<S, Output = TimeSpan> + Div<S, Output = TimeSpan> + MulAssign<S> + DivAssign<S>,
    {
        let by = |g: &dyn Fn(TimeValue) -> TimeValue| -> Option<Vec<Iv>> {
            let mut v = vec![];
            for i in p {
                let (a, b) = (g(tv(i.0)).as_ticks(), g(tv(i.1)).as_ticks());
                let w = if neg { (b, a) } else { (a, b) };
                if w.0 == INF || w.1 == -INF { return None }
                v.push(w)
            }
            Some(canon(v))
        };
        let s = set_of::<TimeValue>(p);
        let i = iv_of::<TimeValue>(first(p));
        if let Some(m) = by(&|t| t * f) {
            rec.st(p_hash(&m)); rec.tr(3);
            chk_set(&format!("set * {w}"), &(s.clone() * f), &m)?;
            chk_set(&format!("{w} * set"), &(f * s.clone()), &m)?;
            let mut x = s.clone(); x *= f; chk_set(&format!("set *= {w}"), &x, &m)?;
            if p.len() == 1 {
                rec.tr(3);
                chk_iv(&format!("span * {w}"), &(i * f), first(&m))?;
                chk_iv(&format!("{w} * span"), &(f * i), first(&m))?;
                let mut x = i; x *= f; chk_iv(&format!("span *= {w}"), &x, first(&m))?;
            }
        }
        if let Some(m) = by(&|t| t / f) {
            rec.st(p_hash(&m)); rec.tr(2);
            chk_set(&format!("set / {w}"), &(s.clone() / f), &m)?;
            let mut x = s.clone(); x /= f; chk_set(&format!("set /= {w}"), &x, &m)?;
            if p.len() == 1 {
                rec.tr(2);
                chk_iv(&format!("span / {w}"), &(i / f), first(&m))?;
                let mut x = i; x /= f; chk_iv(&format!("span /= {w}"), &x, first(&m))?;
            }
        }
        Ok(())
    }
    idx("float factors which round", format!("{} windows of every magnitude with {k} float factors", sets.len()), sets.len() as u64 * k,
        move |i, rec| {
            let (p, f) = (&sets[(i / k) as usize], fs[(i % k) as usize]);
            one::<f64>("f64", p, f, f < 0., rec)?;
            one::<f32>("f32", p, f as f32, f < 0., rec)
        },
        move |i| format!("A={} factor {}", show_ps(&s2[(i / k) as usize]), f2[(i % k) as usize]))
}
fn grid_sets(kind: usize, n: usize) -> Vec<Vec<Iv>> { std_grid(kind, n).pieces }
/// windows close to zero or unbounded, for factors of any size
fn zero_sets() -> Vec<Vec<Iv>> {
    let mut v = Grid::new("around zero", &[-2, -1, 0, 1, 2]).pieces;
    v.extend([vec![(0, INF)], vec![(-INF, 0)], vec![(-INF, 0), (5, 5)]]); v
}
pub fn c08(th: bool) -> Fams {
    let mut v: Fams = vec![
        c08_ints("ends of the range", extreme_sets()), c08_ints("around zero", zero_sets()), c08_ints("unit ticks", grid_sets(0, 10)), c08_ints("mixed gaps", grid_sets(1, 11)), c08_ints("days and seconds", grid_sets(2, 9)), c08_ints("powers of two", grid_sets(3, 10)),
        c08_floats("unit ticks", grid_sets(0, 11), true), c08_floats("mixed gaps", grid_sets(1, 12), true), c08_floats("days and seconds", big_sets(), false),
    ];
    let many: Vec<Vec<Iv>> = { let g = std_grid(1, 40); comb_masks(40).iter().map(|m| g.cut(*m)).collect() };
    v.push(c08_ints("many pieces", many.clone())); v.push(c08_floats("many pieces", many, true));
    v.push(c08_rounded(th));
    if th { v.push(c08_ints("mixed gaps, deep", grid_sets(1, 15))); v.push(c08_floats("mixed gaps, deep", grid_sets(1, 16), true)); v.push(c08_floats("unit ticks, deep", grid_sets(0, 15), true)); }
    v
}
/// bounds of seconds to days whose products with the factors stay exactly representable as f64
fn big_sets() -> Vec<Vec<Iv>> { Grid::new("seconds", &[-3600 * S1, -S1, -S1 + 1, 0, 1, S1, S1 + 2, S1 * 60, S1 * 60 + 1024]).pieces }
