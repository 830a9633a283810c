//! C09-C12, C14: durations and dates as exact integers
use super::Fams;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use chrono::{DateTime, FixedOffset, NaiveDateTime, Offset, TimeZone, Utc};
use chronologic::*;
use std::ops::{Div, DivAssign, Mul, MulAssign};
use std::sync::Arc;

const M: i64 = INF - 1; // greatest finite tick

fn sym(v: &mut Vec<i64>, x: i128) { if x.abs() <= INF as i128 { v.push(x as i64); v.push(-x as i64) } }
fn fin_up(mut v: Vec<i64>) -> Vec<i64> { v.sort(); v.dedup(); v }
/// ticks around zero, powers of two, seconds and days, half range and the ends of the range
fn alphabet(dense: bool) -> Vec<i64> {
    let mut v = vec![0];
    for x in 0..=(if dense { 12 } else { 3 }) { sym(&mut v, x); sym(&mut v, INF as i128 - x); sym(&mut v, (INF / 2) as i128 - x); sym(&mut v, (INF / 2) as i128 + x) }
    for k in (2..63).step_by(if dense { 1 } else { 6 }) { for d in -1..=1 { sym(&mut v, (1i128 << k) + d) } }
    let secs: &[i128] = if dense { &[1, 2, 3, 7, 10, 59, 60, 61, 3599, 3600, 86400, 604800, 2629746, 31556952, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) + 1] } else { &[1, 3600, 86400, 31556952] };
    for s in secs { for d in -2..=2 { sym(&mut v, s * S1 as i128 + d) } }
    for p in [1073i128, 1073741, 10737418, 1000, 1_000_000, 1_000_000_000] { for d in -1..=1 { sym(&mut v, p + d); if dense { sym(&mut v, 3 * p + d); sym(&mut v, p * 1_000_003 + d) } } }
    fin_up(v)
}

// ================================================================= C09
fn add_pair(a: i64, b: i64, rec: &mut Rec) -> R {
    let (x, y) = (tv(a), tv(b));
    rec.st(hash_words(&[a, b]));
    rec.tr(12);
    ensure!(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == a.partial_cmp(&b) && (x == y) == (a == b) && (x < y) == (a < b) && (x <= y) == (a <= b), "comparison");
    ensure!(Ord::max(x, y).tk() == a.max(b) && Ord::min(x, y).tk() == a.min(b), "min/max");
    let (dx, dy) = (Timestamp::of(a), Timestamp::of(b));
    ensure!(dx.cmp(&dy) == a.cmp(&b) && (dx == dy) == (a == b) && (dx < dy) == (a < b), "date comparison");
    match xadd(a, b) {
        Some(s) => {
            ensure!((x + y).tk() == s, "{} + {} = {:?} instead of {}", show(a), show(b), x + y, show(s));
            let mut z = x; z += y; ensure!(z.tk() == s, "+= gives {z:?} instead of {}", show(s));
            ensure!([x, y].into_iter().sum::<TimeValue>().tk() == s, "sum");
            ensure!((dx + y).tk() == s && (x + dy).tk() == s, "date + t = {:?} instead of {}", dx + y, show(s));
            let mut z = dx; z += y; ensure!(z.tk() == s, "date += gives {z:?} instead of {}", show(s));
        }
        None => ensure!(panics(|| x + y) && panics(|| { let mut z = x; z += y; z }), "opposite infinities are accepted by +"),
    }
    match xadd(a, -b) {
        Some(s) => {
            ensure!((x - y).tk() == s, "{} - {} = {:?} instead of {}", show(a), show(b), x - y, show(s));
            let mut z = x; z -= y; ensure!(z.tk() == s, "-= gives {z:?} instead of {}", show(s));
            ensure!((dx - y).tk() == s && (dx - dy).tk() == s, "date - t = {:?} instead of {}", dx - y, show(s));
            ensure!((y - dx).tk() == -s, "t - date = {:?} instead of {}", y - dx, show(-s));
            let mut z = dx; z -= y; ensure!(z.tk() == s, "date -= gives {z:?} instead of {}", show(s));
        }
        None => ensure!(panics(|| x - y), "equal infinities are accepted by -"),
    }
    Ok(())
}
fn pairs(name: &str, al: Vec<i64>) -> Box<dyn Family> {
    let al = Arc::new(al);
    let a2 = al.clone();
    let k = al.len() as u64;
    idx(name, format!("all {k}x{k} pairs of values"), k * k,
        move |i, rec| add_pair(al[(i / k) as usize], al[(i % k) as usize], rec),
        move |i| format!("{} and {}", show(a2[(i / k) as usize]), show(a2[(i % k) as usize])))
}
fn triples(al: Vec<i64>) -> Box<dyn Family> {
    let al = Arc::new(al);
    let a2 = al.clone();
    let k = al.len() as u64;
    let get = move |al: &[i64], i: u64| [al[(i / k / k) as usize], al[(i / k % k) as usize], al[(i % k) as usize]];
    idx("sums of three", format!("all {k}^3 triples of values"), k * k * k,
        move |i, rec| {
            let t = get(&al, i);
            let Some(s) = t.iter().try_fold(0i64, |s, x| xadd(s, *x)) else { return Ok(()) };
            rec.st(hash_words(&[s])); rec.tr(2);
            let g = t.iter().map(|x| tv(*x)).sum::<TimeValue>();
            ensure!(g.tk() == s, "sum = {g:?} instead of {}", show(s));
            let e: TimeValue = std::iter::empty().sum(); ensure!(e.tk() == 0, "empty sum");
            // within the finite range at every step the order of the terms does not matter
            let ex: i128 = t.iter().map(|x| *x as i128).sum();
            if t.iter().all(|x| fin(*x)) && fin(s) && t.iter().map(|x| x.unsigned_abs() as u128).sum::<u128>() < INF as u128 { ensure!(s as i128 == ex, "model"); }
            Ok(())
        },
        move |i| format!("{:?}", get(&a2, i)))
}
/// long sums: an ordinary sequence of terms, two of which are replaced at every pair of positions
fn long_sums(max: u64) -> Box<dyn Family> {
    const SP: [i64; 6] = [INF, -INF, INF - 1, -(INF / 2) - 1, 0, 7];
    let get = move |i: u64| {
        let (n, rest) = (1 + i % max, i / max);
        let (fill, p) = (rest % 4, rest / 4);
        let mut t: Vec<i64> = (0..n as i64).map(|k| match fill { 0 => 0, 1 => 1, 2 => (k * k * 37) % 101 - 50, _ => if k % 2 == 0 { INF / 3 } else { -INF / 3 } }).collect();
        t[(p % n) as usize] = SP[(rest / 4 / max % 6) as usize];
        t
    };
    idx("sums of many", format!("sums of up to {max} terms of 4 shapes, one or two terms replaced by one of 6 values at all positions"), max * 4 * max * 6,
        move |i, rec| {
            let t0 = get(i);
            rec.st(i);
            for q in 0..t0.len() {
                for s in SP {
                    let mut t = t0.clone();
                    t[q] = s;
                    let Some(s) = t.iter().try_fold(0i64, |s, x| xadd(s, *x)) else { continue };
                    rec.tr(t.len() as u64);
                    let g = t.iter().map(|x| tv(*x)).sum::<TimeValue>();
                    ensure!(g.tk() == s, "the sum of {t:?} is {g:?} instead of {}", show(s));
                }
            }
            Ok(())
        },
        move |i| format!("{:?}", get(i)))
}
fn unary(al: Vec<i64>) -> Box<dyn Family> {
    let al = Arc::new(al);
    let a2 = al.clone();
    idx("one value", format!("{} values, all the unary queries", al.len()), al.len() as u64,
        move |i, rec| {
            let t = al[i as usize];
            let x = tv(t);
            rec.st(hash_words(&[t])); rec.tr(20);
            ensure!(x.as_ticks() == t, "as_ticks");
            ensure!((-x).tk() == -t && (-(-x)) == x, "-x = {:?}", -x);
            let (a, b) = if fin(t) { (t + 1, t - 1) } else { (t, t) };
            ensure!(x.just_after().tk() == a, "just_after = {:?}", x.just_after());
            ensure!(x.just_before().tk() == b, "just_before = {:?}", x.just_before());
            ensure!(x.is_zero() == (t == 0) && x.is_positive() == (t >= 0) && x.is_negative() == (t <= 0) && x.is_strictly_positive() == (t > 0) && x.is_strictly_negative() == (t < 0), "sign tests");
            ensure!(x.is_finite() == fin(t) && x.is_future_infinite() == (t == INF) && x.is_past_infinite() == (t == -INF), "finiteness tests");
            let d = Timestamp::of(t);
            ensure!((-d).tk() == -t && d.just_after().tk() == a && d.just_before().tk() == b, "date: opposite or neighbours");
            ensure!(d.is_finite() == fin(t) && d.is_future_infinite() == (t == INF) && d.is_past_infinite() == (t == -INF), "date: finiteness tests");
            ensure!(TimeValue::default().tk() == 0 && TimeValue::INFINITE.tk() == INF && Timestamp::INFINITE.tk() == INF && Timestamp::default().tk() == 0, "constants");
            ensure!(TimeValue::from_ticks(i64::MIN).tk() == -INF, "from_ticks(MIN)");
            Ok(())
        },
        move |i| show(a2[i as usize]))
}
/// exact t*num/den toward zero, clipped; infinities follow the sign rule; None: not defined
fn scale(t: i64, num: i128, den: i128) -> Option<i64> {
    if !fin(t) { return if num == 0 { None } else { Some(if (num < 0) != (den < 0) { -t } else { t }) } }
    if t == 0 || num == 0 { return Some(0) }
    match (t as i128).checked_mul(num) {
        Some(p) => Some(clip(p / den)),
        None => { if den.abs() > 1 << 60 { None } else { Some(if (t < 0) ^ (num < 0) ^ (den < 0) { -INF } else { INF }) } }
    }
}
trait Fac: Copy { fn cast(n: i128) -> Option<Self> where Self: Sized; }
macro_rules! facs { ($($t:ty),*) => { $(impl Fac for $t { fn cast(n: i128) -> Option<Self> { <$t>::try_from(n).ok() } })* } }
facs!(i8, u8, i16, u16, i32, u32, i64, u64, i128, isize, usize);
impl Fac for u128 { fn cast(n: i128) -> Option<Self> { if n == i128::MAX { Some(u128::MAX) } else { u128::try_from(n).ok() } } }

fn fac_ops<S>(w: &str, t: i64, f: S, m: Option<i64>, d: Option<i64>, rec: &mut Rec) -> R
    where S: Copy, TimeValue: Mul<S, Output = TimeValue> + Div<S, Output = TimeValue> + MulAssign<S> + DivAssign<S>, S: Mul<TimeValue, Output = TimeValue>
{
    let x = tv(t);
    if let Some(m) = m {
        rec.st(hash_words(&[m])); rec.tr(3);
        ensure!((x * f).tk() == m, "t * {w} = {:?} instead of {}", x * f, show(m));
        ensure!((f * x).tk() == m, "{w} * t = {:?} instead of {}", f * x, show(m));
        let mut y = x; y *= f; ensure!(y.tk() == m, "t *= {w} gives {y:?} instead of {}", show(m));
    }
    if let Some(d) = d {
        rec.st(hash_words(&[d])); rec.tr(2);
        ensure!((x / f).tk() == d, "t / {w} = {:?} instead of {}", x / f, show(d));
        let mut y = x; y /= f; ensure!(y.tk() == d, "t /= {w} gives {y:?} instead of {}", show(d));
    }
    Ok(())
}
fn int_factors(dense: bool) -> Vec<i128> {
    let mut v: Vec<i128> = vec![];
    for n in 0..=(if dense { 300 } else { 20 }) { v.push(n); v.push(-n) }
    for k in (3..127).step_by(if dense { 1 } else { 2 }) { for d in -1..=1 { v.push((1i128 << k) + d); v.push(-(1i128 << k) + d) } }
    for k in [7, 8, 15, 16, 31, 32, 63, 64, 126] { for d in -2..=1 { v.push((1i128 << k) + d); v.push(-(1i128 << k) + d) } }
    for k in 1..38 { v.push(10i128.pow(k)); v.push(-10i128.pow(k)) }
    v.push(i128::MAX); v.push(i128::MAX - 1); v.push(i128::MIN); v.push(i128::MIN + 1);
    v.sort(); v.dedup(); v
}
fn scale_ints(name: &str, al: Vec<i64>, fs: Vec<i128>) -> Box<dyn Family> {
    let (al, fs) = (Arc::new(al), Arc::new(fs));
    let (a2, f2) = (al.clone(), fs.clone());
    let k = fs.len() as u64;
    idx(name, format!("{} values with {k} factors, in all 12 integer types that hold them", al.len()), al.len() as u64 * k,
        move |i, rec| {
            let (t, n) = (al[(i / k) as usize], fs[(i % k) as usize]);
            // division by a factor beyond i64 leaves nothing of a finite value
            let (m, d) = (scale(t, n, 1), if n == 0 { None } else { scale(t, 1, n) });
            macro_rules! all { ($($t:ty),*) => { $( if let Some(f) = <$t as Fac>::cast(n) { fac_ops::<$t>(stringify!($t), t, f, m, d, rec)?; } )* } }
            all!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
            Ok(())
        },
        move |i| format!("t={} factor {}", show(a2[(i / k) as usize]), f2[(i % k) as usize]))
}
/// number of bits of the odd part
fn bits(x: i128) -> u32 { let x = x.unsigned_abs(); if x == 0 { 0 } else { 128 - x.leading_zeros() - x.trailing_zeros() } }
fn scale_floats(al: Vec<i64>) -> Box<dyn Family> {
    let al = Arc::new(al);
    let mut fs: Vec<(i128, i128)> = vec![];
    for n in 0i128..=16 { for d in [1i128, 2, 4, 8, 64] { fs.push((n, d)); fs.push((-n, d)) } }
    for n in [49i128, 100, 365, 1000, 3600, 86400, 1 << 20, 1 << 40, 1 << 62, 1 << 63, 1 << 100] { fs.push((n, 1)); fs.push((-n, 1)) }
    for d in [1i128 << 10, 1 << 20, 1 << 40] { fs.push((1, d)); fs.push((-1, d)); fs.push((-3, d)); fs.push((3, d)) }
    fs.sort(); fs.dedup();
    let fs = Arc::new(fs);
    let (a2, f2) = (al.clone(), fs.clone());
    let k = fs.len() as u64;
    idx("float factors", format!("{} values with {k} float factors (those for which the exact product or quotient is decided by the float format)", al.len()), al.len() as u64 * k,
        move |i, rec| {
            let (t, (n, d)) = (al[(i / k) as usize], fs[(i % k) as usize]);
            let sized = |p: u32| -> (Option<i64>, Option<i64>) {
                if !fin(t) { return (scale(t, n, d), if n == 0 { None } else { scale(t, d, n) }) }
                // whatever the rounding, far out of the range
                let far = |num: i128, den: i128| match (t as i128).checked_mul(num) { Some(x) if den != 0 && x.unsigned_abs() / den.unsigned_abs() >= 1 << 64 => scale(t, num, den), _ => None };
                if bits(n) > p { return (None, None) }
                if bits(t as i128) > p || far(n, d).is_some() || far(d, n).is_some() { return (far(n, d), far(d, n)) }
                let m = match (t as i128).checked_mul(n) { Some(x) if bits(x) <= p => scale(t, n, d), _ => None };
                let q = match (t as i128).checked_mul(d) {
                    // a quotient below 2^p, a quotient by a power of two
                    Some(x) if n != 0 && (x.abs() < 1 << p && n.abs() < 1 << p || bits(n) == 1 && bits(x) <= p) => scale(t, d, n),
                    _ => None };
                (m, q)
            };
            let (m, q) = sized(53);
            fac_ops::<f64>("f64", t, n as f64 / d as f64, m, q, rec)?;
            let (m, q) = sized(24);
            fac_ops::<f32>("f32", t, n as f32 / d as f32, m, q, rec)
        },
        move |i| { let (n, d) = f2[(i % k) as usize]; format!("t={} factor {n}/{d}", show(a2[(i / k) as usize])) })
}
pub fn c09(th: bool) -> Fams {
    let r = if th { 200 } else { 64 };
    let mut v = vec![
        pairs("pairs of boundary values", alphabet(true)), pairs("pairs of small values", (-r..=r).collect()),
        triples(alphabet(false)), long_sums(if th { 70 } else { 40 }), unary({ let mut a = alphabet(true); a.extend(-3000..3000); fin_up(a) }),
        scale_ints("integer factors, boundary values", alphabet(false), int_factors(true)),
        scale_ints("integer factors, small values", (-40..=40).collect(), int_factors(false)),
        scale_floats({ let mut a = alphabet(true); a.extend(-130..130); fin_up(a) }),
    ];
    if th { v.push(scale_ints("integer factors, all boundary values", alphabet(true), int_factors(true))); }
    v
}

// ================================================================= C10
const UNITS: [&str; 11] = ["years", "months", "weeks", "days", "hours", "mins", "secs", "millis", "micros", "nanos", "ticks"];
/// n units in ticks, toward zero, clipped
fn unit_ticks(u: usize, n: i128) -> i64 {
    let s = S1 as i128;
    let (num, den): (i128, i128) = match u { 0 => (31556952 * s, 1), 1 => (2629746 * s, 1), 2 => (604800 * s, 1), 3 => (86400 * s, 1), 4 => (3600 * s, 1), 5 => (60 * s, 1), 6 => (s, 1), 7 => (s, 1000), 8 => (s, 1_000_000), 9 => (s, 1_000_000_000), _ => (1, 1) };
    match n.checked_mul(num) { Some(p) => clip(p / den), None => if n < 0 { -INF } else { INF } }
}
fn build<S: IntoTimeValue>(u: usize, n: S) -> TimeValue {
    match u { 0 => n.years(), 1 => n.months(), 2 => n.weeks(), 3 => n.days(), 4 => n.hours(), 5 => n.mins(), 6 => n.secs(), 7 => n.millis(), 8 => n.micros(), 9 => n.nanos(), _ => n.ticks() }
}
fn build64(u: usize, n: i64) -> TimeValue {
    match u { 0 => TimeValue::from_years(n), 1 => TimeValue::from_months(n), 2 => TimeValue::from_weeks(n), 3 => TimeValue::from_days(n), 4 => TimeValue::from_hours(n), 5 => TimeValue::from_mins(n),
        6 => TimeValue::from_secs(n), 7 => TimeValue::from_millis(n), 8 => TimeValue::from_micros(n), 9 => TimeValue::from_nanos(n), _ => TimeValue::from_ticks(n) }
}
fn counts(u: usize, range: i128) -> Vec<i128> {
    let mut v: Vec<i128> = (-range..=range).collect();
    for k in 0..127 { for d in -2..=2 { v.push((1i128 << k) + d); v.push(-(1i128 << k) + d) } }
    for k in 1..38 { for d in -1..=1 { v.push(10i128.pow(k) + d); v.push(-10i128.pow(k) + d) } }
    // around the end of the representable range
    let per = [31556952i128, 2629746, 604800, 86400, 3600, 60, 1];
    let lim = if u < 7 { (1i128 << 33) / per[u] } else { (1i128 << 33) * [1000i128, 1_000_000, 1_000_000_000, S1 as i128][u - 7] };
    for d in -1500..=1500 { v.push(lim + d); v.push(-lim + d) }
    // around values where n*unit wraps 64 bits (in seconds, then in ticks)
    if u < 7 { for q in 1..=4i128 { for e in [63, 64, 34] { for d in -2..=2 { let x = (q << e) / per[u] + d; v.push(x); v.push(-x) } } } }
    v.push(i128::MAX); v.push(i128::MIN);
    v.sort(); v.dedup(); v
}
fn units(u: usize, range: i128) -> Box<dyn Family> {
    let v = Arc::new(counts(u, range));
    let v2 = v.clone();
    idx(format!("{} from integers", UNITS[u]), format!("{} counts in all 12 integer types that hold them", v.len()), v.len() as u64,
        move |i, rec| {
            let n = v[i as usize];
            let want = unit_ticks(u, n);
            rec.st(hash_words(&[want]));
            macro_rules! all { ($($t:ty),*) => { $( if let Some(x) = <$t as Fac>::cast(n) {
                rec.tr(1);
                let g = build::<$t>(u, x);
                ensure!(g.tk() == want, concat!("as ", stringify!($t), ": {:?} instead of {}"), g, show(want));
            } )* } }
            all!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
            if let Ok(x) = i64::try_from(n) { rec.tr(1); let g = build64(u, x); ensure!(g.tk() == want, "TimeValue::from_{}: {g:?} instead of {}", UNITS[u], show(want)); }
            Ok(())
        },
        move |i| format!("{} {}", v2[i as usize], UNITS[u]))
}
fn reduce(range: i64) -> Box<dyn Family> {
    let mut v = alphabet(true);
    v.extend(-range..=range);
    for u in 0..10 {
        let w = unit_ticks(u, 1) as i128;
        for k in [1i128, 2, 3, 10, 11, 59, 100, 1000, 12345] { for d in -2..=2 { sym(&mut v, k * w + d) } }
        let top = M as i128 / w * w; for d in -2..=2 { sym(&mut v, top + d) }
        for k in [1i128, 2, 9, 10, 999, 1000, 1001, 123_456_789] { let x = unit_ticks(u, k) as i128; for d in -1..=1 { sym(&mut v, x + d) } }
    }
    let v = Arc::new(fin_up(v));
    let v2 = v.clone();
    idx("reduction to a unit", format!("{} durations reduced to the 11 units", v.len()), v.len() as u64,
        move |i, rec| {
            let t = v[i as usize];
            for u in 0..11 {
                let w = unit_ticks(u, 1);
                let want = if fin(t) { t / w * w } else { t };
                rec.st(hash_words(&[want])); rec.tr(1);
                let g = build(u, tv(t));
                ensure!(g.tk() == want, "reduced to {}: {g:?} instead of {}", UNITS[u], show(want));
            }
            Ok(())
        },
        move |i| show(v2[i as usize]))
}
pub fn c10(th: bool) -> Fams {
    let mut v: Fams = (0..11).map(|u| units(u, if th { 200_000 } else { 5_000 })).collect();
    v.push(reduce(if th { 3_000_000 } else { 30_000 }));
    v.push(all_counts(th));
    v.push(all_reductions(th));
    v
}
/// consecutive values, by blocks
const BLOCK: i64 = 1 << 16;
fn blocks(ranges: &[(i64, i64)]) -> Vec<(i64, i64)> {
    ranges.iter().flat_map(|&(a, b)| (0..(b - a) / BLOCK + 1).map(move |k| (a + k * BLOCK, (a + k * BLOCK + BLOCK - 1).min(b)))).collect()
}
/// every count of an interval of counts, for each unit
fn all_counts(th: bool) -> Box<dyn Family> {
    // every representable count, and a bit more, from the minutes upward
    let end = |u: usize| (1i64 << 33) / (unit_ticks(u, 1) / S1) + 100_000;
    let r = if th { 1 << 32 } else { 1 << 28 };
    let mut b: Vec<(usize, i64, i64)> = vec![];
    for u in 0..6 { b.extend(blocks(&[(-end(u), end(u))]).iter().map(|x| (u, x.0, x.1))) }
    for u in 6..9 { b.extend(blocks(&[(-r, r)]).iter().map(|x| (u, x.0, x.1))) }
    b.extend(blocks(&[(-G as i64 - 1, G as i64 + 1)]).iter().map(|x| (9, x.0, x.1)));
    let b2 = b.clone();
    idx("every count", format!("every representable count of years, months, weeks, days, hours and minutes; every count of seconds, milliseconds and microseconds up to {r}; every count of nanoseconds of a second; both signs"), b.len() as u64,
        move |i, rec| {
            let (u, lo, hi) = b[i as usize];
            rec.st(i); rec.tr((hi - lo + 1) as u64);
            let s = S1 as i128;
            let (num, den) = match u { 7 => (s, 1000), 8 => (s, 1_000_000), 9 => (s, 1_000_000_000), _ => (if u == 6 { s } else { unit_ticks(u, 1) as i128 }, 1) };
            for n in lo..=hi {
                let p = n as i128 * num;
                let want = clip(if den == 1 { p } else { match i64::try_from(p) { Ok(q) => (q / den as i64) as i128, _ => p / den } });
                ensure!(build64(u, n).tk() == want && build::<i64>(u, n).tk() == want, "{n} {} gives {:?}, {:?} instead of {}", UNITS[u], build64(u, n), build::<i64>(u, n), show(want));
            }
            Ok(())
        },
        move |i| { let (u, lo, hi) = b2[i as usize]; format!("{lo}..={hi} {}", UNITS[u]) })
}
/// every tick of a second, every second of some years, reduced
fn all_reductions(th: bool) -> Box<dyn Family> {
    let mut b: Vec<(bool, i64, i64)> = blocks(&[(-S1, S1)]).iter().map(|x| (true, x.0, x.1)).collect();
    let r = if th { (1 << 33) - 1 } else { 1 << 27 };
    b.extend(blocks(&[(-r, r)]).iter().map(|x| (false, x.0, x.1)));
    let b2 = b.clone();
    idx("every reduction", format!("every tick of a second reduced to milliseconds, microseconds and nanoseconds; every second up to {r}s reduced to minutes, hours, days, weeks, months, years; both signs"), b.len() as u64,
        move |i, rec| {
            let (ticks, lo, hi) = b[i as usize];
            let units = if ticks { 7..10 } else { 0..6 };
            rec.st(i); rec.tr((hi - lo + 1) as u64 * units.len() as u64);
            for u in units {
                let w = unit_ticks(u, 1);
                for n in lo..=hi {
                    let t = if ticks { n } else { n << 30 };
                    let g = build(u, tv(t)).tk();
                    ensure!(g == t / w * w, "{} reduced to {}: {} instead of {}", show(t), UNITS[u], show(g), show(t / w * w));
                }
            }
            Ok(())
        },
        move |i| { let (k, lo, hi) = b2[i as usize]; format!("{lo}..={hi} {}", if k { "ticks" } else { "seconds" }) })
}

// ================================================================= C11
fn floor_ceil(t: i64, p: i64, rec: &mut Rec, st: bool) -> R {
    let (f, c) = if fin(t) {
        let (t, p) = (t as i128, p as i128);
        (clip(t.div_euclid(p) * p), clip(-((-t).div_euclid(p)) * p))
    } else { (t, t) };
    if st { rec.st(hash_words(&[f, c])); }
    rec.tr(4);
    let x = tv(t);
    ensure!(x.floor(tv(p)).tk() == f, "floor = {:?} instead of {}", x.floor(tv(p)), show(f));
    ensure!(x.ceil(tv(p)).tk() == c, "ceil = {:?} instead of {}", x.ceil(tv(p)), show(c));
    let d = Timestamp::of(t);
    ensure!(d.floor(tv(p)).tk() == f, "date floor = {:?} instead of {}", d.floor(tv(p)), show(f));
    ensure!(d.ceil(tv(p)).tk() == c, "date ceil = {:?} instead of {}", d.ceil(tv(p)), show(c));
    Ok(())
}
pub fn c11(th: bool) -> Fams {
    let (n, m) = if th { (6000i64, 6000i64) } else { (2000, 1500) };
    let w = 2 * n as u64 + 1;
    let al = Arc::new({ let mut v = alphabet(true); for p in [3i64, 7, 1000, 86400 * S1] { for k in [M / p - 1, M / p] { for d in -2..=2 { sym(&mut v, (k * p) as i128 + d) } } } fin_up(v) });
    let ps: Arc<Vec<i64>> = Arc::new(al.iter().copied().filter(|p| *p > 0 && *p < INF).collect());
    let (a2, p2) = (al.clone(), ps.clone());
    let k = ps.len() as u64;
    vec![
        idx("small values", format!("values -{n}..={n}, periods 1..={m}"), w * m as u64,
            move |i, rec| floor_ceil((i % w) as i64 - n, (i / w) as i64 + 1, rec, true),
            move |i| format!("t={} period={}", (i % w) as i64 - n, (i / w) as i64 + 1)),
        idx("boundary values", format!("{} values, {k} periods", al.len()), al.len() as u64 * k,
            move |i, rec| floor_ceil(al[(i / k) as usize], ps[(i % k) as usize], rec, true),
            move |i| format!("t={} period={}", show(a2[(i / k) as usize]), p2[(i % k) as usize])),
        multiples(if th { 300_000 } else { 30_000 }),
    ]
}
/// values around multiples, great and small, of every period
fn multiples(n: i64) -> Box<dyn Family> {
    idx("around multiples", format!("values within 1 tick of 94 multiples of each of the periods of 1..={n} ticks, microseconds or seconds"), 3 * n as u64,
        move |i, rec| {
            let p = (i as i64 / 3 + 1) * [1, S1 / 1_000_000, S1][i as usize % 3];
            let top = M / p;
            rec.st(hash_words(&[p]));
            let mut ks = vec![0i64, top, top - 1, top / 2, top / 3];
            for e in 0..42 { ks.push(1 << e); ks.push(top >> e) }
            for k in ks { for k in [k, -k] { for d in -1..=1 {
                let t = k as i128 * p as i128 + d;
                if t.abs() <= M as i128 { floor_ceil(t as i64, p, rec, false).map_err(|m| format!("t={t}: {m}"))? }
            } } }
            Ok(())
        },
        move |i| format!("period of {} {}", i / 3 + 1, ["ticks", "microseconds", "seconds"][i as usize % 3]))
}

// ================================================================= C12
const G: i128 = 1_000_000_000;
/// is `ns` nanoseconds within one nanosecond of t ticks?
fn near(t: i64, ns: i128) -> bool { (ns * S1 as i128 - t as i128 * G).abs() <= S1 as i128 }
fn ticks12(dense: bool) -> Vec<i64> {
    let mut v = alphabet(true);
    let secs = [0i128, 1, 2, 59, 60, 1000, 86399, 86400, 1_000_000, 1_700_000_000, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 33) - 2, (1 << 33) - 1];
    let mut fr: Vec<i128> = (0..40).collect();
    for n in [1i128, 9, 10, 999, 1000, 1001, 500_000, 999_999, 1_000_000, 1_000_001, 499_999_999, 500_000_000, 999_000_000, 999_999_000, 999_999_998, 999_999_999] { for d in -2..=2 { fr.push(n * S1 as i128 / G + d) } }
    for k in 0..40 { fr.push(S1 as i128 - 1 - k); fr.push(S1 as i128 / 2 - k); }
    if dense { for k in 0..4000 { fr.push(k * 268_435 + k % 7) } }
    for s in secs { for f in &fr { sym(&mut v, s * S1 as i128 + *f) } }
    let mut v = fin_up(v);
    v.retain(|t| fin(*t));
    v
}
fn from_ticks12(dense: bool) -> Box<dyn Family> {
    let v = Arc::new(ticks12(dense));
    let v2 = v.clone();
    idx("from durations and dates", format!("{} finite durations and dates, in increasing order, each with its successor", v.len()), v.len() as u64,
        move |i, rec| {
            let t = v[i as usize];
            let x = tv(t);
            rec.st(hash_words(&[t]));
            rec.tr(12);
            // fields
            let (s, n) = (x.as_secs() as i128, x.subsec_nanos() as i128);
            ensure!((0..G).contains(&n), "subsec_nanos = {n}");
            ensure!(near(t, s * G + n), "as_secs/subsec_nanos = {s} + {n}ns");
            ensure!(x.subsec_micros() as i128 == n / 1000 && x.subsec_millis() as i128 == n / 1_000_000, "subsec fields {} {} {n}", x.subsec_millis(), x.subsec_micros());
            // chrono duration
            let cns = |d: chrono::Duration| d.num_seconds() as i128 * G + d.subsec_nanos() as i128;
            let c: chrono::Duration = x.into();
            ensure!(near(t, cns(c)), "as chrono duration: {}ns", cns(c));
            ensure!(cns(x.to_duration()) == cns(c), "to_duration");
            let b = TimeValue::from(c);
            ensure!(b.is_finite() && near(b.tk(), cns(c)), "back from chrono duration: {b:?}");
            // std duration
            if t >= 0 {
                let d: std::time::Duration = x.into();
                ensure!(near(t, d.as_nanos() as i128), "as std duration: {}ns", d.as_nanos());
                let b = TimeValue::from(d);
                ensure!(b.is_finite() && near(b.tk(), d.as_nanos() as i128), "back from std duration: {b:?}");
            } else {
                // there is no negative std duration: refused, or the nearest one
                let got = std::cell::Cell::new(0i128);
                if !panics(|| { let d: std::time::Duration = x.into(); got.set(d.as_nanos() as i128); }) {
                    ensure!(near(t, got.get()), "as std duration: {}ns", got.get());
                }
            }
            // dates
            let dt = Timestamp::of(t);
            let nd: NaiveDateTime = dt.into();
            let nns = nd.and_utc().timestamp() as i128 * G + nd.and_utc().timestamp_subsec_nanos() as i128;
            ensure!(near(t, nns), "as naive date: {nd:?}");
            let b = Timestamp::from(nd);
            ensure!(b.is_finite() && near(b.tk(), nns), "back from naive date: {b:?}");
            let u = dt.to_datetime();
            let uns = u.timestamp() as i128 * G + u.timestamp_subsec_nanos() as i128;
            ensure!(near(t, uns), "as zoned date: {u:?}");
            let b = Timestamp::from(u);
            ensure!(b.is_finite() && near(b.tk(), uns), "back from zoned date: {b:?}");
            for off in [0, 3600, -5 * 3600 - 1800, 14 * 3600] {
                let f: DateTime<FixedOffset> = u.with_timezone(&FixedOffset::east_opt(off).unwrap());
                let b = Timestamp::from(f);
                ensure!(b.is_finite() && near(b.tk(), uns), "back from a date zoned at {off}s: {b:?}");
                rec.tr(1);
            }
            // order
            if let Some(t2) = v.get(i as usize + 1) {
                let y = tv(*t2);
                let c2: chrono::Duration = y.into();
                ensure!(c <= c2, "order lost in chrono durations: next is {}", show(*t2));
                if t >= 0 { let (d, d2): (std::time::Duration, std::time::Duration) = (x.into(), y.into()); ensure!(d <= d2, "order lost in std durations: next is {}", show(*t2)); }
                let n2: NaiveDateTime = Timestamp::of(*t2).into();
                ensure!(nd <= n2 && u <= Timestamp::of(*t2).to_datetime(), "order lost in dates: next is {}", show(*t2));
                ensure!((x.as_secs(), x.subsec_nanos()) <= (y.as_secs(), y.subsec_nanos()), "order lost in fields: next is {}", show(*t2));
            }
            Ok(())
        },
        move |i| show(v2[i as usize]))
}
/// ticks a foreign number of nanoseconds must convert to: either an infinity, or within 1 ns
fn chk_back(w: &str, g: i64, ns: i128) -> R {
    let exact = ns * S1 as i128; // in ticks * G
    let lim = INF as i128 * G;
    if exact >= lim { ensure!(g == INF, "{w} gives {} instead of +oo", show(g)) }
    else if exact <= -lim { ensure!(g == -INF, "{w} gives {} instead of -oo", show(g)) }
    else { ensure!(fin(g) && near(g, ns), "{w} gives {}", show(g)) }
    Ok(())
}
fn foreign() -> Box<dyn Family> {
    let mut secs: Vec<i128> = vec![];
    for k in 0..64 { for d in -1..=1 { secs.push((1i128 << k) + d); secs.push(-(1i128 << k) + d) } }
    for s in [0i128, 59, 60, 86400, 9_223_372_036, 9_223_372_035, 9_223_372_037, 9_223_372_036_854_775, 9_223_372_036_854_774, 8_589_934_591, 8_589_934_592, 8_589_934_593, 2_147_483_647, 2_147_483_648, 2_147_483_649, 4_294_967_296, 8_334_601_228_800, 8_334_601_228_799, 8_210_266_876_799, 8_210_266_876_798] { secs.push(s); secs.push(-s); secs.push(-s - 1) }
    secs.sort(); secs.dedup();
    let nanos: Vec<i128> = vec![0, 1, 2, 500, 999, 1000, 1001, 999_999, 1_000_000, 499_999_999, 500_000_000, 854_775_807, 854_775_808, 145_224_192, 145_224_193, 999_999_998, 999_999_999];
    let mut v: Vec<i128> = vec![];
    for s in &secs { for n in &nanos { v.push(s * G + n) } }
    v.sort(); v.dedup();
    let v = Arc::new(v);
    let v2 = v.clone();
    idx("from foreign types", format!("{} numbers of nanoseconds, in increasing order, each with its successor", v.len()), v.len() as u64,
        move |i, rec| {
            let chr = |ns: i128| -> Option<chrono::Duration> { let s = i64::try_from(ns.div_euclid(G)).ok()?; chrono::Duration::try_seconds(s)?.checked_add(&chrono::Duration::nanoseconds(ns.rem_euclid(G) as i64)) };
            let st = |ns: i128| -> Option<std::time::Duration> { if ns < 0 { return None } Some(std::time::Duration::new(u64::try_from(ns.div_euclid(G)).ok()?, ns.rem_euclid(G) as u32)) };
            let nai = |ns: i128| -> Option<NaiveDateTime> { Some(DateTime::<Utc>::from_timestamp(i64::try_from(ns.div_euclid(G)).ok()?, ns.rem_euclid(G) as u32)?.naive_utc()) };
            let ns = v[i as usize];
            let next = v.get(i as usize + 1).copied();
            rec.st(hash_words(&[(ns >> 64) as i64, ns as i64]));
            if let Some(d) = chr(ns) {
                rec.tr(1);
                let g = TimeValue::from(d).tk();
                chk_back("from chrono duration", g, ns)?;
                if let Some(e) = next.and_then(chr) { ensure!(g <= TimeValue::from(e).tk(), "order lost from chrono durations"); }
            }
            if let Some(d) = st(ns) {
                rec.tr(1);
                let g = TimeValue::from(d).tk();
                chk_back("from std duration", g, ns)?;
                if let Some(e) = next.and_then(st) { ensure!(g <= TimeValue::from(e).tk(), "order lost from std durations"); }
            }
            if let Some(d) = nai(ns) {
                rec.tr(2);
                let g = Timestamp::from(d).tk();
                chk_back("from naive date", g, ns)?;
                ensure!(Timestamp::from(d.and_utc()).tk() == g, "from zoned date");
                let f = FixedOffset::west_opt(3 * 3600 + 900).unwrap();
                ensure!(Timestamp::from(f.fix().from_utc_datetime(&d)).tk() == g, "from date zoned in the west");
                if let Some(e) = next.and_then(nai) { ensure!(g <= Timestamp::from(e).tk(), "order lost from dates"); }
            }
            Ok(())
        },
        move |i| format!("{}ns", v2[i as usize]))
}
/// the clock: between two readings of the system clock (a reading spoilt by an adjustment of the clock is taken again)
fn clock() -> Box<dyn Family> {
    idx("clock", "the present and the time elapsed since 5 dates", 5, |i, rec| {
        let read = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as i128;
        let past = [0i64, 1_000_000_000 * S1 + 1, -5 * S1, 4_000_000_000 * S1, -S1][i as usize];
        let past_ns = past as i128 * G / S1 as i128;
        let mut last = Ok(());
        for _ in 0..5 {
            rec.tr(2);
            let (a, t, b) = (read(), Timestamp::now().tk(), read());
            let (c, e, d) = (read(), Timestamp::of(past).elapsed().tk(), read());
            let within = |t: i64, lo: i128, hi: i128| { let ns = t as i128 * G / S1 as i128; lo - 3 <= ns && ns <= hi + 3 };
            last = if !within(t, a, b) { Err(format!("now is {t} ticks, the clock {a}..{b}ns")) }
                else if !within(e, c - past_ns, d - past_ns) { Err(format!("{e} ticks elapsed since {past}, the clock {c}..{d}ns")) } else { return Ok(()) };
        }
        last
    }, |i| format!("clock, date {i}"))
}
/// every tick of some seconds, to foreign types and back
fn every_tick(secs: Vec<i64>) -> Box<dyn Family> {
    let per = S1 / BLOCK;
    let s2 = secs.clone();
    idx("every tick of a second", format!("each of the {S1} ticks of each of the seconds {secs:?}, each with its successor"), secs.len() as u64 * per as u64,
        move |i, rec| {
            let s = secs[i as usize / per as usize];
            let lo = s * S1 + (i as i64 % per) * BLOCK;
            rec.st(i); rec.tr(6 * BLOCK as u64);
            let mut last: Option<(chrono::Duration, NaiveDateTime, Option<std::time::Duration>)> = None;
            for t in lo..=(lo + BLOCK).min(M) {
                let x = tv(t);
                let (q, n) = (x.as_secs() as i128, x.subsec_nanos() as i128);
                ensure!((0..G).contains(&n) && near(t, q * G + n), "{t} ticks: as_secs/subsec_nanos = {q} + {n}ns");
                ensure!(x.subsec_micros() as i128 == n / 1000 && x.subsec_millis() as i128 == n / 1_000_000, "{t} ticks: subsec fields {} {} {n}", x.subsec_millis(), x.subsec_micros());
                let c: chrono::Duration = x.into();
                let cns = c.num_seconds() as i128 * G + c.subsec_nanos() as i128;
                let b = TimeValue::from(c).tk();
                ensure!(near(t, cns) && fin(b) && near(b, cns), "{t} ticks: as chrono duration {cns}ns, back {}", show(b));
                let nd: NaiveDateTime = Timestamp::of(t).into();
                let u = nd.and_utc();
                let uns = u.timestamp() as i128 * G + u.timestamp_subsec_nanos() as i128;
                let b = Timestamp::from(u).tk();
                ensure!(near(t, uns) && fin(b) && near(b, uns), "{t} ticks: as date {nd:?}, back {}", show(b));
                let d = if t < 0 { None } else {
                    let d: std::time::Duration = x.into();
                    let ns = d.as_secs() as i128 * G + d.subsec_nanos() as i128;
                    let b = TimeValue::from(d).tk();
                    ensure!(near(t, ns) && fin(b) && near(b, ns), "{t} ticks: as std duration {ns}ns, back {}", show(b));
                    Some(d)
                };
                if let Some(l) = last { ensure!(l.0 <= c && l.1 <= nd && l.2 <= d, "{t} ticks: order lost with the previous tick"); }
                last = Some((c, nd, d));
            }
            Ok(())
        },
        move |i| { let s = s2[i as usize / per as usize]; format!("second {s}, from tick {}", (i as i64 % per) * BLOCK) })
}
/// every nanosecond of some seconds, from foreign types
fn every_nano(secs: Vec<i64>) -> Box<dyn Family> {
    let bl = blocks(&[(0, G as i64 - 1)]);
    let (per, s2) = (bl.len() as u64, secs.clone());
    idx("every nanosecond of a second", format!("each of the {G} nanoseconds of each of the seconds {secs:?}"), secs.len() as u64 * per,
        move |i, rec| {
            let s = secs[(i / per) as usize];
            let (lo, hi) = bl[(i % per) as usize];
            rec.st(i); rec.tr(3 * (hi - lo + 1) as u64);
            let mut last = (i64::MIN, i64::MIN, i64::MIN);
            for n in lo..=hi {
                let ns = s as i128 * G + n as i128;
                let c = TimeValue::from(chrono::Duration::seconds(s) + chrono::Duration::nanoseconds(n)).tk();
                ensure!(fin(c) && near(c, ns), "{s}s + {n}ns: from chrono duration {}", show(c));
                let t = Timestamp::from(DateTime::<Utc>::from_timestamp(s, n as u32).unwrap()).tk();
                ensure!(fin(t) && near(t, ns), "{s}s + {n}ns: from date {}", show(t));
                let d = if s < 0 { 0 } else { let d = TimeValue::from(std::time::Duration::new(s as u64, n as u32)).tk(); ensure!(fin(d) && near(d, ns), "{s}s + {n}ns: from std duration {}", show(d)); d };
                ensure!(last.0 <= c && last.1 <= t && last.2 <= d, "{s}s + {n}ns: order lost with the previous nanosecond");
                last = (c, t, d);
            }
            Ok(())
        },
        move |i| format!("second {}, block {}", s2[(i / per) as usize], i % per))
}
pub fn c12(th: bool) -> Fams {
    let end = (1i64 << 33) - 2;
    let s = if th { vec![0, -1, 59, -3600, 1_700_000_000, end, -end] } else { vec![0, -1] };
    vec![from_ticks12(th), foreign(), clock(), every_tick(s.clone()), every_nano(s)]
}

// ================================================================= C14
trait Seq: Send + Sync {
    fn next(&mut self) -> Option<Timestamp>;
    fn nth(&mut self, n: usize) -> Option<Timestamp>;
    fn count(&self) -> usize;
    fn last(&self) -> Option<Timestamp>;
    fn hint(&self) -> (usize, Option<usize>);
    /// all the dates to come, by folding, and every third one
    fn all(&self) -> [Vec<i64>; 2];
    fn dup(&self) -> Box<dyn Seq>;
    /// the date of the sequence itself
    fn now(&self) -> Timestamp;
}
impl<I: Iterator<Item = Timestamp> + Timestamped + Clone + Send + Sync + 'static> Seq for I {
    fn next(&mut self) -> Option<Timestamp> { Iterator::next(self) }
    fn nth(&mut self, n: usize) -> Option<Timestamp> { Iterator::nth(self, n) }
    fn count(&self) -> usize { Iterator::count(self.clone()) }
    fn last(&self) -> Option<Timestamp> { Iterator::last(self.clone()) }
    fn hint(&self) -> (usize, Option<usize>) { self.size_hint() }
    fn all(&self) -> [Vec<i64>; 2] {
        [Iterator::fold(self.clone(), vec![], |mut v, d| { v.push(d.tk()); v }), Iterator::step_by(self.clone(), 3).map(|d| d.tk()).collect()]
    }
    fn dup(&self) -> Box<dyn Seq> { Box::new(self.clone()) }
    fn now(&self) -> Timestamp { let t = self.timestamp(); assert!((&self).timestamp() == t); t }
}
#[derive(Clone, Copy, Debug)]
struct Start { kind: u8, t: i64, p: i64 }
impl Start {
    fn fwd(&self) -> bool { self.kind < 2 }
    /// first date of the sequence; None: the constructor does not accept it
    fn first(&self) -> Option<i64> {
        let (t, p) = (self.t as i128, self.p as i128);
        let f = match self.kind { 0 | 2 => t, 1 => -((-t).div_euclid(p)) * p, _ => t.div_euclid(p) * p };
        let before = if self.fwd() { f - p } else { f + p };
        if f.abs() > M as i128 || before.abs() > M as i128 { None } else { Some(f as i64) }
    }
    fn make(&self) -> Box<dyn Seq> {
        let (t, p) = (Timestamp::of(self.t), tv(self.p));
        match self.kind { 0 => Box::new(t.forward_sequence(p)), 1 => Box::new(t.forward_periods(p)), 2 => Box::new(t.backward_sequence(p)), _ => Box::new(t.backward_periods(p)) }
    }
    fn show(&self) -> String { format!("{}(t={}, period={})", ["forward_sequence", "forward_periods", "backward_sequence", "backward_periods"][self.kind as usize], self.t, self.p) }
}
struct Pos { it: Box<dyn Seq>, s: Start, id: i64, first: i64, n: u64, k: u64 }
impl Clone for Pos { fn clone(&self) -> Self { Pos { it: self.it.dup(), ..*self } } }
impl Pos {
    fn new(s: Start, id: i64) -> Pos {
        let first = s.first().unwrap();
        let room = if s.fwd() { M as i128 - first as i128 } else { first as i128 + M as i128 };
        Pos { it: s.make(), s, id, first, n: (room / s.p as i128 + 1) as u64, k: 0 }
    }
    fn at(&self, k: u64) -> i64 { let d = k as i128 * self.s.p as i128; (if self.s.fwd() { self.first as i128 + d } else { self.first as i128 - d }) as i64 }
    fn left(&self) -> u64 { self.n - self.k }
    fn check(&self, rec: &mut Rec) -> R {
        let left = self.left();
        rec.tr(3);
        rec.st(hash_words(&[self.id, self.k as i64]));
        let c = self.it.count();
        ensure!(c as u64 == left, "after {} dates: count is {c} instead of {left}", self.k);
        let (lo, up) = self.it.hint();
        ensure!(lo as u64 <= left && up.is_none_or(|u| u as u64 >= left), "after {} dates: size_hint is {:?} with {left} left", self.k, (lo, up));
        let want = if left == 0 { None } else { Some(self.at(self.n - 1)) };
        let l = self.it.last().map(|d| d.tk());
        ensure!(l == want, "after {} dates: last is {l:?} instead of {want:?}", self.k);
        if left <= 40 {
            rec.tr(2);
            let want: Vec<i64> = (self.k..self.n).map(|k| self.at(k)).collect();
            let [f, t] = self.it.all();
            ensure!(f == want, "after {} dates: folding gives {f:?} instead of {want:?}", self.k);
            ensure!(t.iter().eq(want.iter().step_by(3)), "after {} dates: every third date is {t:?} of {want:?}", self.k);
        }
        Ok(())
    }
    fn next(&mut self, rec: &mut Rec) -> R {
        let want = if self.left() == 0 { None } else { Some(self.at(self.k)) };
        let g = self.it.next().map(|d| d.tk());
        rec.tr(1);
        ensure!(g == want, "after {} dates: next is {g:?} instead of {want:?}", self.k);
        if let Some(t) = want { ensure!(self.it.now().tk() == t, "having emitted {t}, the sequence is dated {:?}", self.it.now()) }
        self.k = (self.k + 1).min(self.n);
        Ok(())
    }
    fn nth(&mut self, j: u64, rec: &mut Rec) -> R {
        let want = if j >= self.left() { None } else { Some(self.at(self.k + j)) };
        let g = self.it.nth(j as usize).map(|d| d.tk());
        rec.tr(1);
        ensure!(g == want, "after {} dates: nth({j}) is {g:?} instead of {want:?}", self.k);
        if let Some(t) = want { ensure!(self.it.now().tk() == t, "having emitted {t}, the sequence is dated {:?}", self.it.now()) }
        self.k = if j >= self.left() { self.n } else { self.k + j + 1 };
        Ok(())
    }
}
struct SeqM { starts: Vec<Start> }
impl Machine for SeqM {
    type S = Pos;
    fn inits(&self) -> usize { self.starts.len() }
    fn init(&self, i: usize) -> Pos { Pos::new(self.starts[i], i as i64) }
    fn init_name(&self, i: usize) -> String { self.starts[i].show() }
    fn ops(&self) -> usize { 12 }
    fn op_name(&self, op: usize) -> String {
        ["check", "next", "nth(0)", "nth(1)", "nth(2)", "nth(7)", "nth(left/2)", "nth(left-2)", "nth(left-1)", "nth(left)", "nth(left+1)", "nth(MAX)"][op].into()
    }
    fn step(&self, s: &Pos, op: usize, rec: &mut Rec) -> R<Option<Pos>> {
        let mut x = s.clone();
        let left = x.left();
        match op {
            0 => { if s.k != 0 { return Ok(None) } x.check(rec)?; return Ok(None) }
            1 => x.next(rec)?,
            2 => x.nth(0, rec)?, 3 => x.nth(1, rec)?, 4 => x.nth(2, rec)?, 5 => x.nth(7, rec)?,
            6 => x.nth(left / 2, rec)?,
            7 => { if left < 2 { return Ok(None) } x.nth(left - 2, rec)? }
            8 => { if left < 1 { return Ok(None) } x.nth(left - 1, rec)? }
            9 => x.nth(left, rec)?,
            10 => x.nth(left.saturating_add(1), rec)?,
            _ => x.nth(u64::MAX, rec)?,
        }
        x.check(rec)?;
        Ok(Some(x))
    }
    fn key(&self, s: &Pos) -> Vec<i64> { vec![s.id, s.k as i64] }
}
fn starts(kinds: &[u8], ts: &[i64], ps: &[i64]) -> Vec<Start> {
    let mut v = vec![];
    for &kind in kinds { for &t in ts { for &p in ps {
        if p > 0 && fin(p) && fin(t) { let s = Start { kind, t, p }; if s.first().is_some() { v.push(s) } }
    } } }
    v
}
fn seq_values() -> (Vec<i64>, Vec<i64>) {
    let mut ts = vec![];
    for x in [0i128, 1, 2, 5, 7, 13, 100, S1 as i128, S1 as i128 * 86400 * 365 * 50, M as i128, M as i128 - 1, M as i128 - 2, M as i128 - 9, M as i128 - 10, (M / 2) as i128, (M / 2) as i128 + 1, M as i128 - S1 as i128, 1 << 61] { sym(&mut ts, x) }
    let mut ps = vec![];
    for x in [1i128, 2, 3, 5, 7, 10, 64, 1000, S1 as i128, 60 * S1 as i128, 86400 * S1 as i128, 1 << 59, (1 << 60) + 1, 1 << 61, 1 << 62, (M / 2) as i128, (M / 2) as i128 - 3, (M / 2) as i128 + 1, (M / 3) as i128, M as i128 - 1, M as i128] { ps.push(x as i64) }
    (fin_up(ts), ps)
}
fn stepping(name: &str, v: Vec<Start>, cap: u64) -> Box<dyn Family> {
    let v = Arc::new(v);
    let v2 = v.clone();
    idx(name, format!("{} sequences stepped date by date (to the end, or {cap} dates), every query at each position", v.len()), v.len() as u64,
        move |i, rec| {
            let mut x = Pos::new(v[i as usize], i as i64);
            x.check(rec)?;
            let steps = x.n.min(cap);
            for _ in 0..steps {
                for j in [0u64, 1, 2, 3, 4, 9, 63] { let mut y = x.clone(); y.nth(j, rec)?; y.check(rec)?; y.next(rec)?; }
                x.next(rec)?; x.check(rec)?;
            }
            if steps == x.n { for _ in 0..4 { x.next(rec)?; x.check(rec)?; let mut y = x.clone(); y.nth(0, rec)?; y.nth(3, rec)?; y.next(rec)?; } }
            Ok(())
        },
        move |i| v2[i as usize].show())
}
/// long sequences walked to their end, some queries from place to place
fn walking(v: Vec<Start>) -> Box<dyn Family> {
    let v = Arc::new(v);
    let v2 = v.clone();
    idx("long sequences", format!("{} sequences walked date by date to the end, queries every 97 dates", v.len()), v.len() as u64,
        move |i, rec| {
            let mut x = Pos::new(v[i as usize], i as i64);
            while x.left() > 0 {
                if x.k % 97 == 0 {
                    x.check(rec)?;
                    for j in [1u64, 254, 1022, 4097, 65534, x.left() / 2, x.left() - 1] { let mut y = x.clone(); y.nth(j, rec)?; y.next(rec)?; }
                }
                x.next(rec)?;
            }
            for _ in 0..4 { x.next(rec)?; x.check(rec)?; }
            Ok(())
        },
        move |i| v2[i as usize].show())
}
/// the first dates and the length, for every start and period of a range
fn beginnings(n: i64, m: i64) -> Box<dyn Family> {
    let (w, k) = (2 * n as u64 + 1, m as u64);
    let st = move |i: u64| Start { kind: (i / (w * k)) as u8, t: (i / k % w) as i64 - n, p: (i % k) as i64 + 1 };
    idx("beginnings", format!("starts -{n}..={n}, periods 1..={m}, the 4 kinds"), 4 * w * k,
        move |i, rec| {
            let mut x = Pos::new(st(i), i as i64);
            x.check(rec)?;
            let mut y = x.clone();
            y.nth(1, rec)?;
            for _ in 0..2 { x.next(rec)? }
            x.check(rec)
        },
        move |i| st(i).show())
}
/// starts and periods which make no sequence
fn refused() -> Box<dyn Family> {
    let mut v: Vec<(u8, i64, i64)> = vec![];
    for kind in 0..4 {
        for t in [0, 1, -1, 7, S1, -S1, M / 2, M, -M] { for p in [0, -1, -2, -S1, -M / 2, -M, -INF] { v.push((kind, t, p)) } }
        for t in [INF, -INF] { for p in [1, 2, S1, M / 3, M] { v.push((kind, t, p)) } }
    }
    let v2 = v.clone();
    idx("refused sequences", "periods which are not strictly positive, infinite starts", v.len() as u64,
        move |i, rec| {
            let (kind, t, p) = v[i as usize];
            rec.tr(1);
            rec.st(i);
            ensure!(panics(|| Start { kind, t, p }.make()), "is accepted");
            Ok(())
        },
        move |i| { let (kind, t, p) = v2[i as usize]; Start { kind, t, p }.show() })
}
pub fn c14(th: bool) -> Fams {
    let (ts, ps) = seq_values();
    let near_end: Vec<i64> = { let mut v = vec![]; for d in 0..(if th { 400 } else { 60 }) { sym(&mut v, (M - d) as i128) } fin_up(v) };
    let small_p: Vec<i64> = (1..=(if th { 60 } else { 20 })).collect();
    let small_t: Vec<i64> = (-40..=40).collect();
    vec![
        refused(),
        stepping("near the ends of time", starts(&[0, 1, 2, 3], &near_end, &small_p), 500),
        stepping("around the origin", starts(&[0, 1, 2, 3], &small_t, &small_p), 40),
        stepping("boundary starts and periods", starts(&[0, 1, 2, 3], &ts, &ps), 100),
        beginnings(if th { 3000 } else { 1500 }, if th { 800 } else { 300 }),
        walking({
            let n = if th { 600_000 } else { 140_000 };
            let mut v = vec![];
            for p in [1, 3, 1000, S1 + 1, 86_400 * S1] { for d in [0, 1] { for kind in 0..4 {
                let back = (M / p).min(n) * p - d;
                v.push(Start { kind, t: if kind < 2 { M - back } else { back - M }, p });
            } } }
            v.retain(|s| s.first().is_some());
            v
        }),
        bfs("histories of next and nth", "boundary starts and periods", SeqM { starts: starts(&[0, 1, 2, 3], &ts, &ps) }, if th { 4 } else { 3 }, false),
        bfs("histories of next and nth near the ends", "starts within 12 ticks of the ends, periods 1..=7", SeqM { starts: starts(&[0, 1, 2, 3], &near_end.iter().copied().filter(|t| t.abs() > M - 12).collect::<Vec<_>>(), &[1, 2, 3, 7]) }, if th { 5 } else { 4 }, false),
    ]
}
