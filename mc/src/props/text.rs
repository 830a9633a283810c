//! C13, C24: printed forms are parsed back, serialized forms are read back
use super::Fams;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, with_forms};
use chrono::NaiveDateTime;
use chronologic::*;
use std::sync::Arc;

const G: i128 = 1_000_000_000;
fn near(t: i64, ns: i128) -> bool { (ns * S1 as i128 - t as i128 * G).abs() <= S1 as i128 }

// ------------------------------------------------------------ parsers
const UNITS: [(&str, i128); 9] = [("y", 31556952 * G), ("mo", 2629746 * G), ("d", 86400 * G), ("h", 3600 * G), ("min", 60 * G), ("s", G), ("ms", 1_000_000), ("us", 1000), ("ns", 1)];
/// nanoseconds denoted by the text of a finite duration
fn parse_duration(s: &str) -> R<i128> {
    let (neg, body) = match s.strip_prefix("- ") { Some(b) => (true, b), None => (false, s) };
    if body == "0" { return Ok(0) }
    let (mut sum, mut prev) = (0i128, None);
    for w in body.split(' ') {
        let k = w.find(|c: char| !c.is_ascii_digit()).ok_or(format!("no unit in '{w}'"))?;
        let n: i128 = w[..k].parse().map_err(|_| format!("no number in '{w}'"))?;
        let u = UNITS.iter().position(|u| u.0 == &w[k..]).ok_or(format!("unknown unit in '{w}'"))?;
        if let Some(p) = prev { ensure!(u > p, "units out of order in '{s}'") }
        if u > 0 { ensure!(n * UNITS[u].1 < UNITS[u - 1].1, "'{w}' is not below 1{}", UNITS[u - 1].0) }
        ensure!(n > 0, "useless '{w}'");
        prev = Some(u);
        sum += n * UNITS[u].1;
    }
    Ok(if neg { -sum } else { sum })
}
#[derive(PartialEq, Debug)]
enum Piece<'a> { Single(&'a str), Closed(&'a str, &'a str), From(&'a str), Upto(&'a str), All }
/// splits the text of a window into pieces
fn parse_window(s: &str) -> R<Vec<Piece<'_>>> {
    if s == "{}" { return Ok(vec![]) }
    let b = s.as_bytes();
    let mut cuts = vec![0];
    for k in 1..b.len().saturating_sub(1) { if b[k] == b'U' && b"}][".contains(&b[k - 1]) && b"{[]".contains(&b[k + 1]) { cuts.push(k); cuts.push(k + 1) } }
    cuts.push(b.len());
    let mut v = vec![];
    for c in cuts.chunks(2) {
        let p = &s[c[0]..c[1]];
        ensure!(p.len() >= 3 && p.is_ascii(), "unreadable piece '{p}'");
        let (o, i, e) = (&p[..1], &p[1..p.len() - 1], &p[p.len() - 1..]);
        let two = || i.split_once(',').ok_or(format!("unreadable piece '{p}'"));
        v.push(match (o, e) {
            ("{", "}") => Piece::Single(i),
            ("[", "]") => { let (a, b) = two()?; Piece::Closed(a, b) }
            ("[", "[") => { let (a, b) = two()?; ensure!(b == "+oo", "unreadable piece '{p}'"); Piece::From(a) }
            ("]", "]") => { let (a, b) = two()?; ensure!(a == "-oo", "unreadable piece '{p}'"); Piece::Upto(b) }
            ("]", "[") => { ensure!(i == "-oo,+oo", "unreadable piece '{p}'"); Piece::All }
            _ => return Err(format!("unreadable piece '{p}'")),
        });
    }
    Ok(v)
}
/// the text must list exactly the pieces, each bound accepted by `bound`
pub fn chk_text(w: &str, s: &str, want: &[Iv], bound: impl Fn(&str, i64) -> R) -> R {
    let f = || -> R {
        let got = parse_window(s)?;
        ensure!(got.len() == want.len(), "{} pieces instead of {}", got.len(), want.len());
        for (g, i) in got.iter().zip(want) {
            match (g, *i) {
                (Piece::Single(a), (x, y)) if x == y => bound(a, x)?,
                (Piece::Closed(a, b), (x, y)) if fin(x) && fin(y) && x < y => { bound(a, x)?; bound(b, y)? }
                (Piece::From(a), (x, INF)) if fin(x) => bound(a, x)?,
                (Piece::Upto(b), (x, y)) if x == -INF && fin(y) => bound(b, y)?,
                (Piece::All, (x, INF)) if x == -INF => {}
                _ => return Err(format!("{g:?} for {}", show_iv(*i))),
            }
        }
        Ok(())
    };
    f().map_err(|m| format!("{w} text '{s}' of {}: {m}", show_ps(want)))
}
pub trait Txt: Pt {
    fn debug_bound(s: &str, t: i64) -> R;
    fn display_bound(s: &str, t: i64) -> R;
    const FMT: &'static str;
    fn format_bound(s: &str, t: i64) -> R;
    /// other formats asked for by a user, and whether the text is what they denote
    const OTHERS: &'static [&'static str];
    fn other_bound(fmt: &str, s: &str, t: i64) -> R;
}
/// a format showing seconds at best denotes the date itself (or the neighbour tick, across a rounding)
fn by_chrono(fmt: &str, s: &str, t: i64) -> R {
    let at = |x: i64| chrono::DateTime::from_timestamp(x >> 30, 0).unwrap().format(fmt).to_string();
    ensure!([t, t - 1, t + 1].iter().any(|x| at(*x) == s), "'{s}' instead of '{}' with format '{fmt}'", at(t)); Ok(())
}
fn tick_text(s: &str, t: i64) -> R { ensure!(s.parse::<i64>() == Ok(t), "'{s}' for {t}"); Ok(()) }
impl Txt for TimeValue {
    fn debug_bound(s: &str, t: i64) -> R { tick_text(s, t) }
    fn display_bound(s: &str, t: i64) -> R { let n = parse_duration(s)?; ensure!(near(t, n) && (t < 0) == s.starts_with('-'), "'{s}' is {n}ns, far from {t} ticks"); Ok(()) }
    const FMT: &'static str = "";
    fn format_bound(s: &str, t: i64) -> R { Self::display_bound(s, t) }
    const OTHERS: &'static [&'static str] = &["%Y", "U"];
    fn other_bound(_: &str, s: &str, t: i64) -> R { Self::display_bound(s, t) }
}
impl Txt for Timestamp {
    fn debug_bound(s: &str, t: i64) -> R { tick_text(s.strip_prefix("t=").ok_or(format!("'{s}' for t={t}"))?, t) }
    fn display_bound(s: &str, t: i64) -> R {
        let n = if let Some(d) = s.strip_suffix(" before 1970-01-01 00:00:00 UTC") { -parse_duration(d)? }
            else {
                let d = NaiveDateTime::parse_from_str(s, "%Y-%m-%d %H:%M:%S%.f UTC").map_err(|e| format!("'{s}': {e}"))?;
                d.and_utc().timestamp() as i128 * G + d.and_utc().timestamp_subsec_nanos() as i128
            };
        ensure!(near(t, n), "'{s}' is {n}ns, far from {t} ticks"); Ok(())
    }
    const OTHERS: &'static [&'static str] = &["%Y/%m/%d %H:%M:%S", "%A %e %B %G week %V day %j at %I %p %Z", "%F", "%s", "%T", "day", ""];
    fn other_bound(fmt: &str, s: &str, t: i64) -> R { by_chrono(fmt, s, t) }
    const FMT: &'static str = "%s.%9f";
    fn format_bound(s: &str, t: i64) -> R {
        let (a, b) = s.split_once('.').ok_or("no dot")?;
        let n = a.parse::<i128>().map_err(|_| format!("'{s}'"))? * G + b.parse::<i128>().map_err(|_| format!("'{s}'"))?;
        ensure!(near(t, n), "'{s}' is {n}ns, far from {t} ticks"); Ok(())
    }
}

// ================================================================= C13
fn durations(name: &str, v: Vec<i64>) -> Box<dyn Family> {
    let v = Arc::new(v);
    let v2 = v.clone();
    idx(format!("text of durations, {name}"), format!("{} durations", v.len()), v.len() as u64,
        move |i, rec| one_duration(v[i as usize], rec),
        move |i| show(v2[i as usize]))
}
fn one_duration(t: i64, rec: &mut Rec) -> R {
    let x = tv(t);
    rec.st(t as u64); rec.tr(3);
    let (d, g) = (x.to_string(), format!("{x:?}"));
    if !fin(t) { let f = x.format_timepoint("%F"); ensure!(d == show(t) && g == show(t) && f == show(t), "prints as '{d}', '{g}', '{f}'"); return Ok(()) }
    TimeValue::display_bound(&d, t).map_err(|m| format!("display: {m}"))?;
    TimeValue::debug_bound(&g, t).map_err(|m| format!("debug: {m}"))?;
    let f = x.format_timepoint("");
    TimeValue::display_bound(&f, t).map_err(|m| format!("format_timepoint: {m}"))
}
/// consecutive multiples of a duration (moved by a few ticks), by blocks
fn every_text(name: &'static str, lo: i64, hi: i64, tick: fn(i64) -> i64) -> Box<dyn Family> {
    const B: i64 = 1 << 12;
    idx(format!("text of every {name}"), format!("{} durations and as many dates", hi - lo + 1), ((hi - lo) / B + 1) as u64,
        move |i, rec| {
            let a = lo + i as i64 * B;
            rec.st(i); rec.tr(3 * (hi.min(a + B - 1) - a + 1) as u64);
            for k in a..=hi.min(a + B - 1) {
                let t = tick(k);
                let d = tv(t).to_string();
                TimeValue::display_bound(&d, t).map_err(|m| format!("{t} ticks, display: {m}"))?;
                let f = tv(t).format_timepoint("");
                ensure!(f == d || TimeValue::display_bound(&f, t).is_ok(), "{t} ticks, format_timepoint: '{f}'");
                let d = Timestamp::of(t).to_string();
                Timestamp::display_bound(&d, t).map_err(|m| format!("date of {t} ticks, display: {m}"))?;
            }
            Ok(())
        },
        move |i| format!("block {i}"))
}
fn dates(v: Vec<i64>) -> Box<dyn Family> {
    let v = Arc::new(v);
    let v2 = v.clone();
    idx("text of dates", format!("{} dates", v.len()), v.len() as u64,
        move |i, rec| {
            let t = v[i as usize];
            let x = Timestamp::of(t);
            rec.st(t as u64); rec.tr(3);
            let (d, g) = (x.to_string(), format!("{x:?}"));
            if !fin(t) { let f = x.format_timepoint("%F"); ensure!(d == show(t) && g == format!("t={}", show(t)) && f == show(t), "prints as '{d}', '{g}', '{f}'"); return Ok(()) }
            Timestamp::display_bound(&d, t).map_err(|m| format!("display: {m}"))?;
            Timestamp::debug_bound(&g, t).map_err(|m| format!("debug: {m}"))?;
            for f in Timestamp::OTHERS { rec.tr(1); Timestamp::other_bound(f, &x.format_timepoint(f), t).map_err(|m| format!("format_timepoint: {m}"))? }
            Timestamp::format_bound(&x.format_timepoint(Timestamp::FMT), t).map_err(|m| format!("format_timepoint: {m}"))
        },
        move |i| show(v2[i as usize]))
}
/// every combination of small, middle and greatest amounts of each unit, one tick around it
fn combos(dense: bool) -> Vec<i64> {
    let am: [&[i128]; 9] = if dense {
        [&[0, 1, 2, 271], &[0, 1, 11], &[0, 1, 29, 30], &[0, 1, 23], &[0, 1, 59], &[0, 1, 59], &[0, 1, 2, 999], &[0, 1, 999], &[0, 1, 500, 999]]
    } else { [&[0, 1, 271], &[0, 1, 11], &[0, 30], &[0, 1, 23], &[0, 59], &[0, 1, 59], &[0, 1, 2, 999], &[0, 1, 999], &[0, 1, 999]] };
    let mut ns: Vec<i128> = vec![0];
    for (k, a) in am.iter().enumerate() { ns = ns.iter().flat_map(|s| a.iter().map(move |n| s + n * UNITS[k].1)).collect() }
    let mut v: Vec<i64> = vec![];
    for n in ns {
        let t = n * S1 as i128 / G;
        for d in -1..=1 { let x = t + d; if x.abs() < INF as i128 { v.push(x as i64); v.push(-x as i64) } }
    }
    v.sort(); v.dedup(); v
}
fn sets<T: Txt>(g: Arc<Grid>, masks: Vec<u64>) -> Box<dyn Family> {
    let masks = Arc::new(masks);
    let (g2, m2) = (g.clone(), masks.clone());
    idx(format!("text of sets of {}s ({})", T::NAME, g.name), format!("{} sets on {} cells", masks.len(), g.n()), masks.len() as u64,
        move |i, rec| {
            let p = g.cut(masks[i as usize]);
            let s = set_of::<T>(&p);
            rec.st(p_hash(&p)); rec.tr(3);
            chk_text("debug", &format!("{s:?}"), &p, T::debug_bound)?;
            chk_text("display", &s.to_string(), &p, T::display_bound)?;
            for f in &T::OTHERS[..2] { rec.tr(1); chk_text("format_timeset", &s.format_timeset(f), &p, |a, t| T::other_bound(f, a, t))? }
            chk_text("format_timeset", &s.format_timeset(T::FMT), &p, T::format_bound)
        },
        move |i| show_ps(&g2.cut(m2[i as usize])))
}
fn spans<T: Txt>(g: Arc<Grid>) -> Box<dyn Family> {
    let ivs = Arc::new(g.intervals());
    let i2 = ivs.clone();
    idx(format!("text of intervals of {}s ({})", T::NAME, g.name), format!("{} intervals on {} cells, in every form", ivs.len(), g.n()), ivs.len() as u64,
        move |i, rec| {
            let iv = ivs[i as usize];
            let p = one(iv);
            rec.st(p_hash(&p));
            let x = iv_of::<T>(iv);
            chk_text("debug", &format!("{x:?}"), &p, T::debug_bound)?;
            chk_text("display", &x.to_string(), &p, T::display_bound)?;
            if iv.0 > iv.1 {
                // an empty interval however it was obtained
                let far = iv_of::<T>((-5, -3)) & iv_of::<T>((3, 5));
                chk_text("debug", &format!("{far:?}"), &[], T::debug_bound)?;
                chk_text("display", &far.to_string(), &[], T::display_bound)?;
            }
            with_forms!(T, iv, |w, what| { rec.tr(1); chk_text(&format!("format_timeset of {what}"), &w.format_timeset(T::FMT), &p, T::format_bound)?; });
            Ok(())
        },
        move |i| show_iv(i2[i as usize]))
}
fn boundaries() -> Vec<i64> {
    let mut v = vec![0i64, INF];
    for k in 0..63 { for d in -1..=1 { v.push((1i64 << k) + d); v.push(-(1i64 << k) + d) } }
    for x in 0..20 { v.push(INF - x); v.push(-INF + x) }
    v.sort(); v.dedup(); v.retain(|t| *t >= -INF); v
}
pub fn c13(th: bool) -> Fams {
    let gr = |kind, n| Arc::new(std_grid(kind, n));
    let all = |g: &Grid| (0..g.masks()).collect::<Vec<_>>();
    let n = if th { 13 } else { 10 };
    let r = if th { 4_000_000 } else { 300_000 };
    let cs: Vec<i64> = { let mut c = combos(false); c.extend(boundaries()); c.sort(); c.dedup(); c };
    let (g0, g1, g2) = (gr(0, n), gr(1, n), gr(2, n));
    let ms = Arc::new(Grid::new("parts of a second", &[-S1, -1_073_742, -1_073_741, 0, 1073, 1074, 1_073_741, 1_073_742, S1, 60 * S1]));
    let mut v: Fams = vec![
        durations("amounts of each unit", combos(th)), durations("boundary values", boundaries()), durations("small values", (-r..=r).collect()),
        durations("whole milliseconds and microseconds", (1..=2000i128).flat_map(|k| [k * 1_000_000, k * 1000, k * 1_001_000, k * 10_000_000, k * 1_001_001]).flat_map(|ns| { let t = (ns * S1 as i128 / G) as i64; [t, t + 1, -t, S1 + t, 3600 * S1 + t + 1] }).collect()),
        dates(cs),
        // each nanosecond, first tick not before it and the one before
        every_text("nanosecond of a millisecond", -1_000_000, 1_000_000, |k| (k * S1).div_euclid(G as i64) + 1),
        every_text("microsecond of a second", -300_000, 1_000_000, |k| (k * S1).div_euclid(1_000_000)),
        every_text("millisecond of an hour", 0, 3_600_000, |k| (k * S1).div_euclid(1000) + 1),
        every_text("second of four days", -100_000, 250_000, |k| k * S1),
        every_text("minute of a year", -100_000, 530_000, |k| k * 60 * S1),
        every_text("hour of a century", -300_000, 600_000, |k| k * 3600 * S1 + k.signum()),
        every_text("day of the range", -99_420, 99_420, |k| k * 86_400 * S1 - 1),
        sets::<TimeValue>(g0.clone(), all(&g0)), sets::<Timestamp>(g0.clone(), all(&g0)), sets::<TimeValue>(g1.clone(), all(&g1)), sets::<Timestamp>(g2.clone(), all(&g2)), sets::<TimeValue>(g2.clone(), all(&g2)), sets::<TimeValue>(ms.clone(), all(&ms)), sets::<Timestamp>(ms.clone(), all(&ms)),
        sets::<TimeValue>(gr(1, 40), comb_masks(40)), sets::<Timestamp>(gr(2, 40), comb_masks(40)),
        spans::<TimeValue>(gr(0, 16)), spans::<Timestamp>(gr(1, 16)), spans::<TimeValue>(gr(2, 24)), spans::<Timestamp>(gr(2, 24)), spans::<TimeValue>(ms.clone()), spans::<Timestamp>(ms),
    ];
    v.extend(structures(th));
    v
}

// ================================================================= C24
pub fn rt<T: serde_json_ok::Ok>(w: &str, x: &T, rec: &mut Rec) -> R {
    rec.tr(4);
    let s = serde_json::to_string(x).map_err(|e| format!("{w}: serialize: {e}"))?;
    let y: T = serde_json::from_str(&s).map_err(|e| format!("{w}: deserialize '{s}': {e}"))?;
    ensure!(y == *x, "{w} comes back different from '{s}': {y:?}");
    let v = serde_json::to_value(x).map_err(|e| format!("{w}: to_value: {e}"))?;
    let y: T = serde_json::from_value(v).map_err(|e| format!("{w}: from_value: {e}"))?;
    ensure!(y == *x, "{w} comes back different through a value: {y:?}");
    let y: T = serde_json::from_reader(s.as_bytes()).map_err(|e| format!("{w}: from_reader: {e}"))?;
    ensure!(y == *x, "{w} comes back different through a reader: {y:?}");
    // a format which is not self-describing
    let b = bincode::serialize(x).map_err(|e| format!("{w}: bincode: {e}"))?;
    let y: T = bincode::deserialize(&b).map_err(|e| format!("{w}: from bincode: {e}"))?;
    ensure!(y == *x, "{w} comes back different through bincode: {y:?}");
    Ok(())
}
pub mod serde_json_ok {
    pub trait Ok: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug {}
    impl<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug> Ok for T {}
}
fn ser_sets<T: Pt + serde::Serialize + serde::de::DeserializeOwned>(g: Arc<Grid>, masks: Vec<u64>) -> Box<dyn Family> {
    let masks = Arc::new(masks);
    let (g2, m2) = (g.clone(), masks.clone());
    idx(format!("sets of {}s ({})", T::NAME, g.name), format!("{} sets on {} cells", masks.len(), g.n()), masks.len() as u64,
        move |i, rec| {
            let p = g.cut(masks[i as usize]);
            rec.st(p_hash(&p));
            let s = set_of::<T>(&p);
            rt("set", &s, rec)?;
            let back: TimeSet<T> = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
            chk_set("set read back", &back, &p)?;
            // read back together, inside a structure of the user
            rt("pair", &(s.clone(), vec![s.clone(), !s]), rec)
        },
        move |i| show_ps(&g2.cut(m2[i as usize])))
}
fn ser_ivs<T: Pt + serde::Serialize + serde::de::DeserializeOwned>(v: Vec<i64>) -> Box<dyn Family> {
    let v = Arc::new(v);
    let k = v.len() as u64;
    let v2 = v.clone();
    idx(format!("{}s and intervals", T::NAME), format!("{k} points, all {k}x{k} pairs of bounds"), k * k,
        move |i, rec| {
            let (a, b) = (v[(i / k) as usize], v[(i % k) as usize]);
            rec.st(hash_words(&[a, b]));
            if a == b {
                let x = T::of(a);
                rt("point", &x, rec)?;
                let y: T = serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap();
                ensure!(y.tk() == a, "point read back as {}", show(y.tk()));
                if !fin(a) { return Ok(()) }
            }
            if a == INF || b == -INF { return rt("empty interval", &TimeInterval::<T>::empty(), rec) }
            let x = TimeInterval::new(T::of(a), T::of(b));
            rt("interval", &x, rec)?;
            let y: TimeInterval<T> = serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap();
            chk_iv("interval read back", &y, if a > b { EMPTY } else { (a, b) })
        },
        move |i| format!("[{},{}]", show(v2[(i / k) as usize]), show(v2[(i % k) as usize])))
}
pub fn c24(th: bool) -> Fams {
    let n = if th { 16 } else { 12 };
    let mut v: Fams = vec![ser_ivs::<TimeValue>(boundaries()), ser_ivs::<Timestamp>(boundaries())];
    for kind in 0..3 {
        let g = Arc::new(std_grid(kind, n));
        v.push(ser_sets::<TimeValue>(g.clone(), (0..g.masks()).collect()));
        v.push(ser_sets::<Timestamp>(g.clone(), (0..g.masks()).collect()));
    }
    v.push(ser_sets::<TimeValue>(Arc::new(std_grid(1, 60)), comb_masks(60)));
    v.push(ser_sets::<Timestamp>(Arc::new(std_grid(2, 60)), comb_masks(60)));
    v
}

// ---------------------------------------------------------------- graphs and schedulers (C13)
use super::graph::{build, Con, Net};
use chronologic::graph::{TimeConstraint, TimeGraph, TimeScheduler};

/// the lines "t0 in ...", "t1 in ..." of a scheduler
fn chk_lines(w: &str, s: &str, want: &[Vec<Iv>], bound: impl Fn(&str, i64) -> R + Copy) -> R {
    if want.is_empty() { return Ok(()) }
    ensure!(s.ends_with('\n'), "{w} text '{s}': last line not ended");
    let lines: Vec<&str> = s[..s.len() - 1].split('\n').collect();
    ensure!(lines.len() == want.len(), "{w} text '{s}': {} lines for {} instants", lines.len(), want.len());
    for (i, (l, p)) in lines.iter().zip(want).enumerate() {
        let t = l.strip_prefix(&format!("t{i} in ")).ok_or(format!("{w} text: line '{l}' for t{i}"))?;
        chk_text(&format!("{w} (t{i})"), t, p, bound)?;
    }
    Ok(())
}
fn sched_text(kind: usize, cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(kind, cells));
    let n = g.masks();
    let g2 = g.clone();
    let gs: Arc<Vec<&'static TimeGraph>> = Arc::new((0..4).map(|n| &*Box::leak(Box::new(TimeGraph::with_size(n)))).collect());
    idx(format!("text of schedulers ({})", g.name), format!("0 to 3 free instants, two of them restricted to all pairs of the {n} windows of {cells} cells"), n * n * 4,
        move |i, rec| {
            let size = (i / n / n) as usize;
            let ms = [i / n % n, i % n];
            let mut s = TimeScheduler::new(gs[size]);
            let mut want = vec![vec![(-INF, INF)]; size];
            for (k, m) in ms.iter().enumerate() {
                // t2 and t0 for three instants, t1 and t0 for two
                let at = if k == 0 { 0 } else { size.wrapping_sub(1) };
                if at < size && (k == 0 || size > 1) && *m != 0 { want[at] = g.p(*m).to_vec(); s.retain(at as u32, set_of::<Timestamp>(g.p(*m))).map_err(|e| format!("retain refused: {e:?}"))?; }
            }
            rec.st(i); rec.tr(3);
            chk_lines("debug", &format!("{s:?}"), &want, Timestamp::debug_bound)?;
            chk_lines("display", &s.to_string(), &want, Timestamp::display_bound)?;
            let f = s.format_timeset(Timestamp::FMT);
            if size == 0 { ensure!(!f.is_empty() && s.to_string().is_empty(), "empty scheduler formatted as '{f}'") }
            chk_lines("format_timeset", &f, &want, Timestamp::format_bound)
        },
        move |i| format!("{} instants, t0 in {}, the last in {}", i / n / n, show_ps(g2.p(i / n % n)), show_ps(g2.p(i % n))))
}
/// schedulers of many instants, each with windows of its own
fn sched_text_many(th: bool) -> Box<dyn Family> {
    let max = if th { 300u64 } else { 130 };
    let gs: Arc<Vec<&'static TimeGraph>> = Arc::new((0..=max as u32).map(|n| &*Box::leak(Box::new(TimeGraph::with_size(n)))).collect());
    idx("text of schedulers of many instants", format!("0 to {max} free instants, each restricted to windows of its own, 4 patterns"), (max + 1) * 4,
        move |i, rec| {
            let (n, kind) = ((i / 4) as usize, i % 4);
            let mut s = TimeScheduler::new(gs[n]);
            let mut want = vec![vec![(-INF, INF)]; n];
            for (j, w) in want.iter_mut().enumerate() {
                let t = (j as i64 + 1) * 86_400 * S1;
                *w = match kind {
                    0 => vec![(t, t + S1)],
                    1 => (0..1 + j as i64 % 12).map(|k| (t + 10 * k * S1, t + (10 * k + 3) * S1)).collect(),
                    2 => match j % 4 { 0 => vec![(-INF, t)], 1 => vec![(t, INF)], 2 => vec![(t, t)], _ => vec![(-INF, -t), (t, INF)] },
                    _ => if j % 3 == 0 { vec![(-t, t)] } else { continue },
                };
                s.retain(j as u32, set_of::<Timestamp>(w)).map_err(|e| format!("retain t{j} refused: {e:?}"))?;
            }
            rec.st(i); rec.tr(3);
            chk_lines("debug", &format!("{s:?}"), &want, Timestamp::debug_bound)?;
            chk_lines("display", &s.to_string(), &want, Timestamp::display_bound)?;
            if n > 0 { chk_lines("format_timeset", &s.format_timeset(Timestamp::FMT), &want, Timestamp::format_bound)? }
            Ok(())
        },
        move |i| format!("{} instants, pattern {}", i / 4, i % 4))
}
/// `few`: constraints on 3 pairs of instants of a large graph; `full`: constraints on all the instants
fn graph_text(sizes: Vec<u32>, few: bool, full: bool) -> Box<dyn Family> {
    let u = [S1, 1, 3600 * S1];
    let ws: Vec<Iv> = vec![(-INF, INF), (0, 0), (1, 1), (2, 7), (-3, 4), (-9, -2), (5, INF), (-INF, 6), (0, INF), (-INF, 0), (-INF, -1), (-4, INF)];
    let ws: Vec<Iv> = if few { vec![(2, 7), (-INF, 6), (-4, INF)] } else { ws };
    let ws: Arc<Vec<Iv>> = Arc::new(u[..if few { 1 } else { 3 }].iter().flat_map(|k| ws.iter().map(move |w| (if fin(w.0) { w.0 * k } else { w.0 }, if fin(w.1) { w.1 * k } else { w.1 }))).collect());
    let k = ws.len() as u64;
    let shapes: [fn(u32) -> ((u32, u32), (u32, u32)); 3] = [|n| ((0, n - 1), (n - 2, n - 1)), |n| ((n - 1, 0), (0, 1)), |n| ((n / 2, n - 1), (0, n / 2))];
    let per = if full { 9 } else { k * k * 3 };
    let dec = { let (ws, sz) = (ws.clone(), sizes.clone()); move |i: u64| -> (u32, Vec<Con>) {
        let n = sz[(i / per) as usize];
        let j = i % per;
        // a chain, a star or a tree on all the instants, with each kind of window
        if full { return (n, (1..n).map(|x| (match j / 3 { 0 => x - 1, 1 => 0, _ => x / 2 }, x, ws[((x as u64 + j) % (j % 3 + 1)) as usize])).collect()) }
        let (a, b) = shapes[(j / k / k) as usize](n);
        (n, vec![(a.0, a.1, ws[(j / k % k) as usize]), (b.0, b.1, ws[(j % k) as usize])])
    } };
    let dec2 = dec.clone();
    idx(format!("text of graphs{}", if full { " of many constraints" } else if few { " of many instants" } else { "" }), if full { format!("chains, stars and trees of {sizes:?} instants") } else { format!("graphs of {sizes:?} instants with all {k}x{k} pairs of windows on 3 pairs of instants") }, per * sizes.len() as u64,
        move |i, rec| {
            let (n, cs) = dec(i);
            let mut net = Net::new(n as usize);
            let mut kept = vec![];
            for c in &cs { if c.0 == c.1 { continue } if let Some(m) = net.add_fast(*c) { net = m; kept.push(*c) } }
            let g = build(n, &kept);
            rec.st(i); rec.tr(2);
            // matrix of the least distances
            let d = format!("{g:?}");
            let rows: Vec<&str> = d.lines().filter(|l| !l.is_empty()).collect();
            ensure!(rows.len() == n as usize, "debug '{d}': {} rows", rows.len());
            for (a, r) in rows.iter().enumerate() {
                let r = r.strip_prefix('[').and_then(|r| r.strip_suffix(']')).ok_or(format!("debug row '{r}'"))?;
                let w: Vec<&str> = r.split_whitespace().collect();
                ensure!(w.len() == n as usize, "debug '{d}': {} columns", w.len());
                for (b, x) in w.iter().enumerate() { let want = show(net.span(a, b).0); let want = if fin(net.span(a, b).0) { net.span(a, b).0.to_string() } else { want }; ensure!(*x == want, "debug '{d}': {x} from {a} to {b} instead of {want}") }
            }
            // one line for each constraint
            let s = g.to_string();
            let lines: Vec<&str> = s.lines().collect();
            let ks: Vec<_> = g.iter().collect();
            ensure!(lines.len() == ks.len() + 2, "display '{s}': {} lines for {} constraints", lines.len(), ks.len());
            ensure!(lines[0] == format!("[graph with {n} instants]") && lines[lines.len() - 1] == format!("[with {} constraints]", ks.len()), "display '{s}'");
            for (l, c) in lines[1..].iter().zip(&ks) {
                let (a, b) = (c.from(), c.to());
                let w = one(net.span(a as usize, b as usize));
                let body = l.strip_prefix(&format!("   t{b} - t{a} in ")).ok_or(format!("display line '{l}' for {a}->{b}"))?;
                chk_text("graph", body, &w, TimeValue::display_bound)?;
                chk_text("constraint", c.to_string().strip_prefix(&format!("t{b} - t{a} in ")).ok_or(format!("constraint text '{c}'"))?, &w, TimeValue::display_bound)?;
                let t = format!("{c:?}");
                chk_text("constraint debug", t.strip_prefix(&format!("({a}->{b})=")).ok_or(format!("constraint debug '{t}'"))?, &w, TimeValue::debug_bound)?;
                chk_text("format_timeset", &c.format_timeset(""), &w, TimeValue::format_bound)?;
                rec.tr(3);
            }
            Ok(())
        },
        move |i| { let (n, cs) = dec2(i); format!("{n} instants, {}", super::graph::show_cons(&cs)) })
}
pub fn structures(th: bool) -> Fams {
    let c = if th { 9 } else { 6 };
    vec![sched_text(0, c), sched_text(1, c), sched_text(2, c), sched_text_many(th), graph_text(vec![2, 3, 5, 12], false, false), graph_text((4..=40).chain([63, 64, 65, 99, 100, 101, 128]).collect(), true, false),
        graph_text((3..=24).chain([33, 46, 47, 64, 65]).chain([130, 260].into_iter().filter(|_| th)).collect(), true, true)]
}
