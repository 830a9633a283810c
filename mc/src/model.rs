//! Reference models: sets of ticks as interval lists or as bit masks over a partition of the time
//! line into cells, durations as i128, and the bridges to the types of the crate under test.
use crate::engine::*;
use chronologic::*;
use std::fmt::{Debug, Display};

pub const INF: i64 = i64::MAX;
/// closed interval of ticks; -INF / INF mean unbounded
pub type Iv = (i64, i64);

pub trait Pt: TimePoint + TimeConvex + TimeBounds<TimePoint = Self> + Debug + Display + Send + Sync + std::hash::Hash + Default + TimePointFormat + 'static {
    const NAME: &'static str;
    fn of(t: i64) -> Self;
    fn tk(&self) -> i64;
}
impl Pt for TimeValue {
    const NAME: &'static str = "duration";
    #[inline] fn of(t: i64) -> Self { TimeValue::from_ticks(t) }
    #[inline] fn tk(&self) -> i64 { self.as_ticks() }
}
impl Pt for Timestamp {
    const NAME: &'static str = "date";
    #[inline] fn of(t: i64) -> Self { Timestamp::from_origin(TimeValue::from_ticks(t)) }
    #[inline] fn tk(&self) -> i64 { self.since_origin().as_ticks() }
}
#[inline] pub fn tv(t: i64) -> TimeValue { TimeValue::from_ticks(t) }

// ------------------------------------------------------------ scalars
/// exact value clipped to the representable range
pub fn clip(x: i128) -> i64 { if x >= INF as i128 { INF } else if x <= -(INF as i128) { -INF } else { x as i64 } }
pub fn fin(t: i64) -> bool { t != INF && t != -INF }
/// sum of two extended values, None for opposite infinities
pub fn xadd(a: i64, b: i64) -> Option<i64> {
    match (fin(a), fin(b)) {
        (true, true) => Some(clip(a as i128 + b as i128)),
        (true, false) => Some(b),
        (false, true) => Some(a),
        _ => if a == b { Some(a) } else { None },
    }
}
pub fn show(t: i64) -> String { match t { INF => "+oo".into(), x if x == -INF => "-oo".into(), x => x.to_string() } }
pub fn show_iv(i: Iv) -> String { format!("[{},{}]", show(i.0), show(i.1)) }
pub fn show_ps(p: &[Iv]) -> String {
    if p.is_empty() { "{}".into() } else { p.iter().map(|i| show_iv(*i)).collect::<Vec<_>>().join("U") }
}

// ------------------------------------------------------------ interval lists
/// sorted, non-empty, at least one missing tick between pieces
pub fn canon(mut v: Vec<Iv>) -> Vec<Iv> {
    v.retain(|i| i.0 <= i.1 && i.0 != INF && i.1 != -INF);
    v.sort();
    let mut r: Vec<Iv> = vec![];
    for i in v {
        match r.last_mut() {
            Some(l) if l.1 == INF || i.0 == -INF || i.0 <= l.1 + 1 => { l.1 = l.1.max(i.1) }
            _ => r.push(i),
        }
    }
    r
}
pub fn p_union(a: &[Iv], b: &[Iv]) -> Vec<Iv> { canon(a.iter().chain(b).copied().collect()) }
pub fn p_inter(a: &[Iv], b: &[Iv]) -> Vec<Iv> {
    let mut v = vec![];
    for x in a { for y in b { let i = (x.0.max(y.0), x.1.min(y.1)); if i.0 <= i.1 { v.push(i) } } }
    canon(v)
}
pub fn p_compl(a: &[Iv]) -> Vec<Iv> {
    let (mut v, mut lo, mut open) = (vec![], -INF, true);
    for i in a {
        if i.0 != -INF { v.push((lo, i.0 - 1)) }
        if i.1 == INF { open = false } else { lo = i.1 + 1 }
    }
    if open { v.push((lo, INF)) }
    canon(v)
}
pub fn p_neg(a: &[Iv]) -> Vec<Iv> { canon(a.iter().map(|i| (-i.1, -i.0)).collect()) }
/// all sums of an element of a and an element of b
pub fn p_sum(a: &[Iv], b: &[Iv]) -> Vec<Iv> {
    let mut v = vec![];
    let lo = |x: i64, y: i64| if x == -INF || y == -INF { -INF } else { clip(x as i128 + y as i128) };
    let hi = |x: i64, y: i64| if x == INF || y == INF { INF } else { clip(x as i128 + y as i128) };
    for x in a { for y in b { v.push((lo(x.0, y.0), hi(x.1, y.1))) } }
    canon(v)
}
pub fn p_diff(a: &[Iv], b: &[Iv]) -> Vec<Iv> { p_sum(a, &p_neg(b)) }
pub fn p_has(a: &[Iv], t: i64) -> bool { a.iter().any(|i| i.0 <= t && t <= i.1) }
pub fn p_subset(b: &[Iv], a: &[Iv]) -> bool { p_inter(a, b) == b }
pub fn p_hash(p: &[Iv]) -> u64 { let mut w = vec![]; for i in p { w.push(i.0); w.push(i.1) } hash_words(&w) }

// ------------------------------------------------------------ bridges
pub fn iv_of<T: Pt>(i: Iv) -> TimeInterval<T> { if i.0 > i.1 { TimeInterval::empty() } else { TimeInterval::new(T::of(i.0), T::of(i.1)) } }
pub fn set_of<T: Pt>(p: &[Iv]) -> TimeSet<T> { p.iter().map(|i| iv_of::<T>(*i)).collect() }
/// the pieces exactly as held
pub fn raw<T: Pt>(s: &TimeSet<T>) -> Vec<Iv> { s.into_iter().map(|i| (i.lower_bound().tk(), i.upper_bound().tk())).collect() }
pub fn raw_iv<T: Pt>(i: &TimeInterval<T>) -> Iv { (i.lower_bound().tk(), i.upper_bound().tk()) }
#[inline]
pub fn same<T: Pt>(s: &TimeSet<T>, want: &[Iv]) -> bool {
    let mut w = want.iter();
    for i in s { match w.next() { Some(x) if x.0 == i.lower_bound().tk() && x.1 == i.upper_bound().tk() => {} _ => return false } }
    w.next().is_none()
}
/// the set must hold exactly the wanted pieces (canonical list, hence also canonical form)
#[inline]
pub fn chk_set<T: Pt>(what: &str, s: &TimeSet<T>, want: &[Iv]) -> R {
    if same(s, want) { Ok(()) } else { Err(format!("{what} gives {} instead of {}", show_ps(&raw(s)), show_ps(want))) }
}
/// the interval must hold exactly the wanted dates
#[inline]
pub fn chk_iv<T: Pt>(what: &str, i: &TimeInterval<T>, want: Iv) -> R {
    if want.0 > want.1 {
        if i.is_empty() && i.convex_count() == 0 && TimeWindow::iter(i).next().is_none() { Ok(()) }
        else { Err(format!("{what} gives {} instead of the empty window", show_iv(raw_iv(i)))) }
    } else if raw_iv(i) == want && !i.is_empty() { Ok(()) }
    else { Err(format!("{what} gives {} instead of {}", show_iv(raw_iv(i)), show_iv(want))) }
}
pub fn one(i: Iv) -> Vec<Iv> { if i.0 > i.1 { vec![] } else { vec![i] } }
pub fn iv_inter(a: Iv, b: Iv) -> Iv { let i = (a.0.max(b.0), a.1.min(b.1)); if i.0 > i.1 { EMPTY } else { i } }
pub const EMPTY: Iv = (INF, -INF);

// ------------------------------------------------------------ grids
/// partition of the time line into cells; a set of cells (bit mask) is a time window
pub struct Grid { pub name: String, pub cells: Vec<Iv>, pub pieces: Vec<Vec<Iv>> }
impl Grid {
    /// boundaries b1<...<bm: cells ]-oo,b1-1], [b1,b2-1], ..., [bm,+oo[
    pub fn new(name: &str, b: &[i64]) -> Grid {
        assert!(b.windows(2).all(|w| w[0] < w[1]), "grid {name}");
        let mut cells = vec![(-INF, b[0] - 1)];
        for w in b.windows(2) { cells.push((w[0], w[1] - 1)) }
        cells.push((b[b.len() - 1], INF));
        let n = cells.len();
        let pieces = if n <= 16 { (0..1u64 << n).map(|m| cut(&cells, m)).collect() } else { vec![] };
        Grid { name: name.into(), cells, pieces }
    }
    pub fn n(&self) -> usize { self.cells.len() }
    pub fn masks(&self) -> u64 { 1 << self.n() }
    pub fn full(&self) -> u64 { if self.n() == 64 { !0 } else { (1 << self.n()) - 1 } }
    pub fn p(&self, m: u64) -> &[Iv] { &self.pieces[m as usize] }
    pub fn cut(&self, m: u64) -> Vec<Iv> { cut(&self.cells, m) }
    /// every interval of whole cells, the empty one included
    pub fn intervals(&self) -> Vec<Iv> {
        let mut v = vec![EMPTY];
        for i in 0..self.n() { for j in i..self.n() { v.push((self.cells[i].0, self.cells[j].1)) } }
        v
    }
    /// ticks around all the boundaries and both infinities
    pub fn probes(&self) -> Vec<i64> {
        let mut v = vec![-INF, INF];
        for c in &self.cells[1..] { for d in -1..=1 { v.push(c.0 + d) } }
        v.sort(); v.dedup(); v
    }
}
fn cut(cells: &[Iv], m: u64) -> Vec<Iv> {
    let mut r: Vec<Iv> = vec![];
    let mut prev = false;
    for (k, c) in cells.iter().enumerate() {
        let on = m >> k & 1 == 1;
        if on { if prev { r.last_mut().unwrap().1 = c.1 } else { r.push(*c) } }
        prev = on;
    }
    r
}
pub const S1: i64 = 1 << 30;
/// boundaries of the three standard grids, cut to the wanted number of cells
pub fn std_grid(kind: usize, cells: usize) -> Grid {
    let n = cells as i64 - 1;
    let (name, b): (&str, Vec<i64>) = match kind {
        0 => ("unit ticks", (0..n).map(|k| k - n / 2).collect()),
        1 => ("mixed gaps", { let g = [1, 3, 1, 2, 1, 1, 5, 2, 1, 7, 1, 4, 2, 9, 1, 3]; let mut x = -(n * 2); (0..n).map(|k| { x += g[k as usize % 16]; x }).collect() }),
        3 => ("powers of two", { // the most important bounds first
            let p = |k: u32| 1i64 << k;
            let mut x = vec![p(32), p(32) + 1, -p(61), p(53) + 1, -p(32), 0, p(61) + 1, -p(31) - 1, p(31), -p(53), p(16), -p(62) + 1, p(8), -p(15), p(63 - 1) - 3, 1, -p(62) + 2, p(62) - 2];
            x.truncate(n as usize); x.sort(); x
        }),
        _ => ("days and seconds", { let g = [86400 * S1, S1, 1, 3600 * S1 + 7, 1, 2, 60 * S1, 12345, 1, 31 * 86400 * S1]; let mut x = -(40 * 86400 * S1); (0..n).map(|k| { x += g[k as usize % 10]; x }).collect() }),
    };
    Grid::new(name, &b)
}
/// regular and irregular patterns over many cells: windows made of many pieces
pub fn comb_masks(n: usize) -> Vec<u64> {
    let full: u64 = if n == 64 { !0 } else { (1 << n) - 1 };
    let mut v = vec![0, full];
    for period in 2..=6usize { for width in 1..period { for phase in 0..period {
        let mut m = 0u64;
        for k in 0..n { if (k + phase) % period < width { m |= 1 << k } }
        v.push(m);
        v.push(m & (full >> (n / 3)));
        v.push(m & (full << (n / 2)) & full);
        v.push(m | 1 | 1 << (n - 1));
    } } }
    // patterns with a single bridge or a single hole
    let alt = (0..n).filter(|k| k % 2 == 1).fold(0u64, |m, k| m | 1 << k);
    for k in (0..n).step_by(3) { v.push(alt | 1 << k); v.push(alt & !(1 << k)); v.push(full & !(1 << k)); v.push(1 << k); }
    v.sort(); v.dedup(); v
}

/// Runs the body once per way of writing the given interval as a convex window of the crate
/// (interval, inclusive / exclusive / half ranges, point); `$what` is the name of the form
#[macro_export]
macro_rules! with_forms {
    ($t:ty, $iv:expr, |$x:ident, $what:ident| $body:block) => {{
        let (lo, hi): (i64, i64) = $iv;
        let inf = $crate::model::INF;
        if lo > hi {
            { let $x = TimeInterval::<$t>::empty(); let $what = "empty()"; $body }
            { let $x = <$t>::of(5)..<$t>::of(5); let $what = "5..5"; $body }
            { let $x = <$t>::of(7)..=<$t>::of(3); let $what = "7..=3"; $body }
            { let $x = <$t>::of(7)..<$t>::of(-2); let $what = "7..-2"; $body }
        } else {
            { let $x = TimeInterval::new(<$t>::of(lo), <$t>::of(hi)); let $what = "interval"; $body }
            { let $x = <$t>::of(lo)..=<$t>::of(hi); let $what = "a..=b"; $body }
            { let $x = <$t>::of(lo)..<$t>::of(if hi == inf { hi } else { hi + 1 }); let $what = "a..b"; $body }
            if hi == inf { let $x = <$t>::of(lo)..; let $what = "a.."; $body }
            if lo == -inf {
                { let $x = ..=<$t>::of(hi); let $what = "..=b"; $body }
                { let $x = ..<$t>::of(if hi == inf { hi } else { hi + 1 }); let $what = "..b"; $body }
            }
            if lo == hi { let $x = <$t>::of(lo); let $what = "point"; $body }
        }
    }};
}

// ------------------------------------------------------------ extreme ticks
/// least and greatest finite tick
pub const TMIN: i64 = -(INF - 1);
pub const TMAX: i64 = INF - 1;
/// windows around the ends of the tick range, bounded at the very last tick or unbounded
pub fn extreme_sets() -> Vec<Vec<Iv>> {
    let g = Grid::new("extreme ticks", &[TMIN + 1, TMIN + 2, TMIN + 5, 0, TMAX - 5, TMAX - 1, TMAX]);
    let mut v = vec![];
    for p in &g.pieces {
        for close in 0..4 {
            let mut q = p.clone();
            if close & 1 == 1 { if let Some(f) = q.first_mut() { if f.0 == -INF { f.0 = TMIN } } }
            if close & 2 == 2 { if let Some(l) = q.last_mut() { if l.1 == INF { l.1 = TMAX } } }
            v.push(q);
        }
    }
    v.sort(); v.dedup(); v
}
/// same finite dates, written in one way
pub fn norm(p: &[Iv]) -> Vec<Iv> {
    canon(p.iter().map(|i| (if i.0 == TMIN { -INF } else { i.0 }, if i.1 == TMAX { INF } else { i.1 })).collect())
}
/// proper pieces holding the wanted finite dates
pub fn chk_norm(what: &str, got: &[Iv], want: &[Iv]) -> R {
    let proper = got.iter().all(|i| i.0 <= i.1 && i.0 != INF && i.1 != -INF);
    // one model piece for one piece: sorted, apart from one another
    let flat: Vec<Iv> = got.iter().map(|i| (if i.0 == TMIN { -INF } else { i.0 }, if i.1 == TMAX { INF } else { i.1 })).collect();
    if proper && flat == norm(want) { Ok(()) } else { Err(format!("{what} gives {} instead of {}", show_ps(got), show_ps(want))) }
}
