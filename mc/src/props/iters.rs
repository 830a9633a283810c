//! C03 lazy iterators
use super::Fams;
use crate::engine::*;
use crate::model::*;
use crate::ensure;
use chronologic::iter::*;
use chronologic::*;
use std::sync::Arc;

/// walks the iterator to its end: pieces, size hints at every step, and silence afterwards
pub fn walk<T: Pt, I: Iterator<Item = TimeInterval<T>>>(what: &str, mut it: I, want: &[Iv], rec: &mut Rec) -> R {
    let n = want.len();
    rec.tr(n as u64 + 1);
    for k in 0..=n {
        let h = it.size_hint();
        ensure!(h.0 <= n - k && h.1.map(|m| m >= n - k).unwrap_or(true), "{what}: size_hint is {h:?} with {} pieces to come out of {}", n - k, show_ps(want));
        match (it.next(), want.get(k)) {
            (Some(x), Some(w)) => ensure!(raw_iv(&x) == *w && !x.is_empty(), "{what}: piece {k} is {} instead of {} ({})", show_iv(raw_iv(&x)), show_iv(*w), show_ps(want)),
            (None, None) => {}
            (Some(x), None) => return Err(format!("{what}: extra piece {} after {}", show_iv(raw_iv(&x)), show_ps(want))),
            (None, Some(w)) => return Err(format!("{what}: ends before {} of {}", show_iv(*w), show_ps(want))),
        }
    }
    for _ in 0..4 {
        ensure!(it.next().is_none(), "{what}: yields again after its end ({})", show_ps(want));
        let h = it.size_hint();
        ensure!(h.0 == 0, "{what}: size_hint is {h:?} after its end ({})", show_ps(want));
    }
    Ok(())
}
/// every way of consuming an iterator, after every number of steps, gives what stepping gives
pub fn consume<I: Iterator, K: PartialEq + Clone + std::fmt::Debug>(what: &str, mk: impl Fn() -> I, key: impl Fn(I::Item) -> K + Copy, want: &[K], rec: &mut Rec) -> R {
    let n = want.len();
    let stride = 1 + n / 12;
    for k in (0..=n + 1).filter(|k| k % stride == 0 || *k < 3 || *k + 2 > n) {
        let at = || { let mut it = mk(); for _ in 0..k { it.next(); } it };
        let rest = &want[k.min(n)..];
        rec.tr(8);
        let h = at().size_hint();
        ensure!(h.0 <= rest.len() && h.1.is_none_or(|m| m >= rest.len()), "{what} after {k} steps: size_hint is {h:?} with {} to come", rest.len());
        let c = at().count();
        ensure!(c == rest.len(), "{what} after {k} steps: count is {c} instead of {}", rest.len());
        let l = at().last().map(key);
        ensure!(l.as_ref() == rest.last(), "{what} after {k} steps: last is {l:?} instead of {:?}", rest.last());
        let f = at().fold(vec![], |mut v, x| { v.push(key(x)); v });
        ensure!(f == rest, "{what} after {k} steps: folding gives {f:?} instead of {rest:?}");
        let mut e = vec![];
        at().for_each(|x| e.push(key(x)));
        ensure!(e == rest, "{what} after {k} steps: for_each gives {e:?} instead of {rest:?}");
        let v: Vec<K> = at().map(key).collect();
        ensure!(v == rest, "{what} after {k} steps: collecting gives {v:?} instead of {rest:?}");
        let mut p = at();
        let pos = p.position(|_| rest.len() == 1);
        ensure!(pos == (rest.len() == 1).then_some(0), "{what} after {k} steps: position");
        let st: Vec<K> = at().step_by(2).map(key).collect();
        ensure!(st.iter().eq(rest.iter().step_by(2)), "{what} after {k} steps: every second one: {st:?} of {rest:?}");
        for j in (0..=rest.len() + 1).filter(|j| j % stride == 0 || *j < 2) {
            let mut it = at();
            let x = it.nth(j).map(key);
            rec.tr(3);
            ensure!(x.as_ref() == rest.get(j), "{what} after {k} steps: nth({j}) is {x:?} instead of {:?}", rest.get(j));
            let left = rest.len().saturating_sub(j + 1);
            let h = it.size_hint();
            ensure!(h.0 <= left && h.1.is_none_or(|m| m >= left), "{what} after {k} steps and nth({j}): size_hint is {h:?} with {left} to come");
            let y = it.next().map(key);
            ensure!(y.as_ref() == rest.get(j + 1), "{what} after {k} steps and nth({j}): next is {y:?} instead of {:?}", rest.get(j + 1));
            let c = it.count();
            ensure!(c == left.saturating_sub(1), "{what} after {k} steps, nth({j}) and next: count is {c} instead of {}", left.saturating_sub(1));
        }
    }
    Ok(())
}
fn key<T: Pt>(x: TimeInterval<T>) -> Iv { raw_iv(&x) }
pub fn two<T: Pt>(a: &TimeSet<T>, b: &TimeSet<T>, or: &[Iv], and: &[Iv], ex: &[Iv], rec: &mut Rec) -> R {
    walk("A union B", a.iter().union(b.iter()), or, rec)?;
    walk("A intersection B", a.iter().intersection(b.iter()), and, rec)?;
    walk("A exclusion B", a.iter().exclusion(b.iter()), ex, rec)
}
fn pairs<T: Pt>(kind: usize, cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(kind, cells));
    let sets: Arc<Vec<TimeSet<T>>> = Arc::new(g.pieces.iter().map(|p| set_of::<T>(p)).collect());
    let n = g.masks();
    let g2 = g.clone();
    idx(format!("two-operand iterators, {} ({})", T::NAME, g.name), format!("all {n}x{n} pairs of sets of {cells} cells, every step"), n * n,
        move |i, rec| {
            let (ma, mb) = (i / n, i % n);
            rec.st(ma | mb); rec.st(ma & mb);
            two(&sets[ma as usize], &sets[mb as usize], g.p(ma | mb), g.p(ma & mb), g.p(ma & !mb), rec)
        },
        move |i| format!("A={} B={}", show_ps(g2.p(i / n)), show_ps(g2.p(i % n))))
}
/// collects with the contract of `walk`, up to the way the ends of the range are written
fn walk_norm<T: Pt, I: Iterator<Item = TimeInterval<T>>>(what: &str, it: impl Fn() -> I, want: &[Iv], rec: &mut Rec) -> R {
    let got: Vec<Iv> = it().take(100).map(|i| raw_iv(&i)).collect();
    chk_norm(what, &got, want)?;
    walk(what, it(), &got, rec)
}
fn extreme<T: Pt>() -> Box<dyn Family> {
    let sets = Arc::new(extreme_sets());
    let n = sets.len() as u64;
    let s2 = sets.clone();
    idx(format!("iterators at the ends of the range, {}", T::NAME), format!("all {n}x{n} pairs of windows bounded by the extreme ticks or unbounded"), n * n,
        move |i, rec| {
            let (pa, pb) = (&sets[(i / n) as usize], &sets[(i % n) as usize]);
            let (a, b) = (set_of::<T>(pa), set_of::<T>(pb));
            let (na, nb) = (norm(pa), norm(pb));
            rec.st(i);
            walk_norm("A union B", || a.iter().union(b.iter()), &p_union(&na, &nb), rec)?;
            walk_norm("A intersection B", || a.iter().intersection(b.iter()), &p_inter(&na, &nb), rec)?;
            walk_norm("A exclusion B", || a.iter().exclusion(b.iter()), &p_inter(&na, &p_compl(&nb)), rec)?;
            if i % n == 0 { walk_norm("complementary", || a.iter().complementary(), &p_compl(&na), rec)? }
            Ok(())
        },
        move |i| format!("A={} B={}", show_ps(&s2[(i / n) as usize]), show_ps(&s2[(i % n) as usize])))
}
fn extreme_transl<T: Pt + std::ops::Add<TimeValue, Output = T>>() -> Box<dyn Family> {
    let (sets, spans) = (Arc::new(extreme_sets()), Arc::new(super::arith::edge_spans().into_iter().filter(|p| p.len() <= 1).collect::<Vec<_>>()));
    let (n, k) = (sets.len() as u64, spans.len() as u64);
    let (s2, p2) = (sets.clone(), spans.clone());
    idx(format!("translation iterators at the ends of the range, {}", T::NAME), format!("{n} windows bounded by the extreme ticks or unbounded by {k} spans"), n * k,
        move |i, rec| {
            let (p, q) = (&sets[(i / k) as usize], &spans[(i % k) as usize]);
            if !super::arith::stays(p, q) { return Ok(()) }
            let (s, want) = (set_of::<T>(p), p_sum(p, q));
            let span = iv_of::<TimeValue>(q.first().copied().unwrap_or(EMPTY));
            rec.st(p_hash(&want));
            walk("translation by span", s.iter().translation(&span), &want, rec)?;
            if span.is_singleton() { walk("translation by value", s.iter().translation(span.lower_bound()), &want, rec)? }
            Ok(())
        },
        move |i| format!("A={} span={}", show_ps(&s2[(i / k) as usize]), show_ps(&p2[(i % k) as usize])))
}
fn comb<T: Pt>(cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(1, cells));
    let masks = Arc::new(comb_masks(cells));
    let n = masks.len() as u64;
    let sets: Arc<Vec<TimeSet<T>>> = Arc::new(masks.iter().map(|m| set_of::<T>(&g.cut(*m))).collect());
    let (g2, m2) = (g.clone(), masks.clone());
    idx(format!("many-piece iterators, {}", T::NAME), format!("all pairs of {n} patterned sets of up to {} pieces", cells / 2), n * n,
        move |i, rec| {
            let (ka, kb) = ((i / n) as usize, (i % n) as usize);
            let (ma, mb) = (masks[ka], masks[kb]);
            rec.st(ma | mb);
            if kb == 0 {
                walk("complementary", sets[ka].iter().complementary(), &g.cut(!ma & g.full()), rec)?;
                consume("complementary", || sets[ka].iter().complementary(), key, &g.cut(!ma & g.full()), rec)?;
                consume("iter", || sets[ka].iter(), key, &g.cut(ma), rec)?;
            }
            if ka.abs_diff(kb) <= 2 {
                consume("union", || sets[ka].iter().union(sets[kb].iter()), key, &g.cut(ma | mb), rec)?;
                consume("intersection", || sets[ka].iter().intersection(sets[kb].iter()), key, &g.cut(ma & mb), rec)?;
            }
            two(&sets[ka], &sets[kb], &g.cut(ma | mb), &g.cut(ma & mb), &g.cut(ma & !mb), rec)
        },
        move |i| format!("A={} B={}", show_ps(&g2.cut(m2[(i / n) as usize])), show_ps(&g2.cut(m2[(i % n) as usize]))))
}
/// all operand types accepted by the iterator traits
fn forms<T: Pt>(kind: usize, cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(kind, cells));
    let ivs = Arc::new(g.intervals());
    let (n, k) = (g.masks(), ivs.len() as u64);
    let (g2, v2) = (g.clone(), ivs.clone());
    idx(format!("operand kinds, {} ({})", T::NAME, g.name), format!("all {n} sets of {cells} cells with all {k} intervals of cells in every accepted operand type"), n * k,
        move |i, rec| {
            let (pa, iv) = (g.p(i / k), ivs[(i % k) as usize]);
            let pb = one(iv);
            let (a, x) = (set_of::<T>(pa), iv_of::<T>(iv));
            let b: TimeSet<T> = x.into();
            let (or, and) = (p_union(pa, &pb), p_inter(pa, &pb));
            rec.st(p_hash(&or)); rec.st(p_hash(&and));
            walk("iter union interval", a.iter().union(x), &or, rec)?;
            walk("iter union &interval", a.iter().union(&x), &or, rec)?;
            walk("iter union set", a.iter().union(b.clone()), &or, rec)?;
            walk("iter union &set", a.iter().union(&b), &or, rec)?;
            walk("into_iter union into_iter", a.clone().into_iter().union(b.clone().into_iter()), &or, rec)?;
            walk("&set union interval iter", (&a).into_iter().union(x.into_iter()), &or, rec)?;
            walk("interval iter union &set", x.into_iter().union((&a).into_iter()), &or, rec)?;
            walk("interval iter() union iter", TimeWindow::iter(&x).union(a.iter()), &or, rec)?;
            walk("iter inter interval", a.iter().intersection(x), &and, rec)?;
            walk("iter inter &interval", a.iter().intersection(&x), &and, rec)?;
            walk("iter inter set", a.iter().intersection(b.clone()), &and, rec)?;
            walk("iter inter &set", a.iter().intersection(&b), &and, rec)?;
            walk("into_iter inter into_iter", a.clone().into_iter().intersection(b.clone().into_iter()), &and, rec)?;
            walk("&set inter interval iter", (&a).into_iter().intersection(x.into_iter()), &and, rec)?;
            walk("interval iter inter &set", x.into_iter().intersection((&a).into_iter()), &and, rec)?;
            walk("interval iter() exclusion set iter", x.into_iter().exclusion(a.iter()), &p_inter(&pb, &p_compl(pa)), rec)?;
            walk("complementary of interval", x.into_iter().complementary(), &p_compl(&pb), rec)?;
            walk("complementary of set", (&a).into_iter().complementary(), &p_compl(pa), rec)?;
            walk("double complementary", a.iter().complementary().complementary(), pa, rec)?;
            ranges::<T>(&a, iv, &or, &and, rec)
        },
        move |i| format!("A={} B={}", show_ps(g2.p(i / k)), show_iv(v2[(i % k) as usize])))
}
fn ranges<T: Pt>(a: &TimeSet<T>, iv: Iv, or: &[Iv], and: &[Iv], rec: &mut Rec) -> R {
    let (lo, hi) = iv;
    if lo > hi {
        walk("iter union 5..5", a.iter().union(T::of(5)..T::of(5)), or, rec)?;
        return walk("iter inter 7..=3", a.iter().intersection(T::of(7)..=T::of(3)), and, rec);
    }
    let ex = T::of(if hi == INF { INF } else { hi + 1 });
    walk("iter union a..b", a.iter().union(T::of(lo)..ex), or, rec)?;
    walk("iter inter a..b", a.iter().intersection(T::of(lo)..ex), and, rec)?;
    walk("iter union a..=b", a.iter().union(T::of(lo)..=T::of(hi)), or, rec)?;
    walk("iter inter a..=b", a.iter().intersection(T::of(lo)..=T::of(hi)), and, rec)?;
    if hi == INF {
        walk("iter union a..", a.iter().union(T::of(lo)..), or, rec)?;
        walk("iter inter a..", a.iter().intersection(T::of(lo)..), and, rec)?;
    }
    if lo == -INF {
        walk("iter union ..b", a.iter().union(..ex), or, rec)?;
        walk("iter inter ..b", a.iter().intersection(..ex), and, rec)?;
        walk("iter union ..=b", a.iter().union(..=T::of(hi)), or, rec)?;
        walk("iter inter ..=b", a.iter().intersection(..=T::of(hi)), and, rec)?;
    }
    Ok(())
}
/// chains of iterators over three operands
fn triples<T: Pt>(kind: usize, cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(kind, cells));
    let sets: Arc<Vec<TimeSet<T>>> = Arc::new(g.pieces.iter().map(|p| set_of::<T>(p)).collect());
    let n = g.masks();
    let full = g.full();
    let g2 = g.clone();
    idx(format!("chained iterators, {} ({})", T::NAME, g.name), format!("all triples of sets of {cells} cells in all chains of two operations"), n * n * n,
        move |i, rec| {
            let (ma, mb, mc) = (i / n / n, i / n % n, i % n);
            let (a, b, c) = (&sets[ma as usize], &sets[mb as usize], &sets[mc as usize]);
            rec.st(i);
            walk("(A|B)|C", a.iter().union(b.iter()).union(c.iter()), g.p(ma | mb | mc), rec)?;
            walk("(A|B)&C", a.iter().union(b.iter()).intersection(c.iter()), g.p((ma | mb) & mc), rec)?;
            walk("(A&B)|C", a.iter().intersection(b.iter()).union(c.iter()), g.p(ma & mb | mc), rec)?;
            walk("(A&B)&C", a.iter().intersection(b.iter()).intersection(c.iter()), g.p(ma & mb & mc), rec)?;
            walk("A|(B|C)", a.iter().union(b.iter().union(c.iter())), g.p(ma | mb | mc), rec)?;
            walk("A&(B|C)", a.iter().intersection(b.iter().union(c.iter())), g.p(ma & (mb | mc)), rec)?;
            walk("A|(B&C)", a.iter().union(b.iter().intersection(c.iter())), g.p(ma | mb & mc), rec)?;
            walk("(A-B)-C", a.iter().exclusion(b.iter()).exclusion(c.iter()), g.p(ma & !mb & !mc), rec)?;
            walk("A-(B|C)", a.iter().exclusion(b.iter().union(c.iter())), g.p(ma & !(mb | mc)), rec)?;
            walk("A-(B-C)", a.iter().exclusion(b.iter().exclusion(c.iter())), g.p(ma & !(mb & !mc)), rec)?;
            walk("!(A|B)&C", a.iter().union(b.iter()).complementary().intersection(c.iter()), g.p(!(ma | mb) & mc), rec)?;
            walk("!(A&B)|C", a.iter().intersection(b.iter()).complementary().union(c.iter()), g.p((!(ma & mb) & full) | mc), rec)
        },
        move |i| format!("A={} B={} C={}", show_ps(g2.p(i / n / n)), show_ps(g2.p(i / n % n)), show_ps(g2.p(i % n))))
}
/// standard adaptors keep the window-iterator contract
fn adaptors<T: Pt>(cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(0, cells));
    let n = g.masks();
    let g2 = g.clone();
    idx(format!("adapted iterators, {}", T::NAME), format!("all pairs of sets of {cells} cells, operand shortened by every standard adaptor"), n * n,
        move |i, rec| {
            let (pa, pb) = (g.p(i / n), g.p(i % n));
            let (a, b) = (set_of::<T>(pa), set_of::<T>(pb));
            rec.st(i);
            for k in 0..=pa.len().min(3) {
                let (sk, tk) = (&pa[k..], &pa[..k]);
                walk("skip union", a.iter().skip(k).union(b.iter()), &p_union(sk, pb), rec)?;
                walk("take intersection", a.iter().take(k).intersection(b.iter()), &p_inter(tk, pb), rec)?;
                walk("union skip", b.iter().union(a.iter().skip(k)), &p_union(sk, pb), rec)?;
                walk("complementary of take", a.iter().take(k).complementary(), &p_compl(tk), rec)?;
            }
            let st: Vec<Iv> = pa.iter().step_by(2).copied().collect();
            walk("step_by union", a.iter().step_by(2).union(b.iter()), &p_union(&st, pb), rec)?;
            let fi: Vec<Iv> = pa.iter().filter(|i| i.0 == i.1).copied().collect();
            walk("filter union", a.iter().filter(|i| i.is_singleton()).union(b.iter()), &p_union(&fi, pb), rec)?;
            walk("filter intersection", b.iter().intersection(a.iter().filter(|i| i.is_singleton())), &p_inter(&fi, pb), rec)?;
            let tw: Vec<Iv> = pa.iter().take_while(|i| i.1 < 0).copied().collect();
            let sw: Vec<Iv> = pa.iter().skip_while(|i| i.1 < 0).copied().collect();
            walk("take_while exclusion", b.iter().exclusion(a.iter().take_while(|i| i.upper_bound() < T::of(0))), &p_inter(pb, &p_compl(&tw)), rec)?;
            walk("skip_while union", a.iter().skip_while(|i| i.upper_bound() < T::of(0)).union(b.iter()), &p_union(&sw, pb), rec)?;
            walk("peekable intersection", a.iter().peekable().intersection(b.iter().inspect(|_| {})), &p_inter(pa, pb), rec)
        },
        move |i| format!("A={} B={}", show_ps(g2.p(i / n)), show_ps(g2.p(i % n))))
}
/// a window iterator of the user, which says nothing or little of its size
pub struct Mine<I> { it: I, hint: u8 }
impl<I: Iterator> Iterator for Mine<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.it.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { match self.hint { 0 => (0, None), 1 => (self.it.size_hint().0, None), 2 => (0, Some(usize::MAX)), _ => (0, self.it.size_hint().1.map(|m| m + 5)) } }
}
impl<I: TimeConvexIterator> TimeConvexIterator for Mine<I> { type TimePoint = I::TimePoint; }
/// a window iterator of the user which starts again once it has returned `None`
pub struct Again<T: TimePoint> { v: Vec<TimeInterval<T>>, k: usize }
impl<T: TimePoint> Iterator for Again<T> {
    type Item = TimeInterval<T>;
    fn next(&mut self) -> Option<Self::Item> {
        let x = self.v.get(self.k).copied();
        self.k = if x.is_some() { self.k + 1 } else { 0 };
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(self.v.len() - self.k)) }
}
impl<T: TimePoint> TimeConvexIterator for Again<T> { type TimePoint = T; }
fn mine<T: Pt + std::ops::Add<TimeValue, Output = T>>(cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(0, cells));
    let n = g.masks();
    let g2 = g.clone();
    idx(format!("iterators of the user, {}", T::NAME), format!("all pairs of sets of {cells} cells given by iterators announcing their size in 4 ways, or which resume after their end"), n * n * 4,
        move |i, rec| {
            let h = (i / n / n) as u8;
            let (ma, mb) = (i / n % n, i % n);
            let (a, b) = (set_of::<T>(g.p(ma)), set_of::<T>(g.p(mb)));
            rec.st(i);
            let my = || Mine { it: a.iter(), hint: h };
            let (or, and) = (g.p(ma | mb), g.p(ma & mb));
            walk("mine union", my().union(b.iter()), or, rec)?;
            walk("union mine", b.iter().union(my()), or, rec)?;
            walk("mine union mine", my().union(Mine { it: b.iter(), hint: 3 - h }), or, rec)?;
            walk("mine intersection", my().intersection(b.iter()), and, rec)?;
            walk("intersection mine", b.iter().intersection(my()), and, rec)?;
            walk("mine intersection mine", my().intersection(Mine { it: b.iter(), hint: 3 - h }), and, rec)?;
            walk("mine exclusion", my().exclusion(b.iter()), g.p(ma & !mb), rec)?;
            walk("exclusion mine", b.iter().exclusion(my()), g.p(mb & !ma), rec)?;
            rec.tr(1);
            ensure!(my().collect::<TimeSet<T>>() == a, "the set collected from mine differs");
            if h == 0 {
                // the end of a source is its end, even if this source could yield again
                let aa = || Again { v: a.iter().collect(), k: 0 };
                let bb = || Again { v: b.iter().collect(), k: 0 };
                walk("resuming union", aa().union(b.iter()), or, rec)?;
                walk("union resuming", b.iter().union(aa()), or, rec)?;
                walk("resuming union resuming", aa().union(bb()), or, rec)?;
                walk("resuming intersection", aa().intersection(b.iter()), and, rec)?;
                walk("intersection resuming", b.iter().intersection(aa()), and, rec)?;
                walk("resuming intersection resuming", aa().intersection(bb()), and, rec)?;
                walk("resuming exclusion resuming", aa().exclusion(bb()), g.p(ma & !mb), rec)?;
                if mb == 0 { walk("complementary of resuming", aa().complementary(), g.p(!ma & g.full()), rec)? }
            }
            if mb == 0 {
                walk("complementary of mine", my().complementary(), g.p(!ma & g.full()), rec)?;
                walk("translation of mine", my().translation(tv(3)), &p_sum(g.p(ma), &[(3, 3)]), rec)?;
            }
            Ok(())
        },
        move |i| format!("hint {} A={} B={}", i / n / n, show_ps(g2.p(i / n % n)), show_ps(g2.p(i % n))))
}
fn transl<T: Pt + std::ops::Add<TimeValue, Output = T>>(kind: usize, cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(kind, cells));
    let n = g.masks();
    let unit = if kind == 2 { S1 } else { 1 };
    let spans: Arc<Vec<Iv>> = Arc::new(vec![EMPTY, (-INF, INF), (0, 0), (unit, unit), (-3 * unit, -3 * unit), (0, 1), (-1, 0), (0, 2), (-unit, 2 * unit), (3, 5), (0, INF), (-INF, 0), (-2, INF), (-INF, 7), (0, 100 * unit)]);
    let k = spans.len() as u64;
    let (g2, s2) = (g.clone(), spans.clone());
    idx(format!("translation iterators, {} ({})", T::NAME, g.name), format!("all {n} sets of {cells} cells by {k} spans, alone and chained"), n * k,
        move |i, rec| {
            let (p, sp) = (g.p(i / k), spans[(i % k) as usize]);
            let s = set_of::<T>(p);
            let w = p_sum(p, &one(sp));
            rec.st(p_hash(&w));
            let span = iv_of::<TimeValue>(sp);
            walk("translation by span", s.iter().translation(&span), &w, rec)?;
            if i / k < 64 {
                consume("translation by span", || s.iter().translation(&span), key, &w, rec)?;
                if sp.0 == sp.1 { consume("translation by value", || s.iter().translation(tv(sp.0)), key, &w, rec)? }
            }
            walk("translation then complementary", s.iter().translation(&span).complementary(), &p_compl(&w), rec)?;
            walk("translation then intersection", s.iter().intersection(s.iter().translation(&span)), &p_inter(p, &w), rec)?;
            if sp.0 == sp.1 {
                walk("translation by value", s.iter().translation(tv(sp.0)), &w, rec)?;
                walk("translation by value then union", s.iter().translation(tv(sp.0)).union(s.iter()), &p_union(p, &w), rec)?;
                walk("complementary then translation", s.iter().complementary().translation(tv(sp.0)), &p_sum(&p_compl(p), &one(sp)), rec)?;
            }
            Ok(())
        },
        move |i| format!("A={} span={}", show_ps(g2.p(i / k)), show_iv(s2[(i % k) as usize])))
}
fn scale_want(p: &[Iv], f: impl Fn(i64) -> i64, neg: bool, zero: bool) -> Vec<Iv> {
    let g = |x: i64| if zero { 0 } else if fin(x) { f(x) } else if neg { -x } else { x };
    canon(p.iter().map(|i| if neg { (g(i.1), g(i.0)) } else { (g(i.0), g(i.1)) }).collect())
}
fn scaling(kind: usize, cells: usize) -> Box<dyn Family> {
    let g = Arc::new(std_grid(kind, cells));
    let n = g.masks();
    let ints = [-3i64, -2, -1, 0, 1, 2, 3, 5];
    let floats = [-1.5f64, -1.0, -0.5, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0];
    let k = (ints.len() + floats.len()) as u64;
    let g2 = g.clone();
    idx(format!("scaling iterators ({})", g.name), format!("all {n} sets of {cells} cells by {k} factors"), n * k,
        move |i, rec| {
            let p = g.p(i / k);
            let s = set_of::<TimeValue>(p);
            let x = (i % k) as usize;
            if x < ints.len() {
                let f = ints[x];
                let w = scale_want(p, |t| t * f, f < 0, f == 0);
                rec.st(p_hash(&w));
                walk("scaling i64", s.iter().scaling(f), &w, rec)?;
                if i / k < 64 { consume("scaling i64", || s.iter().scaling(f), key, &w, rec)? }
                walk("scaling i8", s.iter().scaling(f as i8), &w, rec)?;
                walk("scaling i128", (&s).into_iter().scaling(f as i128), &w, rec)?;
                if f >= 0 { walk("scaling u32", s.iter().scaling(f as u32), &w, rec)?; }
                walk("scaling then union", s.iter().scaling(f).union(s.iter()), &p_union(&w, p), rec)
            } else {
                let f = floats[x - ints.len()];
                let w = scale_want(p, |t| (t as f64 * f).trunc() as i64, f < 0., f == 0.);
                rec.st(p_hash(&w));
                walk("scaling f64", s.iter().scaling(f), &w, rec)?;
                if i / k < 64 { consume("scaling f64", || s.iter().scaling(f), key, &w, rec)? }
                if kind < 2 { walk("scaling f32", s.iter().scaling(f as f32), &w, rec)?; }
                walk("scaling then complementary", s.iter().scaling(f).complementary(), &p_compl(&w), rec)
            }
        },
        move |i| { let x = (i % k) as usize; format!("A={} factor {}", show_ps(g2.p(i / k)), if x < ints.len() { ints[x].to_string() } else { format!("{:?}", floats[x - ints.len()]) }) })
}
/// the lazy pieces collected are the eager result, and the iterator may be left and resumed
fn collect_eq<T: Pt>(cells: usize) -> Box<dyn Family>
    where TimeSet<T>: std::ops::Not<Output = TimeSet<T>>
{
    let g = Arc::new(std_grid(1, cells));
    let n = g.masks();
    let g2 = g.clone();
    idx(format!("lazy equals eager, {}", T::NAME), format!("all pairs of sets of {cells} cells, with nth / count / last / fold / for_each / step_by after every number of steps"), n * n,
        move |i, rec| {
            let (ma, mb) = (i / n, i % n);
            let (a, b) = (set_of::<T>(g.p(ma)), set_of::<T>(g.p(mb)));
            rec.st(ma | mb); rec.tr(6);
            ensure!(a.iter().union(b.iter()).collect::<TimeSet<T>>() == &a | &b, "lazy union differs from A|B");
            ensure!(a.iter().intersection(b.iter()).collect::<TimeSet<T>>() == &a & &b, "lazy intersection differs from A&B");
            ensure!(a.iter().exclusion(b.iter()).collect::<TimeSet<T>>() == &a & &!b.clone(), "lazy exclusion differs from A&!B");
            consume("union", || a.iter().union(b.iter()), key, g.p(ma | mb), rec)?;
            consume("intersection", || a.iter().intersection(b.iter()), key, g.p(ma & mb), rec)?;
            consume("exclusion", || a.iter().exclusion(b.iter()), key, g.p(ma & !mb), rec)?;
            if mb % 16 == 0 {
                consume("union by value", || a.clone().into_iter().union(b.clone()), key, g.p(ma | mb), rec)?;
                consume("exclusion of a union", || a.iter().exclusion(a.iter().union(b.iter())), key, &[], rec)?;
                consume("complementary of a union", || a.iter().union(b.iter()).complementary(), key, g.p(!(ma | mb) & g.full()), rec)?;
            }
            if mb == 0 {
                consume("iter", || a.iter(), key, g.p(ma), rec)?;
                consume("into_iter", || a.clone().into_iter(), key, g.p(ma), rec)?;
                consume("&set into_iter", || (&a).into_iter(), key, g.p(ma), rec)?;
                consume("complementary", || a.iter().complementary(), key, g.p(!ma & g.full()), rec)?;
                consume("complementary of &set", || (&a).into_iter().complementary(), key, g.p(!ma & g.full()), rec)?;
                consume("double complementary", || a.iter().complementary().complementary(), key, g.p(ma), rec)?;
            }
            Ok(())
        },
        move |i| format!("A={} B={}", show_ps(g2.p(i / n)), show_ps(g2.p(i % n))))
}
pub fn c03(th: bool) -> Fams {
    let mut v: Fams = vec![
        extreme::<TimeValue>(), extreme::<Timestamp>(), extreme_transl::<TimeValue>(), extreme_transl::<Timestamp>(),
        forms::<TimeValue>(0, 8), forms::<Timestamp>(1, 8), forms::<Timestamp>(2, 7),
        pairs::<TimeValue>(0, 11), pairs::<Timestamp>(1, 10), pairs::<TimeValue>(3, 9), pairs::<Timestamp>(3, 9), forms::<TimeValue>(3, 8),
        triples::<TimeValue>(0, 6), triples::<Timestamp>(1, 5),
        adaptors::<TimeValue>(8), mine::<TimeValue>(7), mine::<Timestamp>(6), collect_eq::<Timestamp>(8),
        transl::<TimeValue>(0, 10), transl::<Timestamp>(1, 12), transl::<Timestamp>(2, 10), transl::<TimeValue>(3, 10), transl::<Timestamp>(3, 10),
        scaling(0, 11), scaling(1, 11), scaling(2, 9),
        comb::<TimeValue>(40), comb::<Timestamp>(64),
    ];
    if th {
        v.push(pairs::<TimeValue>(1, 13)); v.push(pairs::<Timestamp>(0, 13));
        v.push(triples::<TimeValue>(1, 8)); v.push(forms::<TimeValue>(1, 11)); v.push(adaptors::<Timestamp>(10)); v.push(mine::<Timestamp>(9));
        v.push(scaling(1, 15)); v.push(transl::<TimeValue>(1, 15));
    }
    v
}
