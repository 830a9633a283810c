//! Exhaustive exploration engine: parallel enumeration of index spaces, breadth-first search of
//! operation histories, breadcrumbs for crash/hang attribution, statistics.
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

pub type R<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

// ---------------------------------------------------------------- fast hash
#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(x)); } }
    fn write_u64(&mut self, x: u64) { let h = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15); self.0 = h ^ (h >> 32); }
    fn write_i64(&mut self, x: i64) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
}
pub type FxSet<T> = HashSet<T, BuildHasherDefault<Fx>>;
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub fn hash_words(w: &[i64]) -> u64 { let mut h = Fx::default(); for x in w { h.write_i64(*x) } h.finish() }

// ---------------------------------------------------------------- per-thread record
#[derive(Default)]
pub struct Rec {
    /// calls of the implementation compared with the model
    pub transitions: u64,
    /// hashes of the distinct model states met (operands and results)
    pub states: FxSet<u64>,
    pub samples: Vec<String>,
}
impl Rec {
    #[inline] pub fn tr(&mut self, n: u64) { self.transitions += n }
    #[inline] pub fn st(&mut self, s: u64) { self.states.insert(s); }
}

// ---------------------------------------------------------------- breadcrumbs
pub const SLOT_WORDS: usize = 64;
pub const MAX_SLOTS: usize = 64;
extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
pub fn limit_memory(bytes: u64) { unsafe { setrlimit(9, &[bytes, bytes]); setrlimit(4, &[0, 0]); } }
/// shared page of breadcrumbs: slot = [seq, len, case words...]; seq odd while a case is running
#[derive(Clone, Copy)]
pub struct Slots(*mut u64);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
    pub fn map(path: &str) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slots");
        f.set_len((SLOT_WORDS * MAX_SLOTS * 8) as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), SLOT_WORDS * MAX_SLOTS * 8, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Slots(p as *mut u64)
    }
    #[inline] fn at(&self, s: usize, w: usize) -> *mut u64 { unsafe { self.0.add(s * SLOT_WORDS + w) } }
    #[inline] pub fn begin(&self, s: usize, fam: u64, case: &[u64]) {
        unsafe {
            self.at(s, 1).write_volatile(case.len() as u64 + 1);
            self.at(s, 2).write_volatile(fam);
            for (i, c) in case.iter().enumerate().take(SLOT_WORDS - 4) { self.at(s, 3 + i).write_volatile(*c) }
            let q = self.at(s, 0).read_volatile();
            self.at(s, 0).write_volatile(q.wrapping_add(1) | 1);
        }
    }
    #[inline] pub fn end(&self, s: usize) { unsafe { let q = self.at(s, 0).read_volatile(); self.at(s, 0).write_volatile((q | 1).wrapping_add(1)); } }
    pub fn read(&self, s: usize) -> (u64, Vec<u64>) {
        unsafe {
            let q = self.at(s, 0).read_volatile();
            let n = (self.at(s, 1).read_volatile() as usize).min(SLOT_WORDS - 2);
            (q, (0..n).map(|i| self.at(s, 2 + i).read_volatile()).collect())
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation { pub family: u64, pub case: Vec<u64>, pub msg: String }

#[derive(Default, Clone)]
pub struct FamStat { pub name: String, pub cases: u64, pub states: u64, pub transitions: u64, pub bound: String, pub samples: Vec<String> }

thread_local! { static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| p.set(Some(format!("{m}{l}"))));
    }));
}
/// runs f, turning a panic into an Err
pub fn guard<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.take()).unwrap_or_default())),
    }
}
/// does f panic?
pub fn panics<T>(f: impl FnOnce() -> T) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

pub struct Engine {
    pub slots: Slots,
    pub threads: usize,
    pub known: Vec<String>,
    pub stop: AtomicBool,
    pub viols: Mutex<Vec<Violation>>,
    pub known_hits: Mutex<HashMap<String, (u64, String)>>,
    pub stats: Mutex<Vec<FamStat>>,
}
impl Engine {
    pub fn new(slots: Slots, threads: usize, known: Vec<String>) -> Self {
        Engine { slots, threads, known, stop: AtomicBool::new(false), viols: Mutex::new(vec![]), known_hits: Default::default(), stats: Mutex::new(vec![]) }
    }
    pub fn report(&self, family: u64, case: &[u64], msg: String) {
        if let Some(k) = self.known.iter().find(|k| msg.contains(k.as_str())) {
            let mut h = self.known_hits.lock().unwrap();
            let e = h.entry(k.clone()).or_insert((0, msg));
            e.0 += 1;
            return;
        }
        self.stop.store(true, Relaxed);
        self.viols.lock().unwrap().push(Violation { family, case: case.to_vec(), msg });
    }
    /// runs `f` on every index of 0..n, in parallel; returns merged records
    pub fn par<F, D>(&self, family: u64, n: u64, f: F, done: D)
        where F: Fn(u64, &mut Rec, usize) + Sync, D: Fn(Rec) + Sync
    {
        let _ = family;
        let next = AtomicU64::new(0);
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 4096);
        std::thread::scope(|s| {
            for t in 0..self.threads {
                let (f, done, next) = (&f, &done, &next);
                s.spawn(move || {
                    let mut rec = Rec::default();
                    while !self.stop.load(Relaxed) {
                        let b = next.fetch_add(chunk, Relaxed);
                        if b >= n { break; }
                        for i in b..(b + chunk).min(n) { f(i, &mut rec, t); }
                    }
                    done(rec);
                });
            }
        });
    }
}

// ---------------------------------------------------------------- families
pub trait Family: Sync + Send {
    fn name(&self) -> String;
    fn bound(&self) -> String;
    fn explore(&self, id: u64, e: &Engine);
    /// runs one case from scratch (replay); the last element of the result is a description
    fn replay(&self, case: &[u64]) -> R;
    fn describe(&self, case: &[u64]) -> String;
}

/// An index space 0..n: each index is one tuple of operands
pub struct Idx {
    pub name: String,
    pub bound: String,
    pub n: u64,
    pub f: Box<dyn Fn(u64, &mut Rec) -> R + Sync + Send>,
    pub d: Box<dyn Fn(u64) -> String + Sync + Send>,
}
pub fn idx(name: impl Into<String>, bound: impl Into<String>, n: u64,
           f: impl Fn(u64, &mut Rec) -> R + Sync + Send + 'static,
           d: impl Fn(u64) -> String + Sync + Send + 'static) -> Box<dyn Family> {
    Box::new(Idx { name: name.into(), bound: bound.into(), n, f: Box::new(f), d: Box::new(d) })
}
impl Family for Idx {
    fn name(&self) -> String { self.name.clone() }
    fn bound(&self) -> String { self.bound.clone() }
    fn explore(&self, id: u64, e: &Engine) {
        let stat = Mutex::new(FamStat { name: self.name.clone(), bound: self.bound.clone(), ..Default::default() });
        let states = Mutex::new(FxSet::<u64>::default());
        let cases = AtomicU64::new(0);
        e.par(id, self.n, |i, rec, t| {
            e.slots.begin(t, id, &[i]);
            let r = guard(|| (self.f)(i, rec));
            e.slots.end(t);
            if let Err(m) = r { e.report(id, &[i], format!("{}: {}", (self.d)(i), m)); }
            cases.fetch_add(1, Relaxed);
        }, |rec| {
            let mut s = states.lock().unwrap();
            if s.is_empty() { *s = rec.states } else { s.extend(rec.states) }
            stat.lock().unwrap().transitions += rec.transitions;
        });
        let mut st = stat.into_inner().unwrap();
        st.cases = cases.into_inner();
        st.states = states.into_inner().unwrap().len() as u64;
        if self.n > 0 { for k in [0, self.n / 2, self.n - 1] { st.samples.push((self.d)(k)); } }
        e.stats.lock().unwrap().push(st);
    }
    fn replay(&self, case: &[u64]) -> R {
        guard(|| (self.f)(case[0], &mut Rec::default())).map_err(|m| format!("{}: {}", (self.d)(case[0]), m))
    }
    fn describe(&self, case: &[u64]) -> String { (self.d)(case[0]) }
}

/// A state machine whose transitions are real API calls compared with a model
pub trait Machine: Sync + Send + 'static {
    type S: Clone + Send + Sync;
    fn inits(&self) -> usize;
    fn init(&self, i: usize) -> Self::S;
    fn ops(&self) -> usize;
    fn op_name(&self, op: usize) -> String;
    fn init_name(&self, i: usize) -> String;
    /// executes the operation on a copy and checks it; Ok(None): not applicable here
    fn step(&self, s: &Self::S, op: usize, rec: &mut Rec) -> R<Option<Self::S>>;
    /// whole observable content (used to recognise states already expanded)
    fn key(&self, s: &Self::S) -> Vec<i64>;
}
pub struct Bfs<M: Machine> { pub name: String, pub bound: String, pub m: M, pub depth: usize, pub dedup: bool }
pub fn bfs<M: Machine>(name: impl Into<String>, bound: impl Into<String>, m: M, depth: usize, dedup: bool) -> Box<dyn Family> {
    Box::new(Bfs { name: name.into(), bound: bound.into(), m, depth, dedup })
}
impl<M: Machine> Bfs<M> {
    fn hist(&self, case: &[u64]) -> String {
        let mut s = format!("from {}", self.m.init_name(case[0] as usize));
        for o in &case[1..] { s += "; "; s += &self.m.op_name(*o as usize); }
        s
    }
}
impl<M: Machine> Family for Bfs<M> {
    fn name(&self) -> String { self.name.clone() }
    fn bound(&self) -> String { format!("{}, depth {}{}", self.bound, self.depth, if self.dedup { ", deduplicated on observable state" } else { ", every history" }) }
    fn explore(&self, id: u64, e: &Engine) {
        let mut st = FamStat { name: self.name.clone(), bound: self.bound(), ..Default::default() };
        let seen: Vec<Mutex<FxSet<Vec<i64>>>> = (0..256).map(|_| Mutex::new(Default::default())).collect();
        let fresh = |k: Vec<i64>| -> bool { let h = (hash_words(&k) >> 20) as usize % 256; seen[h].lock().unwrap().insert(k) };
        let all_states = Mutex::new(FxSet::<u64>::default());
        let (trans, cases) = (AtomicU64::new(0), AtomicU64::new(0));
        let mut frontier: Vec<(M::S, Vec<u64>)> = vec![];
        for i in 0..self.m.inits() {
            e.slots.begin(0, id, &[i as u64]);
            let r = guard(|| { let s = self.m.init(i); let k = self.m.key(&s); Ok((s, k)) });
            e.slots.end(0);
            match r {
                Ok((s, k)) => { if fresh(k) { frontier.push((s, vec![i as u64])) } }
                Err(msg) => { e.report(id, &[i as u64], format!("init {}: {}", self.m.init_name(i), msg)); return; }
            }
        }
        let nops = self.m.ops() as u64;
        for d in 1..=self.depth {
            let nf = frontier.len() as u64;
            if nf == 0 { break; }
            let next = Mutex::new(vec![]);
            let last = d == self.depth;
            e.par(id, nf, |i, rec, t| {
                let (s, path) = &frontier[i as usize];
                let mut case = path.clone();
                case.push(0);
                let mut out = vec![];
                for op in 0..nops {
                    if e.stop.load(Relaxed) { return; }
                    *case.last_mut().unwrap() = op;
                    e.slots.begin(t, id, &case);
                    let r = guard(|| self.m.step(s, op as usize, rec).map(|o| o.map(|n| { let k = self.m.key(&n); (n, k) })));
                    e.slots.end(t);
                    match r {
                        Err(msg) => e.report(id, &case, format!("{}: {}", self.hist(&case), msg)),
                        Ok(Some((n, k))) => {
                            cases.fetch_add(1, Relaxed);
                            rec.st(hash_words(&k));
                            if !last && (!self.dedup || fresh(k)) { out.push((n, case.clone())); }
                        }
                        Ok(None) => {}
                    }
                }
                if !out.is_empty() { next.lock().unwrap().append(&mut out); }
            }, |rec| {
                trans.fetch_add(rec.transitions, Relaxed);
                all_states.lock().unwrap().extend(rec.states);
            });
            if e.stop.load(Relaxed) { break; }
            frontier = next.into_inner().unwrap();
            frontier.sort_by(|a, b| a.1.cmp(&b.1));
            if let Some((_, p)) = frontier.get(frontier.len() / 2) { st.samples.push(self.hist(p)); }
        }
        st.cases = cases.into_inner();
        st.transitions = trans.into_inner();
        st.states = all_states.into_inner().unwrap().len() as u64;
        e.stats.lock().unwrap().push(st);
    }
    fn replay(&self, case: &[u64]) -> R {
        guard(|| {
            let mut s = self.m.init(case[0] as usize);
            let mut rec = Rec::default();
            for (k, op) in case[1..].iter().enumerate() {
                match self.m.step(&s, *op as usize, &mut rec)? {
                    Some(n) => { self.m.key(&n); s = n }
                    None => return Err(format!("replay diverged: step {k} not applicable")),
                }
            }
            Ok(())
        }).map_err(|m| format!("{}: {}", self.hist(case), m))
    }
    fn describe(&self, case: &[u64]) -> String { self.hist(case) }
}

/// long histories: whole sequences of operations, checked at every step
pub fn runs<M: Machine>(name: impl Into<String>, bound: impl Into<String>, m: M, paths: Vec<(usize, Vec<usize>)>) -> Box<dyn Family> {
    let (m, paths) = (std::sync::Arc::new(m), std::sync::Arc::new(paths));
    let (m2, p2) = (m.clone(), paths.clone());
    let longest = paths.iter().map(|p| p.1.len()).max().unwrap_or(0);
    idx(name, format!("{}, {} histories of up to {longest} operations", bound.into(), paths.len()), paths.len() as u64,
        move |i, rec| {
            let (init, ops) = &paths[i as usize];
            let mut s = m.init(*init);
            for (k, op) in ops.iter().enumerate() {
                match guard(|| m.step(&s, *op, rec)) {
                    Ok(Some(n)) => s = n,
                    Ok(None) => {}
                    Err(e) => return Err(format!("operation {}, {}: {e}", k + 1, m.op_name(*op))),
                }
            }
            Ok(())
        },
        move |i| { let (init, ops) = &p2[i as usize]; format!("history {i} from {}: {}; {}; {}...", m2.init_name(*init), m2.op_name(ops[0]), m2.op_name(ops[1]), m2.op_name(ops[2])) })
}
/// orders in which all of `n` operations are done: one after the other with several strides
pub fn strides(n: usize, max: usize) -> Vec<Vec<usize>> {
    let gcd = |mut a: usize, mut b: usize| { while b > 0 { (a, b) = (b, a % b) } a };
    (1..n).filter(|s| gcd(*s, n) == 1).take(max).flat_map(|s| [0, n / 3, 2 * n / 3].into_iter().map(move |r| (0..n).map(|k| (r + k * s) % n).collect())).collect()
}
