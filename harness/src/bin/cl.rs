//! Parallel clustering (C16, C17): the real clusterer on threads whose atomic operations are
//! interleaved by a scheduler (instrumented atomics, --cfg gaoya_verif), and on rayon.
use conform::tr::*;
use gaoya::clustering::clusterer_parallel::*;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::MinHashIndex;
#[cfg(gaoya_verif)]
use gaoya::verif::{set_hook, Event};
/// Without the instrumented atomics the threads run freely.
#[cfg(not(gaoya_verif))]
#[allow(dead_code)]
enum Event { Access(usize), Drop(usize), Lock(usize), Blocked(usize) }
#[cfg(not(gaoya_verif))]
fn set_hook(_: fn(Event)) {}
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ memory: no address is reused while a run is under way
struct Keep;
static KEEP: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for Keep {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if KEEP.load(Ordering::Relaxed) && l.size() >= 16 && l.size() <= 128 { return; }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Keep = Keep;

// ------------------------------------------------------------------ scheduler
#[derive(Clone, Debug)]
enum Policy { Random(usize), Priority(Vec<usize>, Vec<usize>), Script(Vec<usize>), Segments(Vec<(usize, usize)>) }
struct Sched { active: bool, n: usize, running: usize, done: Vec<bool>, steps: usize, seg: usize, left: usize, policy: Policy, rng: Rng,
               log: Vec<u8>, dropped: HashSet<usize>, uaf: bool, abort: bool, last: Instant, jitter: bool }
static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
thread_local! { static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }
const FAIR_AFTER: usize = 20_000;
const STEP_LIMIT: usize = 400_000;

impl Sched {
    fn alive(&self) -> Vec<usize> { (0..self.n).filter(|t| !self.done[*t]).collect() }
    fn choose(&mut self, me: Option<usize>) -> usize {
        let alive = self.alive();
        if alive.is_empty() { return usize::MAX; }
        let stay = me.filter(|m| alive.contains(m));
        if self.steps > FAIR_AFTER { let i = self.rng.below(alive.len()); return alive[i]; }
        match &mut self.policy {
            Policy::Random(k) => { let k = *k; if let Some(m) = stay { if !self.rng.chance(1, k) { return m; } } let i = self.rng.below(alive.len()); alive[i] }
            Policy::Priority(prio, changes) => {
                if changes.contains(&self.steps) { if let Some(m) = me { let low = *prio.iter().min().unwrap(); prio[m] = low.wrapping_sub(1); } }
                *alive.iter().max_by_key(|t| prio[**t] as isize).unwrap()
            }
            Policy::Script(s) => {
                while self.seg < s.len() { let t = s[self.seg]; self.seg += 1; if alive.contains(&t) { return t; } }
                stay.unwrap_or(alive[0])
            }
            Policy::Segments(s) => {
                while self.seg < s.len() {
                    let (t, k) = s[self.seg];
                    if self.left >= k || !alive.contains(&t) { self.seg += 1; self.left = 0; continue; }
                    self.left += 1;
                    return t;
                }
                stay.unwrap_or(alive[0])
            }
        }
    }
}
fn hook(ev: Event) {
    let me = TID.with(|t| t.get());
    let mut g = SCHED.lock().unwrap();
    let s = match g.as_mut() { Some(s) if s.active => s, _ => return };
    match ev {
        Event::Drop(a) => { s.dropped.insert(a); }
        Event::Access(a) | Event::Lock(a) | Event::Blocked(a) => {
            // behaviours of the specification have no steps for locks
            if matches!(ev, Event::Lock(_)) && matches!(s.policy, Policy::Script(_)) { return; }
            if s.jitter {           // free running threads: only watch, and shake the timing a little
                if s.dropped.contains(&a) { s.uaf = true; }
                let k = s.rng.below(8);
                drop(g);
                if k == 0 { std::thread::yield_now() } else if k == 1 { for _ in 0..200 { std::hint::spin_loop() } }
                return;
            }
            if me == usize::MAX { return; }
            s.steps += 1;
            s.last = Instant::now();
            if s.steps > STEP_LIMIT { s.abort = true; }
            if s.abort { CV.notify_all(); drop(g); panic!("step limit"); }
            let mut next = s.choose(Some(me));
            if matches!(ev, Event::Blocked(_)) && next == me { let v: Vec<usize> = s.alive().into_iter().filter(|t| *t != me).collect(); if !v.is_empty() { let i = s.rng.below(v.len()); next = v[i]; } }
            if s.log.len() < 4000 { s.log.push(next as u8); }
            s.running = next;
            if next != me { CV.notify_all(); }
            g = wait_turn(g, me);
            let s = g.as_mut().unwrap();
            if s.abort { drop(g); panic!("step limit"); }
            if s.dropped.contains(&a) { s.uaf = true; }
        }
    }
}
fn wait_turn(mut g: std::sync::MutexGuard<'static, Option<Sched>>, me: usize) -> std::sync::MutexGuard<'static, Option<Sched>> {
    loop {
        let s = g.as_mut().unwrap();
        if s.running == me || s.abort || cfg!(not(gaoya_verif)) { s.last = Instant::now(); return g; }
        // the thread whose turn it is may be blocked by a lock that another one holds
        if s.last.elapsed() > Duration::from_millis(300) { s.running = me; continue; }
        g = CV.wait_timeout(g, Duration::from_millis(100)).unwrap().0;
    }
}
fn start(n: usize, policy: Policy, seed: u64, jitter: bool) {
    let mut s = Sched { active: true, n, running: 0, done: vec![false; n], steps: 0, seg: 0, left: 0, policy, rng: Rng::new(seed), log: vec![], dropped: HashSet::new(), uaf: false, abort: false, last: Instant::now(), jitter };
    s.running = s.choose(None);
    *SCHED.lock().unwrap() = Some(s);
    KEEP.store(true, Ordering::SeqCst);
}
fn stop() -> Sched {
    KEEP.store(false, Ordering::SeqCst);
    SCHED.lock().unwrap().take().unwrap()
}

// ------------------------------------------------------------------ sessions
type P = ClusterPoint<usize>;
struct Table { points: Vec<P>, adj: Vec<Vec<usize>> }
impl QueryIndex for Table {
    type Id = P;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> { self.adj[id.id].iter().map(|q| &self.points[*q]).collect() }
}
struct Live { boxes: Vec<Box<Cluster<usize>>> }
fn plus(v: &[usize]) -> Vec<usize> { v.iter().map(|x| x + 1).collect() }
fn report(live: &mut Live, points: &[P], order: &[usize], min: usize, adj: &[Vec<usize>], threads: usize, how: &str, uaf: bool, cls: Vec<Box<Cluster<usize>>>) {
    let cl: Vec<String> = cls.iter().map(|c| format!("[{},{}]", c.cluster_id, arr(&c.points.iter().map(|p| p.id + 1).collect::<Vec<_>>()))).collect();
    live.boxes.extend(cls);
    let own: Vec<i64> = points.iter().map(|p| { let x = p.get_cluster(); if x.is_null() { 0 } else {
        live.boxes.iter().find(|b| &***b as *const Cluster<usize> == x as *const Cluster<usize>).map(|b| b.cluster_id as i64).unwrap_or(-1) } }).collect();
    let adj: Vec<Vec<usize>> = adj.iter().map(|r| plus(r)).collect();
    emit(format!("{{\"op\":\"par\",\"n\":{},\"min\":{},\"threads\":{},\"order\":{},\"adj\":{},\"cls\":{},\"own\":{},\"uaf\":{},\"how\":\"{}\"}}", points.len(), min, threads, arr(&plus(order)), arr2(&adj), arr(&cl), arr(&own), uaf as usize, how));
}
/// One run of Clusterer::cluster on several threads, each with its own part of the points.
fn scheduled(c: &Clusterer<u32, usize>, live: &mut Live, t: &Table, chunks: &[Vec<usize>], min: usize, policy: Policy, seed: u64, calls: usize) -> bool {
    let n = chunks.len();
    let how: String = match &policy { Policy::Random(k) => format!("random 1/{}", k), Policy::Priority(_, ch) => format!("priority changes {:?}", ch), Policy::Script(_) => "behaviour of ClusterPar".into(), Policy::Segments(s) => format!("segments {:?}", s) };
    start(n, policy, seed, false);
    let r = call("parallel cluster", || {
        let res: Vec<Result<Vec<Box<Cluster<usize>>>, ()>> = std::thread::scope(|sc| {
            let hs: Vec<_> = chunks.iter().enumerate().map(|(i, ch)| {
                let mut v: Vec<P> = ch.iter().map(|p| t.points[*p].clone()).collect();
                sc.spawn(move || {
                    TID.with(|t| t.set(i));
                    drop(wait_turn(SCHED.lock().unwrap(), i));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        // in one call, or in several
                        let size = v.len().div_ceil(calls).max(1);
                        let mut all = vec![];
                        if calls == 1 { all.extend(c.cluster(&mut v, t)) } else { for part in v.chunks(size) { all.extend(c.cluster(&mut part.to_vec(), t)) } }
                        all
                    }));
                    TID.with(|t| t.set(usize::MAX));
                    let mut g = SCHED.lock().unwrap();
                    let s = g.as_mut().unwrap();
                    s.done[i] = true;
                    s.last = Instant::now();
                    if s.running == i { s.running = s.choose(None); }
                    CV.notify_all();
                    r.map_err(|_| ())
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        res
    });
    let s = stop();
    let order: Vec<usize> = chunks.iter().flatten().copied().collect();
    let bad = r.is_err() || r.as_ref().unwrap().iter().any(|x| x.is_err());
    if bad { emit_panic(if s.abort { "parallel cluster: no end in 400000 steps" } else { "parallel cluster" }); return false; }
    let mut cls = vec![];
    for x in r.unwrap() { cls.extend(x.unwrap()); }
    let log: String = s.log.iter().take(400).map(|x| (b'0' + x) as char).collect();
    report(live, &t.points, &order, min, &t.adj, n, &format!("{}, {} calls each; threads by step: {}", how, calls, log), s.uaf, cls);
    true
}
fn table(adj: Vec<Vec<usize>>) -> Table { Table { points: (0..adj.len()).map(|i| P::new(ClusterPointInner::new(i))).collect(), adj } }
fn random_adj(rng: &mut Rng, n: usize, num: usize, den: usize, sym: bool) -> Vec<Vec<usize>> {
    let mut m = vec![vec![false; n]; n];
    for i in 0..n { m[i][i] = true; for j in 0..n { if i != j && rng.chance(num, den) { m[i][j] = true; if sym { m[j][i] = true; } } } }
    m.iter().map(|r| (0..n).filter(|j| r[*j]).collect()).collect()
}
fn split(rng: &mut Rng, order: &[usize], k: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]; k];
    let mut cuts: Vec<usize> = (1..k).map(|_| rng.below(order.len() + 1)).collect();
    cuts.sort();
    let mut j = 0;
    for (i, p) in order.iter().enumerate() { while j < k - 1 && i >= cuts[j] { j += 1; } v[j].push(*p); }
    v
}
fn policy(rng: &mut Rng, k: usize, points: usize) -> Policy {
    match rng.below(4) {
        0 => Policy::Random(1), 1 => Policy::Random(rng.range(2, 6)),
        2 => { let mut p: Vec<usize> = (0..k).map(|i| 100 + i).collect(); rng.shuffle(&mut p); let len = 10 * points + 10; Policy::Priority(p, (0..rng.range(1, 5)).map(|_| rng.range(1, len)).collect()) }
        _ => { let mut t = rng.below(k); Policy::Segments((0..rng.range(2, 6)).map(|_| { t = (t + 1 + rng.below(k.max(2) - 1)) % k; (t, rng.range(1, 5 * points + 8)) }).collect()) }
    }
}
fn fixed(adj: Vec<Vec<usize>>, min: usize, chunks: Vec<Vec<usize>>, p: Policy, seed: u64) {
    emit("{\"op\":\"new\"}".into());
    let t = table(adj);
    let c: Clusterer<u32, usize> = Clusterer::new(min, chunks.len());
    let mut live = Live { boxes: vec![] };
    scheduled(&c, &mut live, &t, &chunks, min, p, seed, 1);
    end_session();
}
fn on_rayon(rng: &mut Rng, minhash_runs: usize) {
    emit("{\"op\":\"new\"}".into());
    let min = rng.range(1, 4);
    let threads = *rng.pick(&[1usize, 1, 2, 3, 4, 8, 16]);
    let c: Clusterer<u32, usize> = Clusterer::new(min, threads);
    let (b, w) = (rng.range(1, 4), rng.range(1, 3));
    let mut index: MinHashIndex<u32, P> = MinHashIndex::new(b, w, *rng.pick(&[0.3, 0.5, 0.75, 1.0]));
    let mut points: Vec<P> = vec![];
    let mut live = Live { boxes: vec![] };
    let wide = rng.chance(1, 12);
    let alpha = if wide { rng.range(3, 9) } else { 3 };
    for _ in 0..rng.range(1, minhash_runs) {
        for _ in 0..(if wide { rng.range(20, 60) } else { *rng.pick(&[0usize, 1, 2, 3, 5, 8, 14]) }) {
            let p = P::new(ClusterPointInner::new(points.len()));
            index.insert(p.clone(), (0..b * w).map(|_| rng.below(alpha) as u32).collect());
            points.push(p);
        }
        let adj: Vec<Vec<usize>> = points.iter().map(|p| { let mut v: Vec<usize> = QueryIndex::query(&index, p).into_iter().map(|q| q.id).collect(); v.sort(); v }).collect();
        let mut o: Vec<usize> = (0..points.len()).collect();
        rng.shuffle(&mut o);
        let mut v: Vec<P> = o.iter().map(|i| points[*i].clone()).collect();
        start(0, Policy::Random(1), rng.next(), true);
        let workers = *rng.pick(&[1usize, 2, 4, 8]);
        let r = call("cluster_par", || with_threads(workers, || c.cluster_par(&mut v, &index)));
        let s = stop();
        match r {
            Ok(cls) => report(&mut live, &points, &o, min, &adj, threads, &format!("cluster_par n_threads {} on {} workers", threads, workers), s.uaf, cls),
            Err(w) => { emit_panic(&w); break; }
        }
    }
    end_session();
}
/// hundreds of points, some groups large, in a real MinHash index
fn crowd(rng: &mut Rng) {
    emit("{\"op\":\"new\"}".into());
    let min = *rng.pick(&[1usize, 2, 5, 40, 260]);
    let threads = *rng.pick(&[1usize, 1, 2, 3, 7, 16, 64, 1000]);
    let c: Clusterer<u32, usize> = Clusterer::new(min, threads);
    let mut index: MinHashIndex<u32, P> = MinHashIndex::new(3, 2, 0.5);
    let mut points: Vec<P> = vec![];
    let mut live = Live { boxes: vec![] };
    for _ in 0..rng.range(1, 2) {
        let groups: Vec<usize> = match rng.below(3) { 0 => vec![300, 30, 7], 1 => (0..330).map(|i| 1 + (i % 97 == 0) as usize * 20).collect(), _ => (0..90).map(|_| rng.range(1, 9)).collect() };
        for g in groups {
            let base: Vec<u32> = (0..6).map(|_| rng.next() as u32).collect();
            for _ in 0..g {
                let p = P::new(ClusterPointInner::new(points.len()));
                let mut s = base.clone(); if rng.chance(1, 4) { let i = rng.below(6); s[i] = rng.below(4) as u32; }
                index.insert(p.clone(), s);
                points.push(p);
            }
        }
        let adj: Vec<Vec<usize>> = points.iter().map(|p| { let mut v: Vec<usize> = QueryIndex::query(&index, p).into_iter().map(|q| q.id).collect(); v.sort(); v }).collect();
        let mut o: Vec<usize> = (0..points.len()).collect();
        rng.shuffle(&mut o);
        let mut v: Vec<P> = o.iter().map(|i| points[*i].clone()).collect();
        start(0, Policy::Random(1), rng.next(), true);
        let workers = *rng.pick(&[1usize, 2, 4, 8]);
        let r = call("cluster_par", || with_threads(workers, || c.cluster_par(&mut v, &index)));
        let s = stop();
        match r {
            Ok(cls) => report(&mut live, &points, &o, min, &adj, threads, &format!("cluster_par n_threads {} on {} workers", threads, workers), s.uaf, cls),
            Err(w) => { emit_panic(&w); break; }
        }
    }
    end_session();
}
fn alone(rng: &mut Rng) {
    emit("{\"op\":\"new\"}".into());
    // beyond 20 points sorting is no longer insertion sort; sparse relations give many ties
    let big = rng.chance(1, 6);
    let n = if big { rng.range(18, 70) } else { rng.range(0, 9) };
    let (num, sym) = (rng.range(if big { 1 } else { 0 }, 7), rng.chance(2, 3));
    let t = table(random_adj(rng, n, num, if big { 60 } else { 8 }, sym));
    let min = rng.range(1, 4);
    let c: Clusterer<u32, usize> = Clusterer::new(min, 1);
    let mut live = Live { boxes: vec![] };
    for k in 0..rng.range(1, 2) {
        let mut o: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut o);
        if k == 0 { o.truncate(rng.range(0, n)); }
        if !scheduled(&c, &mut live, &t, &[o], min, Policy::Random(1), 1, 1) { break; }
    }
    end_session();
}
/// Very many points: every class of similar points is one signature; the trace numbers the points so
/// that every class is an interval.
fn classes(rng: &mut Rng, sizes: &[usize], min: usize, threads: usize) {
    let n: usize = sizes.iter().sum();
    let mut name: Vec<usize> = (0..n).collect(); rng.shuffle(&mut name);
    let mut pos = vec![0; n]; for (i, x) in name.iter().enumerate() { pos[*x] = i + 1; }
    let mut index: MinHashIndex<u32, P> = MinHashIndex::new(2, 1, 0.5);
    let points: Vec<P> = (0..n).map(|i| P::new(ClusterPointInner::new(i))).collect();
    let (mut ends, mut at) = (vec![], 0);
    for (k, g) in sizes.iter().enumerate() { for x in &name[at..at + g] { index.insert(points[*x].clone(), vec![k as u32, !(k as u32)]); } at += g; ends.push(at); }
    let mut v: Vec<_> = name.iter().map(|x| points[*x].clone()).collect();
    if n < 60_000 { rng.shuffle(&mut v); }       // or class by class
    let c: Clusterer<u32, usize> = Clusterer::new(min, threads);
    emit("{\"op\":\"new\"}".into());
    start(0, Policy::Random(1), rng.next(), true);
    let r = call("cluster_par", || with_threads(8, || c.cluster_par(&mut v, &index)));
    let s = stop();
    match r {
        Ok(cls) => {
            let cl: Vec<String> = cls.iter().map(|c| format!("[{},{}]", c.cluster_id, arr(&c.points.iter().map(|p| pos[p.id]).collect::<Vec<_>>()))).collect();
            let at: std::collections::HashMap<usize, i64> = cls.iter().map(|b| (&**b as *const Cluster<usize> as usize, b.cluster_id as i64)).collect();
            let own: Vec<i64> = name.iter().map(|x| { let p = points[*x].get_cluster(); if p.is_null() { 0 } else { at.get(&(p as usize)).copied().unwrap_or(-1) } }).collect();
            emit(format!("{{\"op\":\"classes\",\"n\":{},\"min\":{},\"threads\":{},\"uaf\":{},\"ends\":{},\"cls\":{},\"own\":{}}}", n, min, threads, s.uaf as usize, arr(&ends), arr(&cl), arr(&own)));
        }
        Err(w) => emit_panic(&w),
    }
    end_session();
}
/// The time for scheduled runs is over (code that parks threads in locks makes them slow).
fn late() -> bool { static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new(); T.get_or_init(Instant::now).elapsed() > Duration::from_secs(400) }
fn main() {
    let a = Args::get();
    init(&a.out, a.shards);
    set_hook(hook);
    let mut rng = Rng::new(a.seed ^ 0x1616);
    let ints = |x: &serde_json::Value, d: usize| -> Vec<usize> { x.as_array().unwrap().iter().map(|y| y.as_u64().unwrap() as usize - d).collect() };
    if let Some(f) = &a.script {
        for (i, l) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            if late() { break; }
            let v: serde_json::Value = serde_json::from_str(l).unwrap();
            let adj: Vec<Vec<usize>> = v["adj"].as_array().unwrap().iter().map(|r| ints(r, 1)).collect();
            let min = v["min"].as_u64().unwrap() as usize;
            if v.get("sched").is_some() {
                let chunks: Vec<Vec<usize>> = v["chunks"].as_array().unwrap().iter().map(|r| ints(r, 1)).collect();
                // the clusterer first counts the similar points of its chunk, which takes no atomic operation
                fixed(adj, min, chunks, Policy::Script(ints(&v["sched"], 1)), i as u64);
            } else if v.get("segments").is_some() {
                let chunks: Vec<Vec<usize>> = v["chunks"].as_array().unwrap().iter().map(|r| ints(r, 1)).collect();
                let seg = v["segments"].as_array().unwrap().iter().map(|r| { let x = ints(r, 0); (x[0] - 1, x[1]) }).collect();
                fixed(adj, min, chunks, Policy::Segments(seg), i as u64);
            } else {
                fixed(adj, min, vec![ints(&v["order"], 1)], Policy::Random(1), 1);
            }
        }
    }
    for _ in 0..a.count {
        if late() { break; }
        emit("{\"op\":\"new\"}".into());
        let n = rng.range(2, 8);
        let (num, sym) = (rng.range(2, 8), rng.chance(3, 4));
        let t = table(random_adj(&mut rng, n, num, 8, sym));
        let min = rng.range(1, 4);
        let k = rng.range(2, 4);
        let c: Clusterer<u32, usize> = Clusterer::new(min, k);
        let mut live = Live { boxes: vec![] };
        for _ in 0..rng.range(1, 2) {
            let mut o: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut o);
            if rng.chance(1, 3) { o.truncate(rng.range(1, n)); }
            let (chunks, p, seed) = (split(&mut rng, &o, k), policy(&mut rng, k, n), rng.next());
            let calls = if rng.chance(1, 2) { 1 } else { rng.range(2, 3) };
            if !scheduled(&c, &mut live, &t, &chunks, min, p, seed, calls) { break; }
        }
        end_session();
    }
    for (threads, n) in [(3usize, 5000usize), (7, 9001)] {
        let mut sizes = vec![]; let mut left = n;
        while left > 0 { let g = rng.range(1, 4).min(left); sizes.push(g); left -= g; }
        classes(&mut rng, &sizes, 1, threads);
    }
    for threads in [1usize, 4] {
        classes(&mut rng, &[2500, 3, 1, 600, 1, 70], 3, threads);
        classes(&mut rng, &vec![1; 4000], 1, threads);
        if a.profile == "C17" { let mut sizes = vec![4; 16_400]; sizes[0] = 5; sizes.push(2); classes(&mut rng, &sizes, 2, threads); }
        let sizes: Vec<usize> = (0..900).map(|_| rng.range(1, 12)).collect();
        classes(&mut rng, &sizes, 6, threads);
    }
    for _ in 0..a.count / 150 { crowd(&mut rng); }
    for _ in 0..a.count / 4 { alone(&mut rng); }
    for _ in 0..a.count / 4 { on_rayon(&mut rng, 3); }
    finish();
    std::process::exit(0);
}
