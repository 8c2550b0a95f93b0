//! Several indexes side by side, used by several threads (C25). Every index gets its own session in the
//! trace: changes in the order in which they were made, answers between the changes they lie between.
use conform::tr::*;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::*;
use gaoya::simhash::*;
use std::collections::{BTreeSet, HashMap};
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Barrier, Mutex, RwLock};

trait Bits: SimHashBits + Send + Sync { fn of(x: u128) -> Self; }
impl Bits for u64 { fn of(x: u128) -> u64 { x as u64 } }
impl Bits for u128 { fn of(x: u128) -> u128 { x } }

#[derive(Clone, Debug)]
enum Change { Insert(usize, usize), Bulk(Vec<(usize, usize)>, bool), Remove(usize), BulkRemove(Vec<usize>), Clear, Shrink }
#[derive(Clone, Debug)]
enum Ask { Set(usize), One(usize), Sims(usize), TopK(usize, usize), ById(usize), Obs, Bulk(Vec<usize>), Cent(Vec<usize>) }

/// What the two kinds of index have in common; answers are lines of the trace.
trait Ix: Send + Sync { fn change(&mut self, c: &Change) -> String; fn ask(&self, a: &Ask) -> String; fn header(&self) -> String; }

fn need(thr: f64, n: usize) -> usize { (0..=n).find(|&m| (m as f64) / (n as f64) >= thr).unwrap_or(n + 1) }
fn as_count(sim: f64, n: usize) -> i64 { let m = (sim * n as f64).round(); if m >= 0.0 && (sim - m / n as f64).abs() < 1e-9 { m as i64 } else { -1 } }

struct Min<T: MinHashType, C: IdContainer<u64>> { idx: MinHashIndex<T, u64, C>, b: usize, r: usize, thr: f64, pool: Vec<Vec<usize>>, sigs: Vec<Vec<T>>, ids: Vec<u64> }
impl<T: MinHashType + 'static, C: IdContainer<u64>> Min<T, C> {
    fn new(b: usize, r: usize, thr: f64, pool: &[Vec<usize>], vals: &[T], ids: &[u64]) -> Self {
        Min { idx: MinHashIndex::new_index(b, r, thr), b, r, thr, pool: pool.to_vec(), sigs: pool.iter().map(|p| p.iter().map(|c| vals[*c]).collect()).collect(), ids: ids.to_vec() }
    }
    fn lab(&self, id: &u64) -> i64 { self.ids.iter().position(|x| x == id).map(|x| x as i64).unwrap_or(-7) }
    fn sl(&self, v: &Vec<T>) -> i64 { self.sigs.iter().position(|x| x == v).map(|x| x as i64 + 1).unwrap_or(-1) }
    fn set<'a>(&self, it: impl Iterator<Item = &'a u64>) -> String { let mut v: Vec<i64> = it.map(|i| self.lab(i)).collect(); v.sort(); arr(&v) }
}
impl<T: MinHashType + 'static, C: IdContainer<u64>> Ix for Min<T, C> {
    fn header(&self) -> String {
        format!("{{\"op\":\"new\",\"tab\":false,\"b\":{},\"r\":{},\"need\":{},\"thr\":\"{}\",\"pool\":{},\"match\":[],\"share\":[],\"band\":[]}}", self.b, self.r, need(self.thr, self.b * self.r), self.thr, arr2(&self.pool))
    }
    fn change(&mut self, c: &Change) -> String {
        match c {
            Change::Insert(i, s) => { self.idx.insert(self.ids[*i], self.sigs[*s - 1].clone()); format!("{{\"op\":\"insert\",\"id\":{},\"s\":{}}}", i, s) }
            Change::Bulk(batch, two) => {
                if *two { self.idx.par_bulk_insert(batch.iter().map(|x| self.ids[x.0]).collect(), batch.iter().map(|x| self.sigs[x.1 - 1].clone()).collect()) }
                else { self.idx.par_bulk_insert_pairs(batch.iter().map(|x| (self.ids[x.0], self.sigs[x.1 - 1].clone())).collect()) }
                format!("{{\"op\":\"bulk\",\"batch\":{}}}", pairs(batch))
            }
            Change::Remove(i) => { let v = self.idx.remove(&self.ids[*i]); format!("{{\"op\":\"remove\",\"id\":{},\"ret\":{}}}", i, v.map(|v| self.sl(&v)).unwrap_or(0)) }
            Change::BulkRemove(g) => { let v = self.idx.bulk_remove(&g.iter().map(|i| self.ids[*i]).collect()); format!("{{\"op\":\"bulkremove\",\"ids\":{},\"ret\":{}}}", arr(g), arr(&v.iter().map(|v| self.sl(v)).collect::<Vec<_>>())) }
            Change::Clear => { self.idx.clear(); "{\"op\":\"clear\"}".to_string() }
            Change::Shrink => { self.idx.shrink_to_fit(); "{\"op\":\"noop\",\"what\":\"shrink_to_fit\"}".to_string() }
        }
    }
    fn ask(&self, a: &Ask) -> String {
        let (idx, n) = (&self.idx, self.b * self.r);
        match a {
            Ask::Set(q) => { let s = &self.sigs[*q - 1]; format!("{{\"op\":\"q\",\"q\":{},\"set\":{},\"owned\":{}}}", q, self.set(idx.query(s).into_iter()), self.set(idx.query_owned(s).iter())) }
            Ask::One(q) => { let o = idx.query_one(&self.sigs[*q - 1]).map(|(i, x)| vec![self.lab(i), as_count(x, n)]).unwrap_or_default(); format!("{{\"op\":\"q\",\"q\":{},\"one\":{}}}", q, arr(&o)) }
            Ask::Sims(q) => { let v: Vec<(i64, i64)> = idx.query_owned_return_similarity(&self.sigs[*q - 1]).iter().map(|(i, x)| (self.lab(i), as_count(*x, n))).collect(); format!("{{\"op\":\"q\",\"q\":{},\"sims\":{}}}", q, pairs(&v)) }
            Ask::TopK(q, k) => { let v: Vec<(i64, i64)> = idx.query_top_k(&self.sigs[*q - 1], *k).iter().map(|(i, d)| (self.lab(i), as_count(1.0 - *d, n))).collect(); format!("{{\"op\":\"q\",\"q\":{},\"topk\":[[{},{}]]}}", q, k, pairs(&v)) }
            Ask::ById(i) => { let d: &dyn QueryIndex<Id = u64> = idx;
                format!("{{\"op\":\"byid\",\"id\":{},\"set\":{},\"owned\":{},\"dyn\":{}}}", i, self.set(idx.query_by_id(&self.ids[*i]).into_iter()), self.set(idx.query_by_id_owned(&self.ids[*i]).iter()), self.set(d.query(&self.ids[*i]).into_iter())) }
            Ask::Obs => {
                let mut m: Vec<(i64, i64)> = idx.get_id_signature_map().iter().map(|(i, v)| (self.lab(i), self.sl(v))).collect(); m.sort();
                format!("{{\"op\":\"obs\",\"size\":{},\"nh\":{},\"room\":{},\"map\":{},\"buckets\":{}}}", idx.size(), idx.num_hashes(), (idx.capacity() >= idx.size()) as usize, pairs(&m), arr(&idx.band_sizes().sizes))
            }
            Ask::Bulk(qs) => {
                let v: Vec<Vec<T>> = qs.iter().map(|q| self.sigs[*q - 1].clone()).collect();
                let s: Vec<String> = idx.par_bulk_query(&v).iter().map(|x| self.set(x.iter())).collect();
                let d: Vec<String> = idx.par_bulk_query_return_similarity(&v).iter().map(|x| pairs(&x.iter().map(|(i, y)| (self.lab(i), as_count(*y, n))).collect::<Vec<_>>())).collect();
                format!("{{\"op\":\"bq\",\"qs\":{},\"sets\":{},\"sims\":{}}}", arr(qs), arr(&s), arr(&d))
            }
            Ask::Cent(g) => {
                if !g.iter().any(|i| idx.get_signature(&self.ids[*i]).is_some()) { return self.ask(&Ask::Obs); }
                let c = idx.calculate_centroid(&g.iter().map(|i| self.ids[*i]).collect::<Vec<_>>());
                let codes: Vec<i64> = c.iter().enumerate().map(|(p, x)| self.sigs.iter().zip(&self.pool).find(|(s, _)| s[p] == *x).map(|(_, l)| l[p] as i64).unwrap_or(-1)).collect();
                format!("{{\"op\":\"cent\",\"group\":{},\"cent\":{},\"found\":{}}}", arr(g), arr(&codes), self.set(idx.query(&c).into_iter()))
            }
        }
    }
}

struct Sim<S: Bits> { idx: SimHashIndex<S, u64>, w: usize, nb: usize, k: usize, pool: Vec<u128>, ids: Vec<u64> }
impl<S: Bits> Sim<S> { fn lab(&self, id: &u64) -> i64 { self.ids.iter().position(|x| x == id).map(|x| x as i64).unwrap_or(-7) }
    fn set<'a>(&self, it: impl Iterator<Item = &'a u64>) -> String { let mut v: Vec<i64> = it.map(|i| self.lab(i)).collect(); v.sort(); arr(&v) } }
impl<S: Bits> Ix for Sim<S> {
    fn header(&self) -> String {
        let p: Vec<Vec<u128>> = self.pool.iter().map(|a| (0..self.w / 4).map(|j| (a >> (4 * j)) & 15).collect()).collect();
        format!("{{\"op\":\"new\",\"tab\":false,\"w\":{},\"nb\":{},\"k\":{},\"pool\":{},\"dist\":[]}}", self.w, self.nb, self.k, arr2(&p))
    }
    fn change(&mut self, c: &Change) -> String {
        match c {
            Change::Bulk(batch, two) => {
                if *two { self.idx.par_bulk_insert(batch.iter().map(|x| self.ids[x.0]).collect(), batch.iter().map(|x| S::of(self.pool[x.1 - 1])).collect()) }
                else { self.idx.par_bulk_insert_pairs(batch.iter().map(|x| (self.ids[x.0], S::of(self.pool[x.1 - 1]))).collect()) }
                format!("{{\"op\":\"bulk\",\"batch\":{}}}", pairs(batch))
            }
            Change::Insert(i, s) => { self.idx.insert(self.ids[*i], S::of(self.pool[*s - 1])); format!("{{\"op\":\"insert\",\"id\":{},\"s\":{}}}", i, s) }
            _ => self.ask(&Ask::Obs)
        }
    }
    fn ask(&self, a: &Ask) -> String {
        let idx = &self.idx;
        match a {
            Ask::Set(q) | Ask::TopK(q, _) => { let s = S::of(self.pool[*q - 1]); format!("{{\"op\":\"q\",\"q\":{},\"set\":{},\"owned\":{}}}", q, self.set(idx.query(&s).into_iter()), self.set(idx.query_owned(&s).iter())) }
            Ask::One(q) => { let o = idx.query_one(&S::of(self.pool[*q - 1])).map(|(i, d)| vec![self.lab(i), d as i64]).unwrap_or_default(); format!("{{\"op\":\"q\",\"q\":{},\"one\":{}}}", q, arr(&o)) }
            Ask::Sims(q) => { let v: Vec<(i64, usize)> = idx.query_return_distance(&S::of(self.pool[*q - 1])).iter().map(|(i, d)| (self.lab(i), *d)).collect(); format!("{{\"op\":\"q\",\"q\":{},\"dists\":{}}}", q, pairs(&v)) }
            Ask::Bulk(qs) => {
                let v: Vec<S> = qs.iter().map(|q| S::of(self.pool[*q - 1])).collect();
                let s: Vec<String> = idx.par_bulk_query(&v).iter().map(|x| self.set(x.iter())).collect();
                let d: Vec<String> = idx.par_bulk_query_return_distance(&v).iter().map(|x| pairs(&x.iter().map(|(i, y)| (self.lab(i), *y)).collect::<Vec<_>>())).collect();
                format!("{{\"op\":\"bq\",\"qs\":{},\"sets\":{},\"dists\":{}}}", arr(qs), arr(&s), arr(&d))
            }
            _ => format!("{{\"op\":\"size\",\"size\":{}}}", idx.size())
        }
    }
}

struct Str { ix: MinHashStringIndex, texts: Vec<String>, head: String }
impl Str {
    fn new(b: usize, w: usize, thr: f64, texts: &[String]) -> Str {
        let n = b * w;
        let h = MinHasher64V1::new(n);
        let sigs: Vec<Vec<u64>> = texts.iter().map(|t| h.create_signature(gaoya::text::whitespace_split(t))).collect();
        let m: Vec<Vec<usize>> = sigs.iter().map(|a| sigs.iter().map(|c| (0..n).filter(|k| a[*k] == c[*k]).count()).collect()).collect();
        let sh: Vec<Vec<usize>> = sigs.iter().map(|a| sigs.iter().map(|c| (0..b).any(|k| a[k * w..(k + 1) * w] == c[k * w..(k + 1) * w]) as usize).collect()).collect();
        let bytes: Vec<Vec<u8>> = texts.iter().map(|t| t.as_bytes().to_vec()).collect();
        let head = format!("{{\"op\":\"new\",\"b\":{},\"w\":{},\"need\":{},\"texts\":{},\"match\":{},\"share\":{}}}", b, w, need(thr, n), arr2(&bytes), arr2(&m), arr2(&sh));
        Str { ix: MinHashStringIndex::new(b, w, thr), texts: texts.to_vec(), head }
    }
}
impl Ix for Str {
    fn header(&self) -> String { self.head.clone() }
    fn change(&mut self, c: &Change) -> String {
        match c {
            Change::Insert(_, s) => { self.ix.insert(self.texts[*s - 1].clone()); format!("{{\"op\":\"insert\",\"t\":{},\"size\":{}}}", s, self.ix.size()) }
            Change::Bulk(batch, _) => {
                let d: Vec<u8> = batch.iter().flat_map(|x| (self.texts[x.1 - 1].clone() + "\n").into_bytes()).collect();
                self.ix.load_from_lines(&mut std::io::BufReader::new(&d[..]));
                format!("{{\"op\":\"load\",\"form\":\"reader\",\"bytes\":{},\"ret\":-2,\"size\":{}}}", arr(&d), self.ix.size())
            }
            _ => self.ask(&Ask::Set(1)),
        }
    }
    fn ask(&self, a: &Ask) -> String {
        let q = match a { Ask::Set(q) | Ask::One(q) | Ask::Sims(q) | Ask::TopK(q, _) => *q, Ask::ById(i) => i % self.texts.len() + 1, Ask::Bulk(v) if !v.is_empty() => v[0], _ => 1 };
        let mut r: Vec<usize> = self.ix.query(&self.texts[q - 1]).into_iter().map(|t| self.texts.iter().position(|x| x == t).map(|i| i + 1).unwrap_or(0)).collect();
        r.sort();
        format!("{{\"op\":\"q\",\"t\":{},\"res\":{}}}", q, arr(&r))
    }
}
fn str_world(rng: &mut Rng, threads: usize) {
    let all = ["a b c d", "a b c e", "x", "", "a b", "z z z y", "a b c d e f", "a b c d f", "\u{e9}t\u{e9} a", "A B"];
    let mut texts: Vec<String> = all.iter().filter(|_| rng.chance(4, 5)).map(|t| t.to_string()).collect();
    if texts.is_empty() { texts.push("a".into()); }
    let ixs = call("constructor", || (0..rng.range(2, 4)).map(|_| Box::new(Str::new(rng.range(1, 6), rng.range(1, 3), *rng.pick(&[0.3, 0.5, 0.75, 1.0]), &texts)) as Box<dyn Ix>).collect::<Vec<_>>());
    let ixs = match ixs { Ok(v) => v, Err(w) => { emit_panic(&w); end_session(); return; } };
    let steps = if threads == 1 { 50 } else { 80 / threads };
    world(ixs, threads, steps, 30, 4, texts.len(), rng.next());
}

fn some_change(rng: &mut Rng, nid: usize, ns: usize, calm: bool) -> Change {
    match rng.below(if calm { 12 } else { 20 }) {
        0..=8 => Change::Insert(rng.below(nid), rng.range(1, ns)),
        9..=11 => Change::Bulk((0..rng.range(0, 6)).map(|_| (rng.below(nid), rng.range(1, ns))).collect(), rng.chance(1, 2)),
        12..=15 => Change::Remove(rng.below(nid)),
        16..=17 => Change::BulkRemove((0..rng.range(0, 4)).map(|_| rng.below(nid)).collect()),
        18 => if rng.chance(1, 3) { Change::Clear } else { Change::Insert(rng.below(nid), rng.range(1, ns)) },
        _ => Change::Shrink,
    }
}
fn some_ask(rng: &mut Rng, nid: usize, ns: usize) -> Ask {
    let q = rng.range(1, ns);
    match rng.below(10) { 0..=2 => Ask::Set(q), 3..=4 => Ask::One(q), 5 => Ask::Sims(q), 6 => Ask::TopK(q, rng.below(5)), 7 => Ask::ById(rng.below(nid)),
        8 => if rng.chance(1, 2) { Ask::Obs } else { Ask::Cent((0..rng.range(1, 4)).map(|_| rng.below(nid)).collect()) }, _ => Ask::Bulk((0..rng.range(0, 4)).map(|_| rng.range(1, ns)).collect()) }
}

/// At the end of a world nothing changes any more: all threads ask one index the same few questions in
/// one form, thousands of times.
fn storm(ixs: &[RwLock<Box<dyn Ix>>], logs: &[Mutex<Vec<String>>], start: &Barrier, dead: &std::sync::atomic::AtomicBool, t: usize, nid: usize, ns: usize, seed: u64) {
    let mut plan = Rng::new(seed ^ 0x570);         // the same plan in all threads
    start.wait();
    let marks: Vec<usize> = logs.iter().map(|l| l.lock().unwrap().len()).collect();
    start.wait();
    for k in 0..ixs.len() { for form in 0..7 {
        let few: Vec<usize> = (0..plan.range(2, 3)).map(|_| plan.range(1, ns)).collect();
        let asks: Vec<Ask> = few.iter().map(|&q| match form { 0 => Ask::Set(q), 1 => Ask::One(q), 2 => Ask::Sims(q), 3 => Ask::TopK(q, 1 + q % 3), 4 => Ask::ById(q % nid),
            5 => Ask::Bulk(vec![q, few[0]]), _ => Ask::Cent(vec![q % nid, few[0] % nid]) }).collect();
        let reps = match form { 5 => 20, 4 | 6 => 200, _ => 1500 };
        start.wait();
        if dead.load(std::sync::atomic::Ordering::SeqCst) { continue; }
        let g = ixs[k].read().unwrap_or_else(|e| e.into_inner());
        let mut lines: BTreeSet<String> = BTreeSet::new();
        let mut at = t;
        for _ in 0..reps {
            at = at.wrapping_mul(5).wrapping_add(t + 1) & 0xffff;
            match catch_unwind(AssertUnwindSafe(|| g.ask(&asks[(at >> 3) % asks.len()]))) { Ok(l) => { if !lines.contains(&l) { lines.insert(l); } }
                Err(_) => { logs[k].lock().unwrap().push("{\"op\":\"panic\",\"during\":\"a query next to other threads\"}".into()); dead.store(true, std::sync::atomic::Ordering::SeqCst); break; } }
        }
        let mut l = logs[k].lock().unwrap();
        for x in lines { if !l[marks[k]..].contains(&x) { l.push(x); } }
    } }
}

/// One world: the indexes behind locks, a log each. A reader keeps the lock for many questions; equal
/// answers of one reading are written down once.
fn world(ixs: Vec<Box<dyn Ix>>, threads: usize, steps: usize, burst: usize, nid: usize, ns: usize, seed: u64) {
    let logs: Vec<Mutex<Vec<String>>> = ixs.iter().map(|i| Mutex::new(vec![i.header()])).collect();
    let ixs: Vec<RwLock<Box<dyn Ix>>> = ixs.into_iter().map(RwLock::new).collect();
    let start = Barrier::new(threads);
    let dead = std::sync::atomic::AtomicBool::new(false);
    let r = call("many threads", || std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|t| { let (ixs, logs, start, dead) = (&ixs, &logs, &start, &dead); sc.spawn(move || {
            let mut rng = Rng::new(seed.wrapping_add(t as u64 * 7919));
            start.wait();
            'steps: for _ in 0..steps {
                if dead.load(std::sync::atomic::Ordering::SeqCst) { break; }
                let k = rng.below(ixs.len());
                if rng.chance(1, 2) {
                    let c = some_change(&mut rng, nid, ns, false);
                    let mut g = ixs[k].write().unwrap_or_else(|e| e.into_inner());
                    match catch_unwind(AssertUnwindSafe(|| g.change(&c))) { Ok(l) => logs[k].lock().unwrap().push(l),
                        Err(_) => { logs[k].lock().unwrap().push("{\"op\":\"panic\",\"during\":\"a change next to other threads\"}".into()); dead.store(true, std::sync::atomic::Ordering::SeqCst); break 'steps; } }
                } else if threads > 1 {
                    let g = ixs[k].read().unwrap_or_else(|e| e.into_inner());
                    let mut lines: BTreeSet<String> = BTreeSet::new();
                    let few: Vec<Ask> = (0..rng.range(1, 4)).map(|_| some_ask(&mut rng, nid, ns)).collect();
                    for _ in 0..burst { let a = rng.pick(&few); match catch_unwind(AssertUnwindSafe(|| g.ask(a))) { Ok(l) => { lines.insert(l); }
                        Err(_) => { logs[k].lock().unwrap().push("{\"op\":\"panic\",\"during\":\"a query next to other threads\"}".into()); dead.store(true, std::sync::atomic::Ordering::SeqCst); break 'steps; } } }
                    logs[k].lock().unwrap().extend(lines);
                } else {        // the same questions to all indexes in turn
                    for _ in 0..2 { let a = some_ask(&mut rng, nid, ns); for k in 0..ixs.len() { let g = ixs[k].read().unwrap_or_else(|e| e.into_inner());
                        let l = catch_unwind(AssertUnwindSafe(|| g.ask(&a))).unwrap_or_else(|_| { dead.store(true, std::sync::atomic::Ordering::SeqCst); "{\"op\":\"panic\",\"during\":\"a query among several indexes\"}".into() });
                        logs[k].lock().unwrap().push(l); } }
                }
            }
            if threads > 1 { storm(ixs, logs, start, dead, t, nid, ns, seed) }
        }) }).collect();
        hs.into_iter().all(|h| h.join().is_ok())
    }));
    for l in logs { for line in l.into_inner().unwrap_or_else(|e| e.into_inner()) { emit(line); } end_session(); }
    if r != Ok(true) { emit_panic("several indexes and threads"); end_session(); }
}

fn ids(n: usize, rng: &mut Rng) -> Vec<u64> { let mut v: Vec<u64> = Vec::new(); while v.len() < n { let x = if rng.chance(1, 2) { rng.next() } else { rng.below(200) as u64 }; if !v.contains(&x) { v.push(x) } } v }

fn min_world<T: MinHashType + 'static>(rng: &mut Rng, vals: Vec<T>, threads: usize) {
    let n = *rng.pick(&[4usize, 6, 12, 24, 60]);
    let lay: Vec<(usize, usize)> = (1..=n).filter(|b| n % b == 0).map(|b| (b, n / b)).collect();
    let alpha = vals.len().min(*rng.pick(&[2usize, 3, 8]));
    let base: Vec<usize> = (0..n).map(|_| rng.below(alpha)).collect();
    let mut pool = vec![base];
    while pool.len() < 8 { let mut v = rng.pick(&pool).clone(); for _ in 0..rng.range(1, n) { let i = rng.below(n); v[i] = rng.below(alpha); if rng.chance(1, 3) { break; } } if !pool.contains(&v) { pool.push(v); } }
    let nid = rng.range(3, 14);
    let idv = ids(nid, rng);
    let k = rng.range(2, 4);
    let same = rng.chance(1, 3);        // equal layouts and thresholds, other contents
    let first = (*rng.pick(&lay), *rng.pick(&[0.0, 0.3, 0.5, 0.75, 1.0]));
    let ixs = call("constructor", || (0..k).map(|_| { let ((b, r), thr) = if same { first } else { (*rng.pick(&lay), *rng.pick(&[0.0, 0.3, 0.5, 0.75, 1.0])) };
        match rng.below(4) { 0 | 1 => Box::new(Min::<T, HashSetContainer<u64>>::new(b, r, thr, &pool, &vals, &idv)) as Box<dyn Ix>,
            2 => Box::new(Min::<T, VecContainer<u64>>::new(b, r, thr, &pool, &vals, &idv)), _ => Box::new(Min::<T, SmallVecContainer<u64, 2>>::new(b, r, thr, &pool, &vals, &idv)) } }).collect::<Vec<Box<dyn Ix>>>());
    let ixs = match ixs { Ok(v) => v, Err(w) => { emit_panic(&w); end_session(); return; } };
    let steps = if threads == 1 { 60 } else { 120 / threads };
    world(ixs, threads, steps, 40, nid, pool.len(), rng.next());
}
fn sim_world<S: Bits + 'static>(rng: &mut Rng, w: usize, threads: usize) {
    let mask = if w == 64 { u64::MAX as u128 } else { u128::MAX };
    let mut pool: Vec<u128> = vec![((rng.next() as u128) << 64 | rng.next() as u128) & mask];
    while pool.len() < 8 { let mut v = *rng.pick(&pool); for _ in 0..rng.range(1, 6) { v ^= 1u128 << rng.below(w); } if !pool.contains(&v) { pool.push(v); } }
    let nid = rng.range(3, 12);
    let idv = ids(nid, rng);
    let ixs = call("constructor", || (0..rng.range(2, 4)).map(|_| { let (nb, k) = *rng.pick(&[(4usize, 3usize), (6, 3), (5, 0), (3, 1), (8, 6)]);
        Box::new(Sim::<S> { idx: SimHashIndex::new(nb, k), w, nb, k, pool: pool.clone(), ids: idv.clone() }) as Box<dyn Ix> }).collect::<Vec<Box<dyn Ix>>>());
    let ixs = match ixs { Ok(v) => v, Err(w) => { emit_panic(&w); end_session(); return; } };
    let steps = if threads == 1 { 60 } else { 120 / threads };
    world(ixs, threads, steps, 40, nid, pool.len(), rng.next());
}

/// One hasher used by many threads at the same time: each document has one signature, the one computed alone.
fn hashers(rng: &mut Rng) {
    let n = rng.range(1, 40);
    let docs: Vec<Vec<u64>> = (0..rng.range(2, 8)).map(|_| (0..rng.below(30)).map(|_| rng.next() >> rng.below(60)).collect()).collect();
    let r = call("hashers in many threads", || {
        let mut book: HashMap<Vec<u64>, usize> = HashMap::new();
        let mut lab = |v: Vec<u64>| -> usize { let k = book.len(); *book.entry(v).or_insert(k) };
        let (mut single, mut bulk) = (vec![], vec![]);
        macro_rules! one { ($make:expr, $sig:expr) => {{
            let sizes = [n, n + 3];         // two hashers side by side
            for m in sizes { let alone = $make(m); for d in &docs { single.push(lab($sig(&alone, d))); } }
            let shared = [$make(n), $make(n + 3)];
            let seen: Vec<Mutex<BTreeSet<Vec<u64>>>> = (0..2 * docs.len()).map(|_| Default::default()).collect();
            let start = Barrier::new(4);
            std::thread::scope(|sc| { for t in 0..4 { let (docs, seen, start, shared) = (&docs, &seen, &start, &shared); sc.spawn(move || {
                start.wait();
                for k in 0..12 { let (x, i) = ((k + t) % 2, (k * (t + 1)) % docs.len()); let v = $sig(&shared[x], &docs[i]); seen[x * docs.len() + i].lock().unwrap().insert(v); }
                for x in 0..2 { for (i, d) in docs.iter().enumerate() { let v = $sig(&shared[x], d); seen[x * docs.len() + i].lock().unwrap().insert(v); } }
            }); } });
            for s in seen { for v in s.into_inner().unwrap() { bulk.push(lab(v)); } }
        }} }
        one!(|n: usize| MinHasher32::new(n), |h: &MinHasher32<_>, d: &Vec<u64>| h.create_signature(d.iter()).iter().map(|x| *x as u64).collect::<Vec<u64>>());
        one!(|n: usize| MinHasher16::new(n), |h: &MinHasher16<_>, d: &Vec<u64>| h.create_signature(d.iter()).iter().map(|x| *x as u64).collect::<Vec<u64>>());
        one!(|n: usize| MinHasher8::new(n), |h: &MinHasher8<_>, d: &Vec<u64>| h.create_signature(d.iter()).iter().map(|x| *x as u64).collect::<Vec<u64>>());
        one!(|n: usize| MinHasher64V1::new(n), |h: &MinHasher64V1<_>, d: &Vec<u64>| h.create_signature(d.iter()));
        one!(|n: usize| SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(5, n as u64)), |h: &SimHash<SimSipHasher64, u64, 64>, d: &Vec<u64>| vec![h.create_signature(d.iter())]);
        one!(|n: usize| SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(5, n as u64)), |h: &SimHash<SimSipHasher128, u128, 128>, d: &Vec<u64>| { let x = h.create_signature(d.iter()); vec![x as u64, (x >> 64) as u64] });
        format!("{{\"op\":\"bulksig\",\"docs\":{},\"bulk\":{},\"single\":{}}}", docs.len(), arr(&bulk), arr(&single))
    });
    emit("{\"op\":\"new\",\"tab\":false,\"b\":1,\"r\":1,\"need\":1,\"pool\":[[0]],\"match\":[],\"share\":[],\"band\":[]}".to_string());
    match r { Ok(l) => emit(l), Err(w) => emit_panic(&w) }
    end_session();
}

/// Histories of two MinHash indexes generated by TLC; all questions to both after every change.
fn script(path: &str) {
    use serde_json::Value;
    for line in std::fs::read_to_string(path).unwrap().lines() {
        let v: Value = serde_json::from_str(line).unwrap();
        let us = |v: &Value| v.as_u64().unwrap() as usize;
        let pool: Vec<Vec<usize>> = v["pool"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(us).collect()).collect();
        let mut logs: Vec<Vec<String>> = vec![];
        let r = call("two indexes", || {
            let mut ixs: Vec<Min<u32, HashSetContainer<u64>>> = v["layouts"].as_array().unwrap().iter().map(|l| { let (b, r) = (us(&l["b"]), us(&l["r"])); Min::new(b, r, us(&l["need"]) as f64 / (b * r) as f64, &pool, &[7u32, 9], &[3, 4, 5]) }).collect();
            logs.extend(ixs.iter().map(|i| vec![i.header()]));
            for o in v["ops"].as_array().unwrap() {
                let c = match o["op"].as_str().unwrap() { "insert" => Change::Insert(us(&o["id"]), us(&o["s"])), "remove" => Change::Remove(us(&o["id"])), _ => Change::Clear };
                let k = us(&o["x"]) - 1;
                let l = ixs[k].change(&c);
                logs[k].push(l);
                for q in 1..=pool.len() { for (k, i) in ixs.iter().enumerate() { let x = if q % 2 == 1 { i.ask(&Ask::Set(q)) } else { i.ask(&Ask::Sims(q)) }; logs[k].push(x); } }
            }
            for (k, i) in ixs.iter().enumerate() { logs[k].push(i.ask(&Ask::Obs)); logs[k].push(i.ask(&Ask::ById(1))); }
        });
        for l in logs { for x in l { emit(x); } end_session(); }
        if let Err(w) = r { emit_panic(&w); end_session(); }
    }
}

fn main() {
    let a = Args::get();
    init(&a.out, a.shards);
    let mut rng = Rng::new(a.seed ^ 0x5A4E);
    for i in 0..a.count {
        let threads = [1usize, 4, 1, 2, 8][i % 5];
        if a.profile == "sim" { if rng.chance(1, 2) { sim_world::<u64>(&mut rng, 64, threads) } else { sim_world::<u128>(&mut rng, 128, threads) } }
        else if a.profile == "str" { str_world(&mut rng, threads) }
        else {
            match rng.below(3) { 0 => min_world::<u32>(&mut rng, (0..8).map(|x| x * 1000 + 7).collect(), threads), 1 => min_world::<u64>(&mut rng, (0..8).collect(), threads), _ => min_world::<u8>(&mut rng, (0..8).collect(), threads) }
            if i % 4 == 0 { hashers(&mut rng); }
        }
    }
    if let Some(f) = &a.script { script(f); }
    finish();
}
