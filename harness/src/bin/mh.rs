//! MinHash index: sessions of abstract operations executed on the real index.
use conform::tr::*;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::*;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;

#[derive(Clone, Debug)]
pub enum Op {
    Insert(usize, usize),
    Bulk { batch: Vec<(usize, usize)>, pairs: bool, threads: usize },
    /// consecutive ids; mode 0 lists, 1 pairs, 2 one by one
    BulkRange { first: usize, ss: Vec<usize>, mode: usize, threads: usize, shuffle: u64 },
    RemoveRange { first: usize, count: usize, bulk: bool, threads: usize },
    Remove(usize),
    BulkRemove { ids: Vec<usize>, threads: usize },
    Clear,
    ShrinkFit,
    ShrinkTo(usize),
    /// malformed signature: form 0 insert, 1 zip bulk, 2 pairs bulk; pos in batch; extra length
    Reject { form: usize, batch: Vec<(usize, usize)>, pos: usize, delta: isize },
    Obs { map: bool, get: Vec<usize>, buckets: bool },
    Query { q: usize, forms: u32, ks: Vec<usize> },
    ById(usize),
    BulkQuery { qs: Vec<usize>, sets: bool, sims: bool, threads: usize },
    Cent(Vec<usize>),
    BulkSig { docs: Vec<Vec<u64>>, threads: usize },
}
pub const F_SET: u32 = 1; pub const F_OWNED: u32 = 2; pub const F_ONE: u32 = 4; pub const F_SIMS: u32 = 8; pub const F_TOPK: u32 = 16;
pub const F_ALL: u32 = 31;

#[derive(Clone, Debug)]
pub struct Session {
    pub b: usize, pub r: usize, pub thr: f64,
    pub tab: bool,
    pub pool: Vec<Vec<usize>>,   // value codes
    pub ops: Vec<Op>,
    pub cap: Option<(usize, f64)>,
}

/// Whether observations include what the index says about itself.
static DESC: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn need(thr: f64, n: usize) -> usize {
    (0..=n).find(|&m| (m as f64) / (n as f64) >= thr).unwrap_or(n + 1)
}
fn matches(a: &[usize], b: &[usize]) -> usize { a.iter().zip(b).filter(|(x, y)| x == y).count() }
fn shares(a: &[usize], b: &[usize], nb: usize, r: usize) -> bool {
    (0..nb).any(|k| (k * r..(k + 1) * r).all(|i| a[i] == b[i]))
}
fn as_count(sim: f64, n: usize) -> i64 {
    let m = (sim * n as f64).round();
    if m >= 0.0 && (sim - m / n as f64).abs() < 1e-9 { m as i64 } else { -1 }
}

pub trait Codec: Sized { fn table(n: usize, rng: &mut Rng) -> Vec<Self>; }
macro_rules! codec { ($($t:ty),*) => { $( impl Codec for $t {
    fn table(n: usize, rng: &mut Rng) -> Vec<$t> {
        let mut v: Vec<$t> = vec![0, <$t>::MAX, <$t>::MIN, 1];
        let mut seen: HashSet<$t> = HashSet::new();
        let mut out = Vec::new();
        rng.shuffle(&mut v);
        let mut k: u64 = 0;
        while out.len() < n {
            let x = match v.pop() { Some(x) => x, None => { k += 1; if k % 3 == 0 { k as $t } else { rng.next() as $t } } };
            if seen.insert(x) { out.push(x); }
        }
        out
    } } )* } }
codec!(u8, u16, u32, u64, i8, i16, i32, i64);
impl Codec for String {
    fn table(n: usize, rng: &mut Rng) -> Vec<String> {
        let mut v: Vec<String> = (0..n).map(|i| match i % 3 { 0 => format!("id{}", i), 1 => format!("{}", i), _ => format!("\u{e9}\u{4e2d}{}", i) }).collect();
        if n > 0 { v[0] = String::new(); }
        rng.shuffle(&mut v);
        v
    }
}

/// an id type whose hash says almost nothing
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Clash(u64);
impl Hash for Clash { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (self.0 % 2).hash(h) } }
impl Codec for Clash { fn table(n: usize, rng: &mut Rng) -> Vec<Clash> { <u64 as Codec>::table(n, rng).into_iter().map(Clash).collect() } }

fn run_typed<T, Id, C>(s: &Session, seed: u64)
where T: MinHashType + Codec + std::fmt::Debug + 'static, Id: Codec + Hash + Eq + Clone + Send + Sync + std::fmt::Debug + 'static,
      C: IdContainer<Id>
{
    let mut rng = Rng::new(seed);
    let n = s.b * s.r;
    let ncodes = s.pool.iter().flat_map(|p| p.iter()).max().map(|x| x + 1).unwrap_or(1);
    let vals: Vec<T> = T::table(ncodes, &mut rng);
    let code_of: HashMap<T, usize> = vals.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let maxid = s.ops.iter().map(|o| match o {
        Op::Insert(i, _) | Op::Remove(i) | Op::ById(i) => *i,
        Op::Bulk { batch, .. } | Op::Reject { batch, .. } => batch.iter().map(|x| x.0).max().unwrap_or(0),
        Op::BulkRange { first, ss, .. } => first + ss.len(), Op::RemoveRange { first, count, .. } => first + count,
        Op::BulkRemove { ids, .. } => ids.iter().copied().max().unwrap_or(0),
        Op::Obs { get, .. } => get.iter().copied().max().unwrap_or(0),
        Op::Cent(g) => g.iter().copied().max().unwrap_or(0),
        _ => 0 }).max().unwrap_or(0);
    let ids: Vec<Id> = Id::table(maxid + 1, &mut rng);
    let label: HashMap<Id, usize> = ids.iter().enumerate().map(|(i, v)| (v.clone(), i)).collect();
    let lab = |id: &Id| -> i64 { label.get(id).map(|x| *x as i64).unwrap_or(-7) };
    let sigs: Vec<Vec<T>> = s.pool.iter().map(|p| p.iter().map(|c| vals[*c]).collect()).collect();
    let nd = need(s.thr, n);
    let sig_label = |v: &Vec<T>| -> i64 { sigs.iter().position(|x| x == v).map(|x| x as i64 + 1).unwrap_or(-1) };

    // the session header
    let tabs = if s.tab {
        let m: Vec<Vec<usize>> = s.pool.iter().map(|a| s.pool.iter().map(|b| matches(a, b)).collect()).collect();
        let sh: Vec<Vec<usize>> = s.pool.iter().map(|a| s.pool.iter().map(|b| shares(a, b, s.b, s.r) as usize).collect()).collect();
        // band contents numbered by first occurrence
        let bd: Vec<Vec<usize>> = s.pool.iter().map(|a| (0..s.b).map(|k|
            s.pool.iter().position(|x| x[k * s.r..(k + 1) * s.r] == a[k * s.r..(k + 1) * s.r]).unwrap()).collect()).collect();
        format!("\"pool\":[],\"match\":{},\"share\":{},\"band\":{}", arr2(&m), arr2(&sh), arr2(&bd))
    } else {
        format!("\"pool\":{},\"match\":[],\"share\":[],\"band\":[]", arr2(&s.pool))
    };
    emit(format!("{{\"op\":\"new\",\"tab\":{},\"b\":{},\"r\":{},\"need\":{},\"thr\":\"{}\",\"t\":\"{}\",{}}}", s.tab, s.b, s.r, nd, s.thr,
                 std::any::type_name::<(T, Id, C)>().replace("gaoya::minhash::id_container::", "").replace("alloc::string::", ""), tabs));

    let idx = call("constructor", || match s.cap {
        None => MinHashIndex::<T, Id, C>::new_index(s.b, s.r, s.thr),
        Some((c, ratio)) => MinHashIndex::<T, Id, C>::new_with_capacity(s.b, s.r, s.thr, c, ratio),
    });
    let mut idx = match idx { Ok(i) => i, Err(w) => { emit_panic(&w); end_session(); return; } };

    for op in &s.ops {
        let r: Result<String, String> = match op {
            Op::Insert(i, k) => call("insert", || idx.insert(ids[*i].clone(), sigs[*k - 1].clone()))
                .map(|_| format!("{{\"op\":\"insert\",\"id\":{},\"s\":{}}}", i, k)),
            Op::Bulk { batch, pairs: p, threads } => call("bulk insert", || with_threads(*threads, || {
                if *p { idx.par_bulk_insert_pairs(batch.iter().map(|(i, k)| (ids[*i].clone(), sigs[*k - 1].clone())).collect()) }
                else { idx.par_bulk_insert(batch.iter().map(|x| ids[x.0].clone()).collect(), batch.iter().map(|x| sigs[x.1 - 1].clone()).collect()) }
            })).map(|_| format!("{{\"op\":\"bulk\",\"batch\":{},\"pairs\":{},\"threads\":{}}}", pairs(batch), p, threads)),
            Op::BulkRange { first, ss, mode, threads, shuffle } => {
                let mut order: Vec<usize> = (0..ss.len()).collect();
                if *shuffle != 0 { Rng::new(*shuffle).shuffle(&mut order); }
                call("bulk insert", || if *mode == 2 { for &j in &order { idx.insert(ids[first + j].clone(), sigs[ss[j] - 1].clone()) } } else { with_threads(*threads, || {
                    if *mode == 1 { idx.par_bulk_insert_pairs(order.iter().map(|&j| (ids[first + j].clone(), sigs[ss[j] - 1].clone())).collect()) }
                    else { idx.par_bulk_insert(order.iter().map(|&j| ids[first + j].clone()).collect(), order.iter().map(|&j| sigs[ss[j] - 1].clone()).collect()) }
                }) }).map(|_| format!("{{\"op\":\"bulkrange\",\"first\":{},\"ss\":{},\"mode\":{},\"threads\":{}}}", first, arr(ss), mode, threads))
            }
            Op::Remove(i) => call("remove", || idx.remove(&ids[*i]))
                .map(|v| format!("{{\"op\":\"remove\",\"id\":{},\"ret\":{}}}", i, v.map(|v| sig_label(&v)).unwrap_or(0))),
            Op::BulkRemove { ids: g, threads } => call("bulk remove", || with_threads(*threads, || idx.bulk_remove(&g.iter().map(|i| ids[*i].clone()).collect())))
                .map(|v| format!("{{\"op\":\"bulkremove\",\"ids\":{},\"ret\":{}}}", arr(g), arr(&v.iter().map(|x| sig_label(x)).collect::<Vec<_>>()))),
            Op::RemoveRange { first, count, bulk, threads } => call("remove many", || {
                let v: Vec<i64> = if *bulk { with_threads(*threads, || idx.bulk_remove(&(0..*count).map(|i| ids[first + i].clone()).collect())).iter().map(|x| sig_label(x)).collect() }
                    else { (0..*count).filter_map(|i| idx.remove(&ids[first + i]).map(|x| sig_label(&x))).collect() };
                format!("{{\"op\":\"removerange\",\"first\":{},\"count\":{},\"bulk\":{},\"ret\":{}}}", first, count, bulk, arr(&v))
            }),
            Op::Clear => call("clear", || idx.clear()).map(|_| "{\"op\":\"clear\"}".to_string()),
            Op::ShrinkFit => call("shrink_to_fit", || idx.shrink_to_fit()).map(|_| "{\"op\":\"noop\",\"what\":\"shrink_to_fit\"}".to_string()),
            Op::ShrinkTo(c) => call("shrink_to", || idx.shrink_to(*c)).map(|_| format!("{{\"op\":\"noop\",\"what\":\"shrink_to {}\"}}", c)),
            Op::Reject { form, batch, pos, delta } => {
                let mut items: Vec<(Id, Vec<T>)> = batch.iter().map(|(i, k)| (ids[*i].clone(), sigs[*k - 1].clone())).collect();
                let v = &mut items[*pos].1;
                if *delta > 0 { for _ in 0..*delta { let x = v[0]; v.push(x); } } else { let m = v.len() as isize + delta; v.truncate(m.max(0) as usize); }
                let panicked = call("malformed insert", || match form {
                    0 => { let (i, v) = items[*pos].clone(); idx.insert(i, v) }
                    1 => { let (a, b): (Vec<_>, Vec<_>) = items.iter().cloned().unzip(); idx.par_bulk_insert(a, b) }
                    _ => idx.par_bulk_insert_pairs(items.clone()),
                }).is_err();
                Ok(format!("{{\"op\":\"reject\",\"form\":{},\"batch\":{},\"pos\":{},\"delta\":{},\"panicked\":{}}}", form, pairs(batch), pos, delta, panicked as usize))
            }
            Op::Obs { map, get, buckets } => call("size/lookup", || {
                let mut t = format!("{{\"op\":\"obs\",\"size\":{},\"nh\":{},\"room\":{}", idx.size(), idx.num_hashes(), (idx.capacity() >= idx.size()) as usize);
                if DESC.load(std::sync::atomic::Ordering::Relaxed) { let text = format!("{}", idx); t += &format!(",\"desc\":[{},{},{},{}],\"dthr\":\"{}\"", described(&text, "num_hashes"), described(&text, "bands"), described(&text, "rows_per_band"), described(&text, "size"), described(&text, "threshold")); }
                if *map {
                    let mut m: Vec<(i64, i64)> = idx.get_id_signature_map().iter().map(|(i, v)| (lab(i), sig_label(v))).collect();
                    m.sort();
                    t += &format!(",\"map\":{}", pairs(&m));
                }
                if !get.is_empty() {
                    let g: Vec<(usize, i64)> = get.iter().map(|i| (*i, idx.get_signature(&ids[*i]).map(|v| sig_label(v)).unwrap_or(0))).collect();
                    t += &format!(",\"get\":{}", pairs(&g));
                }
                if *buckets {
                    let st = idx.band_sizes();
                    let ok = st.sizes.iter().max() == Some(&st.max_size) && st.sizes.iter().min() == Some(&st.min_size);
                    t += &format!(",\"buckets\":{}", if ok { arr(&st.sizes) } else { "[]".to_string() });
                }
                t + "}"
            }),
            Op::Query { q, forms, ks } => {
                let sig = &sigs[*q - 1];
                call("query", || {
                    let mut t = format!("{{\"op\":\"q\",\"q\":{}", q);
                    if forms & F_SET != 0 { let mut v: Vec<i64> = idx.query(sig).into_iter().map(|i| lab(i)).collect(); v.sort(); t += &format!(",\"set\":{}", arr(&v)); }
                    if forms & F_OWNED != 0 { let mut v: Vec<i64> = idx.query_owned(sig).iter().map(|i| lab(i)).collect(); v.sort(); t += &format!(",\"owned\":{}", arr(&v)); }
                    if forms & F_ONE != 0 { let o = idx.query_one(sig).map(|(i, x)| vec![lab(i), as_count(x, n)]).unwrap_or_default(); t += &format!(",\"one\":{}", arr(&o)); }
                    if forms & F_SIMS != 0 { let v: Vec<(i64, i64)> = idx.query_owned_return_similarity(sig).iter().map(|(i, x)| (lab(i), as_count(*x, n))).collect(); t += &format!(",\"sims\":{}", pairs(&v)); }
                    if forms & F_TOPK != 0 {
                        let v: Vec<(usize, String)> = ks.iter().map(|k| ((*k).min(1 << 30), pairs(&idx.query_top_k(sig, *k).iter().map(|(i, d)| (lab(i), as_count(1.0 - *d, n))).collect::<Vec<_>>()))).collect();
                        t += &format!(",\"topk\":{}", pairs(&v));
                    }
                    t + "}"
                })
            }
            Op::ById(i) => call("query by id", || {
                let mut a: Vec<i64> = idx.query_by_id(&ids[*i]).into_iter().map(|i| lab(i)).collect(); a.sort();
                let mut b: Vec<i64> = idx.query_by_id_owned(&ids[*i]).iter().map(|i| lab(i)).collect(); b.sort();
                let mut c: Vec<i64> = { let d: &dyn QueryIndex<Id = Id> = &idx; d.query(&ids[*i]).into_iter().map(|i| lab(i)).collect() }; c.sort();
                format!("{{\"op\":\"byid\",\"id\":{},\"set\":{},\"owned\":{},\"dyn\":{}}}", i, arr(&a), arr(&b), arr(&c))
            }),
            Op::BulkQuery { qs, sets, sims, threads } => {
                let v: Vec<Vec<T>> = qs.iter().map(|q| sigs[*q - 1].clone()).collect();
                let (idx, lab) = (&idx, &lab);
                call("bulk query", || {
                    let mut t = format!("{{\"op\":\"bq\",\"qs\":{},\"threads\":{}", arr(qs), threads);
                    if *sets {
                        let r = with_threads(*threads, || idx.par_bulk_query(&v));
                        let r: Vec<Vec<i64>> = r.iter().map(|x| { let mut y: Vec<i64> = x.iter().map(|i| lab(i)).collect(); y.sort(); y }).collect();
                        t += &format!(",\"sets\":{}", arr2(&r));
                    }
                    if *sims {
                        let r = with_threads(*threads, || idx.par_bulk_query_return_similarity(&v));
                        let r: Vec<String> = r.iter().map(|x| pairs(&x.iter().map(|(i, y)| (lab(i), as_count(*y, n))).collect::<Vec<_>>())).collect();
                        t += &format!(",\"sims\":{}", arr(&r));
                    }
                    t + "}"
                })
            }
            Op::Cent(g) => call("centroid", || {
                let c = idx.calculate_centroid(&g.iter().map(|i| ids[*i].clone()).collect::<Vec<_>>());
                let codes: Vec<i64> = c.iter().map(|x| code_of.get(x).map(|x| *x as i64).unwrap_or(-1)).collect();
                let mut f: Vec<i64> = if c.len() == n { idx.query(&c).into_iter().map(|i| lab(i)).collect() } else { vec![] };
                f.sort();
                format!("{{\"op\":\"cent\",\"group\":{},\"cent\":{},\"found\":{}}}", arr(g), arr(&codes), arr(&f))
            }),
            Op::BulkSig { docs, threads } => call("bulk signatures", || {
                let h32 = MinHasher32::new(n); let h8 = MinHasher8::new(n); let h16 = MinHasher16::new(n); let h64 = MinHasher64V1::new(n);
                let mut book: Vec<Vec<u64>> = Vec::new();
                let mut l = |v: Vec<u64>| -> usize { match book.iter().position(|x| *x == v) { Some(i) => i, None => { book.push(v); book.len() - 1 } } };
                let refs: Vec<&Vec<u64>> = docs.iter().collect();
                let (mut bulk, mut single) = (Vec::new(), Vec::new());
                macro_rules! one { ($h:expr) => {{
                    let x = with_threads(*threads, || $h.bulk_create_signature(docs));
                    let y = with_threads(*threads, || $h.bulk_create_signature_refs(&refs));
                    for v in x.iter().chain(y.iter()) { bulk.push(l(v.iter().map(|a| *a as u64).collect())); }
                    for _ in 0..2 { for d in docs.iter() { single.push(l($h.create_signature(d.iter()).iter().map(|a| *a as u64).collect())); } }
                }} }
                one!(h32); one!(h8); one!(h16); one!(h64);
                format!("{{\"op\":\"bulksig\",\"docs\":{},\"bulk\":{},\"single\":{}}}", docs.len(), arr(&bulk), arr(&single))
            }),
        };
        match r { Ok(line) => emit(line), Err(w) => { emit_panic(&w); break; } }
    }
    end_session();
}

/// Kinds of index a session is run on: (hash type, id type, container).
pub const NK: usize = 20;
pub fn run(s: &Session, k: usize, seed: u64) {
    match k % NK {
        0 => run_typed::<u32, u64, HashSetContainer<u64>>(s, seed),
        1 => run_typed::<u32, u64, VecContainer<u64>>(s, seed),
        2 => run_typed::<u32, u64, SmallVecContainer<u64, 2>>(s, seed),
        3 => run_typed::<u32, u64, SmallVecContainer<u64, 1>>(s, seed),
        4 => run_typed::<u32, u64, SmallVecContainer<u64, 4>>(s, seed),
        5 => run_typed::<u8, String, HashSetContainer<String>>(s, seed),
        6 => run_typed::<u8, String, VecContainer<String>>(s, seed),
        7 => run_typed::<u8, String, SmallVecContainer<String, 2>>(s, seed),
        8 => run_typed::<u64, i64, HashSetContainer<i64>>(s, seed),
        9 => run_typed::<u64, i64, VecContainer<i64>>(s, seed),
        10 => run_typed::<u16, u64, HashSetContainer<u64>>(s, seed),
        11 => run_typed::<u16, u64, SmallVecContainer<u64, 4>>(s, seed),
        12 => run_typed::<i64, String, SmallVecContainer<String, 1>>(s, seed),
        13 => run_typed::<i32, i64, VecContainer<i64>>(s, seed),
        14 => run_typed::<i16, u64, HashSetContainer<u64>>(s, seed),
        15 => run_typed::<i8, u64, SmallVecContainer<u64, 2>>(s, seed),
        16 => run_typed::<i64, i64, HashSetContainer<i64>>(s, seed),
        17 => run_typed::<u32, Clash, HashSetContainer<Clash>>(s, seed),
        18 => run_typed::<u64, Clash, VecContainer<Clash>>(s, seed),
        _ => run_typed::<u16, Clash, SmallVecContainer<Clash, 3>>(s, seed),
    }
}

/// id containers used directly, never holding an id twice
pub fn containers(rng: &mut Rng) {
    fn go<C: IdContainer<u64>>(kind: &str, ops: &[(usize, u64)]) {
        let r = call("container", || {
            let mut c = C::new();
            for (o, x) in ops { if *o == 1 { c.push(*x) } else { c.remove(x) } }
            let mut a: HashSet<u64> = HashSet::new(); c.copy_to(&mut a);
            let mut b: HashSet<&u64> = HashSet::new(); c.copy_refs_to(&mut b);
            let mut a: Vec<u64> = a.into_iter().collect(); a.sort();
            let mut b: Vec<u64> = b.into_iter().copied().collect(); b.sort();
            format!("{{\"op\":\"container\",\"kind\":\"{}\",\"ops\":{},\"ids\":{},\"refs\":{},\"len\":{},\"empty\":{}}}", kind, pairs(ops), arr(&a), arr(&b), c.len(), c.is_empty() as usize)
        });
        match r { Ok(l) => emit(l), Err(w) => emit_panic(&w) }
        end_session();
    }
    let k = rng.range(1, 9);
    let mut has: HashSet<u64> = HashSet::new();
    let mut ops = Vec::new();
    for _ in 0..rng.range(0, 24) {
        let x = rng.below(k) as u64;
        if rng.chance(2, 3) { if has.insert(x) { ops.push((1, x)); } } else { has.remove(&x); ops.push((0, x)); }
    }
    go::<HashSetContainer<u64>>("set", &ops);
    go::<VecContainer<u64>>("vec", &ops);
    go::<SmallVecContainer<u64, 1>>("smallvec1", &ops);
    go::<SmallVecContainer<u64, 2>>("smallvec2", &ops);
    go::<SmallVecContainer<u64, 4>>("smallvec4", &ops);
}

// ------------------------------------------------------------------------------------------
// Random sessions

/// Signatures related to each other around the interesting borders.
pub fn make_pool(rng: &mut Rng, b: usize, r: usize, nd: usize, size: usize, alpha: usize) -> Vec<Vec<usize>> {
    let n = b * r;
    let mut pool: Vec<Vec<usize>> = Vec::new();
    let nbase = rng.range(1, 3);
    for _ in 0..nbase { let v: Vec<usize> = (0..n).map(|_| rng.below(alpha)).collect(); if !pool.contains(&v) { pool.push(v); } }
    let mut guard = 0;
    while pool.len() < size && guard < size * 20 {
        guard += 1;
        let base = pool[rng.below(pool.len())].clone();
        let diff = |x: usize, rng: &mut Rng| -> usize { (x + 1 + rng.below(alpha - 1)) % alpha };
        let mut v = base.clone();
        match rng.below(8) {
            7 => { for _ in 0..rng.range(1, 5) { let i = rng.below(n); v[i] = diff(v[i], rng); } }          // very close
            0 => { for k in 0..b { let i = k * r + rng.below(r); v[i] = diff(v[i], rng); } }                 // no shared band
            1 => { for _ in 0..rng.range(1, n.max(1)) { let i = rng.below(n); v[i] = diff(v[i], rng); } }
            2 | 3 => {                                                                                      // keep one band, hit the threshold
                let keep = rng.below(b);
                let target = (nd as i64 + rng.range(0, 2) as i64 - 1).clamp(r as i64, n as i64) as usize;
                let mut others: Vec<usize> = (0..n).filter(|i| i / r != keep).collect();
                rng.shuffle(&mut others);
                for &i in others.iter().take(n - target) { v[i] = diff(v[i], rng); }
            }
            4 => { let keep = rng.below(b); for i in 0..n { if i / r != keep { v[i] = diff(v[i], rng); } } } // only one band in common
            5 => { let i = *rng.pick(&[0, n - 1]); v[i] = diff(v[i], rng); }
            _ => { v = (0..n).map(|_| rng.below(alpha)).collect(); }
        }
        if !pool.contains(&v) { pool.push(v); }
    }
    pool
}

fn threshold(rng: &mut Rng, n: usize) -> f64 {
    raw_threshold(rng, n).clamp(0.0, 1.0)
}
fn raw_threshold(rng: &mut Rng, n: usize) -> f64 {
    match rng.below(4) {
        0 => *rng.pick(&[0.5, 0.7, 0.29, 0.07, 0.3, 0.9, 0.6, 0.75, 0.58]),
        1 => *rng.pick(&[0.0, 1.0, 0.5]),
        2 => rng.range(0, n) as f64 / n as f64 + *rng.pick(&[1e-3, -1e-3, 1e-4, -1e-4, 1e-6, -1e-6, 1e-9, -1e-9]),
        _ => rng.range(0, n) as f64 / n as f64,
    }
}

#[derive(Clone)]
pub struct Prof {
    pub w: [usize; 9],      // insert, bulk, remove, bulkremove, clear, shrink, reject, cent, bulksig
    pub obs: [bool; 3],     // map, get, buckets
    pub forms: u32,
    pub byid: bool, pub bq: bool,
    pub obs_w: usize, pub q_w: usize,
}
pub fn profile(p: &str) -> Prof {
    let d = Prof { w: [8, 2, 5, 2, 1, 0, 0, 0, 0], obs: [false, false, false], forms: F_SET | F_OWNED, byid: true, bq: false, obs_w: 0, q_w: 12 };
    match p {
        "C01" => Prof { forms: F_ALL, bq: true, ..d },
        "C02" => Prof { w: [8, 2, 5, 2, 1, 3, 0, 0, 0], obs: [true, true, true], forms: F_SET, byid: false, obs_w: 14, q_w: 3, ..d },
        "C03" => Prof { w: [8, 1, 2, 1, 0, 0, 0, 0, 0], forms: F_ALL, bq: true, q_w: 16, ..d },
        "C04" => Prof { w: [3, 6, 2, 6, 1, 0, 0, 0, 1], obs: [true, true, true], forms: F_ALL, byid: false, bq: true, obs_w: 6, q_w: 8 },
        "C05" => Prof { w: [8, 2, 5, 2, 1, 1, 0, 0, 0], obs: [true, true, true], forms: F_ALL, byid: true, bq: true, obs_w: 6, q_w: 10 },
        "C06" => Prof { w: [6, 1, 2, 1, 0, 0, 6, 0, 0], obs: [true, true, true], forms: F_SET | F_SIMS | F_TOPK | F_ONE, byid: false, obs_w: 8, q_w: 8, ..d },
        "C07" => Prof { w: [8, 0, 2, 0, 0, 0, 0, 12, 0], forms: F_SET, byid: false, q_w: 0, ..d },
        _ => panic!("profile {}", p),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Size { Small, Medium, Large, Group, Huge, Wide, Ladder }
pub fn gen_session(rng: &mut Rng, p: &Prof, size: Size) -> Session {
    if size == Size::Ladder { return gen_ladder(rng, p); }
    if size == Size::Huge || size == Size::Wide { return gen_huge(rng, p, size == Size::Wide); }
    let (large, medium, group) = (size == Size::Large, size == Size::Medium, size == Size::Group);
    let (b, r) = if large { (*rng.pick(&[5, 10, 20, 42]), *rng.pick(&[1, 3, 5])) } else if medium { (rng.range(1, 12), rng.range(1, 12)) }
        else if group { (rng.range(1, 4), rng.range(1, 4)) } else { (rng.range(1, 5), rng.range(1, 3)) };
    let n = b * r;
    let thr = threshold(rng, n);
    let nd = need(thr, n);
    let tab = large || (medium && p.w[7] == 0);
    let crowd = group && rng.chance(1, 2);      // very many different band values, the frequent one late or early
    let alpha = if large || crowd { 200 } else if medium { *rng.pick(&[3, 60, 200]) } else { rng.range(2, 5) };
    let npool = if crowd { *rng.pick(&[40usize, 90, 150, 300]) } else if large { 30 } else if medium { rng.range(6, 16) } else { rng.range(2, 10) };
    let pool = make_pool(rng, b, r, nd, npool, alpha);
    let np = pool.len();
    let cap = if rng.chance(1, 4) { Some((*rng.pick(&[0, 1, 3, 50, 5000]), *rng.pick(&[0.0, 0.5, 0.9, 1.0, 1.5]))) } else { None };
    // some signatures are only ever asked for
    let ns = if rng.chance(1, 2) { np } else { (np - rng.below(np / 2 + 1)).max(1) };
    let nid = if crowd { ns + rng.range(2, 30) } else if large { *rng.pick(&[130, 300, 1100]) } else if medium { rng.range(6, 40) } else if group { *rng.pick(&[200, 700, 1500, 3000]) } else { rng.range(1, 8) };
    let nops = if large { 14 } else if group { 4 } else { rng.range(8, 40) };
    let mut ops = Vec::new();
    let threads = |rng: &mut Rng| *rng.pick(&[1usize, 2, 3, 8]);
    let tot: usize = p.w.iter().sum::<usize>() + p.obs_w + p.q_w;
    let bulk_ok = p.w[1] > 0;
    if large {
        if bulk_ok {
            let m = rng.range(nid / 2, nid);
            ops.push(Op::BulkRange { first: 1, ss: (0..m).map(|_| rng.range(1, ns)).collect(), mode: rng.below(3), threads: threads(rng), shuffle: rng.next() });
        } else { for i in 1..=nid.min(150) { ops.push(Op::Insert(i, rng.range(1, ns))); } }
    }
    if group {  // a skewed group: the counts of the band values go far beyond a byte
        let lean = rng.range(1, 9);
        let fav = [rng.range(1, ns), rng.range(1, ns)];
        let mut ss: Vec<usize> = (0..nid).map(|_| if rng.chance(lean, 10) { *rng.pick(&fav) } else { rng.range(1, ns) }).collect();
        if crowd { ss = (0..nid).map(|i| if i < ns { i + 1 } else { fav[0] }).collect(); if rng.chance(1, 3) { rng.shuffle(&mut ss); } }
        else if rng.chance(1, 2) { ss.sort(); if rng.chance(1, 2) { ss.reverse(); } }     // no part of the group is like the whole
        ops.push(Op::BulkRange { first: 1, ss, mode: rng.below(3), threads: threads(rng), shuffle: rng.next() });
    }
    let push_query = |rng: &mut Rng, ops: &mut Vec<Op>| {
        let c = rng.below(4);
        if c == 0 && p.byid { ops.push(Op::ById(rng.range(1, nid + 1))); }
        else if c == 1 && p.bq {
            let m = if large { *rng.pick(&[0usize, 3, 40, 120]) } else { rng.range(0, 5) };
            ops.push(Op::BulkQuery { qs: (0..m).map(|_| rng.range(1, np)).collect(), sets: true, sims: p.forms & F_SIMS != 0, threads: threads(rng) });
        } else {
            let mut ks = vec![*rng.pick(&[0usize, 1, 2, 3]), rng.range(1, 6)];
            if rng.chance(1, 3) { ks.push(*rng.pick(&[1000000usize, usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) + 1, 65537, 257])); }
            ops.push(Op::Query { q: rng.range(1, np), forms: p.forms, ks });
        }
    };
    for _ in 0..nops {
        let mut x = rng.below(tot);
        let mut which = p.w.len() + 1;
        for (i, w) in p.w.iter().enumerate() { if x < *w { which = i; break; } x -= *w; }
        if which > p.w.len() && x < p.obs_w { which = p.w.len(); }
        match which {
            0 => ops.push(Op::Insert(rng.range(1, nid), rng.range(1, ns))),
            1 => {
                if large && rng.chance(1, 3) {
                    let first = rng.range(1, nid); let m = rng.range(1, nid - first + 1);
                    ops.push(Op::BulkRange { first, ss: (0..m).map(|_| rng.range(1, ns)).collect(), mode: rng.below(3), threads: threads(rng), shuffle: rng.next() });
                } else {
                    let m = if medium { rng.range(0, 30) } else if large { *rng.pick(&[5, 70, 150, 300]) } else { rng.range(0, 6) };
                    ops.push(Op::Bulk { batch: (0..m).map(|_| (rng.range(1, nid), rng.range(1, ns))).collect(), pairs: rng.chance(1, 2), threads: threads(rng) });
                }
            }
            2 => ops.push(Op::Remove(rng.range(1, nid + 1))),
            3 => { let m = if large { rng.range(1, nid.min(200)) } else if medium { rng.range(0, 20) } else { rng.range(0, 5) }; ops.push(Op::BulkRemove { ids: (0..m).map(|_| rng.range(1, nid + 1)).collect(), threads: threads(rng) }); }
            4 => if rng.chance(1, 2) { ops.push(Op::Clear) },
            5 => ops.push(if rng.chance(1, 3) { Op::ShrinkFit } else { Op::ShrinkTo(*rng.pick(&[0usize, 1, 2, 5, 100, 2000, 1000000])) }),
            6 => {
                let m = if large { *rng.pick(&[5, 70, 130, 600]) } else { rng.range(1, 5) };
                let batch: Vec<_> = (0..m).map(|_| (rng.range(1, nid), rng.range(1, ns))).collect();
                let delta = *rng.pick(&[-1isize, 1, -(n as isize), 2, n as isize, -(r as isize), r as isize]);
                ops.push(Op::Reject { form: rng.below(3), pos: rng.below(m), batch, delta });
                for q in 1..=np.min(3) { ops.push(Op::Query { q, forms: p.forms, ks: vec![1, 10] }); }
                ops.push(Op::Obs { map: true, get: vec![], buckets: true });
            }
            7 => {
                // known to hold at least one indexed id: insert one of the group just before
                let m = if group { if rng.chance(1, 2) { nid } else { rng.range(nid / 2, nid) } } else if medium { rng.range(1, 40) } else { rng.range(1, 9) };
                let g: Vec<usize> = if group && rng.chance(1, 2) { (1..=m).collect() } else { (0..m).map(|_| rng.range(1, nid + 1)).collect() };
                let anchor = g[rng.below(m)];
                ops.push(Op::Insert(anchor, rng.range(1, ns)));
                ops.push(Op::Cent(g));
            }
            8 => {
                let m = if large { 70 } else { rng.range(0, 6) };
                ops.push(Op::BulkSig { docs: (0..m).map(|_| (0..rng.below(6)).map(|_| rng.below(9) as u64).collect()).collect(), threads: threads(rng) });
            }
            9 => ops.push(Op::Obs { map: p.obs[0], get: if p.obs[1] { vec![rng.range(1, nid + 1), rng.range(1, nid)] } else { vec![] }, buckets: p.obs[2] }),
            _ => push_query(rng, &mut ops),
        }
    }
    // closing observations
    for _ in 0..3 { if p.q_w > 0 { push_query(rng, &mut ops); } }
    if p.obs_w > 0 { ops.push(Op::Obs { map: p.obs[0], get: vec![], buckets: p.obs[2] }); }
    Session { b, r, thr, tab, pool, ops, cap }
}

/// Thousands of ids, most of them in the same buckets; or (wide) few ids and thousands of queries
pub fn gen_huge(rng: &mut Rng, p: &Prof, wide: bool) -> Session {
    let (b, r) = *rng.pick(&[(10usize, 3usize), (20, 5), (42, 5), (100, 4), (250, 2), (3, 70)]);
    let n = b * r;
    let thr = threshold(rng, n).min(0.9);
    let pool = make_pool(rng, b, r, need(thr, n), if wide { 60 } else { 14 }, 200);
    let np = pool.len();
    let ns = (np - rng.below(np / 2 + 1)).max(1);
    let nid = if wide { rng.range(3, 12) } else { *rng.pick(&[1100, 2500, 5000]) };
    let threads = |rng: &mut Rng| *rng.pick(&[1usize, 2, 3, 8]);
    let fav = rng.range(1, ns);
    let pick = |rng: &mut Rng| if rng.chance(2, 3) { fav } else { rng.range(1, ns) };
    let mode = |rng: &mut Rng| if p.w[1] > 0 { rng.below(3) } else { 2 };
    let mut ops = vec![Op::BulkRange { first: 1, ss: (0..nid).map(|_| pick(rng)).collect(), mode: mode(rng), threads: threads(rng), shuffle: rng.next() }];
    let ask = |rng: &mut Rng, ops: &mut Vec<Op>| {
        if p.q_w > 0 {
            let q = if rng.chance(1, 2) { fav } else { rng.range(1, np) };
            ops.push(Op::Query { q, forms: p.forms, ks: vec![*rng.pick(&[1usize, 10, 100, 1000]), nid / 2, 1000000] });
            if p.byid { ops.push(Op::ById(rng.range(1, nid))); }
            if p.bq {
                let m = if wide { *rng.pick(&[300usize, 1100, 2500]) } else { rng.range(0, 4) };
                ops.push(Op::BulkQuery { qs: (0..m).map(|_| rng.range(1, np)).collect(), sets: true, sims: p.forms & F_SIMS != 0, threads: threads(rng) });
            }
        }
        if p.obs_w > 0 { ops.push(Op::Obs { map: p.obs[0], get: if p.obs[1] { vec![1, nid / 2, nid, nid + 1] } else { vec![] }, buckets: p.obs[2] }); }
    };
    ask(rng, &mut ops);
    for _ in 0..if wide { 1 } else { 3 } {
        let first = rng.range(1, nid);
        let count = rng.range(1, nid - first + 1);
        match rng.below(4) {
            0 => ops.push(Op::BulkRange { first, ss: (0..count).map(|_| pick(rng)).collect(), mode: mode(rng), threads: threads(rng), shuffle: rng.next() }),
            1 if p.w[8] > 0 => { let docs = (0..*rng.pick(&[1200usize, 300])).map(|i| (0..if i % 100 == 7 { 3000 } else { rng.below(4) }).map(|_| rng.below(9000) as u64).collect()).collect(); ops.push(Op::BulkSig { docs, threads: threads(rng) }); }
            _ if p.w[6] > 0 => {
                let m = *rng.pick(&[nid, nid.min(1030), nid.min(300)]);
                let batch: Vec<_> = (0..m).map(|i| (i + 1, pick(rng))).collect();
                ops.push(Op::Reject { form: rng.range(1, 2), pos: rng.below(m), batch, delta: *rng.pick(&[-1isize, 1, r as isize]) });
            }
            _ => ops.push(Op::RemoveRange { first, count, bulk: p.w[3] > 0 && rng.chance(1, 2), threads: threads(rng) }),
        }
        ask(rng, &mut ops);
    }
    Session { b, r, thr, tab: true, pool, ops, cap: if rng.chance(1, 3) { Some((*rng.pick(&[0, 1000, 5000]), 0.5)) } else { None } }
}

/// Very many hash positions, and many candidates at many different distances from one signature,
/// each sharing with it one band that may lie anywhere (mostly late)
pub fn gen_ladder(rng: &mut Rng, p: &Prof) -> Session {
    let (b, r) = *rng.pick(&[(100usize, 4usize), (300, 1), (64, 8), (600, 1), (20, 5), (42, 5), (128, 3), (10, 30), (7, 90), (30, 2)]);
    let n = b * r;
    let thr = if rng.chance(1, 2) { *rng.pick(&[0.0, 0.001, 0.02, 0.1]) } else { threshold(rng, n).min(0.5) };
    let size = if b > 200 { 40 } else { *rng.pick(&[18usize, 34, 70, 120]) };
    let base: Vec<usize> = (0..n).map(|_| rng.below(200)).collect();
    let mut pool = vec![base.clone()];
    let mut guard = 0;
    while pool.len() < size && guard < 10 * size {
        guard += 1;
        let keep = if rng.chance(2, 3) { b - 1 - rng.below((b / 3).max(1)) } else { rng.below(b) };
        let mut v = base.clone();
        let mut change: HashSet<usize> = HashSet::new();
        if rng.chance(3, 4) { for k in 0..b { if k != keep { change.insert(k * r + rng.below(r)); } } }      // no other band in common
        let mut others: Vec<usize> = (0..n).filter(|i| i / r != keep).collect();
        rng.shuffle(&mut others);
        let m = rng.range(0, others.len());
        change.extend(others.into_iter().take(m));
        for i in change { v[i] = (v[i] + 1 + rng.below(199)) % 200; }
        if !pool.contains(&v) { pool.push(v); }
    }
    let np = pool.len();
    let threads = |rng: &mut Rng| *rng.pick(&[1usize, 2, 3, 8]);
    let mode = |rng: &mut Rng| if p.w[1] > 0 { rng.below(3) } else { 2 };
    let nid = np + rng.below(10);
    let mut ss: Vec<usize> = (0..nid).map(|i| i % np + 1).collect();
    rng.shuffle(&mut ss);
    let mut ops = vec![Op::BulkRange { first: 1, ss, mode: mode(rng), threads: threads(rng), shuffle: rng.next() }];
    for round in 0..3 {
        if p.q_w > 0 {
            for _ in 0..4 {
                let q = if rng.chance(2, 3) { 1 } else { rng.range(1, np) };
                ops.push(Op::Query { q, forms: p.forms, ks: vec![rng.range(1, 4), rng.range(2, 20), np / 2, np, 1000000] });
            }
            if p.byid { ops.push(Op::ById(rng.range(1, nid))); }
            if p.bq { ops.push(Op::BulkQuery { qs: (0..4).map(|_| rng.range(1, np)).collect(), sets: true, sims: p.forms & F_SIMS != 0, threads: threads(rng) }); }
        }
        if p.obs_w > 0 { ops.push(Op::Obs { map: p.obs[0], get: if p.obs[1] { vec![1, nid / 2, nid, nid + 1] } else { vec![] }, buckets: p.obs[2] }); }
        if round == 0 { for _ in 0..3 { ops.push(Op::Remove(rng.range(1, nid))); ops.push(Op::Insert(rng.range(1, nid), rng.range(1, np))); } }
        if round == 1 { ops.push(Op::RemoveRange { first: rng.range(1, nid / 2), count: nid / 3, bulk: p.w[3] > 0, threads: threads(rng) }); }
    }
    Session { b, r, thr, tab: true, pool, ops, cap: None }
}

/// Very many documents: id i in 0..n has the value i mod m in every position, then ids below x go.
/// The content is a formula, so that the specification can follow it.
pub fn mass(rng: &mut Rng, n: usize, m: usize) {
    fn go<C: IdContainer<u64>>(rng: &mut Rng, kind: &str, n: usize, m: usize) {
        let (b, r) = (rng.range(1, 4), rng.range(1, 3));
        let mul = rng.next() | 1;
        let sig = |i: usize| -> Vec<u64> { (0..b * r).map(|p| ((i % m) as u64).wrapping_mul(mul).wrapping_add(p as u64)).collect() };
        emit(format!("{{\"op\":\"new\",\"tab\":true,\"b\":{},\"r\":{},\"need\":1,\"thr\":\"0.5\",\"t\":\"mass {}\",\"pool\":[],\"match\":[],\"share\":[],\"band\":[]}}", b, r, kind));
        let bulk = rng.chance(1, 2);
        let x = rng.range(1, n - 1);
        let qs: Vec<usize> = (0..if n / m > 2000 { 2 } else { 6 }).map(|_| rng.below(m)).collect();
        let res = call("many documents", || {
            let mut idx = MinHashIndex::<u64, u64, C>::new_index(b, r, 0.5);
            let mut lines = vec![];
            if bulk { idx.par_bulk_insert((0..n as u64).collect(), (0..n).map(sig).collect()); } else { for i in 0..n { idx.insert(i as u64, sig(i)); } }
            for from in [0, x] {
                if from > 0 { if bulk { idx.bulk_remove(&(0..x as u64).collect()); } else { for i in 0..x { idx.remove(&(i as u64)); } } }
                let q: Vec<String> = qs.iter().map(|j| { let mut v: Vec<u64> = idx.query(&sig(*j)).into_iter().copied().collect(); v.sort(); format!("[{},{},{}]", j, arr(&v), idx.query_top_k(&sig(*j), n).len()) }).collect();
                lines.push(format!("{{\"op\":\"mass\",\"n\":{},\"m\":{},\"x\":{},\"size\":{},\"buckets\":{},\"qs\":{}}}", n, m, from, idx.size(), arr(&idx.band_sizes().sizes), arr(&q)));
            }
            lines
        });
        match res { Ok(v) => for l in v { emit(l) }, Err(w) => emit_panic(&w) }
        end_session();
    }
    match rng.below(3) { 0 => go::<HashSetContainer<u64>>(rng, "set", n, m), 1 => go::<VecContainer<u64>>(rng, "vec", n, m), _ => go::<SmallVecContainer<u64, 2>>(rng, "smallvec", n, m) }
}

/// The centroid of very many documents: a few signatures, each of which many documents have.
pub fn mass_cent(rng: &mut Rng, counts: &[usize]) {
    let (b, r) = (rng.range(1, 5), rng.range(1, 4));
    let n: usize = counts.iter().sum();
    let sigs: Vec<Vec<usize>> = (0..counts.len()).map(|i| (0..b * r).map(|p| if rng.chance(1, 3) { p % 3 } else { 3 + i }).collect()).collect();
    let mut of: Vec<usize> = counts.iter().enumerate().flat_map(|(i, c)| std::iter::repeat(i).take(*c)).collect();
    rng.shuffle(&mut of);
    emit(format!("{{\"op\":\"new\",\"tab\":true,\"b\":{},\"r\":{},\"need\":1,\"thr\":\"0.5\",\"t\":\"centroid of many\",\"pool\":[],\"match\":[],\"share\":[],\"band\":[]}}", b, r));
    let salt = rng.next() as u32;
    let res = call("centroid of many documents", || {
        let mut idx = MinHashIndex::<u32, u32, VecContainer<u32>>::new_index(b, r, 0.5);
        idx.par_bulk_insert((0..n as u32).collect(), of.iter().map(|i| sigs[*i].iter().map(|x| (*x as u32) ^ salt).collect()).collect());
        let c = idx.calculate_centroid(&(0..n as u32).collect::<Vec<_>>());
        let found = if c.len() == b * r { idx.query(&c).len() } else { 0 };
        let c: Vec<u32> = c.iter().map(|x| x ^ salt).map(|x| if x < 1000 { x } else { 1000 }).collect();
        format!("{{\"op\":\"masscent\",\"sigs\":{},\"counts\":{},\"cent\":{},\"found\":{}}}", arr2(&sigs), arr(counts), arr(&c), found)
    });
    match res { Ok(l) => emit(l), Err(w) => emit_panic(&w) }
    end_session();
}

pub fn random(prof: &str, seed: u64, n: usize) {
    let p = profile(prof);
    let mut rng = Rng::new(seed ^ 0xC0FFEE);
    match prof {
        "C01" | "C02" | "C03" | "C05" => { mass(&mut rng, 150_000, 150_000); mass(&mut rng, 70_000, 20_000); mass(&mut rng, 3_000, 7); mass(&mut rng, 24_000, 2); }
        "C04" => { mass(&mut rng, 70_000, 30_000); mass(&mut rng, 3_000, 7); mass(&mut rng, 24_000, 2); }
        "C07" => { mass_cent(&mut rng, &[65_540, 40, 300]); mass_cent(&mut rng, &[33_000, 32_900, 66_000, 5]); let v: Vec<usize> = (0..9).map(|_| rng.range(1, 9_000)).collect(); mass_cent(&mut rng, &v); mass_cent(&mut rng, &[131_071, 65_536, 1]) }
        _ => (),
    }
    for i in 0..n {
        let huge = if prof == "C05" { 35 } else { 47 };
        let size = if i % huge == 5 && prof != "C07" { Size::Huge } else if i % (2 * huge) == 30 && p.bq { Size::Wide } else if i % 30 == 8 && prof != "C07" { Size::Ladder } else if i % 12 == 11 { if prof == "C07" { Size::Group } else { Size::Large } } else if i % 6 == 3 { Size::Medium } else { Size::Small };
        let kinds = if matches!(size, Size::Huge) { NK - 3 } else { NK };     // thousands of clashing ids would take minutes
        let s = gen_session(&mut rng, &p, size);
        if prof == "C05" {
            let sd = rng.next();
            for c in 0..5 { run(&s, c, sd); }
            for _ in 0..3 { run(&s, 5 + rng.below(kinds - 5), sd); }
            containers(&mut rng);
        } else {
            let k = rng.below(kinds); run(&s, k, rng.next());
        }
    }
}

/// Sessions generated by TLC: {"b","r","need","pool","ops":[...]}; every behaviour is run on
/// the three kinds of container.
pub fn script(prof: &str, path: &str, seed: u64) {
    use serde_json::Value;
    let p = profile(prof);
    let mut rng = Rng::new(seed ^ 0x5C121);
    let text = std::fs::read_to_string(path).unwrap();
    let us = |v: &Value| v.as_u64().unwrap() as usize;
    let usv = |v: &Value| -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
    for (lineno, line) in text.lines().enumerate() {
        let v: Value = serde_json::from_str(line).unwrap();
        let (b, r) = (us(&v["b"]), us(&v["r"]));
        let nd = us(&v["need"]);
        let pool: Vec<Vec<usize>> = v["pool"].as_array().unwrap().iter().map(|x| usv(x)).collect();
        let np = pool.len();
        let mut ops = Vec::new();
        for o in v["ops"].as_array().unwrap() {
            let batch = |o: &Value| -> Vec<(usize, usize)> { o["batch"].as_array().unwrap().iter().map(|x| (us(&x[0]), us(&x[1]))).collect() };
            match o["op"].as_str().unwrap() {
                "insert" => ops.push(Op::Insert(us(&o["id"]), us(&o["s"]))),
                "remove" => ops.push(Op::Remove(us(&o["id"]))),
                "bulk" => ops.push(Op::Bulk { batch: batch(o), pairs: rng.chance(1, 2), threads: *rng.pick(&[1usize, 2, 8]) }),
                "bulkremove" => ops.push(Op::BulkRemove { ids: usv(&o["ids"]), threads: *rng.pick(&[1usize, 2, 8]) }),
                "clear" => ops.push(Op::Clear),
                x => panic!("op {}", x),
            }
            if p.obs_w > 0 { ops.push(Op::Obs { map: p.obs[0], get: if p.obs[1] { vec![1, 2] } else { vec![] }, buckets: p.obs[2] }); }
            if p.w[5] > 0 && rng.chance(1, 4) { ops.push(if rng.chance(1, 2) { Op::ShrinkFit } else { Op::ShrinkTo(rng.below(4)) }); }
            if p.w[6] > 0 && rng.chance(1, 2) {
                let batch: Vec<_> = (0..rng.range(1, 3)).map(|_| (rng.range(1, 3), rng.range(1, np))).collect();
                ops.push(Op::Reject { form: rng.below(3), pos: rng.below(batch.len()), batch, delta: *rng.pick(&[-1, 1]) });
            }
            if p.q_w > 0 { ops.push(Op::Query { q: rng.range(1, np), forms: p.forms, ks: vec![1, 2, 9] }); }
        }
        if p.q_w > 0 { for q in 1..=np { ops.push(Op::Query { q, forms: p.forms, ks: vec![0, 1, 2, 9] }); } }
        if p.w[7] > 0 { for i in 1..=3 { ops.push(Op::Insert(i, rng.range(1, np))); ops.push(Op::Cent(vec![i, rng.range(1, 4), rng.range(1, 4)])); } }
        let s = Session { b, r, thr: nd as f64 / (b * r) as f64, tab: false, pool, ops, cap: None };
        if prof == "C05" { for c in 0..3 { run(&s, c, lineno as u64); } run(&s, 3 + rng.below(NK - 3), lineno as u64); }
        else { run(&s, lineno % NK, lineno as u64); }
    }
}

fn main() {
    let a = Args::get();
    init(&a.out, a.shards);
    DESC.store(a.profile == "C02", std::sync::atomic::Ordering::Relaxed);
    random(&a.profile, a.seed, a.count);
    if let Some(f) = &a.script { script(&a.profile, f, a.seed); }
    finish();
}
