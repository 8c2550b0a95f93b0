//! SimHash index: sessions executed on the real index.
use conform::tr::*;
use gaoya::simhash::{SimHashBits, SimHashIndex};
use std::collections::HashMap;
use std::hash::Hash;

#[derive(Clone, Debug)]
enum Op {
    Insert(usize, usize),
    Bulk { batch: Vec<(usize, usize)>, pairs: bool, threads: usize },
    /// consecutive ids; mode 0 lists, 1 pairs, 2 one by one
    BulkRange { first: usize, ss: Vec<usize>, mode: usize, threads: usize },
    Size,
    Query(usize),
    BulkQuery { qs: Vec<usize>, threads: usize },
}
struct Session { w: usize, nb: usize, k: usize, pool: Vec<u128>, ops: Vec<Op>, tab: bool }

trait Bits: SimHashBits + Send + Sync { fn of(x: u128) -> Self; }
impl Bits for u64 { fn of(x: u128) -> u64 { x as u64 } }
impl Bits for u128 { fn of(x: u128) -> u128 { x } }
trait Key: Hash + Eq + Clone + Send + Sync { fn of(i: usize) -> Self; }
impl Key for u64 { fn of(i: usize) -> u64 { (i as u64).wrapping_mul(0x9E3779B97F4A7C15) } }
impl Key for String { fn of(i: usize) -> String { format!("doc{}", i) } }

fn dist(a: u128, b: u128, w: usize) -> usize { (0..w).filter(|i| (a >> i) & 1 != (b >> i) & 1).count() }

fn run<S: Bits, Id: Key>(s: &Session) {
    let maxid = s.ops.iter().map(|o| match o { Op::Insert(i, _) => *i, Op::Bulk { batch, .. } => batch.iter().map(|x| x.0).max().unwrap_or(0),
        Op::BulkRange { first, ss, .. } => first + ss.len(), _ => 0 }).max().unwrap_or(0);
    let ids: Vec<Id> = (0..=maxid).map(Id::of).collect();
    let label: HashMap<Id, usize> = ids.iter().enumerate().map(|(i, v)| (v.clone(), i)).collect();
    let lab = |i: &Id| -> i64 { label.get(i).map(|x| *x as i64).unwrap_or(-7) };
    let sg: Vec<S> = s.pool.iter().map(|x| S::of(*x)).collect();
    let body = if s.tab {
        let d: Vec<Vec<usize>> = s.pool.iter().map(|a| s.pool.iter().map(|b| dist(*a, *b, s.w)).collect()).collect();
        format!("\"pool\":[],\"dist\":{}", arr2(&d))
    } else {
        let p: Vec<Vec<u128>> = s.pool.iter().map(|a| (0..s.w / 4).map(|j| (a >> (4 * j)) & 15).collect()).collect();
        format!("\"pool\":{},\"dist\":[]", arr2(&p))
    };
    emit(format!("{{\"op\":\"new\",\"tab\":{},\"w\":{},\"nb\":{},\"k\":{},{}}}", s.tab, s.w, s.nb, s.k, body));
    let mut idx = match call("constructor", || SimHashIndex::<S, Id>::new(s.nb, s.k)) { Ok(i) => i, Err(w) => { emit_panic(&w); end_session(); return; } };
    for op in &s.ops {
        let r: Result<String, String> = match op {
            Op::Insert(i, k) => call("insert", || idx.insert(ids[*i].clone(), sg[*k - 1])).map(|_| format!("{{\"op\":\"insert\",\"id\":{},\"s\":{}}}", i, k)),
            Op::Bulk { batch, pairs: p, threads } => call("bulk insert", || with_threads(*threads, || {
                if *p { idx.par_bulk_insert_pairs(batch.iter().map(|(i, k)| (ids[*i].clone(), sg[*k - 1])).collect()) }
                else { idx.par_bulk_insert(batch.iter().map(|x| ids[x.0].clone()).collect(), batch.iter().map(|x| sg[x.1 - 1]).collect()) }
            })).map(|_| format!("{{\"op\":\"bulk\",\"batch\":{},\"pairs\":{},\"threads\":{}}}", pairs(batch), p, threads)),
            Op::BulkRange { first, ss, mode, threads } => call("bulk insert", || if *mode == 2 { for (j, k) in ss.iter().enumerate() { idx.insert(ids[first + j].clone(), sg[*k - 1]) } } else { with_threads(*threads, || {
                if *mode == 1 { idx.par_bulk_insert_pairs(ss.iter().enumerate().map(|(j, k)| (ids[first + j].clone(), sg[*k - 1])).collect()) }
                else { idx.par_bulk_insert((0..ss.len()).map(|j| ids[first + j].clone()).collect(), ss.iter().map(|k| sg[*k - 1]).collect()) }
            }) }).map(|_| format!("{{\"op\":\"bulkrange\",\"first\":{},\"ss\":{},\"threads\":{}}}", first, arr(ss), threads)),
            Op::Size => call("size", || idx.size()).map(|n| format!("{{\"op\":\"size\",\"size\":{}}}", n)),
            Op::Query(q) => { let x = &sg[*q - 1]; call("query", || {
                let mut a: Vec<i64> = idx.query(x).into_iter().map(|i| lab(i)).collect(); a.sort();
                let mut b: Vec<i64> = idx.query_owned(x).iter().map(|i| lab(i)).collect(); b.sort();
                let d: Vec<(i64, usize)> = idx.query_return_distance(x).iter().map(|(i, d)| (lab(i), *d)).collect();
                let o: Vec<i64> = idx.query_one(x).map(|(i, d)| vec![lab(i), d as i64]).unwrap_or_default();
                format!("{{\"op\":\"q\",\"q\":{},\"set\":{},\"owned\":{},\"dists\":{},\"one\":{}}}", q, arr(&a), arr(&b), pairs(&d), arr(&o))
            }) }
            Op::BulkQuery { qs, threads } => {
                let v: Vec<S> = qs.iter().map(|q| sg[*q - 1]).collect();
                let (idx, lab) = (&idx, &lab);
                call("bulk query", || {
                    let r = with_threads(*threads, || idx.par_bulk_query(&v));
                    let r: Vec<Vec<i64>> = r.iter().map(|x| { let mut y: Vec<i64> = x.iter().map(|i| lab(i)).collect(); y.sort(); y }).collect();
                    let d = with_threads(*threads, || idx.par_bulk_query_return_distance(&v));
                    let d: Vec<String> = d.iter().map(|x| pairs(&x.iter().map(|(i, y)| (lab(i), *y)).collect::<Vec<_>>())).collect();
                    format!("{{\"op\":\"bq\",\"qs\":{},\"threads\":{},\"sets\":{},\"dists\":{}}}", arr(qs), threads, arr2(&r), arr(&d))
                })
            }
        };
        match r { Ok(l) => emit(l), Err(w) => { emit_panic(&w); break; } }
    }
    end_session();
}
fn go(s: &Session, rng: &mut Rng) {
    match (s.w, rng.chance(1, 2)) {
        (64, true) => run::<u64, u64>(s), (64, false) => run::<u64, String>(s),
        (_, true) => run::<u128, u64>(s), (_, false) => run::<u128, String>(s),
    }
}

fn binom(n: usize, k: usize) -> f64 { (0..k).fold(1.0, |x, i| x * (n - i) as f64 / (i + 1) as f64) }
fn block(w: usize, nb: usize, i: usize) -> std::ops::Range<usize> { (i * w) / nb..((i + 1) * w) / nb }

fn rnd128(rng: &mut Rng, w: usize) -> u128 {
    let x = (rng.next() as u128) << 64 | rng.next() as u128;
    if w == 64 { x & (u64::MAX as u128) } else { x }
}
/// flips d bits of x: spread over distinct blocks, concentrated, at block borders or anywhere
fn flip(rng: &mut Rng, x: u128, w: usize, nb: usize, d: usize) -> u128 {
    let mut bits: Vec<usize> = Vec::new();
    let mode = rng.below(4);
    let mut blocks: Vec<usize> = (0..nb).collect();
    rng.shuffle(&mut blocks);
    let mut guard = 0;
    while bits.len() < d.min(w) && guard < 100000 {
        guard += 1;
        let b = match mode { 0 | 1 => blocks[bits.len() % nb], 2 => blocks[0], _ => rng.below(nb) };
        let r = block(w, nb, b);
        let bit = if mode == 1 && guard < 50 { if rng.chance(1, 2) { r.start } else { r.end - 1 } } else if mode == 2 && guard > 500 { rng.below(w) } else { rng.range(r.start, r.end - 1) };
        if !bits.contains(&bit) { bits.push(bit); }
    }
    bits.iter().fold(x, |x, b| x ^ (1u128 << b))
}

/// thousands of ids close together; or (wide) a few ids and thousands of queries
fn huge(rng: &mut Rng, wide: bool, many: usize) {
    let w = *rng.pick(&[64usize, 128]);
    let (nb, k) = *rng.pick(&[(4usize, 3usize), (6, 3), (5, 0), (8, 6), (3, 1), (10, 9)]);
    let np = if wide { 60 } else { 14 };
    let mut pool: Vec<u128> = vec![rnd128(rng, w)];
    while pool.len() < np {
        let base = *rng.pick(&pool);
        let d = match rng.below(5) { 0 => k, 1 => k + 1, 2 => rng.below(k + 1), 3 => 1, _ => rng.below(3 * k + 3) };
        let v = if rng.chance(1, 6) { rnd128(rng, w) } else { flip(rng, base, w, nb, d) };
        if !pool.contains(&v) { pool.push(v); }
    }
    let ns = np - rng.below(np / 2);
    let nid = if many > 0 { many } else if wide { rng.range(3, 12) } else { *rng.pick(&[300, 1100, 2500, 5000]) };
    let fav = rng.range(1, ns);
    let pick = |rng: &mut Rng| if rng.chance(2, 3) { fav } else { rng.range(1, ns) };
    let th = |rng: &mut Rng| *rng.pick(&[1usize, 2, 8]);
    let mut ops = vec![];
    for round in 0..2 {
        let first = if round == 0 { 1 } else { rng.range(1, nid) };
        let count = if round == 0 { nid } else { rng.range(1, nid - first + 1) };
        ops.push(Op::BulkRange { first, ss: (0..count).map(|_| pick(rng)).collect(), mode: rng.below(3), threads: th(rng) });
        for _ in 0..3 { ops.push(Op::Query(if rng.chance(1, 2) { fav } else { rng.range(1, np) })); }
        let m = if wide { *rng.pick(&[300usize, 1100, 2500]) } else { 3 };
        ops.push(Op::BulkQuery { qs: (0..m).map(|_| rng.range(1, np)).collect(), threads: th(rng) });
        ops.push(Op::Size);
    }
    go(&Session { w, nb, k, pool, ops, tab: true }, rng);
}

/// layouts with thousands of tables: every pair of signatures that differ in k blocks meets in one of them
fn tables(rng: &mut Rng, nb: usize, k: usize) {
    let w = if nb > 64 { 128 } else { *rng.pick(&[64usize, 128]) };
    let base = rnd128(rng, w);
    let mut pool = vec![base];
    while pool.len() < 24 {
        let mut blocks: Vec<usize> = (0..nb).collect(); rng.shuffle(&mut blocks);
        let d = if pool.len() % 5 == 4 { k + 1 } else { k };
        let v = blocks.iter().take(d).fold(base, |x, b| { let r = block(w, nb, *b); x ^ (1u128 << rng.range(r.start, r.end - 1)) });
        if !pool.contains(&v) { pool.push(v); }
    }
    let mut ops = vec![Op::Insert(1, 1), Op::Insert(2, 2), Op::Insert(3, 24)];
    for q in 1..=24 { ops.push(Op::Query(q)); }
    ops.push(Op::BulkQuery { qs: (1..=24).collect(), threads: 8 });
    go(&Session { w, nb, k, pool, ops, tab: true }, rng);
}

fn random(seed: u64, n: usize) {
    let mut rng = Rng::new(seed ^ 0x51A5);
    huge(&mut rng, false, 20_000); huge(&mut rng, false, 9_000);
    for (nb, k) in [(20, 3), (32, 3), (24, 4), (16, 8), (64, 2), (64, 3), (128, 2), (14, 7), (18, 5)] { tables(&mut rng, nb, k); }
    for i in 0..n {
        if i % 50 == 7 { huge(&mut rng, i % 100 == 57, 0); continue; }
        let large = i % 15 == 14;
        let w = *rng.pick(&[64usize, 128]);
        let cap = if large { 60.0 } else { 900.0 };
        let (nb, k) = loop {
            let nb = match rng.below(6) { 5 => *rng.pick(&[w, w / 2, w - 1, 33, 48]), 4 => rng.range(2, 12), 0 => rng.range(1, 8), 1 => rng.range(1, 16), 2 => *rng.pick(&[7usize, 9, 10, 11, 13, 3]), _ => rng.range(1, 32) };
            let k = if nb > 32 { *rng.pick(&[0, 1, nb - 1]) } else if rng.chance(1, 3) { nb - 1 - rng.below(nb.min(3)) } else { rng.below(nb) };
            if binom(nb, k) <= cap { break (nb, k); }
        };
        let np = if large { 40 } else { rng.range(2, 10) };
        let mut pool: Vec<u128> = vec![rnd128(&mut rng, w)];
        if rng.chance(1, 8) { pool[0] = 0; }
        while pool.len() < np {
            let base = *rng.pick(&pool);
            let d = match rng.below(6) { 0 | 1 => k, 2 => k + 1, 3 => rng.below(k + 1), 4 => 1, _ => rng.below(2 * k + 3) };
            let v = if rng.chance(1, 12) { rnd128(&mut rng, w) } else if rng.chance(1, 20) { if w == 64 { !base & u64::MAX as u128 } else { !base } } else { flip(&mut rng, base, w, nb, d) };
            if !pool.contains(&v) || rng.chance(1, 20) { pool.push(v); }
        }
        let nid = if large { 400 } else { rng.range(1, 12) };
        // part of the signatures is only asked for, so that the nearest match is not the document itself
        let ns = if rng.chance(1, 3) { np } else { (np - rng.below(np / 2 + 1)).max(1) };
        let first = np - ns + 1;
        let th = |rng: &mut Rng| *rng.pick(&[1usize, 2, 8]);
        let mut ops = Vec::new();
        if large { let m = rng.range(150, nid - 20); ops.push(Op::BulkRange { first: 1, ss: (0..m).map(|_| rng.range(first, np)).collect(), mode: rng.below(3), threads: th(&mut rng) }); }
        for _ in 0..(if large { 12 } else { rng.range(6, 26) }) {
            match rng.below(10) {
                0 | 1 | 2 => ops.push(Op::Insert(rng.range(1, nid), rng.range(first, np))),
                3 => { let m = rng.range(0, 5); ops.push(Op::Bulk { batch: (0..m).map(|_| (rng.range(1, nid), rng.range(first, np))).collect(), pairs: rng.chance(1, 2), threads: th(&mut rng) }); }
                4 => ops.push(Op::Size),
                5 => { let m = if large { *rng.pick(&[3usize, 110]) } else { rng.range(0, 5) }; ops.push(Op::BulkQuery { qs: (0..m).map(|_| rng.range(1, np)).collect(), threads: th(&mut rng) }); }
                _ => ops.push(Op::Query(rng.range(1, np))),
            }
        }
        for q in 1..=np.min(8) { ops.push(Op::Query(q)); }
        ops.push(Op::Size);
        go(&Session { w, nb, k, pool, ops, tab: large }, &mut rng);
    }
}

/// placements enumerated by TLC: all of one layout make one session
fn script(path: &str, seed: u64) {
    use serde_json::Value;
    let mut rng = Rng::new(seed ^ 0x77);
    let mut groups: std::collections::BTreeMap<(usize, usize), Vec<(Vec<usize>, String)>> = Default::default();
    for line in std::fs::read_to_string(path).unwrap().lines() {
        let v: Value = serde_json::from_str(line).unwrap();
        let key = (v["nb"].as_u64().unwrap() as usize, v["k"].as_u64().unwrap() as usize);
        groups.entry(key).or_default().push((v["place"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(), v["edge"].as_str().unwrap().to_string()));
    }
    for ((nb, k), places) in groups {
        for w in [64usize, 128] {
            for chunk in places.chunks(40) {
                let base = rnd128(&mut rng, w);
                let mut pool = vec![base];
                for (p, edge) in chunk {
                    let mut x = base;
                    for (b, n) in p.iter().enumerate() {
                        let r = block(w, nb, b);
                        for j in 0..*n {
                            let len = r.end - r.start;
                            let bit = match edge.as_str() { "low" => r.start + j, "high" => r.end - 1 - j, _ => r.start + (len / 2 + j) % len };
                            x ^= 1u128 << bit;
                        }
                    }
                    pool.push(x);
                }
                let np = pool.len();
                let mut ops: Vec<Op> = Vec::new();
                // everything but the base indexed, base asked; then the base indexed, everything asked
                for s in 2..=np { ops.push(Op::Insert(s, s)); }
                ops.push(Op::Query(1));
                ops.push(Op::Insert(1, 1));
                for s in 2..=np { ops.push(Op::Query(s)); }
                ops.push(Op::Size);
                // overwritten by the base: only the distances to it count now
                for s in 2..=np.min(6) { ops.push(Op::Insert(s, 1)); ops.push(Op::Query(s)); }
                ops.push(Op::Size);
                go(&Session { w, nb, k, pool, ops, tab: true }, &mut rng);
            }
        }
    }
}

fn main() {
    let a = Args::get();
    init(&a.out, a.shards);
    random(a.seed, a.count);
    if let Some(f) = &a.script { script(f, a.seed); }
    finish();
}
