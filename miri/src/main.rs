//! Runs inside Miri: one seed is one schedule in Rust's memory model, including what relaxed atomics may let
//! a thread see. Prints the sessions that the other drivers (`cl`, `share`) would record, one line each.
//! Arguments: cluster|min|sim NUMBER
use gaoya::clustering::clusterer_parallel::*;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::*;
use gaoya::simhash::*;
use std::collections::{BTreeSet, HashSet};
type P = ClusterPoint<usize>;

struct Table { points: Vec<P>, adj: Vec<Vec<usize>> }
impl QueryIndex for Table {
    type Id = P;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> { self.adj[id.id].iter().map(|q| &self.points[*q]).collect() }
}
fn list<T: std::fmt::Display>(v: impl IntoIterator<Item = T>) -> String {
    let mut s = String::from("[");
    for x in v { if s.len() > 1 { s.push(',') } s += &x.to_string(); }
    s + "]"
}
fn cluster(shape: usize) {
    let (n, threads, min) = [(3, 2, 2), (4, 2, 2), (3, 3, 2), (5, 2, 2), (4, 2, 3), (3, 2, 1), (4, 4, 2)][shape % 7];
    // a path, a cycle or everything
    let adj: Vec<Vec<usize>> = (0..n).map(|i: usize| (0..n).filter(|&j| { let d = i.abs_diff(j); match shape % 3 { 0 => d <= 1, 1 => d <= 1 || d == n - 1, _ => true } }).collect()).collect();
    let points: Vec<P> = (0..n).map(|i| P::new(ClusterPointInner::new(i))).collect();
    let table = Table { points: points.clone(), adj };
    let clusterer: Clusterer<u32, usize> = Clusterer::new(min, threads);
    let mut parts: Vec<Vec<P>> = (0..threads).map(|t| points.iter().filter(|p| p.id % threads == t).cloned().collect()).collect();
    let clusters: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = parts.iter_mut().map(|part| { let (c, t) = (&clusterer, &table); sc.spawn(move || c.cluster(part, t)) }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    let own: Vec<i64> = points.iter().map(|p| { let x = p.get_cluster(); if x.is_null() { 0 } else {
        clusters.iter().find(|b| &***b as *const Cluster<usize> == x as *const Cluster<usize>).map(|b| b.cluster_id as i64).unwrap_or(-1) } }).collect();
    println!("[{{\"op\":\"new\"}},{{\"op\":\"par\",\"n\":{},\"min\":{},\"threads\":{},\"order\":{},\"adj\":{},\"cls\":{},\"own\":{},\"uaf\":0,\"how\":\"miri\"}}]", n, min, threads,
        list(parts.iter().flatten().map(|p| p.id + 1)), list(table.adj.iter().map(|r| list(r.iter().map(|x| x + 1)))),
        list(clusters.iter().map(|c| format!("[{},{}]", c.cluster_id, list(c.points.iter().map(|p| p.id + 1))))), list(own));
}

/// Two indexes asked by several threads at once; the answers of each as one session.
fn asked(heads: Vec<Vec<String>>, threads: usize, nq: usize, forms: usize, ask: impl Fn(usize, usize, usize) -> String + Sync) {
    let mut said: Vec<BTreeSet<String>> = vec![BTreeSet::new(); heads.len()];
    let all: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|t| { let (ask, k) = (&ask, heads.len()); sc.spawn(move || {
            let mut v = vec![];
            for f in 0..forms { for q in 0..nq { let q = 1 + (q + t) % nq; for x in 0..k { v.push((x, ask(x, f, q))); } } }
            v
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (x, l) in all.into_iter().flatten() { said[x].insert(l); }
    for (h, s) in heads.into_iter().zip(said) { println!("{}", list(h.into_iter().chain(s))); }
}
fn need(thr: f64, n: usize) -> usize { (0..=n).find(|&m| (m as f64) / (n as f64) >= thr).unwrap_or(n + 1) }
fn set<'a>(it: impl Iterator<Item = &'a u64>) -> String { let mut v: Vec<u64> = it.copied().collect(); v.sort(); list(v) }
fn pairs(v: Vec<(u64, i64)>) -> String { list(v.iter().map(|p| format!("[{},{}]", p.0, p.1))) }

fn min(number: usize) {
    let pool: Vec<Vec<u32>> = vec![vec![0, 0, 0, 0], vec![0, 0, 1, 1], vec![0, 1, 0, 0], vec![1, 1, 1, 1]];
    let lays = [(2usize, 2usize, 0.5), (4, 1, 0.25)];
    let mut ix: Vec<MinHashIndex<u32, u64>> = lays.iter().map(|l| MinHashIndex::new(l.0, l.1, l.2)).collect();
    let mut heads: Vec<Vec<String>> = lays.iter().map(|l| vec![format!("{{\"op\":\"new\",\"tab\":false,\"b\":{},\"r\":{},\"need\":{},\"thr\":\"{}\",\"pool\":{},\"match\":[],\"share\":[],\"band\":[]}}", l.0, l.1, need(l.2, 4), l.2, list(pool.iter().map(|p| list(p))))]).collect();
    for x in 0..2 { for i in 0..3usize { let s = 1 + (i * (x + 1) + number) % 4; ix[x].insert(i as u64, pool[s - 1].clone()); heads[x].push(format!("{{\"op\":\"insert\",\"id\":{},\"s\":{}}}", i, s)); } }
    let c = |x: f64| (x * 4.0).round() as i64;
    asked(heads, 3, 2, 2, |x, f, q| { let (i, s) = (&ix[x], &pool[q - 1]); match (f + 2 * number) % 6 {
        0 => format!("{{\"op\":\"q\",\"q\":{},\"set\":{},\"owned\":{}}}", q, set(i.query(s).into_iter()), set(i.query_owned(s).iter())),
        1 => format!("{{\"op\":\"q\",\"q\":{},\"one\":{}}}", q, list(i.query_one(s).map(|(i, v)| vec![*i as i64, c(v)]).unwrap_or_default())),
        2 => format!("{{\"op\":\"q\",\"q\":{},\"sims\":{}}}", q, pairs(i.query_owned_return_similarity(s).into_iter().map(|(i, v)| (i, c(v))).collect())),
        3 => format!("{{\"op\":\"q\",\"q\":{},\"topk\":[[2,{}]]}}", q, pairs(i.query_top_k(s, 2).into_iter().map(|(i, v)| (i, c(1.0 - v))).collect())),
        4 => { let id = q as u64 - 1; format!("{{\"op\":\"byid\",\"id\":{},\"set\":{},\"owned\":{}}}", id, set(i.query_by_id(&id).into_iter()), set(i.query_by_id_owned(&id).iter())) }
        _ => format!("{{\"op\":\"obs\",\"size\":{},\"nh\":{},\"room\":1,\"buckets\":{}}}", i.size(), i.num_hashes(), list(&i.band_sizes().sizes)),
    } });
}
fn sim(number: usize) {
    let pool: Vec<u64> = vec![0, 1, 1 << 40, 0xff];
    let lays = [(3usize, 1usize), (4, 2)];
    let mut ix: Vec<SimHashIndex<u64, u64>> = lays.iter().map(|l| SimHashIndex::new(l.0, l.1)).collect();
    let mut heads: Vec<Vec<String>> = lays.iter().map(|l| vec![format!("{{\"op\":\"new\",\"tab\":false,\"w\":64,\"nb\":{},\"k\":{},\"pool\":{},\"dist\":[]}}", l.0, l.1, list(pool.iter().map(|a| list((0..16).map(|j| (a >> (4 * j)) & 15)))))]).collect();
    for x in 0..2 { for i in 0..3usize { let s = 1 + (i * (x + 1) + number) % 4; ix[x].insert(i as u64, pool[s - 1]); heads[x].push(format!("{{\"op\":\"insert\",\"id\":{},\"s\":{}}}", i, s)); } }
    asked(heads, 3, 2, 2, |x, f, q| { let (i, s) = (&ix[x], &pool[q - 1]); match (f + 2 * number) % 4 {
        0 => format!("{{\"op\":\"q\",\"q\":{},\"set\":{},\"owned\":{}}}", q, set(i.query(s).into_iter()), set(i.query_owned(s).iter())),
        1 => format!("{{\"op\":\"q\",\"q\":{},\"one\":{}}}", q, list(i.query_one(s).map(|(i, d)| vec![*i as i64, d as i64]).unwrap_or_default())),
        2 => format!("{{\"op\":\"q\",\"q\":{},\"dists\":{}}}", q, pairs(i.query_return_distance(s).into_iter().map(|(i, d)| (i, d as i64)).collect())),
        _ => format!("{{\"op\":\"size\",\"size\":{}}}", i.size()),
    } });
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: usize = a[2].parse().unwrap();
    match a[1].as_str() { "cluster" => cluster(n), "min" => min(n), _ => sim(n) }
}
