//! Serial clustering (C15).
use conform::tr::*;
use gaoya::clustering::clustering_serial::*;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::MinHashIndex;
use std::collections::HashSet;

struct Table { points: Vec<ClusterPoint<usize>>, adj: Vec<Vec<usize>> }
impl QueryIndex for Table {
    type Id = ClusterPoint<usize>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> { self.adj[id.id].iter().map(|q| &self.points[*q]).collect() }
}
/// similarities of a real MinHash index over the ids of the points
struct Mapped { index: MinHashIndex<u32, usize>, points: Vec<ClusterPoint<usize>> }
impl QueryIndex for Mapped {
    type Id = ClusterPoint<usize>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> { QueryIndex::query(&self.index, &id.id).into_iter().map(|q| &self.points[*q]).collect() }
}
fn own_of(points: &[ClusterPoint<usize>]) -> Vec<usize> { points.iter().map(|p| p.cluster.get().map(|c| c + 0).unwrap_or(0)).collect() }
fn one(v: &[Vec<usize>]) -> Vec<Vec<usize>> { v.iter().map(|r| r.iter().map(|x| x + 1).collect()).collect() }
fn run(c: &mut Clusterer<usize>, points: &[ClusterPoint<usize>], order: &[usize], min: usize, adj: &[Vec<usize>], index: &dyn QueryIndex<Id = ClusterPoint<usize>>) {
    let mut v: Vec<ClusterPoint<usize>> = order.iter().map(|i| points[*i].clone()).collect();
    match call("serial cluster", || c.cluster(&mut v, index)) {
        Ok(cls) => {
            let cl: Vec<String> = cls.iter().map(|c| format!("[{},{}]", c.cluster_id, arr(&c.points.iter().map(|p| p.id + 1).collect::<Vec<_>>()))).collect();
            emit(format!("{{\"op\":\"serial\",\"n\":{},\"min\":{},\"order\":{},\"adj\":{},\"cls\":{},\"own\":{}}}", points.len(), min, arr(&order.iter().map(|x| x + 1).collect::<Vec<_>>()), arr2(&one(adj)), arr(&cl), arr(&own_of(points))));
        }
        Err(w) => emit_panic(&w),
    }
}
fn session_table(rng: &mut Rng, n: usize, min: usize, adj: Vec<Vec<usize>>, order: Vec<usize>, runs: usize) {
    emit("{\"op\":\"new\"}".into());
    let mut t = Table { points: (0..n).map(|i| ClusterPoint::new(ClusterPointInner::new(i))).collect(), adj };
    let mut c = Clusterer::new(min);
    let first = if runs > 1 && n > 1 { n - rng.range(0, n / 2) } else { n };
    let pts = t.points.clone();
    let adj = t.adj.clone();
    run(&mut c, &pts, &order[..first], min, &adj, &t);
    for _ in 1..runs {
        if rng.chance(1, 2) {           // more points and more similarities before the next run
            let k = t.points.len();
            for i in k..k + rng.range(1, 4) {
                t.points.push(ClusterPoint::new(ClusterPointInner::new(i)));
                let mut r = vec![i];
                for q in 0..i { if rng.chance(1, 3) { r.push(q); t.adj[q].push(i); } }
                t.adj.push(r);
            }
        }
        let mut o: Vec<usize> = (0..t.points.len()).collect();
        rng.shuffle(&mut o);
        let (pts, adj) = (t.points.clone(), t.adj.clone());
        run(&mut c, &pts, &o, min, &adj, &t);
    }
    end_session();
}
fn random_adj(rng: &mut Rng, n: usize, num: usize, den: usize, sym: bool) -> Vec<Vec<usize>> {
    let mut m = vec![vec![false; n]; n];
    for i in 0..n { m[i][i] = true; for j in 0..n { if i != j && rng.chance(num, den) { m[i][j] = true; if sym { m[j][i] = true; } } } }
    m.iter().map(|r| (0..n).filter(|j| r[*j]).collect()).collect()
}
/// the classes of an equivalence
struct Classes { points: Vec<ClusterPoint<usize>>, members: Vec<Vec<usize>>, class: Vec<usize> }
impl QueryIndex for Classes {
    type Id = ClusterPoint<usize>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> { self.members[self.class[id.id]].iter().map(|q| &self.points[*q]).collect() }
}
/// Very many points; the trace numbers them so that every class is an interval.
fn classes(rng: &mut Rng, sizes: &[usize], min: usize) {
    let n: usize = sizes.iter().sum();
    let mut name: Vec<usize> = (0..n).collect(); rng.shuffle(&mut name);        // position in the trace -> id
    let mut pos = vec![0; n]; for (i, x) in name.iter().enumerate() { pos[*x] = i + 1; }
    let (mut members, mut class, mut ends, mut at) = (vec![], vec![0; n], vec![], 0);
    for (k, g) in sizes.iter().enumerate() { let m: Vec<usize> = name[at..at + g].to_vec(); for x in &m { class[*x] = k; } members.push(m); at += g; ends.push(at); }
    let t = Classes { points: (0..n).map(|i| ClusterPoint::new(ClusterPointInner::new(i))).collect(), members, class };
    let mut v: Vec<_> = name.iter().map(|x| t.points[*x].clone()).collect();
    if sizes[0] < 60_000 { rng.shuffle(&mut v); }       // or class by class
    emit("{\"op\":\"new\"}".into());
    match call("serial cluster", || Clusterer::new(min).cluster(&mut v, &t)) {
        Ok(cls) => {
            let cl: Vec<String> = cls.iter().map(|c| format!("[{},{}]", c.cluster_id, arr(&c.points.iter().map(|p| pos[p.id]).collect::<Vec<_>>()))).collect();
            let own: Vec<usize> = name.iter().map(|x| t.points[*x].cluster.get().map(|c| c + 0).unwrap_or(0)).collect();
            emit(format!("{{\"op\":\"classes\",\"n\":{},\"min\":{},\"threads\":1,\"uaf\":0,\"ends\":{},\"cls\":{},\"own\":{}}}", n, min, arr(&ends), arr(&cl), arr(&own)));
        }
        Err(w) => emit_panic(&w),
    }
    end_session();
}
fn main() {
    let a = Args::get();
    init(&a.out, a.shards);
    let mut rng = Rng::new(a.seed ^ 0x1515);
    if let Some(f) = &a.script {
        for l in std::fs::read_to_string(f).unwrap().lines() {
            let v: serde_json::Value = serde_json::from_str(l).unwrap();
            let ints = |x: &serde_json::Value| -> Vec<usize> { x.as_array().unwrap().iter().map(|y| y.as_u64().unwrap() as usize - 1).collect() };
            let adj: Vec<Vec<usize>> = v["adj"].as_array().unwrap().iter().map(ints).collect();
            let runs = rng.range(1, 2);
            session_table(&mut rng, adj.len(), v["min"].as_u64().unwrap() as usize, adj, ints(&v["order"]), runs);
        }
    }
    for _ in 0..a.count {
        let n = match rng.below(16) { 0..=3 => rng.range(0, 2), 4..=7 => rng.range(2, 6), 8..=11 => rng.range(5, 12), 12..=14 => rng.range(10, 25), _ => rng.range(25, 90) };
        let (num, sym) = (rng.range(0, 6), rng.chance(2, 3));
        let adj = random_adj(&mut rng, n, num, if n > 25 { 90 } else { 8 }, sym);
        let mut order: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut order);
        let (min, runs) = (rng.range(1, 5), rng.range(1, 4));
        session_table(&mut rng, n, min, adj, order, runs);
    }
    // many points: hundreds of clusters, or few of hundreds
    for k in 0..a.count / 60 {
        let groups: Vec<usize> = match k % 3 { 0 => vec![300, 30, 7], 1 => (0..330).map(|i| 1 + (i % 97 == 0) as usize * 20).collect(), _ => (0..90).map(|_| rng.range(1, 9)).collect() };
        let n: usize = groups.iter().sum();
        let mut name: Vec<usize> = (0..n).collect(); rng.shuffle(&mut name);
        let mut adj: Vec<Vec<usize>> = vec![vec![]; n];
        let mut at = 0;
        for g in &groups { for i in at..at + g { for j in at..at + g { if i == j || rng.chance(9, 10) { adj[name[i]].push(name[j]); } } } at += g; }
        let mut order: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut order);
        let min = *rng.pick(&[1usize, 2, 5, 40, 260]);
        session_table(&mut rng, n, min, adj, order, 1 + k % 2);
    }
    classes(&mut rng, &[5000, 3, 1, 1200, 1, 70], 3);
    classes(&mut rng, &vec![1; 9000], 1);
    classes(&mut rng, &[2, 70_000, 300], 2);
    classes(&mut rng, &[65_600, 200, 2], 2);
    let sizes: Vec<usize> = (0..2000).map(|_| rng.range(1, 12)).collect();
    classes(&mut rng, &sizes, 6);
    // on a real MinHash index
    for _ in 0..a.count / 3 {
        emit("{\"op\":\"new\"}".into());
        let min = rng.range(1, 4);
        let mut c = Clusterer::new(min);
        let (b, w) = (rng.range(1, 4), rng.range(1, 3));
        let mut m = Mapped { index: MinHashIndex::new(b, w, *rng.pick(&[0.3, 0.5, 0.75, 1.0])), points: vec![] };
        for _ in 0..rng.range(1, 3) {
            for _ in 0..rng.range(1, 12) {
                let i = m.points.len();
                m.index.insert(i, (0..b * w).map(|_| rng.below(3) as u32).collect());
                m.points.push(ClusterPoint::new(ClusterPointInner::new(i)));
            }
            let points = m.points.clone();
            let adj: Vec<Vec<usize>> = points.iter().map(|p| { let mut v: Vec<usize> = m.query(p).into_iter().map(|q| q.id).collect(); v.sort(); v }).collect();
            let mut o: Vec<usize> = (0..points.len()).collect();
            rng.shuffle(&mut o);
            run(&mut c, &points, &o, min, &adj, &m);
        }
        end_session();
    }
    finish();
}
