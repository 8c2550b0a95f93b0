//! Signatures, similarity measures and banding parameters (C08 - C11).
use conform::tr::*;
use fnv::FnvBuildHasher;
use gaoya::minhash::*;
use gaoya::simhash::*;
use serde_json::Value;
use std::collections::BTreeSet;
use std::hash::{BuildHasher, BuildHasherDefault, Hash};

// ------------------------------------------------------------------ C08
struct Res { doc: Vec<usize>, v32: Vec<u32>, v64: Vec<u64>, v16: Vec<u16>, v8: Vec<u8>, same: bool, nh: [usize; 4] }

fn min_session<B: BuildHasher + Clone + Send + Sync, U: Hash + Sync>(name: &str, mk: impl Fn() -> B, n: usize, seed: Option<u64>, voc: &[Vec<U>], docs: &[Vec<usize>]) {
    // a document is a list of units (mostly single tokens)
    macro_rules! hasher { ($t:ident) => { match seed { Some(s) => $t::new_with_hasher_and_seed(n, mk(), s), None => $t::new_with_hasher(n, mk()) } } }
    let r = call("create_signature", || {
        let (h32, h64, h16, h8) = (hasher!(MinHasher32), hasher!(MinHasher64V1), hasher!(MinHasher16), hasher!(MinHasher8));
        let s32: Vec<Vec<u32>> = voc.iter().map(|t| h32.create_signature(t.iter())).collect();
        let s64: Vec<Vec<u64>> = voc.iter().map(|t| h64.create_signature(t.iter())).collect();
        let res: Vec<Res> = docs.iter().map(|d| {
            // a second, independently created set of hashers
            let (g32, g64, g16, g8) = (hasher!(MinHasher32), hasher!(MinHasher64V1), hasher!(MinHasher16), hasher!(MinHasher8));
            let v32 = h32.create_signature(d.iter().flat_map(|i| voc[*i].iter()));
            let v64 = h64.create_signature(d.iter().flat_map(|i| voc[*i].iter()));
            let v16 = h16.create_signature(d.iter().flat_map(|i| voc[*i].iter()));
            let v8 = h8.create_signature(d.iter().flat_map(|i| voc[*i].iter()));
            let same = v32 == g32.create_signature(d.iter().flat_map(|i| voc[*i].iter())) && v64 == g64.create_signature(d.iter().flat_map(|i| voc[*i].iter()))
                && v16 == g16.create_signature(d.iter().flat_map(|i| voc[*i].iter())) && v8 == g8.create_signature(d.iter().flat_map(|i| voc[*i].iter()));
            Res { doc: d.clone(), v32, v64, v16, v8, same, nh: [h32.num_hashes(), h64.num_hashes(), h16.num_hashes(), h8.num_hashes()] }
        }).collect();
        // the bulk forms give the same signatures in input order
        let owned: Vec<Vec<&U>> = docs.iter().map(|d| d.iter().flat_map(|i| voc[*i].iter()).collect()).collect();
        let refs: Vec<&Vec<&U>> = owned.iter().collect();
        let bulk = h32.bulk_create_signature(&owned).iter().zip(&res).all(|(a, b)| *a == b.v32) && h32.bulk_create_signature_refs(&refs).len() == docs.len()
            && h64.bulk_create_signature(&owned).iter().zip(&res).all(|(a, b)| *a == b.v64) && h64.bulk_create_signature_refs(&refs).iter().zip(&res).all(|(a, b)| *a == b.v64)
            && h16.bulk_create_signature(&owned).iter().zip(&res).all(|(a, b)| *a == b.v16) && h16.bulk_create_signature_refs(&refs).iter().zip(&res).all(|(a, b)| *a == b.v16)
            && h8.bulk_create_signature(&owned).iter().zip(&res).all(|(a, b)| *a == b.v8) && h8.bulk_create_signature_refs(&refs).iter().zip(&res).all(|(a, b)| *a == b.v8)
            && h32.bulk_create_signature_refs(&refs).iter().zip(&res).all(|(a, b)| *a == b.v32)
            && h32.bulk_create_signature(&owned).len() == docs.len() && h64.bulk_create_signature(&owned).len() == docs.len() && h16.bulk_create_signature(&owned).len() == docs.len() && h8.bulk_create_signature(&owned).len() == docs.len();
        (s32, s64, res, bulk)
    });
    let (s32, s64, res, bulk) = match r { Ok(x) => x, Err(w) => { emit("{\"op\":\"new\"}".into()); emit_panic(&w); end_session(); return; } };
    // ranks per position, over everything seen in the session
    let mut rank32: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); n];
    let mut rank64: Vec<BTreeSet<u64>> = vec![BTreeSet::new(); n];
    for v in s32.iter().chain(res.iter().map(|r| &r.v32)) { for (i, x) in v.iter().enumerate() { if i < n { rank32[i].insert(*x); } } }
    for v in s64.iter().chain(res.iter().map(|r| &r.v64)) { for (i, x) in v.iter().enumerate() { if i < n { rank64[i].insert(*x); } } }
    let rank32: Vec<Vec<u32>> = rank32.into_iter().map(|s| s.into_iter().collect()).collect();
    let rank64: Vec<Vec<u64>> = rank64.into_iter().map(|s| s.into_iter().collect()).collect();
    let r32 = |v: &Vec<u32>| -> Vec<i64> { v.iter().enumerate().map(|(i, x)| rank32.get(i).and_then(|r| r.binary_search(x).ok()).map(|x| x as i64).unwrap_or(-1)).collect() };
    let r64 = |v: &Vec<u64>| -> Vec<i64> { v.iter().enumerate().map(|(i, x)| rank64.get(i).and_then(|r| r.binary_search(x).ok()).map(|x| x as i64).unwrap_or(-1)).collect() };
    let a: Vec<Vec<i64>> = s32.iter().map(r32).collect();
    let b: Vec<Vec<i64>> = s64.iter().map(r64).collect();
    emit(format!("{{\"op\":\"new\",\"hasher\":\"{}\",\"n\":{},\"seed\":\"{:?}\",\"s32\":{},\"s64\":{}}}", name, n, seed, arr2(&a), arr2(&b)));
    for r in &res {
        let lo: Vec<u32> = r.v32.iter().map(|x| x & 0xffff).collect();
        let nz = r.v32.iter().filter(|x| **x != 0).count() + r.v64.iter().filter(|x| **x != 0).count() + r.v16.iter().filter(|x| **x != 0).count() + r.v8.iter().filter(|x| **x != 0).count();
        let d1: Vec<usize> = r.doc.iter().map(|x| x + 1).collect();
        emit(format!("{{\"op\":\"minsig\",\"bulk\":{},\"doc\":{},\"r32\":{},\"r64\":{},\"lo16\":{},\"s16\":{},\"s8\":{},\"same\":{},\"nonzero\":{},\"nh\":{}}}", bulk as usize, arr(&d1), arr(&r32(&r.v32)), arr(&r64(&r.v64)),
                     arr(&lo), arr(&r.v16), arr(&r.v8), r.same as usize, nz, arr(&r.nh)));
    }
    end_session();
}
fn min_any(kind: usize, n: usize, seed: Option<u64>, strings: bool, m: usize, salt: u64, docs: &[Vec<usize>]) {
    let sv: Vec<String> = (0..m).map(|i| match i % 4 { 0 => format!("t{}-{}", salt, i), 1 => format!("\u{e4}{}\u{1F600}{}", i, salt), 2 => "x".repeat(i + 1), _ => format!("{}", i) }).collect();
    let uv: Vec<u64> = (0..m as u64).map(|i| i.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(salt)).collect();
    min_units(kind, n, seed, if strings { Units::S(sv.into_iter().map(|x| vec![x]).collect()) } else { Units::U(uv.into_iter().map(|x| vec![x]).collect()) }, docs)
}
enum Units { S(Vec<Vec<String>>), U(Vec<Vec<u64>>), P(Vec<Vec<(u8, String, Vec<u32>)>>) }
fn min_units(kind: usize, n: usize, seed: Option<u64>, units: Units, docs: &[Vec<usize>]) {
    macro_rules! go { ($name:expr, $mk:expr) => { match &units { Units::S(v) => min_session($name, $mk, n, seed, v, docs), Units::U(v) => min_session($name, $mk, n, seed, v, docs), Units::P(v) => min_session($name, $mk, n, seed, v, docs) } } }
    match kind % 3 {
        0 => go!("fnv", FnvBuildHasher::default),
        1 => go!("sip24", SipHasher24BuildHasher::default),
        _ => go!("sha1", BuildHasherDefault::<Sha1Hasher>::default),
    }
}
/// Very many documents at once, each of them one of a few.
fn bulk_many(rng: &mut Rng, count: usize) {
    fn go<H: MinHasher + Sync + Send>(rng: &mut Rng, h: H, count: usize) where H::V: Eq + Hash {
        let few: Vec<Vec<u64>> = (0..40).map(|i| (0..rng.range(1, 5)).map(|j| i * 1000 + j as u64 * 7).collect()).collect();
        let own: Vec<Vec<H::V>> = few.iter().map(|d| h.create_signature(d.iter())).collect();
        let mut first: std::collections::HashMap<Vec<H::V>, usize> = Default::default();
        for (i, s) in own.iter().enumerate() { first.entry(s.clone()).or_insert(i + 1); }        // equal signatures count as one document
        let pick: Vec<usize> = (0..count).map(|_| rng.below(few.len())).collect();
        let docs: Vec<Vec<u64>> = pick.iter().map(|i| few[*i].clone()).collect();
        let of: Vec<usize> = pick.iter().map(|i| first[&own[*i]]).collect();
        let mut whose = |v: Vec<Vec<H::V>>| -> Vec<usize> { v.iter().map(|s| first.get(s).copied().unwrap_or(0)).collect() };
        emit("{\"op\":\"new\"}".into());
        match call("bulk signatures", || (h.bulk_create_signature(&docs), h.bulk_create_signature_refs(&docs.iter().collect()))) {
            Ok((b, r)) => emit(format!("{{\"op\":\"bulkmany\",\"of\":{},\"bulk\":{},\"refs\":{}}}", arr(&of), arr(&whose(b)), arr(&whose(r)))),
            Err(w) => emit_panic(&w),
        }
        end_session();
    }
    let n = rng.range(2, 6);
    match rng.below(4) { 0 => go(rng, MinHasher8::new(n), count), 1 => go(rng, MinHasher16::new(n), count), 2 => go(rng, MinHasher32::new(n), count), _ => go(rng, MinHasher64V1::new(n), count) }
}
fn c08(seed: u64, count: usize, script: &Option<String>) {
    let mut rng = Rng::new(seed ^ 0x808);
    for _ in 0..count {
        let n = *rng.pick(&[1usize, 2, 3, 7, 16, 33]);
        let m = rng.range(1, 12);
        let mut docs: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..12 {
            let len = rng.range(0, 14);
            let d: Vec<usize> = (0..len).map(|_| rng.below(m)).collect();
            let mut e = d.clone(); rng.shuffle(&mut e);
            let mut f = d.clone(); if !f.is_empty() { let x = *rng.pick(&f); f.push(x); f.insert(0, x); }
            docs.push(d); docs.push(e); docs.push(f);
        }
        let s = if rng.chance(1, 4) { None } else { Some(*rng.pick(&[0u64, 1, 3, 42, u64::MAX, 7777777])) };
        min_any(rng.below(3), n, s, rng.chance(1, 2), m, rng.next() % 1000, &docs);
    }
    for n in [64usize, 100, 127, 128, 200, 256, 300, 500] {     // many hashes
        let docs: Vec<Vec<usize>> = (0..3).map(|_| { let len = rng.range(0, 6); (0..len).map(|_| rng.below(4)).collect() }).collect();
        min_any(rng.below(3), n, if rng.chance(1, 3) { None } else { Some(rng.next()) }, rng.chance(1, 2), 4, rng.next() % 1000, &docs);
    }
    for count in [1025, 4097, 10_001, 66_000] { bulk_many(&mut rng, count); }
    for big in 0..3 {       // long documents
        let m = 400;
        let docs: Vec<Vec<usize>> = (0..3).map(|_| { let len = rng.range(100, 1200); (0..len).map(|_| rng.below(m)).collect() }).collect();
        min_any(big, 5, Some(rng.next()), big == 1, m, rng.next() % 1000, &docs);
    }
    for big in 0..9 {       // very long documents: units of many distinct tokens, a few of them far from the beginning
        let (units, each) = [(12usize, 30usize), (40, 150), (60, 1200), (30, 6000), (150, 1000)][big % 5];
        let salt = rng.next();
        let voc: Vec<Vec<u64>> = (0..units).map(|i| (0..rng.range(1, 2 * each) as u64).map(|j| (i as u64 * 1_000_003 + j).wrapping_mul(0x9E3779B97F4A7C15) ^ salt).collect()).collect();
        let mut docs: Vec<Vec<usize>> = vec![(0..units).collect(), (0..units).rev().collect(), (0..units).chain(0..units).collect()];
        for _ in 0..4 { let len = rng.range(1, units); docs.push((0..len).map(|_| rng.below(units)).collect()); }
        let voc = match big % 3 { 0 => Units::U(voc), 1 => Units::S(voc.iter().map(|u| u.iter().map(|x| format!("{:x}", x)).collect()).collect()), _ => Units::P(voc.iter().map(|u| u.iter().map(|x| (*x as u8, format!("{}", x), vec![*x as u32; (*x % 5) as usize])).collect()).collect()) };
        min_units(big / 2, rng.range(2, 6), Some(rng.next()), voc, &docs);
    }
    for k in 0..6 {         // tokens of every length
        let base: String = (0..9000).map(|i| (b'a' + (i * i % 23) as u8) as char).collect();
        let lens = [0usize, 1, 7, 8, 9, 63, 64, 65, 127, 128, 129, 1000, 4096, 8999];
        let voc: Vec<Vec<String>> = lens.iter().map(|l| vec![base[..*l].to_string()]).collect();
        let docs: Vec<Vec<usize>> = (0..6).map(|_| { let len = rng.range(1, 6); (0..len).map(|_| rng.below(lens.len())).collect() }).collect();
        min_units(k, 9, Some(k as u64), Units::S(voc), &docs);
    }
    if let Some(f) = script {
        let docs: Vec<Vec<usize>> = lines(f).iter().map(|v| ints(&v["x"]).iter().map(|x| x - 1).collect()).collect();
        for (k, chunk) in docs.chunks(60).enumerate() { min_any(k, 4 + k % 3, Some(k as u64), k % 2 == 0, 4, k as u64, chunk); }
    }
}

// ------------------------------------------------------------------ C09
fn micro(x: f64) -> i64 { if x.is_finite() && x.abs() < 1000.0 { (x * 1e6).round() as i64 } else { -99 } }
fn measure(a: &[usize], b: &[usize], thr: &[(usize, usize)], kind: usize) {
    fn go<T: Eq>(x: &[T], y: &[T], a: &[usize], b: &[usize], thr: &[(usize, usize)]) {
        let n = x.len();
        let r = call("similarity measures", || {
            let (s, s2, d, d2) = (compute_minhash_similarity(x, y), compute_minhash_similarity(y, x), compute_minhash_distance(x, y), compute_minhash_distance(y, x));
            // a fraction with denominator n up to rounding
            let near = |x: f64| { let m = (x * n as f64).round(); (x - m / n as f64).abs() < 1e-12 };
            let exact = near(s) && near(d) && near(s2) && near(d2);
            let t: Vec<String> = thr.iter().map(|(p, q)| {
                let f = *p as f64 / *q as f64;
                format!("[{},{},{},{}]", p, q, similarity_greater_than_threshold(x, y, f) as usize, similarity_greater_than_threshold(y, x, f) as usize)
            }).collect();
            format!("{{\"op\":\"measure\",\"a\":{},\"b\":{},\"sim\":{},\"sim2\":{},\"dist\":{},\"dist2\":{},\"exact\":{},\"thr\":{}}}", arr(a), arr(b), micro(s), micro(s2), micro(d), micro(d2), exact as usize, arr(&t))
        });
        match r { Ok(l) => emit(l), Err(w) => emit_panic(&w) }
    }
    match kind % 4 {
        0 => go(&a.iter().map(|x| *x as u8).collect::<Vec<_>>(), &b.iter().map(|x| *x as u8).collect::<Vec<_>>(), a, b, thr),
        1 => go(&a.iter().map(|x| *x as u64 * 0x100000001).collect::<Vec<_>>(), &b.iter().map(|x| *x as u64 * 0x100000001).collect::<Vec<_>>(), a, b, thr),
        2 => go(&a.iter().map(|x| u32::MAX - *x as u32).collect::<Vec<_>>(), &b.iter().map(|x| u32::MAX - *x as u32).collect::<Vec<_>>(), a, b, thr),
        _ => go(&a.iter().map(|x| -(*x as i16)).collect::<Vec<_>>(), &b.iter().map(|x| -(*x as i16)).collect::<Vec<_>>(), a, b, thr),
    }
}
fn jac(x: &[usize], y: &[usize], kind: usize) {
    fn go<U: Hash + Eq>(a: Vec<U>, b: Vec<U>, x: &[usize], y: &[usize]) {
        let r = call("jaccard", || {
            let s = compute_jaccard_similarity(a.iter(), b.iter()) as f64;
            let s2 = compute_jaccard_similarity(b.iter(), a.iter()) as f64;
            let d = compute_jaccard_distance(a.iter(), b.iter()) as f64;
            let d2 = compute_jaccard_distance(b.iter(), a.iter()) as f64;
            format!("{{\"op\":\"jac\",\"x\":{},\"y\":{},\"sim\":{},\"sim2\":{},\"dist\":{},\"dist2\":{}}}", arr(x), arr(y), micro(s), micro(s2), micro(d), micro(d2))
        });
        match r { Ok(l) => emit(l), Err(w) => emit_panic(&w) }
    }
    if kind % 2 == 0 { go(x.iter().map(|i| format!("w{}", i)).collect(), y.iter().map(|i| format!("w{}", i)).collect(), x, y) }
    else { go(x.to_vec(), y.to_vec(), x, y) }
}
/// the similarity a hasher reports for two documents is that of their signatures
fn hsim(x: &[usize], y: &[usize], n: usize, kind: usize) {
    fn go<H: MinHasher>(h: H, x: &[usize], y: &[usize], n: usize) where H::V: Hash + Eq {
        let r = call("compute_similarity", || (h.create_signature(x.iter()), h.create_signature(y.iter()), h.compute_similarity(x.iter(), y.iter()), h.compute_similarity(y.iter(), x.iter())));
        match r {
            Ok((a, b, s, s2)) => {
                let mut all: Vec<&H::V> = vec![];
                let mut code = |v: &Vec<H::V>| -> Vec<usize> { v.iter().map(|x| match all.iter().position(|y| **y == *x) { Some(i) => i, None => { all.push(unsafe { &*(x as *const H::V) }); all.len() - 1 } }).collect() };
                let (ca, cb) = (code(&a), code(&b));
                emit(format!("{{\"op\":\"hsim\",\"n\":{},\"a\":{},\"b\":{},\"sim\":{},\"sim2\":{}}}", n, arr(&ca), arr(&cb), micro(s), micro(s2)));
            }
            Err(w) => emit_panic(&w),
        }
    }
    match kind % 4 { 0 => go(MinHasher32::new(n), x, y, n), 1 => go(MinHasher64V1::new(n), x, y, n), 2 => go(MinHasher16::new(n), x, y, n), _ => go(MinHasher8::new(n), x, y, n) }
}
fn c09(seed: u64, count: usize, script: &Option<String>) {
    let mut rng = Rng::new(seed ^ 0x909);
    for k in 0..count {
        emit("{\"op\":\"new\"}".into());
        let n = match rng.below(4) { 0 => rng.range(1, 12), 1 => rng.range(1, 40), 2 => *rng.pick(&[100usize, 126, 128, 200]), _ => rng.range(1, 64) };
        let alpha = rng.range(2, 4);
        let a: Vec<usize> = (0..n).map(|_| rng.below(alpha)).collect();
        let m = match rng.below(4) { 0 => 0, 1 => n, _ => rng.range(0, n) };
        let mut pos: Vec<usize> = (0..n).collect(); rng.shuffle(&mut pos);
        let mut b = a.clone(); for i in pos.into_iter().take(n - m) { b[i] = (b[i] + 1) % alpha; }
        let mut thr = vec![(m, n), (0, 1), (1, 1), (7, 10), (29, 100), (58, 100)];
        if m > 0 { thr.push((m - 1, n)); thr.push((2 * m - 1, 2 * n)); }
        if m < n { thr.push((m + 1, n)); thr.push((2 * m + 1, 2 * n)); thr.push((m * 100 + 1, n * 100)); thr.push((m * 1000 + 999, n * 1000)); }
        for _ in 0..4 { let q = rng.range(1, 100); thr.push((rng.range(0, q), q)); }
        measure(&a, &b, &thr, k);
        let v = rng.range(1, 30);
        let (lx, ly) = (rng.range(0, 40), rng.range(0, 40));
        let x: Vec<usize> = (0..lx).map(|_| rng.below(v)).collect();
        let y: Vec<usize> = (0..ly.max((lx == 0) as usize)).map(|_| rng.below(v)).collect();
        jac(&x, &y, k);
        let nh = rng.range(1, 60);
        hsim(&x, &y, nh, k);
        end_session();
    }
    for (k, n) in [300usize, 257, 512, 1000, 5000, 40_000, 70_000, 140_000].into_iter().enumerate() {     // long signatures, large sets
        emit("{\"op\":\"new\"}".into());
        let m = match rng.below(3) { 0 => n - rng.below(4), 1 => rng.below(4), _ => rng.below(n) };
        let mut pos: Vec<usize> = (0..n).collect(); rng.shuffle(&mut pos);
        let a: Vec<u32> = (0..n).map(|_| rng.below(3) as u32).collect();
        let mut b = a.clone(); for i in pos.into_iter().take(n - m) { b[i] = (b[i] + 1) % 3; }
        let mut thr = vec![(0, 1), (1, 1), (7, 10), (9999, 10000), (1, 10000)];
        if n <= 5000 { thr.push((m, n)); if m < n { thr.push((m + 1, n)); thr.push((2 * m + 1, 2 * n)); } }
        let r = call("similarity measures", || {
            let (s, s2, d) = (compute_minhash_similarity(&a, &b), compute_minhash_similarity(&b, &a), compute_minhash_distance(&a, &b));
            let cnt = |x: f64| -> i64 { let m = (x * n as f64).round(); if (x - m / n as f64).abs() < 1e-12 { m as i64 } else { -1 } };
            let t: Vec<String> = thr.iter().map(|(p, q)| format!("[{},{},{}]", p, q, similarity_greater_than_threshold(&a, &b, *p as f64 / *q as f64) as usize)).collect();
            format!("{{\"op\":\"bigmeasure\",\"a\":{},\"b\":{},\"sim\":{},\"sim2\":{},\"dist\":{},\"thr\":{}}}", arr(&a), arr(&b), cnt(s), cnt(s2), cnt(d), arr(&t))
        });
        match r { Ok(l) => emit(l), Err(w) => emit_panic(&w) }
        // token sets p..q and u..v, each token up to three times, in any order
        let top = n.min(80_000);
        let (p, u) = (rng.below(top / 2), rng.below(top / 2));
        let (mut q, mut v) = (rng.range(p + 1, top), rng.range(u + 1, top));
        if n >= 70_000 { q = p.max(u) + n + rng.below(1000); v = p.max(u) + n + rng.below(1000); }     // intersections beyond 16 bits
        let mut list = |lo: usize, hi: usize| -> Vec<usize> { let mut l: Vec<usize> = (lo..hi).flat_map(|i| std::iter::repeat(i).take(1 + i % 3 * (k % 2))).collect(); rng.shuffle(&mut l); l };
        let (x, y) = (list(p, q), list(u, v));
        let r = call("jaccard", || {
            let (s, s2, d) = if k % 2 == 0 { (compute_jaccard_similarity(x.iter(), y.iter()), compute_jaccard_similarity(y.iter(), x.iter()), compute_jaccard_distance(x.iter(), y.iter())) }
                else { let f = |v: &Vec<usize>| -> Vec<String> { v.iter().map(|i| format!("token{}", i)).collect() }; let (x, y) = (f(&x), f(&y)); (compute_jaccard_similarity(x.iter(), y.iter()), compute_jaccard_similarity(y.iter(), x.iter()), compute_jaccard_distance(x.iter(), y.iter())) };
            let f = |x: f32| -> i64 { (x as f64 * 10000.0).round() as i64 };
            format!("{{\"op\":\"bigjac\",\"x\":[{},{}],\"y\":[{},{}],\"sim\":{},\"sim2\":{},\"dist\":{}}}", p, q, u, v, f(s), f(s2), f(d))
        });
        match r { Ok(l) => emit(l), Err(w) => emit_panic(&w) }
        end_session();
    }
    if let Some(f) = script {
        for (k, v) in lines(f).iter().enumerate() {
            let (x, y) = (ints(&v["x"]), ints(&v["y"]));
            emit("{\"op\":\"new\"}".into());
            if v["kind"] == "measure" {
                if !x.is_empty() { let mut thr = vec![]; for q in 1..=6 { for p in 0..=q { thr.push((p, q)); } } measure(&x, &y, &thr, k); }
            } else if !(x.is_empty() && y.is_empty()) { jac(&x, &y, k); }
            end_session();
        }
    }
}

// ------------------------------------------------------------------ C10
fn c10(seed: u64, count: usize) {
    let mut rng = Rng::new(seed ^ 0x1010);
    let mut one = |s: f64, n: usize, p: Option<f64>| {
        emit("{\"op\":\"new\"}".into());
        let r = call("banding parameters", || match p { Some(p) => calculate_minhash_params_with_proba(s, n, p), None => calculate_minhash_params(s, n) });
        match r {
            // the floats go out as bit patterns; lib/params.py adds the table of exact probabilities
            Ok((b, r)) => emit(format!("{{\"op\":\"params\",\"s\":\"{}\",\"n\":{},\"p\":\"{}\",\"b\":{},\"r\":{}}}", s.to_bits(), n, p.unwrap_or(0.99).to_bits(), b.min(1 << 30), r.min(1 << 30))),
            Err(w) => emit_panic(&w),
        }
        end_session();
    };
    for n in 1..=40 { for s in [0.1, 0.25, 0.5, 0.7, 0.8, 0.9, 0.95, 0.99, 1.0] { one(s, n, Some(0.9)); if n % 3 == 1 { one(s, n, None); one(s, n, Some(0.5)); } } }
    for _ in 0..count {
        let s = match rng.below(3) { 0 => rng.range(1, 100) as f64 / 100.0, 1 => rng.range(1, 1000) as f64 / 1000.0, _ => *rng.pick(&[1.0, 0.999999, 1e-3, 1e-9, 0.5]) };
        let p = match rng.below(4) { 0 => None, 1 => Some(rng.range(1, 99) as f64 / 100.0), 2 => Some(*rng.pick(&[1e-6, 0.999999, 0.01, 0.5, 0.9, 0.99])), _ => Some(rng.range(1, 999) as f64 / 1000.0) };
        let n = match rng.below(4) { 0 => rng.range(1, 50), 1 => rng.range(50, 512), 2 => *rng.pick(&[1usize, 2, 3, 64, 100, 128, 200, 256, 512, 1000]), _ => rng.range(1, 2000) };
        one(s, n, p);
    }
    for i in 0..40 {           // sets almost the same: very many rows fit
        let s = *rng.pick(&[1.0, 0.99999, 0.9999, 0.999, 1.0 - 1e-9]);
        one(s, rng.range(800, if i % 8 == 0 { 12_000 } else { 3000 }), if rng.chance(1, 3) { None } else { Some(rng.range(1, 99) as f64 / 100.0) });
    }
    for i in 0..60 {           // very large budgets
        let n = match i % 4 { 0 => rng.range(60_000, 140_000), 1 => *rng.pick(&[65_535usize, 65_536, 65_537, 99_991, 131_072, 1 << 20, 1 << 24]), 2 => rng.range(100_000, 5_000_000), _ => rng.range(5_000_000, (1 << 31) - 2) };
        let s = match rng.below(3) { 0 => rng.range(1, 95) as f64 / 100.0, 1 => (rng.next() >> 11) as f64 / (1u64 << 53) as f64 * 0.98, _ => *rng.pick(&[0.5, 0.8, 0.9, 0.95]) };
        one(s.max(1e-9), n, if rng.chance(1, 3) { None } else { Some(rng.range(1, 99) as f64 / 100.0) });
    }
    for i in 0..count {        // targets close to what some number of rows reaches, budgets of every size
        let n = match i % 3 { 0 => rng.range(2, 60), 1 => rng.range(60, 2000), _ => rng.range(2000, 40_000) };
        let s = match rng.below(3) { 0 => rng.range(1, 99) as f64 / 100.0, 1 => (rng.next() >> 11) as f64 / (1u64 << 53) as f64, _ => *rng.pick(&[0.5, 0.8, 0.9, 0.95]) };
        let r = rng.range(1, 40.min(n));
        let prob = 1.0 - (1.0 - s.powi(r as i32)).powi((n / r) as i32);
        let p = prob + *rng.pick(&[1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9]) * if rng.chance(1, 2) { 1.0 } else { -1.0 };
        if p > 1e-6 && p < 1.0 - 1e-9 && s > 0.0 { one(s, n, Some(p)); }
    }
}

// ------------------------------------------------------------------ C11
fn bits64(x: u64) -> Vec<u64> { (0..64).map(|i| (x >> i) & 1).collect() }
fn bits128(x: u128) -> Vec<u64> { (0..128).map(|i| ((x >> i) & 1) as u64).collect() }
fn sim_session<U: Hash>(wide: bool, keys: (u64, u64), voc: &[U], docs: &[Vec<usize>], rng: &mut Rng) {
    let r = call("create_signature", || {
        let mut out: Vec<String> = Vec::new();
        macro_rules! go { ($mk:expr, $bits:ident, $w:expr) => {{
            let h = $mk;
            let sing: Vec<Vec<u64>> = voc.iter().map(|t| $bits(h.create_signature(std::iter::once(t)))).collect();
            out.push(format!("{{\"op\":\"new\",\"w\":{},\"sing\":{}}}", $w, arr2(&sing)));
            for d in docs {
                let g = $mk;
                let mut e = d.clone(); rng.shuffle(&mut e);
                let mut f = d.clone(); f.sort();
                let sigs: Vec<Vec<u64>> = vec![$bits(h.create_signature(d.iter().map(|i| &voc[*i]))), $bits(g.create_signature(e.iter().map(|i| &voc[*i]))), $bits(h.create_signature(f.iter().map(|i| &voc[*i])))];
                let mut cnt = vec![0usize; voc.len()]; for i in d { cnt[*i] += 1; }
                let doc: Vec<(usize, usize)> = cnt.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, c)| (i + 1, *c)).collect();
                out.push(format!("{{\"op\":\"simsig\",\"doc\":{},\"sigs\":{}}}", pairs(&doc), arr2(&sigs)));
            }
        }} }
        if wide { go!((SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(keys.0, keys.1))), bits128, 128) }
        else { go!((SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(keys.0, keys.1))), bits64, 64) }
        out
    });
    match r { Ok(v) => for l in v { emit(l) }, Err(w) => { emit("{\"op\":\"new\"}".into()); emit_panic(&w) } }
    end_session();
}
/// an angle as the number of differing bits it stands for, -1 if it is none
fn angle(x: f64, w: usize) -> i64 { let d = x * w as f64 / std::f64::consts::PI; if (d - d.round()).abs() < 1e-9 { d.round() as i64 } else { -1 } }
fn c11(seed: u64, count: usize, script: &Option<String>) {
    let mut rng = Rng::new(seed ^ 0x1111);
    for k in 0..count {
        let m = rng.range(1, 9);
        let docs: Vec<Vec<usize>> = (0..8).map(|i| { let len = if i == 0 { 0 } else { rng.range(1, 12) }; (0..len).map(|_| rng.below(m)).collect() }).collect();
        let keys = (rng.next(), rng.next());
        if k % 2 == 0 { let voc: Vec<String> = (0..m).map(|i| format!("tok{}\u{e9}", i * 7 + k)).collect(); sim_session(rng.chance(1, 2), keys, &voc, &docs, &mut rng); }
        else { let voc: Vec<u64> = (0..m as u64).map(|i| i * 77 + k as u64).collect(); sim_session(rng.chance(1, 2), keys, &voc, &docs, &mut rng); }
        // centroids and distances
        emit("{\"op\":\"new\"}".into());
        let wide = rng.chance(1, 2);
        let len = match rng.below(4) { 0 => 0, 1 => rng.range(1, 4), 2 => rng.range(1, 12), _ => rng.range(1, 40) };
        let base = (rng.next() as u128) << 64 | rng.next() as u128;
        let list: Vec<u128> = (0..len).map(|_| match rng.below(4) { 0 => base, 1 => !base, 2 => base ^ (1u128 << rng.below(128)) ^ (1u128 << rng.below(64)), _ => (rng.next() as u128) << 64 | rng.next() as u128 }).collect();
        let r = call("centroid", || if wide {
            let h = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(1, 2));
            (128, list.iter().map(|x| bits128(*x)).collect::<Vec<_>>(), bits128(h.create_centroid(list.iter().copied())))
        } else {
            let h = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(1, 2));
            (64, list.iter().map(|x| bits64(*x as u64)).collect::<Vec<_>>(), bits64(h.create_centroid(list.iter().map(|x| *x as u64))))
        });
        match r { Ok((w, l, c)) => emit(format!("{{\"op\":\"simcent\",\"w\":{},\"list\":{},\"cent\":{}}}", w, arr2(&l), arr(&c))), Err(w) => emit_panic(&w) }
        let x = (rng.next() as u128) << 64 | rng.next() as u128;
        let y = match rng.below(4) { 0 => x, 1 => !x, 2 => x ^ (1u128 << rng.below(128)), _ => (rng.next() as u128) << 64 | rng.next() as u128 };
        let x = if rng.chance(1, 8) { 0 } else { x };
        let r = call("hamming_distance", || if wide { (bits128(x), bits128(y), x.hamming_distance(&y), y.hamming_distance(&x), SimHashBits::count_ones(x), angle(x.hamming_angle(&y), 128), <u128 as SimHashBits>::bit_length(), x.to_u32_high_bits(), x.to_u64_high_bits()) }
            else { let (x, y) = (x as u64, y as u64); (bits64(x), bits64(y), x.hamming_distance(&y), y.hamming_distance(&x), SimHashBits::count_ones(x), angle(x.hamming_angle(&y), 64), <u64 as SimHashBits>::bit_length(), x.to_u32_high_bits(), x.to_u64_high_bits()) });
        match r { Ok((a, b, d, d2, o, an, bl, h32, h64)) => emit(format!("{{\"op\":\"ham\",\"h32\":{},\"h64\":{},\"angle\":{},\"len\":{},\"a\":{},\"b\":{},\"d\":{},\"d2\":{},\"ones\":{}}}", arr(&bits64(h32 as u64)[..32]), arr(&bits64(h64)), an, bl, arr(&a), arr(&b), d, d2, o)), Err(w) => emit_panic(&w) }
        end_session();
    }
    // centroids of very many signatures, given with multiplicities
    for (wide, total) in [(false, 255usize), (true, 257), (false, 1000), (true, 5000), (false, 70_000), (true, 140_000)] {
        let kinds = rng.range(2, 7);
        let sigs: Vec<u128> = (0..kinds).map(|_| (rng.next() as u128) << 64 | rng.next() as u128).collect();
        let mut cnt: Vec<usize> = (0..kinds).map(|_| rng.range(1, total / kinds)).collect();
        let rest = total - cnt.iter().sum::<usize>(); let k = rng.below(kinds); cnt[k] += rest;
        let mut list: Vec<u128> = sigs.iter().zip(&cnt).flat_map(|(s, c)| std::iter::repeat(*s).take(*c)).collect();
        if rng.chance(1, 2) { rng.shuffle(&mut list); }
        let pairs_: Vec<(usize, usize)> = cnt.iter().enumerate().map(|(i, c)| (i + 1, *c)).collect();
        emit("{\"op\":\"new\"}".into());
        let r = call("centroid", || if wide {
            let h = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(1, 2));
            (128, sigs.iter().map(|x| bits128(*x)).collect::<Vec<_>>(), bits128(h.create_centroid(list.iter().copied())))
        } else {
            let h = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(1, 2));
            (64, sigs.iter().map(|x| bits64(*x as u64)).collect::<Vec<_>>(), bits64(h.create_centroid(list.iter().map(|x| *x as u64))))
        });
        match r { Ok((w, l, c)) => emit(format!("{{\"op\":\"simcentm\",\"w\":{},\"list\":{},\"doc\":{},\"cent\":{}}}", w, arr2(&l), pairs(&pairs_), arr(&c))), Err(w) => emit_panic(&w) }
        end_session();
    }
    // many distinct tokens
    for k in 0..4 {
        let m = [60usize, 300, 1100, 300][k];
        let voc: Vec<String> = (0..m).map(|i| format!("w{}", i * 13 + k)).collect();
        let docs: Vec<Vec<usize>> = (0..4).map(|_| { let len = rng.range(m, 2 * m); (0..len).map(|_| rng.below(m)).collect() }).collect();
        sim_session(k % 2 == 0, (rng.next(), 2), &voc, &docs, &mut rng);
    }
    // very long documents: counters must not wrap or saturate
    for (wide, len) in [(false, 300usize), (true, 300), (false, 70000), (true, 40000)] {
        let voc: Vec<u64> = (0..3).collect();
        let d: Vec<usize> = (0..len).map(|i| if i % 10 < 6 { 0 } else { 1 + i % 2 }).collect();
        let e: Vec<usize> = vec![2; len];
        sim_session(wide, (1, 2), &voc, &[d, e], &mut rng);
    }
    // one kind of token first and one more of another kind after it: every token counts the same
    for (wide, half) in [(false, 130usize), (true, 600), (false, 5000), (true, 40_000), (false, 110_000)] {
        let voc: Vec<u64> = (0..3).map(|i| i + half as u64).collect();
        let d: Vec<usize> = (0..2 * half + 1).map(|i| (i >= half) as usize).collect();
        let e: Vec<usize> = (0..2 * half + 1).map(|i| if i == 0 { 2 } else { (i > half) as usize }).collect();
        sim_session(wide, (3, 4), &voc, &[d, e], &mut rng);
    }
    if let Some(f) = script {
        let docs: Vec<Vec<usize>> = lines(f).iter().map(|v| ints(&v["x"]).iter().map(|x| x - 1).collect()).collect();
        let voc: Vec<String> = (0..4).map(|i| format!("s{}", i)).collect();
        for (k, chunk) in docs.chunks(60).enumerate() { sim_session(k % 2 == 0, (k as u64, 5), &voc, chunk, &mut rng); }
    }
}

// ------------------------------------------------------------------ C23
/// single-token signatures of one vocabulary under several seeds, as ranks per (seed, position)
fn families<B: BuildHasher + Clone + Send + Sync, U: Hash + Sync>(name: &str, mk: impl Fn() -> B, n: usize, seeds: &[u64], voc: &[U], alike: bool) {
    let r = call("create_signature", || {
        let mut cols: Vec<Vec<u64>> = vec![];
        let mut rows: Vec<Vec<Vec<u64>>> = vec![];
        for wide in [false, true] { for s in seeds {
            let sg: Vec<Vec<u64>> = if wide { let h = MinHasher64V1::new_with_hasher_and_seed(n, mk(), *s); voc.iter().map(|t| h.create_signature(std::iter::once(t))).collect() }
                else { let h = MinHasher32::new_with_hasher_and_seed(n, mk(), *s); voc.iter().map(|t| h.create_signature(std::iter::once(t)).iter().map(|x| *x as u64).collect()).collect() };
            for i in 0..n { cols.push(sg.iter().map(|v| v[i]).collect()); }
            rows.push(sg);
        } }
        (cols, rows)
    });
    let half = |c: &Vec<Vec<u64>>, k: usize| -> Vec<Vec<usize>> { let m = c.len() / 2; c[k * m..(k + 1) * m].iter().map(|v| { let mut s = v.clone(); s.sort(); s.dedup(); v.iter().map(|x| s.binary_search(x).unwrap() + 1).collect() }).collect() };
    // tokens that are much alike may be put in the same order by different functions: what counts then is the values
    let half = |c: &Vec<Vec<u64>>, k: usize| -> Vec<Vec<usize>> {
        if !alike { return half(c, k); }
        let m = c.len() / 2;
        let mut seen: std::collections::HashMap<&Vec<u64>, usize> = Default::default();
        c[k * m..(k + 1) * m].iter().map(|v| { let n = seen.len() + 1; vec![*seen.entry(v).or_insert(n)] }).collect()
    };
    emit("{\"op\":\"new\"}".into());
    match r {
        Ok((cols, rows)) => for k in 0..2 {
            // how many distinct signatures the tokens have, per seed
            let d: Vec<usize> = rows[k * seeds.len()..(k + 1) * seeds.len()].iter().map(|sg| sg.iter().collect::<std::collections::HashSet<_>>().len()).collect();
            emit(format!("{{\"op\":\"family\",\"hasher\":\"{}\",\"width\":{},\"n\":{},\"seeds\":{},\"voc\":{},\"order\":{},\"distinct\":{}}}", name, [32, 64][k], n, seeds.len(), voc.len(), arr2(&half(&cols, k)), arr(&d)));
        },
        Err(w) => emit_panic(&w),
    }
    end_session();
}
fn c23(seed: u64, count: usize) {
    let mut rng = Rng::new(seed ^ 0x2323);
    for k in 0..count {
        let n = if k % 10 == 9 { *rng.pick(&[257usize, 300, 600]) } else { *rng.pick(&[1usize, 2, 5, 16, 40, 100]) };
        let m = rng.range(18, 26);
        let near = rng.next();
        let mut seeds: Vec<u64> = vec![0, 1, 2, 3, u64::MAX, 1 << 32, near, near ^ (1 << rng.below(64)), near ^ 1, near ^ (1 << 63), rng.next() % 1000];
        seeds.sort(); seeds.dedup(); rng.shuffle(&mut seeds); seeds.truncate(rng.range(1, 4));
        let salt = rng.next();
        // tokens that differ at the end, at the beginning, in the middle, or only in length
        let pad = "q".repeat(*rng.pick(&[8usize, 64, 200, 5000]));
        let sv: Vec<String> = (0..m).map(|i| match k % 5 { 0 => format!("{}{}", pad, i + 10), 1 => format!("{}{}", i + 10, pad), 2 => format!("{}{}{}", pad, i + 10, pad), 3 => "ab".repeat(i), _ => format!("t{}-{}\u{e9}", i, salt % 10000) }).collect();
        let rv: Vec<String> = (0..m).map(|_| (0..rng.range(10, 40)).map(|_| rng.pick(&['a', 'z', '0', ' ', '\u{e9}', 'Q', '\u{4e2d}', '-', 'k', 'm', '7', 'x']).to_owned()).collect()).collect();
        let uv: Vec<u64> = (0..m).map(|_| rng.next()).collect();
        macro_rules! go { ($name:expr, $mk:expr) => { match k % 4 { 0 => families($name, $mk, n, &seeds, &sv, true), 2 => families($name, $mk, n, &seeds, &rv, false), _ => families($name, $mk, n, &seeds, &uv, false) } } }
        match k % 3 { 0 => go!("fnv", FnvBuildHasher::default), 1 => go!("sip24", SipHasher24BuildHasher::default), _ => go!("sha1", BuildHasherDefault::<Sha1Hasher>::default) }
        // SimHash: other keys, other signatures; distinct tokens, distinct signatures
        let keys: Vec<(u64, u64)> = vec![(1, 2), (2, 1), (salt, 2), (1, salt), (0, 0), (salt ^ 1, 2), (salt ^ (1 << (1 + k % 63)), 2), (1, salt ^ 1), (1, salt ^ (1 << (1 + (k * 29) % 63))), (salt, salt), (u64::MAX, u64::MAX)];
        let r = call("create_signature", || {
            let a: Vec<Vec<u128>> = keys.iter().map(|k| { let h = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(k.0, k.1)); sv.iter().map(|t| h.create_signature(std::iter::once(t)) as u128).collect() }).collect();
            let b: Vec<Vec<u128>> = keys.iter().map(|k| { let h = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(k.0, k.1)); sv.iter().map(|t| h.create_signature(std::iter::once(t))).collect() }).collect();
            [a, b].map(|v| {
                let mut seen: Vec<u128> = vec![];
                v.iter().map(|r| r.iter().map(|x| match seen.iter().position(|y| y == x) { Some(i) => i, None => { seen.push(*x); seen.len() - 1 } }).collect::<Vec<usize>>()).collect::<Vec<_>>()
            })
        });
        emit("{\"op\":\"new\"}".into());
        match r { Ok(v) => for (i, x) in v.iter().enumerate() { emit(format!("{{\"op\":\"simfamily\",\"width\":{},\"sigs\":{}}}", [64, 128][i], arr2(x))); }, Err(w) => emit_panic(&w) }
        end_session();
    }
}

// ------------------------------------------------------------------ C22
/// pairs of documents of one vocabulary, each under a hasher of its own; how many positions agree
fn estimates<B: BuildHasher + Clone + Send + Sync, U: Hash + Sync>(name: &str, mk: impl Fn() -> B, width: usize, voc: &[U], count: usize, rng: &mut Rng) {
    let m = voc.len();
    let mut ps: Vec<Vec<usize>> = vec![];
    emit("{\"op\":\"new\"}".into());
    for k in 0..count {
        let n = *rng.pick(&[64usize, 100, 128, 256, 400]);
        let (a, e, b, f) = match k % 3 {
            0 => { let (x, y) = (rng.below(m), rng.below(m)); let (p, q) = (rng.below(m), rng.below(m)); (x.min(y), x.max(y) + 1, p.min(q), p.max(q) + 1) }
            1 => { let l = rng.range(1, m); let h = rng.range(0, l.min(m - l)); let x = rng.below(m - l - h + 1); (x, x + l, x + h, x + h + l) }       // same length, shifted
            _ => { let l = rng.range(1, m); let x = rng.below(m - l + 1); let l2 = rng.range(1, l); let y = x + rng.below(l - l2 + 1); (x, x + l, y, y + l2) }   // contained
        };
        let s = if k % 16 == 0 { None } else { Some(rng.next()) };
        let order = rng.chance(1, 2);
        macro_rules! go { ($t:ident) => {{
            let h = match s { Some(s) => $t::new_with_hasher_and_seed(n, mk(), s), None => $t::new_with_hasher(n, mk()) };
            let sim = if order { h.compute_similarity(voc[a..e].iter(), voc[b..f].iter()) } else { h.compute_similarity(voc[b..f].iter().rev(), voc[a..e].iter().rev()) };
            (sim * n as f64).round() as usize
        }} }
        match call("compute_similarity", || match width { 32 => go!(MinHasher32), 64 => go!(MinHasher64V1), 16 => go!(MinHasher16), _ => go!(MinHasher8) }) {
            Ok(agree) => ps.push(vec![n, a, e, b, f, agree]),
            Err(w) => { emit_panic(&w); break; }
        }
    }
    emit(format!("{{\"op\":\"est\",\"hasher\":\"{}\",\"width\":{},\"voc\":{},\"ps\":{}}}", name, width, m, arr2(&ps)));
    end_session();
}
fn c22(seed: u64, count: usize) {
    let mut rng = Rng::new(seed ^ 0x2222);
    for k in 0..count {
        let m = match k % 5 { 0 => rng.range(10, 20), 1 => rng.range(20, 100), 2 => rng.range(100, 400), 3 => rng.range(400, 1000), _ => if k % 25 == 4 { 4000 } else { 60 } };
        let width = [32usize, 64, 16, 8, 32, 64][rng.below(6)];
        let base = rng.next();
        macro_rules! go { ($voc:expr) => {{ let voc = $voc; match rng.below(3) {
            0 => estimates("fnv", FnvBuildHasher::default, width, &voc, 96, &mut rng),
            1 => estimates("sip24", SipHasher24BuildHasher::default, width, &voc, 96, &mut rng),
            _ => estimates("sha1", BuildHasherDefault::<Sha1Hasher>::default, width, &voc, 96, &mut rng) } }} }
        match k % 7 {
            0 => go!((0..m as u64).collect::<Vec<u64>>()),
            1 => go!((0..m).map(|_| rng.next()).collect::<Vec<u64>>()),
            2 => go!((0..m).map(|i| format!("token{}", i)).collect::<Vec<String>>()),
            3 => go!((0..m).map(|i| format!("{:x} and {}", rng.next(), i)).collect::<Vec<String>>()),
            4 => go!((0..m as u32).map(|i| i.wrapping_add(base as u32)).collect::<Vec<u32>>()),
            5 => go!((0..m).map(|i| (format!("w{}", i % 50), format!("w{}", i / 50))).collect::<Vec<(String, String)>>()),      // pairs of words
            _ => go!((0..m).map(|i| format!("{}{}", "long common beginning ".repeat(3), i)).collect::<Vec<String>>()),
        }
    }
}

// ------------------------------------------------------------------ C24
fn c24(seed: u64, count: usize) {
    let mut rng = Rng::new(seed ^ 0x2424);
    macro_rules! one { ($mk:expr, $bits:ident, $l:expr, $voc:expr, $keys:expr, $rng:expr) => {{
        const L: usize = $l;
        let (mk, bits, voc, keys, rng): (_, _, &Voc, (u64, u64), &mut Rng) = ($mk, $bits, $voc, $keys, $rng);
        emit("{\"op\":\"new\"}".into());
        let r = call("create_signature", || {
            let h = mk(keys.0, keys.1);
            let all: Vec<Vec<u64>> = match voc { Voc::S(v) => v.iter().map(|t| bits(h.create_signature(std::iter::once(t)))).collect(), Voc::U(v) => v.iter().map(|t| bits(h.create_signature(std::iter::once(t)))).collect() };
            let ones: Vec<u64> = (0..L).map(|i| all.iter().map(|x| x[i]).sum()).collect();
            let mut agree: Vec<usize> = vec![];
            for i in 0..L { for j in 0..i { agree.push(all.iter().filter(|x| x[i] == x[j]).count()); } }
            format!("{{\"op\":\"bits\",\"w\":{},\"t\":{},\"ones\":{},\"agree\":{}}}", L, all.len(), arr(&ones), arr(&agree))
        });
        match r { Ok(l) => emit(l), Err(w) => emit_panic(&w) }
        // documents with common tokens, each pair under keys of its own
        let mut ps: Vec<Vec<usize>> = vec![];
        for _ in 0..100 {
            let c = rng.range(0, 7); let (x, y) = (rng.range(if c == 0 { 1 } else { 0 }, 6), rng.range(if c == 0 { 1 } else { 0 }, 6));
            let k = (rng.next(), rng.next());
            let at = rng.below(match voc { Voc::S(v) => v.len(), Voc::U(v) => v.len() } - 30);
            let r = call("create_signature", || {
                let h = mk(k.0, k.1);
                macro_rules! dist { ($v:expr) => {{ let v = &$v[at..]; h.create_signature(v[..c + x].iter()).hamming_distance(&h.create_signature(v[..c].iter().chain(v[c + x..c + x + y].iter()))) }} }
                match voc { Voc::S(v) => dist!(v), Voc::U(v) => dist!(v) }
            });
            match r { Ok(d) => ps.push(vec![c, x, y, d]), Err(w) => { emit_panic(&w); break; } }
        }
        emit(format!("{{\"op\":\"simest\",\"w\":{},\"ps\":{}}}", L, arr2(&ps)));
        end_session();
    }} }
    for k in 0..count {
        let m = rng.range(400, 1500);
        let salt = rng.next();
        let voc = match k % 4 { 0 => Voc::U((0..m as u64).collect()), 1 => Voc::S((0..m).map(|i| format!("token{}", i)).collect()), 2 => Voc::U((0..m).map(|_| rng.next()).collect()), _ => Voc::S((0..m).map(|i| format!("{}{}", "shared prefix of the words ", i)).collect()) };
        let keys = *rng.pick(&[(0u64, 0u64), (1, 2), (salt, 1), (1, salt), (salt, salt), (u64::MAX, salt)]);
        if rng.chance(1, 2) { one!(|a, b| SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(a, b)), bits64, 64, &voc, keys, &mut rng); }
        else { one!(|a, b| SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(a, b)), bits128, 128, &voc, keys, &mut rng); }
    }
}
enum Voc { S(Vec<String>), U(Vec<u64>) }

fn lines(f: &str) -> Vec<Value> { std::fs::read_to_string(f).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect() }
fn ints(v: &Value) -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() }

fn main() {
    let a = Args::get();
    init(&a.out, a.shards);
    match a.profile.as_str() {
        "C08" => c08(a.seed, a.count, &a.script),
        "C09" => c09(a.seed, a.count, &a.script),
        "C10" => c10(a.seed, a.count),
        "C22" => c22(a.seed, a.count),
        "C24" => c24(a.seed, a.count),
        "C23" => c23(a.seed, a.count), "C11" => c11(a.seed, a.count, &a.script),
        _ => panic!("profile"),
    }
    finish();
}
