//! Shingles and word splitting (C13, C14).
use conform::tr::*;
use gaoya::text::*;

fn cps(s: &str) -> Vec<u32> { s.chars().map(|c| c as u32).collect() }
fn nest(v: &[Vec<u32>]) -> String { arr2(v) }

/// Every shingle form that applies to the text and range.
fn forms(text: &str, from: usize, to: usize) -> Vec<(&'static str, Vec<Vec<u32>>)> {
    let chars: Vec<char> = text.chars().collect();
    let mut r: Vec<(&'static str, Vec<Vec<u32>>)> = vec![];
    // an iterator that does not end is cut off, which the specification rejects
    let cap = (chars.len() + 2) * (to - from + 2) + 5;
    r.push(("shingle_text_range", shingle_text_range(text, from, to).take(cap).map(cps).collect()));
    r.push(("MultiShingles<str>", MultiShingles::<str>::new(text, from, to).take(cap).map(cps).collect()));
    r.push(("MultiShingles<[T]>", MultiShingles::<[char]>::new(&chars[..], from, to).take(cap).map(|g| g.iter().map(|c| *c as u32).collect()).collect()));
    if from == to {
        r.push(("shingle_text", shingle_text(text, from).take(cap).map(cps).collect()));
        r.push(("shingle_text_boxed", shingle_text_boxed(text, from).take(cap).map(cps).collect()));
    }
    r
}
fn shingles(text: &str, ranges: &[(usize, usize)]) {
    emit("{\"op\":\"new\"}".into());
    let (mut rs, mut names): (Vec<String>, Vec<String>) = (vec![], vec![]);
    for (from, to) in ranges {
        match call("shingles", || forms(text, *from, *to)) {
            Ok(fs) => {
                let mut seen: Vec<(Vec<Vec<u32>>, String)> = vec![];
                for (n, v) in fs {
                    match seen.iter_mut().find(|(x, _)| *x == v) { Some((_, names)) => { names.push(' '); names.push_str(n) }, None => seen.push((v, n.to_string())) }
                }
                for (v, n) in seen { rs.push(format!("[{},{},{}]", from, to, nest(&v))); names.push(js(&n)); }
            }
            Err(w) => emit_panic(&w),
        }
    }
    emit(format!("{{\"op\":\"shingles\",\"t\":{},\"r\":{},\"forms\":{}}}", arr(&cps(text)), arr(&rs), arr(&names)));
    end_session();
}
fn tokens(toks: &[&str], n: usize) {
    let v: Vec<&str> = toks.to_vec();
    emit("{\"op\":\"new\"}".into());
    match call("shingle_tokens", || shingle_tokens(&v, n).take(toks.len() + 5).map(|s| cps(&s)).collect::<Vec<_>>()) {
        Ok(items) => emit(format!("{{\"op\":\"tokens\",\"t\":{},\"n\":{},\"items\":{}}}", nest(&toks.iter().map(|t| cps(t)).collect::<Vec<_>>()), n, nest(&items))),
        Err(w) => emit_panic(&w),
    }
    end_session();
}
fn words(text: &str) {
    let cap = text.len() + 3;
    match call("whitespace_split", || (whitespace_split(text).take(cap).map(cps).collect::<Vec<_>>(), whitespace_split_boxed(text).take(cap).map(cps).collect::<Vec<_>>())) {
        Ok((a, b)) => emit(format!("{{\"op\":\"words\",\"t\":{},\"items\":{},\"boxed\":{}}}", arr(&cps(text)), nest(&a), nest(&b))),
        Err(w) => emit_panic(&w),
    }
}
// representatives of the encoded widths, including the first and last scalar of each width
const W: [[char; 6]; 4] = [['a', 'z', ' ', '\u{0}', '\u{7f}', '.'], ['\u{80}', '\u{e9}', '\u{7ff}', '\u{a0}', '\u{bf}', '\u{c0}'],
    ['\u{800}', '\u{4e2d}', '\u{ffff}', '\u{3000}', '\u{fffd}', '\u{2028}'], ['\u{10000}', '\u{1F600}', '\u{10ffff}', '\u{3ffff}', '\u{40000}', '\u{fffff}']];
fn wide(rng: &mut Rng, len: usize) -> String { (0..len).map(|_| { let k = rng.below(4); *rng.pick(&W[k]) }).collect() }
fn lines(f: &str) -> Vec<Vec<usize>> {
    std::fs::read_to_string(f).unwrap().lines().map(|l| { let v: serde_json::Value = serde_json::from_str(l).unwrap(); v["x"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect() }).collect()
}
fn c13(seed: u64, count: usize, script: &Option<String>) {
    let mut rng = Rng::new(seed ^ 0x1313);
    if let Some(f) = script {
        for (k, t) in lines(f).iter().enumerate() {
            let text: String = t.iter().enumerate().map(|(i, c)| W[*c][(k + i) % 6]).collect();
            let mut ranges = vec![];
            for from in 1..=t.len() + 1 { for to in from..=t.len() + 2 { ranges.push((from, to)); } }
            shingles(&text, &ranges);
        }
    }
    let t = wide(&mut rng, 66000);
    shingles(&t, &[(2, 3)]);
    let t: String = (0..66_000 + rng.below(500)).map(|_| *rng.pick(&W[0])).collect();
    let f = rng.range(1, 3);
    shingles(&t, &[(f, f + 1 + rng.below(2))]);
    let words = ["a", "", "bb", "\u{e9}\u{4e2d}", "a", "\u{1F600}x"];
    for len in 0..7usize { for n in 1..=len + 2 { let v: Vec<&str> = (0..len).map(|_| *rng.pick(&words)).collect(); tokens(&v, n); } }
    for _ in 0..count {
        let len = match rng.below(3) { 0 => rng.range(0, 8), 1 => rng.range(8, 24), _ => rng.range(24, 60) };
        let t = wide(&mut rng, len);
        let ranges: Vec<(usize, usize)> = (0..4).map(|_| { let f = rng.range(1, 9); (f, if rng.chance(1, 3) { f } else { f + rng.below(7) }) }).collect();
        shingles(&t, &ranges);
        let f = len + 1;
        if rng.chance(1, 6) { shingles(&t, &[(len.max(1), f + 3), (f, f + 1), (1000, 1001), (len.max(1), len.max(1))]); }
        if rng.chance(1, 25) {      // long texts, long shingles
            let len = rng.range(200, 700);
            let t = wide(&mut rng, len);
            let f = *rng.pick(&[1usize, 2, 31, 64, 190, 255, 256, 300]);
            shingles(&t, &[(f, f + rng.below(3))]);
        }
        if rng.chance(1, 40) {
            let len = *rng.pick(&[1000usize, 1024, 1025, 2049, 4096, 4100]) + rng.below(3);
            let t = wide(&mut rng, len);
            let f = *rng.pick(&[1usize, 2, 3, 5]);
            shingles(&t, &[(f, f + rng.below(3))]);
            let v: Vec<&str> = (0..*rng.pick(&[255usize, 256, 300, 1025, 4100])).map(|_| *rng.pick(&words)).collect();
            tokens(&v, rng.range(1, 5));
        }
        let v: Vec<&str> = (0..rng.range(0, 20)).map(|_| *rng.pick(&words)).collect();
        tokens(&v, rng.range(1, 7));
    }
}
/// A long text in parts: what the specification is told, and the text.
fn parts(rng: &mut Rng, n: usize, seps: &[char], odd: &[char], biggest: usize) {
    let mut tab: Vec<String> = vec![String::new(), " ".into()];
    let len = |rng: &mut Rng| if rng.chance(1, 4) { rng.range(1, biggest + 1) } else { rng.range(1, 6) };
    for _ in 0..12 { let k = len(rng); tab.push((0..k).map(|_| *rng.pick(seps)).collect()); }
    let nsep = tab.len();
    for _ in 0..30 { let k = len(rng); tab.push((0..k).map(|_| loop { let c = if rng.chance(1, 4) { *rng.pick(odd) } else { let k = rng.below(4); *rng.pick(&W[k]) }; if !seps.contains(&c) { break c; } }).collect()); }
    let mut seen = std::collections::HashMap::new();
    let mut ids: Vec<usize> = vec![];
    let mut uniq: Vec<String> = vec![];
    for t in &tab { let k = *seen.entry(t.clone()).or_insert_with(|| { uniq.push(t.clone()); uniq.len() }); ids.push(k); }
    let (mut s, mut w, mut text) = (vec![], vec![], String::new());
    for i in 0..=n {
        let k = if (i == 0 || i == n) && rng.chance(1, 2) { 0 } else { 1 + rng.below(nsep - 1) };
        s.push(ids[k]); text.push_str(&tab[k]);
        if i < n { let k = nsep + rng.below(30); w.push(ids[k]); text.push_str(&tab[k]); }
    }
    let cap = text.len() + 3;
    let mut number = |x: &str| *seen.entry(x.to_string()).or_insert_with(|| { uniq.push(x.to_string()); uniq.len() });
    emit("{\"op\":\"new\"}".into());
    match call("whitespace_split", || (whitespace_split(&text).take(cap).map(&mut number).collect::<Vec<usize>>(), whitespace_split_boxed(&text).take(cap).map(&mut number).collect::<Vec<usize>>())) {
        Ok((a, b)) => emit(format!("{{\"op\":\"parts\",\"tab\":{},\"s\":{},\"w\":{},\"items\":{},\"boxed\":{}}}",
            nest(&uniq.iter().map(|t| cps(t)).collect::<Vec<_>>()), arr(&s), arr(&w), arr(&a), arr(&b))),
        Err(x) => emit_panic(&x),
    }
    end_session();
}
fn c14(seed: u64, count: usize, script: &Option<String>) {
    let mut rng = Rng::new(seed ^ 0x1414);
    let seps: Vec<char> = (0u8..128).map(|c| c as char).filter(|c| c.is_ascii_punctuation() || c.is_ascii_whitespace()).collect();
    let odd: Vec<char> = "\u{a0}\u{85}\u{2003}\u{3000}\u{2028}\u{bf}\u{a1}\u{2014}\u{ff0c}\u{3001}\u{b}\u{7f}\u{1f}\u{1c}\u{0}\u{feff}\u{301}\u{200b}".chars().collect();
    // every ASCII character, and all other Latin-1 and general punctuation characters, between, before and after words and doubled
    let mut all: Vec<char> = (0u32..0x180).chain(0x2000..0x2070).chain(0x3000..0x3030).chain(0xff00..0xff10).filter_map(char::from_u32).collect();
    all.extend(odd.iter());
    for chunk in all.chunks(16) {
        emit("{\"op\":\"new\"}".into());
        for c in chunk { words(&format!("x{}y", c)); words(&format!("{}x\u{e9}{}{}z{}", c, c, c, c)); words(&c.to_string()); }
        end_session();
    }
    if let Some(f) = script {
        for (k, chunk) in lines(f).chunks(24).enumerate() {
            emit("{\"op\":\"new\"}".into());
            for t in chunk {
                let text: String = t.iter().map(|c| match *c { 0 => *rng.pick(&['a', 'Z', '0']), 1 => seps[(k * 7 + rng.below(seps.len())) % seps.len()], 2 => ' ', 3 => *rng.pick(&odd), 4 => *rng.pick(&W[1]), _ => *rng.pick(&W[3]) }).collect();
                words(&text);
            }
            end_session();
        }
    }
    for i in 0..count {
        if i % 6 == 0 { let n = *rng.pick(&[0usize, 1, 2, 31, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 2050, 4097, 10001]); parts(&mut rng, n, &seps, &odd, 40); }
        if i % 12 == 0 { let big = *rng.pick(&[100usize, 255, 256, 257, 1024, 4097, 66000]); let n = rng.range(0, 60); parts(&mut rng, n, &seps, &odd, big); }
        if i == 7 { parts(&mut rng, 66000, &seps, &odd, 20); }
        emit("{\"op\":\"new\"}".into());
        for _ in 0..6 {
            let len = if rng.chance(1, 10) { 0 } else if rng.chance(1, 12) { rng.range(200, 900) } else { rng.range(1, 60) };
            let dense = rng.range(1, 8);
            let t: String = (0..len).map(|_| if rng.below(9) < dense { let k = rng.below(4); *rng.pick(&W[k]) } else if rng.chance(1, 2) { *rng.pick(&seps) } else { *rng.pick(&odd) }).collect();
            words(&t);
        }
        end_session();
    }
}
fn main() {
    let a = Args::get();
    init(&a.out, a.shards);
    match a.profile.as_str() { "C13" => c13(a.seed, a.count, &a.script), "C14" => c14(a.seed, a.count, &a.script), _ => panic!("profile") }
    finish();
}
