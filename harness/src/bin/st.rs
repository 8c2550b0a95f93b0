//! The string index (C18).
use conform::tr::*;
use gaoya::minhash::*;
use gaoya::text::whitespace_split;
use std::io::{BufReader, Read};

/// A reader that returns few bytes at a time and is interrupted now and then.
struct Choppy { data: Vec<u8>, pos: usize, k: usize }
impl Read for Choppy {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.k += 1;
        if self.k % 3 == 0 { return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)); }
        let n = (1 + self.k % 4).min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
#[derive(Clone, Debug)]
enum Op { Insert(String), Rep { form: usize, block: Vec<u8>, times: usize, tail: Vec<u8> }, Reader(Vec<u8>), File(Vec<u8>), Parallel(Vec<u8>), Missing(bool), Dir(bool), Queries }

fn texts_of(b: &[u8]) -> Vec<String> {
    let mut v: Vec<&[u8]> = b.split(|c| *c == b'\n').collect();
    let tail = v.pop().unwrap();
    let mut r: Vec<String> = v.iter().filter_map(|l| { let l = if l.ends_with(b"\r") { &l[..l.len() - 1] } else { l }; String::from_utf8(l.to_vec()).ok() }).collect();
    if !tail.is_empty() { if let Ok(t) = String::from_utf8(tail.to_vec()) { r.push(t); } }
    r
}
fn session(dir: &str, b: usize, w: usize, thr: f64, ops: &[Op], extra: &[String], threads: usize) {
    let mut texts: Vec<String> = extra.to_vec();
    for o in ops { match o { Op::Insert(t) => texts.push(t.clone()), Op::Reader(d) | Op::File(d) | Op::Parallel(d) => texts.extend(texts_of(d)), Op::Rep { block, tail, .. } => { texts.extend(texts_of(block)); texts.extend(texts_of(tail)) }, _ => () } }
    texts.sort(); texts.dedup();
    let n = b * w;
    let sigs = match call("create_signature", || { let h = MinHasher64V1::new(n); texts.iter().map(|t| h.create_signature(whitespace_split(t))).collect::<Vec<Vec<u64>>>() }) { Ok(s) => s, Err(_) => return };
    let m = |i: usize, j: usize| -> usize { (0..n).filter(|k| sigs[i][*k] == sigs[j][*k]).count() };
    let sh = |i: usize, j: usize| -> usize { (0..b).any(|k| sigs[i][k * w..(k + 1) * w] == sigs[j][k * w..(k + 1) * w]) as usize };
    let all: Vec<usize> = (0..texts.len()).collect();
    let match_: Vec<Vec<usize>> = all.iter().map(|i| all.iter().map(|j| m(*i, *j)).collect()).collect();
    let share: Vec<Vec<usize>> = all.iter().map(|i| all.iter().map(|j| sh(*i, *j)).collect()).collect();
    let need = (0..=n).find(|k| *k as f64 / n as f64 >= thr).unwrap_or(n + 1);
    let bytes: Vec<Vec<u8>> = texts.iter().map(|t| t.as_bytes().to_vec()).collect();
    emit(format!("{{\"op\":\"new\",\"b\":{},\"w\":{},\"need\":{},\"texts\":{},\"match\":{},\"share\":{}}}", b, w, need, arr2(&bytes), arr2(&match_), arr2(&share)));
    let at = |t: &str| texts.iter().position(|x| x == t).map(|i| i + 1).unwrap_or(0);
    let mut ix = match call("MinHashStringIndex::new", || MinHashStringIndex::new(b, w, thr)) { Ok(x) => x, Err(w) => { emit_panic(&w); end_session(); return; } };
    let file = format!("{}/input.txt", dir);
    macro_rules! run { ($name:expr, $e:expr, $f:expr) => { match call($name, || $e) { Ok(x) => emit($f(x)), Err(w) => { emit_panic(&w); end_session(); return; } } } }
    for o in ops {
        match o {
            Op::Insert(t) => run!("insert", { ix.insert(t.clone()); ix.size() }, |s| format!("{{\"op\":\"insert\",\"t\":{},\"size\":{}}}", at(t), s)),
            Op::Reader(d) => run!("load_from_lines", {
                if d.len() % 2 == 0 { ix.load_from_lines(&mut BufReader::with_capacity(1 + d.len() % 5, Choppy { data: d.clone(), pos: 0, k: 0 })) } else { ix.load_from_lines(&mut BufReader::new(&d[..])) }
                ix.size() }, |s| format!("{{\"op\":\"load\",\"form\":\"reader\",\"bytes\":{},\"ret\":-2,\"size\":{}}}", arr(d), s)),
            Op::File(d) => { std::fs::write(&file, d).unwrap();
                run!("load_from_file", { let r = ix.load_from_file(&file); (r.map(|x| x as i64).unwrap_or(-1), ix.size()) }, |(r, s)| format!("{{\"op\":\"load\",\"form\":\"file\",\"bytes\":{},\"ret\":{},\"size\":{}}}", arr(d), r, s)) }
            Op::Parallel(d) => { std::fs::write(&file, d).unwrap();
                run!("load_from_file_parallel", with_threads(threads, || { let r = ix.load_from_file_parallel(&file); (r.map(|x| x as i64).unwrap_or(-1), ix.size()) }), |(r, s)| format!("{{\"op\":\"load\",\"form\":\"parallel\",\"bytes\":{},\"ret\":{},\"size\":{}}}", arr(d), r, s)) }
            // a file that consists of many copies of the same block of lines
            Op::Rep { form, block, times, tail } => {
                let mut d: Vec<u8> = Vec::new();
                for _ in 0..*times { d.extend(block); }
                d.extend(tail);
                if *form > 0 { std::fs::write(&file, &d).unwrap(); }
                run!("loading a large file", with_threads(threads, || {
                    let r = match form { 0 => { ix.load_from_lines(&mut BufReader::new(&d[..])); -2 }, 1 => ix.load_from_file(&file).map(|x| x as i64).unwrap_or(-1), _ => ix.load_from_file_parallel(&file).map(|x| x as i64).unwrap_or(-1) };
                    (r, ix.size()) }), |(r, s)| format!("{{\"op\":\"loadrep\",\"form\":\"{}\",\"block\":{},\"times\":{},\"tail\":{},\"ret\":{},\"size\":{}}}", ["reader", "file", "parallel"][*form], arr(block), times, arr(tail), r, s))
            }
            Op::Missing(p) | Op::Dir(p) => {
                let name = if matches!(o, Op::Dir(_)) { dir.to_string() } else { format!("{}/no-such-file", dir) };
                run!("loading an unreadable file", { let r = if *p { ix.load_from_file_parallel(&name) } else { ix.load_from_file(&name) }; (r.map(|x| x as i64).unwrap_or(-1), ix.size()) },
                     |(r, s)| format!("{{\"op\":\"bad\",\"file\":\"{}\",\"ret\":{},\"size\":{}}}", if matches!(o, Op::Dir(_)) { "directory" } else { "missing" }, r, s))
            }
            Op::Queries => for i in 0..texts.len() {
                if texts.len() > 20 && i % 7 != 0 { continue; }
                run!("query", ix.query(&texts[i]).into_iter().map(|t| at(t)).collect::<Vec<_>>(), |r: Vec<usize>| format!("{{\"op\":\"q\",\"t\":{},\"res\":{}}}", i + 1, arr(&r)))
            },
        }
    }
    end_session();
}
fn main() {
    let a = Args::get();
    init(&a.out, a.shards);
    let dir = format!("{}/scratch", a.out);
    std::fs::create_dir_all(&dir).unwrap();
    let mut rng = Rng::new(a.seed ^ 0x1818);
    let pieces: Vec<&[u8]> = vec![b"a b c d", b"a b c e", b"x", b"", b" ,.", "\u{e9}t\u{e9} \u{1F600}".as_bytes(), b"a b", b"a  b!", b"z z z y",
        b" a b c d", b"a b c d ", b"\ta b", b"a b\t", "a b\u{a0}".as_bytes(), "\u{a0}a b".as_bytes(), "\u{feff}a b".as_bytes(), "a b\u{feff}".as_bytes(), "\u{3000}a b\u{3000}".as_bytes(), b"a\rb", b"\ra b", b"a b\x0b", b"a b\x0c", b"a b\0", b"\0", "a b\u{85}".as_bytes(), "a b\u{2028}".as_bytes(), b"A B", b"#a b", b"\"a b\""];
    let bad: Vec<&[u8]> = vec![b"\xff", b"a \xc3", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80 q", b"\xc0\xaf", b"ok \x80"];
    // every ASCII character at both ends and inside of a line
    let odd: Vec<Vec<u8>> = (0..128u8).filter(|c| *c != b'\n').flat_map(|c| vec![vec![c, b'a', b' ', b'b'], vec![b'a', b' ', b'b', c], vec![b'a', b' ', c, b' ', b'b'], vec![c], vec![b'a', c, c]]).collect();
    if let Some(f) = &a.script {
        for (i, l) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            let v: serde_json::Value = serde_json::from_str(l).unwrap();
            let mut d: Vec<u8> = vec![];
            for p in v["file"].as_array().unwrap() { match p.as_str().unwrap() { "word" => d.extend(b"a b c"), "other" => d.extend("a b \u{4e2d}".as_bytes()), "bad" => d.extend(*rng.pick(&bad)), "lf" => d.push(b'\n'), "crlf" => d.extend(b"\r\n"), _ => d.push(b'\r') } }
            let mut ops = vec![];
            for o in v["ops"].as_array().unwrap() { ops.push(match o.as_str().unwrap() { "insert" => Op::Insert("a b c".into()), "reader" => Op::Reader(d.clone()), "file" => Op::File(d.clone()), _ => Op::Parallel(d.clone()) }); ops.push(Op::Queries); }
            session(&dir, 2 + i % 3, 1 + i % 2, [0.5, 0.3, 1.0][i % 3], &ops, &["a b q".to_string()], 1 + i % 4);
        }
    }
    for _ in 0..a.count {
        let mut ops = vec![];
        let gen = |rng: &mut Rng| -> Vec<u8> {
            let mut d = vec![];
            for _ in 0..rng.range(0, 6) {
                if rng.chance(1, 7) { d.extend(*rng.pick(&bad)) } else if rng.chance(1, 3) { d.extend(rng.pick(&odd)) } else { d.extend(*rng.pick(&pieces)) }
                if rng.chance(8, 9) { d.extend(if rng.chance(1, 4) { &b"\r\n"[..] } else { &b"\n"[..] }) }
            }
            d
        };
        for _ in 0..rng.range(1, 7) {
            ops.push(match rng.below(9) { 0 | 1 => Op::Insert(String::from_utf8(rng.pick(&pieces).to_vec()).unwrap()), 2 | 3 => Op::Reader(gen(&mut rng)), 4 | 5 => Op::File(gen(&mut rng)), 6 | 7 => Op::Parallel(gen(&mut rng)),
                _ => { let p = rng.chance(1, 2); if rng.chance(1, 2) { Op::Missing(p) } else { Op::Dir(p) } } });
            if rng.chance(1, 2) { ops.push(Op::Queries); }
        }
        ops.push(Op::Queries);
        session(&dir, rng.range(1, 6), rng.range(1, 4), *rng.pick(&[0.2, 0.5, 0.8, 1.0]), &ops, &["a b c".to_string(), "nothing".to_string()], rng.range(1, 8));
    }
    for (k, c) in odd.chunks(64).enumerate() { for form in 0..3 {
        let mut d = vec![]; for x in c { d.extend(x); d.push(b'\n'); }
        let o = match form { 0 => Op::Reader(d), 1 => Op::File(d), _ => Op::Parallel(d) };
        session(&dir, 4, 2, 0.5, &[o, Op::Queries], &[], 1 + k % 4);
    } }
    for k in 0..3 {         // files with more lines than a batch of any thread
        let mut d = vec![];
        for i in 0..150 + 40 * k { d.extend(format!("w{} a\n", i % 40).as_bytes()); }
        let o = [Op::Parallel(d.clone()), Op::Insert("w1 a".into()), Op::File(d.clone()), Op::Parallel(d.clone())];
        let ops = vec![o[k].clone(), Op::Queries, o[k + 1].clone(), Op::Queries];
        session(&dir, 4, 2, 0.5, &ops, &[], 4);
    }
    for k in 0..3 {         // files larger than any buffer, with long lines and characters across buffer borders
        let mut d = vec![];
        let lines = [1500usize, 12, 300][k];
        let wide = ["a \u{e9}", "\u{1F600} \u{4e2d}x ", "b ."][k];
        for i in 0..lines {
            let l: String = match k { 0 => format!("{}{} q", wide, i % 50), 1 => format!("{}{}", wide.repeat(180 + 97 * (i % 5)), i % 5), _ => format!("{} w{}", wide.repeat(20 + i % 3), i % 60) };
            d.extend(l.as_bytes());
            if rng.chance(1, 40) { d.extend(*rng.pick(&bad)); }
            d.extend(if i % 11 == 3 { &b"\r\n"[..] } else if i + 1 == lines { &b""[..] } else { &b"\n"[..] });
        }
        let mut ops: Vec<Op> = vec![];
        for _ in 0..3 { ops.push(match rng.below(3) { 0 => Op::Reader(d.clone()), 1 => Op::File(d.clone()), _ => Op::Parallel(d.clone()) }); if rng.chance(1, 2) { ops.push(Op::Insert("a b".into())); } }
        ops.push(Op::Queries);
        session(&dir, rng.range(2, 5), rng.range(1, 3), 0.5, &ops, &["nothing".to_string()], rng.range(2, 8));
    }
    for k in 0..4 {         // very long lines, very many lines
        let mut d = vec![];
        let lens: Vec<usize> = match k { 0 => vec![3, 70_000, 5, 66_000, 2], 1 => vec![9_000, 140_000, 1], 2 => vec![1; 12_000], _ => vec![7; 2_100] };
        for (i, n) in lens.iter().enumerate() {
            let l: String = match k { 0 | 1 => { let w = ["ab ", "\u{e9}", "xyz"][i % 3]; format!("{}{}", w.repeat(n / w.len()), i) }, 2 => format!("d{}", i * 7 % 30), _ => format!("d{} e{}", i % 50, i % 7) };
            d.extend(l.as_bytes());
            if k == 3 && i % 500 == 33 { d.extend(*rng.pick(&bad)); }
            d.push(b'\n');
        }
        let o = |rng: &mut Rng| match rng.below(3) { 0 => Op::Reader(d.clone()), 1 => Op::File(d.clone()), _ => Op::Parallel(d.clone()) };
        let ops = vec![if k == 2 { Op::Parallel(d.clone()) } else { o(&mut rng) }, Op::Insert("d1".into()), Op::Queries, o(&mut rng), Op::Queries];
        session(&dir, rng.range(2, 5), rng.range(1, 3), 0.5, &ops, &["nothing".to_string()], rng.range(2, 8));
    }
    for k in 0..3 {         // files of several megabytes
        let mut block: Vec<u8> = vec![];
        for i in 0..rng.range(3, 8) {
            block.extend(format!("{}{}", ["ab ", "c\u{e9} ", "xyz,"][i % 3].repeat([40usize, 700, 1][(i + k) % 3] + i), i).as_bytes());
            if i % 5 == 4 { block.extend(*rng.pick(&bad)); }
            block.extend(if i % 2 == 0 { &b"\n"[..] } else { &b"\r\n"[..] });
        }
        let times = (*rng.pick(&[1_200_000usize, 2_500_000, 5_000_000]) / block.len()).min(3000);
        let tail = [&b"the last words"[..], b"last\nline\n", b""][k].to_vec();
        let ops = vec![Op::Rep { form: (k + a.seed as usize) % 3, block: block.clone(), times, tail: tail.clone() }, Op::Insert("a b".into()), Op::Queries, Op::Rep { form: (k + 1 + a.seed as usize) % 3, block, times: times / 2, tail }, Op::Queries];
        session(&dir, rng.range(2, 4), rng.range(1, 3), 0.5, &ops, &["nothing".to_string()], rng.range(2, 8));
    }
    for k in 0..2 {         // more than 65536 documents
        let mut block: Vec<u8> = vec![];
        for i in 0..11 { block.extend(format!("d{} e{}\n", i, i % 2).as_bytes()); }
        let ops = vec![Op::Insert("d3 e1".into()), Op::Rep { form: if k == 0 { a.seed as usize % 2 } else { 2 }, block, times: 6_000, tail: b"the last words\nd3 e1".to_vec() }, Op::Insert("a b".into()), Op::Queries];
        session(&dir, 4, 2, 0.6, &ops, &["nothing".to_string()], 4);
    }
    let _ = std::fs::remove_dir_all(&dir);
    finish();
}
