//! Trace recording, random numbers, panic capture and the hang watchdog.
use std::collections::hash_map::DefaultHasher;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9ABC_DEF1);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
    }
}

/// Where the recorded sessions go: `shards` ndjson files, balanced by size.
pub struct Out {
    pub dir: String,
    pub shards: Vec<Vec<String>>,
    pub sizes: Vec<usize>,
    pub cur: Vec<String>,
    pub sessions: u64,
    pub events: u64,
    pub kinds: std::collections::BTreeMap<String, u64>,
    pub distinct: std::collections::HashSet<u64>,
}

static OUT: Mutex<Option<Out>> = Mutex::new(None);
static OP_START: AtomicU64 = AtomicU64::new(0);
static WHERE: Mutex<String> = Mutex::new(String::new());

pub fn now_ms() -> u64 {
    use std::sync::OnceLock;
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

pub fn init(dir: &str, shards: usize) {
    fs::create_dir_all(dir).unwrap();
    *OUT.lock().unwrap() = Some(Out {
        dir: dir.to_string(), shards: vec![Vec::new(); shards], sizes: vec![0; shards], cur: Vec::new(),
        sessions: 0, events: 0, kinds: Default::default(), distinct: Default::default(),
    });
    now_ms();
    std::panic::set_hook(Box::new(|info| {
        if std::env::var("CONFORM_VERBOSE").is_ok() { eprintln!("panic: {}", info); }
    }));
    let limit: u64 = std::env::var("CONFORM_OP_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        let s = OP_START.load(Ordering::SeqCst);
        if s != 0 && now_ms().saturating_sub(s) > limit * 1000 {
            let w = WHERE.lock().unwrap().clone();
            emit(format!("{{\"op\":\"panic\",\"during\":\"{} (no return in {} s)\"}}", w, limit));
            end_session();
            finish();
            std::process::exit(0);
        }
    });
}

fn kind_of(line: &str) -> String {
    let i = line.find("\"op\":\"").map(|i| i + 6).unwrap_or(0);
    line[i..].split('"').next().unwrap_or("?").to_string()
}

pub fn emit(line: String) {
    let mut g = OUT.lock().unwrap();
    let o = g.as_mut().unwrap();
    o.events += 1;
    *o.kinds.entry(kind_of(&line)).or_insert(0) += 1;
    o.cur.push(line);
}

pub fn end_session() {
    let mut g = OUT.lock().unwrap();
    let o = g.as_mut().unwrap();
    if o.cur.is_empty() { return; }
    o.sessions += 1;
    let mut h = DefaultHasher::new();
    o.cur.hash(&mut h);
    o.distinct.insert(h.finish());
    let bytes: usize = o.cur.iter().map(|l| l.len() + 200).sum();
    let k = (0..o.sizes.len()).min_by_key(|&k| o.sizes[k]).unwrap();
    o.sizes[k] += bytes;
    let cur = std::mem::take(&mut o.cur);
    o.shards[k].extend(cur);
}

pub fn finish() {
    let mut g = OUT.lock().unwrap();
    let o = g.as_mut().unwrap();
    for (k, lines) in o.shards.iter().enumerate() {
        if lines.is_empty() { continue; }
        let mut f = std::io::BufWriter::new(fs::File::create(format!("{}/trace{}.ndjson", o.dir, k)).unwrap());
        for l in lines { writeln!(f, "{}", l).unwrap(); }
    }
    let kinds: Vec<String> = o.kinds.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let s = format!("{{\"sessions\":{},\"distinct_sessions\":{},\"events\":{},\"kinds\":{{{}}}}}\n",
                    o.sessions, o.distinct.len(), o.events, kinds.join(","));
    fs::write(format!("{}/summary.json", o.dir), s).unwrap();
}

/// Runs one call of the code under test; a panic is data.
pub fn call<R>(name: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    *WHERE.lock().unwrap() = name.to_string();
    OP_START.store(now_ms(), Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    OP_START.store(0, Ordering::SeqCst);
    r.map_err(|_| name.to_string())
}

pub fn emit_panic(during: &str) { emit(format!("{{\"op\":\"panic\",\"during\":\"{}\"}}", during)); }

pub fn js(s: &str) -> String { serde_json::to_string(s).unwrap() }

/// The number a description gives for a name ("name = number"); -1 when the description does not mention it.
pub fn described(text: &str, name: &str) -> f64 {
    let key = format!("{} = ", name);
    let mut from = 0;
    while let Some(k) = text[from..].find(&key) {
        let at = from + k;
        let whole = text[..at].chars().last().map(|c| !(c.is_alphanumeric() || c == '_')).unwrap_or(true);
        let v: String = text[at + key.len()..].chars().take_while(|c| c.is_ascii_digit() || ".-+eE".contains(*c)).collect();
        if whole { return v.parse().unwrap_or(-2.0); }
        from = at + 1;
    }
    -1.0
}

pub fn arr<T: std::fmt::Display>(v: &[T]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() { if i > 0 { s.push(','); } s.push_str(&x.to_string()); }
    s.push(']');
    s
}
pub fn arr2<T: std::fmt::Display>(v: &[Vec<T>]) -> String {
    let v: Vec<String> = v.iter().map(|x| arr(x)).collect();
    arr(&v)
}
pub fn pairs<A: std::fmt::Display, B: std::fmt::Display>(v: &[(A, B)]) -> String {
    let v: Vec<String> = v.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
    arr(&v)
}

/// <bin> <profile> <outdir> <shards> <seed> <count> [script]
pub struct Args { pub profile: String, pub out: String, pub shards: usize, pub seed: u64, pub count: usize, pub script: Option<String> }
impl Args {
    pub fn get() -> Args {
        let a: Vec<String> = std::env::args().collect();
        if a.len() < 6 { eprintln!("usage: {} <profile> <outdir> <shards> <seed> <count> [script]", a[0]); std::process::exit(3); }
        Args { profile: a[1].clone(), out: a[2].clone(), shards: a[3].parse().unwrap(), seed: a[4].parse().unwrap(),
               count: a[5].parse().unwrap(), script: a.get(6).cloned() }
    }
}

thread_local! { static POOLS: std::cell::RefCell<std::collections::HashMap<usize, std::rc::Rc<rayon::ThreadPool>>> = Default::default(); }
pub fn with_threads<R: Send>(n: usize, f: impl FnOnce() -> R + Send) -> R {
    let p = POOLS.with(|m| m.borrow_mut().entry(n).or_insert_with(||
        std::rc::Rc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())).clone());
    p.install(f)
}

