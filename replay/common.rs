//! Case runner: deterministic cases, addressed by (seed, index), on the natively compiled real code.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// Numbers and strings that occur as literals in the source under test; `new` ones are those the recorded source does not have.
pub struct Dict { pub nums: Vec<u64>, pub new_nums: Vec<u64>, pub strs: Vec<Vec<u8>>, pub new_strs: Vec<Vec<u8>> }
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let v = |k: &str| std::env::var(k).unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect::<Vec<_>>();
        let n = |k: &str| v(k).iter().filter_map(|s| s.parse().ok()).collect::<Vec<u64>>();
        let s = |k: &str| v(k).iter().map(|s| (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()).collect::<Vec<Vec<u8>>>();
        Dict { nums: n("VP_NUMS"), new_nums: n("VP_NEW_NUMS"), strs: s("VP_STRS"), new_strs: s("VP_NEW_STRS") }
    })
}
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    /// A number from the source under test, or one next to it.
    pub fn magic(&mut self) -> Option<u64> {
        let d = dict();
        let v = if !d.new_nums.is_empty() && self.chance(5) { &d.new_nums } else if !d.nums.is_empty() && self.chance(60) { &d.nums } else { return None };
        let n = *self.pick(v);
        Some(match self.below(6) { 0 => n.wrapping_sub(1), 1 | 2 => n.wrapping_add(1), 3 => n.wrapping_add(self.below(9) as u64), _ => n })
    }
    pub fn magic_str(&mut self) -> Option<Vec<u8>> {
        let d = dict();
        let v = if !d.new_strs.is_empty() && self.chance(6) { &d.new_strs } else if !d.strs.is_empty() && self.chance(80) { &d.strs } else { return None };
        let mut s = self.pick(v).clone();
        match self.below(8) { 0 => { let n = self.below(4); s.extend(self.bytes(n)) } 1 => { s.pop(); } 2 => { let n = self.below(4); s.splice(0..0, self.bytes(n)); } _ => {} }
        Some(s)
    }
    /// A size: `n` unless a number of the source is drawn.
    pub fn size(&mut self, n: usize) -> usize { match self.magic() { Some(m) if m <= 70000 => m as usize, _ => n } }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn chance(&mut self, one_in: usize) -> bool { self.below(one_in) == 0 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn len(&mut self) -> usize {
        if let Some(m) = self.magic() { if m <= 70000 { return m as usize } }
        match self.below(40) { 0..=7 => 0, 8..=14 => 1, 15..=30 => self.below(24), 31..=36 => self.below(80), 37 => 250 + self.below(12), 38 => self.below(700), _ => if self.chance(12) { 65530 + self.below(12) } else { 127 + self.below(3) } }
    }
    /// Bytes biased towards separators, zeroes, high bits and ASCII.
    pub fn blob(&mut self) -> Vec<u8> {
        if let Some(s) = self.magic_str() { return s }
        let n = self.len();
        let d = &dict().new_nums;
        let mode = self.below(if d.is_empty() { 4 } else { 5 });
        (0..n).map(|_| match mode { 4 => *self.pick(d) as u8, 0 => self.next() as u8, 1 => b'a' + self.below(26) as u8, 2 => *self.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b',', b'-', b'\r', b'\n', b' ']), _ => if self.chance(3) { 0 } else { self.next() as u8 } }).collect()
    }
    pub fn u32(&mut self) -> u32 { if let Some(m) = self.magic() { return m as u32 } match self.below(6) { 0 => self.below(5) as u32, 1 => *self.pick(&[0x7fff_ffff, 0x8000_0000, u32::MAX, u32::MAX - 1, 0x0102_0304, 0xff00, 0x10000, 255, 256]), _ => self.next() as u32 } }
    pub fn text(&mut self) -> String { if let Some(s) = self.magic_str() { if let Ok(s) = String::from_utf8(s) { return s } } let n = self.len(); (0..n).map(|_| *self.pick(&['a', 'Z', ' ', '\u{e9}', '\u{20ac}', '\u{1f600}', ',', '\0'])).collect() }
}
impl rand::RngCore for Rng {
    fn next_u32(&mut self) -> u32 { self.next() as u32 }
    fn next_u64(&mut self) -> u64 { self.next() }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.iter_mut().for_each(|b| *b = self.next() as u8) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand::CryptoRng for Rng {}

#[derive(Debug)]
pub struct Fail { pub id: &'static str, pub detail: String }
pub type R = Result<Option<String>, Fail>;
pub fn fail<T>(id: &'static str, detail: String) -> Result<T, Fail> { Err(Fail { id, detail }) }
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(200).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 200 { s += &format!("..({} bytes)", b.len()) }
    s
}
/// Runs the code under test; a panic becomes Err(message).
pub fn calm<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()))
}
pub struct Test { pub name: &'static str, pub f: fn(&mut Rng, u64) -> R }
fn esc(s: &str) -> String { s.chars().flat_map(|c| match c { '"' => "\\\"".chars().collect::<Vec<_>>(), '\\' => "\\\\".chars().collect(), c if (c as u32) < 32 => format!("\\u{:04x}", c as u32).chars().collect(), c => vec![c] }).collect() }

/// args: property seed first count [threads]
pub fn main(table: fn(&str) -> Vec<Test>) {
    let a: Vec<String> = std::env::args().collect();
    let tests = table(&a[1]);
    let (seed, first, count): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let threads: u64 = a.get(5).map_or(8, |t| t.parse().unwrap());
    let budget: f64 = std::env::var("VP_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(1e9);
    if tests.is_empty() { println!("{{\"none\":true}}"); return }
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    let next = AtomicU64::new(first);
    let fails = Mutex::new(Vec::<String>::new());
    let seen = Mutex::new(std::collections::HashSet::<u64>::new());
    let samples = Mutex::new(Vec::<String>::new());
    let n = AtomicU64::new(0);
    std::thread::scope(|s| for _ in 0..threads {
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= first + count || fails.lock().unwrap().len() >= 3 || t0.elapsed().as_secs_f64() > budget { break }
            let t = &tests[(i % tests.len() as u64) as usize];
            let mut rng = Rng(seed.wrapping_mul(0x1000193) ^ i.wrapping_mul(0x9e3779b97f4a7c15));
            rng.next();
            let r = match calm(|| (t.f)(&mut rng, i / tests.len() as u64)) { Ok(r) => r, Err(p) => fail("panic", format!("panicked: {}", p)) };
            n.fetch_add(1, Ordering::Relaxed);
            match r {
                Ok(None) => {}
                Ok(Some(s)) => {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    std::hash::Hash::hash(&(t.name, &s), &mut h);
                    let new = seen.lock().unwrap().insert(std::hash::Hasher::finish(&h));
                    let mut sm = samples.lock().unwrap();
                    if new && sm.len() < 5 { sm.push(format!("{}: {}", t.name, s.chars().take(160).collect::<String>())) }
                }
                Err(f) => fails.lock().unwrap().push(format!("{{\"id\":\"{}/{}\",\"case\":{},\"seed\":{},\"detail\":\"{}\"}}", esc(t.name), esc(f.id), i, seed, esc(&f.detail.chars().take(1500).collect::<String>()))),
            }
        }).unwrap();
    });
    let sm: Vec<String> = samples.into_inner().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect();
    println!("{{\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"failures\":[{}],\"tests\":[{}]}}", n.load(Ordering::Relaxed), seen.into_inner().unwrap().len(), sm.join(","), fails.into_inner().unwrap().join(","),
        tests.iter().map(|t| format!("\"{}\"", t.name)).collect::<Vec<_>>().join(","));
}
