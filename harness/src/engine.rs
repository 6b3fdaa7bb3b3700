//! Deterministic property-testing engine. A case is a pure function of a sequence of choices; a
//! failing sequence is shrunk by deleting, zeroing and lowering choices, which keeps every
//! generated structure well formed, and is written out as the replay file.
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: crate::alloc::Mon = crate::alloc::Mon;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng(0x243F6A8885A308D3);
    let mut acc = 0u64;
    for p in parts {
        r.0 ^= *p;
        acc = acc.rotate_left(17) ^ r.next();
    }
    acc
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Source of choices. Choice 0 is the simplest one everywhere.
pub struct Src {
    pub rec: Vec<u64>,
    replay: Option<Vec<u64>>,
    rng: Rng,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rec: vec![], replay: None, rng: Rng(seed) }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Src { rec: vec![], replay: Some(v), rng: Rng(0) }
    }
    fn raw(&mut self) -> u64 {
        match &self.replay {
            Some(v) => v.get(self.rec.len()).copied().unwrap_or(0),
            None => self.rng.next() >> 1,
        }
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1) as u64;
        let v = self.raw() % n;
        self.rec.push(v);
        v as usize
    }
    pub fn u64(&mut self) -> u64 {
        let v = match &self.replay {
            Some(_) => self.raw(),
            None => self.rng.next(),
        };
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum();
        let mut x = self.below(t);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        0
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        match self.below(8) {
            0 => (0..n).map(|_| self.byte()).collect(),
            1 => vec![0xff; n],
            2 => vec![0; n],
            3 => (0..n).map(|_| [0u8, 1, 2, 3, 0x7f, 0x80, 0xff, 0xfe][self.below(8)]).collect(),
            _ => (0..n).map(|_| self.byte()).collect(),
        }
    }
    /// A value of `bits` bits with edges favoured.
    pub fn int(&mut self, bits: usize) -> u128 {
        let mask = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let v = match self.below(12) {
            0 => 0,
            1 => self.below(16) as u128,
            2 => mask,
            3 => mask.wrapping_sub(self.below(4) as u128),
            4 => 1u128 << self.below(bits.max(1)),
            5 => (1u128 << self.below(bits.max(1))).wrapping_sub(1),
            6 => mask >> 1,
            7 => (mask >> 1).wrapping_add(1),
            8 => mask.wrapping_shl(self.below(bits.max(1)) as u32),
            _ => ((self.u64() as u128) << 64) | self.u64() as u128,
        };
        v & mask
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// stable class of the failure, used for known findings and for shrinking
    pub kind: String,
    pub msg: String,
}
pub fn fail<T>(kind: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { kind: kind.into(), msg: msg.into() })
}

/// What a case tells the engine about itself.
pub struct Cx {
    pub verbose: bool,
    pub nontrivial: bool,
    pub fp: Option<u64>,
    pub discarded: bool,
    pub sub: u64,
    pub note: String,
    tags: Vec<String>,
}
impl Cx {
    fn new(verbose: bool) -> Self {
        Cx { verbose, nontrivial: false, fp: None, discarded: false, sub: 0, note: String::new(), tags: vec![] }
    }
    pub fn tag(&mut self, t: impl Into<String>) {
        self.tags.push(t.into());
    }
    pub fn tag_if(&mut self, c: bool, t: &str) {
        if c {
            self.tags.push(t.to_string());
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            if !self.note.is_empty() {
                self.note.push_str("; ");
            }
            self.note.push_str(&s);
        }
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn fp<T: Hash>(&mut self, t: &T) {
        self.fp = Some(hash_of(t));
    }
    pub fn discard(&mut self) {
        self.discarded = true;
    }
}

pub type CaseFn = Box<dyn Fn(&mut Src, &mut Cx) -> Result<(), Fail> + Sync + Send>;
pub struct Leg {
    pub name: String,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}
impl Leg {
    pub fn new(
        name: &str,
        quick: u64,
        thorough: u64,
        f: impl Fn(&mut Src, &mut Cx) -> Result<(), Fail> + Sync + Send + 'static,
    ) -> Leg {
        // cheap cases: what is stated is one unit of about a second
        let k = if quick >= 10_000 { 4 } else { 1 };
        Leg { name: name.into(), quick: quick * k, thorough: thorough * k, f: Box::new(f) }
    }
}

pub struct Check {
    pub property: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub legs: Vec<Leg>,
}

#[derive(Default)]
struct LegStats {
    cases: u64,
    sub: u64,
    nontrivial: u64,
    discarded: u64,
    distinct: HashSet<u64>,
    tags: BTreeMap<String, u64>,
    first: Vec<u64>,
    known: BTreeMap<String, u64>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<(usize, u64)> = const { Cell::new((0, 0)) };
}
/// Run `f`, turning a panic into Err(message with location).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}
fn install_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("panicked: {msg} at {loc}"))
            }
        });
        if !QUIET.with(|q| q.get()) {
            def(i);
        }
    }));
}

fn run_case(leg: &Leg, src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    crate::alloc::reset_case();
    match guard(|| (leg.f)(src, cx)) {
        Ok(r) => r,
        Err(m) => {
            // the class of a panic is its message without numbers
            let kind: String = m.chars().filter(|c| !c.is_ascii_digit()).take(120).collect();
            Err(Fail { kind: format!("panic:{kind}"), msg: m })
        }
    }
}

fn shrink(leg: &Leg, choices: Vec<u64>, f0: Fail) -> (Vec<u64>, Fail) {
    let start = Instant::now();
    let mut best = choices;
    let mut bf = f0;
    let mut execs = 0u64;
    let budget = Duration::from_secs(15);
    let mut try_one = |cand: Vec<u64>, best: &mut Vec<u64>, bf: &mut Fail| -> bool {
        if execs > 20000 || start.elapsed() > budget {
            return false;
        }
        execs += 1;
        let mut s = Src::replay(cand);
        let mut cx = Cx::new(false);
        if let Err(f) = run_case(leg, &mut s, &mut cx) {
            if f.kind == bf.kind {
                let rec = s.rec;
                if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) {
                    *best = rec;
                    *bf = f;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // drop tails and blocks
        for k in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= k {
                i -= k.min(i);
                if i + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    try_one(c, &mut best, &mut bf);
                }
                if i == 0 {
                    break;
                }
            }
        }
        // zero blocks
        for k in [8usize, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + k].iter_mut().for_each(|v| *v = 0);
                    try_one(c, &mut best, &mut bf);
                }
                i += k;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !try_one(c, &mut best, &mut bf) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() > budget {
            break;
        }
    }
    (best, bf)
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Known {
    kind: String,
    what: String,
}
fn known(prop: &str) -> Vec<Known> {
    let p = verif_dir().join("known_findings.json");
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&t).unwrap_or(json!({}));
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == prop)
                .map(|e| Known {
                    kind: e["kind"].as_str().unwrap_or("").into(),
                    what: e["what"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

struct Global {
    prop: &'static str,
    seed: u64,
    tier: String,
    legs: Vec<String>,
}
static GLOB: Mutex<Option<Global>> = Mutex::new(None);

fn replay_path(prop: &str, leg: &str) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{prop}-{leg}.json"))
}

/// Report a case that cannot be unwound (runaway memory, no termination) and leave.
fn report_fatal(what: &str, leg: usize, idx: u64) -> ! {
    let g = GLOB.lock().unwrap_or_else(|e| e.into_inner());
    let g = g.as_ref().unwrap();
    let path = replay_path(g.prop, &g.legs[leg]);
    let _ = std::fs::write(
        &path,
        serde_json::to_string_pretty(&json!({"property": g.prop, "leg": g.legs[leg], "seed": g.seed, "index": idx, "tier": g.tier, "kind": what, "message": what})).unwrap(),
    );
    println!("{}: leg {} case {}: {}", g.prop, g.legs[leg], idx, what);
    println!("VIOLATION property={} replay={}", g.prop, path.display());
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}
fn oom_hook() {
    let (leg, idx) = CUR.with(|c| c.get());
    report_fatal("memory use without bound: more than 1 GiB live in one case", leg, idx)
}

struct Slot {
    clock: AtomicUsize,
    start_ns: AtomicU64,
    leg: AtomicUsize,
    idx: AtomicU64,
    active: AtomicBool,
}
fn cpu_ns(clock: libc::clockid_t) -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
pub const CASE_CPU_S: u64 = 40;

struct Shared {
    // mapped file: [leg, idx+1] per thread, so that a parent can tell what a killed child ran
    ptr: *mut u64,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

fn run_leg(
    li: usize,
    leg: &Leg,
    n: u64,
    seed: u64,
    threads: usize,
    slots: &[Slot],
    shared: &Option<Shared>,
    kn: &[Known],
) -> (LegStats, Option<(u64, Vec<u64>, Fail)>) {
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let best: Mutex<Option<(u64, Vec<u64>, Fail)>> = Mutex::new(None);
    let stats: Mutex<LegStats> = Mutex::new(LegStats::default());
    let lh = hash_of(&leg.name);
    let chunk = (n / (threads as u64 * 8)).clamp(1, 256);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, stop_at, best, stats) = (&next, &stop_at, &best, &stats);
            let slot = &slots[t];
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    crate::alloc::arm(true);
                    QUIET.with(|q| q.set(true));
                    let mut clock: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
                    slot.clock.store(clock as usize, Ordering::SeqCst);
                    let mut st = LegStats::default();
                    'o: loop {
                        let a = next.fetch_add(chunk, Ordering::SeqCst);
                        if a >= n {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            if i > stop_at.load(Ordering::Relaxed) {
                                break 'o;
                            }
                            CUR.with(|c| c.set((li, i)));
                            slot.leg.store(li, Ordering::Relaxed);
                            slot.idx.store(i, Ordering::Relaxed);
                            slot.start_ns.store(cpu_ns(clock), Ordering::Relaxed);
                            slot.active.store(true, Ordering::SeqCst);
                            if let Some(sh) = shared {
                                unsafe {
                                    sh.ptr.add(t * 2).write_volatile(li as u64);
                                    sh.ptr.add(t * 2 + 1).write_volatile(i + 1);
                                }
                            }
                            let mut src = Src::random(mix(&[seed, lh, i]));
                            let mut cx = Cx::new(false);
                            let r = run_case(leg, &mut src, &mut cx);
                            slot.active.store(false, Ordering::SeqCst);
                            st.cases += 1;
                            st.sub += cx.sub;
                            if cx.discarded {
                                st.discarded += 1;
                            } else if cx.nontrivial {
                                st.nontrivial += 1;
                                st.distinct.insert(cx.fp.unwrap_or_else(|| hash_of(&src.rec)));
                                if st.first.len() < 2 {
                                    st.first.push(i);
                                }
                            }
                            for t in cx.tags.drain(..) {
                                *st.tags.entry(t).or_insert(0) += 1;
                            }
                            if let Err(f) = r {
                                if kn.iter().any(|k| k.kind == f.kind) {
                                    *st.known.entry(f.kind).or_insert(0) += 1;
                                    continue;
                                }
                                let mut b = best.lock().unwrap();
                                if b.as_ref().map_or(true, |x| i < x.0) {
                                    *b = Some((i, src.rec, f));
                                    stop_at.fetch_min(i, Ordering::SeqCst);
                                }
                            }
                        }
                    }
                    if let Some(sh) = shared {
                        unsafe { sh.ptr.add(t * 2 + 1).write_volatile(0) };
                    }
                    crate::alloc::arm(false);
                    let mut g = stats.lock().unwrap();
                    g.cases += st.cases;
                    g.sub += st.sub;
                    g.nontrivial += st.nontrivial;
                    g.discarded += st.discarded;
                    g.distinct.extend(st.distinct);
                    g.first.extend(st.first);
                    for (k, v) in st.tags {
                        *g.tags.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in st.known {
                        *g.known.entry(k).or_insert(0) += v;
                    }
                })
                .unwrap();
        }
    });
    let mut st = stats.into_inner().unwrap();
    st.first.sort();
    (st, best.into_inner().unwrap())
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

pub fn seed() -> u64 {
    arg("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

pub fn main(check: Check) -> ! {
    install_hook();
    let tier = arg("--tier").unwrap_or_else(|| {
        std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into())
    });
    let seed = seed();
    if std::env::var("VH_CHILD").is_err() && arg("--replay").is_none() {
        parent(&check, &tier);
    }
    *GLOB.lock().unwrap() = Some(Global {
        prop: check.property,
        seed,
        tier: tier.clone(),
        legs: check.legs.iter().map(|l| l.name.clone()).collect(),
    });
    crate::alloc::ON_OOM.store(oom_hook as fn() as usize, Ordering::SeqCst);
    if let Some(f) = arg("--replay") {
        replay(&check, &f);
    }
    let t0 = Instant::now();
    let threads = arg("--threads").and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let slots: &'static [Slot] = Box::leak(
        (0..threads)
            .map(|_| Slot {
                clock: AtomicUsize::new(0),
                start_ns: AtomicU64::new(0),
                leg: AtomicUsize::new(0),
                idx: AtomicU64::new(0),
                active: AtomicBool::new(false),
            })
            .collect::<Vec<_>>()
            .into_boxed_slice(),
    );
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for s in slots {
            if s.active.load(Ordering::SeqCst) {
                let (leg, idx) = (s.leg.load(Ordering::SeqCst), s.idx.load(Ordering::SeqCst));
                let start = s.start_ns.load(Ordering::SeqCst);
                let now = cpu_ns(s.clock.load(Ordering::SeqCst) as libc::clockid_t);
                if s.active.load(Ordering::SeqCst)
                    && s.idx.load(Ordering::SeqCst) == idx
                    && s.leg.load(Ordering::SeqCst) == leg
                    && now.saturating_sub(start) > CASE_CPU_S * 1_000_000_000
                {
                    report_fatal("does not terminate: 40 s of processor time in one case", leg, idx);
                }
            }
        }
    });
    let shared = std::env::var("VH_SHARED").ok().and_then(|p| {
        let f = std::fs::OpenOptions::new().read(true).write(true).open(p).ok()?;
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        (p != libc::MAP_FAILED).then_some(Shared { ptr: p as *mut u64 })
    });
    let kn = known(check.property);
    let only = arg("--only");
    let scale: f64 = arg("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let mut legs_json = serde_json::Map::new();
    let (mut evals, mut distinct, mut subs) = (0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<(String, Value)> = None;
    for (li, leg) in check.legs.iter().enumerate() {
        if only.as_ref().is_some_and(|o| !leg.name.contains(o.as_str())) {
            continue;
        }
        let n = if tier == "thorough" { leg.thorough } else { leg.quick };
        let n = ((n as f64 * scale) as u64).max(1);
        let lt = Instant::now();
        let (st, bad) = run_leg(li, leg, n, seed, threads, slots, &shared, &kn);
        evals += st.cases;
        subs += st.sub;
        distinct += st.distinct.len() as u64;
        for (k, v) in &st.known {
            *seen_known.entry(k.clone()).or_insert(0) += v;
        }
        // written-out samples: one or two non-trivial cases of each leg, re-run verbosely
        if samples.len() < 24 {
            for i in st.first.iter().take(if check.legs.len() > 8 { 1 } else { 2 }) {
                let mut src = Src::random(mix(&[seed, hash_of(&leg.name), *i]));
                let mut cx = Cx::new(true);
                let _ = run_case(leg, &mut src, &mut cx);
                let mut note = cx.note;
                if note.len() > 1200 {
                    let mut k = 1200;
                    while !note.is_char_boundary(k) {
                        k -= 1;
                    }
                    note.truncate(k);
                    note.push('…');
                }
                samples.push(json!({"leg": leg.name, "case": i, "what": note}));
            }
        }
        legs_json.insert(
            leg.name.clone(),
            json!({"cases": st.cases, "checks": st.sub, "nontrivial": st.nontrivial, "distinct_nontrivial": st.distinct.len(),
                   "discarded": st.discarded, "distribution": st.tags, "wall_s": (lt.elapsed().as_millis() as f64)/1000.0}),
        );
        eprintln!(
            "{} {}: {} cases, {} non-trivial, {} discarded, {:.1} s",
            check.property, leg.name, st.cases, st.nontrivial, st.discarded, lt.elapsed().as_secs_f64()
        );
        if let Some((i, choices, f)) = bad {
            let first = f.clone();
            let (small, f) = shrink(leg, choices, f);
            let mut cx = Cx::new(true);
            let mut s = Src::replay(small.clone());
            let _ = run_case(leg, &mut s, &mut cx);
            let path = replay_path(check.property, &leg.name);
            let v = json!({"property": check.property, "leg": leg.name, "seed": seed, "index": i, "tier": tier,
                "kind": f.kind, "message": f.msg, "case": cx.note, "choices": small, "first_message": first.msg});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
            println!("{}: leg {} case {}: [{}] {}", check.property, leg.name, i, f.kind, f.msg);
            if !cx.note.is_empty() {
                println!("  minimal case: {}", cx.note);
            }
            violation = Some((path.display().to_string(), v));
            break;
        }
    }
    for k in &kn {
        println!("KNOWN-FINDING: property={} {}", check.property, k.what);
    }
    let ev = json!({
        "property": check.property, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": check.rule,
            "checks_inside_cases": subs, "samples": samples, "legs": legs_json,
            "known_findings_met": seen_known,
        },
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_millis() as f64 / 1000.0,
        "violations": violation.is_some() as u64,
    });
    let ep = verif_dir().join("evidence").join(format!("{}.json", check.property));
    let _ = std::fs::create_dir_all(ep.parent().unwrap());
    if std::fs::write(&ep, serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        eprintln!("cannot write {}", ep.display());
        std::process::exit(2);
    }
    if let Some((p, _)) = violation {
        println!("VIOLATION property={} replay={}", check.property, p);
        std::process::exit(1);
    }
    println!("{}: held on {} cases ({} distinct non-trivial)", check.property, evals, distinct);
    std::process::exit(0);
}

fn replay(check: &Check, file: &str) -> ! {
    let v: Value = std::fs::read_to_string(file)
        .ok()
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or_else(|| {
            eprintln!("cannot read {file}");
            std::process::exit(2)
        });
    let Some(leg) = check.legs.iter().find(|l| v["leg"] == l.name.as_str()) else {
        eprintln!("no such leg");
        std::process::exit(2)
    };
    let mut src = match v["choices"].as_array() {
        Some(c) => Src::replay(c.iter().map(|x| x.as_u64().unwrap_or(0)).collect()),
        None => Src::random(mix(&[v["seed"].as_u64().unwrap_or(1), hash_of(&leg.name), v["index"].as_u64().unwrap_or(0)])),
    };
    let mut cx = Cx::new(true);
    let r = run_case(leg, &mut src, &mut cx);
    println!("case: {}", cx.note);
    match r {
        Ok(()) => {
            println!("holds");
            std::process::exit(0)
        }
        Err(f) => {
            println!("fails: [{}] {}", f.kind, f.msg);
            println!("VIOLATION property={} replay={}", check.property, file);
            std::process::exit(1)
        }
    }
}

/// Runs the check in a child, so that a child killed by a signal (an abort, invalid memory) is
/// traced back to the case that did it.
fn parent(check: &Check, tier: &str) -> ! {
    let shared = std::env::temp_dir().join(format!("vh-{}-{}", check.property, std::process::id()));
    let _ = std::fs::write(&shared, vec![0u8; 4096]);
    let exe = std::env::current_exe().expect("exe");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let st = std::process::Command::new(&exe)
        .args(&args)
        .env("VH_CHILD", "1")
        .env("VH_SHARED", &shared)
        .status();
    let data = std::fs::read(&shared).unwrap_or_default();
    let _ = std::fs::remove_file(&shared);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(2)
        }
    };
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    use std::os::unix::process::ExitStatusExt;
    let sig = st.signal().unwrap_or(0);
    eprintln!("{}: the run was ended by signal {sig}", check.property);
    if sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT {
        std::process::exit(2);
    }
    let words: Vec<u64> = data.chunks_exact(8).map(|c| u64::from_ne_bytes(c.try_into().unwrap())).collect();
    for w in words.chunks_exact(2) {
        let (leg, idx) = (w[0] as usize, w[1]);
        if idx == 0 || leg >= check.legs.len() {
            continue;
        }
        let idx = idx - 1;
        let path = replay_path(check.property, &check.legs[leg].name);
        let _ = std::fs::write(
            &path,
            serde_json::to_string_pretty(&json!({"property": check.property, "leg": check.legs[leg].name, "seed": seed(),
                "index": idx, "tier": tier, "kind": "signal", "message": format!("process ended by signal {sig}")})).unwrap(),
        );
        let r = std::process::Command::new(&exe).args(["--replay", &path.display().to_string()]).output();
        if let Ok(o) = r {
            if o.status.code() != Some(0) && o.status.signal() != Some(libc::SIGKILL) {
                println!("{}: leg {} case {} ends the process (signal {sig})", check.property, check.legs[leg].name, idx);
                println!("VIOLATION property={} replay={}", check.property, path.display());
                std::process::exit(1);
            }
        }
    }
    eprintln!("could not reproduce the crash");
    std::process::exit(2)
}
