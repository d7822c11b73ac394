//! Property-based testing engine used by all checks.
//!
//! * A case is a finite sequence of choices (`Src`). Fresh cases draw them from a stream that is a
//!   pure function of (VERIF_SEED, property, law, case index); replays read them from a file.
//! * A failing case is shrunk on its choice sequence (chunk deletion, zeroing, value bisection) and
//!   written as a replay file which `run.sh replay FILE` executes without any generation.
//! * Every law counts cases, distinct non-trivial cases and labelled classes for the evidence file.

pub mod circ;
pub mod gen;
pub mod lookup;
pub mod proofs;
pub mod prover;
pub mod refs;

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    splitmix(h)
}

/// Outcome of a law on one case.
pub type Res = Result<(), String>;

/// The source of all choices of one case.
pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub describing: bool,
    pub desc: String,
    /// set when a case turned out to be outside the law's domain; it is counted, not judged
    pub discarded: bool,
}

impl Src {
    fn fresh(seed: u64) -> Self {
        Src { state: seed, replay: None, pos: 0, rec: Vec::new(), nontrivial: false, classes: vec![], describing: false, desc: String::new(), discarded: false }
    }
    /// A source of its own, for data made once.
    pub fn seeded(seed: u64) -> Self {
        Src::fresh(seed)
    }
    fn replaying(v: Vec<u64>) -> Self {
        let mut s = Src::fresh(0);
        s.replay = Some(v);
        s
    }
    fn raw(&mut self) -> u64 {
        match &self.replay {
            Some(v) => v.get(self.pos).copied().unwrap_or(0),
            None => {
                self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
                let mut z = self.state;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                z ^ (z >> 31)
            }
        }
    }
    fn put(&mut self, v: u64) -> u64 {
        self.pos += 1;
        self.rec.push(v);
        // a shortened case must not make a generator wait for a choice that never comes
        let limit = self.replay.as_ref().map_or(50_000_000, |v| v.len() + 100_000);
        if self.rec.len() > limit {
            self.discarded = true;
            panic!("too many choices");
        }
        v
    }
    /// Any 64-bit value.
    pub fn u64(&mut self) -> u64 {
        let v = self.raw();
        self.put(v)
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = self.raw() % n;
        self.put(v)
    }
    pub fn upto(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den; the simplest choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.raw() % den;
        let hit = v >= den - num;
        self.put(if hit { den - 1 } else { 0 });
        hit
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.upto(xs.len());
        &xs[i]
    }
    /// Index drawn with the given weights; the simplest choice is index 0.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.raw() % total;
        // record a canonical representative so that replay picks the same index
        let mut acc = 0;
        for (i, &wi) in w.iter().enumerate() {
            if v < wi {
                self.put(acc);
                return i;
            }
            v -= wi;
            acc += wi;
        }
        unreachable!()
    }
    /// A size in lo..=hi, biased to small values but reaching hi.
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        match self.weighted(&[3, 4, 2, 1]) {
            0 => self.range(lo, hi.min(lo + 2)),
            1 => self.range(lo, hi.min(lo + (hi - lo) / 4 + 1)),
            2 => self.range(lo, hi),
            _ => hi - self.upto((hi - lo).min(2) + 1),
        }
    }
    /// As `size`, but once in `one_in` of up to `cap`.
    pub fn tail(&mut self, lo: usize, hi: usize, cap: usize, one_in: u64) -> usize {
        if self.weighted(&[one_in - 1, 1]) == 0 {
            self.size(lo, hi)
        } else {
            self.range(hi, cap)
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.describing {
            let t = f();
            if self.desc.len() + t.len() < 12_000 {
                if !self.desc.is_empty() {
                    self.desc.push_str("; ");
                }
                self.desc.push_str(&t);
            } else if !self.desc.ends_with("...") {
                self.desc.push_str("...");
            }
        }
    }
    /// Restart the code under test's own randomness from a recorded choice.
    pub fn seed_code_rng(&mut self) {
        let v = self.u64();
        getrandom::set_thread_seed(v);
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".to_string()
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = format!("{}{}", payload_str(info.payload()), loc);
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let located = LAST_PANIC.with(|p| p.borrow_mut().take());
            Err(located.unwrap_or_else(|| payload_str(&*p)))
        }
    }
}

/// Seconds after which a case counts as one that does not return.
const CASE_LIMIT: u64 = 240;
const IDLE: u64 = u64::MAX;
/// Seconds after which the quick tier starts no more cases.
const QUICK_LIMIT: u64 = 540;

#[derive(Clone)]
pub struct Law {
    name: &'static str,
    quick: u64,
    thorough: u64,
    threads: usize,
    shrink_s: u64,
    f: Arc<dyn Fn(&mut Src) -> Res + Send + Sync>,
}

pub struct Suite {
    id: &'static str,
    rule: &'static str,
    assumptions: Vec<&'static str>,
    laws: Vec<Law>,
    probes: Vec<(&'static str, &'static str, Box<dyn Fn() -> Option<String> + Send + Sync>)>,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    discarded: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    wall: f64,
}

fn case_seed(seed: u64, id: &str, law: &str, idx: u64) -> u64 {
    splitmix(splitmix(seed ^ hash_str(id)) ^ hash_str(law).wrapping_add(splitmix(idx)))
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_case(law: &Law, mut s: Src) -> (Src, Res) {
    // The code under test draws its own randomness from a stream fixed per case.
    getrandom::set_thread_seed(match &s.replay {
        Some(_) => 0,
        None => 0,
    });
    let f = law.f.clone();
    let r = match catching(|| f(&mut s)) {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {}", m)),
    };
    (s, r)
}

fn describe(law: &Law, choices: &[u64]) -> (String, Res) {
    let mut s = Src::replaying(choices.to_vec());
    s.describing = true;
    let (s, r) = run_case(law, s);
    (s.desc, r)
}

fn fails(law: &Law, choices: &[u64]) -> Option<(Vec<u64>, String)> {
    let (s, r) = run_case(law, Src::replaying(choices.to_vec()));
    if s.discarded {
        return None;
    }
    match r {
        Ok(()) => None,
        Err(e) => Some((s.rec, e)),
    }
}

fn shrink(law: &Law, start: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    let deadline = Instant::now() + Duration::from_secs(law.shrink_s);
    let mut best = start;
    let mut best_msg = msg;
    let better = |a: &Vec<u64>, b: &Vec<u64>| -> bool { (a.len(), a) < (b.len(), b) };
    loop {
        let mut improved = false;
        // delete chunks
        let mut k = best.len();
        while k > 0 {
            let mut i = 0;
            while i + k <= best.len() {
                if Instant::now() > deadline {
                    return (best, best_msg);
                }
                let mut c = best.clone();
                c.drain(i..i + k);
                match fails(law, &c) {
                    Some((rec, m)) if better(&rec, &best) => {
                        best = rec;
                        best_msg = m;
                        improved = true;
                    }
                    _ => i += k.max(1),
                }
            }
            k /= 2;
        }
        // zero / lower single values
        for i in 0..best.len() {
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let v = best[i];
            let mut cands = vec![0, 1, v >> 32, v & 0xffff_ffff, v / 2, v - 1];
            cands.retain(|&c| c < v);
            cands.dedup();
            for c in cands {
                if Instant::now() > deadline {
                    return (best, best_msg);
                }
                let mut t = best.clone();
                t[i] = c;
                if let Some((rec, m)) = fails(law, &t) {
                    if better(&rec, &best) {
                        best = rec;
                        best_msg = m;
                        improved = true;
                        break;
                    }
                }
            }
        }
        if !improved {
            return (best, best_msg);
        }
    }
}

impl Suite {
    pub fn new(id: &'static str, rule: &'static str) -> Self {
        Suite { id, rule, assumptions: vec![], laws: vec![], probes: vec![] }
    }
    pub fn assume(mut self, a: &'static str) -> Self {
        self.assumptions.push(a);
        self
    }
    /// A law checked on `quick` (or `thorough`) generated cases.
    pub fn law(mut self, name: &'static str, quick: u64, thorough: u64, f: impl Fn(&mut Src) -> Res + Send + Sync + 'static) -> Self {
        self.laws.push(Law { name, quick, thorough, threads: 8, shrink_s: 60, f: Arc::new(f) });
        self
    }
    /// As `law`, with a bound on the number of cases run side by side.
    pub fn law_t(mut self, name: &'static str, threads: usize, quick: u64, thorough: u64, f: impl Fn(&mut Src) -> Res + Send + Sync + 'static) -> Self {
        self.laws.push(Law { name, quick, thorough, threads, shrink_s: 60, f: Arc::new(f) });
        self
    }
    /// The reproduction of a recorded genuine defect: returns `Some(what fails)` while it is there.
    pub fn probe(mut self, sig: &'static str, text: &'static str, f: impl Fn() -> Option<String> + Send + Sync + 'static) -> Self {
        self.probes.push((sig, text, Box::new(f)));
        self
    }

    pub fn run(self) {
        install_hook();
        let args: Vec<String> = std::env::args().collect();
        if args.len() == 3 && args[1] == "replay" {
            std::process::exit(self.replay(&args[2]));
        }
        // A law name (prefix) restricts the run; used while developing only.
        let only = std::env::var("VH_ONLY").ok();
        let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let t0 = Instant::now();
        let mut violation: Option<(&'static str, Vec<u64>, String)> = None;
        let mut known = Vec::new();
        let mut stats: Vec<(&'static str, Stats)> = Vec::new();

        let listed = known_signatures(self.id);
        for (sig, text, f) in &self.probes {
            let r = match catching(|| f()) {
                Ok(r) => r,
                Err(m) => Some(format!("panic: {}", m)),
            };
            if let Some(what) = r {
                if listed.iter().any(|s| s == sig) {
                    println!("KNOWN-FINDING: property={} {} ({})", self.id, text, sig);
                    known.push(format!("{}: {}", sig, what));
                } else {
                    violation = Some((sig, vec![], format!("{}: {}", text, what)));
                    break;
                }
            }
        }

        if violation.is_none() {
            for law in &self.laws {
                if let Some(o) = &only {
                    if !law.name.starts_with(o.as_str()) {
                        continue;
                    }
                }
                let n = if tier == "thorough" { law.thorough } else { law.quick };
                let n = ((n as f64 * scale).ceil() as u64).max(1);
                let (st, fail) = self.run_law(law, seed, n, if tier == "thorough" { None } else { Some(t0 + Duration::from_secs(QUICK_LIMIT)) });
                if std::env::var("VH_VERBOSE").is_ok() {
                    eprintln!("{} {}: {} cases, {} nontrivial, {} discarded, {:.1}s {:?}", self.id, law.name, st.evaluations, st.distinct.len(), st.discarded, st.wall, st.classes);
                }
                stats.push((law.name, st));
                if let Some((choices, msg)) = fail {
                    violation = Some((law.name, choices, msg));
                    break;
                }
            }
        }
        let mut code = 0;
        if let Some((name, choices, msg)) = &violation {
            let path = self.write_replay(name, choices, msg, seed);
            println!("law {} failed: {}", name, msg);
            println!("VIOLATION property={} replay={}", self.id, path);
            code = 1;
        }
        self.write_evidence(&tier, seed, t0.elapsed().as_secs_f64(), &stats, violation.is_some(), &known);
        std::process::exit(code);
    }

    /// A case that does not return is a failure of its own: reported with the seed of the case.
    fn hung(&self, law: &Law, case_seed: u64, seed: u64) -> ! {
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-hung-{}.json", self.id, seed));
        let msg = format!("a case did not return within {} s", CASE_LIMIT);
        let body = format!(
            "{{\n \"property\": {},\n \"law\": {},\n \"seed\": {},\n \"case_seed\": {},\n \"message\": {},\n \"choices\": []\n}}\n",
            json_str(self.id), json_str(law.name), seed, case_seed, json_str(&msg)
        );
        std::fs::write(&path, body).expect("write replay");
        println!("law {} failed: {}", law.name, msg);
        println!("VIOLATION property={} replay={}", self.id, path.display());
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        self.write_evidence(&tier, seed, 0.0, &[], true, &[]);
        std::process::exit(1);
    }

    fn run_law(&self, law: &Law, seed: u64, n: u64, deadline: Option<Instant>) -> (Stats, Option<(Vec<u64>, String)>) {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let worst = AtomicU64::new(u64::MAX);
        let stats = Mutex::new(Stats::default());
        let failure: Mutex<Option<(u64, Vec<u64>, String)>> = Mutex::new(None);
        let threads = law.threads.min(n as usize).max(1);
        let chunk = (n / (threads as u64 * 16)).max(1).min(64);
        let alive = AtomicUsize::new(threads);
        // per worker: the seed of the case it is at, and for how many seconds
        let at: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(IDLE))).collect();
        let ticket = AtomicUsize::new(0);
        scope::run(threads + 1, || {
            let me = ticket.fetch_add(1, Ordering::SeqCst);
            if me == threads {
                // counting seconds this way does not count those in which the machine stood still
                let mut ms = 0;
                while alive.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(5));
                    ms += 5;
                    if ms >= 1000 {
                        ms = 0;
                        for (s, t) in &at {
                            let seconds = t.load(Ordering::SeqCst);
                            if seconds == IDLE {
                                continue;
                            }
                            t.store(seconds + 1, Ordering::SeqCst);
                            if seconds >= CASE_LIMIT {
                                self.hung(law, s.load(Ordering::SeqCst), seed);
                            }
                        }
                    }
                }
                return;
            }
            let at = &at[me];
            let mut local = Stats::default();
            loop {
                let start = next.fetch_add(chunk, Ordering::SeqCst);
                if start >= n {
                    break;
                }
                for idx in start..(start + chunk).min(n) {
                    if idx > worst.load(Ordering::SeqCst) {
                        break;
                    }
                    // on a slow machine: what was covered by now has to do
                    if idx >= threads as u64 && deadline.map_or(false, |d| Instant::now() > d) {
                        break;
                    }
                    let cs = case_seed(seed, self.id, law.name, idx);
                    at.0.store(cs, Ordering::SeqCst);
                    at.1.store(0, Ordering::SeqCst);
                    let mut src = Src::fresh(cs);
                    // describe a few early cases as samples
                    src.describing = idx < 3;
                    let (s, r) = run_case(law, src);
                    local.evaluations += 1;
                    if s.discarded {
                        local.discarded += 1;
                        continue;
                    }
                    if s.nontrivial {
                        local.nontrivial += 1;
                        let mut h = 0u64;
                        for &c in &s.rec {
                            h = splitmix(h ^ c).wrapping_add(h << 7);
                        }
                        local.distinct.insert(h);
                    }
                    for &c in &s.classes {
                        *local.classes.entry(c).or_insert(0) += 1;
                    }
                    if idx < 3 && s.nontrivial {
                        local.samples.push(s.desc.clone());
                    }
                    if let Err(m) = r {
                        let mut w = failure.lock().unwrap();
                        if w.as_ref().map_or(true, |x| idx < x.0) {
                            *w = Some((idx, s.rec.clone(), m));
                            worst.store(idx, Ordering::SeqCst);
                        }
                    }
                }
            }
            // nothing to watch here any more
            at.1.store(IDLE, Ordering::SeqCst);
            alive.fetch_sub(1, Ordering::SeqCst);
            let mut g = stats.lock().unwrap();
            g.evaluations += local.evaluations;
            g.nontrivial += local.nontrivial;
            g.discarded += local.discarded;
            g.distinct.extend(local.distinct);
            for (k, v) in local.classes {
                *g.classes.entry(k).or_insert(0) += v;
            }
            g.samples.extend(local.samples);
        });
        let mut st = stats.into_inner().unwrap();
        st.samples.sort();
        let fail = failure.into_inner().unwrap().map(|(_, c, m)| {
            let out = Arc::new(Mutex::new((c.clone(), m)));
            let finished = Arc::new(AtomicBool::new(false));
            let (law2, out2, finished2) = (law.clone(), out.clone(), finished.clone());
            // a shortened case may run forever; then the last known failure is the one reported
            let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                if let Some((rec, m2)) = fails(&law2, &c) {
                    // The failure replays from its choices: shrink it.
                    let r = shrink(&law2, rec, m2);
                    *out2.lock().unwrap() = r;
                }
                finished2.store(true, Ordering::SeqCst);
            });
            let mut ms = 0;
            while h.is_ok() && !finished.load(Ordering::SeqCst) && ms < 1000 * (law.shrink_s + 60) {
                std::thread::sleep(Duration::from_millis(5));
                ms += 5;
            }
            let r = out.lock().unwrap().clone();
            (r.0, r.1)
        });
        st.wall = t0.elapsed().as_secs_f64();
        (st, fail)
    }

    fn replay(&self, path: &str) -> i32 {
        let text = std::fs::read_to_string(path).expect("replay file");
        let law_name = field_str(&text, "law");
        let choices: Vec<u64> = {
            let key = "\"choices\": [";
            let i = text.find(key).expect("choices") + key.len();
            let j = i + text[i..].find(']').expect("choices end");
            text[i..j].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect()
        };
        if let Some((_, _, f)) = self.probes.iter().find(|p| p.0 == law_name) {
            return match f() {
                Some(w) => {
                    println!("still fails: {}", w);
                    println!("VIOLATION property={} replay={}", self.id, path);
                    1
                }
                None => 0,
            };
        }
        let law = self.laws.iter().find(|l| l.name == law_name).expect("law of the replay file");
        if let Some(i) = text.find("\"case_seed\": ") {
            let n: String = text[i + 13..].chars().filter(|c| !c.is_whitespace()).take_while(|c| c.is_ascii_digit()).collect();
            let cs: u64 = n.parse().expect("case seed");
            let returned = Arc::new(Mutex::new(None));
            let (law, out) = (law.clone(), returned.clone());
            std::thread::spawn(move || {
                let r = run_case(&law, Src::fresh(cs)).1;
                *out.lock().unwrap() = Some(r);
            });
            for _ in 0..CASE_LIMIT {
                if let Some(Ok(())) = *returned.lock().unwrap() {
                    println!("holds");
                    return 0;
                }
                std::thread::sleep(Duration::from_secs(1));
            }
            println!("fails: {:?}", returned.lock().unwrap());
            println!("VIOLATION property={} replay={}", self.id, path);
            return 1;
        }
        let (desc, r) = describe(law, &choices);
        println!("case: {}", desc);
        match r {
            Ok(()) => {
                println!("holds");
                0
            }
            Err(m) => {
                println!("fails: {}", m);
                println!("VIOLATION property={} replay={}", self.id, path);
                1
            }
        }
    }

    fn write_replay(&self, law: &str, choices: &[u64], msg: &str, seed: u64) -> String {
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let desc = self.laws.iter().find(|l| l.name == law).map(|l| describe(l, choices).0).unwrap_or_default();
        let safe: String = law.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
        let path = dir.join(format!("{}-{}-{}.json", self.id, safe, seed));
        let body = format!(
            "{{\n \"property\": {},\n \"law\": {},\n \"seed\": {},\n \"message\": {},\n \"case\": {},\n \"choices\": {:?}\n}}\n",
            json_str(self.id), json_str(law), seed, json_str(msg), json_str(&desc), choices
        );
        std::fs::write(&path, body).expect("write replay");
        path.display().to_string()
    }

    fn write_evidence(&self, tier: &str, seed: u64, wall: f64, stats: &[(&'static str, Stats)], violated: bool, known: &[String]) {
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let ev: u64 = stats.iter().map(|s| s.1.evaluations).sum();
        let nt: u64 = stats.iter().map(|s| s.1.distinct.len() as u64).sum();
        let mut samples = Vec::new();
        let mut laws = Vec::new();
        for (name, s) in stats {
            for d in s.samples.iter().filter(|d| !d.is_empty()).take(2) {
                let mut d = d.clone();
                if d.len() > 900 {
                    let mut k = 900;
                    while !d.is_char_boundary(k) {
                        k -= 1;
                    }
                    d.truncate(k);
                    d.push_str("...");
                }
                samples.push(json_str(&format!("{}: {}", name, d)));
            }
            let classes: Vec<String> = s.classes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
            laws.push(format!(
                "{}: {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"discarded\": {}, \"wall_s\": {:.2}, \"classes\": {{{}}}}}",
                json_str(name), s.evaluations, s.distinct.len(), s.discarded, s.wall, classes.join(", ")
            ));
        }
        let body = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [\n   {}\n  ],\n  \"laws\": {{\n   {}\n  }},\n  \"known_findings\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            json_str(self.id), json_str(if tier == "thorough" { "thorough" } else { "quick" }), seed, ev, nt, json_str(self.rule),
            samples.join(",\n   "), laws.join(",\n   "),
            known.iter().map(|k| json_str(k)).collect::<Vec<_>>().join(", "),
            self.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "),
            wall, violated as u32
        );
        std::fs::write(dir.join(format!("{}.json", self.id)), body).expect("write evidence");
    }
}

fn field_str(text: &str, key: &str) -> String {
    let k = format!("\"{}\": \"", key);
    let i = text.find(&k).expect("key") + k.len();
    let j = i + text[i..].find('"').expect("end of string");
    text[i..j].to_string()
}

pub fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}

fn known_signatures(id: &str) -> Vec<String> {
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for line in t.lines() {
            // known: property=<id> sig=<signature> <what fails>
            let mut w = line.split_whitespace();
            if w.next() == Some("known:") && w.next() == Some(&format!("property={}", id)) {
                if let Some(s) = w.next().and_then(|s| s.strip_prefix("sig=")) {
                    out.push(s.to_string());
                }
            }
        }
    }
    out
}

/// `ensure_eq!(a, b, "what {}", x)`: fail the law unless a == b.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}
#[macro_export]
macro_rules! ensure {
    ($a:expr, $($arg:tt)*) => {{
        if !$a {
            return Err(format!($($arg)*));
        }
    }};
}

/// Scoped threads for a compiler that predates `std::thread::scope`.
mod scope {
    pub fn run<F: Fn() + Sync>(n: usize, f: F) {
        // Safety: all threads are joined before this function returns.
        let r: &(dyn Fn() + Sync) = &f;
        let r: &'static (dyn Fn() + Sync) = unsafe { std::mem::transmute(r) };
        let hs: Vec<_> = (0..n)
            .map(|_| std::thread::Builder::new().stack_size(16 << 20).spawn(move || r()).unwrap())
            .collect();
        for h in hs {
            h.join().expect("worker");
        }
    }
}

/// Dispatch a generic law over the six fields.
#[macro_export]
macro_rules! each_field {
    ($s:expr, $f:ident) => {{
        use plonky::*;
        match $s.upto(6) {
            0 => { $s.class("TweedledeeBase"); $f::<TweedledeeBase>($s) }
            1 => { $s.class("TweedledumBase"); $f::<TweedledumBase>($s) }
            2 => { $s.class("Bls12377Base"); $f::<Bls12377Base>($s) }
            3 => { $s.class("Bls12377Scalar"); $f::<Bls12377Scalar>($s) }
            4 => { $s.class("PallasBase"); $f::<PallasBase>($s) }
            _ => { $s.class("VestaBase"); $f::<VestaBase>($s) }
        }
    }};
}
/// Dispatch a generic law over the five curves.
#[macro_export]
macro_rules! each_curve {
    ($s:expr, $f:ident) => {{
        use plonky::*;
        match $s.upto(5) {
            0 => { $s.class("Tweedledee"); $f::<Tweedledee>($s) }
            1 => { $s.class("Tweedledum"); $f::<Tweedledum>($s) }
            2 => { $s.class("Bls12377"); $f::<Bls12377>($s) }
            3 => { $s.class("Pallas"); $f::<Pallas>($s) }
            _ => { $s.class("Vesta"); $f::<Vesta>($s) }
        }
    }};
}
/// Dispatch over the Halo curves.
#[macro_export]
macro_rules! each_halo {
    ($s:expr, $f:ident) => {{
        use plonky::*;
        match $s.upto(4) {
            0 => { $s.class("Tweedledee"); $f::<Tweedledee>($s) }
            1 => { $s.class("Tweedledum"); $f::<Tweedledum>($s) }
            2 => { $s.class("Pallas"); $f::<Pallas>($s) }
            _ => { $s.class("Vesta"); $f::<Vesta>($s) }
        }
    }};
}
/// Dispatch over (curve, inner curve) pairs.
#[macro_export]
macro_rules! each_pair {
    ($s:expr, $f:ident) => {{
        use plonky::*;
        match $s.upto(4) {
            0 => { $s.class("Tweedledee/Tweedledum"); $f::<Tweedledee, Tweedledum>($s) }
            1 => { $s.class("Tweedledum/Tweedledee"); $f::<Tweedledum, Tweedledee>($s) }
            2 => { $s.class("Pallas/Vesta"); $f::<Pallas, Vesta>($s) }
            _ => { $s.class("Vesta/Pallas"); $f::<Vesta, Pallas>($s) }
        }
    }};
}
