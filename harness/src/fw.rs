//! Case runner: every case is an isolated, replayable execution of the code under test under the
//! monitors (panic capture, allocation budget, CPU-time watchdog, crash attribution).
use crate::alloc;
use crate::rng::{hash_bytes, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                // Report paths relative to the crate, without line numbers in the key.
                format!("{}:{}", f.rsplit("/repo/").next().unwrap_or(f), l.line())
            })
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Run `f`, turning a panic into an error.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!(
            "panic in {what} :: {}",
            LAST_PANIC.with(|p| p.borrow().clone())
        )),
    }
}

/// What the monitors of one case observed.
pub struct Obs<'a> {
    pub counters: BTreeMap<String, u64>,
    pub sig: u64,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub input: Vec<u8>,
    pub input_desc: String,
    input_file: Option<&'a std::fs::File>,
    pub scratch: &'a Path,
    pub thorough: bool,
}

impl<'a> Obs<'a> {
    /// A throw-away observer with the same environment.
    pub fn fork(&self) -> Obs<'a> {
        Obs {
            counters: BTreeMap::new(),
            sig: 0,
            nontrivial: false,
            sample: None,
            input: vec![],
            input_desc: String::new(),
            input_file: None,
            scratch: self.scratch,
            thorough: self.thorough,
        }
    }
    pub fn ev(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_string()).or_insert(0);
        *e = if k.starts_with("max:") { (*e).max(n) } else { *e + n };
    }
    pub fn mark(&mut self, data: &[u8]) {
        self.sig = mix(self.sig ^ hash_bytes(data));
        self.nontrivial = true;
    }
    /// Set the attributed input of this case (kept for the replay file, and on disk while the case
    /// runs so that a crash of the process can be attributed).
    pub fn input(&mut self, desc: &str, data: &[u8]) {
        self.input = data.to_vec();
        self.input_desc = desc.to_string();
        if let Some(f) = self.input_file {
            let _ = f.write_all_at(&(data.len() as u64).to_le_bytes(), 0);
            let _ = f.write_all_at(data, 8);
        }
        alloc::LIMIT.store(
            alloc::LIVE.load(SeqCst) + budget_for(data.len()),
            SeqCst,
        );
        // Peak is reset so that the evidence can report the largest footprint seen.
        alloc::PEAK.store(alloc::LIVE.load(SeqCst), SeqCst);
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.sample.is_none() {
            self.sample = Some(s.into());
        }
    }
}

/// Memory allowed while processing an input of `n` bytes.
pub fn budget_for(n: usize) -> i64 {
    (64 << 20) + 256 * n as i64
}

pub struct Viol {
    pub key: String,
    pub msg: String,
    pub case: u64,
    pub kind: String,
    pub input_desc: String,
    pub input: Vec<u8>,
}

/// A worker stops after this many violations.
const MAX_VIOLS: usize = 12;

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub nshards: u64,
    pub only: Option<u64>,
    pub skip_to: u64,
    pub idx: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub scratch: PathBuf,
    start: Instant,
    deadline_s: u64,
    budget_s: u64,
    first_round: bool,
    input_file: std::fs::File,
    prog_file: std::fs::File,
    kinds_sampled: HashSet<String>,
}

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let v: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| v.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

/// CPU seconds one case may use before it counts as a hang.
pub const HANG_CPU_S: u64 = 40;

pub fn start_watchdog() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0u64);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = CASE.load(SeqCst);
            let t = cpu_ticks();
            if c != last.0 {
                last = (c, t);
            } else if c != u64::MAX && t.saturating_sub(last.1) > HANG_CPU_S * 100 {
                eprintln!("MON-HANG: case {c} used more than {HANG_CPU_S} s of CPU");
                std::process::exit(97);
            }
        }
    });
}

impl Ctx {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        id: &str,
        thorough: bool,
        seed: u64,
        shard: u64,
        nshards: u64,
        only: Option<u64>,
        skip_to: u64,
        dir: &Path,
    ) -> Self {
        let scratch = dir.join(format!("scratch{shard}"));
        std::fs::create_dir_all(&scratch).unwrap();
        Self {
            id: id.into(),
            thorough,
            seed,
            shard,
            nshards,
            only,
            skip_to,
            idx: 0,
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            viols: vec![],
            scratch,
            start: start_of_run(),
            deadline_s: if thorough { 3600 } else { 420 },
            budget_s: std::env::var("VERIF_BUDGET_S").ok().and_then(|v| v.parse().ok()).unwrap_or(720),
            first_round: true,
            input_file: std::fs::File::create(dir.join(format!("input{shard}"))).unwrap(),
            prog_file: std::fs::File::create(dir.join(format!("progress{shard}"))).unwrap(),
            kinds_sampled: HashSet::new(),
        }
    }

    /// Number of generated cases of a kind in one round.
    pub fn n(&self, per_round: usize) -> usize {
        per_round
    }

    /// The quick tier runs a fixed number of rounds, so that it always does the same; the thorough
    /// tier runs rounds until its time is over. The first round is never cut short by that.
    /// Cases are numbered throughout, hence each round generates new ones.
    pub fn rounds(&mut self, quick: usize, mut run: impl FnMut(&mut Self)) {
        let mut n = 0;
        loop {
            run(self);
            n += 1;
            let done = match self.only {
                Some(o) => self.idx > o,
                None if self.thorough => self.over(),
                None => n >= quick,
            };
            if done || self.viols.len() >= MAX_VIOLS {
                break;
            }
            self.first_round = false;
        }
    }

    /// Whether the time of the thorough tier is over.
    fn over(&self) -> bool {
        self.start.elapsed().as_secs() > self.budget_s
    }

    pub fn expired(&self) -> bool {
        self.start.elapsed().as_secs() > self.deadline_s
            || self.viols.len() >= MAX_VIOLS
            || (self.thorough && !self.first_round && self.over())
    }

    pub fn case(&mut self, kind: &str, f: impl FnOnce(&mut Rng, &mut Obs) -> R) {
        let idx = self.idx;
        self.idx += 1;
        if let Some(o) = self.only {
            if o != idx {
                return;
            }
        } else if idx % self.nshards != self.shard || idx < self.skip_to || self.expired() {
            return;
        }
        let mut rng = Rng::new(mix(self.seed ^ mix(idx) ^ hash_bytes(self.id.as_bytes())));
        let mut p = [0u8; 64];
        p[..8].copy_from_slice(&idx.to_le_bytes());
        let kb = kind.as_bytes();
        let kl = kb.len().min(50);
        p[8] = kl as u8;
        p[9..9 + kl].copy_from_slice(&kb[..kl]);
        let _ = self.prog_file.write_all_at(&p, 0);
        let _ = self.input_file.write_all_at(&0u64.to_le_bytes(), 0);
        CASE.store(idx, SeqCst);
        alloc::LIMIT.store(alloc::LIVE.load(SeqCst) + (2 << 30), SeqCst);
        alloc::PEAK.store(alloc::LIVE.load(SeqCst), SeqCst);
        let mut o = Obs {
            counters: BTreeMap::new(),
            sig: 0,
            nontrivial: false,
            sample: None,
            input: vec![],
            input_desc: String::new(),
            input_file: Some(&self.input_file),
            scratch: &self.scratch,
            thorough: self.thorough,
        };
        let res = catch_unwind(AssertUnwindSafe(|| f(&mut rng, &mut o)));
        alloc::LIMIT.store(i64::MAX, SeqCst);
        CASE.store(u64::MAX, SeqCst);
        let (counters, sig, nontrivial, sample, input, input_desc) = (
            std::mem::take(&mut o.counters),
            o.sig,
            o.nontrivial,
            o.sample.take(),
            std::mem::take(&mut o.input),
            std::mem::take(&mut o.input_desc),
        );
        drop(o);
        self.evals += 1;
        for (k, v) in counters {
            let e = self.counters.entry(k.clone()).or_insert(0);
            *e = if k.starts_with("max:") { (*e).max(v) } else { *e + v };
        }
        *self.counters.entry(format!("cases:{kind}")).or_insert(0) += 1;
        if nontrivial {
            self.distinct.insert(mix(sig ^ hash_bytes(kind.as_bytes())));
        }
        if let Some(s) = sample {
            if self.kinds_sampled.insert(kind.to_string()) {
                let s: String = s.chars().take(600).collect();
                self.samples.push(format!("[{kind} case {idx}] {s}"));
            }
        }
        let err = match res {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(_) => Some(format!(
                "panic :: {}",
                LAST_PANIC.with(|p| p.borrow().clone())
            )),
        };
        if let Some(msg) = err {
            let key = match msg.split_once(" :: ") {
                Some((k, rest)) if k.starts_with("panic") => {
                    // Group panics by source location.
                    let loc = rest.rsplit(" at ").next().unwrap_or("").to_string();
                    format!("{k} {loc}")
                }
                Some((k, _)) => k.to_string(),
                None => msg.chars().take(80).collect(),
            };
            let key = format!("{kind}: {key}");
            let same = self.viols.iter().filter(|v| v.key == key).count();
            *self.counters.entry("violations_raw".into()).or_insert(0) += 1;
            if same < 1 {
                self.viols.push(Viol {
                    key,
                    msg,
                    case: idx,
                    kind: kind.to_string(),
                    input_desc,
                    input,
                });
            }
        }
    }
}

pub fn hexdump(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, c) in b.chunks(32).enumerate() {
        if i > 4096 {
            s.push_str("...\n");
            break;
        }
        s.push_str(&format!("{:08x} ", i * 32));
        for x in c {
            s.push_str(&format!("{x:02x}"));
        }
        s.push('\n');
    }
    s
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(200).map(|x| format!("{x:02x}")).collect();
    if b.len() > 200 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

/// First difference between two byte strings, for messages.
pub fn first_diff(a: &[u8], b: &[u8]) -> Option<String> {
    if a == b {
        return None;
    }
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    Some(format!(
        "lengths {} vs {}, first difference at {:#x}: expected {} got {}",
        a.len(),
        b.len(),
        n,
        hex(&a[n..a.len().min(n + 16)]),
        hex(&b[n..b.len().min(n + 16)])
    ))
}

/// When the parent started, so that restarted workers do not get extra time.
fn start_of_run() -> Instant {
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    let t0 = std::env::var("MON_T0").ok().and_then(|v| v.parse().ok()).unwrap_or(now);
    let back = std::time::Duration::from_secs(now.saturating_sub(t0));
    Instant::now().checked_sub(back).unwrap_or_else(Instant::now)
}
