//! Runtime monitors for rekordcrate: `mon run <ID>` decides one property.
mod alloc;
mod cli;
mod dbg;
mod fw;
mod hostile;
mod iomon;
mod pldb;
mod props;
mod refanlz;
mod refpdb;
mod refsetting;
mod refxml;
mod rng;

use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

#[global_allocator]
static A: alloc::Mon = alloc::Mon;

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("run") => std::process::exit(parent(&args[2])),
        Some("worker") => worker(&args[2..]),
        Some("replay") => replay(&args[2..]),
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.level);
            }
        }
        _ => {
            eprintln!("usage: mon run ID | mon replay ID CASE");
            std::process::exit(2);
        }
    }
}

fn tier_seed() -> (bool, u64) {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    (thorough, seed)
}

fn replay(a: &[String]) {
    let (thorough, seed) = tier_seed();
    let dir = std::env::temp_dir().join(format!("mon-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    fw::install_panic_hook();
    let mut c = fw::Ctx::new(&a[0], thorough, seed, 0, 1, Some(a[1].parse().unwrap()), 0, &dir);
    fw::start_watchdog();
    let p = props::find(&a[0]).expect("no such property");
    c.rounds(props::quick_rounds(&a[0]), p.run);
    for v in &c.viols {
        println!("case {} {}\n  {}\n  input: {}\n{}", v.case, v.kind, v.msg, v.input_desc, fw::hexdump(&v.input));
    }
    println!("{} evaluated, {} violations", c.evals, c.viols.len());
    println!("{:?}", c.counters);
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(i32::from(!c.viols.is_empty()));
}

fn worker(a: &[String]) {
    let id = &a[0];
    let shard: u64 = a[1].parse().unwrap();
    let nshards: u64 = a[2].parse().unwrap();
    let skip: u64 = a[3].parse().unwrap();
    let dir = PathBuf::from(&a[4]);
    let (thorough, seed) = tier_seed();
    fw::install_panic_hook();
    let mut c = fw::Ctx::new(id, thorough, seed, shard, nshards, None, skip, &dir);
    fw::start_watchdog();
    let p = props::find(id).expect("no such property");
    c.rounds(props::quick_rounds(id), p.run);
    // Result file: line based.
    let mut out = String::new();
    out.push_str(&format!("evals {}\n", c.evals));
    for (k, v) in &c.counters {
        out.push_str(&format!("counter {v} {k}\n"));
    }
    for s in &c.samples {
        out.push_str(&format!("sample {}\n", s.replace('\n', "\\n")));
    }
    for (i, v) in c.viols.iter().enumerate() {
        let f = dir.join(format!("viol-{shard}-{skip}-{i}.bin"));
        std::fs::write(&f, &v.input).unwrap();
        out.push_str(&format!(
            "viol {}\t{}\t{}\t{}\t{}\t{}\n",
            v.case,
            v.kind,
            v.key.replace(['\n', '\t'], " "),
            v.msg.replace('\n', "\\n").replace('\t', " "),
            v.input_desc.replace(['\n', '\t'], " "),
            f.display()
        ));
    }
    let mut d = Vec::with_capacity(c.distinct.len() * 8);
    for h in &c.distinct {
        d.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("distinct-{shard}-{skip}")), d).unwrap();
    std::fs::write(dir.join(format!("result-{shard}-{skip}")), out).unwrap();
}

struct V {
    case: String,
    kind: String,
    key: String,
    msg: String,
    desc: String,
    input: Vec<u8>,
}

#[derive(Default)]
struct Merged {
    evals: u64,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    viols: Vec<V>,
    distinct: HashSet<u64>,
    broken: Vec<String>,
}

fn run_shard(id: &str, shard: u64, n: u64, dir: &Path, t0: u64) -> Merged {
    use std::os::unix::process::ExitStatusExt;
    let mut m = Merged::default();
    let mut skip = 0u64;
    for _attempt in 0..6 {
        let errf = dir.join(format!("stderr-{shard}-{skip}"));
        let st = Command::new(std::env::current_exe().unwrap())
            .args(["worker", id, &shard.to_string(), &n.to_string(), &skip.to_string()])
            .arg(dir)
            .env("RUST_BACKTRACE", "0")
            .env("MON_T0", t0.to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(&errf).unwrap())
            .status();
        let st = match st {
            Ok(s) => s,
            Err(e) => {
                m.broken.push(format!("cannot start worker: {e}"));
                return m;
            }
        };
        let res = dir.join(format!("result-{shard}-{skip}"));
        if st.success() && res.exists() {
            for l in std::fs::read_to_string(&res).unwrap().lines() {
                let (t, rest) = l.split_once(' ').unwrap();
                match t {
                    "evals" => m.evals += rest.parse::<u64>().unwrap(),
                    "counter" => {
                        let (v, k) = rest.split_once(' ').unwrap();
                        *m.counters.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap();
                    }
                    "sample" => m.samples.push(rest.replace("\\n", "\n")),
                    "viol" => {
                        let f: Vec<&str> = rest.split('\t').collect();
                        m.viols.push(V {
                            case: f[0].into(),
                            kind: f[1].into(),
                            key: f[2].into(),
                            msg: f[3].replace("\\n", "\n"),
                            desc: f[4].into(),
                            input: std::fs::read(f[5]).unwrap_or_default(),
                        });
                    }
                    _ => {}
                }
            }
            let d = std::fs::read(dir.join(format!("distinct-{shard}-{skip}"))).unwrap_or_default();
            for c in d.chunks_exact(8) {
                m.distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
            return m;
        }
        // The worker died: attribute it to the case it was running.
        let p = std::fs::read(dir.join(format!("progress{shard}"))).unwrap_or_default();
        let err = std::fs::read_to_string(&errf).unwrap_or_default();
        let full = err.clone();
        let err: String = err.lines().filter(|l| !l.starts_with("   ")).take(6).collect::<Vec<_>>().join(" | ");
        if p.len() < 64 {
            m.broken.push(format!("worker {shard} died before its first case: {st} {err}"));
            return m;
        }
        let case = u64::from_le_bytes(p[..8].try_into().unwrap());
        let kind = String::from_utf8_lossy(&p[9..9 + p[8] as usize]).to_string();
        let raw = std::fs::read(dir.join(format!("input{shard}"))).unwrap_or_default();
        let input = if raw.len() >= 8 {
            let l = u64::from_le_bytes(raw[..8].try_into().unwrap()) as usize;
            raw[8..raw.len().min(8 + l)].to_vec()
        } else {
            vec![]
        };
        let (what, known) = if st.code() == Some(97) {
            ("hang".to_string(), true)
        } else if let Some(s) = st.signal() {
            let w = if full.contains("memory allocation") {
                "unbounded memory allocation"
            } else if full.contains("stack overflow") || full.contains("overflowed its stack") {
                "stack overflow"
            } else {
                "killed"
            };
            // SIGKILL comes from outside (memory guard, timeout): not attributable to the code.
            (format!("{w} (signal {s})"), s != 9 && s != 15)
        } else {
            (format!("worker exit {:?}", st.code()), false)
        };
        if !known {
            m.broken.push(format!("worker {shard} ended with {what} in case {case} ({kind}): {err}"));
            return m;
        }
        m.viols.push(V {
            case: case.to_string(),
            key: format!("{kind}: {what}"),
            kind,
            msg: format!("{what} :: {err}"),
            desc: "input of the case that ended the process".into(),
            input,
        });
        m.evals += 1;
        skip = case + 1;
    }
    m
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    // known: property=<id> key=<violation key> -- <what fails>
    let f = verif_dir().join("known-findings.txt");
    let mut v = vec![];
    for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={id} key=")) {
            if let Some((k, what)) = r.split_once(" -- ") {
                v.push((k.to_string(), what.to_string()));
            }
        }
    }
    v
}

fn parent(id: &str) -> i32 {
    let t0 = Instant::now();
    let (thorough, seed) = tier_seed();
    let p = match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("no such property {id}");
            return 2;
        }
    };
    let dir = std::env::temp_dir().join(format!("mon-{id}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let n = 8u64;
    let started = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    let mut m = Merged::default();
    let parts: Vec<Merged> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let dir = &dir;
                s.spawn(move || run_shard(id, i, n, dir, started))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for q in parts {
        m.evals += q.evals;
        for (k, v) in q.counters {
            if k.starts_with("max:") {
                let e = m.counters.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *m.counters.entry(k).or_insert(0) += v;
            }
        }
        m.samples.extend(q.samples);
        m.viols.extend(q.viols);
        m.distinct.extend(q.distinct);
        m.broken.extend(q.broken);
    }
    let _ = std::fs::remove_dir_all(&dir);

    // Known findings and distinct violations.
    let known = known_findings(id);
    let mut seen_known = HashSet::new();
    let mut fresh: Vec<V> = vec![];
    for v in m.viols {
        if let Some((k, what)) = known.iter().find(|(k, _)| *k == v.key) {
            if seen_known.insert(k.clone()) {
                println!("KNOWN-FINDING: property={id} {what}");
            }
        } else if !fresh.iter().any(|w| w.key == v.key) {
            fresh.push(v);
        }
    }
    let rdir = verif_dir().join("replays");
    std::fs::create_dir_all(&rdir).unwrap();
    for (i, v) in fresh.iter().take(8).enumerate() {
        let f = rdir.join(format!("{id}-{i}.txt"));
        let text = format!(
            "property {id}\ncase {} ({})\nkey {}\n{}\n\nreplay: cd /verif && VERIF_SEED={seed} VERIF_TIER={} ./check.sh --replay {id} {}\n\ninput ({}), {} bytes:\n{}",
            v.case, v.kind, v.key, v.msg,
            if thorough { "thorough" } else { "quick" },
            v.case, v.desc, v.input.len(), fw::hexdump(&v.input)
        );
        std::fs::write(&f, text).unwrap();
        let short: String = v.msg.replace('\n', " ").chars().take(300).collect();
        println!("  {id} case {}: {short}", v.case);
        println!("VIOLATION property={id} replay={}", f.display());
    }

    // Evidence.
    let missing: Vec<&str> = p
        .required
        .iter()
        .filter(|k| m.counters.get(**k).copied().unwrap_or(0) == 0)
        .copied()
        .collect();
    m.samples.sort();
    // One sample per kind, shortest first.
    let mut kinds = HashSet::new();
    let samples: Vec<String> = m
        .samples
        .iter()
        .filter(|s| kinds.insert(s.split(" case ").next().unwrap_or("").to_string()))
        .take(30)
        .map(|s| jstr(s))
        .collect();
    let counters: Vec<String> = m.counters.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"observed\": {{{}}},\n  \"known_findings_seen\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
        jstr(id),
        jstr(if thorough { "thorough" } else { "quick" }),
        jstr(p.level),
        m.evals,
        m.distinct.len(),
        jstr(p.rule),
        counters.join(", "),
        seen_known.len(),
        samples.join(",\n   "),
        p.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        fresh.len()
    );
    let edir = verif_dir().join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    std::fs::write(edir.join(format!("{id}.json")), ev).unwrap();
    println!(
        "{id}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s",
        m.evals,
        m.distinct.len(),
        fresh.len(),
        t0.elapsed().as_secs_f64()
    );
    if !fresh.is_empty() {
        return 1;
    }
    if !m.broken.is_empty() {
        for b in &m.broken {
            eprintln!("harness error: {b}");
        }
        return 2;
    }
    if !missing.is_empty() {
        eprintln!("harness error: monitors observed none of {missing:?}");
        return 2;
    }
    0
}
