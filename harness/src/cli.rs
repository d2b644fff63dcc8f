//! Runs the rekordcrate binary under observation: exit status, output, CPU time, memory limit.
use std::fs::{self, File};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    /// Ended by the monitor because of its CPU time.
    pub hung: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Out {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).to_string()
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).chars().take(400).collect()
    }
    /// Ended on its own with success or an ordinary error.
    pub fn clean(&self, what: &str) -> Result<(), String> {
        if self.hung {
            return Err(format!("{what} does not end :: more than {HANG_S} s of CPU"));
        }
        if let Some(s) = self.signal {
            return Err(format!("{what} ended by a signal :: signal {s} {}", self.err()));
        }
        if self.err().contains("panicked at") || self.code == Some(101) {
            return Err(format!("{what} panicked :: {}", self.err()));
        }
        match self.code {
            Some(0) => Ok(()),
            Some(_) if self.stderr.is_empty() => Err(format!("{what} failed without a message :: {:?}", self.code)),
            Some(_) => Ok(()),
            None => Err(format!("{what} has no exit status")),
        }
    }
    pub fn ok(&self, what: &str) -> Result<(), String> {
        self.clean(what)?;
        if self.code != Some(0) {
            return Err(format!("{what} failed on well-formed input :: {:?} {}", self.code, self.err()));
        }
        Ok(())
    }
}

/// CPU seconds before a run counts as endless.
pub const HANG_S: u64 = 40;
/// Address space of the command (KiB).
const MEM_KB: u64 = 4 << 20;

pub fn bin() -> PathBuf {
    let d = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    PathBuf::from(d).join("target/cli/debug/rekordcrate")
}

fn cpu_s(pid: u32) -> u64 {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let v: Vec<u64> = s.rsplit(')').next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
    (v.get(11).unwrap_or(&0) + v.get(12).unwrap_or(&0)) / 100
}

/// Run the binary with `args` in `cwd`; `tmp` receives the output files.
pub fn run(tmp: &Path, cwd: &Path, args: &[&std::ffi::OsStr]) -> Result<Out, String> {
    run_env(tmp, cwd, args, &[("LC_ALL", "C.UTF-8")])
}

pub fn run_env(tmp: &Path, cwd: &Path, args: &[&std::ffi::OsStr], env: &[(&str, &str)]) -> Result<Out, String> {
    let (po, pe) = (tmp.join("cli.stdout"), tmp.join("cli.stderr"));
    let io = |e: std::io::Error| format!("monitor: cannot run the binary: {e}");
    let mut c = Command::new("/bin/sh");
    c.arg("-c").arg(format!("ulimit -v {MEM_KB}; ulimit -c 0; ulimit -f 2000000; exec \"$@\"")).arg("sh");
    // The shell would set PWD itself, so everything is set behind it.
    c.arg("/usr/bin/env").arg("-i").arg("PATH=/usr/bin:/bin").args(env.iter().map(|(k, v)| format!("{k}={v}"))).arg(bin());
    c.args(args).current_dir(cwd).stdin(Stdio::null());
    c.env_clear().env("PATH", "/usr/bin:/bin");
    c.stdout(File::create(&po).map_err(io)?).stderr(File::create(&pe).map_err(io)?);
    let mut ch = c.spawn().map_err(io)?;
    let t0 = Instant::now();
    let mut wait = Duration::from_micros(300);
    let mut hung = false;
    let st = loop {
        if let Some(st) = ch.try_wait().map_err(io)? {
            break st;
        }
        if t0.elapsed().as_secs() >= 5 && (cpu_s(ch.id()) > HANG_S || t0.elapsed().as_secs() > 600) {
            hung = true;
            let _ = ch.kill();
            break ch.wait().map_err(io)?;
        }
        std::thread::sleep(wait);
        wait = (wait * 5 / 4).min(Duration::from_millis(20));
    };
    let stdout = fs::read(&po).map_err(io)?;
    let stderr = fs::read(&pe).map_err(io)?;
    Ok(Out { code: st.code(), signal: st.signal(), hung, stdout, stderr })
}

pub fn args<'a>(a: &'a [&'a str]) -> Vec<&'a std::ffi::OsStr> {
    a.iter().map(std::ffi::OsStr::new).collect()
}

/// Every path below `root` with its kind and content.
pub fn snapshot(root: &Path) -> std::collections::BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut m = std::collections::BTreeMap::new();
    fn walk(d: &Path, m: &mut std::collections::BTreeMap<PathBuf, Option<Vec<u8>>>) {
        let Ok(rd) = fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            match e.file_type() {
                Ok(t) if t.is_dir() => {
                    m.insert(p.clone(), None);
                    walk(&p, m);
                }
                Ok(t) if t.is_symlink() => {
                    let l = fs::read_link(&p).map(|l| l.to_string_lossy().into_owned().into_bytes()).unwrap_or_default();
                    m.insert(p, Some(l));
                }
                _ => {
                    let b = fs::read(&p).unwrap_or_default();
                    m.insert(p, Some(b));
                }
            }
        }
    }
    walk(root, &mut m);
    m
}
