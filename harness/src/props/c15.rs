//! C15: export settings load independently and completely.
use super::Prop;
use crate::cli;
use crate::dbg;
use crate::fw::{no_panic, Ctx, Obs, R};
use crate::refsetting::{self as m, FileM, Kind};
use crate::rng::Rng;
use crate::{bail, ensure};
use rekordcrate::device::Settings;
use rekordcrate::DeviceExportLoader;
use std::fs;
use std::path::{Path, PathBuf};

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        level: "exploration",
        rule: "distinct device exports (state and content of the four settings files) whose loaded options and listing were compared with the model",
        required: &[
            "loads", "options-present", "options-absent", "listings", "state:good", "state:missing", "state:truncated", "state:empty",
            "state:bad-crc", "state:bad-option", "state:swapped", "state:directory", "state:bad-size", "state:garbage",
            "state:dangling-link", "state:bad-fixed", "state:linked", "combinations", "fixtures", "command-runs", "no-pioneer-dir", "single-byte-damage",
        ],
        assumptions: &[
            "a settings file of the right shape whose checksum does not match may be read (as stored) or refused, but not in part",
            "a settings file with bytes after its end may be read or refused, but not in part",
            "the listing is the one of the current version: one line per option, label, colon, value, in file order MYSETTING, MYSETTING2, DJMMYSETTING, DEVSETTING",
        ],
        run,
    }
}

/// What a settings file in the export has to yield.
#[derive(Clone)]
enum Want {
    Data(Vec<u8>),
    Absent,
    /// One of the two, completely.
    Either(Vec<u8>),
}

/// (field, variant, listing label, option label) in listing order.
type Line = (String, String, String, String);

fn lines(ks: &[Kind], want: &[Option<Vec<u8>>]) -> Vec<Line> {
    let mut v = vec![];
    for name in m::LISTING_ORDER {
        let i = ks.iter().position(|k| k.name == name).unwrap();
        for f in &ks[i].fields {
            let (variant, label) = match &want[i] {
                Some(d) => {
                    let op = f.opt(d[f.off]).unwrap();
                    (format!("Some({})", op.variant), op.label.to_string())
                }
                None => ("None".into(), "<missing>".into()),
            };
            v.push((f.name.to_string(), variant, f.listing.to_string(), label));
        }
    }
    v
}

fn check_settings(s: &Settings, want: &[Line]) -> R {
    let text = no_panic("Debug", || format!("{s:?}"))?;
    let got = dbg::parse(&text).map_err(|e| format!("cannot read Debug output: {e}: {text}"))?;
    let dbg::Tree::Struct(_, got) = got else { bail!("unexpected Debug output :: {text}") };
    for (f, v, _, _) in want {
        let g = got.iter().find(|(n, _)| n == f).ok_or_else(|| format!("option missing from the settings :: {f}"))?;
        let g = match &g.1 {
            dbg::Tree::Atom(a) => a.clone(),
            dbg::Tree::Tuple(n, x) => match x.first() {
                Some(dbg::Tree::Atom(a)) => format!("{n}({a})"),
                _ => format!("{x:?}"),
            },
            x => format!("{x:?}"),
        };
        ensure!(g == *v, "option {f} is wrong :: {g} instead of {v}");
    }
    ensure!(got.len() == want.len(), "{} options reported for {}", got.len(), want.len());
    Ok(())
}

fn check_listing(text: &str, want: &[Line]) -> R {
    let got: Vec<&str> = text.lines().collect();
    for (i, (_, _, label, value)) in want.iter().enumerate() {
        let Some(l) = got.get(i) else { bail!("option not listed :: {label}") };
        let Some((a, b)) = l.split_once(':') else { bail!("line without a label :: {l:?}") };
        ensure!(a == label, "line {} has another label :: {a:?} instead of {label:?}", i + 1);
        ensure!(b.trim() == value, "listed value is wrong :: {label}: {:?} instead of {value:?}", b.trim());
        let col = format!("{:<32}{value}", format!("{label}:"));
        ensure!(*l == col, "line is laid out differently :: {l:?} instead of {col:?}");
    }
    ensure!(got.len() == want.len(), "{} lines for {} options", got.len(), want.len());
    Ok(())
}

fn at_sizes(b: &[u8]) -> (&[u8], &[u8]) {
    (&b[..4], &b[100..104])
}
/// What a file of the right shape with changed bytes has to yield: the options it stores now, all of
/// them or (when refused as damaged) none; none if one of them is no option at all.
fn changed(k: &Kind, b: &[u8]) -> Want {
    let d = b[104..104 + k.size].to_vec();
    if k.fields.iter().all(|f| f.opt(d[f.off]).is_some()) {
        Want::Either(d)
    } else {
        Want::Absent
    }
}

const STATES: [&str; 14] = [
    "good", "missing", "truncated", "empty", "bad-crc", "bad-option", "swapped", "directory", "bad-size", "garbage",
    "dangling-link", "bad-fixed", "linked", "trailing",
];

/// Put one settings file into the export; returns what it has to yield.
fn place(r: &mut Rng, ks: &[Kind], kind: usize, state: &str, dir: &Path) -> Result<Want, String> {
    let io = |e: std::io::Error| format!("monitor: {e}");
    let k = &ks[kind];
    let path = dir.join(k.file);
    let mut f = FileM::default(ks, kind);
    f.randomize(r, ks);
    let good = f.encode();
    let mut b = good.clone();
    let data = f.data.clone();
    let want = match state {
        "good" => Want::Data(data),
        "missing" => return Ok(Want::Absent),
        "truncated" => {
            // The two bytes after the checksum belong to the file as well.
            b.truncate(r.below(b.len()));
            Want::Absent
        }
        "empty" => {
            b.clear();
            Want::Absent
        }
        "bad-crc" => {
            let n = b.len();
            if r.chance(1, 2) {
                b[n - 4 + r.below(2)] ^= 1 << r.below(8);
            } else {
                // A single changed bit in what the checksum covers.
                let at = if kind == 1 { 4 + r.below(n - 8) } else { 104 + r.below(n - 108) };
                b[at] ^= 1 << r.below(8);
            }
            if kind == 1 && (at_sizes(&b) != at_sizes(&good)) {
                Want::Absent
            } else {
                changed(k, &b)
            }
        }
        "bad-option" => {
            let fl = r.pick(&k.fields);
            let byte = loop {
                let x = r.u8();
                if fl.opt(x).is_none() {
                    break x;
                }
            };
            f.data[fl.off] = byte;
            b = f.encode();
            Want::Absent
        }
        "swapped" => {
            let other = (kind + 1 + r.below(3)) % 4;
            let mut g = FileM::default(ks, other);
            g.randomize(r, ks);
            b = g.encode();
            Want::Absent
        }
        "directory" => {
            fs::create_dir(&path).map_err(io)?;
            return Ok(Want::Absent);
        }
        "bad-size" => {
            let at = *r.pick(&[0usize, 100]);
            let old = b[at];
            b[at] = if r.chance(1, 2) { old.wrapping_add(1) } else { old.wrapping_sub(1) };
            Want::Absent
        }
        "garbage" => {
            b = r.some_bytes(0, 400);
            Want::Absent
        }
        "dangling-link" => {
            std::os::unix::fs::symlink(dir.join("nowhere"), &path).map_err(io)?;
            return Ok(Want::Absent);
        }
        "linked" => {
            let real = dir.join(format!("real-{kind}"));
            fs::write(&real, &b).map_err(io)?;
            std::os::unix::fs::symlink(&real, &path).map_err(io)?;
            return Ok(Want::Data(data));
        }
        "bad-fixed" => {
            // A fixed byte inside the data with another value and no new checksum.
            let n = b.len();
            let at = r.range(104, n - 5);
            b[at] = b[at].wrapping_add(r.range(1, 255) as u8);
            changed(k, &b)
        }
        "trailing" => {
            b.extend(r.some_bytes(1, 40));
            Want::Either(data)
        }
        _ => unreachable!(),
    };
    fs::write(&path, &b).map_err(io)?;
    Ok(want)
}

fn check_export(ks: &[Kind], dir: &Path, want: &[Want], o: &mut Obs, command: bool) -> R {
    let s = no_panic("load_settings", || DeviceExportLoader::new(dir.to_path_buf()).load_settings())?;
    o.ev("loads", 1);
    // Decide the open ones by their first option.
    let dbgs = format!("{s:?}");
    let flat = dbg::parse(&dbgs).map_err(|e| e.to_string())?;
    let dbg::Tree::Struct(_, flat) = flat else { bail!("unexpected Debug output :: {dbgs}") };
    let fixed: Vec<Option<Vec<u8>>> = want
        .iter()
        .enumerate()
        .map(|(i, w)| match w {
            Want::Data(d) => Some(d.clone()),
            Want::Absent => None,
            Want::Either(d) => {
                let absent = flat.iter().any(|(n, v)| n == ks[i].fields[0].name && *v == dbg::Tree::Atom("None".into()));
                (!absent).then(|| d.clone())
            }
        })
        .collect();
    let l = lines(ks, &fixed);
    for (_, v, _, _) in &l {
        o.ev(if v == "None" { "options-absent" } else { "options-present" }, 1);
    }
    check_settings(&s, &l)?;
    let text = no_panic("Display", || s.to_string())?;
    check_listing(&text, &l)?;
    o.ev("listings", 1);
    if command {
        let res = cli::run(o.scratch, o.scratch, &[std::ffi::OsStr::new("list-settings"), dir.as_os_str()])?;
        res.ok("list-settings")?;
        check_listing(&res.text(), &l).map_err(|e| format!("command: {e}"))?;
        o.ev("command-runs", 1);
    }
    Ok(())
}

fn fresh(o: &Obs) -> Result<PathBuf, String> {
    let d = o.scratch.join("settings");
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(d.join("PIONEER")).map_err(|e| format!("monitor: {e}"))?;
    Ok(d)
}

fn states(r: &mut Rng, o: &mut Obs, st: [&str; 4], command: bool) -> R {
    let ks = m::kinds();
    let d = fresh(o)?;
    let mut want = vec![];
    for i in 0..4 {
        o.ev(&format!("state:{}", st[i]), 1);
        want.push(place(r, &ks, i, st[i], &d.join("PIONEER"))?);
    }
    let all: Vec<u8> = cli::snapshot(&d).values().flatten().flatten().copied().collect();
    o.input(&format!("settings files in states {st:?}"), &all);
    o.mark(format!("{st:?}{all:?}").as_bytes());
    o.sample(format!("{st:?}"));
    let before = cli::snapshot(&d);
    let res = check_export(&ks, &d, &want, o, command).map_err(|e| format!("{e} (states {st:?})"));
    ensure!(cli::snapshot(&d) == before, "loading changed the export");
    o.ev("combinations", 1);
    res
}

fn run(c: &mut Ctx) {
    // All combinations of readable, missing and one kind of damage.
    for n in 0..81usize {
        c.case("combination", move |r, o| {
            for bad in ["truncated", "bad-crc", "bad-option", "swapped"] {
                let p = |i: u32| ["good", "missing", bad][n / 3usize.pow(i) % 3];
                states(r, o, [p(0), p(1), p(2), p(3)], n % 27 == 0)?;
            }
            Ok(())
        });
    }
    for i in 0..c.n(20_000) {
        c.case("states", move |r, o| {
            let mut st = ["good"; 4];
            for s in &mut st {
                if r.chance(2, 3) {
                    *s = *r.pick(&STATES);
                }
            }
            states(r, o, st, i % 10 == 0)
        });
    }
    for i in 0..c.n(10_000) {
        c.case("values", move |r, o| states(r, o, ["good"; 4], i % 25 == 0));
    }
    // Every option of every field through the whole way.
    for kind in 0..4usize {
        c.case("every option", move |_, o| {
            let ks = m::kinds();
            for fi in 0..ks[kind].fields.len() {
                for oi in 0..ks[kind].fields[fi].opts.len() {
                    let d = fresh(o)?;
                    let mut f = FileM::default(&ks, kind);
                    let fl = &ks[kind].fields[fi];
                    f.data[fl.off] = fl.opts[oi].byte;
                    let b = f.encode();
                    o.input("settings file", &b);
                    o.mark(&b);
                    fs::write(d.join("PIONEER").join(ks[kind].file), b).map_err(|e| e.to_string())?;
                    let want: Vec<Want> = (0..4).map(|i| if i == kind { Want::Data(f.data.clone()) } else { Want::Absent }).collect();
                    check_export(&ks, &d, &want, o, fi == 0)?;
                }
            }
            Ok(())
        });
        // Damage at every byte: the file is read completely or not at all, the others always.
        c.case("every byte", move |r, o| {
            let ks = m::kinds();
            let d = fresh(o)?;
            let mut want = vec![];
            for i in 0..4 {
                want.push(place(r, &ks, i, "good", &d.join("PIONEER"))?);
            }
            let p = d.join("PIONEER").join(ks[kind].file);
            let good = fs::read(&p).map_err(|e| e.to_string())?;
            for at in 0..good.len() {
                for flip in [1u8, 0x80, 0xff] {
                    let mut b = good.clone();
                    b[at] ^= flip;
                    fs::write(&p, &b).map_err(|e| e.to_string())?;
                    o.input("damaged settings file", &b);
                    o.mark(&b);
                    want[kind] = if at < 4 || (100..104).contains(&at) { Want::Absent } else { changed(&ks[kind], &b) };
                    check_export(&ks, &d, &want, o, false).map_err(|e| format!("{e} (byte {at} damaged)"))?;
                    o.ev("single-byte-damage", 1);
                }
            }
            Ok(())
        });
        c.case("every length", move |r, o| {
            let ks = m::kinds();
            let d = fresh(o)?;
            let mut want = vec![];
            for i in 0..4 {
                want.push(place(r, &ks, i, "good", &d.join("PIONEER"))?);
            }
            let p = d.join("PIONEER").join(ks[kind].file);
            let good = fs::read(&p).map_err(|e| e.to_string())?;
            want[kind] = Want::Absent;
            for n in 0..good.len() {
                fs::write(&p, &good[..n]).map_err(|e| e.to_string())?;
                o.mark(&good[..n]);
                check_export(&ks, &d, &want, o, false).map_err(|e| format!("{e} (cut to {n} bytes)"))?;
            }
            Ok(())
        });
    }
    c.case("no export", |_, o| {
        let ks = m::kinds();
        let want = vec![Want::Absent, Want::Absent, Want::Absent, Want::Absent];
        let d = fresh(o)?;
        check_export(&ks, &d.join("does not exist"), &want, o, true)?;
        fs::remove_dir(d.join("PIONEER")).map_err(|e| e.to_string())?;
        check_export(&ks, &d, &want, o, true)?;
        fs::write(d.join("PIONEER"), b"a file").map_err(|e| e.to_string())?;
        check_export(&ks, &d, &want, o, true)?;
        o.ev("no-pioneer-dir", 3);
        o.mark(b"none");
        Ok(())
    });
    for e in ["empty", "demo_tracks"] {
        c.case("fixture", move |_, o| {
            let ks = m::kinds();
            let d = super::c07::data_dir().join("complete_export").join(e);
            let mut want = vec![];
            for k in &ks {
                want.push(match fs::read(d.join("PIONEER").join(k.file)) {
                    Ok(b) => Want::Data(b[104..b.len() - 4].to_vec()),
                    Err(_) => Want::Absent,
                });
            }
            check_export(&ks, &d, &want, o, true)?;
            o.mark(e.as_bytes());
            o.ev("fixtures", 1);
            Ok(())
        });
    }
}
