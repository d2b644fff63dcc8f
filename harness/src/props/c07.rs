//! C07: settings files keep every value, layout and checksum correct.
use super::Prop;
use crate::dbg;
use crate::fw::{first_diff, no_panic, Ctx, Obs, R};
use crate::refsetting::{self as m, FileM, Kind};
use crate::rng::Rng;
use crate::{bail, ensure};
use binrw::{BinRead, BinWrite};
use rekordcrate::setting::*;
use std::io::Cursor;
use std::path::PathBuf;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: "distinct settings files written or read and compared with the reference encoding",
        required: &[
            "options-accepted", "bytes-refused", "labels", "constructed", "rewritten", "strings-refused", "strings-accepted",
            "defaults", "fixtures", "wrong-type-refused", "filenames", "embedded-nul", "shifted",
        ],
        assumptions: &[
            "option bytes, labels and layouts are those of the published description and of the files rekordbox 6.6.1 wrote into data/",
            "well-formed files have zero-padded strings and the documented values in the fixed bytes",
        ],
        run,
    }
}

pub fn read(b: &[u8], t: SettingType) -> Result<binrw::BinResult<Setting>, String> {
    no_panic("read", || Setting::read_args(&mut Cursor::new(b), (t,)))
}
pub fn write(s: &Setting) -> Result<Result<Vec<u8>, String>, String> {
    no_panic("write", || {
        let mut c = Cursor::new(Vec::new());
        s.write(&mut c).map(|()| c.into_inner()).map_err(|e| e.to_string())
    })
}

/// Every option of `s` as the file model has it; other values visible in the Debug output too.
fn check_values(k: &Kind, f: &FileM, s: &Setting, o: &mut Obs) -> R {
    for (n, got, want) in [("brand", &s.brand, &f.brand), ("software", &s.software, &f.software), ("version", &s.version, &f.version)] {
        ensure!(got.0 == *want, "wrong {n} :: {:?} instead of {:?}", got, String::from_utf8_lossy(want));
    }
    for fl in &k.fields {
        let want = fl.opt(f.data[fl.off]).ok_or_else(|| format!("bad model value of {}", fl.name))?;
        let (v, l) = (fl.get)(&s.data);
        ensure!(v == want.variant, "{} decoded as another option :: byte {:#x}: {} instead of {}", fl.name, want.byte, v, want.variant);
        ensure!(l == want.label, "{} shows another label :: {}: {:?} instead of {:?}", fl.name, v, l, want.label);
        o.ev("labels", 1);
    }
    // The options also have to be found under their names in the printed value.
    let flat = dbg::parse(&format!("{:?}", s.data)).map_err(|e| format!("debug: {e}"))?.flat();
    for fl in &k.fields {
        let want = fl.opt(f.data[fl.off]).unwrap().variant;
        ensure!(
            flat.iter().any(|(p, v)| p.rsplit('.').next() == Some(fl.name) && v == want),
            "{} not printed as {want} :: {:?}", fl.name, s.data
        );
    }
    let (a, b, c, d) = (
        s.data.as_dev_setting().is_some(),
        s.data.as_djm_my_setting().is_some(),
        s.data.as_my_setting().is_some(),
        s.data.as_my_setting2().is_some(),
    );
    ensure!([a, b, c, d].iter().position(|x| *x) == Some(f.kind) && [a, b, c, d].iter().filter(|x| **x).count() == 1, "accessors disagree with the type of the data");
    Ok(())
}

/// Read, compare, write, read again.
fn check_file(ks: &[Kind], f: &FileM, o: &mut Obs) -> R {
    let k = &ks[f.kind];
    let b = f.encode();
    o.input(&format!("{} file", k.name), &b);
    o.mark(&b);
    let s = read(&b, k.typ)?.map_err(|e| format!("well-formed file refused :: {e}"))?;
    check_values(k, f, &s, o)?;
    let w = write(&s)?.map_err(|e| format!("cannot write what was read :: {e}"))?;
    if let Some(d) = first_diff(&b, &w) {
        bail!("file rewritten with other bytes :: {d}");
    }
    let s2 = read(&w, k.typ)?.map_err(|e| format!("own output refused :: {e}"))?;
    ensure!(s == s2, "read back unequal :: {s:?} {s2:?}");
    o.ev("rewritten", 1);
    Ok(())
}

/// A settings value built through the public API from the model (fixed and free bytes as default).
pub fn construct(ks: &[Kind], f: &FileM) -> Setting {
    let k = &ks[f.kind];
    let mut s = (k.default)();
    for fl in &k.fields {
        (fl.opt(f.data[fl.off]).unwrap().set)(&mut s.data);
    }
    s.brand = binrw::NullString(f.brand.clone());
    s.software = binrw::NullString(f.software.clone());
    s.version = binrw::NullString(f.version.clone());
    s
}

fn check_constructed(ks: &[Kind], f: &FileM, o: &mut Obs) -> R {
    let k = &ks[f.kind];
    let s = construct(ks, f);
    let b = f.encode();
    o.mark(&b);
    let w = write(&s)?.map_err(|e| format!("constructed value refused :: {s:?} {e}"))?;
    if let Some(d) = first_diff(&b, &w) {
        bail!("constructed value written with other bytes :: {} {d}", k.name);
    }
    let s2 = read(&w, k.typ)?.map_err(|e| format!("written value refused :: {e}"))?;
    ensure!(s == s2, "constructed value read back unequal :: {s:?} {s2:?}");
    o.ev("constructed", 1);
    Ok(())
}

pub fn data_dir() -> PathBuf {
    PathBuf::from(std::env::var("REPO_DIR").unwrap_or("/repo".into())).join("data")
}
pub fn fixtures() -> Vec<(usize, PathBuf)> {
    fn walk(d: PathBuf, v: &mut Vec<PathBuf>) {
        let Ok(rd) = std::fs::read_dir(&d) else { return };
        let mut e: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        e.sort();
        for p in e {
            if p.is_dir() {
                walk(p, v)
            } else if p.extension().is_some_and(|x| x == "DAT") && p.file_name().unwrap().to_string_lossy().contains("SETTING") {
                v.push(p)
            }
        }
    }
    let mut v = vec![];
    walk(data_dir(), &mut v);
    let ks = m::kinds();
    v.into_iter()
        .filter_map(|p| {
            let n = p.file_name()?.to_str()?.to_string();
            Some((ks.iter().position(|k| k.file == n)?, p))
        })
        .collect()
}

fn run(c: &mut Ctx) {
    let ks = m::kinds();
    for kind in 0..4 {
        c.case("defaults", |_, o| {
            let f = FileM::default(&ks, kind);
            let s = no_panic("default", || (ks[kind].default)())?;
            o.sample(format!("{s:?}"));
            check_values(&ks[kind], &f, &s, o)?;
            check_constructed(&ks, &f, o)?;
            check_file(&ks, &f, o)?;
            let p = data_dir().join("complete_export/empty/PIONEER").join(ks[kind].file);
            if let Ok(b) = std::fs::read(&p) {
                ensure!(b == f.encode(), "the model's defaults are not those in {}", p.display());
                ensure!(write(&s)?.ok() == Some(b), "defaults differ from the ones rekordbox wrote");
                o.ev("defaults-from-rekordbox", 1);
            }
            ensure!(ks[kind].typ.expected_data_size() as usize == ks[kind].size, "wrong data size");
            o.ev("defaults", 1);
            Ok(())
        });
    }
    for (kind, p) in fixtures() {
        c.case("fixture", |_, o| {
            let Ok(b) = std::fs::read(&p) else { return Ok(()) };
            let z = |x: &[u8]| x.iter().take_while(|b| **b != 0).copied().collect::<Vec<u8>>();
            ensure!(b.len() > 104, "fixture too short");
            let f = FileM { kind, brand: z(&b[4..36]), software: z(&b[36..68]), version: z(&b[68..100]), data: b[104..b.len() - 4].to_vec() };
            if f.encode() != b {
                o.ev("fixtures-not-canonical", 1);
                return Ok(());
            }
            check_file(&ks, &f, o)?;
            o.ev("fixtures", 1);
            Ok(())
        });
    }
    // Every byte value of every option field.
    for kind in 0..4 {
        for fi in 0..ks[kind].fields.len() {
            c.case("option", |r, o| {
                let k = &ks[kind];
                let fl = &k.fields[fi];
                for byte in 0..=255u8 {
                    let mut f = FileM::default(&ks, kind);
                    if byte & 1 == 1 {
                        f.randomize(r, &ks);
                    }
                    f.data[fl.off] = byte;
                    match fl.opt(byte) {
                        Some(_) => {
                            check_file(&ks, &f, o)?;
                            for &p in &k.free {
                                f.data[p] = k.base[p];
                            }
                            check_constructed(&ks, &f, o)?;
                            o.ev("options-accepted", 1);
                        }
                        None => {
                            let b = f.encode();
                            ensure!(read(&b, k.typ)?.is_err(), "unused byte accepted for {} :: {byte:#x}", fl.name);
                            o.ev("bytes-refused", 1);
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // Every other byte of the data section: what is accepted is rewritten unchanged.
    for kind in 0..4 {
        c.case("other bytes", |r, o| {
            let k = &ks[kind];
            for off in 0..k.size {
                if k.fields.iter().any(|f| f.off == off) {
                    continue;
                }
                for byte in 0..=255u8 {
                    let mut f = FileM::default(&ks, kind);
                    if r.chance(1, 2) {
                        f.randomize(r, &ks);
                    }
                    f.data[off] = byte;
                    if k.free.contains(&off) || byte == k.base[off] {
                        check_file(&ks, &f, o)?;
                    } else {
                        let b = f.encode();
                        if let Ok(s) = read(&b, k.typ)? {
                            ensure!(write(&s)?.ok() == Some(b), "accepted byte {off:#x} rewritten differently");
                        }
                        o.ev("fixed-bytes-varied", 1);
                    }
                }
            }
            Ok(())
        });
    }
    for _ in 0..c.n(6000) {
        c.case("random file", |r, o| {
            let kind = r.below(4);
            let mut f = FileM::default(&ks, kind);
            f.randomize(r, &ks);
            check_file(&ks, &f, o)?;
            o.sample(format!("{} {}", ks[kind].name, crate::fw::hex(&f.data)));
            for &p in &ks[kind].free {
                f.data[p] = ks[kind].base[p];
            }
            check_constructed(&ks, &f, o)?;
            // Other types refuse it.
            for (j, k) in ks.iter().enumerate() {
                if j != kind {
                    ensure!(read(&f.encode(), k.typ)?.is_err(), "{} file accepted as {}", ks[kind].name, k.name);
                    o.ev("wrong-type-refused", 1);
                }
            }
            if r.chance(1, 4) {
                // The same inside a larger stream.
                let n = r.range(1, 50);
                let b = f.encode();
                let s = construct(&ks, &f);
                let mut w = Cursor::new(vec![0xaa; n]);
                w.set_position(n as u64);
                no_panic("write", || s.write(&mut w))?.map_err(|e| format!("write at an offset :: {e}"))?;
                ensure!(w.position() as usize == n + b.len(), "wrong position after writing");
                let w = w.into_inner();
                ensure!(w[..n].iter().all(|x| *x == 0xaa) && w[n..] == b[..], "written differently at an offset");
                let mut rd = Cursor::new(w);
                rd.set_position(n as u64);
                let s2 = no_panic("read", || Setting::read_args(&mut rd, (ks[kind].typ,)))?.map_err(|e| format!("read at an offset :: {e}"))?;
                ensure!(s == s2, "read differently at an offset");
                o.ev("shifted", 1);
            }
            if r.chance(1, 4) {
                // Sizes other than the documented ones are not taken for this type.
                let mut b = f.encode();
                let at = *r.pick(&[0usize, 100]);
                let x = r.u32_edgy();
                if u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) != x {
                    b[at..at + 4].copy_from_slice(&x.to_le_bytes());
                    ensure!(read(&b, ks[kind].typ)?.is_err(), "file with a wrong size field accepted :: {at} {x:#x}");
                    o.ev("bad-size-refused", 1);
                }
            }
            Ok(())
        });
    }
    for _ in 0..c.n(1500) {
        c.case("strings", |r: &mut Rng, o: &mut Obs| {
            let kind = r.below(4);
            let mut f = FileM::default(&ks, kind);
            f.randomize(r, &ks);
            for &p in &ks[kind].free {
                f.data[p] = ks[kind].base[p];
            }
            let mut s = construct(&ks, &f);
            let which = r.below(3);
            let n = match r.below(4) {
                0 => r.range(30, 34),
                1 => 31 + 32 * r.below(4),
                2 => r.range(0, 31),
                _ => r.range(32, 2000),
            };
            let mut t = m::gen_string(r, n);
            t.resize(n, b'x');
            let nul = n > 0 && r.chance(1, 4);
            if nul {
                t[r.below(n)] = 0;
            }
            let dst = [&mut s.brand, &mut s.software, &mut s.version];
            for (i, d) in dst.into_iter().enumerate() {
                if i == which {
                    d.0 = t.clone();
                }
            }
            let w = write(&s)?;
            if n > 31 || nul {
                if let Ok(b) = w {
                    bail!("{} written :: {n} bytes, read back {:?}", if n > 31 { "overlong string" } else { "string with a NUL byte" },
                        read(&b, ks[kind].typ)?.map(|x| x == s).map_err(|e| e.to_string()));
                }
                o.ev(if n > 31 { "strings-refused" } else { "embedded-nul" }, 1);
            } else {
                match which {
                    0 => f.brand = t,
                    1 => f.software = t,
                    _ => f.version = t,
                }
                ensure!(w.is_ok_and(|b| b == f.encode()), "string of {n} bytes refused or written differently");
                o.ev("strings-accepted", 1);
            }
            // A stored string without room for its terminator is not a well-formed one.
            let mut b = f.encode();
            let at = 4 + 32 * which;
            b[at..at + 32].fill(b'y');
            if let Ok(s) = read(&b, ks[kind].typ)? {
                ensure!([&s.brand, &s.software, &s.version].iter().all(|x| x.len() < 32), "overlong stored string accepted");
            }
            Ok(())
        });
    }
    c.case("filenames", |r, o| {
        for k in &ks {
            for pre in ["", "/", "a/b/", "./", "PIONEER/", "/DEVSETTING.DAT/", "x/MYSETTING2.DAT/"] {
                ensure!(SettingType::from_filename(format!("{pre}{}", k.file)) == Some(k.typ), "{pre}{} not recognised", k.file);
                o.ev("filenames", 1);
            }
            for bad in ["", "x", ".DAT", "SETTING.DAT", "MYSETTING3.DAT", "DJMSETTING.DAT", "..", "/", "export.pdb"] {
                ensure!(SettingType::from_filename(bad).is_none(), "{bad} taken for a settings file");
            }
            for _ in 0..200 {
                let mut n = k.file.as_bytes().to_vec();
                match r.below(4) {
                    0 => { let i = r.below(n.len()); n.remove(i); }
                    1 => { let i = r.below(n.len() + 1); n.insert(i, b'S'); }
                    2 => { let i = r.below(n.len()); n[i] = r.range(b'A' as usize, b'Z' as usize) as u8; }
                    _ => n.extend(b" "),
                }
                let n = String::from_utf8(n).unwrap();
                let want = ks.iter().find(|k| k.file == n).map(|k| k.typ);
                ensure!(SettingType::from_filename(&n) == want, "file name {n} taken for {:?}", SettingType::from_filename(&n));
                o.ev("filenames", 1);
            }
        }
        o.mark(b"f");
        Ok(())
    });
}
