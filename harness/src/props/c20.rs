//! C20: command-line dumps show the file, fail cleanly and change nothing.
use super::pdbutil::dbt;
use super::Prop;
use crate::cli::{self, Out};
use crate::fw::{no_panic, Ctx, Obs, R};
use crate::hostile::mutate;
use crate::pldb::{self, PlDb};
use crate::refanlz as ma;
use crate::refpdb as mp;
use crate::refsetting::{self as ms, FileM};
use crate::refxml::{self as mx, Gen, Style};
use crate::rng::Rng;
use crate::{bail, ensure};
use binrw::BinRead;
use fallible_iterator::FallibleIterator;
use rekordcrate::anlz::ANLZ;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::{PageContent, PageType};
use rekordcrate::setting::Setting;
use rekordcrate::util::TableIndex;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::fmt::Write;
use std::fs;
use std::io::Cursor;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        level: "exploration",
        rule: "distinct command invocations (command, options, file name and content) whose exit status, output and effect on the input were compared with what the file holds",
        required: &[
            "runs", "dumped:pdb", "dumped:anlz", "dumped:setting", "dumped:xml", "listed:playlists", "listed:settings",
            "malformed:pdb", "malformed:anlz", "malformed:setting", "malformed:xml", "malformed:playlists", "malformed:export",
            "errors-reported", "type-by-option", "type-by-name", "type-option-over-name", "type-unknown", "odd-paths", "bad-options",
            "unknown-tables-parsed", "unknown-tables-skipped", "deep-playlists", "inputs-unchanged", "fixtures", "missing-files", "directories", "playlist-lines",
        ],
        assumptions: &[
            "printed output is compared with the library's Debug output of the same file, whose values the decoding properties check; white space is not compared",
            "a command that cannot tell the file type may end with a message and either exit status",
            "standard output is a file that accepts everything",
        ],
        run,
    }
}

/// One command invocation in a scratch directory that must not change.
struct Bench {
    dir: PathBuf,
}

impl Bench {
    fn new(o: &Obs) -> Result<Self, String> {
        let dir = o.scratch.join("cmd");
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).map_err(|e| format!("monitor: {e}"))?;
        Ok(Self { dir })
    }
    fn put(&self, name: impl AsRef<Path>, b: &[u8]) -> R {
        let p = self.dir.join(name);
        fs::create_dir_all(p.parent().unwrap()).and_then(|()| fs::write(&p, b)).map_err(|e| format!("monitor: {e}"))
    }
    fn run(&self, o: &mut Obs, args: &[OsString]) -> Result<Out, String> {
        let before = cli::snapshot(&self.dir);
        let a: Vec<&OsStr> = args.iter().map(|a| a.as_os_str()).collect();
        let res = cli::run(o.scratch, &self.dir, &a)?;
        let what = args[0].to_string_lossy().to_string();
        o.mark(format!("{args:?}").as_bytes());
        res.clean(&what)?;
        ensure!(cli::snapshot(&self.dir) == before, "{what} changed its input files");
        o.ev("inputs-unchanged", before.len() as u64);
        o.ev("runs", 1);
        if res.code != Some(0) {
            o.ev("errors-reported", 1);
        }
        Ok(res)
    }
}

fn osv(a: &[&str]) -> Vec<OsString> {
    a.iter().map(OsString::from).collect()
}

fn same_text(got: &str, want: &str, what: &str) -> R {
    let (mut g, mut w) = (got.split_whitespace(), want.split_whitespace());
    let mut n = 0usize;
    loop {
        match (g.next(), w.next()) {
            (None, None) => return Ok(()),
            (a, b) if a == b => n += 1,
            (a, b) => {
                let ctx: Vec<&str> = want.split_whitespace().skip(n.saturating_sub(8)).take(12).collect();
                bail!("{what} prints something else :: word {n}: {a:?} instead of {b:?} in {:?}", ctx.join(" "))
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ pdb

/// What `dump-pdb` has to print, and whether something in the file cannot be read.
fn expect_pdb(b: &[u8], ext: bool, unknown: bool) -> Result<(String, bool), String> {
    let mut s = String::new();
    let mut db = match no_panic("open", || Database::open_non_persistent(Cursor::new(b.to_vec()), dbt(ext)))? {
        Ok(d) => d,
        Err(_) => return Ok((s, true)),
    };
    let mut bad = false;
    let _ = writeln!(s, "{:#?}", db.get_header());
    let tables = db.get_header().tables.clone();
    for (i, t) in tables.iter().enumerate() {
        let id = TableIndex::from(i);
        let _ = writeln!(s, "Table {id:?}: {:?}", t.page_type);
        if matches!(t.page_type, PageType::Unknown(_)) && !unknown {
            let _ = writeln!(s, "  Skipping unknown table type, use --parse-unknown-tables to attempt parsing");
            continue;
        }
        let mut it = match db.iter_pages_for_table(id) {
            Ok(it) => it,
            Err(_) => {
                bad = true;
                continue;
            }
        };
        loop {
            match no_panic("page iteration", || it.next())? {
                Ok(None) => break,
                Err(_) => {
                    bad = true;
                    break;
                }
                Ok(Some(p)) => {
                    let _ = writeln!(s, "  {p:?}");
                    match &p.content {
                        PageContent::Data(d) => d.rows.values().for_each(|r| {
                            let _ = writeln!(s, "      {r:?}");
                        }),
                        PageContent::Index(x) => {
                            let _ = writeln!(s, "    {x:?}");
                            x.entries.iter().for_each(|e| {
                                let _ = writeln!(s, "      {e:?}");
                            });
                        }
                    }
                }
            }
        }
    }
    Ok((s, bad))
}

fn gen_pdb(r: &mut Rng, ext: bool) -> mp::DbM {
    let opts = mp::GenOpts { page_size: Some(*r.pick(&[1024, 2048, 4096])), max_rows: 20, max_str: 30, max_pages: 3, ..Default::default() };
    mp::gen_db(r, ext, &opts)
}

/// File names with the type they suggest.
const PDB_NAMES: [(&str, Option<bool>); 19] = [
    ("export.pdb", Some(false)),
    ("exportExt.pdb", Some(true)),
    ("x/export.pdb", Some(false)),
    ("exportExt.pdb/exportExt.pdb", Some(true)),
    ("export.pdb/exportExt.pdb", Some(true)),
    ("backup.pdb", None),
    ("Export.pdb", None),
    ("exportExt.pdb/other", None),
    ("export.pdb.bak", None),
    ("backupExt.pdb", None),
    ("Ext.pdb", None),
    ("exportext.pdb", None),
    ("EXPORT.PDB", None),
    ("my export.pdb", None),
    ("exportExt", None),
    ("export", None),
    ("export.pdb ", None),
    ("exportExt.pdb~", None),
    ("export.ext.pdb", None),
];

fn dump_pdb(r: &mut Rng, o: &mut Obs, damage: usize) -> R {
    let bench = Bench::new(o)?;
    let ext = r.chance(1, 3);
    let dbm = gen_pdb(r, ext);
    let mut b = dbm.encode();
    if damage > 0 {
        mutate(r, &mut b, damage, false);
    }
    let (name, by_name) = *r.pick(&PDB_NAMES);
    bench.put(name, &b)?;
    o.input(&format!("dump-pdb {name}"), &b);
    let by_opt = match r.below(3) {
        0 => None,
        1 => Some(ext),
        _ => Some(r.chance(1, 2)),
    };
    let unknown = r.chance(1, 2);
    let mut args = osv(&["dump-pdb"]);
    if let Some(e) = by_opt {
        let v = if e { "ext" } else { "plain" };
        if r.chance(1, 2) {
            args.extend(osv(&["--db-type", v]));
        } else {
            args.push(format!("--db-type={v}").into());
        }
    }
    if unknown {
        args.push("--parse-unknown-tables".into());
    }
    let at = if r.chance(1, 2) { args.len() } else { 1 };
    args.insert(at, name.into());
    let res = bench.run(o, &args)?;
    let Some(ty) = by_opt.or(by_name) else {
        ensure!(!res.stderr.is_empty(), "unknown file type not reported");
        ensure!(res.stdout.is_empty(), "file of unknown type printed");
        o.ev("type-unknown", 1);
        return Ok(());
    };
    o.ev(if by_opt.is_some() { "type-by-option" } else { "type-by-name" }, 1);
    if let (Some(a), Some(b)) = (by_opt, by_name) {
        o.ev("type-option-over-name", u64::from(a != b));
    }
    let (want, bad) = expect_pdb(&b, ty, unknown)?;
    if damage == 0 && ty == ext {
        ensure!(!bad, "well-formed database cannot be read");
        res.ok("dump-pdb")?;
        // The model knows what is stored: every present row and every table has its line.
        let text = res.text();
        let rows: usize = dbm.tables.iter().filter(|t| unknown || mp::schema(ext, t.ty).is_some()).map(|t| dbm.rows(t).len()).sum();
        let got = rows_in(&text, &dbm, unknown);
        ensure!(got == rows, "dump-pdb prints {got} rows for {rows} stored ones");
        let n = text.lines().filter(|l| l.starts_with("Table TableIndex(")).count();
        ensure!(n == dbm.tables.len(), "dump-pdb prints {n} tables for {}", dbm.tables.len());
        let unk = dbm.tables.iter().filter(|t| mp::schema(ext, t.ty).is_none()).count() as u64;
        o.ev(if unknown { "unknown-tables-parsed" } else { "unknown-tables-skipped" }, unk);
        o.ev("dumped:pdb", 1);
    } else {
        o.ev("malformed:pdb", 1);
    }
    same_text(&res.text(), &want, "dump-pdb")?;
    if bad {
        ensure!(!res.stderr.is_empty(), "unreadable parts of the database not reported");
    } else {
        res.ok("dump-pdb")?;
    }
    Ok(())
}

/// Row lines of a dump: those below a data page.
fn rows_in(text: &str, _db: &mp::DbM, _unknown: bool) -> usize {
    let mut n = 0;
    let mut data = false;
    for l in text.lines() {
        if l.starts_with("Table ") || l.starts_with("    IndexPageContent") {
            data = false;
        } else if l.starts_with("  Page {") {
            data = true;
        } else if data && l.starts_with("      ") {
            n += 1;
        }
    }
    n
}

// ----------------------------------------------------------------------------------------- anlz

fn dump_anlz(r: &mut Rng, o: &mut Obs, damage: usize) -> R {
    let bench = Bench::new(o)?;
    let mut b = ma::gen_file(r, 8, 12).encode();
    if damage > 0 {
        mutate(r, &mut b, damage, true);
    }
    let name = *r.pick(&["ANLZ0000.DAT", "ANLZ0000.EXT", "a.2EX", "MYSETTING.DAT", "export.pdb", "noext"]);
    bench.put(name, &b)?;
    o.input("dump-anlz", &b);
    let res = bench.run(o, &osv(&["dump-anlz", name]))?;
    o.mark(&b);
    match no_panic("read", || ANLZ::read(&mut Cursor::new(&b)))? {
        Ok(a) => {
            res.ok("dump-anlz")?;
            same_text(&res.text(), &format!("{a:#?}"), "dump-anlz")?;
            o.ev("dumped:anlz", 1);
        }
        Err(e) => {
            ensure!(damage > 0, "well-formed analysis file refused :: {e}");
            ensure!(res.code != Some(0), "unreadable analysis file not reported");
        }
    }
    if damage > 0 {
        o.ev("malformed:anlz", 1);
    }
    Ok(())
}

// -------------------------------------------------------------------------------------- setting

const TYPE_OPTS: [(&str, usize); 4] = [("devsetting", 0), ("djmmysetting", 1), ("mysetting", 2), ("mysetting2", 3)];

fn dump_setting(r: &mut Rng, o: &mut Obs, damage: usize) -> R {
    let ks = ms::kinds();
    let bench = Bench::new(o)?;
    let kind = r.below(4);
    let mut f = FileM::default(&ks, kind);
    f.randomize(r, &ks);
    let mut b = f.encode();
    if damage > 0 {
        mutate(r, &mut b, damage, false);
    }
    let idx = |n: &str| ks.iter().position(|k| k.name.eq_ignore_ascii_case(n)).unwrap();
    let names: Vec<(String, Option<usize>)> = ks
        .iter()
        .enumerate()
        .flat_map(|(i, k)| vec![(k.file.to_string(), Some(i)), (format!("PIONEER/{}", k.file), Some(i))])
        .chain([
            ("setting.dat".to_string(), None),
            ("MYSETTING.DAT/x".to_string(), None),
            ("mysetting.dat".to_string(), None),
            ("MYSETTING3.DAT".to_string(), None),
            ("DEVSETTING.DAT.bak".to_string(), None),
            ("MYSETTING".to_string(), None),
            ("DJMSETTING.DAT".to_string(), None),
            ("XMYSETTING.DAT".to_string(), None),
            ("MYSETTING2.DAT ".to_string(), None),
            ("MySetting2.dat".to_string(), None),
        ])
        .collect();
    let (name, by_name) = if r.chance(1, 2) { (ks[kind].file.to_string(), Some(kind)) } else { r.pick(&names).clone() };
    bench.put(&name, &b)?;
    o.input(&format!("dump-setting {name}"), &b);
    let by_opt = match r.below(3) {
        0 => None,
        1 => Some(kind),
        _ => Some(idx(r.pick(&TYPE_OPTS).0)),
    };
    let mut args = osv(&["dump-setting", &name]);
    if let Some(k) = by_opt {
        let v = TYPE_OPTS.iter().find(|t| idx(t.0) == k).unwrap().0;
        args.extend(osv(&["--setting-type", v]));
    }
    let res = bench.run(o, &args)?;
    o.mark(&b);
    let Some(ty) = by_opt.or(by_name) else {
        ensure!(!res.stderr.is_empty(), "unknown settings type not reported");
        ensure!(res.stdout.is_empty(), "file of unknown type printed");
        o.ev("type-unknown", 1);
        return Ok(());
    };
    o.ev(if by_opt.is_some() { "type-by-option" } else { "type-by-name" }, 1);
    if let (Some(a), Some(b)) = (by_opt, by_name) {
        o.ev("type-option-over-name", u64::from(a != b));
    }
    match no_panic("read", || Setting::read_args(&mut Cursor::new(&b), (ks[ty].typ,)))? {
        Ok(s) => {
            res.ok("dump-setting")?;
            same_text(&res.text(), &format!("{s:#04x?}"), "dump-setting")?;
            if damage == 0 {
                ensure!(ty == kind, "file of another type accepted");
                for fl in &ks[kind].fields {
                    let v = fl.opt(f.data[fl.off]).unwrap().variant;
                    let line = format!("{}: {v}", fl.name);
                    ensure!(res.text().lines().any(|l| l.trim().trim_end_matches(',') == line), "option not printed :: {line}");
                }
            }
            o.ev("dumped:setting", 1);
        }
        Err(e) => {
            ensure!(damage > 0 || ty != kind, "well-formed settings file refused :: {e}");
            ensure!(res.code != Some(0), "unreadable settings file not reported");
        }
    }
    if damage > 0 {
        o.ev("malformed:setting", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ xml

fn dump_xml(r: &mut Rng, o: &mut Obs, damage: usize) -> R {
    let bench = Bench::new(o)?;
    let g = Gen { wsc: false, max: 4, depth: 3 };
    let d = g.doc(r);
    let el = mx::to_el(&d);
    let st = Style::random(r);
    let mut b = mx::write(r, &el, &st).into_bytes();
    if damage > 0 {
        mutate(r, &mut b, damage, false);
    }
    let name = *r.pick(&["rekordbox.xml", "x", "export.pdb"]);
    bench.put(name, &b)?;
    o.input("dump-xml", &b);
    let res = bench.run(o, &osv(&["dump-xml", name]))?;
    o.mark(&b);
    if damage == 0 {
        res.ok("dump-xml")?;
        same_text(&res.text(), &format!("{d:#?}"), "dump-xml")?;
        o.ev("dumped:xml", 1);
    } else {
        let got = no_panic("read", || quick_xml::de::from_reader::<_, rekordcrate::xml::Document>(&b[..]))?;
        match got {
            Ok(d) => {
                res.ok("dump-xml")?;
                same_text(&res.text(), &format!("{d:#?}"), "dump-xml")?;
            }
            Err(_) => ensure!(res.code != Some(0), "unreadable XML not reported"),
        }
        o.ev("malformed:xml", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ playlists

/// The listing of a healthy playlist database.
fn expect_playlists(db: &PlDb) -> String {
    fn go(db: &PlDb, id: u32, level: usize, s: &mut String) {
        let ind = "    ".repeat(level);
        for n in db.children(id) {
            let _ = writeln!(s, "{ind}{} {}", if n.folder != 0 { "🗀" } else { "🗎" }, n.name);
            for (ix, t) in db.entries_of(n.id) {
                let _ = write!(s, "{ind}  ♫ {ix}: ");
                match db.tracks.iter().find(|x| x.id == t) {
                    None => {
                        let _ = writeln!(s, "<Track for TrackId({t}) not found>");
                    }
                    Some(k) => match db.artists.iter().find(|a| a.0 == k.artist) {
                        None => {
                            let _ = writeln!(s, "<Artist for ArtistId({}) not found> - {}", k.artist, k.title);
                        }
                        Some(a) => {
                            let _ = writeln!(s, "{} - {}", a.1, k.title);
                        }
                    },
                }
            }
            go(db, n.id, level + 1, s);
        }
    }
    let mut s = String::new();
    go(db, 0, 0, &mut s);
    s
}

fn list_playlists(r: &mut Rng, o: &mut Obs, damage: usize) -> R {
    let bench = Bench::new(o)?;
    let n = r.below(20);
    // No separators or parent directories: exported names must lead nowhere (C14 tests those).
    let safe = |r: &mut Rng| loop {
        let s = pldb::name(r);
        if !s.contains('/') && !s.contains("..") {
            return s;
        }
    };
    let mut db = PlDb { nodes: pldb::tree(r, n, 5, safe), ..PlDb::default() };
    db.add_content(r, |_, id| format!("/Contents/{id}.mp3"));
    let mut b = db.build(r).encode();
    if damage > 0 {
        mutate(r, &mut b, damage, false);
    }
    o.input("list-playlists", &b);
    o.mark(&b);
    if r.chance(1, 4) {
        if damage > 0 {
            b.iter_mut().filter(|x| **x == b'/').for_each(|x| *x = b'_');
        }
        bench.put("e/PIONEER/rekordbox/export.pdb", &b)?;
        // The output directory may be anywhere outside of the watched files.
        let out = o.scratch.join("cmd-out");
        let _ = fs::remove_dir_all(&out);
        let res = bench.run(o, &[OsString::from("export-playlists"), "e".into(), out.clone().into()]);
        let _ = fs::remove_dir_all(&out);
        let res = res?;
        if damage == 0 {
            res.ok("export-playlists")?;
        } else {
            o.ev("malformed:export", 1);
        }
        return Ok(());
    }
    let name = *r.pick(&["export.pdb", "x.pdb", "exportExt.pdb", "MYSETTING.DAT"]);
    bench.put(name, &b)?;
    let res = bench.run(o, &osv(&["list-playlists", name]))?;
    if damage == 0 {
        res.ok("list-playlists")?;
        let want = expect_playlists(&db);
        let got = res.text();
        if got != want {
            let i = got.lines().zip(want.lines()).take_while(|(a, b)| a == b).count();
            bail!("list-playlists prints something else :: line {}: {:?} instead of {:?}", i + 1, got.lines().nth(i), want.lines().nth(i));
        }
        o.ev("playlist-lines", want.lines().count() as u64);
        o.ev("listed:playlists", 1);
    } else {
        o.ev("malformed:playlists", 1);
    }
    Ok(())
}

// --------------------------------------------------------------------------------- odd arguments

/// Folder chains and rings that no stack holds: malformed as far as the commands are concerned.
fn deep_playlists(r: &mut Rng, o: &mut Obs, depth: u32) -> R {
    let bench = Bench::new(o)?;
    let ring = r.chance(1, 3);
    let mut nodes: Vec<pldb::Node> = (0..depth).map(|i| pldb::Node { parent: i, id: i + 1, folder: 1, name: String::new() }).collect();
    if ring {
        nodes.push(pldb::Node { parent: depth, id: 1, folder: 1, name: String::new() });
    }
    let b = PlDb { nodes, ..PlDb::default() }.build(r).encode();
    bench.put("export.pdb", &b)?;
    bench.put("e/PIONEER/rekordbox/export.pdb", &b)?;
    bench.run(o, &osv(&["list-playlists", "export.pdb"]))?;
    bench.run(o, &osv(&["dump-pdb", "export.pdb"]))?.ok("dump-pdb")?;
    let out = o.scratch.join("cmd-out");
    let _ = fs::remove_dir_all(&out);
    let res = bench.run(o, &[OsString::from("export-playlists"), "e".into(), out.clone().into()]);
    let _ = fs::remove_dir_all(&out);
    res?;
    o.ev("deep-playlists", 1);
    Ok(())
}

fn odd_paths(r: &mut Rng, o: &mut Obs) -> R {
    let bench = Bench::new(o)?;
    fs::create_dir_all(bench.dir.join("dir/export.pdb")).map_err(|e| e.to_string())?;
    bench.put("empty", b"")?;
    bench.put("empty/../export.pdb", b"").or_else(|_| bench.put("export.pdb", b""))?;
    bench.put("MYSETTING.DAT", b"")?;
    bench.put(OsStr::from_bytes(b"bad\xff\xfename.pdb"), b"\0\0\0\0")?;
    bench.put("-dash", b"x")?;
    std::os::unix::fs::symlink("loop", bench.dir.join("loop")).map_err(|e| e.to_string())?;
    let long = "n".repeat(5000);
    let paths: Vec<OsString> = vec![
        "missing".into(), "missing/export.pdb".into(), "export.pdb".into(), "empty".into(), "dir".into(), "dir/export.pdb".into(), ".".into(), "..".into(),
        "dir/..".into(), "/".into(), "".into(), "MYSETTING.DAT".into(), "loop".into(), "empty/x".into(), long.into(),
        OsStr::from_bytes(b"bad\xff\xfename.pdb").into(), OsStr::from_bytes(b"\xff\xfe").into(), "/dev/null".into(), "missing\nline".into(),
    ];
    for p in &paths {
        for cmd in ["dump-pdb", "dump-anlz", "dump-setting", "dump-xml", "list-playlists", "list-settings", "export-playlists"] {
            let mut a: Vec<OsString> = vec![cmd.into(), p.clone()];
            match cmd {
                "dump-pdb" if r.chance(1, 2) => a.extend(osv(&["--db-type", *r.pick(&["plain", "ext"])])),
                "dump-setting" if r.chance(1, 2) => a.extend(osv(&["--setting-type", r.pick(&TYPE_OPTS).0])),
                // Below the missing export nothing may be created.
                "export-playlists" => a.push("out".into()),
                _ => {}
            }
            let res = bench.run(o, &a)?;
            ensure!(!res.stderr.is_empty(), "{cmd} of an unusable path reports nothing :: {p:?}");
            if cmd != "list-settings" {
                ensure!(res.stdout.is_empty(), "{cmd} of an unusable path prints something :: {p:?}");
                if !matches!(cmd, "dump-pdb" | "dump-setting") {
                    ensure!(res.code != Some(0), "{cmd} of an unusable path succeeds :: {p:?}");
                }
            }
            o.ev("odd-paths", 1);
        }
    }
    o.ev("missing-files", 2);
    o.ev("directories", 4);
    // Arguments that are no options.
    for a in [
        vec!["dump-pdb"], vec![], vec!["dump-pdb", "export.pdb", "--db-type", "other"], vec!["dump-pdb", "export.pdb", "--db-type"],
        vec!["dump-setting", "MYSETTING.DAT", "--setting-type", "MYSETTING"], vec!["dump-anlz", "a", "b"], vec!["nonsense"],
        vec!["export-playlists", "x"], vec!["dump-pdb", "-dash"], vec!["--nope"], vec!["dump-pdb", "x", "--parse-unknown-tables=1"],
    ] {
        let a = osv(&a);
        if a.is_empty() {
            let res = cli::run(o.scratch, &bench.dir, &[])?;
            res.clean("no command")?;
            ensure!(res.code != Some(0), "missing command accepted");
        } else {
            let res = bench.run(o, &a)?;
            ensure!(res.code != Some(0), "unusable arguments accepted :: {a:?}");
        }
        o.ev("bad-options", 1);
    }
    for a in [vec!["--help"], vec!["--version"], vec!["dump-pdb", "--help"], vec!["help"]] {
        let res = bench.run(o, &osv(&a))?;
        res.ok("help")?;
        ensure!(!res.stdout.is_empty(), "no help");
    }
    Ok(())
}

fn settings(r: &mut Rng, o: &mut Obs) -> R {
    let ks = ms::kinds();
    let bench = Bench::new(o)?;
    let mut want: BTreeMap<&str, String> = BTreeMap::new();
    for (i, k) in ks.iter().enumerate() {
        let mut f = FileM::default(&ks, i);
        f.randomize(r, &ks);
        let mut b = f.encode();
        let state = r.below(4);
        match state {
            0 => b.truncate(r.below(b.len())),
            1 => {}
            _ => {}
        }
        if state != 1 {
            bench.put(format!("PIONEER/{}", k.file), &b)?;
        }
        for fl in &k.fields {
            want.insert(fl.listing, if state > 1 { fl.opt(f.data[fl.off]).unwrap().label.to_string() } else { "<missing>".into() });
        }
    }
    o.mark(format!("{want:?}").as_bytes());
    let res = bench.run(o, &osv(&["list-settings", "."]))?;
    res.ok("list-settings")?;
    let text = res.text();
    for (l, v) in &want {
        let line = text.lines().find(|x| x.split(':').next() == Some(l));
        ensure!(line.is_some_and(|x| x.splitn(2, ':').nth(1).unwrap_or("").trim() == v), "option listed wrongly :: {l}: {line:?} instead of {v:?}");
    }
    ensure!(text.lines().count() == want.len(), "{} lines for {} options", text.lines().count(), want.len());
    if want.values().any(|v| v == "<missing>") {
        ensure!(!res.stderr.is_empty(), "unreadable settings file not reported");
    }
    o.ev("listed:settings", 1);
    Ok(())
}

fn run(c: &mut Ctx) {
    c.case("odd arguments", odd_paths);
    for depth in [129, 1000, 6000, 20_000, 60_000] {
        c.case("deep playlists", move |r, o| deep_playlists(r, o, depth));
    }
    for i in 0..c.n(4000) {
        let damage = if i % 2 == 0 { 0 } else { 1 + i % 5 };
        c.case("dump-pdb", move |r, o| dump_pdb(r, o, damage));
        c.case("dump-anlz", move |r, o| dump_anlz(r, o, damage));
        c.case("dump-setting", move |r, o| dump_setting(r, o, damage));
        c.case("dump-xml", move |r, o| dump_xml(r, o, damage));
        c.case("list-playlists", move |r, o| list_playlists(r, o, damage));
    }
    for _ in 0..c.n(1000) {
        c.case("list-settings", settings);
    }
    // The files of the repository through every command that fits (and those that do not).
    let mut files: Vec<PathBuf> = vec![];
    let mut st = vec![super::c07::data_dir()];
    while let Some(d) = st.pop() {
        for e in fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                st.push(p);
            } else {
                files.push(p);
            }
        }
    }
    files.sort();
    for f in files {
        let Ok(b) = fs::read(&f) else { continue };
        if b.len() > 3_000_000 {
            continue;
        }
        c.case("fixture", move |_, o| {
            let bench = Bench::new(o)?;
            let name = f.file_name().unwrap().to_string_lossy().to_string();
            bench.put(&name, &b)?;
            o.input(&format!("fixture {}", f.display()), &b);
            let n = name.to_lowercase();
            for cmd in ["dump-pdb", "dump-anlz", "dump-setting", "dump-xml", "list-playlists"] {
                let res = bench.run(o, &osv(&[cmd, &name]))?;
                let fits = match cmd {
                    "dump-pdb" => n.ends_with(".pdb"),
                    "list-playlists" => name == "export.pdb",
                    "dump-anlz" => n.starts_with("anlz"),
                    "dump-setting" => n.ends_with("setting.dat") || n.ends_with("setting2.dat"),
                    _ => n.ends_with(".xml"),
                };
                if fits {
                    res.ok(cmd).map_err(|e| format!("{e} ({})", f.display()))?;
                    ensure!(!res.stdout.is_empty() || cmd == "list-playlists", "{cmd} prints nothing :: {}", f.display());
                    o.ev("fixtures", 1);
                }
            }
            Ok(())
        });
    }
}
