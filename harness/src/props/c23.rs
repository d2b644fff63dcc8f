//! C23: answers depend only on the stored data.
use super::pdbutil::*;
use super::Prop;
use crate::cli;
use crate::fw::{no_panic, Ctx, Obs, R};
use crate::hostile;
use crate::pldb::{self, PlDb};
use crate::refanlz as ma;
use crate::refpdb as m;
use crate::refsetting as ms;
use crate::refxml;
use crate::rng::Rng;
use crate::{bail, ensure};
use fallible_iterator::FallibleIterator;
use rekordcrate::device::{get_playlists, DeviceExportLoader};
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use rekordcrate::util::TableIndex;
use std::collections::BTreeMap;
use std::fs;
use std::io::Cursor;
use std::path::{Path, PathBuf};

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        level: "exploration",
        rule: "distinct questions to databases and distinct command runs whose answers were compared with those of a fresh handle or of other runs",
        required: &[
            "asked:page", "asked:table", "asked:type", "asked:rows", "asked:playlists", "asked:header", "asked:missing", "asked:again", "abandoned",
            "damaged", "healthy", "edited-other-page", "command:dump-pdb", "command:dump-anlz", "command:dump-setting", "command:dump-xml",
            "command:list-playlists", "command:list-settings", "command:export-playlists", "environments", "directories", "exported-files",
            "same-names", "loaders", "documents", "history:read", "history:refused", "shared-ids", "messages",
        ],
        assumptions: &[
            "messages of errors are not compared, only that the same questions fail",
            "exported playlists hold the absolute path of the export, which is replaced before the comparison",
        ],
        run,
    }
}

type Db = Database<Cursor<Vec<u8>>>;

/// Questions to a database handle.
#[derive(Clone, Debug, PartialEq)]
enum Q {
    Page(u32),
    Table(usize),
    Type(u32),
    Rows(u8),
    Playlists,
    Header,
}

fn dbg(x: &impl std::fmt::Debug) -> Result<String, String> {
    no_panic("print", || format!("{x:?}"))
}

/// The answer; at most `limit` items of it are asked for.
fn ask(db: &mut Db, ext: bool, q: &Q, limit: usize) -> Result<Vec<String>, String> {
    let mut v = vec![];
    macro_rules! pages {
        ($it:expr) => {
            match no_panic("find table", || $it.map_err(drop))? {
                Err(()) => v.push("refused".into()),
                Ok(mut it) => {
                    for _ in 0..limit {
                        match no_panic("page iteration", || it.next().map(|p| p.map(|p| p.clone())).map_err(drop))? {
                            Ok(Some(p)) => v.push(dbg(&p)?),
                            Ok(None) => {
                                v.push("end".into());
                                break;
                            }
                            Err(()) => v.push("error".into()),
                        }
                    }
                }
            }
        };
    }
    macro_rules! rows {
        ($t:ty) => {
            match no_panic("iter_rows", || db.iter_rows::<$t>().map_err(drop))? {
                Err(()) => v.push("refused".into()),
                Ok(mut it) => {
                    for _ in 0..limit {
                        match no_panic("row iteration", || it.next().map(|p| p.map(|p| format!("{p:?}"))).map_err(drop))? {
                            Ok(Some(p)) => v.push(p),
                            Ok(None) => {
                                v.push("end".into());
                                break;
                            }
                            Err(()) => v.push("error".into()),
                        }
                    }
                }
            }
        };
    }
    match q {
        Q::Page(n) => match no_panic("load", || db.load_page(pidx(*n)).map(|p| p.clone()).map_err(drop))? {
            Ok(p) => v.push(dbg(&p)?),
            Err(()) => v.push("error".into()),
        },
        Q::Table(i) => pages!(db.iter_pages_for_table(TableIndex::from(*i))),
        Q::Type(t) => pages!(db.iter_pages(ptype(ext, *t))),
        Q::Rows(0) => rows!(Track),
        Q::Rows(1) => rows!(PlaylistTreeNode),
        Q::Rows(2) => rows!(PlaylistEntry),
        Q::Rows(3) => rows!(Artist),
        Q::Rows(4) => rows!(Genre),
        Q::Rows(5) => rows!(Menu),
        Q::Rows(6) => rows!(Key),
        Q::Rows(7) => rows!(Label),
        Q::Rows(_) => rows!(Album),
        Q::Playlists => match no_panic("get_playlists", || get_playlists(db).map_err(drop))? {
            Ok(p) => v.push(dbg(&p)?),
            Err(()) => v.push("error".into()),
        },
        Q::Header => v.push(dbg(db.get_header())?),
    }
    Ok(v)
}

fn open(b: &[u8], ext: bool) -> Result<Option<Db>, String> {
    no_panic("open", || Database::open_non_persistent(Cursor::new(b.to_vec()), dbt(ext)).ok())
}

const ALL: usize = 400;

/// One handle is asked many questions; each answer is compared with a fresh handle's.
fn handle(r: &mut Rng, o: &mut Obs, damaged: bool) -> R {
    let playlists = r.chance(1, 2);
    let ext = !playlists && r.chance(1, 3);
    let want = if playlists {
        let n = r.below(12);
        let mut p = PlDb { nodes: pldb::tree(r, n, 4, pldb::name), ..PlDb::default() };
        p.add_content(r, |_, id| format!("/c/t{id}.mp3"));
        p.build(r)
    } else {
        m::gen_db(r, ext, &m::GenOpts { max_rows: 25, max_str: 30, ..Default::default() })
    };
    let mut b = want.encode();
    if damaged {
        let n = r.range(1, 6);
        hostile::mutate(r, &mut b, n, false);
    }
    o.input("PDB file", &b);
    let Some(mut db) = open(&b, ext)? else {
        ensure!(open(&b, ext)?.is_none(), "a file is refused at first and accepted then");
        return Ok(());
    };
    o.ev(if damaged { "damaged" } else { "healthy" }, 1);
    let pages = want.pages.len() as u32 + 1;
    let mut known: Vec<(Q, Vec<String>)> = vec![];
    let mut hist = vec![];
    for i in 0..r.range(4, 14) {
        let q = match r.below(8) {
            0 | 1 => Q::Page(if r.chance(1, 5) { *r.pick(&[0, pages, pages + 1, 0x03ff_fffe]) } else { r.below(pages as usize) as u32 }),
            2 => Q::Table(r.below(want.tables.len() + 1)),
            3 => Q::Type(match want.tables.is_empty() || r.chance(1, 6) {
                true => r.below(20) as u32,
                false => r.pick(&want.tables).ty,
            }),
            4 | 5 => Q::Rows(r.below(9) as u8),
            6 => Q::Playlists,
            _ => Q::Header,
        };
        // Not always to the end.
        let limit = if r.chance(1, 3) { r.below(3) } else { ALL };
        hist.push((q.clone(), limit));
        let full = match known.iter().find(|k| k.0 == q) {
            Some(k) => {
                o.ev("asked:again", 1);
                k.1.clone()
            }
            None => {
                let Some(mut fresh) = open(&b, ext)? else { bail!("a file is accepted at first and refused then") };
                let a = ask(&mut fresh, ext, &q, ALL)?;
                known.push((q.clone(), a.clone()));
                a
            }
        };
        let got = ask(&mut db, ext, &q, limit)?;
        let single = matches!(q, Q::Page(_) | Q::Playlists | Q::Header) || full == ["refused"];
        let cut = if single { full.len() } else { limit.min(full.len()) };
        ensure!(
            got[..] == full[..cut],
            "answer depends on earlier questions :: question {i} of {hist:?}: {} instead of {}",
            got.iter().zip(&full).find(|(x, y)| x != y).map(|x| x.0.clone()).unwrap_or_else(|| format!("{} items", got.len())),
            got.iter().zip(&full).find(|(x, y)| x != y).map(|x| x.1.clone()).unwrap_or_else(|| format!("{cut}"))
        );
        if cut < full.len() {
            o.ev("abandoned", 1);
        }
        let name = match &q {
            Q::Page(_) if full == ["error"] => "asked:missing",
            Q::Page(_) => "asked:page",
            Q::Table(_) => "asked:table",
            Q::Type(_) => "asked:type",
            Q::Rows(_) => "asked:rows",
            Q::Playlists => "asked:playlists",
            Q::Header => "asked:header",
        };
        o.ev(name, 1);
        o.mark(format!("{:?} {:?}", &hist, m::SStr::new(&known[0].1.concat()).text.len()).as_bytes());
    }
    Ok(())
}

/// Changing one page in memory changes no answer about another.
fn other_page(r: &mut Rng, o: &mut Obs) -> R {
    let ext = r.chance(1, 3);
    let want = m::gen_db(r, ext, &m::GenOpts { max_rows: 25, max_str: 30, ..Default::default() });
    let b = want.encode();
    o.input("PDB file", &b);
    let used: Vec<u32> = want.tables.iter().flat_map(|t| t.pages.clone()).collect();
    if used.len() < 2 {
        return Ok(());
    }
    let Some(mut db) = open(&b, ext)? else { bail!("well-formed file refused") };
    let victim = *r.pick(&used);
    let p = db.load_page(pidx(victim)).map_err(|e| format!("page refused :: {e}"))?;
    p.header.unknown1 ^= 0x5555;
    if let PageContent::Data(d) = &mut p.content {
        d.rows.clear();
        d.row_groups.clear();
    }
    for n in used {
        if n == victim {
            continue;
        }
        let a = ask(&mut db, ext, &Q::Page(n), ALL)?;
        let Some(mut fresh) = open(&b, ext)? else { bail!("well-formed file refused") };
        ensure!(a == ask(&mut fresh, ext, &Q::Page(n), ALL)?, "editing page {victim} changes page {n}");
        o.ev("edited-other-page", 1);
    }
    o.mark(&b);
    Ok(())
}

fn canon(files: BTreeMap<PathBuf, Option<Vec<u8>>>, root: &Path, export: &Path) -> BTreeMap<PathBuf, Option<String>> {
    let e = export.to_string_lossy().to_string();
    files
        .into_iter()
        .map(|(p, c)| (p.strip_prefix(root).unwrap_or(&p).to_path_buf(), c.map(|c| String::from_utf8_lossy(&c).replace(&e, "<export>"))))
        .collect()
}

/// The same input in different directories, environments and processes.
fn commands(r: &mut Rng, o: &mut Obs) -> R {
    let root = o.scratch.join("same");
    let _ = fs::remove_dir_all(&root);
    let res = commands_in(&root, r, o);
    let _ = fs::remove_dir_all(&root);
    res
}

fn commands_in(root: &Path, r: &mut Rng, o: &mut Obs) -> R {
    let io = |e: std::io::Error| format!("monitor: {e}");
    let ks = ms::kinds();
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    for (i, k) in ks.iter().enumerate() {
        if r.chance(4, 5) {
            let mut f = ms::FileM::default(&ks, i);
            f.randomize(r, &ks);
            let mut b = f.encode();
            if r.chance(1, 8) {
                b.truncate(r.below(b.len()));
            }
            files.push((format!("e/PIONEER/{}", k.file), b));
        }
    }
    let n = r.below(30);
    let mut p = PlDb {
        nodes: pldb::tree(r, n, 4, |r| (*r.pick(&["a", "a", "b", "a.m3u", "a (2)", "A", "x/y", "x_y", "", "Mix", "日本"])).to_string()),
        ..PlDb::default()
    };
    let mut seen = std::collections::HashSet::new();
    o.ev("same-names", p.nodes.iter().filter(|n| !seen.insert((n.parent, n.name.clone()))).count() as u64);
    p.add_content(r, |_, id| format!("/Contents/t{id}.mp3"));
    if r.chance(1, 6) && p.nodes.len() > 1 {
        let (i, j) = (r.below(p.nodes.len()), r.below(p.nodes.len()));
        p.nodes[i].id = p.nodes[j].id;
    }
    if r.chance(1, 6) && !p.nodes.is_empty() {
        // Many nodes, entries and tracks that share their ids.
        for i in 0..p.nodes.len() {
            if r.chance(1, 2) {
                p.nodes[i].id = 1 + r.below(6) as u32;
            }
        }
        for t in &mut p.tracks {
            if r.chance(1, 2) {
                t.id = 1 + r.below(6) as u32;
            }
        }
        o.ev("shared-ids", 1);
    }
    let mut pb = p.build(r).encode();
    if r.chance(1, 6) {
        hostile::mutate(r, &mut pb, 2, false);
    }
    files.push(("e/PIONEER/rekordbox/export.pdb".into(), pb));
    files.push(("e/PIONEER/rekordbox/exportExt.pdb".into(), m::gen_db(r, true, &m::GenOpts { max_rows: 20, ..Default::default() }).encode()));
    let mut a = ma::gen_file(r, 8, 20).encode();
    if r.chance(1, 6) {
        hostile::mutate(r, &mut a, 2, true);
    }
    files.push(("ANLZ0000.DAT".into(), a));
    let d = refxml::Gen { wsc: false, max: 4, depth: 2 }.doc(r);
    files.push(("rekordbox.xml".into(), quick_xml::se::to_string(&d).map_err(|e| e.to_string())?.into_bytes()));
    let ext_first = r.chance(1, 2);
    let mut cmds: Vec<Vec<String>> = vec![
        vec!["dump-pdb".into(), "e/PIONEER/rekordbox/export.pdb".into()],
        vec!["dump-pdb".into(), "e/PIONEER/rekordbox/exportExt.pdb".into()],
        vec!["dump-anlz".into(), "ANLZ0000.DAT".into()],
        vec!["dump-xml".into(), "rekordbox.xml".into()],
        vec!["list-playlists".into(), "e/PIONEER/rekordbox/export.pdb".into()],
        vec!["list-settings".into(), "e".into()],
        vec!["export-playlists".into(), "e".into(), "out".into()],
    ];
    if ext_first {
        cmds.reverse();
    }
    for (f, _) in files.iter().filter(|f| f.0.ends_with("SETTING.DAT") || f.0.ends_with("SETTING2.DAT")) {
        cmds.push(vec!["dump-setting".into(), f.clone()]);
    }
    let envs: [&[(&str, &str)]; 4] = [
        &[("LC_ALL", "C.UTF-8")],
        &[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Kathmandu"), ("HOME", "/nonexistent"), ("TERM", "dumb"), ("NO_COLOR", "1"), ("PWD", "/nonexistent")],
        &[("LC_ALL", "C"), ("COLUMNS", "20"), ("CLICOLOR_FORCE", "1"), ("TERM", "xterm-256color"), ("USER", "dj"), ("TMPDIR", "/nonexistent"), ("PWD", "/"), ("XDG_CONFIG_HOME", "/nonexistent"), ("RUST_BACKTRACE", "1"), ("RUST_LOG", "trace")],
        &[],
    ];
    let dirs = ["one", "another/one below"];
    let mut first: Vec<Option<(Option<i32>, String, BTreeMap<PathBuf, Option<String>>, String)>> = vec![None; cmds.len()];
    for (i, dir) in dirs.iter().enumerate() {
        let d = root.join(dir);
        // Created in another order, so that listing the directory yields another order.
        let mut order: Vec<usize> = (0..files.len()).collect();
        if i > 0 {
            order.reverse();
        }
        for j in order {
            let f = d.join(&files[j].0);
            fs::create_dir_all(f.parent().unwrap()).and_then(|()| fs::write(&f, &files[j].1)).map_err(io)?;
        }
        let here = fs::canonicalize(&d).map_err(io)?;
        o.ev("directories", 1);
        for (c, first) in cmds.iter().zip(&mut first) {
            let env = envs[(i + 2 * r.below(2)) % 4];
            o.ev("environments", 1);
            let args: Vec<&str> = c.iter().map(String::as_str).collect();
            let res = cli::run_env(o.scratch, &here, &cli::args(&args), env)?;
            res.clean(&c[0])?;
            let made = canon(cli::snapshot(&here.join("out")), &here, &here.join("e"));
            if c[0] == "export-playlists" {
                o.ev("exported-files", made.len() as u64);
                fs::remove_dir_all(here.join("out")).ok();
            }
            let got = (res.code, res.text(), made, String::from_utf8_lossy(&res.stderr).replace(here.to_str().unwrap_or("?"), "HERE"));
            match first {
                None => *first = Some(got),
                Some(f) => {
                    ensure!(f.0 == got.0, "{} ends differently on the same input :: {:?} and {:?}", c[0], f.0, got.0);
                    ensure!(f.1 == got.1, "{} prints something else for the same input :: {}", c[0],
                        f.1.lines().zip(got.1.lines()).find(|x| x.0 != x.1).map(|x| format!("{} and {}", x.0, x.1)).unwrap_or_default());
                    ensure!(f.2 == got.2, "{} writes something else for the same input :: {}", c[0],
                        f.2.iter().zip(&got.2).find(|x| x.0 != x.1).map(|x| format!("{:?} and {:?}", x.0, x.1)).unwrap_or_default());
                    ensure!(f.3 == got.3, "{} reports something else for the same input :: {:?} and {:?}", c[0], f.3, got.3);
                    o.ev("messages", u64::from(!got.3.is_empty()));
                    o.ev(&format!("command:{}", c[0]), 1);
                    o.mark(format!("{c:?} {}", got.1).as_bytes());
                }
            }
        }
        // The library's loader: the same each time.
        let l = DeviceExportLoader::new(here.join("e"));
        let (x, y) = (no_panic("load", || l.load_settings())?, no_panic("load", || l.load_settings())?);
        ensure!(dbg(&x)? == dbg(&y)? && x.to_string() == y.to_string(), "settings load differently the second time");
        o.ev("loaders", 1);
    }
    Ok(())
}

fn documents(r: &mut Rng, o: &mut Obs) -> R {
    let d = refxml::Gen { wsc: false, max: 4, depth: 3 }.doc(r);
    let s = quick_xml::se::to_string(&d).map_err(|e| e.to_string())?;
    o.input("XML document", s.as_bytes());
    let x: rekordcrate::xml::Document = quick_xml::de::from_str(&s).map_err(|e| format!("document refused :: {e}"))?;
    for _ in 0..3 {
        let y: rekordcrate::xml::Document = quick_xml::de::from_str(&s).map_err(|e| format!("document refused the second time :: {e}"))?;
        ensure!(x == y, "document reads differently the second time");
        ensure!(quick_xml::se::to_string(&y).map_err(|e| e.to_string())? == s, "document is written differently the second time");
        o.ev("documents", 1);
    }
    o.mark(s.as_bytes());
    Ok(())
}

/// Input to one of the parsers that take all of a file at once.
#[derive(Clone)]
enum Doc {
    Xml(Vec<u8>),
    Anlz(Vec<u8>),
    Setting(usize, Vec<u8>),
    Pdb(bool, Vec<u8>),
    Text(String),
}

/// What the library makes of the input: the printed value and the bytes written from it, or nothing.
fn read_doc(d: &Doc) -> Result<Option<(String, Vec<u8>)>, String> {
    use binrw::{BinRead, BinWrite};
    no_panic("read a document", || match d {
        Doc::Xml(b) => {
            let x: rekordcrate::xml::Document = quick_xml::de::from_reader(&b[..]).ok()?;
            Some((format!("{x:?}"), quick_xml::se::to_string(&x).unwrap_or_default().into_bytes()))
        }
        Doc::Anlz(b) => {
            let x = rekordcrate::anlz::ANLZ::read(&mut Cursor::new(b)).ok()?;
            let mut w = Cursor::new(vec![]);
            x.write(&mut w).ok();
            Some((format!("{x:?}"), w.into_inner()))
        }
        Doc::Setting(t, b) => {
            use rekordcrate::setting::{Setting, SettingType as T};
            let t = [T::DevSetting, T::DJMMySetting, T::MySetting, T::MySetting2][*t];
            let x = Setting::read_args(&mut Cursor::new(b), (t,)).ok()?;
            let mut w = Cursor::new(vec![]);
            x.write(&mut w).ok();
            Some((format!("{x:?}"), w.into_inner()))
        }
        Doc::Pdb(ext, b) => {
            let mut db = Database::open_non_persistent(Cursor::new(b.clone()), dbt(*ext)).ok()?;
            let tree = get_playlists(&mut db).map_err(drop);
            Some((format!("{tree:?} {:?}", db.get_header()), vec![]))
        }
        Doc::Text(t) => {
            let x = rekordcrate::pdb::string::DeviceSQLString::new(t).ok()?;
            let mut w = Cursor::new(vec![]);
            x.write(&mut w).ok();
            Some((format!("{x:?}"), w.into_inner()))
        }
    })
}

fn nested_xml(depth: usize, broken: bool) -> Vec<u8> {
    let mut s = String::from(r#"<DJ_PLAYLISTS Version="1.0.0"><PRODUCT Name="a" Version="b" Company="c"/><COLLECTION Entries="0"/><PLAYLISTS><NODE Type="0" Name="ROOT" Count="1">"#);
    for _ in 0..depth {
        s.push_str(r#"<NODE Type="0" Name="n" Count="1">"#);
    }
    if broken {
        s.push_str(r#"<NODE Type="7" Name="n" Count="1"></NODE>"#);
    }
    s.push_str(&"</NODE>".repeat(depth));
    s.push_str("</NODE></PLAYLISTS></DJ_PLAYLISTS>");
    s.into_bytes()
}

fn gen_doc(r: &mut Rng) -> Doc {
    match r.below(8) {
        0 | 1 => {
            // Around the depth that is still accepted, and well beyond.
            let d = *r.pick(&[1usize, 90, 126, 127, 128, 129, 130, 200]);
            Doc::Xml(nested_xml(d, r.chance(1, 4)))
        }
        2 => {
            let d = refxml::Gen { wsc: false, max: 3, depth: 3 }.doc(r);
            let mut b = quick_xml::se::to_string(&d).unwrap_or_default().into_bytes();
            if r.chance(1, 2) {
                hostile::mutate(r, &mut b, 2, false);
            }
            Doc::Xml(b)
        }
        3 | 4 => {
            let mut b = ma::gen_file(r, 4, 20).encode();
            if r.chance(1, 2) {
                hostile::mutate(r, &mut b, 2, true);
            }
            Doc::Anlz(b)
        }
        5 => {
            let ks = ms::kinds();
            let k = r.below(4);
            let mut f = ms::FileM::default(&ks, k);
            f.randomize(r, &ks);
            let mut b = f.encode();
            if r.chance(1, 2) {
                hostile::mutate(r, &mut b, 2, false);
            }
            Doc::Setting(k, b)
        }
        6 => {
            let mut b = m::gen_db(r, false, &m::GenOpts { page_size: Some(1024), max_rows: 6, max_str: 12, max_pages: 2, ..Default::default() }).encode();
            if r.chance(1, 2) {
                hostile::mutate(r, &mut b, 3, false);
            }
            Doc::Pdb(false, b)
        }
        _ => Doc::Text(refxml::text(r, true).repeat(r.range(1, 20))),
    }
}

/// Whatever was read before on the same thread, well-formed or not, a document reads the same.
fn history(r: &mut Rng, o: &mut Obs) -> R {
    let docs: Vec<Doc> = (0..8).map(|_| gen_doc(r)).collect();
    let mut fresh = vec![];
    for d in &docs {
        let d = d.clone();
        let t = std::thread::Builder::new().stack_size(16 << 20).spawn(move || read_doc(&d)).map_err(|e| e.to_string())?;
        fresh.push(t.join().map_err(|_| "reader died".to_string())??);
    }
    let order: Vec<usize> = (0..40).map(|_| r.below(docs.len())).collect();
    let t = {
        let (docs, order) = (docs.clone(), order.clone());
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || order.iter().map(|i| read_doc(&docs[*i])).collect::<Result<Vec<_>, String>>())
            .map_err(|e| e.to_string())?
    };
    let got = t.join().map_err(|_| "reader died".to_string())??;
    for (k, (i, g)) in order.iter().zip(&got).enumerate() {
        if *g != fresh[*i] {
            let kind = match &docs[*i] {
                Doc::Xml(b) => {
                    o.input("XML document", b);
                    "XML document"
                }
                Doc::Anlz(_) => "analysis file",
                Doc::Setting(..) => "settings file",
                Doc::Pdb(..) => "database",
                Doc::Text(_) => "text",
            };
            bail!("{kind} reads differently after other documents :: as number {k} of the history: {} instead of {}", g.is_some(), fresh[*i].is_some());
        }
        o.ev(if g.is_some() { "history:read" } else { "history:refused" }, 1);
    }
    o.mark(format!("{order:?}{}", fresh.iter().flatten().map(|f| f.0.len()).sum::<usize>()).as_bytes());
    Ok(())
}

fn run(c: &mut Ctx) {
    for i in 0..c.n(900) {
        c.case("handle", move |r, o| handle(r, o, i % 3 == 2));
        c.case("other page", other_page);
        if i % 4 == 0 {
            c.case("commands", commands);
            c.case("documents", documents);
            c.case("history", history);
        }
    }
}
