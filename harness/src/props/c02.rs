//! C02: arbitrary PDB bytes never crash, hang or exhaust memory.
use super::c08::fixtures;
use super::pdbutil::*;
use super::Prop;
use crate::alloc;
use crate::ensure;
use crate::fw::{no_panic, Ctx, Obs, R};
use crate::hostile::{mutate, print_len, unpair};
use crate::iomon::MonFile;
use crate::pldb;
use crate::refpdb::{self as m, gen_db, Body, DbM, GenOpts};
use crate::rng::Rng;
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use rekordcrate::util::TableIndex;
use std::io::{Read, Seek};
use std::sync::atomic::Ordering::SeqCst;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: "distinct hostile database files that were opened, walked, printed, listed and written back",
        required: &[
            "accepted", "rejected", "pages", "rows", "printed-bytes", "playlists-listed", "flushes", "page-errors",
            "every-prefix", "planted", "unpaired-surrogates", "max:peak-bytes", "max:ops-per-page", "as-other-type",
        ],
        assumptions: &[
            "memory budget per input: 64 MiB plus 768 bytes per input byte (a decoded row takes up to about 700 bytes and is announced by two stored bytes); more ends the process and counts as a violation",
            "a case that uses more than 40 s of CPU counts as a hang (ordinary cases take milliseconds)",
            "built with overflow checks and debug assertions, so that wrapped arithmetic shows as a panic",
        ],
        run,
    }
}

const MULTIPLE: i64 = 768;

fn err(what: &str, e: &rekordcrate::Error) -> R {
    no_panic(what, || print_len(e) + format!("{e}").len() as u64).map(|_| ())
}

/// Everything that can be read and printed; returns the number of pages in the file that loaded.
fn walk<T: Read + Seek>(db: &mut Database<T>, o: &mut Obs, max_pages: u32) -> Result<u64, String> {
    let mut good = 0;
    let n = no_panic("print of the header", || print_len(db.get_header()))?;
    o.ev("printed-bytes", n);
    let tables: Vec<PageType> = db.get_header().tables.iter().map(|t| t.page_type).collect();
    for (i, ty) in tables.iter().enumerate().take(300) {
        let mut steps = 0u64;
        match no_panic("iter_pages_for_table", || db.iter_pages_for_table(TableIndex::from(i)))? {
            Err(e) => err("print of an error", &e)?,
            Ok(mut it) => loop {
                steps += 1;
                ensure!(steps <= u64::from(max_pages) + 2, "endless page iteration :: table {i}");
                match no_panic("page iteration", || it.next())? {
                    Ok(None) => break,
                    Ok(Some(p)) => {
                        o.ev("pages", 1);
                        if let Some(d) = p.content.as_data() {
                            o.ev("rows", d.rows.len() as u64);
                        }
                        let n = no_panic("print of a page", || print_len(p))?;
                        o.ev("printed-bytes", n);
                    }
                    Err(e) => {
                        o.ev("page-errors", 1);
                        err("print of an error", &e)?;
                        break;
                    }
                }
            },
        }
        let r = no_panic("iter_pages", || db.iter_pages(*ty).and_then(|it| it.count()))?;
        if let Err(e) = r {
            err("print of an error", &e)?;
        }
    }
    macro_rules! rows {
        ($($t:ty),*) => {$(
            let r = no_panic("iter_rows", || -> rekordcrate::Result<u64> {
                let mut it = db.iter_rows::<$t>()?;
                let mut n = 0;
                while let Some(row) = it.next()? {
                    n += print_len(row);
                }
                Ok(n)
            })?;
            match r {
                Ok(n) => o.ev("printed-bytes", n),
                Err(e) => err("print of an error", &e)?,
            }
        )*};
    }
    rows!(
        Album, Artist, Artwork, Color, Genre, HistoryPlaylist, HistoryEntry, Key, Label, PlaylistTreeNode, PlaylistEntry,
        Track, ColumnEntry, History, Menu
    );
    let total = max_pages.min(5000);
    for p in (0..total).chain([total, total + 1, u32::MAX / 16]) {
        let Ok(ix) = PageIndex::try_from(p) else { continue };
        match no_panic("load_page", || db.load_page(ix).map(|p| p.header.page_index))? {
            Ok(_) => good += 1,
            Err(e) => err("print of an error", &e)?,
        }
    }
    match no_panic("get_playlists", || rekordcrate::device::get_playlists(db))? {
        Ok(l) => {
            o.ev("playlists-listed", l.len() as u64);
            let n = no_panic("print of playlists", || print_len(&l))?;
            o.ev("printed-bytes", n);
        }
        Err(e) => err("print of an error", &e)?,
    }
    Ok(good)
}

fn exercise(b: &[u8], ext: bool, o: &mut Obs) -> R {
    o.input(if ext { "hostile extended database" } else { "hostile plain database" }, b);
    alloc::LIMIT.store(alloc::LIVE.load(SeqCst) + (64 << 20) + MULTIPLE * b.len() as i64, SeqCst);
    let ps = if b.len() >= 8 { u32::from_le_bytes(b[4..8].try_into().unwrap()) } else { 0 };
    let max_pages = (b.len() as u64 / u64::from(ps.max(1)) + 2).min(1 << 20) as u32;
    match no_panic("open", || Database::open_non_persistent(std::io::Cursor::new(b.to_vec()), dbt(ext)))? {
        Err(e) => {
            err("print of an error", &e)?;
            o.ev("rejected", 1);
        }
        Ok(db) => {
            let f = MonFile::new(b.to_vec());
            drop(db);
            let mut db = no_panic("open", || Database::open(f.clone(), dbt(ext)))?
                .map_err(|e| format!("open for writing fails where open for reading succeeds :: {e}"))?;
            let good = walk(&mut db, o, max_pages)?;
            o.ev("max:ops-per-page", f.ops() / u64::from(max_pages));
            match no_panic("flush", || db.flush())? {
                Ok(()) => o.ev("flushes", 1),
                Err(e) => err("print of an error", &e)?,
            }
            drop(db);
            let out = f.data();
            ensure!(
                out.len() <= b.len() + ps as usize + (1 << 18),
                "saved file grows beyond its pages :: {} bytes from {}", out.len(), b.len()
            );
            // The saved file is read again (whatever it holds now).
            if good > 0 && b.len() < 100_000 {
                let mut q = o.fork();
                if let Ok(mut db) = no_panic("open", || Database::open_non_persistent(std::io::Cursor::new(out), dbt(ext)))? {
                    walk(&mut db, &mut q, max_pages + 2)?;
                }
            }
            o.ev("accepted", 1);
        }
    }
    o.ev("max:peak-bytes", (alloc::PEAK.load(SeqCst) - alloc::LIVE.load(SeqCst)).max(0) as u64);
    o.mark(b);
    Ok(())
}

fn small(r: &mut Rng, ext: bool) -> DbM {
    let o = GenOpts {
        page_size: Some(*r.pick(&[512, 640, 1024, 2048])),
        max_rows: r.range(2, 24),
        max_str: 24,
        max_pages: 3,
        ..GenOpts::default()
    };
    gen_db(r, ext, &o)
}

/// Positions of integers that steer the parser: file header, page headers, index headers, row
/// groups and row starts.
fn steering(db: &DbM) -> Vec<usize> {
    let ps = db.page_size as usize;
    let mut v: Vec<usize> = (0..28 + 16 * db.tables.len()).step_by(2).collect();
    for (i, p) in db.pages.iter().enumerate() {
        let Some(p) = p else { continue };
        let at = ps * (i + 1);
        v.extend((at..at + 0x28).step_by(1));
        match &p.body {
            Body::Index(x) => v.extend((at + 0x28..at + 0x3c + 4 * x.entries.len().min(3)).step_by(2)),
            Body::Data(d) => {
                for g in 0..d.groups() {
                    v.extend((at + ps - 36 * (g + 1)..at + ps - 36 * g).step_by(2));
                }
                for s in d.slots.iter().take(6) {
                    let o = at + m::HEAP + s.offset as usize;
                    v.extend(o..(o + s.row.size().min(160)).min(at + ps));
                }
            }
        }
    }
    v.retain(|x| x + 4 <= ps * (db.pages.len() + 1));
    v
}

/// One page of track rows that all share the same few long strings.
fn amplified(page_size: usize, rows: usize, stride: usize, opaque: bool, pages: usize) -> Vec<u8> {
    let mut f = vec![0u8; page_size];
    let put = |f: &mut Vec<u8>, at: usize, v: u32| f[at..at + 4].copy_from_slice(&v.to_le_bytes());
    let ty = if opaque { 9 } else { 0 };
    for (i, v) in [0, page_size as u32, 1, pages as u32 + 1, 0, 0, 0, ty, 0, 1, pages as u32].into_iter().enumerate() {
        put(&mut f, 4 * i, v);
    }
    for n in 1..=pages {
        let mut p = vec![0u8; page_size];
        for (i, v) in [0, n as u32, ty, n as u32 + 1].into_iter().enumerate() {
            put(&mut p, 4 * i, v);
        }
        let counts = rows as u32 | ((rows as u32) << 13);
        p[0x18..0x1b].copy_from_slice(&counts.to_le_bytes()[..3]);
        p[0x1b] = 0x24;
        for i in 0..rows {
            let at = m::HEAP + stride * i;
            if !opaque {
                p[at] = 0x24;
                p[at + 0x5c] = 3;
                let strings = if page_size > 0x20000 { 0xFF00u16 } else { (page_size / 2) as u16 };
                for k in 0..21 {
                    let o = at + 0x5e + 2 * k;
                    p[o..o + 2].copy_from_slice(&strings.to_le_bytes());
                }
                let s = at + strings as usize;
                let len = (page_size - s - rows * 3 - 80).min(65535) as u16;
                p[s] = 0x40;
                p[s + 1..s + 3].copy_from_slice(&len.to_le_bytes());
            }
            let g = page_size - 36 * (i / 16 + 1);
            let o = g + 2 * (15 - i % 16);
            p[o..o + 2].copy_from_slice(&((stride * i) as u16).to_le_bytes());
            let fl = u16::from_le_bytes([p[g + 32], p[g + 33]]) | 1 << (i % 16);
            p[g + 32..g + 34].copy_from_slice(&fl.to_le_bytes());
        }
        f.extend(p);
    }
    f
}

fn run(c: &mut Ctx) {
    for i in 0..c.n(6000) {
        c.case("mutated", move |r, o| {
            let ext = i % 4 == 0;
            let db = small(r, ext);
            let base = db.encode();
            let steer = steering(&db);
            for j in 0..6 {
                let mut b = base.clone();
                let n = 1 + r.below(4);
                if j % 2 == 0 {
                    mutate(r, &mut b, n, false);
                } else {
                    for _ in 0..n {
                        let at = *r.pick(&steer);
                        match r.below(4) {
                            0 => b[at] = r.u8_edgy(),
                            1 => b[at..at + 2].copy_from_slice(&r.u16_edgy().to_le_bytes()),
                            2 => b[at..at + 4].copy_from_slice(&r.u32_edgy().to_le_bytes()),
                            _ => b[at] ^= 1 << r.below(8),
                        }
                    }
                }
                let other = r.chance(1, 12);
                if other {
                    o.ev("as-other-type", 1);
                }
                exercise(&b, ext != other, o)?;
            }
            Ok(())
        });
    }
    // A planted value at every steering position.
    for ext in [false, true] {
        for v in [0u32, 1, 3, 0x7FFF, 0xFFFF, 0x7FFF_FFFF, 0x8000_0000, u32::MAX - 7, u32::MAX] {
            for rep in 0..c.n(8) {
                c.case("planted", move |r, o| {
                    let db = small(r, ext);
                    let base = db.encode();
                    let steer = steering(&db);
                    let step = 1 + steer.len() / 250;
                    let w = [1usize, 2, 4, 4][rep % 4];
                    for at in steer.iter().skip(r.below(step)).step_by(step) {
                        let mut b = base.clone();
                        b[*at..*at + w].copy_from_slice(&v.to_le_bytes()[..w]);
                        exercise(&b, ext, o)?;
                        o.ev("planted", 1);
                    }
                    Ok(())
                });
            }
        }
    }
    // Stored text that is not valid UTF-16, alone and many at a time.
    for i in 0..c.n(2000) {
        c.case("bad-text", move |r, o| {
            let db = small(r, i % 4 == 0);
            let mut b = db.encode();
            let every = *r.pick(&[1usize, 3, 12]);
            o.ev("unpaired-surrogates", unpair(r, &mut b, every));
            exercise(&b, db.ext, o)
        });
    }
    for i in 0..c.n(24) {
        c.case("prefix", move |r, o| {
            let db = small(r, i % 3 == 0);
            let base = db.encode();
            let step = 1 + base.len() / 1500;
            for n in (0..base.len()).step_by(step) {
                exercise(&base[..n], db.ext, o)?;
                o.ev("every-prefix", 1);
            }
            Ok(())
        });
    }
    // Hostile playlist tables.
    for _ in 0..c.n(300) {
        c.case("playlists", move |r, o| {
            let n = r.range(1, 60);
            let mut nodes = pldb::tree(r, n, 12, |r| pldb::name(r));
            for x in nodes.iter_mut() {
                match r.below(6) {
                    0 => x.parent = r.below(n + 2) as u32,
                    1 => x.id = r.below(n + 2) as u32,
                    2 => x.parent = x.id,
                    _ => {}
                }
            }
            let db = pldb::PlDb { nodes, ..pldb::PlDb::default() }.build(r);
            let mut b = db.encode();
            match r.below(3) {
                0 => mutate(r, &mut b, 2, false),
                1 => o.ev("unpaired-surrogates", unpair(r, &mut b, 4)),
                _ => {}
            }
            exercise(&b, false, o)
        });
    }
    for depth in [100usize, 130, 2000, 20_000] {
        c.case("deep-playlists", move |r, o| {
            let nodes = (0..depth)
                .map(|i| pldb::Node { parent: i as u32, id: i as u32 + 1, folder: 1, name: "x".into() })
                .collect();
            let b = pldb::PlDb { nodes, ..pldb::PlDb::default() }.build(r).encode();
            exercise(&b, false, o)
        });
    }
    for _ in 0..c.n(1500) {
        c.case("random", move |r, o| {
            let mut b = r.some_bytes(0, 3000);
            if r.chance(4, 5) && b.len() > 900 {
                let ps = *r.pick(&[80u32, 96, 128, 200, 256]);
                for (i, v) in [0, ps, 1 + r.below(3) as u32, r.below(20) as u32, 0, 0, 0].into_iter().enumerate() {
                    b[4 * i..4 * i + 4].copy_from_slice(&v.to_le_bytes());
                }
                for t in 0..3 {
                    for (i, v) in [r.below(20) as u32, 0, 1 + r.below(4) as u32, r.below(9) as u32].into_iter().enumerate() {
                        b[28 + 16 * t + 4 * i..32 + 16 * t + 4 * i].copy_from_slice(&v.to_le_bytes());
                    }
                }
                for p in 1..b.len() / ps as usize {
                    let at = p * ps as usize;
                    for (i, v) in [0, p as u32, r.below(20) as u32, p as u32 + r.below(3) as u32].into_iter().enumerate() {
                        b[at + 4 * i..at + 4 * i + 4].copy_from_slice(&v.to_le_bytes());
                    }
                    if r.chance(1, 2) {
                        b[at + 0x18..at + 0x1c].copy_from_slice(&[r.below(5) as u8, 0x20 * r.below(5) as u8, 0, 0x24]);
                    }
                }
            }
            let ext = r.chance(1, 3);
            exercise(&b, ext, o)
        });
    }
    // Large inputs made of the smallest pieces, and pages that refer to the same bytes many times:
    // time and memory must stay proportional to the input.
    for k in 0..9usize {
        c.case("large", move |r, o| {
            let b = match k {
                0 => amplified(0x40000, 450, 140, false, 1),
                1 => amplified(0x8000, 110, 140, false, 16),
                2 => amplified(0x1000, 12, 140, false, 200),
                3 => amplified(0x1000, 1600, 2, true, 200),
                4 => amplified(0x1280, 2047, 1, true, 100),
                5 => {
                    // As many tiny pages as possible.
                    let mut b = vec![0u8; 1 << 20];
                    let n = (1u32 << 20) / 80;
                    for (i, v) in [0, 80, 1, n, 0, 0, 0, 0, 0, 1, n - 1].into_iter().enumerate() {
                        b[4 * i..4 * i + 4].copy_from_slice(&v.to_le_bytes());
                    }
                    for p in 1..n {
                        let at = 80 * p as usize;
                        for (i, v) in [0, p, 0, p + 1].into_iter().enumerate() {
                            b[at + 4 * i..at + 4 * i + 4].copy_from_slice(&v.to_le_bytes());
                        }
                        b[at + 0x1b] = 0x24;
                    }
                    b
                }
                6 => {
                    // Many tables, all with the same pages.
                    let mut b = amplified(0x1000, 12, 140, false, 20);
                    let n = (0x1000u32 - 28) / 16;
                    b[8..12].copy_from_slice(&n.to_le_bytes());
                    let t = b[28..44].to_vec();
                    for i in 0..n as usize {
                        b[28 + 16 * i..44 + 16 * i].copy_from_slice(&t);
                    }
                    b
                }
                7 => {
                    // Index pages full of entries.
                    let mut b = amplified(0x1000, 0, 1, false, 200);
                    for p in 1..=200 {
                        let at = 0x1000 * p;
                        b[at + 0x1b] = 0x64;
                        b[at + 0x24..at + 0x26].copy_from_slice(&[0xec, 3]);
                        b[at + 0x30..at + 0x38].copy_from_slice(&0x03ff_ffffu64.to_le_bytes());
                        b[at + 0x38..at + 0x3a].copy_from_slice(&[0xe8, 3]);
                    }
                    b
                }
                _ => {
                    let db = gen_db(r, false, &GenOpts { page_size: Some(8192), max_rows: 4000, max_pages: 60, ..GenOpts::default() });
                    db.encode()
                }
            };
            exercise(&b, false, o)
        });
    }
    for f in fixtures() {
        for _ in 0..c.n(12) {
            let f = f.clone();
            c.case("fixture-mutated", move |r, o| {
                let mut b = std::fs::read(&f).map_err(|e| e.to_string())?;
                let n = 1 + r.below(5);
                mutate(r, &mut b, n, false);
                let other = r.chance(1, 10);
                exercise(&b, f.to_string_lossy().contains("Ext") != other, o)
            });
        }
    }
}
