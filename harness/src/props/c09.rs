//! C09: saving an unmodified database changes no byte.
use super::pdbutil::*;
use super::Prop;
use crate::fw::{first_diff, no_panic, Ctx, Obs, R};
use crate::iomon::MonFile;
use crate::refpdb::{self as m, gen_db, DbM, GenOpts};
use crate::rng::Rng;
use crate::{bail, ensure};
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use rekordcrate::util::TableIndex;
use std::io::{Read, Seek, Write};

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        level: "exploration",
        rule: "distinct (file, loading history) pairs saved at least once and compared byte by byte",
        required: &[
            "slots-in-large-index",
            "saves", "saves:nothing-loaded", "saves:all-loaded", "saves:some-loaded", "non-persistent", "closes",
            "real-files", "writes-seen", "fixtures",
        ],
        assumptions: &[
            "well-formed files as produced by the independent encoder (deleted rows, heap gaps, unreferenced pages and stale bytes included) and the repository's fixture files",
        ],
        run,
    }
}

/// Load pages in some order and way; returns how many distinct pages were loaded.
pub fn load_some<T: Read + Seek>(db: &mut Database<T>, want: &DbM, r: &mut Rng, hist: &mut Vec<u8>) -> Result<usize, String> {
    let mut loaded = std::collections::BTreeSet::new();
    let steps = match r.below(5) {
        0 => 0,
        1 => 1,
        _ => r.range(1, 12),
    };
    for _ in 0..steps {
        let w = r.below(6) as u8;
        hist.push(w);
        match w {
            0 | 1 => {
                let real: Vec<u32> = want.pages.iter().flatten().map(|p| p.index).collect();
                let n = *r.pick(&real);
                hist.extend_from_slice(&n.to_le_bytes());
                let p = no_panic("load_page", || db.load_page(pidx(n)).map(|p| p.header.page_index))?
                    .map_err(|e| format!("page of a well-formed file refused :: {e}"))?;
                ensure!(p == pidx(n), "load_page({n}) returns {p:?}");
                loaded.insert(n);
            }
            2 => {
                let t = r.below(want.tables.len());
                let k = r.below(want.tables[t].pages.len() + 1);
                hist.extend_from_slice(&[t as u8, k as u8]);
                let mut it = db.iter_pages_for_table(TableIndex::from(t)).map_err(|e| format!("table :: {e}"))?;
                for i in 0..k {
                    let p = it.next().map_err(|e| format!("page of a well-formed file refused :: {e}"))?;
                    ensure!(p.is_some(), "table ends early");
                    loaded.insert(want.tables[t].pages[i]);
                }
            }
            3 => {
                let t = r.below(want.tables.len());
                hist.push(t as u8);
                let ty = want.tables[t].ty;
                if want.tables.iter().filter(|x| x.ty == ty).count() == 1 {
                    let n = db
                        .iter_pages(ptype(want.ext, ty))
                        .and_then(|i| i.count())
                        .map_err(|e| format!("page of a well-formed file refused :: {e}"))?;
                    ensure!(n == want.tables[t].pages.len(), "iter_pages visits {n} pages");
                    loaded.extend(want.tables[t].pages.iter());
                }
            }
            4 => {
                // typed rows, partially consumed
                let n = r.below(6);
                hist.push(n as u8);
                macro_rules! rows {
                    ($t:ty) => {
                        if let Ok(mut it) = db.iter_rows::<$t>() {
                            for _ in 0..n {
                                let _ = it.next().map_err(|e| format!("page of a well-formed file refused :: {e}"))?;
                            }
                        }
                    };
                }
                match r.below(4) {
                    0 => rows!(Track),
                    1 => rows!(PlaylistEntry),
                    2 => rows!(Artist),
                    _ => rows!(Menu),
                }
                loaded.insert(0);
            }
            _ => {
                check_db(db, want)?;
                for t in &want.tables {
                    loaded.extend(t.pages.iter());
                }
            }
        }
    }
    loaded.remove(&0);
    Ok(loaded.len())
}

fn saved<T: Read + Write + Seek>(db: &mut Database<T>) -> R {
    no_panic("flush", || db.flush())?.map_err(|e| format!("saving an unmodified database fails :: {e}"))
}

fn classify(o: &mut Obs, n: usize, want: &DbM) {
    let total: usize = want.tables.iter().map(|t| t.pages.len()).sum();
    o.ev("saves", 1);
    o.ev(
        if n == 0 {
            "saves:nothing-loaded"
        } else if n >= total {
            "saves:all-loaded"
        } else {
            "saves:some-loaded"
        },
        1,
    );
}

fn mem(want: &DbM, r: &mut Rng, o: &mut Obs) -> R {
    let f = want.encode();
    o.input("PDB file", &f);
    let io = MonFile::new(f.clone());
    let mut hist = vec![];
    let mut db = no_panic("open", || Database::open(io.clone(), dbt(want.ext)))?
        .map_err(|e| format!("well-formed file refused :: {e}"))?;
    let rounds = 1 + r.below(3);
    let mut all = 0;
    for _ in 0..rounds {
        let n = load_some(&mut db, want, r, &mut hist)?;
        all = all.max(n);
        saved(&mut db)?;
        hist.push(0xff);
        if let Some(d) = first_diff(&f, &io.data()) {
            bail!("saving an unmodified database changed the file :: {d}");
        }
        classify(o, all, want);
    }
    if r.chance(1, 2) {
        no_panic("close", || db.close())?.map_err(|e| format!("closing fails :: {e}"))?;
        o.ev("closes", 1);
    } else {
        drop(db);
    }
    if let Some(d) = first_diff(&f, &io.data()) {
        bail!("closing an unmodified database changed the file :: {d}");
    }
    o.ev("writes-seen", io.st.borrow().writes);
    hist.extend_from_slice(&f);
    o.mark(&hist);
    o.sample(format!("{} pages, {rounds} saves, {} pages loaded, {} writes", want.pages.len(), all, io.st.borrow().writes));
    Ok(())
}

fn non_persistent(want: &DbM, r: &mut Rng, o: &mut Obs) -> R {
    let f = want.encode();
    o.input("PDB file", &f);
    let io = MonFile::new(f.clone());
    {
        let mut db = no_panic("open", || Database::open_non_persistent(io.clone(), dbt(want.ext)))?
            .map_err(|e| format!("well-formed file refused :: {e}"))?;
        let mut hist = vec![];
        load_some(&mut db, want, r, &mut hist)?;
        // Modify in memory.
        db.get_header_mut().unknown ^= 1;
        db.get_header_mut().sequence = db.get_header_mut().sequence.wrapping_add(1);
        for p in want.pages.iter().flatten() {
            let pg = db.load_page(pidx(p.index)).map_err(|e| format!("page refused :: {e}"))?;
            pg.header.unknown1 ^= 0x55;
            if let Some(d) = pg.content.as_data_mut() {
                d.header.unknown6 ^= 1;
                d.rows.clear();
            }
        }
        load_some(&mut db, want, r, &mut hist).ok();
        hist.extend_from_slice(&f);
        o.mark(&hist);
    }
    let st = io.st.borrow();
    ensure!(st.writes == 0 && st.flushes == 0, "non-persistent database issued {} writes", st.writes);
    ensure!(st.data == f, "non-persistent database changed its file");
    o.ev("non-persistent", 1);
    Ok(())
}

fn real_file(want: &DbM, r: &mut Rng, o: &mut Obs) -> R {
    let f = want.encode();
    o.input("PDB file", &f);
    let path = o.scratch.join("c09.pdb");
    std::fs::write(&path, &f).map_err(|e| e.to_string())?;
    let io = std::fs::File::options().read(true).write(true).open(&path).map_err(|e| e.to_string())?;
    let mut db = no_panic("open", || Database::open(io, dbt(want.ext)))?
        .map_err(|e| format!("well-formed file refused :: {e}"))?;
    let mut hist = vec![];
    let n = load_some(&mut db, want, r, &mut hist)?;
    if r.chance(1, 2) {
        saved(&mut db)?;
        load_some(&mut db, want, r, &mut hist)?;
    }
    no_panic("close", || db.close())?.map_err(|e| format!("closing fails :: {e}"))?;
    let got = std::fs::read(&path).map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(&path);
    if let Some(d) = first_diff(&f, &got) {
        bail!("saving an unmodified database changed the file :: {d}");
    }
    classify(o, n, want);
    o.ev("real-files", 1);
    hist.extend_from_slice(&f);
    o.mark(&hist);
    Ok(())
}

fn only_stale_index_slots(old: &[u8], new: &[u8]) -> bool {
    let u32at = |p: usize| u32::from_le_bytes(old[p..p + 4].try_into().unwrap());
    let ps = u32at(4) as usize;
    if old.len() != new.len() {
        return false;
    }
    for i in (0..old.len()).filter(|i| old[*i] != new[*i]) {
        let base = i / ps * ps;
        if base == 0 || old[base + 0x1b] & 0x40 == 0 {
            return false;
        }
        let n = u16::from_le_bytes(old[base + 0x38..base + 0x3a].try_into().unwrap()) as usize;
        let first = base + 0x20 + 28 + 4 * n;
        if i < first || i >= base + ps - 20 || new[i] != 0x1FFF_FFF8u32.to_le_bytes()[(i - base) % 4] {
            return false;
        }
    }
    true
}

fn run(c: &mut Ctx) {
    for i in 0..c.n(1600) {
        let opts = GenOpts { max_rows: if i % 7 == 0 { 200 } else { 30 }, ..GenOpts::default() };
        let o1 = opts.clone();
        c.case("in-memory", move |r, o| {
            let db = gen_db(r, i % 4 == 3, &o1);
            mem(&db, r, o)
        });
        if i % 4 == 0 {
            let o1 = opts.clone();
            c.case("non-persistent", move |r, o| {
                let db = gen_db(r, i % 8 == 4, &o1);
                non_persistent(&db, r, o)
            });
            c.case("real-file", move |r, o| {
                let db = gen_db(r, i % 8 == 4, &opts);
                real_file(&db, r, o)
            });
        }
    }
    for i in 0..c.n(60) {
        c.case("dense", move |r, o| {
            let page_size = *r.pick(&[4096u32, 1024]);
            let ext = i % 4 == 3;
            let ty = if ext { m::EXT_TRACKTAG } else { *r.pick(&[m::MENU, m::PLENTRIES, m::HISTENT, m::GENRES]) };
            let mut bodies = vec![];
            for _ in 0..2 {
                let del = r.chance(1, 2);
                let (d, _) = m::gen_data_page(r, page_size as usize, del, |r| Some(m::gen_row(r, ext, ty, 3)));
                bodies.push(m::Body::Data(d));
            }
            let db = m::assemble(r, ext, page_size, vec![(ty, bodies)]);
            mem(&db, r, o)
        });
    }
    for i in 0..c.n(24) {
        c.case("many-slots", move |r, o| {
            let ext = i % 4 == 3;
            let page_size = *r.pick(&[65536u32, 32768, 16384, 4096]);
            let ty = if ext { m::EXT_TRACKTAG } else { *r.pick(&[m::MENU, m::PLENTRIES, m::HISTENT, m::ARTISTS]) };
            let d = m::gen_many_slots(r, ext, ty, page_size as usize);
            o.ev("slots-in-large-index", d.slots.len() as u64);
            let db = m::assemble(r, ext, page_size, vec![(ty, vec![m::Body::Data(d)])]);
            mem(&db, r, o)
        });
    }
    // The repository's own exports: all pages loaded through the tables.
    for f in super::c08::fixtures() {
        c.case("fixture", move |_, o| {
            let ext = f.to_string_lossy().contains("Ext");
            let b = std::fs::read(&f).map_err(|e| e.to_string())?;
            let io = MonFile::new(b.clone());
            let mut db = Database::open(io.clone(), dbt(ext)).map_err(|e| format!("fixture refused :: {e}"))?;
            for t in 0..db.get_header().tables.len() {
                let n = db
                    .iter_pages_for_table(TableIndex::from(t))
                    .and_then(|i| i.count())
                    .map_err(|e| format!("fixture refused :: {e}"))?;
                o.ev("fixture-pages", n as u64);
            }
            saved(&mut db)?;
            o.ev("fixtures", 1);
            if let Some(d) = first_diff(&b, &io.data()) {
                // Stale entries behind the last used index slot are the known finding; anything
                // else is not.
                if only_stale_index_slots(&b, &io.data()) {
                    bail!("unused index slot rewritten as empty :: {} {d}", f.display());
                }
                bail!("saving a fixture changed it :: {} {d}", f.display());
            }
            o.mark(&b);
            Ok(())
        });
    }
}
