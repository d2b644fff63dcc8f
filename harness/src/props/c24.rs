//! C24: databases are read lazily and saved sparsely.
use super::pdbutil::*;
use super::Prop;
use crate::ensure;
use crate::fw::{no_panic, Ctx, Obs, R};
use crate::iomon::MonFile;
use crate::refpdb::{self as m, Body};
use crate::rng::Rng;
use fallible_iterator::FallibleIterator;
use rekordcrate::device::get_playlists;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use rekordcrate::util::TableIndex;
use std::collections::BTreeSet;

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        level: "exploration",
        rule: "distinct histories of questions, edits and saves during which every transfer of the file was accounted for",
        required: &[
            "opened", "page-loads", "loaded-again", "table-iterations", "row-iterations", "partial-iterations", "playlists", "saves",
            "saves-of-some-pages", "saves-of-no-page", "missing-pages", "reads-watched", "writes-watched", "untouched-pages",
        ],
        assumptions: &[
            "reading ahead by up to 8192 bytes per question is not judged, and neither is the order of transfers",
            "the header page may be read and written whole",
        ],
        run,
    }
}

const SLACK: u64 = 8192;

struct Watch {
    f: MonFile,
    ps: u64,
    loaded: BTreeSet<u32>,
}

impl Watch {
    /// Judge the transfers of one question that concerns `pages`.
    fn asked(&mut self, what: &str, pages: &[u32], o: &mut Obs) -> R {
        let new: BTreeSet<u32> = pages.iter().filter(|p| !self.loaded.contains(p)).copied().collect();
        let t = self.f.take_transfers();
        let bytes: u64 = t.iter().filter(|x| x.0 == b'r').map(|x| x.2 as u64).sum();
        o.ev("reads-watched", t.len() as u64);
        let bound = new.len() as u64 * self.ps + SLACK;
        ensure!(
            bytes <= bound,
            "{what} reads more than it needs :: {bytes} bytes for {} new pages of {} bytes", new.len(), self.ps
        );
        ensure!(t.iter().all(|x| x.0 == b'r'), "{what} writes to the file");
        self.loaded.extend(new);
        Ok(())
    }
    fn saved(&mut self, o: &mut Obs, total: usize) -> R {
        let t = self.f.take_transfers();
        let mut bytes = 0;
        for (k, pos, n) in &t {
            if *k != b'w' || *n == 0 {
                continue;
            }
            bytes += *n as u64;
            let (a, b) = (pos / self.ps, (pos + *n as u64 - 1) / self.ps);
            for p in a..=b {
                ensure!(
                    p == 0 || self.loaded.contains(&(p as u32)),
                    "saving writes to a page that was never loaded :: page {p}, {n} bytes at {pos}"
                );
            }
            o.ev("writes-watched", 1);
        }
        let bound = 2 * (self.loaded.len() as u64 + 1) * self.ps;
        ensure!(bytes <= bound, "saving writes more than it needs :: {bytes} bytes for {} pages of {}", self.loaded.len(), self.ps);
        let read: u64 = t.iter().filter(|x| x.0 == b'r').map(|x| x.2 as u64).sum();
        ensure!(read <= self.ps + SLACK, "saving reads the file :: {read} bytes");
        o.ev("saves", 1);
        o.ev("untouched-pages", (total - self.loaded.len()) as u64);
        o.ev(if self.loaded.is_empty() { "saves-of-no-page" } else { "saves-of-some-pages" }, 1);
        Ok(())
    }
}

fn history(r: &mut Rng, o: &mut Obs) -> R {
    let ext = r.chance(1, 4);
    // Large pages show that a page is read again, many pages that others are read.
    let large = r.chance(1, 2);
    let ps = if large { *r.pick(&[16384u32, 32768, 20480]) } else { *r.pick(&[512u32, 1024]) };
    let want = if large {
        m::gen_db(r, ext, &m::GenOpts { page_size: Some(ps), max_rows: 60, ..Default::default() })
    } else {
        let ty = if ext { m::EXT_TAG } else { *r.pick(&[m::GENRES, m::ARTISTS, m::TRACKS, m::PLTREE]) };
        let n = r.range(40, 90);
        let mut bodies = vec![Body::Index(m::gen_index(r, ps as usize))];
        for _ in 0..n {
            let (d, _) = m::gen_data_page(r, ps as usize, true, |r| r.chance(1, 2).then(|| m::gen_row(r, ext, ty, 12)));
            bodies.push(Body::Data(d));
        }
        let other = if ext { m::EXT_TRACKTAG } else { m::COLORS };
        let x = Body::Index(m::gen_index(r, ps as usize));
        m::assemble(r, ext, ps, vec![(ty, bodies), (other, vec![x])])
    };
    let b = want.encode();
    o.input("PDB file", &b[..b.len().min(100_000)]);
    let f = MonFile::new(b.clone());
    f.take_transfers();
    let writable = r.chance(2, 3);
    let mut w = Watch { f: f.clone(), ps: u64::from(ps), loaded: BTreeSet::new() };
    let mut db = no_panic("open", || {
        if writable { Database::open(f.clone(), dbt(ext)) } else { Database::open_non_persistent(f.clone(), dbt(ext)) }
    })?
    .map_err(|e| format!("file refused :: {e}"))?;
    // Opening: the header page.
    w.asked("opening", &[0], o)?;
    w.loaded.clear();
    o.ev("opened", 1);
    let mut hist = vec![ps];
    for _ in 0..r.range(1, 25) {
        let k = r.below(9);
        hist.push(k as u32);
        match k {
            0..=2 => {
                let n = if r.chance(1, 8) { *r.pick(&[0, want.pages.len() as u32 + 1, 0x03ff_fff0]) } else { r.range(1, want.pages.len().max(1)) as u32 };
                hist.push(n);
                let ok = want.pages.get((n as usize).wrapping_sub(1)).is_some_and(|p| p.is_some());
                let again = w.loaded.contains(&n);
                let res = no_panic("load", || db.load_page(pidx(n)).map(drop).is_ok())?;
                ensure!(!ok || res, "well-formed page {n} refused");
                w.asked(if again { "loading a page again" } else { "loading a page" }, &[n], o)?;
                if !res {
                    // What could not be parsed is not kept.
                    w.loaded.remove(&n);
                    o.ev("missing-pages", 1);
                }
                o.ev(if again { "loaded-again" } else { "page-loads" }, 1);
            }
            3 | 4 => {
                let ti = r.below(want.tables.len().max(1));
                let Some(t) = want.tables.get(ti) else { continue };
                let limit = if r.chance(1, 2) { r.below(4) } else { usize::MAX };
                hist.extend([ti as u32, limit as u32]);
                let mut it = db.iter_pages_for_table(TableIndex::from(ti)).map_err(|e| format!("table not found :: {e}"))?;
                let mut n = 0;
                while n < limit {
                    match no_panic("page iteration", || it.next().map(|p| p.is_some()))?.map_err(|e| format!("well-formed page refused :: {e}"))? {
                        true => n += 1,
                        false => break,
                    }
                }
                drop(it);
                w.asked("iterating over pages", &t.pages[..n.min(t.pages.len())], o)?;
                o.ev("table-iterations", 1);
                o.ev("partial-iterations", u64::from(n < t.pages.len()));
            }
            5 | 6 => {
                macro_rules! rows {
                    ($t:ty, $ty:expr) => {
                        if let Some(t) = want.tables.iter().find(|t| t.ty == $ty) {
                            let limit = if r.chance(1, 2) { r.below(4) } else { usize::MAX };
                            hist.extend([$ty, limit as u32]);
                            let mut it = db.iter_rows::<$t>().map_err(|e| format!("iter_rows :: {e}"))?;
                            let mut n = 0;
                            let mut all = false;
                            while n < limit && !all {
                                match no_panic("row iteration", || it.next().map(|p| p.is_some()))?.map_err(|e| format!("row iteration :: {e}"))? {
                                    true => n += 1,
                                    false => all = true,
                                }
                            }
                            drop(it);
                            // Pages up to the one that holds the last row asked for.
                            let mut need = vec![];
                            let mut seen = 0;
                            for p in &t.pages {
                                if !all && seen >= n {
                                    break;
                                }
                                need.push(*p);
                                if let Body::Data(d) = &want.page(*p).body {
                                    seen += d.present();
                                }
                            }
                            w.asked("iterating over rows", &need, o)?;
                            o.ev("row-iterations", 1);
                            o.ev("partial-iterations", u64::from(need.len() < t.pages.len()));
                        }
                    };
                }
                if !ext {
                    match r.below(5) {
                        0 => rows!(Genre, m::GENRES),
                        1 => rows!(Artist, m::ARTISTS),
                        2 => rows!(Track, m::TRACKS),
                        3 => rows!(PlaylistTreeNode, m::PLTREE),
                        _ => rows!(Color, m::COLORS),
                    }
                }
            }
            7 => {
                let _ = no_panic("get_playlists", || get_playlists(&mut db).is_ok())?;
                let p = want.tables.iter().find(|t| t.ty == m::PLTREE && !ext).map(|t| t.pages.clone()).unwrap_or_default();
                w.asked("get_playlists", &p, o)?;
                o.ev("playlists", 1);
            }
            _ if writable => {
                if r.chance(1, 2) {
                    db.get_header_mut().sequence ^= 1;
                }
                no_panic("flush", || db.flush())?.map_err(|e| format!("cannot save :: {e}"))?;
                w.saved(o, want.pages.len())?;
            }
            _ => {
                let _ = db.get_header().page_size;
                w.asked("get_header", &[], o)?;
            }
        }
    }
    if writable {
        no_panic("close", || db.close())?.map_err(|e| format!("cannot save :: {e}"))?;
        w.saved(o, want.pages.len())?;
    }
    let mut h: Vec<u8> = hist.iter().flat_map(|x| x.to_le_bytes()).collect();
    h.extend_from_slice(&b[..b.len().min(200)]);
    o.mark(&h);
    o.sample(format!("{} pages of {ps} bytes, {} loaded, {} bytes read", want.pages.len(), w.loaded.len(), f.st.borrow().bytes_read));
    Ok(())
}

fn run(c: &mut Ctx) {
    for _ in 0..c.n(2500) {
        c.case("history", history);
    }
}
