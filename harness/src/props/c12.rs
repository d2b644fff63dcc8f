//! C12: page iteration follows exactly the linked pages, and ends.
use super::pdbutil::*;
use super::Prop;
use crate::fw::{no_panic, Ctx, Obs, R};
use crate::iomon::MonFile;
use crate::refpdb::{self as m, Body, PageM};
use crate::rng::Rng;
use crate::{bail, ensure};
use binrw::{BinRead, Endian};
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::ext::ExtPageType;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use rekordcrate::util::TableIndex;
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Seek};

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        level: "exploration",
        rule: "distinct link graphs (page links, table ends, unreadable pages, preloaded pages) on which every step of the iteration was compared with a reference walk",
        required: &[
            "walk:complete", "walk:backwards", "walk:self-loop", "walk:outside", "walk:page-zero", "walk:unreadable", "preloaded",
            "preload-modified", "partial-then-restart", "by-type", "unknown-type", "unknown-table", "load:ok", "load:outside",
            "load:zero", "typed-rows", "long-chain", "file-shorter-than-header", "file-longer-than-header",
            "foreign-pages",
        ],
        assumptions: &[
            "pages numbered at or above the header's next-unused page but inside the file may be served or refused",
        ],
        run,
    }
}

fn raw_idx(n: u32) -> PageIndex {
    PageIndex::read_options(&mut Cursor::new(n.to_le_bytes()), Endian::Little, ()).unwrap()
}

/// A link graph: page n has marker `mark(n)` and link `next[n]`.
struct Graph {
    ext: bool,
    page_size: u32,
    /// Pages in the file, the header page included.
    npages: u32,
    next_unused: u32,
    next: Vec<u32>,
    ok: Vec<bool>,
    ty: Vec<u32>,
    tables: Vec<(u32, u32, u32)>,
    /// In-memory marker changes made through load_page.
    changed: BTreeMap<u32, u32>,
}

fn mark(n: u32) -> u32 {
    0x5A00_0000 ^ n.wrapping_mul(0x9E37)
}

impl Graph {
    fn encode(&self, r: &mut Rng) -> Vec<u8> {
        let ps = self.page_size as usize;
        let mut f: Vec<u8> = vec![];
        for v in [0, self.page_size, self.tables.len() as u32, self.next_unused, 1, 2, 0] {
            f.extend_from_slice(&v.to_le_bytes());
        }
        for (ty, a, b) in &self.tables {
            for v in [*ty, 0, *a, *b] {
                f.extend_from_slice(&v.to_le_bytes());
            }
        }
        f.resize(ps, 0);
        for n in 1..self.npages {
            if !self.ok[n as usize] {
                f.extend(std::iter::repeat(0xEE).take(ps));
                continue;
            }
            let index = r.chance(1, 5);
            let body = if index {
                Body::Index(m::IndexPage { unknown_a: 1, unknown_b: 2, next_offset: 0, entries: vec![], first_empty: 0x1fff })
            } else {
                Body::Data(m::DataPage { slots: vec![], unknown: [0; 4], used: 0, group_unknown: vec![], filler: vec![0; ps] })
            };
            let p = PageM {
                index: n,
                ty: self.ty[n as usize],
                next: self.next[n as usize],
                unknown1: mark(n),
                unknown2: 0,
                flags: if index { 0x64 } else { 0x24 },
                body,
            };
            f.extend_from_slice(&p.encode(ps));
        }
        f
    }
    /// What must happen on visiting page `n`: Some(true) = served, Some(false) = error, None = either.
    fn visit(&self, n: u32) -> Option<bool> {
        if n == 0 || n >= self.npages || !self.ok[n as usize] {
            return Some(false);
        }
        if n >= self.next_unused {
            return None;
        }
        Some(true)
    }
    fn check(&self, p: &Page, n: u32) -> R {
        let want1 = self.changed.get(&n).copied().unwrap_or(mark(n));
        ensure!(
            p.header.unknown1 == want1 && p.header.page_index == raw_idx(n),
            "wrong page returned :: for page {n}: {:?}", p.header
        );
        ensure!(p.header.next_page == raw_idx(self.next[n as usize]), "page {n} returned with link {:?}", p.header.next_page);
        ensure!(p.header.page_type == ptype(self.ext, self.ty[n as usize]), "page {n} has type {:?}", p.header.page_type);
        Ok(())
    }
    /// Compare one complete iteration with the reference walk.
    fn walk<'d, T: Read + Seek + 'd>(
        &self,
        what: &str,
        mut it: impl FallibleIterator<Item = &'d mut Page, Error = rekordcrate::util::RekordcrateError>,
        first: u32,
        last: u32,
        o: &mut Obs,
    ) -> R {
        let _: std::marker::PhantomData<T> = std::marker::PhantomData;
        let mut cur = first;
        let mut prev = 0;
        let mut steps = 0u32;
        loop {
            ensure!(steps <= self.npages, "{what} goes on after {steps} pages of a file with {}", self.npages);
            steps += 1;
            let got = no_panic(what, || it.next())?;
            let backwards = prev != 0 && cur <= prev;
            let expect = if backwards { Some(false) } else { self.visit(cur) };
            match (got, expect) {
                (Ok(Some(p)), Some(true) | None) => self.check(p, cur).map_err(|e| format!("{what}: {e}"))?,
                (Ok(Some(p)), Some(false)) => {
                    bail!("{what} serves a page it must refuse :: page {cur} after {prev}: {:?}", p.header)
                }
                (Ok(None), _) => bail!("{what} ends before its last page :: at page {cur}, last page {last}"),
                (Err(e), Some(true)) => bail!("{what} refuses a linked page :: page {cur} after {prev}: {e}"),
                (Err(_), _) => {
                    o.ev(
                        if prev != 0 && cur == prev {
                            "walk:self-loop"
                        } else if cur == 0 {
                            "walk:page-zero"
                        } else if backwards {
                            "walk:backwards"
                        } else if cur < self.npages && !self.ok[cur as usize] {
                            "walk:unreadable"
                        } else {
                            "walk:outside"
                        },
                        1,
                    );
                    // Asking again never leads anywhere it must not.
                    for _ in 0..3 {
                        if let Ok(Some(p)) = no_panic(what, || it.next())? {
                            bail!("{what} goes on after an error :: with {:?}", p.header);
                        }
                    }
                    return Ok(());
                }
            }
            if cur == last {
                match no_panic(what, || it.next())? {
                    Ok(None) => {}
                    Ok(Some(p)) => bail!("{what} goes on after its last page :: {last} with {:?}", p.header),
                    Err(e) => bail!("{what} fails after its last page :: {last}: {e}"),
                }
                let again = no_panic(what, || it.next())?;
                ensure!(matches!(again, Ok(None)), "{what} does not stay at its end");
                o.ev("walk:complete", 1);
                o.ev("pages-visited", u64::from(steps));
                if steps > 100 {
                    o.ev("long-chain", 1);
                }
                return Ok(());
            }
            prev = cur;
            cur = self.next[cur as usize];
        }
    }
}

fn link(r: &mut Rng, n: u32, npages: u32) -> u32 {
    match r.below(20) {
        0 => 0,
        1 => n,
        2 => r.below(npages as usize) as u32,
        3 => npages,
        4 => npages + r.below(5) as u32,
        5 => r.u32_edgy(),
        6 | 7 => n.saturating_sub(1 + r.below(3) as u32),
        8..=11 => n + 1 + r.below(4) as u32,
        _ => n + 1,
    }
}

fn gen_graph(r: &mut Rng, long: bool) -> Graph {
    let ext = r.chance(1, 3);
    let npages = if long { 150 + r.below(150) as u32 } else { 2 + r.below(12) as u32 };
    // Mostly clean chains, sometimes any graph.
    let wild = !long && r.chance(3, 5);
    let types: Vec<u32> = if ext { vec![3, 4, 0, 5, 9] } else { vec![0, 1, 2, 3, 7, 8, 11, 17, 19, 9, 10, 99, 0xFFFF_FFFF] };
    let nt = 1 + r.below(3);
    let page_size = *r.pick(&[128u32, 256, 512, 4096]);
    let mut g = Graph {
        ext,
        page_size,
        npages,
        next_unused: match r.below(6) {
            0 => npages + r.below(1000) as u32,
            1 => r.u32_edgy().max(npages),
            2 => r.below(npages as usize + 1) as u32,
            _ => npages,
        },
        next: (0..npages).map(|n| if wild { link(r, n, npages) } else { n + 1 + if long { 0 } else { r.below(3) as u32 } }).collect(),
        ok: (0..npages).map(|_| !(wild && r.chance(1, 15))).collect(),
        ty: (0..npages).map(|_| *r.pick(&types)).collect(),
        tables: vec![],
        changed: BTreeMap::new(),
    };
    for _ in 0..nt {
        let ty = *r.pick(&types);
        let first = if r.chance(1, 8) { link(r, 1, npages) } else { 1 + r.below((npages as usize - 1).min(3)) as u32 };
        let last = match r.below(6) {
            0 => link(r, 1, npages),
            1 => first,
            _ => {
                // a page that the chain really reaches
                let mut cur = first;
                let mut reach = vec![first];
                while cur > 0 && cur < npages && reach.len() <= npages as usize {
                    cur = g.next[cur as usize];
                    reach.push(cur);
                    if cur >= npages {
                        break;
                    }
                }
                if long {
                    *reach.iter().rev().find(|x| **x < npages).unwrap_or(&first)
                } else {
                    *r.pick(&reach)
                }
            }
        };
        g.tables.push((ty, first, last));
    }
    g
}

fn all_types() -> Vec<(bool, u32, PageType)> {
    let mut v: Vec<(bool, u32, PageType)> = m::PLAIN_TYPES.iter().map(|t| (false, *t, ptype(false, *t))).collect();
    v.extend([(true, 3, PageType::Ext(ExtPageType::Tag)), (true, 4, PageType::Ext(ExtPageType::TrackTag))]);
    v
}

fn graph(r: &mut Rng, o: &mut Obs, long: bool) -> R {
    let mut g = gen_graph(r, long);
    let mut f = g.encode(r);
    if r.chance(1, 10) && g.npages > 2 {
        // The file ends inside its last page.
        let cut = 1 + r.below(g.page_size as usize - 64);
        f.truncate(f.len() - cut);
        g.ok[g.npages as usize - 1] = false;
        // ... which is unreadable only if the cut hits something needed.
        let n = g.npages as usize - 1;
        let at = n * g.page_size as usize;
        if f[at + 4..at + 8] == (n as u32).to_le_bytes() {
            // Empty data pages and index pages do not need their tail: either outcome is fine, so
            // do not reach it.
            g.npages -= 1;
            for x in g.next.iter_mut().chain(g.tables.iter_mut().flat_map(|t| [&mut t.1, &mut t.2])) {
                if *x as usize == n {
                    *x = n as u32 + 1;
                }
            }
            f = g.encode(r);
        }
    }
    if g.next_unused > g.npages {
        o.ev("file-shorter-than-header", 1);
    } else if g.next_unused < g.npages {
        o.ev("file-longer-than-header", 1);
    }
    o.input("PDB file", &f);
    let io = MonFile::new(f.clone());
    let mut db = no_panic("open", || Database::open_non_persistent(io.clone(), dbt(g.ext)))?
        .map_err(|e| format!("file refused :: {e}"))?;
    let mut hist = f.clone();
    for _ in 0..1 + r.below(5) {
        let op = r.below(7);
        hist.push(op as u8);
        match op {
            0 | 1 => {
                // load a page by number
                let n = match r.below(6) {
                    0 => 0,
                    1 => g.npages + r.below(4) as u32,
                    2 => r.u32_edgy(),
                    _ => 1 + r.below(g.npages as usize) as u32,
                };
                hist.extend_from_slice(&n.to_le_bytes());
                let got = no_panic("load_page", || db.load_page(raw_idx(n)))?;
                match (got, g.visit(n)) {
                    (Ok(p), Some(true) | None) => {
                        g.check(p, n).map_err(|e| format!("load_page: {e}"))?;
                        o.ev("load:ok", 1);
                        o.ev("preloaded", 1);
                        if r.chance(1, 3) {
                            p.header.unknown1 = r.u32();
                            g.changed.insert(n, p.header.unknown1);
                            o.ev("preload-modified", 1);
                        }
                    }
                    (Ok(p), Some(false)) => bail!("load_page serves a page that does not exist :: {n}: {:?}", p.header),
                    (Err(e), Some(true)) => bail!("load_page refuses an existing page :: {n}: {e}"),
                    (Err(_), _) => o.ev(if n == 0 { "load:zero" } else { "load:outside" }, 1),
                }
            }
            2 | 3 => {
                let t = r.below(g.tables.len());
                hist.push(t as u8);
                let (_, first, last) = g.tables[t];
                if r.chance(1, 3) {
                    // abandoned in the middle, then from the start
                    let mut it = db.iter_pages_for_table(TableIndex::from(t)).map_err(|e| format!("table {t} not found :: {e}"))?;
                    for _ in 0..r.below(4) {
                        if no_panic("page iteration", || it.next().map(|x| x.is_some()))?.is_err() {
                            break;
                        }
                    }
                    o.ev("partial-then-restart", 1);
                }
                let it = db.iter_pages_for_table(TableIndex::from(t)).map_err(|e| format!("table {t} not found :: {e}"))?;
                g.walk::<MonFile>("page iteration", it, first, last, o)?;
            }
            4 => {
                let t = g.tables.len() + *r.pick(&[0, 1, 1000, usize::MAX - 16]);
                let bad = no_panic("iter_pages_for_table", || db.iter_pages_for_table(TableIndex::from(t)).is_err())?;
                ensure!(bad, "table {t} of {} served", g.tables.len());
                o.ev("unknown-table", 1);
            }
            5 => {
                let (ext, ty, pt) = if r.chance(1, 4) {
                    let n = *r.pick(&[9u32, 10, 99, 5, 0, 0xFFFF_FFFF]);
                    (g.ext, n, PageType::Unknown(n))
                } else {
                    *r.pick(&all_types())
                };
                let expect = if ext == g.ext && ptype(ext, ty) == pt { g.tables.iter().find(|t| t.0 == ty).copied() } else { None };
                let it = no_panic("iter_pages", || db.iter_pages(pt))?;
                match (it, expect) {
                    (Ok(it), Some((_, first, last))) => {
                        g.walk::<MonFile>("page iteration by type", it, first, last, o)?;
                        o.ev("by-type", 1);
                    }
                    (Err(e), Some(_)) => bail!("table of type {pt:?} not found :: {e}"),
                    (Ok(_), None) => bail!("table of type {pt:?} served although the file has none"),
                    (Err(_), None) => o.ev("unknown-type", 1),
                }
            }
            _ => {
                // Typed rows over pages without rows: ends, with an error exactly where the walk has one.
                let n = no_panic("iter_rows", || db.iter_rows::<Track>().and_then(|i| i.count()))?;
                if let Ok(n) = n {
                    ensure!(n == 0, "{n} tracks in empty pages");
                    o.ev("typed-rows", 1);
                }
            }
        }
    }
    o.mark(&hist);
    o.sample(format!(
        "{} pages, next unused {}, links {:?}, tables {:?}", g.npages, g.next_unused,
        &g.next[1..g.next.len().min(12)], g.tables
    ));
    Ok(())
}

/// A page with rows of another type in the chain of a table: its rows are neither served as rows of
/// the table nor skipped without a word.
fn foreign(r: &mut Rng, o: &mut Obs) -> R {
    let (x, y) = *r.pick(&[(m::ARTISTS, m::GENRES), (m::ARTISTS, m::TRACKS), (m::MENU, m::ARTISTS), (m::MENU, m::PLENTRIES)]);
    let page_size = 4096;
    let mut bodies = vec![];
    let n = r.range(1, 4);
    let bad = r.below(n);
    for i in 0..n {
        let ty = if i == bad { y } else { x };
        let d = loop {
            let (d, _) = m::gen_data_page(r, page_size as usize, true, |r| Some(m::gen_row(r, false, ty, 10)));
            if d.present() > 0 {
                break d;
            }
        };
        bodies.push(Body::Data(d));
    }
    let mut w = m::assemble(r, false, page_size, vec![(x, bodies)]);
    let pages: Vec<u32> =
        w.tables[0].pages.iter().copied().filter(|p| matches!(w.page(*p).body, Body::Data(_))).collect();
    let page = pages[bad];
    let good: usize = pages[..bad].iter().map(|p| if let Body::Data(d) = &w.page(*p).body { d.present() } else { 0 }).sum();
    w.page_mut(page).ty = y;
    let f = w.encode();
    o.input("PDB file", &f);
    let mut db = no_panic("open", || Database::open_non_persistent(MonFile::new(f.clone()), dbt(false)))?
        .map_err(|e| format!("file refused :: {e}"))?;
    macro_rules! count {
        ($t:ty) => {{
            let mut it = db.iter_rows::<$t>().map_err(|e| format!("table not found :: {e}"))?;
            let mut n = 0;
            loop {
                match no_panic("iter_rows", || it.next().map(|x| x.is_some()))? {
                    Ok(true) => n += 1,
                    Ok(false) => break (n, false),
                    Err(_) => break (n, true),
                }
            }
        }};
    }
    let (n, failed) = if x == m::ARTISTS { count!(Artist) } else { count!(Menu) };
    ensure!(failed, "rows of another type are skipped silently :: {n} rows of type {x} around a page of type {y}");
    ensure!(n == good, "{n} rows before a page of another type instead of {good}");
    o.ev("foreign-pages", 1);
    o.mark(&f);
    Ok(())
}

fn run(c: &mut Ctx) {
    for _ in 0..c.n(150) {
        c.case("foreign-page", foreign);
    }
    for i in 0..c.n(20_000) {
        c.case("graph", move |r, o| graph(r, o, i % 100 == 0));
    }
}
