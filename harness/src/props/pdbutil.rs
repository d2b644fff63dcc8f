//! Shared pieces of the database monitors.
use crate::dbg;
use crate::fw::{no_panic, R};
use crate::refpdb::{self as m, Body, DbM, PageM, RowM};
use crate::{bail, ensure};
use binrw::{BinRead, BinWrite, Endian};
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::ext::ExtPageType;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::{DatabaseType, Page, PageContent, PageIndex, PageType, PlainPageType, Row};
use rekordcrate::util::TableIndex;
use std::io::{Cursor, Read, Seek};

pub fn dbt(ext: bool) -> DatabaseType {
    if ext {
        DatabaseType::Ext
    } else {
        DatabaseType::Plain
    }
}

/// Page type by the published table numbers.
pub fn ptype(ext: bool, ty: u32) -> PageType {
    use PlainPageType as P;
    if ext {
        return match ty {
            3 => PageType::Ext(ExtPageType::Tag),
            4 => PageType::Ext(ExtPageType::TrackTag),
            x => PageType::Unknown(x),
        };
    }
    PageType::Plain(match ty {
        0 => P::Tracks,
        1 => P::Genres,
        2 => P::Artists,
        3 => P::Albums,
        4 => P::Labels,
        5 => P::Keys,
        6 => P::Colors,
        7 => P::PlaylistTree,
        8 => P::PlaylistEntries,
        11 => P::HistoryPlaylists,
        12 => P::HistoryEntries,
        13 => P::Artwork,
        16 => P::Columns,
        17 => P::Menu,
        19 => P::History,
        x => return PageType::Unknown(x),
    })
}

pub type Mem = Cursor<Vec<u8>>;

pub fn open_ro(bytes: &[u8], ext: bool) -> Result<Database<Mem>, String> {
    no_panic("open", || Database::open_non_persistent(Cursor::new(bytes.to_vec()), dbt(ext)))?
        .map_err(|e| format!("well-formed file refused :: {e}"))
}

pub fn pidx(n: u32) -> PageIndex {
    PageIndex::try_from(n).expect("page number in range")
}

/// Field list of a row as the Debug output shows it.
pub fn row_fields(row: &Row) -> Result<Vec<(String, String)>, String> {
    let s = no_panic("Debug of a row", || format!("{row:?}"))?;
    Ok(dbg::parse(&s).map_err(|e| format!("cannot read Debug output :: {e}: {s}"))?.flat())
}

pub fn check_row(row: &Row, want: &RowM) -> R {
    if want.is_opaque() {
        ensure!(*row == Row::Unknown, "row of an unknown page type reported as {row:?}");
        return Ok(());
    }
    let got = row_fields(row)?;
    dbg::same_fields(&got, &want.expect_debug()).map_err(|e| format!("row of type {} decoded wrongly :: {e}", want.ty))
}

/// Parse the stored bytes of one row.
pub fn parse_row(want: &RowM) -> Result<Row, String> {
    let b = want.encode();
    let mut c = Cursor::new(b);
    no_panic("read row", || Row::read_options(&mut c, Endian::Little, (ptype(want.ext, want.ty),)))?
        .map_err(|e| format!("well-formed row refused :: {e}"))
}

pub fn write_row(row: &Row) -> Result<Vec<u8>, String> {
    let mut w = Cursor::new(vec![]);
    no_panic("write row", || row.write_options(&mut w, Endian::Little, ()))?
        .map_err(|e| format!("row cannot be written :: {e}"))?;
    Ok(w.into_inner())
}

/// Compare a loaded page with the model.
pub fn check_page(p: &Page, want: &PageM, ext: bool, page_size: usize) -> Result<usize, String> {
    ensure!(p.header.page_index == pidx(want.index), "page {} reports index {:?}", want.index, p.header.page_index);
    ensure!(p.header.page_type == ptype(ext, want.ty), "page type {} reported as {:?}", want.ty, p.header.page_type);
    ensure!(p.header.next_page == next(want.next), "next page {} reported as {:?}", want.next, p.header.next_page);
    ensure!(
        p.header.unknown1 == want.unknown1 && p.header.unknown2 == want.unknown2,
        "page header fields {:?} for {} {}", p.header, want.unknown1, want.unknown2
    );
    let f = p.header.page_flags;
    let got = [
        f.unknown0(), f.unknown1(), f.unknown2(), f.unknown3(), f.contains_deleted(), f.unknown5(), f.is_index_page(),
        f.unknown7(),
    ];
    for (i, g) in got.iter().enumerate() {
        ensure!(*g == (want.flags >> i & 1 == 1), "page flag {i} of {:#x} reported as {g}", want.flags);
    }
    match (&p.content, &want.body) {
        (PageContent::Data(d), Body::Data(w)) => {
            let rc = p.header.packed_row_counts;
            ensure!(rc.num_rows() as usize == w.slots.len(), "{} row slots reported for {}", rc.num_rows(), w.slots.len());
            ensure!(
                rc.num_rows_valid() as usize == w.present(),
                "{} valid rows reported for {}", rc.num_rows_valid(), w.present()
            );
            ensure!(p.header.free_size == w.free(page_size), "free size {} for {}", p.header.free_size, w.free(page_size));
            ensure!(p.header.used_size == w.used, "used size {} for {}", p.header.used_size, w.used);
            ensure!(
                [d.header.unknown5, d.header.unknown_not_num_rows_large, d.header.unknown6, d.header.unknown7] == w.unknown,
                "data page header {:?} for {:?}", d.header, w.unknown
            );
            ensure!(d.row_groups.len() == w.groups(), "{} row groups for {}", d.row_groups.len(), w.groups());
            for (i, g) in d.row_groups.iter().enumerate() {
                ensure!(g.unknown == w.group_unknown[i], "row group {i} unknown field {} for {}", g.unknown, w.group_unknown[i]);
                for (j, s) in w.slots.iter().enumerate().skip(16 * i).take(16) {
                    let bit = g.row_presence_flags >> (j % 16) & 1 == 1;
                    ensure!(bit == s.present, "row {j} presence {bit}, stored {}", s.present);
                    let off = g.row_offsets[15 - j % 16];
                    ensure!(off == s.offset, "row {j} offset {off}, stored {}", s.offset);
                }
            }
            let mut want_rows: Vec<(u16, &RowM)> =
                w.slots.iter().filter(|s| s.present).map(|s| (s.offset, &s.row)).collect();
            want_rows.sort_by_key(|x| x.0);
            let got: Vec<u16> = d.rows.keys().copied().collect();
            let wk: Vec<u16> = want_rows.iter().map(|x| x.0).collect();
            ensure!(got == wk, "rows at heap offsets {got:?} reported, present are {wk:?}");
            for ((o, row), (_, w)) in d.rows.iter().zip(&want_rows) {
                check_row(row, w).map_err(|e| format!("{e} (page {} offset {o})", want.index))?;
            }
            Ok(want_rows.len())
        }
        (PageContent::Index(x), Body::Index(w)) => {
            check_index(x, w, want.index, want.next)?;
            Ok(0)
        }
        _ => bail!("page kind confused: flags {:#x} reported as {:?}", want.flags, p.header.page_flags),
    }
}

fn next(n: u32) -> PageIndex {
    // Stored page numbers may be any 32-bit value.
    PageIndex::read_options(&mut Cursor::new(n.to_le_bytes()), Endian::Little, ()).unwrap()
}

pub fn check_index(x: &rekordcrate::pdb::IndexPageContent, w: &m::IndexPage, index: u32, nextp: u32) -> R {
    ensure!(
        (x.header.unknown_a, x.header.unknown_b, x.header.next_offset, x.header.first_empty)
            == (w.unknown_a, w.unknown_b, w.next_offset, w.first_empty),
        "index header {:?} for {w:?}", x.header
    );
    ensure!(x.header.page_index == pidx(index) && x.header.next_page == next(nextp), "index links {:?}", x.header);
    ensure!(x.header.num_entries as usize == w.entries.len(), "{} entries for {}", x.header.num_entries, w.entries.len());
    ensure!(x.entries.len() == w.entries.len(), "{} entries reported for {}", x.entries.len(), w.entries.len());
    for (e, v) in x.entries.iter().zip(&w.entries) {
        ensure!(e.is_empty() == (*v == 0x1FFF_FFF8), "entry {v:#x} is_empty {}", e.is_empty());
        ensure!(u32::from(e.index_flags()) == v & 7, "entry {v:#x} flags {}", e.index_flags());
        match e.page_index() {
            Ok(p) => ensure!(v >> 3 < 0x03FF_FFFF && p == pidx(v >> 3), "entry {v:#x} page {p:?}"),
            Err(_) => ensure!(v >> 3 >= 0x03FF_FFFF, "entry {v:#x} has no page"),
        }
        no_panic("Debug of an index entry", || format!("{e:?}"))?;
    }
    Ok(())
}

pub fn check_header<T: Read + Seek>(db: &Database<T>, want: &DbM) -> R {
    let h = db.get_header();
    ensure!(
        (h.page_size, h.num_tables as usize, h.unknown, h.sequence)
            == (want.page_size, want.tables.len(), want.unknown, want.sequence),
        "file header {h:?} for {:?}", want.header()
    );
    ensure!(h.next_unused_page == next(want.next_unused), "next unused page {:?}", h.next_unused_page);
    ensure!(h.tables.len() == want.tables.len(), "{} tables for {}", h.tables.len(), want.tables.len());
    for (t, w) in h.tables.iter().zip(&want.tables) {
        ensure!(t.page_type == ptype(want.ext, w.ty), "table type {} reported as {:?}", w.ty, t.page_type);
        ensure!(
            t.first_page == next(*w.pages.first().unwrap()) && t.last_page == next(*w.pages.last().unwrap()),
            "table pages {t:?} for {w:?}"
        );
    }
    Ok(())
}

/// Walk all tables of an opened database and compare everything with the model.
pub fn check_db<T: Read + Seek>(db: &mut Database<T>, want: &DbM) -> Result<(u64, u64), String> {
    check_header(db, want)?;
    let (mut pages, mut rows) = (0, 0);
    for (ti, t) in want.tables.iter().enumerate() {
        let mut it = db
            .iter_pages_for_table(TableIndex::from(ti))
            .map_err(|e| format!("table {ti} not found :: {e}"))?;
        for w in &t.pages {
            let p = no_panic("page iteration", || it.next())?
                .map_err(|e| format!("well-formed page refused :: page {w} of table {ti}: {e}"))?;
            let Some(p) = p else { bail!("table {ti} ends before page {w}") };
            rows += check_page(p, want.page(*w), want.ext, want.page_size as usize)? as u64;
            pages += 1;
        }
        let end = no_panic("page iteration", || it.next())?.map_err(|e| format!("iteration fails at its end :: {e}"))?;
        ensure!(end.is_none(), "table {ti} goes on after its last page with {:?}", end.unwrap().header);
    }
    Ok((pages, rows))
}
