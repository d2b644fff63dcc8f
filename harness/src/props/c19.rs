//! C19: index pages, page numbers and packed header fields keep exact values.
use super::pdbutil::*;
use super::Prop;
use crate::fw::{first_diff, no_panic, Ctx, Obs, R};
use crate::iomon::MonFile;
use crate::refpdb::{self as m, Body, IndexPage, PageM};
use crate::rng::Rng;
use crate::{bail, ensure};
use binrw::{BinRead, BinWrite, Endian};
use rekordcrate::pdb::bitfields::{PackedRowCounts, PageFlags};
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use std::io::{Cursor, Seek, SeekFrom};

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        rule: "distinct index pages (size, fill level, contents), plus every packed row counter value, every page flag byte and every edge of the page number range, each compared with an independent reading of the bits",
        required: &[
            "index-page", "index-full", "index-empty", "index-shrunk", "index-grown", "too-many-entries-read", "too-many-entries-written", "count-mismatch",
            "counter-values", "counter-setters", "flag-values", "page-index-accepted", "page-index-refused", "entry-accepted",
            "entry-refused", "entry-raw", "page-header", "saved-index",
        ],
        assumptions: &["page sizes are multiples of four, as in real exports"],
        run,
    }
}

fn read_page(b: &[u8], ps: u32) -> Result<Result<Page, binrw::Error>, String> {
    no_panic("read page", || Page::read_options(&mut Cursor::new(b), Endian::Little, (ps, DatabaseType::Plain)))
}

/// Write over a buffer full of garbage, so that every byte of the page has to be produced.
fn write_page(p: &Page, ps: u32) -> Result<Result<(Vec<u8>, u64), binrw::Error>, String> {
    let mut w = Cursor::new(vec![0xA5u8; ps as usize + 16]);
    let res = no_panic("write page", || {
        p.write_options(&mut w, Endian::Little, (ps,))?;
        Ok(w.stream_position().unwrap())
    })?;
    Ok(res.map(|pos| (w.into_inner(), pos)))
}

fn entry_raw(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 0x1FFF_FFF8,
        1 => 0x1FFF_FFF8 | r.below(8) as u32,
        2 => r.u32_edgy(),
        _ => ((r.u32_edgy() % 0x03FF_FFFF) << 3) | r.below(8) as u32,
    }
}

fn index_page(r: &mut Rng, o: &mut Obs, ps: u32, n: usize) -> R {
    let cap = (ps as usize - 80) / 4;
    let w = IndexPage {
        unknown_a: r.u16_edgy(),
        unknown_b: r.u16_edgy(),
        next_offset: r.u16_edgy(),
        entries: (0..n).map(|_| entry_raw(r)).collect(),
        first_empty: r.u16_edgy(),
    };
    let index = r.u32_edgy() % 0x03FF_FFFF;
    let pm = PageM {
        index,
        ty: *r.pick(&m::PLAIN_TYPES),
        next: r.u32_edgy(),
        unknown1: r.u32(),
        unknown2: r.u32(),
        flags: m::index_flags(r),
        body: Body::Index(w.clone()),
    };
    let b = pm.encode(ps as usize);
    o.input("index page", &b);
    let p = read_page(&b, ps)?.map_err(|e| format!("well-formed index page refused :: {n} of {cap} entries: {e}"))?;
    check_page(&p, &pm, false, ps as usize)?;
    no_panic("Debug of an index page", || format!("{p:?}"))?;
    let (out, pos) = write_page(&p, ps)?.map_err(|e| format!("index page cannot be written :: {n} of {cap} entries: {e}"))?;
    ensure!(pos == u64::from(ps), "writing an index page ends at {pos} of {ps}");
    if let Some(d) = first_diff(&b, &out[..ps as usize]) {
        bail!("index page written differently :: {n} of {cap} entries: {d}");
    }
    ensure!(out[ps as usize..] == [0xA5; 16], "writing an index page runs past its end");
    o.ev("index-page", 1);
    o.ev(if n == cap { "index-full" } else if n == 0 { "index-empty" } else { "index-part" }, 1);
    o.mark(&b);
    // Change the fill level.
    let k = r.below(cap + 1);
    let mut q = p.clone();
    let mut w2 = w;
    {
        let x = q.content.as_index_mut().ok_or("index content lost")?;
        while w2.entries.len() > k {
            w2.entries.pop();
            x.entries.pop();
        }
        while w2.entries.len() < k {
            let (pg, fl) = (r.u32_edgy() % 0x03FF_FFFF, r.below(8) as u8);
            w2.entries.push(pg << 3 | u32::from(fl));
            x.entries.push(IndexEntry::try_from((pidx(pg), fl)).map_err(|e| format!("valid entry refused :: {e}"))?);
        }
        x.header.num_entries = k as u16;
    }
    o.ev(if k < n { "index-shrunk" } else { "index-grown" }, 1);
    let want = PageM { body: Body::Index(w2), ..pm };
    let (out, _) = write_page(&q, ps)?.map_err(|e| format!("index page cannot be written :: {k} of {cap} entries: {e}"))?;
    if let Some(d) = first_diff(&want.encode(ps as usize), &out[..ps as usize]) {
        bail!("index page written differently :: refilled from {n} to {k} of {cap} entries: {d}");
    }
    // Entry count that disagrees with the entries.
    let mut bad = q.clone();
    let x = bad.content.as_index_mut().unwrap();
    let d = [1i32, -1, 5, 300][r.below(4)];
    x.header.num_entries = (x.header.num_entries as i32 + d).clamp(0, 65535) as u16;
    if usize::from(x.header.num_entries) != k {
        match write_page(&bad, ps)? {
            Err(_) => {}
            Ok((out, pos)) => {
                // Not refused: then the page must at least be consistent with what is stored.
                let n2 = u16::from_le_bytes([out[0x38], out[0x39]]) as usize;
                let slots: Vec<u32> = out[0x3c..ps as usize - 20].chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
                ensure!(
                    pos == u64::from(ps) && n2 <= slots.len() && slots[n2..].iter().all(|e| *e == 0x1FFF_FFF8)
                        && out[ps as usize - 20..ps as usize].iter().all(|b| *b == 0),
                    "index page with a wrong entry count written inconsistently :: {n2} counted, {k} stored of {cap}"
                );
            }
        }
        o.ev("count-mismatch", 1);
    }
    // More entries than the page can hold.
    let extra = 1 + r.below(6);
    let mut bad = q.clone();
    let x = bad.content.as_index_mut().unwrap();
    x.entries.resize(cap + extra, IndexEntry::empty());
    x.header.num_entries = (cap + extra) as u16;
    if let Ok((out, pos)) = write_page(&bad, ps)? {
        bail!("index page with {} of {cap} entries written :: ends at {pos}, last bytes {:?}", cap + extra, &out[ps as usize - 20..]);
    }
    o.ev("too-many-entries-written", 1);
    let mut b2 = b.clone();
    let c = (cap + [1, 2, 5, 6, 1000][r.below(5)]).min(65535) as u16;
    b2[0x38..0x3a].copy_from_slice(&c.to_le_bytes());
    // The following page continues with bytes that must not be taken for entries.
    b2.extend(std::iter::repeat(7).take(5000));
    if let Ok(p) = read_page(&b2, ps)? {
        let got = p.content.as_index().map(|x| x.entries.len()).unwrap_or(0);
        ensure!(got <= cap, "index page of {cap} slots read with {got} entries");
    }
    o.ev("too-many-entries-read", 1);
    Ok(())
}

/// Through a whole file: edit an index page, save, look at the bytes.
fn saved(r: &mut Rng, o: &mut Obs) -> R {
    let ps = *r.pick(&[4096u32, 1024]);
    let x = m::gen_index(r, ps as usize);
    let y = m::gen_index(r, ps as usize);
    let mut want = m::assemble(r, false, ps, vec![(m::GENRES, vec![Body::Index(x)]), (m::LABELS, vec![Body::Index(y)])]);
    let f = want.encode();
    o.input("PDB file", &f);
    let io = MonFile::new(f);
    let mut db = Database::open(io.clone(), DatabaseType::Plain).map_err(|e| format!("file refused :: {e}"))?;
    let n = want.tables[r.below(2)].pages[0];
    let p = db.load_page(pidx(n)).map_err(|e| format!("page refused :: {e}"))?;
    let x = p.content.as_index_mut().ok_or("index content lost")?;
    let Body::Index(w) = &mut want.page_mut(n).body else { unreachable!() };
    let k = r.below((ps as usize - 80) / 4 + 1);
    w.entries = (0..k).map(|_| ((r.u32_edgy() % 0x03FF_FFFF) << 3) | r.below(8) as u32).collect();
    x.entries = w
        .entries
        .iter()
        .map(|v| IndexEntry::try_from((pidx(v >> 3), (v & 7) as u8)))
        .collect::<Result<_, _>>()
        .map_err(|e| format!("valid entry refused :: {e}"))?;
    x.header.num_entries = k as u16;
    db.close().map_err(|e| format!("closing fails :: {e}"))?;
    if let Some(d) = first_diff(&want.encode(), &io.data()) {
        bail!("file with an edited index page written differently :: {k} entries in page {n}: {d}");
    }
    o.ev("saved-index", 1);
    o.mark(&io.data());
    Ok(())
}

fn counters(o: &mut Obs, part: u32) -> R {
    for v in (part << 18)..((part + 1) << 18) {
        let b = &v.to_le_bytes()[..3];
        let c = PackedRowCounts::read_options(&mut Cursor::new(b), Endian::Little, ()).map_err(|e| format!("counter {v:#x} refused :: {e}"))?;
        let (rows, valid) = ((v & 0x1fff) as u16, (v >> 13) as u16);
        if (c.num_rows(), c.num_rows_valid()) != (rows, valid) {
            bail!("row counters decoded wrongly :: {v:#x} gives {} and {}", c.num_rows(), c.num_rows_valid());
        }
        let s = PackedRowCounts::new().with_num_rows(rows).with_num_rows_valid(valid);
        let mut w = Cursor::new([0u8; 3]);
        s.write_options(&mut w, Endian::Little, ()).map_err(|e| format!("counter not written :: {e}"))?;
        if s != c || w.get_ref()[..] != *b {
            bail!("row counters encoded wrongly :: {rows} and {valid} give {:?}", *w.get_ref());
        }
    }
    o.ev("counter-values", 1 << 18);
    o.ev("counter-setters", 1 << 18);
    o.mark(&part.to_le_bytes());
    Ok(())
}

fn small(o: &mut Obs) -> R {
    for f in 0..=255u8 {
        let p = PageFlags::read_options(&mut Cursor::new([f]), Endian::Little, ()).map_err(|e| format!("flags refused :: {e}"))?;
        let got = [
            p.unknown0(), p.unknown1(), p.unknown2(), p.unknown3(), p.contains_deleted(), p.unknown5(), p.is_index_page(), p.unknown7(),
        ];
        for (i, g) in got.iter().enumerate() {
            ensure!(*g == (f >> i & 1 == 1), "flag {i} of {f:#x} decoded as {g}");
        }
        let mut w = Cursor::new([0u8; 1]);
        p.write_options(&mut w, Endian::Little, ()).map_err(|e| e.to_string())?;
        ensure!(*w.get_ref() == [f], "flags {f:#x} written as {:?}", *w.get_ref());
        o.ev("flag-values", 1);
    }
    ensure!(!PageFlags::new_data_page().is_index_page() && PageFlags::new_index_page().is_index_page(), "typical page flags confused");
    for n in 0..=2047usize {
        let c = PackedRowCounts::from_all_valid(n);
        ensure!(c.num_rows() as usize == n && c.num_rows_valid() as usize == n, "from_all_valid({n}) gives {c:?}");
    }
    for n in 0..=0x1fffu16 {
        ensure!(PackedRowCounts::new().with_num_rows_checked(n).is_ok(), "row count {n} refused");
    }
    ensure!(
        PackedRowCounts::new().with_num_rows_checked(0x2000).is_err() && PackedRowCounts::new().with_num_rows_valid_checked(0x800).is_err(),
        "counter value out of range accepted"
    );
    o.mark(b"flags");
    Ok(())
}

fn numbers(r: &mut Rng, o: &mut Obs) -> R {
    let mut vs: Vec<u32> = vec![0, 1, 2, 0x03FF_FFFD, 0x03FF_FFFE, 0x03FF_FFFF, 0x0400_0000, 0x1FFF_FFFF, 0x2000_0000, u32::MAX - 1, u32::MAX];
    vs.extend((0..32).flat_map(|b| [(1u32 << b) - 1, 1 << b, (1 << b) + 1]));
    vs.extend((0..300).map(|_| r.u32_edgy()));
    vs.extend((0..300).map(|_| r.u32() % 0x0400_0010));
    for v in vs {
        let got = no_panic("PageIndex::try_from", || PageIndex::try_from(v))?;
        let valid = v < 0x03FF_FFFF;
        ensure!(got.is_ok() == valid, "page number {v:#x} accepted: {}", got.is_ok());
        let raw = PageIndex::read_options(&mut Cursor::new(v.to_le_bytes()), Endian::Little, ()).map_err(|e| e.to_string())?;
        let mut w = Cursor::new([0u8; 4]);
        raw.write_options(&mut w, Endian::Little, ()).map_err(|e| e.to_string())?;
        ensure!(*w.get_ref() == v.to_le_bytes(), "page number {v:#x} written differently");
        for ps in [0u32, 1, 4096, 8192, 65536, u32::MAX, r.u32()] {
            let off = no_panic("offset", || raw.offset(ps))?;
            ensure!(u128::from(off) == u128::from(v) * u128::from(ps), "page {v:#x} of size {ps} at {off:#x}");
        }
        if let Ok(p) = got {
            ensure!(p == raw, "page number {v:#x} stored as {p:?}");
            o.ev("page-index-accepted", 1);
        } else {
            o.ev("page-index-refused", 1);
        }
        // Index entries made from it.
        for flags in [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 128, 255] {
            let e = no_panic("IndexEntry::try_from", || IndexEntry::try_from((raw, flags)))?;
            ensure!(e.is_ok() == (valid && flags < 8), "index entry of page {v:#x} with flags {flags} accepted: {}", e.is_ok());
            let Ok(e) = e else {
                o.ev("entry-refused", 1);
                continue;
            };
            let mut w = Cursor::new([0u8; 4]);
            e.write_options(&mut w, Endian::Little, ()).map_err(|e| e.to_string())?;
            ensure!(u32::from_le_bytes(*w.get_ref()) == v << 3 | u32::from(flags), "index entry of page {v:#x} flags {flags} stored as {:?}", *w.get_ref());
            ensure!(
                e.page_index().ok() == Some(raw) && e.index_flags() == flags && !e.is_empty(),
                "index entry of page {v:#x} flags {flags} reads back as {e:?}"
            );
            o.ev("entry-accepted", 1);
        }
        // Any stored entry.
        let e = IndexEntry::read_options(&mut Cursor::new(v.to_le_bytes()), Endian::Little, ()).map_err(|e| e.to_string())?;
        ensure!(e.index_flags() == (v & 7) as u8 && e.is_empty() == (v == 0x1FFF_FFF8), "stored entry {v:#x} misread");
        match e.page_index() {
            Ok(p) => ensure!(v >> 3 < 0x03FF_FFFF && p == pidx(v >> 3), "stored entry {v:#x} names page {p:?}"),
            Err(_) => ensure!(v >> 3 >= 0x03FF_FFFF, "stored entry {v:#x} names no page"),
        }
        no_panic("Debug of an index entry", || format!("{e:?}"))?;
        o.ev("entry-raw", 1);
        o.mark(&v.to_le_bytes());
    }
    let _ = Cursor::new(vec![0u8]).seek(SeekFrom::Start(0));
    ensure!(IndexEntry::empty().is_empty(), "the empty entry is not empty");
    let mut w = Cursor::new([0u8; 4]);
    IndexEntry::empty().write_options(&mut w, Endian::Little, ()).map_err(|e| e.to_string())?;
    ensure!(*w.get_ref() == 0x1FFF_FFF8u32.to_le_bytes(), "the empty entry is stored as {:?}", *w.get_ref());
    Ok(())
}

/// Page headers keep all their fields.
fn headers(r: &mut Rng, o: &mut Obs) -> R {
    let mut b = vec![0u8; 4];
    b.extend_from_slice(&r.u32_edgy().to_le_bytes());
    let ext = r.chance(1, 2);
    let ty = if r.chance(1, 2) { r.below(24) as u32 } else { r.u32_edgy() };
    b.extend_from_slice(&ty.to_le_bytes());
    b.extend_from_slice(&r.bytes(20));
    let h = no_panic("read header", || PageHeader::read_options(&mut Cursor::new(&b), Endian::Little, (dbt(ext),)))?
        .map_err(|e| format!("page header refused :: {e}"))?;
    let u32at = |p: usize| u32::from_le_bytes(b[p..p + 4].try_into().unwrap());
    let u16at = |p: usize| u16::from_le_bytes(b[p..p + 2].try_into().unwrap());
    ensure!(h.page_type == ptype(ext, ty), "page type {ty} read as {:?}", h.page_type);
    let rc = u32at(0x18) & 0xff_ffff;
    ensure!(
        (h.unknown1, h.unknown2, h.free_size, h.used_size, h.packed_row_counts.num_rows(), h.packed_row_counts.num_rows_valid())
            == (u32at(16), u32at(20), u16at(0x1c), u16at(0x1e), (rc & 0x1fff) as u16, (rc >> 13) as u16),
        "page header {h:?} for {b:02x?}"
    );
    let mut w = Cursor::new(vec![]);
    no_panic("write header", || h.write_options(&mut w, Endian::Little, ()))?.map_err(|e| format!("page header not written :: {e}"))?;
    if let Some(d) = first_diff(&b, w.get_ref()) {
        bail!("page header written differently :: {d}");
    }
    o.ev("page-header", 1);
    o.mark(&b);
    Ok(())
}

fn run(c: &mut Ctx) {
    c.case("flags", |_, o| small(o));
    for part in 0..64 {
        c.case("counters", move |_, o| counters(o, part));
    }
    for _ in 0..c.n(8) {
        c.case("numbers", numbers);
    }
    for _ in 0..c.n(2000) {
        c.case("header", headers);
    }
    for _ in 0..c.n(400) {
        c.case("saved", saved);
    }
    // Every fill level of the usual page size, sampled levels of others.
    for round in 0..c.n(1) {
        for n in 0..=1004 {
            let _ = round;
            c.case("index", move |r, o| index_page(r, o, 4096, n));
        }
        for n in 0..=108 {
            c.case("index", move |r, o| index_page(r, o, 512, n));
        }
        for n in 0..=5 {
            c.case("index", move |r, o| index_page(r, o, 100, n));
        }
        c.case("index", move |r, o| index_page(r, o, 80, 0));
        for _ in 0..30 {
            c.case("index", move |r, o| {
                let ps = 4 * r.range(20, 16384) as u32;
                let n = r.below((ps as usize - 80) / 4 + 1);
                index_page(r, o, ps, n)
            });
        }
    }
}
