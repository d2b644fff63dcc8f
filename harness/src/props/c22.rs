//! C22: results do not depend on where in a stream a value lies, nor on how the stream delivers it.
use super::pdbutil::*;
use super::Prop;
use crate::fw::{first_diff, hex, no_panic, Ctx, Obs, R};
use crate::iomon::MonFile;
use crate::refanlz::{self as ma, AnlzM};
use crate::refpdb::{self as m, Body, PageM};
use crate::refsetting as ms;
use crate::refxml;
use crate::rng::Rng;
use crate::{bail, ensure};
use binrw::{BinRead, BinResult, BinWrite, Endian};
use rekordcrate::anlz;
use rekordcrate::pdb::bitfields::{PackedRowCounts, PageFlags};
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::pdb::*;
use rekordcrate::setting::Setting;
use rekordcrate::xml::Document;
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Seek, SeekFrom};

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        level: "exploration",
        rule: "distinct (value, position, way of delivery) triples whose reading and writing was compared with the same at the start of a plain stream",
        required: &[
            "anlz-file", "anlz-section", "anlz-cue", "anlz-ext-cue", "anlz-beat", "anlz-header", "setting", "string", "row", "page-data",
            "page-index", "db-header", "page-header", "row-counts", "index-entry", "odd-position", "trailing-bytes", "short-reads", "short-writes",
            "interrupted", "databases", "database-saves", "xml-readers", "wide-text", "lined-up",
        ],
        assumptions: &["where the stream stands after a row, or after reading a page, is not promised and not judged"],
        run,
    }
}

/// A stream that holds `data`, transfers as it likes, and stands at `pos`.
fn stream(r: &mut Rng, data: Vec<u8>, pos: usize, o: &mut Obs, writing: bool) -> MonFile {
    let mut f = MonFile::new(data);
    {
        let mut s = f.st.borrow_mut();
        if r.chance(3, 4) {
            let n = r.range(1, 4);
            s.chunks = (0..n).map(|_| if r.chance(1, 4) { 1 } else { r.range(1, 24) }).collect();
            o.ev(if writing { "short-writes" } else { "short-reads" }, 1);
        }
        if r.chance(1, 2) {
            s.interrupt_every = r.range(2, 5) as u64;
            o.ev("interrupted", 1);
        }
    }
    f.seek(SeekFrom::Start(pos as u64)).unwrap();
    f
}

/// What is promised about the position afterwards: it is where the bytes of the value end.
#[derive(PartialEq, Clone, Copy)]
enum Ends {
    /// After reading and after writing.
    Both,
    /// After writing.
    Write,
    No,
}
use Ends::*;

#[allow(clippy::too_many_arguments)]
fn thing<T: PartialEq + Debug>(
    r: &mut Rng,
    o: &mut Obs,
    name: &str,
    b: &[u8],
    align: usize,
    ends: Ends,
    rd: impl Fn(&mut MonFile) -> BinResult<T>,
    wr: impl Fn(&T, &mut MonFile) -> BinResult<()>,
) -> R {
    o.input(name, b);
    let mut plain = MonFile::new(b.to_vec());
    let a = no_panic("read", || rd(&mut plain))?.map_err(|e| format!("well-formed {name} refused at the start of a stream :: {e}"))?;
    if ends == Both {
        let at = plain.stream_position().unwrap();
        ensure!(at as usize == b.len(), "reading a {name} of {} bytes ends at {at}", b.len());
    }
    // What writing at the start of a stream changes.
    let mut img = vec![];
    for fill in [0x00u8, 0xff] {
        let mut f = MonFile::new(vec![fill; b.len() + 64]);
        no_panic("write", || wr(&a, &mut f))?.map_err(|e| format!("{name} cannot be written at the start of a stream :: {e}"))?;
        if ends != No {
            let at = f.stream_position().unwrap();
            ensure!(at as usize == b.len(), "writing a {name} of {} bytes ends at {at}", b.len());
        }
        img.push(f.data());
    }
    ensure!(img[0].len() == img[1].len(), "{name} written with {} or {} bytes", img[0].len(), img[1].len());
    let mask: Vec<bool> = img[0].iter().zip(&img[1]).map(|(x, y)| x == y).collect();
    for i in 0..mask.len() {
        ensure!(!mask[i] || i < b.len() && img[0][i] == b[i], "{name} written differently at {i} :: {} for {}", hex(&img[0]), hex(b));
    }
    for _ in 0..3 {
        let p = match r.below(4) {
            0 => align * r.below(4),
            1 => align * r.range(1, 40),
            2 => align * r.range(1, 3000),
            _ => (1 << r.range(8, 16)) / align * align + align * r.below(3),
        };
        o.ev("odd-position", (p % 2) as u64);
        let tail = if r.chance(1, 2) { 0 } else { r.range(1, 60) };
        o.ev("trailing-bytes", u64::from(tail > 0));
        let mut data = r.bytes(p);
        data.extend_from_slice(b);
        data.extend(r.bytes(tail));
        let mut f = stream(r, data.clone(), p, o, false);
        let x = no_panic("read", || rd(&mut f))?
            .map_err(|e| format!("{name} refused elsewhere in a stream :: at {p} with {tail} bytes behind: {e}"))?;
        ensure!(x == a, "{name} read differently elsewhere in a stream :: at {p} with {tail} bytes behind: {x:?} for {a:?}");
        let at = f.stream_position().unwrap() as usize;
        ensure!(ends != Both || at == p + b.len(), "reading a {name} of {} bytes at {p} ends at {at}", b.len());
        ensure!(f.data() == data, "reading changed the stream");
        // Writing.
        let n = p + mask.len() + tail;
        let old = r.bytes(n);
        let mut f = stream(r, old.clone(), p, o, true);
        no_panic("write", || wr(&a, &mut f))?.map_err(|e| format!("{name} cannot be written elsewhere in a stream :: at {p}: {e}"))?;
        let mut want = old;
        for (i, w) in mask.iter().enumerate() {
            if *w {
                want[p + i] = b[i];
            }
        }
        if let Some(d) = first_diff(&want, &f.data()) {
            bail!("{name} written differently elsewhere in a stream :: at {p}: {d}");
        }
        let at = f.stream_position().unwrap() as usize;
        ensure!(ends == No || at == p + b.len(), "writing a {name} of {} bytes at {p} ends at {at}", b.len());
        o.ev(name, 1);
        let mut h = (p as u64).to_le_bytes().to_vec();
        h.extend_from_slice(b);
        o.mark(&h);
    }
    Ok(())
}

fn analysis(r: &mut Rng, o: &mut Obs, kind: usize) -> R {
    let s = ma::gen_section(r, kind, 12);
    let sb = s.encode();
    thing(r, o, "anlz-section", &sb, 1, Both,
        |f| anlz::Section::read_options(f, Endian::Big, ()),
        |x, f| x.write_options(f, Endian::Big, ()))?;
    thing(r, o, "anlz-header", &sb[..12], 1, Both,
        |f| anlz::Header::read_options(f, Endian::Big, ()),
        |x, f| x.write_options(f, Endian::Big, ()))?;
    let n = r.below(20);
    let mut w = AnlzM { header_data: r.bytes(n), sections: vec![s] };
    for _ in 0..r.below(4) {
        let k = r.below(ma::KINDS);
        w.sections.push(ma::gen_section(r, k, 8));
    }
    thing(r, o, "anlz-file", &w.encode(), 1, Both, anlz::ANLZ::read, |x, f| x.write(f))?;
    let c = ma::gen_cue(r).encode();
    thing(r, o, "anlz-cue", &c, 1, Both,
        |f| anlz::Cue::read_options(f, Endian::Big, ()),
        |x, f| x.write_options(f, Endian::Big, ()))?;
    let c = ma::gen_extcue(r, 20).encode();
    thing(r, o, "anlz-ext-cue", &c, 1, Both,
        |f| anlz::ExtendedCue::read_options(f, Endian::Big, ()),
        |x, f| x.write_options(f, Endian::Big, ()))?;
    let c = r.bytes(8);
    thing(r, o, "anlz-beat", &c, 1, Both,
        |f| anlz::Beat::read_options(f, Endian::Big, ()),
        |x, f| x.write_options(f, Endian::Big, ()))?;
    // Length, text, terminator.
    let text = ma::gen_text(r, 20);
    let u: Vec<u16> = text.encode_utf16().chain([0]).collect();
    let mut c = ((u.len() * 2) as u32).to_be_bytes().to_vec();
    c.extend(u.iter().flat_map(|x| x.to_be_bytes()));
    if !text.contains('\0') && !text.is_empty() {
        thing(r, o, "wide-text", &c, 1, Both,
            |f| anlz::LenPrefixedWideString::read_options(f, Endian::Big, ()),
            |x, f| x.write_options(f, Endian::Big, ()))?;
    }
    Ok(())
}

fn database_parts(r: &mut Rng, o: &mut Obs) -> R {
    let s = m::sstr(r, 60);
    let b = s.encode();
    thing(r, o, "string", &b, 1, Both,
        |f| DeviceSQLString::read_options(f, Endian::Little, ()),
        |x, f| x.write_options(f, Endian::Little, ()))?;
    let ext = r.chance(1, 3);
    let ty = if ext { *r.pick(&m::EXT_TYPES) } else { *r.pick(&m::PLAIN_TYPES) };
    if m::schema(ext, ty).is_some() {
        let w = m::gen_row(r, ext, ty, 60);
        if !w.is_blank() {
            thing(r, o, "row", &w.encode(), 4, No,
                |f| Row::read_options(f, Endian::Little, (ptype(ext, ty),)),
                |x, f| x.write_options(f, Endian::Little, ()))?;
        }
    }
    let mut want = m::gen_db(r, ext, &m::GenOpts { max_rows: 20, max_str: 40, max_pages: 2, ..Default::default() });
    want.page_size = want.page_size.max(28);
    let ps = want.page_size;
    thing(r, o, "db-header", &want.header(), 1, Both,
        |f| Header::read_options(f, Endian::Little, (dbt(ext),)),
        |x, f| x.write_options(f, Endian::Little, (dbt(ext),)))?;
    let mut pages: Vec<&PageM> = want.pages.iter().flatten().collect();
    while pages.len() > 4 {
        let i = r.below(pages.len());
        pages.remove(i);
    }
    for p in pages {
        let b = p.encode(ps as usize);
        // Four bytes between rows, as in files.
        let name = if matches!(p.body, Body::Index(_)) { "page-index" } else { "page-data" };
        thing(r, o, name, &b, 4, Write,
            |f| Page::read_options(f, Endian::Little, (ps, dbt(ext))),
            |x, f| x.write_options(f, Endian::Little, (ps,)))?;
        thing(r, o, "page-header", &b[..32], 1, Both,
            |f| PageHeader::read_options(f, Endian::Little, (dbt(ext),)),
            |x, f| x.write_options(f, Endian::Little, ()))?;
        thing(r, o, "row-counts", &b[0x18..0x1b], 1, Both,
            |f| PackedRowCounts::read_options(f, Endian::Little, ()),
            |x, f| x.write_options(f, Endian::Little, ()))?;
        thing(r, o, "page-flags", &b[0x1b..0x1c], 1, Both,
            |f| PageFlags::read_options(f, Endian::Little, ()),
            |x, f| x.write_options(f, Endian::Little, ()))?;
    }
    let e = if r.chance(1, 5) { 0x1FFF_FFF8 } else { (r.u32_edgy() % 0x03FF_FFFF) << 3 | r.below(8) as u32 };
    thing(r, o, "index-entry", &e.to_le_bytes(), 1, Both,
        |f| IndexEntry::read_options(f, Endian::Little, ()),
        |x, f| x.write_options(f, Endian::Little, ()))
}

fn settings(r: &mut Rng, o: &mut Obs) -> R {
    let k = ms::kinds();
    let mut all = vec![];
    for kind in 0..4 {
        let mut w = ms::FileM::default(&k, kind);
        w.randomize(r, &k);
        let b = w.encode();
        let t = k[kind].typ;
        thing(r, o, "setting", &b, 1, Both, |f| Setting::read_args(f, (t,)), |x, f| x.write(f))?;
        all.push((t, b));
    }
    // All four after each other in one stream.
    r.shuffle(&mut all);
    let whole: Vec<u8> = all.iter().flat_map(|x| x.1.clone()).collect();
    let mut f = stream(r, whole.clone(), 0, o, false);
    let mut g = stream(r, vec![], 0, o, true);
    for (t, b) in &all {
        let x = Setting::read_args(&mut f, (*t,)).map_err(|e| format!("settings in a row cannot be read :: {e}"))?;
        let y = Setting::read_args(&mut Cursor::new(b), (*t,)).map_err(|e| e.to_string())?;
        ensure!(x == y, "settings in a row read differently");
        x.write(&mut g).map_err(|e| format!("settings in a row cannot be written :: {e}"))?;
    }
    ensure!(g.data() == whole, "settings in a row written differently");
    o.ev("lined-up", 4);
    Ok(())
}

/// Whole databases behind streams with short and interrupted transfers.
fn databases(r: &mut Rng, o: &mut Obs) -> R {
    let ext = r.chance(1, 3);
    let want = m::gen_db(r, ext, &m::GenOpts { max_rows: 60, ..Default::default() });
    let b = want.encode();
    o.input("PDB file", &b);
    let f = stream(r, b.clone(), 0, o, false);
    let mut db = no_panic("open", || Database::open_non_persistent(f.clone(), dbt(ext)))?
        .map_err(|e| format!("database refused behind short transfers :: {e}"))?;
    check_db(&mut db, &want)?;
    drop(db);
    o.ev("databases", 1);
    o.mark(&b);
    // Saved through short writes: as through plain ones.
    let plain = MonFile::new(b.clone());
    let odd = stream(r, b, 0, o, true);
    let pages: Vec<u32> = want.tables.iter().flat_map(|t| t.pages.clone()).filter(|_| r.chance(2, 3)).collect();
    let (seq, u1) = (r.u32(), r.u32());
    for f in [&plain, &odd] {
        let mut db = Database::open(f.clone(), dbt(ext)).map_err(|e| format!("database refused :: {e}"))?;
        for (i, p) in pages.iter().enumerate() {
            let p = db.load_page(pidx(*p)).map_err(|e| format!("page refused :: {e}"))?;
            if i % 2 == 0 {
                p.header.unknown1 = u1;
            }
        }
        db.get_header_mut().sequence = seq;
        no_panic("close", || db.close())?.map_err(|e| format!("database cannot be saved behind short transfers :: {e}"))?;
    }
    if let Some(d) = first_diff(&plain.data(), &odd.data()) {
        bail!("database saved differently through short writes :: {d}");
    }
    o.ev("database-saves", 1);
    Ok(())
}

fn xml(r: &mut Rng, o: &mut Obs) -> R {
    let g = refxml::Gen { wsc: false, max: 3, depth: 3 };
    let d = g.doc(r);
    let s = quick_xml::se::to_string(&d).map_err(|e| format!("cannot serialize :: {e}"))?;
    o.input("XML document", s.as_bytes());
    let a: Document = quick_xml::de::from_str(&s).map_err(|e| format!("document refused :: {e}"))?;
    for _ in 0..3 {
        let f = stream(r, s.clone().into_bytes(), 0, o, false);
        let cap = r.range(1, 40);
        let x: Document = no_panic("from_reader", || quick_xml::de::from_reader(BufReader::with_capacity(cap, f)))?
            .map_err(|e| format!("document refused behind short reads :: {e}"))?;
        ensure!(x == a, "document read differently behind short reads :: {x:?}");
        o.ev("xml-readers", 1);
    }
    o.mark(s.as_bytes());
    Ok(())
}

fn run(c: &mut Ctx) {
    for i in 0..c.n(700) {
        c.case("analysis", move |r, o| analysis(r, o, i % ma::KINDS));
        c.case("database-parts", database_parts);
        c.case("settings", settings);
        c.case("databases", databases);
        c.case("xml", xml);
    }
}
