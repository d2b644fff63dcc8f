//! C10: database edits are saved exactly and touch nothing else.
use super::pdbutil::*;
use super::Prop;
use crate::fw::{first_diff, no_panic, Ctx, Obs, R};
use crate::iomon::MonFile;
use crate::refpdb::{self as m, gen_db, Body, DbM, Enc, GenOpts, SStr, SAFE_ASCII};
use crate::rng::Rng;
use crate::{bail, ensure};
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::pdb::*;
use rekordcrate::util::TableIndex;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        level: "exploration",
        rule: "distinct (file, edit history) pairs that were saved, compared byte by byte with the edited model and reopened",
        required: &[
            "edit:track", "edit:playlist-node", "edit:playlist-entry", "edit:menu", "edit:column", "edit:artist",
            "edit:tag", "edit:track-tag", "edit:page-header", "edit:data-header", "edit:index", "edit:file-header",
            "edit:row-group", "edit:delete-row", "edit:restore-row", "edit:string", "edit:table-link", "unsaved", "saved", "reopened", "saved-twice", "edited-after-save",
            "whole-row", "grown-saved", "grown-refused", "grown-into-page-end",
            "table-added", "table-removed", "tables-refused",
        ],
        assumptions: &[
            "a string may outgrow its stored space: saving then either refuses and leaves the file alone, or the longer string is there and nothing else has changed",
            "expected bytes are the original file with exactly the edited fields patched by the independent encoder",
        ],
        run,
    }
}

/// A string that fits into the space of `old` (same or smaller stored size).
fn fitting(r: &mut Rng, old: &SStr) -> SStr {
    let n = old.text.chars().count();
    match old.enc {
        Enc::Isrc => SStr { text: (0..12).map(|_| *r.pick(SAFE_ASCII) as char).collect(), enc: Enc::Isrc },
        Enc::Short => {
            let k = if r.chance(1, 2) { n } else { r.below(n + 1) };
            SStr::new(&(0..k).map(|_| *r.pick(SAFE_ASCII) as char).collect::<String>())
        }
        Enc::LongAscii => {
            // same kind and length, or a short string in the same space
            if old.text.len() > 126 {
                SStr::new(&(0..old.text.len()).map(|_| *r.pick(SAFE_ASCII) as char).collect::<String>())
            } else {
                SStr::new(&(0..old.text.len()).map(|_| *r.pick(SAFE_ASCII) as char).collect::<String>())
            }
        }
        Enc::Utf16 => {
            let units = old.text.encode_utf16().count();
            for _ in 0..100 {
                let mut t = String::new();
                while t.encode_utf16().count() < units {
                    t.push(if r.chance(1, 3) { *r.pick(SAFE_ASCII) as char } else { m::uni_char(r) });
                }
                let s = SStr::new(&t);
                if t.encode_utf16().count() == units && s.enc == Enc::Utf16 && !s.ambiguous() {
                    return s;
                }
            }
            SStr::new("")
        }
    }
}

/// A string that may need more space than `old` has, by one byte or by a lot.
fn outgrowing(r: &mut Rng, old: &SStr) -> SStr {
    if old.enc == Enc::Isrc {
        return fitting(r, old);
    }
    let n = old.text.chars().count();
    let mut t: String = old.text.chars().filter(|c| old.enc != Enc::Utf16 || !c.is_ascii()).collect();
    let add = match r.below(6) {
        0 => 1,
        1 | 2 => 1 + r.below(12),
        3 | 4 => 1 + r.below(120),
        _ => 1 + r.below(5000),
    };
    while t.chars().count() < n + add {
        t.push(if r.chance(1, 40) { m::uni_char(r) } else { *r.pick(SAFE_ASCII) as char });
    }
    let s = SStr::new(&t);
    if s.ambiguous() {
        return fitting(r, old);
    }
    s
}

fn dstr(s: &SStr) -> DeviceSQLString {
    if s.enc == Enc::Isrc {
        DeviceSQLString::new_isrc(s.text.clone()).unwrap()
    } else {
        DeviceSQLString::new(&s.text).unwrap()
    }
}

/// A pending edit to the file image.
struct Img<'a> {
    b: &'a mut Vec<u8>,
    page_size: usize,
    /// Rows edited since the last save; only their state at saving time reaches the file.
    rows: &'a mut std::collections::BTreeMap<(u32, u16), m::RowM>,
}

impl Img<'_> {
    fn put(&mut self, at: usize, v: &[u8]) {
        self.b[at..at + v.len()].copy_from_slice(v);
    }
    fn row(&mut self, page: u32, off: u16, row: &m::RowM) {
        self.rows.insert((page, off), row.clone());
    }
}

/// Bring the pending rows into the image.
fn settle(image: &mut [u8], page_size: usize, rows: &mut std::collections::BTreeMap<(u32, u16), m::RowM>) {
    for ((page, off), row) in std::mem::take(rows) {
        row.encode_over(&mut image[page as usize * page_size + m::HEAP + off as usize..]);
    }
}

/// Edit one row in the model and in the database row; `None` = this row type has no public fields.
fn edit_row(r: &mut Rng, row: &mut Row, w: &mut m::RowM, o: &mut Obs, pick: fn(&mut Rng, &SStr) -> SStr) -> Option<&'static str> {
    macro_rules! num {
        ($dst:expr, $n:expr, $ty:ty) => {{
            let v = r.u32_edgy() as $ty;
            $dst = v;
            w.set($n, u32::from(v));
        }};
    }
    macro_rules! st {
        ($dst:expr, $n:expr) => {{
            let s = pick(r, w.str($n));
            $dst = dstr(&s);
            w.set_str($n, s);
            o.ev("edit:string", 1);
        }};
    }
    Some(match row {
        Row::Plain(PlainRow::Track(t)) => {
            match r.below(6) {
                0 => num!(t.rating, "rating", u8),
                1 => num!(t.artist_id.0, "artist_id", u32),
                2 => num!(t.id.0, "id", u32),
                3 => st!(t.offsets.inner.title, "title"),
                4 => st!(t.offsets.inner.file_path, "file_path"),
                _ => {
                    num!(t.rating, "rating", u8);
                    num!(t.id.0, "id", u32);
                }
            }
            "edit:track"
        }
        Row::Plain(PlainRow::Artist(t)) => {
            if r.chance(1, 2) {
                num!(t.id.0, "id", u32)
            } else {
                st!(t.offsets.inner.name, "name")
            }
            "edit:artist"
        }
        Row::Plain(PlainRow::PlaylistTreeNode(t)) => {
            match r.below(3) {
                0 => num!(t.parent_id.0, "parent_id", u32),
                1 => num!(t.id.0, "id", u32),
                _ => st!(t.name, "name"),
            }
            "edit:playlist-node"
        }
        Row::Plain(PlainRow::PlaylistEntry(t)) => {
            match r.below(3) {
                0 => num!(t.entry_index, "entry_index", u32),
                1 => num!(t.track_id.0, "track_id", u32),
                _ => num!(t.playlist_id.0, "playlist_id", u32),
            }
            "edit:playlist-entry"
        }
        Row::Plain(PlainRow::ColumnEntry(t)) => {
            st!(t.column_name, "column_name");
            "edit:column"
        }
        Row::Plain(PlainRow::Menu(t)) => {
            match r.below(5) {
                0 => num!(t.category_id, "category_id", u16),
                1 => num!(t.content_pointer, "content_pointer", u16),
                2 => num!(t.unknown, "unknown", u8),
                3 => num!(t.sort_order, "sort_order", u16),
                _ => {
                    let v = r.u8_edgy();
                    t.visibility = match v {
                        0 => MenuVisibility::Visible,
                        1 => MenuVisibility::Hidden,
                        x => MenuVisibility::Unknown(x),
                    };
                    w.set("visibility", u32::from(v));
                }
            }
            "edit:menu"
        }
        Row::Ext(ext::ExtRow::Tag(t)) => {
            match r.below(8) {
                0 => num!(t.index_shift, "index_shift", u16),
                1 => num!(t.unknown1, "unknown1", u32),
                2 => num!(t.unknown2, "unknown2", u32),
                3 => {
                    let v = r.u32_edgy();
                    t.parent_id.0 = std::num::NonZero::new(v);
                    w.set("parent_id", v);
                }
                4 => num!(t.position, "position", u32),
                5 => num!(t.id.0, "id", u32),
                6 => num!(t.raw_is_category, "raw_is_category", u32),
                _ => {
                    if r.chance(1, 2) {
                        st!(t.offsets.inner.name, "name")
                    } else {
                        st!(t.offsets.inner.unknown, "unknown")
                    }
                }
            }
            "edit:tag"
        }
        Row::Ext(ext::ExtRow::TrackTag(t)) => {
            match r.below(3) {
                0 => num!(t.track_id.0, "track_id", u32),
                1 => num!(t.tag_id.0, "tag_id", u32),
                _ => num!(t.unknown_const, "unknown_const", u32),
            }
            "edit:track-tag"
        }
        // Rows without public fields are replaced as a whole by one of the same stored size.
        Row::Plain(PlainRow::HistoryEntry(_)) => {
            for n in ["track_id", "playlist_id", "entry_index"] {
                w.set(n, r.u32_edgy());
            }
            *row = parse_row(w).ok()?;
            "whole-row"
        }
        Row::Plain(PlainRow::Genre(_) | PlainRow::Label(_) | PlainRow::HistoryPlaylist(_) | PlainRow::Key(_)) => {
            w.set("id", r.u32_edgy());
            let s = pick(r, w.str("name"));
            w.set_str("name", s);
            *row = parse_row(w).ok()?;
            "whole-row"
        }
        _ => return None,
    })
}

/// Apply one random edit to the opened database, the model and the expected image.
fn edit(db: &mut Database<MonFile>, want: &mut DbM, img: &mut Img, r: &mut Rng, o: &mut Obs) -> R {
    let err = |e: rekordcrate::util::RekordcrateError| format!("page of a well-formed file refused :: {e}");
    match r.below(10) {
        0 => {
            // file header
            match r.below(4) {
                0 => {
                    want.unknown = r.u32_edgy();
                    db.get_header_mut().unknown = want.unknown;
                    img.put(16, &want.unknown.to_le_bytes());
                }
                1 => {
                    want.sequence = r.u32_edgy();
                    db.get_header_mut().sequence = want.sequence;
                    img.put(20, &want.sequence.to_le_bytes());
                }
                2 => {
                    // Point past the end of the file, as rekordbox does.
                    want.next_unused = want.pages.len() as u32 + 1 + r.below(200) as u32;
                    db.get_header_mut().next_unused_page = pidx(want.next_unused);
                    img.put(12, &want.next_unused.to_le_bytes());
                }
                _ => {
                    // Shorten a table to a prefix of its pages.
                    let t = r.below(want.tables.len());
                    let keep = 1 + r.below(want.tables[t].pages.len());
                    want.tables[t].pages.truncate(keep);
                    let last = *want.tables[t].pages.last().unwrap();
                    let ty = ptype(want.ext, want.tables[t].ty);
                    if r.chance(1, 2) && want.tables.iter().position(|x| x.ty == want.tables[t].ty) == Some(t) {
                        let (i, tab) = db.get_header_mut().find_table_mut(ty).ok_or("table not found by its type")?;
                        ensure!(i == TableIndex::from(t), "find_table_mut returns table {i:?} instead of {t}");
                        tab.last_page = pidx(last);
                    } else {
                        db.get_header_mut().tables[t].last_page = pidx(last);
                    }
                    img.put(28 + 16 * t + 12, &last.to_le_bytes());
                    o.ev("edit:table-link", 1);
                }
            }
            o.ev("edit:file-header", 1);
        }
        1 | 2 => {
            // page header and content header
            let real: Vec<u32> = want.tables.iter().flat_map(|t| t.pages.iter().copied()).collect();
            let n = *r.pick(&real);
            let base = n as usize * img.page_size;
            let p = no_panic("load_page", || db.load_page(pidx(n)))?.map_err(err)?;
            let wp = want.page_mut(n);
            match r.below(6) {
                0 => {
                    wp.unknown1 = r.u32_edgy();
                    p.header.unknown1 = wp.unknown1;
                    img.put(base + 16, &wp.unknown1.to_le_bytes());
                    o.ev("edit:page-header", 1);
                }
                1 => {
                    wp.unknown2 = r.u32_edgy();
                    p.header.unknown2 = wp.unknown2;
                    img.put(base + 20, &wp.unknown2.to_le_bytes());
                    o.ev("edit:page-header", 1);
                }
                2 => {
                    wp.flags ^= *r.pick(&[1u8, 2, 4, 8, 0x10, 0x20, 0x80]);
                    let f = wp.flags;
                    p.header.page_flags.set_unknown0(f & 1 != 0);
                    p.header.page_flags.set_unknown1(f & 2 != 0);
                    p.header.page_flags.set_unknown2(f & 4 != 0);
                    p.header.page_flags.set_unknown3(f & 8 != 0);
                    p.header.page_flags.set_contains_deleted(f & 16 != 0);
                    p.header.page_flags.set_unknown5(f & 32 != 0);
                    p.header.page_flags.set_unknown7(f & 128 != 0);
                    img.put(base + 0x1b, &[f]);
                    o.ev("edit:page-header", 1);
                }
                _ => match (&mut wp.body, &mut p.content) {
                    (Body::Data(w), PageContent::Data(d)) => {
                        let toggled = (0..w.slots.len())
                            .filter(|i| {
                                let s = &w.slots[*i];
                                !s.row.is_opaque() && !img.rows.contains_key(&(n, s.offset))
                            })
                            .collect::<Vec<_>>();
                        if r.chance(1, 3) && !toggled.is_empty() {
                            // Delete a row or bring a deleted one back, as the presence flags and
                            // the counter of valid rows say it.
                            let i = *r.pick(&toggled);
                            let s = &mut w.slots[i];
                            let (g, bit) = (i / 16, 1u16 << (i % 16));
                            if s.present {
                                ensure!(d.rows.remove(&s.offset).is_some(), "present row is missing :: page {n} row {i}");
                            } else {
                                let row = parse_row(&s.row)?;
                                ensure!(d.rows.insert(s.offset, row).is_none(), "deleted row is present :: page {n} row {i}");
                            }
                            s.present = !s.present;
                            d.row_groups[g].row_presence_flags ^= bit;
                            let flags = d.row_groups[g].row_presence_flags;
                            o.ev(if s.present { "edit:restore-row" } else { "edit:delete-row" }, 1);
                            p.header.packed_row_counts.set_num_rows_valid(w.present() as u16);
                            let counts = w.slots.len() as u32 | ((w.present() as u32) << 13);
                            img.put(base + 0x18, &counts.to_le_bytes()[..3]);
                            img.put(base + img.page_size - 36 * g - 4, &flags.to_le_bytes());
                        } else if r.chance(1, 2) || w.group_unknown.is_empty() {
                            let i = r.below(4);
                            let v = r.u16_edgy();
                            w.unknown[i] = v;
                            match i {
                                0 => d.header.unknown5 = v,
                                1 => d.header.unknown_not_num_rows_large = v,
                                2 => d.header.unknown6 = v,
                                _ => d.header.unknown7 = v,
                            }
                            img.put(base + 0x20 + 2 * i, &v.to_le_bytes());
                            o.ev("edit:data-header", 1);
                        } else {
                            let g = r.below(w.group_unknown.len());
                            let v = r.u16_edgy();
                            w.group_unknown[g] = v;
                            d.row_groups[g].unknown = v;
                            img.put(base + img.page_size - 36 * g - 2, &v.to_le_bytes());
                            o.ev("edit:row-group", 1);
                        }
                    }
                    (Body::Index(w), PageContent::Index(x)) => {
                        match r.below(5) {
                            0 => {
                                w.next_offset = r.u16_edgy();
                                x.header.next_offset = w.next_offset;
                                img.put(base + 0x20 + 6, &w.next_offset.to_le_bytes());
                            }
                            1 => {
                                w.unknown_a = r.u16_edgy();
                                w.unknown_b = r.u16_edgy();
                                x.header.unknown_a = w.unknown_a;
                                x.header.unknown_b = w.unknown_b;
                                img.put(base + 0x20, &w.unknown_a.to_le_bytes());
                                img.put(base + 0x22, &w.unknown_b.to_le_bytes());
                            }
                            2 => {
                                w.first_empty = r.u16_edgy();
                                x.header.first_empty = w.first_empty;
                                img.put(base + 0x3a, &w.first_empty.to_le_bytes());
                            }
                            3 if !w.entries.is_empty() => {
                                let i = r.below(w.entries.len());
                                let e = (r.below(0x03FF_FFFF) as u32, r.below(8) as u8);
                                x.entries[i] = IndexEntry::try_from((pidx(e.0), e.1)).map_err(|e| e.to_string())?;
                                w.entries[i] = e.0 << 3 | u32::from(e.1);
                                img.put(base + 0x3c + 4 * i, &w.entries[i].to_le_bytes());
                            }
                            _ if !w.entries.is_empty() => {
                                // Remove the last entry: its slot becomes empty.
                                w.entries.pop();
                                x.entries.pop();
                                x.header.num_entries -= 1;
                                img.put(base + 0x38, &(w.entries.len() as u16).to_le_bytes());
                                img.put(base + 0x3c + 4 * w.entries.len(), &0x1FFF_FFF8u32.to_le_bytes());
                            }
                            _ => {}
                        }
                        o.ev("edit:index", 1);
                    }
                    _ => bail!("page kind of page {n} confused"),
                },
            }
        }
        _ => {
            // a row, reached by page or by typed iteration
            let cands: Vec<(u32, usize)> = want
                .tables
                .iter()
                .flat_map(|t| t.pages.iter())
                .flat_map(|p| match &want.page(*p).body {
                    Body::Data(d) => {
                        d.slots.iter().enumerate().filter(|(_, s)| s.present && !s.row.is_opaque()).map(|(i, _)| (*p, i)).collect()
                    }
                    _ => vec![],
                })
                .collect();
            if cands.is_empty() {
                return Ok(());
            }
            let (n, si) = *r.pick(&cands);
            let Body::Data(d) = &mut want.page_mut(n).body else { unreachable!() };
            let slot = &mut d.slots[si];
            let ty = slot.row.ty;
            let rc = &mut slot.row;
            let off = slot.offset;
            if ty == m::PLENTRIES && r.chance(1, 2) {
                // Through typed iteration over the whole table: change the matching row only.
                let key = (rc.get("entry_index"), rc.get("track_id"), rc.get("playlist_id"));
                let dup = want.tables.iter().filter(|t| t.ty == ty).flat_map(|t| want.rows(t)).filter(|x| {
                    (x.2.get("entry_index"), x.2.get("track_id"), x.2.get("playlist_id")) == key
                });
                if dup.count() == 1 {
                    let v = r.u32_edgy();
                    let mut hit = 0;
                    db.iter_rows::<PlaylistEntry>()
                        .and_then(|it| {
                            it.for_each(|e| {
                                if (e.entry_index, e.track_id.0, e.playlist_id.0) == key {
                                    e.entry_index = v;
                                    hit += 1;
                                }
                                Ok(())
                            })
                        })
                        .map_err(err)?;
                    ensure!(hit == 1, "typed iteration met the row {hit} times");
                    let Body::Data(d) = &mut want.page_mut(n).body else { unreachable!() };
                    d.slots[si].row.set("entry_index", v);
                    img.row(n, off, &d.slots[si].row);
                    o.ev("edit:playlist-entry", 1);
                    o.ev("edit:typed", 1);
                }
                return Ok(());
            }
            let p = no_panic("load_page", || db.load_page(pidx(n)))?.map_err(err)?;
            let Some(row) = p.content.as_data_mut().and_then(|d| d.rows.get_mut(&off)) else {
                bail!("present row at page {n} offset {off} is missing")
            };
            if let Some(k) = edit_row(r, row, rc, o, fitting) {
                img.row(n, off, rc);
                o.ev(k, 1);
            }
        }
    }
    Ok(())
}

/// Apply `n` random edits; `image` becomes what the file has to hold after the next save.
pub fn edits(db: &mut Database<MonFile>, want: &mut DbM, image: &mut Vec<u8>, r: &mut Rng, o: &mut Obs, n: usize) -> R {
    let mut pending = std::collections::BTreeMap::new();
    for _ in 0..n {
        let mut img = Img { b: image, page_size: want.page_size as usize, rows: &mut pending };
        edit(db, want, &mut img, r, o)?;
    }
    settle(image, want.page_size as usize, &mut pending);
    Ok(())
}

fn history(r: &mut Rng, o: &mut Obs, ext: bool, max_rows: usize) -> R {
    let opts = GenOpts { max_rows, max_str: 60, ..GenOpts::default() };
    let mut want = gen_db(r, ext, &opts);
    let orig = want.encode();
    o.input("PDB file", &orig);
    let io = MonFile::new(orig.clone());
    let mut image = orig.clone();
    let mut saved = orig.clone();
    let mut db = no_panic("open", || Database::open(io.clone(), dbt(ext)))?
        .map_err(|e| format!("well-formed file refused :: {e}"))?;
    let rounds = 1 + r.below(3);
    let mut edits = 0;
    let mut pending = std::collections::BTreeMap::new();
    for round in 0..rounds {
        for _ in 0..1 + r.below(10) {
            let mut img = Img { b: &mut image, page_size: want.page_size as usize, rows: &mut pending };
            edit(&mut db, &mut want, &mut img, r, o)?;
            edits += 1;
            if round > 0 {
                o.ev("edited-after-save", 1);
            }
        }
        if let Some(d) = first_diff(&saved, &io.data()) {
            bail!("unsaved edits changed the file :: {d}");
        }
        if round + 1 < rounds {
            no_panic("flush", || db.flush())?.map_err(|e| format!("saving fails :: {e}"))?;
            settle(&mut image, want.page_size as usize, &mut pending);
            saved = image.clone();
            if let Some(d) = first_diff(&image, &io.data()) {
                bail!("saved file differs from the edited fields :: {d}");
            }
            o.ev("saved", 1);
            if r.chance(1, 3) {
                no_panic("flush", || db.flush())?.map_err(|e| format!("saving fails :: {e}"))?;
                o.ev("saved-twice", 1);
                if let Some(d) = first_diff(&image, &io.data()) {
                    bail!("saving again changed the file :: {d}");
                }
            }
        }
    }
    if r.chance(1, 5) {
        drop(db);
        if let Some(d) = first_diff(&saved, &io.data()) {
            bail!("unsaved edits changed the file :: {d}");
        }
        o.ev("unsaved", 1);
        return Ok(());
    }
    if r.chance(1, 2) {
        no_panic("close", || db.close())?.map_err(|e| format!("closing fails :: {e}"))?;
    } else {
        no_panic("flush", || db.flush())?.map_err(|e| format!("saving fails :: {e}"))?;
    }
    o.ev("saved", 1);
    settle(&mut image, want.page_size as usize, &mut pending);
    let got = io.data();
    if let Some(d) = first_diff(&image, &got) {
        bail!("saved file differs from the edited fields :: {d}");
    }
    // Reopen and compare everything with the edited model.
    let mut db = open_ro(&got, ext).map_err(|e| format!("saved file cannot be opened :: {e}"))?;
    check_db(&mut db, &want)?;
    o.ev("reopened", 1);
    o.mark(&got);
    o.sample(format!("{} edits in {rounds} rounds on {} pages, {} bytes changed", edits, want.pages.len(),
        orig.iter().zip(&got).filter(|(a, b)| a != b).count()));
    Ok(())
}

/// Rows whose strings outgrow their stored space.
fn grown(r: &mut Rng, o: &mut Obs, ext: bool) -> R {
    let opts = GenOpts { max_rows: 1 + r.below(30), max_str: 40, ..GenOpts::default() };
    let mut want = gen_db(r, ext, &opts);
    let orig = want.encode();
    o.input("PDB file", &orig);
    let ps = want.page_size as usize;
    let mut cands = vec![];
    for t in &want.tables {
        for p in &t.pages {
            if let Body::Data(d) = &want.page(*p).body {
                let last = d.slots.iter().map(|s| s.offset).max();
                for (i, s) in d.slots.iter().enumerate() {
                    if s.present && !s.row.is_opaque() {
                        cands.push((*p, i, Some(s.offset) == last));
                    }
                }
            }
        }
    }
    if cands.is_empty() {
        return Ok(());
    }
    let io = MonFile::new(orig.clone());
    let mut db = no_panic("open", || Database::open(io.clone(), dbt(ext)))?
        .map_err(|e| format!("well-formed file refused :: {e}"))?;
    for _ in 0..1 + r.below(3) {
        // Prefer the last row of a page: it has free space behind it.
        let (n, si, _) = loop {
            let c = *r.pick(&cands);
            if c.2 || r.chance(1, 2) {
                break c;
            }
            if !cands.iter().any(|c| c.2) {
                break c;
            }
        };
        let p = no_panic("load_page", || db.load_page(pidx(n)))?.map_err(|e| format!("page of a well-formed file refused :: {e}"))?;
        let Body::Data(d) = &mut want.page_mut(n).body else { unreachable!() };
        let slot = &mut d.slots[si];
        let Some(row) = p.content.as_data_mut().and_then(|d| d.rows.get_mut(&slot.offset)) else {
            bail!("present row at page {n} offset {} is missing", slot.offset)
        };
        for _ in 0..4 {
            if edit_row(r, row, &mut slot.row, o, outgrowing).is_none() {
                break;
            }
        }
        if m::HEAP + slot.offset as usize + slot.row.size() > ps - 36 {
            o.ev("grown-into-page-end", 1);
        }
    }
    if r.chance(1, 4) {
        // Saving in spite of an earlier refusal is refused again.
        let _ = no_panic("flush", || db.flush())?;
    }
    let done = no_panic("flush", || db.flush())?;
    let got = io.data();
    match done {
        Err(_) => {
            if let Some(d) = first_diff(&orig, &got) {
                // Pages saved before the refused one carry their edits: only those may differ.
                let mut db = open_ro(&got, ext).map_err(|e| format!("refused save makes the file unreadable :: {d}: {e}"))?;
                let old = open_ro(&orig, ext).map_err(|e| format!("well-formed file refused :: {e}"))?;
                partly(&mut db, old, &want)?;
                o.ev("grown-partly", 1);
            }
            o.ev("grown-refused", 1);
        }
        Ok(()) => {
            let mut db = open_ro(&got, ext).map_err(|e| format!("saved file cannot be opened :: {e}"))?;
            check_db(&mut db, &want)?;
            o.ev("grown-saved", 1);
        }
    }
    o.mark(&got);
    Ok(())
}

/// After a refused save every page is either as it was or as edited.
fn partly(db: &mut Database<Mem>, mut old: Database<Mem>, want: &DbM) -> R {
    for t in &want.tables {
        for n in &t.pages {
            let was = no_panic("load_page", || old.load_page(pidx(*n)).map(|p| format!("{p:?}")))?.map_err(|e| format!("page of a well-formed file refused :: {e}"))?;
            let now = no_panic("load_page", || db.load_page(pidx(*n)).map(|p| (format!("{p:?}"), check_page(p, want.page(*n), want.ext, want.page_size as usize))))?
                .map_err(|e| format!("page cannot be read after a refused save :: {e}"))?;
            if now.0 != was {
                now.1.map_err(|e| format!("refused save left a page that is neither old nor edited :: page {n}: {e}"))?;
            }
        }
    }
    Ok(())
}

/// Changes of the list of tables in the file header.
fn tables(r: &mut Rng, o: &mut Obs, ext: bool) -> R {
    let opts = GenOpts { max_rows: 5, max_str: 20, ..GenOpts::default() };
    let want = gen_db(r, ext, &opts);
    let orig = want.encode();
    o.input("PDB file", &orig);
    let io = MonFile::new(orig.clone());
    let mut db = no_panic("open", || Database::open(io.clone(), dbt(ext)))?
        .map_err(|e| format!("well-formed file refused :: {e}"))?;
    let n = want.tables.len();
    if n == 0 {
        return Ok(());
    }
    let fit = (want.page_size as usize - 28) / 16;
    let h = db.get_header_mut();
    let mut image = orig.clone();
    // bytes of the file that no edited field occupies any more
    let mut free = 0..0;
    let put = |b: &mut Vec<u8>, at: usize, v: u32| b[at..at + 4].copy_from_slice(&v.to_le_bytes());
    let valid = match r.below(4) {
        0 if n > 1 => {
            let k = r.below(n);
            h.tables.truncate(k);
            h.num_tables = k as u32;
            put(&mut image, 8, k as u32);
            free = 28 + 16 * k..28 + 16 * n;
            o.ev("table-removed", 1);
            true
        }
        1 => {
            // The number of tables does not match the list.
            match r.below(4) {
                0 => h.num_tables += 1 + r.below(3) as u32,
                1 => h.num_tables = h.num_tables.saturating_sub(1 + r.below(3) as u32),
                2 => {
                    h.tables.pop();
                }
                _ => h.tables.push(h.tables[0].clone()),
            }
            if h.num_tables as usize == h.tables.len() {
                return Ok(());
            }
            false
        }
        2 => {
            // More tables than the header page can hold, by one or by some.
            let k = fit + 1 + r.below(4);
            while h.tables.len() < k {
                h.tables.push(h.tables[0].clone());
            }
            h.num_tables = k as u32;
            false
        }
        _ => {
            let k = (n + 1 + r.below(3)).min(fit);
            for i in n..k {
                let from = r.below(n);
                let mut t = h.tables[from].clone();
                let first = r.below(1000) as u32;
                let last = 1000 + r.below(1000) as u32;
                t.first_page = pidx(first);
                t.last_page = pidx(last);
                for (j, v) in [want.tables[from].ty, want.tables[from].empty_candidate, first, last].into_iter().enumerate() {
                    put(&mut image, 28 + 16 * i + 4 * j, v);
                }
                h.tables.push(t);
            }
            h.num_tables = k as u32;
            put(&mut image, 8, k as u32);
            o.ev("table-added", 1);
            true
        }
    };
    let done = no_panic("flush", || db.flush())?;
    let mut got = io.data();
    if valid {
        done.map_err(|e| format!("saving fails :: {e}"))?;
        let all = db.get_header().tables.clone();
        let again = open_ro(&got, ext).map_err(|e| format!("saved file cannot be opened :: {e}"))?;
        ensure!(again.get_header().tables == all, "saved tables differ :: {:?} for {all:?}", again.get_header().tables);
        got[free.clone()].copy_from_slice(&image[free]);
        if let Some(d) = first_diff(&image, &got) {
            bail!("saved file differs from the edited fields :: {d}");
        }
    } else {
        ensure!(done.is_err(), "header that contradicts itself or exceeds its page is saved :: {} tables, {} counted, {fit} fit",
            db.get_header().tables.len(), db.get_header().num_tables);
        if let Some(d) = first_diff(&orig, &got) {
            bail!("refused save changed the file :: {d}");
        }
        o.ev("tables-refused", 1);
    }
    o.mark(&got);
    Ok(())
}

fn run(c: &mut Ctx) {
    for i in 0..c.n(600) {
        c.case("tables", move |r, o| tables(r, o, i % 4 == 3));
    }
    for i in 0..c.n(3_000) {
        c.case("grown", move |r, o| grown(r, o, i % 4 == 3));
    }
    for i in 0..c.n(12_000) {
        c.case("history", move |r, o| history(r, o, i % 4 == 3, if i % 9 == 0 { 120 } else { 25 }));
    }
}
