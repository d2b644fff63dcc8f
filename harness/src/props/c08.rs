//! C08: database rows are decoded exactly as stored.
use super::pdbutil::*;
use super::Prop;
use crate::fw::{no_panic, Ctx, Obs, R};
use crate::refpdb::{self as m, gen_db, gen_row, DbM, GenOpts, RowM};
use crate::rng::Rng;
use crate::{bail, ensure};
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use std::io::Cursor;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        level: "exploration",
        rule: "distinct generated database files (or rows) whose rows were all compared field by field",
        required: &[
            "rows", "pages", "row-type:plain:0", "row-type:plain:3", "row-type:plain:7", "row-type:plain:19",
            "row-type:ext:3", "row-type:ext:4", "deleted-rows", "unknown-pages", "index-pages", "iter_rows",
            "u16-offsets", "full-groups", "slots-in-large-index",
            "row-conversions",
        ],
        assumptions: &[
            "the reference encoder follows the published export.pdb / exportExt.pdb description (crate-digger, rekordcrate docs)",
            "private row fields are observed through the Debug output that the dump commands print",
        ],
        run,
    }
}

fn note(db: &DbM, o: &mut Obs) {
    for t in &db.tables {
        for p in &t.pages {
            match &db.page(*p).body {
                m::Body::Index(_) => o.ev("index-pages", 1),
                m::Body::Data(d) => {
                    if m::schema(db.ext, t.ty).is_none() {
                        o.ev("unknown-pages", 1);
                        continue;
                    }
                    o.ev("deleted-rows", (d.slots.len() - d.present()) as u64);
                    o.ev("full-groups", (d.slots.len() / 16) as u64);
                    o.ev("u16-offsets", d.slots.iter().filter(|s| s.row.u16_offsets()).count() as u64);
                    o.ev(&format!("row-type:{}:{}", if db.ext { "ext" } else { "plain" }, t.ty), d.present() as u64);
                }
            }
        }
    }
}

/// Typed iteration and public fields.
fn typed(db: &mut Database<Mem>, want: &DbM, o: &mut Obs) -> R {
    macro_rules! ty {
        ($t:ty, $ext:expr, $num:expr, |$row:ident, $w:ident| $body:expr) => {
            if want.ext == $ext {
                if let Some(t) = want.tables.iter().find(|t| t.ty == $num) {
                    let ws: Vec<RowM> = want.rows(t).into_iter().map(|x| x.2).collect();
                    let mut it = no_panic("iter_rows", || db.iter_rows::<$t>())?.map_err(|e| format!("iter_rows :: {e}"))?;
                    for ($w, i) in ws.iter().zip(0..) {
                        let Some($row) = no_panic("row iteration", || it.next())?.map_err(|e| format!("row iteration :: {e}"))?
                        else { bail!("iter_rows of type {} ends after {i} of {} rows", $num, ws.len()) };
                        let $row: &$t = $row;
                        { $body };
                        o.ev("iter_rows", 1);
                    }
                    let end = no_panic("row iteration", || it.next())?.map_err(|e| format!("row iteration :: {e}"))?;
                    ensure!(end.is_none(), "iter_rows of type {} reports more than the {} stored rows", $num, ws.len());
                } else {
                    ensure!(no_panic("iter_rows", || db.iter_rows::<$t>().map(|_| ()))?.is_err(), "iter_rows of an absent table succeeds");
                }
            }
        };
    }
    fn eqs(got: &string::DeviceSQLString, w: &RowM, n: &str) -> R {
        let g = got.clone().into_string().map_err(|e| format!("{n} :: {e}"))?;
        ensure!(g == w.str(n).text, "{n} of type {} is {g:?}, stored {:?}", w.ty, w.str(n).text);
        Ok(())
    }
    fn eqn(got: u32, w: &RowM, n: &str) -> R {
        ensure!(got == w.get(n), "{n} of type {} is {got}, stored {}", w.ty, w.get(n));
        Ok(())
    }
    fn whole<T: Clone>(row: &T, w: &RowM, mk: impl Fn(T) -> Row) -> R {
        check_row(&mk(row.clone()), w)
    }
    ty!(Track, false, m::TRACKS, |t, w| {
        whole(t, w, |x| Row::Plain(PlainRow::Track(x)))?;
        eqn(t.id.0, w, "id")?;
        eqn(t.artist_id.0, w, "artist_id")?;
        eqn(u32::from(t.rating), w, "rating")?;
        eqs(&t.offsets.title, w, "title")?;
        eqs(&t.offsets.inner.file_path, w, "file_path")?;
    });
    ty!(Artist, false, m::ARTISTS, |t, w| {
        whole(t, w, |x| Row::Plain(PlainRow::Artist(x)))?;
        eqn(t.id.0, w, "id")?;
        eqs(&t.offsets.name, w, "name")?;
    });
    ty!(Album, false, m::ALBUMS, |t, w| whole(t, w, |x| Row::Plain(PlainRow::Album(x)))?);
    ty!(Genre, false, m::GENRES, |t, w| whole(t, w, |x| Row::Plain(PlainRow::Genre(x)))?);
    ty!(Label, false, m::LABELS, |t, w| whole(t, w, |x| Row::Plain(PlainRow::Label(x)))?);
    ty!(Key, false, m::KEYS, |t, w| whole(t, w, |x| Row::Plain(PlainRow::Key(x)))?);
    ty!(Color, false, m::COLORS, |t, w| whole(t, w, |x| Row::Plain(PlainRow::Color(x)))?);
    ty!(Artwork, false, m::ARTWORK, |t, w| whole(t, w, |x| Row::Plain(PlainRow::Artwork(x)))?);
    ty!(HistoryPlaylist, false, m::HISTPL, |t, w| whole(t, w, |x| Row::Plain(PlainRow::HistoryPlaylist(x)))?);
    ty!(HistoryEntry, false, m::HISTENT, |t, w| whole(t, w, |x| Row::Plain(PlainRow::HistoryEntry(x)))?);
    ty!(History, false, m::HISTORY, |t, w| whole(t, w, |x| Row::Plain(PlainRow::History(x)))?);
    ty!(ColumnEntry, false, m::COLUMNS, |t, w| {
        whole(t, w, |x| Row::Plain(PlainRow::ColumnEntry(x)))?;
        eqs(&t.column_name, w, "column_name")?;
    });
    ty!(Menu, false, m::MENU, |t, w| {
        whole(t, w, |x| Row::Plain(PlainRow::Menu(x)))?;
        eqn(u32::from(t.category_id), w, "category_id")?;
        eqn(u32::from(t.content_pointer), w, "content_pointer")?;
        eqn(u32::from(t.unknown), w, "unknown")?;
        eqn(u32::from(t.sort_order), w, "sort_order")?;
        let v = match t.visibility {
            MenuVisibility::Visible => 0,
            MenuVisibility::Hidden => 1,
            MenuVisibility::Unknown(x) => u32::from(x),
        };
        eqn(v, w, "visibility")?;
    });
    ty!(PlaylistTreeNode, false, m::PLTREE, |t, w| {
        whole(t, w, |x| Row::Plain(PlainRow::PlaylistTreeNode(x)))?;
        eqn(t.id.0, w, "id")?;
        eqn(t.parent_id.0, w, "parent_id")?;
        eqs(&t.name, w, "name")?;
        ensure!(t.is_folder() == (w.get("node_is_folder") != 0), "is_folder {} for {}", t.is_folder(), w.get("node_is_folder"));
    });
    ty!(PlaylistEntry, false, m::PLENTRIES, |t, w| {
        whole(t, w, |x| Row::Plain(PlainRow::PlaylistEntry(x)))?;
        eqn(t.entry_index, w, "entry_index")?;
        eqn(t.track_id.0, w, "track_id")?;
        eqn(t.playlist_id.0, w, "playlist_id")?;
    });
    Ok(())
}

/// Conversions of rows and page contents to what they hold.
fn conversions(db: &mut Database<Mem>, want: &DbM, o: &mut Obs) -> R {
    for t in &want.tables {
        for p in &t.pages {
            let page = db.load_page(pidx(*p)).map_err(|e| format!("load_page :: {e}"))?;
            let is_data = matches!(want.page(*p).body, m::Body::Data(_)) && m::schema(want.ext, t.ty).is_some();
            let is_index = matches!(want.page(*p).body, m::Body::Index(_));
            let c = &mut page.content;
            if is_data || is_index {
                ensure!(c.as_data().is_some() == is_data, "as_data on page {p}");
                ensure!(c.as_data_mut().is_some() == is_data, "as_data_mut on page {p}");
                ensure!(c.as_index().is_some() == is_index, "as_index on page {p}");
                ensure!(c.as_index_mut().is_some() == is_index, "as_index_mut on page {p}");
            }
            ensure!(c.clone().into_data().as_ref() == c.as_data(), "into_data on page {p}");
            ensure!(c.clone().into_index().as_ref() == c.as_index(), "into_index on page {p}");
            let Some(d) = c.as_data_mut() else { continue };
            for row in d.rows.values_mut() {
                let copy = row.clone();
                macro_rules! variant {
                    ($t:ident, $num:expr) => {
                        let it_is = !want.ext && t.ty == $num;
                        ensure!(<$t as RowVariant>::PAGE_TYPE == ptype(false, $num), "page type of {}", stringify!($t));
                        match (&copy, row.as_variant::<$t>()) {
                            (Row::Plain(PlainRow::$t(x)), Some(y)) if it_is => ensure!(x == y, "as_variant: {y:?} for {x:?}"),
                            (_, None) if !it_is => {}
                            (_, y) => bail!("as_variant of {} for a row of table {}: {y:?}", stringify!($t), t.ty),
                        }
                        match (&copy, row.as_variant_mut::<$t>()) {
                            (Row::Plain(PlainRow::$t(x)), Some(y)) if it_is => ensure!(x == y, "as_variant_mut: {y:?} for {x:?}"),
                            (_, None) if !it_is => {}
                            (_, y) => bail!("as_variant_mut of {} for a row of table {}: {y:?}", stringify!($t), t.ty),
                        }
                    };
                }
                variant!(Track, m::TRACKS);
                variant!(Artist, m::ARTISTS);
                variant!(Album, m::ALBUMS);
                variant!(Genre, m::GENRES);
                variant!(Label, m::LABELS);
                variant!(Key, m::KEYS);
                variant!(Color, m::COLORS);
                variant!(Artwork, m::ARTWORK);
                variant!(HistoryPlaylist, m::HISTPL);
                variant!(HistoryEntry, m::HISTENT);
                variant!(History, m::HISTORY);
                variant!(ColumnEntry, m::COLUMNS);
                variant!(Menu, m::MENU);
                variant!(PlaylistTreeNode, m::PLTREE);
                variant!(PlaylistEntry, m::PLENTRIES);
                o.ev("row-conversions", 1);
            }
        }
    }
    Ok(())
}

fn ext_public(db: &mut Database<Mem>, want: &DbM) -> R {
    if !want.ext {
        return Ok(());
    }
    for t in want.tables.iter().filter(|t| t.ty == m::EXT_TAG || t.ty == m::EXT_TRACKTAG) {
        let ws = want.rows(t);
        let mut i = 0;
        let mut it = db.iter_pages(ptype(true, t.ty)).map_err(|e| format!("iter_pages :: {e}"))?;
        while let Some(p) = it.next().map_err(|e| format!("pages :: {e}"))? {
            let Some(d) = p.content.as_data() else { continue };
            for row in d.rows.values() {
                let w = &ws[i].2;
                i += 1;
                match row {
                    Row::Ext(ext::ExtRow::Tag(x)) => {
                        ensure!(x.id.0 == w.get("id") && x.position == w.get("position"), "tag {x:?}");
                        ensure!(x.parent_id.0.map_or(0, |v| v.get()) == w.get("parent_id"), "tag parent {x:?}");
                        ensure!(x.raw_is_category == w.get("raw_is_category"), "tag kind {x:?}");
                        ensure!(x.offsets.name.to_string() == w.str("name").text, "tag name {x:?}");
                        ensure!(x.offsets.unknown.to_string() == w.str("unknown").text, "tag text {x:?}");
                        ensure!(u32::from(x.subtype.0) == w.get("subtype"), "tag subtype");
                    }
                    Row::Ext(ext::ExtRow::TrackTag(x)) => {
                        ensure!(x.track_id.0 == w.get("track_id") && x.tag_id.0 == w.get("tag_id"), "track tag {x:?}");
                        ensure!(x.unknown_const == w.get("unknown_const"), "track tag {x:?}");
                    }
                    x => bail!("ext row reported as {x:?}"),
                }
            }
        }
        ensure!(i == ws.len(), "{i} rows of {}", ws.len());
    }
    Ok(())
}

fn check(want: &DbM, o: &mut Obs) -> R {
    let f = want.encode();
    o.input("PDB file", &f);
    let mut db = open_ro(&f, want.ext)?;
    let (pages, rows) = check_db(&mut db, want)?;
    o.ev("pages", pages);
    o.ev("rows", rows);
    // Second walk over already loaded pages, by page type.
    for t in &want.tables {
        if want.tables.iter().filter(|u| u.ty == t.ty).count() > 1 {
            continue;
        }
        let n = db
            .iter_pages(ptype(want.ext, t.ty))
            .and_then(|it| it.map(|p| Ok(p.header.page_index)).collect::<Vec<_>>())
            .map_err(|e| format!("iter_pages :: {e}"))?;
        let w: Vec<_> = t.pages.iter().map(|p| pidx(*p)).collect();
        ensure!(n == w, "iter_pages visits {n:?} instead of {w:?}");
    }
    typed(&mut db, want, o)?;
    // And typed iteration on a database of which nothing is loaded.
    let mut db = open_ro(&f, want.ext)?;
    typed(&mut db, want, o)?;
    ext_public(&mut db, want)?;
    if want.pages.len() < 12 {
        conversions(&mut db, want, o)?;
    }
    note(want, o);
    o.mark(&f);
    o.sample(format!(
        "{} file, page size {}, {} pages, tables {:?}, {rows} present rows compared",
        if want.ext { "ext" } else { "plain" },
        want.page_size,
        want.pages.len(),
        want.tables.iter().map(|t| (t.ty, t.pages.len())).collect::<Vec<_>>()
    ));
    Ok(())
}

fn one_row(r: &mut Rng, ext: bool, ty: u32, max: usize) -> RowM {
    gen_row(r, ext, ty, max)
}

fn run(c: &mut Ctx) {
    // Single rows: every type, many field values, and consumption of exactly the stored fields.
    let types: Vec<(bool, u32)> =
        m::PLAIN_TYPES.iter().map(|t| (false, *t)).chain(m::EXT_TYPES.iter().map(|t| (true, *t))).collect();
    for i in 0..c.n(170) {
        let (ext, ty) = types[i % types.len()];
        c.case("single-rows", move |r, o| {
            for _ in 0..40 {
                let w = one_row(r, ext, ty, 300);
                let b = w.encode();
                o.input("row", &b);
                let row = parse_row(&w)?;
                check_row(&row, &w)?;
                o.ev("single-rows", 1);
                o.mark(&b);
            }
            Ok(())
        });
    }
    for i in 0..c.n(1500) {
        c.case("database", move |r, o| {
            let ext = i % 5 == 4;
            let big = i % 10 == 3;
            let opts = GenOpts {
                max_rows: if big { 300 } else { 40 },
                max_pages: if big { 8 } else { 4 },
                ..GenOpts::default()
            };
            let db = gen_db(r, ext, &opts);
            check(&db, o)
        });
    }
    // Dense pages: as many tiny rows as fit, so that the row index meets the heap.
    for i in 0..c.n(60) {
        c.case("dense", move |r, o| {
            let page_size = *r.pick(&[4096u32, 1024, 8192]);
            let ext = i % 4 == 3;
            let ty = if ext { m::EXT_TRACKTAG } else { *r.pick(&[m::MENU, m::PLENTRIES, m::HISTENT, m::GENRES]) };
            let mut bodies = vec![];
            for _ in 0..2 {
                let del = r.chance(1, 2);
                let (d, _) = m::gen_data_page(r, page_size as usize, del, |r| Some(gen_row(r, ext, ty, 3)));
                bodies.push(m::Body::Data(d));
            }
            let db = m::assemble(r, ext, page_size, vec![(ty, bodies)]);
            check(&db, o)
        });
    }
    // Row indexes up to the 8191 slots that the header can count.
    for i in 0..c.n(40) {
        c.case("many-slots", move |r, o| {
            let ext = i % 4 == 3;
            let page_size = *r.pick(&[65536u32, 32768, 16384, 4096]);
            let ty = if ext { m::EXT_TRACKTAG } else { *r.pick(&[m::MENU, m::PLENTRIES, m::HISTENT, m::GENRES, m::ARTISTS]) };
            let d = m::gen_many_slots(r, ext, ty, page_size as usize);
            o.ev("slots-in-large-index", d.slots.len() as u64);
            let db = m::assemble(r, ext, page_size, vec![(ty, vec![m::Body::Data(d)])]);
            check(&db, o)
        });
    }
    // Small real fixtures shipped with the repository: they must open and walk.
    c.case("fixtures", |_, o| {
        for f in fixtures() {
            let ext = f.to_string_lossy().contains("Ext");
            let b = std::fs::read(&f).map_err(|e| e.to_string())?;
            let mut db = open_ro(&b, ext)?;
            let n = db.get_header().tables.len();
            for t in 0..n {
                let mut it = db.iter_pages_for_table(rekordcrate::util::TableIndex::from(t)).map_err(|e| e.to_string())?;
                while let Some(p) = it.next().map_err(|e| format!("fixture {f:?} :: {e}"))? {
                    if let Some(d) = p.content.as_data() {
                        o.ev("fixture-rows", d.rows.len() as u64);
                        for row in d.rows.values() {
                            if *row != Row::Unknown {
                                row_fields(row).map(|_| ()).ok();
                            }
                        }
                    }
                }
            }
            o.mark(&b);
        }
        let _ = Cursor::new(());
        Ok(())
    });
}

pub fn fixtures() -> Vec<std::path::PathBuf> {
    let mut v = vec![];
    let mut st = vec![std::path::PathBuf::from("/repo/data")];
    while let Some(d) = st.pop() {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                st.push(p);
            } else if p.extension().is_some_and(|x| x == "pdb") {
                v.push(p);
            }
        }
    }
    v.sort();
    v
}
