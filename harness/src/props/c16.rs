//! C16: XML documents survive serialization and deserialization unchanged.
use super::Prop;
use crate::fw::{no_panic, Ctx, Obs, R};
use crate::refxml::{self as m, Gen, Style};
use crate::rng::Rng;
use crate::{bail, ensure};
use rekordcrate::xml::*;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        level: "exploration",
        rule: "distinct documents serialized, inspected with an independent XML reader and read back equal",
        required: &[
            "documents", "elements", "decoded-variants", "empty-collections", "empty-folders", "empty-playlists", "nested-folders",
            "absent-attributes", "shuffled", "fixture-elements", "deep-documents", "single-attributes", "huge-documents",
        ],
        assumptions: &[
            "documents are serialized and read with quick-xml as in the documentation and the command-line tool",
            "folders nest at most 100 deep; numbers are finite",
        ],
        run,
    }
}

pub fn de(s: &str) -> Result<Document, String> {
    let a = no_panic("from_str", || quick_xml::de::from_str::<Document>(s))?.map_err(|e| format!("document refused :: {e}"))?;
    let b = no_panic("from_reader", || quick_xml::de::from_reader::<_, Document>(s.as_bytes()))?
        .map_err(|e| format!("document refused from a reader :: {e}"))?;
    ensure!(a == b, "from_str and from_reader disagree");
    Ok(a)
}

/// Where two documents differ, by their reference trees and printed forms.
fn ddiff(a: &Document, b: &Document) -> String {
    m::diff(&m::to_el(a), &m::to_el(b), "").unwrap_or_else(|| "not visible in the reference form".into())
}

fn generic(e: &str) -> String {
    // Keep element and attribute names, drop values: used as the violation key.
    e.split(" is ").next().unwrap_or(e).to_string()
}

pub fn check(r: &mut Rng, d: &Document, o: &mut Obs) -> R {
    let want = m::to_el(d);
    o.ev("documents", 1);
    o.ev("elements", want.count() as u64);
    if d.collection.track.is_empty() {
        o.ev("empty-collections", 1);
    }
    fn walk(f: &PlaylistFolderNode, depth: usize, o: &mut Obs) {
        if f.nodes.is_empty() {
            o.ev("empty-folders", 1);
        }
        if depth > 0 {
            o.ev("nested-folders", 1);
        }
        for n in &f.nodes {
            match n {
                PlaylistGenericNode::Folder(f) => walk(f, depth + 1, o),
                PlaylistGenericNode::Playlist(p) if p.tracks.is_empty() => o.ev("empty-playlists", 1),
                PlaylistGenericNode::Playlist(_) => {}
            }
        }
    }
    walk(&d.playlists.node, 0, o);
    o.ev("absent-attributes", d.collection.track.iter().map(|t| t.name.is_none() as u64 + t.size.is_none() as u64 + t.lastplayed.is_none() as u64).sum());

    let s = no_panic("to_string", || quick_xml::se::to_string(d))?.map_err(|e| format!("cannot serialize :: {e}"))?;
    o.input("serialized document", s.as_bytes());
    o.mark(s.as_bytes());
    let el = m::parse(&s).map_err(|e| format!("output is not well-formed XML :: {e}"))?;
    // A text with tabs or line breaks that only lost them to the space character.
    let blank = |e: &m::El| spaces(e.clone());
    let lossy = blank(&want) != want && el != want && m::diff(&el, &blank(&want), "").is_none();
    if let (false, Some(x)) = (lossy, m::diff(&el, &want, "")) {
        bail!("output has {} :: {x}", generic(&x));
    }
    let back = de(&s)?;
    let mut lost = false;
    if lossy && m::to_el(&back) == blank(&want) {
        lost = true;
    } else if back != *d {
        let x = ddiff(&back, d);
        bail!("read back unequal, {} :: {x}", generic(&x));
    }
    // The same document as others may write it.
    for _ in 0..2 {
        let st = Style::random(r);
        let x = m::write(r, &want, &st);
        o.input("document written by the reference writer", x.as_bytes());
        let back = de(&x)?;
        if back != *d {
            let x = ddiff(&back, d);
            bail!("decoded to other values, {} :: {x}", generic(&x));
        }
        o.ev("decoded-variants", 1);
        if st.shuffle {
            o.ev("shuffled", 1);
        }
    }
    ensure!(!lost, "tabs and line breaks are written unescaped and read back as spaces");
    Ok(())
}

/// What attribute-value normalisation makes of unescaped white space.
fn spaces(mut e: m::El) -> m::El {
    for a in &mut e.attrs {
        a.1 = a.1.replace("\r\n", " ").replace(['\t', '\n', '\r'], " ");
    }
    e.kids = e.kids.into_iter().map(spaces).collect();
    e
}

pub fn base_doc() -> Document {
    Document {
        version: "1.0.0".into(),
        product: Product { name: "rekordbox".into(), version: "5.8.6".into(), company: "Pioneer DJ".into() },
        collection: Collection { entries: 0, track: vec![] },
        playlists: Playlists { node: PlaylistFolderNode { name: "ROOT".into(), nodes: vec![] } },
    }
}

fn run(c: &mut Ctx) {
    c.case("empty", |r, o| check(r, &base_doc(), o));
    // Every optional attribute alone, absent from an otherwise full track, and empty.
    for i in 0..64 {
        c.case("single attribute", |r, o| {
            let g = Gen { wsc: false, max: 2, depth: 0 };
            let mut d = base_doc();
            let mut t = loop {
                let t = g.track(r);
                if t.name.is_some() && t.mix.is_some() && t.size.is_some() && m::to_el(&doc_with(&t)).kids[1].kids[0].attrs.len() >= 26 {
                    break t;
                }
            };
            let full = t.clone();
            if i >= 32 {
                let e = g.track(r);
                t = Track { location: "file://localhost/a".into(), trackid: e.trackid, ..none_track() };
            }
            macro_rules! opts { ($($k:expr => $f:ident),*) => { $( if i % 32 == $k { t.$f = if i >= 32 { full.$f.clone() } else { None }; } )* } }
            opts!(0 => name, 1 => artist, 2 => composer, 3 => album, 4 => grouping, 5 => genre, 6 => kind, 7 => size, 8 => totaltime,
                9 => discnumber, 10 => tracknumber, 11 => year, 12 => averagebpm, 13 => datemodified, 14 => dateadded, 15 => bitrate,
                16 => samplerate, 17 => comments, 18 => playcount, 19 => lastplayed, 20 => rating, 21 => remixer, 22 => tonality,
                23 => label, 24 => mix, 25 => colour);
            if i % 32 == 26 { t.name = Some(String::new()); t.comments = Some(String::new()); t.lastplayed = Some(String::new()); t.colour = Some(String::new()); }
            d.collection.track.push(t);
            d.collection.entries = 1;
            o.ev("single-attributes", 1);
            check(r, &d, o)
        });
    }
    for _ in 0..c.n(3000) {
        c.case("document", |r, o| {
            let g = Gen { wsc: false, max: *r.pick(&[1usize, 3, 6]), depth: r.below(4) };
            let d = g.doc(r);
            o.sample(format!("{d:?}"));
            check(r, &d, o)
        });
    }
    for _ in 0..c.n(300) {
        c.case("text with line breaks or tabs", |r, o| {
            let g = Gen { wsc: true, max: 3, depth: 1 };
            let d = g.doc(r);
            check(r, &d, o)
        });
    }
    for _ in 0..c.n(40) {
        c.case("deep", |r, o| {
            let mut d = base_doc();
            let mut f = PlaylistFolderNode { name: "leaf".into(), nodes: vec![] };
            for i in 0..r.range(10, 100) {
                let mut nodes = vec![PlaylistGenericNode::Folder(f)];
                if r.chance(1, 3) {
                    nodes.insert(r.below(2), PlaylistGenericNode::Playlist(PlaylistPlaylistNode { name: format!("p{i}"), keytype: "0".into(), tracks: vec![] }));
                }
                f = PlaylistFolderNode { name: format!("f{i}"), nodes };
            }
            d.playlists.node = f;
            o.ev("deep-documents", 1);
            // Documents that were refused before must not matter.
            if r.chance(1, 2) {
                for _ in 0..60 {
                    let (a, z) = (r#"<NODE Type="0" Name="n" Count="1">"#.repeat(400), "</NODE>".repeat(400));
                    let t = format!(
                        r#"<DJ_PLAYLISTS Version="1"><PRODUCT Name="a" Version="b" Company="c"/><COLLECTION Entries="0"/><PLAYLISTS>{a}{z}</PLAYLISTS></DJ_PLAYLISTS>"#
                    );
                    let refused = quick_xml::de::from_str::<Document>(&t).is_err();
                    o.ev("refused-before", u64::from(refused));
                }
            }
            check(r, &d, o)
        });
    }
    for _ in 0..c.n(4) {
        c.case("large", |r, o| {
            let g = Gen { wsc: false, max: 60, depth: 1 };
            let d = g.doc(r);
            check(r, &d, o)
        });
    }
    // More elements of one kind than 16 bits count, and texts longer than that.
    for _ in 0..c.n(1) {
        c.case("huge", move |r, o| {
            let i = r.below(6);
            let n = *r.pick(&[65_535usize, 65_536, 65_537, 66_000]);
            let mut d = base_doc();
            let mut t = Track { trackid: 1, location: "file://localhost/a.mp3".into(), ..none_track() };
            let list = |name: String, tracks| PlaylistGenericNode::Playlist(PlaylistPlaylistNode { name, keytype: "0".into(), tracks });
            match i {
                0 => d.playlists.node.nodes.push(list("p".into(), (0..n).map(|k| PlaylistTrack { key: k as i32 }).collect())),
                1 => d.playlists.node.nodes = (0..n).map(|k| list(format!("p{k}"), vec![])).collect(),
                2 => {
                    d.collection.track = (0..n).map(|k| Track { trackid: k as i32, location: format!("file://localhost/{k}"), ..none_track() }).collect();
                    d.collection.entries = n as i32;
                }
                3 => t.tempos = (0..n).map(|k| Tempo { inizio: k as f64, bpm: 120.0, metro: "4/4".into(), battito: 1 }).collect(),
                4 => {
                    t.position_marks = (0..n)
                        .map(|k| PositionMark { name: format!("m{k}"), mark_type: 0, start: k as f64, end: None, num: k as i32 })
                        .collect()
                }
                _ => {
                    t.comments = Some((0..n).map(|_| (0x20 + r.below(0x5f) as u8) as char).collect());
                    d.playlists.node.nodes.push(list("x&é".repeat(n), vec![]));
                }
            }
            if i >= 3 {
                d.collection.track.push(t);
                d.collection.entries = 1;
            }
            o.ev("huge-documents", 1);
            check(r, &d, o)
        });
    }
    c.case("playlist by location", |_, o| {
        let s = r#"<DJ_PLAYLISTS Version="1.0.0"><PRODUCT Name="rekordbox" Version="5.8.6" Company="Pioneer DJ"/><COLLECTION Entries="1"><TRACK TrackID="1" Location="file://localhost/a.mp3"/></COLLECTION><PLAYLISTS><NODE Type="0" Name="ROOT" Count="1"><NODE Type="1" Name="p" Entries="1" KeyType="1"><TRACK Key="file://localhost/a.mp3"/></NODE></NODE></PLAYLISTS></DJ_PLAYLISTS>"#;
        o.input("playlist keyed by location", s.as_bytes());
        let d = de(s).map_err(|e| format!("playlist keyed by track location refused :: {e}"))?;
        ensure!(format!("{d:?}").contains("key: \"file://localhost/a.mp3\""), "key lost");
        Ok(())
    });
    c.case("fixture", |_, o| {
        let p = super::c07::data_dir().join("xml/database.xml");
        let Ok(s) = std::fs::read_to_string(p) else { return Ok(()) };
        let want = m::parse(&s)?;
        let d = de(&s)?;
        if let Some(x) = m::diff(&m::to_el(&d), &want, "") {
            bail!("fixture decoded to other values :: {x}");
        }
        o.ev("fixture-elements", want.count() as u64);
        let s2 = no_panic("to_string", || quick_xml::se::to_string(&d))?.map_err(|e| e.to_string())?;
        ensure!(m::diff(&m::parse(&s2)?, &want, "").is_none(), "fixture rewritten differently :: {:?}", m::diff(&m::parse(&s2)?, &want, ""));
        o.mark(s.as_bytes());
        Ok(())
    });
}

fn doc_with(t: &Track) -> Document {
    let mut d = base_doc();
    d.collection.track.push(t.clone());
    d
}
fn none_track() -> Track {
    Track {
        trackid: 0, name: None, artist: None, composer: None, album: None, grouping: None, genre: None, kind: None, size: None,
        totaltime: None, discnumber: None, tracknumber: None, year: None, averagebpm: None, datemodified: None, dateadded: None,
        bitrate: None, samplerate: None, comments: None, playcount: None, lastplayed: None, rating: None, location: String::new(),
        remixer: None, tonality: None, label: None, mix: None, colour: None, tempos: vec![], position_marks: vec![],
    }
}
