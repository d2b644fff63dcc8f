//! C06: analysis content is decoded to the stored values.
use super::Prop;
use crate::dbg;
use crate::fw::{no_panic, Ctx, Obs, R};
use crate::iomon::MonFile;
use crate::refanlz::{self as m, AnlzM, SecM};
use crate::rng::Rng;
use crate::{bail, ensure};
use binrw::BinRead;
use rekordcrate::anlz::*;
use std::io::Cursor;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        level: "exploration",
        rule: "distinct analysis files of which every section was compared value by value with the reference model",
        required: &[
            "sections", "sec:PQTZ", "sec:PCOB", "sec:PCO2", "sec:PPTH", "sec:PVBR", "sec:PWAV", "sec:PWV2", "sec:PWV3",
            "sec:PWV4", "sec:PWV5", "sec:PWV6", "sec:PWV7", "sec:PSSI", "sec:other", "encrypted-songs", "plain-songs",
            "song-twins", "chunked-reads", "interrupted-reads", "fixture-sections", "huge-songs", "public-values",
            "long-sections",
        ],
        assumptions: &[
            "the reference decoder follows the published ANLZ description (djl-analysis, Kaitai spec)",
            "section headers have the published length; paths carry a terminator",
            "song-structure values and unknown sections are only visible through the Debug output",
        ],
        run,
    }
}

pub fn parse(b: &[u8]) -> Result<ANLZ, String> {
    no_panic("read", || ANLZ::read(&mut Cursor::new(b)))?.map_err(|e| format!("well-formed file refused :: {e}"))
}

fn kind_of(s: &SecM) -> ContentKind {
    use ContentKind as K;
    match s {
        SecM::Beats { .. } => K::BeatGrid,
        SecM::Cues { .. } => K::CueList,
        SecM::ExtCues { .. } => K::ExtendedCueList,
        SecM::Path(_) => K::Path,
        SecM::Vbr { .. } => K::VBR,
        SecM::Preview { .. } => K::WaveformPreview,
        SecM::Tiny { .. } => K::TinyWaveformPreview,
        SecM::Detail(_) => K::WaveformDetail,
        SecM::ColorPreview { .. } => K::WaveformColorPreview,
        SecM::ColorDetail { .. } => K::WaveformColorDetail,
        SecM::Band3Preview(_) => K::Waveform3BandPreview,
        SecM::Band3Detail(_) => K::Waveform3BandDetail,
        SecM::Song(_) => K::SongStructure,
        SecM::Unknown { kind, .. } => K::Unknown(*kind),
    }
}

/// Values available through public fields.
fn public(c: &Content, want: &SecM, o: &mut Obs) -> R {
    let mut n = 0u64;
    match (c, want) {
        (Content::BeatGrid(b), SecM::Beats { beats, .. }) => {
            ensure!(b.beats.len() == beats.len(), "{} beats for {}", b.beats.len(), beats.len());
            for (g, w) in b.beats.iter().zip(beats) {
                ensure!((g.beat_number, g.tempo, g.time) == *w, "beat {g:?} for {w:?}");
                n += 3;
            }
        }
        (Content::CueList(l), SecM::Cues { ty, cues, .. }) => {
            ensure!((l.list_type == CueListType::HotCues) == (*ty == 1), "cue list type {:?} for {ty}", l.list_type);
            ensure!(l.cues.len() == cues.len(), "{} cues for {}", l.cues.len(), cues.len());
            for (g, w) in l.cues.iter().zip(cues) {
                ensure!(
                    (g.hot_cue, g.status, g.order_first, g.order_last, g.time, g.loop_time)
                        == (w.hot, w.status, w.first, w.last, w.time, w.loop_time),
                    "cue {g:?} for {w:?}"
                );
                ensure!((g.cue_type == CueType::Loop) == (w.ty == 2), "cue type {g:?} for {w:?}");
                n += 7;
            }
        }
        (Content::ExtendedCueList(l), SecM::ExtCues { ty, cues }) => {
            ensure!((l.list_type == CueListType::HotCues) == (*ty == 1), "cue list type {:?} for {ty}", l.list_type);
            ensure!(l.cues.len() == cues.len(), "{} extended cues for {}", l.cues.len(), cues.len());
            for (g, w) in l.cues.iter().zip(cues) {
                ensure!(
                    (g.hot_cue, g.time, g.loop_time, g.loop_numerator, g.loop_denominator, g.hot_cue_color_index)
                        == (w.hot, w.time, w.loop_time, w.num, w.den, w.color_index),
                    "extended cue {g:?} for {w:?}"
                );
                ensure!(g.hot_cue_color_rgb == (w.rgb[0], w.rgb[1], w.rgb[2]), "cue colour {g:?} for {w:?}");
                ensure!(g.comment.0 == w.text(), "cue comment {:?} for {:?}", g.comment.0, w.text());
                ensure!(g.trailing == w.trailing, "cue trailing bytes {:?} for {:?}", g.trailing, w.trailing);
                ensure!((g.cue_type == CueType::Loop) == (w.ty == 2), "cue type {g:?} for {w:?}");
                n += 10;
            }
        }
        (Content::Path(p), SecM::Path(w)) => {
            ensure!(&p.path.0 == w, "path {:?} for {w:?}", p.path.0);
            n += 1;
        }
        (Content::WaveformPreview(p), SecM::Preview { data, .. }) => {
            for (g, w) in p.data.iter().zip(data) {
                ensure!((g.height(), g.whiteness()) == (w & 31, w >> 5), "preview column {g:?} for {w:#x}");
            }
            n += data.len() as u64;
        }
        (Content::TinyWaveformPreview(p), SecM::Tiny { data, .. }) => {
            for (g, w) in p.data.iter().zip(data) {
                ensure!(g.height() == w & 15, "tiny preview column {g:?} for {w:#x}");
            }
            n += data.len() as u64;
        }
        (Content::WaveformColorDetail(p), SecM::ColorDetail { data, .. }) => {
            for (g, w) in p.data.iter().zip(data) {
                ensure!(
                    [g.red(), g.green(), g.blue(), g.height()].map(u16::from)
                        == [w >> 13, w >> 10 & 7, w >> 7 & 7, w >> 2 & 31],
                    "colour column {g:?} for {w:#x}"
                );
            }
            n += data.len() as u64;
        }
        _ => {}
    }
    o.ev("public-values", n);
    Ok(())
}

/// Compare every value of a parsed file with the model.
pub fn check(a: &ANLZ, want: &AnlzM, o: &mut Obs) -> R {
    ensure!(a.header.kind == ContentKind::File, "file kind {:?}", a.header.kind);
    ensure!(a.header_data == want.header_data, "file header bytes {:?}", a.header_data);
    ensure!(a.sections.len() == want.sections.len(), "{} sections reported for {}", a.sections.len(), want.sections.len());
    for (i, (s, w)) in a.sections.iter().zip(&want.sections).enumerate() {
        let name = m::KIND_NAMES[w.kind_no()];
        let len = w.encode().len() as u32;
        ensure!(s.header.kind == kind_of(w), "section kind {name} reported as {:?}", s.header.kind);
        ensure!(s.header.total_size == len, "section {i} size {:?} for {len}", s.header);
        public(&s.content, w, o).map_err(|e| format!("{name} decoded wrongly :: section {i}: {e}"))?;
        if !matches!(w, SecM::Path(_)) {
            let t = no_panic("Debug of a section", || format!("{:?}", s.content))?;
            let got = dbg::parse(&t).map_err(|e| format!("cannot read Debug output :: {e}: {t}"))?.flat();
            dbg::same_fields(&got, &w.expect()).map_err(|e| format!("{name} decoded wrongly :: section {i}: {e}"))?;
        }
        o.ev("sections", 1);
        o.ev(&format!("sec:{name}"), 1);
        if let SecM::Song(x) = w {
            o.ev(if x.encrypted { "encrypted-songs" } else { "plain-songs" }, 1);
        }
    }
    Ok(())
}

fn song_data(a: &ANLZ) -> Result<String, String> {
    let Content::SongStructure(s) = &a.sections[0].content else { bail!("song structure lost") };
    let t = dbg::parse(&format!("{s:?}")).map_err(|e| format!("cannot read Debug output :: {e}"))?;
    Ok(format!("{:?}", t.flat().into_iter().filter(|(n, _)| n != "is_encrypted").collect::<Vec<_>>()))
}

pub fn read_chunked(b: &[u8], chunks: &[usize], interrupt: u64) -> Result<ANLZ, String> {
    let mut f = MonFile::new(b.to_vec());
    f.st.borrow_mut().chunks = chunks.to_vec();
    f.st.borrow_mut().interrupt_every = interrupt;
    no_panic("read", || ANLZ::read(&mut f))?
        .map_err(|e| format!("result depends on the transfer sizes :: {e} with transfers of {chunks:?}, interrupts {interrupt}"))
}

fn song_file(s: m::SongM) -> AnlzM {
    AnlzM { header_data: vec![0; 16], sections: vec![SecM::Song(s)] }
}

pub fn fixtures() -> Vec<std::path::PathBuf> {
    let mut v = vec![];
    let mut st = vec![std::path::PathBuf::from("/repo/data")];
    while let Some(d) = st.pop() {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                st.push(p);
            } else if p.file_name().is_some_and(|x| x.to_string_lossy().starts_with("ANLZ")) {
                v.push(p);
            }
        }
    }
    v.sort();
    v
}

fn twins(r: &mut Rng, n: usize, o: &mut Obs) -> R {
    let mut s = m::gen_song(r, n);
    s.encrypted = true;
    let e = song_file(s.clone());
    s.encrypted = false;
    let p = song_file(s);
    let (eb, pb) = (e.encode(), p.encode());
    o.input("encrypted song structure", &eb);
    let (ea, pa) = (parse(&eb)?, parse(&pb)?);
    check(&ea, &e, o)?;
    check(&pa, &p, o)?;
    ensure!(song_data(&ea)? == song_data(&pa)?, "encrypted song structure differs from its plain twin");
    o.ev("song-twins", 1);
    o.mark(&eb);
    Ok(())
}

fn run(c: &mut Ctx) {
    // Each kind of section alone.
    for i in 0..c.n(1400) {
        c.case("one-section", move |r, o| {
            for _ in 0..4 {
                let s = m::gen_section(r, i % m::KINDS, 40);
                let w = AnlzM { header_data: vec![0; 16], sections: vec![s] };
                let b = w.encode();
                o.input("analysis file", &b);
                check(&parse(&b)?, &w, o)?;
                o.mark(&b);
            }
            Ok(())
        });
    }
    for i in 0..c.n(1500) {
        c.case("file", move |r, o| {
            let w = m::gen_file(r, if i % 10 == 0 { 60 } else { 12 }, if i % 7 == 0 { 400 } else { 30 });
            let b = w.encode();
            o.input("analysis file", &b);
            let a = parse(&b)?;
            check(&a, &w, o)?;
            // The same file through readers that return less than asked for.
            for _ in 0..4 {
                let n = r.range(1, 5);
                let chunks: Vec<usize> = (0..n).map(|_| *r.pick(&[1, 1, 2, 3, 5, 7, 13, 19, 20, 64])).collect();
                let intr = if r.chance(1, 2) { r.range(2, 9) as u64 } else { 0 };
                let x = read_chunked(&b, &chunks, intr)?;
                ensure!(x == a, "result depends on the transfer sizes :: transfers of {chunks:?}, interrupts {intr}");
                check(&x, &w, &mut o.fork())?;
                o.ev("chunked-reads", 1);
                o.ev("interrupted-reads", u64::from(intr != 0));
            }
            o.mark(&b);
            o.sample(format!(
                "{} bytes, sections {:?}",
                b.len(),
                w.sections.iter().map(|s| m::KIND_NAMES[s.kind_no()]).collect::<Vec<_>>()
            ));
            Ok(())
        });
    }
    // Encrypted against plain song structures; every phrase count modulo 256 changes the key.
    for i in 0..c.n(600) {
        c.case("song", move |r, o| twins(r, i % 300, o));
    }
    for n in [65_280usize, 65_281, 65_332, 65_535] {
        c.case("huge-song", move |r, o| {
            twins(r, n, o)?;
            o.ev("huge-songs", 1);
            Ok(())
        });
    }
    // Every column byte and every 16-bit colour column.
    c.case("columns", |_, o| {
        let all: Vec<u8> = (0..=255).collect();
        let w = AnlzM {
            header_data: vec![],
            sections: vec![
                SecM::Preview { u: 0, data: all.clone() },
                SecM::Tiny { u: 0, data: all.clone() },
                SecM::Detail(all),
                SecM::ColorDetail { u: 0, data: (0..=65535).collect() },
            ],
        };
        let b = w.encode();
        o.input("all columns", &b);
        check(&parse(&b)?, &w, o)?;
        o.mark(&b);
        Ok(())
    });
    for i in 0..c.n(m::KINDS) {
        c.case("long-section", move |r, o| {
            let n = *r.pick(&[65_536usize, 65_537, 66_000, 90_000]);
            let s = vec![m::gen_long(r, i % m::KINDS, n), m::gen_section(r, i % m::KINDS, 3)];
            let h = *r.pick(&[0usize, 16, 16, 65_524, 70_000]);
            let w = AnlzM { header_data: r.bytes(h), sections: s };
            let b = w.encode();
            o.input("analysis file", &b);
            check(&parse(&b)?, &w, o)?;
            o.ev("long-sections", 1);
            o.mark(&b);
            Ok(())
        });
    }
    // Real files.
    for f in fixtures() {
        c.case("fixture", move |_, o| {
            let b = std::fs::read(&f).map_err(|e| e.to_string())?;
            o.input("fixture", &b);
            let Some(w) = AnlzM::decode(&b) else { bail!("reference decoder cannot read {f:?}") };
            ensure!(w.encode() == b, "reference codec does not reproduce {f:?}");
            check(&parse(&b)?, &w, o)?;
            o.ev("fixture-sections", w.sections.len() as u64);
            o.mark(&b);
            Ok(())
        });
    }
}
