//! C05: well-formed analysis files are rewritten byte for byte.
use super::c06::{fixtures, parse};
use super::Prop;
use crate::fw::{first_diff, no_panic, Ctx, Obs, R};
use crate::iomon::MonFile;
use crate::refanlz::{self as m, AnlzM, SecM};
use crate::rng::Rng;
use crate::{bail, ensure};
use binrw::BinWrite;
use rekordcrate::anlz::ANLZ;
use std::io::Cursor;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        rule: "distinct well-formed analysis files that were read, written and read again",
        required: &[
            "roundtrips", "sec:PQTZ", "sec:PCOB", "sec:PCO2", "sec:PPTH", "sec:PVBR", "sec:PWAV", "sec:PWV2", "sec:PWV3",
            "sec:PWV4", "sec:PWV5", "sec:PWV6", "sec:PWV7", "sec:PSSI", "sec:other", "encrypted-songs", "plain-songs",
            "empty-lists", "empty-comments", "padded-comments", "cue-trailing-bytes", "short-write-roundtrips",
            "fixtures", "extra-header-bytes", "unterminated-comments",
            "header-over-64k", "lists-over-64k",
        ],
        assumptions: &[
            "well-formed: section headers have the published length and their sizes match their content",
            "the reference encoder follows the published ANLZ description; its output is what rekordbox could have written",
        ],
        run,
    }
}

fn write(a: &ANLZ) -> Result<Vec<u8>, String> {
    let mut w = Cursor::new(vec![]);
    no_panic("write", || a.write(&mut w))?.map_err(|e| format!("parsed file cannot be written :: {e}"))?;
    Ok(w.into_inner())
}

fn roundtrip(b: &[u8], r: &mut Rng, o: &mut Obs) -> R {
    let a = parse(b)?;
    let out = write(&a)?;
    if let Some(d) = first_diff(b, &out) {
        bail!("rewritten file differs :: {d}");
    }
    let again = parse(&out)?;
    ensure!(again == a, "second read yields a different value");
    o.ev("roundtrips", 1);
    // A stream that accepts only part of each write must receive the same bytes.
    if r.chance(1, 3) {
        let mut f = MonFile::new(vec![]);
        let n = r.range(1, 4);
        f.st.borrow_mut().chunks = (0..n).map(|_| r.range(1, 30)).collect();
        f.st.borrow_mut().interrupt_every = if r.chance(1, 2) { 3 } else { 0 };
        no_panic("write", || a.write(&mut f))?.map_err(|e| format!("short writes make writing fail :: {e}"))?;
        if let Some(d) = first_diff(b, &f.data()) {
            bail!("file written through short writes differs :: {d}");
        }
        o.ev("short-write-roundtrips", 1);
    }
    o.mark(b);
    Ok(())
}

fn note(w: &AnlzM, o: &mut Obs) {
    o.ev("extra-header-bytes", u64::from(w.header_data.len() > 16));
    o.ev("header-over-64k", u64::from(w.header_data.len() > 65_535));
    for s in &w.sections {
        o.ev(&format!("sec:{}", m::KIND_NAMES[s.kind_no()]), 1);
        match s {
            SecM::Song(x) => {
                o.ev(if x.encrypted { "encrypted-songs" } else { "plain-songs" }, 1);
                o.ev("empty-lists", u64::from(x.phrases.is_empty()));
            }
            SecM::Beats { beats, .. } => o.ev("empty-lists", u64::from(beats.is_empty())),
            SecM::Cues { cues, .. } => o.ev("empty-lists", u64::from(cues.is_empty())),
            SecM::ExtCues { cues, .. } => {
                o.ev("empty-lists", u64::from(cues.is_empty()));
                for c in cues {
                    o.ev("empty-comments", u64::from(c.comment.is_empty()));
                    o.ev("unterminated-comments", u64::from(c.comment.last().is_some_and(|u| *u != 0)));
                    o.ev("padded-comments", u64::from(c.text().encode_utf16().count() + 1 < c.comment.len()));
                    o.ev("cue-trailing-bytes", c.trailing.len() as u64);
                }
            }
            _ => {}
        }
    }
}

fn check(w: &AnlzM, r: &mut Rng, o: &mut Obs) -> R {
    let b = w.encode();
    o.input("analysis file", &b);
    roundtrip(&b, r, o)?;
    note(w, o);
    Ok(())
}

fn run(c: &mut Ctx) {
    for i in 0..c.n(2800) {
        c.case("one-section", move |r, o| {
            for _ in 0..4 {
                let s = m::gen_section(r, i % m::KINDS, 60);
                let n = r.below(40);
                check(&AnlzM { header_data: r.bytes(n), sections: vec![s] }, r, o)?;
            }
            Ok(())
        });
    }
    for i in 0..c.n(3000) {
        c.case("file", move |r, o| {
            let w = m::gen_file(r, if i % 10 == 0 { 80 } else { 12 }, if i % 7 == 0 { 600 } else { 30 });
            check(&w, r, o)?;
            o.sample(format!(
                "header data {} bytes, sections {:?}",
                w.header_data.len(),
                w.sections.iter().map(|s| m::KIND_NAMES[s.kind_no()]).collect::<Vec<_>>()
            ));
            Ok(())
        });
    }
    // Long comments around power-of-two sizes, with every amount of padding and trailing bytes.
    for i in 0..c.n(200) {
        c.case("comments", move |r, o| {
            let mut cues = vec![];
            for k in 0..6 {
                let mut q = m::gen_extcue(r, 10);
                let n = if i < 140 { i * 2 + k } else { r.range(200, 40_000) };
                q.comment = (0..n).map(|_| 0x20 + r.below(90) as u16).collect();
                q.comment.extend(vec![0; r.range(1, 3)]);
                q.trailing = r.some_bytes(0, 40);
                cues.push(q);
            }
            check(&AnlzM { header_data: vec![0; 16], sections: vec![SecM::ExtCues { ty: 1, cues }] }, r, o)
        });
    }
    for n in [255usize, 256, 257, 5000, 65_279, 65_285, 65_535] {
        c.case("long-lists", move |r, o| {
            let song = m::gen_song(r, n);
            let s = vec![
                SecM::Song(song),
                SecM::Cues { ty: 0, u: 0, mem: 0, cues: (0..n).map(|_| m::gen_cue(r)).collect() },
                SecM::ExtCues { ty: 0, cues: (0..n.min(6000)).map(|_| m::gen_extcue(r, 5)).collect() },
                m::gen_section(r, 0, 70_000),
            ];
            check(&AnlzM { header_data: vec![0; 16], sections: s }, r, o)
        });
    }
    for i in 0..c.n(3 * m::KINDS) {
        c.case("long-sections", move |r, o| {
            let n = *r.pick(&[65_524usize, 65_535, 65_536, 65_537, 66_000, 90_000, 131_073]);
            let h = *r.pick(&[0usize, 16, 16, 65_524, 65_536, 100_000]);
            let s = vec![m::gen_long(r, i % m::KINDS, n), m::gen_section(r, i % m::KINDS, 3)];
            check(&AnlzM { header_data: r.bytes(h), sections: s }, r, o)?;
            o.ev("lists-over-64k", u64::from(n > 65_535));
            Ok(())
        });
    }
    for f in fixtures() {
        c.case("fixture", move |r, o| {
            let b = std::fs::read(&f).map_err(|e| e.to_string())?;
            o.input("fixture", &b);
            o.ev("fixtures", 1);
            roundtrip(&b, r, o)
        });
    }
}
