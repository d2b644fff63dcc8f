//! C21: edits to parsed analysis files are written exactly.
use super::c06;
use super::Prop;
use crate::fw::{first_diff, no_panic, Ctx, Obs, R};
use crate::refanlz::{self as m, AnlzM, SecM};
use crate::rng::Rng;
use crate::{bail, ensure};
use binrw::{BinRead, BinWrite};
use rekordcrate::anlz::*;
use rekordcrate::util::ColorIndex;
use std::io::Cursor;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        level: "exploration",
        rule: "distinct files as they have to be after a history of edits, compared byte for byte with what was written",
        required: &[
            "edits", "edit:beats", "edit:beat-list", "edit:cue", "edit:cue-list", "edit:ext-cue", "edit:ext-cue-list",
            "edit:comment", "edit:comment-in-place", "edit:trailing", "edit:path", "edit:preview", "edit:tiny",
            "edit:detail", "edit:column-list", "edit:colour-preview", "edit:colour-detail", "edit:band3-preview",
            "edit:band3-detail", "edit:list-type", "edit:section-order", "edit:section-removed", "edit:section-added",
            "edit:header-data", "saves", "strings", "columns-built", "too-long-refused",
            "grown-over-64k",
        ],
        assumptions: &[
            "when an edit changes the size of a section or cue, the user updates the public size fields of the headers around it",
            "values without public fields or constructors (song structures, VBR and unknown sections) cannot be edited, only moved",
        ],
        run,
    }
}

fn write(a: &ANLZ) -> Result<Vec<u8>, String> {
    let mut w = Cursor::new(vec![]);
    no_panic("write", || a.write(&mut w))?.map_err(|e| format!("edited file cannot be written :: {e}"))?;
    Ok(w.into_inner())
}

fn one(s: SecM) -> Result<Section, String> {
    let b = AnlzM { header_data: vec![], sections: vec![s] }.encode();
    let mut a = c06::parse(&b)?;
    a.sections.pop().ok_or_else(|| "section lost".to_string())
}

fn colour(n: u8) -> ColorIndex {
    match n {
        0 => ColorIndex::None,
        1 => ColorIndex::Pink,
        2 => ColorIndex::Red,
        3 => ColorIndex::Orange,
        4 => ColorIndex::Yellow,
        5 => ColorIndex::Green,
        6 => ColorIndex::Aqua,
        7 => ColorIndex::Blue,
        _ => ColorIndex::Purple,
    }
}

fn list_type(n: u32) -> CueListType {
    if n == 1 {
        CueListType::HotCues
    } else {
        CueListType::MemoryCues
    }
}

fn cue_type(n: u8) -> CueType {
    if n == 2 {
        CueType::Loop
    } else {
        CueType::Point
    }
}

/// The same change of order, length or content in a list and in its model.
fn list<A, B>(r: &mut Rng, a: &mut Vec<A>, b: &mut Vec<B>, mk: impl FnOnce(&mut Rng) -> Result<(A, B), String>) -> R {
    let n = a.len();
    match r.below(6) {
        0 if n > 1 => {
            let (i, j) = (r.below(n), r.below(n));
            a.swap(i, j);
            b.swap(i, j);
        }
        1 if n > 0 => {
            let i = r.below(n);
            a.remove(i);
            b.remove(i);
        }
        2 => {
            let k = r.below(n + 1);
            a.truncate(k);
            b.truncate(k);
        }
        3 => {
            a.reverse();
            b.reverse();
        }
        _ => {
            let (x, y) = mk(r)?;
            let i = r.below(n + 1);
            a.insert(i, x);
            b.insert(i, y);
        }
    }
    Ok(())
}

fn edit_cue(r: &mut Rng, g: &mut Cue, w: &mut m::CueM) {
    match r.below(8) {
        0 => {
            w.hot = r.u32_edgy();
            g.hot_cue = w.hot;
        }
        1 => {
            w.status = r.u32_edgy();
            g.status = w.status;
        }
        2 => {
            w.first = r.u16_edgy();
            g.order_first = w.first;
        }
        3 => {
            w.last = r.u16_edgy();
            g.order_last = w.last;
        }
        4 => {
            w.ty = r.range(1, 2) as u8;
            g.cue_type = cue_type(w.ty);
        }
        5 => {
            w.time = r.u32_edgy();
            g.time = w.time;
        }
        _ => {
            w.loop_time = r.u32_edgy();
            g.loop_time = w.loop_time;
        }
    }
}

fn edit_ext_cue(r: &mut Rng, g: &mut ExtendedCue, w: &mut m::ExtCueM, o: &mut Obs) {
    match r.below(13) {
        0 => {
            w.hot = r.u32_edgy();
            g.hot_cue = w.hot;
        }
        1 => {
            w.ty = r.range(1, 2) as u8;
            g.cue_type = cue_type(w.ty);
        }
        2 => {
            w.time = r.u32_edgy();
            g.time = w.time;
        }
        3 => {
            w.loop_time = r.u32_edgy();
            g.loop_time = w.loop_time;
        }
        4 => {
            w.color = r.below(9) as u8;
            g.color = colour(w.color);
        }
        5 => {
            w.num = r.u16_edgy();
            g.loop_numerator = w.num;
        }
        6 => {
            w.den = r.u16_edgy();
            g.loop_denominator = w.den;
        }
        7 => {
            w.color_index = r.u8();
            g.hot_cue_color_index = w.color_index;
        }
        8 => {
            w.rgb = [r.u8(), r.u8(), r.u8()];
            g.hot_cue_color_rgb = (w.rgb[0], w.rgb[1], w.rgb[2]);
        }
        9 => {
            w.trailing = r.some_bytes(0, 40);
            g.trailing = w.trailing.clone();
            g.header.total_size = w.encode().len() as u32;
            o.ev("edit:trailing", 1);
        }
        10 if !w.comment.is_empty() => {
            // A comment that fits where the old one was stored, without updating any size.
            let room = w.comment.len();
            let mut t: Vec<u16> = m::gen_text(r, room).encode_utf16().take(room - 1).collect();
            if t.last().is_some_and(|c| (0xd800..0xdc00).contains(c)) {
                t.pop();
            }
            while t.last() == Some(&0) {
                t.pop();
            }
            g.comment = LenPrefixedWideString(String::from_utf16(&t).unwrap());
            t.resize(room, 0);
            w.comment = t;
            o.ev("edit:comment-in-place", 1);
        }
        _ => {
            let t = m::gen_text(r, 60);
            g.comment = if r.chance(1, 2) { t.as_str().into() } else { t.clone().into() };
            w.comment = t.encode_utf16().collect();
            if !t.is_empty() {
                w.comment.push(0);
            }
            g.header.total_size = w.encode().len() as u32;
            o.ev("edit:comment", 1);
        }
    }
}

/// One edit of a section; returns false if nothing of it can be edited.
fn edit(r: &mut Rng, s: &mut Section, w: &mut SecM, o: &mut Obs) -> Result<bool, String> {
    let whole = r.chance(1, 4);
    let what = match (&mut s.content, &mut *w) {
        (Content::BeatGrid(g), SecM::Beats { beats, .. }) => {
            if whole || beats.is_empty() {
                list(r, &mut g.beats, beats, |r| {
                    let b = (r.u16_edgy(), r.u16_edgy(), r.u32_edgy());
                    Ok((Beat { beat_number: b.0, tempo: b.1, time: b.2 }, b))
                })?;
                "beat-list"
            } else {
                let i = r.below(beats.len());
                let (x, y) = (&mut g.beats[i], &mut beats[i]);
                match r.below(3) {
                    0 => {
                        y.0 = r.u16_edgy();
                        x.beat_number = y.0;
                    }
                    1 => {
                        y.1 = r.u16_edgy();
                        x.tempo = y.1;
                    }
                    _ => {
                        y.2 = r.u32_edgy();
                        x.time = y.2;
                    }
                }
                "beats"
            }
        }
        (Content::CueList(g), SecM::Cues { ty, cues, .. }) => {
            if r.chance(1, 6) {
                *ty = r.below(2) as u32;
                g.list_type = list_type(*ty);
                "list-type"
            } else if whole || cues.is_empty() {
                list(r, &mut g.cues, cues, |r| {
                    let c = m::gen_cue(r);
                    let s = one(SecM::Cues { ty: 0, u: 0, mem: 0, cues: vec![c.clone()] })?;
                    let Content::CueList(mut l) = s.content else { bail!("cue list lost") };
                    Ok((l.cues.pop().ok_or("cue lost")?, c))
                })?;
                "cue-list"
            } else {
                let i = r.below(cues.len());
                edit_cue(r, &mut g.cues[i], &mut cues[i]);
                "cue"
            }
        }
        (Content::ExtendedCueList(g), SecM::ExtCues { ty, cues }) => {
            if r.chance(1, 6) {
                *ty = r.below(2) as u32;
                g.list_type = list_type(*ty);
                "list-type"
            } else if whole || cues.is_empty() {
                list(r, &mut g.cues, cues, |r| {
                    let c = m::gen_extcue(r, 30);
                    let s = one(SecM::ExtCues { ty: 0, cues: vec![c.clone()] })?;
                    let Content::ExtendedCueList(mut l) = s.content else { bail!("cue list lost") };
                    Ok((l.cues.pop().ok_or("cue lost")?, c))
                })?;
                "ext-cue-list"
            } else {
                let i = r.below(cues.len());
                edit_ext_cue(r, &mut g.cues[i], &mut cues[i], o);
                "ext-cue"
            }
        }
        (Content::Path(g), SecM::Path(p)) => {
            *p = m::gen_text(r, 120).replace('\0', "/").encode_utf16().collect();
            g.path.0 = p.clone();
            "path"
        }
        (Content::WaveformPreview(WaveformPreview { data: g, .. }), SecM::Preview { data, .. })
        | (Content::WaveformDetail(WaveformDetail { data: g, .. }), SecM::Detail(data)) => {
            if whole || data.is_empty() {
                list(r, g, data, |r| {
                    let (h, t) = (r.u8() & 31, r.u8() & 7);
                    Ok((WaveformPreviewColumn::new().with_height(h).with_whiteness(t), t << 5 | h))
                })?;
                "column-list"
            } else {
                let i = r.below(data.len());
                if r.chance(1, 2) {
                    let h = r.u8() & 31;
                    data[i] = data[i] & 0xe0 | h;
                    g[i].set_height(h);
                } else {
                    let t = r.u8() & 7;
                    data[i] = data[i] & 31 | t << 5;
                    g[i].set_whiteness(t);
                }
                if matches!(w, SecM::Detail(_)) {
                    "detail"
                } else {
                    "preview"
                }
            }
        }
        (Content::TinyWaveformPreview(g), SecM::Tiny { data, .. }) => {
            if whole || data.is_empty() {
                list(r, &mut g.data, data, |r| {
                    let h = r.u8() & 15;
                    Ok((TinyWaveformPreviewColumn::default().with_height(h), h))
                })?;
                "column-list"
            } else {
                let i = r.below(data.len());
                let h = r.u8() & 15;
                data[i] = data[i] & 0xf0 | h;
                g.data[i].set_height(h);
                "tiny"
            }
        }
        (Content::WaveformColorPreview(g), SecM::ColorPreview { data, .. }) => {
            if data.is_empty() {
                return Ok(false);
            }
            let i = r.below(data.len());
            let (x, y) = (&mut g.data[i], &mut data[i]);
            let v = r.u8();
            let k = r.below(4);
            y[2 + k] = v;
            match k {
                0 => x.energy_bottom_half_freq = v,
                1 => x.energy_bottom_third_freq = v,
                2 => x.energy_mid_third_freq = v,
                _ => x.energy_top_third_freq = v,
            }
            "colour-preview"
        }
        (Content::WaveformColorDetail(g), SecM::ColorDetail { data, .. }) => {
            if whole || data.is_empty() {
                list(r, &mut g.data, data, |r| {
                    let (a, b, c, h) = (r.u8() & 7, r.u8() & 7, r.u8() & 7, r.u8() & 31);
                    let x = WaveformColorDetailColumn::default().with_red(a).with_green(b).with_blue(c).with_height(h);
                    Ok((x, u16::from(a) << 13 | u16::from(b) << 10 | u16::from(c) << 7 | u16::from(h) << 2))
                })?;
                "column-list"
            } else {
                let i = r.below(data.len());
                let (x, y) = (&mut g.data[i], &mut data[i]);
                let v = r.u8() & 7;
                let mut put = |at: u32| *y = *y & !(7 << at) | u16::from(v) << at;
                match r.below(4) {
                    0 => {
                        put(13);
                        x.set_red(v);
                    }
                    1 => {
                        put(10);
                        x.set_green(v);
                    }
                    2 => {
                        put(7);
                        x.set_blue(v);
                    }
                    _ => {
                        let h = r.u8() & 31;
                        *y = *y & !(31 << 2) | u16::from(h) << 2;
                        x.set_height(h);
                    }
                }
                "colour-detail"
            }
        }
        (Content::Waveform3BandPreview(g), SecM::Band3Preview(data)) => {
            if whole || data.is_empty() {
                list(r, &mut g.data, data, |r| {
                    let b = [r.u8(), r.u8(), r.u8()];
                    let x = Waveform3BandPreviewColumn {
                        energy_mid_third_freq: b[0],
                        energy_top_third_freq: b[1],
                        energy_bottom_third_freq: b[2],
                    };
                    Ok((x, b))
                })?;
                "column-list"
            } else {
                let (i, k, v) = (r.below(data.len()), r.below(3), r.u8());
                data[i][k] = v;
                match k {
                    0 => g.data[i].energy_mid_third_freq = v,
                    1 => g.data[i].energy_top_third_freq = v,
                    _ => g.data[i].energy_bottom_third_freq = v,
                }
                "band3-preview"
            }
        }
        (Content::Waveform3BandDetail(g), SecM::Band3Detail(data)) => {
            if whole || data.is_empty() {
                list(r, &mut g.data, data, |r| {
                    let b = [r.u8(), r.u8(), r.u8()];
                    let x = Waveform3BandDetailColumn {
                        energy_mid_third_freq: b[0],
                        energy_top_third_freq: b[1],
                        energy_bottom_third_freq: b[2],
                    };
                    Ok((x, b))
                })?;
                "column-list"
            } else {
                let (i, k, v) = (r.below(data.len()), r.below(3), r.u8());
                data[i][k] = v;
                match k {
                    0 => g.data[i].energy_mid_third_freq = v,
                    1 => g.data[i].energy_top_third_freq = v,
                    _ => g.data[i].energy_bottom_third_freq = v,
                }
                "band3-detail"
            }
        }
        _ => return Ok(false),
    };
    s.header.total_size = w.encode().len() as u32;
    o.ev(&format!("edit:{what}"), 1);
    Ok(true)
}

/// Append the entries of another section of the same kind; returns false if the list has no room for them.
fn append(s: &mut Section, w: &mut SecM, more: SecM) -> Result<bool, String> {
    let mut x = one(more.clone())?;
    match (&mut s.content, &mut x.content) {
        (Content::BeatGrid(p), Content::BeatGrid(q)) => p.beats.append(&mut q.beats),
        (Content::Path(p), Content::Path(q)) => p.path.0.append(&mut q.path.0),
        (Content::WaveformPreview(p), Content::WaveformPreview(q)) => p.data.append(&mut q.data),
        (Content::TinyWaveformPreview(p), Content::TinyWaveformPreview(q)) => p.data.append(&mut q.data),
        (Content::WaveformDetail(p), Content::WaveformDetail(q)) => p.data.append(&mut q.data),
        (Content::WaveformColorPreview(p), Content::WaveformColorPreview(q)) => p.data.append(&mut q.data),
        (Content::WaveformColorDetail(p), Content::WaveformColorDetail(q)) => p.data.append(&mut q.data),
        (Content::Waveform3BandPreview(p), Content::Waveform3BandPreview(q)) => p.data.append(&mut q.data),
        (Content::Waveform3BandDetail(p), Content::Waveform3BandDetail(q)) => p.data.append(&mut q.data),
        _ => return Ok(false),
    }
    match (&mut *w, more) {
        (SecM::Beats { beats: p, .. }, SecM::Beats { beats: mut q, .. }) => p.append(&mut q),
        (SecM::Path(p), SecM::Path(mut q)) => p.append(&mut q),
        (SecM::Preview { data: p, .. }, SecM::Preview { data: mut q, .. }) => p.append(&mut q),
        (SecM::Tiny { data: p, .. }, SecM::Tiny { data: mut q, .. }) => p.append(&mut q),
        (SecM::Detail(p), SecM::Detail(mut q)) => p.append(&mut q),
        (SecM::ColorPreview { data: p, .. }, SecM::ColorPreview { data: mut q, .. }) => p.append(&mut q),
        (SecM::ColorDetail { data: p, .. }, SecM::ColorDetail { data: mut q, .. }) => p.append(&mut q),
        (SecM::Band3Preview(p), SecM::Band3Preview(mut q)) => p.append(&mut q),
        (SecM::Band3Detail(p), SecM::Band3Detail(mut q)) => p.append(&mut q),
        _ => bail!("section kind lost"),
    }
    s.header.total_size = w.encode().len() as u32;
    Ok(true)
}

fn edit_file(r: &mut Rng, a: &mut ANLZ, w: &mut AnlzM, o: &mut Obs) -> R {
    let n = w.sections.len();
    match r.below(14) {
        0 if n > 1 => {
            let (i, j) = (r.below(n), r.below(n));
            a.sections.swap(i, j);
            w.sections.swap(i, j);
            o.ev("edit:section-order", 1);
        }
        1 if n > 0 => {
            let i = r.below(n);
            a.sections.remove(i);
            w.sections.remove(i);
            o.ev("edit:section-removed", 1);
        }
        2 => {
            let k = r.below(m::KINDS);
            let s = m::gen_section(r, k, 12);
            let i = r.below(n + 1);
            a.sections.insert(i, one(s.clone())?);
            w.sections.insert(i, s);
            o.ev("edit:section-added", 1);
        }
        3 => {
            w.header_data = r.some_bytes(0, 40);
            a.header_data = w.header_data.clone();
            a.header.size = 12 + w.header_data.len() as u32;
            o.ev("edit:header-data", 1);
        }
        _ if n > 0 => {
            let i = r.below(n);
            if !edit(r, &mut a.sections[i], &mut w.sections[i], o)? {
                return Ok(());
            }
        }
        _ => return Ok(()),
    }
    o.ev("edits", 1);
    Ok(())
}

fn save(a: &mut ANLZ, w: &AnlzM, o: &mut Obs) -> R {
    let want = w.encode();
    a.header.total_size = want.len() as u32;
    let out = write(a)?;
    if let Some(d) = first_diff(&want, &out) {
        bail!("edited file is written differently :: {d}");
    }
    let again = c06::parse(&out)?;
    ensure!(again == *a, "the edited file is read as a different value");
    o.ev("saves", 1);
    o.mark(&out);
    Ok(())
}

fn strings(r: &mut Rng, o: &mut Obs) -> R {
    for _ in 0..30 {
        let t = m::gen_text(r, 80);
        let s = if r.chance(1, 2) { LenPrefixedWideString::from(t.as_str()) } else { LenPrefixedWideString::from(t.clone()) };
        ensure!(s.0 == t && &*s == t.as_str(), "string {t:?} became {s:?}");
        let mut units: Vec<u16> = t.encode_utf16().collect();
        if !t.is_empty() {
            units.push(0);
        }
        ensure!(s.byte_len() as usize == 2 * units.len(), "size {} of {t:?}", s.byte_len());
        let mut want = (2 * units.len() as u32).to_be_bytes().to_vec();
        want.extend(units.iter().flat_map(|c| c.to_be_bytes()));
        let mut out = Cursor::new(vec![]);
        no_panic("write", || s.write_be(&mut out))?.map_err(|e| format!("string cannot be written :: {e}"))?;
        if let Some(d) = first_diff(&want, out.get_ref()) {
            bail!("string is written differently :: {t:?}: {d}");
        }
        let mut c = Cursor::new(out.into_inner());
        let back = no_panic("read", || LenPrefixedWideString::read_be(&mut c))?.map_err(|e| format!("string cannot be read :: {e}"))?;
        ensure!(back == s && c.position() as usize == want.len(), "string {t:?} is read back as {back:?}");
        o.ev("strings", 1);
        o.mark(&want);
    }
    Ok(())
}

fn columns(o: &mut Obs) -> R {
    fn bytes<T: for<'a> BinWrite<Args<'a> = ()>>(t: &T) -> Result<Vec<u8>, String> {
        let mut w = Cursor::new(vec![]);
        t.write_be(&mut w).map_err(|e| format!("column cannot be written :: {e}"))?;
        Ok(w.into_inner())
    }
    ensure!(bytes(&WaveformPreviewColumn::default())? == [0], "default column");
    ensure!(bytes(&TinyWaveformPreviewColumn::default())? == [0], "default column");
    ensure!(bytes(&WaveformColorDetailColumn::default())? == [0, 0], "default column");
    for b in 0..=255u8 {
        let c = WaveformPreviewColumn::new().with_height(b & 31).with_whiteness(b >> 5);
        ensure!(bytes(&c)? == [b], "column {c:?} is written as {:?}", bytes(&c)?);
        ensure!(c.with_height_checked(32).is_err() && c.with_whiteness_checked(8).is_err(), "column accepts too large values");
        let t = TinyWaveformPreviewColumn::new().with_height(b & 15);
        ensure!(bytes(&t)? == [b & 15], "column {t:?} is written as {:?}", bytes(&t)?);
        o.ev("columns-built", 2);
    }
    for v in (0..=0xffffu16).step_by(4) {
        let c = WaveformColorDetailColumn::new()
            .with_red((v >> 13) as u8)
            .with_green((v >> 10 & 7) as u8)
            .with_blue((v >> 7 & 7) as u8)
            .with_height((v >> 2 & 31) as u8);
        ensure!(bytes(&c)? == v.to_be_bytes(), "column {c:?} is written as {:?}", bytes(&c)?);
        o.ev("columns-built", 1);
    }
    o.mark(b"columns");
    Ok(())
}

/// Lists longer than their 16-bit count must be refused, not be written with another count.
fn too_long(r: &mut Rng, o: &mut Obs, ext: bool) -> R {
    let n = *r.pick(&[65_536usize, 65_538, 70_000, 131_070]);
    let mk = |r: &mut Rng, n: usize| {
        if ext {
            SecM::ExtCues { ty: 1, cues: (0..n).map(|_| m::gen_extcue(r, 3)).collect() }
        } else {
            SecM::Cues { ty: 1, u: 0, mem: 0, cues: (0..n).map(|_| m::gen_cue(r)).collect() }
        }
    };
    let w = AnlzM { header_data: vec![0; 16], sections: vec![mk(r, n / 2)] };
    let b = w.encode();
    let mut x = c06::parse(&b)?;
    let mut y = c06::parse(&b)?;
    match (&mut x.sections[0].content, &mut y.sections[0].content) {
        (Content::CueList(p), Content::CueList(q)) => p.cues.append(&mut q.cues),
        (Content::ExtendedCueList(p), Content::ExtendedCueList(q)) => p.cues.append(&mut q.cues),
        _ => bail!("cue list lost"),
    }
    let mut out = Cursor::new(vec![]);
    let res = no_panic("write", || x.write(&mut out))?;
    ensure!(res.is_err(), "a list of {} cues is written with a 16-bit count :: no error", n);
    o.ev("too-long-refused", 1);
    o.mark(&b);
    Ok(())
}

fn run(c: &mut Ctx) {
    for i in 0..c.n(1400) {
        c.case("one-section", move |r, o| {
            for _ in 0..4 {
                let n = r.below(30);
                let mut w = AnlzM { header_data: r.bytes(n), sections: vec![m::gen_section(r, i % m::KINDS, 20)] };
                let b = w.encode();
                o.input("analysis file before the edits", &b);
                let mut a = c06::parse(&b)?;
                for _ in 0..r.range(1, 6) {
                    if edit(r, &mut a.sections[0], &mut w.sections[0], o)? {
                        o.ev("edits", 1);
                    }
                    if r.chance(1, 3) {
                        save(&mut a, &w, o)?;
                    }
                }
                save(&mut a, &w, o)?;
            }
            Ok(())
        });
    }
    for i in 0..c.n(1500) {
        c.case("history", move |r, o| {
            let mut w = m::gen_file(r, 10, if i % 7 == 0 { 300 } else { 20 });
            let b = w.encode();
            o.input("analysis file before the edits", &b);
            let mut a = c06::parse(&b)?;
            let n = r.range(1, 40);
            for _ in 0..n {
                edit_file(r, &mut a, &mut w, o)?;
                if r.chance(1, 8) {
                    save(&mut a, &w, o)?;
                    if r.chance(1, 2) {
                        a = c06::parse(&w.encode())?;
                    }
                }
            }
            save(&mut a, &w, o)?;
            let again = c06::parse(&w.encode())?;
            c06::check(&again, &w, o)?;
            o.sample(format!("{n} edits, then sections {:?}", w.sections.iter().map(|s| m::KIND_NAMES[s.kind_no()]).collect::<Vec<_>>()));
            Ok(())
        });
    }
    for _ in 0..c.n(60) {
        c.case("strings", strings);
    }
    c.case("columns", |_, o| columns(o));
    // Lists that grow beyond 65,535 entries through edits.
    for i in 0..c.n(2 * m::KINDS) {
        c.case("long", move |r, o| {
            let n = 65_530 + r.below(5);
            let s = m::gen_long(r, i % m::KINDS, n);
            let mut w = AnlzM { header_data: vec![0; 16], sections: vec![s, m::gen_section(r, i % m::KINDS, 4)] };
            let mut a = c06::parse(&w.encode())?;
            for _ in 0..3 {
                let s = m::gen_long(r, i % m::KINDS, 20);
                if !append(&mut a.sections[0], &mut w.sections[0], s)? {
                    return Ok(());
                }
                save(&mut a, &w, o)?;
                let n = a.sections[0].header.total_size;
                o.sample(format!("{} grown to {n} bytes", m::KIND_NAMES[i % m::KINDS]));
                o.ev("grown-over-64k", 1);
            }
            edit_file(r, &mut a, &mut w, o)?;
            save(&mut a, &w, o)?;
            c06::check(&c06::parse(&w.encode())?, &w, o)
        });
    }
    for i in 0..c.n(4) {
        c.case("too-long", move |r, o| too_long(r, o, i % 2 == 1));
    }
}
