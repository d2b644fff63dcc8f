//! Independent model, encoder and decoder of ANLZ analysis files, following the published
//! description (djl-analysis). Nothing here uses rekordcrate.
use crate::rng::Rng;

pub const MOODS: [&str; 4] = ["?", "High", "Mid", "Low"];
pub const BANKS: [&str; 9] =
    ["Default", "Cool", "Natural", "Hot", "Subtle", "Warm", "Vivid", "Club1", "Club2"];
pub const COLORS: [&str; 9] = ["None", "Pink", "Red", "Orange", "Yellow", "Green", "Aqua", "Blue", "Purple"];
const MASK: [u8; 19] = [
    0xCB, 0xE1, 0xEE, 0xFA, 0xE5, 0xEE, 0xAD, 0xEE, 0xE9, 0xD2, 0xE9, 0xEB, 0xE1, 0xE9, 0xF3, 0xE8, 0xE9, 0xF4, 0xE1,
];

#[derive(Clone, Debug, PartialEq)]
pub struct CueM {
    pub hot: u32,
    pub status: u32,
    pub u1: u32,
    pub first: u16,
    pub last: u16,
    pub ty: u8,
    pub u2: u8,
    pub u3: u16,
    pub time: u32,
    pub loop_time: u32,
    pub tail: [u32; 4],
}

#[derive(Clone, Debug, PartialEq)]
pub struct ExtCueM {
    pub hot: u32,
    pub ty: u8,
    pub u1: u8,
    pub u2: u16,
    pub time: u32,
    pub loop_time: u32,
    pub color: u8,
    pub u3: u8,
    pub u4: u16,
    pub u5: u32,
    pub num: u16,
    pub den: u16,
    /// Stored comment units including terminators.
    pub comment: Vec<u16>,
    pub color_index: u8,
    pub rgb: [u8; 3],
    pub tail: [u32; 5],
    pub trailing: Vec<u8>,
}

impl ExtCueM {
    pub fn text(&self) -> String {
        let mut v = self.comment.clone();
        while v.last() == Some(&0) {
            v.pop();
        }
        String::from_utf16(&v).unwrap()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct PhraseM {
    pub index: u16,
    pub beat: u16,
    pub kind: u16,
    pub bytes: [u8; 6],
    pub beats: [u16; 3],
    pub tail: [u8; 4],
    pub fill_beat: u16,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SongM {
    pub encrypted: bool,
    pub mood: u16,
    pub u1: u32,
    pub u2: u16,
    pub end: u16,
    pub u3: u16,
    pub bank: u8,
    pub u4: u8,
    pub phrases: Vec<PhraseM>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SecM {
    Beats { u1: u32, u2: u32, beats: Vec<(u16, u16, u32)> },
    Cues { ty: u32, u: u16, mem: u32, cues: Vec<CueM> },
    ExtCues { ty: u32, cues: Vec<ExtCueM> },
    Path(Vec<u16>),
    Vbr { u: u32, data: Vec<u8> },
    Preview { u: u32, data: Vec<u8> },
    Tiny { u: u32, data: Vec<u8> },
    Detail(Vec<u8>),
    ColorPreview { u: u32, data: Vec<[u8; 6]> },
    ColorDetail { u: u32, data: Vec<u16> },
    Band3Preview(Vec<[u8; 3]>),
    Band3Detail(Vec<[u8; 3]>),
    Song(SongM),
    Unknown { kind: [u8; 4], header: Vec<u8>, content: Vec<u8> },
}

pub const KINDS: usize = 14;
pub const KIND_NAMES: [&str; KINDS] = [
    "PQTZ", "PCOB", "PCO2", "PPTH", "PVBR", "PWAV", "PWV2", "PWV3", "PWV4", "PWV5", "PWV6", "PWV7", "PSSI", "other",
];

#[derive(Clone, Debug, PartialEq)]
pub struct AnlzM {
    pub header_data: Vec<u8>,
    pub sections: Vec<SecM>,
}

struct W(Vec<u8>);
impl W {
    fn b(&mut self, v: u8) -> &mut Self {
        self.0.push(v);
        self
    }
    fn s(&mut self, v: u16) -> &mut Self {
        self.0.extend(v.to_be_bytes());
        self
    }
    fn l(&mut self, v: u32) -> &mut Self {
        self.0.extend(v.to_be_bytes());
        self
    }
    fn raw(&mut self, v: &[u8]) -> &mut Self {
        self.0.extend(v);
        self
    }
}

fn chunk(kind: &[u8], header_rest: &[u8], content: &[u8]) -> Vec<u8> {
    let h = 12 + header_rest.len() as u32;
    let mut w = W(vec![]);
    w.raw(kind).l(h).l(h + content.len() as u32).raw(header_rest).raw(content);
    w.0
}

pub fn mask(n_entries: u16, data: &mut [u8]) {
    for (i, b) in data.iter_mut().enumerate() {
        *b ^= MASK[i % 19].wrapping_add(n_entries as u8);
    }
}

impl CueM {
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W(vec![]);
        w.raw(b"PCPT").l(28).l(56).l(self.hot).l(self.status).l(self.u1).s(self.first).s(self.last);
        w.b(self.ty).b(self.u2).s(self.u3).l(self.time).l(self.loop_time);
        for t in self.tail {
            w.l(t);
        }
        w.0
    }
}

impl ExtCueM {
    pub fn encode(&self) -> Vec<u8> {
        let total = 68 + 2 * self.comment.len() + self.trailing.len();
        let mut w = W(vec![]);
        w.raw(b"PCP2").l(16).l(total as u32).l(self.hot).b(self.ty).b(self.u1).s(self.u2).l(self.time).l(self.loop_time);
        w.b(self.color).b(self.u3).s(self.u4).l(self.u5).s(self.num).s(self.den);
        w.l(2 * self.comment.len() as u32);
        for c in &self.comment {
            w.s(*c);
        }
        w.b(self.color_index).raw(&self.rgb);
        for t in self.tail {
            w.l(t);
        }
        w.raw(&self.trailing);
        w.0
    }
}

impl PhraseM {
    fn encode(&self, w: &mut W) {
        w.s(self.index).s(self.beat).s(self.kind).raw(&self.bytes);
        for b in self.beats {
            w.s(b);
        }
        w.raw(&self.tail).s(self.fill_beat);
    }
}

impl SecM {
    pub fn kind_no(&self) -> usize {
        match self {
            SecM::Beats { .. } => 0,
            SecM::Cues { .. } => 1,
            SecM::ExtCues { .. } => 2,
            SecM::Path(_) => 3,
            SecM::Vbr { .. } => 4,
            SecM::Preview { .. } => 5,
            SecM::Tiny { .. } => 6,
            SecM::Detail(_) => 7,
            SecM::ColorPreview { .. } => 8,
            SecM::ColorDetail { .. } => 9,
            SecM::Band3Preview(_) => 10,
            SecM::Band3Detail(_) => 11,
            SecM::Song(_) => 12,
            SecM::Unknown { .. } => 13,
        }
    }
    pub fn magic(&self) -> [u8; 4] {
        match self {
            SecM::Unknown { kind, .. } => *kind,
            s => KIND_NAMES[s.kind_no()].as_bytes().try_into().unwrap(),
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let (mut h, mut c) = (W(vec![]), W(vec![]));
        match self {
            SecM::Beats { u1, u2, beats } => {
                h.l(*u1).l(*u2).l(beats.len() as u32);
                for (n, t, ms) in beats {
                    c.s(*n).s(*t).l(*ms);
                }
            }
            SecM::Cues { ty, u, mem, cues } => {
                h.l(*ty).s(*u).s(cues.len() as u16).l(*mem);
                cues.iter().for_each(|x| c.0.extend(x.encode()));
            }
            SecM::ExtCues { ty, cues } => {
                h.l(*ty).s(cues.len() as u16).s(0);
                cues.iter().for_each(|x| c.0.extend(x.encode()));
            }
            SecM::Path(p) => {
                h.l(2 * (p.len() as u32 + 1));
                p.iter().for_each(|x| c.0.extend(x.to_be_bytes()));
                c.s(0);
            }
            SecM::Vbr { u, data } => {
                h.l(*u);
                c.raw(data);
            }
            SecM::Preview { u, data } | SecM::Tiny { u, data } => {
                h.l(data.len() as u32).l(*u);
                c.raw(data);
            }
            SecM::Detail(d) => {
                h.l(1).l(d.len() as u32).l(0x0096_0000);
                c.raw(d);
            }
            SecM::ColorPreview { u, data } => {
                h.l(6).l(data.len() as u32).l(*u);
                data.iter().for_each(|x| c.0.extend(x));
            }
            SecM::ColorDetail { u, data } => {
                h.l(2).l(data.len() as u32).l(*u);
                data.iter().for_each(|x| c.0.extend(x.to_be_bytes()));
            }
            SecM::Band3Preview(d) => {
                h.l(3).l(d.len() as u32);
                d.iter().for_each(|x| c.0.extend(x));
            }
            SecM::Band3Detail(d) => {
                h.l(3).l(d.len() as u32).l(0x0096_0000);
                d.iter().for_each(|x| c.0.extend(x));
            }
            SecM::Song(s) => {
                let n = s.phrases.len() as u16;
                let mut w = W(vec![]);
                w.s(s.mood).l(s.u1).s(s.u2).s(s.end).s(s.u3).b(s.bank).b(s.u4);
                s.phrases.iter().for_each(|p| p.encode(&mut w));
                if s.encrypted {
                    mask(n, &mut w.0);
                }
                h.l(24).s(n).raw(&w.0[..14]);
                c.raw(&w.0[14..]);
            }
            SecM::Unknown { header, content, .. } => {
                h.raw(header);
                c.raw(content);
            }
        }
        chunk(&self.magic(), &h.0, &c.0)
    }

    /// Decode one section (kind, header after the first 12 bytes, content).
    pub fn decode(kind: [u8; 4], h: &[u8], c: &[u8]) -> Option<SecM> {
        let mut r = Rd { b: [h, c].concat(), i: 0 };
        let r = &mut r;
        Some(match &kind {
            b"PQTZ" => {
                let (u1, u2, n) = (r.l()?, r.l()?, r.l()?);
                let beats = (0..n).map(|_| Some((r.s()?, r.s()?, r.l()?))).collect::<Option<_>>()?;
                SecM::Beats { u1, u2, beats }
            }
            b"PCOB" => {
                let (ty, u, n, mem) = (r.l()?, r.s()?, r.s()?, r.l()?);
                let mut cues = vec![];
                for _ in 0..n {
                    r.n(12)?;
                    cues.push(CueM {
                        hot: r.l()?,
                        status: r.l()?,
                        u1: r.l()?,
                        first: r.s()?,
                        last: r.s()?,
                        ty: r.b()?,
                        u2: r.b()?,
                        u3: r.s()?,
                        time: r.l()?,
                        loop_time: r.l()?,
                        tail: [r.l()?, r.l()?, r.l()?, r.l()?],
                    });
                }
                SecM::Cues { ty, u, mem, cues }
            }
            b"PCO2" => {
                let (ty, n, _) = (r.l()?, r.s()?, r.s()?);
                let mut cues = vec![];
                for _ in 0..n {
                    let st = r.i;
                    r.n(8)?;
                    let total = r.l()? as usize;
                    let mut q = ExtCueM {
                        hot: r.l()?,
                        ty: r.b()?,
                        u1: r.b()?,
                        u2: r.s()?,
                        time: r.l()?,
                        loop_time: r.l()?,
                        color: r.b()?,
                        u3: r.b()?,
                        u4: r.s()?,
                        u5: r.l()?,
                        num: r.s()?,
                        den: r.s()?,
                        comment: vec![],
                        color_index: 0,
                        rgb: [0; 3],
                        tail: [0; 5],
                        trailing: vec![],
                    };
                    for _ in 0..r.l()? / 2 {
                        q.comment.push(r.s()?);
                    }
                    q.color_index = r.b()?;
                    q.rgb = [r.b()?, r.b()?, r.b()?];
                    q.tail = [r.l()?, r.l()?, r.l()?, r.l()?, r.l()?];
                    q.trailing = r.n((st + total).checked_sub(r.i)?)?;
                    cues.push(q);
                }
                SecM::ExtCues { ty, cues }
            }
            b"PPTH" => {
                let n = r.l()? as usize;
                SecM::Path((0..(n / 2).checked_sub(1)?).map(|_| r.s()).collect::<Option<_>>()?)
            }
            b"PVBR" => SecM::Vbr { u: r.l()?, data: c.to_vec() },
            b"PWAV" | b"PWV2" => {
                let (_, u) = (r.l()?, r.l()?);
                if kind == *b"PWAV" {
                    SecM::Preview { u, data: c.to_vec() }
                } else {
                    SecM::Tiny { u, data: c.to_vec() }
                }
            }
            b"PWV3" => SecM::Detail(c.to_vec()),
            b"PWV4" => {
                r.n(8)?;
                SecM::ColorPreview { u: r.l()?, data: c.chunks(6).map(|x| x.try_into().unwrap()).collect() }
            }
            b"PWV5" => {
                r.n(8)?;
                SecM::ColorDetail { u: r.l()?, data: c.chunks(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect() }
            }
            b"PWV6" => SecM::Band3Preview(c.chunks(3).map(|x| x.try_into().unwrap()).collect()),
            b"PWV7" => SecM::Band3Detail(c.chunks(3).map(|x| x.try_into().unwrap()).collect()),
            b"PSSI" => {
                r.l()?;
                let n = r.s()?;
                let at = r.i;
                let raw = u16::from_be_bytes([r.b[at], r.b[at + 1]]);
                // Known plain moods are 1..=3; everything else is masked.
                let encrypted = !(1..=3).contains(&raw);
                if encrypted {
                    mask(n, &mut r.b[at..]);
                }
                let mut s = SongM {
                    encrypted,
                    mood: r.s()?,
                    u1: r.l()?,
                    u2: r.s()?,
                    end: r.s()?,
                    u3: r.s()?,
                    bank: r.b()?,
                    u4: r.b()?,
                    phrases: vec![],
                };
                for _ in 0..n {
                    s.phrases.push(PhraseM {
                        index: r.s()?,
                        beat: r.s()?,
                        kind: r.s()?,
                        bytes: r.n(6)?.try_into().ok()?,
                        beats: [r.s()?, r.s()?, r.s()?],
                        tail: r.n(4)?.try_into().ok()?,
                        fill_beat: r.s()?,
                    });
                }
                SecM::Song(s)
            }
            _ => SecM::Unknown { kind, header: h.to_vec(), content: c.to_vec() },
        })
    }

    /// (field, value) pairs in stored order, as the Debug output of the section content lists them.
    pub fn expect(&self) -> Vec<(String, String)> {
        let mut v: Vec<(String, String)> = vec![];
        let mut p = |n: &str, x: String| v.push((n.to_string(), x));
        let cuelist = |t: u32| if t == 0 { "MemoryCues".to_string() } else { "HotCues".to_string() };
        let cuetype = |t: u8| if t == 1 { "Point".to_string() } else { "Loop".to_string() };
        match self {
            SecM::Beats { u1, u2, beats } => {
                p("unknown1", u1.to_string());
                p("unknown2", u2.to_string());
                for (n, t, ms) in beats {
                    p("beat_number", n.to_string());
                    p("tempo", t.to_string());
                    p("time", ms.to_string());
                }
            }
            SecM::Cues { ty, u, mem, cues } => {
                p("list_type", cuelist(*ty));
                p("unknown", u.to_string());
                p("memory_count", mem.to_string());
                for c in cues {
                    p("kind", "Cue".into());
                    p("size", "28".into());
                    p("total_size", "56".into());
                    p("hot_cue", c.hot.to_string());
                    p("status", c.status.to_string());
                    p("unknown1", c.u1.to_string());
                    p("order_first", c.first.to_string());
                    p("order_last", c.last.to_string());
                    p("cue_type", cuetype(c.ty));
                    p("unknown2", c.u2.to_string());
                    p("unknown3", c.u3.to_string());
                    p("time", c.time.to_string());
                    p("loop_time", c.loop_time.to_string());
                    for (i, t) in c.tail.iter().enumerate() {
                        p(&format!("unknown{}", i + 4), t.to_string());
                    }
                }
            }
            SecM::ExtCues { ty, cues } => {
                p("list_type", cuelist(*ty));
                p("unknown", "0".into());
                for c in cues {
                    p("kind", "ExtendedCue".into());
                    p("size", "16".into());
                    p("total_size", (68 + 2 * c.comment.len() + c.trailing.len()).to_string());
                    p("hot_cue", c.hot.to_string());
                    p("cue_type", cuetype(c.ty));
                    p("unknown1", c.u1.to_string());
                    p("unknown2", c.u2.to_string());
                    p("time", c.time.to_string());
                    p("loop_time", c.loop_time.to_string());
                    p("color", COLORS[c.color as usize].into());
                    p("unknown3", c.u3.to_string());
                    p("unknown4", c.u4.to_string());
                    p("unknown5", c.u5.to_string());
                    p("loop_numerator", c.num.to_string());
                    p("loop_denominator", c.den.to_string());
                    p("comment", format!("{:?}", c.text()));
                    p("hot_cue_color_index", c.color_index.to_string());
                    for x in c.rgb {
                        p("hot_cue_color_rgb", x.to_string());
                    }
                    for (i, t) in c.tail.iter().enumerate() {
                        p(&format!("unknown{}", i + 6), t.to_string());
                    }
                    for t in &c.trailing {
                        p("trailing", t.to_string());
                    }
                }
            }
            // The path is compared through its public units.
            SecM::Path(_) => {}
            SecM::Vbr { u, data } => {
                p("unknown1", u.to_string());
                data.iter().for_each(|x| p("unknown2", x.to_string()));
            }
            SecM::Preview { u, data } => {
                p("unknown", u.to_string());
                for x in data {
                    p("height", (x % 32).to_string());
                    p("whiteness", (x / 32).to_string());
                }
            }
            SecM::Tiny { u, data } => {
                p("unknown", u.to_string());
                for x in data {
                    p("height", (x % 16).to_string());
                    p("unused", (x / 16).to_string());
                }
            }
            SecM::Detail(d) => {
                p("unknown", 0x0096_0000.to_string());
                for x in d {
                    p("height", (x % 32).to_string());
                    p("whiteness", (x / 32).to_string());
                }
            }
            SecM::ColorPreview { u, data } => {
                p("unknown", u.to_string());
                let n = [
                    "unknown1", "unknown2", "energy_bottom_half_freq", "energy_bottom_third_freq",
                    "energy_mid_third_freq", "energy_top_third_freq",
                ];
                for x in data {
                    for i in 0..6 {
                        p(n[i], x[i].to_string());
                    }
                }
            }
            SecM::ColorDetail { u, data } => {
                p("unknown", u.to_string());
                for x in data {
                    p("unknown", (x % 4).to_string());
                    p("height", (x / 4 % 32).to_string());
                    p("blue", (x / 128 % 8).to_string());
                    p("green", (x / 1024 % 8).to_string());
                    p("red", (x / 8192).to_string());
                }
            }
            SecM::Band3Preview(d) | SecM::Band3Detail(d) => {
                if matches!(self, SecM::Band3Detail(_)) {
                    p("unknown", 0x0096_0000.to_string());
                }
                let n = ["energy_mid_third_freq", "energy_top_third_freq", "energy_bottom_third_freq"];
                for x in d {
                    for i in 0..3 {
                        p(n[i], x[i].to_string());
                    }
                }
            }
            SecM::Song(s) => {
                p("is_encrypted", s.encrypted.to_string());
                p("mood", MOODS[s.mood as usize].into());
                p("unknown1", s.u1.to_string());
                p("unknown2", s.u2.to_string());
                p("end_beat", s.end.to_string());
                p("unknown3", s.u3.to_string());
                p("bank", BANKS[s.bank as usize].into());
                p("unknown4", s.u4.to_string());
                for q in &s.phrases {
                    p("index", q.index.to_string());
                    p("beat", q.beat.to_string());
                    p("kind", q.kind.to_string());
                    for (n, x) in ["unknown1", "k1", "unknown2", "k2", "unknown3", "b"].iter().zip(q.bytes) {
                        p(n, x.to_string());
                    }
                    for (n, x) in ["beat2", "beat3", "beat4"].iter().zip(q.beats) {
                        p(n, x.to_string());
                    }
                    for (n, x) in ["unknown4", "k3", "unknown5", "fill"].iter().zip(q.tail) {
                        p(n, x.to_string());
                    }
                    p("beat_fill", q.fill_beat.to_string());
                }
            }
            SecM::Unknown { header, content, .. } => {
                header.iter().for_each(|x| p("header_data", x.to_string()));
                content.iter().for_each(|x| p("content_data", x.to_string()));
            }
        }
        v
    }
}

struct Rd {
    b: Vec<u8>,
    i: usize,
}
impl Rd {
    fn n(&mut self, n: usize) -> Option<Vec<u8>> {
        let v = self.b.get(self.i..self.i + n)?.to_vec();
        self.i += n;
        Some(v)
    }
    fn b(&mut self) -> Option<u8> {
        Some(self.n(1)?[0])
    }
    fn s(&mut self) -> Option<u16> {
        Some(u16::from_be_bytes(self.n(2)?.try_into().unwrap()))
    }
    fn l(&mut self) -> Option<u32> {
        Some(u32::from_be_bytes(self.n(4)?.try_into().unwrap()))
    }
}

impl AnlzM {
    pub fn encode(&self) -> Vec<u8> {
        let c: Vec<u8> = self.sections.iter().flat_map(SecM::encode).collect();
        chunk(b"PMAI", &self.header_data, &c)
    }
    pub fn decode(b: &[u8]) -> Option<AnlzM> {
        let mut r = Rd { b: b.to_vec(), i: 0 };
        r.n(4)?;
        let (h, t) = (r.l()? as usize, r.l()? as usize);
        let header_data = r.n(h - 12)?;
        let mut sections = vec![];
        while r.i < t {
            let kind = r.n(4)?.try_into().ok()?;
            let (h, t) = (r.l()? as usize, r.l()? as usize);
            let hd = r.n(h - 12)?;
            let c = r.n(t - h)?;
            sections.push(SecM::decode(kind, &hd, &c)?);
        }
        Some(AnlzM { header_data, sections })
    }
}

/// Text without trailing NUL.
pub fn gen_text(r: &mut Rng, max: usize) -> String {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => max,
        _ => r.below(max.min(40) + 1),
    };
    let mut s = String::new();
    for i in 0..n {
        let c = match r.below(14) {
            0 => 'é',
            1 => '漢',
            2 => '🎧',
            3 => '\u{ffff}',
            4 => '"',
            5 => '\\',
            6 => '\n',
            7 if i + 1 < n => '\0',
            8 => '\u{200b}',
            9 if i == 0 || i + 1 == n => *r.pick(&[' ', '\t', '\r', '\u{a0}', '\u{feff}']),
            _ => (0x20 + r.below(95) as u8) as char,
        };
        s.push(c);
    }
    if s.ends_with('\0') {
        s.push('x');
    }
    s
}

pub fn gen_cue(r: &mut Rng) -> CueM {
    CueM {
        hot: r.u32_edgy(),
        status: r.u32_edgy(),
        u1: r.u32_edgy(),
        first: r.u16_edgy(),
        last: r.u16_edgy(),
        ty: r.range(1, 2) as u8,
        u2: r.u8(),
        u3: r.u16(),
        time: r.u32_edgy(),
        loop_time: r.u32_edgy(),
        tail: [r.u32(), r.u32(), r.u32(), r.u32()],
    }
}

pub fn gen_extcue(r: &mut Rng, max_text: usize) -> ExtCueM {
    let mut comment: Vec<u16> = gen_text(r, max_text).encode_utf16().collect();
    // Comments exist with and without terminator; more than one terminator is padding.
    match r.below(7) {
        2 => {}
        0 if comment.is_empty() => comment.push(0),
        _ if comment.is_empty() => {}
        1 => comment.extend(vec![0; r.range(2, 5)]),
        _ => comment.push(0),
    }
    ExtCueM {
        hot: r.u32_edgy(),
        ty: r.range(1, 2) as u8,
        u1: r.u8(),
        u2: r.u16(),
        time: r.u32_edgy(),
        loop_time: r.u32_edgy(),
        color: r.below(9) as u8,
        u3: r.u8(),
        u4: r.u16(),
        u5: r.u32(),
        num: r.u16_edgy(),
        den: r.u16_edgy(),
        comment,
        color_index: r.u8(),
        rgb: [r.u8(), r.u8(), r.u8()],
        tail: [r.u32(), r.u32(), r.u32(), r.u32(), r.u32()],
        trailing: if r.chance(1, 3) { vec![] } else { r.some_bytes(0, 60) },
    }
}

pub fn gen_phrase(r: &mut Rng) -> PhraseM {
    PhraseM {
        index: r.u16_edgy(),
        beat: r.u16_edgy(),
        kind: r.u16_edgy(),
        bytes: r.bytes(6).try_into().unwrap(),
        beats: [r.u16(), r.u16(), r.u16()],
        tail: r.bytes(4).try_into().unwrap(),
        fill_beat: r.u16(),
    }
}

pub fn gen_song(r: &mut Rng, n: usize) -> SongM {
    SongM {
        encrypted: r.chance(1, 2),
        mood: r.range(1, 3) as u16,
        u1: r.u32(),
        u2: r.u16(),
        end: r.u16_edgy(),
        u3: r.u16(),
        bank: r.below(9) as u8,
        u4: r.u8(),
        phrases: (0..n).map(|_| gen_phrase(r)).collect(),
    }
}

fn count(r: &mut Rng, max: usize) -> usize {
    match r.below(6) {
        0 => 0,
        1 => 1,
        2 => max,
        _ => r.below(max + 1),
    }
}

pub fn gen_section(r: &mut Rng, kind: usize, max: usize) -> SecM {
    let n = count(r, max);
    gen_section_of(r, kind, n)
}

/// A section with exactly `n` entries (16-bit lists hold fewer).
pub fn gen_long(r: &mut Rng, kind: usize, n: usize) -> SecM {
    match kind {
        1 | 2 | 12 => gen_section_of(r, kind, n.min(if kind == 2 { 5000 } else { 65_535 })),
        3 => SecM::Path((0..n).map(|_| 0x20 + r.below(90) as u16).collect()),
        4 => SecM::Vbr { u: r.u32(), data: r.bytes(n) },
        _ => gen_section_of(r, kind, n),
    }
}

fn gen_section_of(r: &mut Rng, kind: usize, n: usize) -> SecM {
    match kind {
        0 => SecM::Beats {
            u1: r.u32_edgy(),
            u2: r.u32_edgy(),
            beats: (0..n).map(|_| (r.u16_edgy(), r.u16_edgy(), r.u32_edgy())).collect(),
        },
        1 => SecM::Cues {
            ty: r.below(2) as u32,
            u: r.u16(),
            mem: r.u32_edgy(),
            cues: (0..n).map(|_| gen_cue(r)).collect(),
        },
        2 => SecM::ExtCues { ty: r.below(2) as u32, cues: (0..n).map(|_| gen_extcue(r, 300)).collect() },
        3 => {
            let t = gen_text(r, 200).replace('\0', "/");
            SecM::Path(t.encode_utf16().collect())
        }
        4 => SecM::Vbr { u: r.u32(), data: r.some_bytes(0, 4 * n) },
        5 => SecM::Preview { u: r.u32(), data: r.bytes(n) },
        6 => SecM::Tiny { u: r.u32(), data: r.bytes(n) },
        7 => SecM::Detail(r.bytes(n)),
        8 => SecM::ColorPreview { u: r.u32(), data: (0..n).map(|_| r.bytes(6).try_into().unwrap()).collect() },
        9 => SecM::ColorDetail { u: r.u32(), data: (0..n).map(|_| r.u16()).collect() },
        10 => SecM::Band3Preview((0..n).map(|_| r.bytes(3).try_into().unwrap()).collect()),
        11 => SecM::Band3Detail((0..n).map(|_| r.bytes(3).try_into().unwrap()).collect()),
        12 => SecM::Song(gen_song(r, n)),
        _ => {
            let kind = loop {
                let k: [u8; 4] = match r.below(6) {
                    0 => *b"PQT2",
                    1 => *b"PWVC",
                    2 => *b"PVB2",
                    3 => *b"pqtz",
                    4 => [b'P', b'W', b'V', r.u8()],
                    _ => r.bytes(4).try_into().unwrap(),
                };
                if !KIND_NAMES.iter().chain(&["PMAI", "PCPT", "PCP2"]).any(|n| n.as_bytes() == k) {
                    break k;
                }
            };
            let header = if r.chance(1, 3) { vec![] } else { r.some_bytes(0, 60) };
            SecM::Unknown { kind, header, content: r.bytes(n) }
        }
    }
}

pub fn gen_file(r: &mut Rng, max_sections: usize, max: usize) -> AnlzM {
    let n = count(r, max_sections);
    AnlzM {
        header_data: match r.below(4) {
            0 => vec![],
            1 if r.chance(1, 60) => {
                let n = *r.pick(&[65_523usize, 65_524, 65_535, 65_536, 70_000, 131_072]);
                r.bytes(n)
            }
            1 => r.some_bytes(0, 100),
            _ => r.bytes(16),
        },
        sections: (0..n)
            .map(|_| {
                let k = r.below(KINDS);
                gen_section(r, k, max)
            })
            .collect(),
    }
}
