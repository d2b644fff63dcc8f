//! Independent model and encoder of the PDB format (written from the published format description,
//! not from the library): rows, pages, tables and files, plus random generation.
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Enc {
    Short,
    LongAscii,
    Utf16,
    Isrc,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SStr {
    pub text: String,
    pub enc: Enc,
}

impl SStr {
    pub fn new(text: &str) -> Self {
        let enc = if !text.is_ascii() {
            Enc::Utf16
        } else if text.len() <= 126 {
            Enc::Short
        } else {
            Enc::LongAscii
        };
        Self { text: text.into(), enc }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![];
        match self.enc {
            Enc::Short => {
                v.push((((self.text.len() + 1) << 1) | 1) as u8);
                v.extend_from_slice(self.text.as_bytes());
            }
            Enc::LongAscii => {
                v.push(0x40);
                v.extend_from_slice(&((self.text.len() + 4) as u16).to_le_bytes());
                v.push(0);
                v.extend_from_slice(self.text.as_bytes());
            }
            Enc::Utf16 => {
                let u: Vec<u16> = self.text.encode_utf16().collect();
                v.push(0x90);
                v.extend_from_slice(&((u.len() * 2 + 4) as u16).to_le_bytes());
                v.push(0);
                for x in u {
                    v.extend_from_slice(&x.to_le_bytes());
                }
            }
            Enc::Isrc => {
                v.push(0x90);
                v.extend_from_slice(&((self.text.len() + 6) as u16).to_le_bytes());
                v.push(0);
                v.push(3);
                v.extend_from_slice(self.text.as_bytes());
                v.push(0);
            }
        }
        v
    }
    /// A UTF-16 string whose stored bytes are also a valid stored ISRC: the format cannot tell.
    pub fn ambiguous(&self) -> bool {
        if self.enc != Enc::Utf16 {
            return false;
        }
        let e = self.encode();
        let b = &e[4..];
        b.len() == 14 && b[0] == 3 && b[13] == 0 && b[1..13].iter().all(|x| (1..0x80).contains(x))
    }
}

pub const SAFE_ASCII: &[u8] =
    b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!?#&'+=~^%$@*/";

/// First/inner characters chosen so that stored bytes hit every special value (0x00, 0x03, 0x40,
/// 0x90, odd/even headers, surrogate pairs).
pub fn uni_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(10) {
            9 => *r.pick(&[0xFEFFu32, 0x3000, 0xA0, 0x200B, 0x301, 0xAD, 0xFFFD, 0x202E, 0x10FFFF, 0xE000]),
            0 => 0x100 * (1 + r.below(0x4f) as u32) + 3,
            1 => 0xC0 + r.below(0x100) as u32,
            2 => 0x400 + r.below(0x100) as u32,
            3 => 0x3040 + r.below(0x60) as u32,
            4 => 0x4E00 + r.below(0x5000) as u32,
            5 => 0x1F300 + r.below(0x300) as u32,
            6 => 0x10000 + r.below(0x90000) as u32,
            7 => 0x9000 + r.below(16) as u32,
            _ => 0xAC00 + r.below(0x2B00) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            if !c.is_control() && c != '\u{2028}' {
                return c;
            }
        }
    }
}

pub fn text(r: &mut Rng, max: usize) -> String {
    let n = match r.below(10) {
        0 => 0,
        1 => r.range(0, max.min(3)),
        2 => max.min(r.range(120, 135)),
        _ => r.range(0, max.min(24)),
    };
    let uni = r.chance(2, 5);
    let mut s = String::new();
    for _ in 0..n {
        if uni && r.chance(2, 3) {
            s.push(uni_char(r));
        } else {
            s.push(*r.pick(SAFE_ASCII) as char);
        }
    }
    s
}

pub fn sstr(r: &mut Rng, max: usize) -> SStr {
    loop {
        let s = match r.below(12) {
            0 => {
                let t: String = (0..12).map(|_| *r.pick(SAFE_ASCII) as char).collect();
                SStr { text: t, enc: Enc::Isrc }
            }
            1 => {
                let t: String = text(r, max).chars().filter(char::is_ascii).collect();
                SStr { text: t, enc: Enc::LongAscii }
            }
            2 => SStr { text: text(r, max), enc: Enc::Utf16 },
            3 => SStr::new(""),
            _ => SStr::new(&text(r, max)),
        };
        if !s.ambiguous() {
            return s;
        }
    }
}

pub const TRACKS: u32 = 0;
pub const GENRES: u32 = 1;
pub const ARTISTS: u32 = 2;
pub const ALBUMS: u32 = 3;
pub const LABELS: u32 = 4;
pub const KEYS: u32 = 5;
pub const COLORS: u32 = 6;
pub const PLTREE: u32 = 7;
pub const PLENTRIES: u32 = 8;
pub const HISTPL: u32 = 11;
pub const HISTENT: u32 = 12;
pub const ARTWORK: u32 = 13;
pub const COLUMNS: u32 = 16;
pub const MENU: u32 = 17;
pub const HISTORY: u32 = 19;
pub const EXT_TAG: u32 = 3;
pub const EXT_TRACKTAG: u32 = 4;

pub const PLAIN_TYPES: [u32; 15] = [
    TRACKS, GENRES, ARTISTS, ALBUMS, LABELS, KEYS, COLORS, PLTREE, PLENTRIES, HISTPL, HISTENT, ARTWORK,
    COLUMNS, MENU, HISTORY,
];
pub const EXT_TYPES: [u32; 2] = [EXT_TAG, EXT_TRACKTAG];

/// Schema element of a row.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    U8,
    U16,
    U32,
    Color,
    FileType,
    Vis,
    Subtype,
    Parent,
    Magic32(u32),
    Magic16(u16),
    Str,
}

/// (fixed fields, offset-array start, offset-array string names)
pub type Schema = (&'static [(&'static str, K)], &'static [&'static str]);

pub fn schema(ext: bool, ty: u32) -> Option<Schema> {
    use K::*;
    const NAME: &[&str] = &["name"];
    const NONE: &[&str] = &[];
    Some(if ext {
        match ty {
            EXT_TAG => (
                &[
                    ("subtype", Subtype), ("index_shift", U16), ("unknown1", U32), ("unknown2", U32),
                    ("parent_id", Parent), ("position", U32), ("id", U32), ("raw_is_category", U32),
                ],
                &["name", "unknown"],
            ),
            EXT_TRACKTAG => (
                &[("", Magic32(0)), ("track_id", U32), ("tag_id", U32), ("unknown_const", U32)],
                NONE,
            ),
            _ => return None,
        }
    } else {
        match ty {
            TRACKS => (
                &[
                    ("subtype", Subtype), ("index_shift", U16), ("bitmask", U32), ("sample_rate", U32),
                    ("composer_id", U32), ("file_size", U32), ("unknown2", U32), ("unknown3", U16),
                    ("unknown4", U16), ("artwork_id", U32), ("key_id", U32), ("orig_artist_id", U32),
                    ("label_id", U32), ("remixer_id", U32), ("bitrate", U32), ("track_number", U32),
                    ("tempo", U32), ("genre_id", U32), ("album_id", U32), ("artist_id", U32), ("id", U32),
                    ("disc_number", U16), ("play_count", U16), ("year", U16), ("sample_depth", U16),
                    ("duration", U16), ("unknown5", U16), ("color", Color), ("rating", U8),
                    ("file_type", FileType),
                ],
                &[
                    "isrc", "lyricist", "unknown_string2", "unknown_string3", "unknown_string4", "message",
                    "publish_track_information", "autoload_hotcues", "unknown_string5", "unknown_string6",
                    "date_added", "release_date", "mix_name", "unknown_string7", "analyze_path",
                    "analyze_date", "comment", "title", "unknown_string8", "filename", "file_path",
                ],
            ),
            ALBUMS => (
                &[
                    ("subtype", Subtype), ("index_shift", U16), ("unknown2", U32), ("artist_id", U32),
                    ("id", U32), ("unknown3", U32),
                ],
                NAME,
            ),
            ARTISTS => (&[("subtype", Subtype), ("index_shift", U16), ("id", U32)], NAME),
            ARTWORK => (&[("id", U32), ("path", Str)], NONE),
            COLORS => (
                &[("unknown1", U32), ("unknown2", U8), ("color", Color), ("unknown3", U16), ("name", Str)],
                NONE,
            ),
            GENRES | LABELS | HISTPL => (&[("id", U32), ("name", Str)], NONE),
            HISTENT => (&[("track_id", U32), ("playlist_id", U32), ("entry_index", U32)], NONE),
            HISTORY => (
                &[
                    ("subtype", Subtype), ("index_shift", U16), ("num_tracks", U32), ("", Magic32(0)),
                    ("date", Str), ("", Magic16(0x1E19)), ("version", Str), ("label", Str),
                ],
                NONE,
            ),
            KEYS => (&[("id", U32), ("id2", U32), ("name", Str)], NONE),
            PLTREE => (
                &[
                    ("parent_id", U32), ("unknown", U32), ("sort_order", U32), ("id", U32),
                    ("node_is_folder", U32), ("name", Str),
                ],
                NONE,
            ),
            PLENTRIES => (&[("entry_index", U32), ("track_id", U32), ("playlist_id", U32)], NONE),
            COLUMNS => (&[("id", U16), ("unknown0", U16), ("column_name", Str)], NONE),
            MENU => (
                &[
                    ("category_id", U16), ("content_pointer", U16), ("unknown", U8), ("visibility", Vis),
                    ("sort_order", U16),
                ],
                NONE,
            ),
            _ => return None,
        }
    })
}

pub const COLOR_NAMES: [&str; 9] =
    ["None", "Pink", "Red", "Orange", "Yellow", "Green", "Aqua", "Blue", "Purple"];

pub fn filetype_name(v: u32) -> Option<&'static str> {
    Some(match v {
        0 => "Unknown",
        1 => "Mp3",
        4 => "M4a",
        5 => "Flac",
        0xb => "Wav",
        0xc => "Aiff",
        _ => return None,
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct RowM {
    pub ext: bool,
    pub ty: u32,
    /// Values of the numeric schema fields in order (strings hold 0 here).
    pub nums: Vec<u32>,
    /// Inline strings in schema order.
    pub strs: Vec<SStr>,
    /// Offset-array strings.
    pub offs: Vec<SStr>,
    /// Explicit offsets (relative to the row start) of `offs`.
    pub offsets: Vec<u16>,
}

pub fn ksize(k: K) -> usize {
    match k {
        K::U8 | K::Color | K::Vis => 1,
        K::U16 | K::FileType | K::Subtype | K::Magic16(_) => 2,
        K::U32 | K::Parent | K::Magic32(_) => 4,
        K::Str => 0,
    }
}

impl RowM {
    pub fn schema(&self) -> Schema {
        schema(self.ext, self.ty).unwrap_or((&[], &[]))
    }
    /// A row of a page whose type is unknown: nothing is known about its content.
    pub fn opaque(ext: bool, ty: u32) -> Self {
        Self { ext, ty, nums: vec![], strs: vec![], offs: vec![], offsets: vec![] }
    }
    /// No content at all, as in a slot whose row was deleted.
    pub fn is_blank(&self) -> bool {
        self.nums.is_empty() && self.strs.is_empty()
    }
    pub fn is_opaque(&self) -> bool {
        schema(self.ext, self.ty).is_none()
    }
    pub fn u16_offsets(&self) -> bool {
        if self.is_blank() {
            return false;
        }
        let (f, o) = self.schema();
        !o.is_empty() && f[0].1 == K::Subtype && self.nums[0] & 4 != 0
    }
    pub fn fixed_size(&self) -> usize {
        self.schema().0.iter().map(|(_, k)| ksize(*k)).sum()
    }
    pub fn get(&self, name: &str) -> u32 {
        let i = self.schema().0.iter().position(|(n, _)| *n == name).unwrap();
        self.nums[i]
    }
    pub fn set(&mut self, name: &str, v: u32) {
        let i = self.schema().0.iter().position(|(n, _)| *n == name).unwrap();
        self.nums[i] = v;
    }
    pub fn str(&self, name: &str) -> &SStr {
        let (f, o) = self.schema();
        if let Some(i) = o.iter().position(|n| *n == name) {
            return &self.offs[i];
        }
        let i = f.iter().filter(|(_, k)| *k == K::Str).position(|(n, _)| *n == name).unwrap();
        &self.strs[i]
    }
    pub fn set_str(&mut self, name: &str, s: SStr) {
        let (f, o) = self.schema();
        if let Some(i) = o.iter().position(|n| *n == name) {
            self.offs[i] = s;
            return;
        }
        let i = f.iter().filter(|(_, k)| *k == K::Str).position(|(n, _)| *n == name).unwrap();
        self.strs[i] = s;
    }
    /// Byte offset of a numeric field inside the row (only valid before the first inline string).
    pub fn field_pos(&self, name: &str) -> (usize, usize) {
        let mut p = 0;
        for (n, k) in self.schema().0 {
            if *n == name {
                return (p, ksize(*k));
            }
            assert!(*k != K::Str);
            p += ksize(*k);
        }
        panic!("no field {name}");
    }
    /// (offset, bytes) pieces making up the stored row; pieces do not overlap.
    pub fn pieces(&self) -> Vec<(usize, Vec<u8>)> {
        if self.is_blank() {
            return vec![(0, vec![])];
        }
        let (f, o) = self.schema();
        let mut b: Vec<u8> = vec![];
        let mut si = 0;
        for (i, (_, k)) in f.iter().enumerate() {
            match k {
                K::U8 | K::Color | K::Vis => b.push(self.nums[i] as u8),
                K::U16 | K::FileType | K::Subtype => b.extend_from_slice(&(self.nums[i] as u16).to_le_bytes()),
                K::U32 | K::Parent => b.extend_from_slice(&self.nums[i].to_le_bytes()),
                K::Magic32(m) => b.extend_from_slice(&m.to_le_bytes()),
                K::Magic16(m) => b.extend_from_slice(&m.to_le_bytes()),
                K::Str => {
                    b.extend_from_slice(&self.strs[si].encode());
                    si += 1;
                }
            }
        }
        let mut v = vec![];
        if !o.is_empty() {
            if self.u16_offsets() {
                b.extend_from_slice(&3u16.to_le_bytes());
                for x in &self.offsets {
                    b.extend_from_slice(&x.to_le_bytes());
                }
            } else {
                b.push(3);
                for x in &self.offsets {
                    b.push(*x as u8);
                }
            }
        }
        v.push((0, b));
        for (s, off) in self.offs.iter().zip(&self.offsets) {
            v.push((*off as usize, s.encode()));
        }
        v
    }
    pub fn size(&self) -> usize {
        self.pieces().iter().map(|(o, b)| o + b.len()).max().unwrap()
    }
    /// Row bytes with gaps filled from `fill`.
    pub fn encode_over(&self, base: &mut [u8]) {
        for (o, b) in self.pieces() {
            base[o..o + b.len()].copy_from_slice(&b);
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.size()];
        self.encode_over(&mut v);
        v
    }
    pub fn offsets_header(&self) -> usize {
        let n = self.schema().1.len() + 1;
        self.fixed_size() + n * if self.u16_offsets() { 2 } else { 1 }
    }
    /// Lay the offset strings out one after another, in a possibly permuted order and with random
    /// gaps. Returns false if they do not fit the offset width.
    pub fn layout(&mut self, r: &mut Rng) -> bool {
        let n = self.offs.len();
        if n == 0 {
            return true;
        }
        let mut order: Vec<usize> = (0..n).collect();
        if r.chance(1, 4) {
            r.shuffle(&mut order);
        }
        let mut pos = self.offsets_header();
        self.offsets = vec![0; n];
        let max = if self.u16_offsets() { u16::MAX as usize } else { 255 };
        for i in order {
            if self.offs[i].enc == Enc::Utf16 {
                pos = pos.next_multiple_of(4);
            }
            if r.chance(1, 6) {
                pos += r.below(5);
            }
            if pos > max {
                return false;
            }
            self.offsets[i] = pos as u16;
            pos += self.offs[i].encode().len();
        }
        true
    }
    /// The layout prescribed for calculated offsets: in order, UTF-16 items 4-byte aligned
    /// relative to the row, no other gaps. Returns false if an offset does not fit.
    pub fn layout_calculated(&mut self) -> bool {
        let mut pos = self.offsets_header();
        let max = if self.u16_offsets() { u16::MAX as usize } else { 255 };
        self.offsets.clear();
        for s in &self.offs {
            if s.enc == Enc::Utf16 {
                pos = pos.next_multiple_of(4);
            }
            if pos > max {
                return false;
            }
            self.offsets.push(pos as u16);
            pos += s.encode().len();
        }
        true
    }
    /// The expected (field, value) list of the Debug output.
    pub fn expect_debug(&self) -> Vec<(String, String)> {
        let (f, o) = self.schema();
        let mut v = vec![];
        let mut si = 0;
        for (i, (n, k)) in f.iter().enumerate() {
            let x = self.nums[i];
            let t = match k {
                K::Magic16(_) | K::Magic32(_) => continue,
                K::Color => COLOR_NAMES[x as usize].to_string(),
                K::FileType => filetype_name(x).map_or(x.to_string(), str::to_string),
                K::Vis => match x {
                    0 => "Visible".into(),
                    1 => "Hidden".into(),
                    _ => x.to_string(),
                },
                K::Parent if x == 0 => "None".into(),
                K::Str => {
                    si += 1;
                    self.strs[si - 1].text.clone()
                }
                _ => x.to_string(),
            };
            v.push(((*n).to_string(), t));
        }
        for x in &self.offsets {
            v.push(("offsets".into(), x.to_string()));
        }
        for (s, n) in self.offs.iter().zip(o) {
            v.push(((*n).to_string(), s.text.clone()));
        }
        v
    }
}

pub fn gen_row(r: &mut Rng, ext: bool, ty: u32, max_str: usize) -> RowM {
    let (f, o) = schema(ext, ty).unwrap();
    loop {
        let mut nums = vec![];
        let mut strs = vec![];
        for (_, k) in f {
            nums.push(match k {
                K::U8 => u32::from(r.u8_edgy()),
                K::U16 => u32::from(r.u16_edgy()),
                K::U32 => r.u32_edgy(),
                K::Color => r.below(9) as u32,
                K::FileType => {
                    if r.chance(3, 4) {
                        *r.pick(&[0, 1, 4, 5, 0xb, 0xc])
                    } else {
                        u32::from(r.u16_edgy())
                    }
                }
                K::Vis => {
                    if r.chance(2, 3) {
                        r.below(2) as u32
                    } else {
                        u32::from(r.u8_edgy())
                    }
                }
                K::Subtype => {
                    let base = u32::from(r.u16()) & !4;
                    base | if r.chance(1, 2) { 4 } else { 0 }
                }
                K::Parent => {
                    if r.chance(1, 3) {
                        0
                    } else {
                        r.u32_edgy()
                    }
                }
                K::Magic16(_) | K::Magic32(_) => 0,
                K::Str => {
                    strs.push(sstr(r, max_str));
                    0
                }
            });
        }
        let m = if o.len() > 2 { max_str.min(if r.chance(1, 2) { 6 } else { 40 }) } else { max_str };
        let offs: Vec<SStr> = o.iter().map(|_| if o.len() > 2 && r.chance(1, 2) { SStr::new("") } else { sstr(r, m) }).collect();
        let mut row = RowM { ext, ty, nums, strs, offs, offsets: vec![] };
        if row.layout(r) {
            return row;
        }
    }
}

#[derive(Clone, Debug)]
pub struct Slot {
    pub offset: u16,
    pub present: bool,
    pub row: RowM,
}

#[derive(Clone, Debug)]
pub struct DataPage {
    /// Row index order (deleted rows included).
    pub slots: Vec<Slot>,
    pub unknown: [u16; 4],
    pub used: u16,
    pub group_unknown: Vec<u16>,
    /// Complete page image that heap gaps and unused slots come from.
    pub filler: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct IndexPage {
    pub unknown_a: u16,
    pub unknown_b: u16,
    pub next_offset: u16,
    pub entries: Vec<u32>,
    pub first_empty: u16,
}

#[derive(Clone, Debug)]
pub enum Body {
    Data(DataPage),
    Index(IndexPage),
}

#[derive(Clone, Debug)]
pub struct PageM {
    pub index: u32,
    pub ty: u32,
    pub next: u32,
    pub unknown1: u32,
    pub unknown2: u32,
    pub flags: u8,
    pub body: Body,
}

#[derive(Clone, Debug)]
pub struct TableM {
    pub ty: u32,
    pub empty_candidate: u32,
    /// File page numbers in link order.
    pub pages: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct DbM {
    pub ext: bool,
    pub page_size: u32,
    pub unknown: u32,
    pub sequence: u32,
    pub next_unused: u32,
    pub tables: Vec<TableM>,
    /// Page 1.. in file order; None = unreferenced filler page.
    pub pages: Vec<Option<PageM>>,
    pub junk: Vec<Vec<u8>>,
    /// What fills the header page behind the list of tables; 0 = zeros.
    pub tail: u8,
}

pub const HEAP: usize = 0x28;

impl DataPage {
    pub fn present(&self) -> usize {
        self.slots.iter().filter(|s| s.present).count()
    }
    pub fn groups(&self) -> usize {
        self.slots.len().div_ceil(16)
    }
    pub fn index_bytes(&self) -> usize {
        self.groups() * 4 + self.slots.len() * 2
    }
    pub fn free(&self, page_size: usize) -> u16 {
        (page_size - HEAP - self.used as usize - self.index_bytes()) as u16
    }
}

impl PageM {
    pub fn encode(&self, page_size: usize) -> Vec<u8> {
        let mut p = vec![0u8; page_size];
        match &self.body {
            Body::Data(d) => {
                p[HEAP..].copy_from_slice(&d.filler[HEAP..]);
                for s in &d.slots {
                    let o = HEAP + s.offset as usize;
                    // Deleted rows keep their stale content as well.
                    s.row.encode_over(&mut p[o..]);
                }
                for (i, s) in d.slots.iter().enumerate() {
                    let g = page_size - 36 * (i / 16 + 1);
                    let o = g + 2 * (15 - i % 16);
                    p[o..o + 2].copy_from_slice(&s.offset.to_le_bytes());
                }
                for gi in 0..d.groups() {
                    let g = page_size - 36 * (gi + 1);
                    let mut flags = 0u16;
                    for (j, s) in d.slots.iter().enumerate().skip(gi * 16).take(16) {
                        if s.present {
                            flags |= 1 << (j % 16);
                        }
                    }
                    p[g + 32..g + 34].copy_from_slice(&flags.to_le_bytes());
                    p[g + 34..g + 36].copy_from_slice(&d.group_unknown[gi].to_le_bytes());
                }
                let counts = d.slots.len() as u32 | ((d.present() as u32) << 13);
                p[0x18..0x1b].copy_from_slice(&counts.to_le_bytes()[..3]);
                p[0x1c..0x1e].copy_from_slice(&d.free(page_size).to_le_bytes());
                p[0x1e..0x20].copy_from_slice(&d.used.to_le_bytes());
                for (i, u) in d.unknown.iter().enumerate() {
                    p[0x20 + 2 * i..0x22 + 2 * i].copy_from_slice(&u.to_le_bytes());
                }
            }
            Body::Index(x) => {
                let mut w: Vec<u8> = vec![];
                w.extend_from_slice(&x.unknown_a.to_le_bytes());
                w.extend_from_slice(&x.unknown_b.to_le_bytes());
                w.extend_from_slice(&0x03ecu16.to_le_bytes());
                w.extend_from_slice(&x.next_offset.to_le_bytes());
                w.extend_from_slice(&self.index.to_le_bytes());
                w.extend_from_slice(&self.next.to_le_bytes());
                w.extend_from_slice(&0x03ff_ffffu64.to_le_bytes());
                w.extend_from_slice(&(x.entries.len() as u16).to_le_bytes());
                w.extend_from_slice(&x.first_empty.to_le_bytes());
                for e in &x.entries {
                    w.extend_from_slice(&e.to_le_bytes());
                }
                p[0x20..0x20 + w.len()].copy_from_slice(&w);
                let mut o = 0x20 + w.len();
                while o + 4 <= page_size - 20 {
                    p[o..o + 4].copy_from_slice(&0x1FFF_FFF8u32.to_le_bytes());
                    o += 4;
                }
            }
        }
        p[4..8].copy_from_slice(&self.index.to_le_bytes());
        p[8..12].copy_from_slice(&self.ty.to_le_bytes());
        p[12..16].copy_from_slice(&self.next.to_le_bytes());
        p[16..20].copy_from_slice(&self.unknown1.to_le_bytes());
        p[20..24].copy_from_slice(&self.unknown2.to_le_bytes());
        p[0x1b] = self.flags;
        p
    }
}

impl DbM {
    pub fn header(&self) -> Vec<u8> {
        let mut h: Vec<u8> = vec![];
        for v in [0, self.page_size, self.tables.len() as u32, self.next_unused, self.unknown, self.sequence, 0] {
            h.extend_from_slice(&v.to_le_bytes());
        }
        for t in &self.tables {
            let first = t.pages.first().copied().unwrap_or(0);
            let last = t.pages.last().copied().unwrap_or(0);
            for v in [t.ty, t.empty_candidate, first, last] {
                h.extend_from_slice(&v.to_le_bytes());
            }
        }
        h
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut f = self.header();
        while f.len() < self.page_size as usize {
            f.push(if self.tail == 0 { 0 } else { (f.len() as u8).wrapping_mul(37) ^ self.tail });
        }
        for (i, p) in self.pages.iter().enumerate() {
            match p {
                Some(p) => f.extend_from_slice(&p.encode(self.page_size as usize)),
                None => f.extend_from_slice(&self.junk[i]),
            }
        }
        f
    }
    pub fn page(&self, n: u32) -> &PageM {
        self.pages[n as usize - 1].as_ref().unwrap()
    }
    pub fn page_mut(&mut self, n: u32) -> &mut PageM {
        self.pages[n as usize - 1].as_mut().unwrap()
    }
    /// Present rows of a table in the order iteration must report them.
    pub fn rows(&self, t: &TableM) -> Vec<(u32, u16, RowM)> {
        let mut v = vec![];
        for p in &t.pages {
            if let Body::Data(d) = &self.page(*p).body {
                let mut s: Vec<&Slot> = d.slots.iter().filter(|s| s.present).collect();
                s.sort_by_key(|s| s.offset);
                v.extend(s.into_iter().map(|s| (*p, s.offset, s.row.clone())));
            }
        }
        v
    }
}

#[derive(Clone)]
pub struct GenOpts {
    pub page_size: Option<u32>,
    pub max_rows: usize,
    pub max_str: usize,
    pub deleted: bool,
    pub unknown_tables: bool,
    pub max_pages: usize,
}

impl Default for GenOpts {
    fn default() -> Self {
        Self { page_size: None, max_rows: 40, max_str: 130, deleted: true, unknown_tables: true, max_pages: 4 }
    }
}

/// Fill one data page with rows produced by `next` until it returns None or the page is full.
pub fn gen_data_page(
    r: &mut Rng,
    page_size: usize,
    deleted: bool,
    mut next: impl FnMut(&mut Rng) -> Option<RowM>,
) -> (DataPage, Option<RowM>) {
    let mut slots: Vec<Slot> = vec![];
    let mut used = 0usize;
    let mut left = None;
    // Heap placement order differs from row order now and then.
    while let Some(row) = next(r) {
        if used > 0 && deleted && r.chance(1, 8) {
            used += 4 * r.below(6);
        }
        let need = row.size().next_multiple_of(4);
        let n = slots.len() + 1;
        let idx = n.div_ceil(16) * 4 + n * 2;
        if n > 2000 || HEAP + used + need + idx > page_size {
            left = Some(row);
            break;
        }
        slots.push(Slot { offset: used as u16, present: true, row });
        used += need;
    }
    while HEAP + used + slots.len().div_ceil(16) * 4 + slots.len() * 2 > page_size {
        used -= 4; // undo a gap that ended up past the limit
    }
    if deleted {
        match r.below(6) {
            0 => slots.iter_mut().for_each(|s| s.present = r.chance(1, 2)),
            1 => slots.iter_mut().for_each(|s| s.present = r.chance(7, 8)),
            2 => {
                // only the tail deleted
                let k = slots.len().saturating_sub(r.below(20));
                slots.iter_mut().skip(k).for_each(|s| s.present = false);
            }
            3 => {
                // one whole group or everything deleted
                if r.chance(1, 2) && !slots.is_empty() {
                    let g = r.below(slots.len().div_ceil(16));
                    slots.iter_mut().skip(g * 16).take(16).for_each(|s| s.present = false);
                } else {
                    slots.iter_mut().for_each(|s| s.present = false);
                }
            }
            _ => {}
        }
        if r.chance(1, 4) {
            // Row numbers need not follow heap order.
            r.shuffle(&mut slots);
        }
    }
    let groups = slots.len().div_ceil(16);
    let filler = if r.chance(1, 2) { vec![0; page_size] } else { r.bytes(page_size) };
    let d = DataPage {
        unknown: [r.u16_edgy(), r.u16_edgy(), r.u16_edgy(), r.u16_edgy()],
        used: used as u16,
        group_unknown: (0..groups).map(|_| r.u16_edgy()).collect(),
        filler,
        slots,
    };
    (d, left)
}

/// A page with a huge row index, of which at most as many rows are present as the header can count.
pub fn gen_many_slots(r: &mut Rng, ext: bool, ty: u32, page_size: usize) -> DataPage {
    let max = ((page_size - HEAP) / 36 * 16).min(8191);
    let n = match r.below(4) {
        0 => max,
        1 => max - r.below(40),
        _ => r.range(max / 3, max),
    };
    let limit = page_size - HEAP - n.div_ceil(16) * 36;
    let want = r.range(1, 2047.min(n));
    let mut chosen: Vec<bool> = (0..n).map(|i| i < want).collect();
    r.shuffle(&mut chosen);
    let mut used = 0usize;
    let mut slots = vec![];
    for c in chosen {
        let row = gen_row(r, ext, ty, 3);
        let size = row.size().next_multiple_of(4);
        if c && used + size <= limit {
            slots.push(Slot { offset: used as u16, present: true, row });
            used += size;
        } else {
            // The slot of a deleted row whose space was reused.
            let at = r.below(used / 4 + 1) * 4;
            slots.push(Slot { offset: at as u16, present: false, row: RowM::opaque(ext, ty) });
        }
    }
    DataPage {
        unknown: [r.u16_edgy(), r.u16_edgy(), r.u16_edgy(), r.u16_edgy()],
        used: used as u16,
        group_unknown: (0..n.div_ceil(16)).map(|_| r.u16_edgy()).collect(),
        filler: if r.chance(1, 2) { vec![0; page_size] } else { r.bytes(page_size) },
        slots,
    }
}

pub fn data_flags(r: &mut Rng) -> u8 {
    if r.chance(2, 3) {
        *r.pick(&[0x24, 0x34])
    } else {
        r.u8() & !0x40
    }
}
pub fn index_flags(r: &mut Rng) -> u8 {
    if r.chance(2, 3) {
        *r.pick(&[0x44, 0x64])
    } else {
        r.u8() | 0x40
    }
}

pub fn gen_index(r: &mut Rng, page_size: usize) -> IndexPage {
    let cap = (page_size - 0x20 - 28 - 20) / 4;
    let n = match r.below(5) {
        0 => 0,
        1 => cap,
        2 => cap - r.below(cap.min(3)),
        _ => r.below(cap.min(30)),
    };
    let entries = (0..n)
        .map(|_| {
            if r.chance(1, 6) {
                0x1FFF_FFF8
            } else {
                ((r.u32_edgy() % 0x03FF_FFFF) << 3) | r.below(8) as u32
            }
        })
        .collect();
    IndexPage {
        unknown_a: r.u16_edgy(),
        unknown_b: r.u16_edgy(),
        next_offset: r.u16_edgy(),
        entries,
        first_empty: r.u16_edgy(),
    }
}

/// Assemble a database from per-table lists of page bodies; page numbers are assigned increasing
/// along each table but interleaved between tables, with junk pages in between.
pub fn assemble(r: &mut Rng, ext: bool, page_size: u32, tables: Vec<(u32, Vec<Body>)>) -> DbM {
    let mut queue: Vec<usize> = vec![];
    for (i, (_, b)) in tables.iter().enumerate() {
        queue.extend(std::iter::repeat(i).take(b.len()));
    }
    if r.chance(4, 5) {
        r.shuffle(&mut queue);
    }
    let mut pages: Vec<Option<PageM>> = vec![];
    let mut junk: Vec<Vec<u8>> = vec![];
    let mut tm: Vec<TableM> = tables
        .iter()
        .map(|(ty, _)| TableM { ty: *ty, empty_candidate: r.u32_edgy(), pages: vec![] })
        .collect();
    let mut its: Vec<_> = tables.into_iter().map(|(_, b)| b.into_iter()).collect();
    for t in queue {
        if r.chance(1, 8) {
            pages.push(None);
            junk.push(if r.chance(1, 2) { vec![0; page_size as usize] } else { r.bytes(page_size as usize) });
        }
        let body = its[t].next().unwrap();
        let index = pages.len() as u32 + 1;
        tm[t].pages.push(index);
        let flags = match body {
            Body::Data(_) => data_flags(r),
            Body::Index(_) => index_flags(r),
        };
        pages.push(Some(PageM {
            index,
            ty: tm[t].ty,
            next: 0,
            unknown1: r.u32_edgy(),
            unknown2: r.u32_edgy(),
            flags,
            body,
        }));
        junk.push(vec![]);
    }
    let total = pages.len() as u32 + 1;
    for t in &tm {
        for (i, p) in t.pages.iter().enumerate() {
            let next = t.pages.get(i + 1).copied().unwrap_or_else(|| {
                // past the end of the table: anything goes
                match r.below(3) {
                    0 => total,
                    1 => total + r.below(100) as u32,
                    _ => r.below(total as usize) as u32,
                }
            });
            pages[*p as usize - 1].as_mut().unwrap().next = next;
        }
    }
    DbM {
        ext,
        page_size,
        unknown: r.u32_edgy(),
        sequence: r.u32_edgy(),
        next_unused: total,
        tables: tm,
        pages,
        junk,
        tail: if r.chance(1, 4) { r.u8_edgy() } else { 0 },
    }
}

pub fn gen_db(r: &mut Rng, ext: bool, o: &GenOpts) -> DbM {
    let page_size = o.page_size.unwrap_or_else(|| *r.pick(&[4096, 4096, 4096, 1024, 2048, 8192, 512 + 4 * 100]));
    let types: Vec<u32> = if ext { EXT_TYPES.to_vec() } else { PLAIN_TYPES.to_vec() };
    let mut chosen: Vec<u32> = types;
    r.shuffle(&mut chosen);
    let keep = r.range(1, chosen.len());
    if r.chance(2, 3) {
        chosen.truncate(keep);
    }
    if o.unknown_tables && r.chance(1, 2) {
        let u = if ext { *r.pick(&[0, 1, 2, 5, 8, 77]) } else { *r.pick(&[9, 10, 14, 15, 18, 20, 0x8000_0000]) };
        let at = r.below(chosen.len() + 1);
        chosen.insert(at, u);
    }
    chosen.truncate((page_size as usize - 28) / 16);
    let mut tables = vec![];
    for ty in chosen {
        let mut bodies = vec![];
        if r.chance(4, 5) {
            bodies.push(Body::Index(gen_index(r, page_size as usize)));
        }
        let known = schema(ext, ty).is_some();
        let mut left = if r.chance(1, 6) { 0 } else { r.below(o.max_rows + 1) };
        let mut pend: Option<RowM> = None;
        let max_str = o.max_str.min(page_size as usize / 8);
        while bodies.len() < o.max_pages {
            if known {
                let per_page = if r.chance(1, 4) { r.range(0, 20) } else { usize::MAX };
                let mut n = 0;
                let mut first = pend.take();
                let (d, rest) = gen_data_page(r, page_size as usize, o.deleted, |r| {
                    if let Some(f) = first.take() {
                        return Some(f);
                    }
                    if left == 0 || n >= per_page {
                        return None;
                    }
                    left -= 1;
                    n += 1;
                    for _ in 0..50 {
                        let row = gen_row(r, ext, ty, max_str);
                        if row.size() + 64 < page_size as usize - HEAP {
                            return Some(row);
                        }
                    }
                    None
                });
                pend = rest;
                bodies.push(Body::Data(d));
                if left == 0 && pend.is_none() {
                    break;
                }
            } else {
                // Unknown page type: the row content is opaque.
                let n = if r.chance(1, 2) { 0 } else { r.below(40) };
                let slots: Vec<Slot> = (0..n)
                    .map(|i| Slot { offset: 4 * i as u16, present: r.chance(5, 6), row: RowM::opaque(ext, ty) })
                    .collect();
                let groups = n.div_ceil(16);
                let d = DataPage {
                    slots,
                    unknown: [r.u16(), r.u16(), r.u16(), r.u16()],
                    used: 4 * n as u16,
                    group_unknown: (0..groups).map(|_| r.u16_edgy()).collect(),
                    filler: r.bytes(page_size as usize),
                };
                bodies.push(Body::Data(d));
                if r.chance(1, 2) {
                    break;
                }
            }
        }
        if bodies.is_empty() {
            bodies.push(Body::Index(gen_index(r, page_size as usize)));
        }
        tables.push((ty, bodies));
    }
    assemble(r, ext, page_size, tables)
}
