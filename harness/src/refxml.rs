//! Independent model of the rekordbox XML format: element and attribute names are written down here
//! from the published format list; a small XML reader and a varied XML writer.
use crate::rng::Rng;
use rekordcrate::xml::*;

/// A parsed or expected element.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<El>,
}
impl El {
    fn new(name: &str) -> Self {
        El { name: name.into(), ..El::default() }
    }
    fn a(mut self, k: &str, v: impl ToString) -> Self {
        self.attrs.push((k.into(), v.to_string()));
        self
    }
    fn o<T: ToString>(self, k: &str, v: &Option<T>) -> Self {
        match v {
            Some(v) => self.a(k, v.to_string()),
            None => self,
        }
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(El::count).sum::<usize>()
    }
}

pub fn to_el(d: &Document) -> El {
    let mut root = El::new("DJ_PLAYLISTS").a("Version", &d.version);
    root.kids.push(
        El::new("PRODUCT")
            .a("Name", &d.product.name)
            .a("Version", &d.product.version)
            .a("Company", &d.product.company),
    );
    let mut c = El::new("COLLECTION").a("Entries", d.collection.entries);
    c.kids = d.collection.track.iter().map(track).collect();
    root.kids.push(c);
    let mut p = El::new("PLAYLISTS");
    p.kids.push(folder(&d.playlists.node));
    root.kids.push(p);
    root
}
fn track(t: &Track) -> El {
    let mut e = El::new("TRACK")
        .a("TrackID", t.trackid)
        .o("Name", &t.name)
        .o("Artist", &t.artist)
        .o("Composer", &t.composer)
        .o("Album", &t.album)
        .o("Grouping", &t.grouping)
        .o("Genre", &t.genre)
        .o("Kind", &t.kind)
        .o("Size", &t.size)
        .o("TotalTime", &t.totaltime)
        .o("DiscNumber", &t.discnumber)
        .o("TrackNumber", &t.tracknumber)
        .o("Year", &t.year)
        .o("AverageBpm", &t.averagebpm)
        .o("DateModified", &t.datemodified)
        .o("DateAdded", &t.dateadded)
        .o("BitRate", &t.bitrate)
        .o("SampleRate", &t.samplerate)
        .o("Comments", &t.comments)
        .o("PlayCount", &t.playcount)
        .o("LastPlayed", &t.lastplayed)
        .o("Rating", &t.rating)
        .a("Location", &t.location)
        .o("Remixer", &t.remixer)
        .o("Tonality", &t.tonality)
        .o("Label", &t.label)
        .o("Mix", &t.mix)
        .o("Colour", &t.colour);
    for x in &t.tempos {
        e.kids.push(
            El::new("TEMPO").a("Inizio", x.inizio).a("Bpm", x.bpm).a("Metro", &x.metro).a("Battito", x.battito),
        );
    }
    for x in &t.position_marks {
        e.kids.push(
            El::new("POSITION_MARK")
                .a("Name", &x.name)
                .a("Type", x.mark_type)
                .a("Start", x.start)
                .o("End", &x.end)
                .a("Num", x.num),
        );
    }
    e
}
fn folder(f: &PlaylistFolderNode) -> El {
    let mut e = El::new("NODE").a("Type", 0).a("Name", &f.name).a("Count", f.nodes.len());
    for n in &f.nodes {
        e.kids.push(match n {
            PlaylistGenericNode::Folder(f) => folder(f),
            PlaylistGenericNode::Playlist(p) => {
                let mut e = El::new("NODE")
                    .a("Type", 1)
                    .a("Name", &p.name)
                    .a("Entries", p.tracks.len())
                    .a("KeyType", &p.keytype);
                e.kids = p.tracks.iter().map(|t| El::new("TRACK").a("Key", t.key)).collect();
                e
            }
        });
    }
    e
}

/// Sort attributes so that trees compare regardless of attribute order.
pub fn canon(mut e: El) -> El {
    e.attrs.sort();
    e.kids = e.kids.into_iter().map(canon).collect();
    e
}

/// First difference of two trees.
pub fn diff(got: &El, want: &El, path: &str) -> Option<String> {
    let p = format!("{path}/{}", want.name);
    if got.name != want.name {
        return Some(format!("element {} instead of {p}", got.name));
    }
    for (k, v) in &want.attrs {
        let g: Vec<_> = got.attrs.iter().filter(|a| a.0 == *k).collect();
        if g.len() != 1 {
            return Some(format!("{p}: attribute {k} present {} times", g.len()));
        }
        let same = g[0].1 == *v || (k != "Name" && matches!((g[0].1.parse::<f64>(), v.parse::<f64>()), (Ok(a), Ok(b)) if a == b));
        if !same {
            return Some(format!("{p}: attribute {k} is {:?} instead of {v:?}", g[0].1));
        }
    }
    for (k, v) in &got.attrs {
        if !want.attrs.iter().any(|a| a.0 == *k) {
            return Some(format!("{p}: extra attribute {k}={v:?}"));
        }
    }
    if got.kids.len() != want.kids.len() {
        return Some(format!("{p}: {} child elements instead of {}", got.kids.len(), want.kids.len()));
    }
    got.kids.iter().zip(&want.kids).find_map(|(g, w)| diff(g, w, &p))
}

// ---------------------------------------------------------------------------------- reading

/// Parse a document (elements, attributes, character and predefined entity references only).
pub fn parse(s: &str) -> Result<El, String> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    p.misc()?;
    let e = p.el(0)?;
    p.misc()?;
    if p.i != p.s.len() {
        return Err(format!("text after the root element at {}", p.i));
    }
    Ok(e)
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && b" \t\r\n".contains(&self.s[self.i]) {
            self.i += 1;
        }
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            if self.s[self.i..].starts_with(b"<?") {
                self.to(b"?>")?;
            } else if self.s[self.i..].starts_with(b"<!--") {
                self.to(b"-->")?;
            } else {
                return Ok(());
            }
        }
    }
    fn to(&mut self, e: &[u8]) -> Result<(), String> {
        while self.i < self.s.len() {
            if self.s[self.i..].starts_with(e) {
                self.i += e.len();
                return Ok(());
            }
            self.i += 1;
        }
        Err("unterminated markup".into())
    }
    fn name(&mut self) -> Result<String, String> {
        let a = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"_-.:".contains(&self.s[self.i])) {
            self.i += 1;
        }
        if a == self.i {
            return Err(format!("name expected at {a}"));
        }
        Ok(String::from_utf8_lossy(&self.s[a..self.i]).into())
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            return true;
        }
        false
    }
    fn el(&mut self, depth: usize) -> Result<El, String> {
        if depth > 2000 {
            return Err("too deep".into());
        }
        if !self.eat("<") {
            return Err(format!("element expected at {}", self.i));
        }
        let mut e = El::new(&self.name()?);
        loop {
            let a = self.i;
            self.ws();
            if self.eat("/>") {
                return Ok(e);
            }
            if self.eat(">") {
                break;
            }
            if a == self.i {
                return Err(format!("space expected at {a}"));
            }
            let k = self.name()?;
            self.ws();
            if !self.eat("=") {
                return Err(format!("= expected at {}", self.i));
            }
            self.ws();
            let q = *self.s.get(self.i).ok_or("end of text")?;
            if q != b'"' && q != b'\'' {
                return Err(format!("quote expected at {}", self.i));
            }
            self.i += 1;
            let a = self.i;
            while self.i < self.s.len() && self.s[self.i] != q {
                self.i += 1;
            }
            let raw = std::str::from_utf8(&self.s[a..self.i]).map_err(|e| e.to_string())?;
            self.i += 1;
            if e.attrs.iter().any(|x| x.0 == k) {
                return Err(format!("duplicate attribute {k}"));
            }
            let v = unescape(raw)?;
            e.attrs.push((k, v));
        }
        loop {
            self.misc()?;
            if self.eat("</") {
                let n = self.name()?;
                self.ws();
                if n != e.name || !self.eat(">") {
                    return Err(format!("wrong end tag {n} for {}", e.name));
                }
                return Ok(e);
            }
            e.kids.push(self.el(depth + 1)?);
        }
    }
}
fn unescape(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut it = s.split('&');
    // Attribute-value normalisation: literal white space becomes a space.
    let norm = |x: &str| x.replace("\r\n", " ").replace(['\t', '\n', '\r'], " ");
    let first = it.next().unwrap();
    if s.contains('<') {
        return Err("< in an attribute value".into());
    }
    o.push_str(&norm(first));
    for part in it {
        let (ent, rest) = part.split_once(';').ok_or("bare &")?;
        let c = match ent {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = ent.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else {
                    ent.strip_prefix('#').and_then(|d| d.parse().ok())
                };
                n.and_then(char::from_u32).ok_or_else(|| format!("bad reference &{ent};"))?
            }
        };
        o.push(c);
        o.push_str(&norm(rest));
    }
    Ok(o)
}

// ---------------------------------------------------------------------------------- writing

pub struct Style {
    pub decl: bool,
    pub pretty: bool,
    pub shuffle: bool,
    pub comments: bool,
    /// Escape characters as references with this probability (in 16ths).
    pub refs: usize,
}
impl Style {
    pub fn random(r: &mut Rng) -> Self {
        Style {
            decl: r.chance(1, 2),
            pretty: r.chance(1, 2),
            shuffle: r.chance(2, 3),
            comments: r.chance(1, 4),
            refs: *r.pick(&[0usize, 0, 1, 8]),
        }
    }
}
pub fn write(r: &mut Rng, e: &El, st: &Style) -> String {
    let mut s = String::new();
    if st.decl {
        s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    }
    wr(r, e, st, 0, &mut s);
    if r.chance(1, 2) {
        s.push('\n');
    }
    s
}
fn gap(r: &mut Rng, st: &Style, depth: usize, s: &mut String) {
    if st.comments && r.chance(1, 5) {
        s.push_str("<!-- a comment with <tags> & such -->");
    }
    if st.pretty {
        s.push('\n');
        for _ in 0..depth {
            s.push_str("  ");
        }
    }
}
fn wr(r: &mut Rng, e: &El, st: &Style, depth: usize, s: &mut String) {
    s.push('<');
    s.push_str(&e.name);
    let mut at: Vec<usize> = (0..e.attrs.len()).collect();
    if st.shuffle {
        r.shuffle(&mut at);
    }
    for i in at {
        let (k, v) = &e.attrs[i];
        s.push_str(if st.pretty && r.chance(1, 8) { "\n      " } else { " " });
        let q = if r.chance(1, 4) { '\'' } else { '"' };
        s.push_str(k);
        s.push('=');
        s.push(q);
        for c in v.chars() {
            match c {
                '<' => s.push_str("&lt;"),
                '&' => s.push_str("&amp;"),
                '>' if r.chance(1, 2) => s.push_str("&gt;"),
                '"' if q == '"' => s.push_str("&quot;"),
                '\'' if q == '\'' => s.push_str("&apos;"),
                '\t' | '\n' | '\r' => s.push_str(&format!("&#{};", c as u32)),
                _ if st.refs > 0 && r.chance(st.refs, 16) => {
                    s.push_str(&if r.chance(1, 2) { format!("&#{};", c as u32) } else { format!("&#x{:X};", c as u32) })
                }
                _ => s.push(c),
            }
        }
        s.push(q);
    }
    if e.kids.is_empty() && r.chance(3, 4) {
        s.push_str(if r.chance(1, 4) { " />" } else { "/>" });
        return;
    }
    s.push('>');
    for k in &e.kids {
        gap(r, st, depth + 1, s);
        wr(r, k, st, depth + 1, s);
    }
    if !e.kids.is_empty() {
        gap(r, st, depth, s);
    }
    s.push_str(&format!("</{}>", e.name));
}

// ---------------------------------------------------------------------------------- generating

pub fn text(r: &mut Rng, wsc: bool) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(20, 60),
        _ => r.range(1, 14),
    };
    let mode = r.below(4);
    let mut s = String::new();
    for i in 0..n {
        let c = match mode {
            0 => char::from(r.range(0x20, 0x7e) as u8),
            1 => *r.pick(&['<', '>', '&', '"', '\'', ' ', ';', '#', '/', 'a', '=', ']', '\u{a0}', '-']),
            _ => loop {
                let c = match r.below(5) {
                    0 => r.range(0x20, 0x7f),
                    1 => r.range(0x80, 0x800),
                    2 => r.range(0x800, 0xffff),
                    3 => r.range(0x1_0000, 0x10_ffff),
                    _ => *r.pick(&[0x85usize, 0x2028, 0xfeff, 0xfffd, 0xd7ff, 0xe000, 0x10_ffff, 0x301, 0x202e]),
                };
                match char::from_u32(c as u32) {
                    Some('\u{fffe}' | '\u{ffff}') => {}
                    Some(c) => break c,
                    None => {}
                }
            },
        };
        s.push(if wsc && (i == 0 || r.chance(1, 3)) { *r.pick(&['\t', '\n', '\r']) } else { c });
    }
    match r.below(12) {
        0 => format!(" {s}"),
        1 => format!("{s}  "),
        2 => ["&amp;", "&lt;", "&#10;", "]]>", "<!--", "true", "0", "-1", "null", " "][r.below(10)].into(),
        _ => s,
    }
}
fn int(r: &mut Rng) -> i32 {
    match r.below(4) {
        0 => r.u32() as i32,
        1 => *r.pick(&[0, -1, 1, i32::MAX, i32::MIN]),
        _ => r.below(1000) as i32,
    }
}
fn float(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => loop {
            let f = f64::from_bits(r.u64());
            if f.is_finite() {
                break f;
            }
        },
        1 => *r.pick(&[0.0, -1.0, 1e300, 1e-300, f64::MAX, f64::MIN_POSITIVE, 0.1 + 0.2, 128.0]),
        2 => r.below(100_000) as f64,
        _ => r.below(10_000_000) as f64 / 1000.0,
    }
}
pub struct Gen {
    pub wsc: bool,
    pub max: usize,
    pub depth: usize,
}
impl Gen {
    fn opt<T>(&self, r: &mut Rng, p: usize, f: impl Fn(&Gen, &mut Rng) -> T) -> Option<T> {
        r.chance(p, 4).then(|| f(self, r))
    }
    fn s(&self, r: &mut Rng) -> String {
        let w = self.wsc && r.chance(1, 3);
        text(r, w)
    }
    pub fn track(&self, r: &mut Rng) -> Track {
        let p = r.below(5);
        let st = |g: &Gen, r: &mut Rng| g.s(r);
        let it = |_: &Gen, r: &mut Rng| int(r);
        let ft = |_: &Gen, r: &mut Rng| float(r);
        Track {
            trackid: int(r),
            name: self.opt(r, p, st),
            artist: self.opt(r, p, st),
            composer: self.opt(r, p, st),
            album: self.opt(r, p, st),
            grouping: self.opt(r, p, st),
            genre: self.opt(r, p, st),
            kind: self.opt(r, p, st),
            size: self.opt(r, p, |_, r| if r.chance(1, 2) { r.u64() as i64 } else { r.below(1 << 30) as i64 }),
            totaltime: self.opt(r, p, ft),
            discnumber: self.opt(r, p, it),
            tracknumber: self.opt(r, p, it),
            year: self.opt(r, p, it),
            averagebpm: self.opt(r, p, ft),
            datemodified: self.opt(r, p, st),
            dateadded: self.opt(r, p, st),
            bitrate: self.opt(r, p, it),
            samplerate: self.opt(r, p, ft),
            comments: self.opt(r, p, st),
            playcount: self.opt(r, p, it),
            lastplayed: self.opt(r, p, st),
            rating: self.opt(r, p, it),
            location: self.s(r),
            remixer: self.opt(r, p, st),
            tonality: self.opt(r, p, st),
            label: self.opt(r, p, st),
            mix: self.opt(r, p, st),
            colour: self.opt(r, p, st),
            tempos: (0..self.n(r)).map(|_| Tempo { inizio: float(r), bpm: float(r), metro: self.s(r), battito: int(r) }).collect(),
            position_marks: (0..self.n(r))
                .map(|_| PositionMark {
                    name: self.s(r),
                    mark_type: int(r),
                    start: float(r),
                    end: self.opt(r, 2, |_, r| float(r)),
                    num: int(r),
                })
                .collect(),
        }
    }
    fn n(&self, r: &mut Rng) -> usize {
        match r.below(4) {
            0 => 0,
            1 => 1,
            _ => r.range(0, self.max),
        }
    }
    pub fn folder(&self, r: &mut Rng, depth: usize) -> PlaylistFolderNode {
        PlaylistFolderNode {
            name: self.s(r),
            nodes: (0..self.n(r))
                .map(|_| {
                    if depth > 0 && r.chance(2, 5) {
                        PlaylistGenericNode::Folder(self.folder(r, depth - 1))
                    } else {
                        PlaylistGenericNode::Playlist(PlaylistPlaylistNode {
                            name: self.s(r),
                            keytype: if r.chance(1, 2) { "0".into() } else { self.s(r) },
                            tracks: (0..self.n(r)).map(|_| PlaylistTrack { key: int(r) }).collect(),
                        })
                    }
                })
                .collect(),
        }
    }
    pub fn doc(&self, r: &mut Rng) -> Document {
        let track: Vec<_> = (0..self.n(r)).map(|_| self.track(r)).collect();
        Document {
            version: self.s(r),
            product: Product { name: self.s(r), version: self.s(r), company: self.s(r) },
            collection: Collection { entries: if r.chance(4, 5) { track.len() as i32 } else { int(r) }, track },
            playlists: Playlists { node: self.folder(r, self.depth) },
        }
    }
}
