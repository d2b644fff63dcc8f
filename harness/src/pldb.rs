//! Playlist databases: a model of tree nodes, entries, tracks and artists, and its stored form.
use crate::refpdb::{self as m, Body, DbM, RowM, SStr};
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub parent: u32,
    pub id: u32,
    /// Stored folder flag.
    pub folder: u32,
    pub name: String,
}

#[derive(Clone, Debug)]
pub struct Tr {
    pub id: u32,
    pub artist: u32,
    pub title: String,
    pub path: String,
}

#[derive(Clone, Debug, Default)]
pub struct PlDb {
    /// In row order.
    pub nodes: Vec<Node>,
    /// (entry index, track, playlist) in row order.
    pub entries: Vec<(u32, u32, u32)>,
    pub tracks: Vec<Tr>,
    pub artists: Vec<(u32, String)>,
}

/// Name of a node: any text without line breaks or controls.
pub fn name(r: &mut Rng) -> String {
    loop {
        let s = name_raw(r);
        if storable(&s) {
            return s;
        }
    }
}
fn name_raw(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => ["A", "b c", "House", "Ünïcode", "日本語", "🎧 mix", ".hidden", "a.b", "~", "-x", "$HOME", "*"][r.below(12)].into(),
        3 => [
            " lead", "trail ", "  ", "dot.", "a .", "\u{feff}bom", "bom\u{feff}", "e\u{301}", "\u{e9}", "\u{3000}x\u{3000}", "CON", "a\u{200b}",
            "\u{a0}nb\u{a0}", "ABC", "abc", "a:b", "what?", "<x>", "a|b", "\"q\"", "%41", "a;b", "c,d", "x\u{fe0f}", "\u{202e}rtl", "#hash", "a\u{ad}b",
        ][r.below(27)]
            .into(),
        2 => {
            let n = r.range(100, 180);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
        _ => {
            let n = r.range(1, 12);
            (0..n).map(|_| if r.chance(1, 8) { m::uni_char(r) } else { (b' ' + 1 + r.below(90) as u8) as char }).filter(|c| !c.is_control()).collect()
        }
    }
}

pub fn folder_flag(r: &mut Rng) -> u32 {
    if r.chance(3, 4) { 1 } else { r.u32_edgy().max(1) }
}

/// A healthy set of nodes: unique ids other than 0, every parent a folder or the root.
pub fn tree(r: &mut Rng, n: usize, max_depth: usize, mut name: impl FnMut(&mut Rng) -> String) -> Vec<Node> {
    let mut ids = std::collections::HashSet::new();
    let dense = r.chance(1, 2);
    let style = r.below(3);
    let mut folders: Vec<(u32, usize)> = vec![(0, 0)];
    let mut v = vec![];
    for i in 0..n {
        let id = loop {
            let x = if dense { i as u32 + 1 } else { r.u32_edgy() };
            if x != 0 && ids.insert(x) {
                break x;
            }
            if dense {
                continue;
            }
        };
        let (p, d) = match style {
            0 => *r.pick(&folders),
            1 => *folders.last().unwrap(),
            _ => if r.chance(1, 3) { (0, 0) } else { *r.pick(&folders) },
        };
        let f = if d + 1 < max_depth && r.chance(2, 5) { folder_flag(r) } else { 0 };
        if f != 0 {
            folders.push((id, d + 1));
        }
        let nm = name(r);
        v.push(Node { parent: p, id, folder: f, name: nm });
    }
    match r.below(3) {
        0 => r.shuffle(&mut v),
        1 => v.reverse(),
        _ => {}
    }
    v
}

/// Stored pages of a table holding `rows` in row order, with deleted rows in between.
fn pages(r: &mut Rng, ty: u32, page_size: usize, rows: Vec<RowM>, decoys: bool) -> Vec<Body> {
    let mut bodies = vec![];
    if r.chance(4, 5) {
        bodies.push(Body::Index(m::gen_index(r, page_size)));
    }
    let per_page = if r.chance(1, 3) { r.range(1, 20) } else { usize::MAX };
    let mut it = rows.into_iter().peekable();
    let mut pend: Option<(RowM, bool)> = None;
    loop {
        let mut gone: Vec<bool> = vec![];
        let mut n = 0;
        let mut cur: Option<bool> = None;
        let (mut d, left) = m::gen_data_page(r, page_size, false, |r| {
            if let Some((row, dead)) = pend.take() {
                gone.push(dead);
                cur = Some(dead);
                return Some(row);
            }
            if n >= per_page {
                return None;
            }
            n += 1;
            if decoys && r.chance(1, 6) {
                // A deleted row that looks like one of the others.
                let mut x = match it.peek() {
                    Some(x) if r.chance(1, 2) => x.clone(),
                    _ => m::gen_row(r, false, ty, 20),
                };
                if ty == m::PLTREE && r.chance(1, 2) {
                    x.set("parent_id", 0);
                }
                gone.push(true);
                cur = Some(true);
                return Some(x);
            }
            let x = it.next()?;
            gone.push(false);
            cur = Some(false);
            Some(x)
        });
        if let Some(row) = left {
            gone.pop();
            pend = Some((row, cur.unwrap()));
        }
        for (s, g) in d.slots.iter_mut().zip(&gone) {
            s.present = !g;
        }
        if r.chance(1, 3) {
            // Row numbers need not follow heap order.
            r.shuffle(&mut d.slots);
        }
        bodies.push(Body::Data(d));
        if r.chance(1, 12) {
            bodies.push(Body::Index(m::gen_index(r, page_size)));
        }
        if pend.is_none() && it.peek().is_none() {
            return bodies;
        }
    }
}

/// A row made by `make` whose strings fit its offsets.
fn fit(r: &mut Rng, mut make: impl FnMut(&mut Rng) -> RowM) -> RowM {
    for _ in 0..200 {
        let mut x = make(r);
        if x.layout(r) {
            return x;
        }
    }
    panic!("no row layout found");
}

/// Whether the format can hold `text` unambiguously.
pub fn storable(text: &str) -> bool {
    !SStr::new(text).ambiguous()
}

impl PlDb {
    pub fn build(&self, r: &mut Rng) -> DbM {
        let page_size = *r.pick(&[4096u32, 4096, 2048, 8192]);
        let ps = page_size as usize;
        let decoys = r.chance(1, 2);
        let mut t = vec![];
        let rows: Vec<RowM> = self
            .nodes
            .iter()
            .map(|n| fit(r, |r| {
                let mut x = m::gen_row(r, false, m::PLTREE, 3);
                x.set("parent_id", n.parent);
                x.set("id", n.id);
                x.set("node_is_folder", n.folder);
                x.set_str("name", SStr::new(&n.name));
                x
            }))
            .collect();
        t.push((m::PLTREE, pages(r, m::PLTREE, ps, rows, decoys)));
        let rows: Vec<RowM> = self
            .entries
            .iter()
            .map(|(i, tr, p)| {
                let mut x = m::gen_row(r, false, m::PLENTRIES, 3);
                x.set("entry_index", *i);
                x.set("track_id", *tr);
                x.set("playlist_id", *p);
                x
            })
            .collect();
        t.push((m::PLENTRIES, pages(r, m::PLENTRIES, ps, rows, decoys)));
        let rows: Vec<RowM> = self
            .tracks
            .iter()
            .map(|k| fit(r, |r| {
                let mut x = m::gen_row(r, false, m::TRACKS, 3);
                x.set("id", k.id);
                x.set("artist_id", k.artist);
                x.set_str("title", SStr::new(&k.title));
                x.set_str("file_path", SStr::new(&k.path));
                x
            }))
            .collect();
        t.push((m::TRACKS, pages(r, m::TRACKS, ps, rows, decoys)));
        let rows: Vec<RowM> = self
            .artists
            .iter()
            .map(|(id, n)| fit(r, |r| {
                let mut x = m::gen_row(r, false, m::ARTISTS, 3);
                x.set("id", *id);
                x.set_str("name", SStr::new(n));
                x
            }))
            .collect();
        t.push((m::ARTISTS, pages(r, m::ARTISTS, ps, rows, decoys)));
        for ty in [m::GENRES, m::COLORS, 9, m::HISTPL] {
            if r.chance(1, 4) {
                t.push((ty, vec![Body::Index(m::gen_index(r, ps))]));
            }
        }
        r.shuffle(&mut t);
        m::assemble(r, false, page_size, t)
    }

    pub fn children(&self, id: u32) -> impl Iterator<Item = &Node> + '_ {
        self.nodes.iter().filter(move |n| n.parent == id)
    }

    /// Tracks and entries for the playlists; entry order differs from row order.
    pub fn add_content(&mut self, r: &mut Rng, mut path: impl FnMut(&mut Rng, u32) -> String) {
        let nt = r.below(12);
        for i in 0..nt {
            let id = if r.chance(3, 4) { i as u32 + 1 } else { 1000 + i as u32 * 7919 };
            let p = path(r, id);
            let t = name(r);
            let artist = r.below(8) as u32;
            self.tracks.push(Tr { id, artist, title: t, path: p });
        }
        for a in 0..6u32 {
            if r.chance(3, 4) {
                let n = name(r);
                self.artists.push((a, n));
            }
        }
        r.shuffle(&mut self.tracks);
        r.shuffle(&mut self.artists);
        let ids: Vec<u32> = self.nodes.iter().map(|n| n.id).collect();
        for id in ids {
            let n = if r.chance(1, 4) { 0 } else { r.below(10) };
            for k in 0..n {
                let idx = if r.chance(5, 6) { k as u32 + 1 } else { r.u32_edgy() };
                let tr = if nt > 0 && r.chance(5, 6) { self.tracks[r.below(nt)].id } else { 500 + r.below(5) as u32 };
                self.entries.push((idx, tr, id));
            }
        }
        if r.chance(1, 3) {
            // Entries of a playlist that is not there.
            self.entries.push((1, 1, 0xDEAD_0001));
        }
        if r.chance(2, 3) {
            r.shuffle(&mut self.entries);
        }
    }

    /// Entries of a playlist by entry index, then row order.
    pub fn entries_of(&self, id: u32) -> Vec<(u32, u32)> {
        let mut v: Vec<(u32, u32)> = self.entries.iter().filter(|e| e.2 == id).map(|e| (e.0, e.1)).collect();
        v.sort_by_key(|e| e.0);
        v
    }
}
