//! C11: allocating rows in a page never overlaps, leaks or loses rows.
use super::pdbutil::*;
use super::Prop;
use crate::fw::{no_panic, Ctx, Obs, R};
use crate::iomon::MonFile;
use crate::refpdb::{self as m, gen_data_page, gen_row, Body, DataPage, DbM, RowM, Slot, HEAP};
use crate::rng::Rng;
use crate::{bail, ensure};
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use rekordcrate::util::MaybeCalculated;
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        level: "exploration",
        rule: "distinct (page, allocation history) pairs whose every step was compared with the shadow allocator and whose saved file was reopened and compared",
        required: &[
            "accepted", "refused", "abandoned", "inserted", "index-refused", "huge-request", "tight-request", "page-filled",
            "new-group", "reopened", "calculated-offsets", "valid-counter-full", "slot-counter-full", "second-session",
        ],
        assumptions: &[
            "the page is well-formed: its free and used sizes agree with its rows, as in real exports",
            "requests of zero bytes are not made (no row type is empty) and an inserted row fits its requested size",
        ],
        run,
    }
}

/// Shadow allocator state of one data page.
struct Shadow {
    page: u32,
    ty: u32,
    ext: bool,
    page_size: usize,
    slots: usize,
    valid: usize,
    used: usize,
    free: usize,
    /// Heap space taken so far: offset -> length.
    taken: BTreeMap<usize, usize>,
    /// Allocated in this run, in order: (offset if inserted, request, row).
    added: Vec<Option<(u16, RowM, bool)>>,
}

impl Shadow {
    fn new(db: &DbM, n: u32) -> Self {
        let p = db.page(n);
        let Body::Data(d) = &p.body else { unreachable!() };
        let mut taken = BTreeMap::new();
        for s in d.slots.iter().filter(|s| s.present) {
            taken.insert(s.offset as usize, if s.row.is_opaque() { 4 } else { s.row.size() });
        }
        Self {
            page: n,
            ty: p.ty,
            ext: db.ext,
            page_size: db.page_size as usize,
            slots: d.slots.len(),
            valid: d.present(),
            used: d.used as usize,
            free: d.free(db.page_size as usize) as usize,
            taken,
            added: vec![],
        }
    }
    fn index_bytes(&self) -> usize {
        self.slots.div_ceil(16) * 4 + self.slots * 2
    }
    fn check_counts(&self, p: &Page) -> R {
        let h = &p.header;
        let rc = h.packed_row_counts;
        ensure!(rc.num_rows() as usize == self.slots, "row count {} after {} slots", rc.num_rows(), self.slots);
        ensure!(rc.num_rows_valid() as usize == self.valid, "valid row count {} for {}", rc.num_rows_valid(), self.valid);
        ensure!(h.used_size as usize == self.used, "used size {} for {}", h.used_size, self.used);
        ensure!(h.free_size as usize == self.free, "free size {} for {}", h.free_size, self.free);
        let d = p.content.as_data().ok_or("data page lost")?;
        ensure!(d.row_groups.len() == self.slots.div_ceil(16), "{} row groups for {} rows", d.row_groups.len(), self.slots);
        ensure!(d.rows.len() == self.valid, "{} rows for {}", d.rows.len(), self.valid);
        Ok(())
    }
    /// One allocation; `row` = what to insert if it is accepted (None = the space is abandoned).
    fn step(&mut self, p: &mut Page, bytes: u16, row: Option<(Row, RowM, bool)>, o: &mut Obs) -> Result<bool, String> {
        let before = p.clone();
        let old_rows: Vec<u16> = before.content.as_data().map(|d| d.rows.keys().copied().collect()).unwrap_or_default();
        let aligned = (bytes as usize).next_multiple_of(4);
        let cost = aligned + 2 + if self.slots % 16 == 0 { 4 } else { 0 };
        let room = self.slots < 8191 && self.valid < 2047;
        let keep = row.is_some();
        let mut model = None;
        let accepted = {
            let a = no_panic("allocate_row", || p.allocate_row(bytes))?;
            match a {
                None => false,
                Some(insert) => {
                    if let Some((r, w, calc)) = row {
                        no_panic("insert", || insert(r))?;
                        model = Some((w, calc));
                    }
                    true
                }
            }
        };
        if bytes > 60000 {
            o.ev("huge-request", 1);
        }
        if cost.abs_diff(self.free) <= 6 {
            o.ev("tight-request", 1);
        }
        if !accepted {
            ensure!(
                self.free < aligned + 6 || !room,
                "allocation refused although there is room :: {bytes} bytes requested, {} free, {} rows", self.free, self.slots
            );
            ensure!(*p == before && raw_groups(p) == raw_groups(&before), "refused allocation changed the page :: {bytes} bytes");
            o.ev("refused", 1);
            if !room && self.free >= aligned + 6 {
                o.ev(if self.slots >= 8191 { "slot-counter-full" } else { "valid-counter-full" }, 1);
            }
            return Ok(false);
        }
        ensure!(self.free >= cost, "allocation accepted without enough free space :: {bytes} bytes requested, {} free", self.free);
        ensure!(room, "allocation accepted beyond the row counters :: {} rows, {} valid", self.slots, self.valid);
        o.ev("accepted", 1);
        if self.slots % 16 == 0 {
            o.ev("new-group", 1);
        }
        self.slots += 1;
        self.used += aligned;
        self.free -= cost;
        if keep {
            self.valid += 1;
        }
        self.check_counts(p).map_err(|e| format!("page accounting wrong after an allocation :: {bytes} bytes: {e}"))?;
        let d = p.content.as_data().unwrap();
        let new: Vec<u16> = d.rows.keys().copied().filter(|k| old_rows.binary_search(k).is_err()).collect();
        for k in &old_rows {
            ensure!(d.rows.contains_key(k), "row at {k} lost");
        }
        if let Some((w, calc)) = model {
            ensure!(new.len() == 1, "insertion added rows at {new:?}");
            let off = new[0] as usize;
            ensure!(off % 4 == 0, "row placed at unaligned offset {off}");
            ensure!(
                HEAP + off + aligned + self.index_bytes() <= self.page_size,
                "row at {off}..{} runs into the row index", off + aligned
            );
            if let Some((k, l)) = self.taken.range(..off + aligned).next_back() {
                ensure!(k + l <= off, "row at {off}..{} overlaps the row at {k}..{}", off + aligned, k + l);
            }
            self.taken.insert(off, aligned);
            self.added.push(Some((new[0], w, calc)));
            o.ev("inserted", 1);
        } else {
            ensure!(new.is_empty(), "abandoned allocation added rows");
            self.added.push(None);
            o.ev("abandoned", 1);
        }
        // The index entry of the new row is the next one and nothing else in the index changed.
        let i = self.slots - 1;
        let (nb, na) = (raw_groups(&before), raw_groups(p));
        for (gi, g) in na.iter().enumerate() {
            let old = nb.get(gi);
            for j in 0..16 {
                let n = 16 * gi + j;
                if n == i {
                    ensure!((g.1 >> j & 1 == 1) == keep, "row {n} presence after allocation {}", g.1 >> j & 1);
                    if let (true, Some(Some((off, _, _)))) = (keep, self.added.last()) {
                        ensure!(g.0[15 - j] == *off, "index entry of row {n} is {} for {off}", g.0[15 - j]);
                    }
                } else if let Some(b) = old {
                    ensure!(g.0[15 - j] == b.0[15 - j] && g.1 >> j & 1 == b.1 >> j & 1, "index entry of row {n} changed");
                } else {
                    ensure!(g.1 >> j & 1 == 0, "row {n} appeared");
                }
            }
        }
        Ok(true)
    }
    /// Enter the allocated rows into the model; `file` supplies what the format leaves open.
    fn apply(&mut self, db: &mut DbM, file: &[u8]) -> R {
        let (ps, page, used) = (self.page_size, self.page, self.used);
        let u16at = |p: usize| u16::from_le_bytes([file[p], file[p + 1]]);
        let base = page as usize * ps;
        let (ext, ty) = (self.ext, self.ty);
        let Body::Data(d) = &mut db.page_mut(page).body else { unreachable!() };
        for a in std::mem::take(&mut self.added) {
            let i = d.slots.len();
            let at = base + ps - 36 * (i / 16 + 1) + 2 * (15 - i % 16);
            if i % 16 == 0 {
                d.group_unknown.push(0);
            }
            let slot = match a {
                Some((offset, mut row, calc)) => {
                    if calc {
                        // Calculated string offsets: taken from the file, judged by decoding (and C17).
                        let p = base + HEAP + offset as usize + row.fixed_size();
                        for (k, x) in row.offsets.iter_mut().enumerate() {
                            *x = if row.nums[0] & 4 != 0 { u16at(p + 2 + 2 * k) } else { u16::from(file[p + 1 + k]) };
                        }
                    }
                    Slot { offset, present: true, row }
                }
                None => Slot { offset: u16at(at), present: false, row: RowM::opaque(ext, ty) },
            };
            d.slots.push(slot);
        }
        // The index entry of an abandoned slot reaches the file only once a later row of its
        // group does.
        for (i, s) in d.slots.iter_mut().enumerate() {
            if !s.present && s.row.nums.is_empty() {
                s.offset = u16at(base + ps - 36 * (i / 16 + 1) + 2 * (15 - i % 16));
            }
        }
        d.used = used as u16;
        Ok(())
    }
}

type RawGroup = ([u16; 16], u16, u16);
fn raw_groups(p: &Page) -> Vec<RawGroup> {
    p.content
        .as_data()
        .map(|d| d.row_groups.iter().map(|g| (g.row_offsets, g.row_presence_flags, g.unknown)).collect())
        .unwrap_or_default()
}

/// A row to insert, as the library value, as the model, and whether its offsets are calculated.
fn new_row(r: &mut Rng, ext: bool, ty: u32, max_str: usize, o: &mut Obs) -> Result<(Row, RowM, bool), String> {
    let mut w = gen_row(r, ext, ty, max_str);
    let mut calc = false;
    if ext && ty == m::EXT_TAG && r.chance(1, 2) {
        calc = w.layout_calculated();
        if !calc {
            w = gen_row(r, ext, ty, 4);
        }
    }
    let mut row = parse_row(&w)?;
    if calc {
        if let Row::Ext(ext::ExtRow::Tag(t)) = &mut row {
            t.offsets.offsets = MaybeCalculated::Calculated;
            o.ev("calculated-offsets", 1);
        }
    }
    Ok((row, w, calc))
}

fn starting_db(r: &mut Rng, ext: bool, ty: u32, page_size: u32, fill: usize, max_str: usize) -> (DbM, u32) {
    let mut bodies = vec![];
    if r.chance(3, 4) {
        bodies.push(Body::Index(m::gen_index(r, page_size as usize)));
    }
    let mut left = fill;
    let deleted = r.chance(1, 2);
    let (mut d, _) = gen_data_page(r, page_size as usize, deleted, |r| {
        if left == 0 {
            return None;
        }
        left -= 1;
        Some(gen_row(r, ext, ty, max_str))
    });
    if r.chance(1, 8) {
        // all rows of the last group deleted
        let k = d.slots.len() / 16 * 16;
        d.slots.iter_mut().skip(k).for_each(|s| s.present = false);
    }
    bodies.push(Body::Data(d));
    if r.chance(1, 2) {
        let (d, _): (DataPage, _) = gen_data_page(r, page_size as usize, true, {
            let mut n = 5;
            move |r| {
                n -= 1;
                (n > 0).then(|| gen_row(r, ext, ty, max_str))
            }
        });
        bodies.push(Body::Data(d));
    }
    let db = m::assemble(r, ext, page_size, vec![(ty, bodies)]);
    let data: Vec<u32> =
        db.pages.iter().flatten().filter(|p| matches!(p.body, Body::Data(_))).map(|p| p.index).collect();
    let n = *r.pick(&data);
    (db, n)
}

/// Which bytes of the saved file may differ from the original.
fn check_bytes(old: &[u8], new: &[u8], want: &DbM, n: u32, old_slots: usize) -> R {
    ensure!(old.len() == new.len(), "file length changed from {} to {}", old.len(), new.len());
    let ps = want.page_size as usize;
    let base = n as usize * ps;
    let Body::Data(d) = &want.page(n).body else { unreachable!() };
    let mut may = vec![false; ps];
    for i in (0x18..0x1b).chain(0x1c..0x20) {
        may[i] = true;
    }
    for (i, s) in d.slots.iter().enumerate().skip(old_slots) {
        let g = ps - 36 * (i / 16 + 1);
        for b in [g + 2 * (15 - i % 16), g + 2 * (15 - i % 16) + 1, g + 32, g + 33] {
            may[b] = true;
        }
        if i / 16 * 16 >= old_slots {
            may[g + 34] = true;
            may[g + 35] = true;
        }
        if s.present {
            let o = HEAP + s.offset as usize;
            for b in may.iter_mut().skip(o).take(s.row.size().next_multiple_of(4)) {
                *b = true;
            }
        }
    }
    for i in 0..old.len() {
        if old[i] != new[i] && !(i >= base && i < base + ps && may[i - base]) {
            bail!("saving allocated rows changed an unrelated byte :: at {i:#x} ({:02x} to {:02x}), page starts at {base:#x}", old[i], new[i]);
        }
    }
    Ok(())
}

fn grow(r: &mut Rng, o: &mut Obs) -> R {
    let ext = r.chance(1, 3);
    let ty = if ext { *r.pick(&m::EXT_TYPES) } else { *r.pick(&m::PLAIN_TYPES) };
    let page_size = *r.pick(&[4096u32, 4096, 1024, 2048, 8192, 912]);
    let max_str = if r.chance(1, 2) { 6 } else { (page_size as usize / 12).min(130) };
    let fill = match r.below(6) {
        0 => 0,
        1 => 16 * r.range(1, 3),
        2 => 1000,
        3 => 15 + r.below(3),
        _ => r.below(40),
    };
    let (mut want, n) = starting_db(r, ext, ty, page_size, fill, max_str);
    let orig = want.encode();
    o.input("PDB file", &orig);
    let mut io = MonFile::new(orig.clone());
    let mut sh = Shadow::new(&want, n);
    let old_slots = sh.slots;
    let mut hist = orig.clone();
    let sessions = 1 + r.below(3);
    let cap = if r.chance(1, 3) { 400 } else { 1 + r.below(40) };
    let mut steps = 0;
    for session in 0..sessions {
        let mut db = no_panic("open", || Database::open(io.clone(), dbt(ext)))?
            .map_err(|e| format!("file refused :: session {session}: {e}"))?;
        let saves = 1 + r.below(2);
        for _ in 0..saves {
            let p = no_panic("load_page", || db.load_page(pidx(n)))?.map_err(|e| format!("page refused :: {e}"))?;
            sh.check_counts(p)?;
            let mut refused = 0;
            for _ in 0..cap {
                steps += 1;
                let (row, bytes) = match r.below(12) {
                    0 => {
                        // any size whatsoever, mostly around the limits; the space is abandoned
                        let b = match r.below(4) {
                            0 => 65535 - r.below(12) as u16,
                            1 => (sh.free.min(65535) as u16).saturating_sub(r.below(12) as u16).max(1),
                            2 => (sh.free as u16).saturating_add(r.below(5) as u16).max(1),
                            _ => r.u16_edgy().max(1),
                        };
                        (None, b)
                    }
                    1 => (None, 1 + r.below(12) as u16),
                    _ => {
                        let x = new_row(r, ext, ty, max_str, o)?;
                        let mut b = x.1.size();
                        if r.chance(1, 6) {
                            b += r.below(9);
                        }
                        (Some(x), b as u16)
                    }
                };
                hist.extend_from_slice(&bytes.to_le_bytes());
                if !sh.step(p, bytes, row, o)? {
                    refused += 1;
                }
                if refused > 6 {
                    o.ev("page-filled", 1);
                    break;
                }
            }
            no_panic("flush", || db.flush())?.map_err(|e| format!("saving fails :: {e}"))?;
            let got = io.data();
            sh.apply(&mut want, &got)?;
            check_bytes(&orig, &got, &want, n, old_slots)?;
        }
        if r.chance(1, 2) {
            no_panic("close", || db.close())?.map_err(|e| format!("closing fails :: {e}"))?;
        }
        let got = io.data();
        let mut re = open_ro(&got, ext).map_err(|e| format!("saved file cannot be opened :: {e}"))?;
        check_db(&mut re, &want).map_err(|e| format!("after saving: {e}"))?;
        o.ev("reopened", 1);
        if session > 0 {
            o.ev("second-session", 1);
        }
        io = MonFile::new(got);
    }
    o.mark(&hist);
    o.sample(format!(
        "type {ty} page of {page_size} bytes: {old_slots} rows grown to {} ({} valid) in {steps} requests, {} bytes left",
        sh.slots, sh.valid, sh.free
    ));
    Ok(())
}

/// The row counters of the page header are narrower than a large page is long.
fn counters(r: &mut Rng, o: &mut Obs, valid: bool) -> R {
    let start = if valid { 2000 + r.below(40) } else { 1 };
    let (mut want, n) = loop {
        let mut left = start;
        let (d, _) = gen_data_page(r, 65536, false, |r| {
            if left == 0 {
                return None;
            }
            left -= 1;
            Some(gen_row(r, false, m::GENRES, 1))
        });
        let db = m::assemble(r, false, 65536, vec![(m::GENRES, vec![Body::Data(d)])]);
        let n = db.tables[0].pages[0];
        let Body::Data(d) = &db.page(n).body else { unreachable!() };
        if d.present() < 2047 {
            break (db, n);
        }
    };
    let orig = want.encode();
    o.input("PDB file", &orig);
    let io = MonFile::new(orig.clone());
    let mut db = Database::open(io.clone(), DatabaseType::Plain).map_err(|e| format!("file refused :: {e}"))?;
    let mut sh = Shadow::new(&want, n);
    let old_slots = sh.slots;
    let p = db.load_page(pidx(n)).map_err(|e| format!("page refused :: {e}"))?;
    if valid {
        let mut refused = 0;
        while refused < 3 && sh.valid < 2100 {
            let x = new_row(r, false, m::GENRES, 1, o)?;
            let b = x.1.size() as u16;
            refused += usize::from(!sh.step(p, b, Some(x), o)?);
        }
    } else {
        // Many abandoned allocations; the shadow comparison of every step is quadratic, so skip
        // ahead without looking and compare at the limit.
        while sh.slots < 8180 {
            no_panic("allocate_row", || p.allocate_row(4).map(|_| ()))?.ok_or("allocation refused although there is room :: far from the limit")?;
            let cost = 6 + if sh.slots % 16 == 0 { 4 } else { 0 };
            sh.slots += 1;
            sh.used += 4;
            sh.free -= cost;
            sh.added.push(None);
        }
        sh.check_counts(p)?;
        for _ in 0..20 {
            let b = 1 + r.below(4) as u16;
            sh.step(p, b, None, o)?;
        }
    }
    no_panic("flush", || db.flush())?.map_err(|e| format!("saving fails :: {e}"))?;
    let got = io.data();
    sh.apply(&mut want, &got)?;
    check_bytes(&orig, &got, &want, n, old_slots)?;
    let mut re = open_ro(&got, false)?;
    check_db(&mut re, &want)?;
    o.mark(&got);
    o.sample(format!("{} rows, {} valid, {} bytes free at the counter limit", sh.slots, sh.valid, sh.free));
    Ok(())
}

fn index_page(r: &mut Rng, o: &mut Obs) -> R {
    let x = m::gen_index(r, 4096);
    let db = m::assemble(r, false, 4096, vec![(m::GENRES, vec![Body::Index(x)])]);
    let f = db.encode();
    o.input("PDB file", &f);
    let mut d = open_ro(&f, false)?;
    let p = d.load_page(pidx(db.tables[0].pages[0])).map_err(|e| format!("page refused :: {e}"))?;
    // Free space fields of an index page mean nothing for rows.
    p.header.free_size = r.u16();
    let before = p.clone();
    let b = r.u16_edgy();
    let got = no_panic("allocate_row", || p.allocate_row(b).is_some())?;
    ensure!(!got, "row allocated in an index page");
    ensure!(*p == before, "refused allocation changed the page");
    o.ev("index-refused", 1);
    o.mark(&f);
    Ok(())
}

fn run(c: &mut Ctx) {
    for i in 0..c.n(4) {
        c.case("counters", move |r, o| counters(r, o, i % 2 == 0));
    }
    for _ in 0..c.n(60) {
        c.case("index-page", index_page);
    }
    for _ in 0..c.n(1200) {
        c.case("grow", grow);
    }
}
