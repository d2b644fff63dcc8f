//! C18: I/O failures surface as errors and never corrupt silently.
use super::c10;
use super::pdbutil::*;
use super::Prop;
use crate::fw::{first_diff, no_panic, Ctx, Obs, R};
use crate::iomon::{Fault, MonFile};
use crate::pldb;
use crate::refanlz;
use crate::refpdb::{self as m, gen_db, DbM, GenOpts};
use crate::refsetting::{self, FileM};
use crate::rng::Rng;
use crate::{bail, ensure};
use binrw::{BinRead, BinWrite, Endian};
use fallible_iterator::FallibleIterator;
use rekordcrate::anlz::ANLZ;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::pdb::*;
use rekordcrate::setting::Setting;
use rekordcrate::util::TableIndex;
use std::io::{Read, Result as IoResult, Seek, SeekFrom, Write};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        level: "exploration",
        rule: "distinct (input, entry point) pairs whose I/O operations were made to fail one after another",
        required: &[
            "faults", "faults:error-reported", "faults:same-result", "truncations", "short-transfers", "interrupts",
            "reads:database", "reads:playlists", "reads:page", "reads:row", "reads:string", "reads:header", "reads:anlz",
            "reads:setting", "writes:page", "writes:row", "writes:string", "writes:header", "writes:anlz", "writes:setting",
            "loads-retried", "iterations-retried", "saves-failed", "saves-retried", "saves-buffered", "saves-short",
        ],
        assumptions: &[
            "failures: one failing operation, all operations failing from one on, reads that deliver nothing from one on, writes that accept nothing from one on, files cut short, short and interrupted transfers",
            "all operations of an entry point are failed one by one where there are at most 400, otherwise an even sample of them",
            "an operation may complete with the same result despite the failure",
        ],
        run,
    }
}

/// Hash of the Debug output, without keeping it.
struct HashSink(u64);
impl std::fmt::Write for HashSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x1000_0000_01b3);
        }
        Ok(())
    }
}
fn dh(x: &impl std::fmt::Debug) -> u64 {
    let mut s = HashSink(0xcbf2_9ce4_8422_2325);
    let _ = std::fmt::write(&mut s, format_args!("{x:?}"));
    s.0
}

type Er = String;

/// Positions of `n` operations to fail.
fn points(n: u64, max: u64) -> Vec<u64> {
    if n <= max {
        (0..n).collect()
    } else {
        (0..max).map(|i| i * n / max + (i * 7919) % (n / max)).collect()
    }
}

/// Run a reading entry point on a perfect file and under every failure.
fn reading<T: PartialEq>(what: &str, b: &[u8], o: &mut Obs, run: impl Fn(MonFile) -> Result<T, Er>) -> R {
    o.input(&format!("input of {what}"), b);
    o.mark(b);
    o.mark(what.as_bytes());
    o.ev(&format!("reads:{what}"), 1);
    let f = MonFile::new(b.to_vec());
    let want = no_panic(what, || run(f.clone()))?.map_err(|e| format!("well-formed input refused :: {what}: {e}"))?;
    let ops = f.ops();
    let max = if o.thorough { 2000 } else { 400 };
    for fault in [Fault::FailOnce as fn(u64) -> Fault, Fault::FailFrom, Fault::EofFrom] {
        for k in points(ops, max) {
            let f = MonFile::new(b.to_vec());
            f.set_fault(fault(k));
            let res = no_panic(what, || run(f.clone()))?;
            o.ev("faults", 1);
            match res {
                Err(_) => o.ev("faults:error-reported", 1),
                Ok(v) => {
                    ensure!(
                        v == want,
                        "wrong result reported as success :: {what} with {:?} of {ops} operations", fault(k)
                    );
                    o.ev("faults:same-result", 1);
                }
            }
        }
    }
    for n in points(b.len() as u64, max) {
        let res = no_panic(what, || run(MonFile::new(b[..n as usize].to_vec())))?;
        o.ev("truncations", 1);
        if let Ok(v) = res {
            ensure!(v == want, "wrong result from a file cut short :: {what}, {n} of {} bytes", b.len());
        }
    }
    for (chunks, int) in CHUNKS {
        let f = MonFile::new(b.to_vec());
        f.st.borrow_mut().chunks = chunks.to_vec();
        f.st.borrow_mut().interrupt_every = *int;
        match no_panic(what, || run(f.clone()))? {
            Ok(v) => {
                ensure!(v == want, "result depends on the size of transfers :: {what} {chunks:?} {int}");
                o.ev(if *int == 0 { "short-transfers" } else { "interrupts" }, 1);
            }
            Err(_) => o.ev("transfers-refused", 1),
        }
    }
    Ok(())
}

const CHUNKS: &[(&[usize], u64)] = &[(&[1], 0), (&[2, 3], 0), (&[7, 1, 0], 0), (&[], 2), (&[], 5), (&[3], 3), (&[1, 4], 2)];

/// Run a writing entry point on a perfect file and under every failure.
fn writing(what: &str, seed: &[u8], o: &mut Obs, run: impl Fn(MonFile) -> Result<(), Er>) -> R {
    o.input(&format!("input of {what}"), seed);
    o.mark(seed);
    o.mark(what.as_bytes());
    o.ev(&format!("writes:{what}"), 1);
    let f = MonFile::new(vec![]);
    no_panic(what, || run(f.clone()))?.map_err(|e| format!("well-formed value cannot be written :: {what}: {e}"))?;
    let (ops, want) = (f.ops(), f.data());
    let max = if o.thorough { 2000 } else { 400 };
    for fault in [Fault::FailOnce as fn(u64) -> Fault, Fault::FailFrom, Fault::ZeroWriteFrom] {
        for k in points(ops, max) {
            let f = MonFile::new(vec![]);
            f.set_fault(fault(k));
            let res = no_panic(what, || run(f.clone()))?;
            o.ev("faults", 1);
            match res {
                Err(_) => o.ev("faults:error-reported", 1),
                Ok(()) => {
                    if let Some(d) = first_diff(&want, &f.data()) {
                        bail!("wrong bytes written and reported as success :: {what} with {:?} of {ops}: {d}", fault(k));
                    }
                    o.ev("faults:same-result", 1);
                }
            }
        }
    }
    for (chunks, int) in CHUNKS {
        let f = MonFile::new(vec![]);
        f.st.borrow_mut().chunks = chunks.to_vec();
        f.st.borrow_mut().interrupt_every = *int;
        match no_panic(what, || run(f.clone()))? {
            Ok(()) => {
                if let Some(d) = first_diff(&want, &f.data()) {
                    bail!("written bytes depend on the size of transfers :: {what} {chunks:?} {int}: {d}");
                }
                o.ev(if *int == 0 { "short-transfers" } else { "interrupts" }, 1);
            }
            Err(_) => o.ev("transfers-refused", 1),
        }
    }
    Ok(())
}

fn es(e: impl std::fmt::Display) -> Er {
    e.to_string()
}

/// Everything of a database that can be read, as one value; the first error ends it.
fn walk(f: MonFile, ext: bool) -> Result<Vec<u64>, Er> {
    let mut db = Database::open_non_persistent(f, dbt(ext)).map_err(es)?;
    let mut v = vec![dh(db.get_header())];
    let tables: Vec<PageType> = db.get_header().tables.iter().map(|t| t.page_type).collect();
    for (i, ty) in tables.iter().enumerate() {
        if i % 2 == 0 {
            let mut it = db.iter_pages_for_table(TableIndex::from(i)).map_err(es)?;
            while let Some(p) = it.next().map_err(es)? {
                v.push(dh(p));
            }
        } else {
            let mut it = db.iter_pages(*ty).map_err(es)?;
            while let Some(p) = it.next().map_err(es)? {
                v.push(dh(p));
            }
        }
    }
    macro_rules! rows {
        ($($t:ty),*) => {$(
            if db.get_header().find_table(<$t as RowVariant>::PAGE_TYPE).is_some() {
                let mut it = db.iter_rows::<$t>().map_err(es)?;
                while let Some(r) = it.next().map_err(es)? {
                    v.push(dh(r));
                }
            }
        )*};
    }
    rows!(Track, PlaylistTreeNode, Artist, Menu);
    Ok(v)
}

fn small_db(r: &mut Rng, ext: bool) -> DbM {
    let o = GenOpts {
        page_size: Some(*r.pick(&[512, 768, 1024])),
        max_rows: r.range(1, 8),
        max_str: 20,
        max_pages: 3,
        ..GenOpts::default()
    };
    gen_db(r, ext, &o)
}

/// After a failed load or iteration a retry gives the right page.
fn retries(r: &mut Rng, o: &mut Obs, ext: bool) -> R {
    let want = small_db(r, ext);
    let b = want.encode();
    o.input("PDB file", &b);
    o.mark(&b);
    let real: Vec<u32> = want.pages.iter().flatten().map(|p| p.index).collect();
    let f = MonFile::new(b.clone());
    let mut db = Database::open(f.clone(), dbt(ext)).map_err(|e| format!("well-formed file refused :: {e}"))?;
    let order: Vec<u32> = {
        let mut v = real.clone();
        r.shuffle(&mut v);
        v
    };
    for n in &order {
        let kind = r.below(3);
        let k = f.ops() + r.below(6) as u64;
        f.set_fault([Fault::FailOnce(k), Fault::FailFrom(k), Fault::EofFrom(k)][kind].clone());
        if r.chance(1, 3) {
            // A table iteration that hits the failure.
            let t = r.below(want.tables.len());
            let mut failed = false;
            {
                let mut it = db.iter_pages_for_table(TableIndex::from(t)).map_err(|e| format!("table not found :: {e}"))?;
                let mut i = 0;
                loop {
                    match no_panic("page iteration", || it.next())? {
                        Ok(Some(p)) => {
                            let Some(w) = want.tables[t].pages.get(i) else { bail!("iteration goes on after the last page") };
                            check_page(p, want.page(*w), ext, want.page_size as usize)?;
                            i += 1;
                        }
                        Ok(None) => {
                            ensure!(i == want.tables[t].pages.len(), "iteration ends early without an error");
                            break;
                        }
                        Err(_) => {
                            failed = true;
                            // Asking the failed iterator again must not give wrong pages either.
                            f.set_fault(Fault::None);
                            if let Ok(Some(p)) = no_panic("page iteration", || it.next())? {
                                let Some(w) = want.tables[t].pages.get(i) else { bail!("iteration goes on after the last page") };
                                check_page(p, want.page(*w), ext, want.page_size as usize)?;
                            }
                            break;
                        }
                    }
                }
            }
            f.set_fault(Fault::None);
            if failed {
                let mut it = db.iter_pages_for_table(TableIndex::from(t)).map_err(|e| format!("table not found :: {e}"))?;
                for w in &want.tables[t].pages {
                    match no_panic("page iteration", || it.next())? {
                        Ok(Some(p)) => {
                            check_page(p, want.page(*w), ext, want.page_size as usize).map_err(|e| format!("wrong page after a failed iteration :: {e}"))?;
                        }
                        Ok(None) => bail!("iteration after a failure ends early"),
                        Err(e) => bail!("iteration on a healthy file fails after an earlier failure :: {e}"),
                    }
                }
                o.ev("iterations-retried", 1);
            }
            continue;
        }
        match no_panic("load_page", || db.load_page(pidx(*n)))? {
            Ok(p) => {
                check_page(p, want.page(*n), ext, want.page_size as usize).map_err(|e| format!("wrong page reported as success :: {e}"))?;
                f.set_fault(Fault::None);
            }
            Err(_) => {
                f.set_fault(Fault::None);
                let p = no_panic("load_page", || db.load_page(pidx(*n)))?
                    .map_err(|e| format!("load on a healthy file fails after an earlier failure :: {e}"))?;
                check_page(p, want.page(*n), ext, want.page_size as usize).map_err(|e| format!("wrong page after a failed load :: {e}"))?;
                o.ev("loads-retried", 1);
            }
        }
    }
    f.set_fault(Fault::None);
    check_db(&mut db, &want).map_err(|e| format!("database damaged by failed loads :: {e}"))?;
    no_panic("flush", || db.flush())?.map_err(|e| format!("saving fails :: {e}"))?;
    if let Some(d) = first_diff(&b, &f.data()) {
        bail!("saving after failed loads changes the file :: {d}");
    }
    Ok(())
}

/// A save that fails at every operation in turn, then succeeds.
fn saves(r: &mut Rng, o: &mut Obs, ext: bool) -> R {
    let start = small_db(r, ext);
    let b = start.encode();
    o.input("PDB file", &b);
    o.mark(&b);
    let n = 1 + r.below(6);
    let rr = r.clone();
    // One perfect run tells the number of operations and the expected file.
    let prepare = |o: &mut Obs| -> Result<(MonFile, Database<MonFile>, DbM, Vec<u8>), String> {
        let f = MonFile::new(b.clone());
        let mut db = Database::open(f.clone(), dbt(ext)).map_err(|e| format!("well-formed file refused :: {e}"))?;
        let (mut want, mut image) = (start.clone(), b.clone());
        let mut r = rr.clone();
        let mut q = o.fork();
        c10::edits(&mut db, &mut want, &mut image, &mut r, &mut q, n)?;
        Ok((f, db, want, image))
    };
    let (f, mut db, _, image) = prepare(o)?;
    let before = f.ops();
    no_panic("flush", || db.flush())?.map_err(|e| format!("saving fails :: {e}"))?;
    let ops = f.ops() - before;
    if let Some(d) = first_diff(&image, &f.data()) {
        bail!("saved file differs from the edits :: {d}");
    }
    let max = if o.thorough { 200 } else { 40 };
    for fault in [Fault::FailOnce as fn(u64) -> Fault, Fault::FailFrom, Fault::ZeroWriteFrom] {
        for k in points(ops, max) {
            let (f, mut db, want, image) = prepare(o)?;
            f.set_fault(fault(f.ops() + k));
            let res = no_panic("flush", || db.flush())?;
            f.set_fault(Fault::None);
            o.ev("faults", 1);
            match res {
                Ok(()) => {
                    o.ev("faults:same-result", 1);
                    if let Some(d) = first_diff(&image, &f.data()) {
                        bail!("incomplete save reported as success :: {:?}: {d}", fault(k));
                    }
                }
                Err(_) => {
                    o.ev("faults:error-reported", 1);
                    o.ev("saves-failed", 1);
                    check_db(&mut db, &want).map_err(|e| format!("failed save changed the database in memory :: {e}"))?;
                    no_panic("flush", || db.flush())?.map_err(|e| format!("saving to a healthy file fails after a failed save :: {e}"))?;
                    if let Some(d) = first_diff(&image, &f.data()) {
                        bail!("save after a failed save writes a wrong file :: {:?}: {d}", fault(k));
                    }
                    o.ev("saves-retried", 1);
                    let mut db = open_ro(&f.data(), ext)?;
                    check_db(&mut db, &want)?;
                }
            }
            // close() reports failures as well.
            if k % 4 == 0 {
                let (f, db, _, image) = prepare(o)?;
                f.set_fault(fault(f.ops() + k));
                if no_panic("close", || db.close())?.is_ok() {
                    if let Some(d) = first_diff(&image, &f.data()) {
                        bail!("incomplete save reported as success by close :: {:?}: {d}", fault(k));
                    }
                }
            }
        }
    }
    for (chunks, int) in CHUNKS {
        let (f, mut db, _, image) = prepare(o)?;
        f.st.borrow_mut().chunks = chunks.to_vec();
        f.st.borrow_mut().interrupt_every = *int;
        if no_panic("flush", || db.flush())?.is_ok() {
            if let Some(d) = first_diff(&image, &f.data()) {
                bail!("saved file depends on the size of transfers :: {chunks:?} {int}: {d}");
            }
            o.ev("saves-short", 1);
        }
    }
    Ok(())
}

/// A file that keeps written data to itself until it is flushed, as write-back storage does.
struct Buffered {
    inner: MonFile,
    pending: Vec<(u64, Vec<u8>)>,
    pos: u64,
}
impl Read for Buffered {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        self.inner.seek(SeekFrom::Start(self.pos))?;
        let n = self.inner.read(buf)?;
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Buffered {
    fn write(&mut self, buf: &[u8]) -> IoResult<usize> {
        self.pending.push((self.pos, buf.to_vec()));
        self.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> IoResult<()> {
        while let Some((at, b)) = self.pending.first() {
            self.inner.seek(SeekFrom::Start(*at))?;
            self.inner.write_all(b)?;
            self.pending.remove(0);
        }
        self.inner.flush()
    }
}
impl Seek for Buffered {
    fn seek(&mut self, p: SeekFrom) -> IoResult<u64> {
        self.pos = match p {
            SeekFrom::Start(x) => x,
            SeekFrom::Current(d) => self
                .pos
                .checked_add_signed(d)
                .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidInput, "seek before start"))?,
            e => self.inner.seek(e)?,
        };
        Ok(self.pos)
    }
}

/// Saving through write-back storage: success means the data has arrived.
fn buffered(r: &mut Rng, o: &mut Obs, ext: bool) -> R {
    let start = small_db(r, ext);
    let b = start.encode();
    o.input("PDB file", &b);
    o.mark(&b);
    let seq = r.u32();
    let mut image = b.clone();
    image[20..24].copy_from_slice(&seq.to_le_bytes());
    let mut k = 0;
    loop {
        let f = MonFile::new(b.clone());
        let io = Buffered { inner: f.clone(), pending: vec![], pos: 0 };
        let mut db = Database::open(io, dbt(ext)).map_err(|e| format!("well-formed file refused :: {e}"))?;
        let load = r.below(3);
        for p in start.pages.iter().flatten().take(load) {
            db.load_page(pidx(p.index)).map_err(|e| format!("page of a well-formed file refused :: {e}"))?;
        }
        db.get_header_mut().sequence = seq;
        f.set_fault(Fault::FailFrom(f.ops() + k));
        let res = if r.chance(1, 2) { no_panic("close", || db.close())? } else { no_panic("flush", || db.flush())? };
        o.ev("faults", 1);
        if res.is_ok() {
            if let Some(d) = first_diff(&image, &f.data()) {
                bail!("save reported as success before the data arrived :: {d}");
            }
            o.ev("saves-buffered", 1);
            return Ok(());
        }
        o.ev("faults:error-reported", 1);
        k += 1;
        ensure!(k < 5000, "saving never succeeds");
    }
}

fn small_anlz(r: &mut Rng) -> Vec<u8> {
    let k = r.below(refanlz::KINDS);
    match r.below(3) {
        0 => refanlz::AnlzM { header_data: vec![0; 16], sections: vec![refanlz::gen_section(r, k, 3)] }.encode(),
        1 => {
            let n = r.below(3);
            let s = refanlz::gen_song(r, n);
            refanlz::AnlzM { header_data: vec![0; 16], sections: vec![refanlz::SecM::Song(s)] }.encode()
        }
        _ => refanlz::gen_file(r, 3, 4).encode(),
    }
}

fn run(c: &mut Ctx) {
    for i in 0..c.n(500) {
        let ext = i % 4 == 0;
        c.case("database-read", move |r, o| {
            let b = small_db(r, ext).encode();
            reading("database", &b, o, |f| walk(f, ext))
        });
        c.case("header-read", move |r, o| {
            let d = small_db(r, ext);
            let b = d.encode();
            reading("header", &b[..28 + 16 * d.tables.len()], o, |mut f| {
                Header::read_options(&mut f, Endian::Little, (dbt(ext),)).map(|h| dh(&h)).map_err(es)
            })?;
            let h = Header::read_options(&mut std::io::Cursor::new(&b), Endian::Little, (dbt(ext),)).map_err(es)?;
            writing("header", &b, o, |mut f| h.write_options(&mut f, Endian::Little, (dbt(ext),)).map_err(es))
        });
        c.case("page", move |r, o| {
            let d = small_db(r, ext);
            let ps = d.page_size;
            let pages: Vec<u32> = d.pages.iter().flatten().map(|p| p.index).collect();
            let n = *r.pick(&pages);
            let b = d.page(n).encode(ps as usize);
            reading("page", &b, o, |mut f| {
                Page::read_options(&mut f, Endian::Little, (ps, dbt(ext))).map(|p| dh(&p)).map_err(es)
            })?;
            let p = Page::read_options(&mut std::io::Cursor::new(&b), Endian::Little, (ps, dbt(ext))).map_err(es)?;
            writing("page", &b, o, |mut f| p.write_options(&mut f, Endian::Little, (ps,)).map_err(es))
        });
    }
    for i in 0..c.n(150) {
        c.case("playlists-read", move |r, o| {
            let n = r.range(1, 12);
            let nodes = pldb::tree(r, n, 6, pldb::name);
            let b = pldb::PlDb { nodes, ..pldb::PlDb::default() }.build(r).encode();
            reading("playlists", &b, o, |f| {
                let mut db = Database::open_non_persistent(f, DatabaseType::Plain).map_err(es)?;
                rekordcrate::device::get_playlists(&mut db).map(|l| dh(&l)).map_err(es)
            })
        });
        for (ext, ty) in m::PLAIN_TYPES.iter().map(|t| (false, *t)).chain(m::EXT_TYPES.iter().map(|t| (true, *t))) {
            if i % 3 != 0 && ty != m::EXT_TAG && ty != m::TRACKS {
                continue;
            }
            c.case("row", move |r, o| {
                let w = m::gen_row(r, ext, ty, 20);
                let b = w.encode();
                reading("row", &b, o, |mut f| {
                    Row::read_options(&mut f, Endian::Little, (ptype(ext, ty),)).map(|x| dh(&x)).map_err(es)
                })?;
                let row = parse_row(&w)?;
                writing("row", &b, o, |mut f| row.write_options(&mut f, Endian::Little, ()).map_err(es))
            });
        }
    }
    for _ in 0..c.n(800) {
        c.case("string", move |r, o| {
            let b = m::sstr(r, 300).encode();
            reading("string", &b, o, |mut f| {
                DeviceSQLString::read_options(&mut f, Endian::Little, ()).map(|x| dh(&x)).map_err(es)
            })?;
            let s = DeviceSQLString::read_options(&mut std::io::Cursor::new(&b), Endian::Little, ()).map_err(es)?;
            writing("string", &b, o, |mut f| s.write_options(&mut f, Endian::Little, ()).map_err(es))
        });
    }
    for _ in 0..c.n(1200) {
        c.case("anlz", move |r, o| {
            let b = small_anlz(r);
            reading("anlz", &b, o, |mut f| ANLZ::read(&mut f).map(|x| dh(&x)).map_err(es))?;
            let a = ANLZ::read(&mut std::io::Cursor::new(&b)).map_err(es)?;
            writing("anlz", &b, o, |mut f| a.write(&mut f).map_err(es))
        });
    }
    for i in 0..c.n(300) {
        c.case("setting", move |r, o| {
            let ks = refsetting::kinds();
            let mut f = FileM::default(&ks, i % 4);
            f.randomize(r, &ks);
            let b = f.encode();
            let t = ks[i % 4].typ;
            reading("setting", &b, o, |mut f| Setting::read_args(&mut f, (t,)).map(|x| dh(&x)).map_err(es))?;
            let s = Setting::read_args(&mut std::io::Cursor::new(&b), (t,)).map_err(es)?;
            writing("setting", &b, o, |mut f| s.write(&mut f).map_err(es))
        });
    }
    for i in 0..c.n(6000) {
        c.case("retry", move |r, o| retries(r, o, i % 4 == 0));
    }
    for i in 0..c.n(400) {
        c.case("save", move |r, o| saves(r, o, i % 4 == 0));
    }
    for i in 0..c.n(200) {
        c.case("buffered-save", move |r, o| buffered(r, o, i % 4 == 0));
    }
}
