//! C17: offset-indexed strings are laid out validly and read back equal.
use super::pdbutil::*;
use super::Prop;
use crate::fw::{hex, no_panic, Ctx, Obs, R};
use crate::refpdb::{self as m, sstr, Enc, SStr};
use crate::rng::Rng;
use crate::{bail, ensure};
use binrw::{BinRead, BinWrite, Endian};
use rekordcrate::pdb::ext::ExtRow;
use rekordcrate::pdb::offset_array::{OffsetArray, OffsetArrayContainer, OffsetArrayItemAlignment, OffsetArrayItems, OffsetSize};
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::pdb::{PlainRow, Row, Subtype};
use rekordcrate::util::{align_by, MaybeCalculated};
use std::io::{Cursor, Seek, SeekFrom};

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        rule: "distinct (items, offset width, position) arrays whose written bytes were judged by an independent layout reader and read back",
        required: &[
            "calculated-u8", "calculated-u16", "provided-u8", "provided-u16", "does-not-fit-u8", "does-not-fit-u16", "exact-fit", "width-mismatch",
            "utf16-aligned", "base-underflow", "bytes-items", "row:track", "row:artist", "row:tag", "row-width-mismatch", "row-does-not-fit", "subtype-widths", "align-by", "offsets-built",
        ],
        assumptions: &[
            "alignment is relative to the position the offsets are relative to (the start of the row)",
            "a layout that places the items in order without avoidable gaps and fits must be accepted; one that cannot fit must be refused",
        ],
        run,
    }
}

#[derive(Debug, PartialEq, Clone)]
struct Items<T, const N: usize>(Vec<T>);

impl<T, const N: usize> OffsetArrayItems<N> for Items<T, N> {
    type Item = T;
    fn as_items(&self) -> [&T; N] {
        std::array::from_fn(|i| &self.0[i])
    }
    fn from_items(items: [T; N]) -> Self {
        Items(items.into())
    }
}

fn dstr(s: &SStr) -> DeviceSQLString {
    // Through the library's own reader, so that all stored kinds can be used.
    DeviceSQLString::read_options(&mut Cursor::new(s.encode()), Endian::Little, ()).expect("well-formed string")
}

fn osize(wide: bool) -> OffsetSize {
    if wide {
        OffsetSize::U16
    } else {
        OffsetSize::U8
    }
}

fn oarr<const N: usize>(wide: bool, v: &[u16]) -> OffsetArray<N> {
    if wide {
        OffsetArray::U16(std::array::from_fn(|i| v[i]))
    } else {
        OffsetArray::U8(std::array::from_fn(|i| v[i] as u8))
    }
}

/// Judge the bytes of an offset array at `start` whose offsets are relative to `start - rel`.
/// Returns the offsets.
fn judge(b: &[u8], start: usize, rel: usize, wide: bool, items: &[(Vec<u8>, bool)]) -> Result<Vec<u16>, String> {
    let n = items.len();
    let ow = if wide { 2 } else { 1 };
    let rd = |i: usize| -> usize {
        let p = start + i * ow;
        if wide {
            u16::from_le_bytes([b[p], b[p + 1]]) as usize
        } else {
            b[p] as usize
        }
    };
    ensure!(rd(0) == 3, "offset array starts with {} instead of 3", rd(0));
    let base = start - rel;
    let head_end = rel + (n + 1) * ow;
    let offs: Vec<usize> = (1..=n).map(rd).collect();
    let mut spans: Vec<(usize, usize, usize)> = vec![];
    for (i, ((e, align), o)) in items.iter().zip(&offs).enumerate() {
        ensure!(b.len() >= base + o + e.len(), "item {i} at {o} lies past the end of the row");
        ensure!(
            b[base + o..base + o + e.len()] == e[..],
            "offset of item {i} does not point at it :: offset {o}: {} instead of {}", hex(&b[base + o..base + o + e.len()]), hex(e)
        );
        ensure!(!align || o % 4 == 0, "UTF-16 item {i} starts unaligned :: at {o}");
        ensure!(*o >= head_end, "item {i} overlaps the offsets :: at {o}, offsets end at {head_end}");
        if !e.is_empty() {
            spans.push((*o, o + e.len(), i));
        }
    }
    spans.sort_unstable();
    for w in spans.windows(2) {
        ensure!(w[0].1 <= w[1].0, "items {} and {} overlap :: {w:?}", w[0].2, w[1].2);
    }
    Ok(offs.into_iter().map(|x| x as u16).collect())
}

/// End and last item start of the tightest in-order layout.
fn tight(rel: usize, wide: bool, items: &[(Vec<u8>, bool)]) -> usize {
    let mut pos = rel + (items.len() + 1) * if wide { 2 } else { 1 };
    let mut last = 0;
    for (e, align) in items {
        if *align {
            pos = pos.next_multiple_of(4);
        }
        last = last.max(pos);
        pos += e.len();
    }
    last
}

/// Smallest conceivable largest offset over all orders: everything but the longest item in front.
fn hopeless(rel: usize, wide: bool, items: &[(Vec<u8>, bool)], max: usize) -> bool {
    let total: usize = items.iter().map(|x| x.0.len()).sum();
    let longest = items.iter().map(|x| x.0.len()).max().unwrap_or(0);
    rel + (items.len() + 1) * if wide { 2 } else { 1 } + total - longest > max
}

fn array<T, const N: usize>(r: &mut Rng, o: &mut Obs, vals: Vec<T>, enc: Vec<(Vec<u8>, bool)>) -> R
where
    T: for<'a> BinRead<Args<'a> = ()> + for<'a> BinWrite<Args<'a> = ()> + OffsetArrayItemAlignment + PartialEq + Clone + std::fmt::Debug,
{
    let wide = r.chance(1, 2);
    let sz = osize(wide);
    let max = if wide { 65535 } else { 255 };
    let ow = if wide { 2 } else { 1 };
    let rel = match r.below(4) {
        0 => 0,
        1 => r.below(8),
        2 => 0x5c,
        _ => r.below(60),
    };
    let start = rel + if r.chance(1, 3) { 0 } else { r.below(300) };
    let mut c = OffsetArrayContainer { offsets: MaybeCalculated::Calculated, inner: Items::<T, N>(vals.clone()) };
    let mut desc = vec![u8::from(wide), rel as u8, (start % 256) as u8, N as u8];
    enc.iter().for_each(|e| desc.extend_from_slice(&e.0));
    o.input("array width, base, position, count and items", &desc);
    o.mark(&desc);

    // Position before the base.
    if rel > 0 && r.chance(1, 4) {
        let mut w = Cursor::new(vec![0u8; 4]);
        w.set_position(r.below(rel) as u64);
        let res = no_panic("write offset array", || c.write_options(&mut w, Endian::Little, (rel as u64, sz, ())))?;
        ensure!(res.is_err(), "offset array written before the start of its row");
        let mut rdr = Cursor::new(vec![3u8; 600]);
        rdr.set_position(r.below(rel) as u64);
        let back = no_panic("read offset array", || {
            OffsetArrayContainer::<Items<T, N>, N>::read_options(&mut rdr, Endian::Little, (rel as u64, sz, ())).is_err()
        })?;
        ensure!(back || N == 0, "offset array read before the start of its row");
        o.ev("base-underflow", 1);
    }

    // Calculated offsets.
    let mut w = Cursor::new(vec![0xA5u8; start]);
    w.seek(SeekFrom::Start(start as u64)).unwrap();
    let res = no_panic("write offset array", || c.write_options(&mut w, Endian::Little, (rel as u64, sz, ())))?;
    let t = tight(rel, wide, &enc);
    if t == max {
        o.ev("exact-fit", 1);
    }
    match res {
        Err(e) => {
            ensure!(t > max, "array that fits is refused :: last item at {t} of {max}: {e}");
            o.ev(if wide { "does-not-fit-u16" } else { "does-not-fit-u8" }, 1);
        }
        Ok(()) => {
            let b = w.into_inner();
            ensure!(!hopeless(rel, wide, &enc, max), "array that cannot fit is accepted :: last item at {t} of {max}");
            ensure!(b[..start].iter().all(|x| *x == 0xA5), "bytes in front of the array changed");
            judge(&b, start, rel, wide, &enc)?;
            o.ev(if wide { "calculated-u16" } else { "calculated-u8" }, 1);
            o.ev("utf16-aligned", enc.iter().filter(|e| e.1).count() as u64);
            let mut rd = Cursor::new(&b);
            rd.set_position(start as u64);
            let back = no_panic("read offset array", || {
                OffsetArrayContainer::<Items<T, N>, N>::read_options(&mut rd, Endian::Little, (rel as u64, sz, ()))
            })?
            .map_err(|e| format!("written array cannot be read :: {e}"))?;
            ensure!(back.inner.0 == vals, "array reads back differently :: {:?} for {vals:?}", back.inner);
        }
    }

    // Explicit offsets: any order, with gaps, as long as the items do not overlap.
    let mut order: Vec<usize> = (0..N).collect();
    r.shuffle(&mut order);
    let mut pos = rel + (N + 1) * ow;
    let mut offs = vec![0u16; N];
    let mut fits = true;
    for i in order {
        pos += if r.chance(1, 2) { r.below(7) } else { 0 };
        fits &= pos <= max;
        offs[i] = pos.min(max) as u16;
        pos += enc[i].0.len();
    }
    if fits {
        c.offsets = MaybeCalculated::Provided(oarr::<N>(wide, &offs));
        let mut w = Cursor::new(vec![0xA5u8; start]);
        w.seek(SeekFrom::Start(start as u64)).unwrap();
        no_panic("write offset array", || c.write_options(&mut w, Endian::Little, (rel as u64, sz, ())))?
            .map_err(|e| format!("array with explicit offsets refused :: {e}"))?;
        let b = w.into_inner();
        let no_align: Vec<(Vec<u8>, bool)> = enc.iter().map(|e| (e.0.clone(), false)).collect();
        let got = judge(&b, start, rel, wide, &no_align)?;
        ensure!(got == offs, "explicit offsets {offs:?} written as {got:?}");
        ensure!(b[..start].iter().all(|x| *x == 0xA5), "bytes in front of the array changed");
        let mut rd = Cursor::new(&b);
        rd.set_position(start as u64);
        let back = no_panic("read offset array", || {
            OffsetArrayContainer::<Items<T, N>, N>::read_options(&mut rd, Endian::Little, (rel as u64, sz, ()))
        })?
        .map_err(|e| format!("written array cannot be read :: {e}"))?;
        ensure!(back == c, "array with explicit offsets reads back differently :: {back:?} for {c:?}");
        o.ev(if wide { "provided-u16" } else { "provided-u8" }, 1);
    }
    // Explicit offsets of the wrong width.
    c.offsets = MaybeCalculated::Provided(oarr::<N>(!wide, &offs));
    let mut w = Cursor::new(vec![0u8; start]);
    w.seek(SeekFrom::Start(start as u64)).unwrap();
    let res = no_panic("write offset array", || c.write_options(&mut w, Endian::Little, (rel as u64, sz, ())))?;
    ensure!(res.is_err(), "offsets of the wrong width written");
    o.ev("width-mismatch", 1);
    o.sample(format!("{N} items of {} bytes, {} offsets, row start {rel} before the array, last item at {t}",
        enc.iter().map(|e| e.0.len()).sum::<usize>(), if wide { "16-bit" } else { "8-bit" }));
    Ok(())
}

fn strings<const N: usize>(r: &mut Rng, o: &mut Obs) -> R {
    // Total size chosen around the limits of the offset widths.
    let budget = match r.below(8) {
        0 => 260 / N.max(1),
        1 => 120 / N.max(1) + 1,
        2 => 70_000 / N.max(1),
        3 => 63_000 / N.max(1),
        _ => 30,
    };
    let mut v: Vec<SStr> = (0..N)
        .map(|_| {
            if budget > 200 {
                let n = budget * 3 / 4 + r.below(budget / 2);
                let n = n.min(32_000);
                if r.chance(1, 3) {
                    SStr::new(&"\u{e9}".repeat(n / 2))
                } else {
                    SStr::new(&"x".repeat(n))
                }
            } else {
                sstr(r, budget)
            }
        })
        .collect();
    if r.chance(1, 4) && N > 1 {
        // Push the last item exactly around the limit.
        let max = 255usize;
        let i = r.below(N - 1);
        let enc: Vec<(Vec<u8>, bool)> = v.iter().map(|s| (s.encode(), s.enc == Enc::Utf16)).collect();
        let t = tight(0, false, &enc);
        if t < max {
            let want = (max - t + v[i].text.len() + r.below(3)).min(126);
            v[i] = SStr::new(&"y".repeat(want.max(1)));
        }
    }
    let enc = v.iter().map(|s| (s.encode(), s.enc == Enc::Utf16)).collect();
    array::<DeviceSQLString, N>(r, o, v.iter().map(dstr).collect(), enc)
}

fn bytes<const N: usize>(r: &mut Rng, o: &mut Obs) -> R {
    o.ev("bytes-items", 1);
    match r.below(3) {
        0 => {
            let v: Vec<u8> = r.bytes(N);
            let e = v.iter().map(|x| (vec![*x], false)).collect();
            array::<u8, N>(r, o, v, e)
        }
        1 => {
            let v: Vec<u32> = (0..N).map(|_| r.u32()).collect();
            let e = v.iter().map(|x| (x.to_le_bytes().to_vec(), false)).collect();
            array::<u32, N>(r, o, v, e)
        }
        _ => {
            let v: Vec<[u8; 40]> = (0..N).map(|_| std::array::from_fn(|_| r.u8())).collect();
            let e = v.iter().map(|x| (x.to_vec(), false)).collect();
            array::<[u8; 40], N>(r, o, v, e)
        }
    }
}

/// Database rows with calculated offsets.
fn rows(r: &mut Rng, o: &mut Obs) -> R {
    let (ext, ty, name) =
        *r.pick(&[(false, m::TRACKS, "row:track"), (false, m::ARTISTS, "row:artist"), (true, m::EXT_TAG, "row:tag")]);
    let mut w = m::gen_row(r, ext, ty, 130);
    let mut row = parse_row(&w)?;
    // Change strings without caring for their size, then let the offsets be calculated.
    let big = r.chance(1, 5);
    let text = |r: &mut Rng| {
        let s = if big { SStr::new(&"z".repeat(r.range(100, 300))) } else { SStr::new(&sstr(r, 60).text) };
        (s.clone(), dstr(&s))
    };
    let mut other = oarr::<1>(w.u16_offsets(), &[0]);
    let _ = &mut other;
    let wrong_width = r.chance(1, 8);
    macro_rules! set {
        ($t:expr, $n:literal, $off:expr) => {{
            $t.offsets.offsets = if wrong_width {
                MaybeCalculated::Provided(oarr::<$n>(!w.u16_offsets(), &$off))
            } else {
                MaybeCalculated::Calculated
            };
        }};
    }
    match &mut row {
        Row::Plain(PlainRow::Track(t)) => {
            let (s, d) = text(r);
            t.offsets.inner.title = d;
            w.set_str("title", s);
            let (s, d) = text(r);
            t.offsets.inner.file_path = d;
            w.set_str("file_path", s);
            set!(t, 21, [9u16; 21]);
        }
        Row::Plain(PlainRow::Artist(t)) => {
            let (s, d) = text(r);
            t.offsets.inner.name = d;
            w.set_str("name", s);
            set!(t, 1, [12u16]);
        }
        Row::Ext(ExtRow::Tag(t)) => {
            let (s, d) = text(r);
            t.offsets.inner.name = d;
            w.set_str("name", s);
            let (s, d) = text(r);
            t.offsets.inner.unknown = d;
            w.set_str("unknown", s);
            set!(t, 2, [40u16, 60]);
        }
        _ => bail!("row of type {ty} read as something else"),
    }
    let wide = w.u16_offsets();
    let rel = w.fixed_size();
    let enc: Vec<(Vec<u8>, bool)> = w.offs.iter().map(|s| (s.encode(), s.enc == Enc::Utf16)).collect();
    let start = 4 * r.below(40);
    let mut c = Cursor::new(vec![0xA5u8; start]);
    c.seek(SeekFrom::Start(start as u64)).unwrap();
    let res = no_panic("write row", || row.write_options(&mut c, Endian::Little, ()))?;
    if wrong_width {
        ensure!(res.is_err(), "row written with offsets of the wrong width");
        o.ev("row-width-mismatch", 1);
        return Ok(());
    }
    let max = if wide { 65535 } else { 255 };
    let t = tight(rel, wide, &enc);
    if let Err(e) = res {
        ensure!(t > max, "row that fits is refused :: last string at {t} of {max}: {e}");
        o.ev("row-does-not-fit", 1);
        return Ok(());
    }
    ensure!(!hopeless(rel, wide, &enc, max), "row that cannot fit is accepted :: last string at {t} of {max}");
    let b = c.into_inner();
    o.input("written row", &b[start..]);
    ensure!(b[..start].iter().all(|x| *x == 0xA5), "bytes in front of the row changed");
    w.offsets = judge(&b, start + rel, rel, wide, &enc)?;
    // The fixed fields keep their stored bytes.
    let (fixed, _) = (&w.pieces()[0].1[..rel], 0);
    ensure!(b[start..start + rel] == *fixed, "fixed fields of the row changed :: {} for {}", hex(&b[start..start + rel]), hex(fixed));
    let mut rd = Cursor::new(&b);
    rd.set_position(start as u64);
    let back = no_panic("read row", || Row::read_options(&mut rd, Endian::Little, (ptype(ext, ty),)))?
        .map_err(|e| format!("written row cannot be read :: {e}"))?;
    check_row(&back, &w)?;
    // Written again with the offsets now explicit: the same bytes.
    let again = {
        let mut c = Cursor::new(vec![0u8; b.len()]);
        c.set_position(start as u64);
        back.write_options(&mut c, Endian::Little, ()).map_err(|e| format!("row read back cannot be written :: {e}"))?;
        c.into_inner()
    };
    for (p, bytes) in w.pieces() {
        ensure!(again[start + p..start + p + bytes.len()] == bytes[..], "row read back is written differently at {p}");
    }
    o.ev(name, 1);
    o.mark(&b[start..]);
    Ok(())
}

/// Alignment helper and the two ways to build offsets.
fn small(r: &mut Rng, o: &mut Obs) -> R {
    for i in 0..2000u64 {
        let a = if i < 500 { i / 10 + 1 } else { r.range(1, 5000) as u64 };
        let x = if i % 3 == 0 { r.below(64) as u64 } else { r.u64() >> r.range(2, 63) };
        let got = no_panic("align_by", || align_by(a, x))?;
        ensure!(got >= x && got - x < a && got % a == 0, "align_by({a}, {x}) gives {got}");
        o.ev("align-by", 1);
    }
    let b: [u8; 6] = std::array::from_fn(|_| r.u8());
    let w: [u16; 6] = std::array::from_fn(|_| r.u16_edgy());
    ensure!(OffsetArray::<6>::from(b) == OffsetArray::U8(b), "8-bit offsets changed");
    ensure!(OffsetArray::<6>::from(w) == OffsetArray::U16(w), "16-bit offsets changed");
    o.ev("offsets-built", 2);
    Ok(())
}

fn run(c: &mut Ctx) {
    c.case("small", small);
    c.case("widths", |_, o| {
        for v in 0..=u16::MAX {
            let want = if v & 4 == 0 { OffsetSize::U8 } else { OffsetSize::U16 };
            ensure!(Subtype(v).get_offset_size() == want, "wrong offset width of a row subtype :: {v:#x}");
            o.ev("subtype-widths", 1);
        }
        Ok(())
    });
    for _ in 0..c.n(3000) {
        c.case("row", rows);
        c.case("strings", strings::<1>);
        c.case("strings", strings::<2>);
        c.case("strings", strings::<3>);
        c.case("strings", strings::<21>);
        c.case("bytes", bytes::<5>);
        c.case("bytes", bytes::<7>);
    }
    for _ in 0..c.n(300) {
        c.case("strings", strings::<8>);
        c.case("bytes", bytes::<0>);
        c.case("bytes", bytes::<1>);
        c.case("bytes", bytes::<30>);
        c.case("bytes", bytes::<120>);
    }
}
