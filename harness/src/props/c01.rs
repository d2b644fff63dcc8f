//! C01: DeviceSQL strings survive encoding and decoding unchanged.
use super::Prop;
use crate::fw::{first_diff, hex, no_panic, Ctx, Obs, R};
use crate::refpdb::{text, uni_char, Enc, SStr, SAFE_ASCII};
use crate::rng::Rng;
use crate::{bail, ensure};
use binrw::{BinRead, BinWrite};
use rekordcrate::pdb::string::{DeviceSQLString, StringError};
use std::io::{Cursor, Seek};

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        rule: "distinct (kind, stored bytes) of strings that were encoded and decoded; blocks of the exhaustive sweeps count once",
        required: &[
            "encoded:short", "encoded:long-ascii", "encoded:utf16", "encoded:isrc", "refused:too-long",
            "refused:isrc", "invalid-reported", "sweep:scalar-values", "special-character", "decoded:stored",
        ],
        assumptions: &[
            "the stored form is the one published for DeviceSQL strings (length byte (n+1)*2+1; 0x40/0x90 with u16 length incl. 4 header bytes)",
            "texts whose UTF-16 form is byte for byte also a stored 12-character ISRC are outside the round trip (known finding)",
        ],
        run,
    }
}

fn enc(s: &DeviceSQLString) -> Result<Vec<u8>, String> {
    let mut w = Cursor::new(vec![]);
    no_panic("write", || s.write(&mut w))?.map_err(|e| format!("write failed: {e}"))?;
    Ok(w.into_inner())
}

/// Decode stored bytes followed by `tail`; the read must stop exactly at the end of the string.
fn dec(stored: &[u8], tail: &[u8]) -> Result<DeviceSQLString, String> {
    let mut b = stored.to_vec();
    b.extend_from_slice(tail);
    let mut c = Cursor::new(&b);
    let s = no_panic("read", || DeviceSQLString::read(&mut c))?
        .map_err(|e| format!("valid stored string refused: {e} ({})", hex(stored)))?;
    let p = c.stream_position().unwrap();
    ensure!(p == stored.len() as u64, "read consumed {p} of {} stored bytes ({})", stored.len(), hex(stored));
    Ok(s)
}

fn same_text(s: &DeviceSQLString, want: &str) -> R {
    let t = no_panic("into_string", || s.clone().into_string())?;
    ensure!(t.as_deref() == Ok(want), "conversion gives {t:?} instead of {want:?}");
    let d = no_panic("Display", || s.to_string())?;
    ensure!(d == want, "display gives {d:?} instead of {want:?}");
    let d = no_panic("Debug", || format!("{s:?}"))?;
    ensure!(d.contains(want), "debug gives {d:?} instead of {want:?}");
    Ok(())
}

/// The whole contract for one text given to `new`.
fn check_new(t: &str, o: &mut Obs, tail: &[u8]) -> R {
    let want = SStr::new(t);
    let units = t.encode_utf16().count();
    let fits = match want.enc {
        Enc::Short => true,
        Enc::LongAscii => t.len() + 4 <= 65535,
        _ => units * 2 + 4 <= 65535,
    };
    let r = no_panic("new", || DeviceSQLString::new(t))?;
    let p = no_panic("parse", || t.parse::<DeviceSQLString>())?;
    ensure!(r == p, "new and parse disagree on {} bytes", t.len());
    let s = match r {
        Err(e) => {
            // The constructor documents one limit only: the length.
            ensure!(e == StringError::TooLong, "text of {} bytes refused with {e:?}", t.len());
            ensure!(!fits || t.len() > i16::MAX as usize, "text of {} bytes ({units} UTF-16 units) refused", t.len());
            o.ev("refused:too-long", 1);
            return Ok(());
        }
        Ok(s) => s,
    };
    ensure!(fits, "text of {} bytes cannot be stored, yet it was accepted", t.len());
    same_text(&s, t)?;
    let b = enc(&s)?;
    if let Some(d) = first_diff(&want.encode(), &b) {
        bail!("stored form of {:?}: {d}", t.chars().take(20).collect::<String>());
    }
    let back = dec(&b, tail)?;
    ensure!(back == s, "read back {back:?} instead of {s:?} ({})", hex(&b));
    same_text(&back, t)?;
    let k = match want.enc {
        Enc::Short => "encoded:short",
        Enc::LongAscii => "encoded:long-ascii",
        _ => "encoded:utf16",
    };
    o.ev(k, 1);
    o.mark(&b);
    Ok(())
}

fn tail(r: &mut Rng) -> Vec<u8> {
    let n = r.below(24);
    match r.below(4) {
        0 => vec![],
        1 => vec![0; n],
        2 => (0..n).map(|_| 1 + r.below(127) as u8).collect(),
        _ => r.bytes(n),
    }
}

fn run(c: &mut Ctx) {
    // Every ASCII length through all form changes and both size limits.
    for block in 0..40usize {
        c.case("ascii-lengths", move |r, o| {
            for n in (block * 8)..(block * 8 + 8) {
                let t: String = (0..n).map(|_| *r.pick(SAFE_ASCII) as char).collect();
                check_new(&t, o, &tail(r))?;
                let t: String = (0..n).map(|_| r.below(128) as u8 as char).collect();
                check_new(&t, o, &tail(r))?;
                let mut t: String = (0..n).map(|_| *r.pick(SAFE_ASCII) as char).collect();
                t.push(uni_char(r));
                if !SStr::new(&t).ambiguous() {
                    check_new(&t, o, &tail(r))?;
                }
            }
            Ok(())
        });
    }
    let edges: Vec<usize> = vec![
        16380, 16383, 16384, 32760, 32762, 32764, 32765, 32766, 32767, 32768, 32769, 65528, 65530, 65531, 65532,
        65533, 65534, 65535, 65536, 65540, 70000, 131072, 200000,
    ];
    for n in edges {
        c.case("size-limits", move |r, o| {
            let a: String = "x".repeat(n);
            check_new(&a, o, &tail(r))?;
            for ch in ['é', '字', '\u{1F3B5}'] {
                // one wide character, all wide characters, and the byte counts around the limit
                for k in 0..4usize {
                    let s = format!("{ch}{}", "y".repeat(n.saturating_sub(k)));
                    check_new(&s, o, &tail(r))?;
                }
                let s: String = std::iter::repeat(ch).take(n / ch.len_utf8()).collect();
                check_new(&s, o, &tail(r))?;
                let s: String = std::iter::repeat(ch).take(n / 2).collect();
                check_new(&s, o, &tail(r))?;
            }
            o.sample(format!("{n} x 'x' and {n} bytes with one wide character"));
            Ok(())
        });
    }
    // Every Unicode scalar value, alone and inside a text.
    let step = 0x2000u32;
    for lo in (0..0x11_0000u32).step_by(step as usize) {
        c.case("scalar-values", move |_, o| {
            for v in lo..lo + step {
                let Some(ch) = char::from_u32(v) else { continue };
                let mut q = o.fork();
                check_new(&ch.to_string(), &mut q, &[])?;
                check_new(&format!("{ch}b"), &mut q, b"zz\0")?;
                check_new(&format!("a{ch}"), &mut q, &[])?;
                if v % 16 == 3 {
                    check_new(&format!("{ch}bc def"), &mut q, b"\0")?;
                }
                o.ev("sweep:scalar-values", 1);
            }
            o.mark(&lo.to_le_bytes());
            o.sample(format!("every scalar value U+{lo:04X}..U+{:04X} alone, first and last", lo + step));
            Ok(())
        });
    }
    // Characters that software likes to trim, drop, normalise or stop at, at every place of texts in
    // every form.
    let specials: Vec<char> = (0u32..0xA1)
        .chain([0xAD, 0x301, 0x85, 0x1680, 0x180E, 0x200B, 0x200C, 0x200D, 0x200E, 0x2028, 0x2029, 0x202E, 0x202F, 0x205F])
        .chain([0x2060, 0x3000, 0xD7FF, 0xE000, 0xFE0F, 0xFEFF, 0xFFF9, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F3FB, 0xE0001])
        .chain([0xE0100, 0x10FFFE, 0x10FFFF])
        .filter_map(char::from_u32)
        .collect();
    for block in specials.chunks(16).map(<[char]>::to_vec) {
        c.case("special-characters", move |r, o| {
            let bases = ["b".to_string(), "bc def".into(), "x".repeat(140), "é".into(), "字é".into(), "Tö b".into(), format!("ö{}", "y".repeat(90))];
            for ch in &block {
                for b in &bases {
                    let cut = b.char_indices().nth(b.chars().count() / 2).map_or(0, |(i, _)| i);
                    let (l, m) = b.split_at(cut);
                    for t in [
                        format!("{ch}{b}"), format!("{b}{ch}"), format!("{ch}{b}{ch}"), format!("{b}{ch}{ch}"),
                        format!("{ch}{ch}{b}"), format!("{l}{ch}{m}"), format!("{l}{ch}{ch}{m}"), format!("{b}{ch} "), format!(" {ch}{b}"),
                    ] {
                        if !SStr::new(&t).ambiguous() {
                            check_new(&t, o, &tail(r))?;
                            o.ev("special-character", 1);
                        }
                    }
                }
            }
            o.sample(format!("{block:?} at all places"));
            Ok(())
        });
    }
    for _ in 0..c.n(4000) {
        c.case("random-text", |r, o| {
            for _ in 0..4 {
                let t = text(r, 400);
                if SStr::new(&t).ambiguous() {
                    continue;
                }
                o.input("text (UTF-8)", t.as_bytes());
                check_new(&t, o, &tail(r))?;
                o.sample(format!("{t:?}"));
            }
            Ok(())
        });
    }
    for _ in 0..c.n(400) {
        c.case("isrc", |r, o| {
            let t: String = (0..12)
                .map(|_| if r.chance(3, 4) { *r.pick(SAFE_ASCII) as char } else { (1 + r.below(127)) as u8 as char })
                .collect();
            o.input("ISRC", t.as_bytes());
            let s = no_panic("new_isrc", || DeviceSQLString::new_isrc(t.clone()))?
                .map_err(|e| format!("12 ASCII characters {t:?} refused: {e}"))?;
            same_text(&s, &t)?;
            let b = enc(&s)?;
            let want = SStr { text: t.clone(), enc: Enc::Isrc };
            if let Some(d) = first_diff(&want.encode(), &b) {
                bail!("stored form of ISRC {t:?}: {d}");
            }
            let back = dec(&b, &tail(r))?;
            ensure!(back == s, "ISRC {t:?} read back as {back:?}");
            same_text(&back, &t)?;
            o.ev("encoded:isrc", 1);
            o.mark(&b);
            o.sample(format!("{t:?}"));
            Ok(())
        });
        c.case("isrc-invalid", |r, o| {
            let n = *r.pick(&[1usize, 2, 5, 10, 11, 13, 14, 15, 24, 26, 100, 300]);
            let mut t: String = (0..n).map(|_| *r.pick(SAFE_ASCII) as char).collect();
            if r.chance(1, 3) {
                // twelve bytes or twelve characters, but not ASCII
                t = if r.chance(1, 2) { "é23456789AB".into() } else { format!("{}2345678901B", uni_char(r)) };
            }
            o.input("ISRC", t.as_bytes());
            let s = no_panic("new_isrc", || DeviceSQLString::new_isrc(t.clone()))?;
            ensure!(s == Err(StringError::InvalidISRC), "ISRC {t:?} gives {s:?}");
            o.ev("refused:isrc", 1);
            o.mark(t.as_bytes());
            Ok(())
        });
    }
    c.case("isrc-special", |_, o| {
        let e = DeviceSQLString::new_isrc(String::new()).map_err(|e| format!("empty ISRC refused: {e}"))?;
        ensure!(enc(&e)? == [3], "empty ISRC stored as {:?}", enc(&e)?);
        ensure!(DeviceSQLString::empty() == e && DeviceSQLString::default() == e, "empty strings differ");
        same_text(&e, "")?;
        // Twelve ASCII characters that include the terminator: refused, or kept.
        for p in 0..12 {
            let mut t: Vec<u8> = b"GBAYE6700149".to_vec();
            t[p] = 0;
            let t = String::from_utf8(t).unwrap();
            if let Ok(s) = no_panic("new_isrc", || DeviceSQLString::new_isrc(t.clone()))? {
                same_text(&s, &t).map_err(|e| format!("ISRC with NUL: {e}"))?;
                let b = enc(&s)?;
                let back = dec(&b, b"").map_err(|e| format!("ISRC with NUL: {e}"))?;
                same_text(&back, &t).map_err(|e| format!("ISRC with NUL: {e}"))?;
            }
            o.ev("isrc-with-nul", 1);
        }
        Ok(())
    });
    // Stored strings in every form, including forms the constructors would not choose.
    for _ in 0..c.n(3000) {
        c.case("stored", |r, o| {
            let s = crate::refpdb::sstr(r, 300);
            let b = s.encode();
            o.input("stored string", &b);
            let d = dec(&b, &tail(r))?;
            same_text(&d, &s.text)?;
            let w = enc(&d)?;
            if let Some(x) = first_diff(&b, &w) {
                bail!("rewriting a stored string: {x}");
            }
            o.ev("decoded:stored", 1);
            o.mark(&b);
            o.sample(format!("{:?} {}", s.enc, hex(&b)));
            Ok(())
        });
        c.case("stored-invalid", |r, o| {
            // Contents that are no valid text in their encoding must be reported by the conversion.
            let b = match r.below(3) {
                0 => {
                    let n = 1 + r.below(120);
                    let mut v = vec![(((n + 1) << 1) | 1) as u8];
                    v.extend((0..n).map(|_| *r.pick(SAFE_ASCII)));
                    let i = 1 + r.below(n);
                    v[i] = *r.pick(&[0x80u8, 0xff, 0xc0, 0xfe, 0xbf]);
                    v
                }
                1 => {
                    let n = r.range(1, 300);
                    let mut v = vec![0x40];
                    v.extend_from_slice(&((n + 4) as u16).to_le_bytes());
                    v.push(0);
                    v.extend((0..n).map(|_| *r.pick(SAFE_ASCII)));
                    let i = 4 + r.below(n);
                    v[i] = *r.pick(&[0x80u8, 0xff, 0xc0, 0xfe]);
                    v
                }
                _ => {
                    let n = r.range(1, 60);
                    let mut u: Vec<u16> = (0..n).map(|_| 0x41 + r.below(0x500) as u16).collect();
                    // Avoid the ISRC marker; plant an unpaired surrogate.
                    if u[0] & 0xff == 3 {
                        u[0] = 0x41;
                    }
                    let i = r.below(n);
                    u[i] = 0xD800 + r.below(0x800) as u16;
                    if u[i] & 0xff == 3 {
                        u[i] += 1;
                    }
                    let mut v = vec![0x90];
                    v.extend_from_slice(&((n * 2 + 4) as u16).to_le_bytes());
                    v.push(0);
                    u.iter().for_each(|x| v.extend_from_slice(&x.to_le_bytes()));
                    v
                }
            };
            o.input("stored string with invalid content", &b);
            let d = match no_panic("read", || DeviceSQLString::read(&mut Cursor::new(&b)))? {
                // Refusing to read it is reporting it, too.
                Err(_) => {
                    o.ev("invalid-reported", 1);
                    return Ok(());
                }
                Ok(d) => d,
            };
            let t = no_panic("into_string", || d.clone().into_string())?;
            ensure!(t.is_err(), "invalid stored string {} converts to {t:?}", hex(&b));
            no_panic("Display", || d.to_string())?;
            no_panic("Debug", || format!("{d:?}"))?;
            let w = enc(&d)?;
            if let Some(x) = first_diff(&b, &w) {
                bail!("rewriting a stored string with invalid content: {x}");
            }
            o.ev("invalid-reported", 1);
            o.mark(&b);
            Ok(())
        });
        c.case("stored-hostile", |r, o| {
            // Arbitrary bytes: a result or an error; and what is read is written back as it was.
            let mut b = r.some_bytes(1, 60);
            match r.below(5) {
                0 => b[0] = 0x90,
                1 => b[0] = 0x40,
                2 => b[0] |= 1,
                _ => {}
            }
            if b[0] & 1 == 0 && b.len() > 4 && r.chance(3, 4) {
                let l = r.below(b.len() + 4) as u16;
                b[1..3].copy_from_slice(&l.to_le_bytes());
                b[3] = 0;
                if r.chance(1, 3) {
                    b[4] = 3;
                }
            }
            o.input("stored string", &b);
            let mut cur = Cursor::new(&b);
            if let Ok(s) = no_panic("read", || DeviceSQLString::read(&mut cur))? {
                no_panic("Display", || s.to_string())?;
                no_panic("Debug", || format!("{s:?}"))?;
                let t = no_panic("into_string", || s.clone().into_string())?;
                if let Ok(t) = t {
                    ensure!(t == s.to_string(), "conversion and display disagree");
                }
                let n = cur.stream_position().unwrap() as usize;
                let w = enc(&s)?;
                if let Some(x) = first_diff(&b[..n], &w) {
                    bail!("rewriting an accepted string: {x} (stored {})", hex(&b));
                }
                o.ev("hostile-accepted", 1);
                o.mark(&b[..n]);
            } else {
                o.ev("hostile-refused", 1);
            }
            Ok(())
        });
    }
    // Texts whose UTF-16 form is at the same time a stored ISRC.
    c.case("ambiguous", |_, o| {
        let t: String = ['\u{4103}', '\u{4142}', '\u{4142}', '\u{4142}', '\u{4142}', '\u{4142}', 'A'].iter().collect();
        assert!(SStr::new(&t).ambiguous());
        o.input("text (UTF-8)", t.as_bytes());
        check_new(&t, o, &[]).map_err(|e| format!("UTF-16 text equal to a stored ISRC :: {e}"))
    });
}
