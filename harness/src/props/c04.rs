//! C04: arbitrary settings and XML bytes never crash, hang or exhaust memory.
use super::Prop;
use crate::alloc;
use crate::fw::{no_panic, Ctx, Obs, R};
use crate::hostile::{mutate, print_len};
use crate::iomon::MonFile;
use crate::refsetting as ms;
use crate::refxml as mx;
use crate::rng::Rng;
use binrw::{BinRead, BinWrite};
use rekordcrate::setting::{Setting, SettingType};
use rekordcrate::xml::Document;
use std::io::{BufReader, Cursor};
use std::sync::atomic::Ordering::SeqCst;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        level: "exploration",
        rule: "distinct hostile inputs that were parsed, printed and, when accepted, written back and read again",
        required: &[
            "settings-accepted", "settings-rejected", "settings-written", "xml-accepted", "xml-rejected", "xml-written", "nested", "large",
            "max:peak-bytes", "every-prefix", "every-byte", "not-utf8",
        ],
        assumptions: &[
            "memory budget per input: 64 MiB plus 256 bytes per input byte; more ends the process and counts as a violation",
            "a case that uses more than 40 s of CPU counts as a hang (ordinary cases take milliseconds)",
            "XML is read with quick-xml as in the documentation and the command-line tool, on a stack of 8 MiB",
        ],
        run,
    }
}

const TYPES: [SettingType; 4] = [SettingType::DevSetting, SettingType::DJMMySetting, SettingType::MySetting, SettingType::MySetting2];

pub fn setting(b: &[u8], o: &mut Obs) -> R {
    o.input("hostile settings file", b);
    for t in TYPES {
        let f = MonFile::new(b.to_vec());
        match no_panic("read", || Setting::read_args(&mut f.clone(), (t,)))? {
            Err(e) => {
                no_panic("print of an error", || print_len(&e) + format!("{e}").len() as u64)?;
                o.ev("settings-rejected", 1);
            }
            Ok(s) => {
                no_panic("print", || print_len(&s))?;
                o.ev("settings-accepted", 1);
                let mut w = Cursor::new(vec![]);
                match no_panic("write", || s.write(&mut w))? {
                    Ok(()) => {
                        o.ev("settings-written", 1);
                        let _ = no_panic("second read", || Setting::read_args(&mut Cursor::new(w.into_inner()), (t,)))?;
                    }
                    Err(e) => {
                        no_panic("print of an error", || print_len(&e))?;
                    }
                }
            }
        }
    }
    o.ev("max:peak-bytes", (alloc::PEAK.load(SeqCst) - alloc::LIVE.load(SeqCst)).max(0) as u64);
    o.mark(b);
    Ok(())
}

pub fn xml(b: &[u8], o: &mut Obs) -> R {
    o.input("hostile XML document", b);
    let res = no_panic("from_reader", || quick_xml::de::from_reader::<_, Document>(BufReader::new(b)))?;
    if let Ok(s) = std::str::from_utf8(b) {
        let r2 = no_panic("from_str", || quick_xml::de::from_str::<Document>(s))?;
        no_panic("drop", move || drop(r2))?;
    } else {
        o.ev("not-utf8", 1);
    }
    match res {
        Err(e) => {
            no_panic("print of an error", || print_len(&e) + format!("{e}").len() as u64)?;
            o.ev("xml-rejected", 1);
        }
        Ok(d) => {
            no_panic("print", || print_len(&d))?;
            o.ev("xml-accepted", 1);
            match no_panic("to_string", || quick_xml::se::to_string(&d))? {
                Ok(s) => {
                    o.ev("xml-written", 1);
                    let r = no_panic("second read", || quick_xml::de::from_str::<Document>(&s))?;
                    no_panic("drop", move || drop(r))?;
                }
                Err(e) => {
                    no_panic("print of an error", || print_len(&e))?;
                }
            }
            no_panic("drop", move || drop(d))?;
        }
    }
    o.ev("max:peak-bytes", (alloc::PEAK.load(SeqCst) - alloc::LIVE.load(SeqCst)).max(0) as u64);
    o.mark(b);
    Ok(())
}

const HEAD: &str = r#"<DJ_PLAYLISTS Version="1.0.0"><PRODUCT Name="rekordbox" Version="5.8.6" Company="Pioneer DJ"/><COLLECTION Entries="0">"#;
const MID: &str = r#"</COLLECTION><PLAYLISTS>"#;
const TAIL: &str = "</PLAYLISTS></DJ_PLAYLISTS>";

/// A document with `n` nested elements of the given shape somewhere in it.
fn nested(kind: usize, n: usize, closed: bool) -> String {
    let (open, close, at) = match kind {
        0 => (r#"<NODE Type="0" Name="f" Count="1">"#, "</NODE>", 2),
        1 => (r#"<NODE Name="f" Count="1" Type="0">"#, "</NODE>", 2),
        2 => (r#"<NODE Name="f">"#, "</NODE>", 2),
        3 => ("<X>", "</X>", 0),
        4 => (r#"<TRACK TrackID="1" Location="x">"#, "</TRACK>", 1),
        5 => (r#"<NODE Type="1" Name="p" Entries="1" KeyType="0">"#, "</NODE>", 2),
        6 => ("<X>", "</X>", 3),
        7 => (r#"<NODE Type="0" Name="f" Count="1"><NODE Type="1" Name="p" Entries="0" KeyType="0"/>"#, "</NODE>", 2),
        _ => ("<X a='1'>", "</X>", 1),
    };
    let body = open.repeat(n) + &if closed { close.repeat(n) } else { String::new() };
    let root = r#"<NODE Type="0" Name="ROOT" Count="1">"#;
    match at {
        0 => format!("{body}{HEAD}{MID}{root}</NODE>{TAIL}"),
        1 => format!("{HEAD}{body}{MID}{root}</NODE>{TAIL}"),
        2 => format!("{HEAD}{MID}{root}{body}</NODE>{TAIL}"),
        _ => format!("{HEAD}{MID}{root}<NODE Type=\"1\" Name=\"p\" Entries=\"1\" KeyType=\"0\">{body}</NODE></NODE>{TAIL}"),
    }
}

fn mutate_text(r: &mut Rng, b: &mut Vec<u8>, n: usize) {
    const TOK: [&str; 30] = [
        "<", ">", "/>", "</NODE>", "<NODE", "<TRACK", "\"", "'", "&", "&amp;", "&#0;", "&#xD800;", "&#x110000;", "&#99999999999;", "=", " ",
        "<!--", "-->", "<![CDATA[", "]]>", "<?xml", "?>", "<!DOCTYPE a [<!ENTITY x \"y\">]>", "&x;", "-", "99999999999999999999", "NaN", "1e999",
        "\0", "\u{feff}",
    ];
    for _ in 0..n {
        let at = r.below(b.len() + 1);
        match r.below(7) {
            0 | 1 => {
                let t = r.pick(&TOK).bytes();
                b.splice(at..at, t);
            }
            2 => {
                let e = (at + r.range(1, 30)).min(b.len());
                b.drain(at..e);
            }
            3 => {
                // Duplicate a stretch.
                let e = (at + r.range(1, 120)).min(b.len());
                let s = b[at..e].to_vec();
                let to = r.below(b.len() + 1);
                b.splice(to..to, s);
            }
            4 => {
                // Replace an attribute value.
                if let Some(i) = b[at..].windows(2).position(|w| w == b"=\"") {
                    let s = at + i + 2;
                    let e = b[s..].iter().position(|x| *x == b'"').map_or(b.len(), |j| s + j);
                    let v = *r.pick(&["", "0", "1", "2", "-1", "1.5", "abc", "4294967296", "99999999999999999999", "NaN", "inf", " 1", "0x10", "١"]);
                    b.splice(s..e, v.bytes());
                }
            }
            5 => {
                // Swap attribute or element names.
                let names: [&[u8]; 8] = [b"@Type", b"Type", b"Count", b"Entries", b"NODE", b"TRACK", b"KeyType", b"$text"];
                let from = *r.pick(&names);
                if let Some(i) = b[at..].windows(from.len()).position(|w| w == from) {
                    b.splice(at + i..at + i + from.len(), r.pick(&names).iter().copied());
                }
            }
            _ => mutate(r, b, 1, false),
        }
    }
}

fn run(c: &mut Ctx) {
    let ks = ms::kinds();
    for _ in 0..c.n(3000) {
        c.case("settings mutated", |r, o| {
            let mut f = ms::FileM::default(&ks, r.below(4));
            f.randomize(r, &ks);
            let base = f.encode();
            for _ in 0..8 {
                let mut b = base.clone();
                let n = r.below(4);
                mutate(r, &mut b, n, false);
                setting(&b, o)?;
            }
            Ok(())
        });
    }
    for k in 0..4 {
        c.case("settings prefix", |r, o| {
            let mut f = ms::FileM::default(&ks, k);
            f.randomize(r, &ks);
            let b = f.encode();
            for n in 0..=b.len() {
                setting(&b[..n], o)?;
                o.ev("every-prefix", 1);
            }
            let mut l = b.clone();
            l.extend(r.bytes(1 << 16));
            setting(&l, o)
        });
        for part in 0..8 {
            c.case("settings byte", |r, o| {
                let mut f = ms::FileM::default(&ks, k);
                f.randomize(r, &ks);
                let base = f.encode();
                for at in (part..base.len()).step_by(8) {
                    for v in [0u8, 1, 0x1f, 0x20, 0x7f, 0x80, 0x81, 0x82, 0x93, 0xff] {
                        let mut b = base.clone();
                        b[at] = v;
                        setting(&b, o)?;
                        o.ev("every-byte", 1);
                    }
                }
                Ok(())
            });
        }
    }
    for _ in 0..c.n(200) {
        c.case("settings random", |r, o| {
            let mut b = r.some_bytes(0, 300);
            if r.chance(1, 2) && b.len() > 104 {
                b[..4].copy_from_slice(&[0x60, 0, 0, 0]);
            }
            setting(&b, o)
        });
    }
    c.case("settings large", |r, o| {
        // No terminator anywhere.
        let mut b = vec![0x60, 0, 0, 0];
        b.resize(16 << 20, b'x');
        setting(&b, o)?;
        b[4..].fill(0);
        setting(&b, o)?;
        setting(&r.bytes(1 << 20), o)?;
        o.ev("large", 1);
        Ok(())
    });
    // XML
    for _ in 0..c.n(4000) {
        c.case("xml mutated", |r, o| {
            let wsc = r.chance(1, 4);
            let g = mx::Gen { wsc, max: r.range(1, 4), depth: 2 };
            let st = mx::Style::random(r);
            let d = g.doc(r);
            let base = mx::write(r, &mx::to_el(&d), &st).into_bytes();
            for _ in 0..6 {
                let mut b = base.clone();
                let n = r.below(4);
                mutate_text(r, &mut b, n);
                xml(&b, o)?;
            }
            Ok(())
        });
    }
    for _ in 0..c.n(6) {
        c.case("xml prefix", |r, o| {
            let g = mx::Gen { wsc: false, max: 2, depth: 2 };
            let st = mx::Style::random(r);
            let d = g.doc(r);
            let b = mx::write(r, &mx::to_el(&d), &st).into_bytes();
            for n in 0..b.len().min(4000) {
                xml(&b[..n], o)?;
                o.ev("every-prefix", 1);
            }
            Ok(())
        });
    }
    for kind in 0..9 {
        for n in [1usize, 60, 100, 126, 127, 128, 129, 130, 200, 500, 1000, 3000, 10_000, 100_000, 400_000] {
            for closed in [true, false] {
                c.case("xml nested", move |_, o| {
                    let s = nested(kind, n, closed);
                    o.ev("nested", 1);
                    xml(s.as_bytes(), o)
                });
            }
        }
    }
    for kind in 0..14usize {
        c.case("xml large", move |_, o| {
            let n = 60_000;
            let node = |body: &str| format!("{HEAD}{MID}<NODE Type=\"0\" Name=\"ROOT\" Count=\"1\">{body}</NODE>{TAIL}");
            let col = |body: &str| format!("{HEAD}{body}{MID}<NODE Type=\"0\" Name=\"ROOT\" Count=\"1\"></NODE>{TAIL}");
            let s = match kind {
                0 => node(&"<NODE Type=\"0\" Name=\"\" Count=\"0\"/>".repeat(n)),
                1 => node(&"<NODE Type=\"1\" Name=\"\" Entries=\"0\" KeyType=\"0\"/>".repeat(n)),
                2 => col(&"<TRACK TrackID=\"1\" Location=\"\"/>".repeat(n)),
                3 => node(&format!("<NODE Type=\"1\" Name=\"\" Entries=\"4294967295\" KeyType=\"0\">{}</NODE>", "<TRACK Key=\"1\"/>".repeat(n))),
                4 => col(&format!("<TRACK TrackID=\"1\" Location=\"{}\"/>", "x".repeat(8 << 20))),
                5 => col(&format!("<TRACK TrackID=\"1\" Location=\"{}\"/>", "&amp;".repeat(1 << 20))),
                6 => col(&format!("<TRACK TrackID=\"1\" Location=\"\">{}</TRACK>", "<TEMPO Inizio=\"1\" Bpm=\"1\" Metro=\"\" Battito=\"1\"/>".repeat(n))),
                7 => col(&format!("<TRACK TrackID=\"1\" Location=\"\" {}/>", (0..2500).map(|i| format!("a{i}=\"\" ")).collect::<String>())),
                8 => format!("<!DOCTYPE x [{}]>{HEAD}{MID}{TAIL}", (0..2000).map(|i| format!("<!ENTITY e{} \"&e{i};&e{i};\">", i + 1)).collect::<String>()),
                9 => "<".repeat(1 << 20),
                10 => format!("{HEAD}{}", "<!-- x -->".repeat(100_000)),
                11 => format!("{HEAD}{}", "text &lt; ".repeat(100_000)),
                12 => format!("{HEAD}{}", "<![CDATA[x]]>".repeat(100_000)),
                _ => node(&"<NODE Type=\"0\" Name=\"\" Count=\"18446744073709551615\"/>".repeat(1000)),
            };
            o.ev("large", 1);
            xml(s.as_bytes(), o)
        });
    }
    for _ in 0..c.n(300) {
        c.case("xml bytes", |r, o| {
            let mut b = r.some_bytes(0, 200);
            if r.chance(1, 3) {
                let pre: &[u8] = *r.pick(&[&[0xef, 0xbb, 0xbf][..], &[0xff, 0xfe], &[0xfe, 0xff], b"<?xml version='1.0' encoding='UTF-16'?>", b"<"]);
                b.splice(0..0, pre.iter().copied());
            }
            xml(&b, o)
        });
    }
    c.case("xml fixture", |r, o| {
        let p = super::c07::data_dir().join("xml/database.xml");
        let Ok(base) = std::fs::read(p) else { return Ok(()) };
        xml(&base, o)?;
        for _ in 0..300 {
            let mut b = base.clone();
            let n = 1 + r.below(3);
            mutate_text(r, &mut b, n);
            xml(&b, o)?;
        }
        Ok(())
    });
}
