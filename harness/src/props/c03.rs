//! C03: arbitrary analysis-file bytes never crash, hang or exhaust memory.
use super::c06::fixtures;
use super::Prop;
use crate::alloc;
use crate::fw::{no_panic, Ctx, Obs, R};
use crate::hostile::{mutate, print_len};
use crate::refanlz as m;
use crate::iomon::MonFile;
use binrw::{BinRead, BinWrite};
use rekordcrate::anlz::ANLZ;
use std::io::Cursor;
use std::sync::atomic::Ordering::SeqCst;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: "distinct hostile inputs that were parsed, printed and, when accepted, written back and read again",
        required: &["accepted", "rejected", "printed-bytes", "written-bytes", "max:peak-bytes", "every-prefix", "planted-sizes", "max:reads-per-byte"],
        assumptions: &[
            "memory budget per input: 64 MiB plus 256 bytes per input byte; more ends the process and counts as a violation",
            "a case that uses more than 40 s of CPU counts as a hang (ordinary cases take milliseconds)",
            "built with overflow checks and debug assertions, so that wrapped arithmetic shows as a panic",
        ],
        run,
    }
}

pub fn exercise(b: &[u8], o: &mut Obs) -> R {
    o.input("hostile analysis file", b);
    let f = MonFile::new(b.to_vec());
    let res = no_panic("read", || ANLZ::read(&mut f.clone()))?;
    o.ev("max:reads-per-byte", f.ops() / (b.len() as u64 + 1));
    match res {
        Err(e) => {
            no_panic("print of an error", || print_len(&e))?;
            no_panic("print of an error", || format!("{e}").len())?;
            o.ev("rejected", 1);
        }
        Ok(a) => {
            let n = no_panic("print", || print_len(&a))?;
            o.ev("printed-bytes", n);
            let mut w = Cursor::new(vec![]);
            match no_panic("write", || a.write(&mut w))? {
                Ok(()) => {
                    let out = w.into_inner();
                    o.ev("written-bytes", out.len() as u64);
                    let _ = no_panic("second read", || ANLZ::read(&mut Cursor::new(&out)))?;
                }
                Err(e) => {
                    no_panic("print of an error", || print_len(&e))?;
                }
            }
            o.ev("accepted", 1);
        }
    }
    o.ev("max:peak-bytes", (alloc::PEAK.load(SeqCst) - alloc::LIVE.load(SeqCst)).max(0) as u64);
    o.mark(b);
    Ok(())
}

fn run(c: &mut Ctx) {
    for i in 0..c.n(6000) {
        c.case("mutated", move |r, o| {
            let base = if i % 4 == 0 {
                let k = r.below(m::KINDS);
                m::AnlzM { header_data: vec![0; 16], sections: vec![m::gen_section(r, k, 10)] }.encode()
            } else {
                m::gen_file(r, 8, 20).encode()
            };
            for _ in 0..8 {
                let mut b = base.clone();
                let n = 1 + r.below(4);
                mutate(r, &mut b, n, true);
                exercise(&b, o)?;
            }
            Ok(())
        });
    }
    // A tampered size field in every position of each kind of section.
    for k in 0..m::KINDS {
        for v in [0u32, 1, 11, 12, 13, 23, 24, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFF0, u32::MAX] {
            c.case("planted-size", move |r, o| {
                let base = m::AnlzM { header_data: vec![0; 16], sections: vec![m::gen_section(r, k, 3), m::gen_section(r, k, 2)] }.encode();
                for at in 0..base.len().saturating_sub(4).min(400) {
                    let mut b = base.clone();
                    b[at..at + 4].copy_from_slice(&v.to_be_bytes());
                    exercise(&b, o)?;
                    o.ev("planted-sizes", 1);
                }
                Ok(())
            });
        }
        c.case("prefix", move |r, o| {
            let base = m::AnlzM { header_data: vec![0; 16], sections: vec![m::gen_section(r, k, 4)] }.encode();
            for n in 0..base.len().min(1500) {
                exercise(&base[..n], o)?;
                // Also with a file header that admits the truncated length.
                if n >= 12 {
                    let mut b = base[..n].to_vec();
                    b[8..12].copy_from_slice(&(n as u32).to_be_bytes());
                    exercise(&b, o)?;
                }
                o.ev("every-prefix", 1);
            }
            Ok(())
        });
    }
    for _ in 0..c.n(400) {
        c.case("random", move |r, o| {
            let mut b = r.some_bytes(0, 300);
            if r.chance(3, 4) && b.len() > 40 {
                b[..12].copy_from_slice(b"PMAI\0\0\0\x1c\0\0\x10\0");
                b[28..32].copy_from_slice(m::KIND_NAMES[r.below(13)].as_bytes());
                b[32..36].copy_from_slice(&(12 + r.below(40) as u32).to_be_bytes());
                b[36..40].copy_from_slice(&(40 + r.below(300) as u32).to_be_bytes());
            }
            exercise(&b, o)
        });
    }
    // Large inputs made of the smallest possible pieces: time and memory must stay proportional.
    for k in 0..6usize {
        c.case("large", move |_, o| {
            let n = 1 << 20;
            let mut body: Vec<u8> = vec![];
            while body.len() < n {
                match k {
                    0 => body.extend(b"XXXX\0\0\0\x0c\0\0\0\x0c"),
                    1 => body.extend(b"PCOB\0\0\0\x18\0\0\0\x18\0\0\0\0\0\0\0\0\0\0\0\0"),
                    2 => body.extend(b"PQTZ\0\0\0\x18\0\0\0\x18\0\0\0\0\0\0\0\0\0\0\0\0"),
                    3 => body.extend(b"PPTH\0\0\0\x10\0\0\0\x12\0\0\0\x02\0\0"),
                    4 => body.extend(b"PCO2\0\0\0\x14\0\0\0\x14\0\0\0\0\0\0\0\0"),
                    _ => {
                        body.extend(b"PWV3\0\0\0\x18");
                        body.extend((24 + n as u32).to_be_bytes());
                        body.extend([0, 0, 0, 1]);
                        body.extend((n as u32).to_be_bytes());
                        body.extend([0, 0x96, 0, 0]);
                        body.extend(vec![0x5a; n]);
                    }
                }
            }
            let mut b = b"PMAI\0\0\0\x0c".to_vec();
            b.extend((12 + body.len() as u32).to_be_bytes());
            b.extend(body);
            exercise(&b, o)
        });
    }
    for f in fixtures() {
        for _ in 0..c.n(20) {
            let f = f.clone();
            c.case("fixture-mutated", move |r, o| {
                let mut b = std::fs::read(&f).map_err(|e| e.to_string())?;
                let n = 1 + r.below(5);
                mutate(r, &mut b, n, true);
                exercise(&b, o)
            });
        }
    }
}
