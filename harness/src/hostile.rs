//! Hostile inputs: mutations of well-formed files and a sink that only counts printed text.
use crate::rng::Rng;
use std::fmt::Write;

/// Formatting target that keeps nothing, so that printing is exercised without its output
/// counting as memory of the code under test.
pub struct Sink(pub u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
pub fn print_len(x: &impl std::fmt::Debug) -> u64 {
    let mut s = Sink(0);
    // The sink never fails, so an error comes from the code that formats; `println!`,
    // `format!` and `to_string` panic in that case.
    write!(s, "{x:#?}").expect("formatting fails");
    let n = s.0;
    write!(s, "{x:?}").expect("formatting fails");
    n
}

/// Break the UTF-16 text of stored strings: every place that looks like the head of a long
/// UTF-16 string may get an unpaired surrogate; returns how many did.
pub fn unpair(r: &mut Rng, b: &mut [u8], every: usize) -> u64 {
    let mut n = 0;
    let mut i = 0;
    while i + 6 <= b.len() {
        let len = u16::from_le_bytes([b[i + 1], b[i + 2]]) as usize;
        if b[i] == 0x90 && b[i + 3] == 0 && len >= 6 && len % 2 == 0 && i + len <= b.len() && len < 4096 {
            if r.chance(1, every) {
                let at = i + 4 + 2 * r.below((len - 4) / 2);
                let u = *r.pick(&[0xD800u16, 0xDBFF, 0xDC00, 0xDFFF]);
                b[at..at + 2].copy_from_slice(&u.to_le_bytes());
                n += 1;
            }
            i += len;
        } else {
            i += 1;
        }
    }
    n
}

fn int(r: &mut Rng) -> u64 {
    match r.below(10) {
        8 => 0xD800 + r.below(0x800) as u64,
        0 => 0,
        1 => r.below(16) as u64,
        2 => u64::from(u32::MAX) - r.below(40) as u64,
        3 => 0x8000_0000u64.wrapping_add(r.below(9) as u64).wrapping_sub(4),
        4 => 1u64 << r.below(32),
        5 => 0xFFFF - r.below(8) as u64,
        6 => r.below(5000) as u64,
        7 => 11 + r.below(4) as u64,
        _ => r.u64(),
    }
}

/// Apply `n` mutations; `be` selects the byte order of planted integers.
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>, n: usize, be: bool) {
    for _ in 0..n {
        if b.is_empty() {
            b.extend(r.some_bytes(0, 64));
            continue;
        }
        let at = match r.below(3) {
            0 => r.below(b.len().min(64)),
            _ => r.below(b.len()),
        };
        match r.below(12) {
            0 => b[at] ^= 1 << r.below(8),
            1 => b[at] = r.u8_edgy(),
            2..=5 => {
                // Overwrite an aligned integer.
                let w = *r.pick(&[1usize, 2, 4, 4]);
                let at = at / w * w;
                let x = int(r);
                let v = if be { (x << (64 - 8 * w)).to_be_bytes().to_vec() } else { x.to_le_bytes().to_vec() };
                for i in 0..w {
                    if at + i < b.len() {
                        b[at + i] = v[i];
                    }
                }
            }
            6 => {
                // Increment or decrement an integer.
                let w = *r.pick(&[1usize, 2, 4]);
                let at = at / w * w;
                let up = r.chance(1, 2);
                let i = if be { (at + w - 1).min(b.len() - 1) } else { at };
                b[i] = if up { b[i].wrapping_add(1) } else { b[i].wrapping_sub(1) };
            }
            7 => b.truncate(at),
            8 => {
                let n = r.range(1, 40);
                let end = (at + n).min(b.len());
                b.drain(at..end);
            }
            9 => {
                let ins = r.some_bytes(1, 40);
                b.splice(at..at, ins);
            }
            10 => {
                // Copy a block elsewhere.
                let n = r.range(1, 64).min(b.len() - at);
                let blk = b[at..at + n].to_vec();
                let to = r.below(b.len());
                for (i, x) in blk.into_iter().enumerate() {
                    if to + i < b.len() {
                        b[to + i] = x;
                    }
                }
            }
            _ => {
                let n = r.range(1, 16).min(b.len() - at);
                let v = *r.pick(&[0u8, 0xff, 0x7f, 0x80]);
                b[at..at + n].fill(v);
            }
        }
    }
}
