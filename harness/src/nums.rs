//! Numbers around the limits of the integer types
use crate::*;
use monlib::spec::*;
pub fn digits(mut v: u128, radix: u32, upper: bool) -> String {
    let mut s = vec![];
    while v > 0 || s.is_empty() {
        let d = char::from_digit((v % radix as u128) as u32, radix).unwrap();
        s.push(if upper { d.to_ascii_uppercase() } else { d });
        v /= radix as u128;
    }
    s.iter().rev().collect()
}
/// digit strings around everything that matters for the type and radix
pub fn targets(int: &str, radix: u32, r: &mut Rng) -> Vec<String> {
    let bits = int_bits(int);
    let umax: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let smax = umax >> 1;
    let mut nums: Vec<u128> = vec![0, 1, 2, radix as u128 - 1, radix as u128, radix as u128 + 1];
    for m in [umax, smax, smax + 1, umax / 3, umax / 10, umax / radix as u128] {
        nums.extend([m.wrapping_sub(1), m, m.wrapping_add(1)]);
    }
    for b in 0..bits {
        nums.push(1u128 << b);
        nums.push((1u128 << b) - 1);
    }
    let mut p = 1u128;
    while let Some(q) = p.checked_mul(radix as u128) {
        p = q;
        nums.extend([p - 1, p]);
    }
    for _ in 0..40 {
        nums.push(r.u128() >> r.below(128));
    }
    let mut out = vec![];
    for n in nums {
        out.push(digits(n, radix, false));
        out.push(digits(n, radix, true));
    }
    let top = char::from_digit(radix - 1, radix).unwrap();
    let n = digits_in_radix(bits, radix) as usize;
    for len in [1, n - 1, n, n + 1, n + 2, 2 * n, 200] {
        for c in ['0', '1', top, top.to_ascii_uppercase()] {
            out.push(c.to_string().repeat(len));
        }
    }
    // leading zeros up to and beyond the limit
    for v in [digits(umax, radix, false), digits(smax, radix, true), digits(smax + 1, radix, false), "1".to_string()] {
        for z in [1, 2, n.saturating_sub(v.len()), (n + 1).saturating_sub(v.len())] {
            out.push("0".repeat(z) + &v);
        }
    }
    if radix < 36 {
        let over = char::from_digit(radix, 36).unwrap();
        for v in ["1", "", "0"] {
            out.push(format!("{v}{over}"));
            out.push(format!("{over}{v}"));
            out.push(format!("{v}{}", over.to_ascii_uppercase()));
        }
    }
    out.sort();
    out.dedup();
    out
}
