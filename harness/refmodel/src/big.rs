//! Exact arithmetic on natural numbers, just enough to decide whether a double
//! is the nearest one to a decimal number, and to round factorials.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big(Vec<u32>); // little endian, no trailing zero limb

impl Big {
    pub fn zero() -> Self {
        Big(vec![])
    }
    pub fn from_u64(n: u64) -> Self {
        let mut b = Big(vec![n as u32, (n >> 32) as u32]);
        b.trim();
        b
    }
    fn trim(&mut self) {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn mul_small(&mut self, m: u32) {
        let mut c = 0u64;
        for l in &mut self.0 {
            let t = u64::from(*l) * u64::from(m) + c;
            *l = t as u32;
            c = t >> 32;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
        self.trim();
    }
    pub fn add_small(&mut self, a: u32) {
        let mut c = u64::from(a);
        for l in &mut self.0 {
            let t = u64::from(*l) + c;
            *l = t as u32;
            c = t >> 32;
            if c == 0 {
                return;
            }
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    pub fn shl(&mut self, n: usize) {
        if self.is_zero() {
            return;
        }
        let (w, b) = (n / 32, n % 32);
        if b > 0 {
            let mut c = 0u32;
            for l in &mut self.0 {
                let t = (*l << b) | c;
                c = *l >> (32 - b);
                *l = t;
            }
            if c > 0 {
                self.0.push(c);
            }
        }
        if w > 0 {
            let mut v = vec![0; w];
            v.append(&mut self.0);
            self.0 = v;
        }
    }
    pub fn mul_pow10(&mut self, n: usize) {
        for _ in 0..n / 9 {
            self.mul_small(1_000_000_000);
        }
        for _ in 0..n % 9 {
            self.mul_small(10);
        }
    }
    pub fn bits(&self) -> usize {
        self.0.last().map_or(0, |l| self.0.len() * 32 - l.leading_zeros() as usize)
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 32).is_some_and(|l| l >> (i % 32) & 1 == 1)
    }
    pub fn cmp_big(&self, o: &Self) -> Ordering {
        self.0
            .len()
            .cmp(&o.0.len())
            .then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    /// Nearest double, ties to even.
    pub fn to_f64(&self) -> f64 {
        let n = self.bits();
        if n <= 64 {
            let mut v = 0u64;
            for i in (0..n).rev() {
                v = v << 1 | u64::from(self.bit(i));
            }
            if n <= 53 {
                return v as f64;
            }
        }
        let sh = n - 53;
        let mut m = 0u64;
        for i in (sh..n).rev() {
            m = m << 1 | u64::from(self.bit(i));
        }
        let half = self.bit(sh - 1);
        let rest = (0..sh - 1).any(|i| self.bit(i));
        if half && (rest || m & 1 == 1) {
            m += 1;
        }
        // m * 2^sh
        let (m, sh) = if m == 1 << 53 { (1u64 << 52, sh + 1) } else { (m, sh) };
        let e = sh as i64 + 52 + 1023;
        if e >= 2047 {
            return f64::INFINITY;
        }
        f64::from_bits((e as u64) << 52 | (m & ((1 << 52) - 1)))
    }
}

/// n! rounded to nearest.
pub fn factorial_exact(n: u32) -> f64 {
    let mut b = Big::from_u64(1);
    for i in 2..=n {
        b.mul_small(i);
    }
    b.to_f64()
}

/// Is `v` (non-negative) the double nearest to `digits * 10^exp` (ties to even)?
/// `digits` are decimal digits. Overflow rounds to infinity as IEEE-754 says.
pub fn is_nearest(digits: &[u8], exp: i64, v: f64) -> bool {
    if v.is_nan() || v.is_sign_negative() {
        return false;
    }
    // magnitude estimates keep the integers small
    let first = digits.iter().position(|&d| d != b'0');
    let Some(first) = first else { return v == 0.0 };
    let digits = &digits[first..];
    let mag = digits.len() as i64 + exp; // value in [10^(mag-1), 10^mag)
    if mag > 400 {
        return v == f64::INFINITY;
    }
    if mag < -400 {
        return v == 0.0;
    }
    let mut d = Big::zero();
    for &c in digits {
        d.mul_small(10);
        d.add_small(u32::from(c - b'0'));
    }
    // midpoints around v as fractions m * 2^e: neighbours' halves
    let bits = v.to_bits();
    let cmp_half = |bits_lo: u64, hi_is_next: bool| -> Ordering {
        // compares the decimal with the midpoint of bits_lo and bits_lo + 1
        let _ = hi_is_next;
        let e = (bits_lo >> 52) as i64;
        let f = bits_lo & ((1 << 52) - 1);
        let (m, e2) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
        // midpoint = (2m + 1) * 2^(e2 - 1)
        let mut right = Big::from_u64(2 * m + 1);
        let mut left = d.clone();
        let e2 = e2 - 1;
        if exp >= 0 {
            left.mul_pow10(exp as usize);
        } else {
            right.mul_pow10((-exp) as usize);
        }
        if e2 >= 0 {
            right.shl(e2 as usize);
        } else {
            left.shl((-e2) as usize);
        }
        left.cmp_big(&right)
    };
    let even = bits & 1 == 0;
    if v.is_infinite() {
        // at least the midpoint of MAX and 2^1024 (tie goes to even = infinity)
        return cmp_half(f64::MAX.to_bits(), false) != Ordering::Less;
    }
    let up = cmp_half(bits, true);
    let up_ok = up == Ordering::Less || (up == Ordering::Equal && even);
    let low_ok = bits == 0 || {
        let lo = cmp_half(bits - 1, false);
        lo == Ordering::Greater || (lo == Ordering::Equal && even)
    };
    up_ok && low_ok
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn nearest() {
        let mut r = crate::Rng::new(3);
        for _ in 0..20000 {
            let n = r.range(1, 25);
            let s: String = (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
            let e = r.below(700) as i64 - 350;
            let v: f64 = format!("{s}e{e}").parse().unwrap();
            assert!(is_nearest(s.as_bytes(), e, v), "{s} {e} {v:e}");
            if v > 0.0 && v.is_finite() {
                assert!(!is_nearest(s.as_bytes(), e, f64::from_bits(v.to_bits() + 1)));
                assert!(!is_nearest(s.as_bytes(), e, f64::from_bits(v.to_bits() - 1)));
            }
        }
        for n in 0..=170 {
            let mut b = Big::from_u64(1);
            for i in 2..=n {
                b.mul_small(i);
            }
            assert!(b.to_f64().is_finite());
        }
        assert_eq!(factorial_exact(20), 2432902008176640000.0);
        assert!(factorial_exact(171).is_infinite());
    }
}

impl Big {
    pub fn to_decimal(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut v = self.0.clone();
        let mut parts = Vec::new();
        while !v.is_empty() {
            let mut r = 0u64;
            for l in v.iter_mut().rev() {
                let t = (r << 32) | u64::from(*l);
                *l = (t / 1_000_000_000) as u32;
                r = t % 1_000_000_000;
            }
            while v.last() == Some(&0) {
                v.pop();
            }
            parts.push(r as u32);
        }
        let mut s = parts.pop().unwrap().to_string();
        for p in parts.iter().rev() {
            s.push_str(&format!("{p:09}"));
        }
        s
    }
}
