// Exact reference semantics for `kserd::Number`, shared by the Kani obligations and the executable
// contracts. A float is read from its bit pattern as (-1)^s * m * 2^e and everything is decided in
// integer arithmetic; no floating point comparison or rounding of the code under check is reused.
use kserd::Number;
use std::cmp::Ordering::{self, *};

/// |f| for a finite float as whole part and fractional part `frac / 2^k`, `None` when |f| >= 2^128.
pub fn split(f: f64) -> Option<(u128, u128, u32)> {
    let bits = f.to_bits();
    let be = ((bits >> 52) & 0x7ff) as i32;
    let frac = (bits & ((1u64 << 52) - 1)) as u128;
    if be == 0 {
        // zero or subnormal: below 2^-1022. Any non-zero fraction smaller than every tolerance.
        return Some((0, if frac == 0 { 0 } else { 1 }, 100));
    }
    let m = frac | (1u128 << 52);
    let e = be - 1075;
    if e >= 76 {
        None
    } else if e >= 0 {
        Some((m << (e as u32), 0, 0))
    } else if e <= -100 {
        Some((0, 1, 100))
    } else {
        let k = (-e) as u32;
        Some((m >> k, m & ((1u128 << k) - 1), k))
    }
}

/// Compare float `f` with the integer `(-1)^neg * mag`.
pub fn cmp_float_int(f: f64, neg: bool, mag: u128) -> Ordering {
    let bits = f.to_bits();
    let fneg = (bits >> 63) == 1;
    let be = (bits >> 52) & 0x7ff;
    let frac = bits & ((1u64 << 52) - 1);
    if be == 0x7ff {
        if frac != 0 {
            return Greater; // NaN is above everything
        }
        return if fneg { Less } else { Greater };
    }
    let fzero = be == 0 && frac == 0;
    let izero = mag == 0;
    if fzero && izero {
        return Equal;
    }
    if fzero {
        return if neg { Greater } else { Less };
    }
    if izero || fneg != neg {
        return if fneg { Less } else { Greater };
    }
    let o = match split(f) {
        None => Greater,
        Some((q, r, _)) => match q.cmp(&mag) {
            Equal if r != 0 => Greater,
            o => o,
        },
    };
    if fneg {
        o.reverse()
    } else {
        o
    }
}

/// Compare float `f` with the signed integer `i`: whole part first, then the sign of what is left.
pub fn cmp_float_i128(f: f64, i: i128) -> Ordering {
    let bits = f.to_bits();
    let fneg = (bits >> 63) == 1;
    if (bits & !(1u64 << 63)) > 0x7ff0_0000_0000_0000 {
        return Greater; // NaN is above everything
    }
    let away = if fneg { Less } else { Greater };
    if (bits >> 52) & 0x7ff == 0x7ff {
        return away;
    }
    let (q, r) = match split(f) {
        Some((q, r, _)) => (q, r),
        None => return away,
    };
    if q > 1u128 << 127 || (q == 1u128 << 127 && !fneg) {
        return away;
    }
    let whole = if fneg { (q as i128).wrapping_neg() } else { q as i128 };
    match whole.cmp(&i) {
        Equal if r != 0 => away,
        o => o,
    }
}

pub fn cmp_floats(a: f64, b: f64) -> Ordering {
    let key = |f: f64| -> i128 {
        let bits = f.to_bits();
        let mag = (bits & !(1u64 << 63)) as i128;
        if mag > 0x7ff0_0000_0000_0000 {
            return i128::MAX; // every NaN is the one top element
        }
        if (bits >> 63) == 1 {
            -mag
        } else {
            mag
        }
    };
    key(a).cmp(&key(b))
}

pub fn sign_mag(n: &Number) -> (bool, u128) {
    match n {
        Number::Uint(x) => (false, *x),
        Number::Int(x) => (*x < 0, x.unsigned_abs()),
        Number::Float(_) => (false, 0),
    }
}

pub fn cmp_ints(a: (bool, u128), b: (bool, u128)) -> Ordering {
    match (a.0, b.0) {
        (false, false) => a.1.cmp(&b.1),
        (true, true) => b.1.cmp(&a.1),
        (false, true) => Greater,
        (true, false) => Less,
    }
}

/// Position on the number line `[-inf, .., 0, .., +inf, NaN]`.
pub fn spec_cmp(a: &Number, b: &Number) -> Ordering {
    match (a, b) {
        (Number::Float(x), Number::Float(y)) => cmp_floats(*x, *y),
        (Number::Float(x), Number::Int(i)) => cmp_float_i128(*x, *i),
        (Number::Int(i), Number::Float(x)) => cmp_float_i128(*x, *i).reverse(),
        (Number::Float(x), i) => {
            let (n, m) = sign_mag(i);
            cmp_float_int(*x, n, m)
        }
        (i, Number::Float(x)) => {
            let (n, m) = sign_mag(i);
            cmp_float_int(*x, n, m).reverse()
        }
        (i, j) => cmp_ints(sign_mag(i), sign_mag(j)),
    }
}

/// The integer within 1e-10 of a finite float: sign and magnitude, `None` when there is none
/// (or the magnitude needs more than 128 bits).
pub fn nearest_int(f: f64) -> Option<(bool, u128)> {
    let bits = f.to_bits();
    if ((bits >> 52) & 0x7ff) == 0x7ff {
        return None;
    }
    let neg = (bits >> 63) == 1;
    let (q, r, k) = split(f)?;
    // r / 2^k < 1e-10, exactly: both sides are multiples of tiny powers of two, r < 2^53
    let scale = |x: u128| -> bool { below_tolerance(x, k) };
    if scale(r) {
        Some((neg && q != 0, q))
    } else if scale((1u128 << k) - r) {
        // q + 1 cannot overflow: a fractional part means q < 2^52
        Some((neg, q + 1))
    } else {
        None
    }
}

/// `x / 2^k < 1e-10` where 1e-10 is the f64 of that name, m * 2^-86 with m = 7737125245533627.
pub fn below_tolerance(x: u128, k: u32) -> bool {
    // x * 2^-k < M * 2^-E
    const BITS: u64 = 0x3ddb7cdfd9d7bdbb; // 1e-10f64.to_bits()
    const M: u128 = ((BITS & ((1 << 52) - 1)) | (1 << 52)) as u128;
    const E: u32 = 1075 - ((BITS >> 52) & 0x7ff) as u32; // 86
    if k <= E {
        // x * 2^(E-k) < M
        let s = E - k;
        s < 60 && x < (1u128 << 60) && (x << s) < M || x == 0
    } else {
        // x < M * 2^(k-E), k <= 100
        x < (M << (k - E))
    }
}

pub fn spec_as_u128(n: &Number) -> Option<u128> {
    match n {
        Number::Uint(x) => Some(*x),
        Number::Int(x) => {
            if *x >= 0 {
                Some(x.unsigned_abs())
            } else {
                None
            }
        }
        Number::Float(f) => {
            let nonneg = (f.to_bits() >> 63) == 0 || f.to_bits() << 1 == 0;
            match nearest_int(*f) {
                Some((_, m)) if nonneg => Some(m),
                _ => None,
            }
        }
    }
}

pub fn to_i128(neg: bool, mag: u128) -> Option<i128> {
    if neg {
        if mag <= 1u128 << 127 {
            Some((mag as i128).wrapping_neg())
        } else {
            None
        }
    } else if mag < 1u128 << 127 {
        Some(mag as i128)
    } else {
        None
    }
}

pub fn spec_as_i128(n: &Number) -> Option<i128> {
    match n {
        Number::Int(x) => Some(*x),
        Number::Uint(x) => to_i128(false, *x),
        Number::Float(f) => nearest_int(*f).and_then(|(s, m)| to_i128(s, m)),
    }
}

/// Bits of the float nearest to `(-1)^neg * mag`, ties to even.
pub fn spec_int_to_f64(neg: bool, mag: u128) -> u64 {
    if mag == 0 {
        return 0;
    }
    let top = 127 - mag.leading_zeros(); // position of the leading one
    let (m, mut e) = if top <= 52 {
        ((mag << (52 - top)) as u64, top)
    } else {
        let s = top - 52;
        let q = (mag >> s) as u64;
        let rem = mag & ((1u128 << s) - 1);
        let half = 1u128 << (s - 1);
        let up = rem > half || (rem == half && q & 1 == 1);
        (q + up as u64, top)
    };
    let mut m = m;
    if m == 1u64 << 53 {
        m >>= 1;
        e += 1;
    }
    ((neg as u64) << 63) | (((e + 1023) as u64) << 52) | (m & ((1u64 << 52) - 1))
}

pub fn spec_as_f64_bits(n: &Number) -> u64 {
    match n {
        Number::Float(f) => f.to_bits(),
        i => {
            let (s, m) = sign_mag(i);
            spec_int_to_f64(s, m)
        }
    }
}
