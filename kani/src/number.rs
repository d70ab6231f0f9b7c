//! Number: order, equality, hashing, conversions against the exact reference in `num_spec`.
#[cfg(not(kani))]
use crate::kani;
use crate::num_spec::*;
use kserd::Number;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Order, equality and partial order of one pair agree with the exact number line.
fn cmp_is_exact(a: Number, b: Number) {
    assert!(a.cmp(&b) == spec_cmp(&a, &b), "cmp is the position on the number line");
    kani::cover!(true, "reach");
}
fn eq_is_exact(a: Number, b: Number) {
    assert!((a == b) == (spec_cmp(&a, &b) == Ordering::Equal), "== is equality on the number line");
    kani::cover!(true, "reach");
}
fn partial_cmp_is_exact(a: Number, b: Number) {
    assert!(a.partial_cmp(&b) == Some(spec_cmp(&a, &b)), "partial_cmp is the position on the number line");
    kani::cover!(true, "reach");
}
/// Floats by sign and range of the exponent.
fn part(neg: bool, lo: u64, hi: u64) -> f64 {
    let f: f64 = kani::any();
    let e = (f.to_bits() >> 52) & 0x7ff;
    kani::assume(e >= lo && e < hi && (f.to_bits() >> 63 == 1) == neg);
    f
}
macro_rules! laws {
    ($($m:ident: $a:expr, $b:expr;)*) => { $(
        pub mod $m {
            use super::*;
            #[cfg_attr(kani, kani::proof)] pub fn n01_cmp() { cmp_is_exact($a, $b) }
            #[cfg_attr(kani, kani::proof)] pub fn n01_eq() { eq_is_exact($a, $b) }
            #[cfg_attr(kani, kani::proof)] pub fn n01_partial_cmp() { partial_cmp_is_exact($a, $b) }
        }
    )* };
}
laws! {
    uint_uint: Number::Uint(kani::any()), Number::Uint(kani::any());
    uint_int: Number::Uint(kani::any()), Number::Int(kani::any());
    int_uint: Number::Int(kani::any()), Number::Uint(kani::any());
    int_int: Number::Int(kani::any()), Number::Int(kani::any());
    float_float: Number::Float(kani::any()), Number::Float(kani::any());
}
macro_rules! float_parts {
    ($($m:ident: $neg:expr, $lo:expr, $hi:expr;)*) => {
        $( pub mod $m {
            use super::*;
            laws! {
                float_uint: Number::Float(part($neg, $lo, $hi)), Number::Uint(kani::any());
                uint_float: Number::Uint(kani::any()), Number::Float(part($neg, $lo, $hi));
                float_int: Number::Float(part($neg, $lo, $hi)), Number::Int(kani::any());
                int_float: Number::Int(kani::any()), Number::Float(part($neg, $lo, $hi));
            }
        } )*
        /// The parts leave out no float.
        #[cfg_attr(kani, kani::proof)]
        pub fn n01_parts_cover_all_floats() {
            let f: f64 = kani::any();
            let (e, s) = ((f.to_bits() >> 52) & 0x7ff, f.to_bits() >> 63 == 1);
            assert!(false $(|| (e >= $lo && e < $hi && s == $neg))*, "parts cover all floats");
            kani::cover!(true, "reach");
        }
    };
}
float_parts! {
    pos_frac: false, 0, 1023;
    pos_mixed: false, 1023, 1076;
    pos_whole: false, 1076, 1150;
    pos_huge: false, 1150, 2048;
    neg_frac: true, 0, 1023;
    neg_mixed: true, 1023, 1076;
    neg_whole: true, 1076, 1150;
    neg_huge: true, 1150, 2048;
}

// Comparisons with Rust's own integers and f64: the primitive stands for its exact value.
macro_rules! prims {
    ($($t:ident $m:ident: $v:ident, $w:ty;)*) => { $(
        pub mod $m {
            use super::*;
            fn chk(a: Number) {
                let p: $t = kani::any();
                let s = spec_cmp(&a, &Number::$v(p as $w));
                assert!((a == p) == (s == Ordering::Equal), "Number == primitive is exact");
                assert!(a.partial_cmp(&p) == Some(s), "Number <=> primitive is exact");
                kani::cover!(true, "reach");
            }
            #[cfg_attr(kani, kani::proof)] pub fn n01_prim_uint() { chk(Number::Uint(kani::any())) }
            #[cfg_attr(kani, kani::proof)] pub fn n01_prim_int() { chk(Number::Int(kani::any())) }
            #[cfg_attr(kani, kani::proof)] pub fn n03_from() {
                let p: $t = kani::any();
                let n = Number::from(p);
                let ok = match (n, Number::$v(p as $w)) {
                    (Number::Uint(x), Number::Uint(y)) => x == y,
                    (Number::Int(x), Number::Int(y)) => x == y,
                    (Number::Float(x), Number::Float(y)) => x.to_bits() == y.to_bits(),
                    _ => false,
                };
                assert!(ok, "From keeps sign class and exact value");
                kani::cover!(true, "reach");
            }
        }
    )* };
}
prims! {
    u8 p_u8: Uint, u128;
    u16 p_u16: Uint, u128;
    u32 p_u32: Uint, u128;
    u64 p_u64: Uint, u128;
    u128 p_u128: Uint, u128;
    usize p_usize: Uint, u128;
    i8 p_i8: Int, i128;
    i16 p_i16: Int, i128;
    i32 p_i32: Int, i128;
    i64 p_i64: Int, i128;
    i128 p_i128: Int, i128;
    isize p_isize: Int, i128;
}
#[cfg_attr(kani, kani::proof)]
pub fn n01_prim_f64_float() {
    let (a, p): (f64, f64) = (kani::any(), kani::any());
    let s = spec_cmp(&Number::Float(a), &Number::Float(p));
    assert!((Number::Float(a) == p) == (s == Ordering::Equal));
    assert!(Number::Float(a).partial_cmp(&p) == Some(s));
    kani::cover!(true, "reach");
}
#[cfg_attr(kani, kani::proof)]
pub fn n03_from_f64() {
    let p: f64 = kani::any();
    assert!(matches!(Number::from(p), Number::Float(x) if x.to_bits() == p.to_bits()));
    kani::cover!(true, "reach");
}

// Hashing: the recorder keeps everything a hasher can be told, in order.
#[derive(PartialEq)]
struct Rec {
    acc: u128,
    n: u32,
}
impl Rec {
    fn put(&mut self, tag: u128, x: u128) {
        // one value of at most 128 bits is what the code writes; anything more is folded
        self.acc = self.acc.rotate_left(37) ^ x ^ (tag << 120);
        self.n += 1;
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.acc as u64
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.put(1, *x as u128);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.put(2, x as u128)
    }
    fn write_u32(&mut self, x: u32) {
        self.put(3, x as u128)
    }
    fn write_u64(&mut self, x: u64) {
        self.put(4, x as u128)
    }
    fn write_u128(&mut self, x: u128) {
        self.put(5, x)
    }
    fn write_i128(&mut self, x: i128) {
        self.put(6, x as u128)
    }
    fn write_isize(&mut self, x: isize) {
        self.put(7, x as u128)
    }
    fn write_usize(&mut self, x: usize) {
        self.put(8, x as u128)
    }
}
fn rec(a: &Number) -> Rec {
    let mut r = Rec { acc: 0, n: 0 };
    a.hash(&mut r);
    r
}
macro_rules! hashes {
    ($($m:ident: $a:expr, $b:expr;)*) => { $(
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind(20))]
        pub fn $m() {
            let (a, b): (Number, Number) = ($a, $b);
            kani::assume(spec_cmp(&a, &b) == Ordering::Equal);
            assert!(rec(&a) == rec(&b), "equal numbers feed a hasher the same data");
            kani::cover!(true, "reach");
        }
    )* };
}
hashes! {
    n02_uint_uint: Number::Uint(kani::any()), Number::Uint(kani::any());
    n02_uint_int: Number::Uint(kani::any()), Number::Int(kani::any());
    n02_int_int: Number::Int(kani::any()), Number::Int(kani::any());
    n02_float_float: Number::Float(kani::any()), Number::Float(kani::any());
    n02_float_uint: Number::Float(kani::any()), Number::Uint(kani::any());
    n02_float_int: Number::Float(kani::any()), Number::Int(kani::any());
}

// Conversions.
macro_rules! convs {
    ($($m:ident: $a:expr;)*) => { $(
        pub mod $m {
            use super::*;
            #[cfg_attr(kani, kani::proof)] pub fn n03_as_u128() {
                let a: Number = $a;
                assert!(a.as_u128().ok() == spec_as_u128(&a), "as_u128 is the exact integer or refuses");
                kani::cover!(true, "reach");
            }
            #[cfg_attr(kani, kani::proof)] pub fn n03_as_i128() {
                let a: Number = $a;
                assert!(a.as_i128().ok() == spec_as_i128(&a), "as_i128 is the exact integer or refuses");
                kani::cover!(true, "reach");
            }
            #[cfg_attr(kani, kani::proof)] pub fn n03_as_f64() {
                let a: Number = $a;
                assert!(a.as_f64().to_bits() == spec_as_f64_bits(&a), "as_f64 is the nearest float");
                kani::cover!(true, "reach");
            }
        }
    )* };
}
convs! {
    conv_uint: Number::Uint(kani::any());
    conv_int: Number::Int(kani::any());
    conv_pos_frac: Number::Float(part(false, 0, 1023));
    conv_pos_mixed: Number::Float(part(false, 1023, 1076));
    conv_pos_whole: Number::Float(part(false, 1076, 1150));
    conv_pos_huge: Number::Float(part(false, 1150, 2048));
    conv_neg_frac: Number::Float(part(true, 0, 1023));
    conv_neg_mixed: Number::Float(part(true, 1023, 1076));
    conv_neg_whole: Number::Float(part(true, 1076, 1150));
    conv_neg_huge: Number::Float(part(true, 1150, 2048));
}
