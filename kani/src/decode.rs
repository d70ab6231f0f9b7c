//! Decoding numbers to Rust's numeric types. What the conversion to the 128-bit integers and to f64 gives is
//! the subject of the n03 harnesses; here every decoding is shown to be exactly that conversion followed by a range check.
#[cfg(not(kani))]
use crate::kani;
use kserd::{ds::IntoIntError, encode::Decoder, Kserd, Number, Value};
use serde::de::{Deserializer, Error, Visitor};
use std::convert::TryFrom;

// What an error says is not part of these obligations.
pub fn no_text(_: &mut dyn std::fmt::Write, _: std::fmt::Arguments<'_>) -> std::fmt::Result {
    Ok(())
}
pub fn no_pad<'a: 'a>(_: &mut std::fmt::Formatter<'a>, _: &str) -> std::fmt::Result {
    Ok(())
}

// The conversions themselves are opaque here: they may give anything, decoding has to respect it.
// (Running natively on a counterexample, the real ones are used.)
// Kani merges allocations with equal initial contents, constants of std included, so these start at values nothing else has.
static mut UINT: Option<u128> = Some(0x5eed_0001_9a7c_11d5_0b57_ac1e_d00d_c0de);
static mut INT: Option<i128> = Some(0x5eed_0002_9a7c_11d5_0b57_ac1e_d00d_c0de);
static mut FLOAT: f64 = 5.907_213_384_4e-211;
pub fn some_uint(_: &Number) -> Result<u128, IntoIntError> {
    unsafe { UINT }.ok_or(IntoIntError)
}
pub fn some_int(_: &Number) -> Result<i128, IntoIntError> {
    unsafe { INT }.ok_or(IntoIntError)
}

pub fn some_float(_: &Number) -> f64 {
    unsafe { FLOAT }
}

fn number() -> Number {
    match kani::any::<u8>() {
        0 => Number::Uint(kani::any()),
        1 => Number::Int(kani::any()),
        _ => Number::Float(kani::any()),
    }
}

macro_rules! decoding {
    ($($m:ident: $t:ident, $d:ident, $v:ident, $some:expr, |$n:ident| $spec:expr;)*) => { $(
        pub mod $m {
            use super::*;
            /// Takes exactly the visit it is asked for; any other one is an error.
            struct Take;
            impl<'de> Visitor<'de> for Take {
                type Value = $t;
                fn expecting(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
                fn $v<E: Error>(self, x: $t) -> Result<$t, E> { Ok(x) }
            }
            // the only loops and recursion are those of dropping structures, shown unreachable
            #[cfg_attr(kani, kani::proof, kani::unwind(1), kani::stub(std::fmt::write, no_text), kani::stub(std::fmt::Formatter::pad, no_pad),
                kani::stub(kserd::Number::as_u128, some_uint), kani::stub(kserd::Number::as_i128, some_int), kani::stub(kserd::Number::as_f64, some_float))]
            pub fn e02_decode() {
                let $n = number();
                #[cfg(kani)]
                unsafe {
                    UINT = kani::any();
                    INT = kani::any();
                    FLOAT = kani::any();
                }
                let want: Option<$t> = $spec;
                match Decoder(Kserd::new(Value::Num($n))).$d(Take) {
                    Ok(x) => assert!(matches!(want, Some(y) if y == x || (y != y && x != x)), "decodes to the number it is"),
                    Err(e) => {
                        assert!(want.is_none(), "refuses only what does not fit");
                        std::mem::forget(e)
                    }
                }
                kani::cover!(want.is_none() == $some, "reach");
            }
        }
    )* };
}
decoding! {
    to_u8: u8, deserialize_u8, visit_u8, true, |n| n.as_u128().ok().and_then(|x| u8::try_from(x).ok());
    to_u16: u16, deserialize_u16, visit_u16, true, |n| n.as_u128().ok().and_then(|x| u16::try_from(x).ok());
    to_u32: u32, deserialize_u32, visit_u32, true, |n| n.as_u128().ok().and_then(|x| u32::try_from(x).ok());
    to_u64: u64, deserialize_u64, visit_u64, true, |n| n.as_u128().ok().and_then(|x| u64::try_from(x).ok());
    to_u128: u128, deserialize_u128, visit_u128, true, |n| n.as_u128().ok().and_then(|x| u128::try_from(x).ok());
    to_i8: i8, deserialize_i8, visit_i8, true, |n| n.as_i128().ok().and_then(|x| i8::try_from(x).ok());
    to_i16: i16, deserialize_i16, visit_i16, true, |n| n.as_i128().ok().and_then(|x| i16::try_from(x).ok());
    to_i32: i32, deserialize_i32, visit_i32, true, |n| n.as_i128().ok().and_then(|x| i32::try_from(x).ok());
    to_i64: i64, deserialize_i64, visit_i64, true, |n| n.as_i128().ok().and_then(|x| i64::try_from(x).ok());
    to_i128: i128, deserialize_i128, visit_i128, true, |n| n.as_i128().ok().and_then(|x| i128::try_from(x).ok());
    to_f64: f64, deserialize_f64, visit_f64, false, |n| Some(n.as_f64());
    to_f32: f32, deserialize_f32, visit_f32, false, |n| Some(n.as_f64() as f32);
}
