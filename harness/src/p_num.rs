//! N01..N04: numbers.
use crate::ctx::{h, Ctx};
use crate::gen::*;
use crate::num_spec::*;
use kserd::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

fn domain(c: &Ctx) -> Vec<Number> {
    let mut v = numbers();
    let mut r = Rng::new(c.seed, 1);
    for _ in 0..c.by_tier(400, 2500) {
        v.push(rand_number(&mut r));
    }
    v
}

pub fn n01(c: &mut Ctx) {
    let v = domain(c);
    c.bound(format!("all ordered pairs of {} numbers (boundary palette plus seeded)", v.len()));
    let n = v.len() as u64;
    for (i, a) in v.iter().enumerate() {
        for (j, b) in v.iter().enumerate() {
            let idx = i as u64 * n + j as u64;
            c.case("number-order-is-exact", "pairs", idx, || format!("{} vs {}", show_num(a), show_num(b)), || {
                let want = spec_cmp(a, b);
                let got = a.cmp(b);
                if got != want {
                    return Err(format!("cmp gave {:?}, exact order is {:?}", got, want));
                }
                if a.partial_cmp(b) != Some(want) {
                    return Err(format!("partial_cmp gave {:?}, exact order is {:?}", a.partial_cmp(b), want));
                }
                if (a == b) != (want == Ordering::Equal) || (a != b) == (want == Ordering::Equal) {
                    return Err(format!("== gave {}, exact order is {:?}", a == b, want));
                }
                if (a < b) != (want == Ordering::Less) || (a <= b) != (want != Ordering::Greater) || (a > b) != (want == Ordering::Greater) || (a >= b) != (want != Ordering::Less) {
                    return Err("comparison operators disagree with the exact order".into());
                }
                if spec_cmp(&(*a).max(*b), &(*b).max(*a)) != Ordering::Equal {
                    return Err("max is not symmetric".into());
                }
                Ok(())
            });
        }
    }
    // comparison with primitive numbers
    macro_rules! prim {
        ($t:ty, $vals:expr, $mk:expr) => {
            for (i, a) in v.iter().enumerate() {
                for (j, p) in $vals.iter().enumerate() {
                    let p: $t = *p;
                    let idx = i as u64 * 4096 + j as u64;
                    c.case("number-vs-primitive", concat!("prim-", stringify!($t)), idx, || format!("{} vs {}{}", show_num(a), p, stringify!($t)), || {
                        let mk: fn($t) -> Number = $mk;
                        let want = spec_cmp(a, &mk(p));
                        if PartialOrd::<$t>::partial_cmp(a, &p) != Some(want) {
                            return Err(format!("partial_cmp gave {:?}, exact order is {:?}", PartialOrd::<$t>::partial_cmp(a, &p), want));
                        }
                        if (*a == p) != (want == Ordering::Equal) {
                            return Err(format!("== gave {}, exact order is {:?}", *a == p, want));
                        }
                        if (*a < p) != (want == Ordering::Less) || (*a > p) != (want == Ordering::Greater) {
                            return Err("operators disagree".into());
                        }
                        Ok(())
                    });
                }
            }
        };
    }
    prim!(u8, [0u8, 1, 2, 100, 255], |x| Number::Uint(x as u128));
    prim!(u16, [0u16, 255, 256, u16::MAX], |x| Number::Uint(x as u128));
    prim!(u32, [0u32, 65536, u32::MAX], |x| Number::Uint(x as u128));
    prim!(u64, [0u64, 1 << 53, (1 << 53) + 1, u64::MAX], |x| Number::Uint(x as u128));
    prim!(usize, [0usize, 7, usize::MAX], |x| Number::Uint(x as u128));
    prim!(u128, [0u128, 1 << 127, u128::MAX], |x| Number::Uint(x));
    prim!(i8, [0i8, -1, 127, -128], |x| Number::Int(x as i128));
    prim!(i16, [0i16, -1, i16::MIN, i16::MAX], |x| Number::Int(x as i128));
    prim!(i32, [0i32, 100, -100, i32::MIN, i32::MAX], |x| Number::Int(x as i128));
    prim!(i64, [0i64, (1 << 53) + 1, i64::MIN, i64::MAX], |x| Number::Int(x as i128));
    prim!(isize, [0isize, -3, isize::MIN, isize::MAX], |x| Number::Int(x as i128));
    prim!(i128, [0i128, i128::MIN, i128::MAX], |x| Number::Int(x));
    prim!(f64, [0.0f64, -0.0, 1.5, 3.0, 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY], |x| Number::Float(x));
    prim!(f32, [0.0f32, -0.0, 1.5, 0.1, 3.0, f32::MAX, f32::INFINITY, f32::NEG_INFINITY], |x| Number::Float(x.to_string().parse().unwrap()));
}

/// Records everything written into it.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        h(&self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(0xff);
    }
}
fn rec<T: Hash>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}

pub fn n02(c: &mut Ctx) {
    let v = domain(c);
    c.bound(format!("all ordered pairs of {} numbers that are equal by exact value", v.len()));
    let n = v.len() as u64;
    let mut sorted: Vec<usize> = (0..v.len()).collect();
    sorted.sort_by(|&i, &j| spec_cmp(&v[i], &v[j]));
    let mut s = 0;
    while s < sorted.len() {
        let mut e = s + 1;
        while e < sorted.len() && spec_cmp(&v[sorted[s]], &v[sorted[e]]) == Ordering::Equal {
            e += 1;
        }
        for &i in &sorted[s..e] {
            for &j in &sorted[s..e] {
                let (a, b) = (&v[i], &v[j]);
                c.case("equal-numbers-hash-equal", "pairs", i as u64 * n + j as u64, || format!("{} and {}", show_num(a), show_num(b)), || {
                    if rec(a) != rec(b) {
                        return Err(format!("equal by value but hashed {:?} and {:?}", rec(a), rec(b)));
                    }
                    let mut set = std::collections::HashSet::new();
                    set.insert(*a);
                    if !set.contains(b) {
                        return Err("a HashSet holding one does not contain the other".into());
                    }
                    Ok(())
                });
            }
        }
        s = e;
    }
    // whatever == calls equal must hash equal, also when == itself were to change
    for (i, a) in v.iter().enumerate() {
        for (j, b) in v.iter().enumerate() {
            if a == b {
                c.case("eq-implies-hash-eq", "eqpairs", i as u64 * n + j as u64, || format!("{} and {}", show_num(a), show_num(b)), || {
                    if rec(a) != rec(b) {
                        return Err("a == b but hashes differ".into());
                    }
                    Ok(())
                });
            }
        }
    }
    // strings and byte arrays: owned and borrowed forms
    for (i, s) in STRS.iter().enumerate() {
        c.case("owned-borrowed-hash-equal", "strs", i as u64, || format!("{:?}", s), || {
            let (a, b) = (Kstr::brwed(s), Kstr::owned(s.to_string()));
            if a != b || rec(&a) != rec(&b) {
                return Err("borrowed and owned string differ in == or hash".into());
            }
            let (a, b) = (Barr::brwed(s.as_bytes()), Barr::owned(s.as_bytes().to_vec()));
            if a != b || rec(&a) != rec(&b) {
                return Err("borrowed and owned bytes differ in == or hash".into());
            }
            // a map keyed by Kstr can be asked with the plain str
            let mut m = std::collections::HashMap::new();
            m.insert(Kstr::owned(s.to_string()), 1);
            if m.get(*s) != Some(&1) {
                return Err("Kstr key not found by its str".into());
            }
            Ok(())
        });
    }
}

pub fn n03(c: &mut Ctx) {
    let v = domain(c);
    c.bound(format!("{} numbers; every primitive conversion over its boundary values and seeded values", v.len()));
    for (i, a) in v.iter().enumerate() {
        c.case("as-u128-exact-or-refused", "nums", i as u64, || show_num(a), || {
            let (g, w) = (a.as_u128().ok(), spec_as_u128(a));
            if g != w {
                return Err(format!("as_u128 gave {:?}, expected {:?}", g, w));
            }
            let k = Kserd::new(Value::Num(*a));
            if k.uint() != w {
                return Err(format!("uint() gave {:?}, expected {:?}", k.uint(), w));
            }
            Ok(())
        });
        c.case("as-i128-exact-or-refused", "nums-i", i as u64, || show_num(a), || {
            let (g, w) = (a.as_i128().ok(), spec_as_i128(a));
            if g != w {
                return Err(format!("as_i128 gave {:?}, expected {:?}", g, w));
            }
            let k = Kserd::new(Value::Num(*a));
            if k.int() != w {
                return Err(format!("int() gave {:?}, expected {:?}", k.int(), w));
            }
            Ok(())
        });
        c.case("as-f64-nearest", "nums-f", i as u64, || show_num(a), || {
            let (g, w) = (a.as_f64(), f64::from_bits(spec_as_f64_bits(a)));
            if g.to_bits() != w.to_bits() && !(g.is_nan() && w.is_nan()) {
                return Err(format!("as_f64 gave {:?}, nearest is {:?}", g, w));
            }
            let k = Kserd::new(Value::Num(*a));
            if k.float().map(f64::to_bits) != Some(g.to_bits()) {
                return Err("float() differs from as_f64".into());
            }
            Ok(())
        });
    }
    let mut r = Rng::new(c.seed, 3);
    macro_rules! from {
        ($t:ty, $want:expr) => {
            let mut vals: Vec<$t> = vec![0 as $t, 1 as $t, 100 as $t, <$t>::MAX, <$t>::MIN, <$t>::MAX - 1 as $t];
            for _ in 0..40 {
                vals.push(r.u128() as $t);
                vals.push((r.u128() >> r.below(128)) as $t);
            }
            for (i, p) in vals.iter().enumerate() {
                let p = *p;
                c.case("from-primitive-exact", concat!("from-", stringify!($t)), i as u64, || format!("{:?}{}", p, stringify!($t)), || {
                    let f: fn($t) -> Number = $want;
                    let w = f(p);
                    let k = Kserd::new_num(p);
                    if !same_num(&Number::from(p), &w) {
                        return Err(format!("From gave {}, expected {}", show_num(&Number::from(p)), show_num(&w)));
                    }
                    if !same_val(&k.val, &Value::Num(w)) || k.id() != Some(stringify!($t)) {
                        return Err(format!("new_num gave {:?}", k));
                    }
                    Ok(())
                });
            }
        };
    }
    from!(u8, |x| Number::Uint(x as u128));
    from!(u16, |x| Number::Uint(x as u128));
    from!(u32, |x| Number::Uint(x as u128));
    from!(u64, |x| Number::Uint(x as u128));
    from!(usize, |x| Number::Uint(x as u128));
    from!(u128, |x| Number::Uint(x));
    from!(i8, |x| Number::Int(x as i128));
    from!(i16, |x| Number::Int(x as i128));
    from!(i32, |x| Number::Int(x as i128));
    from!(i64, |x| Number::Int(x as i128));
    from!(isize, |x| Number::Int(x as i128));
    from!(i128, |x| Number::Int(x));
    from!(f64, |x| Number::Float(x));
    // f32 goes through its shortest decimal text
    let mut f32s: Vec<f32> = vec![0.0, -0.0, 0.1, 1.1, 3.14, 1e-45, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, 16777217.0, 7.038531e-26];
    for _ in 0..c.by_tier(200000, 2000000) {
        let x = f32::from_bits(r.next() as u32);
        if !x.is_nan() {
            f32s.push(x);
        }
    }
    for (i, x) in f32s.iter().enumerate() {
        c.case("from-f32-shortest", "from-f32", i as u64, || format!("{:?}f32", x), || {
            let w: f64 = format!("{:e}", x).parse().unwrap_or(*x as f64);
            let w = if w as f32 == *x { w } else { *x as f64 };
            let Number::Float(g) = Number::from(*x) else {
                return Err("f32 did not become a Float".into());
            };
            if g.to_bits() != w.to_bits() {
                return Err(format!("f32 {:?} became {:?}, expected {:?}", x, g, w));
            }
            if (g as f32).to_bits() != x.to_bits() {
                return Err(format!("f32 {:?} became {:?} which is not the same f32", x, g));
            }
            Ok(())
        });
    }
    c.case("from-f32-nan", "from-f32-nan", 0, || "f32::NAN".into(), || match Number::from(f32::NAN) {
        Number::Float(g) if g.is_nan() => Ok(()),
        n => Err(format!("NaN became {}", show_num(&n))),
    });
}

pub fn n04(c: &mut Ctx) {
    let mut v = domain(c);
    let mut r = Rng::new(c.seed, 4);
    for _ in 0..c.by_tier(200000, 2000000) {
        v.push(rand_number(&mut r));
    }
    c.bound(format!("{} numbers; number texts over the alphabet 0 1 9 _ - . e up to length {}", v.len(), c.by_tier(7, 8)));
    for (i, a) in v.iter().enumerate() {
        c.case("number-text-reads-back", "nums", i as u64, || show_num(a), || {
            let s = a.to_string();
            let b: Number = match s.parse() {
                Ok(b) => b,
                Err(_) => return Err(format!("printed as {:?} which does not parse", s)),
            };
            if spec_cmp(a, &b) != Ordering::Equal {
                return Err(format!("printed as {:?} which parses to {}", s, show_num(&b)));
            }
            if spec_cmp(a, &Number::Uint(0)) != Ordering::Equal && b.to_string() != s {
                return Err(format!("printed as {:?}, read back and printed as {:?}", s, b.to_string()));
            }
            if !matches!(a, Number::Float(_)) && !s.bytes().all(|b| b.is_ascii_digit() || b == b'-') {
                return Err(format!("integer printed as {:?}", s));
            }
            Ok(())
        });
    }
    // texts: integers with optional underscores between digits, read exactly
    let alpha: &[u8] = b"019_-.e";
    let max = c.by_tier(7, 8);
    let mut idx = 0u64;
    for len in 0..=max {
        let total = (alpha.len() as u64).pow(len as u32);
        for t in 0..total {
            let mut x = t;
            let mut s = String::new();
            for _ in 0..len {
                s.push(alpha[(x % alpha.len() as u64) as usize] as char);
                x /= alpha.len() as u64;
            }
            idx += 1;
            c.case("number-text-meaning", "texts", idx, || format!("{:?}", s), || check_text(&s));
        }
    }
    let mut k = 0;
    for s in ["340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "1_000_000", "-1_0", "_1", "1_", "1__0", "-_1", "-", "_", "+1", "0x10", " 1", "1 ", "inf", "-inf", "nan", "NaN", "NAN", "Infinity", "1e5", "1e-5", "1.5e300", "1E5", "00", "007", "-0", "-0.0", "0.0", ".5", "5.", "1e", "e1", "1.2.3", "1-2", "--1", "١"] {
        k += 1;
        c.case("number-text-meaning", "texts-fixed", k, || format!("{:?}", s), || check_text(s));
    }
}

/// What a text must mean: a (possibly negative) run of digits with single underscores strictly
/// between them, inside 128 bits, is that integer; a text with any other character is what the
/// standard library reads as f64; nothing else is a number.
fn check_text(s: &str) -> Result<(), String> {
    let got: Option<Number> = s.parse().ok();
    let (neg, body) = match s.strip_prefix('-') {
        Some(b) => (true, b),
        None => (false, s),
    };
    let int_like = body.bytes().all(|b| b.is_ascii_digit() || b == b'_');
    if s.is_empty() {
        return if got.is_none() { Ok(()) } else { Err("empty text was accepted".into()) };
    }
    if int_like {
        let clean = !body.is_empty() && !body.starts_with('_') && !body.ends_with('_');
        let digits: String = body.chars().filter(|c| *c != '_').collect();
        let want = if clean && !digits.is_empty() {
            if neg {
                format!("-{}", digits).parse::<i128>().ok().map(Number::Int)
            } else {
                digits.parse::<u128>().ok().map(Number::Uint)
            }
        } else {
            None
        };
        return match (&got, &want) {
            (Some(g), Some(w)) if same_num(g, w) => Ok(()),
            (None, None) => Ok(()),
            // stray leading, trailing or lone underscores: refused or the digits' value
            (Some(g), None) if !clean => {
                let d = digits.clone();
                let w = if neg { format!("-{}", d).parse::<i128>().ok().map(Number::Int) } else { d.parse::<u128>().ok().map(Number::Uint) };
                match w {
                    Some(w) if same_num(g, &w) => Ok(()),
                    _ => Err(format!("read as {}", show_num(g))),
                }
            }
            _ => Err(format!("read as {:?}, expected {:?}", got.as_ref().map(show_num), want.as_ref().map(show_num))),
        };
    }
    let want: Option<f64> = s.parse().ok();
    match (&got, want) {
        (Some(Number::Float(g)), Some(w)) if g.to_bits() == w.to_bits() || (g.is_nan() && w.is_nan()) => Ok(()),
        (None, None) => Ok(()),
        // text forms on which float readers differ are only required not to be misread
        (None, Some(_)) if s.bytes().any(|b| b == b'+' || b.is_ascii_alphabetic() && b != b'e') => Ok(()),
        _ => Err(format!("read as {:?}, expected {:?}", got.as_ref().map(show_num), want)),
    }
}
