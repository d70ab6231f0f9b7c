//! E01-E04: between Rust values and trees.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::num_spec::*;
use crate::p_tree::small_trees;
use kserd::fmt::FormattingConfig;
use kserd::*;
use serde::de::{DeserializeOwned, IgnoredAny};
use serde::{Deserialize, Serialize};
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Debug;

pub trait Rand: Sized {
    fn rand(r: &mut Rng, d: usize) -> Self;
}

macro_rules! rand_ints {
    ($($t:ty)*) => { $( impl Rand for $t {
        fn rand(r: &mut Rng, _: usize) -> Self {
            match r.below(6) {
                0 => <$t>::MAX,
                1 => <$t>::MIN,
                2 => 0,
                3 => (r.below(20) as i64 - 10) as $t,
                _ => (r.u128() >> r.below(128)) as $t,
            }
        }
    } )* };
}
rand_ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

impl Rand for f64 {
    fn rand(r: &mut Rng, _: usize) -> Self {
        let x = match r.below(4) {
            0 => *r.pick(&floats()),
            1 => (r.below(2000) as f64 - 1000.0) / 8.0,
            _ => f64::from_bits(r.next()),
        };
        x + 0.0 // text has one zero
    }
}
impl Rand for f32 {
    fn rand(r: &mut Rng, _: usize) -> Self {
        let x = match r.below(3) {
            0 => *r.pick(&[0.0, -0.0, 1.0, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.1, 16777216.0, 7.038531e-26, -7.038531e-26]),
            _ => f32::from_bits(r.next() as u32),
        };
        x + 0.0
    }
}
impl Rand for bool {
    fn rand(r: &mut Rng, _: usize) -> Self {
        r.below(2) == 0
    }
}
impl Rand for char {
    fn rand(r: &mut Rng, _: usize) -> Self {
        match r.below(4) {
            0 => *r.pick(&['"', '\'', '\\', '\n', '\0', '\r', '\t', ' ', '#']),
            1 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('é'),
            _ => (b' ' + r.below(95) as u8) as char,
        }
    }
}
impl Rand for String {
    fn rand(r: &mut Rng, _: usize) -> Self {
        rand_string(r)
    }
}
impl Rand for () {
    fn rand(_: &mut Rng, _: usize) -> Self {}
}
impl<T: Rand> Rand for Option<T> {
    fn rand(r: &mut Rng, d: usize) -> Self {
        if r.below(3) == 0 {
            None
        } else {
            Some(T::rand(r, d))
        }
    }
}
impl<T: Rand> Rand for Box<T> {
    fn rand(r: &mut Rng, d: usize) -> Self {
        Box::new(T::rand(r, d))
    }
}
impl<T: Rand> Rand for Vec<T> {
    fn rand(r: &mut Rng, d: usize) -> Self {
        (0..if d == 0 { 0 } else { r.below(4) }).map(|_| T::rand(r, d - 1)).collect()
    }
}
impl<T: Rand> Rand for VecDeque<T> {
    fn rand(r: &mut Rng, d: usize) -> Self {
        Vec::rand(r, d).into()
    }
}
impl<T: Rand + Ord> Rand for BTreeSet<T> {
    fn rand(r: &mut Rng, d: usize) -> Self {
        Vec::rand(r, d).into_iter().collect()
    }
}
impl<K: Rand + Ord, V: Rand> Rand for BTreeMap<K, V> {
    fn rand(r: &mut Rng, d: usize) -> Self {
        (0..if d == 0 { 0 } else { r.below(4) }).map(|_| (K::rand(r, d - 1), V::rand(r, d - 1))).collect()
    }
}
impl<T: Rand, E: Rand> Rand for Result<T, E> {
    fn rand(r: &mut Rng, d: usize) -> Self {
        if r.below(2) == 0 {
            Ok(T::rand(r, d))
        } else {
            Err(E::rand(r, d))
        }
    }
}
macro_rules! rand_tuple {
    ($($t:ident)*) => { impl<$($t: Rand),*> Rand for ($($t,)*) {
        fn rand(r: &mut Rng, d: usize) -> Self { ($($t::rand(r, d),)*) }
    } };
}
rand_tuple!(A);
rand_tuple!(A B);
rand_tuple!(A B C);
rand_tuple!(A B C D);
rand_tuple!(A B C D E);
rand_tuple!(A B C D E F);
rand_tuple!(A B C D E F G);
rand_tuple!(A B C D E F G H);
rand_tuple!(A B C D E F G H I);
rand_tuple!(A B C D E F G H I J);
rand_tuple!(A B C D E F G H I J K);
rand_tuple!(A B C D E F G H I J K L);
impl<T: Rand, const N: usize> Rand for [T; N] {
    fn rand(r: &mut Rng, d: usize) -> Self {
        std::array::from_fn(|_| T::rand(r, d))
    }
}

/// Bytes through the byte array route of serde.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<Bytes, E> {
                Ok(Bytes(v.to_vec()))
            }
            fn visit_byte_buf<E: serde::de::Error>(self, v: Vec<u8>) -> Result<Bytes, E> {
                Ok(Bytes(v))
            }
        }
        d.deserialize_byte_buf(V)
    }
}
impl Rand for Bytes {
    fn rand(r: &mut Rng, _: usize) -> Self {
        Bytes((0..r.below(20)).map(|_| r.next() as u8).collect())
    }
}

macro_rules! data {
    ($( #[$m:meta] )* struct $n:ident { $( $( #[$fm:meta] )* $f:ident : $t:ty ),* $(,)? }) => {
        #[derive(Debug, Clone, Serialize, Deserialize)]
        $( #[$m] )*
        pub struct $n { $( $( #[$fm] )* $f: $t ),* }
        impl Rand for $n {
            #[allow(unused)]
            fn rand(r: &mut Rng, d: usize) -> Self { $n { $( $f: <$t as Rand>::rand(r, d) ),* } }
        }
    };
}

data!(struct Empty {});
data!(struct Point { x: f64, y: f32 });
data!(struct Ints { a: u8, b: u16, c: u32, d: u64, e: u128, f: i8, g: i16, h: i32, i: i64, j: i128, k: usize, l: isize });
data!(struct Mixed { flag: bool, ch: char, text: String, unit: (), bytes: Bytes, opt: Option<u16>, opt2: Option<Option<bool>>, boxed: Box<i32> });
data!(struct Nested { list: Vec<Point>, table: BTreeMap<String, Ints>, pair: (Mixed, Vec<String>), arr: [Option<i8>; 3], set: BTreeSet<u32> });
data!(struct Renamed { #[serde(rename = "type")] kind: String, #[serde(rename = "my-field")] my: Option<Vec<u8>>, #[serde(rename = "str")] s: i64 });
data!(struct Tables { a: BTreeMap<i64, Vec<Shape>>, b: BTreeMap<(u8, String), Option<f64>>, c: BTreeMap<bool, ()>, d: BTreeMap<char, Bytes>, e: BTreeMap<Vec<u8>, Shape>, f: BTreeMap<Bytes, BTreeMap<u128, i128>>, g: BTreeMap<Option<u8>, Empty> });

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Marker;
impl Rand for Marker {
    fn rand(_: &mut Rng, _: usize) -> Self {
        Marker
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Newtype(Vec<Option<String>>);
impl Rand for Newtype {
    fn rand(r: &mut Rng, d: usize) -> Self {
        Newtype(Rand::rand(r, d))
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Triple(i32, Newtype, Marker);
impl Rand for Triple {
    fn rand(r: &mut Rng, d: usize) -> Self {
        Triple(Rand::rand(r, d), Rand::rand(r, d), Marker)
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Shape {
    Nothing,
    Circle(f64),
    Line(Point, Point),
    Named { name: String, inner: Option<Box<Shape>>, tags: Vec<Shape> },
    Hollow {},
    List(Vec<i16>),
    Unit(()),
    Single { only: u8 },
    Wrapped((u8, bool)),
}
impl Rand for Shape {
    fn rand(r: &mut Rng, d: usize) -> Self {
        match r.below(9) {
            0 => Shape::Nothing,
            1 => Shape::Circle(Rand::rand(r, d)),
            2 => Shape::Line(Rand::rand(r, d), Rand::rand(r, d)),
            3 if d > 0 => Shape::Named { name: Rand::rand(r, d), inner: Rand::rand(r, d - 1), tags: Rand::rand(r, d - 1) },
            4 => Shape::Hollow {},
            5 => Shape::List(Rand::rand(r, d)),
            6 => Shape::Unit(()),
            7 => Shape::Single { only: Rand::rand(r, d) },
            _ => Shape::Wrapped(Rand::rand(r, d)),
        }
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Everything {
    shape: Shape,
    shapes: Vec<Shape>,
    triple: Triple,
    nested: Nested,
    result: Result<Shape, String>,
    deep: Vec<Vec<Option<Vec<Shape>>>>,
    tables: Tables,
    renamed: Renamed,
    empty: Empty,
}
impl Rand for Everything {
    fn rand(r: &mut Rng, d: usize) -> Self {
        Everything {
            shape: Rand::rand(r, d),
            shapes: Rand::rand(r, d),
            triple: Rand::rand(r, d),
            nested: Rand::rand(r, d),
            result: Rand::rand(r, d),
            deep: Rand::rand(r, d),
            tables: Rand::rand(r, d),
            renamed: Rand::rand(r, d),
            empty: Empty {},
        }
    }
}

/// Types whose names or variants are those the encoding uses for something else.
macro_rules! plain {
    ($( $( #[$m:meta] )* struct $n:ident ( $($t:ty),* ); )*) => { $(
        #[derive(Debug, Clone, Serialize, Deserialize)]
        $( #[$m] )*
        pub struct $n( $($t),* );
        impl Rand for $n {
            #[allow(unused)]
            fn rand(r: &mut Rng, d: usize) -> Self { $n( $( <$t as Rand>::rand(r, d) ),* ) }
        }
    )* };
}
plain! {
    #[serde(rename = "Some")] struct SomePair(u8, String);
    #[serde(rename = "Some")] struct SomeOne(Option<bool>);
    #[serde(rename = "None")] struct NonePair(i16, Vec<u8>);
    #[serde(rename = "None")] struct NoneOne(String);
    #[serde(rename = "Some")] struct SomeNone(Option<u8>, NonePair);
    #[serde(rename = "str")] struct StrPair(String, bool);
    #[serde(rename = "Tuple")] struct Wide(u8, bool, char, String, f64, Option<u8>, Vec<u8>, (), i64, Bytes);
    struct Inner(Newtype);
    struct Outer(Inner);
    struct OfList(Vec<(u8, bool)>);
    struct OfPair((u8, bool));
    struct OfUnit(());
    struct OfTable(BTreeMap<String, u8>);
    struct OfStruct(Point);
    struct OfShape(Shape);
    struct OfArray([Option<Shape>; 2]);
}
#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(rename = "Some")]
pub struct SomeFields {
    some: Option<u8>,
    none: Option<()>,
}
impl Rand for SomeFields {
    fn rand(r: &mut Rng, d: usize) -> Self {
        SomeFields { some: Rand::rand(r, d), none: Rand::rand(r, d) }
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(rename = "None")]
pub struct NoneFields {
    none: Vec<String>,
}
impl Rand for NoneFields {
    fn rand(r: &mut Rng, d: usize) -> Self {
        NoneFields { none: Rand::rand(r, d) }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Maybe {
    None,
    Some(u8),
    Ok(u8, bool),
    Err { none: Option<u8> },
    #[serde(rename = "str")]
    Str(String),
    #[serde(rename = "bool")]
    Bool(bool, bool),
    #[serde(rename = "barr")]
    Barr { barr: Vec<u8> },
    Option(Option<Box<Maybe>>),
    Pair(Box<(Maybe, Maybe)>),
    List(Vec<Maybe>),
    Empty(),
    Table(BTreeMap<u8, Maybe>),
}
impl Rand for Maybe {
    fn rand(r: &mut Rng, d: usize) -> Self {
        match r.below(12) {
            0 => Maybe::None,
            1 => Maybe::Some(Rand::rand(r, d)),
            2 => Maybe::Ok(Rand::rand(r, d), true),
            3 => Maybe::Err { none: Rand::rand(r, d) },
            4 => Maybe::Str(Rand::rand(r, d)),
            5 => Maybe::Bool(true, Rand::rand(r, d)),
            6 => Maybe::Barr { barr: Rand::rand(r, d) },
            7 if d > 0 => Maybe::Option(Rand::rand(r, d - 1)),
            8 if d > 0 => Maybe::Pair(Rand::rand(r, d - 1)),
            9 if d > 0 => Maybe::List(Rand::rand(r, d - 1)),
            10 if d > 0 => Maybe::Table(Rand::rand(r, d - 1)),
            _ => Maybe::Empty(),
        }
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Swapped {
    #[serde(rename = "Some")]
    Unit,
    #[serde(rename = "None")]
    Two(u8, u8),
    Ok,
    #[serde(rename = "Err")]
    Fields {
        #[serde(rename = "Some")]
        some: u8,
        #[serde(rename = "None")]
        none: Option<u8>,
    },
}
impl Rand for Swapped {
    fn rand(r: &mut Rng, d: usize) -> Self {
        match r.below(4) {
            0 => Swapped::Unit,
            1 => Swapped::Two(Rand::rand(r, d), Rand::rand(r, d)),
            2 => Swapped::Ok,
            _ => Swapped::Fields { some: Rand::rand(r, d), none: Rand::rand(r, d) },
        }
    }
}
macro_rules! tagged {
    ($( $( #[$m:meta] )* $n:ident )*) => { $(
        #[derive(Debug, Clone, Serialize, Deserialize)]
        $( #[$m] )*
        pub enum $n {
            Unit,
            Fields { a: u8, b: String, c: Vec<Option<i64>>, d: bool },
            More { e: f64, f: BTreeMap<String, u16> },
        }
        impl Rand for $n {
            fn rand(r: &mut Rng, d: usize) -> Self {
                match r.below(3) {
                    0 => $n::Unit,
                    1 => $n::Fields { a: Rand::rand(r, d), b: Rand::rand(r, d), c: Rand::rand(r, d), d: Rand::rand(r, d) },
                    _ => $n::More { e: Rand::rand(r, d), f: Rand::rand(r, d) },
                }
            }
        }
    )* };
}
tagged! {
    #[serde(tag = "kind")] Internal
    #[serde(tag = "kind", content = "data")] Adjacent
    #[serde(untagged)] Untagged
}
data!(struct Flat { a: u8, #[serde(flatten)] rest: Point, z: String });
data!(struct Skips { a: u8, #[serde(skip_serializing_if = "Option::is_none", default)] b: Option<u8>, #[serde(default)] c: Vec<u8> });

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Generic<T> {
    value: T,
    more: Vec<T>,
    maybe: Option<Box<Generic<T>>>,
}
impl<T: Rand> Rand for Generic<T> {
    fn rand(r: &mut Rng, d: usize) -> Self {
        Generic { value: T::rand(r, d), more: Rand::rand(r, d), maybe: if d == 0 { None } else { Rand::rand(r, d - 1) } }
    }
}

fn round<T: Serialize + DeserializeOwned + Debug>(x: &T) -> Result<(), String> {
    let want = format!("{:?}", x);
    let k = Kserd::enc(x).map_err(|e| format!("encode: {}", e))?;
    let back = |k: Kserd<'static>, how: &str| -> Result<(), String> {
        let s = show(&k);
        let y: T = k.decode().map_err(|e| format!("decode {}: {} from {}", how, e, s))?;
        let got = format!("{:?}", y);
        if got != want {
            return Err(format!("decode {}: {} from {}", how, got, s));
        }
        Ok(())
    };
    back(k.clone(), "of the encoding")?;
    let b = k.mk_brw();
    let y: T = b.clone().decode().map_err(|e| format!("decode of the borrowed encoding: {}", e))?;
    if format!("{:?}", y) != want {
        return Err("decode of the borrowed encoding differs".into());
    }
    for config in [
        FormattingConfig::default(),
        FormattingConfig { id_on_primitives: true, width_limit: None, ..Default::default() },
        FormattingConfig { width_limit: Some(0), ..Default::default() },
    ] {
        let s = k.as_str_with_config(config);
        let p = parse::parse(&s).map_err(|e| format!("text does not parse: {:?} in {:?}", e, s))?;
        back(p.into_owned(), "from text")?;
    }
    Ok(())
}

fn round_all<T: Serialize + DeserializeOwned + Debug + Rand>(c: &mut Ctx, domain: &str, n: u64) {
    let mut r = Rng::new(c.seed, 131 + domain.len() as u64 * 7 + domain.bytes().map(|b| b as u64).sum::<u64>());
    for i in 0..n {
        let x = T::rand(&mut r, (i % 4) as usize);
        c.case("decode(encode(x)) = x", domain, i, || format!("{:?}", x), || round(&x));
    }
}

pub fn e01(c: &mut Ctx) {
    let n = c.by_tier(1500, 8000);
    c.bound(format!("{} seeded values of each of 95 types, nested up to depth 3; directly, borrowed, and through text in three layouts", n));
    macro_rules! all { ($($t:ty),* $(,)?) => { $( round_all::<$t>(c, stringify!($t), n); )* } }
    all!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, char, String, Bytes, (), Empty, Point, Ints, Mixed, Nested, Renamed, Tables, Marker, Newtype, Triple, Shape);
    all!(Option<u8>, Option<Option<()>>, Option<Vec<Option<i32>>>, Option<Shape>, Result<u8, String>, Vec<u8>, Vec<Vec<Vec<i64>>>, Vec<Option<()>>, VecDeque<char>, BTreeSet<String>);
    all!((u8,), (u8, String), ((u8,), (bool, f64)), (i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, bool, char), [u8; 1], [String; 4], [[i8; 2]; 3], [Shape; 2]);
    all!(BTreeMap<String, u8>, BTreeMap<u64, String>, BTreeMap<i128, Shape>, BTreeMap<(i8, char), Vec<Shape>>, BTreeMap<Vec<String>, Option<u8>>, BTreeMap<Option<i64>, BTreeMap<String, Point>>, BTreeMap<bool, BTreeMap<char, ()>>, BTreeMap<Bytes, Bytes>, BTreeMap<String, Everything>);
    all!(Vec<Mixed>, Vec<BTreeMap<String, Shape>>, Everything);
    all!(Internal, Adjacent, Untagged, Flat, Skips, Vec<Internal>, Option<Adjacent>);
    all!(SomePair, SomeOne, NonePair, NoneOne, SomeNone, StrPair, Wide, Inner, Outer, OfList, OfPair, OfUnit, OfTable, OfStruct, OfShape, OfArray, SomeFields, NoneFields, Maybe, Swapped);
    all!(Option<SomePair>, Option<NonePair>, Vec<SomeOne>, Vec<Option<SomeNone>>, Vec<NoneOne>, BTreeMap<String, Swapped>, BTreeMap<u8, Option<Maybe>>, Option<Option<Maybe>>, Option<Option<Option<u8>>>, Generic<u8>, Generic<Option<Maybe>>, Generic<Swapped>, (SomeFields, NoneFields, Option<OfUnit>), Result<SomePair, NonePair>, Result<Result<u8, ()>, Option<Result<(), String>>>);
    // borrowed data
    #[derive(Debug, PartialEq, Serialize, Deserialize)]
    struct View<'a> {
        s: &'a str,
        b: &'a [u8],
        #[serde(borrow)]
        list: Vec<&'a str>,
    }
    let mut r = Rng::new(c.seed, 140);
    for i in 0..n {
        let (s, b, l): (String, Bytes, Vec<String>) = Rand::rand(&mut r, 2);
        c.case("borrowed decode", "View", i, || format!("{:?} {:?} {:?}", s, b, l), || {
            let k = Kserd::new_cntr(vec![
                ("s", Kserd::new_str(&s)),
                ("b", Kserd::new_barr(&b.0)),
                ("list", Kserd::new(Value::Seq(l.iter().map(|x| Kserd::new_string(x.clone())).collect()))),
            ])
            .map_err(|e| e.to_string())?;
            let want = View { s: &s, b: &b.0, list: l.iter().map(|x| x.as_str()).collect() };
            let got: View = k.mk_brw().decode().map_err(|e| e.to_string())?;
            if got != want {
                return Err(format!("{:?}", got));
            }
            if let Ok(v) = k.clone().decode::<(Vec<&str>, u8)>() {
                return Err(format!("{:?}", v));
            }
            let o: HashMap<String, IgnoredAny> = k.decode().map_err(|e| e.to_string())?;
            if o.len() != 3 {
                return Err("fields lost".into());
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- E02

fn check_num(n: &Number) -> Result<(), String> {
    let k = Kserd { id: None, val: Value::Num(*n) };
    macro_rules! ints {
        ($how:ident $($t:ty)*) => { $(
            let want = $how(n).and_then(|x| <$t>::try_from(x).ok());
            let got = k.clone().decode::<$t>().ok();
            if got != want {
                return Err(format!("decoding to {} gives {:?}, expected {:?}", stringify!($t), got, want));
            }
        )* };
    }
    ints!(spec_as_u128 u8 u16 u32 u64 u128 usize);
    ints!(spec_as_i128 i8 i16 i32 i64 i128 isize);
    let f = f64::from_bits(spec_as_f64_bits(n));
    let bits = |x: f64| if x.is_nan() { 1 } else { x.to_bits() };
    match k.clone().decode::<f64>() {
        Ok(x) if bits(x) == bits(f) => (),
        x => return Err(format!("decoding to f64 gives {:?}, expected {:?}", x, f)),
    }
    match k.clone().decode::<f32>() {
        Ok(x) if bits(x as f64) == bits(f as f32 as f64) => (),
        x => return Err(format!("decoding to f32 gives {:?}, expected {:?}", x, f as f32)),
    }
    Ok(())
}

pub fn e02(c: &mut Ctx) {
    let mut v = numbers();
    for b in [7u32, 8, 15, 16, 31, 32, 63, 64, 127] {
        for d in -2i128..=2 {
            let x = (1i128 << (b.min(126))) + d;
            v.push(Number::Uint(x as u128));
            v.push(Number::Int(x));
            v.push(Number::Int(-x));
            v.push(Number::Float(x as f64));
            v.push(Number::Float(-(x as f64)));
            v.push(Number::Uint((1u128 << b).wrapping_add(d as u128)));
        }
    }
    c.bound(format!("{} boundary numbers against every numeric type", v.len()));
    for (i, n) in v.iter().enumerate() {
        c.case("numeric decode", "boundary", i as u64, || show_num(n), || check_num(n));
    }
    let m = c.by_tier(200000, 2000000);
    c.bound(format!("{} seeded numbers against every numeric type", m));
    let mut r = Rng::new(c.seed, 151);
    for i in 0..m {
        let n = if i % 3 == 0 { Number::Float((r.u128() >> r.below(128)) as f64 * [1.0, -1.0][r.below(2)]) } else { rand_number(&mut r) };
        c.case("numeric decode", "random", i, || show_num(&n), || check_num(&n));
    }
}

// ---------------------------------------------------------------- E03

fn check_any(k: &Kserd<'static>) -> Result<(), String> {
    let v = &k.val;
    macro_rules! iff {
        ($t:ty, $p:expr) => {{
            let got = k.clone().decode::<$t>();
            let brw = k.mk_brw().decode::<$t>().is_ok();
            if brw != got.is_ok() {
                return Err(format!("decoding to {}: borrowed {}, owned {}", stringify!($t), brw, got.is_ok()));
            }
            if got.is_ok() != $p {
                return Err(format!("decoding to {} succeeds: {}", stringify!($t), got.is_ok()));
            }
            if let Err(e) = &got {
                if e.to_string().is_empty() {
                    return Err("empty error".into());
                }
            }
            got.ok()
        }};
    }
    let is_num = matches!(v, Value::Num(_));
    let b = iff!(bool, matches!(v, Value::Bool(_)));
    if b != v.bool() {
        return Err("bool".into());
    }
    iff!((), matches!(v, Value::Unit));
    iff!(f64, is_num);
    iff!(f32, is_num);
    // serde reads a string from UTF-8 bytes as well
    fn text<'x>(v: &'x Value) -> Option<&'x str> {
        v.str().or_else(|| v.barr().and_then(|b| std::str::from_utf8(b).ok()))
    }
    let s = iff!(String, text(v).is_some());
    if s.as_deref() != text(v) {
        return Err("string".into());
    }
    let ch = iff!(char, matches!(v, Value::Str(s) if s.chars().count() == 1));
    if ch != v.str().and_then(|s| s.chars().next()).filter(|_| ch.is_some()) {
        return Err("char".into());
    }
    let by = iff!(Bytes, matches!(v, Value::Barr(_)));
    if by.as_ref().map(|x| &x.0[..]) != v.barr() {
        return Err("bytes".into());
    }
    if k.clone().decode::<i64>().is_ok() && !is_num || k.clone().decode::<u8>().is_ok() && !is_num {
        return Err("a number out of something else".into());
    }
    // lists
    let list = match v {
        Value::Tuple(l) | Value::Seq(l) => Some(l),
        _ => None,
    };
    let special = matches!((v, k.id()), (Value::Tuple(l), Some(id)) if l.len() == 1 || (l.is_empty() && id == "None"));
    if !special {
        let got = iff!(Vec<IgnoredAny>, list.is_some());
        if got.map(|x| x.len()) != list.map(|x| x.len()) {
            return Err("list length".into());
        }
        let want = list.and_then(|l| l.iter().map(|x| x.bool()).collect::<Option<Vec<bool>>>());
        if k.clone().decode::<Vec<bool>>().ok() != want {
            return Err("list of bools".into());
        }
        let want = list.and_then(|l| l.iter().map(|x| text(x).map(|s| s.to_string())).collect::<Option<Vec<String>>>());
        if k.clone().decode::<Vec<String>>().ok() != want {
            return Err("list of strings".into());
        }
    }
    if list.map_or(true, |l| l.len() < 2) && k.clone().decode::<(IgnoredAny, IgnoredAny)>().is_ok() {
        return Err("a pair out of fewer than two".into());
    }
    // tables
    if let Value::Map(m) = v {
        let want: Option<BTreeMap<String, bool>> = m.iter().map(|(a, b)| Some((text(a)?.to_string(), b.bool()?))).collect();
        if k.clone().decode::<BTreeMap<String, bool>>().ok() != want {
            return Err("table".into());
        }
        let got: Vec<(String, usize)> = Vec::new();
        let _ = got;
    }
    if let Value::Cntr(m) = v {
        let got: BTreeMap<String, IgnoredAny> = k.clone().decode().map_err(|e| format!("fields: {}", e))?;
        if !got.keys().map(|x| x.as_str()).eq(m.keys().map(|x| x.as_str())) {
            return Err("field names".into());
        }
        // a struct with two of the fields, a missing one, an extra one
        #[derive(Deserialize)]
        struct Ab {
            a: IgnoredAny,
            b: Option<IgnoredAny>,
        }
        let r = k.clone().decode::<Ab>();
        if r.is_ok() && !m.contains_key("a") {
            return Err("struct without its field".into());
        }
        if let Ok(x) = r {
            let _ = (x.a, x.b);
        }
    }
    if matches!(v, Value::Unit | Value::Bool(_) | Value::Num(_) | Value::Str(_) | Value::Barr(_)) {
        if k.clone().decode::<Empty>().is_ok() || k.clone().decode::<BTreeMap<String, IgnoredAny>>().is_ok() || k.clone().decode::<Point>().is_ok() || k.clone().decode::<Marker>().is_ok() {
            return Err("a structure out of a primitive".into());
        }
    }
    // options
    let opt = k.clone().decode::<Option<IgnoredAny>>();
    let none = matches!(v, Value::Unit) || matches!((v, k.id()), (Value::Tuple(l), Some("None")) if l.is_empty());
    let some = matches!((v, k.id()), (Value::Tuple(l), Some("Some")) if l.len() == 1);
    match &opt {
        Ok(None) if none => (),
        Ok(Some(_)) if some => (),
        Err(_) if !none && !some => (),
        x => return Err(format!("option decodes to {:?}", x.as_ref().map(|x| x.is_some()).map_err(|e| e.to_string()))),
    }
    // enums: the variant is named by the identity
    let id = k.id();
    match k.clone().decode::<Shape>() {
        Ok(x) => {
            let ok = match x {
                Shape::Nothing => id == Some("Nothing") && (v.unit() || list.map_or(false, |l| l.is_empty())),
                Shape::Circle(_) => id == Some("Circle"),
                Shape::Line(..) => id == Some("Line"),
                Shape::Named { .. } => id == Some("Named"),
                Shape::Hollow {} => id == Some("Hollow"),
                Shape::List(_) => id == Some("List"),
                Shape::Unit(_) => id == Some("Unit"),
                Shape::Single { .. } => id == Some("Single"),
                Shape::Wrapped(_) => id == Some("Wrapped"),
            };
            if !ok {
                return Err("another variant than the identity names".into());
            }
        }
        Err(e) => {
            let _ = e.to_string();
        }
    }
    k.clone().decode::<IgnoredAny>().map_err(|e| format!("ignored value: {}", e))?;
    // the rest: any outcome but a panic
    macro_rules! any { ($($t:ty),*) => { $( if let Err(e) = k.clone().decode::<$t>() { let _ = e.to_string(); } )* } }
    any!(Everything, Triple, Newtype, Nested, Tables, Renamed, Mixed, Ints, Result<u8, u8>, [u8; 3], (u8, (bool, String)), Option<Option<u8>>, BTreeMap<u8, u8>, BTreeMap<String, Shape>, Vec<Shape>, VecDeque<f32>, &str, &[u8], Box<i128>, u128);
    Ok(())
}

pub fn e03(c: &mut Ctx) {
    let trees = small_trees(c, 161, c.by_tier(5, 5), c.by_tier(30000, 100000));
    c.bound(format!("{} trees, each decoded to 40 types", trees.len()));
    for (i, k) in trees.iter().enumerate() {
        c.case("decode is total", "trees", i as u64, || show(k), || crate::p_text::shrunk(k, &check_any));
    }
    let mut r = Rng::new(c.seed, 162);
    let n = c.by_tier(80000, 300000);
    c.bound(format!("{} encoded values with a part replaced, each decoded to 40 types and to the type encoded", n));
    for i in 0..n {
        let d = 1 + (i % 3) as usize;
        let (k, which) = match i % 4 {
            0 => (Kserd::enc(&Shape::rand(&mut r, d)), 0),
            1 => (Kserd::enc(&Mixed::rand(&mut r, d)), 1),
            2 => (Kserd::enc(&Triple::rand(&mut r, d)), 2),
            _ => (Kserd::enc(&<Option<Vec<Shape>>>::rand(&mut r, d)), 3),
        };
        let mut k = k.unwrap();
        damage(&mut r, &mut k);
        c.case("decode is total", "damaged encodings", i, || show(&k), || {
            let _ = which;
            check_any(&k)
        });
    }
}

/// Replace a random part by something else.
fn damage(r: &mut Rng, k: &mut Kserd<'static>) {
    let deeper = r.below(3) > 0;
    match &mut k.val {
        Value::Tuple(l) | Value::Seq(l) if deeper && !l.is_empty() => {
            let i = r.below(l.len());
            damage(r, &mut l[i])
        }
        Value::Cntr(m) if deeper && !m.is_empty() => {
            let i = r.below(m.len());
            damage(r, m.values_mut().nth(i).unwrap())
        }
        Value::Map(m) if deeper && !m.is_empty() => {
            let i = r.below(m.len());
            damage(r, m.values_mut().nth(i).unwrap())
        }
        Value::Tuple(l) if r.below(2) == 0 => {
            if r.below(2) == 0 {
                l.push(Kserd::new_bool(true));
            } else {
                l.pop();
            }
        }
        _ => match r.below(3) {
            0 => k.id = Some(Kstr::brwed(*r.pick(&["Nothing", "Circle", "Line", "Named", "None", "Some", "Hollow", "X"]))),
            1 => k.id = None,
            _ => k.val = rand_tree(r, TreeCfg { depth: 1, fan: 2, id_pct: 30, odd_names: false }).val,
        },
    }
}

// ---------------------------------------------------------------- E04

fn num<T: Into<Number>>(id: &str, x: T) -> Kserd<'static> {
    Kserd { id: Some(Kstr::owned(id.to_string())), val: Value::Num(x.into()) }
}
fn tup(id: Option<&'static str>, v: Vec<Kserd<'static>>) -> Kserd<'static> {
    Kserd { id: id.map(Kstr::brwed), val: Value::Tuple(v) }
}

/// What the documentation says the tree of a value is; `enc` through serde, else directly.
trait Tree {
    fn tree(&self, enc: bool) -> Kserd<'static>;
}
macro_rules! tree_ints { ($($t:ident $k:ident $w:ident)*) => { $( impl Tree for $t {
    fn tree(&self, enc: bool) -> Kserd<'static> {
        // serde has no pointer sized integers
        let id = match (enc, stringify!($t)) { (true, "usize") => "u64", (true, "isize") => "i64", (_, t) => t };
        Kserd { id: Some(Kstr::owned(id.to_string())), val: Value::Num(Number::$k(*self as $w)) }
    }
} )* } }
tree_ints!(u8 Uint u128 u16 Uint u128 u32 Uint u128 u64 Uint u128 u128 Uint u128 usize Uint u128
    i8 Int i128 i16 Int i128 i32 Int i128 i64 Int i128 i128 Int i128 isize Int i128 f64 Float f64);
impl Tree for f32 {
    fn tree(&self, _: bool) -> Kserd<'static> {
        Kserd { id: Some(Kstr::brwed("f32")), val: Value::Num(Number::Float(*self as f64)) }
    }
}
impl Tree for bool {
    fn tree(&self, _: bool) -> Kserd<'static> {
        Kserd { id: Some(Kstr::brwed("bool")), val: Value::Bool(*self) }
    }
}
impl Tree for () {
    fn tree(&self, _: bool) -> Kserd<'static> {
        Kserd { id: None, val: Value::Unit }
    }
}
impl Tree for char {
    fn tree(&self, _: bool) -> Kserd<'static> {
        Kserd { id: Some(Kstr::brwed("char")), val: Value::Str(Kstr::owned(self.to_string())) }
    }
}
impl Tree for String {
    fn tree(&self, enc: bool) -> Kserd<'static> {
        Kserd { id: Some(Kstr::brwed(if enc { "str" } else { "String" })), val: Value::Str(Kstr::owned(self.clone())) }
    }
}
impl<T: Tree> Tree for Vec<T> {
    fn tree(&self, enc: bool) -> Kserd<'static> {
        Kserd { id: if enc { None } else { Some(Kstr::brwed("Vec")) }, val: Value::Seq(self.iter().map(|x| x.tree(enc)).collect()) }
    }
}
impl<T: Tree, const N: usize> Tree for [T; N] {
    fn tree(&self, enc: bool) -> Kserd<'static> {
        let v = self.iter().map(|x| x.tree(enc)).collect();
        if enc {
            tup(None, v)
        } else {
            Kserd { id: Some(Kstr::brwed("array")), val: Value::Seq(v) }
        }
    }
}
impl<T: Tree> Tree for Option<T> {
    fn tree(&self, enc: bool) -> Kserd<'static> {
        match self {
            None => tup(Some("None"), vec![]),
            Some(x) if enc => tup(Some("Some"), vec![x.tree(enc)]),
            Some(x) => x.tree(enc),
        }
    }
}
impl<T: Tree, E: Tree> Tree for Result<T, E> {
    fn tree(&self, enc: bool) -> Kserd<'static> {
        match self {
            Ok(x) => tup(Some("Ok"), vec![x.tree(enc)]),
            Err(x) => tup(Some("Err"), vec![x.tree(enc)]),
        }
    }
}
impl<T: Tree> Tree for Box<T> {
    fn tree(&self, enc: bool) -> Kserd<'static> {
        (**self).tree(enc)
    }
}
macro_rules! tree_tuple { ($($t:ident $i:tt)*) => { impl<$($t: Tree),*> Tree for ($($t,)*) {
    fn tree(&self, enc: bool) -> Kserd<'static> { tup(None, vec![$(self.$i.tree(enc)),*]) }
} } }
tree_tuple!(A 0);
tree_tuple!(A 0 B 1);
tree_tuple!(A 0 B 1 C 2);
tree_tuple!(A 0 B 1 C 2 D 3);
tree_tuple!(A 0 B 1 C 2 D 3 E 4);
tree_tuple!(A 0 B 1 C 2 D 3 E 4 F 5);
tree_tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6);
tree_tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7);
tree_tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8);
tree_tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9);
tree_tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10);
tree_tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11);

fn cntr(id: &'static str, v: Vec<(&'static str, Kserd<'static>)>) -> Kserd<'static> {
    Kserd { id: Some(Kstr::brwed(id)), val: Value::Cntr(v.into_iter().map(|(n, x)| (Kstr::brwed(n), x)).collect()) }
}
impl Tree for Bytes {
    fn tree(&self, _: bool) -> Kserd<'static> {
        Kserd { id: Some(Kstr::brwed("barr")), val: Value::Barr(Barr::owned(self.0.clone())) }
    }
}
impl Tree for Empty {
    fn tree(&self, _: bool) -> Kserd<'static> {
        cntr("Empty", vec![])
    }
}
impl Tree for Point {
    fn tree(&self, e: bool) -> Kserd<'static> {
        cntr("Point", vec![("x", self.x.tree(e)), ("y", self.y.tree(e))])
    }
}
impl Tree for Marker {
    fn tree(&self, _: bool) -> Kserd<'static> {
        tup(Some("Marker"), vec![])
    }
}
impl Tree for Newtype {
    fn tree(&self, e: bool) -> Kserd<'static> {
        tup(Some("Newtype"), vec![self.0.tree(e)])
    }
}
impl Tree for Triple {
    fn tree(&self, e: bool) -> Kserd<'static> {
        tup(Some("Triple"), vec![self.0.tree(e), self.1.tree(e), self.2.tree(e)])
    }
}
impl Tree for Shape {
    fn tree(&self, e: bool) -> Kserd<'static> {
        match self {
            Shape::Nothing => tup(Some("Nothing"), vec![]),
            Shape::Circle(x) => tup(Some("Circle"), vec![x.tree(e)]),
            Shape::Line(x, y) => tup(Some("Line"), vec![x.tree(e), y.tree(e)]),
            Shape::Named { name, inner, tags } => cntr("Named", vec![("name", name.tree(e)), ("inner", inner.tree(e)), ("tags", tags.tree(e))]),
            Shape::Hollow {} => cntr("Hollow", vec![]),
            Shape::List(x) => tup(Some("List"), vec![x.tree(e)]),
            Shape::Unit(x) => tup(Some("Unit"), vec![x.tree(e)]),
            Shape::Single { only } => cntr("Single", vec![("only", only.tree(e))]),
            Shape::Wrapped(x) => tup(Some("Wrapped"), vec![x.tree(e)]),
        }
    }
}
impl Tree for Mixed {
    fn tree(&self, e: bool) -> Kserd<'static> {
        cntr(
            "Mixed",
            vec![
                ("flag", self.flag.tree(e)),
                ("ch", self.ch.tree(e)),
                ("text", self.text.tree(e)),
                ("unit", self.unit.tree(e)),
                ("bytes", self.bytes.tree(e)),
                ("opt", self.opt.tree(e)),
                ("opt2", self.opt2.tree(e)),
                ("boxed", self.boxed.tree(e)),
            ],
        )
    }
}
impl<K: Tree, V: Tree> Tree for BTreeMap<K, V> {
    fn tree(&self, e: bool) -> Kserd<'static> {
        Kserd { id: None, val: Value::Map(self.iter().map(|(k, v)| (k.tree(e), v.tree(e))).collect()) }
    }
}

/// Which double stands for a single precision number is open, as long as it is that number again.
fn singles(k: Kserd<'static>) -> Kserd<'static> {
    let f32s = k.id() == Some("f32");
    let val = match k.val {
        Value::Num(Number::Float(x)) if f32s => Value::Num(Number::Float(x as f32 as f64)),
        Value::Tuple(v) => Value::Tuple(v.into_iter().map(singles).collect()),
        Value::Seq(v) => Value::Seq(v.into_iter().map(singles).collect()),
        Value::Cntr(m) => Value::Cntr(m.into_iter().map(|(n, x)| (n, singles(x))).collect()),
        Value::Map(m) => Value::Map(m.into_iter().map(|(n, x)| (singles(n), singles(x))).collect()),
        x => x,
    };
    Kserd { id: k.id, val }
}

fn check_conv<T: Tree + Clone + ToKserd<'static> + Serialize>(x: &T) -> Result<(), String> {
    let k = x.clone().into_kserd().map_err(|e| e.to_string())?;
    let w = x.tree(false);
    if !same(&singles(k.clone()), &w) {
        return Err(format!("direct conversion gives {}, expected {}", show(&k), show(&w)));
    }
    check_enc(x)
}
fn check_enc<T: Tree + Serialize>(x: &T) -> Result<(), String> {
    let k = Kserd::enc(x).map_err(|e| e.to_string())?;
    let w = x.tree(true);
    if !same(&singles(k.clone()), &w) {
        return Err(format!("encoding gives {}, expected {}", show(&k), show(&w)));
    }
    Ok(())
}

pub fn e04(c: &mut Ctx) {
    let n = c.by_tier(1500, 8000);
    c.bound(format!("{} seeded values of each of 80 types", n));
    fn go<T: Rand + Debug>(c: &mut Ctx, domain: &str, n: u64, f: impl Fn(&T) -> Result<(), String>) {
        let mut r = Rng::new(c.seed, 171 + domain.len() as u64 * 7 + domain.bytes().map(|b| b as u64).sum::<u64>());
        for i in 0..n {
            let x = T::rand(&mut r, (i % 4) as usize);
            c.case("conversion", domain, i, || format!("{:?}", x), || f(&x));
        }
    }
    macro_rules! all { ($($t:ty),* $(,)?) => { $( go::<$t>(c, stringify!($t), n, check_conv); )* } }
    macro_rules! arr { ($($t:literal)*) => { $( go::<[u16; $t]>(c, concat!("[u16; ", $t, "]"), n / 10, check_conv); )* } }
    macro_rules! enc { ($($t:ty),* $(,)?) => { $( go::<$t>(c, concat!("enc ", stringify!($t)), n, check_enc); )* } }
    all!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, char, String, ());
    all!(Option<u8>, Option<Option<bool>>, Result<u8, String>, Result<(), char>, Vec<u8>, Vec<Vec<i64>>, Vec<Option<()>>, Box<String>, Box<Vec<Box<f64>>>);
    all!((u8,), (u8, bool), (u8, bool, u16), (u8, bool, char, i8), (u8, bool, char, i8, u16), (u8, bool, char, i8, u16, i16), (u8, bool, char, i8, u16, i16, f64));
    all!((u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8));
    all!((String, (bool, Vec<(char,)>)), Vec<(String, Option<Result<u8, [i32; 2]>>)>, [[String; 2]; 3]);
    arr!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
    enc!(Bytes, Empty, Point, Marker, Newtype, Triple, Shape, Mixed, BTreeMap<String, u8>, BTreeMap<i64, Shape>, BTreeMap<(u8, char), Vec<Mixed>>, Vec<Shape>, Option<Shape>, BTreeMap<Bytes, BTreeMap<bool, Triple>>);
    // what cannot be named is refused
    #[derive(Serialize)]
    #[serde(rename = "a b")]
    struct BadStruct {
        x: u8,
    }
    #[derive(Serialize)]
    #[serde(rename = "a<b>")]
    struct BadUnit;
    #[derive(Serialize)]
    enum Bad {
        #[serde(rename = "x.y")]
        A,
        #[serde(rename = "x,y")]
        B(u8),
        #[serde(rename = "x/y")]
        C(u8, u8),
        #[serde(rename = "x=y")]
        D { x: u8 },
    }
    c.case("names", "refused", 0, || "identities that are not valid".into(), || {
        let r = [
            Kserd::enc(&BadStruct { x: 1 }).is_err(),
            Kserd::enc(&BadUnit).is_err(),
            Kserd::enc(&Bad::A).is_err(),
            Kserd::enc(&Bad::B(1)).is_err(),
            Kserd::enc(&Bad::C(1, 2)).is_err(),
            Kserd::enc(&Bad::D { x: 1 }).is_err(),
        ];
        if r != [true; 6] {
            return Err(format!("invalid names are accepted: {:?}", r));
        }
        let _ = num::<u8>;
        Ok(())
    });
}
