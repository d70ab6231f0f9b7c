//! Bounded domains: palettes, exhaustive small trees, seeded larger trees.
use kserd::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, salt: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ salt.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn pick<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
}

pub fn uints() -> Vec<u128> {
    let mut v = vec![0u128, 1, 2, 3, 5, 7, 9, 10, 42, 99, 100, 101, 1000, 123456789];
    for k in [7u32, 8, 15, 16, 24, 31, 32, 52, 53, 54, 63, 64, 65, 100, 112, 113, 126, 127] {
        let p = 1u128 << k;
        v.extend([p - 2, p - 1, p, p + 1, p + 2]);
    }
    v.extend([u128::MAX - 1, u128::MAX, 10u128.pow(16), 10u128.pow(22), 10u128.pow(23), 10u128.pow(38)]);
    v.sort();
    v.dedup();
    v
}
pub fn ints() -> Vec<i128> {
    let mut v: Vec<i128> = Vec::new();
    for u in uints() {
        if u <= i128::MAX as u128 {
            v.push(u as i128);
            v.push(-(u as i128));
        }
    }
    v.extend([i128::MIN, i128::MIN + 1, i128::MAX, i128::MAX - 1]);
    v.sort();
    v.dedup();
    v
}
pub fn next_up(x: f64) -> f64 {
    f64::from_bits(x.to_bits() + 1)
}
pub fn next_dn(x: f64) -> f64 {
    f64::from_bits(x.to_bits() - 1)
}
pub fn floats() -> Vec<f64> {
    let mut v = vec![
        0.0, 0.1, 0.25, 0.5, 0.75, 0.9999999999, 1.0, 1.5, 2.0, 2.5, 3.0, 3.14, 10.0, 100.0,
        101.0, 1e-5, 1e-7, 1e-10, 1e-11, 5e-11, 1.0 + 5e-11, 1.0 - 5e-11, 3.0 + 5e-11, 3.0 - 5e-11,
        3.0 + 2e-10, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 1e38, 1e39, 1e100, 1e300, 1e308,
        123456.789, 0.30000000000000004, f64::MAX, f64::MIN_POSITIVE, f64::from_bits(1),
        f64::from_bits(0xfffffffffffff), f32::MAX as f64, 16777216.0, 16777217.0, 255.0, 256.0,
        127.0, 128.0, 65535.0, 65536.0, 4294967295.0, 4294967296.0,
    ];
    for k in [52i32, 53, 54, 62, 63, 64, 100, 112, 113, 126, 127, 128, 129, 200] {
        let p = 2f64.powi(k);
        v.extend([next_dn(p), p, next_up(p)]);
    }
    let neg: Vec<f64> = v.iter().map(|x| -x).collect();
    v.extend(neg);
    v.extend([f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::from_bits(0x7ff8000000000123)]);
    v
}
pub fn numbers() -> Vec<Number> {
    let mut v: Vec<Number> = uints().into_iter().map(Number::Uint).collect();
    v.extend(ints().into_iter().map(Number::Int));
    v.extend(floats().into_iter().map(Number::Float));
    v
}
pub fn rand_number(r: &mut Rng) -> Number {
    match r.below(8) {
        0 => Number::Uint(r.u128() >> r.below(128)),
        1 => Number::Int((r.u128() as i128) >> r.below(127)),
        2 => Number::Float(f64::from_bits(r.next())),
        3 => Number::Float((r.next() >> r.below(64)) as f64 / (1u64 << r.below(20)) as f64),
        4 => Number::Float((r.u128() >> r.below(128)) as f64),
        5 => Number::Float(-((r.u128() >> r.below(128)) as f64)),
        6 => Number::Float(next_up((r.u128() >> r.below(128)) as f64)),
        _ => Number::Uint(r.below(300) as u128),
    }
}
pub fn show_num(n: &Number) -> String {
    match n {
        Number::Uint(x) => format!("Uint({})", x),
        Number::Int(x) => format!("Int({})", x),
        Number::Float(x) => format!("Float({:?} bits={:#x})", x, x.to_bits()),
    }
}

/// String contents used in trees; chosen around what the text format treats specially.
pub const STRS: &[&str] = &[
    "", "a", "Hello, world!", "say \"hi\"", "it's", "\"'", "\"'#", "\"'#`", "\"'#`=", "line1\nline2",
    "x = 1", "\"x = 1\"", "[a]", "(a, b)", "{ a: b }", ":id", "<id> 1", "é", "日本 語", "\t", "\\", "true", "None",
    "1", "-1.5", "nan", "str", "\"'#`=|*^!%~&", "  ", "a=b", "\"=\"", "'=\"", "\r\n", "#", "`\"'", "b91'x'", "\"'=", "\"\n'", "\"',", "\"' b",
];
pub const IDS: &[&str] = &["A", "Foo", "my-id", "_x", "Some", "None", "i32", "str", "a1_b-c", "T", "true-", "falsey", "nan", "inf", "b91", "NaN", "e5", "x-", "_"];
pub const NAMES: &[&str] = &["a", "b", "field", "my-field", "_x", "n1", "true", "str", "nan", "strx", "b91", "_", "false-"];

pub fn rand_string(r: &mut Rng) -> String {
    if r.below(3) > 0 {
        return r.pick(STRS).to_string();
    }
    let alpha: Vec<char> = "ab \"'#`=|*^!%~&_\\/:<>(){}[],.\n\té0-".chars().collect();
    let n = r.below(8);
    (0..n).map(|_| *r.pick(&alpha)).collect()
}

pub fn leaf_palette() -> Vec<Value<'static>> {
    vec![
        Value::Unit,
        Value::Bool(true),
        Value::Num(Number::Uint(1)),
        Value::Num(Number::Float(1.5)),
        Value::Str(Kstr::owned("s".into())),
        Value::Barr(Barr::owned(vec![1, 2])),
    ]
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Shape {
    Leaf,
    Tuple(Vec<Shape>),
    Seq(Vec<Shape>),
    Cntr(Vec<Shape>),
    Map(Vec<(Shape, Shape)>),
}

/// All shapes with exactly `n` nodes, every kind of branching.
pub fn shapes(n: usize) -> Vec<Shape> {
    let mut memo: Vec<Vec<Shape>> = vec![vec![]];
    for k in 1..=n {
        let mut out = Vec::new();
        if k == 1 {
            out.push(Shape::Leaf);
        }
        for ch in lists(k - 1, &memo) {
            out.push(Shape::Tuple(ch.clone()));
            out.push(Shape::Seq(ch.clone()));
            out.push(Shape::Cntr(ch.clone()));
            if ch.len() % 2 == 0 {
                out.push(Shape::Map(
                    ch.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect(),
                ));
            }
        }
        memo.push(out);
    }
    memo.pop().unwrap()
}
fn lists(total: usize, memo: &[Vec<Shape>]) -> Vec<Vec<Shape>> {
    if total == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for first in 1..=total {
        for s in &memo[first] {
            for rest in lists(total - first, memo) {
                let mut v = vec![s.clone()];
                v.extend(rest);
                out.push(v);
            }
        }
    }
    out
}
pub fn shapes_upto(n: usize) -> Vec<Shape> {
    (1..=n).flat_map(shapes).collect()
}

/// Realise a shape. Leaves take values in turn from a palette starting at `rot`, so keys of maps
/// stay distinct; identities are attached according to `ids` (0 none, 1 all, 2 alternating).
pub struct Build {
    pub counter: usize,
    pub rot: usize,
    pub ids: u8,
}
impl Build {
    pub fn id(&mut self) -> Option<Kstr<'static>> {
        let c = self.counter;
        match self.ids {
            0 => None,
            1 => Some(Kstr::brwed(IDS[c % IDS.len()])),
            _ => {
                if c % 2 == 0 {
                    None
                } else {
                    Some(Kstr::brwed(IDS[c % IDS.len()]))
                }
            }
        }
    }
    pub fn leaf(&mut self) -> Value<'static> {
        let c = self.counter;
        match (c + self.rot) % 9 {
            0 => Value::Num(Number::Uint(c as u128)),
            1 => Value::Str(Kstr::owned(format!("s{}", c))),
            2 => Value::Bool(c % 2 == 0),
            3 => Value::Num(Number::Float(c as f64 + 0.5)),
            4 => Value::Barr(Barr::owned(vec![c as u8, 1, 2])),
            5 => Value::Str(Kstr::brwed("")),
            6 => Value::Unit,
            7 => Value::Num(Number::Int(-1 - c as i128)),
            _ => Value::Str(Kstr::owned(format!("it's \"q\" {}", c))),
        }
    }
    pub fn build(&mut self, s: &Shape) -> Kserd<'static> {
        let id = self.id();
        let val = match s {
            Shape::Leaf => {
                let v = self.leaf();
                self.counter += 1;
                v
            }
            Shape::Tuple(c) => {
                self.counter += 1;
                Value::Tuple(c.iter().map(|x| self.build(x)).collect())
            }
            Shape::Seq(c) => {
                self.counter += 1;
                Value::Seq(c.iter().map(|x| self.build(x)).collect())
            }
            Shape::Cntr(c) => {
                self.counter += 1;
                Value::Cntr(
                    c.iter()
                        .enumerate()
                        .map(|(i, x)| (Kstr::brwed(NAMES[i % NAMES.len()]), self.build(x)))
                        .collect(),
                )
            }
            Shape::Map(c) => {
                self.counter += 1;
                Value::Map(c.iter().map(|(k, v)| (self.build(k), self.build(v))).collect())
            }
        };
        Kserd { id, val }
    }
}

#[derive(Clone, Copy)]
pub struct TreeCfg {
    pub depth: usize,
    pub fan: usize,
    pub id_pct: usize,
    pub odd_names: bool,
}

pub fn rand_leaf(r: &mut Rng) -> Value<'static> {
    match r.below(7) {
        0 => Value::Unit,
        1 => Value::Bool(r.below(2) == 0),
        2 | 3 => Value::Num(if r.below(2) == 0 { *r.pick(&numbers()) } else { rand_number(r) }),
        4 | 5 => Value::Str(Kstr::owned(rand_string(r))),
        _ => {
            let n = r.below(6);
            Value::Barr(Barr::owned((0..n).map(|_| r.next() as u8).collect()))
        }
    }
}

pub fn rand_tree(r: &mut Rng, cfg: TreeCfg) -> Kserd<'static> {
    let id = if r.below(100) < cfg.id_pct { Some(Kstr::brwed(*r.pick(IDS))) } else { None };
    let val = if cfg.depth == 0 || r.below(4) == 0 {
        rand_leaf(r)
    } else {
        let sub = TreeCfg { depth: cfg.depth - 1, ..cfg };
        let n = r.below(cfg.fan + 1);
        match r.below(4) {
            0 => Value::Tuple((0..n).map(|_| rand_tree(r, sub)).collect()),
            1 => Value::Seq((0..n).map(|_| rand_tree(r, sub)).collect()),
            2 => Value::Cntr(
                (0..n)
                    .map(|i| {
                        let nm = if cfg.odd_names && r.below(3) == 0 {
                            format!("f{}", r.below(100))
                        } else {
                            NAMES[(i + r.below(NAMES.len())) % NAMES.len()].to_string()
                        };
                        (Kstr::owned(nm), rand_tree(r, sub))
                    })
                    .collect(),
            ),
            _ => Value::Map((0..n).map(|_| (rand_tree(r, TreeCfg { depth: sub.depth.min(1), ..sub }), rand_tree(r, sub))).collect()),
        }
    };
    Kserd { id, val }
}

/// Identities and field names no text can carry; a tree built in code may still have them.
pub const ODD_IDS: &[&str] = &["", " ", "a b", "a.b", "true", "false", "0", "é", "日本", "\n", "a\"b", "-", "A", "\u{0}", "a<b>", "Some", "None", "this identity is rather longer than most identities ever are, by some way"];
pub const ODD_NAMES: &[&str] = &["", " ", "a", "A", "aa", "ab", "b", "é", "日本", "\u{0}", "a=b", "a\nb", "0", "10", "9", "Ω", "z", "\u{10ffff}"];

/// Trees outside what the text format can carry: odd identities and names, long strings and byte
/// arrays, wide branches, long chains.
pub fn wild_tree(r: &mut Rng, depth: usize, wide: bool) -> Kserd<'static> {
    let id = match r.below(3) {
        0 => None,
        1 => Some(Kstr::brwed(*r.pick(ODD_IDS))),
        _ => Some(Kstr::owned(r.pick(ODD_IDS).to_string())),
    };
    let n = if wide { 12 + r.below(60) } else { r.below(4) };
    let val = if depth == 0 || r.below(5) == 0 {
        match r.below(9) {
            0 => Value::Str(Kstr::owned("x".repeat(60 + r.below(400)))),
            1 => Value::Str(Kstr::brwed(*r.pick(ODD_NAMES))),
            2 => Value::Barr(Barr::owned((0..20 + r.below(300)).map(|x| x as u8).collect())),
            3 => Value::Barr(Barr::brwed(&[])),
            _ => rand_leaf(r),
        }
    } else {
        match r.below(4) {
            0 => Value::Tuple((0..n).map(|_| wild_tree(r, depth - 1, false)).collect()),
            1 => Value::Seq((0..n).map(|_| wild_tree(r, depth - 1, false)).collect()),
            2 => Value::Cntr(
                (0..n)
                    .map(|i| {
                        let nm = if wide { format!("{}{}", r.pick(ODD_NAMES), i) } else { r.pick(ODD_NAMES).to_string() };
                        (Kstr::owned(nm), wild_tree(r, depth - 1, false))
                    })
                    .collect(),
            ),
            _ => Value::Map((0..n).map(|_| (wild_tree(r, depth.min(2) - 1, false), wild_tree(r, depth - 1, false))).collect()),
        }
    };
    Kserd { id, val }
}
/// A chain of branches, `n` deep, of kinds and identities picked at random.
pub fn chain(r: &mut Rng, n: usize) -> Kserd<'static> {
    let mut k = Kserd { id: None, val: rand_leaf(r) };
    for _ in 0..n {
        let other = Kserd { id: None, val: rand_leaf(r) };
        let before = r.below(3) == 0;
        let two = |k: Kserd<'static>| if before { vec![other.clone(), k] } else { vec![k] };
        let val = match r.below(5) {
            0 => Value::Tuple(two(k)),
            1 => Value::Seq(two(k)),
            2 => Value::Cntr(two(k).into_iter().zip(["b", "a"]).map(|(x, n)| (Kstr::brwed(n), x)).collect()),
            3 => Value::Map(std::iter::once((other, k)).collect()),
            _ => Value::Map(std::iter::once((k, other)).collect()),
        };
        let id = if r.below(2) == 0 { None } else { Some(Kstr::brwed(*r.pick(IDS))) };
        k = Kserd { id, val };
    }
    k
}
pub fn wild_trees(seed: u64, salt: u64, n: usize) -> Vec<Kserd<'static>> {
    let mut r = Rng::new(seed, salt ^ 0x77);
    (0..n)
        .map(|i| match i % 8 {
            0 => chain(&mut r, 1 + (i / 8) % 40),
            1 | 2 => wild_tree(&mut r, 1 + i % 2, true),
            _ => wild_tree(&mut r, 1 + i % 4, false),
        })
        .collect()
}

/// Trees with `n` children under one node, of every kind, alone and inside another value.
pub fn broad_trees(n: u32) -> Vec<Kserd<'static>> {
    let id = |i: u32| if i % 7 == 3 { Some(Kstr::brwed("Foo")) } else { None };
    let leaf = |i: u32| Kserd { id: id(i), val: Value::Num(i.into()) };
    let child = |i: u32| if i % 5 == 1 { Kserd { id: id(i), val: Value::Tuple(vec![leaf(i), leaf(i + 1)]) } } else { leaf(i) };
    let mut v = Vec::new();
    for nested in [false, true] {
        let child = |i| if nested { child(i) } else { leaf(i) };
        v.push(Value::Tuple((0..n).map(child).collect()));
        v.push(Value::Seq((0..n).map(child).collect()));
        v.push(Value::Cntr((0..n).map(|i| (Kstr::owned(format!("f{}", i)), child(i))).collect()));
        v.push(Value::Map((0..n).map(|i| (child(n - i), child(i))).collect()));
    }
    let v: Vec<Kserd> = v.into_iter().map(|val| Kserd { id: None, val }).collect();
    let inside = v.iter().map(|k| {
        let fields = vec![("a", leaf(1)), ("b", k.clone()), ("c", leaf(2))];
        Kserd { id: None, val: Value::Cntr(fields.into_iter().map(|(n, x)| (Kstr::brwed(n), x)).collect()) }
    });
    v.iter().cloned().chain(inside).collect()
}

pub fn show(k: &Kserd) -> String {
    format!("{:?}", k)
}

/// Structural sameness: same kinds, same number variants and bits, same bytes and identities.
pub fn same(a: &Kserd, b: &Kserd) -> bool {
    a.id() == b.id() && same_val(&a.val, &b.val)
}
pub fn same_val(a: &Value, b: &Value) -> bool {
    use Value::*;
    match (a, b) {
        (Unit, Unit) => true,
        (Bool(x), Bool(y)) => x == y,
        (Num(x), Num(y)) => same_num(x, y),
        (Str(x), Str(y)) => x.as_str() == y.as_str(),
        (Barr(x), Barr(y)) => x.as_bytes() == y.as_bytes(),
        (Tuple(x), Tuple(y)) | (Seq(x), Seq(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b))
        }
        (Cntr(x), Cntr(y)) => {
            x.len() == y.len()
                && x.iter().zip(y).all(|((k, a), (l, b))| k.as_str() == l.as_str() && same(a, b))
        }
        (Map(x), Map(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| same(k, l) && same(a, b))
        }
        _ => false,
    }
}
pub fn same_num(a: &Number, b: &Number) -> bool {
    match (a, b) {
        (Number::Uint(x), Number::Uint(y)) => x == y,
        (Number::Int(x), Number::Int(y)) => x == y,
        (Number::Float(x), Number::Float(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        _ => false,
    }
}

/// Every tree one step smaller.
fn smaller(k: &Kserd<'static>) -> Vec<Kserd<'static>> {
    let mut out: Vec<Kserd<'static>> = Vec::new();
    if k.id.is_some() {
        out.push(Kserd { id: None, val: k.val.clone() });
    }
    let mk = |val| Kserd { id: k.id.clone(), val };
    match &k.val {
        Value::Tuple(v) | Value::Seq(v) => {
            let seq = matches!(k.val, Value::Seq(_));
            let wrap = |w| mk(if seq { Value::Seq(w) } else { Value::Tuple(w) });
            out.extend(v.iter().cloned());
            for i in 0..v.len() {
                let mut w = v.clone();
                w.remove(i);
                out.push(wrap(w));
                for s in smaller(&v[i]) {
                    let mut w = v.clone();
                    w[i] = s;
                    out.push(wrap(w));
                }
            }
        }
        Value::Cntr(m) => {
            out.extend(m.values().cloned());
            for (n, x) in m {
                let mut w = m.clone();
                w.remove(n);
                out.push(mk(Value::Cntr(w)));
                for s in smaller(x) {
                    let mut w = m.clone();
                    w.insert(n.clone(), s);
                    out.push(mk(Value::Cntr(w)));
                }
            }
        }
        Value::Map(m) => {
            out.extend(m.values().cloned());
            out.extend(m.keys().cloned());
            for (n, x) in m {
                let mut w = m.clone();
                w.remove(n);
                out.push(mk(Value::Map(w.clone())));
                for s in smaller(n) {
                    let mut w = w.clone();
                    w.insert(s, x.clone());
                    out.push(mk(Value::Map(w)));
                }
                for s in smaller(x) {
                    let mut w = w.clone();
                    w.insert(n.clone(), s);
                    out.push(mk(Value::Map(w)));
                }
            }
        }
        Value::Bool(true) => (),
        Value::Unit => (),
        Value::Str(s) if !s.as_str().is_empty() => {
            let cs: Vec<char> = s.chars().collect();
            for i in 0..cs.len() {
                let mut w = cs.clone();
                w.remove(i);
                out.push(mk(Value::Str(Kstr::owned(w.into_iter().collect()))));
            }
        }
        _ => out.push(mk(Value::Bool(true))),
    }
    out
}

/// Greedily shrink a failing tree; `fails` is evaluated on the real code.
pub fn shrink(k: &Kserd<'static>, fails: &dyn Fn(&Kserd<'static>) -> bool) -> Kserd<'static> {
    let mut cur = k.clone();
    let mut budget = 4000;
    let start = std::time::Instant::now();
    'outer: loop {
        for s in smaller(&cur) {
            budget -= 1;
            if budget <= 0 || start.elapsed().as_secs() > 15 {
                return cur;
            }
            let bad = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fails(&s))).unwrap_or(true);
            if bad {
                cur = s;
                continue 'outer;
            }
        }
        return cur;
    }
}
