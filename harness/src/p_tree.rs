//! V01-V04, A01, A02, F01: the value tree, its navigator and formatter requests.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::num_spec::*;
use crate::p_text::{child_count, max_reprs, nodes, shrunk};
use kserd::fmt::*;
use kserd::nav::*;
use kserd::*;
use std::cmp::Ordering;
use std::collections::BTreeMap;

type List<'a> = Vec<Kserd<'a>>;
type Map<'a> = BTreeMap<Kserd<'a>, Kserd<'a>>;
type Fields<'a> = BTreeMap<Kstr<'a>, Kserd<'a>>;

pub fn small_trees(c: &Ctx, salt: u64, shapes_n: usize, random: usize) -> Vec<Kserd<'static>> {
    let mut v = Vec::new();
    for s in shapes_upto(shapes_n) {
        for (rot, ids) in [(0, 1), (5, 2), (3, 0)] {
            v.push(Build { counter: 0, rot, ids }.build(&s));
        }
    }
    let mut r = Rng::new(c.seed, salt);
    for i in 0..random {
        let cfg = TreeCfg { depth: 1 + i % 4, fan: 1 + i % 5, id_pct: [0, 30, 100][i % 3], odd_names: true };
        v.push(rand_tree(&mut r, cfg));
    }
    v.extend(wild_trees(c.seed, salt, random / 3));
    if random >= 1000 {
        v.extend(broad_trees(300));
    }
    v
}

// ---------------------------------------------------------------- V01

fn rank(v: &Value) -> u8 {
    match v {
        Value::Unit => 0,
        Value::Bool(_) => 1,
        Value::Num(_) => 2,
        Value::Str(_) => 3,
        Value::Barr(_) => 4,
        Value::Tuple(_) => 5,
        Value::Cntr(m) => if m.is_empty() { 5 } else { 6 },
        Value::Seq(_) => 7,
        Value::Map(_) => 8,
    }
}

/// The order of values: kinds in order, then contents, element by element. An empty container is
/// the empty tuple.
pub fn ref_cmp(a: &Value, b: &Value) -> Ordering {
    use Value::*;
    fn lex<T>(mut a: impl Iterator<Item = T>, mut b: impl Iterator<Item = T>, f: impl Fn(T, T) -> Ordering) -> Ordering {
        loop {
            match (a.next(), b.next()) {
                (None, None) => return Ordering::Equal,
                (None, _) => return Ordering::Less,
                (_, None) => return Ordering::Greater,
                (Some(x), Some(y)) => match f(x, y) {
                    Ordering::Equal => (),
                    o => return o,
                },
            }
        }
    }
    match (a, b) {
        (Bool(x), Bool(y)) => x.cmp(y),
        (Num(x), Num(y)) => spec_cmp(x, y),
        (Str(x), Str(y)) => x.as_bytes().cmp(y.as_bytes()),
        (Barr(x), Barr(y)) => lex(x.as_bytes().iter(), y.as_bytes().iter(), |a, b| a.cmp(b)),
        (Tuple(x), Tuple(y)) | (Seq(x), Seq(y)) => lex(x.iter(), y.iter(), |a, b| ref_cmp(&a.val, &b.val)),
        (Cntr(x), Cntr(y)) => {
            if x.is_empty() || y.is_empty() {
                return if x.is_empty() && y.is_empty() { Ordering::Equal } else { rank(a).cmp(&rank(b)) };
            }
            lex(x.iter(), y.iter(), |(k, a), (l, b)| k.as_bytes().cmp(l.as_bytes()).then_with(|| ref_cmp(&a.val, &b.val)))
        }
        (Map(x), Map(y)) => lex(x.iter(), y.iter(), |(k, a), (l, b)| ref_cmp(&k.val, &l.val).then_with(|| ref_cmp(&a.val, &b.val))),
        (Tuple(x), Cntr(y)) if y.is_empty() => x.len().cmp(&0),
        (Cntr(x), Tuple(y)) if x.is_empty() => 0.cmp(&y.len()),
        _ => rank(a).cmp(&rank(b)),
    }
}

/// Same value with other identities and numbers written with other kinds.
fn disguise(r: &mut Rng, k: &Kserd) -> Kserd<'static> {
    let id = match r.below(3) {
        0 => None,
        1 => k.id().map(|x| Kstr::owned(x.to_string())),
        _ => Some(Kstr::brwed(*r.pick(IDS))),
    };
    let val = match &k.val {
        Value::Num(n) => Value::Num(match *n {
            Number::Uint(x) if x <= i128::MAX as u128 && r.below(2) == 0 => Number::Int(x as i128),
            Number::Uint(x) if x < 1 << 53 => Number::Float(x as f64),
            Number::Int(x) if x >= 0 && r.below(2) == 0 => Number::Uint(x as u128),
            Number::Int(x) if x.unsigned_abs() < 1 << 53 => Number::Float(x as f64),
            Number::Float(x) if x == 0.0 => Number::Float(-x),
            Number::Float(x) if x.is_nan() => Number::Float(-x),
            x => x,
        }),
        Value::Tuple(v) if v.is_empty() && r.below(2) == 0 => Value::Cntr(Default::default()),
        Value::Cntr(v) if v.is_empty() && r.below(2) == 0 => Value::Tuple(Default::default()),
        Value::Tuple(v) => Value::Tuple(v.iter().map(|x| disguise(r, x)).collect()),
        Value::Seq(v) => Value::Seq(v.iter().map(|x| disguise(r, x)).collect()),
        Value::Cntr(m) => Value::Cntr(m.iter().map(|(n, x)| (Kstr::owned(n.to_string()), disguise(r, x))).collect()),
        Value::Map(m) => Value::Map(m.iter().map(|(n, x)| (disguise(r, n), disguise(r, x))).collect()),
        Value::Str(s) => Value::Str(Kstr::owned(s.to_string())),
        x => x.clone().into_owned(),
    };
    Kserd { id, val }
}

/// One small change somewhere.
fn nudge(r: &mut Rng, k: &Kserd<'static>) -> Kserd<'static> {
    let mut k = k.clone();
    match &mut k.val {
        Value::Tuple(v) | Value::Seq(v) if !v.is_empty() && r.below(4) > 0 => {
            let i = r.below(v.len());
            v[i] = nudge(r, &v[i]);
        }
        Value::Tuple(v) | Value::Seq(v) => {
            if r.below(2) == 0 {
                v.push(Kserd::new_unit())
            } else {
                v.pop();
            }
        }
        Value::Cntr(m) if !m.is_empty() => {
            let n = m.keys().nth(r.below(m.len())).unwrap().clone();
            match r.below(3) {
                0 => {
                    let x = m.remove(&n).unwrap();
                    m.insert(Kstr::owned(format!("{}z", n)), x);
                }
                1 => {
                    m.remove(&n);
                }
                _ => {
                    let x = nudge(r, &m[&n]);
                    m.insert(n, x);
                }
            }
        }
        Value::Map(m) if !m.is_empty() => {
            let n = m.keys().nth(r.below(m.len())).unwrap().clone();
            let x = m.remove(&n).unwrap();
            match r.below(3) {
                0 => {
                    m.insert(nudge(r, &n), x);
                }
                1 => (),
                _ => {
                    m.insert(n, nudge(r, &x));
                }
            }
        }
        Value::Cntr(m) => {
            m.insert(Kstr::brwed("q"), Kserd::new_unit());
        }
        Value::Map(m) => {
            m.insert(Kserd::new_unit(), Kserd::new_unit());
        }
        Value::Str(s) => s.to_mut().push('x'),
        Value::Barr(s) => s.to_mut().push(1),
        Value::Num(n) => *n = Number::Uint(r.below(3) as u128),
        Value::Bool(b) => *b = !*b,
        Value::Unit => k.val = Value::Tuple(vec![]),
    }
    k
}

fn check_pair(a: &Kserd, b: &Kserd) -> Result<(), String> {
    let want = ref_cmp(&a.val, &b.val);
    let got = a.cmp(b);
    if got != want {
        return Err(format!("ordered {:?}, by value {:?}", got, want));
    }
    if a.partial_cmp(b) != Some(want) || a.val.cmp(&b.val) != want || a.val.partial_cmp(&b.val) != Some(want) || b.cmp(a) != want.reverse() {
        return Err("the ways of ordering disagree".into());
    }
    if (a == b) != (want == Ordering::Equal) || (a.val == b.val) != (a == b) || (b == a) != (a == b) || (a != b) == (a == b) {
        return Err(format!("equal: {}, ordered {:?}", a == b, want));
    }
    if (a < b) != (want == Ordering::Less) || (a >= b) != (want != Ordering::Less) || (a > b) != (want == Ordering::Greater) {
        return Err("comparison operators disagree with the order".into());
    }
    let m: Map = vec![(a.mk_brw(), Kserd::new_unit())].into_iter().collect();
    if m.contains_key(b) != (want == Ordering::Equal) {
        return Err("a map does not find an equal key, or finds another".into());
    }
    Ok(())
}

pub fn v01(c: &mut Ctx) {
    let base = small_trees(c, 61, 3, c.by_tier(240, 600));
    let mut pool: Vec<Kserd<'static>> = leaf_palette().into_iter().map(Kserd::new).collect();
    pool.extend([Number::Uint(1), Number::Int(1), Number::Float(1.0), Number::Float(-0.0), Number::Float(f64::NAN), Number::Int(-1)].iter().map(|n| Kserd::new(Value::Num(*n))));
    pool.extend(["", "a", "ab", "b"].iter().map(|s| Kserd::new_str(s)));
    pool.extend([Kserd::new(Value::Barr(Barr::brwed(b""))), Kserd::new(Value::Barr(Barr::brwed(b"\xff")))]);
    pool.extend(base.into_iter().take(c.by_tier(400, 700)));
    pool.extend(wild_trees(c.seed, 63, c.by_tier(60, 200)).into_iter().filter(|k| nodes(k).len() < 60));
    c.bound(format!("all pairs of a pool of {} values up to depth 4", pool.len()));
    for (i, a) in pool.iter().enumerate() {
        for (j, b) in pool.iter().enumerate() {
            c.case("order", "pairs", (i * 1000 + j) as u64, || format!("{} , {}", show(a), show(b)), || check_pair(a, b));
        }
    }
    let n = c.by_tier(60000, 400000);
    c.bound(format!("{} seeded trees against a disguised copy (other identities and number kinds), a slightly changed copy, and as triples", n));
    let mut r = Rng::new(c.seed, 62);
    for i in 0..n {
        let cfg = TreeCfg { depth: 1 + (i % 4) as usize, fan: 3, id_pct: 40, odd_names: true };
        let a = match i % 6 {
            0 => wild_tree(&mut r, 1 + (i % 3) as usize, i % 4 == 0),
            1 => {
                let n = 1 + r.below(12);
                chain(&mut r, n)
            }
            _ => rand_tree(&mut r, cfg),
        };
        let b = disguise(&mut r, &a);
        let d = nudge(&mut r, &b);
        c.case("order", "near", i, || format!("{} , {} , {}", show(&a), show(&b), show(&d)), || {
            if a != b || a.cmp(&b) != Ordering::Equal {
                return Err("a copy with other identities and number kinds is not equal".into());
            }
            check_pair(&a, &b)?;
            check_pair(&a, &d)?;
            check_pair(&b, &d)?;
            let mut v = [&a, &b, &d];
            v.sort();
            if v[0] > v[1] || v[1] > v[2] || v[0] > v[2] {
                return Err("sorting three values does not order them".into());
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- V02

fn all_owned(k: &Kserd) -> bool {
    use std::borrow::Cow::Owned;
    nodes(k).iter().all(|n| {
        n.id.as_ref().map_or(true, |x| matches!(x.inner, Owned(_)))
            && match &n.val {
                Value::Str(s) => matches!(s.inner, Owned(_)),
                Value::Barr(b) => matches!(b.inner, Owned(_)),
                Value::Cntr(m) => m.keys().all(|x| matches!(x.inner, Owned(_))),
                _ => true,
            }
    })
}

fn borrows(k: &Kserd, b: &Kserd) -> bool {
    use std::borrow::Cow::Borrowed;
    let sames = |x: &Kstr, y: &Kstr| matches!(y.inner, Borrowed(_)) && std::ptr::eq(x.as_str().as_ptr(), y.as_str().as_ptr()) && x.len() == y.len();
    nodes(k).iter().zip(nodes(b)).all(|(n, m)| {
        (match (&n.id, &m.id) {
            (Some(x), Some(y)) => sames(x, y),
            (None, None) => true,
            _ => false,
        }) && match (&n.val, &m.val) {
            (Value::Str(x), Value::Str(y)) => sames(x, y),
            (Value::Barr(x), Value::Barr(y)) => matches!(y.inner, Borrowed(_)) && std::ptr::eq(x.as_bytes().as_ptr(), y.as_bytes().as_ptr()),
            (Value::Cntr(x), Value::Cntr(y)) => x.keys().zip(y.keys()).all(|(a, b)| sames(a, b)),
            _ => true,
        }
    })
}

pub fn v02(c: &mut Ctx) {
    let trees = small_trees(c, 71, c.by_tier(4, 5), c.by_tier(40000, 300000));
    c.bound(format!("{} trees up to depth 4", trees.len()));
    for (i, k) in trees.iter().enumerate() {
        c.case("copies", "trees", i as u64, || show(k), || {
            let f = |k: &Kserd<'static>| {
                let o = k.clone();
                if !same(&o, k) {
                    return Err(format!("clone is {}", show(&o)));
                }
                let b = k.mk_brw();
                if !same(&b, k) {
                    return Err(format!("borrowed copy is {}", show(&b)));
                }
                if !borrows(k, &b) {
                    return Err("the borrowed copy owns a string, byte array, name or identity".into());
                }
                let w = b.clone().into_owned();
                if !same(&w, k) {
                    return Err(format!("owned copy is {}", show(&w)));
                }
                if !all_owned(&w) {
                    return Err("the owned copy still borrows".into());
                }
                let v = k.val.mk_brw();
                if !same_val(&v, &k.val) || !same_val(&v.clone().into_owned(), &k.val) || !same_val(&k.val.clone(), &k.val) {
                    return Err("copies of the value differ".into());
                }
                let mut x = w;
                x.id = None;
                x.val = Value::Unit;
                if !same(&o, k) {
                    return Err("changing an owned copy changed the original".into());
                }
                Ok(())
            };
            shrunk(k, &f)
        });
    }
    c.bound("constructors over string and byte palettes");
    for (i, s) in STRS.iter().enumerate() {
        c.case("constructors", "strings", i as u64, || format!("{:?}", s), || {
            let o = s.to_string();
            let want = |k: &Kserd, id: &str| k.id() == Some(id) && matches!(&k.val, Value::Str(x) if x.as_str() == *s);
            if !want(&Kserd::new_str(s), "str") || !want(&Kserd::new_string(o.clone()), "String") {
                return Err("string constructor".into());
            }
            if !same_val(&Value::new_str(s), &Value::new_string(o.clone())) || Kstr::brwed(s).as_str() != *s || Kstr::owned(o.clone()).as_str() != *s {
                return Err("string value".into());
            }
            let b = s.as_bytes();
            let want = |k: &Kserd, id: &str| k.id() == Some(id) && matches!(&k.val, Value::Barr(x) if x.as_bytes() == b);
            if !want(&Kserd::new_barr(b), "barr") || !want(&Kserd::new_barrv(b.to_vec()), "ByteVec") {
                return Err("byte array constructor".into());
            }
            if Barr::brwed(b).into_owned().as_bytes() != b || Kstr::brwed(s).into_owned().as_str() != *s {
                return Err("into_owned changes contents".into());
            }
            let mut m = Kstr::brwed(s);
            m.to_mut().push('!');
            if m.as_str() != format!("{}!", s) || &*m != m.as_str() || m.to_string() != m.as_str() {
                return Err("to_mut".into());
            }
            let mut m = Barr::brwed(b);
            m.to_mut().push(7);
            if m.as_bytes()[..b.len()] != *b || m.as_bytes().last() != Some(&7) || m.as_bytes().len() != b.len() + 1 {
                return Err("to_mut of bytes".into());
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- V03

fn check_access(v: &Value) -> Result<(), String> {
    let e = |s: &str| Err(format!("{} is wrong", s));
    let is = |n: u8| {
        (match v {
            Value::Cntr(_) => 6,
            x => rank(x),
        }) == n
    };
    if v.unit() != is(0) {
        return e("unit");
    }
    if v.bool() != if let Value::Bool(b) = v { Some(*b) } else { None } {
        return e("bool");
    }
    let num = if let Value::Num(n) = v { Some(*n) } else { None };
    if v.uint() != num.and_then(|n| spec_as_u128(&n)) {
        return e("uint");
    }
    if v.int() != num.and_then(|n| spec_as_i128(&n)) {
        return e("int");
    }
    if v.float().map(|x| if x.is_nan() { 1 } else { x.to_bits() }) != num.map(|n| spec_f64(&n)).map(|x| if f64::from_bits(x).is_nan() { 1 } else { x }) {
        return e("float");
    }
    let s = if let Value::Str(s) = v { Some(s.as_str()) } else { None };
    if v.str() != s {
        return e("str");
    }
    let ch = s.and_then(|s| {
        let mut i = s.chars();
        match (i.next(), i.next()) {
            (Some(c), None) => Some(c),
            _ => None,
        }
    });
    if v.ch() != ch {
        return e("ch");
    }
    if v.barr() != if let Value::Barr(b) = v { Some(b.as_bytes()) } else { None } {
        return e("barr");
    }
    fn p<T>(x: Option<&T>) -> Option<*const T> {
        x.map(|x| x as *const T)
    }
    let t = if let Value::Tuple(x) = v { Some(x) } else { None };
    let q = if let Value::Seq(x) = v { Some(x) } else { None };
    if p(v.tuple()) != p(t) {
        return e("tuple");
    }
    if p(v.seq()) != p(q) {
        return e("seq");
    }
    if p(v.tuple_or_seq()) != p(t.or(q)) {
        return e("tuple_or_seq");
    }
    if p(v.map()) != if let Value::Map(x) = v { Some(x as *const _) } else { None } {
        return e("map");
    }
    if v.cntr().map(|x| *x as *const Fields) != if let Value::Cntr(x) = v { Some(x as *const _) } else { None } {
        return e("cntr");
    }
    Ok(())
}

/// Float bits a number converts to.
fn spec_f64(n: &Number) -> u64 {
    spec_as_f64_bits(n)
}

fn check_mut(k: &Kserd<'static>) -> Result<(), String> {
    let e = |s: &str| Err(format!("{} is wrong", s));
    let v = &k.val;
    let r = rank(&if let Value::Cntr(_) = v { Value::Cntr(vec![(Kstr::brwed("a"), Kserd::new_unit())].into_iter().collect()) } else { v.clone() });
    macro_rules! m {
        ($f:ident, $kinds:pat, $edit:expr, $want:expr) => {{
            let mut x = v.clone();
            let got = {
                let g = x.$f();
                let had = g.is_some();
                if let Some(p) = g {
                    $edit(p);
                }
                had
            };
            if got != matches!(r, $kinds) {
                return e(stringify!($f));
            }
            let want = if got { $want(v.clone()) } else { v.clone() };
            if !same_val(&x, &want) {
                return Err(format!("change through {} gives {:?}, expected {:?}", stringify!($f), x, want));
            }
        }};
    }
    m!(bool_mut, 1, |p: &mut bool| *p = !*p, |x| if let Value::Bool(b) = x { Value::Bool(!b) } else { x });
    m!(num_mut, 2, |p: &mut Number| *p = Number::Int(-77), |_| Value::Num(Number::Int(-77)));
    m!(str_mut, 3, |p: &mut String| p.push('~'), |x| if let Value::Str(s) = x { Value::Str(Kstr::owned(format!("{}~", s.as_str()))) } else { x });
    m!(barr_mut, 4, |p: &mut Vec<u8>| p.push(200), |x| if let Value::Barr(s) = x {
        let mut w = s.as_bytes().to_vec();
        w.push(200);
        Value::Barr(Barr::owned(w))
    } else { x });
    let push = |p: &mut List<'static>| p.push(Kserd::new_bool(false));
    let pushed = |x: Value<'static>| match x {
        Value::Tuple(mut l) => {
            l.push(Kserd::new_bool(false));
            Value::Tuple(l)
        }
        Value::Seq(mut l) => {
            l.push(Kserd::new_bool(false));
            Value::Seq(l)
        }
        x => x,
    };
    m!(tuple_mut, 5, push, pushed);
    m!(seq_mut, 7, push, pushed);
    m!(tuple_or_seq_mut, 5 | 7, push, pushed);
    m!(map_mut, 8, |p: &mut Map<'static>| p.clear(), |_| Value::Map(Default::default()));
    {
        let mut x = v.clone();
        let got = match x.cntr_mut() {
            Some(mut p) => {
                p.clear();
                true
            }
            None => false,
        };
        if got != (r == 6) || !same_val(&x, &if got { Value::Cntr(Default::default()) } else { v.clone() }) {
            return e("cntr_mut");
        }
    }
    // through the deref of a Kserd
    let mut kk = k.clone();
    if !std::ptr::eq(&*kk, &kk.val) {
        return e("deref");
    }
    let p: *const Value = &mut *kk;
    if !std::ptr::eq(p, &kk.val) {
        return e("deref_mut");
    }
    if kk.id() != k.id.as_ref().map(|x| x.as_str()) {
        return e("id");
    }
    Ok(())
}

fn check_fields(m: &Fields<'static>) -> Result<(), String> {
    let e = |s: &str| Err(format!("{} is wrong", s));
    let v: Value<'static> = Value::Cntr(m.clone());
    let a = match v.cntr() {
        Some(a) => a,
        None => return e("cntr"),
    };
    let names: Vec<String> = m.keys().map(|x| x.to_string()).chain(["absent".into(), "".into()]).collect();
    for n in &names {
        let x = m.get(n.as_str()).map(|k| &k.val);
        let n = n.as_str();
        if a.get_unit(n).is_some() != matches!(x, Some(Value::Unit)) {
            return e("get_unit");
        }
        if a.get_bool(n) != x.and_then(|x| if let Value::Bool(b) = x { Some(*b) } else { None }) {
            return e("get_bool");
        }
        match (a.get_num(n), x) {
            (Some(g), Some(Value::Num(w))) if same_num(&g, w) => (),
            (None, Some(Value::Num(_))) | (Some(_), _) => return e("get_num"),
            _ => (),
        }
        if a.get_str(n) != x.and_then(|x| if let Value::Str(s) = x { Some(s.as_str()) } else { None }) {
            return e("get_str");
        }
        if a.get_barr(n) != x.and_then(|x| if let Value::Barr(s) = x { Some(s.as_bytes()) } else { None }) {
            return e("get_barr");
        }
        let list = |t: bool, s: bool, got: Option<&List>| {
            let want = match x {
                Some(Value::Tuple(l)) if t => Some(l),
                Some(Value::Seq(l)) if s => Some(l),
                _ => None,
            };
            match (got, want) {
                (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
                (None, None) => true,
                _ => false,
            }
        };
        if !list(true, false, a.get_tuple(n)) {
            return e("get_tuple");
        }
        if !list(false, true, a.get_seq(n)) {
            return e("get_seq");
        }
        if !list(true, true, a.get_tuple_or_seq(n)) {
            return e("get_tuple_or_seq");
        }
        if a.get_map(n).is_some() != matches!(x, Some(Value::Map(_))) {
            return e("get_map");
        }
        if let (Some(g), Some(Value::Map(w))) = (a.get_map(n), x) {
            if !same_val(&Value::Map(g.clone()), &Value::Map(w.clone())) {
                return e("get_map");
            }
        }
        if a.get_cntr(n).is_some() != matches!(x, Some(Value::Cntr(_))) {
            return e("get_cntr");
        }
        if let (Some(g), Some(Value::Cntr(w))) = (a.get_cntr(n), x) {
            if !same_val(&Value::Cntr((*g).clone()), &Value::Cntr(w.clone())) {
                return e("get_cntr");
            }
        }
        // mutable ones change exactly that field
        macro_rules! g {
            ($f:ident, $kinds:pat, $edit:expr, $via:ident) => {{
                let mut y = v.clone();
                let had = {
                    let mut acc = y.cntr_mut().unwrap();
                    let had = match acc.$f(n) {
                        Some(p) => {
                            $edit(p);
                            true
                        }
                        None => false,
                    };
                    had
                };
                if had != matches!(x, Some($kinds)) {
                    return e(stringify!($f));
                }
                let mut want = m.clone();
                if had {
                    let p = want.get_mut(n).unwrap().$via().unwrap();
                    $edit(p);
                }
                if !same_val(&y, &Value::Cntr(want)) {
                    return Err(format!("change through {} of {:?} gives {:?}", stringify!($f), n, y));
                }
            }};
        }
        g!(get_bool_mut, Value::Bool(_), |p: &mut bool| *p = !*p, bool_mut);
        g!(get_num_mut, Value::Num(_), |p: &mut Number| *p = Number::Int(-77), num_mut);
        g!(get_str_mut, Value::Str(_), |p: &mut String| p.push('~'), str_mut);
        g!(get_barr_mut, Value::Barr(_), |p: &mut Vec<u8>| p.push(200), barr_mut);
        let push = |p: &mut List<'static>| p.push(Kserd::new_bool(false));
        g!(get_tuple_mut, Value::Tuple(_), push, tuple_mut);
        g!(get_seq_mut, Value::Seq(_), push, seq_mut);
        g!(get_tuple_or_seq_mut, Value::Tuple(_) | Value::Seq(_), push, tuple_or_seq_mut);
        g!(get_map_mut, Value::Map(_), |p: &mut Map<'static>| p.clear(), map_mut);
        let mut y = v.clone();
        let had = match y.cntr_mut().unwrap().get_cntr_mut(n) {
            Some(mut p) => {
                p.clear();
                true
            }
            None => false,
        };
        let mut want = m.clone();
        if had {
            want.get_mut(n).unwrap().val = Value::Cntr(Default::default());
        }
        if had != matches!(x, Some(Value::Cntr(_))) || !same_val(&y, &Value::Cntr(want)) {
            return e("get_cntr_mut");
        }
    }
    Ok(())
}

pub fn v03(c: &mut Ctx) {
    let mut vals: Vec<Value<'static>> = numbers().into_iter().map(Value::Num).collect();
    vals.extend(STRS.iter().map(|s| Value::new_str(s)));
    vals.extend(["é", "日", "\u{301}", "e\u{301}", "\n", "ab"].iter().map(|s| Value::new_str(s)));
    c.bound(format!("every accessor on {} boundary numbers and strings", vals.len()));
    for (i, v) in vals.iter().enumerate() {
        c.case("accessors", "leaves", i as u64, || format!("{:?}", v), || {
            check_access(v)?;
            check_mut(&Kserd::new(v.clone()))
        });
    }
    let trees = small_trees(c, 81, c.by_tier(4, 5), c.by_tier(10000, 60000));
    c.bound(format!("every accessor and mutable accessor on {} trees and their nodes", trees.len()));
    for (i, k) in trees.iter().enumerate() {
        c.case("accessors", "trees", i as u64, || show(k), || {
            for n in nodes(k) {
                check_access(&n.val).map_err(|e| format!("{} on {}", e, show(n)))?;
            }
            check_mut(k)
        });
    }
    let mut r = Rng::new(c.seed, 82);
    let n = c.by_tier(10000, 60000);
    c.bound(format!("every field accessor on {} seeded containers with fields of every kind", n));
    for i in 0..n {
        let m: Fields<'static> = (0..if i % 16 == 0 { 20 } else { r.below(7) })
            .map(|j| (Kstr::owned(if i % 3 == 0 { r.pick(ODD_NAMES).to_string() } else { format!("{}{}", r.pick(NAMES), j) }), rand_tree(&mut r, TreeCfg { depth: 2, fan: 2, id_pct: 30, odd_names: false })))
            .collect();
        c.case("field-accessors", "containers", i, || format!("{:?}", m), || check_fields(&m));
    }
}

// ---------------------------------------------------------------- V04

fn id_ok(s: &str) -> bool {
    !s.chars().any(|c| matches!(c, '(' | ')' | '{' | '}' | '[' | ']' | '<' | '>' | ' ' | ',' | '.' | '/' | '\\' | '='))
}
fn name_ok(s: &str) -> bool {
    !s.is_empty() && !s.starts_with(|c: char| ('0'..='9').contains(&c)) && !s.chars().any(|c| matches!(c, ' ' | '/' | '\\' | '"' | '\t' | '\''))
}

fn check_name(s: &str) -> Result<(), String> {
    match Kserd::with_id(s, Value::Bool(true)) {
        Ok(k) => {
            if !id_ok(s) {
                return Err("an identity with a forbidden character is accepted".into());
            }
            if k.id() != Some(s) || k.bool() != Some(true) {
                return Err("the identity or value is not the one given".into());
            }
        }
        Err(e) => {
            if id_ok(s) {
                return Err("a valid identity is refused".into());
            }
            if !e.to_string().contains(s) {
                return Err("the error does not name the identity".into());
            }
        }
    }
    let fields = |n: &str| vec![("aa".to_string(), Kserd::new_num(1)), (n.to_string(), Kserd::new_num(2)), ("zz".to_string(), Kserd::new_num(3))];
    let one = Value::new_cntr(vec![(s.to_string(), Kserd::new_num(2))]);
    let many = Value::new_cntr(fields(s));
    let k = Kserd::new_cntr(fields(s));
    if one.is_ok() != name_ok(s) || many.is_ok() != name_ok(s) || k.is_ok() != name_ok(s) {
        return Err(format!("field name is {}, but alone accepted: {}, among others: {}", if name_ok(s) { "valid" } else { "invalid" }, one.is_ok(), many.is_ok()));
    }
    if let Ok(Value::Cntr(m)) = &many {
        let want: std::collections::BTreeMap<String, u128> = [("aa".to_string(), 1), (s.to_string(), 2), ("zz".to_string(), 3)].into_iter().fold(Default::default(), |mut m, (k, v)| {
            m.insert(k, v);
            m
        });
        let mut want = want;
        if s == "zz" {
            want.insert("zz".into(), 3);
        }
        if m.len() != want.len() || !m.iter().all(|(k, v)| want.get(k.as_str()).copied() == v.uint()) {
            return Err(format!("container holds {:?}", m));
        }
    }
    Ok(())
}

pub fn v04(c: &mut Ctx) {
    let mut alpha: Vec<char> = (0u32..0x180).filter_map(char::from_u32).collect();
    alpha.extend(['\u{660}', '\u{ff11}', '\u{2003}', '日', '\u{1F600}', '\u{2019}', '\u{ff1d}']);
    c.bound(format!("every one of {} characters alone, first, last and in the middle of a name", alpha.len()));
    for (i, ch) in alpha.iter().enumerate() {
        for (j, s) in [format!("{}", ch), format!("{}a", ch), format!("a{}", ch), format!("a{}b", ch), format!("{0}{0}", ch)].iter().enumerate() {
            c.case("names", "characters", (i * 5 + j) as u64, || format!("{:?}", s), || check_name(s));
        }
    }
    c.bound("every other character, alone, doubled and last in a name");
    for ch in (0x180u32..=0x10ffff).filter_map(char::from_u32) {
        for (j, s) in [format!("{}", ch), format!("a{0}{0}", ch)].iter().enumerate() {
            c.case("names", "every character", ch as u64 * 2 + j as u64, || format!("{:?}", s), || check_name(s));
        }
    }
    let special: Vec<char> = "(){}[]<> ,./\\=\"\t'0a_-".chars().collect();
    c.bound(format!("all texts of at most 2 of {} special characters, and the empty one", special.len()));
    let mut i = 0;
    for a in &special {
        for b in &special {
            let s: String = [*a, *b].iter().collect();
            c.case("names", "pairs", i, || format!("{:?}", s), || check_name(&s));
            i += 1;
        }
    }
    c.case("names", "pairs", i, || "\"\"".into(), || check_name(""));
    let n = c.by_tier(100000, 500000);
    c.bound(format!("{} seeded names of up to 12 characters", n));
    let mut r = Rng::new(c.seed, 91);
    for i in 0..n {
        let s: String = (0..r.below(13)).map(|_| if r.below(6) == 0 { *r.pick(&alpha) } else { *r.pick(&['a', 'b', '_', '-', '9', 'Z']) }).collect();
        c.case("names", "random", i, || format!("{:?}", s), || check_name(&s));
    }
}

// ---------------------------------------------------------------- A01, A02

#[derive(Debug, Default, Clone)]
struct Model<'x, 'k> {
    kserd: Option<&'x Kserd<'k>>,
    parent: Option<usize>,
    key: bool,
    pos: usize,
    values: Vec<usize>,
    keys: Vec<usize>,
    names: Vec<&'x str>,
}

fn model<'x, 'k>(root: &'x Kserd<'k>) -> Vec<Model<'x, 'k>> {
    fn go<'x, 'k>(k: &'x Kserd<'k>, parent: Option<usize>, key: bool, pos: usize, out: &mut Vec<Model<'x, 'k>>) -> usize {
        let me = out.len();
        out.push(Model { kserd: Some(k), parent, key, pos, ..Default::default() });
        match &k.val {
            Value::Tuple(v) | Value::Seq(v) => {
                for (i, x) in v.iter().enumerate() {
                    let c = go(x, Some(me), false, i, out);
                    out[me].values.push(c);
                }
            }
            Value::Cntr(m) => {
                for (i, (n, x)) in m.iter().enumerate() {
                    let c = go(x, Some(me), false, i, out);
                    out[me].values.push(c);
                    out[me].names.push(n.as_str());
                }
            }
            Value::Map(m) => {
                for (i, (a, b)) in m.iter().enumerate() {
                    let c = go(a, Some(me), true, i, out);
                    out[me].keys.push(c);
                    let c = go(b, Some(me), false, i, out);
                    out[me].values.push(c);
                }
            }
            _ => (),
        }
        me
    }
    let mut v = Vec::new();
    go(root, None, false, 0, &mut v);
    v
}

fn check_nav(k: &Kserd) -> Result<(), String> {
    let m = model(k);
    let nav = Navigator::new(k);
    if nav.len() != m.len() || nav.is_empty() {
        return Err(format!("{} nodes, expected {}", nav.len(), m.len()));
    }
    if nav.get(m.len()).is_some() || nav.get(usize::MAX).is_some() {
        return Err("a node past the end".into());
    }
    if nav.root().index() != 0 || !std::ptr::eq(nav.root().kserd(), k) {
        return Err("root".into());
    }
    let it: Vec<usize> = nav.nodes().map(|n| n.index()).collect();
    if it != (0..m.len()).collect::<Vec<_>>() {
        return Err(format!("nodes() visits {:?}", it));
    }
    for (i, w) in m.iter().enumerate() {
        let n = nav.get(i).ok_or_else(|| format!("no node {}", i))?;
        let e = |s: &str| Err(format!("node {}: {}", i, s));
        if n.index() != i {
            return e("index");
        }
        if !std::ptr::eq(n.kserd(), w.kserd.unwrap()) {
            return e("is not the value at that place in depth first order");
        }
        if !std::ptr::eq(n.nav(), &nav) {
            return e("navigator");
        }
        if n.parent().map(|x| x.index()) != w.parent {
            return e("parent");
        }
        if n.is_key() != w.key {
            return e("is_key");
        }
        if n.idx_in_parent() != w.pos {
            return e("position in parent");
        }
        if nav.get(i) != Some(nav.get(i).unwrap()) || (i > 0 && nav.get(i) == nav.get(0)) {
            return e("equality of nodes");
        }
        let vs: Vec<usize> = n.value_children().map(|x| x.index()).collect();
        let ks: Vec<usize> = n.key_children().map(|x| x.index()).collect();
        if vs != w.values || n.value_children().len() != vs.len() || n.value_children().is_empty() != vs.is_empty() {
            return e("value children");
        }
        if ks != w.keys || n.key_children().len() != ks.len() || n.key_children().is_empty() != ks.is_empty() {
            return e("key children");
        }
        let ok = match (n.value(), &n.kserd().val) {
            (NodeValue::Tuple(x), Value::Tuple(_)) | (NodeValue::Seq(x), Value::Seq(_)) => {
                x.len() == w.values.len() && x.is_empty() == w.values.is_empty() && x.map(|y| y.index()).collect::<Vec<_>>() == w.values
            }
            (NodeValue::Cntr(x), Value::Cntr(_)) => {
                x.len() == w.values.len()
                    && x.is_empty() == w.values.is_empty()
                    && x.map(|(a, b)| (a.as_str().to_string(), b.index())).eq(w.names.iter().map(|x| x.to_string()).zip(w.values.iter().copied()))
            }
            (NodeValue::Map(x), Value::Map(_)) => {
                x.len() == w.values.len()
                    && x.is_empty() == w.values.is_empty()
                    && x.map(|(a, b)| (a.index(), b.index())).eq(w.keys.iter().copied().zip(w.values.iter().copied()))
            }
            (NodeValue::Primitive, Value::Tuple(_) | Value::Seq(_) | Value::Cntr(_) | Value::Map(_)) => false,
            (NodeValue::Primitive, _) => true,
            _ => false,
        };
        if !ok {
            return e("value");
        }
        let _ = format!("{:?}", n);
    }
    Ok(())
}

pub fn a01(c: &mut Ctx) {
    let trees = small_trees(c, 101, c.by_tier(5, 6), c.by_tier(20000, 60000));
    c.bound(format!("{} trees: every shape of at most {} nodes, plus seeded trees up to depth 4, wide trees, some with 300 children under one node, and chains up to 40 deep", trees.len(), c.by_tier(5, 6)));
    for (i, k) in trees.iter().enumerate() {
        c.case("navigator", "trees", i as u64, || show(k), || shrunk(k, &|k| check_nav(k)));
    }
}

fn check_desc(k: &Kserd) -> Result<(), String> {
    let m = model(k);
    let nav = Navigator::new(k);
    for i in 0..m.len() {
        // depth first: the whole run of nodes below i
        let mut want = Vec::new();
        for j in i + 1..m.len() {
            let mut p = m[j].parent;
            while let Some(x) = p {
                if x == i {
                    want.push(j);
                    break;
                }
                p = m[x].parent;
            }
        }
        let n = nav.get(i).ok_or("node")?;
        let got: Vec<usize> = n.descendants_depth().iter().map(|x| x.index()).collect();
        if got != want {
            return Err(format!("depth first below node {}: {:?}, expected {:?}", i, got, want));
        }
        if !n.descendants_depth().iter().all(|x| std::ptr::eq(x.kserd(), m[x.index()].kserd.unwrap())) {
            return Err("descendant is another value".into());
        }
        // breadth first: level by level, keys before values
        let kids = |x: usize| m[x].keys.iter().chain(m[x].values.iter()).copied().collect::<Vec<_>>();
        let mut want = Vec::new();
        let mut level = kids(i);
        while !level.is_empty() {
            want.extend(level.iter().copied());
            level = level.iter().flat_map(|x| kids(*x)).collect();
        }
        let got: Vec<usize> = n.descendants_breadth().iter().map(|x| x.index()).collect();
        if got != want {
            return Err(format!("breadth first below node {}: {:?}, expected {:?}", i, got, want));
        }
    }
    Ok(())
}

pub fn a02(c: &mut Ctx) {
    let trees = small_trees(c, 111, c.by_tier(5, 6), c.by_tier(20000, 60000));
    c.bound(format!("{} trees: every shape of at most {} nodes, plus seeded trees up to depth 4, wide trees, some with 300 children under one node, and chains up to 40 deep; every node of each", trees.len(), c.by_tier(5, 6)));
    for (i, k) in trees.iter().enumerate() {
        c.case("descendants", "trees", i as u64, || show(k), || shrunk(k, &|k| check_desc(k)));
    }
}

// ---------------------------------------------------------------- F01

fn own_max(m: &[Model], i: usize) -> Repr {
    let k = m[i].kserd.unwrap();
    let listy = |k: &Kserd| matches!(k.val, Value::Seq(_) | Value::Map(_));
    let in_list = m[i].parent.map_or(false, |p| listy(m[p].kserd.unwrap()));
    if child_count(k) == 0 {
        Repr::Inline
    } else if matches!(k.val, Value::Tuple(_)) || m[i].key || (in_list && listy(k)) {
        Repr::Concise
    } else {
        Repr::Verbose
    }
}

/// Apply requests to the real formatter and to the documented rules.
fn check_requests(k: &Kserd, reqs: &[(usize, u8)]) -> Result<(), String> {
    let m = model(k);
    let n = m.len();
    let mut f = Formatter::new(k);
    let mut want: Vec<Fmt> = max_reprs(k).into_iter().map(|line| Fmt { id: true, line }).collect();
    if f.fmts() != &want[..] {
        return Err(format!("new formatter has {:?}, expected {:?}", f.fmts(), want));
    }
    let below = |i: usize, mut j: usize| {
        while let Some(p) = m[j].parent {
            if p == i {
                return true;
            }
            j = p;
        }
        false
    };
    for (step, (x, q)) in reqs.iter().enumerate() {
        let (x, q) = (*x, *q);
        if q >= 3 {
            let got = f.id(x, q == 3);
            if got.is_ok() != (x < n) || (x >= n && got != Err(FmtError::IdxOutOfBounds)) {
                return Err(format!("step {}: identity request on node {} of {} gives {:?}", step, x, n, got));
            }
            if x < n {
                want[x].id = q == 3;
            }
        } else {
            let r = [Repr::Inline, Repr::Concise, Repr::Verbose][q as usize];
            let got = match q {
                0 => f.inline(x),
                1 => f.concise(x),
                _ => f.verbose(x),
            };
            let mut why: Vec<FmtError> = Vec::new();
            if x >= n {
                why.push(FmtError::IdxOutOfBounds);
            } else {
                let max = own_max(&m, x);
                if r > max {
                    let s = |r| match r {
                        Repr::Inline => "inline",
                        Repr::Concise => "concise",
                        Repr::Verbose => "verbose",
                    };
                    why.push(FmtError::RequestTooHigh(s(max), s(r)));
                }
                if x == 0 && r == Repr::Verbose && matches!(k.val, Value::Seq(_) | Value::Map(_)) {
                    why.push(FmtError::SeqMapAtRoot);
                }
                match m[x].parent.map(|p| want[p].line) {
                    Some(Repr::Inline) if r > Repr::Inline => why.push(FmtError::ParentIsInline),
                    Some(Repr::Concise) if r > Repr::Concise => why.push(FmtError::ParentIsConcise),
                    _ => (),
                }
            }
            if got.is_ok() != why.is_empty() || matches!(&got, Err(e) if !why.contains(e)) {
                return Err(format!("step {}: {:?} on node {} gives {:?}, expected {:?}", step, r, x, got, why));
            }
            if let Err(e) = &got {
                let _ = e.to_string();
            }
            if why.is_empty() {
                want[x].line = r;
                for j in x + 1..n {
                    if below(x, j) && want[j].line > r {
                        want[j].line = r;
                    }
                }
            }
        }
        if f.fmts() != &want[..] {
            return Err(format!("after step {} ({} on node {}): {:?}, expected {:?}", step, q, x, f.fmts(), want));
        }
    }
    if f.len() != n || f.as_ref().len() != n {
        return Err("navigator of the formatter".into());
    }
    Ok(())
}

pub fn f01(c: &mut Ctx) {
    let shapes = shapes_upto(c.by_tier(3, 4));
    c.bound(format!("every sequence of two requests (including out of range) on every of {} shapes of at most {} nodes", shapes.len(), c.by_tier(3, 4)));
    let mut idx = 0u64;
    for s in &shapes {
        let k = Build { counter: 0, rot: 0, ids: 1 }.build(s);
        let n = nodes(&k).len();
        let all: Vec<(usize, u8)> = (0..=n).flat_map(|x| (0..5).map(move |q| (x, q))).collect();
        for a in &all {
            for b in &all {
                let reqs = [*a, *b];
                c.case("requests", "pairs", idx, || format!("{} requests={:?}", show(&k), reqs), || check_requests(&k, &reqs));
                idx += 1;
            }
        }
    }
    let trees = small_trees(c, 121, c.by_tier(5, 5), c.by_tier(40000, 100000));
    c.bound(format!("{} trees, each with 2 seeded sequences of up to 24 requests", trees.len()));
    let mut r = Rng::new(c.seed, 122);
    for (i, k) in trees.iter().enumerate() {
        let n = nodes(k).len();
        for j in 0..2u64 {
            let reqs: Vec<(usize, u8)> = (0..1 + r.below(24)).map(|_| (r.below(n + 1), [0u8, 1, 2, 2, 2, 1, 3, 4][r.below(8)])).collect();
            c.case("requests", "sequences", i as u64 * 2 + j, || format!("{} requests={:?}", show(k), reqs), || check_requests(k, &reqs));
        }
    }
}
