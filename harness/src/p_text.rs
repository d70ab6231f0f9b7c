//! R01, R02, F02, F03: the text format.
use crate::ctx::Ctx;
use crate::gen::*;
use crate::num_spec::*;
use kserd::fmt::*;
use kserd::parse::parse;
use kserd::*;
use std::cmp::Ordering;

pub fn config(flags: u8, width: Option<u16>) -> FormattingConfig {
    FormattingConfig {
        id_on_primitives: flags & 1 != 0,
        id_on_tuples: flags & 2 != 0,
        id_on_containers: flags & 4 != 0,
        id_on_seqs: flags & 8 != 0,
        id_on_maps: flags & 16 != 0,
        width_limit: width,
    }
}

/// Whether the kind of a value shows its identity under the flags.
pub fn shows(v: &Value, flags: u8) -> bool {
    match v {
        Value::Unit => true,
        Value::Tuple(_) => flags & 2 != 0,
        Value::Cntr(_) => flags & 4 != 0,
        Value::Seq(_) => flags & 8 != 0,
        Value::Map(_) => flags & 16 != 0,
        _ => flags & 1 != 0,
    }
}

/// The text `()` stands for the unit and for the empty tuple, and for the empty container.
fn empty_like(v: &Value) -> bool {
    match v {
        Value::Unit => true,
        Value::Tuple(x) => x.is_empty(),
        Value::Cntr(x) => x.is_empty(),
        _ => false,
    }
}

/// What the text of a value must read back as: the same value with the identities that were
/// displayed. `()` reads back as the unit, `Id()` as an empty tuple. `None` if two keys of a map
/// become the same that way. `ids` lists, in depth first order, which nodes show their identity.
fn expected(k: &Kserd, ids: &[bool], at: &mut usize) -> Option<Kserd<'static>> {
    let shown = ids[*at];
    *at += 1;
    let id = if shown { k.id().map(|x| Kstr::owned(x.to_string())) } else { None };
    let val = match &k.val {
        x if empty_like(x) => {
            if id.is_some() {
                Value::Tuple(vec![])
            } else {
                Value::Unit
            }
        }
        Value::Tuple(v) => Value::Tuple(v.iter().map(|x| expected(x, ids, at)).collect::<Option<_>>()?),
        Value::Seq(v) => Value::Seq(v.iter().map(|x| expected(x, ids, at)).collect::<Option<_>>()?),
        Value::Cntr(m) => Value::Cntr(
            m.iter().map(|(n, x)| Some((Kstr::owned(n.to_string()), expected(x, ids, at)?))).collect::<Option<_>>()?,
        ),
        Value::Map(m) => {
            let n: std::collections::BTreeMap<_, _> = m
                .iter()
                .map(|(k, x)| {
                    let k = expected(k, ids, at)?;
                    Some((k, expected(x, ids, at)?))
                })
                .collect::<Option<_>>()?;
            if n.len() != m.len() {
                return None;
            }
            Value::Map(n)
        }
        x => x.clone().into_owned(),
    };
    Some(Kserd { id, val })
}

/// Same kinds, same identities, same exact numbers.
fn agree(a: &Kserd, b: &Kserd) -> Result<(), String> {
    if a.id() != b.id() {
        return Err(format!("identity {:?} read back as {:?}", a.id(), b.id()));
    }
    use Value::*;
    match (&a.val, &b.val) {
        (Unit, Unit) => Ok(()),
        (Bool(x), Bool(y)) if x == y => Ok(()),
        (Num(x), Num(y)) if spec_cmp(x, y) == Ordering::Equal => Ok(()),
        (Str(x), Str(y)) if x.as_str() == y.as_str() => Ok(()),
        (Barr(x), Barr(y)) if x.as_bytes() == y.as_bytes() => Ok(()),
        (Tuple(x), Tuple(y)) | (Seq(x), Seq(y)) if x.len() == y.len() => {
            x.iter().zip(y).try_for_each(|(p, q)| agree(p, q))
        }
        (Cntr(x), Cntr(y)) if x.len() == y.len() => x.iter().zip(y).try_for_each(|((k, p), (l, q))| {
            if k.as_str() != l.as_str() {
                return Err(format!("field {:?} read back as {:?}", k.as_str(), l.as_str()));
            }
            agree(p, q)
        }),
        (Map(x), Map(y)) if x.len() == y.len() => x.iter().zip(y).try_for_each(|((k, p), (l, q))| {
            agree(k, l)?;
            agree(p, q)
        }),
        (x, y) => Err(format!("{:?} read back as {:?}", x, y)),
    }
}

/// All nodes in depth first order, keys before their values.
pub fn walk<'x, 'k>(k: &'x Kserd<'k>, out: &mut Vec<&'x Kserd<'k>>) {
    out.push(k);
    match &k.val {
        Value::Tuple(v) | Value::Seq(v) => v.iter().for_each(|x| walk(x, out)),
        Value::Cntr(m) => m.values().for_each(|x| walk(x, out)),
        Value::Map(m) => m.iter().for_each(|(k, v)| {
            walk(k, out);
            walk(v, out)
        }),
        _ => (),
    }
}
pub fn nodes<'x, 'k>(k: &'x Kserd<'k>) -> Vec<&'x Kserd<'k>> {
    let mut v = Vec::new();
    walk(k, &mut v);
    v
}

fn round_trip(k: &Kserd, text: &str, ids: &[bool]) -> Result<(), String> {
    let got = match parse(text) {
        Ok(g) => g,
        Err(e) => return Err(format!("text does not parse: {:?} :: {}", text, e.backtrace())),
    };
    match expected(k, ids, &mut 0) {
        Some(want) => agree(&want, &got).map_err(|e| format!("{} :: text {:?}", e, text)),
        None => Ok(()),
    }
}

/// Evaluate; on failure report a smaller tree failing the same contract.
pub fn shrunk(k: &Kserd<'static>, f: &dyn Fn(&Kserd<'static>) -> Result<(), String>) -> Result<(), String> {
    let run = |k: &Kserd<'static>| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(k)));
    if let Ok(Ok(())) = run(k) {
        return Ok(());
    }
    let s = shrink(k, &|k| !matches!(run(k), Ok(Ok(()))));
    match run(&s) {
        Ok(Err(e)) => Err(format!("smallest {} :: {}", show(&s), e)),
        Err(p) => Err(format!("smallest {} :: panicked: {}", show(&s), crate::ctx::panic_text(p))),
        Ok(Ok(())) => f(k),
    }
}

const WIDTHS: &[Option<u16>] = &[None, Some(0), Some(1), Some(5), Some(10), Some(20), Some(40), Some(60), Some(100)];

fn tree_set(c: &Ctx, salt: u64) -> Vec<Kserd<'static>> {
    let mut v = Vec::new();
    for s in shapes_upto(c.by_tier(4, 5)) {
        for (rot, ids) in [(0, 1), (5, 2), (3, 0)] {
            v.push(Build { counter: 0, rot, ids }.build(&s));
        }
    }
    let mut r = Rng::new(c.seed, salt);
    for i in 0..c.by_tier(20000, 40000) {
        let cfg = TreeCfg { depth: 1 + i % 4, fan: 1 + i % 5, id_pct: [0, 30, 100][i % 3], odd_names: true };
        v.push(rand_tree(&mut r, cfg));
    }
    for i in 0..c.by_tier(400, 2000) {
        v.push(chain(&mut r, 2 + i % 14));
    }
    v.extend(broad_trees(300));
    v
}

pub fn r01(c: &mut Ctx) {
    let trees = tree_set(c, 11);
    c.bound(format!("{} trees (every shape of at most {} nodes plus seeded trees up to depth 4), each under width limits {:?} with all or seeded identity flags, and under 3 seeded sequences of formatter requests", trees.len(), c.by_tier(4, 5), WIDTHS));
    let mut r = Rng::new(c.seed, 12);
    for (i, k) in trees.iter().enumerate() {
        for (j, w) in WIDTHS.iter().enumerate() {
            let flags = if j % 2 == 0 { 31 } else { r.below(32) as u8 };
            c.case("text-round-trip", "configs", (i * 16 + j) as u64, || format!("{} flags={:05b} width={:?}", show(k), flags, w), || {
                let f = |k: &Kserd<'static>| {
                    let ids: Vec<bool> = nodes(k).iter().map(|n| shows(&n.val, flags)).collect();
                    round_trip(k, &k.as_str_with_config(config(flags, *w)), &ids)
                };
                shrunk(k, &f)
            });
        }
        for j in 0..3u64 {
            let n = nodes(k).len();
            let reqs: Vec<(usize, usize)> = (0..r.below(2 * n) + 1).map(|_| (r.below(n), r.below(5))).collect();
            c.case("formatter-round-trip", "requests", i as u64 * 3 + j, || format!("{} requests={:?}", show(k), reqs), || {
                let mut f = Formatter::new(k);
                let mut ids = vec![true; n];
                for (x, q) in &reqs {
                    let _ = match q {
                        0 => f.inline(*x),
                        1 => f.concise(*x),
                        2 => f.verbose(*x),
                        q => {
                            ids[*x] = *q == 3;
                            f.id(*x, *q == 3)
                        }
                    };
                }
                for (b, x) in ids.iter_mut().zip(nodes(k)) {
                    *b |= matches!(x.val, Value::Unit);
                }
                round_trip(k, &f.write_string(String::new()), &ids)
            });
        }
    }
}

/// Identities `true` and `false` cannot be written in front of a delimiter.
fn boolean_id(k: &Kserd) -> bool {
    nodes(k).iter().any(|n| matches!(n.id(), Some("true") | Some("false")))
}

/// Everything R02 says about one text.
fn reads(text: &str) -> Result<bool, String> {
    match parse(text) {
        Err(e) => {
            if e.is_empty() || e.len() == 0 {
                return Err("refused without any trace".into());
            }
            if e.iter().count() != e.len() || e.get(e.len()).is_some() {
                return Err("number of traces differs from the length".into());
            }
            let lines: Vec<&str> = text.lines().collect();
            for t in e.iter() {
                if text.is_empty() {
                    if (t.line, t.col, t.linestr) != (0, 0, "") {
                        return Err(format!("position {}:{} in an empty text", t.line, t.col));
                    }
                    continue;
                }
                if t.line == 0 || t.line > lines.len() {
                    return Err(format!("line {} of {}", t.line, lines.len()));
                }
                if t.linestr != lines[t.line - 1] {
                    return Err(format!("line {} is {:?}, reported as {:?}", t.line, lines[t.line - 1], t.linestr));
                }
                let start = t.linestr.as_ptr() as usize - text.as_ptr() as usize;
                if t.col == 0 || start + t.col - 1 > text.len() || t.col > t.linestr.len() + 3 {
                    return Err(format!("column {} of line {:?}", t.col, t.linestr));
                }
                if !text.is_char_boundary(start + t.col - 1) {
                    return Err(format!("column {} is inside a character of {:?}", t.col, t.linestr));
                }
                let _ = t.to_string();
            }
            let _ = (e.backtrace(), format!("{:?}", e));
            Ok(false)
        }
        Ok(k) => {
            if boolean_id(&k) {
                return Ok(true);
            }
            for w in [None, Some(0), Some(30)] {
                let ids = vec![true; nodes(&k).len()];
                round_trip(&k, &k.as_str_with_config(config(31, w)), &ids).map_err(|e| format!("accepted as {} but {}", show(&k), e))?;
            }
            Ok(true)
        }
    }
}

const TOKENS: &[&str] = &[
    "(", ")", "[", "]", "{", "}", "<", ">", ",", ":", "=", " ", "\n", "\t", "    ", "\"", "'", "a", "Id", "_", "-", "1", "0", ".", "e", "5", "true",
    "false", "str", "str'", "b91'", "nan", "inf", "[[", "]]", "[a]\n", "[[a]]\n", "[a:Id]\n", "[[b:Id]]\n", "a = ", ":Id\n", "<Id> ", "\"x\"", "()",
    "Id()", "\r\n", "é", "1_0", "a = 1\n", "{a: 1}", "[1, 2]", "(\n", "[\n", "{\n", "\n)", "\n]", "\n}", "#", "/", "\\",
];

fn tidy(mut s: String, fails: &dyn Fn(&str) -> bool) -> String {
    'outer: loop {
        let idx: Vec<usize> = s.char_indices().map(|x| x.0).collect();
        for n in [8usize, 4, 2, 1] {
            for (a, &i) in idx.iter().enumerate() {
                let e = idx.get(a + n).copied().unwrap_or(s.len());
                let t = format!("{}{}", &s[..i], &s[e..]);
                if t.len() < s.len() && fails(&t) {
                    s = t;
                    continue 'outer;
                }
            }
        }
        return s;
    }
}

fn reads_tidy(text: &str) -> Result<(), String> {
    let run = |t: &str| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| reads(t)));
    if let Ok(Ok(_)) = run(text) {
        return Ok(());
    }
    let t = tidy(text.to_string(), &|t| !matches!(run(t), Ok(Ok(_))));
    match run(&t) {
        Ok(Err(e)) => Err(format!("smallest text {:?} :: {}", t, e)),
        Err(p) => Err(format!("smallest text {:?} :: panicked: {}", t, crate::ctx::panic_text(p))),
        _ => Err("not repeatable".into()),
    }
}

fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        let n = v.len();
        let i = r.below(n + 1);
        match r.below(6) {
            0 if n > 0 => {
                v.remove(r.below(n));
            }
            1 => {
                let t = *r.pick(TOKENS);
                v.splice(i..i, t.chars());
            }
            2 if n > 0 => {
                let t = *r.pick(TOKENS);
                let i = r.below(n);
                v.splice(i..i + 1, t.chars());
            }
            3 if n > 1 => v.swap(r.below(n), r.below(n)),
            4 => v.truncate(i),
            _ => {
                let j = i + r.below(n + 1 - i);
                let part: Vec<char> = v[i..j].to_vec();
                v.splice(i..i, part);
            }
        }
    }
    v.into_iter().collect()
}

pub fn r02(c: &mut Ctx) {
    let len = 3;
    c.bound(format!("all texts of at most {} of {} tokens", len, TOKENS.len()));
    let mut idx = 0u64;
    for l in 0..=len {
        let mut at = vec![0usize; l];
        loop {
            let t: String = at.iter().map(|i| TOKENS[*i]).collect();
            c.case("reading", "token-texts", idx, || format!("{:?}", t), || reads_tidy(&t));
            idx += 1;
            let mut p = l;
            while p > 0 && at[p - 1] + 1 == TOKENS.len() {
                at[p - 1] = 0;
                p -= 1;
            }
            if p == 0 {
                break;
            }
            at[p - 1] += 1;
        }
    }
    let n = c.by_tier(250_000, 2_000_000);
    c.bound(format!("{} seeded texts of 3 to 14 tokens", n));
    let mut r = Rng::new(c.seed, 21);
    for i in 0..n {
        let t: String = (0..3 + r.below(12)).map(|_| *r.pick(TOKENS)).collect();
        c.case("reading", "random-texts", i, || format!("{:?}", t), || reads_tidy(&t));
    }
    let n = c.by_tier(120_000, 1_000_000);
    c.bound(format!("{} damaged texts of seeded values up to depth 4 under every layout", n));
    for i in 0..n {
        let k = rand_tree(&mut r, TreeCfg { depth: 1 + (i % 4) as usize, fan: 3, id_pct: 30, odd_names: true });
        let w = *r.pick(WIDTHS);
        let t = mutate(&mut r, &k.as_str_with_config(config(31, w)));
        c.case("reading", "damaged-texts", i, || format!("{:?}", t), || reads_tidy(&t));
    }
    let deep = c.by_tier(200, 600);
    c.bound(format!("openers nested {} deep, closed and unclosed", deep));
    for (i, (o, x)) in [("(", ")"), ("[", "]"), ("{1:", "}"), ("(a = ", ")"), ("[\n", "\n]"), ("(\n", "\n)"), ("{\n1: ", "\n}"), ("Id (", ")"), ("(a =\n(", "))"), ("[[", "]]"), ("{", ":1}"), ("{{", ":1}:1}")]
        .iter()
        .enumerate()
    {
        for (j, d) in [10, 30, deep].iter().enumerate() {
            for closed in 0..3 {
                let close = [0, d - 1, *d][closed];
                let t = format!("{}1{}", o.repeat(*d), x.repeat(close));
                c.case("reading", "deep-texts", (i * 9 + j * 3 + closed) as u64, || format!("{:?} x {} then 1 then {:?} x {}", o, d, x, close), || reads(&t).map(|_| ()));
            }
        }
    }
}

// ---------------------------------------------------------------- R03

/// Writes a value in the documented syntax with freely chosen layout.
struct Writer<'r> {
    r: &'r mut Rng,
    out: String,
}
impl Writer<'_> {
    fn sp(&mut self) {
        let s = *self.r.pick(&["", " ", "  ", "\t", " \t "]);
        self.out.push_str(s);
    }
    fn nl(&mut self) {
        let s = *self.r.pick(&["\n", "\n\n", "\r\n", " \n\t", "\n    ", "\n \n"]);
        self.out.push_str(s);
    }
    fn prim(&mut self, k: &Kserd) -> bool {
        if let Some(id) = k.id() {
            self.out.push('<');
            self.out.push_str(id);
            self.out.push('>');
            self.sp();
        }
        match &k.val {
            Value::Unit => {
                self.out.push('(');
                self.sp();
                self.out.push(')');
            }
            Value::Bool(b) => self.out.push_str(if *b { "true" } else { "false" }),
            Value::Num(n) => self.out.push_str(&n.to_string()),
            Value::Str(s) => {
                let ds: Vec<char> = "\"'#`|^!%~&@$;?*+/é".chars().filter(|c| !s.contains(*c)).collect();
                if ds.is_empty() {
                    return false;
                }
                let d = *self.r.pick(&ds);
                if d != '"' || self.r.below(2) == 0 {
                    self.out.push_str("str");
                }
                self.out.push(d);
                self.out.push_str(s);
                self.out.push(d);
            }
            Value::Barr(b) => {
                self.out.push_str("b91'");
                self.out.push_str(&base91_text(b));
                self.out.push('\'');
            }
            _ => return false,
        }
        true
    }
    /// Delimited form; `inline` keeps everything below on one line.
    fn delimited(&mut self, k: &Kserd, inline: bool) -> bool {
        let unit_id = matches!(k.val, Value::Unit) && k.id().is_some(); // written as `Id()`
        if !unit_id && !matches!(k.val, Value::Tuple(_) | Value::Seq(_) | Value::Cntr(_) | Value::Map(_)) {
            return self.prim(k);
        }
        if let Some(id) = k.id() {
            self.out.push_str(id);
            self.sp();
        }
        let (o, x) = match &k.val {
            Value::Seq(_) => ('[', ']'),
            Value::Map(_) => ('{', '}'),
            _ => ('(', ')'),
        };
        let n = match &k.val {
            Value::Tuple(v) | Value::Seq(v) => v.len(),
            Value::Cntr(m) => m.len(),
            Value::Map(m) => m.len(),
            _ => 0,
        };
        let multi = !inline && n > 0 && self.r.below(2) == 0;
        self.out.push(o);
        for i in 0..n {
            if multi {
                self.nl();
                self.sp();
            } else {
                if i > 0 {
                    self.sp();
                    self.out.push(',');
                }
                self.sp();
            }
            let ok = match &k.val {
                Value::Tuple(v) | Value::Seq(v) => self.delimited(&v[i], !multi),
                Value::Cntr(m) => {
                    let (name, x) = m.iter().nth(i).unwrap();
                    self.out.push_str(name);
                    self.sp();
                    self.out.push('=');
                    self.sp();
                    self.delimited(x, !multi)
                }
                Value::Map(m) => {
                    let (key, x) = m.iter().nth(i).unwrap();
                    let a = self.delimited(key, !multi);
                    self.sp();
                    self.out.push(':');
                    self.sp();
                    a && self.delimited(x, !multi)
                }
                _ => false,
            };
            if !ok {
                return false;
            }
        }
        if multi {
            self.nl();
        }
        self.sp();
        self.out.push(x);
        true
    }
    /// Fields on lines of their own. A nested heading takes every deeper indented line below it.
    fn verbose(&mut self, k: &Kserd, depth: usize) -> bool {
        let m = match &k.val {
            Value::Cntr(m) if !m.is_empty() => m,
            _ => return false,
        };
        let ind = "    ".repeat(depth);
        // plain fields first, then headed ones
        let headed = |r: &mut Rng, x: &Kserd| match &x.val {
            Value::Cntr(m) => !m.is_empty() && r.below(3) > 0,
            Value::Seq(v) => {
                !v.is_empty() && v.iter().all(|y| matches!(&y.val, Value::Cntr(m) if !m.is_empty())) && r.below(3) > 0
            }
            _ => false,
        };
        let mut late: Vec<(&Kstr, &Kserd)> = Vec::new();
        for (n, x) in m {
            if headed(self.r, x) {
                late.push((n, x));
                continue;
            }
            self.out.push_str(&ind);
            self.out.push_str(n);
            self.sp();
            self.out.push('=');
            self.sp();
            if !self.delimited(x, false) {
                return false;
            }
            self.out.push('\n');
        }
        for (n, x) in late {
            let list: Vec<&Kserd> = match &x.val {
                Value::Seq(v) => v.iter().collect(),
                _ => vec![x],
            };
            let seq = matches!(x.val, Value::Seq(_));
            for y in list {
                self.out.push_str(*self.r.pick(&["", "\n"]));
                self.out.push_str(&ind);
                self.out.push_str(if seq { "[[" } else { "[" });
                self.out.push_str(n);
                if let Some(id) = x.id() {
                    self.out.push(':');
                    self.out.push_str(id);
                }
                self.out.push_str(if seq { "]]" } else { "]" });
                self.out.push('\n');
                if let (true, Some(id)) = (seq, y.id()) {
                    self.out.push_str(&"    ".repeat(depth + 1));
                    self.out.push(':');
                    self.out.push_str(id);
                    self.out.push('\n');
                }
                if !self.verbose(y, depth + 1) {
                    return false;
                }
            }
        }
        true
    }
}

/// basE91, written from its description.
fn base91_text(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&()*+,./:;<=>?@[]^_`{|}~\"";
    let (mut acc, mut bits, mut out) = (0u32, 0u32, String::new());
    for x in b {
        acc |= (*x as u32) << bits;
        bits += 8;
        if bits > 13 {
            let mut v = acc & 8191;
            let take = if v > 88 { 13 } else { 14 };
            if take == 14 {
                v = acc & 16383;
            }
            acc >>= take;
            bits -= take;
            out.push(T[(v % 91) as usize] as char);
            out.push(T[(v / 91) as usize] as char);
        }
    }
    if bits > 0 {
        out.push(T[(acc % 91) as usize] as char);
        if bits > 7 || acc > 90 {
            out.push(T[(acc / 91) as usize] as char);
        }
    }
    out
}

pub fn r03(c: &mut Ctx) {
    let trees = tree_set(c, 31);
    let per = 10;
    c.bound(format!("{} trees, each written {} times with seeded layout (one line, several lines, headings; free blanks; every string delimiter)", trees.len(), per));
    let mut r = Rng::new(c.seed, 32);
    for (i, k) in trees.iter().enumerate() {
        for j in 0..per {
            let s0 = r.next();
            let form = r.below(4);
            let text = |k: &Kserd| {
                let mut rr = Rng::new(s0, 1);
                let mut w = Writer { r: &mut rr, out: String::new() };
                w.out.push_str(*w.r.pick(&["", " ", "\t"]));
                let ok = match form {
                    0 | 1 if matches!(&k.val, Value::Cntr(m) if !m.is_empty()) => {
                        w.out.clear();
                        w.out.push_str(*w.r.pick(&["", "\n"]));
                        if let Some(id) = k.id() {
                            w.out.push(':');
                            w.out.push_str(id);
                            w.out.push_str("\n");
                        }
                        w.verbose(k, 0)
                    }
                    2 => w.delimited(k, true),
                    _ => w.delimited(k, false),
                };
                w.out.push_str(*w.r.pick(&["", "\n", "  ", "\n\n"]));
                if ok {
                    Some(w.out)
                } else {
                    None
                }
            };
            if text(k).is_none() {
                continue;
            }
            c.case("layout", "written", (i * per + j) as u64, || format!("{} text={:?}", show(k), text(k)), || {
                let f = |k: &Kserd<'static>| match text(k) {
                    None => Ok(()),
                    Some(t) => round_trip(k, &t, &vec![true; nodes(k).len()]),
                };
                shrunk(k, &f)
            });
        }
    }
}

// ---------------------------------------------------------------- F02, F03

pub fn f02(c: &mut Ctx) {
    let mut trees = tree_set(c, 41);
    trees.extend(wild_trees(c.seed, 43, c.by_tier(1500, 6000)));
    c.bound(format!("{} trees, each under {} width limits with seeded identity flags and after seeded formatter requests", trees.len(), WIDTHS.len()));
    let mut r = Rng::new(c.seed, 42);
    for (i, k) in trees.iter().enumerate() {
        let mut r = Rng::new(r.next(), i as u64);
        c.case("formatting-total", "trees", i as u64, || show(k), || {
            let shown = k.to_string();
            if shown != k.as_str() || shown != k.as_str_with_config(FormattingConfig::default()) {
                return Err("display, as_str and the default configuration differ".into());
            }
            let before = k.clone();
            for w in WIDTHS {
                let cfg = config(r.below(32) as u8, *w);
                let mut f = Formatter::new(k);
                f.apply_config(cfg);
                let t = f.write_string(String::new());
                if t != k.as_str_with_config(cfg) {
                    return Err(format!("as_str_with_config differs from applying {:?} by hand", cfg));
                }
                if f.fmts().len() != nodes(k).len() {
                    return Err("one format per node".into());
                }
                let pre = "pre\n é";
                if f.write_string(pre.to_string()) != format!("{}{}", pre, t) {
                    return Err(format!("writing to {:?} does not append the text {:?}", pre, t));
                }
                for _ in 0..4 {
                    let n = f.fmts().len();
                    let x = r.below(n + 1);
                    let _ = match r.below(5) {
                        0 => f.inline(x),
                        1 => f.concise(x),
                        2 => f.verbose(x),
                        q => f.id(x, q == 3),
                    };
                    let a = f.write_string(String::new());
                    if f.write_string("(".into()) != format!("({}", a) || f.write_string(String::new()) != a {
                        return Err(format!("writing is not repeatable or does not append: {:?}", a));
                    }
                }
            }
            if !same(&before, k) {
                return Err("formatting changed the value".into());
            }
            Ok(())
        });
    }
}

/// The largest representation allowed, all nodes in depth first order.
pub fn max_reprs(k: &Kserd) -> Vec<Repr> {
    fn go(k: &Kserd, up: Repr, key: bool, in_list: bool, out: &mut Vec<Repr>) {
        let listy = matches!(k.val, Value::Seq(_) | Value::Map(_));
        let n = child_count(k);
        let own = if n == 0 {
            Repr::Inline
        } else if matches!(k.val, Value::Tuple(_)) || key || (in_list && listy) {
            Repr::Concise
        } else {
            Repr::Verbose
        };
        let me = own.min(up);
        out.push(me);
        match &k.val {
            Value::Tuple(v) | Value::Seq(v) => v.iter().for_each(|x| go(x, me, false, listy, out)),
            Value::Cntr(m) => m.values().for_each(|x| go(x, me, false, false, out)),
            Value::Map(m) => m.iter().for_each(|(a, b)| {
                go(a, me, true, true, out);
                go(b, me, false, true, out);
            }),
            _ => (),
        }
    }
    let mut v = Vec::new();
    let root = if matches!(k.val, Value::Seq(_) | Value::Map(_)) { Repr::Concise } else { Repr::Verbose };
    go(k, root, false, false, &mut v);
    v
}

pub fn child_count(k: &Kserd) -> usize {
    match &k.val {
        Value::Tuple(v) | Value::Seq(v) => v.len(),
        Value::Cntr(m) => m.len(),
        Value::Map(m) => m.len(),
        _ => 0,
    }
}

pub fn f03(c: &mut Ctx) {
    let mut trees = tree_set(c, 51);
    trees.extend(wild_trees(c.seed, 53, c.by_tier(600, 6000)));
    c.bound(format!("{} trees, each under {} width limits with seeded identity flags", trees.len(), WIDTHS.len()));
    let mut r = Rng::new(c.seed, 52);
    for (i, k) in trees.iter().enumerate() {
        for (j, w) in WIDTHS.iter().enumerate() {
            let flags = r.below(32) as u8;
            c.case("config", "trees", (i * 16 + j) as u64, || format!("{} flags={:05b} width={:?}", show(k), flags, w), || {
                let f = |k: &Kserd<'static>| {
                    let ns = nodes(k);
                    let mut f = Formatter::new(k);
                    f.apply_config(config(flags, *w));
                    let fm = f.fmts();
                    for (x, n) in ns.iter().enumerate() {
                        let want = match n.val {
                            Value::Tuple(_) => flags & 2,
                            Value::Cntr(_) => flags & 4,
                            Value::Seq(_) => flags & 8,
                            Value::Map(_) => flags & 16,
                            _ => flags & 1,
                        } != 0;
                        if fm[x].id != want {
                            return Err(format!("node {} shows its identity: {}, asked {}", x, fm[x].id, want));
                        }
                    }
                    let text = f.write_string(String::new());
                    match w {
                        None => {
                            if fm.iter().any(|x| x.line != Repr::Inline) {
                                return Err("no width limit, but not everything is inline".into());
                            }
                            let nl: usize = ns.iter().filter_map(|n| n.str()).map(|s| s.matches('\n').count()).sum();
                            let odd = ns.iter().any(|n| {
                                n.id().map_or(false, |x| x.contains('\n'))
                                    || matches!(&n.val, Value::Cntr(m) if m.keys().any(|x| x.contains('\n')))
                            });
                            if !odd && text.matches('\n').count() != nl {
                                return Err(format!("no width limit, but several lines: {:?}", text));
                            }
                        }
                        Some(0) => {
                            let got: Vec<Repr> = fm.iter().map(|x| x.line).collect();
                            if got != max_reprs(k) {
                                return Err(format!("width limit 0 gives {:?}, the most verbose is {:?}", got, max_reprs(k)));
                            }
                        }
                        Some(_) => (),
                    }
                    Ok(())
                };
                shrunk(k, &f)
            });
        }
    }
}
