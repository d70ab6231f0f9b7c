//! Vocabulary of the contracts attached to the crate's functions (see contracts.py).
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
pub use vstd::std_specs::iter::IteratorSpec;
use crate::nav::*;
use crate::fmt::*;
use crate::*;
pub use std::borrow::Cow;
use std::collections::BTreeMap;
pub use std::cmp::Ordering;
pub use vstd::std_specs::btree;

/// A debug assertion, left out.
#[macro_export]
macro_rules! unchecked { ($($t:tt)*) => { () } }


verus! {

// ---------------------------------------------------------------- assumed: std functions without a vstd contract

pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a.is_some() { a } else { b });

pub assume_specification<T: std::default::Default + std::marker::Destruct, E: std::marker::Destruct>[ Result::<T, E>::unwrap_or_default ](a: Result<T, E>) -> (r: T)
    ensures a matches Ok(x) ==> r == x;

pub assume_specification<T: std::cmp::Ord + std::marker::Destruct>[ std::cmp::max ](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == std::cmp::Ordering::Greater { a } else { b });

pub assume_specification<T: std::cmp::Ord + std::marker::Destruct>[ std::cmp::min ](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == std::cmp::Ordering::Less { b } else { a });

pub assume_specification<'a, 'b, T>[ <std::slice::Iter<'a, T> as std::convert::AsRef<[T]>>::as_ref ](it: &'b std::slice::Iter<'a, T>) -> (r: &'b [T])
    ensures r@.len() == it.remaining().len();

/// What a Cow's own data is seen as when borrowed.
pub uninterp spec fn owned_ref<B: ?Sized + ToOwned>(o: &B::Owned) -> &B;

pub open spec fn cow_ref<'a, B: ?Sized + ToOwned>(c: Cow<'a, B>) -> &'a B {
    match c { Cow::Borrowed(b) => b, Cow::Owned(o) => owned_ref::<B>(&o) }
}

pub broadcast axiom fn owned_str(o: &String)
    ensures (#[trigger] owned_ref::<str>(o))@ == o@;

pub broadcast axiom fn owned_bytes(o: &Vec<u8>)
    ensures (#[trigger] owned_ref::<[u8]>(o))@ == o@;

/// Iterating a map ends (vstd says so only for keys equal exactly when identical).
pub broadcast axiom fn map_iter_ends<K, V>(it: std::collections::btree_map::Iter<K, V>)
    ensures (#[trigger] it.decrease()).is_some();

pub broadcast group facts { owned_str, owned_bytes, found_char, map_iter_ends, order_usize, order_u8, order_bool, equal_bool, copy_is, copy_value_is, copy_leaf, char_text, fields_same }

pub assume_specification<'a, 'b, B: ?Sized + ToOwned>[ <Cow<'a, B> as std::ops::Deref>::deref ](c: &'b Cow<'a, B>) -> (r: &'b B)
    ensures r == cow_ref(*c);

pub assume_specification<'a, 'b, B: ?Sized + ToOwned>[ Cow::<'a, B>::to_mut ](c: &'b mut Cow<'a, B>) -> (r: &'b mut <B as ToOwned>::Owned)
    ensures owned_ref::<B>(r) == cow_ref(*old(c)), *final(c) == Cow::<'a, B>::Owned(*final(r));

pub assume_specification<'a, B: ?Sized + ToOwned>[ Cow::<'a, B>::into_owned ](c: Cow<'a, B>) -> (r: <B as ToOwned>::Owned)
    ensures owned_ref::<B>(&r) == cow_ref(c);

pub assume_specification<'a>[ <std::str::Chars<'a> as std::iter::Iterator>::count ](c: std::str::Chars<'a>) -> (r: usize)
    ensures r == c.remaining().len();

#[verifier::external_trait_specification]
pub trait ExPattern: Sized { type ExternalTraitSpecificationFor: std::str::pattern::Pattern; }

pub uninterp spec fn found<P>(s: Seq<char>, p: P) -> bool;

pub broadcast axiom fn found_char(s: Seq<char>, c: char)
    ensures #[trigger] found(s, c) == s.contains(c);

pub assume_specification<P: std::str::pattern::Pattern>[ str::contains::<P> ](s: &str, p: P) -> (r: bool)
    ensures r == found(s@, p);

pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool)
    ensures r == ('0' <= *c && *c <= '9');

pub open spec fn any_is<T, F: FnMut(T) -> bool>(s: Seq<T>, f: F, r: bool) -> bool {
    &&& r ==> exists|i: int| 0 <= i < s.len() && call_ensures(f, (#[trigger] s[i],), true)
    &&& !r ==> forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (#[trigger] s[i],), false)
}

/// Provided iterator methods, which Verus cannot attach a contract to, called through a wrapper that has one.
pub trait Wrapped: Iterator + Sized {
    fn any_of<F: FnMut(Self::Item) -> bool>(&mut self, f: F) -> (r: bool)
        ensures any_is(old(self).remaining(), f, r);

    fn map_of<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: std::iter::Map<Self, F>)
        ensures
            yields(r).len() == self.remaining().len(),
            forall|i: int| 0 <= i < yields(r).len() ==> call_ensures(f, (self.remaining()[i],), #[trigger] yields(r)[i]);

    fn collect_of<B: FromIterator<Self::Item>>(self) -> (r: B)
        ensures gathered(r);
}

impl<I: Iterator> Wrapped for I {
    #[verifier::external_body]
    fn any_of<F: FnMut(Self::Item) -> bool>(&mut self, f: F) -> (r: bool) { self.any(f) }

    #[verifier::external_body]
    fn map_of<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: std::iter::Map<Self, F>) { self.map(f) }

    #[verifier::external_body]
    fn collect_of<B: FromIterator<Self::Item>>(self) -> (r: B) { self.collect() }
}

// ---------------------------------------------------------------- comparison

/// What the == and cmp of these types answer: numbers by N01 (Kani), the rest by the standard library,
/// element by element with the elements' own == and cmp.
pub uninterp spec fn equal<T>(a: T, b: T) -> bool;
pub uninterp spec fn order<T>(a: T, b: T) -> Ordering;

pub trait Compared: Sized {
    fn eq_of(&self, o: &Self) -> (r: bool) ensures r == equal(*self, *o);
    fn cmp_of(&self, o: &Self) -> (r: Ordering) ensures r == order(*self, *o);
}

macro_rules! compared { ($($t:ty),*) => { verus! { $(
impl<'a> Compared for $t {
    #[verifier::external_body]
    fn eq_of(&self, o: &Self) -> (r: bool) { self == o }
    #[verifier::external_body]
    fn cmp_of(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
}
)* } } }
compared!(bool, usize, u8, Number, Kstr<'a>, Barr<'a>, List<'a>, Fields<'a>, crate::Map<'a>);

pub open spec fn by_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub broadcast axiom fn order_usize(a: usize, b: usize) ensures #[trigger] order(a, b) == by_int(a as int, b as int);
pub broadcast axiom fn order_u8(a: u8, b: u8) ensures #[trigger] order(a, b) == by_int(a as int, b as int);
pub broadcast axiom fn order_bool(a: bool, b: bool) ensures #[trigger] order(a, b) == (if a == b { Ordering::Equal } else if b { Ordering::Less } else { Ordering::Greater });
pub broadcast axiom fn equal_bool(a: bool, b: bool) ensures #[trigger] equal(a, b) == (a == b);

pub open spec fn rank_of(v: Value) -> u8 {
    match v {
        Value::Unit => 0, Value::Bool(_) => 1, Value::Num(_) => 2, Value::Str(_) => 3, Value::Barr(_) => 4,
        Value::Tuple(_) => 5, Value::Cntr(_) => 6, Value::Seq(_) => 7, Value::Map(_) => 8,
    }
}

pub open spec fn nobody(v: Value) -> bool {
    match v { Value::Tuple(x) => x@.len() == 0, Value::Cntr(x) => x@.len() == 0, _ => false }
}

pub open spec fn value_eq(a: Value, b: Value) -> bool {
    if nobody(a) && nobody(b) && rank_of(a) != rank_of(b) { true }
    else {
        match (a, b) {
            (Value::Unit, Value::Unit) => true,
            (Value::Bool(x), Value::Bool(y)) => x == y,
            (Value::Num(x), Value::Num(y)) => equal(x, y),
            (Value::Str(x), Value::Str(y)) => equal(x, y),
            (Value::Barr(x), Value::Barr(y)) => equal(x, y),
            (Value::Tuple(x), Value::Tuple(y)) => equal(x, y),
            (Value::Cntr(x), Value::Cntr(y)) => equal(x, y),
            (Value::Seq(x), Value::Seq(y)) => equal(x, y),
            (Value::Map(x), Value::Map(y)) => equal(x, y),
            _ => false,
        }
    }
}

pub open spec fn value_cmp(a: Value, b: Value) -> Ordering {
    if a is Tuple && b is Cntr && nobody(b) { if nobody(a) { Ordering::Equal } else { Ordering::Greater } }
    else if a is Cntr && b is Tuple && nobody(a) { if nobody(b) { Ordering::Equal } else { Ordering::Less } }
    else {
        match (a, b) {
            (Value::Bool(x), Value::Bool(y)) => if x == y { Ordering::Equal } else if y { Ordering::Less } else { Ordering::Greater },
            (Value::Num(x), Value::Num(y)) => order(x, y),
            (Value::Str(x), Value::Str(y)) => order(x, y),
            (Value::Barr(x), Value::Barr(y)) => order(x, y),
            (Value::Tuple(x), Value::Tuple(y)) => order(x, y),
            (Value::Cntr(x), Value::Cntr(y)) => order(x, y),
            (Value::Seq(x), Value::Seq(y)) => order(x, y),
            (Value::Map(x), Value::Map(y)) => order(x, y),
            _ => by_int(rank_of(a) as int, rank_of(b) as int),
        }
    }
}

pub axiom fn ordering_eq()
    ensures <Ordering as PartialEqSpec>::obeys_eq_spec(), forall|x: Ordering, y: Ordering| #[trigger] x.eq_spec(&y) == (x == y);

/// A total order with its equality.
pub open spec fn lawful<T>(eq: spec_fn(T, T) -> bool, cmp: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|x: T, y: T| #![trigger cmp(x, y)] (cmp(x, y) == Ordering::Equal) == eq(x, y)
    &&& forall|x: T, y: T| #![trigger cmp(x, y)] (cmp(x, y) == Ordering::Less) == (cmp(y, x) == Ordering::Greater)
    &&& forall|x: T| #![trigger cmp(x, x)] cmp(x, x) == Ordering::Equal
    &&& forall|x: T, y: T, z: T| #![trigger cmp(x, y), cmp(y, z)] cmp(x, y) != Ordering::Greater && cmp(y, z) != Ordering::Greater ==>
        cmp(x, z) != Ordering::Greater && (cmp(x, z) == Ordering::Equal ==> cmp(x, y) == Ordering::Equal && cmp(y, z) == Ordering::Equal)
}
pub open spec fn std_lawful<T>() -> bool { lawful(|x: T, y: T| equal(x, y), |x: T, y: T| order(x, y)) }

pub open spec fn parts_lawful<'a>() -> bool {
    &&& std_lawful::<Number>() && std_lawful::<Kstr<'a>>() && std_lawful::<Barr<'a>>()
    &&& std_lawful::<List<'a>>() && std_lawful::<Fields<'a>>() && std_lawful::<crate::Map<'a>>()
    &&& forall|x: List<'a>, y: List<'a>| x@.len() == 0 ==> #[trigger] order(x, y) == (if y@.len() == 0 { Ordering::Equal } else { Ordering::Less })
    &&& forall|x: Fields<'a>, y: Fields<'a>| x@.len() == 0 ==> #[trigger] order(x, y) == (if y@.len() == 0 { Ordering::Equal } else { Ordering::Less })
}

pub proof fn laws_of<T>(x: T, y: T, z: T)
    requires std_lawful::<T>()
    ensures
        (order(x, y) == Ordering::Equal) == equal(x, y),
        (order(x, y) == Ordering::Less) == (order(y, x) == Ordering::Greater),
        (order(y, z) == Ordering::Less) == (order(z, y) == Ordering::Greater),
        order(x, x) == Ordering::Equal,
        order(x, y) != Ordering::Greater && order(y, z) != Ordering::Greater ==>
            order(x, z) != Ordering::Greater && (order(x, z) == Ordering::Equal ==> order(x, y) == Ordering::Equal && order(y, z) == Ordering::Equal)
{
    let cmp = |x: T, y: T| order(x, y);
    assert((cmp(x, y) == Ordering::Equal) == equal(x, y));
    assert((cmp(y, z) == Ordering::Equal) == equal(y, z));
    assert((cmp(x, x) == Ordering::Equal) == equal(x, x));
}

/// The order of values is total and agrees with their equality when that of their parts is and does.
pub proof fn value_order_total<'a>(a: Value<'a>, b: Value<'a>, c: Value<'a>)
    requires parts_lawful()
    ensures
        (value_cmp(a, b) == Ordering::Equal) == value_eq(a, b),
        (value_cmp(a, b) == Ordering::Less) == (value_cmp(b, a) == Ordering::Greater),
        value_cmp(a, a) == Ordering::Equal,
        value_cmp(a, b) != Ordering::Greater && value_cmp(b, c) != Ordering::Greater ==>
            value_cmp(a, c) != Ordering::Greater && (value_cmp(a, c) == Ordering::Equal ==> value_cmp(a, b) == Ordering::Equal && value_cmp(b, c) == Ordering::Equal)
{
    match (a, b, c) {
        (Value::Num(x), Value::Num(y), Value::Num(z)) => laws_of(x, y, z),
        (Value::Num(x), Value::Num(y), _) => { laws_of(x, y, y); laws_of(y, x, x); },
        (Value::Num(x), _, _) => laws_of(x, x, x),
        (Value::Str(x), Value::Str(y), Value::Str(z)) => laws_of(x, y, z),
        (Value::Str(x), Value::Str(y), _) => { laws_of(x, y, y); laws_of(y, x, x); },
        (Value::Str(x), _, _) => laws_of(x, x, x),
        (Value::Barr(x), Value::Barr(y), Value::Barr(z)) => laws_of(x, y, z),
        (Value::Barr(x), Value::Barr(y), _) => { laws_of(x, y, y); laws_of(y, x, x); },
        (Value::Barr(x), _, _) => laws_of(x, x, x),
        (Value::Seq(x), Value::Seq(y), Value::Seq(z)) => laws_of(x, y, z),
        (Value::Seq(x), Value::Seq(y), _) => { laws_of(x, y, y); laws_of(y, x, x); },
        (Value::Seq(x), _, _) => laws_of(x, x, x),
        (Value::Map(x), Value::Map(y), Value::Map(z)) => laws_of(x, y, z),
        (Value::Map(x), Value::Map(y), _) => { laws_of(x, y, y); laws_of(y, x, x); },
        (Value::Map(x), _, _) => laws_of(x, x, x),
        (Value::Tuple(x), Value::Tuple(y), Value::Tuple(z)) => laws_of(x, y, z),
        (Value::Tuple(x), Value::Tuple(y), _) => { laws_of(x, y, y); laws_of(y, x, x); },
        (Value::Tuple(x), _, Value::Tuple(z)) => { laws_of(x, z, z); laws_of(z, x, x); },
        (Value::Tuple(x), Value::Cntr(y), Value::Cntr(z)) => { laws_of(y, z, z); laws_of(z, y, y); laws_of(x, x, x); },
        (Value::Tuple(x), _, _) => laws_of(x, x, x),
        (Value::Cntr(x), Value::Cntr(y), Value::Cntr(z)) => laws_of(x, y, z),
        (Value::Cntr(x), Value::Cntr(y), _) => { laws_of(x, y, y); laws_of(y, x, x); },
        (Value::Cntr(x), Value::Tuple(y), Value::Tuple(z)) => { laws_of(y, z, z); laws_of(z, y, y); laws_of(x, x, x); },
        (Value::Cntr(x), _, Value::Cntr(z)) => { laws_of(x, z, z); laws_of(z, x, x); },
        (Value::Cntr(x), _, _) => laws_of(x, x, x),
        _ => {},
    }
}

impl<'a> PartialEqSpecImpl for Value<'a> {
    open spec fn obeys_eq_spec() -> bool { parts_lawful() }
    open spec fn eq_spec(&self, o: &Self) -> bool { value_eq(*self, *o) }
}
impl<'a> PartialOrdSpecImpl for Value<'a> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(value_cmp(*self, *o)) }
}
impl<'a> OrdSpecImpl for Value<'a> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { value_cmp(*self, *o) }
}
impl<'a> PartialEqSpecImpl for Kserd<'a> {
    open spec fn obeys_eq_spec() -> bool { parts_lawful() }
    open spec fn eq_spec(&self, o: &Self) -> bool { value_eq(self.val, o.val) }
}
impl<'a> PartialOrdSpecImpl for Kserd<'a> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(value_cmp(self.val, o.val)) }
}
impl<'a> OrdSpecImpl for Kserd<'a> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { value_cmp(self.val, o.val) }
}

// ---------------------------------------------------------------- names

pub open spec fn id_bad(c: char) -> bool {
    c == '(' || c == ')' || c == '{' || c == '}' || c == '[' || c == ']' || c == '<' || c == '>' || c == ' ' || c == ',' || c == '.'
    || c == '/' || c == '\\' || c == '='
}

pub open spec fn id_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !id_bad(#[trigger] s[i]) }

pub open spec fn name_bad(c: char) -> bool {
    c == ' ' || c == '/' || c == '\\' || c == '"' || c == '\'' || c == '\t'
}

pub open spec fn name_start(s: Seq<char>) -> bool { s.len() > 0 && !('0' <= s[0] && s[0] <= '9') }

pub open spec fn name_ok(s: Seq<char>) -> bool { name_start(s) && forall|i: int| 0 <= i < s.len() ==> !name_bad(#[trigger] s[i]) }

pub open spec fn names_ok(s: Seq<(&Kstr, &Kserd)>) -> bool { forall|i: int| 0 <= i < s.len() ==> name_ok(text(*(#[trigger] s[i]).0)) }

pub uninterp spec fn gathered<B>(b: B) -> bool;

// ---------------------------------------------------------------- values

pub open spec fn text(k: Kstr) -> Seq<char> { cow_ref(k.inner)@ }
pub open spec fn bytes(b: Barr) -> Seq<u8> { cow_ref(b.inner)@ }
pub open spec fn data(s: String) -> Seq<char> { s@ }

// ---------------------------------------------------------------- copies

/// A map's entries in the order it iterates them, and the entries inserted one by one to make a map from an empty one.
pub uninterp spec fn entries<K, V>(m: BTreeMap<K, V>) -> Seq<(K, V)>;
pub uninterp spec fn inserted<K, V>(m: BTreeMap<K, V>) -> Seq<(K, V)>;

#[verifier::external_body]
pub fn made<K, V>() -> (r: BTreeMap<K, V>) ensures inserted(r) == Seq::<(K, V)>::empty() { BTreeMap::new() }

pub trait Entries<K, V>: Sized {
    spec fn it(&self) -> BTreeMap<K, V>;
    fn insert_of(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures inserted(final(self).it()) == inserted(old(self).it()).push((k, v));
    fn entries_of(self) -> (r: Vec<(K, V)>) ensures r@ == entries(self.it());
    fn refs_of<'x>(&'x self) -> (r: Vec<(&'x K, &'x V)>)
        ensures r@.len() == entries(self.it()).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == entries(self.it())[i].0 && *r@[i].1 == entries(self.it())[i].1;
}

macro_rules! entries_impl { ($($k:ty),*) => { verus! { $(
impl<'a> Entries<$k, Kserd<'a>> for BTreeMap<$k, Kserd<'a>> {
    open spec fn it(&self) -> BTreeMap<$k, Kserd<'a>> { *self }
    #[verifier::external_body]
    fn insert_of(&mut self, k: $k, v: Kserd<'a>) -> (r: Option<Kserd<'a>>) { self.insert(k, v) }
    #[verifier::external_body]
    fn entries_of(self) -> (r: Vec<($k, Kserd<'a>)>) { self.into_iter().collect() }
    #[verifier::external_body]
    fn refs_of<'x>(&'x self) -> (r: Vec<(&'x $k, &'x Kserd<'a>)>) { self.iter().collect() }
}
)* } } }
entries_impl!(Kstr<'a>, Kserd<'a>);

/// 0: a copy, 1: a copy that owns its data, 2: a copy that borrows it
pub open spec fn kept_str(mode: int, a: Kstr, b: Kstr) -> bool {
    text(a) == text(b) && (mode == 1 ==> b.inner is Owned) && (mode == 2 ==> b.inner is Borrowed)
}
pub open spec fn kept_bytes(mode: int, a: Barr, b: Barr) -> bool {
    bytes(a) == bytes(b) && (mode == 1 ==> b.inner is Owned) && (mode == 2 ==> b.inner is Borrowed)
}
pub open spec fn kept_id(mode: int, a: Option<Kstr>, b: Option<Kstr>) -> bool {
    match (a, b) { (Some(x), Some(y)) => kept_str(mode, x, y), (None, None) => true, _ => false }
}

/// b is a copy of a, looking n levels deep.
pub open spec fn kept(mode: int, a: Kserd, b: Kserd, n: nat) -> bool decreases n, 1nat {
    n == 0 || (kept_id(mode, a.id, b.id) && kept_value(mode, a.val, b.val, n))
}
pub open spec fn kept_value(mode: int, a: Value, b: Value, n: nat) -> bool decreases n, 0nat {
    n == 0 || match (a, b) {
        (Value::Unit, Value::Unit) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Num(x), Value::Num(y)) => x == y,
        (Value::Str(x), Value::Str(y)) => kept_str(mode, x, y),
        (Value::Barr(x), Value::Barr(y)) => kept_bytes(mode, x, y),
        (Value::Tuple(x), Value::Tuple(y)) => kept_list(mode, x@, y@, (n - 1) as nat),
        (Value::Seq(x), Value::Seq(y)) => kept_list(mode, x@, y@, (n - 1) as nat),
        (Value::Cntr(x), Value::Cntr(y)) => kept_fields(mode, entries(x), inserted(y), (n - 1) as nat),
        (Value::Map(x), Value::Map(y)) => kept_pairs(mode, entries(x), inserted(y), (n - 1) as nat),
        _ => false,
    }
}
pub open spec fn kept_list(mode: int, a: Seq<Kserd>, b: Seq<Kserd>, n: nat) -> bool decreases n, 2nat {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> kept(mode, #[trigger] a[i], b[i], n)
}
pub open spec fn kept_fields(mode: int, a: Seq<(Kstr, Kserd)>, b: Seq<(Kstr, Kserd)>, n: nat) -> bool decreases n, 2nat {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> kept_str(mode, (#[trigger] a[i]).0, b[i].0) && kept(mode, a[i].1, b[i].1, n)
}
pub open spec fn kept_pairs(mode: int, a: Seq<(Kserd, Kserd)>, b: Seq<(Kserd, Kserd)>, n: nat) -> bool decreases n, 2nat {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> kept(mode, (#[trigger] a[i]).0, b[i].0, n) && kept(mode, a[i].1, b[i].1, n)
}
#[verifier::opaque]
pub open spec fn copy(mode: int, a: Kserd, b: Kserd) -> bool { forall|n: nat| #[trigger] kept(mode, a, b, n) }
#[verifier::opaque]
pub open spec fn copy_value(mode: int, a: Value, b: Value) -> bool { forall|n: nat| #[trigger] kept_value(mode, a, b, n) }

pub open spec fn copy_list(mode: int, a: Seq<Kserd>, b: Seq<Kserd>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> copy(mode, a[i], #[trigger] b[i])
}
pub open spec fn copy_fields(mode: int, a: Seq<(Kstr, Kserd)>, b: Seq<(Kstr, Kserd)>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> kept_str(mode, a[i].0, (#[trigger] b[i]).0) && copy(mode, a[i].1, b[i].1)
}
pub open spec fn copy_pairs(mode: int, a: Seq<(Kserd, Kserd)>, b: Seq<(Kserd, Kserd)>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> copy(mode, a[i].0, (#[trigger] b[i]).0) && copy(mode, a[i].1, b[i].1)
}
pub open spec fn copy_parts(mode: int, a: Value, b: Value) -> bool {
    match (a, b) {
        (Value::Unit, Value::Unit) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Num(x), Value::Num(y)) => x == y,
        (Value::Str(x), Value::Str(y)) => kept_str(mode, x, y),
        (Value::Barr(x), Value::Barr(y)) => kept_bytes(mode, x, y),
        (Value::Tuple(x), Value::Tuple(y)) => copy_list(mode, x@, y@),
        (Value::Seq(x), Value::Seq(y)) => copy_list(mode, x@, y@),
        (Value::Cntr(x), Value::Cntr(y)) => copy_fields(mode, entries(x), inserted(y)),
        (Value::Map(x), Value::Map(y)) => copy_pairs(mode, entries(x), inserted(y)),
        _ => false,
    }
}

pub broadcast proof fn copy_is(mode: int, a: Kserd, b: Kserd)
    ensures #[trigger] copy(mode, a, b) == (kept_id(mode, a.id, b.id) && copy_value(mode, a.val, b.val))
{
    reveal(copy);
    reveal(copy_value);
    if kept_id(mode, a.id, b.id) && copy_value(mode, a.val, b.val) {
        assert forall|n: nat| #[trigger] kept(mode, a, b, n) by { assert(kept_value(mode, a.val, b.val, n)); }
    }
    if copy(mode, a, b) {
        assert(kept(mode, a, b, 1));
        assert forall|n: nat| #[trigger] kept_value(mode, a.val, b.val, n) by { assert(kept(mode, a, b, n)); }
    }
}

pub broadcast proof fn copy_value_is(mode: int, a: Value, b: Value)
    requires copy_parts(mode, a, b)
    ensures #[trigger] copy_value(mode, a, b)
{
    reveal(copy);
    reveal(copy_value);
    assert forall|n: nat| #[trigger] kept_value(mode, a, b, n) by {
        if n > 0 {
            let k = (n - 1) as nat;
            match (a, b) {
                (Value::Tuple(x), Value::Tuple(y)) => { assert forall|i: int| 0 <= i < x@.len() implies kept(mode, #[trigger] x@[i], y@[i], k) by { assert(copy(mode, x@[i], y@[i])); } assert(kept_list(mode, x@, y@, k)); },
                (Value::Seq(x), Value::Seq(y)) => { assert forall|i: int| 0 <= i < x@.len() implies kept(mode, #[trigger] x@[i], y@[i], k) by { assert(copy(mode, x@[i], y@[i])); } assert(kept_list(mode, x@, y@, k)); },
                (Value::Cntr(x), Value::Cntr(y)) => {
                    let (p, q) = (entries(x), inserted(y));
                    assert forall|i: int| 0 <= i < p.len() implies kept_str(mode, (#[trigger] p[i]).0, q[i].0) && kept(mode, p[i].1, q[i].1, k) by { assert(copy(mode, p[i].1, q[i].1)); }
                    assert(kept_fields(mode, p, q, k));
                },
                (Value::Map(x), Value::Map(y)) => {
                    let (p, q) = (entries(x), inserted(y));
                    assert forall|i: int| 0 <= i < p.len() implies kept(mode, (#[trigger] p[i]).0, q[i].0, k) && kept(mode, p[i].1, q[i].1, k) by { assert(copy(mode, p[i].0, q[i].0)); assert(copy(mode, p[i].1, q[i].1)); }
                    assert(kept_pairs(mode, p, q, k));
                },
                _ => {},
            }
        }
    }
}

pub broadcast proof fn copy_leaf(mode: int, a: Value, b: Value)
    requires #[trigger] copy_value(mode, a, b)
    ensures
        match (a, b) {
            (Value::Unit, Value::Unit) => true,
            (Value::Bool(x), Value::Bool(y)) => x == y,
            (Value::Num(x), Value::Num(y)) => x == y,
            (Value::Str(x), Value::Str(y)) => kept_str(mode, x, y),
            (Value::Barr(x), Value::Barr(y)) => kept_bytes(mode, x, y),
            (Value::Tuple(x), Value::Tuple(y)) => true,
            (Value::Seq(x), Value::Seq(y)) => true,
            (Value::Cntr(x), Value::Cntr(y)) => true,
            (Value::Map(x), Value::Map(y)) => true,
            _ => false,
        }
{
    reveal(copy_value);
    assert(kept_value(mode, a, b, 1));
}

/// The derived and library clones: texts and bytes keep their data, lists and maps clone each element with its own clone.
pub trait Cloned: Sized {
    spec fn copied(a: Self, b: Self) -> bool;
    fn clone_of(&self) -> (r: Self) ensures Self::copied(*self, r);
}

macro_rules! cloned_impl { ($($t:ty, $a:ident, $b:ident, $e:expr;)*) => { verus! { $(
impl<'a> Cloned for $t {
    open spec fn copied($a: Self, $b: Self) -> bool { $e }
    #[verifier::external_body]
    fn clone_of(&self) -> (r: Self) { self.clone() }
}
)* } } }
cloned_impl! {
    Kstr<'a>, a, b, kept_str(0, a, b);
    Barr<'a>, a, b, kept_bytes(0, a, b);
    Option<Kstr<'a>>, a, b, kept_id(0, a, b);
    List<'a>, a, b, copy_list(0, a.view(), b.view());
    Fields<'a>, a, b, copy_fields(0, entries(a), inserted(b));
    crate::Map<'a>, a, b, copy_pairs(0, entries(a), inserted(b));
}
impl<'a> Cloned for Value<'a> {
    open spec fn copied(a: Self, b: Self) -> bool { copy_value(0, a, b) }
    fn clone_of(&self) -> (r: Self) { self.clone() }
}

/// What a number converts to; the meaning of these is N03's (Kani).
pub uninterp spec fn to_uint(n: Number) -> Option<u128>;
pub uninterp spec fn to_int(n: Number) -> Option<i128>;
pub uninterp spec fn to_float(n: Number) -> f64;

// ---------------------------------------------------------------- navigator

/// References to exactly these items, in order.
pub open spec fn refs(r: Seq<&usize>, s: Seq<usize>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r[i]) == s[i]
}

pub type Inner<'a, 'k> = Seq<NodeInner<'a, 'k>>;

/// How many children a node has, keys and values.
pub open spec fn nkids(n: NodeInner) -> int {
    (n.key_children@.len() + n.value_children@.len()) as int
}

/// The k-th child of a node in the order of the data: a map's keys and values alternate.
pub open spec fn kid(n: NodeInner, k: int) -> int {
    if n.key_children@.len() == 0 {
        n.value_children@[k] as int
    } else if k % 2 == 0 {
        n.key_children@[k / 2] as int
    } else {
        n.value_children@[k / 2] as int
    }
}

/// Children in j positions: two per position in a map, one otherwise.
pub open spec fn upto(n: NodeInner, j: int) -> int {
    if n.key_children@.len() == 0 { j } else { 2 * j }
}

/// One past the last node below node i.
#[verifier::opaque]
pub open spec fn end(s: Inner, i: int) -> int
    decreases s.len() - i
{
    if 0 <= i < s.len() && nkids(s[i]) > 0 && i < kid(s[i], nkids(s[i]) - 1) < s.len() {
        end(s, kid(s[i], nkids(s[i]) - 1))
    } else {
        i + 1
    }
}

/// The child's own record of its place agrees with its parent's.
pub open spec fn placed(p: NodeInner, c: NodeInner) -> bool {
    match c.key_idx_in_parent {
        Some(x) => c.value_idx_in_parent.is_none() && x < p.key_children@.len() && p.key_children@[x as int] == c.idx,
        None => c.value_idx_in_parent matches Some(x) && x < p.value_children@.len() && p.value_children@[x as int] == c.idx,
    }
}

/// The links of node i agree with those of its children, which follow it in depth-first order.
pub open spec fn links(s: Inner, i: int) -> bool {
    let vs = s[i].value_children@;
    let ks = s[i].key_children@;
    &&& s[i].idx == i
    &&& ks.len() == 0 || ks.len() == vs.len()
    &&& forall|j: int| #![trigger vs[j]] 0 <= j < vs.len() ==> i < vs[j] < s.len()
    &&& forall|j: int| #![trigger ks[j]] 0 <= j < ks.len() ==> i < ks[j] < s.len()
    &&& nkids(s[i]) < s.len()
    &&& nkids(s[i]) > 0 ==> kid(s[i], 0) == i + 1
    &&& i == 0 ==> s[i].parent.is_none()
    &&& i > 0 ==> s[i].parent.is_some() && s[i].parent.unwrap() < i && placed(s[s[i].parent.unwrap() as int], s[i])
    &&& forall|k: int, l: int| #![trigger kid(s[i], k), kid(s[i], l)] 0 <= k && l == k + 1 && l < nkids(s[i]) ==>
            kid(s[i], l) == end(s, kid(s[i], k))
}

pub open spec fn wf(s: Inner) -> bool {
    &&& 0 < s.len() < usize::MAX
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] links(s, i)
}

/// wf is satisfiable: a navigator of a leaf.
pub proof fn wf_leaf(s: Inner)
    requires s.len() == 1, s[0].idx == 0, s[0].parent.is_none(), s[0].value_children@.len() == 0, s[0].key_children@.len() == 0,
    ensures wf(s),
{
    assert(links(s, 0));
}

/// What wf says about node i.
pub proof fn at(s: Inner, i: int)
    requires wf(s), 0 <= i < s.len(),
    ensures
        links(s, i),
        forall|k: int| 0 <= k < nkids(s[i]) ==> i < #[trigger] kid(s[i], k) < s.len(),
        end(s, i) == (if nkids(s[i]) == 0 { i + 1 } else { end(s, kid(s[i], nkids(s[i]) - 1)) }),
{
    assert(links(s, i));
    assert forall|k: int| 0 <= k < nkids(s[i]) implies i < #[trigger] kid(s[i], k) < s.len() by {
        let vs = s[i].value_children@;
        let ks = s[i].key_children@;
        if ks.len() == 0 { assert(i < vs[k] < s.len()); } else if k % 2 == 0 { assert(i < ks[k / 2] < s.len()); } else { assert(i < vs[k / 2] < s.len()); }
    }
    reveal_with_fuel(end, 2);
}


impl<'a, 'k, 'nav> vstd::std_specs::iter::IteratorSpecImpl for NodeIter<'a, 'k, 'nav> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.iter) }

    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> {
        IteratorSpec::remaining(&self.iter).map_values(|n: &'nav NodeInner<'a, 'k>| Node { node: n, nav: self.nav })
    }

    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.iter) }

    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.iter) }

    open spec fn peek(&self, i: int) -> Option<Self::Item> {
        match IteratorSpec::peek(&self.iter, i) {
            Some(n) => Some(Node { node: n, nav: self.nav }),
            None => None,
        }
    }
}

// The child iterators' contracts are stated on their fields; nothing is said through the general iterator laws.
impl<'a: 'node, 'k: 'node, 'nav: 'node, 'node> vstd::std_specs::iter::IteratorSpecImpl for SeqIter<'a, 'k, 'nav, 'node> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }

    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { Seq::empty() }

    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { false }

    open spec fn decrease(&self) -> Option<nat> { None }

    open spec fn peek(&self, i: int) -> Option<Self::Item> { None }
}

impl<'a: 'node, 'k: 'node, 'nav: 'node, 'node> vstd::std_specs::iter::IteratorSpecImpl for NamedIter<'a, 'k, 'nav, 'node> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }

    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { Seq::empty() }

    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { false }

    open spec fn decrease(&self) -> Option<nat> { None }

    open spec fn peek(&self, i: int) -> Option<Self::Item> { None }
}

impl<'a: 'node, 'k: 'node, 'nav: 'node, 'node> vstd::std_specs::iter::IteratorSpecImpl for KeyedIter<'a, 'k, 'nav, 'node> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }

    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { Seq::empty() }

    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { false }

    open spec fn decrease(&self) -> Option<nat> { None }

    open spec fn peek(&self, i: int) -> Option<Self::Item> { None }
}

// ---------------------------------------------------------------- building a navigator

/// What is recorded of a node before its children are linked: parent, position among the parent's values or keys, value.
pub ghost struct Row<'k> { pub p: Option<usize>, pub v: Option<usize>, pub k: Option<usize>, pub it: Kserd<'k> }
pub type Rows<'k> = Seq<Row<'k>>;

/// The number of values directly inside a value, and the c-th of them in the order of the data as a child of node p.
pub open spec fn nsub(k: Kserd) -> int {
    match k.val {
        Value::Tuple(v) => v@.len() as int,
        Value::Seq(v) => v@.len() as int,
        Value::Cntr(m) => entries(m).len() as int,
        Value::Map(m) => 2 * entries(m).len() as int,
        _ => 0,
    }
}

pub open spec fn sub<'k>(k: Kserd<'k>, p: int, c: int) -> Row<'k> {
    let p = Some(p as usize);
    match k.val {
        Value::Tuple(v) => Row { p, v: Some(c as usize), k: None, it: v@[c] },
        Value::Seq(v) => Row { p, v: Some(c as usize), k: None, it: v@[c] },
        Value::Cntr(m) => Row { p, v: Some(c as usize), k: None, it: entries(m)[c].1 },
        Value::Map(m) => if c % 2 == 0 { Row { p, v: None, k: Some((c / 2) as usize), it: entries(m)[c / 2].0 } }
            else { Row { p, v: Some((c / 2) as usize), k: None, it: entries(m)[c / 2].1 } },
        _ => Row { p, v: None, k: None, it: k },
    }
}

/// A map has no more entries than its length can count.
pub axiom fn map_room<K, V>(m: BTreeMap<K, V>) ensures entries(m).len() <= usize::MAX;
/// A vector of nodes, which have a size, cannot have usize::MAX elements.
pub axiom fn nodes_room<'a, 'k>(v: Vec<NodeInner<'a, 'k>>) ensures v@.len() < usize::MAX;

pub open spec fn par(r: Row) -> int { match r.p { Some(p) => p as int, None => -1 } }

pub open spec fn spot(rows: Rows, r: Row) -> int {
    match r.k {
        Some(x) => 2 * x,
        None => match r.v { Some(x) => if rows[par(r)].it.val is Map { 2 * x + 1 } else { x as int }, None => -1 },
    }
}

pub proof fn spot_sub(rows: Rows, p: int, c: int)
    requires 0 <= p < rows.len() <= usize::MAX, 0 <= c < nsub(rows[p].it),
    ensures par(sub(rows[p].it, p, c)) == p, spot(rows, sub(rows[p].it, p, c)) == c,
{
    match rows[p].it.val {
        Value::Tuple(v) => { assert(v.len() == v@.len()); },
        Value::Seq(v) => { assert(v.len() == v@.len()); },
        Value::Cntr(m) => { map_room(m); },
        Value::Map(m) => { map_room(m); },
        _ => {},
    }
}

pub open spec fn child(rows: Rows, r: Row) -> bool {
    &&& 0 <= par(r) < rows.len()
    &&& 0 <= spot(rows, r) < nsub(rows[par(r)].it)
    &&& r == sub(rows[par(r)].it, par(r), spot(rows, r))
}

/// q is the child of p just before its c-th and all between it and n is below it.
pub open spec fn prev(rows: Rows, p: int, c: int, q: int, n: int) -> bool {
    &&& p < q < n && par(rows[q]) == p && spot(rows, rows[q]) == c - 1
    &&& forall|m: int| q < m < n ==> par(#[trigger] rows[m]) >= q
}

pub open spec fn follows(rows: Rows, p: int, c: int, n: int) -> bool {
    if c == 0 { n == p + 1 } else { exists|q: int| prev(rows, p, c, q, n) }
}

pub open spec fn ordered(rows: Rows, j: int) -> bool {
    child(rows, rows[j]) && par(rows[j]) < j && follows(rows, par(rows[j]), spot(rows, rows[j]), j)
}

pub open spec fn good(rows: Rows) -> bool {
    &&& rows.len() < usize::MAX
    &&& rows.len() > 0 ==> rows[0].p.is_none() && rows[0].v.is_none() && rows[0].k.is_none()
    &&& forall|j: int| 0 < j < rows.len() ==> #[trigger] ordered(rows, j)
}

pub open spec fn above(todo: Rows, k: int, q: int) -> bool {
    forall|l: int| k < l < todo.len() ==> par(#[trigger] todo[l]) >= q
}

pub open spec fn waits(rows: Rows, todo: Rows, k: int) -> bool {
    let r = todo[k];
    let p = par(r);
    let c = spot(rows, r);
    &&& child(rows, r)
    &&& c == 0 ==> k == todo.len() - 1 && rows.len() == p + 1
    &&& c > 0 ==> (k + 1 < todo.len() && todo[k + 1] == sub(rows[p].it, p, c - 1))
            || exists|q: int| prev(rows, p, c, q, rows.len() as int) && #[trigger] above(todo, k, q)
}

pub open spec fn listed(rows: Rows, r: Row) -> bool { exists|j: int| 0 < j < rows.len() && #[trigger] rows[j] == r }
pub open spec fn queued(todo: Rows, r: Row) -> bool { exists|k: int| 0 <= k < todo.len() && #[trigger] todo[k] == r }

pub open spec fn somewhere(rows: Rows, todo: Rows, i: int, c: int) -> bool {
    listed(rows, sub(rows[i].it, i, c)) || queued(todo, sub(rows[i].it, i, c))
}

/// The state of the walk: rows are listed in depth-first order, todo is what is still to be listed, last first.
pub open spec fn walk<'k>(root: Kserd<'k>, rows: Rows<'k>, todo: Rows<'k>) -> bool {
    if rows.len() == 0 {
        todo.len() == 1 && todo[0] == (Row { p: None, v: None, k: None, it: root })
    } else {
        &&& good(rows)
        &&& rows[0].it == root
        &&& forall|k: int| 0 <= k < todo.len() ==> #[trigger] waits(rows, todo, k)
        &&& forall|i: int, c: int| 0 <= i < rows.len() && 0 <= c < nsub(rows[i].it) ==> #[trigger] somewhere(rows, todo, i, c)
    }
}

/// The children of node p, last first.
pub open spec fn back<'k>(k: Kserd<'k>, p: int) -> Rows<'k> { Seq::new(nsub(k) as nat, |x: int| sub(k, p, nsub(k) - 1 - x)) }

pub proof fn keeps(rows: Rows, t: Row, r: Row)
    requires 0 <= par(r) < rows.len(),
    ensures spot(rows.push(t), r) == spot(rows, r), child(rows, r) ==> child(rows.push(t), r),
{}

pub proof fn prev_on(rows: Rows, t: Row, p: int, c: int, q: int)
    requires prev(rows, p, c, q, rows.len() as int), par(t) >= q, q < rows.len(), p >= 0, good(rows),
    ensures prev(rows.push(t), p, c, q, rows.len() as int + 1),
{
    let new = rows.push(t);
    assert forall|m: int| q < m < rows.len() + 1 implies par(#[trigger] new[m]) >= q by { if m < rows.len() { assert(new[m] == rows[m]); } }
    assert(new[q] == rows[q]);
    assert(ordered(rows, q));
}

pub proof fn good_push(rows: Rows, todo: Rows)
    requires rows.len() > 0, todo.len() > 0, good(rows), waits(rows, todo, todo.len() - 1), rows.len() + 1 < usize::MAX,
    ensures good(rows.push(todo.last())),
{
    let t = todo.last();
    let new = rows.push(t);
    let n = rows.len() as int;
    assert forall|j: int| 0 < j < new.len() implies #[trigger] ordered(new, j) by {
        if j < n {
            assert(ordered(rows, j));
            keeps(rows, t, rows[j]);
            let p = par(rows[j]); let c = spot(rows, rows[j]);
            if c > 0 {
                let q = choose|q: int| prev(rows, p, c, q, j);
                assert(ordered(rows, q));
                assert(new[q] == rows[q]);
                assert forall|m: int| q < m < j implies par(#[trigger] new[m]) >= q by { assert(new[m] == rows[m]); }
                assert(prev(new, p, c, q, j));
            }
        } else {
            keeps(rows, t, t);
            let p = par(t); let c = spot(rows, t);
            if c > 0 {
                let q = choose|q: int| prev(rows, p, c, q, n) && #[trigger] above(todo, todo.len() - 1, q);
                assert(ordered(rows, q));
                assert(new[q] == rows[q]);
                assert forall|m: int| q < m < n implies par(#[trigger] new[m]) >= q by { assert(new[m] == rows[m]); }
                assert(prev(new, p, c, q, n));
            }
        }
    }
}

pub proof fn waits_step(rows: Rows, todo: Rows, k: int)
    requires
        rows.len() > 0, todo.len() > 0, good(rows), rows.len() + 1 < usize::MAX,
        forall|k: int| 0 <= k < todo.len() ==> #[trigger] waits(rows, todo, k),
        0 <= k < todo.len() - 1 + nsub(todo.last().it),
    ensures waits(rows.push(todo.last()), todo.drop_last() + back(todo.last().it, rows.len() as int), k),
{
    let t = todo.last();
    let n = rows.len() as int;
    let new = rows.push(t);
    let more = back(t.it, n);
    let next = todo.drop_last() + more;
    let base = todo.len() - 1;
    assert forall|l: int| 0 <= l < more.len() implies par(#[trigger] more[l]) == n by { assert(new[n].it == t.it); spot_sub(new, n, nsub(t.it) - 1 - l); }
    assert(waits(rows, todo, base));
    keeps(rows, t, t);
    if k < base {
        let r = todo[k];
        assert(next[k] == r);
        assert(waits(rows, todo, k));
        keeps(rows, t, r);
        let p = par(r); let c = spot(rows, r);
        assert(new[p] == rows[p]);
        if c > 0 {
            if k + 1 < todo.len() && todo[k + 1] == sub(rows[p].it, p, c - 1) {
                if k + 1 == base {
                    // the node just listed
                    spot_sub(rows, p, c - 1);
                    assert(par(t) == p && spot(rows, t) == c - 1);
                    assert(prev(new, p, c, n, n + 1));
                    assert forall|l: int| k < l < next.len() implies par(#[trigger] next[l]) >= n by { assert(next[l] == more[l - base]); }
                    assert(above(next, k, n));
                } else {
                    assert(next[k + 1] == todo[k + 1]);
                }
            } else {
                let q = choose|q: int| prev(rows, p, c, q, n) && #[trigger] above(todo, k, q);
                assert(par(todo[base]) >= q);
                prev_on(rows, t, p, c, q);
                assert forall|l: int| k < l < next.len() implies par(#[trigger] next[l]) >= q by {
                    if l < base { assert(next[l] == todo[l]); } else { assert(next[l] == more[l - base]); }
                }
                assert(above(next, k, q));
            }
        } else {
            assert(c >= 0);
            assert(false);
        }
    } else {
        let x = k - base;
        let c = nsub(t.it) - 1 - x;
        assert(next[k] == more[x]);
        assert(new[n] == t);
        spot_sub(new, n, c);
        if c > 0 {
            assert(next[k + 1] == more[x + 1]);
        }
    }
}

pub proof fn walk_step<'k>(root: Kserd<'k>, rows: Rows<'k>, todo: Rows<'k>)
    requires walk(root, rows, todo), todo.len() > 0, rows.len() + 1 < usize::MAX,
    ensures walk(root, rows.push(todo.last()), todo.drop_last() + back(todo.last().it, rows.len() as int)),
{
    let t = todo.last();
    let n = rows.len() as int;
    let new = rows.push(t);
    let more = back(t.it, n);
    let next = todo.drop_last() + more;
    if n == 0 {
        assert(new[0] == t);
        assert(next =~= more);
        assert forall|k: int| 0 <= k < next.len() implies #[trigger] waits(new, next, k) by {
            let c = nsub(t.it) - 1 - k;
            spot_sub(new, 0, c);
            if c > 0 { assert(next[k + 1] == sub(t.it, 0, c - 1)); }
        }
    } else {
        good_push_all(rows, todo);
        assert forall|k: int| 0 <= k < next.len() implies #[trigger] waits(new, next, k) by { waits_step(rows, todo, k); }
        assert(new[0] == rows[0]);
    }
    assert forall|i: int, c: int| 0 <= i < new.len() && 0 <= c < nsub(new[i].it) implies #[trigger] somewhere(new, next, i, c) by {
        let r = sub(new[i].it, i, c);
        if i == n {
            let k = todo.len() - 1 + nsub(t.it) - 1 - c;
            assert(next[k] == more[nsub(t.it) - 1 - c]);
            assert(next[k] == r);
        } else {
            assert(new[i] == rows[i]);
            assert(somewhere(rows, todo, i, c));
            if listed(rows, r) {
                let j = choose|j: int| 0 < j < rows.len() && #[trigger] rows[j] == r;
                assert(new[j] == r);
            } else {
                let k = choose|k: int| 0 <= k < todo.len() && #[trigger] todo[k] == r;
                if k == todo.len() - 1 { assert(new[n] == r); } else { assert(next[k] == r); }
            }
        }
    }
}

pub proof fn good_push_all<'k>(rows: Rows<'k>, todo: Rows<'k>)
    requires rows.len() > 0, todo.len() > 0, good(rows), rows.len() + 1 < usize::MAX,
        forall|k: int| 0 <= k < todo.len() ==> #[trigger] waits(rows, todo, k),
    ensures good(rows.push(todo.last())),
{
    assert(waits(rows, todo, todo.len() - 1));
    good_push(rows, todo);
}

// the children of a node, as listed

pub open spec fn complete(rows: Rows) -> bool {
    forall|i: int, c: int| 0 <= i < rows.len() && 0 <= c < nsub(rows[i].it) ==> #[trigger] listed(rows, sub(rows[i].it, i, c))
}

pub proof fn walk_ends<'k>(root: Kserd<'k>, rows: Rows<'k>, todo: Rows<'k>)
    requires walk(root, rows, todo), todo.len() == 0,
    ensures rows.len() > 0, good(rows), complete(rows), rows[0].it == root,
{
    assert forall|i: int, c: int| 0 <= i < rows.len() && 0 <= c < nsub(rows[i].it) implies #[trigger] listed(rows, sub(rows[i].it, i, c)) by {
        assert(somewhere(rows, todo, i, c));
    }
}

/// The children of p among the first n rows.
pub open spec fn brood(rows: Rows, p: int, n: int) -> Seq<int>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if par(rows[n - 1]) == p { brood(rows, p, n - 1).push(n - 1) }
    else { brood(rows, p, n - 1) }
}

pub open spec fn brood_is(rows: Rows, p: int, n: int) -> bool {
    let b = brood(rows, p, n);
    &&& forall|c: int| 0 <= c < b.len() ==> p < #[trigger] b[c] < n && par(rows[b[c]]) == p && spot(rows, rows[b[c]]) == c
    &&& forall|c: int, d: int| 0 <= c < d < b.len() ==> #[trigger] b[c] < #[trigger] b[d]
    &&& forall|j: int| 0 <= j < n && par(#[trigger] rows[j]) == p ==> 0 <= spot(rows, rows[j]) < b.len() && b[spot(rows, rows[j])] == j
}

pub proof fn brood_ok(rows: Rows, p: int, n: int)
    requires good(rows), 0 <= p < rows.len(), 0 <= n <= rows.len(),
    ensures brood_is(rows, p, n),
    decreases n,
{
    if n > 0 {
        brood_ok(rows, p, n - 1);
        let j = n - 1;
        let b = brood(rows, p, j);
        if par(rows[j]) == p {
            assert(j > 0);
            assert(ordered(rows, j));
            let c = spot(rows, rows[j]);
            if c == 0 {
                if b.len() > 0 { assert(p < b[0] < j); }
            } else {
                let q = choose|q: int| prev(rows, p, c, q, j);
                assert(par(rows[q]) == p);
                assert(b[c - 1] == q);
                if b.len() > c {
                    assert(b[c - 1] < b[c]);
                    assert(par(rows[b[c]]) >= q);
                }
            }
            assert(b.len() == c);
        }
    }
}

pub open spec fn kids_of(rows: Rows, p: int) -> Seq<int> { brood(rows, p, rows.len() as int) }

pub proof fn kids_ok(rows: Rows, p: int)
    requires good(rows), complete(rows), 0 <= p < rows.len(),
    ensures
        brood_is(rows, p, rows.len() as int),
        kids_of(rows, p).len() == nsub(rows[p].it),
        kids_of(rows, p).len() < rows.len(),
        forall|c: int| 0 <= c < kids_of(rows, p).len() ==> rows[#[trigger] kids_of(rows, p)[c]] == sub(rows[p].it, p, c),
{
    let n = rows.len() as int;
    brood_ok(rows, p, n);
    let b = kids_of(rows, p);
    if b.len() < nsub(rows[p].it) {
        let c = b.len() as int;
        assert(listed(rows, sub(rows[p].it, p, c)));
        let j = choose|j: int| 0 < j < rows.len() && #[trigger] rows[j] == sub(rows[p].it, p, c);
        spot_sub(rows, p, c);
        assert(par(rows[j]) == p);
    }
    if b.len() > nsub(rows[p].it) {
        let c = nsub(rows[p].it);
        assert(nsub(rows[p].it) >= 0);
        assert(p < b[c] < n);
        assert(ordered(rows, b[c]));
    }
    assert forall|c: int| 0 <= c < b.len() implies rows[#[trigger] b[c]] == sub(rows[p].it, p, c) by { assert(ordered(rows, b[c])); }
    brood_room(rows, p, n);
}

pub proof fn brood_room(rows: Rows, p: int, n: int)
    requires good(rows), 0 <= p < rows.len(), 0 <= n <= rows.len(),
    ensures n > 0 ==> brood(rows, p, n).len() < n, n == 0 ==> brood(rows, p, n).len() == 0,
    decreases n,
{
    if n > 0 { brood_room(rows, p, n - 1); }
}

pub open spec fn value_kids(rows: Rows, p: int) -> Seq<usize> {
    let b = kids_of(rows, p);
    if rows[p].it.val is Map { Seq::new((b.len() / 2) as nat, |x: int| b[2 * x + 1] as usize) } else { Seq::new(b.len(), |x: int| b[x] as usize) }
}
pub open spec fn key_kids(rows: Rows, p: int) -> Seq<usize> {
    let b = kids_of(rows, p);
    if rows[p].it.val is Map { Seq::new((b.len() / 2) as nat, |x: int| b[2 * x] as usize) } else { Seq::empty() }
}

pub open spec fn row<'a, 'k>(n: NodeInner<'a, 'k>) -> Row<'k> { Row { p: n.parent, v: n.value_idx_in_parent, k: n.key_idx_in_parent, it: *n.kserd } }
pub open spec fn rows_in<'a, 'k>(s: Seq<NodeInner<'a, 'k>>) -> Rows<'k> { Seq::new(s.len(), |i: int| row(s[i])) }
pub open spec fn numbered(s: Inner) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).idx == i }
pub open spec fn linked(n: NodeInner, rows: Rows, i: int) -> bool { n.value_children@ =~= value_kids(rows, i) && n.key_children@ =~= key_kids(rows, i) }

/// Every node's children are the values inside its own value, in the order of the data, whole and nothing else.
pub open spec fn mirrors(s: Inner) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] mirror(s, i) }
pub open spec fn mirror(s: Inner, i: int) -> bool {
    let k = *s[i].kserd;
    &&& nkids(s[i]) == nsub(k)
    &&& (k.val is Map) ==> s[i].key_children@.len() == s[i].value_children@.len()
    &&& !(k.val is Map) ==> s[i].key_children@.len() == 0
    &&& forall|c: int| 0 <= c < nsub(k) ==> row(s[#[trigger] kid(s[i], c)]) == sub(k, i, c)
}

pub proof fn up_to(rows: Rows, j: int)
    requires good(rows), 0 < j < rows.len(),
    ensures par(rows[j]) >= 0, forall|m: int| par(rows[j]) < m < j ==> par(#[trigger] rows[m]) >= par(rows[j]),
    decreases j,
{
    assert(ordered(rows, j));
    let p = par(rows[j]); let c = spot(rows, rows[j]);
    if c > 0 {
        let q = choose|q: int| prev(rows, p, c, q, j);
        up_to(rows, q);
        assert forall|m: int| p < m < j implies par(#[trigger] rows[m]) >= p by {
            if m < q {} else if m == q {} else { assert(par(rows[m]) >= q); }
        }
    }
}

/// e is one past the last row below i.
pub open spec fn ends(rows: Rows, i: int, e: int) -> bool {
    &&& i < e <= rows.len()
    &&& forall|m: int| i < m < e ==> par(#[trigger] rows[m]) >= i
    &&& e < rows.len() ==> par(rows[e]) < i
}

pub proof fn kid_is(s: Inner, rows: Rows, i: int)
    requires rows == rows_in(s), good(rows), complete(rows), 0 <= i < s.len(), linked(s[i], rows, i),
    ensures
        nkids(s[i]) == kids_of(rows, i).len() == nsub(rows[i].it),
        forall|c: int| 0 <= c < nkids(s[i]) ==> #[trigger] kid(s[i], c) == kids_of(rows, i)[c],
        s[i].key_children@.len() == 0 || s[i].key_children@.len() == s[i].value_children@.len(),
{
    kids_ok(rows, i);
    let b = kids_of(rows, i);
    assert forall|c: int| 0 <= c < nkids(s[i]) implies #[trigger] kid(s[i], c) == b[c] by {
        assert(i < b[c] < rows.len());
    }
}

pub proof fn end_is(s: Inner, rows: Rows, i: int)
    requires rows == rows_in(s), good(rows), complete(rows), 0 <= i < s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] linked(s[i], rows, i),
    ensures ends(rows, i, end(s, i)),
    decreases s.len() - i,
{
    assert(linked(s[i], rows, i));
    kid_is(s, rows, i);
    kids_ok(rows, i);
    let b = kids_of(rows, i);
    let n = nkids(s[i]);
    reveal_with_fuel(end, 2);
    if n == 0 {
        assert(end(s, i) == i + 1);
        if i + 1 < rows.len() {
            assert(ordered(rows, i + 1));
            if par(rows[i + 1]) == i { assert(0 <= spot(rows, rows[i + 1]) < b.len()); }
        }
    } else {
        let k = b[n - 1];
        assert(kid(s[i], n - 1) == k);
        assert(i < k < rows.len());
        end_is(s, rows, k);
        let e = end(s, k);
        assert(end(s, i) == e);
        up_to(rows, k);
        assert forall|m: int| i < m < e implies par(#[trigger] rows[m]) >= i by {
            if m < k {} else if m == k {} else { assert(par(rows[m]) >= k); }
        }
        if e < rows.len() {
            assert(par(rows[e]) < k);
            assert(ordered(rows, e));
            let q = par(rows[e]);
            if q == i {
                assert(b[spot(rows, rows[e])] == e);
                if spot(rows, rows[e]) < n - 1 { assert(b[spot(rows, rows[e])] < b[n - 1]); }
            } else if q > i {
                up_to(rows, e);
                assert(par(rows[k]) >= q);
            }
        }
    }
}

pub proof fn built(s: Inner, rows: Rows)
    requires
        rows == rows_in(s), good(rows), complete(rows), s.len() > 0, numbered(s),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] linked(s[i], rows, i),
    ensures wf(s), mirrors(s),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] links(s, i) by {
        built_range(s, rows, i);
        built_parent(s, rows, i);
        assert forall|k: int, l: int| #![trigger kid(s[i], k), kid(s[i], l)] 0 <= k && l == k + 1 && l < nkids(s[i]) implies kid(s[i], l) == end(s, kid(s[i], k)) by { built_next(s, rows, i, l); }
    }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] mirror(s, i) by { built_mirror(s, rows, i); }
}

pub proof fn built_range(s: Inner, rows: Rows, i: int)
    requires
        rows == rows_in(s), good(rows), complete(rows), s.len() > 0, numbered(s), 0 <= i < s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] linked(s[i], rows, i),
    ensures
        s[i].idx == i,
        s[i].key_children@.len() == 0 || s[i].key_children@.len() == s[i].value_children@.len(),
        forall|j: int| #![trigger s[i].value_children@[j]] 0 <= j < s[i].value_children@.len() ==> i < s[i].value_children@[j] < s.len(),
        forall|j: int| #![trigger s[i].key_children@[j]] 0 <= j < s[i].key_children@.len() ==> i < s[i].key_children@[j] < s.len(),
        nkids(s[i]) < s.len(),
        nkids(s[i]) > 0 ==> kid(s[i], 0) == i + 1,
{
    let vs = s[i].value_children@;
    let ks = s[i].key_children@;
    let b = kids_of(rows, i);
    assert(linked(s[i], rows, i));
    kid_is(s, rows, i);
    kids_ok(rows, i);
    assert forall|j: int| #![trigger vs[j]] 0 <= j < vs.len() implies i < vs[j] < s.len() by {
        if rows[i].it.val is Map { assert(i < b[2 * j + 1] < rows.len()); } else { assert(i < b[j] < rows.len()); }
    }
    assert forall|j: int| #![trigger ks[j]] 0 <= j < ks.len() implies i < ks[j] < s.len() by { assert(i < b[2 * j] < rows.len()); }
    if nkids(s[i]) > 0 {
        assert(kid(s[i], 0) == b[0]);
        assert(ordered(rows, b[0]));
    }
}

pub proof fn built_parent(s: Inner, rows: Rows, i: int)
    requires
        rows == rows_in(s), good(rows), complete(rows), s.len() > 0, numbered(s), 0 <= i < s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] linked(s[i], rows, i),
    ensures
        i == 0 ==> s[i].parent.is_none(),
        i > 0 ==> s[i].parent.is_some() && s[i].parent.unwrap() < i && placed(s[s[i].parent.unwrap() as int], s[i]),
{
    assert(rows[i].p == s[i].parent);
    if i > 0 {
        assert(ordered(rows, i));
        let p = par(rows[i]);
        let c = spot(rows, rows[i]);
        assert(linked(s[p], rows, p));
        kids_ok(rows, p);
        assert(kids_of(rows, p)[c] == i);
        assert(s[i].idx == i);
        let vs = value_kids(rows, p);
        let ks = key_kids(rows, p);
        assert(s[p].value_children@ == vs && s[p].key_children@ == ks);
        assert(rows[i].v == s[i].value_idx_in_parent && rows[i].k == s[i].key_idx_in_parent);
        assert(rows[i] == sub(rows[p].it, p, c));
        if rows[p].it.val is Map {
            if c % 2 == 0 { assert(ks[c / 2] == kids_of(rows, p)[2 * (c / 2)] as usize); } else { assert(vs[c / 2] == kids_of(rows, p)[2 * (c / 2) + 1] as usize); }
        } else {
            assert(vs[c] == i as usize);
        }
    }
}

pub proof fn built_next(s: Inner, rows: Rows, i: int, l: int)
    requires
        rows == rows_in(s), good(rows), complete(rows), s.len() > 0, numbered(s), 0 <= i < s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] linked(s[i], rows, i),
        0 < l < nkids(s[i]),
    ensures kid(s[i], l) == end(s, kid(s[i], l - 1)),
{
    let b = kids_of(rows, i);
    assert(linked(s[i], rows, i));
    kid_is(s, rows, i);
    kids_ok(rows, i);
    let j = b[l];
    assert(kid(s[i], l) == j);
    assert(kid(s[i], l - 1) == b[l - 1]);
    assert(i < j < rows.len());
    assert(ordered(rows, j));
    let q = choose|q: int| prev(rows, i, l, q, j);
    assert(par(rows[q]) == i);
    assert(b[l - 1] == q);
    end_is(s, rows, q);
    let e = end(s, q);
    if e < j { assert(par(rows[e]) >= q); }
    if e > j { assert(par(rows[j]) >= q); }
}

pub proof fn built_mirror(s: Inner, rows: Rows, i: int)
    requires
        rows == rows_in(s), good(rows), complete(rows), s.len() > 0, numbered(s), 0 <= i < s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] linked(s[i], rows, i),
    ensures mirror(s, i),
{
    let b = kids_of(rows, i);
    assert(linked(s[i], rows, i));
    kid_is(s, rows, i);
    kids_ok(rows, i);
    assert(rows[i].it == *s[i].kserd);
    assert forall|c: int| 0 <= c < nsub(*s[i].kserd) implies row(s[#[trigger] kid(s[i], c)]) == sub(*s[i].kserd, i, c) by {
        assert(kid(s[i], c) == b[c]);
        assert(i < b[c] < rows.len());
        assert(rows[b[c]] == sub(rows[i].it, i, c));
    }
}

// the code's own records

pub trait Pending { spec fn rec(self) -> (Option<usize>, Option<usize>, Option<usize>); }
pub open spec fn to_list<'a, 'k, I: Pending>(s: Seq<(I, &'a Kserd<'k>)>) -> Rows<'k> {
    Seq::new(s.len(), |i: int| Row { p: s[i].0.rec().0, v: s[i].0.rec().1, k: s[i].0.rec().2, it: *s[i].1 })
}

pub trait Found { spec fn rec(self) -> (usize, Option<usize>, Option<usize>); }
pub open spec fn found_are<I: Found>(s: Seq<I>, rows: Rows, b: Seq<int>) -> bool {
    &&& s.len() == b.len()
    &&& forall|c: int| 0 <= c < b.len() ==> (#[trigger] s[c]).rec() == (b[c] as usize, rows[b[c]].v, rows[b[c]].k)
}

/// The children found among the first n rows, by parent.
pub open spec fn grouped<I: Found>(m: vstd::map::Map<usize, Vec<I>>, rows: Rows, n: int) -> bool {
    forall|p: usize| #![trigger m.contains_key(p)] #![trigger m[p]]
        (if m.contains_key(p) { brood(rows, p as int, n).len() > 0 && found_are(m[p]@, rows, brood(rows, p as int, n)) } else { brood(rows, p as int, n).len() == 0 })
}

pub open spec fn touched<I>(s: Seq<(usize, Vec<I>)>, n: int, i: int) -> bool { exists|x: int| 0 <= x < n && (#[trigger] s[x]).0 == i }

pub open spec fn half_linked(n: NodeInner, rows: Rows, i: int, v: bool, k: bool) -> bool {
    n.value_children@ =~= (if v { value_kids(rows, i) } else { Seq::empty() }) && n.key_children@ =~= (if k { key_kids(rows, i) } else { Seq::empty() })
}

pub proof fn member(rows: Rows, p: int)
    requires good(rows), kids_of(rows, p).len() > 0, p >= 0,
    ensures p < rows.len(),
{
    brood_in(rows, p, rows.len() as int);
}

pub proof fn brood_in(rows: Rows, p: int, n: int)
    requires good(rows), p >= 0, 0 <= n <= rows.len(), brood(rows, p, n).len() > 0,
    ensures p < rows.len(),
    decreases n,
{
    if n > 0 {
        if par(rows[n - 1]) == p { assert(n - 1 > 0); assert(ordered(rows, n - 1)); } else { brood_in(rows, p, n - 1); }
    }
}

pub proof fn all_linked<I: Found>(m: vstd::map::Map<usize, Vec<I>>, s: Inner, rows: Rows, i: int)
    requires
        good(rows), complete(rows), rows == rows_in(s), grouped(m, rows, rows.len() as int), 0 <= i < s.len(),
        half_linked(s[i], rows, i, m.contains_key(i as usize), m.contains_key(i as usize)),
    ensures linked(s[i], rows, i),
{
    kids_ok(rows, i);
    assert((i as usize) as int == i);
    if !m.contains_key(i as usize) { assert(kids_of(rows, i).len() == 0); }
}

pub trait Groups<T>: Sized {
    spec fn it(self) -> vstd::map::Map<usize, Vec<T>>;
    fn push_at(&mut self, k: usize, x: T)
        ensures
            final(self).it().dom() =~= old(self).it().dom().insert(k),
            final(self).it()[k]@ == (if old(self).it().contains_key(k) { old(self).it()[k]@ } else { Seq::empty() }).push(x),
            forall|j: usize| j != k && old(self).it().contains_key(j) ==> #[trigger] final(self).it()[j] == old(self).it()[j];
    fn groups_of(self) -> (r: Vec<(usize, Vec<T>)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self.it().contains_key((#[trigger] r@[i]).0) && self.it()[r@[i].0] == r@[i].1,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
            forall|k: usize| #![trigger self.it().contains_key(k)] #![trigger touched(r@, r@.len() as int, k as int)] self.it().contains_key(k) ==> touched(r@, r@.len() as int, k as int);
}
impl<T> Groups<T> for std::collections::HashMap<usize, Vec<T>> {
    open spec fn it(self) -> vstd::map::Map<usize, Vec<T>> { self@ }
    #[verifier::external_body]
    fn push_at(&mut self, k: usize, x: T) { self.entry(k).or_insert_with(Vec::new).push(x) }
    #[verifier::external_body]
    fn groups_of(self) -> (r: Vec<(usize, Vec<T>)>) { self.into_iter().collect() }
}

#[verifier::external_body]
pub fn values_back<'a, 'k>(m: &'a Fields<'k>) -> (r: Vec<(usize, &'a Kserd<'k>)>)
    ensures r@.len() == entries(*m).len(), forall|x: int| 0 <= x < r@.len() ==> (#[trigger] r@[x]).0 == r@.len() - 1 - x && *r@[x].1 == entries(*m)[r@.len() - 1 - x].1,
{ m.values().enumerate().rev().collect() }

#[verifier::external_body]
pub fn entries_back<'a, 'k>(m: &'a crate::Map<'k>) -> (r: Vec<(usize, (&'a Kserd<'k>, &'a Kserd<'k>))>)
    ensures r@.len() == entries(*m).len(), forall|x: int| 0 <= x < r@.len() ==> (#[trigger] r@[x]).0 == r@.len() - 1 - x
        && *r@[x].1.0 == entries(*m)[r@.len() - 1 - x].0 && *r@[x].1.1 == entries(*m)[r@.len() - 1 - x].1,
{ m.iter().enumerate().rev().collect() }

/// The answers that are there, in order.
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) } }
}

/// What a filter_map's function answers to each element.
pub uninterp spec fn answers<I, B>(it: I) -> Seq<Option<B>>;

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(F)]
pub struct ExFilterMap<I, F>(std::iter::FilterMap<I, F>);

pub trait Filtered: Iterator + Sized {
    fn filter_map_of<B, F: FnMut(Self::Item) -> Option<B>>(self, f: F) -> (r: std::iter::FilterMap<Self, F>)
        ensures
            answers::<_, B>(r).len() == self.remaining().len(),
            forall|i: int| 0 <= i < self.remaining().len() ==> call_ensures(f, (self.remaining()[i],), #[trigger] answers::<_, B>(r)[i]),
            yields(r) == somes(answers::<_, B>(r));
    fn collect_list(self) -> (r: Vec<Self::Item>) ensures r@ == yields(self);
}
impl<I: Iterator> Filtered for I {
    #[verifier::external_body]
    fn filter_map_of<B, F: FnMut(Self::Item) -> Option<B>>(self, f: F) -> (r: std::iter::FilterMap<Self, F>) { self.filter_map(f) }
    #[verifier::external_body]
    fn collect_list(self) -> (r: Vec<Self::Item>) { self.collect() }
}

pub open spec fn in_order<T, F: FnMut(&T) -> usize>(s: Seq<T>, f: F) -> bool {
    forall|i: int, j: int, a: usize, b: usize| 0 <= i < j < s.len() && #[trigger] call_ensures(f, (&s[i],), a) && #[trigger] call_ensures(f, (&s[j],), b) ==> a <= b
}

pub trait Listed<T> {
    spec fn list(&self) -> Seq<T>;
    /// A stable sort leaves what is in order as it is; in any case the elements stay the same.
    fn sort_by_key_of<F: FnMut(&T) -> usize>(&mut self, f: F)
        ensures in_order(old(self).list(), f) ==> final(self).list() == old(self).list(), final(self).list().to_multiset() == old(self).list().to_multiset();
    fn extend_of<I: Iterator<Item = T>>(&mut self, it: I)
        ensures final(self).list() == old(self).list() + yields(it);
}
impl<T> Listed<T> for Vec<T> {
    open spec fn list(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn sort_by_key_of<F: FnMut(&T) -> usize>(&mut self, f: F) { self.sort_by_key(f) }
    #[verifier::external_body]
    fn extend_of<I: Iterator<Item = T>>(&mut self, it: I) { self.extend(it) }
}

pub proof fn somes_all<T>(s: Seq<Option<T>>)
    requires forall|c: int| 0 <= c < s.len() ==> (#[trigger] s[c]).is_some(),
    ensures somes(s).len() == s.len(), forall|c: int| 0 <= c < s.len() ==> #[trigger] somes(s)[c] == s[c].unwrap(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|c: int| 0 <= c < s.drop_last().len() implies (#[trigger] s.drop_last()[c]).is_some() by { assert(s.drop_last()[c] == s[c]); }
        somes_all(s.drop_last());
        assert(s.last() == s[s.len() - 1]);
        assert forall|c: int| 0 <= c < s.len() implies #[trigger] somes(s)[c] == s[c].unwrap() by {
            if c < s.len() - 1 { assert(somes(s)[c] == somes(s.drop_last())[c]); assert(s.drop_last()[c] == s[c]); }
        }
    }
}

pub proof fn somes_none<T>(s: Seq<Option<T>>)
    requires forall|c: int| 0 <= c < s.len() ==> (#[trigger] s[c]).is_none(),
    ensures somes(s).len() == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|c: int| 0 <= c < s.drop_last().len() implies (#[trigger] s.drop_last()[c]).is_none() by { assert(s.drop_last()[c] == s[c]); }
        somes_none(s.drop_last());
        assert(s.last() == s[s.len() - 1]);
    }
}

/// Every other one: bit 0 for the even positions, 1 for the odd.
pub proof fn somes_half<T>(s: Seq<Option<T>>, bit: int)
    requires bit == 0 || bit == 1, forall|c: int| 0 <= c < s.len() ==> (#[trigger] s[c]).is_some() == (c % 2 == bit),
    ensures somes(s).len() == (s.len() + 1 - bit) / 2, forall|x: int| 0 <= x < somes(s).len() ==> #[trigger] somes(s)[x] == s[2 * x + bit].unwrap(),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|c: int| 0 <= c < t.len() implies (#[trigger] t[c]).is_some() == (c % 2 == bit) by { assert(t[c] == s[c]); }
        somes_half(t, bit);
        assert(s.last() == s[s.len() - 1]);
        assert forall|x: int| 0 <= x < somes(s).len() implies #[trigger] somes(s)[x] == s[2 * x + bit].unwrap() by {
            if x < somes(t).len() { assert(somes(s)[x] == somes(t)[x]); assert(t[2 * x + bit] == s[2 * x + bit]); }
        }
    }
}

pub open spec fn value_answers(s: Seq<Option<(usize, usize)>>, rows: Rows, b: Seq<int>) -> bool {
    s.len() == b.len() && forall|c: int| 0 <= c < b.len() ==> #[trigger] s[c] == (match rows[b[c]].v { Some(y) => Some((y, b[c] as usize)), None => None })
}
pub open spec fn key_answers(s: Seq<Option<(usize, usize)>>, rows: Rows, b: Seq<int>) -> bool {
    s.len() == b.len() && forall|c: int| 0 <= c < b.len() ==> #[trigger] s[c] == (match rows[b[c]].k { Some(y) => Some((y, b[c] as usize)), None => None })
}

pub proof fn picked(s: Seq<Option<(usize, usize)>>, rows: Rows, p: int, values: bool)
    requires
        good(rows), complete(rows), 0 <= p < rows.len(),
        values ==> value_answers(s, rows, kids_of(rows, p)), !values ==> key_answers(s, rows, kids_of(rows, p)),
    ensures ({ let w = if values { value_kids(rows, p) } else { key_kids(rows, p) };
        somes(s).len() == w.len() && forall|x: int| 0 <= x < w.len() ==> (#[trigger] somes(s)[x]).0 == x && somes(s)[x].1 == w[x] }),
{
    kids_ok(rows, p);
    let b = kids_of(rows, p);
    let k = rows[p].it;
    assert forall|c: int| 0 <= c < b.len() implies rows[#[trigger] b[c]] == sub(k, p, c) by {}
    match k.val {
        Value::Map(m) => { map_room(m); },
        Value::Cntr(m) => { map_room(m); },
        Value::Tuple(v) => { assert(v.len() == v@.len()); },
        Value::Seq(v) => { assert(v.len() == v@.len()); },
        _ => {},
    }
    if k.val is Map {
        assert forall|c: int| 0 <= c < s.len() implies (#[trigger] s[c]).is_some() == (c % 2 == (if values { 1int } else { 0int })) by { assert(rows[b[c]] == sub(k, p, c)); }
        somes_half(s, if values { 1 } else { 0 });
        assert forall|x: int| 0 <= x < somes(s).len() implies (#[trigger] somes(s)[x]).0 == x by {
            let c = if values { 2 * x + 1 } else { 2 * x };
            assert(rows[b[c]] == sub(k, p, c));
            assert(somes(s)[x] == s[c].unwrap());
        }
    } else if values {
        assert forall|c: int| 0 <= c < s.len() implies (#[trigger] s[c]).is_some() by { assert(rows[b[c]] == sub(k, p, c)); }
        somes_all(s);
        assert forall|x: int| 0 <= x < somes(s).len() implies (#[trigger] somes(s)[x]).0 == x by { assert(rows[b[x]] == sub(k, p, x)); assert(somes(s)[x] == s[x].unwrap()); }
    } else {
        assert forall|c: int| 0 <= c < s.len() implies (#[trigger] s[c]).is_none() by { assert(rows[b[c]] == sub(k, p, c)); }
        somes_none(s);
    }
}

// ---------------------------------------------------------------- depth-first order

/// The position of node j among the children of its parent.
pub open spec fn place(s: Inner, j: int) -> int {
    let p = s[s[j].parent.unwrap() as int];
    match s[j].key_idx_in_parent {
        Some(x) => 2 * x,
        None => if p.key_children@.len() == 0 { s[j].value_idx_in_parent.unwrap() as int } else { 2 * s[j].value_idx_in_parent.unwrap() + 1 },
    }
}

pub proof fn parent_of(s: Inner, j: int)
    requires wf(s), 0 < j < s.len(),
    ensures ({ let p = s[j].parent.unwrap() as int;
        s[j].parent.is_some() && 0 <= p < j && 0 <= place(s, j) < nkids(s[p]) && kid(s[p], place(s, j)) == j }),
{
    at(s, j);
    at(s, s[j].parent.unwrap() as int);
}

/// What wf says about node i and its parent.
pub proof fn around(s: Inner, i: int)
    requires wf(s), 0 <= i < s.len(),
    ensures
        s[i].idx == i,
        i == 0 <==> s[i].parent.is_none(),
        s[i].parent matches Some(p) ==> 0 <= p < i && s[p as int].idx == p,
{
    at(s, i);
    if i > 0 { at(s, s[i].parent.unwrap() as int); }
}

pub proof fn parents(s: Inner)
    requires wf(s),
    ensures
        s[0].parent.is_none(),
        forall|j: int| 0 < j < s.len() ==> (#[trigger] s[j]).parent.is_some() && 0 <= s[j].parent.unwrap() < j,
{
    around(s, 0);
    assert forall|j: int| 0 < j < s.len() implies (#[trigger] s[j]).parent.is_some() && 0 <= s[j].parent.unwrap() < j by { around(s, j); }
}

pub proof fn end_range(s: Inner, i: int)
    requires wf(s), 0 <= i < s.len(),
    ensures i < end(s, i) <= s.len(),
    decreases s.len() - i,
{
    at(s, i);
    if nkids(s[i]) > 0 { end_range(s, kid(s[i], nkids(s[i]) - 1)); }
}

pub proof fn kid_end(s: Inner, i: int, k: int)
    requires wf(s), 0 <= i < s.len(), 0 <= k < nkids(s[i]),
    ensures i < kid(s[i], k) < end(s, kid(s[i], k)) <= end(s, i),
    decreases nkids(s[i]) - k,
{
    at(s, i);
    end_range(s, kid(s[i], k));
    if k + 1 < nkids(s[i]) {
        kid_end(s, i, k + 1);
        assert(kid(s[i], k + 1) == end(s, kid(s[i], k)));
    }
}

// ---------------------------------------------------------------- breadth-first order

pub open spec fn brood_of(n: NodeInner) -> Seq<usize> { n.key_children@ + n.value_children@ }

/// The children of these nodes, node by node.
pub open spec fn flat(s: Inner, l: Seq<usize>) -> Seq<usize>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else { flat(s, l.drop_last()) + brood_of(s[l.last() as int]) }
}

/// How many nodes these and all below them are.
pub open spec fn total(s: Inner, l: Seq<usize>) -> int
    decreases l.len()
{
    if l.len() == 0 { 0 } else { total(s, l.drop_last()) + end(s, l.last() as int) - l.last() }
}

pub open spec fn below_all(s: Inner, i: int, l: Seq<usize>) -> bool { forall|j: int| 0 <= j < l.len() ==> i < #[trigger] l[j] < end(s, i) }

/// First the children of node i, then the children of these, and so on: level by level, every node below i once.
pub open spec fn breadth(s: Inner, i: int, l: Seq<usize>) -> bool {
    &&& l == brood_of(s[i]) + flat(s, l)
    &&& below_all(s, i, l)
    &&& forall|j: int| i < j < end(s, i) ==> l.contains(#[trigger] as_idx(j))
    &&& l.len() == end(s, i) - i - 1
}
pub open spec fn as_idx(j: int) -> usize { j as usize }

pub proof fn total_first(s: Inner, l: Seq<usize>)
    requires l.len() > 0,
    ensures total(s, l) == end(s, l[0] as int) - l[0] + total(s, l.skip(1)),
    decreases l.len(),
{
    if l.len() == 1 {
        assert(l.skip(1) =~= Seq::empty());
        assert(l.drop_last() =~= Seq::empty());
    } else {
        total_first(s, l.drop_last());
        assert(l.drop_last().skip(1) =~= l.skip(1).drop_last());
        assert(l.skip(1).last() == l.last());
    }
}

pub proof fn total_sum(s: Inner, a: Seq<usize>, b: Seq<usize>)
    ensures total(s, a + b) == total(s, a) + total(s, b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        total_sum(s, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}

pub proof fn total_some(s: Inner, i: int, l: Seq<usize>)
    requires wf(s), 0 <= i < s.len(), below_all(s, i, l),
    ensures total(s, l) >= 0,
    decreases l.len(),
{
    if l.len() > 0 {
        end_range(s, i);
        end_range(s, l.last() as int);
        total_some(s, i, l.drop_last());
    }
}

pub proof fn total_values(s: Inner, i: int, n: int)
    requires wf(s), 0 <= i < s.len(), s[i].key_children@.len() == 0, 0 <= n <= s[i].value_children@.len(),
    ensures total(s, s[i].value_children@.take(n)) == (if n == 0 { 0 } else { end(s, kid(s[i], n - 1)) - i - 1 }),
    decreases n,
{
    let v = s[i].value_children@;
    at(s, i);
    if n == 0 { assert(v.take(0) =~= Seq::empty()); } else {
        total_values(s, i, n - 1);
        assert(v.take(n).drop_last() =~= v.take(n - 1));
        assert(v.take(n).last() == v[n - 1]);
        assert(kid(s[i], n - 1) == v[n - 1]);
        if n > 1 { assert(kid(s[i], n - 1) == end(s, kid(s[i], n - 2))); }
    }
}

pub proof fn total_pairs(s: Inner, i: int, n: int)
    requires wf(s), 0 <= i < s.len(), s[i].key_children@.len() > 0, 0 <= n <= s[i].value_children@.len(),
    ensures total(s, s[i].key_children@.take(n)) + total(s, s[i].value_children@.take(n)) == (if n == 0 { 0 } else { end(s, kid(s[i], 2 * n - 1)) - i - 1 }),
    decreases n,
{
    let v = s[i].value_children@;
    let k = s[i].key_children@;
    at(s, i);
    if n == 0 { assert(v.take(0) =~= Seq::empty()); assert(k.take(0) =~= Seq::empty()); } else {
        total_pairs(s, i, n - 1);
        assert(v.take(n).drop_last() =~= v.take(n - 1));
        assert(v.take(n).last() == v[n - 1]);
        assert(k.take(n).drop_last() =~= k.take(n - 1));
        assert(k.take(n).last() == k[n - 1]);
        assert(kid(s[i], 2 * n - 1) == v[n - 1]);
        assert(kid(s[i], 2 * n - 2) == k[n - 1]);
        assert(kid(s[i], 2 * n - 1) == end(s, kid(s[i], 2 * n - 2)));
        if n > 1 { assert(kid(s[i], 2 * n - 2) == end(s, kid(s[i], 2 * n - 3))); }
    }
}

pub proof fn total_brood(s: Inner, i: int)
    requires wf(s), 0 <= i < s.len(),
    ensures total(s, brood_of(s[i])) == end(s, i) - i - 1, below_all(s, i, brood_of(s[i])),
{
    let v = s[i].value_children@;
    let k = s[i].key_children@;
    at(s, i);
    let n = v.len() as int;
    assert(v.take(n) =~= v);
    if k.len() == 0 {
        total_values(s, i, n);
        assert(k + v =~= v);
    } else {
        total_pairs(s, i, n);
        assert(k.take(n) =~= k);
        total_sum(s, k, v);
    }
    let b = brood_of(s[i]);
    assert forall|j: int| 0 <= j < b.len() implies i < #[trigger] b[j] < end(s, i) by {
        let c = if k.len() == 0 { j } else if j < k.len() { 2 * j } else { 2 * (j - k.len()) + 1 };
        assert(kid(s[i], c) == b[j]);
        kid_end(s, i, c);
    }
}

/// What is below j is below i if j is.
pub proof fn below_sub(s: Inner, i: int, j: int)
    requires wf(s), 0 <= i < s.len(), i < j < end(s, i),
    ensures end(s, j) <= end(s, i), below_all(s, i, brood_of(s[j])),
{
    end_range(s, i);
    within(s, i, j);
    total_brood(s, j);
}

pub proof fn within(s: Inner, i: int, j: int)
    requires wf(s), 0 <= i < s.len(), i < j < end(s, i),
    ensures end(s, j) <= end(s, i),
    decreases j,
{
    end_range(s, i);
    below(s, i, j);
    parent_of(s, j);
    let p = s[j].parent.unwrap() as int;
    kid_end(s, p, place(s, j));
    if p > i { within(s, i, p); }
}

pub proof fn flat_has(s: Inner, l: Seq<usize>, x: int, y: usize)
    requires 0 <= x < l.len(), brood_of(s[l[x] as int]).contains(y),
    ensures flat(s, l).contains(y),
    decreases l.len(),
{
    let a = flat(s, l.drop_last());
    let b = brood_of(s[l.last() as int]);
    if x < l.len() - 1 {
        flat_has(s, l.drop_last(), x, y);
        let k = choose|k: int| 0 <= k < a.len() && a[k] == y;
        assert((a + b)[k] == y);
    } else {
        let k = choose|k: int| 0 <= k < b.len() && b[k] == y;
        assert((a + b)[a.len() + k] == y);
    }
}

pub proof fn breadth_has(s: Inner, i: int, l: Seq<usize>, j: int)
    requires wf(s), 0 <= i < s.len(), l == brood_of(s[i]) + flat(s, l), i < j < end(s, i),
    ensures l.contains(j as usize),
    decreases j,
{
    end_range(s, i);
    below(s, i, j);
    parent_of(s, j);
    at(s, j);
    let p = s[j].parent.unwrap() as int;
    let b = brood_of(s[p]);
    match s[j].key_idx_in_parent {
        Some(x) => { assert(b[x as int] == j); },
        None => { assert(b[s[p].key_children@.len() + s[j].value_idx_in_parent.unwrap()] == j); },
    }
    assert(b.contains(j as usize));
    let a = brood_of(s[i]);
    let f = flat(s, l);
    if p == i {
        let k = choose|k: int| 0 <= k < a.len() && a[k] == j as usize;
        assert(l[k] == j as usize);
    } else {
        breadth_has(s, i, l, p);
        let x = choose|x: int| 0 <= x < l.len() && l[x] == p as usize;
        flat_has(s, l, x, j as usize);
        let k = choose|k: int| 0 <= k < f.len() && f[k] == j as usize;
        assert(l[a.len() + k] == j as usize);
    }
}

pub proof fn breadth_all(s: Inner, i: int, l: Seq<usize>)
    requires wf(s), 0 <= i < s.len(), l == brood_of(s[i]) + flat(s, l), below_all(s, i, l), l.len() == end(s, i) - i - 1,
    ensures breadth(s, i, l),
{
    assert forall|j: int| i < j < end(s, i) implies l.contains(#[trigger] as_idx(j)) by { breadth_has(s, i, l, j); }
}

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct ExChain<A, B>(std::iter::Chain<A, B>);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct ExCloned<I>(std::iter::Cloned<I>);

pub trait Chained<'a, T: 'a>: Iterator<Item = &'a T> + Sized {
    fn chain_of(self, o: std::slice::Iter<'a, T>) -> (r: std::iter::Chain<Self, std::slice::Iter<'a, T>>)
        ensures yields(r) == self.remaining() + o.remaining();
}
impl<'a, T: 'a, I: Iterator<Item = &'a T>> Chained<'a, T> for I {
    #[verifier::external_body]
    fn chain_of(self, o: std::slice::Iter<'a, T>) -> (r: std::iter::Chain<Self, std::slice::Iter<'a, T>>) { self.chain(o) }
}
pub trait Indices<'a>: Iterator<Item = &'a usize> + Sized {
    fn cloned_of(self) -> (r: std::iter::Cloned<Self>)
        ensures yields(r).len() == yields(self).len(), forall|i: int| 0 <= i < yields(self).len() ==> #[trigger] yields(r)[i] == *yields(self)[i];
}
impl<'a, I: Iterator<Item = &'a usize>> Indices<'a> for I {
    #[verifier::external_body]
    fn cloned_of(self) -> (r: std::iter::Cloned<Self>) { self.cloned() }
}
pub trait Queued: Iterator + Sized {
    fn collect_deque(self) -> (r: std::collections::VecDeque<Self::Item>) ensures r@ == yields(self);
}
impl<I: Iterator> Queued for I {
    #[verifier::external_body]
    fn collect_deque(self) -> (r: std::collections::VecDeque<Self::Item>) { self.collect() }
}
pub trait Appended<T> {
    spec fn deque(&self) -> Seq<T>;
    fn extend_back<I: Iterator<Item = T>>(&mut self, it: I) ensures final(self).deque() == old(self).deque() + yields(it);
}
impl<T> Appended<T> for std::collections::VecDeque<T> {
    open spec fn deque(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn extend_back<I: Iterator<Item = T>>(&mut self, it: I) { self.extend(it) }
}

pub proof fn kid_order(s: Inner, i: int, k: int, m: int)
    requires wf(s), 0 <= i < s.len(), 0 <= k < m < nkids(s[i]),
    ensures end(s, kid(s[i], k)) <= kid(s[i], m),
    decreases m,
{
    at(s, i);
    let l = m - 1;
    assert(kid(s[i], m) == end(s, kid(s[i], l)));
    end_range(s, kid(s[i], l));
    if k < l { kid_order(s, i, k, l); }
}

pub proof fn branch(s: Inner, i: int, j: int, k: int) -> (r: int)
    requires wf(s), 0 <= i < j, j < s.len(), 0 <= k < nkids(s[i]), j < end(s, kid(s[i], k)),
    ensures 0 <= r < nkids(s[i]), kid(s[i], r) <= j < end(s, kid(s[i], r)),
    decreases k,
{
    at(s, i);
    if kid(s[i], k) <= j {
        k
    } else {
        let l = k - 1;
        assert(k > 0);
        assert(kid(s[i], k) == end(s, kid(s[i], l)));
        branch(s, i, j, l)
    }
}

pub proof fn nested(s: Inner, i: int, p: int)
    requires wf(s), 0 <= i < s.len(), i <= p < end(s, i),
    ensures p < s.len(), end(s, p) <= end(s, i),
    decreases s.len() - i,
{
    end_range(s, i);
    at(s, i);
    if p > i {
        let k = branch(s, i, p, nkids(s[i]) - 1);
        kid_end(s, i, k);
        nested(s, kid(s[i], k), p);
    }
}

/// A node other than i is below i exactly when its parent is i or below i.
pub proof fn below(s: Inner, i: int, j: int)
    requires wf(s), 0 <= i < s.len(), 0 < j < s.len(), i != j,
    ensures ({ let p = s[j].parent.unwrap() as int;
        0 <= p < j && s[j].parent.is_some() && ((i < j && j < end(s, i)) <==> (i <= p && p < end(s, i))) }),
{
    parent_of(s, j);
    let p = s[j].parent.unwrap() as int;
    let m = place(s, j);
    kid_end(s, p, m);
    if i <= p && p < end(s, i) {
        nested(s, i, p);
    }
    if i < j && j < end(s, i) && p < i {
        at(s, p);
        let k = branch(s, p, i, m);
        let c = kid(s[p], k);
        nested(s, c, i);
        if k < m { kid_order(s, p, k, m); } else if m < k { kid_order(s, p, m, k); end_range(s, j); }
    }
}

// ---------------------------------------------------------------- formatting

pub open spec fn rank(r: Repr) -> int {
    match r { Repr::Inline => 0, Repr::Concise => 1, Repr::Verbose => 2 }
}

impl PartialEqSpecImpl for Repr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Repr) -> bool { *self == *other }
}

impl PartialOrdSpecImpl for Repr {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Repr) -> Option<std::cmp::Ordering> {
        Some(ord(rank(*self), rank(*other)))
    }
}

impl OrdSpecImpl for Repr {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Repr) -> std::cmp::Ordering {
        ord(rank(*self), rank(*other))
    }
}

pub open spec fn ord(a: int, b: int) -> std::cmp::Ordering {
    if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }
}

pub open spec fn name(r: Repr) -> Seq<char> {
    match r { Repr::Inline => "inline"@, Repr::Concise => "concise"@, Repr::Verbose => "verbose"@ }
}

/// The largest representation of a value of this kind.
pub open spec fn kind_max(n: NodeInner) -> Repr {
    match n.kserd.val {
        Value::Tuple(_) => if n.value_children@.len() == 0 { Repr::Inline } else { Repr::Concise },
        Value::Cntr(_) | Value::Seq(_) | Value::Map(_) => if n.value_children@.len() == 0 { Repr::Inline } else { Repr::Verbose },
        _ => Repr::Inline,
    }
}

pub open spec fn is_list(n: NodeInner) -> bool {
    n.kserd.val is Seq || n.kserd.val is Map
}

pub open spec fn low(a: Repr, b: Repr) -> Repr {
    if rank(a) <= rank(b) { a } else { b }
}

/// The largest representation of a node by its kind and place: keys, and lists in lists, are not verbose.
pub open spec fn place_max(s: Inner, n: NodeInner) -> Repr {
    if n.key_idx_in_parent.is_some()
        || (is_list(n) && n.parent.is_some() && n.parent.unwrap() < s.len() && is_list(s[n.parent.unwrap() as int])) {
        low(kind_max(n), Repr::Concise)
    } else {
        kind_max(n)
    }
}

/// A node handle obtained from its own navigator.
pub open spec fn held(n: Node) -> bool {
    &&& wf(n.nav.inner@)
    &&& n.node.idx < n.nav.inner@.len()
    &&& n.node == &n.nav.inner@[n.node.idx as int]
}

#[verifier::prophetic]
pub open spec fn value_max(v: NodeValue) -> Repr {
    match v {
        NodeValue::Primitive => Repr::Inline,
        NodeValue::Tuple(x) => if x.seq.remaining().len() == 0 { Repr::Inline } else { Repr::Concise },
        NodeValue::Seq(x) => if x.seq.remaining().len() == 0 { Repr::Inline } else { Repr::Verbose },
        NodeValue::Map(x) => if x.values.remaining().len() == 0 { Repr::Inline } else { Repr::Verbose },
        NodeValue::Cntr(x) => if x.values.remaining().len() == 0 { Repr::Inline } else { Repr::Verbose },
    }
}

pub open spec fn parent_line(f: Formatter, i: int) -> Option<Repr> {
    match f.nav.inner@[i].parent {
        Some(p) => if p < f.fmts@.len() { Some(f.fmts@[p as int].line) } else { None },
        None => None,
    }
}

/// The kind and place of node i and its parent's representation allow r.
pub open spec fn allows(f: Formatter, i: int, r: Repr) -> bool {
    &&& rank(r) <= rank(place_max(f.nav.inner@, f.nav.inner@[i]))
    &&& !(i == 0 && r is Verbose && is_list(f.nav.inner@[0]))
    &&& parent_line(f, i) matches Some(p) ==> rank(r) <= rank(p)
}

/// One format for each node.
pub open spec fn sized(f: Formatter) -> bool {
    &&& wf(f.nav.inner@)
    &&& f.fmts@.len() == f.nav.inner@.len()
}

/// One format for each node, each one its node allows.
pub open spec fn settled(f: Formatter) -> bool {
    &&& sized(f)
    &&& forall|i: int| 0 <= i < f.fmts@.len() ==> allows(f, i, (#[trigger] f.fmts@[i]).line)
}

/// Node i is set to r, the nodes below it to at most r, and nothing else changes.
pub open spec fn lowered(a: Seq<Fmt>, b: Seq<Fmt>, i: int, end: int, r: Repr) -> bool {
    &&& a.len() == b.len()
    &&& forall|j: int| 0 <= j < a.len() ==> (#[trigger] b[j]) == Fmt {
            id: a[j].id,
            line: if j == i { r } else if i < j < end { low(a[j].line, r) } else { a[j].line },
        }
}

pub open spec fn lowered_below(a: Seq<Fmt>, b: Seq<Fmt>, i: int, end: int, r: Repr) -> bool {
    forall|j: int| 0 <= j < a.len() && j != i ==> (#[trigger] b[j]) == Fmt { id: a[j].id, line: if i < j < end { low(a[j].line, r) } else { a[j].line } }
}

pub proof fn lower_below(f: Formatter, i: int, j: int)
    requires settled(f), 0 <= i < f.fmts@.len(), i <= j < end(f.nav.inner@, i),
    ensures j < f.fmts@.len(), rank(f.fmts@[j].line) <= rank(f.fmts@[i].line),
    decreases j,
{
    end_range(f.nav.inner@, i);
    if i != j {
        below(f.nav.inner@, i, j);
        let p = f.nav.inner@[j].parent.unwrap() as int;
        lower_below(f, i, p);
        assert(allows(f, j, f.fmts@[j].line));
    }
}

pub proof fn unchanged_if_same(f: Formatter, i: int)
    requires settled(f), 0 <= i < f.fmts@.len(),
    ensures lowered(f.fmts@, f.fmts@, i, end(f.nav.inner@, i), f.fmts@[i].line), allows(f, i, f.fmts@[i].line),
{
    assert forall|j: int| i < j < end(f.nav.inner@, i) && j < f.fmts@.len() implies rank(f.fmts@[i].line) >= rank((#[trigger] f.fmts@[j]).line) by { lower_below(f, i, j); }
}

pub proof fn still_settled(f: Formatter, g: Formatter, i: int, r: Repr)
    requires
        settled(f), 0 <= i < f.fmts@.len(), allows(f, i, r), g.nav == f.nav,
        lowered(f.fmts@, g.fmts@, i, end(f.nav.inner@, i), r),
    ensures settled(g),
{
    end_range(f.nav.inner@, i);
    assert forall|j: int| 0 <= j < g.fmts@.len() implies allows(g, j, (#[trigger] g.fmts@[j]).line) by {
        assert(allows(f, j, f.fmts@[j].line));
        if j > 0 {
            parent_of(f.nav.inner@, j);
            let p = f.nav.inner@[j].parent.unwrap() as int;
            assert(g.fmts@[p].line == if p == i { r } else if i < p < end(f.nav.inner@, i) { low(f.fmts@[p].line, r) } else { f.fmts@[p].line });
            if i != j {
                below(f.nav.inner@, i, j);
            }
        } else { at(f.nav.inner@, 0); }
    }
}

/// Every format is within its node's own limit, and the first n are also within their parents'.
#[verifier::opaque]
pub open spec fn partly(f: Formatter, n: int) -> bool {
    &&& allows(f, 0, f.fmts@[0].line)
    &&& forall|j: int| 0 <= j < n ==> allows(f, j, (#[trigger] f.fmts@[j]).line)
    &&& forall|j: int| 0 <= j < f.fmts@.len() ==> rank((#[trigger] f.fmts@[j]).line) <= rank(place_max(f.nav.inner@, f.nav.inner@[j]))
}

pub proof fn partly_start(f: Formatter)
    requires
        sized(f), allows(f, 0, f.fmts@[0].line),
        forall|j: int| 0 <= j < f.fmts@.len() ==> rank((#[trigger] f.fmts@[j]).line) <= rank(place_max(f.nav.inner@, f.nav.inner@[j])),
    ensures partly(f, 0),
{
    reveal(partly);
}

pub proof fn partly_at(f: Formatter, i: int)
    requires sized(f), partly(f, i), 0 <= i < f.fmts@.len(),
    ensures
        rank(f.fmts@[i].line) <= rank(place_max(f.nav.inner@, f.nav.inner@[i])),
        i == 0 ==> allows(f, 0, f.fmts@[0].line),
        i == 0 ==> f.nav.inner@[i].parent.is_none(),
        i > 0 ==> f.nav.inner@[i].parent.is_some() && f.nav.inner@[i].parent.unwrap() < i,
{
    reveal(partly);
    at(f.nav.inner@, i);
}

pub proof fn partly_step(f: Formatter, g: Formatter, i: int)
    requires
        sized(f), partly(f, i), 0 <= i < f.fmts@.len(), g.nav == f.nav,
        ({ let p = parent_line(f, i);
            if p.is_some() && rank(p.unwrap()) < rank(f.fmts@[i].line) { lowered(f.fmts@, g.fmts@, i, end(f.nav.inner@, i), p.unwrap()) }
            else { g.fmts@ == f.fmts@ } }),
    ensures sized(g), partly(g, i + 1),
{
    reveal(partly);
    at(f.nav.inner@, i);
    at(f.nav.inner@, 0);
    parents(f.nav.inner@);
    end_range(f.nav.inner@, i);
    assert forall|j: int| 0 <= j < i + 1 implies allows(g, j, (#[trigger] g.fmts@[j]).line) by {
        at(f.nav.inner@, j);
        if j < i { assert(allows(f, j, f.fmts@[j].line)); }
    }
}

pub proof fn partly_all(f: Formatter)
    requires sized(f), partly(f, f.fmts@.len() as int),
    ensures settled(f),
{
    reveal(partly);
}

/// The largest representation of node i and its ancestors together: its kind and place, and its parent's.
pub open spec fn largest(s: Inner, i: int) -> Repr
    decreases i
{
    if i <= 0 {
        if is_list(s[0]) { low(place_max(s, s[0]), Repr::Concise) } else { place_max(s, s[0]) }
    } else if s[i].parent.is_some() && s[i].parent.unwrap() < i {
        low(place_max(s, s[i]), largest(s, s[i].parent.unwrap() as int))
    } else {
        place_max(s, s[i])
    }
}

pub open spec fn topmost(f: Formatter) -> bool {
    forall|i: int| 0 <= i < f.fmts@.len() ==> (#[trigger] f.fmts@[i]).line == largest(f.nav.inner@, i)
}

/// The first n formats are the largest, the others not below them.
#[verifier::opaque]
pub open spec fn capped(f: Formatter, n: int) -> bool {
    &&& forall|j: int| 0 <= j < n ==> (#[trigger] f.fmts@[j]).line == largest(f.nav.inner@, j)
    &&& forall|j: int| 0 <= j < f.fmts@.len() ==> rank(largest(f.nav.inner@, j)) <= rank((#[trigger] f.fmts@[j]).line) <= rank(place_max(f.nav.inner@, f.nav.inner@[j]))
    &&& f.fmts@[0].line == largest(f.nav.inner@, 0)
}

/// Nodes below i are not larger than i.
pub proof fn largest_below(s: Inner, i: int, j: int)
    requires wf(s), 0 <= i < s.len(), i <= j < end(s, i),
    ensures rank(largest(s, j)) <= rank(largest(s, i)),
    decreases j,
{
    end_range(s, i);
    if i != j {
        below(s, i, j);
        parent_of(s, j);
        largest_below(s, i, s[j].parent.unwrap() as int);
    }
}

pub proof fn largest_under_root(s: Inner, j: int)
    requires wf(s), 0 <= j < s.len(),
    ensures rank(largest(s, j)) <= rank(largest(s, 0)), rank(largest(s, j)) <= rank(place_max(s, s[j])),
    decreases j,
{
    if j > 0 {
        parent_of(s, j);
        at(s, j);
        largest_under_root(s, s[j].parent.unwrap() as int);
    }
}

pub proof fn capped_start(f: Formatter, g: Formatter)
    requires
        sized(f), f.nav == g.nav, f.fmts@.len() > 0,
        forall|j: int| 0 <= j < f.fmts@.len() ==> (#[trigger] f.fmts@[j]).line == place_max(f.nav.inner@, f.nav.inner@[j]),
        if is_list(f.nav.inner@[0]) && rank(place_max(f.nav.inner@, f.nav.inner@[0])) > 1 {
            lowered(f.fmts@, g.fmts@, 0, end(f.nav.inner@, 0), Repr::Concise)
        } else { g.fmts@ == f.fmts@ },
    ensures capped(g, 0),
{
    reveal(capped);
    end_range(f.nav.inner@, 0);
    assert forall|j: int| 0 <= j < g.fmts@.len() implies rank(largest(g.nav.inner@, j)) <= rank((#[trigger] g.fmts@[j]).line) <= rank(place_max(g.nav.inner@, g.nav.inner@[j])) by {
        largest_under_root(f.nav.inner@, j);
        assert(f.fmts@[j].line == place_max(f.nav.inner@, f.nav.inner@[j]));
    }
    assert(f.fmts@[0].line == place_max(f.nav.inner@, f.nav.inner@[0]));
    assert(g.fmts@[0].line == largest(g.nav.inner@, 0));
}

pub proof fn capped_step(f: Formatter, g: Formatter, i: int)
    requires
        sized(f), capped(f, i), 0 <= i < f.fmts@.len(), g.nav == f.nav,
        ({ let p = parent_line(f, i);
            if p.is_some() && rank(p.unwrap()) < rank(f.fmts@[i].line) { lowered(f.fmts@, g.fmts@, i, end(f.nav.inner@, i), p.unwrap()) }
            else { g.fmts@ == f.fmts@ } }),
    ensures capped(g, i + 1),
{
    reveal(capped);
    let s = f.nav.inner@;
    at(s, i);
    at(s, 0);
    parents(s);
    end_range(s, i);
    if i > 0 {
        parent_of(s, i);
        let p = s[i].parent.unwrap() as int;
        assert(f.fmts@[p].line == largest(s, p));
        assert(largest(s, i) == low(place_max(s, s[i]), largest(s, p)));
        assert forall|j: int| 0 <= j < g.fmts@.len() implies rank(largest(s, j)) <= rank((#[trigger] g.fmts@[j]).line) <= rank(place_max(s, s[j])) by {
            if i <= j < end(s, i) { largest_below(s, i, j); }
            assert(rank(largest(s, j)) <= rank(f.fmts@[j].line));
        }
        assert(rank(largest(s, i)) <= rank(f.fmts@[i].line));
        assert(g.fmts@[i].line == largest(s, i));
        assert forall|j: int| 0 <= j < i + 1 implies (#[trigger] g.fmts@[j]).line == largest(s, j) by {
            if j < i { assert(f.fmts@[j].line == largest(s, j)); }
        }
    }
}

pub proof fn capped_all(f: Formatter)
    requires sized(f), capped(f, f.fmts@.len() as int),
    ensures topmost(f),
{
    reveal(capped);
}

/// Whether this configuration shows the identities of nodes of this kind.
pub open spec fn flag(c: FormattingConfig, n: NodeInner) -> bool {
    match n.kserd.val {
        Value::Tuple(_) => c.id_on_tuples,
        Value::Cntr(_) => c.id_on_containers,
        Value::Seq(_) => c.id_on_seqs,
        Value::Map(_) => c.id_on_maps,
        _ => c.id_on_primitives,
    }
}
pub open spec fn shown_upto(f: Formatter, c: FormattingConfig, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> (#[trigger] f.fmts@[i]).id == flag(c, f.nav.inner@[i])
}
pub open spec fn shown(f: Formatter, c: FormattingConfig) -> bool { shown_upto(f, c, f.fmts@.len() as int) }
pub open spec fn all_inline(f: Formatter) -> bool { forall|i: int| 0 <= i < f.fmts@.len() ==> (#[trigger] f.fmts@[i]).line is Inline }
pub open spec fn same_lines(f: Formatter, g: Formatter) -> bool {
    f.nav == g.nav && f.fmts@.len() == g.fmts@.len() && forall|i: int| 0 <= i < f.fmts@.len() ==> (#[trigger] g.fmts@[i]).line == f.fmts@[i].line
}

pub proof fn same_settled(f: Formatter, g: Formatter)
    requires settled(f), same_lines(f, g),
    ensures settled(g), topmost(f) ==> topmost(g),
{
    assert forall|i: int| 0 <= i < g.fmts@.len() implies allows(g, i, (#[trigger] g.fmts@[i]).line) by {
        assert(allows(f, i, f.fmts@[i].line));
        at(f.nav.inner@, i);
        if i > 0 { parent_of(f.nav.inner@, i); }
    }
    if topmost(f) {
        assert forall|i: int| 0 <= i < g.fmts@.len() implies (#[trigger] g.fmts@[i]).line == largest(g.nav.inner@, i) by { assert(f.fmts@[i].line == largest(f.nav.inner@, i)); }
    }
}

/// Everything is below the root.
pub proof fn under_root(s: Inner, j: int)
    requires wf(s), 0 <= j < s.len(),
    ensures j < end(s, 0),
    decreases j,
{
    end_range(s, 0);
    if j > 0 {
        below(s, 0, j);
        under_root(s, s[j].parent.unwrap() as int);
    }
}

/// What asking for r at node i does to what a configuration promises.
pub proof fn applied_step(f: Formatter, g: Formatter, c: FormattingConfig, i: int, r: Repr)
    requires
        settled(f), shown(f, c), f.nav == g.nav, 0 <= i < f.fmts@.len(),
        if allows(f, i, r) { lowered(f.fmts@, g.fmts@, i, end(f.nav.inner@, i), r) } else { g.fmts@ == f.fmts@ },
    ensures
        shown(g, c),
        all_inline(f) && r is Inline ==> all_inline(g),
        i == 0 && r is Inline ==> all_inline(g),
        topmost(f) && r is Verbose ==> topmost(g),
{
    let s = f.nav.inner@;
    end_range(s, i);
    at(s, 0);
    at(s, i);
    assert forall|j: int| 0 <= j < g.fmts@.len() implies (#[trigger] g.fmts@[j]).id == flag(c, s[j]) by { assert(f.fmts@[j].id == flag(c, s[j])); }
    if r is Inline { assert(allows(f, i, r)); }
    if i == 0 && r is Inline {
        assert forall|j: int| 0 <= j < g.fmts@.len() implies (#[trigger] g.fmts@[j]).line is Inline by { under_root(s, j); }
    }
    if all_inline(f) && r is Inline {
        assert forall|j: int| 0 <= j < g.fmts@.len() implies (#[trigger] g.fmts@[j]).line is Inline by { assert(f.fmts@[j].line is Inline); }
    }
    if topmost(f) && r is Verbose && allows(f, i, r) {
        if i > 0 { parent_of(s, i); assert(f.fmts@[s[i].parent.unwrap() as int].line == largest(s, s[i].parent.unwrap() as int)); }
        assert(largest(s, i) is Verbose);
        assert forall|j: int| 0 <= j < g.fmts@.len() implies (#[trigger] g.fmts@[j]).line == largest(s, j) by { assert(f.fmts@[j].line == largest(s, j)); }
    }
}

// ---------------------------------------------------------------- encoding

impl<'a> FromSpecImpl<&'a str> for Kstr<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: &'a str) -> Kstr<'a> { Kstr { inner: Cow::Borrowed(s) } }
}
impl FromSpecImpl<String> for Kstr<'static> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: String) -> Kstr<'static> { Kstr { inner: Cow::Owned(s) } }
}

pub open spec fn named(k: Kserd, s: Seq<char>) -> bool { k.id matches Some(x) && text(x) == s }

pub open spec fn is_str(k: Kserd, id: Seq<char>, s: Seq<char>) -> bool { named(k, id) && k.val is Str && text(k.val->Str_0) == s }
pub open spec fn is_barr(k: Kserd, id: Seq<char>, s: Seq<u8>) -> bool { named(k, id) && k.val is Barr && bytes(k.val->Barr_0) == s }
pub open spec fn items<'a>(v: Value<'a>) -> Seq<Kserd<'a>> { match v { Value::Tuple(x) => x@, Value::Seq(x) => x@, _ => Seq::empty() } }
pub open spec fn list_is(v: Value, seq: bool, s: Seq<Kserd>) -> bool { (if seq { v is Seq } else { v is Tuple }) && items(v) =~= s }
pub open spec fn is_tuple(k: Kserd, id: Seq<char>, s: Seq<Kserd>) -> bool { named(k, id) && list_is(k.val, false, s) }
pub open spec fn pairs_are(v: Value, s: Seq<(Kserd, Kserd)>) -> bool { v is Map && inserted(v->Map_0) == s }
pub open spec fn fields_are(v: Value, s: Seq<(Kstr, Kserd)>) -> bool { v is Cntr && inserted(v->Cntr_0) == s }

#[verifier::external_trait_specification]
pub trait ExSerialize { type ExternalTraitSpecificationFor: crate::encode::Serialize; }

/// What a value's own Serialize makes of it with the encoder.
pub uninterp spec fn encoded<T: ?Sized>(v: &T) -> Result<Kserd<'static>, crate::encode::encoder::Error>;

pub trait Serialized { fn serialize_of(&self, e: crate::encode::Encoder) -> (r: Result<Kserd<'static>, crate::encode::encoder::Error>) ensures r == encoded(self); }
impl<T: ?Sized + crate::encode::Serialize> Serialized for T {
    #[verifier::external_body]
    fn serialize_of(&self, e: crate::encode::Encoder) -> (r: Result<Kserd<'static>, crate::encode::encoder::Error>) { self.serialize(e) }
}

pub broadcast axiom fn char_text(c: char, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<char>(&c, s) ==> s@ == seq![c];

pub uninterp spec fn widened(x: f32) -> f64;
pub trait Primitive: Sized { spec fn name() -> Seq<char>; spec fn number(self) -> Number; }
macro_rules! primitive { ($($t:ident $k:ident $n:expr, $x:ident, $e:expr;)*) => { verus! { $(
impl Primitive for $t { open spec fn name() -> Seq<char> { $n.view() } open spec fn number(self) -> Number { let $x = self; Number::$k($e) } }
impl FromSpecImpl<$t> for Number {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: $t) -> Number { x.number() }
}
)* } } }
primitive! {
    u8 Uint "u8", x, x as u128; u16 Uint "u16", x, x as u128; u32 Uint "u32", x, x as u128; u64 Uint "u64", x, x as u128; u128 Uint "u128", x, x; usize Uint "usize", x, x as u128;
    i8 Int "i8", x, x as i128; i16 Int "i16", x, x as i128; i32 Int "i32", x, x as i128; i64 Int "i64", x, x as i128; i128 Int "i128", x, x; isize Int "isize", x, x as i128;
    f32 Float "f32", x, widened(x); f64 Float "f64", x, x;
}

/// The first n of these values become these, each by its own conversion.
pub open spec fn converted<'a, T: ToKserd<'a>>(s: Seq<T>, v: Seq<Kserd<'a>>, n: int) -> bool {
    v.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] call_ensures(T::into_kserd, (s[i],), Ok(v[i]))
}
/// One of these values has the conversion give this error.
pub open spec fn refused<'a, T: ToKserd<'a>>(s: Seq<T>, e: ToKserdErr) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] call_ensures(T::into_kserd, (s[i],), Err(e))
}

pub open spec fn one(i: int) -> int { 1 }

#[verifier::external_body]
pub fn boxed<T, const N: usize>(a: [T; N]) -> (r: Box<[T]>) ensures r@ == a@ { Box::new(a) }
pub trait Unboxed<T>: Sized { spec fn held(self) -> Seq<T>; fn into_vec_of(self) -> (r: Vec<T>) ensures r@ == self.held(); }
impl<T> Unboxed<T> for Box<[T]> {
    open spec fn held(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_vec_of(self) -> (r: Vec<T>) { self.into_vec() }
}

// ---------------------------------------------------------------- decoding

#[verifier::external_trait_specification]
pub trait ExVisitor<'de>: Sized { type ExternalTraitSpecificationFor: serde::de::Visitor<'de>; type Value; }

/// The call the decoder makes of the visitor serde hands it.
pub ghost enum Call<'de> {
    Unit, Bool(bool), U64(u64), U128(u128), I64(i64), I128(i128), F32(f32), F64(f64), Char(char),
    BorrowedStr(&'de str), String(String), BorrowedBytes(&'de [u8]), ByteBuf(Vec<u8>),
    None, Some(Kserd<'de>), Newtype(Kserd<'de>), Seq(Seq<Kserd<'de>>), Fields(Seq<(Kstr<'de>, Kserd<'de>)>), Map(Seq<(Kserd<'de>, Kserd<'de>)>), Enum(Kserd<'de>),
}

/// What a visitor answers to a call.
pub uninterp spec fn visited<'de, V: serde::de::Visitor<'de>>(v: V, c: Call<'de>) -> Result<V::Value, crate::encode::decoder::Error>;

pub type Visit<'de, V> = Result<<V as serde::de::Visitor<'de>>::Value, crate::encode::decoder::Error>;
pub type Tree<'de> = crate::encode::Decoder<'de>;

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(E)]
pub struct ExSeqDeserializer<I, E>(serde::de::value::SeqDeserializer<I, E>);

pub type Elements<'de> = serde::de::value::SeqDeserializer<std::vec::IntoIter<Kserd<'de>>, crate::encode::decoder::Error>;
#[verifier::external_body]
pub struct Access<'de>(Either<'de>);

/// What serde's access to these elements has the visitor see.
pub uninterp spec fn access_call<'de, A>(a: A) -> Call<'de>;

pub trait Visited<'de>: serde::de::Visitor<'de> {
    fn visit_unit_of(self) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::Unit);
    fn visit_bool_of(self, x: bool) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::Bool(x));
    fn visit_u64_of(self, x: u64) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::U64(x));
    fn visit_u128_of(self, x: u128) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::U128(x));
    fn visit_i64_of(self, x: i64) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::I64(x));
    fn visit_i128_of(self, x: i128) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::I128(x));
    fn visit_f32_of(self, x: f32) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::F32(x));
    fn visit_f64_of(self, x: f64) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::F64(x));
    fn visit_char_of(self, x: char) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::Char(x));
    fn visit_borrowed_str_of(self, x: &'de str) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::BorrowedStr(x));
    fn visit_string_of(self, x: String) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::String(x));
    fn visit_borrowed_bytes_of(self, x: &'de [u8]) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::BorrowedBytes(x));
    fn visit_byte_buf_of(self, x: Vec<u8>) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::ByteBuf(x));
    fn visit_none_of(self) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::None);
    fn visit_some_of(self, x: Tree<'de>) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::Some(x.0));
    fn visit_newtype_struct_of(self, x: Tree<'de>) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::Newtype(x.0));
    fn visit_enum_of(self, x: Tree<'de>) -> (r: Visit<'de, Self>) ensures r == visited(self, Call::Enum(x.0));
    fn visit_seq_of(self, x: Elements<'de>) -> (r: Visit<'de, Self>) ensures r == visited(self, access_call(x));
    fn visit_map_of(self, x: Access<'de>) -> (r: Visit<'de, Self>) ensures r == visited(self, access_call(x));
}
impl<'de, V: serde::de::Visitor<'de>> Visited<'de> for V {
    #[verifier::external_body]
    fn visit_unit_of(self) -> (r: Visit<'de, Self>) { self.visit_unit() }
    #[verifier::external_body]
    fn visit_bool_of(self, x: bool) -> (r: Visit<'de, Self>) { self.visit_bool(x) }
    #[verifier::external_body]
    fn visit_u64_of(self, x: u64) -> (r: Visit<'de, Self>) { self.visit_u64(x) }
    #[verifier::external_body]
    fn visit_u128_of(self, x: u128) -> (r: Visit<'de, Self>) { self.visit_u128(x) }
    #[verifier::external_body]
    fn visit_i64_of(self, x: i64) -> (r: Visit<'de, Self>) { self.visit_i64(x) }
    #[verifier::external_body]
    fn visit_i128_of(self, x: i128) -> (r: Visit<'de, Self>) { self.visit_i128(x) }
    #[verifier::external_body]
    fn visit_f32_of(self, x: f32) -> (r: Visit<'de, Self>) { self.visit_f32(x) }
    #[verifier::external_body]
    fn visit_f64_of(self, x: f64) -> (r: Visit<'de, Self>) { self.visit_f64(x) }
    #[verifier::external_body]
    fn visit_char_of(self, x: char) -> (r: Visit<'de, Self>) { self.visit_char(x) }
    #[verifier::external_body]
    fn visit_borrowed_str_of(self, x: &'de str) -> (r: Visit<'de, Self>) { self.visit_borrowed_str(x) }
    #[verifier::external_body]
    fn visit_string_of(self, x: String) -> (r: Visit<'de, Self>) { self.visit_string(x) }
    #[verifier::external_body]
    fn visit_borrowed_bytes_of(self, x: &'de [u8]) -> (r: Visit<'de, Self>) { self.visit_borrowed_bytes(x) }
    #[verifier::external_body]
    fn visit_byte_buf_of(self, x: Vec<u8>) -> (r: Visit<'de, Self>) { self.visit_byte_buf(x) }
    #[verifier::external_body]
    fn visit_none_of(self) -> (r: Visit<'de, Self>) { self.visit_none() }
    #[verifier::external_body]
    fn visit_some_of(self, x: Tree<'de>) -> (r: Visit<'de, Self>) { self.visit_some(x) }
    #[verifier::external_body]
    fn visit_newtype_struct_of(self, x: Tree<'de>) -> (r: Visit<'de, Self>) { self.visit_newtype_struct(x) }
    #[verifier::external_body]
    fn visit_enum_of(self, x: Tree<'de>) -> (r: Visit<'de, Self>) { self.visit_enum(x) }
    #[verifier::external_body]
    fn visit_seq_of(self, x: Elements<'de>) -> (r: Visit<'de, Self>) { self.visit_seq(x) }
    #[verifier::external_body]
    fn visit_map_of(self, x: Access<'de>) -> (r: Visit<'de, Self>) { match x.0 { Either::Pairs(x) => self.visit_map(x), Either::Fields(x) => self.visit_map(x) } }
}

#[verifier::external_body]
pub fn seq_access<'de>(it: std::vec::IntoIter<Kserd<'de>>) -> (r: serde::de::value::SeqDeserializer<std::vec::IntoIter<Kserd<'de>>, crate::encode::decoder::Error>)
    ensures access_call::<_>(r) == Call::Seq(it.remaining())
{ serde::de::value::SeqDeserializer::new(it) }

/// What an iterator still gives, for the library's adapters that have no contract.
pub uninterp spec fn yields<I: Iterator>(it: I) -> Seq<I::Item>;

#[verifier::external_body]
pub fn pairs_access<'de>(it: std::vec::IntoIter<(Kserd<'de>, Kserd<'de>)>) -> (r: Access<'de>)
    ensures access_call::<_>(r) == Call::Map(it.remaining())
{ Access(Either::Pairs(serde::de::value::MapDeserializer::new(it))) }

pub open spec fn fields_of<'de>(s: Seq<(Cow<'de, str>, Kserd<'de>)>) -> Seq<(Kstr<'de>, Kserd<'de>)> { s.map_values(|x: (Cow<'de, str>, Kserd<'de>)| (Kstr { inner: x.0 }, x.1)) }

pub broadcast proof fn fields_same<'de>(s: Seq<(Cow<'de, str>, Kserd<'de>)>, m: Fields<'de>)
    requires s.len() == entries(m).len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (entries(m)[i].0.inner, entries(m)[i].1)
    ensures #[trigger] fields_of(s) == #[trigger] entries(m)
{
    assert(fields_of(s) =~= entries(m));
}

#[verifier::external_body]
pub fn fields_access<'de, I: Iterator<Item = (Cow<'de, str>, Kserd<'de>)>>(it: I) -> (r: Access<'de>)
    ensures access_call::<_>(r) == Call::Fields(fields_of(yields(it)))
{ Access(Either::Fields(serde::de::value::MapDeserializer::new(it.collect::<Vec<_>>().into_iter()))) }

pub open spec fn num_call<'de>(n: Number) -> Call<'de> {
    match n {
        Number::Uint(v) => if v <= u64::MAX { Call::U64(v as u64) } else { Call::U128(v) },
        Number::Int(v) => if i64::MIN <= v <= i64::MAX { Call::I64(v as i64) } else { Call::I128(v) },
        Number::Float(v) => Call::F64(v),
    }
}

/// The call a value decodes itself with when the type does not say how.
pub open spec fn dispatch<'de>(k: Kserd<'de>) -> Call<'de> {
    match k.val {
        Value::Unit => Call::Unit,
        Value::Bool(v) => Call::Bool(v),
        Value::Num(n) => num_call(n),
        Value::Str(v) => match v.inner { Cow::Borrowed(v) => Call::BorrowedStr(v), Cow::Owned(v) => Call::String(v) },
        Value::Barr(v) => match v.inner { Cow::Borrowed(v) => Call::BorrowedBytes(v), Cow::Owned(v) => Call::ByteBuf(v) },
        Value::Tuple(v) => match k.id {
            None => Call::Seq(v@),
            Some(id) =>
                if v@.len() == 0 && cow_ref(id.inner) == "None" { Call::None }
                else if v@.len() == 1 && cow_ref(id.inner) == "Some" { Call::Some(v@[0]) }
                else if v@.len() == 1 { Call::Newtype(v@[0]) }
                else { Call::Seq(v@) },
        },
        Value::Seq(v) => Call::Seq(v@),
        Value::Cntr(m) => Call::Fields(entries(m)),
        Value::Map(m) => Call::Map(entries(m)),
    }
}

#[verifier::external_trait_specification]
pub trait ExDeserializeSeed<'de>: Sized { type ExternalTraitSpecificationFor: serde::de::DeserializeSeed<'de>; type Value; }
#[verifier::external_trait_specification]
pub trait ExExpected { type ExternalTraitSpecificationFor: serde::de::Expected; }
#[verifier::external_type_specification]
pub struct ExUnexpected<'a>(serde::de::Unexpected<'a>);

/// What a seed makes of a value, and of the name of a variant.
pub uninterp spec fn seeded<'de, S: serde::de::DeserializeSeed<'de>>(s: S, k: Kserd<'de>) -> Result<S::Value, crate::encode::decoder::Error>;
pub uninterp spec fn seeded_name<'de, S: serde::de::DeserializeSeed<'de>>(s: S, name: &str) -> Result<S::Value, crate::encode::decoder::Error>;

pub trait Seeded<'de>: serde::de::DeserializeSeed<'de> {
    fn deserialize_of(self, d: Tree<'de>) -> (r: Result<Self::Value, crate::encode::decoder::Error>) ensures r == seeded(self, d.0);
    fn variant_of(self, name: &str) -> (r: Result<Self::Value, crate::encode::decoder::Error>) ensures r == seeded_name(self, name);
}
impl<'de, S: serde::de::DeserializeSeed<'de>> Seeded<'de> for S {
    #[verifier::external_body]
    fn deserialize_of(self, d: Tree<'de>) -> (r: Result<Self::Value, crate::encode::decoder::Error>) { self.deserialize(d) }
    #[verifier::external_body]
    fn variant_of(self, name: &str) -> (r: Result<Self::Value, crate::encode::decoder::Error>) { self.deserialize(serde::de::IntoDeserializer::into_deserializer(name)) }
}

#[verifier::external_body]
pub fn invalid_type<E: serde::de::Expected>(u: serde::de::Unexpected, e: &E) -> crate::encode::decoder::Error { serde::de::Error::invalid_type(u, e) }
#[verifier::external_body]
pub fn invalid_length<E: serde::de::Expected>(n: usize, e: &E) -> crate::encode::decoder::Error { serde::de::Error::invalid_length(n, e) }
#[verifier::external_body]
pub fn count_text(pre: &str, n: usize) -> String { format!("{}{}", pre, n) }

// ---------------------------------------------------------------- there and back

/// A text is its characters.
pub axiom fn same_text(a: &str, b: &str)
    requires a@ == b@
    ensures a == b;

pub open spec fn called(k: Kserd, s: &str) -> bool { k.id matches Some(x) && cow_ref(x.inner) == s }

/// What the encoder's forms decode with, by the contracts on both sides: none, some and structs without a name of their own kind.
pub proof fn back_option(none: Kserd, some: Kserd, e: Kserd)
    requires is_tuple(none, "None"@, Seq::empty()), is_tuple(some, "Some"@, seq![e])
    ensures dispatch(none) == Call::None, dispatch(some) == Call::Some(e)
{
    same_text(cow_ref(none.id.unwrap().inner), "None");
    same_text(cow_ref(some.id.unwrap().inner), "Some");
}

pub proof fn back_newtype<'a>(k: Kserd<'a>, name: Seq<char>, e: Kserd<'a>)
    requires is_tuple(k, name, seq![e]), name != "Some"@
    ensures dispatch(k) == Call::Newtype(e)
{
}

pub proof fn back_list<'a>(k: Kserd<'a>, seq: bool, s: Seq<Kserd<'a>>)
    requires list_is(k.val, seq, s), k.id.is_none()
    ensures dispatch(k) == Call::Seq(s)
{
}

pub proof fn back_struct<'a>(k: Kserd<'a>, name: Seq<char>, s: Seq<Kserd<'a>>)
    requires is_tuple(k, name, s), s.len() >= 2 || (s.len() == 0 && name != "None"@)
    ensures dispatch(k) == Call::Seq(s)
{
}
}

pub enum Either<'de> {
    Pairs(serde::de::value::MapDeserializer<'de, std::vec::IntoIter<(Kserd<'de>, Kserd<'de>)>, crate::encode::decoder::Error>),
    Fields(serde::de::value::MapDeserializer<'de, std::vec::IntoIter<(Cow<'de, str>, Kserd<'de>)>, crate::encode::decoder::Error>),
}


#[macro_export]
macro_rules! text_of { ($f:literal, $n:expr) => { count_text($f, $n) } }
