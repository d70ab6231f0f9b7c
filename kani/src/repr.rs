//! The order of the line representations, used by the formatter's rules (derived code, all pairs).
#[cfg(not(kani))]
use crate::kani;
use kserd::fmt::Repr;
use std::cmp::Ordering;

fn any() -> (Repr, u8) {
    match kani::any::<u8>() {
        0 => (Repr::Inline, 0),
        1 => (Repr::Concise, 1),
        _ => (Repr::Verbose, 2),
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn f01_repr_order() {
    let ((a, x), (b, y)) = (any(), any());
    assert!((a == b) == (x == y) && (a != b) == (x != y));
    assert!(a.cmp(&b) == x.cmp(&y));
    assert!(a.partial_cmp(&b) == Some(x.cmp(&y)));
    assert!((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y));
    assert!(std::cmp::min(a, b) == if y < x { b } else { a });
    assert!(std::cmp::max(a, b) == if x > y { a } else { b });
    kani::cover!(a.cmp(&b) == Ordering::Less, "reach");
}
