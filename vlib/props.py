"""What decides each property: which obligations, which bounded contracts, what is trusted."""

KANI_TRUST = [
    "Kani 0.68 compiler (MIR to GOTO) and CBMC 6.11 with the cadical SAT solver",
    "CBMC's IEEE-754 model of f64 comparison, floor, ceil, round, abs and integer casts",
    "spec/num_spec.rs as the meaning of the number line (integer arithmetic on float bit patterns)",
]

PROPS = {
    "N01": {
        "technique": 'Kani full-domain proof of exact ordering, bounded contracts for f32 and triples',
        "note": 'Proved for all 128-bit integers and f64 bit patterns: cmp, ==, partial_cmp and comparisons with Rust integers and f64 are exact. Comparison with f32 is bounded. Trusts Kani/CBMC and the integer-arithmetic reference.',
        "level": "proof",
        "kani": [{"run": ["n01_"]}],
        "trusted": KANI_TRUST + ["std's shortest decimal printing and parsing of f32 (bounded contracts only)"],
        "assumptions": ["comparison with f32 primitives goes through decimal text and is covered by the bounded contracts only"],
        "rule": "every pair from a palette of boundary numbers of the three kinds, plus seeded random pairs and triples; a case is one pair (or triple) compared in every way the API offers",
        "explain": "Kani proves cmp, ==, partial_cmp and the comparisons with Rust integers equal to exact number-line comparison for all bit patterns; bounded contracts add f32 and triples",
    },
    "N02": {
        "technique": 'Kani full-domain proof that equal numbers hash equally',
        "note": 'Proved for all pairs of bit patterns of all kinds. Trusts Kani/CBMC and the integer-arithmetic reference.',
        "level": "proof",
        "kani": [{"run": ["n02_"]}],
        "trusted": KANI_TRUST,
        "rule": "all equal pairs from the boundary palette and seeded numbers; a case is one pair hashed with two hashers",
        "explain": "Kani proves for all bit patterns of every pair of kinds that numbers equal on the number line feed a hasher the same data",
    },
    "N03": {
        "technique": 'Kani full-domain proof of exact conversions, bounded contracts for f32',
        "note": 'Proved for all bit patterns: as_u128, as_i128, as_f64, From<integer>, From<f64>. From<f32> is bounded. Trusts Kani/CBMC and the reference.',
        "level": "proof",
        "kani": [{"run": ["n03_"]}],
        "trusted": KANI_TRUST + ["std's shortest decimal printing and parsing of f32 (bounded contracts only)"],
        "assumptions": ["conversion from f32 goes through decimal text and is covered by the bounded contracts only"],
        "rule": "palette and seeded numbers, each converted in every way the API offers",
        "explain": "Kani proves as_u128/as_i128/as_f64 and From<integer>, From<f64> exact for all bit patterns; bounded contracts add From<f32>",
    },
    "N04": {
        "technique": 'executable contract, bounded',
        "note": 'Bounded stand-in, nothing proved: print/read loops are in dependencies.',
        "level": "exploration",
        "trusted": ["lexical-core, fast-float and std float printing are exercised, not proved"],
        "rule": "every palette number and seeded numbers printed and read back; all texts over a small alphabet up to the stated length read",
        "explain": "bounded stand-in: decimal conversion runs through dependency loops outside the verifiers' reach",
    },
}

TREES = "every tree shape up to the stated number of nodes with leaves from a palette, plus seeded random trees; a case is one tree (with what the domain adds to it)"

for _id, _rule, _explain in [
    ("V01", "all pairs of a pool of values, plus seeded trees against a disguised and a slightly changed copy", "structural order against a reference"),
    ("V02", TREES, "copies compared part by part, ownership inspected"),
    ("V03", TREES, "every accessor against the stored data"),
    ("V04", "every character of a palette at every position of a name, all pairs of special characters, seeded names", "validation against the documented character sets"),
    ("A01", TREES, "navigator against an independent recursive listing"),
    ("A02", TREES, "descendant listings against an independent recursive listing"),
    ("F01", "all pairs of requests on small shapes, seeded request sequences on random trees", "formatter state against the documented rules"),
    ("F02", TREES, "repeatability and agreement of the ways of formatting"),
    ("F03", TREES, "flags and representations against the configuration"),
    ("R01", TREES + ", formatted with several widths, flags and requests", "format, parse, compare"),
    ("R02", "all short token texts, seeded random and damaged texts, deep texts", "parse outcome, error position, re-formatting"),
    ("R03", TREES + " written by an independent writer with random layout", "independent spellings parsed and compared"),
    ("E01", "seeded values of about 100 types, encoded and decoded four ways", "decode(encode(x)) = x"),
    ("E02", "boundary and seeded numbers against every numeric type", "decoded value against exact range rules"),
    ("E03", "trees and damaged encodings against 40 types", "outcome against the stored kind"),
    ("E04", "seeded values of 80 types", "tree against the documented one"),
]:
    PROPS[_id] = {
        "technique": "executable contract, bounded",
        "note": "Bounded stand-in, nothing proved yet.",
        "level": "exploration",
        "trusted": [],
        "rule": _rule,
        "explain": _explain,
    }

VERUS_TRUST = ["Verus 0.2026.09.13 with Z3 and vstd's contracts for the standard library",
               "verus/spec.rs as the meaning of the navigator and formatter rules"]
NAV = "std's HashMap entries, stable sort, filter_map, extend and reversed map iteration do what their documentation says (wrappers in verus/spec.rs); a vector of nodes holds fewer than usize::MAX"

PROPS["F01"].update({
    "technique": "Verus contracts on the formatter's real functions; Kani for the derived order; bounded contracts",
    "note": "Proved for all trees, states and requests: every request is granted exactly by the rules, sets and lowers exactly what it should, and refuses with an applicable reason. The navigator's construction is A01, a new formatter's state F03. Trusts Verus/Z3, Kani.",
    "level": "proof",
    "verus": {"deps": ["A01", "A02", "F03"]},
    "kani": [{"run": ["f01_"]}],
    "trusted": VERUS_TRUST + ["derived comparison of representations, assumed by Verus, discharged by Kani for all pairs"],
    "assumptions": [NAV],
    "explain": "Verus proves inline, concise, verbose, id and what they call against the documented rules; the bounded contracts test the same rules through the public API",
})
PROPS["F03"].update({
    "technique": "Verus contracts on applying a configuration and on new formatters; bounded contracts",
    "note": "Proved for all trees, if widths are positive: flags set exactly by kind; without a limit every node ends inline; a new formatter, and one with limit zero, has every node at the largest representation allowed. Widths and that the text is one line are bounded, not proved.",
    "verus": {"deps": ["A01", "A02", "F01"]},
    "trusted": VERUS_TRUST,
    "assumptions": [NAV, "the width functions return one positive width per node and calculate_offset returns (bounded)", "that text written with every node inline has no line break is bounded"],
    "explain": "Verus proves Formatter::new, apply_config and min_line_repr against verus/spec.rs topmost, shown and all_inline; bounded contracts compare flags, representations and text with the configuration",
})
PROPS["A01"].update({
    "technique": "Verus contracts on navigator construction and every accessor; bounded contracts",
    "note": "Proved for all values: construction numbers nodes depth first, every node's children are exactly the values inside its own, in data order, all links agree, and every accessor returns exactly the stored links. Std's collections are assumed; that references are the very same memory is bounded.",
    "level": "proof",
    "verus": {"deps": []},
    "trusted": VERUS_TRUST,
    "assumptions": [NAV, "the debug build's own validation of a new navigator is left out (it only asserts)", "termination of construction is not proved (it follows the value's own nesting)"],
    "explain": "Verus proves Navigator::new and the accessors against verus/spec.rs wf and mirrors; bounded contracts compare the navigator with an independent recursive listing",
})
PROPS["A02"].update({
    "technique": "Verus contracts on both listings of descendants; bounded contracts",
    "note": "Proved for all trees: the depth-first listing is exactly the nodes below in order, the breadth-first one the same nodes once each, level by level, keys first. Links are A01, proved too. Std's iterators and queue are assumed.",
    "level": "proof",
    "verus": {"deps": ["A01"]},
    "trusted": VERUS_TRUST,
    "assumptions": [NAV, "chain, cloned, collect and extend on a VecDeque keep every item in order (wrappers in verus/spec.rs)"],
    "explain": "Verus proves descendants_depth and descendants_breadth against verus/spec.rs wf and breadth; bounded contracts compare both with an independent recursive listing",
})
STD = "the standard library's comparison, cloning, iteration and insertion of vectors and maps does what its documentation says, calling the elements' own comparison or clone (wrappers in verus/spec.rs)"
TERMINATES = "termination of the recursive copies is not proved (they follow the value's own nesting)"
PROPS["V01"].update({
    "technique": "Verus contracts on ==, partial_cmp and cmp of values, lemmas that the order is total; bounded contracts",
    "note": "Proved for all values: == and both orders of Kserd and Value are the documented rule on kinds and contents, identities unused, and that rule is total and agrees with == if the parts' orders are. Elementwise comparison of lists and maps is std's (assumed), numbers are N01.",
    "level": "proof",
    "verus": {"deps": []},
    "trusted": VERUS_TRUST,
    "assumptions": [STD, "numbers compare as N01 says; derived comparison of strings and byte arrays is by content (bounded contracts)"],
    "explain": "Verus proves the six comparison functions against verus/spec.rs value_eq and value_cmp, and value_order_total over them; bounded contracts compare whole trees with an independent reference",
})
PROPS["V02"].update({
    "technique": "Verus contracts on clone, mk_brw and into_owned of values, strings and byte arrays; bounded contracts",
    "note": "Proved for all values, to every depth: copies keep kinds, contents, order, names and identities, a borrowed copy has only borrowed data, an owned one only owned. That borrowed data is the very original's memory, and std's own clones, are bounded or assumed.",
    "level": "proof",
    "verus": {"deps": []},
    "trusted": VERUS_TRUST,
    "assumptions": [STD, TERMINATES, "a map rebuilt by inserting copies of its entries in order has exactly these entries (keys of equal content order equally, V01)", "addresses are outside Verus: that borrowed data is the original's memory is bounded"],
    "explain": "Verus proves the copying functions against verus/spec.rs copy; bounded contracts compare copies part by part and inspect addresses",
})
PROPS["V03"].update({
    "technique": "Verus contracts on every typed accessor, shared and mutable; bounded contracts",
    "note": "Proved for all values: each accessor of Value and Accessor returns exactly the stored data or nothing, and writing through a mutable one changes exactly that data. The field found is what BTreeMap::get finds; number conversions are N03.",
    "level": "proof",
    "verus": {"deps": []},
    "trusted": VERUS_TRUST,
    "assumptions": [STD, "numbers convert as N03 says"],
    "explain": "Verus proves every accessor against the stored variant; bounded contracts call all of them on small and random trees",
})
PROPS["V04"].update({
    "technique": "Verus contracts on identity and field name validation; bounded contracts",
    "note": "Proved for all texts: with_id, field name validation and new_cntr accept exactly the documented names and keep what they accept. That collecting pairs into a map and iterating it visits every field is std's (assumed, bounded).",
    "level": "proof",
    "verus": {"deps": []},
    "trusted": VERUS_TRUST,
    "assumptions": [STD, "str::contains with a char is membership in the text's characters"],
    "explain": "Verus proves with_id, validate and new_cntr against the documented character sets; bounded contracts try every special character at every position",
})
PROPS["E02"].update({
    "technique": "Kani full-domain proof of decoding to every numeric type, bounded contracts through the public API",
    "note": "Proved for all bit patterns of all kinds of number: decoding to u8..u128, i8..i128, f32, f64 is the exact conversion plus a range check, or an error. Error text is stubbed; serde's own primitive impls are bounded.",
    "level": "proof",
    "kani": [{"run": ["n03_as_"]},
             {"run": ["e02_"], "jobs": 6, "each_s": 300, "flags": ["--no-memory-safety-checks", "--no-assertion-reach-checks"]}],
    "trusted": KANI_TRUST + ["stubs: core::fmt::write and Formatter::pad do nothing (the text of an error is not claimed); as_u128, as_i128 and as_f64 return anything (their own contracts are the n03 harnesses)",
                             "serde's Deserialize for primitives (usize and isize included) calls the matching method and keeps the value; bounded contracts only"],
    "assumptions": ["memory safety checks of std code are off for these harnesses (the crate has no unsafe code)"],
})

SERDE = "serde's derived and built-in impls call the serializer's and visitor's methods as serde documents; what one call returns is an uninterpreted function of what it is given"
PROPS["E04"].update({
    "technique": "Verus contracts on every conversion and every serializer method; bounded contracts",
    "note": "Proved for all values: every ToKserd impl and every method of the serializer builds exactly the documented tree or refuses an invalid name. That std collects, inserts and prints chars as documented and that serde calls these methods in the documented order is assumed (bounded).",
    "level": "proof",
    "verus": {"deps": ["V02", "V04"]},
    "trusted": VERUS_TRUST,
    "assumptions": [STD, SERDE, "an f32 converts as N03 says", "impls of the conversion for user types, maps included, are outside the crate"],
    "explain": "Verus proves the conversions and the serializer, for the element types' own conversions whatever they are; bounded contracts compare whole trees of 80 types with independent ones",
})
PROPS["E03"].update({
    "technique": "Verus contracts on the decoder's methods; Kani (E02) for integers; bounded contracts",
    "note": "Proved for all values and visitors: the decoder never panics and asks a visitor exactly what the stored kind allows, or errs; variants match arity and kind. Integers are E02. What serde's and derived visitors make of a call is bounded, not proved.",
    "level": "proof",
    "verus": {"deps": ["E04", "V02"]},
    "trusted": VERUS_TRUST + ["serde's forward_to_deserialize_any! forwards to deserialize_any", "serde's SeqDeserializer, MapDeserializer and the deserializer of a str hand over all they were given, in order"],
    "assumptions": [STD, SERDE, "the integer methods, made by a macro inside the trait impl, are proved by Kani in E02 for numbers and bounded here for other kinds"],
    "explain": "Verus proves deserialize_any, f32, f64, char, unit struct, newtype struct, enum and variant access against verus/spec.rs dispatch; bounded contracts decode trees and damaged encodings to 40 types",
})
PROPS["E01"].update({
    "technique": "Verus contracts on encoder and decoder with lemmas that they are inverse, bounded contracts for whole values",
    "note": "Options, newtypes, lists and structs the encoder builds are proved to reach the visitor as the calls that made them, one level at a time. The round trip through derived code, and through text, is bounded (about 100 types), not proved.",
    "verus": {"deps": ["E03", "E04", "V02"]},
    "trusted": VERUS_TRUST,
    "assumptions": [STD, SERDE, "text round trip: R01, bounded"],
})

NOT_APPLICABLE = {}
