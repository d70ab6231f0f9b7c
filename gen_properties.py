#!/usr/bin/env python3
"""Write properties.jsonl (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": [observe], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("N01", "Numbers of any kind are ordered and equated by exact value",
     "Any two numbers, unsigned, signed or float, compare by their exact mathematical values on the line [-inf, .., 0, .., +inf, NaN], with all zeroes equal and all NaNs equal; == and the partial order always agree with the total order. "
     "Comparing a number with a Rust primitive gives the result of comparing with that primitive's exact value, an f32 standing for the number its shortest decimal text denotes.",
     ["inputs"], "all pairs (and triples) of numbers: every u128, i128 and f64 bit pattern, and every primitive number type on the right",
     "The tests compare a few dozen hand-picked pairs; the domain is pairs of 128-bit integers and 64-bit floats, and mistakes live at rounding boundaries (2^53, 2^64, 2^127, 2^128).",
     ["src/ds/num.rs"], [("Ord/PartialEq/PartialOrd for Number and its float/integer helpers", "src/ds/num.rs")],
     "Number::cmp, ==, <, partial_cmp")

prop("N02", "Equal numbers hash equally",
     "Whenever two numbers compare equal, whatever kinds they are, hashing them with the same hasher gives the same result, so a hashed collection finds a number under any equal number.",
     ["inputs"], "all pairs of equal numbers of every kind",
     "The tests never hash numbers of different kinds; equality crosses kinds and includes signed zeroes and NaN payloads.",
     ["src/ds/num.rs"], [("Hash for Number", "src/ds/num.rs")], "Hash of Number")

prop("N03", "Number conversions are exact or refused",
     "Converting a number to an unsigned or signed 128-bit integer succeeds exactly when the number is that integer or a float within 1e-10 of it (never a negative number for the unsigned conversion), and then returns that integer; otherwise it is an error. "
     "Converting to a float returns the nearest float, and building a number from a Rust primitive keeps its exact value and its kind, an f32 becoming the float its shortest decimal text denotes (its exact value should that float not convert back to it).",
     ["inputs"], "every u128, i128 and f64 bit pattern and every value of every primitive type",
     "The tests convert about thirty values; range ends such as 2^127 and 2^128, tolerance ends and every float bit pattern are out of their reach.",
     ["src/ds/num.rs"], [("as_u128, as_i128, as_f64, From<primitive>", "src/ds/num.rs")],
     "Number::as_u128, as_i128, as_f64, From")

prop("N04", "Number text reads back as the same number",
     "Printing any number and reading the text back gives an equal number. "
     "Reading never panics: a text of digits and underscores with an optional leading minus denotes the integer its digits spell, or is refused when that does not fit 128 bits. A decimal text with a point or an exponent denotes the float nearest to its value, and a text that is not a number is refused.",
     ["inputs"], "all numbers, and all texts",
     "The tests read about twenty literals and print a handful of numbers; they never print large floats or read underscores near zeroes.",
     ["src/ds/num.rs"], [("Display and FromStr for Number", "src/ds/num.rs")], "Number::to_string and str::parse::<Number>")

prop("V01", "Values are equal and ordered by content alone, identities ignored",
     "Comparing two values looks only at their contents: kinds rank unit, bool, number, string, byte array, tuple, container, sequence, map, and within a kind contents are compared element by element, numbers by value; an empty container is the empty tuple. "
     "Identities never matter, ==, the partial order and the total order always agree, and the order is total, so a map finds an entry under any equal key.",
     ["inputs"], "all pairs and triples of values of any depth, with any identities and number kinds",
     "The tests compare a few pairs of small values; agreement of equality with order is a statement about every pair, across kinds, nesting, identities and number kinds.",
     ["src/ds/kserd.rs", "src/ds/val.rs", "src/ds/num.rs"],
     [("Eq/Ord of Kserd (identity left out) and Value", "src/ds")], "==, cmp, partial_cmp of Kserd and Value; map lookup")

prop("V02", "Copies keep every part of a value",
     "Cloning, borrowing or making owned any value gives a value identical in every part: kinds, contents, order, field names and identities at every depth. "
     "A borrowed copy owns no string or byte data and points at the original's; an owned copy borrows nothing.",
     ["inputs"], "all values of any depth with any mix of owned and borrowed parts",
     "The tests copy a few shallow values; losing an identity, a field name or ownership at one depth or in one kind needs a value with that part.",
     ["src/ds/kserd.rs", "src/ds/val.rs", "src/ds/kstr.rs", "src/ds/barr.rs"],
     [("mk_brw, into_owned, Clone of Kserd, Value, Kstr, Barr", "src/ds")], "Kserd::mk_brw, into_owned, clone")

prop("V03", "Typed access yields exactly the stored data or nothing",
     "Each typed accessor of a value, and each typed field accessor of a container, returns the stored data when the value is of that type (numbers when they convert, a character when the string is exactly one) and nothing otherwise. "
     "A change made through a mutable accessor changes exactly that data and nothing else.",
     ["inputs"], "all values and every accessor; all containers, field names and field accessors",
     "The tests touch each accessor once or twice on a matching value; returning another kind's data, another field or a copy that loses writes needs the full product.",
     ["src/ds/val.rs"],
     [("Value accessors and mutable accessors", "src/ds/val.rs"), ("Accessor field access", "src/ds/val.rs")],
     "Value::{unit,bool,ch,uint,int,float,str,barr,tuple,cntr,seq,tuple_or_seq,map} and _mut; Accessor::get_*")

prop("V04", "Identities and field names are validated exactly",
     "Giving a value an identity succeeds exactly when the identity has none of the characters (){}[]<> space comma . / \\ =, and building a container succeeds exactly when every field name is non-empty, does not start with a digit and has none of space / \\ \" ' and tab. "
     "What is accepted is stored unchanged.",
     ["inputs"], "all strings as identity and as field name, at any position among the fields",
     "The tests try one or two bad names; the rule is about every character at every position.",
     ["src/ds/kserd.rs", "src/ds/val.rs"],
     [("identity check", "src/ds/kserd.rs"), ("field name check", "src/ds/val.rs")], "Kserd::with_id, Kserd::new_cntr, Value::new_cntr")

prop("A01", "The navigator lists each node once, in order, with consistent links",
     "Navigating a value lists the value and every value nested in it (map keys included) exactly once in depth-first order, index 0 being the root, and each node refers to the very value at that place. "
     "Parent, position in parent, key flag, value children and key children are mutually consistent and in the order of the data.",
     ["inputs"], "all values: any nesting of tuples, containers, sequences and maps, keys that are themselves structures included",
     "The tests navigate two or three fixed values and no map whose keys have children; link mistakes show only on particular shapes.",
     ["src/nav/navigator.rs", "src/nav/node.rs", "src/nav/value.rs"],
     [("flattening and parent links", "src/nav/navigator.rs"), ("node accessors and child iterators", "src/nav")],
     "Navigator::new, get, nodes; Node::parent, idx_in_parent, is_key, value, value_children, key_children")

prop("A02", "Descendant listings are complete and in order",
     "For any node, the depth-first listing of descendants is exactly the nodes below it in navigator order, and the breadth-first listing is the same nodes level by level, a node's keys before its values. "
     "Neither contains the node itself or anything outside its subtree.",
     ["inputs"], "all values and every node of each",
     "The tests list descendants of one fixed value; missing or extra nodes depend on where keys, empty structures and siblings are.",
     ["src/nav/node.rs"], [("descendants_depth, descendants_breadth", "src/nav/node.rs")],
     "Node::descendants_depth, Node::descendants_breadth")

prop("F01", "Formatting requests are granted exactly by the documented rules",
     "A request to show a node inline, concise or verbose is granted exactly when the node exists, its kind and place allow that representation, and its parent's representation is not lower; a granted request sets that node and lowers those below it to at most that, changing nothing else. "
     "A refused request, and any identity request on a missing node, changes nothing and is reported as an error that names an applicable reason.",
     ["inputs", "histories"], "all values and all sequences of requests, with indices in and out of range",
     "The tests make a few single requests on two values; the rules interact with the current state, so mistakes need particular sequences on particular shapes.",
     ["src/fmt/formatter.rs", "src/fmt/mod.rs"],
     [("request validation and propagation", "src/fmt/formatter.rs")], "Formatter::inline, concise, verbose, id, fmts",
     [("per node formats", "shown identity and representation of every node", "src/fmt/formatter.rs")])

prop("F02", "Formatting never fails and depends only on value and configuration",
     "Formatting any value with any configuration or granted requests returns a text, the same one every time, and leaves the value unchanged. "
     "Writing into a buffer appends exactly that text, and the display form is the default configuration's text.",
     ["inputs", "configurations"], "all values and all formatting configurations",
     "The tests format a few dozen values with few configurations; panics and buffer mistakes need particular nestings, widths and identities.",
     ["src/fmt/mod.rs", "src/fmt/formatter.rs", "src/fmt/prims.rs", "src/fmt/tuples.rs", "src/fmt/cntr.rs", "src/fmt/seqs.rs", "src/fmt/maps.rs", "src/fmt/solver.rs"],
     [("writers of the three representations", "src/fmt")], "Kserd::as_str, as_str_with_config, Display, Formatter::write_string")

prop("F03", "A configuration shows identities and layouts as documented",
     "Applying a configuration shows a node's identity exactly when the flag for its kind is set. "
     "Without a width limit everything is inline and the text is a single line; with a limit of zero every node takes the largest representation its kind and place allow.",
     ["inputs", "configurations"], "all values and all configurations",
     "The tests apply a few configurations to a few values; flags of one kind or limits at the ends are easily swapped unnoticed.",
     ["src/fmt/solver.rs", "src/fmt/formatter.rs", "src/fmt/mod.rs"],
     [("configuration solver", "src/fmt/solver.rs")], "Formatter::apply_config, fmts; Kserd::as_str_with_config")

prop("R01", "Formatted text parses back to the same value",
     "For any value whose names the text syntax can carry, any formatting configuration and any granted formatting requests, parsing the formatted text succeeds and gives an equal value, with every identity that was shown. "
     "The only differences allowed are spellings the syntax shares: an empty container reads as an empty tuple and numbers keep their value but may change kind.",
     ["inputs", "configurations", "histories"], "all values with names of letters, digits, underscore and hyphen (identities other than true and false), all configurations and request sequences",
     "The tests round-trip a handful of documents; quoting, nesting, identities and layout interact, and each combination has its own writer and reader.",
     ["src/fmt/mod.rs", "src/fmt/formatter.rs", "src/fmt/prims.rs", "src/fmt/tuples.rs", "src/fmt/cntr.rs", "src/fmt/seqs.rs", "src/fmt/maps.rs", "src/parse/mod.rs", "src/parse/prims.rs", "src/parse/names.rs", "src/parse/heuristics.rs", "src/parse/list.rs", "src/parse/cntr.rs", "src/parse/map.rs", "src/parse/wsp.rs", "src/parse/err.rs"], [("writers", "src/fmt"), ("readers", "src/parse")], "parse(&kserd.as_str_with_config(..)), Formatter::write_string")

prop("R02", "Parsing never panics and reports errors inside the text",
     "Parsing any text ends in a value or an error, never a panic, in time that nesting does not make exponential; an error's position lies inside the text. "
     "A value that is returned formats to text that parses to an equal value.",
     ["inputs"], "all texts (nesting up to 600 levels; deeper input is limited by the call stack)",
     "The tests parse well formed documents and a few bad ones; panics and blow-ups hide in damaged, unbalanced, non-ASCII or deeply nested text.",
     ["src/parse/mod.rs", "src/parse/prims.rs", "src/parse/names.rs", "src/parse/heuristics.rs", "src/parse/list.rs", "src/parse/cntr.rs", "src/parse/map.rs", "src/parse/wsp.rs", "src/parse/err.rs"], [("nom grammar and error mapping", "src/parse")], "parse::parse and its error")

prop("R03", "Layout and quoting choices do not change the meaning of a text",
     "A document means the same value whichever way the syntax allows it to be written: inline, concise or verbose, with extra blank space and trailing separators where permitted, and with either string quoting. "
     "Parsing any such spelling of a value gives that value.",
     ["inputs"], "all values and all their spellings",
     "The tests parse chosen spellings of chosen values; each construct's blank space, separators and nesting are handled by separate code.",
     ["src/parse/mod.rs", "src/parse/prims.rs", "src/parse/names.rs", "src/parse/heuristics.rs", "src/parse/list.rs", "src/parse/cntr.rs", "src/parse/map.rs", "src/parse/wsp.rs", "src/parse/err.rs"], [("grammar of inline, concise and verbose forms", "src/parse")], "parse::parse")

prop("E01", "Encoding and decoding a Rust value gives it back",
     "For a Rust value of a type with derived serialisation, decoding its encoding gives an equal value, whether the encoding is decoded directly, borrowed, or formatted as text and parsed first. "
     "Borrowed decoding yields references to the original strings and bytes.",
     ["inputs"], "all values of types built from primitives, strings, bytes, options, tuples, arrays, sequences, maps, structs and enums (map keys that differ in more than an identity; no zero-length arrays)",
     "The tests encode a few values of a few types; each combination of container, variant form, number width and text layout takes a different path.",
     ["src/encode/encoder.rs", "src/encode/decoder.rs"],
     [("serde serializer", "src/encode/encoder.rs"), ("serde deserializer", "src/encode/decoder.rs")], "Kserd::enc, Kserd::decode")

prop("E02", "Decoding a number to a Rust type is exact or refused",
     "Decoding a number to an integer type succeeds exactly when the number is (or is a float within 1e-10 of) an integer in that type's range, and then gives that integer; otherwise it is an error, never a wrapped, clamped or truncated value. "
     "Decoding to f64 gives the nearest f64, and decoding to f32 the f32 nearest to that.",
     ["inputs"], "every number and every primitive numeric type",
     "The tests decode a few in-range values; errors live at the ends of twelve ranges for three kinds of number.",
     ["src/encode/decoder.rs", "src/ds/num.rs"], [("integer and float decoding", "src/encode/decoder.rs")], "Kserd::decode::<integer or float>")

prop("E03", "Decoding to a mismatched type is an error, never a panic",
     "Decoding any value to any type ends in a value or an error with a message. "
     "A primitive type is decoded only from its own kind, a list only from a tuple or sequence with all its elements, an option only from unit or the values named None and Some, and an enum only as the variant its identity names.",
     ["inputs"], "all values against all types",
     "The tests decode matching values and a few mismatches; the product of value kinds, identities, lengths and target types is far larger.",
     ["src/encode/decoder.rs"], [("serde deserializer and variant access", "src/encode/decoder.rs")], "Kserd::decode")

prop("E04", "Rust values become the documented trees",
     "Converting a Rust value, directly or through serialisation, gives the tree the documentation describes: kind, identity, field names, order and contents at every depth, nothing lost or added. "
     "A type or variant name that is not a valid identity is refused.",
     ["inputs"], "all values of the supported standard types (tuples to 12, arrays 1 to 32) and derived types",
     "The tests convert one value per type and equality ignores identities, so lost or wrong identities and number kinds pass unnoticed.",
     ["src/to_kserd.rs", "src/encode/encoder.rs"],
     [("direct conversions", "src/to_kserd.rs"), ("serde serializer", "src/encode/encoder.rs")], "ToKserd::into_kserd, Kserd::enc")

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
