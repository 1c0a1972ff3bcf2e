#!/usr/bin/env python3
"""Writes properties.jsonl (the property list is kept here so it stays valid JSON)."""
import json, os
DE="src/json/de.rs"; SER="src/json/ser.rs"; DI="src/de/impls.rs"; SI="src/ser/impls.rs"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
prop("C01","The parser accepts exactly the JSON documents",
 "For every input string, parsing succeeds into a type that takes any value if and only if the text is exactly one RFC 8259 JSON value surrounded by optional JSON whitespace, where additionally every \\u escape must form a Unicode scalar value (surrogates only as a high/low pair) and no number literal may exceed the finite double range. Anything else (trailing text, trailing or doubled commas, mismatched or missing brackets, leading zeros, control characters in strings, bare words) is an error.",
 ["inputs"],"every &str of any length below 2 GiB",
 "The tests parse about thirty hand-written documents; the language is infinite and almost every deviation (an extra separator accepted after a nested close, a whitespace byte accepted somewhere) is visible only on inputs nobody listed.",
 [DE,"src/de/mod.rs"],
 [("comma / close-bracket / key-colon state machine",DE+": from_str_impl"),("tokenizer",DE+": Deserializer::event, parse_integer, parse_number, parse_decimal, parse_exponent, parse_str, parse_ident, parse_whitespace"),("trailing-garbage check",DE+": end of from_str_impl")],
 [("stack","open containers with the visitor to return to",DE+": Deserializer.stack"),("accept_comma","a complete element precedes",DE+": from_str_impl")],["miniserde::json::from_str return value"])
prop("C02","String literals decode to exactly the text they denote",
 "For every accepted string literal (value or object key) the text handed to the caller equals the literal with each escape replaced by the character it denotes and every other byte unchanged, and is always valid UTF-8. A literal with a bad escape, an unpaired surrogate, a raw control character or no closing quote is rejected.",
 ["inputs"],"every string literal, any mix of raw UTF-8, short escapes, \\u escapes and surrogate pairs, of any length, after any previous literals",
 "Three regression inputs exercise escapes; the fast path/slow path copying, the scratch buffer reuse and the unchecked UTF-8 conversion are correct only if an invariant holds for all byte sequences.",
 [DE],[("borrowed fast path and scratch-buffer slow path",DE+": parse_str"),("escape decoding",DE+": parse_escape, decode_hex_escape"),("table of bytes that stop the scan",DE+": ESCAPE"),("unchecked UTF-8 conversion",DE+": parse_str::result")],
 [("buffer","unescaped text of the current literal",DE+": Deserializer.buffer")],["json::from_str::<String>","object keys of a parsed map"])
prop("C03","Integers parse exactly or are rejected, never wrapped or truncated",
 "For every integer literal and every integer target type, parsing yields exactly the mathematical value when it is representable in the target type and an error otherwise; a literal with a minus sign (also -0) is negative, so an error for the unsigned types. An integer literal parsed into the dynamic value type is exact whenever it fits in i64 or u64.",
 ["inputs"],"every digit string of any length with either sign, and all ten integer types plus the dynamic number type",
 "A test cannot visit all 2^64 boundaries for ten types; existing tests try a few extremes. Off-by-one errors at a digit/limit boundary survive any sample.",
 [DE,DI,"src/json/number.rs"],[("digit accumulation with overflow test",DE+": parse_integer, overflow!"),("sign handling by wrapping negation",DE+": parse_number"),("range check per type",DI+": signed!, unsigned! visitors")],
 (),["json::from_str::<i8..i64,u8..u64,isize,usize>","json::from_str::<Number>"])
prop("C04","Floating-point literals give a finite double of the right sign and scale",
 "Every accepted number literal parsed as a floating-point number yields a finite value with the sign written, equal to a significand that keeps at least the literal's first 19 significant digits (all of them when they fit in 64 bits) converted to a double and scaled by the matching power of ten (one correctly rounded multiplication or division by an exact-as-possible power; further divisions by 1e308 below that range); magnitudes beyond the double range are an error and magnitudes below it give a signed zero. Fraction and exponent parts are accounted for exactly, whatever their length.",
 ["inputs"],"every number literal: any number of integer, fraction and exponent digits below 2 GiB",
 "Twelve literals are tested. Exponent bookkeeping (dropped digits, saturation, chained scaling by 1e308, the 309-entry power table) has corner cases in digit-count space that samples do not reach.",
 [DE],[("significand/exponent bookkeeping",DE+": parse_integer, parse_long_integer, parse_decimal, parse_exponent, parse_exponent_overflow"),("scaling",DE+": f64_from_parts, POW10")],
 (),["json::from_str::<f64>","json::from_str::<Number>"])
prop("C05","Parsing is total: it always returns, never panics or reads out of bounds",
 "For every input string and every receiving type that keeps the visitor protocol (it may fail at any call, but a reported success has filled the slot it was given), parsing terminates and returns a value or an error; it never panics, overflows an integer, indexes outside the input or creates an invalid string. The amount of work is bounded by the input: every step of the parser consumes input.",
 ["inputs","programs"],"every &str below 2 GiB, malformed or truncated anywhere, with any implementation of the receiving protocol, including ones that fail at any call",
 "Termination and absence of panics are universal claims over all inputs; tests only show some inputs return.",
 [DE],[("position never passes the end",DE+": next, peek, bump and all callers"),("termination measure: remaining input",DE+": all loops of the parser")],
 [("pos","next unread byte, 0 <= pos <= len",DE+": Deserializer.pos")],["json::from_str"])
prop("C06","Nesting depth costs heap, never call stack",
 "Parsing, serializing and dropping a document nested arbitrarily deep use an amount of call stack that does not depend on the nesting depth, so no input can overflow the stack.",
 ["inputs"],"every nesting depth and every mix of arrays and objects, including input that is rejected half way and partially built values that are dropped",
 "One regression test tries one shape at one depth; depth independence is a statement about every call path (parsing, ignoring, serializing, dropping, early error returns).",
 [DE,SER,"src/json/drop.rs","src/json/value.rs","src/json/array.rs","src/ignore.rs"],[("explicit stack instead of recursion",DE+": from_str_impl; "+SER+": to_string_impl"),("iterative drop","src/json/drop.rs: safely"),("reverse-order release of pending layers",DE+": Drop for Deserializer")],
 (),["json::from_str","json::to_string","drop of json::Value"])
prop("C07","Serialized text is the well-formed JSON form of the value, nothing else",
 "For every serializable value, serializing yields exactly one well-formed JSON document: the members of each sequence and map in the order the value yields them, separated by single commas, keys and values separated by a colon, brackets balanced, no extra bytes.",
 ["inputs","programs"],"every finite tree of fragments any serializable type can produce: any nesting, any lengths including empty, any mix",
 "Separator and closing logic depends on the history of nested begin/end events; tests print a handful of small documents.",
 [SER],[("explicit-stack printer",SER+": to_string_impl"),("separator and close handling",SER+": 'next item' loop of to_string_impl")],
 [("stack","open containers with their iterators",SER+": Serializer.stack")],["miniserde::json::to_string"])
prop("C08","Any string survives serialization and parsing unchanged",
 "For every string, its serialized form is a JSON string literal containing no raw control character, and parsing that literal gives the identical string; the same holds for object keys.",
 ["inputs"],"every Unicode string, including all control characters, quotes, backslashes and non-BMP characters, at any position",
 "All 0x110000 characters at all positions and adjacent combinations cannot be sampled; an error in one table entry or in the chunk-copy bookkeeping affects only specific bytes or neighbours.",
 [SER,DE],[("escaping by chunks",SER+": escape_str"),("escape tables",SER+": ESCAPE, HEX_DIGITS"),("decoding",DE+": parse_str, parse_escape")],
 (),["json::to_string(&str)","json::from_str::<String>(&json::to_string(s))"])
prop("C09","Numbers serialize to their exact value; non-finite floats to null",
 "For every integer of every integer type the serialized text is its canonical decimal form and parses back to the same value; for every finite float the text is a valid JSON number denoting exactly that value, and NaN and the infinities serialize as null. Booleans, null and the dynamic number type serialize likewise.",
 ["inputs"],"all values of all ten integer types, all f32/f64 bit patterns, bool, unit, dynamic numbers",
 "The value space is 2^64 per type; tests print a few numbers.",
 [SER,SI,"src/json/number.rs"],[("fragment of each type",SI+": begin of unsigned!, signed!, float impls"),("number printing",SER+": to_string_impl; src/json/number.rs")],
 (),["json::to_string"])
prop("C10","A dynamic JSON value survives serialization and parsing",
 "For every dynamic value tree whose floats are finite, serializing it and parsing the text gives an equal tree, except that a float may differ in its last bits and a float with integral value may come back as an integer; parsing then reserializing any accepted document and parsing again gives the same tree.",
 ["inputs"],"every dynamic value: any nesting of null, booleans, numbers, strings, arrays and objects",
 "Trees are unbounded; the tests round-trip one or two.",
 ["src/json/value.rs","src/json/array.rs","src/json/object.rs","src/json/number.rs",DE,SER],[("visitor and builders of the dynamic value","src/json/value.rs: impl Deserialize for Value"),("fragments of the dynamic value","src/json/value.rs: impl Serialize for Value")],
 (),["json::from_str::<Value>","json::to_string(&Value)"])
prop("C11","Values of the standard types survive serialization and parsing",
 "For every value of the supported standard types (unit, bool, string, integers, Box, Option, pairs, Vec, fixed arrays, maps, and any composition of them that contains no unit or nested Option directly inside Option), parsing the serialized text gives an equal value; sequences keep their order and length and maps keep all their entries.",
 ["inputs","programs"],"every value of every composition of the supported types, any length and nesting",
 "Infinite values and an infinite family of types; tests check each type on one or two values.",
 [DI,SI],[("builders that shift the last element on each step and on finish",DI+": VecBuilder, ArrayBuilder, TupleBuilder, MapBuilder, BoxSeq, BoxMap"),("element and entry streams",SI+": slice, tuple and map streams")],
 (),["json::from_str(&json::to_string(&v))"])
prop("C12","A value of the wrong JSON kind is an error, never a wrong result",
 "Parsing a document into a type succeeds only if the JSON kind at every position is the one the type expects (null, boolean, number, string, array or object); otherwise parsing returns an error. A success always carries a value built from that document, never a missing or stale one.",
 ["inputs","programs"],"every pairing of supported target type and JSON kind, at every nesting position",
 "The kind/type matrix at all nesting positions is infinite; tests check about ten mismatches.",
 ["src/de/mod.rs",DI,DE],[("default error of every visitor method","src/de/mod.rs: Visitor"),("slot filled only by the accepting method",DI),("missing result is an error",DE+": from_str")],
 (),["json::from_str"])
prop("C13","Pairs and fixed-size arrays require exactly their arity",
 "Parsing into a pair or an N-element array succeeds only on a JSON array with exactly 2 or N elements, in which case component i is the value of element i; fewer or more elements are an error whatever the element values.",
 ["inputs","programs"],"every array length on input, every N, every element type",
 "N and the input length are unbounded; tests try one array size.",
 [DI],[("element counter and completion check",DI+": TupleBuilder, ArrayBuilder")],
 [("len","number of initialised slots",DI+": ArrayBuilder.len")],["json::from_str::<[T; N]>, json::from_str::<(A, B)>"])
prop("C14","Derived structs: any field order, unknown fields ignored, missing is an error",
 "Parsing an object into a derived struct yields exactly the value of each named member regardless of member order, ignores members with other names whatever their value, takes the last value of a repeated member, and is an error if a member is missing unless its type has a default for absence (Option gives None). Serializing writes one member per field, in declaration order, under its (possibly renamed) name.",
 ["inputs","programs"],"every object (any members, order, repetition, any nested ignored value) against every derivable struct, including generic and renamed fields",
 "Member orders and unknown members are combinatorial; tests parse one order of one struct.",
 ["derive/src/de.rs","derive/src/ser.rs","derive/src/attr.rs","derive/src/bound.rs","src/ignore.rs","src/de/mod.rs"],[("generated builder: one slot per field, key match, finish",  "derive/src/de.rs: derive_struct"),("generated stream","derive/src/ser.rs: derive_struct"),("accept-everything visitor","src/ignore.rs")],
 (),["json::from_str / json::to_string of a derived struct"])
prop("C15","Maps keep every entry; the last of duplicate keys wins; keys parse exactly",
 "Parsing an object into a map type yields exactly one entry per distinct key, holding the value of its last occurrence and nothing else; keys of non-string key types are exactly the key's text parsed as that type, with an error if it does not parse. Serializing a map writes every entry once under the text form of its key.",
 ["inputs","programs"],"every object of any size with any repetition of keys, for hash and ordered maps and every supported key type",
 "Key multisets are unbounded; tests use one or two keys.",
 [DI,SI,"src/json/object.rs"],[("pending key/value pair moved into the map on the next key and on finish",DI+": MapBuilder"),("key parsing",DI+": MapBuilder::key"),("key text",SI+": map streams")],
 (),["json::from_str::<BTreeMap/HashMap>","json::to_string(&map)"])
prop("C16","Derived C-style enums map variants and names one-to-one",
 "A derived enum serializes each variant as its (possibly renamed) name, and parsing succeeds exactly on the JSON strings that are some variant's name, giving that variant; every other input is an error.",
 ["inputs","programs"],"every string against every derivable enum, with and without renamed variants",
 "The set of non-matching strings is infinite; tests check two names.",
 ["derive/src/de.rs","derive/src/ser.rs","derive/src/attr.rs"],[("generated string match","derive/src/de.rs: derive_enum"),("generated name table","derive/src/ser.rs: derive_enum")],
 (),["json::from_str / json::to_string of a derived enum"])
prop("C17","Partly built arrays and boxes never leak, double-drop or read unset memory",
 "However parsing into a fixed-size array or a boxed value ends (success, too few or too many elements, an error at any element), every element that was completely parsed is dropped or delivered exactly once and no uninitialised element is ever read or dropped.",
 ["inputs","fault_sequences"],"every array length, every number of elements supplied and every point of failure",
 "Double drops and uninitialised reads are undefined behaviour that a passing test does not exhibit, and the failure point is a free parameter.",
 [DI,"src/ptr.rs"],[("count of initialised slots, drop of exactly that prefix",DI+": ArrayBuilder, its Drop, finish"),("leak-and-rebox of the inner visitor box",DI+": BoxSeq/BoxMap"),("manually owned box","src/ptr.rs: NonuniqueBox")],
 [("len","number of initialised slots",DI+": ArrayBuilder.len")],["drop counts of element type"])
prop("C18","Dynamic arrays and objects behave as the list and map they wrap",
 "Every operation of the dynamic array and object types (construction, push, insert, iteration, conversion, indexing, by-value iteration) has exactly the effect of the same operation on an ordinary list or ordered map, and every contained value is dropped exactly once whichever way the container is consumed.",
 ["inputs","histories"],"every sequence of operations on every container content",
 "Operation sequences are unbounded; the tests use one or two.",
 ["src/json/array.rs","src/json/object.rs","src/json/drop.rs","src/json/value.rs"],[("forwarding to the inner container","src/json/array.rs, src/json/object.rs"),("taking the contents out of a container with a custom drop","src/json/array.rs: IntoIterator; src/json/object.rs")],
 (),["public API of json::Array and json::Object"])
prop("C19","The parser drives the receiving type by the exact event sequence of the document",
 "While parsing, the receiving objects get exactly the calls that correspond to the document in order: one value call per value on the receiver obtained for that position, one element or key call before each member with the decoded key, one finish call when a container closes; on a malformed document the calls made are those for the part before the error, and after a call fails no further call is made.",
 ["inputs","programs","fault_sequences"],"every document and every implementation of the receiving protocol, with a failure injected at any call",
 "Custom receivers are arbitrary programs and the failing call is a free parameter; no test observes the call sequence at all.",
 [DE,"src/de/mod.rs"],[("driver loop",DE+": from_str_impl"),("protocol","src/de/mod.rs: Visitor, Seq, Map")],
 [("stack","receivers and open containers",DE+": Deserializer.stack")],["calls observed by a user-written Visitor/Seq/Map"])
prop("C20","The printer pulls each fragment exactly once, in order, keeping parents alive",
 "While serializing, every value is asked for its fragment exactly once, each container iterator is advanced until it first reports its end and never after that, members are visited depth first in order, and a container iterator is kept until all its members are printed.",
 ["inputs","programs"],"every tree of user-written fragments and iterators",
 "Custom implementations are arbitrary programs; no test observes the pull sequence.",
 [SER,"src/ser/mod.rs"],[("driver loop",SER+": to_string_impl"),("protocol","src/ser/mod.rs: Serialize, Fragment, Seq, Map")],
 (),["calls observed by user-written Serialize/Seq/Map"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
