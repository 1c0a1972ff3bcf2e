#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, sys
sys.path.insert(0, '/verif/lib')
from units import PROP_UNITS
NOTES = {
 'C01': 'Verus contracts on every function of json/de.rs, proved for all inputs: from_str accepts iff the recursive RFC grammar derives the text. Assumed: std contracts listed in trusted_base, float operators uninterpreted, raw-pointer boxes modelled as named objects.',
 'C02': 'parse_str/parse_escape/decode_hex_escape proved against a recursive decoding spec, incl. the unchecked UTF-8 conversion; ESCAPE table proved entry by entry.',
 'C03': 'Digit accumulation and sign handling proved exact over mathematical integers.',
 'C04': 'Significand/exponent bookkeeping proved exact for any digit count; float operators are uninterpreted in the Verus proof; the IEEE facts it uses about them are proved for every bit pattern by Kani on each run (kani/).',
 'C05': 'Absence of overflow, out-of-bounds access and non-termination proved for every function of json/de.rs (machine arithmetic is checked, not idealised).',
 'C19': 'from_str_impl proved to issue exactly the call sequence of the document to arbitrary receivers, recorded in a ghost trace; stops at the first failing call.',
 'C07': 'to_string proved to write exactly print(tree) for every tree a Serialize impl can yield; print(tree) proved to be accepted by the grammar and to denote exactly the events of the tree. Assumed: itoa/ryu texts (axioms on their output), std contracts.',
 'C08': 'escape_str proved against a per-character escaping spec (ESCAPE and HEX_DIGITS tables entry by entry); lemma: the decoding spec of C02 maps the escaped text back to the same characters and no raw control character is written.',
 'C09': 'Number fragments proved to be written as the decimal text of the value / null for non-finite; lemma: integer texts read back to the same integer. The IEEE facts used are proved by Kani on each run.',
 'C11': 'Serialize and Deserialize impls of every std type under contract in one unit; theorem round_trip<T>: for every plain value, from_str(to_string(x)) is Ok(y) with y equal to x (maps: same keys, equal values), proved by composing print/read-back lemmas with the impl contracts. Assumed: to_string and from_str_impl contracts (proved in units ser / de in trace form), std map iteration, key types whose text parses back; floats are left to C04/C09.',
 'C06': 'drop::safely, Drop for Array/Object and the by-value iterators proved with a node-counting ghost: every value is released only after its children were moved onto the explicit stack (released + waiting == nodes of the tree), the containers are left empty, and the loops terminate; the drivers from_str_impl and to_string_impl are verified without any recursion (Verus rejects a recursive function without a measure) and their Drop releases every pending layer, newest first. Assumed: one call frame is bounded, drop glue of an emptied container is constant, iterator models. Actual stack use is observed by the bounded stand-in on a small thread stack.',
 'C18': 'new, Default, Clone, clone_from, Deref, DerefMut, the six IntoIterator and FromIterator of Array and Object, and their Drop proved to act on the wrapped list / map (moving contents out through ManuallyDrop needs a place whose destructor does not run); each value is released exactly once (ghost count). Assumed: Vec and BTreeMap contracts, ManuallyDrop / ptr::read model.',
 'C10': 'Serialize and Deserialize impls of Value, Number, Array and Object under contract with recursive specs (value_is, vtree); theorem value_round_trip: from_str(to_string(v)) is Ok(w) with w equal to v for every value whose floats are finite (a float: read back from its printed text); theorem value_reparse: whatever text is accepted, its value can be printed and parsed again to an equal value. Assumed: to_string and from_str_impl contracts (proved in units ser / de in trace form), BTreeMap iteration, a String is its text, IEEE finiteness facts (proved by Kani on each run); closeness of reread floats is checked by bounded search.',
 'C12': 'Every Deserialize impl of the crate for std types is proved to accept exactly the documents its specification `fits` lists (every Visitor method, called or inherited, has a contract); theorem drive/from_str: the call sequence of a document ends in Ok iff the target type fits it. Assumed: trait-object and map models, float operators, from_str_impl contract (proved in unit de in another form).',
 'C13': 'Pair and fixed-size array builders proved to accept exactly the documents with exactly that many elements, too few and too many both refused.',
 'C15': 'Map builders proved: result holds exactly the member names of the document, each with its last value; keys parsed with the key type\'s FromStr. Assumed: std map contracts (lawful Ord / Hash keys).',
 'C17': 'ArrayBuilder (incl. its Drop) proved against an ownership model of the slots: every slot is read or dropped exactly once; BoxSeq/BoxMap alias handling proved against a model of the raw pointer. Assumed: the ManuallyDrop / MaybeUninit / pointer models.',
 'C20': 'Serializer loop proved to pull each Map/Seq item exactly once and in order, recorded in a ghost trace.',
 'C14': 'Translation validation of derive(Serialize) and derive(Deserialize) on structs: every impl the macros expand to for a list of declarations (0 to 13 fields, generics, const generics, where clauses, lifetimes, raw identifiers, renames with any text) is proved, for all inputs and all type arguments, to satisfy a contract written from the declaration alone; further declarations are drawn from VERIF_SEED on every run. The quantifier over declarations is bounded to those, each proof is not. Assumed: the field types satisfy the Deserialize / Serialize contracts (proved for the std types in C11, C12), cast of a slot to the one-field repr(C) wrapper, str equality compares bytes.',
 'C16': 'Translation validation of the derives on enums: every expansion for a list of declarations (1 to 12 variants, raw identifiers, renames, discriminants) plus declarations drawn from VERIF_SEED is proved to accept exactly the documents that are the name of a variant, with that variant as result, and to serialize the name. The quantifier over declarations is bounded to those. Assumed: wrapper cast, str equality compares bytes.',
}
LEVEL = {'C14': 'translation_validation', 'C16': 'translation_validation'}
checks = []
for p in sorted(PROP_UNITS):
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                   'technique': 'contract-based deductive verification (Verus on functions extracted from /repo each run%s); bounded stand-in for what is left' % (', here the derive expansions' if p in LEVEL else ''),
                   'level': LEVEL.get(p, 'proof'), 'level_note': NOTES[p]})
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
na = [{'property': i, 'reason': 'contracts not built yet'} for i in ids if i not in PROP_UNITS]
json.dump({'version': 1, 'setup_cmd': 'sh setup.sh', 'hooks': {'guard': 'none (no hooks: the functions are read from the macro-expanded source)', 'enable': 'nothing to enable', 'source_commits': []}, 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
