#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {'files': ['src/cxon/' + f for f in files], 'mechanism': [{'name': n, 'where': 'src/cxon/' + w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})
I = ['inputs']
prop('C01', 'CBOR integers are written in the shortest form, all or nothing',
 "Writing any value of any built-in integer or character type as CBOR produces exactly the shortest RFC 8949 encoding of that value (major type 0 or 1, shortest argument; characters as their unsigned code unit). If the whole encoding does not fit the bounded output, or the output refuses bytes, the write reports an output failure. Nothing is ever written past the reported end.",
 I, 'all values of all 14 built-in integer and character types, all output capacities, every point at which a sink may refuse',
 'The tests encode a few dozen boundary values into unbounded strings; 2^64 values times every capacity and refusal point cannot be sampled.',
 ['lang/cbor/fundamental.hxx', 'lang/common/bio/bio.hxx', 'lang/common/bio/io.hxx'],
 [('integer head writer', 'lang/cbor/fundamental.hxx'), ('big-endian output', 'lang/common/bio/bio.hxx')], ['bytes written, returned end and error code'])
prop('C02', 'CBOR integers are read exactly or rejected',
 "Reading a CBOR integer into any built-in integer or character type yields exactly the encoded value and consumes exactly the item (with at most one preceding tag), or fails with an error without consuming the item. A value that the target type cannot represent is never silently changed: it is rejected. A well-formed integer that is representable in the target and whose argument is no wider than the target is accepted.",
 I, 'every byte sequence of every length, for all 14 built-in integer and character types',
 'The tests read a list of literal encodings; wrap-around, sign and truncation errors live at arguments and lengths nobody listed.',
 ['lang/cbor/fundamental.hxx', 'lang/common/bio/bio.hxx', 'lang/cbor/common/tag.hxx'],
 [('integer reader', 'lang/cbor/fundamental.hxx'), ('big-endian input', 'lang/common/bio/bio.hxx'), ('tag skipping', 'lang/cbor/common/tag.hxx')], ['value, returned end and error code'])
prop('C03', 'CBOR floating point and simple values keep their value',
 "Writing a float, a double, a boolean or null as CBOR produces the binary32, binary64 or simple-value encoding of exactly that value. Reading a half, single or double precision item, or an integer, into a floating point type yields the value the encoding stands for (rounded to nearest when the target is narrower), and any other item is rejected without being consumed; a boolean is read only from the encodings of true and false and null only from the encoding of null.",
 I, 'every bit pattern of both floating point types, every byte sequence of every length',
 'The tests use literal values; half-precision subnormals, infinities, NaNs and truncated items are a 2^64 space.',
 ['lang/cbor/fundamental.hxx', 'lang/common/bio/bio.hxx'], [('floating point reader and writer', 'lang/cbor/fundamental.hxx'), ('big-endian bit copies', 'lang/common/bio/bio.hxx')])
prop('C04', 'CBOR strings and arrays: the head counts what follows, content is exact',
 "A text string, byte string or list is written as a head with the shortest encoding of its exact length followed by exactly its content; reading a definite or indefinite-length string delivers exactly the content bytes of its chunks, and fails on a chunk of another type, a missing end or a length that exceeds the input.",
 I, 'every content and length, every byte sequence read, every point at which the container may refuse',
 'The tests contain short strings; lengths crossing the 24/256/65536 boundaries, truncated content and refusals are not enumerated.',
 ['lang/cbor/common/container.hxx', 'lang/cbor/compound.hxx', 'lang/cbor/lib/std/string.hxx', 'lang/common/bio/bio.hxx'],
 [('container reading and writing', 'lang/cbor/common/container.hxx')])
prop('C05', 'The CBOR reader never leaves its input, whatever the bytes',
 "For any byte sequence whatsoever, reading it as a number, character, boolean, null, string, byte container, fixed array or skipped value never reads a byte outside the sequence, never writes outside the target, never trips an internal assertion or undefined arithmetic, and returns an end that lies inside the sequence.",
 I, 'every byte sequence of every length',
 'Hostile inputs (truncation, huge lengths, unassigned values) are unbounded; the tests feed well-formed items and a handful of broken ones, in builds with assertions disabled.',
 ['lang/cbor/fundamental.hxx', 'lang/cbor/common/container.hxx', 'lang/cbor/common/sink.hxx', 'lang/cbor/common/tag.hxx', 'lang/common/bio/bio.hxx'],
 [('bounded byte input', 'lang/common/bio/bio.hxx'), ('length checks', 'lang/cbor/common/container.hxx')])
prop('C06', 'Skipping a CBOR value consumes exactly that value',
 "When an unknown value is skipped while reading CBOR, exactly one data item (with its tags, nested content and end marker) is consumed, so what follows is read from the right place; a malformed or truncated item is an error.",
 I, 'every item of every nesting and length',
 'The tests skip a few shapes; nested indefinite items, tags inside containers and counts beyond 2^32 are not among them.',
 ['lang/cbor/common/sink.hxx'], [('value sink', 'lang/cbor/common/sink.hxx')])
prop('J01', 'JSON strings are decoded exactly or rejected',
 "Reading a quoted JSON string into a UTF-8 string delivers exactly the concatenation of its elements (well-formed UTF-8 sequences and escapes, surrogate pairs combined) and stops after the closing quote. A control character, a malformed UTF-8 sequence, an unknown or truncated escape, an unpaired surrogate escape or a missing quote is an error reported at the offending element; nothing outside the input is read.",
 I, 'every byte sequence of every length, every point at which the target container may refuse',
 'The tests hold a table of strings; elements interact (a pair split by the end of input, an escape after a multi-byte sequence) at arbitrary offsets and lengths.',
 ['lang/common/cio/string.hxx', 'lang/common/cio/char.hxx', 'lang/common/cio/chcls.hxx'],
 [('string reader', 'lang/common/cio/string.hxx'), ('escape and UTF-8 decoding', 'lang/common/cio/char.hxx')], ['decoded bytes, returned end, error code'])
prop('J02', 'JSON string output is always a valid JSON string with the same content',
 "Writing a UTF-8 string or character as JSON produces a quoted string in which every quote, backslash and control character is escaped with its standard escape and every other byte is copied unchanged, in order, with nothing added or lost; a refused byte makes the write fail.",
 I, 'every byte string of every length, every point at which a sink may refuse',
 'Whether a byte takes the bulk path or the escaping path depends on its position modulo the block size and on its neighbours; the tests sample a few layouts.',
 ['lang/common/cio/string.hxx', 'lang/common/cio/char.hxx', 'lang/common/cio/io.hxx'],
 [('string writer', 'lang/common/cio/string.hxx'), ('escape table', 'lang/common/cio/char.hxx')], ['bytes written'])
prop('J03', 'JSON integers are written canonically and read exactly or rejected',
 "Writing any integer as JSON produces its canonical decimal form. Reading a JSON integer into a built-in integer type yields exactly the value of its digits, or fails (with an error, not consuming it) when it is not an integer or does not fit the type; it is never wrapped or truncated.",
 I, 'every value of every integer type; every byte sequence of every length',
 'The tests use literals; overflow and sign boundaries per type and arbitrary digit strings are not enumerable.',
 ['lang/common/cio/numeric.hxx', 'lang/common/charconv.hxx'], [('number reader and writer', 'lang/common/cio/numeric.hxx')])
prop('J04', 'JSON number text follows the grammar in strict mode',
 "In strict number mode a number is accepted only if the text consumed matches the JSON number grammar.",
 I, 'every byte sequence of every length', 'The tests list a few malformed numbers.',
 ['lang/common/cio/numeric.hxx'], [('number grammar', 'lang/common/cio/numeric.hxx')])
prop('J05', 'JSON literals: booleans and null are read and written exactly',
 "true, false and null are written as exactly those bytes and are read only from exactly those bytes, after optional white space, consuming exactly them; anything else is an error that leaves the position at the offending token (for a single-pass input: inside it) and never reads past the end of the input.",
 I, 'every byte sequence of every length, every output capacity',
 'The tests read the correct literals and two or three wrong ones; every truncation and every byte value at each position is not covered.',
 ['lang/common/cio/io.hxx', 'lang/common/cio/cio.hxx', 'lang/json/fundamental.hxx'],
 [('literal matching', 'lang/common/cio/io.hxx'), ('white space', 'lang/common/cio/io.hxx')])
prop('J06', 'JSON lists and objects: structure is enforced and reported elements are exact',
 "Reading a list or an object accepts exactly: opening bracket, elements separated by single separators, closing bracket, with optional white space between them; the element reader is called once per element, in order, at the element's position. Writing a list produces the opening bracket, each element in order with exactly one separator between neighbours, and the closing bracket.",
 I, 'every byte sequence of every length, any number of elements, any element reader that respects its contract',
 'Trailing, missing and doubled separators at arbitrary element counts and with arbitrary white space are unbounded.',
 ['lang/common/cio/container.hxx', 'lang/common/cio/io.hxx'], [('list and map reader and writer', 'lang/common/cio/container.hxx')])
prop('J07', 'Skipping a JSON value consumes exactly that value',
 "When the value of an unknown key is skipped, exactly one value (with nested brackets and strings, in which brackets, separators and escaped quotes mean nothing) is consumed, and nothing outside the input is read.",
 I, 'every byte sequence of every length and nesting', 'The tests skip a handful of values; quotes and brackets inside strings and truncation at every byte are unbounded.',
 ['lang/common/cio/value.hxx'], [('value skipping', 'lang/common/cio/value.hxx')])
prop('J08', 'White space and comments are skipped completely and nothing else is',
 "Skipping white space advances to the first byte that is not a space, tab, newline or carriage return, or to the end of the input, and reads nothing beyond it. In the format that allows comments, C and C++ style comments are skipped like white space, and a slash that starts no comment is an error.",
 I, 'every byte sequence of every length', 'The tests put one or two blanks around tokens.',
 ['lang/common/cio/io.hxx', 'lang/common/cio/chcls.hxx'], [('white space skipping', 'lang/common/cio/io.hxx'), ('character classes', 'lang/common/cio/chcls.hxx')])
prop('X01', 'Bounded output is never overrun and a short output is reported',
 "Writing to an output of any capacity never stores a byte outside it: a write that does not fit fails with an output error and what was stored is a prefix of the full text; a write that fits reports exactly the stored length.",
 ['inputs', 'configurations'], 'every sequence of output operations, every capacity including zero, every content',
 'The tests write to buffers that are large enough or too small by a fixed amount; the capacity at which each operation crosses the end is not enumerated.',
 ['cxon.hxx', 'lang/common/container.hxx', 'lang/common/cio/io.hxx', 'lang/common/bio/io.hxx'], [('output appending', 'lang/common/cio/io.hxx'), ('bounded output range', 'lang/common/container.hxx')])
prop('X02', 'UTF-8/16/32 conversion is exact for every code point and rejects everything else',
 "Encoding a code point as UTF-8 and decoding it gives the same code point, in the shortest form, for every Unicode scalar value; surrogate code points and values beyond the Unicode range are never encoded; an ill-formed or truncated sequence is never decoded and decoding reads no byte beyond the input.",
 I, 'every 32-bit value, every byte sequence of every length', 'The tests check a table of code points; 2^32 values and every ill-formed prefix are not.',
 ['lang/common/cio/char.hxx'], [('UTF conversion', 'lang/common/cio/char.hxx')])
prop('X03', 'Output adapters pass every byte on, once and in order',
 "The buffering output iterator delivers to the container exactly the bytes assigned through it, each once and in order, when it is flushed or destroyed, also when it is copied in between (to_bytes and the standard algorithms take output iterators by value).",
 ['inputs', 'histories'], 'every sequence of pushes, appends and flushes; every content', 'Buffer boundaries are crossed at a few positions only in the tests.',
 ['lang/common/cio/io.hxx'], [('buffered back-insert iterator', 'lang/common/cio/io.hxx')])
prop('X04', 'Node values compare, order and hash consistently',
 "For the polymorphic node types equality is an equivalence, ordering is a strict weak order consistent with equality, and equal nodes hash alike.",
 I, 'all pairs and triples of nodes', 'Triples of arbitrary trees are unbounded.',
 ['lib/node.ordered.hxx', 'lang/json/node/node.hxx', 'lang/cbor/node/node.hxx'], [('node ordering', 'lib/node.ordered.hxx')])
prop('X05', 'Structures and enumerations: fields are bound by name',
 "Reading an object into a structure assigns each known member from the value with its name whatever the order, ignores or skips unknown members, and rejects an unknown enumeration name; writing emits each field once under its name.",
 I, 'every order and multiplicity of members', 'The tests use a fixed order of members.',
 ['lang/common/cio/class.hxx', 'lang/common/cio/enum.hxx', 'lang/cbor/class.hxx'], [('field table lookup', 'lang/common/cio/class.hxx')])
prop('X06', 'Nesting depth is bounded by the recursion guard',
 "Reading input nested deeper than the configured limit fails with a recursion error instead of exhausting the stack, and the depth counter is restored on every way out, so sibling values are judged by their own depth.",
 ['inputs', 'configurations'], 'every nesting depth and limit', 'The tests use one limit and one shape.',
 ['lang/json/node/node.hxx', 'lang/cbor/node/node.hxx', 'cxon.hxx'], [('recursion guard', 'cxon.hxx')])
prop('X07', 'Pretty printing changes only white space outside strings',
 "The indenting output emits exactly the significant bytes it is given, in order; everything it adds or drops is white space outside strings.",
 I, 'every JSON text of every length', 'The tests compare a few documents.',
 ['lang/json/tidy.hxx'], [('indenting output iterator', 'lang/json/tidy.hxx')])

# claimed checks: id -> (technique, level note)
TECH = 'deductive verification: contracts on the real functions, obligations from their LLVM IR discharged by z3/cvc5'
NOTE = 'Every obligation (postconditions, memory bounds, assertions, arithmetic, loop invariants) of the compiled current source is discharged for all inputs, no bound. Trusts the compiler front end, the obligation generator and the solvers; loops are proved partially correct (termination is not proved).'
sys.path.insert(0, H)
claimed = json.load(open(os.path.join(H, 'tools', 'claimed.json')))
def cmd(p, t): return 'python3-vt check.py %s --tier %s' % (p, t)
M = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && clang++ --version >/dev/null && cvc5 --version >/dev/null',
 'checks': [{'property': p, 'quick_cmd': cmd(p, 'quick'), 'thorough_cmd': cmd(p, 'thorough'), 'technique': TECH, 'level': 'proof', 'level_note': NOTE + (' ' + n if n else '')} for p, n in claimed['claimed'].items()],
 'not_applicable': [{'property': x['id'], 'reason': claimed['na'].get(x['id'], 'no contract for it is discharged yet; it is not claimed')} for x in P if x['id'] not in claimed['claimed']],
 'notes': 'See DESIGN.md. One deductive verifier (vcgen/) serves all checks; specs/ holds the contracts, harness/ the root functions that instantiate the real templates of /repo/src.'}
open(os.path.join(H, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
json.dump(M, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
