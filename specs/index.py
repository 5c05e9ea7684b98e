"""Which contracts each property rests on."""
import importlib, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property -> [(spec module, task-name prefix)]
PROPS = {
 'C01': [('cbor_int', 'cbor.int.write')],
 'C02': [('cbor_int', 'cbor.int.read')],
 'C03': [('cbor_fp', 'cbor.fp.')],
 'J05': [('json_lit', 'json.lit.')],
 'J08': [('json_lit', 'json.ws.')],
 'J01': [('json_str', 'json.str.'), ('utf', ('utf.lemma.', 'utf.check.', 'utf.escape.', 'utf.decode.'))],
 'J02': [('json_str', 'json.strw.'), ('utf', 'utf.char.write.')],
 'J06': [('value', 'json.list.')],
 'J07': [('value', 'json.skip.')],
 'X01': [('out', 'out.range.'), ('cbor_int', 'cbor.int.write'), ('cbor_fp', 'cbor.fp.write'), ('json_lit', 'json.lit.write'), ('utf', 'utf.char.write')],
 'X03': [('out', 'out.buffered.')],
 'X02': [('utf', 'utf.')],
}
TRUSTED = ['clang 18 front end (C++ to LLVM IR at -O1 with passes disabled) and LLVM 18 passes sroa/inline/simplifycfg used to normalise the IR',
           'the obligation generator /verif/vcgen (memory model, loop rule, intrinsics)', 'z3 4.x / cvc5 1.1.2']
COMMON = ['exceptions are not modelled: std::length_error/bad_alloc end the path', 'objects reached through distinct root arguments do not alias',
          'inputs are shorter than 2^48 bytes', 'machine integers are exact bit-vectors; nothing is treated as mathematical', 'termination of cut loops is not proved']
ASSUME = {'J07': ['inputs are shorter than 2^32 bytes (the nesting counter of the code has 32 bits)'],
 'J06': ['the element reader and writer are representatives (one digit per element); read_ and list_write_ are generic in them and only call them'],
 'J02': ['the vectorised copy loop and push-only containers: bounded, generated inputs']}
def _mods(pid):
    return PROPS[pid]
def tasks(pid, tier='quick'):
    out = []; seen = set()
    for mod, pre in _mods(pid):
        m = importlib.import_module('specs.' + mod)
        for t in m.TASKS:
            if any(t.name.startswith(p) for p in ([pre] if isinstance(pre, str) else pre)) and t.name not in seen:
                if getattr(t, 'tier', None) == 'thorough' and tier != 'thorough': continue
                seen.add(t.name); out.append(t)
    return out
def task(name):
    for pid in PROPS:
        for t in tasks(pid, 'thorough'):
            if t.name == name: return t
def assumptions(pid): return COMMON + ASSUME.get(pid, [])
def known(pid):
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p))['findings'] if x['property'] == pid]
