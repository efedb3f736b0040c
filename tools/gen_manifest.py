"""Writes MANIFEST.json from the list of built checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'lib'))
MODS = {'c_life': 'C01 C02 C03 E01 M01 M02 M03', 'c_reloc': 'R01 R02 R03 R04', 'c_types': 'T01 T02 T03 T04 H02',
        'c_abi': 'A01 A02 A03 H01 F01', 'c_jit': 'G01 G02'}
TECH = {
    'c_life': ('typestate rules over an abstract interpretation of the compiler IR (MIR) of client programs, all library code inlined',
               'all client-program shapes of the witness crate, all allocator outcomes and unwind points, five targets; templates abstract'),
    'c_reloc': ('abstract interpretation of the relocation code over abstract instruction streams, compared with an instruction-semantics oracle',
                'instruction forms and sequences enumerated from the encoding tables; operands and addresses symbolic'),
    'c_types': ('queries on the type-checked program and compile-fail witnesses with compiling twins', 'type-level obligations per public item'),
    'c_abi': ('inspection of the monomorphised thunk tables and abstract interpretation of thunk bodies with symbolic arguments',
              'all conventions, arities 0 to 12 and call kinds'),
    'c_jit': ('lock-state and effect analysis by abstract interpretation of allocator handles', 'all handle kinds and operations'),
}
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
built = {}
for mod, ids in MODS.items():
    if os.path.exists(os.path.join(here, 'lib', mod + '.py')):
        m = __import__(mod)
        for p in ids.split():
            if p in getattr(m, "SPEC", {}):
                built[p] = mod
man = {
    'version': 1,
    'setup_cmd': './setup',
    'checks': [{'property': p, 'quick_cmd': f'VERIF_TIER=quick ./check {p}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {p}',
                'evidence_file': f'evidence/{p}.json', 'technique': 'static analysis: ' + TECH[built[p]][0], 'level': 'other',
                'level_note': TECH[built[p]][1]} for p in props if p in built],
    'hooks': {'guard': 'none', 'enable': 'none: the analyses read the compiler IR of the unmodified crate', 'source_commits': []},
    'not_applicable': [{'property': p, 'reason': 'the check for this property is not built yet'} for p in props if p not in built],
    'notes': 'Every check rebuilds the IR dumps from the current working tree of /repo (cached by content hash under target/).',
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
