#!/usr/bin/env python3
"""MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = 'runtime monitoring: %s'
T = {
    'C01': ('hostile-input stress with panic, CPU-time and allocation monitors', 'Every decode of the run is watched for panics, hangs and allocations out of proportion to the input; coverage is what was generated.'),
    'C02': ('round-trip oracle over random bounds and edge values', 'Exploration; trusts the value generator to reach the edges (counts in the evidence).'),
    'C03': ('differential oracle: independent X.691 ALIGNED encoder', 'Trusts the reference encoder, written from X.691, and that its reading of the standard is right.'),
    'C04': ('refusal oracle on spoiled values', 'Exploration; the constraint checker of the model decides what must be refused.'),
    'C05': ('constraint monitor and reference decoder on every accepted decode', 'Exploration; forced encodings carry out-of-range offsets and lengths; an independent decoder says what the bits mean.'),
    'C06': ('cut-point enumeration with a refusal oracle', 'Every cut of short encodings, sampled cuts of long ones.'),
    'C07': ('history monitor: append, independence, positions, determinism', 'Exploration of random histories over random types.'),
    'C08': ('differential oracle on random SEQUENCE types through the derive macro', 'Types are generated anew from the seed and compiled; trusts the reference encoder.'),
    'C09': ('differential oracle on random CHOICE types through the derive macro', 'Types are generated anew from the seed and compiled; trusts the reference encoder.'),
    'C10': ('differential oracle on random SEQUENCE OF types through the derive macro', 'Types are generated anew from the seed and compiled; trusts the reference encoder.'),
    'C11': ('differential oracle on random keyed open types, with lying lengths', 'Types are generated anew from the seed and compiled; trusts the reference encoder.'),
    'C12': ('newer-version encodings with a marker after them', 'Exploration; either the value is refused or everything after it is read right.'),
    'C13': ('differential oracle on the types compiled from the shipped specifications', 'The specifications are compiled anew and built; an independent front end and encoder say what every value must look like. Quick exercises a sample of the types, thorough all of them.'),
    'C14': ('AddressSanitizer, Miri, counting allocator, results compared across threads', 'Held on the executions watched; Miri sees small values only, and Stacked Borrows is off (bitvec itself breaks it).'),
    'C15': ('hostile-text stress with panic, CPU-time and allocation monitors', 'Coverage-free mutation of real and generated modules, chains and nestings.'),
    'C16': ('differential oracle: independent ASN.1 front end, shape of every generated item', 'Trusts asn1ref.py, written from X.680/X.681/X.683.'),
    'C17': ('differential oracle on every generated bound', 'Trusts the constraint algebra of asn1ref.py.'),
    'C18': ('oracle on the generated integer types at the edges of the Rust integers', 'Types are read from the generated code.'),
    'C19': ('differential oracle on indices and constants of ENUMERATED types', 'Trusts asn1ref.py.'),
    'C20': ('metamorphic: repeated runs, permutations, other layout and comments', 'Byte identity for repeats, identity of the item set for rewrites.'),
    'C21': ('differential oracle on the open types of class-field SEQUENCEs', 'Trusts asn1ref.py.'),
    'C22': ('differential oracle on the instances of parameterised types', 'Trusts asn1ref.py.'),
    'C23': ('mutation of well-formed specifications, judged by an independent front end', 'Faults that only touch extension additions are not judged.'),
    'C24': ('end-to-end differential oracle on random specifications', 'Specification to octets, against an independent reading of both X.680 and X.691.'),
    'C25': ('fault injection around hampi-asn1c with an exit-status and output monitor', 'Faults come from stand-ins for rustfmt, missing files and /dev/full.'),
    'C26': ('specs/parse_spec.py run on random documents, its output compared with the ASN.1 in them and compiled', 'python-docx is not installed: a stand-in hands the paragraphs over. Two recorded findings (file names, locales).'),
}
CLAIMED = list(T)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': [{
        'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
        'technique': RT % T[p][0], 'level': 'exploration', 'level_note': T[p][1],
    } for p in CLAIMED],
    'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'Not claimed yet: its engine is being built.')} for p in props if p['id'] not in CLAIMED],
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
