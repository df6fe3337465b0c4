"""Specifications with one thing wrong."""
import random, re
import gen_asn
from gen_asn import TOK


def used_by_types(g):
    """names the generated types depend on, with who uses them"""
    need, todo = set(), [d['name'] for d in g.defs if d['kind'] == 'type']
    while todo:
        n = todo.pop()
        if n in need:
            continue
        need.add(n)
        todo += [u for u in g.by[n]['uses'] if u in g.by]
    who = {}
    for n in need:
        for u in g.by[n]['uses']:
            who.setdefault(u, []).append(n)
    return who


def render(g, defs=None, imports=True, rng=None):
    """like Gen.modules, with the definitions as given"""
    out = []
    for i, m in enumerate(g.mods):
        ds = [d for d in (defs or g.defs) if d['mod'] == i]
        rng.shuffle(ds)
        imp = {}
        for d in ds:
            for u in d['uses']:
                if u in g.by and g.by[u]['mod'] != i:
                    imp.setdefault(g.by[u]['mod'], set()).add(u)
        out.append([m, imp, [d['text'] for d in ds]])
    return out


def text(g, out):
    r = []
    for m, imp, ds in out:
        t = '%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n' % m
        if imp:
            t += 'IMPORTS\n' + ''.join('  %s\n  FROM %s\n' % (', '.join(sorted(us)), g.mods[k] if isinstance(k, int) else k) for k, us in imp.items() if us) + ';\n'
        r.append(t + '\n'.join(ds) + '\nEND\n')
    return r


def replace_name(t, old, new, rng):
    """replace one use of the name `old` in the right-hand side of the definition t"""
    head, sep, body = t.partition('::=')
    ps = [m for m in re.finditer(r'(?<![A-Za-z0-9&@.-])%s(?![A-Za-z0-9-])' % re.escape(old), body)]
    if not ps:
        return None
    m = rng.choice(ps)
    return head + sep + body[:m.start()] + new + body[m.end():]


BODY = {
    # wrong wherever it stands
    'lower bound above upper bound': ['Zz ::= INTEGER (9..3)', 'Zz ::= INTEGER (-1..-5, ...)', 'Zz ::= SEQUENCE { a INTEGER (100..99) }', 'Zz ::= CHOICE { a NULL, b INTEGER (5<..<5) }'],
    'lower size above upper size': ['Zz ::= BIT STRING (SIZE(9..3))', 'Zz ::= SEQUENCE (SIZE(5..4)) OF NULL', 'Zz ::= SEQUENCE { s PrintableString (SIZE(2..1)) }'],
    'component twice': ['Zz ::= SEQUENCE { a NULL, b INTEGER, a BOOLEAN }', 'Zz ::= SEQUENCE { x SEQUENCE { q NULL, q NULL } }'],
    'alternative twice': ['Zz ::= CHOICE { a NULL, a BOOLEAN }', 'Zz ::= CHOICE { a NULL, ..., a BOOLEAN }'],
    'item twice': ['Zz ::= ENUMERATED { a, b, a }', 'Zz ::= ENUMERATED { a, ..., a }', 'Zz ::= SEQUENCE { e ENUMERATED { red, green, red } }'],
    'number of an item twice': ['Zz ::= ENUMERATED { a(1), b(1) }', 'Zz ::= ENUMERATED { a(0), b(2), c(0), ... }', 'Zz ::= ENUMERATED { a, b(3), ..., c(3) }'],
    'named number twice': ['Zz ::= INTEGER { a(1), a(2) }'],
    'depends on itself': ['Zz ::= SEQUENCE { a Zz }', 'Zz ::= Zz', 'Zz ::= SEQUENCE { a Zy } Zy ::= CHOICE { b Zz }', 'Zz ::= Zy Zy ::= Zx Zx ::= Zz', 'zz INTEGER ::= zz', 'zz INTEGER ::= zy zy INTEGER ::= zz',
                          'Zz ::= INTEGER (0..zz) zz Zz ::= 4', 'Zz ::= CHOICE { a SEQUENCE { b SEQUENCE { c Zz } } }', 'Zz {T} ::= SEQUENCE { a T, b Zz {T} } Zy ::= Zz {NulZ} NulZ ::= NULL'],
    'undefined name': ['Zz ::= NoSuchType', 'Zz ::= SEQUENCE { a NoSuchType OPTIONAL }', 'Zz ::= INTEGER (0..noSuchValue)', 'Zz ::= SEQUENCE (SIZE(1..noSuchValue)) OF NULL', 'Zz ::= CHOICE { a NULL, ..., b NoSuchType }',
                       'Zz ::= SEQUENCE { a NO-CLASS.&id ({NoSet}) }', 'zz NoSuchType ::= 4', 'zz INTEGER ::= noSuchValue', 'Zz NO-CLASS ::= { ... }', 'Zz ::= OCTET STRING (SIZE(noSuchValue))', 'Zz ::= NoSuchType {NULL}',
                       'Zz ::= SEQUENCE { a INTEGER { b(1) } (0..c) }', 'Zz ::= SEQUENCE { a ENUMERATED { x, y } DEFAULT z }', 'Zz ::= ENUMERATED { a(noSuchValue) }', 'Zz ::= SEQUENCE OF NoSuchType'],
    'undefined in another module': ['Zz ::= No-Such-Module.Foo'],
    'wrong kind': ['Zz ::= SEQUENCE { a ZCLS } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T }', 'Zz ::= INTEGER (0..Zy) Zy ::= PrintableString', 'Zz ::= PrintableString (0..4)', 'Zz ::= BOOLEAN (SIZE(1))', 'Zz ::= INTEGER (SIZE(1..4))',
                   'Zz ::= ZyBase (SIZE(4)) ZyBase ::= INTEGER', 'Zz ::= ZyBase (0..4) ZyBase ::= BIT STRING', 'Zz ::= BIT STRING (0..4)', 'Zz ::= OCTET STRING (1..2)', 'Zz ::= SEQUENCE (1..2) OF NULL', 'Zz ::= BIT STRING (SIZE(-1))', 'Zz ::= INTEGER (0..zy) zy ZCLS ::= { ID 1 TY NULL } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T }',
                   'zz Zy ::= 4 Zy ::= SEQUENCE { a NULL }'],
    'objects': ['Zz ::= SEQUENCE { a ZCLS.&nope ({ZSet}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } }',
                'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } | { ID 1 TY BOOLEAN } }',
                'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 } }',
                'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { noSuchObject }',
                'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NoSuchType } }',
                'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 WRONG NULL } }',
                'Zz ::= SEQUENCE { i ZCLS.&id ({NoSuchSet}), a ZCLS.&T ({NoSuchSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T }',
                'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZOTH ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZOTH ::= { { ID 1 TY NULL } }'],
    'parameters': ['Zy {T} ::= SEQUENCE { a T } Zz ::= Zy', 'Zy {T} ::= SEQUENCE { a T } Zz ::= Zy {ZN, ZN} ZN ::= NULL', 'Zy {T, U} ::= SEQUENCE { a T, b U } Zz ::= Zy {ZN} ZN ::= NULL', 'Zy ::= SEQUENCE { a NULL } Zz ::= Zy {ZN} ZN ::= NULL',
                   'Zy {INTEGER:n} ::= BIT STRING (SIZE(n)) Zz ::= Zy {noSuchValue}', 'Zy {T} ::= SEQUENCE { a T } Zz ::= Zy {NoSuchType}'],
    'syntax': ['Zz ::= SEQUENCE { a NULL b NULL }', 'Zz ::= SEQUENCE { a NULL,, b NULL }', 'Zz ::= SEQUENCE { a NULL, }', 'Zz ::= CHOICE { }', 'Zz := NULL', 'Zz ::= INTEGER (0..', 'Zz ::= SEQUENCE { a NULL', 'Zz ::= SEQUENCE a NULL }',
               'Zz ::= SEQUENCE { A NULL }', 'zz ::= NULL', 'Zz ::= ENUMERATED { }', 'Zz ::= ENUMERATED { a b }', 'Zz ::= INTEGER 0..4', 'Zz ::= BIT', 'Zz ::= OCTET', 'Zz ::=', '::= NULL', 'Zz NULL', 'Zz ::= SEQUENCE OF', 'Zz ::= CHOICE { a NULL | b NULL }',
               'Zz ::= SEQUENCE { a NULL OPTIONAL OPTIONAL }', 'Zz ::= SEQUENCE { a NULL DEFAULT }', 'Zz ::= INTEGER ()', 'Zz ::= BIT STRING (SIZE)', 'Zz ::= SEQUENCE { ..., ..., ... }', 'Zz ::= SEQUENCE { a NULL, ..., [[ ]] }', 'Zz ::= SEQUENCE { a NULL, ..., [[ b NULL }',
               'Zz ::= ENUMERATED { a, ..., b, ... }', 'Zz ::= INTEGER (0..4, 5)', 'Zz ::= INTEGER (0...4)', 'Zz ::= SEQUENCE { - a NULL }', 'Zz ::= INTEGER (1..2 | )', 'Zz ::= "text', "Zz ::= SEQUENCE { a BIT STRING DEFAULT '012'B }", 'Zz ::= SEQUENCE { a_b NULL }', '1Zz ::= NULL', 'Zz- ::= NULL', 'Z--z ::= NULL'],
}

# wrong whatever an independent front end makes of it: against a rule of X.680 to X.683, or an open type nothing selects
SURE = [
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { ZsA | ZsB } ZsA ZCLS ::= { { ID 1 TY NULL } } ZsB ZCLS ::= { { ID 1 TY BOOLEAN } }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { ZsA, ..., ZsB } ZsA ZCLS ::= { { ID 1 TY NULL } } ZsB ZCLS ::= { { ID 2 TY NULL } | { ID 1 TY BOOLEAN }, ... }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { { ID 1 TY BOOLEAN } | ZsA, ... } ZsA ZCLS ::= { zo } zo ZCLS ::= { ID 1 TY NULL }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { ZsA, ..., { ID zn TY BOOLEAN } } ZsA ZCLS ::= { { ID zn TY NULL } } zn INTEGER ::= 1',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { ZsA, ..., { ID zm TY BOOLEAN } } ZsA ZCLS ::= { { ID zn TY NULL } } zn INTEGER ::= 1 zm INTEGER ::= 1',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZOTH ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } ZSet ZCLS ::= { ZsA, ... } ZsA ZOTH ::= { { ID 1 TY NULL } }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZOTH ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } ZSet ZCLS ::= { { ID 1 TY NULL } | ZsA } ZsA ZOTH ::= { { ID 2 TY NULL } }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZOTH ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } ZSet ZCLS ::= { { ID 1 TY NULL }, ..., zo } zo ZOTH ::= { ID 2 TY NULL }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { { ID 1 TY NULL C r } }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { { ID 1 TY NULL C 1 } }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { { ID 1 TY NULL C ZCLS } }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { { ID 1 TY NULL } | { TY NULL ID 2 } }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { { ID 1 TY NULL C p C q } }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { { ID 1 TY NULL } { ID 2 TY NULL } }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { { ID 1 TY NULL } | | { ID 2 TY NULL } }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { { ID p TY NULL } }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { { ID 1 TY 4 } }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { ZSet }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { ZsA } ZsA ZCLS ::= { ZSet }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { Zz }',
    'ZCLS ::= CLASS { &id INTEGER (0..255) UNIQUE, &T, &c ENUMERATED { p, q } DEFAULT p } WITH SYNTAX { ID &id TY &T [C &c] } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZSet ZCLS ::= { zn } zn INTEGER ::= 1',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), v ZCLS.&T ({ZSet}{@j}) }',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), j INTEGER, v ZCLS.&T ({ZSet}{@j}) }',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } Zz ::= SEQUENCE { i ZCLS.&id ({Zn}), v ZCLS.&T ({Zn}{@i}) } Zn ::= NULL',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } Zz ::= SEQUENCE { i Zn.&id ({ZSet}), v Zn.&T ({ZSet}{@i}) } Zn ::= NULL',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } Zz ::= SEQUENCE { v ZCLS.&T ({ZSet}{@i}), i ZCLS.&id ({ZSet}) }',
    'zz Ze ::= r Ze ::= ENUMERATED { p, q }',
    'zz Ze ::= 1 Ze ::= ENUMERATED { p, q }',
    'zz Ze ::= r Ze ::= ENUMERATED { p, ..., q }',
    'zz BOOLEAN ::= 3',
    'zz INTEGER ::= TRUE',
    'zz INTEGER ::= p Ze ::= ENUMERATED { p, q }',
    'Zz ::= INTEGER (0..zv) zv Ze ::= p Ze ::= ENUMERATED { p, q }',
    'Zy {INTEGER:n} ::= BIT STRING (SIZE (n)) Zz ::= Zy {zv} zv Ze ::= p Ze ::= ENUMERATED { p, q }',
    'Zz ::= NULL Zz {T} ::= SEQUENCE { a T }',
    'zz INTEGER ::= 2 zz INTEGER ::= 3',
    'Zz ::= INTEGER (Zb) Zb ::= BOOLEAN',
    'Zz ::= INTEGER (0..4)(5..6)',
    'Zz ::= INTEGER (0..4 ^ 5..6)',
    'Zz ::= Zb (5) Zb ::= INTEGER (0..4)',
    'Zz ::= SEQUENCE ((SIZE 1..8)) OF INTEGER',
    'Zz ::= SEQUENCE (SIZE 3) OF INTEGER',
    'Zz ::= OCTET STRING (SIZE 5)',
    'Zz ::= BIT STRING (SIZE 4 | 8)',
    'Zz ::= OCTET STRING ((SIZE 1 | 2))',
    'Zz ::= INTEGER (SIZE 1..8)',
    'Zz ::= INTEGER (FROM 1..8)',
    'Zz ::= INTEGER (1..8 | SIZE 10)',
    'Zz ::= INTEGER (SIZE 5, ...)',
    'Zz ::= UTF8String (SIZE 5)',
    'Zz ::= INTEGER (1..8 | FROM 10)',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [ [ TY &T ] }',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [ TY &T ] ] }',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [ TY &T }',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE, &T OPTIONAL } WITH SYNTAX { ID ( &id [ TY &T ] }',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE, &T OPTIONAL } WITH SYNTAX { ID } &id [ TY &T ] }',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id ] [ TY &T }',
    'Zz ::= OCTET STRING (NoSuch)',
    'Zz ::= OCTET STRING (noSuch)',
    'Zz ::= OCTET STRING (INTEGER (0..1))',
    'Zz ::= OCTET STRING (SIZE (4) ^ NoSuch)',
    'Zz ::= BIT STRING (Zi) Zi ::= INTEGER (0..4)',
    'Zz ::= BIT STRING (NoSuch)',
    'Zz ::= BOOLEAN (NoSuch)',
    'Zz ::= NULL (NoSuch)',
    'Zz ::= OBJECT IDENTIFIER (NoSuch)',
    'Zz ::= ENUMERATED { a, b } (c)',
    'Zz ::= ENUMERATED { a, b } (a | NoSuch)',
    'Zz ::= ENUMERATED { a, b } (Zn) Zn ::= NULL',
    'Zz ::= SEQUENCE (NoSuch) OF NULL',
    'Zz ::= SEQUENCE OF OCTET STRING (NoSuch)',
    'Zz ::= CHOICE { a OCTET STRING (Zi) } Zi ::= INTEGER (0..4)',
    'Zr ::= OCTET STRING Zz ::= Zr (NoSuch)',
    'Zr ::= OCTET STRING Zz ::= SEQUENCE { a Zr (SIZE (2) | NoSuch) }',
    'Zz ::= CHOICE { a NULL, ..., b NULL, ..., c NULL }',
    'Zz ::= CHOICE { a NULL, ..., ..., ... }',
    'Zz ::= CHOICE { a NULL, ..., b NULL, ..., c NULL, ... }',
    'Zz ::= CHOICE { ... }',
    'Zz ::= CHOICE { ..., a NULL }',
    'Zz ::= ENUMERATED { ... }',
    'Zz ::= ENUMERATED { ..., a }',
    'Zz ::= ENUMERATED { a, ..., b, ..., c }',
    'Zz ::= SEQUENCE { a NULL, ..., b NULL, ..., c NULL, ..., d NULL }',
    'Zz ::= SEQUENCE { a NULL, ..., [[ b NULL ]], ..., c NULL, [[ d NULL ]] }',
    'Zz ::= SEQUENCE { [[ a NULL ]] }',
    'Zz ::= CHOICE { a NULL, [[ b NULL ]] }',
    'Zz ::= SEQUENCE { a NULL, ..., [[ ]] }',
    'Zz ::= CHOICE { a NULL, ..., [[ ]] }',
    'Zz ::= SEQUENCE { a NULL, ..., [[ b NULL, ]] }',
    'Zz ::= CHOICE { a NULL, ..., [[ b NULL, ]] }',
    'Zz ::= SEQUENCE { a NULL, ..., [[ 2: b NULL, c NULL, ]], d NULL }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } ZSet ZCLS ::= { { &id 1, &T NULL, } }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } ZSet ZCLS ::= { { &id 1 &T NULL } }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } ZSet ZCLS ::= { { &id 1, &id 2, &T NULL } }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } ZSet ZCLS ::= { { ID 1 TY NULL } }',
    'Zz ::= SEQUENCE { a ZCLS.&T ({ZSet}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } ',
    'Zz ::= SEQUENCE { a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } ',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}) OPTIONAL, a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } ',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}) DEFAULT 1, a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } ',
    'Zz ::= SEQUENCE { i INTEGER, a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } ',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), j INTEGER, a ZCLS.&T ({ZSet}{@j}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } ',
    'Zz ::= SEQUENCE { a ZCLS.&T ({ZSet}{@i}), i ZCLS.&id ({ZSet}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } ',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSe2}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } ZSe2 ZCLS ::= { { ID 2 TY NULL } }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@k}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } } ',
    'Zz ::= SEQUENCE { i ZCLS.&crit ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &crit INTEGER, &T } WITH SYNTAX { ID &id C &crit TY &T } ZSet ZCLS ::= { { ID 1 C 2 TY NULL } }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } | { ID noSuch TY NULL } }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL }, { ID 2 TY NULL } }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { ..., ... }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY NULL } | }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { | { ID 1 TY NULL } }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { ZSet }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { ZSe2 } ZSe2 ZCLS ::= { ZSet | { ID 1 TY NULL } }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { zo } zo ZCLS ::= { ID 1 }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { zo } zo INTEGER ::= 5',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID 1 TY zo } } zo INTEGER ::= 5',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { ID NULL TY NULL } }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet ZCLS ::= { { TY NULL ID 1 } }',
    'Zz ::= SEQUENCE { i ZCLS.&id ({ZSet}), a ZCLS.&T ({ZSet}{@i}) } ZCLS ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { ID &id TY &T } ZSet INTEGER ::= { { ID 1 TY NULL } }',
    'Zz ::= SEQUENCE { a INTEGER DEFAULT "x" }',
    'Zz ::= SEQUENCE { a ENUMERATED { x } DEFAULT 0 }',
    'Zz ::= INTEGER { a(zv) } zv PrintableString ::= "x"',
    'Zz ::= ENUMERATED { a(zv), b } zv PrintableString ::= "x"',
    'Zz ::= ENUMERATED { a(-1), b(-1) }',
    'Zz ::= ENUMERATED { a(5), ..., b(5) }',
    'Zz ::= ENUMERATED { a, b, ..., c(1) }',
    'Zz ::= ENUMERATED { a, ..., c(5), d(3) }',
    'Zz ::= BIT STRING { a(-1) }',
    'Zz ::= INTEGER (0..4) (9)',
    'Zz ::= Zy (9) Zy ::= INTEGER (0..4)',
    'Zz ::= Zy (SIZE(9)) Zy ::= BIT STRING (SIZE(0..4))',
    'Zz ::= INTEGER ("a".."b")',
    'Zz ::= INTEGER (zv) zv PrintableString ::= "x"',
    'Zz ::= BIT STRING (SIZE(-1))',
    'Zz ::= BIT STRING (SIZE(-1..4))',
    'Zz ::= SEQUENCE (SIZE(zs)) OF NULL zs PrintableString ::= "x"',
    'Zz ::= INTEGER (MAX..MIN)',
    'Zz ::= INTEGER (0..MIN)',
    'Zz ::= INTEGER (MAX..5)',
    'Zz { } ::= NULL',
    'Zz {t} ::= SEQUENCE { a INTEGER (0..t) } Zy ::= Zz {4}',
    'zz INTEGER ::= "a"',
    'zz BOOLEAN ::= 5',
    'zz PrintableString ::= 5',
    "zz BIT STRING ::= '012'B",
    "zz OCTET STRING ::= '0G'H",
    'Zz ::= SEQUENCE { a [0] NULL, b [0] NULL }',
    'Zz ::= SEQUENCE { a-- NULL }',
    'Zz ::= SEQUENCE { a- NULL }',
    'Zz- ::= NULL',
    'Zz--x ::= NULL',
    'Z_z ::= NULL',
    'Zz ::= SEQUENCE { a_b NULL }',
    'Zz ::= SEQUENCE { OPTIONAL NULL }',
    'INTEGER ::= NULL',
    'Zz ::= SEQUENCE { a MAX }',
    'MAX ::= NULL',
    'Zz ::= SEQUENCE { a NULL OPTIONAL DEFAULT NULL }',
    'Zz ::= CHOICE { a NULL OPTIONAL }',
    'Zz ::= CHOICE { a NULL DEFAULT NULL }',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE, &id NULL }',
    'ZCLS ::= CLASS { }',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE OPTIONAL DEFAULT 4 }',
    'ZCLS ::= CLASS { id INTEGER }',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE } WITH SYNTAX { ID &nope }',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE } WITH SYNTAX { ID &id [ }',
    'ZCLS ::= CLASS { &id INTEGER UNIQUE } WITH SYNTAX { }',
    'Zcls ::= CLASS { &id INTEGER }',
]

# well-formed, and perhaps refused; where accepted, what is generated has to be right
MAYBE = [
    'Zy ::= OCTET STRING (SIZE (4)) Zz ::= OCTET STRING (Zy)',
    'Zy ::= BIT STRING (SIZE (1..9)) Zz ::= SEQUENCE { a BIT STRING (Zy), b Zz0 } Zz0 ::= BIT STRING (Zy | SIZE (12))',
    'Zy ::= PrintableString (SIZE (3)) Zz ::= PrintableString (SIZE (2..5) ^ Zy)',
    'Zy ::= OCTET STRING (SIZE (4)) Zx ::= OCTET STRING (SIZE (1..8)) Zz ::= Zx (Zy)',
    'Zy ::= OCTET STRING (SIZE (4)) Zz ::= SEQUENCE OF OCTET STRING (Zy)',
    'Zy ::= INTEGER (3..9) Zz ::= INTEGER (Zy)',
    'Zy ::= INTEGER (3..9) Zz ::= INTEGER (Zy | 12)',
    'Zy ::= INTEGER (3..9) Zz ::= SEQUENCE { a INTEGER (0..5 ^ Zy) }',
    'Zz ::= INTEGER (1..4 | 9..12, ...)',
    'Zz ::= INTEGER (0..MAX) (MIN..9)',
    'Zz ::= INTEGER (MIN<..<10)',
    'Zz ::= INTEGER { a(1), b(7) } (a..b)',
    'Zy ::= INTEGER { a(1), b(7) } Zz ::= SEQUENCE { x Zy (a | b) }',
    'Zz ::= BIT STRING (SIZE (0..MAX))',
    'Zz ::= OCTET STRING (SIZE (1..4 | 9, ...))',
    'Zz ::= OCTET STRING (SIZE (1..4) | SIZE (9))',
    'Zz ::= OCTET STRING (SIZE (1..4)) (SIZE (2..9))',
    'Zz ::= SEQUENCE (SIZE (1..4)) OF SEQUENCE (SIZE (2)) OF BOOLEAN',
    'Zz ::= ENUMERATED { c(5), a(1), b }',
    'Zz ::= ENUMERATED { c(5), a(1), ..., d, b(9) }',
    'Zz ::= ENUMERATED { a(zv), b } zv INTEGER ::= 4',
    'Zz ::= CHOICE { a NULL, ..., b NULL, [[ c NULL, d NULL ]], ... }',
    'Zz ::= SEQUENCE { a NULL, ..., ..., b NULL }',
    'Zz ::= SEQUENCE { a NULL, ..., x NULL, [[ y NULL ]], ..., b NULL OPTIONAL }',
    'Zz ::= SEQUENCE { a BIT STRING { p(0), q(4) } (SIZE (5)) }',
]


def mutate(g, rng):
    """(what is wrong, texts); None: not applicable here"""
    k = rng.choice(['drop', 'drop', 'rename', 'unimport', 'misimport', 'bothimport', 'bothimport', 'nomodule', 'noimported', 'twice', 'twomodules', 'body', 'body', 'body', 'body', 'sure', 'sure', 'maybe', 'noend', 'nobegin', 'trailing'])
    who = used_by_types(g)
    out = render(g, rng=rng)
    if k == 'drop':
        c = sorted(who)
        if not c:
            return None
        n = rng.choice(c)
        return 'the %s it uses is not defined' % g.by[n]['kind'], text(g, render(g, [d for d in g.defs if d['name'] != n], rng=rng))
    if k == 'rename':
        c = sorted((u, w) for u in who for w in who[u])
        if not c:
            return None
        u, w = rng.choice(c)
        ds = [dict(d) for d in g.defs]
        for d in ds:
            if d['name'] == w:
                t = replace_name(d['text'], u, {True: 'NoSuch' + u, False: 'noSuch' + u}[u[0].isupper()] if g.by[u]['kind'] != 'class' else 'NO-' + u, rng)
                if t is None:
                    return None
                d['text'] = t
        return 'a name of a %s is not defined' % g.by[u]['kind'], text(g, render(g, ds, rng=rng))
    imps = [(o, key, u) for o in out for key, us in o[1].items() for u in us if any(u in g.by[w]['uses'] and g.mods[g.by[w]['mod']] == o[0] and g.by[w]['kind'] not in ('object', 'oset') for w in who.get(u, []))]
    if k in ('unimport', 'misimport', 'bothimport', 'nomodule', 'noimported'):
        if not imps:
            return None
        o, key, u = rng.choice(sorted(imps, key=lambda x: (x[0][0], x[1], x[2])))
        if k == 'nomodule':
            us = o[1].pop(key)
            o[1]['No-Such-Module'] = us
            return 'the module of an import does not exist', text(g, out)
        if k != 'bothimport':
            o[1][key] = set(o[1][key]) - {u}
        if k == 'unimport':
            return 'a %s of another module is not imported' % g.by[u]['kind'], text(g, out)
        if k == 'noimported':
            o[1][key] |= {u, 'NoSuchThing'}
            return 'an imported name is not defined in the module', text(g, out)
        others = [i for i in range(g.n) if i != key and g.mods[i] != o[0]]
        if not others:
            return None
        x = rng.choice(others)
        o[1][x] = set(o[1].get(x, ())) | {u}
        if u in [y for d in g.defs if d['mod'] == x for y in d['uses']]:
            return None
        if k == 'bothimport':
            ks = list(o[1])
            rng.shuffle(ks)
            o[1] = {y: o[1][y] for y in ks}
            return 'a name is imported from two modules, and one does not define it', text(g, out)
        return 'a name is imported from a module that does not define it', text(g, out)
    if k == 'twice':
        d = rng.choice(g.defs)
        o = out[d['mod']]
        t = d['text'] if rng.random() < .5 else {True: '%s ::= NULL', False: '%s INTEGER ::= 77'}[d['name'][0].isupper()] % d['name']
        o[2].insert(rng.randint(0, len(o[2])), t)
        return 'a name is defined twice', text(g, out)
    if k == 'twomodules':
        ts = text(g, out)
        return 'a module is there twice', ts + [rng.choice(ts) if rng.random() < .5 else '%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN Zz ::= NULL END' % rng.choice(g.mods)]
    ts = text(g, out)
    if k in ('noend', 'nobegin', 'trailing'):
        i = rng.randrange(len(ts))
        if k == 'noend':
            ts[i] = ts[i].rstrip()[:-3]
        elif k == 'nobegin':
            ts[i] = ts[i].replace('BEGIN', '', 1)
        else:
            ts[i] += rng.choice(['Zz ::= NULL\n', '}\n', 'END\n', 'garbage\n', '42\n'])
        return {'noend': 'a module without END', 'nobegin': 'a module without BEGIN', 'trailing': 'text after the module'}[k], ts
    o = rng.choice(out)
    if k == 'sure':
        o[2].insert(rng.randint(0, len(o[2])), rng.choice(SURE))
        return 'sure: against a rule', text(g, out)
    if k == 'maybe':
        o[2].insert(rng.randint(0, len(o[2])), rng.choice(MAYBE))
        return 'maybe: well-formed', text(g, out)
    kind = rng.choice(sorted(BODY))
    o[2].insert(rng.randint(0, len(o[2])), rng.choice(BODY[kind]))
    return kind, text(g, out)


def tokens(texts, rng):
    """one token deleted, doubled, exchanged or replaced"""
    i = rng.randrange(len(texts))
    ts = [t for t in TOK.findall(texts[i]) if not t.startswith('--')]
    if len(ts) < 8:
        return None
    k = rng.randrange(len(ts))
    how = rng.choice(['deleted', 'doubled', 'swapped', 'replaced', 'replaced', 'cut'])
    if how == 'deleted':
        del ts[k]
    elif how == 'doubled':
        ts.insert(k, ts[k])
    elif how == 'swapped':
        j = min(len(ts) - 1, k + rng.randint(1, 3))
        ts[k], ts[j] = ts[j], ts[k]
    elif how == 'replaced':
        ts[k] = rng.choice(ts + ['{', '}', '(', ')', ',', '..', '...', '|', '::=', '[[', ']]', 'OPTIONAL', 'DEFAULT', 'SIZE', 'OF', 'SEQUENCE', 'INTEGER', '0', '-1', 'x', 'X', ';', 'MAX', 'MIN', '<', ':', '@id', '&id', 'END', 'BEGIN'])
    else:
        ts = ts[:k]
    out = list(texts)
    s = ''
    for a, b in zip(ts, ts[1:] + ['']):
        s += a + ('' if '.' in (a, b) else ' ')
    out[i] = s
    return how, out
