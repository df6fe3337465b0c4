"""Small specifications with every construct of the subset, each token of which is changed in turn (C23)."""

SEEDS = [
    ['M { itu-t (0) identified-organization (4) etsi (0) 3 } DEFINITIONS AUTOMATIC TAGS ::= BEGIN IMPORTS A, b, C FROM N { iso 1 x (2) } D FROM P ; E ::= A F ::= SEQUENCE { a C, d D } END',
     'N { iso 1 x (2) } DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= INTEGER (0..b) b INTEGER ::= 5 C ::= BOOLEAN END P DEFINITIONS ::= BEGIN D ::= NULL END'],
    ['M DEFINITIONS AUTOMATIC TAGS ::= BEGIN A ::= SEQUENCE { a NULL, b BOOLEAN OPTIONAL, c INTEGER (0..7) DEFAULT 3, d E DEFAULT y, ..., f NULL, [[ 2 : g NULL, h NULL OPTIONAL ]], ..., i OCTET STRING } E ::= ENUMERATED { x, y, ..., z } END'],
    ['M DEFINITIONS AUTOMATIC TAGS ::= BEGIN A ::= CHOICE { a NULL, b CHOICE { x NULL }, ..., c NULL, [[ 3 : d NULL, e NULL ]] } B ::= CHOICE { a A, ... } C ::= CHOICE { a A, ..., b B } END'],
    ['M DEFINITIONS AUTOMATIC TAGS ::= BEGIN A ::= ENUMERATED { a, b (5), c (v), d, ..., e, f (20) } v INTEGER ::= 7 B ::= INTEGER { p (1), q (v) } (p..q) C ::= BIT STRING { r (0), s (v) } (SIZE (8)) w B ::= 2 END'],
    ['M DEFINITIONS AUTOMATIC TAGS ::= BEGIN v INTEGER ::= -3 A ::= INTEGER (v..4 | 7 | 9..10, ..., 12 | 20..30) B ::= A (-2 .. 3) C ::= INTEGER (MIN..-1) D ::= INTEGER (0<..<9) E ::= INTEGER ((1 | 2) ^ (2..5)) F ::= INTEGER (1..MAX) END'],
    ['M DEFINITIONS AUTOMATIC TAGS ::= BEGIN A ::= OCTET STRING (SIZE (1..4, ..., 9)) B ::= BIT STRING (SIZE (2 | 4)) C ::= PrintableString (SIZE (m..8)) m INTEGER ::= 2 D ::= SEQUENCE (SIZE (0..m)) OF A E ::= SEQUENCE OF SEQUENCE (SIZE (3)) OF NULL F ::= OCTET STRING (CONTAINING D) G ::= UTF8String H ::= VisibleString (SIZE (1)) I ::= OBJECT IDENTIFIER END'],
    ['M DEFINITIONS AUTOMATIC TAGS ::= BEGIN C ::= CLASS { &id INTEGER (0..255) UNIQUE, &cr P DEFAULT ignore, &Value, &Opt OPTIONAL } WITH SYNTAX { ID &id CRIT &cr TYPE &Value [OPT &Opt] } P ::= ENUMERATED { reject, ignore } '
     'S C ::= { { ID 1 CRIT reject TYPE NULL } | o | { ID v CRIT ignore TYPE P OPT BOOLEAN }, ... } o C ::= { ID 2 CRIT ignore TYPE INTEGER } v INTEGER ::= 3 T C ::= { S, ... } '
     'F ::= SEQUENCE { id C.&id ({S}), crit C.&cr ({S}{@id}), value C.&Value ({S}{@id}) } G ::= SEQUENCE { i C.&id ({T}), t C.&Value ({T}{@i}) OPTIONAL } END'],
    ['M DEFINITIONS AUTOMATIC TAGS ::= BEGIN P { T, INTEGER : m } ::= SEQUENCE { a T, b SEQUENCE (SIZE (1..m)) OF T, c INTEGER (0..m) DEFAULT m } Q ::= P { BB, 4 } R ::= SEQUENCE { x P { Q, v } } v INTEGER ::= 9 BB ::= BOOLEAN '
     'C ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { &id HAS TYPE &T } L { C : Set } ::= SEQUENCE OF F { { Set } } F { C : Set } ::= SEQUENCE { id C.&id ({Set}), t C.&T ({Set}{@id}) } S C ::= { { 1 HAS TYPE BB } } U ::= L { { S } } END'],
    ['M DEFINITIONS EXPLICIT TAGS ::= BEGIN A ::= CHOICE { a BOOLEAN, b OCTET STRING, c NULL } B ::= SEQUENCE { } C ::= SEQUENCE { ... } D ::= SEQUENCE { a NULL, ..., ... } E ::= SEQUENCE { a A OPTIONAL, b B, ..., ..., c C } END'],
]
MORE = ['{', '}', '(', ')', ',', '..', '...', '|', '::=', '[[', ']]', ':', '.', '^', '<', '@id', '&id', '[', ']', ';',
        'OPTIONAL', 'DEFAULT', 'SIZE', 'OF', 'SEQUENCE', 'CHOICE', 'ENUMERATED', 'INTEGER', 'NULL', 'STRING', 'UNIQUE', 'CLASS', 'WITH', 'SYNTAX', 'FROM', 'IMPORTS', 'TAGS', 'BEGIN', 'END', 'MIN', 'MAX', 'TRUE', 'UNION',
        '0', '-1', '300', 'a', 'b', 'v', 'A', 'B', 'Nope', 'nope', "'1'B", "'A'H", '"x"', '-']


def changes(tokens):
    """(what, the tokens then) for every change of one token"""
    n = len(tokens)
    for k in range(n):
        yield 'deleted', tokens[:k] + tokens[k + 1:]
        yield 'doubled', tokens[:k + 1] + tokens[k:]
        if k + 1 < n:
            yield 'swapped', tokens[:k] + [tokens[k + 1], tokens[k]] + tokens[k + 2:]
        yield 'cut', tokens[:k]
        for x in MORE:
            if x != tokens[k]:
                yield 'replaced', tokens[:k] + [x] + tokens[k + 1:]
            yield 'inserted', tokens[:k] + [x] + tokens[k:]


def join(tokens):
    s = ''
    for a, b in zip(tokens, tokens[1:] + ['']):
        s += a + ('' if '.' in (a, b) else ' ')
    return s
