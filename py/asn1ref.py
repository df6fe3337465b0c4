"""An ASN.1 front-end independent of the one under test: text -> modules -> types as PER sees them.

Only the notation hampi claims is covered (X.680 types and constraints, X.681 classes/objects/object sets,
X.682 table constraints, X.683 parameterisation).  Anything else raises Unsupported or Bad (ill-formed).
"""
import re


class Bad(Exception):
    """The specification is ill-formed."""


class BadAddition(Bad):
    """... in additions of a SEQUENCE, which are only parsed"""


class Unsupported(Exception):
    """Outside what this front-end covers."""


TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<comment>--)
 |(?P<block>/\*)
 |(?P<bstr>'[01\s]*'B|'[0-9A-Fa-f\s]*'H)
 |(?P<cstr>"(?:[^"]|"")*")
 |(?P<sym>::=|\.\.\.|\.\.|\[\[|\]\]|[{}()\[\],;:|<>=.@!^'"])
 |(?P<field>&[A-Za-z][A-Za-z0-9]*(?:-[A-Za-z0-9]+)*)
 |(?P<num>-?\d+)
 |(?P<id>[A-Za-z][A-Za-z0-9]*(?:-[A-Za-z0-9]+)*)
''', re.X)


def lex(src):
    out, i, n = [], 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        if not m:
            raise Bad('character %r' % src[i:i + 10])
        k = m.lastgroup
        if k == 'comment':
            # ends at the next "--" or at the end of the line
            j = i + 2
            while j < n and src[j] not in '\n\r\v\f' and src[j:j + 2] != '--':
                j += 1
            i = j + 2 if src[j:j + 2] == '--' else j
            continue
        if k == 'block':
            d, j = 1, i + 2
            while d:
                if j >= n:
                    raise Bad('unterminated comment')
                if src[j:j + 2] == '*/':
                    d -= 1
                    j += 2
                elif src[j:j + 2] == '/*':
                    d += 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        if k != 'ws':
            out.append((k, m.group(0)))
        i = m.end()
    return out


STR = {'UTF8String': 'utf8', 'VisibleString': 'visible', 'PrintableString': 'printable'}
OTHER_STR = {'IA5String', 'NumericString', 'BMPString', 'GeneralString', 'GraphicString', 'TeletexString', 'T61String', 'UniversalString',
             'VideotexString', 'ISO646String'}


KEYWORDS = set('''ABSENT ABSTRACT-SYNTAX ALL APPLICATION AUTOMATIC BEGIN BIT BMPString BOOLEAN BY CHARACTER CHOICE CLASS COMPONENT
    COMPONENTS CONSTRAINED CONTAINING DEFAULT DEFINITIONS EMBEDDED ENCODED END ENUMERATED EXCEPT EXPLICIT EXPORTS EXTENSIBILITY
    EXTERNAL FALSE FROM GeneralizedTime GeneralString GraphicString IA5String IDENTIFIER IMPLICIT IMPLIED IMPORTS INCLUDES INSTANCE
    INTEGER INTERSECTION ISO646String MAX MIN MINUS-INFINITY NULL NumericString OBJECT ObjectDescriptor OCTET OF OPTIONAL PATTERN
    PDV PLUS-INFINITY PRESENT PrintableString PRIVATE REAL RELATIVE-OID SEQUENCE SET SIZE STRING SYNTAX T61String TAGS
    TeletexString TRUE UNION UNIQUE UNIVERSAL UniversalString UTCTime UTF8String VideotexString VisibleString
    WITH'''.split())


# types of the values that may be parameters, by a single word
PLAIN = {'INTEGER', 'BOOLEAN', 'NULL', 'REAL'} | set(STR) | OTHER_STR


class Module:
    def __init__(s, name):
        s.name, s.imports, s.defs, s.order, s.tags = name, {}, {}, [], 'EXPLICIT'


class Parser:
    parsed = 0       # within what is only parsed: additions of a SEQUENCE, definitions with parameters

    def __init__(s, toks, mods=None):
        s.t, s.i = toks, 0
        s.auto = False

    def k(s, o=0):
        return s.t[s.i + o][0] if s.i + o < len(s.t) else None

    def v(s, o=0):
        return s.t[s.i + o][1] if s.i + o < len(s.t) else None

    def next(s):
        if s.i >= len(s.t):
            raise Bad('unexpected end')
        s.i += 1
        return s.t[s.i - 1][1]

    def eat(s, *xs):
        for x in xs:
            y = s.next()
            if y != x:
                raise Bad('%r where %r is expected (token %d: ... %s)' % (y, x, s.i, ' '.join(t[1] for t in s.t[max(0, s.i - 12):s.i + 5])))

    def opt(s, x):
        if s.v() == x and s.k() != 'cstr':
            s.i += 1
            return True
        return False

    def upper(s, o=0):
        return s.k(o) == 'id' and s.v(o)[0].isupper()

    def lower(s, o=0):
        return s.k(o) == 'id' and s.v(o)[0].islower()

    def name(s):
        if s.k() != 'id' or s.v() in KEYWORDS:
            raise Bad('name expected, found %s' % s.v())
        return s.next()

    def comma(s):
        """after an element of a list that is all there is"""
        if s.k() is not None:
            s.eat(',')
            if s.k() is None:
                raise Bad('trailing comma')

    # ---- modules
    def modules(s):
        out = []
        while s.k() is not None:
            out.append(s.module())
        return out

    def module(s):
        if not s.upper():
            raise Bad('module name expected, found %s' % s.v())
        m = Module(s.name())
        if s.v() == '{':
            s.oid()
        s.eat('DEFINITIONS')
        if s.v() in ('AUTOMATIC', 'EXPLICIT', 'IMPLICIT'):
            m.tags = s.next()
            s.eat('TAGS')
        s.auto = m.tags == 'AUTOMATIC'
        if s.opt('EXTENSIBILITY'):
            s.eat('IMPLIED')
            raise Unsupported('EXTENSIBILITY IMPLIED')
        s.eat('::=', 'BEGIN')
        if s.opt('EXPORTS') and not (s.v() == 'ALL' and s.eat('ALL', ';') is None):
            if s.v() != ';':
                s.symbols()
            s.eat(';')
        if s.opt('IMPORTS'):
            while not s.opt(';'):
                names = s.symbols()
                s.eat('FROM')
                if not s.upper():
                    raise Bad('module name expected, found %s' % s.v())
                frm = s.next()
                if s.v() == '{':
                    s.oid()
                for n in names:
                    if n in m.imports:
                        raise Unsupported('imported twice')
                    m.imports[n] = frm
        while not s.opt('END'):
            s.assignment(m)
        return m

    def symbols(s):
        out = []
        while True:
            out.append(s.name())
            if s.opt('{'):
                s.eat('}')
            if not s.opt(','):
                return out

    def oid(s):
        s.eat('{')
        while not s.opt('}'):
            if s.lower():
                n = s.next()
                if s.opt('('):
                    if not s.lower() and s.k() != 'num':
                        raise Bad('number expected, found %s' % s.v())
                    s.next()
                    s.eat(')')
                elif n not in ('iso', 'itu-t', 'ccitt', 'joint-iso-itu-t', 'joint-iso-ccitt'):
                    raise Unsupported('name without a number')
            elif s.k() == 'num' and not s.v().startswith('-'):
                s.next()
            else:
                raise Bad('number or name expected, found %s' % s.v())

    def braces(s):
        """tokens of a {...} group, without the outer braces"""
        s.eat('{')
        d, out = 1, []
        while True:
            x = (s.k(), s.v())
            s.next()
            if x == ('sym', '{'):
                d += 1
            if x == ('sym', '}'):
                d -= 1
                if d == 0:
                    return out
            out.append(x)

    def assignment(s, m):
        if s.k() != 'id':
            raise Bad('assignment expected, found %s' % s.v())
        name = s.name()
        params = None
        if s.v() == '{':
            params = []
            g = s.braces()
            p = Parser(g)
            while p.k() is not None:
                gov = None
                a = p.next() if p.v() in PLAIN else p.name()
                if p.opt(':'):
                    gov = a
                    if not gov[0].isupper():
                        raise Bad('type or class expected, found %s' % gov)
                    a = p.name()
                elif a in PLAIN:
                    raise Bad('parameter expected, found %s' % a)
                params.append((gov, a))
                p.comma()
            if not params:
                raise Bad('no parameters')
        Parser.parsed += bool(params)
        if name[0].islower():
            gov = s.type()
            s.eat('::=')
            if s.v() == '{':
                d = dict(kind='obj?', gov=gov, toks=s.braces())
            else:
                d = dict(kind='value', gov=gov, value=s.value())
        elif s.v() == '::=':
            s.next()
            if s.v() == 'CLASS':
                s.next()
                d = dict(kind='class', cls=s.classdef())
            else:
                d = dict(kind='type', ty=s.type())
        else:
            gov = s.type()
            s.eat('::=')
            d = dict(kind='set', gov=gov, toks=s.braces())
        Parser.parsed -= bool(params)
        if name in m.defs:
            raise Bad('%s is defined twice' % name)
        d.update(params=params, name=name, module=m.name)
        m.defs[name] = d
        m.order.append(name)

    def value(s):
        if s.opt('-'):
            return -int(s.next())
        lower = s.lower()
        x = s.next()
        k = s.t[s.i - 1][0]
        if k == 'num':
            return int(x)
        if not lower and k in ('id', 'sym', 'field') and x not in ('TRUE', 'FALSE', 'NULL', 'MIN', 'MAX', 'PLUS-INFINITY', 'MINUS-INFINITY'):
            raise (BadAddition if Parser.parsed else Bad)('value expected, found %s' % x)
        return x

    # ---- types
    def type(s):
        t = s.type0()
        cs = list(t.get('cs', []))
        while s.v() == '(' and s.k() == 'sym':
            cs.append(s.constraint())
        t = dict(t)
        t['cs'] = cs
        return t

    def type0(s):
        if s.v() == '[' and s.k() == 'sym':
            while s.next() != ']':
                pass
            if s.v() in ('IMPLICIT', 'EXPLICIT'):
                s.next()
            return s.type0()
        if s.k() != 'id':
            raise Bad('type expected, found %s' % s.v())
        x = s.next()
        if x == 'BOOLEAN':
            return dict(t='bool')
        if x == 'NULL':
            return dict(t='null')
        if x == 'INTEGER':
            named = None
            if s.v() == '{':
                named = s.named()
            return dict(t='int', named=named)
        if x == 'ENUMERATED':
            return s.enumerated()
        if x == 'BIT':
            s.eat('STRING')
            named = None
            if s.v() == '{':
                named = s.named()
            return dict(t='bits', named=named)
        if x == 'OCTET':
            s.eat('STRING')
            return dict(t='octs')
        if x == 'OBJECT':
            s.eat('IDENTIFIER')
            return dict(t='oid')
        if x in STR:
            return dict(t='str', kind=STR[x])
        if x in OTHER_STR or x in ('REAL', 'EXTERNAL', 'EMBEDDED', 'CHARACTER', 'RELATIVE-OID', 'SET', 'ANY', 'GeneralizedTime', 'UTCTime', 'INSTANCE'):
            raise Unsupported(x)
        if x == 'SEQUENCE':
            if s.v() == '{':
                return s.sequence()
            cs = []
            if s.v() == '(':
                cs.append(s.constraint())
            elif s.v() == 'SIZE':
                e = s.elements()
                cs.append(dict(c='sub', root=[[e]], ext=False, adds=None))
            s.eat('OF')
            if s.lower():
                raise Unsupported('name after OF')
            return dict(t='seqof', of=s.type(), cs=cs)
        if x == 'CHOICE':
            return s.choice()
        if not x[0].isupper() or x in KEYWORDS:
            raise Bad('type expected, found %s' % x)
        if s.v() == '.':
            s.next()
            if s.k() == 'field':
                return dict(t='field', cls=x, field=s.next())
            m = x
            x = s.next()
            raise Unsupported('external reference')
        args = None
        if s.v() == '{' and s.k() == 'sym':
            args = []
            p = Parser(s.braces())
            while p.k() is not None:
                if p.v() == '{':
                    args.append(('set', p.braces()))
                elif p.k() == 'num' or p.v() == '-':
                    args.append(('value', p.value()))
                elif p.lower():
                    args.append(('value', p.next()))
                else:
                    args.append(('type', p.type()))
                p.comma()
        return dict(t='ref', name=x, args=args)

    def named(s):
        p = Parser(s.braces())
        out = []
        while p.k() is not None:
            if not p.lower():
                raise Bad('name expected, found %s' % p.v())
            n = p.next()
            p.eat('(')
            v = p.value()
            p.eat(')')
            out.append((n, v))
            p.comma()
        return out

    def enumerated(s):
        p = Parser(s.braces())
        root, adds, ext = [], [], False
        while p.k() is not None:
            if p.v() == '...':
                p.next()
                if ext:
                    raise Bad('two extension markers')
                ext = True
            else:
                if not p.lower():
                    raise Bad('enumeration item expected, found %s' % p.v())
                n = p.next()
                v = None
                if p.opt('('):
                    v = p.value()
                    p.eat(')')
                (adds if ext else root).append((n, v))
            if p.k() is not None:
                p.eat(',')
                if p.k() is None:
                    raise Bad('trailing comma')
        if not root:
            raise Bad('ENUMERATED without root items')
        return dict(t='enum', root=root, ext=ext, adds=adds)

    def component(s):
        if not s.lower():
            raise Bad('component expected, found %s' % s.v())
        n = s.next()
        t = s.type()
        opt = 'no'
        dv = None
        if s.opt('OPTIONAL'):
            opt = 'opt'
        elif s.opt('DEFAULT'):
            opt = 'def'
            if s.v() == '{':
                dv = s.braces()
            else:
                dv = s.value()
                if s.v() == ':':
                    s.next()
                    s.value()
        return dict(name=n, ty=t, opt=opt, dv=dv)

    def items(s, one):
        """components with extension markers and addition groups -> root1, ext, additions, root2"""
        parts, state, adds = [[], []], 0, []
        s.eat('{')
        if s.opt('}'):
            return [], False, [], []
        while True:
            if s.v() == '...':
                s.next()
                if s.opt('!'):
                    raise Unsupported('exception')
                state += 1
                if state > 2:
                    raise Bad('three extension markers')
            elif s.v() == '[[':
                s.next()
                if state != 1:
                    raise Bad('addition group outside the additions')
                if s.k() == 'num' and s.v(1) == ':':
                    s.next()
                    s.next()
                Parser.parsed += 1
                g = [one()]
                while s.opt(','):
                    g.append(one())
                Parser.parsed -= 1
                s.eat(']]')
                adds.append(g)
            else:
                Parser.parsed += state == 1
                c = one()
                Parser.parsed -= state == 1
                if state == 1:
                    adds.append(c)
                else:
                    parts[1 if state else 0].append(c)
            if s.opt('}'):
                break
            s.eat(',')
        return parts[0], state > 0, adds, parts[1]

    def sequence(s):
        r1, ext, adds, r2 = s.items(s.component)
        return dict(t='seq', comps=r1 + r2, ext=ext, adds=adds)

    def choice(s):
        def alt():
            if not s.lower():
                raise Bad('alternative expected, found %s' % s.v())
            n = s.next()
            return dict(name=n, ty=s.type())
        r1, ext, adds, r2 = s.items(alt)
        if r2:
            raise Bad('root alternatives after additions')
        if not r1 and not ext:
            raise Bad('CHOICE without alternatives')
        flat = []
        for a in adds:
            flat += a if isinstance(a, list) else [a]
        return dict(t='choice', alts=r1, ext=ext, adds=flat, auto=s.auto)

    # ---- constraints
    def constraint(s):
        s.eat('(')
        c = s.constraint_body()
        s.eat(')')
        return c

    def constraint_body(s):
        if s.v() == 'CONTAINING' or s.v() == 'ENCODED':
            s.next()
            s.type()
            if s.v() in ('ENCODED',):
                raise Unsupported('ENCODED BY')
            return dict(c='contents')
        if s.v() == '{' and s.k() == 'sym':
            g = s.braces()
            if len(g) != 1 or g[0][0] != 'id':
                raise Unsupported('table constraint %r' % g)
            at = None
            if s.v() == '{':
                p = Parser(s.braces())
                p.eat('@')
                dots = 0
                while p.opt('.'):
                    dots += 1
                at = p.next()
                if p.k() is not None:
                    raise Unsupported('several @ or nested component')
            return dict(c='table', set=g[0][1], at=at)
        return s.elementset()

    def elementset(s):
        root = s.union()
        ext, adds = False, None
        if s.opt(','):
            s.eat('...')
            ext = True
            if s.opt(','):
                adds = s.union()
        return dict(c='sub', root=root, ext=ext, adds=adds)

    def union(s):
        out = [s.inter()]
        while s.v() in ('|', 'UNION'):
            s.next()
            out.append(s.inter())
        return out

    def inter(s):
        out = [s.elements()]
        while s.v() in ('^', 'INTERSECTION'):
            s.next()
            out.append(s.elements())
        if s.v() == 'EXCEPT' or s.v() == 'ALL':
            raise Unsupported('EXCEPT')
        return out

    def elements(s):
        if s.v() == '(' and s.k() == 'sym':
            s.next()
            c = s.elementset()
            s.eat(')')
            return dict(e='set', set=c)
        if s.v() == 'SIZE':
            s.next()
            c = s.constraint()
            if c['c'] != 'sub':
                raise Bad('SIZE')
            return dict(e='size', set=c)
        if s.v() == 'FROM':
            s.next()
            s.constraint()
            return dict(e='from')
        if s.v() in ('WITH', 'PATTERN', 'SETTINGS', 'ALL'):
            raise Unsupported(s.v())
        if s.v() == 'INCLUDES':
            s.next()
            return dict(e='type', ty=s.type())
        if s.upper() and s.v() not in ('MIN', 'MAX'):
            if s.v() in ('TRUE', 'FALSE'):
                raise Unsupported('value')
            return dict(e='type', ty=s.type0())
        if s.k() == 'cstr' or s.k() == 'bstr':
            s.next()
            return dict(e='other')
        lo = s.value()
        loi = hii = True
        if s.v() == '<':
            s.next()
            loi = False
            s.eat('..')
        elif s.v() == '..':
            s.next()
        else:
            if lo in ('MIN', 'MAX'):
                raise Unsupported('MIN alone')
            return dict(e='val', v=lo)
        if s.opt('<'):
            hii = False
        return dict(e='range', lo=lo, loi=loi, hi=s.value(), hii=hii)

    # ---- classes
    def classdef(s):
        s.eat('{')
        fields, order = {}, []
        while True:
            if s.k() != 'field':
                raise Bad('class field expected, found %s' % s.v())
            f = s.next()
            if f in fields:
                raise Bad('class field twice')
            d = dict(unique=False, opt=False, default=None)
            if f[1].isupper():
                if s.v() not in (',', '}', 'OPTIONAL', 'DEFAULT'):
                    raise Unsupported('value set field')
                d['kind'] = 'type'
            else:
                d['kind'] = 'fixed'
                d['ty'] = s.type()
                if s.opt('UNIQUE'):
                    d['unique'] = True
            if s.opt('OPTIONAL'):
                d['opt'] = True
            elif s.opt('DEFAULT'):
                d['default'] = s.type() if d['kind'] == 'type' else s.value()
            fields[f] = d
            order.append(f)
            if s.opt('}'):
                break
            s.eat(',')
        syntax = None
        if s.opt('WITH'):
            s.eat('SYNTAX')
            syntax = s.syntax('{', '}')
        return dict(fields=fields, order=order, syntax=syntax)

    def syntax(s, a, b):
        s.eat(a)
        out = []
        while not s.opt(b):
            if s.v() == '[':
                out.append(('opt', s.syntax('[', ']')))
            elif s.k() == 'field':
                out.append(('field', s.next()))
            else:
                out.append(('word', s.next()))
        return out


INF = float('inf')


def norm_ivs(l):
    l = sorted(x for x in l if x[0] <= x[1])
    out = []
    for a, b in l:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def meet(x, y):
    return norm_ivs([(max(a, c), min(b, d)) for a, b in x for c, d in y])


class Env:
    """dummy parameters -> actual ones, each with the environment it is to be read in"""

    def __init__(s, mod, d=None):
        s.mod, s.d = mod, d or {}


class Spec:
    def __init__(s, texts):
        s.mods = {}
        Parser.parsed = 0
        for t in texts:
            for m in Parser(lex(t)).modules():
                if m.name in s.mods:
                    raise Bad('module %s twice' % m.name)
                s.mods[m.name] = m
        s.tops = []      # (module, name) of non-parameterised types
        for m in s.mods.values():
            for n in m.order:
                if m.defs[n]['kind'] == 'type' and m.defs[n]['params'] is None:
                    s.tops.append((m.name, n))
        s.index = {k: i for i, k in enumerate(s.tops)}
        s.depth = 0
        s.sets = {}

    def check(s):
        """imports exist"""
        for m in s.mods.values():
            for n, f in m.imports.items():
                if f not in s.mods:
                    raise Bad('module %s is not there' % f)
                if n not in s.mods[f].defs and n not in s.mods[f].imports:
                    raise Bad('%s is not in %s' % (n, f))
        for m in s.mods.values():
            for n, d in m.defs.items():
                if d['params'] is None:
                    s.checkdef(n, d, Env(m.name))
                for g, _ in d['params'] or []:
                    if g and g not in PLAIN | {'TYPE-IDENTIFIER'} and g not in [a for _, a in d['params']]:
                        s.lookup(g, m.name)

    def checkdef(s, n, d, env):
        if d['kind'] == 'value':
            s.isvalue(d['value'], env, d['gov'], env)
        elif d['kind'] == 'class':
            for f in d['cls']['fields'].values():
                if f['kind'] == 'fixed':
                    if isinstance(f['default'], (int, str)):
                        s.isvalue(f['default'], env, f['ty'], env)
                    else:
                        s.info(f['ty'], env)
        elif d['kind'] == 'set':
            s.oset(n, env)
        elif d['kind'] == 'obj?' and d['gov']['t'] == 'ref' and d['gov']['name'] not in ('ABSTRACT-SYNTAX', 'TYPE-IDENTIFIER'):
            m, x = s.lookup(d['gov']['name'], env.mod)
            if x['kind'] == 'class':
                s.object(x['cls'], m, d['toks'], env)

    def lookup(s, name, mod):
        m, seen = mod, 0
        while True:
            if m not in s.mods:
                raise Bad('module %s is not there' % m)
            if name in s.mods[m].defs:
                return m, s.mods[m].defs[name]
            if name in s.mods[m].imports and seen < 20:
                m = s.mods[m].imports[name]
                seen += 1
                continue
            raise Bad('%s is not defined' % name)

    # ---- values
    def value(s, v, env, named=None, depth=0):
        if isinstance(v, int):
            return v
        if depth > 50:
            raise Bad('circular value')
        if v in ('MIN', 'MAX'):
            return v
        if v in env.d:
            k, x, e = env.d[v]
            if k != 'value':
                raise Bad('%s is not a value' % v)
            return s.value(x, e, named, depth + 1)
        if named and v in named:
            return named[v]
        m, d = s.lookup(v, env.mod)
        if d['kind'] != 'value':
            raise Bad('%s is not a value' % v)
        return s.value(d['value'], Env(m), None, depth + 1)

    def intval(s, v, env, named=None):
        x = s.value(v, env, named)
        if not isinstance(x, int):
            raise Unsupported('value %s' % x)
        return x

    # ---- constraints on integers and sizes: (interval list, ext)
    def ivs(s, c, env, parent, named, adds=False):
        """root intervals of an element set, and whether it is extensible"""
        def el(e):
            k = e['e']
            if k == 'val':
                x = s.intval(e['v'], env, named)
                return [(x, x)]
            if k == 'range':
                lo, hi = s.value(e['lo'], env, named), s.value(e['hi'], env, named)
                if lo == 'MIN':
                    lo = parent[0][0] if parent else -INF
                elif lo == 'MAX' or hi == 'MIN':
                    raise Unsupported('range')
                elif not e['loi']:
                    lo += 1
                if hi == 'MAX':
                    hi = parent[-1][1] if parent else INF
                elif not e['hii']:
                    hi -= 1
                if isinstance(lo, str) or isinstance(hi, str):
                    raise Unsupported('range of values')
                if lo > hi:
                    raise Bad('empty range')
                return [(lo, hi)]
            if k == 'set':
                if e['set']['ext']:
                    raise Unsupported('inner extension marker')
                return s.union(e['set']['root'], el)
            if k == 'type':
                i = s.info(e['ty'], env)
                if i['t'] != 'int':
                    raise Bad('contained subtype of another type')
                return i['ivs']
            raise Bad('element %s in a value constraint' % k)
        if adds:
            return s.union(c['adds'], el)
        return s.union(c['root'], el), c['ext']

    def union(s, u, el):
        out = []
        for inter in u:
            x = None
            for e in inter:
                y = el(e)
                x = y if x is None else meet(x, y)
            out += x
        return norm_ivs(out)

    def int_constraints(s, cs, env, base, ext, named):
        iv = base
        for c in cs:
            if c['c'] != 'sub':
                raise Bad('table constraint on INTEGER')
            n, ext = s.ivs(c, env, iv, named)
            iv = meet(iv, n)
            if not iv:
                raise Bad('empty constraint')
        return iv, ext

    def int_additions(s, cs, env, base, named):
        """intervals of the values after the marker, where that is plain: one constraint, on INTEGER itself"""
        if len(cs) != 1 or base != [(-INF, INF)] or not cs[0].get('adds'):
            return []
        try:
            return s.ivs(cs[0], env, base, named, True)
        except (Unsupported, Bad):
            return []

    def size_constraints(s, cs, env, base, ext, kind, what):
        iv = base
        for c in cs:
            if c['c'] == 'contents':
                continue
            if c['c'] != 'sub':
                raise Bad('table constraint on a string')
            outer = c['ext']

            inner_ext = [False]

            def el(e):
                k = e['e']
                if k == 'size':
                    x, xe = s.ivs(e['set'], env, iv or [(0, INF)], None)
                    inner_ext[0] |= xe
                    return x
                if k == 'set':
                    if e['set']['ext']:
                        raise Unsupported('inner extension marker')
                    return s.union(e['set']['root'], el)
                if k == 'from':
                    if kind == 'utf8':
                        return [(0, INF)]
                    raise Unsupported('FROM')
                if k == 'type':
                    i = s.info(e['ty'], env)
                    if i['t'] in ('bits', 'octs', 'str', 'seqof') and i['t'] != what:
                        raise Bad('contained subtype of another type')
                    if i['t'] != what or i['ext'] or i.get('kind') != kind or what == 'seqof':
                        raise Unsupported('contained subtype')
                    return i['size'] or [(0, INF)]
                raise Unsupported('string value constraint')
            n = s.union(c['root'], el)
            iv = meet(iv or [(0, INF)], n)
            ext = outer or inner_ext[0]
            if not iv:
                raise Bad('empty constraint')
            if iv[0][0] < 0:
                raise Bad('negative size')
        return iv, ext

    # ---- the effective type: references and parameters resolved at the top
    def info(s, t, env):
        """t: kind, plus for INTEGER ivs/ext, for sized ones size/ext, env, node"""
        s.depth += 1
        try:
            if s.depth > 150:
                raise Bad('circular definition')
            return s.info0(t, env)
        finally:
            s.depth -= 1

    def info0(s, t, env):
        k, cs = t['t'], t.get('cs', [])
        if k == 'ref':
            base, benv = s.deref(t, env)
            i = dict(s.info(base, benv))
            if cs:
                if i['t'] == 'int':
                    i['adds'] = s.int_additions(cs, env, i['ivs'], i['named'])
                    i['ivs'], i['ext'] = s.int_constraints(cs, env, i['ivs'], i['ext'], i['named'])
                elif i['t'] in ('bits', 'octs', 'str', 'seqof'):
                    if all(c['c'] == 'contents' for c in cs):
                        pass
                    else:
                        i['size'], i['ext'] = s.size_constraints(cs, env, i['size'], i['ext'], i.get('kind'), i['t'])
                else:
                    raise Unsupported('constraint on a reference to %s' % i['t'])
            return i
        if k == 'int':
            named = {}
            for n, v in t.get('named') or []:
                if n in named:
                    raise Bad('named number twice')
                named[n] = s.intval(v, env)
            iv, ext = s.int_constraints(cs, env, [(-INF, INF)], False, named)
            return dict(t='int', ivs=iv, ext=ext, named=named, adds=s.int_additions(cs, env, [(-INF, INF)], named))
        if k in ('bits', 'octs', 'str', 'seqof'):
            i = dict(t=k, node=t, env=env, kind=t.get('kind'))
            i['size'], i['ext'] = s.size_constraints(cs, env, None, False, t.get('kind'), k)
            return i
        if cs and k != 'field':
            raise Unsupported('constraint on %s' % k)
        return dict(t=k, node=t, env=env)

    def deref(s, t, env):
        """the type a reference names, with its environment"""
        n = t['name']
        if n in env.d:
            k, x, e = env.d[n]
            if k != 'type':
                raise Bad('%s is not a type' % n)
            return x, e
        m, d = s.lookup(n, env.mod)
        if d['kind'] != 'type':
            raise Bad('%s is not a type' % n)
        if d['params'] is None:
            if t['args'] is not None:
                raise Bad('%s takes no parameters' % n)
            return d['ty'], Env(m)
        if t['args'] is None or len(t['args']) != len(d['params']):
            raise Bad('%s: wrong number of parameters' % n)
        nd = {}
        for (gov, dummy), (ak, av) in zip(d['params'], t['args']):
            if ak == 'type' and av['t'] == 'ref' and av['name'] in env.d and env.d[av['name']][0] == 'set':
                nd[dummy] = env.d[av['name']]
                continue
            if ak == 'set' and len(av) == 1 and av[0][1] in env.d:
                nd[dummy] = env.d[av[0][1]]
                continue
            if ak == 'value' and av in env.d:
                nd[dummy] = env.d[av]
                continue
            nd[dummy] = (ak, av, env)
            if ak == 'set':
                nd[dummy] = ('set', (gov, av), env)
        return d['ty'], Env(m, nd)

    # ---- object sets
    def cls(s, name, mod):
        m, d = s.lookup(name, mod)
        seen = 0
        while d['kind'] == 'type' and d['ty']['t'] == 'ref' and seen < 10:
            m, d = s.lookup(d['ty']['name'], m)
            seen += 1
        if d['kind'] != 'class':
            raise Bad('%s is not a class' % name)
        return m, d['cls']

    def object(s, cls, cmod, toks, env):
        """fields of an object given by its tokens"""
        p = Parser(toks)
        out = {}

        def setting(f):
            fd = cls['fields'].get(f)
            if fd is None:
                raise Bad('%s is not a field' % f)
            if fd['kind'] == 'type':
                out[f] = ('type', p.type(), env)
            else:
                out[f] = ('value', p.value(), env)
                s.isvalue(out[f][1], env, fd['ty'], Env(cmod))

        if cls['syntax'] is None:
            while p.k() is not None:
                f = p.next()
                if f not in cls['fields']:
                    raise Bad('field %s' % f)
                setting(f)
                p.comma()
        else:
            def starts(sx):
                for kind, x in sx:
                    if kind == 'word':
                        return p.v() == x
                    if kind == 'field':
                        return p.k() is not None
                    return starts(x) or True
                return False

            def match(sx):
                for kind, x in sx:
                    if kind == 'word':
                        p.eat(x)
                    elif kind == 'field':
                        setting(x)
                    elif kind == 'opt':
                        k2, x2 = x[0]
                        if p.k() is not None and k2 == 'word' and p.v() == x2:
                            match(x)
            match(cls['syntax'])
            if p.k() is not None:
                raise Bad('object: %s unexpected' % p.v())
        for f, fd in cls['fields'].items():
            if f not in out:
                if fd['default'] is not None:
                    out[f] = ('type' if fd['kind'] == 'type' else 'value', fd['default'], Env(cmod))
                elif not fd['opt']:
                    raise Bad('object without %s' % f)
        return out

    def oset(s, name, env, depth=0):
        """-> class (module, cls), [objects], extensible"""
        if depth > 40:
            raise Bad('circular object set')
        if name in env.d:
            k, x, e = env.d[name]
            if k == 'set':
                gov, toks = x
                if len(toks) == 1 and toks[0][0] == 'id' and toks[0][1][0].isupper():
                    return s.oset(toks[0][1], e, depth + 1)
                raise Unsupported('literal object set parameter')
            if k == 'type' and x['t'] == 'ref':
                return s.oset(x['name'], e, depth + 1)
            raise Bad('%s is not an object set' % name)
        m, d = s.lookup(name, env.mod)
        if d['kind'] != 'set':
            raise Bad('%s is not an object set' % name)
        gov = d['gov']
        if gov['t'] != 'ref':
            raise Unsupported('value set')
        cm, c = s.cls(gov['name'], m)
        objs, ext = [], False
        p = Parser(d['toks'])

        def element():
            if p.v() == '{':
                objs.append(s.object(c, cm, p.braces(), Env(m)))
            elif p.lower():
                objs.append(s.objref(p.next(), m, c, cm))
            elif p.upper():
                (_, c2), o, x = s.oset(p.next(), Env(m), depth + 1)
                if c2 is not c:
                    raise Bad('object set of another class')
                objs.extend(o)
            else:
                raise Bad('object set element %s' % p.v())

        def union():
            element()
            while p.opt('|') or p.opt('UNION'):
                element()
        if p.v() != '...':
            union()
            if p.k() is not None:
                p.eat(',')
                if p.v() != '...':
                    raise Bad('object set: %s' % p.v())
        if p.opt('...'):
            ext = True
            if p.opt(','):
                union()
        if p.k() is not None:
            raise Bad('object set: %s' % p.v())
        return (cm, c), objs, ext

    def objref(s, n, mod, c, cm):
        m, d = s.lookup(n, mod)
        if d['kind'] == 'obj?':
            if d.get('gov') and d['gov']['t'] == 'ref' and s.cls(d['gov']['name'], m)[1] is not c:
                raise Bad('%s is of another class' % n)
            return s.object(c, cm, d['toks'], Env(m))
        raise Bad('%s is not an object' % n)

    # ---- the model
    def topref(s, t, env):
        """index of the top-level type a plain reference names, or None"""
        if t['t'] != 'ref' or t.get('cs') or t['args'] is not None or t['name'] in env.d:
            return None
        m, d = s.lookup(t['name'], env.mod)
        return s.index.get((m, t['name']))

    def model(s, t, env, depth=0):
        if depth > 120:
            raise Bad('circular definition')
        i = s.topref(t, env)
        if i is not None:
            return dict(k='ref', i=i)
        if t['t'] == 'ref' and not t.get('cs'):
            b, e = s.deref(t, env)
            return s.model(b, e, depth + 1)
        if t['t'] == 'field':
            raise Unsupported('class field outside a SEQUENCE')
        f = s.info(t, env)
        k = f['t']
        if k == 'bool' or k == 'null':
            return dict(k=k)
        if k == 'oid':
            return dict(k='unsupported')
        if k == 'int':
            lo, hi = f['ivs'][0][0], f['ivs'][-1][1]
            d = dict(k='int', lb=None if lo == -INF else lo, ub=None if hi == INF else hi, ext=f['ext'])
            if f['adds']:
                lo, hi = f['adds'][0][0], f['adds'][-1][1]
                d['adds'] = (None if lo == -INF else lo, None if hi == INF else hi)
            return d
        if k in ('bits', 'octs', 'str', 'seqof'):
            d = dict(k=f['kind'] if k == 'str' else k)
            if f['size']:
                lo, hi = f['size'][0][0], f['size'][-1][1]
                d.update(lb=lo, ub=None if hi == INF else hi, ext=f['ext'])
            if k == 'seqof':
                d['of'] = s.model(f['node']['of'], f['env'], depth + 1)
            return d
        t, env = f['node'], f['env']
        if k == 'enum':
            return s.enum(t, env)
        if k == 'choice':
            alts = t['alts']
            if not t['auto']:
                # in the canonical order of the tags (X.691 23.1, X.680 8.6)
                tags = [s.tags(a['ty'], env, True) for a in alts]
                every = [x for a in alts + t['adds'] for x in s.tags(a['ty'], env, False)]
                if len(set(every)) != len(every):
                    raise Unsupported('alternatives with the same tag')
                alts = [alts[i] for _, i in sorted((min(x), i) for i, x in enumerate(tags))]
            alts = [dict(name=a['name'], ty=s.model(a['ty'], env, depth + 1)) for a in alts]
            xs = [dict(name=a['name'], ty=s.model(a['ty'], env, depth + 1)) for a in t['adds']]
            n = [a['name'] for a in alts + xs]
            if len(set(n)) != len(n):
                raise Bad('alternative twice')
            return dict(k='choice', ext=t['ext'], alts=alts, xalts=xs)
        if k == 'seq':
            return s.seq(t, env, depth)
        raise Unsupported(k)

    UNIVERSAL = dict(bool=1, int=2, bits=3, octs=4, null=5, oid=6, enum=10, seq=16, seqof=16)
    STRTAG = dict(utf8=12, printable=19, visible=26)

    def tags(s, t, env, root, depth=0):
        """outermost tags (class, number) of a type, only those of the root alternatives of a CHOICE if root"""
        if depth > 120:
            raise Bad('circular definition')
        f = s.info(t, env)
        k = f['t']
        if k == 'str':
            return [(0, s.STRTAG.get(f['kind'], 99))]
        if k != 'choice':
            return [(0, s.UNIVERSAL.get(k, 98))]
        n = f['node']
        alts = n['alts'] if root else n['alts'] + n['adds']
        if n['auto']:
            return [(2, i) for i in range(len(alts))]
        return [x for a in alts for x in s.tags(a['ty'], f['env'], root, depth + 1)]

    def enum(s, t, env):
        root, used = [], set()
        for n, v in t['root']:
            if v is not None:
                x = s.intval(v, env)
                if x in used:
                    raise Bad('enumeration value twice')
                used.add(x)
        nxt = 0
        names = [n for n, _ in t['root'] + t['adds']]
        if len(set(names)) != len(names):
            raise Bad('duplicate enumeration item')
        for n, v in t['root']:
            if v is None:
                while nxt in used:
                    nxt += 1
                used.add(nxt)
                root.append((nxt, n))
            else:
                root.append((s.intval(v, env), n))
        top = None
        for n, v in t['adds']:
            if v is not None:
                x = s.intval(v, env)
                if x in used:
                    raise Bad('enumeration value twice')
                if top is not None and x <= top:
                    raise Bad('additions not increasing')
                used.add(x)
                top = x
        root.sort()
        return dict(k='enum', n=len(root), ext=t['ext'], names=[n for _, n in root])

    def isvalue(s, v, env, ty, tenv):
        """there is such a value of the type, as far as the names go"""
        i = s.info(ty, tenv)
        if isinstance(v, str) and v[:1].islower():
            if i['t'] == 'enum' and v in [n for n, _ in i['node']['root'] + i['node']['adds']] or i['t'] == 'int' and v in i['named']:
                return
            if v in env.d:
                return
            d = s.lookup(v, env.mod)[1]
            if d['kind'] not in ('value', 'obj?'):
                raise Bad('%s is not a value' % v)
            if d['kind'] == 'value' and i['t'] == 'int' and s.info(d['gov'], Env(d['module']))['t'] in ('enum', 'bool', 'null', 'bits', 'octs', 'str'):
                raise Bad('%s is of another type' % v)
        elif i['t'] == 'int' and not isinstance(v, int) or i['t'] == 'enum' or i['t'] == 'bool' and v not in ('TRUE', 'FALSE') or i['t'] == 'null' and v != 'NULL':
            raise Bad('%s is not a value of the type' % v)

    def seq(s, t, env, depth):
        names = [c['name'] for c in t['comps']]
        if len(set(names)) != len(names):
            raise Bad('component twice')
        for a in t['adds']:
            names += [c['name'] for c in (a if isinstance(a, list) else [a])]
        if len(set(names)) != len(names):
            raise BadAddition('component twice')
        fields = []
        opens = [c for c in t['comps'] if c['ty']['t'] == 'field']
        if opens:
            return s.classseq(t, env, depth)
        for c in t['comps']:
            if isinstance(c['dv'], (int, str)):
                s.isvalue(c['dv'], env, c['ty'], env)
            fields.append(dict(name=c['name'], ty=s.model(c['ty'], env, depth + 1), opt=c['opt'] != 'no', key=False, dv=c['opt'] == 'def'))
        return dict(k='seq', ext=t['ext'], fields=fields)

    def classseq(s, t, env, depth):
        fields = []
        for c in t['comps']:
            ty = c['ty']
            if ty['t'] != 'field':
                fields.append(dict(name=c['name'], ty=s.model(ty, env, depth + 1), opt=c['opt'] != 'no', key=False, dv=c['opt'] == 'def'))
                continue
            cs = [x for x in ty.get('cs', []) if x['c'] == 'table']
            if len(cs) != 1:
                raise Unsupported('class field without table constraint')
            (cm, cl), objs, ext = s.oset(cs[0]['set'], env)
            cm2, cl2 = s.cls(ty['cls'], env.mod)
            if cl2 is not cl:
                raise Bad('object set of another class')
            fd = cl['fields'].get(ty['field'])
            if fd is None:
                raise Bad('no field %s' % ty['field'])
            opt = c['opt'] != 'no'
            if fd['kind'] == 'fixed':
                fields.append(dict(name=c['name'], ty=s.model(fd['ty'], Env(cm), depth + 1), opt=opt, key=cs[0]['at'] is None and fd['unique'], dv=False))
            else:
                uniq = [f for f in cl['order'] if cl['fields'][f]['unique']]
                if len(uniq) != 1:
                    # nothing says which type is in there
                    fields.append(dict(name=c['name'], ty=dict(k='unsupported'), opt=opt, key=False, dv=False))
                    continue
                alts, seen = [], {}
                for o in objs:
                    kx = o.get(uniq[0])
                    if kx is None:
                        raise Unsupported('object without key')
                    key = s.intval(kx[1], kx[2])
                    f = o.get(ty['field'])
                    if f is None:
                        continue
                    m = s.model(f[1], f[2], depth + 1)
                    if key in seen:
                        if seen[key] != m:
                            raise Bad('key %d twice' % key)
                        continue
                    seen[key] = m
                    alts.append(dict(key=key, name=str(kx[1]), ty=m))
                fields.append(dict(name=c['name'], ty=dict(k='open', alts=alts, ext=ext), opt=opt, key=False, dv=False))
        return dict(k='seq', ext=t['ext'], fields=fields)

    def schema(s):
        """[{name, ty, module}], one per top-level type"""
        s.check()
        out = []
        for m, n in s.tops:
            try:
                out.append(dict(name=n, module=m, ty=s.model(s.mods[m].defs[n]['ty'], Env(m))))
            except Bad as e:
                raise type(e)('%s: %s' % (n, e))
        # a definition that is only a chain of itself
        for i in range(len(out)):
            j, seen = i, set()
            while out[j]['ty']['k'] == 'ref':
                if j in seen:
                    raise Bad('circular definition')
                seen.add(j)
                j = out[j]['ty']['i']
        return out
