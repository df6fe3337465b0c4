"""Random well-formed ASN.1 modules, as text. What they mean is worked out from the text by asn1ref."""
import random, re

WORDS = ['cell', 'id', 'name', 'list', 'item', 'type', 'value', 'info', 'ue', 'gnb', 'amf', 'cause', 'time', 'plmn', 'tac', 'loop', 'self', 'ref', 'match', 'box',
         'use', 'mod', 'Rate', 'Max', 'NR', 'E', 'r16', 'v2', 'x', 'Ext', 'qos', 'flow', 'key', 'data', 'index', 'Set', 'UL', 'DL', 'S', 'one', 'of', 'enum', 'struct',
         'output', 'none', 'some', 'err', 'ok', 'option', 'result', 'string', 'vec', 'bool', 'debug', 'decode', 'encode', 'present', 'inner', 'bitmap', 'default', 'crate', 'dyn', 'async']
RESERVED = {'ABSENT', 'ALL', 'ANY', 'APPLICATION', 'AUTOMATIC', 'BEGIN', 'BIT', 'BMPString', 'BOOLEAN', 'BY', 'CHARACTER', 'CHOICE', 'CLASS', 'COMPONENT', 'COMPONENTS',
            'CONSTRAINED', 'CONTAINING', 'DEFAULT', 'DEFINED', 'DEFINITIONS', 'EMBEDDED', 'ENCODED', 'END', 'ENUMERATED', 'EXCEPT', 'EXPLICIT', 'EXPORTS', 'EXTENSIBILITY',
            'EXTERNAL', 'FALSE', 'FROM', 'GeneralString', 'IDENTIFIER', 'IMPLICIT', 'IMPLIED', 'IMPORTS', 'INCLUDES', 'INSTANCE', 'INTEGER', 'INTERSECTION', 'MAX', 'MIN',
            'NULL', 'OBJECT', 'OCTET', 'OF', 'OPTIONAL', 'PATTERN', 'PDV', 'PRESENT', 'PRIVATE', 'REAL', 'SEQUENCE', 'SET', 'SIZE', 'STRING', 'SYNTAX', 'TAGS', 'TRUE',
            'UNION', 'UNIQUE', 'UNIVERSAL', 'WITH', 'ID', 'E'}
STRINGS = ['PrintableString', 'VisibleString', 'UTF8String']


def norm(n):
    return re.sub(r'[-_ ]', '', n).lower()


DEFAULT = dict(types=14, mods=2, depth=3, int=5, enum=3, bits=2, octs=2, chars=2, bool=1, null=1, seq=5, choice=4, seqof=4, alias=2, creff=3, params=3, objects=2,
               wide=0.15, ext=0.35, cons=0.8, enumnum=0.3, bigenum=0.03, oid=0, auto=.8, layout=True, named=0.2)


TAGGED = ('int', 'enum', 'bits', 'octs', 'bool', 'null', 'seq', 'seqof')


def tags_of(f):
    """outermost tags of a type with the facts f, or None"""
    k = f.get('t')
    if k == 'choice':
        return f.get('tags')
    if k in TAGGED or k in STRINGS:
        return [(0, 'seq' if k == 'seqof' else k)]
    return None


class Gen:
    def __init__(s, seed, **opts):
        s.r = random.Random(seed)
        s.o = dict(DEFAULT, **opts)
        s.defs = []          # dicts: name, mod, kind, text, uses
        s.by = {}
        s.names = set()
        s.taken = set()      # items of ENUMERATED and named numbers
        s.valued = []        # values and objects
        s.n = s.r.randint(1, s.o['mods'])
        s.mods = []
        for i in range(s.n):
            s.mods.append(s.fresh(True))
        s.tagging = ['AUTOMATIC' if s.r.random() < s.o['auto'] else s.r.choice(['IMPLICIT', 'EXPLICIT', '']) for _ in range(s.n)]
        s.cur = None
        s.mod = 0
        s.dummies = {}       # kind -> names usable right now
        s.features = {}
        for _ in range(s.r.randint(1, 4)):
            s.value_def()
        kinds = [k for k in ('int', 'enum', 'bits', 'octs', 'chars', 'bool', 'null', 'seq', 'choice', 'seqof', 'alias', 'creff') for _ in range(s.o[k])]
        plan = [s.r.choice(kinds) for _ in range(s.o['types'])] + ['param'] * s.r.randint(0, s.o['params']) + ['objects'] * s.r.randint(0, s.o['objects'])
        s.r.shuffle(plan)
        if s.o['params'] or s.o['objects']:
            plan.append(s.r.choice(kinds))
        for k in plan:
            s.mod = s.r.randrange(s.n)
            if k == 'param':
                s.param_def()
            elif k == 'objects':
                s.objects_def()
            else:
                s.type_def(k)

    # ---- names
    def hit(s, f):
        s.features[f] = s.features.get(f, 0) + 1

    def word(s, up):
        r = s.r
        k = r.randint(1, 3) if r.random() < .97 else r.randint(6, 20)
        n = r.choice(WORDS)
        for _ in range(k - 1):
            w = r.choice(WORDS)
            n += r.choice(['-', '', '']) + (w[0].upper() + w[1:] if r.random() < .7 else w)
        if r.random() < .3:
            n += str(r.randint(0, 99))
        return n[0].upper() + n[1:] if up else n[0].lower() + n[1:]

    def fresh(s, up):
        while True:
            n = s.word(up)
            if norm(n) not in s.names and (up or norm(n) not in s.taken) and n not in RESERVED and n.upper() not in RESERVED and not (up and n.upper() == n):
                s.names.add(norm(n))
                if not up:
                    s.valued.append(n)
                return n

    def fields(s, k, taken=()):
        out, seen = [], {norm(x) for x in taken}
        while len(out) < k:
            n = s.word(False)
            if norm(n) not in seen and norm(n) not in ('type', 'typ') or (norm(n) == 'type' and not seen & {'type', 'typ'}):
                seen.add(norm(n))
                out.append(n)
        return out

    def items(s, k):
        """names of values; no assignment has one of them, a specification in which one does may be refused"""
        out = s.fields(k, s.valued)
        s.taken |= {norm(n) for n in out}
        return out

    def classname(s):
        while True:
            n = s.word(True).upper()
            if norm(n) not in s.names and n not in RESERVED and len(n) > 2:
                s.names.add(norm(n))
                return n

    # ---- definitions
    def add(s, name, kind, text, **kw):
        d = dict(name=name, mod=s.mod, kind=kind, text=text, uses=s.cur or set(), **kw)
        s.defs.append(d)
        s.by[name] = d
        return d

    def use(s, d):
        if s.cur is not None:
            s.cur.add(d['name'])
        return d['name']

    def usable(s, kind):
        return [d for d in s.defs if d['kind'] == kind and d['mod'] <= s.mod]

    def value_def(s, v=None):
        r = s.r
        cur, s.cur = s.cur, set()
        if v is None:
            v = r.choice([0, 1, 2, 3, 7, 8, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1024, 65535, 65536, r.randint(-300, 300), r.randint(0, 2 ** 33)])
        t = str(v)
        same = [d for d in s.usable('value') if d['v'] == v]
        if same and r.random() < .5:
            t = s.use(r.choice(same))
        ty = 'INTEGER'
        if r.random() < .25:
            c = [d for d in s.usable('type') if d.get('t') == 'int' and d.get('lo') is not None and d['lo'] <= v <= d['hi']]
            if c:
                ty = s.use(r.choice(c))
        elif r.random() < .25 and v >= 0:
            ty = 'INTEGER (0..%d)' % max(v, min(v + r.randint(0, 5), 2 ** 64 - 1))
        n = s.fresh(False)
        d = s.add(n, 'value', '%s %s ::= %s' % (n, ty, t), v=v)
        s.cur = cur
        return d

    def num(s, v):
        """text of a number"""
        r = s.r
        if r.random() < .3:
            same = [d for d in s.usable('value') if d['v'] == v]
            if same:
                s.hit('value reference')
                return s.use(r.choice(same))
            if r.random() < .5:
                s.hit('value reference')
                return s.use(s.value_def(v))
        return str(v)

    # ---- constraints; all work on an interval [lo, hi] whose ends are known (None: unbounded)
    def bound(s, wide):
        r = s.r
        e = r.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63] if wide else [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 17])
        v = (1 << e) + r.choice([-1, 0, 0, 1])
        return -v if r.random() < .3 else v

    def interval(s, lo, hi):
        """a random interval inside lo..hi"""
        r = s.r
        for _ in range(20):
            a, b = s.bound(r.random() < s.o['wide']), s.bound(r.random() < s.o['wide'])
            if r.random() < .3:
                a = lo
            if r.random() < .2:
                b = a + r.choice([0, 1, 2, 3, 254, 255, 256, 65535, 65536])
            a, b = min(a, b), max(a, b)
            if lo <= a and b <= hi:
                return a, b
        m = min(hi, lo + r.choice([0, 1, 3, 10, 100]))
        return lo, m

    def rng(s, a, b, size=False):
        """text of the interval a..b"""
        r = s.r
        if a == b and r.random() < .7:
            return s.num(a)
        t = s.num(a)
        if r.random() < .06 and not size and a > -2 ** 63:
            t = s.num(a - 1) + '<'
            s.hit('exclusive end')
        u = s.num(b)
        if r.random() < .06 and b < 2 ** 63 - 1:
            u = '<' + s.num(b + 1)
            s.hit('exclusive end')
        return '%s%s%s' % (t, r.choice(['..', '..', ' .. ']), u)

    def setexpr(s, lo, hi, size=False, deep=2):
        """text of a set inside lo..hi"""
        r = s.r
        x = r.random()
        if x < .55:
            return s.rng(*s.interval(lo, hi), size)
        if x < .85:
            s.hit('union')
            parts = [s.rng(*s.interval(lo, hi), size) for _ in range(r.randint(2, 4))]
            if r.random() < .3 and deep:
                s.hit('nested set')
                for i in range(len(parts)):
                    if r.random() < .5:
                        parts[i] = '(%s)' % s.setexpr(lo, hi, size, deep - 1)
            return r.choice([' | ', '|', ' UNION ']).join(parts)
        s.hit('intersection')
        a, b = s.interval(lo, hi)
        p = s.rng(min(a, max(lo, a - r.randint(0, 9))), b, size)
        q = s.rng(a, max(b, min(hi, b + r.randint(0, 9))), size)
        if r.random() < .5:
            p, q = q, p
        return '%s %s %s' % (p, r.choice(['^', 'INTERSECTION']), q)

    def extend(s, t, lo, hi, size=False):
        r = s.r
        if r.random() < s.o['ext'] * .6:
            s.hit('extensible constraint')
            if r.random() < .4:
                s.hit('extension additions of a constraint')
                a, b = s.interval(lo, hi)
                return '%s, ..., %s' % (t, s.rng(a, b, size))
            return t + r.choice([', ...', ',...'])
        return t

    # ---- types; each returns text and facts
    def int_t(s):
        r = s.r
        named = ''
        if r.random() < s.o['named']:
            s.hit('named numbers')
            ns = s.items(r.randint(1, 3) if r.random() < .9 else r.randint(4, 30))
            vs = r.sample(range(0, 40), len(ns))
            named = ' { %s }' % ', '.join('%s(%d)' % x for x in zip(ns, vs))
        x = r.random()
        if x > s.o['cons']:
            return 'INTEGER' + named, dict(t='int', lo=None, hi=None)
        if named and r.random() < .6:
            a, b = sorted(r.sample(range(len(vs)), 2)) if len(vs) > 1 else (0, 0)
            a, b = sorted((a, b), key=lambda i: vs[i])
            s.hit('named number in a constraint')
            return 'INTEGER%s (%s..%s)' % (named, ns[a], ns[b]), dict(t='int', lo=vs[a], hi=vs[b])
        if r.random() < .08:
            s.hit('MIN or MAX')
            v = s.bound(False)
            w = r.random()
            if w < .5:
                return 'INTEGER%s (%s..MAX)' % (named, s.num(v)), dict(t='int', lo=None, hi=None)
            return 'INTEGER%s (MIN..%s)' % (named, s.num(v)), dict(t='int', lo=None, hi=None)
        neg = r.random() < .35
        lo, hi = (-2 ** 63, 2 ** 63 - 1) if neg else (0, 2 ** 64 - 1)
        f = dict(t='int', lo=None, hi=None)
        if r.random() < .6:
            a, b = s.interval(lo, hi)
            t = s.extend(s.rng(a, b), max(lo, a), hi)
            f.update(lo=a, hi=b, ext='...' in t)
        else:
            t = s.extend(s.setexpr(lo, hi), lo, hi)
        if f['lo'] is not None and not f.get('ext') and r.random() < .12:
            s.hit('serial constraints')
            a, b = s.interval(f['lo'], f['hi'])
            while r.random() < .4:
                s.hit('three or more serial constraints')
                t += ') (' + s.rng(a, b)
                a, b = s.interval(a, b)
            f.update(lo=a, hi=b)
            return 'INTEGER%s (%s) (%s)' % (named, t, s.extend(s.rng(a, b), a, b)), f
        ints = [d for d in s.usable('type') if d.get('t') == 'int' and d.get('lo') is not None and not d.get('ext') and d['lo'] >= lo and d['hi'] <= hi]
        if ints and r.random() < .08:
            s.hit('contained subtype')
            d = r.choice(ints)
            return 'INTEGER (%s)' % s.use(d), dict(t='int', lo=None, hi=None)
        return 'INTEGER%s (%s)' % (named, t), f

    def enum_t(s):
        r = s.r
        k = r.randint(1, 9)
        if r.random() < s.o['bigenum']:
            k = r.choice([250, 256, 257, 300])
            ns = ['item%d' % i for i in range(k)]
            s.hit('ENUMERATED of %s items' % ('more than 256' if k > 256 else 'up to 256'))
        else:
            ns = s.items(k + 3)
            if s.dummies.get('value') and r.random() < .15:
                x = r.choice(s.dummies['value'])
                if norm(x) not in {norm(y) for y in ns}:
                    ns[r.randrange(len(ns))] = x
                    s.hit('item named like a parameter')
        root, more = ns[:k], ns[k:]
        it = list(root)
        used = set()
        if r.random() < s.o['enumnum']:
            s.hit('ENUMERATED with numbers')
            p = r.choice([.3, .6, 1])
            lo = r.choice([0, 0, -5])
            pool = list(range(lo, lo + 3 * k + 3))
            r.shuffle(pool)
            pick = [i for i in range(k) if r.random() < p]
            for i in pick:
                v = pool.pop()
                used.add(v)
                it[i] = '%s(%s)' % (it[i], s.num(v) if r.random() < .5 else v)
        byparam = False
        if not used and s.dummies.get('value') and r.random() < .15:
            byparam = True
            s.hit('item numbered by a parameter')
            i = r.randrange(k)
            it[i] = '%s(%s)' % (it[i], r.choice(s.dummies['value']))
        t = ', '.join(it)
        ext = r.random() < s.o['ext']
        if ext:
            t += ', ...'
            if r.random() < .6 and more:
                m = more[:r.randint(1, 3)]
                if not byparam and r.random() < .3:
                    s.hit('ENUMERATED additions with numbers')
                    v = max(used | {k}) + k + r.randint(1, 9)
                    m = ['%s(%d)' % (x, v + 2 * i) for i, x in enumerate(m)]
                t += ', ' + ', '.join(m)
        return 'ENUMERATED { %s }' % t, dict(t='enum', items=[x for x in root if x not in s.dummies.get('value', ())] or None)

    def size(s, cap=2 ** 17):
        r = s.r
        x = r.random()
        if x > s.o['cons']:
            return '', None
        if x < .45 * s.o['cons']:
            a = r.choice([0, 1, 1, 2, 3, 5, 8, 16, 17, 32, 64, 160, 255, 256, 1000])
            b = a + r.choice([0, 0, 1, 2, 7, 31, 255, 256, 65534, 65535, 65536])
            if b > cap:
                b = a
            t = s.rng(a, b, True)
            t = s.extend(t, b, b + 100, True)
            return ' (SIZE%s(%s))' % (r.choice(['', ' ']), t), None if '...' in t else (a, b)
        t = s.extend(s.setexpr(0, r.choice([10, 300, cap]), True), 0, cap, True)
        return ' (SIZE (%s))' % t, None

    def bits_t(s):
        t, sz = s.size()
        nb = ''
        if s.r.random() < .15:
            s.hit('named bits')
            nb = ' { %s }' % ', '.join('%s(%d)' % (n, i) for i, n in enumerate(s.fields(s.r.randint(1, 4) if s.r.random() < .9 else s.r.randint(5, 40))))
        return 'BIT STRING' + nb + t, dict(t='bits', sz=sz)

    def octs_t(s):
        t, sz = s.size()
        if s.r.random() < .06:
            c = [d for d in s.usable('type')]
            if c:
                s.hit('CONTAINING')
                return 'OCTET STRING (CONTAINING %s)' % s.use(s.r.choice(c)), dict(t='octs', sz=None, contains=True)
        return 'OCTET STRING' + t, dict(t='octs', sz=sz)

    def chars_t(s):
        k = s.r.choice(STRINGS)
        t, sz = s.size()
        return k + t, dict(t=k, sz=sz)

    def bool_t(s):
        return 'BOOLEAN', dict(t='bool')

    def null_t(s):
        return 'NULL', dict(t='null')

    def default(s, ty, f):
        r = s.r
        t = f.get('t')
        if t == 'int' and f.get('lo') is not None:
            return s.num(r.choice([f['lo'], f['hi']]))
        if t == 'int':
            return None
        if t == 'enum' and f['items']:
            return r.choice(f['items'])
        return None

    def comp(s, n, depth, opt=True):
        r = s.r
        ty, f = s.any_t(depth)
        t = '%s %s' % (n, ty)
        if opt and r.random() < .35:
            if r.random() < .25:
                d = s.default(ty, f)
                if d is not None:
                    s.hit('DEFAULT')
                    return t + ' DEFAULT ' + d
            return t + ' OPTIONAL'
        return t

    def seq_t(s, depth=None):
        r = s.r
        depth = s.o['depth'] if depth is None else depth
        k = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 9])
        extra = 6
        ns = s.fields(k + extra)
        for i in range(len(ns)):
            if s.dummies.get('value') and r.random() < .1:
                x = r.choice(s.dummies['value'])
                if norm(x) not in {norm(y) for y in ns}:
                    ns[i] = x
                    s.hit('component named like a parameter')
        parts = [s.comp(n, depth - 1) for n in ns[:k]]
        ns = ns[k:]
        if r.random() < s.o['ext']:
            s.hit('extensible SEQUENCE')
            parts.append('...')
            if r.random() < .5:
                for _ in range(r.randint(1, 2)):
                    if r.random() < .5:
                        s.hit('SEQUENCE addition')
                        parts.append(s.comp(ns.pop(), depth - 1))
                    else:
                        s.hit('SEQUENCE addition group')
                        v = '%d: ' % r.randint(2, 9) if r.random() < .2 else ''
                        parts.append('[[ %s%s ]]' % (v, ', '.join(s.comp(ns.pop(), depth - 1) for _ in range(r.randint(1, 2)))))
            if r.random() < .25:
                s.hit('second extension marker')
                parts.append('...')
                if r.random() < .7:
                    s.hit('components after the second extension marker')
                    parts.append(s.comp(ns.pop(), depth - 1))
        return 'SEQUENCE { %s }' % ', '.join(parts), dict(t='seq')

    def alternatives(s, n, depth):
        """[(type, tags)] for the alternatives of a CHOICE without automatic tags: all of them different"""
        out, seen = [], set()
        for i in range(n * 4):
            if len(out) == n:
                break
            ty, f = s.any_t(depth)
            g = tags_of(f)
            if g is None or len(set(g)) != len(g) or seen & set(g):
                continue
            seen.update(g)
            out.append((ty, g))
        if not out:
            out = [('BOOLEAN', [(0, 'bool')])]
        return out

    def choice_t(s, depth=None):
        r = s.r
        depth = s.o['depth'] if depth is None else depth
        if s.tagging[s.mod] != 'AUTOMATIC':
            s.hit('CHOICE without automatic tags')
            alts = s.alternatives(r.choice([1, 2, 3, 4, 5, 8]), depth - 1)
            tags = [g for _, g in alts]
            ns = s.fields(len(alts))
            parts = ['%s %s' % (n, t) for n, (t, _) in zip(ns, alts)]
            if r.random() < s.o['ext']:
                s.hit('extensible CHOICE')
                parts.insert(r.randint(1, len(parts)), '...')
            return 'CHOICE { %s }' % ', '.join(parts), dict(t='choice', tags=[x for g in tags for x in g])
        k = r.choice([1, 1, 2, 2, 3, 4, 5, 8])
        if r.random() < .03:
            k = r.choice([70, 70, 256, 257, 300])
            s.hit('CHOICE of 70 and more')
        ns = ['alt%d' % i for i in range(k + 6)] if k > 70 else s.fields(k + 6)
        parts = [s.comp(n, depth - 1, False) for n in ns[:k]]
        ns = ns[k:]
        if r.random() < s.o['ext']:
            s.hit('extensible CHOICE')
            parts.append('...')
            if r.random() < .6:
                for _ in range(r.randint(1, 3)):
                    if r.random() < .7:
                        s.hit('CHOICE addition')
                        parts.append(s.comp(ns.pop(), depth - 1, False))
                    else:
                        s.hit('CHOICE addition group')
                        parts.append('[[ %s ]]' % ', '.join(s.comp(ns.pop(), depth - 1, False) for _ in range(r.randint(1, 2))) if len(ns) > 2 else s.comp(ns.pop(), depth - 1, False))
        return 'CHOICE { %s }' % ', '.join(parts), dict(t='choice', tags=[(2, i) for i in range(k + 1)])

    def seqof_t(s, depth=None):
        depth = s.o['depth'] if depth is None else depth
        t, sz = s.size(70000)
        t = t.strip()
        if t and s.r.random() < .2 and t.startswith('(SIZE') and False:
            t = t[1:-1]
        ty, _ = s.any_t(depth - 1)
        return 'SEQUENCE %s OF %s' % (t, ty), dict(t='seqof', sz=sz)

    def alias_t(s):
        c = s.usable('type')
        if not c:
            return s.int_t()
        d = s.r.choice(c)
        return s.use(d), {k: d[k] for k in ('t', 'lo', 'hi', 'sz', 'items', 'ext', 'tags') if k in d}

    def creff_t(s):
        """a reference with constraints of its own"""
        r = s.r
        c = [d for d in s.usable('type') if (d.get('lo') is not None and not d.get('ext')) or d.get('sz')]
        if not c:
            return s.alias_t()
        d = r.choice(c)
        s.hit('constrained reference to ' + d['t'])
        if d['t'] == 'int':
            a, b = s.interval(d['lo'], d['hi'])
            return '%s (%s)' % (s.use(d), s.rng(a, b)), dict(t='int', lo=a, hi=b)
        a, b = d['sz']
        x, y = sorted((r.randint(a, b), r.randint(a, b)))
        return '%s (SIZE(%s))' % (s.use(d), s.rng(x, y, True)), dict(t=d['t'], sz=(x, y))

    def inst_t(s):
        """an instantiation of a parameterised type"""
        c = s.usable('param')
        if not c:
            return s.alias_t()
        d = s.r.choice(c)
        a = []
        s.hit('instantiation')
        for k in d['ps']:
            if k == 'type':
                if s.dummies.get('type') and s.r.random() < .5:
                    a.append(s.r.choice(s.dummies['type']))
                    s.hit('parameter passed on')
                    continue
                t = s.usable('type')
                if not t:
                    t = [s.plain()]
                a.append(s.use(s.r.choice(t)))
            elif k == 'value':
                if s.dummies.get('value') and s.r.random() < .5:
                    a.append(s.r.choice(s.dummies['value']))
                    s.hit('parameter passed on')
                    continue
                a.append(s.num(s.r.choice([3, 4, 8, 15, 100, 255, 256, 1000])))
        return '%s {%s}' % (s.use(d), ', '.join(a)), dict(t='inst')

    def plain(s):
        cur, s.cur = s.cur, set()
        n = s.fresh(True)
        t, f = s.r.choice([s.int_t, s.bool_t, s.octs_t, s.enum_t])()
        d = s.add(n, 'type', '%s ::= %s' % (n, t), **f)
        s.cur = cur
        return d

    def any_t(s, depth):
        r = s.r
        o = s.o
        if s.dummies and r.random() < .5:
            k = r.choice(sorted(s.dummies))
            if k == 'type' and s.dummies[k]:
                s.hit('dummy type')
                return r.choice(s.dummies[k]), dict(t='dummy')
            if k == 'value' and s.dummies[k]:
                s.hit('dummy value')
                v = r.choice(s.dummies[k])
                w = r.choice(s.dummies[k])
                return r.choice(['INTEGER (0..%s)' % v, 'OCTET STRING (SIZE(1..%s))' % v, 'BIT STRING (SIZE(%s))' % v, 'INTEGER (%s)' % v, 'INTEGER (1 | %s)' % w,
                                 'SEQUENCE (SIZE(0..%s)) OF BOOLEAN' % v, 'PrintableString (SIZE(1..%s, ...))' % v, 'INTEGER (0..%s, ...)' % v]), dict(t='x')
        ks = [(k, o[k]) for k in ('int', 'enum', 'bits', 'octs', 'chars', 'bool', 'null', 'alias', 'creff')] + [('alias', 4)]
        if depth > 0:
            ks += [(k, o[k] / 2) for k in ('seq', 'choice', 'seqof')]
        if o['params'] and s.usable('param'):
            ks.append(('inst', 4))
        k = r.choices([x[0] for x in ks], [x[1] for x in ks])[0]
        f = getattr(s, k + '_t')
        return f(depth) if k in ('seq', 'choice', 'seqof') else f()

    def type_def(s, k):
        s.cur = set()
        n = s.fresh(True)
        t, f = getattr(s, k + '_t')()
        s.hit('type ' + f.get('t', '?'))
        s.add(n, 'type', '%s ::= %s' % (n, t), **f)
        s.cur = None

    def param_def(s):
        r = s.r
        s.cur = set()
        n = s.fresh(True)
        ps, decl = [], []
        s.dummies = {}
        tn = ['T', 'U', 'ElementType', 'Kind']
        vn = ['n', 'm', 'upper', 'size']
        r.shuffle(tn)
        r.shuffle(vn)
        for _ in range(r.randint(1, 3)):
            if r.random() < .5:
                x = tn.pop()
                s.dummies.setdefault('type', []).append(x)
                ps.append('type')
                decl.append(x)
            else:
                x = vn.pop()
                s.dummies.setdefault('value', []).append(x)
                ps.append('value')
                decl.append('INTEGER:%s' % x if r.random() < .7 else 'INTEGER : %s' % x)
        s.hit('parameterised type')
        t, f = r.choice([s.seq_t, s.seq_t, s.choice_t, s.seqof_t])(2)
        s.add(n, 'param', '%s {%s} ::= %s' % (n, ', '.join(decl), t), ps=ps)
        s.dummies = {}
        s.cur = None
        for _ in range(r.randint(1, 3)):
            s.cur = set()
            m = s.fresh(True)
            keep = s.defs
            d = s.by[n]
            s.mod = r.randrange(d['mod'], s.n)
            c = s.usable
            s.usable = lambda k: [d] if k == 'param' else c(k)
            t, f = s.inst_t()
            s.usable = c
            s.add(m, 'type', '%s ::= %s' % (m, t))
            s.cur = None

    # ---- information objects
    def objects_def(s):
        r = s.r
        s.hit('object class')
        s.cur = set()
        idt = s.fresh(True)
        lo, hi, ext = 0, r.choice([255, 65535, 300]), ''
        if r.random() < .25:
            s.hit('keys of another range')
            lo, hi = r.choice([(-128, 127), (-5, 5), (-40000, 40000), (-3, 255), (0, 2 ** 32 - 1), (0, 2 ** 63 - 1), (0, 2 ** 64 - 1), (1, 256), (250, 260), (70000, 70020), (-2 ** 63, 2 ** 63 - 1)])
            ext = ', ...' if r.random() < .2 else ''
        rng = ' (%d..%d%s)' % (lo, hi, ext)
        if r.random() < .06:
            s.hit('keys of an unconstrained INTEGER')
            lo, hi, rng = -2 ** 63, 2 ** 63 - 1, ''
        s.add(idt, 'type', '%s ::= INTEGER%s' % (idt, rng), t='int', lo=lo, hi=hi)
        en = s.fresh(True)
        items = s.items(3)
        s.add(en, 'type', '%s ::= ENUMERATED { %s }' % (en, ', '.join(items)), t='enum', items=items)
        cls = s.classname()
        s.cur = {idt, en}
        deflt = r.random() < .4
        opt2 = r.random() < .35
        two = opt2 or r.random() < .2
        fid, fcrit, fval, fval2, fpres = s.fieldnames()
        pres = r.random() < .4
        idt_text = idt if r.random() < .8 else 'INTEGER' + rng
        fs = ['&%s %s UNIQUE' % (fid, idt_text), '&%s %s%s' % (fcrit, en, ' DEFAULT ' + items[1] if deflt else ''), '&%s' % fval]
        if two:
            dflt2 = opt2 and r.random() < .5
            if dflt2:
                s.hit('DEFAULT of a type field')
            fs.append('&%s%s' % (fval2, ' DEFAULT ' + s.objtype() if dflt2 else ' OPTIONAL' if opt2 else ''))
        if pres:
            fs.append('&%s %s' % (fpres, en))
        order = list(range(len(fs)))
        r.shuffle(fs)
        syn = r.random() < .85
        key = {fid: r.choice(['ID', 'CODE', 'IDENTIFIED-AS']), fcrit: r.choice(['CRITICALITY', 'PRIORITY']), fval: r.choice(['TYPE', 'VALUE', 'EXTENSION OF-TYPE']),
               fval2: 'SECOND', fpres: 'PRESENCE'}
        names = [f.split()[0][1:] for f in fs]
        w = ''
        sorder = list(names)
        if syn:
            r.shuffle(sorder)
            if r.random() < .5:
                sorder = names[:]
            ps = []
            for n in sorder:
                p = '%s &%s' % (key[n], n)
                if (n == fcrit and deflt) or (n == fval2 and opt2):
                    p = '[ %s ]' % p if r.random() < .5 else '[%s]' % p
                ps.append(p)
            w = ' WITH SYNTAX { %s }' % ' '.join(ps)
        s.add(cls, 'class', '%s ::= CLASS { %s }%s' % (cls, ', '.join(fs), w))
        s.cur = None
        self = s

        def obj(v):
            vals = {fid: self.num(v) if r.random() < .4 else self.idval(idt, v), fcrit: r.choice(items), fval: self.objtype(), fval2: self.objtype(), fpres: r.choice(items)}
            ps = []
            for n in sorder:
                if n == fcrit and deflt and r.random() < .4 or n == fval2 and opt2 and r.random() < .5:
                    self.hit('optional field of an object left out')
                    continue
                ps.append('%s %s' % (key[n], vals[n]) if syn else '&%s %s' % (n, vals[n]))
            return '{ %s }' % (' ' if syn else ', ').join(ps)

        allsets = []
        base = s.mod
        for si in range(r.randint(1, 3)):
            s.mod = r.randrange(base, s.n)
            ids = r.choice([0, 1, 2, 3, 5, 8])
            if hi - lo < 70000:
                ids = r.sample(range(lo, hi + 1), ids)
            else:
                edges = [lo, lo + 1, hi, hi - 1, 0, 1, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 40 + 5, -1, -128, -129, -32769]
                ids = [x for x in {r.choice([r.choice(edges), r.randint(lo, hi)]) for _ in range(ids)} if lo <= x <= hi]
            els, keys = [], list(ids)
            s.cur = set()
            for v in ids:
                if r.random() < .25:
                    cur, s.cur = s.cur, {cls}
                    on = s.fresh(False)
                    t = obj(v)
                    s.add(on, 'object', '%s %s ::= %s' % (on, cls, t))
                    s.cur = cur
                    s.cur.add(on)
                    els.append(on)
                    s.hit('object reference')
                else:
                    els.append(obj(v))
            s.cur.add(cls)
            if allsets and r.random() < .4:
                o = r.choice(allsets)
                if not (set(o[1]) & set(keys)) and s.by[o[0]]['mod'] <= s.mod:
                    s.cur.add(o[0])
                    els.insert(r.randint(0, len(els)), o[0])
                    keys += o[1]
                    s.hit('object set in an object set')
            t = ' | '.join(els)
            if r.random() < .6 or not els:
                k = r.randint(0, len(els))
                s.hit('extensible object set')
                if k and k < len(els):
                    t = '%s, ..., %s' % (' | '.join(els[:k]), ' | '.join(els[k:]))
                elif els:
                    t = t + ', ...'
                else:
                    t = '...'
                    s.hit('empty object set')
            sn = s.fresh(True)
            s.add(sn, 'oset', '%s %s ::= { %s }' % (sn, cls, t))
            s.cur = None
            allsets.append((sn, keys))
        # uses
        fn = {fid: None, fcrit: None, fval: None, fval2: None}
        for f, n in zip(fn, s.fields(4)):
            fn[f] = n
        if r.random() < .5:
            fn[fid], fn[fcrit], fn[fval] = 'id', 'criticality', 'value'
            if fn[fval2] in ('id', 'criticality', 'value'):
                fn[fval2] = 'second'
        def body(sref):
            o = [fn[fid] + ' %s.&%s ({%s})' % (cls, fid, sref), fn[fcrit] + ' %s.&%s ({%s}{@%s})' % (cls, fcrit, sref, fn[fid]),
                 fn[fval] + ' %s.&%s ({%s}{@%s})' % (cls, fval, sref, fn[fid])]
            if two and r.random() < .6:
                o.append(fn[fval2] + ' %s.&%s ({%s}{@%s})%s' % (cls, fval2, sref, fn[fid], ' OPTIONAL' if r.random() < .5 else ''))
            if r.random() < .2:
                del o[1]
            x = r.random()
            if x < .2:
                # A second pair, which has its own key.
                s.hit('two keys in one SEQUENCE')
                k, v = s.nextnames(list(fn.values()), 2)
                o += ['%s %s.&%s ({%s})' % (k, cls, fid, sref), '%s %s.&%s ({%s}{@%s})' % (v, cls, fval, sref, k)]
            elif x < .3:
                s.hit('OPTIONAL key')
                k, = s.nextnames(list(fn.values()), 1)
                o.append('%s %s.&%s ({%s}) OPTIONAL' % (k, cls, fid, sref))
            elif x < .4 and not o[-1].endswith('OPTIONAL'):
                s.hit('OPTIONAL open type')
                o[-1] += ' OPTIONAL'
            e = r.random()
            return 'SEQUENCE { %s }' % ', '.join(o + (['...'] if e < .3 else []))

        pn = None
        if r.random() < .6:
            s.mod = base
            s.cur = {cls}
            pn = s.fresh(True)
            s.hit('parameterised by an object set')
            b = body('IEsSetParam')
            if r.random() < .4:
                b = 'SEQUENCE (SIZE(%s..%s)) OF %s' % (s.num(r.randint(0, 1)), s.num(r.choice([4, 256, 65535])), b)
            s.add(pn, 'oparam', '%s {%s:IEsSetParam} ::= %s' % (pn, cls, b))
            s.cur = None
        for sn, _ in allsets:
            for _ in range(r.randint(1, 2)):
                s.mod = r.randrange(s.by[sn]['mod'], s.n)
                s.cur = {cls, sn}
                n = s.fresh(True)
                if pn and r.random() < .7:
                    s.cur.add(pn)
                    t = '%s {{%s}}' % (pn, sn)
                    x = r.random()
                    if x < .3:
                        t = 'SEQUENCE { %s %s%s, ... }' % (s.fields(1)[0], t, r.choice(['', ' OPTIONAL']))
                    elif x < .45:
                        t = 'SEQUENCE (SIZE(1..4)) OF ' + t
                else:
                    t = body(sn)
                s.add(n, 'type', '%s ::= %s' % (n, t), t='oseq')
                s.cur = None

    def nextnames(s, used, k):
        return [n for n in ['id2', 'value2', 'otherKey', 'otherValue'] if n not in used][:k]

    def fieldnames(s):
        r = s.r
        return r.choice(['id', 'procedureCode', 'key']), r.choice(['criticality', 'prio']), r.choice(['Value', 'Type', 'Extension']), r.choice(['Second', 'Outcome']), 'presence'

    def idval(s, idt, v):
        c = [d for d in s.usable('value') if d['v'] == v]
        if c:
            return s.use(s.r.choice(c))
        cur, s.cur = s.cur, {idt}
        n = 'id-' + s.fresh(True)
        while norm(n) in s.names or norm(n) in s.taken:
            n = 'id-' + s.fresh(True)
        s.names.add(norm(n))
        s.valued.append(n)
        d = s.add(n, 'value', '%s %s ::= %d' % (n, idt, v), v=v)
        s.cur = cur
        return s.use(d)

    def objtype(s):
        r = s.r
        if r.random() < .25:
            s.hit('builtin type in an object')
            return r.choice([s.int_t, s.octs_t, s.bool_t, s.bits_t])()[0]
        c = s.usable('type')
        return s.use(r.choice(c) if c else s.plain())

    # ---- text
    def order(s, rng=None):
        ds = {i: [d for d in s.defs if d['mod'] == i] for i in range(s.n)}
        if rng:
            for l in ds.values():
                rng.shuffle(l)
        return ds

    def modules(s, rng=None):
        """[(name, text)] in some order; rng permutes the assignments"""
        out = []
        ds = s.order(rng)
        for i, m in enumerate(s.mods):
            imp = {}
            for d in ds[i]:
                for u in d['uses']:
                    if s.by[u]['mod'] != i:
                        imp.setdefault(s.by[u]['mod'], set()).add(u)
            t = '%s DEFINITIONS %s::= BEGIN\n' % (m, s.tagging[i] and s.tagging[i] + ' TAGS ')
            if imp:
                t += 'IMPORTS\n'
                ks = sorted(imp)
                if rng:
                    rng.shuffle(ks)
                for k in ks:
                    us = sorted(imp[k])
                    if rng:
                        rng.shuffle(us)
                    us = [u + '{}' if s.by[u]['kind'] in ('param', 'oparam') and (rng or s.r).random() < .5 else u for u in us]
                    t += '  %s\n  FROM %s\n' % (', '.join(us), s.mods[k])
                t += ';\n'
            for d in ds[i]:
                t += d['text'] + '\n'
            t += 'END\n'
            out.append((m, t))
        return out

    def texts(s):
        """the files"""
        ms = s.modules(s.r)
        r = s.r
        r.shuffle(ms)
        if r.random() < .3:
            return ['\n'.join(t for _, t in ms)]
        return [t for _, t in ms]


TOK = re.compile(r'"[^"]*"|\'[^\']*\'[BH]|--(?:(?!--)[^\n\r\v\f])*(?:--)?|::=|\.\.\.|\.\.|\[\[|\]\]|@(?:-?[.A-Za-z0-9])+|&[A-Za-z](?:-?[A-Za-z0-9])*|[A-Za-z](?:-?[A-Za-z0-9])*|-?[0-9]+|\S')


def relayout(text, rng):
    """the same tokens with other white space and comments"""
    toks = [t for t in TOK.findall(text) if not t.startswith('--')]
    style = rng.choice(['spaces', 'lines', 'crlf', 'tabs', 'mixed', 'comments', 'tight'])
    o = []
    ind = 0
    for i, t in enumerate(toks):
        o.append(t)
        if t == '{':
            ind += 1
        if t == '}':
            ind = max(0, ind - 1)
        n = toks[i + 1] if i + 1 < len(toks) else ''
        need = (t[-1].isalnum() or t[-1] == '-') and n and (n[0].isalnum() or n[0] in '-&.@') or t[-1] in '.<' and n[:1] in '.<-' or t == '-' or (n and t[-1] == n[0] and t[-1] in '[]-.:')
        if t[-1].isalnum() and n == '..' and not t[-1].isdigit():
            need = False
        if t.startswith('&') or t == '.':
            need = need if t != '.' else False
        if n == '.' or t == '.':
            sep = rng.choice(['', '', ' ', '\n', '--x--']) if style != 'tight' else ''
        elif style == 'tight':
            sep = ' ' if need else ''
        elif style == 'spaces':
            sep = ' ' * rng.randint(1, 4)
        elif style == 'tabs':
            sep = '\t' * rng.randint(1, 3)
        elif style == 'lines':
            sep = '\n' * rng.randint(1, 2)
        elif style == 'crlf':
            sep = rng.choice([' ', '\r\n', '\r\n\r\n', ' \r\n\t', ' -- a comment\r\n'])
        elif style == 'comments':
            sep = rng.choice([' ', ' ', '\n', ' -- a comment, { not ::= code } \n', ' -- inline -- ', '\n--\n', ' ---- ', '\n-- x - y\n', ' -- to the end of the line\r', ' --\v', ' -- x\f', '-- END\n', '--x--', '----', '--a -b\n', '---b--'])
        else:
            sep = rng.choice([' ', '  ', '\n', '\t', '\n    ', ' \n', '\n\n'])
        o.append(sep)
    return ''.join(o) + rng.choice(['', '\n', '\n\n', ' '])
