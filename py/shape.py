"""Compare generated Rust items with the model of the specification they were generated from."""
import re
import rsitems
from rsitems import norm

# attributes expected for one kind of type
TNAME = {'bits': 'BITSTRING', 'octs': 'OCTET-STRING', 'utf8': 'UTF8String', 'visible': 'VisibleString', 'printable': 'PrintableString',
         'seqof': 'SEQUENCE-OF', 'int': 'INTEGER', 'enum': 'ENUMERATED', 'bool': 'BOOLEAN', 'null': 'NULL', 'seq': 'SEQUENCE', 'choice': 'CHOICE',
         'open': 'OPEN'}
WIDTH = {'u8': (0, 2**8 - 1), 'i8': (-2**7, 2**7 - 1), 'u16': (0, 2**16 - 1), 'i16': (-2**15, 2**15 - 1), 'u32': (0, 2**32 - 1),
         'i32': (-2**31, 2**31 - 1), 'u64': (0, 2**64 - 1), 'i64': (-2**63, 2**63 - 1), 'u128': (0, 2**128 - 1), 'i128': (-2**127, 2**127 - 1)}


def ident(n):
    """the Rust name of a type assignment"""
    return (n[0].upper() + n[1:]).replace('-', '_').replace(' ', '_')


class Cmp:
    """diffs: (class, path, message); class is one of structure, constraint, width, enum, objects"""

    def __init__(s, items, schema):
        s.schema = schema
        s.diffs = []
        s.seen = set()
        s.compared = {}
        s.by, s.consts = {}, {}
        for it in items:
            if it.kind == 'impl':
                s.consts.setdefault(it.name, {}).update(it.consts)
            elif it.name in s.by:
                s.diff('structure', it.name, 'the type %s is generated twice' % it.name)
            else:
                s.by[it.name] = it

    def diff(s, cl, path, msg):
        if len(s.diffs) < 200:
            s.diffs.append((cl, path, msg))

    def count(s, k):
        s.compared[k] = s.compared.get(k, 0) + 1

    def top(s, name):
        """a name that Rust does not allow (Self), or that hides one the generated code needs, carries a suffix"""
        n = ident(name)
        return n + '_' if n not in s.by and n + '_' in s.by else n

    def run(s):
        for d in s.schema:
            n = s.top(d['name'])
            it = s.by.get(n)
            if it is None:
                s.diff('structure', d['name'], 'no type %s is generated' % n)
                continue
            s.item(d['ty'], n, d['name'], top=True)
        # nothing may be there that no assignment asks for
        for n, it in s.by.items():
            if n not in s.seen and it.kind != 'const':
                s.diff('structure', n, 'the generated type %s belongs to no type of the specification' % n)
        return s.diffs

    def item(s, node, rust, path, top=False):
        k = node['k']
        if k == 'ref' and not top:
            want = s.top(s.schema[node['i']]['name'])
            s.count('reference')
            if rust != want:
                s.diff('structure', path, 'refers to %s, not %s' % (rust, want))
            return
        it = s.by.get(rust)
        if it is None:
            s.diff('structure', path, 'the type %s is not there' % rust)
            return
        s.seen.add(rust)
        if it.kind == 'alias':
            if k == 'ref':
                return s.item(node, it.inner, path)
            return s.item(node, it.inner, path)
        if k == 'ref':
            s.diff('structure', path, '%s is no alias of %s' % (rust, s.schema[node['i']]['name']))
            return
        if k == 'unsupported':
            s.reach(rust)
            return
        s.count(k)
        a = it.attr
        if a.get('type') != TNAME[k]:
            s.diff('structure', path, '%s has type %s where %s is specified' % (rust, a.get('type'), TNAME[k]))
            return
        getattr(s, 't_' + k)(node, it, a, path)

    def reach(s, rust):
        """mark everything below as seen"""
        it = s.by.get(rust)
        if it is None or (rust, 'r') in s.seen:
            return
        s.seen.add((rust, 'r'))
        s.seen.add(rust)
        ts = [it.inner] if it.inner else [t for _, t, _ in it.fields or [] if t]
        for t in ts:
            for w in re.findall(r'[A-Za-z_]\w*', t):
                s.reach(w)

    def flag(s, a, k):
        v = a.get(k, 'false')
        return v == 'true'

    def kind(s, it, want, path):
        if it.kind != want:
            s.diff('structure', path, '%s is a %s, not a %s' % (it.name, it.kind, want))
            return False
        return True

    def inner(s, it, want, path, cl='structure'):
        if s.kind(it, 'tuple', path) and it.inner != want:
            s.diff(cl, path, '%s holds %s, not %s' % (it.name, it.inner, want))

    def bounds(s, a, lb, ub, ext, path, keys, what, cl='constraint'):
        kl, ku, ke = keys
        want = (None if lb is None else str(lb), None if ub is None else str(ub), bool(ext))
        got = (a.get(kl), a.get(ku), s.flag(a, ke))
        if want != got:
            s.diff(cl, path, '%s: bounds %s are generated where %s are specified' % (what, got, want))

    def size(s, n, a, path):
        s.bounds(a, n.get('lb'), n.get('ub'), n.get('ext'), path, ('sz_lb', 'sz_ub', 'sz_extensible'), 'SIZE')

    def t_bool(s, n, it, a, path):
        s.inner(it, 'bool', path)

    def t_null(s, n, it, a, path):
        s.kind(it, 'unit', path)

    def t_int(s, n, it, a, path):
        s.bounds(a, n['lb'], n['ub'], n['ext'], path, ('lb', 'ub', 'extensible'), 'INTEGER')
        if not s.kind(it, 'tuple', path):
            return
        if it.inner not in WIDTH:
            return s.diff('width', path, '%s holds %s' % (it.name, it.inner))
        lo, hi = WIDTH[it.inner]
        if n['lb'] is not None and n['lb'] < lo or n['ub'] is not None and n['ub'] > hi:
            s.diff('width', path, '%s cannot hold %s..%s' % (it.inner, n['lb'], n['ub']))
        if n['lb'] is None and lo >= 0:
            s.diff('width', path, '%s for an INTEGER without lower bound' % it.inner)
        if (n['lb'] is None or n['ub'] is None) and hi < 2**63 - 1:
            s.diff('width', path, '%s for an unbounded INTEGER' % it.inner)
        if 'adds' in n:
            a, b = n['adds']
            if (lo >= 0 if a is None else a < lo) or (2**63 - 1 if b is None else b) > hi:
                s.diff('width', path, '%s cannot hold %s..%s, values after the marker' % (it.inner, a, b))

    def t_enum(s, n, it, a, path):
        s.bounds(a, 0, n['n'] - 1, n['ext'], path, ('lb', 'ub', 'extensible'), 'ENUMERATED', 'enum')
        if s.kind(it, 'tuple', path):
            lo, hi = WIDTH.get(it.inner, (0, -1))
            if lo > 0 or hi < n['n'] - 1:
                s.diff('enum', path, '%s cannot hold %d items' % (it.inner, n['n']))
        if 'names' in n:
            got = {}
            for k, v in s.consts.get(it.name, {}).items():
                got.setdefault(v, []).append(norm(k))
            for i, nm in enumerate(n['names']):
                if norm(nm) not in got.get(i, []):
                    s.diff('enum', path, '%s: item %s has index %d; the constants of the type are %s' % (it.name, nm, i, dict(list(s.consts.get(it.name, {}).items())[:6])))
                    break
            extra = [k for k, v in s.consts.get(it.name, {}).items() if not any(norm(k) == norm(x) for x in n['names'])]
            if extra and not n['ext']:
                s.diff('enum', path, '%s: constants %s belong to no item' % (it.name, extra[:4]))

    def t_bits(s, n, it, a, path):
        s.inner(it, 'BitVec<u8,Msb0>', path)
        s.size(n, a, path)

    def t_octs(s, n, it, a, path):
        s.inner(it, 'Vec<u8>', path)
        s.size(n, a, path)

    def t_str(s, n, it, a, path):
        s.inner(it, 'String', path)
        s.size(n, a, path)

    t_utf8 = t_visible = t_printable = t_str

    def t_seqof(s, n, it, a, path):
        s.size(n, a, path)
        if s.kind(it, 'tuple', path):
            m = re.match(r'^Vec<(\w+)>$', it.inner)
            if not m:
                return s.diff('structure', path, '%s holds %s' % (it.name, it.inner))
            s.item(n['of'], m.group(1), path + '[]')

    def t_seq(s, n, it, a, path):
        if s.flag(a, 'extensible') != bool(n['ext']):
            s.diff('structure', path, 'extensible = %s where the specification says %s' % (a.get('extensible'), n['ext']))
        if not s.kind(it, 'struct', path):
            return
        want = [norm(f['name']) for f in n['fields']]
        got = [norm(f) for f, _, _ in it.fields]
        if [w for w in want] != got:
            return s.diff('objects' if any(f['ty']['k'] == 'open' for f in n['fields']) else 'structure', path, '%s: components %s are generated where %s are specified' % (it.name, got, want))
        no = 0
        for f, (rn, rt, ra) in zip(n['fields'], it.fields):
            p = path + '.' + f['name']
            t = rsitems.opt_inner(rt)
            if (t is not None) != bool(f['opt']):
                s.diff('structure', p, '%s: %s is %sOption' % (it.name, rn, '' if t else 'not '))
            if t is not None:
                if ra.get('optional_idx') != str(no):
                    s.diff('structure', p, '%s: optional_idx %s where %d is due' % (rn, ra.get('optional_idx'), no))
            if f['opt']:
                no += 1
            if (ra.get('key_field') == 'true') != f['key']:
                s.diff('objects', p, '%s: key_field = %s' % (rn, ra.get('key_field')))
            s.item(f['ty'], t or rt, p)
        if a.get('optional_fields', '0') != str(no):
            s.diff('structure', path, 'optional_fields = %s where %d is due' % (a.get('optional_fields'), no))

    def t_choice(s, n, it, a, path):
        s.bounds(a, 0, len(n['alts']) - 1, n['ext'], path, ('lb', 'ub', 'extensible'), 'CHOICE', 'structure')
        if not s.kind(it, 'enum', path):
            return
        want = [(norm(x['name']), i, 'false') for i, x in enumerate(n['alts'])] + [(norm(x['name']), i, 'true') for i, x in enumerate(n['xalts'])]
        got = [(norm(v), int(va['key']), va.get('extended')) for v, _, va in it.fields]
        if want != got:
            for w, g in zip(want + [None], got + [None]):
                if w != g:
                    break
            return s.diff('structure', path, '%s: alternative %s is generated where %s is specified' % (it.name, g, w))
        for x, (v, t, _) in zip(n['alts'] + n['xalts'], it.fields):
            s.item(x['ty'], t, path + '.' + x['name'])

    def t_open(s, n, it, a, path):
        if not s.kind(it, 'enum', path):
            return
        want = {x['key']: x for x in n['alts']}
        got = {}
        for v, t, va in it.fields:
            k = int(re.match(r'-?\d+', va['key']).group(0))
            if k in got:
                s.diff('objects', path, '%s: key %d twice' % (it.name, k))
            got[k] = (v, t)
        for k in sorted(set(want) | set(got)):
            if k not in got:
                s.diff('objects', path, '%s: no variant for key %d (%s)' % (it.name, k, want[k]['name']))
            elif k not in want:
                s.diff('objects', path, '%s: variant %s for key %d, which the object set has not' % (it.name, got[k][0], k))
            else:
                s.item(want[k]['ty'], got[k][1], '%s{%d}' % (path, k))


def compare(items, schema):
    c = Cmp(items, schema)
    c.run()
    return c


def canon(items):
    """The generated types with the helper types spelled out where they are used, so that the names of helpers do not matter.
    A type some other generated type mentions under a helper's name (UPPER_CASE or CamelCase with a number) is a helper."""
    by, consts = {}, {}
    for it in items:
        if it.kind == 'impl':
            consts.setdefault(it.name, {}).update(it.consts)
        else:
            by[it.name] = it

    def text(name, tops, depth=0):
        it = by[name]
        if depth > 300:
            return '...'

        def sub(t):
            return re.sub(r'[A-Za-z_]\w*', lambda m: m.group(0) if m.group(0) not in by or m.group(0) in tops else '(' + text(m.group(0), tops, depth + 1) + ')', t or '')
        fs = ['%s:%s%s' % (f, sub(t), sorted(a.items())) for f, t, a in it.fields or []]
        if it.attr.get('type') == 'OPEN':
            fs.sort()
        return '%s %s %s {%s} %s %s' % (it.kind, sorted(it.attr.items()), sub(it.inner), ' '.join(fs), sorted(consts.get(name, {}).items()), sorted(getattr(it, "derive", None) or []))
    return by, text
