"""Random types in the form the code generator emits (derive attributes), with their model."""
import random
import rsitems


class G:
    def __init__(g, seed, n):
        g.r = random.Random(seed)
        g.defs = []      # (rust name, model type, rust text)
        g.tops = []
        g.seen = []      # (index, zero width?, kind)
        kinds = (['seq'] * 5 + ['choice'] * 4 + ['seqof'] * 4 + ['keyed'] * 4 + ['enum', 'int', 'octs', 'bits', 'str'])
        for i in range(n):
            g.tops.append(g.ty(kinds[i % len(kinds)], g.r.choice([1, 2, 2, 3])))
        # wide ones: bitmaps and indices of more than one octet
        g.tops.append(g.seq(1, nf=g.r.choice([65, 70, 80]), optp=1.0))
        g.tops.append(g.seq(1, nf=g.r.choice([17, 33, 64]), optp=0.8))
        g.tops.append(g.seq(1, nf=g.r.choice([127, 128, 129]), optp=1.0))
        g.tops.append(g.seq(1, nf=g.r.choice([130, 200, 257]), optp=1.0))
        for n in (g.r.choice([255, 256]), 257, g.r.choice([63, 64, 65])):
            g.tops.append(g.choice(1, na=n))

    def add(g, ty, text, zero, alias=True):
        i = len(g.defs)
        name = 'T%d' % i
        g.defs.append((name, ty, text.replace('@', name)))
        g.seen.append((i, zero))
        if alias and g.r.random() < 0.05:
            j = len(g.defs)
            g.defs.append(('T%d' % j, {'k': 'ref', 'i': i}, 'pub type T%d = %s;' % (j, name)))
            g.seen.append((j, zero))
            return j
        return i

    def ref(g, i):
        return {'k': 'ref', 'i': i}

    def ty(g, kind, depth):
        return getattr(g, kind)(depth)

    def any(g, depth, nonzero=False):
        r = g.r
        if g.seen and r.random() < 0.25:
            # reuse only small recent ones: no exponential growth of values
            c = [(i, z) for i, z in g.seen[-40:] if g.small(i)]
            if c:
                i, z = r.choice(c)
                if not (z and nonzero):
                    return i
        if depth <= 0:
            k = r.choice(['bool', 'null', 'int', 'int', 'int', 'enum', 'octs', 'bits', 'str'])
        else:
            k = r.choice(['bool', 'null', 'int', 'int', 'enum', 'octs', 'bits', 'str', 'seq', 'seq', 'choice', 'choice', 'seqof', 'keyed'])
        i = g.ty(k, depth - 1)
        if nonzero and g.zero(i):
            return g.any(depth, nonzero)
        return i

    def zero(g, i):
        return g.seen[i][1]

    def small(g, i):
        t = g.defs[i][1]
        return t['k'] in ('bool', 'null', 'int', 'enum', 'octs', 'bits', 'visible', 'printable', 'utf8')

    # ---- leaves
    def bool(g, d):
        return g.add({'k': 'bool'}, '#[asn(type = "BOOLEAN")]\npub struct @(pub bool);', False)

    def null(g, d):
        return g.add({'k': 'null'}, '#[asn(type = "NULL")]\npub struct @;', True)

    def int(g, d):
        r = g.r
        edge = lambda: r.choice([0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 65537, 2**24, 2**31, 2**32 - 1, 2**32, 2**40, 2**63 - 1, r.randrange(1, 1 << r.randrange(1, 63))])
        form = r.choice(['con', 'con', 'con', 'con', 'semi', 'free', 'ubonly'])
        lb = ub = None
        if form == 'con':
            lb = r.choice([0, 0, 0, 1, -1, -128, -129, -edge(), edge() // 2])
            ub = min(lb + edge(), 2**63 - 1)
            lb = max(lb, -2**63)
        elif form == 'semi':
            lb = r.choice([0, 1, -1, -edge(), edge() // 2])
        elif form == 'ubonly':
            ub = r.choice([0, 1, -1, -edge(), edge()])
        ext = form in ('con', 'semi') and r.random() < 0.2
        if form == 'con' and not ext:
            for w, a, b in (('u8', 0, 2**8 - 1), ('i8', -2**7, 2**7 - 1), ('u16', 0, 2**16 - 1), ('i16', -2**15, 2**15 - 1),
                            ('u32', 0, 2**32 - 1), ('i32', -2**31, 2**31 - 1), ('u64', 0, 2**64 - 1), ('i64', -2**63, 2**63 - 1)):
                if a <= lb and ub <= b:
                    break
        else:
            # what the type cannot hold is no value of it
            w, a, b = 'i128', -2**127, 2**127 - 1
        attr = ['type = "INTEGER"']
        if lb is not None:
            attr.append('lb = "%d"' % lb)
        if ub is not None:
            attr.append('ub = "%d"' % ub)
        if ext:
            attr.append('extensible = true')
        return g.add({'k': 'int', 'lb': lb, 'ub': ub, 'ext': ext}, '#[asn(%s)]\npub struct @(pub %s);' % (', '.join(attr), w), lb is not None and lb == ub and not ext)

    def enum(g, d, n=None):
        r = g.r
        n = n or r.choice([1, 2, 3, 4, 5, 8, 9, 16, 17, 64, 100, 200, 255, 256])
        ext = r.random() < 0.4
        return g.add({'k': 'enum', 'n': n, 'ext': ext}, '#[asn(type = "ENUMERATED", %slb = "0", ub = "%d")]\npub struct @(pub u8);' % ('extensible = true, ' if ext else '', n - 1), n == 1 and not ext)

    def size(g, ext=True, big=True):
        r = g.r
        x = r.random()
        if x < 0.25:
            return {}, ''
        e = lambda: r.choice([0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256, 257] + ([300, 65535, 65536, 65537] if big else []))
        if x < 0.5:
            lb = ub = r.choice([0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 32, 33, 160])
        elif x < 0.9:
            lb = r.choice([0, 0, 1, 1, 2, 3, 17])
            ub = lb + e()
        else:
            lb, ub = r.choice([0, 1, 2, 20]), None
        ex = ext and r.random() < 0.3
        a = ', sz_extensible = %s, sz_lb = "%d"' % ('true' if ex else 'false', lb)
        if ub is not None:
            a += ', sz_ub = "%d"' % ub
        return {'lb': lb, 'ub': ub, 'ext': ex}, a

    def octs(g, d):
        s, a = g.size()
        return g.add(dict(k='octs', **s), '#[asn(type = "OCTET-STRING"%s)]\npub struct @(pub Vec<u8>);' % a, s.get('ub') == 0 and not s.get('ext'))

    def bits(g, d):
        s, a = g.size()
        return g.add(dict(k='bits', **s), '#[asn(type = "BITSTRING"%s)]\npub struct @(pub BitVec<u8, Msb0>);' % a, s.get('ub') == 0 and not s.get('ext'))

    def str(g, d):
        s, a = g.size()
        k, n = g.r.choice([('visible', 'VisibleString'), ('printable', 'PrintableString'), ('utf8', 'UTF8String')])
        return g.add(dict(k=k, **s), '#[asn(type = "%s"%s)]\npub struct @(pub String);' % (n, a), s.get('ub') == 0 and not s.get('ext'))

    # ---- containers
    def seq(g, d, nf=None, optp=None, pre=None):
        r = g.r
        nf = r.choice([0, 1, 2, 3, 4, 5, 8, 12]) if nf is None else nf
        optp = r.choice([0.0, 0.4, 0.4, 1.0]) if optp is None else optp
        ext = r.random() < 0.5
        fields, lines, no, zero = [], [], 0, not ext
        for i in range(nf):
            t = g.any(d if nf < 20 else 0)
            opt = r.random() < optp
            f = 'f%d' % i
            if opt:
                lines.append('    #[asn(optional_idx = %d)]\n    pub %s: Option<T%d>,' % (no, f, t))
                no += 1
                zero = False
            else:
                lines.append('    pub %s: T%d,' % (f, t))
                zero = zero and g.zero(t)
            fields.append({'name': f, 'ty': g.ref(t), 'opt': opt, 'key': False})
        return g.mkseq(ext, fields, lines, no, zero)

    def mkseq(g, ext, fields, lines, no, zero):
        a = '#[asn(type = "SEQUENCE", extensible = %s%s)]' % ('true' if ext else 'false', ', optional_fields = %d' % no if no else '')
        return g.add({'k': 'seq', 'ext': ext, 'fields': fields}, a + '\npub struct @ {\n%s\n}' % '\n'.join(lines), zero)

    def choice(g, d, na=None):
        r = g.r
        na = r.choice([1, 2, 2, 3, 4, 5, 8, 9]) if na is None else na
        ext = r.random() < 0.5
        alts, lines, zs, xs = [], [], [], []
        few = [g.any(0) for _ in range(4)] if na > 20 else None
        for i in range(na):
            t = r.choice(few) if few else g.any(d)
            alts.append({'name': 'A%d' % i, 'ty': g.ref(t)})
            zs.append(g.zero(t))
            lines.append('    #[asn(key = %d, extended = false)]\n    A%d(T%d),' % (i, i, t))
        if ext:
            for i in range(r.choice([0, 0, 1, 3])):
                t = g.any(0)
                xs.append({'name': 'X%d' % i, 'ty': g.ref(t)})
                lines.append('    #[asn(key = %d, extended = true)]\n    X%d(T%d),' % (i, i, t))
        a = '#[asn(type = "CHOICE", lb = "0", ub = "%d", extensible = %s)]' % (na - 1, 'true' if ext else 'false')
        return g.add({'k': 'choice', 'ext': ext, 'alts': alts, 'xalts': xs}, a + '\npub enum @ {\n%s\n}' % '\n'.join(lines), na == 1 and not ext and zs[0])

    def seqof(g, d):
        r = g.r
        s, a = g.size()
        z = not s or s.get('ub') is None or s['ub'] > 64 or s.get('ext')
        t = g.any(d, nonzero=z)
        return g.add(dict(k='seqof', of=g.ref(t), **s), '#[asn(type = "SEQUENCE-OF"%s)]\npub struct @(pub Vec<T%d>);' % (a, t),
                     (s.get('ub') == 0 and not s.get('ext')) or (g.zero(t) and s and s.get('lb') == s.get('ub') and not s.get('ext')))

    def keyed(g, d):
        """SEQUENCE { key, (others), open types selected by the key }"""
        r = g.r
        if r.random() < 0.7:
            hi = r.choice([255, 65535, 65535, 100, 1000, 1000000, 2**32 - 1, 2**40])
            lb = r.choice([0, 0, 0, 1, -100])
            w = [w for w, a, b in (('u8', 0, 2**8 - 1), ('i16', -2**15, 2**15 - 1), ('u16', 0, 2**16 - 1), ('i32', -2**31, 2**31 - 1), ('u32', 0, 2**32 - 1), ('i64', -2**63, 2**63 - 1)) if a <= lb and hi <= b][0]
            kt = g.add({'k': 'int', 'lb': lb, 'ub': hi, 'ext': False}, '#[asn(type = "INTEGER", lb = "%d", ub = "%d")]\npub struct @(pub %s);' % (lb, hi, w), False, alias=False)
            keys = set(r.sample(range(max(lb, 0), hi + 1), r.choice([1, 2, 3, 6])))
            # keys that some narrower number would confuse
            k = min(keys)
            keys |= {x for x in (k % 256, k % 65536, k % 2**32, k + 256, k + 2**16, k + 2**32) if max(lb, 0) <= x <= hi and r.random() < 0.3}
            keys = sorted(keys)
            r.shuffle(keys)
        else:
            n = r.choice([3, 7, 20])
            kt = g.add({'k': 'enum', 'n': n, 'ext': False}, '#[asn(type = "ENUMERATED", lb = "0", ub = "%d")]\npub struct @(pub u8);' % (n - 1), False, alias=False)
            keys = r.sample(range(n), r.choice([1, 2, 3]))
        fields = [{'name': 'key', 'ty': g.ref(kt), 'opt': False, 'key': True}]
        lines = ['    #[asn(key_field = true)]\n    pub key: T%d,' % kt]
        no, nopen = 0, 0
        for i in range(r.choice([1, 2, 2, 3, 4])):
            f = 'f%d' % i
            opt = r.random() < 0.25
            if nopen == 0 and i or r.random() < 0.4 or (i == 0 and r.random() < 0.3):
                alts = [(k, g.any(max(d, 1 if r.random() < 0.4 else 0))) for k in keys]
                t = g.add({'k': 'open', 'alts': [{'key': k, 'name': 'V%d' % k, 'ty': g.ref(x)} for k, x in alts]},
                          '#[asn(type = "OPEN")]\npub enum @ {\n%s\n}' % '\n'.join('    #[asn(key = %d)]\n    V%d(T%d),' % (k, k, x) for k, x in alts), False, alias=False)
                nopen += 1
            else:
                t = g.any(d)
            if opt:
                lines.append('    #[asn(optional_idx = %d)]\n    pub %s: Option<T%d>,' % (no, f, t))
                no += 1
            else:
                lines.append('    pub %s: T%d,' % (f, t))
            fields.append({'name': f, 'ty': g.ref(t), 'opt': opt, 'key': False})
        return g.mkseq(r.random() < 0.3, fields, lines, no, False)

    def source(g):
        return '\n'.join((t if t.startswith('pub type') else '#[derive(Debug, AperCodec)]\n' + t) for _, _, t in g.defs) + '\n'

    def schema(g):
        return [{'name': n, 'ty': t} for n, t, _ in g.defs]


if __name__ == '__main__':
    import sys
    g = G(int(sys.argv[1]), int(sys.argv[2]))
    print(len(g.defs), len(g.tops), len(g.source()))
    print(len(rsitems.reflect(rsitems.parse(g.source()))))
