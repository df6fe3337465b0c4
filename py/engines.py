"""The engines: each builds what it needs from /repo's working tree and adds to the observations."""
import os, random, re, shutil, tempfile, time
import asn1ref, bad_asn, cc, common, crate, gen_asn, dtypes, rsitems, shape
from common import BUILD, VERIF, log


def prim(obs, prop, seed, secs):
    d = os.path.join(VERIF, 'harness', 'prim')
    t = time.time()
    crate.cargo(d, 'prim')
    log('prim built in %.1f s' % (time.time() - t))
    common.run_shards(obs, 'prim', os.path.join(BUILD, 'prim', 'debug', 'prim'), prop, seed, secs)


def dtypes_build(seed, n):
    g = dtypes.G(seed, n)
    src = crate.USES + g.source()
    d = crate.crate('dtypes', [('m', src, rsitems.parse(src))], g.schema(), [('m', 'T%d' % i, i, 'T%d' % i) for i in g.tops], 'dtypes')
    t = time.time()
    crate.cargo(d, 'dtypes')
    log('%d derived types built in %.1f s' % (len(g.defs), time.time() - t))
    return g, os.path.join(BUILD, 'dtypes', 'debug', 'dtypes')


def derived(obs, prop, seed, secs, n=60, rounds=1):
    for k in range(rounds):
        s = seed * 1000 + k
        try:
            g, b = dtypes_build(s, n)
        except crate.BuildError as e:
            # the types are valid: where the codecs themselves build, it is the derive macros that fail
            crate.cargo(os.path.join(VERIF, 'harness', 'prim'), 'prim')
            if re.search(r'proc-macro derive|originates in the derive macro|\bsrc/m\.rs', str(e)):
                obs.violate('build', 'derived codecs do not build: ' + str(e)[:2000], dict(engine='dtypes', prop=prop, types_seed=s, types_n=n, seed=s, shard=0, case=0))
                return
            raise
        obs.hit('dtypes: generated type definitions', len(g.defs))
        common.run_shards(obs, 'dtypes', b, prop, s, secs / rounds, extra={'types_seed': s, 'types_n': n})


def refs(t):
    if isinstance(t, dict):
        return ([t['i']] if t.get('k') == 'ref' else []) + [i for v in t.values() for i in refs(v)]
    return [i for x in t for i in refs(x)] if isinstance(t, list) else []


def subset(sch, tops, limit, seed):
    """a few of the types with all they refer to, small enough for an interpreter to read: (models, [(type, place)])"""
    rng = random.Random(seed)
    tops = list(tops)
    rng.shuffle(tops)
    have, chosen, size = [], [], 0
    for i in tops:
        add, todo = [], [i]
        while todo:
            j = todo.pop()
            if j not in have and j not in add:
                add.append(j)
                todo += refs(sch[j]['ty'])
        n = sum(len(str(sch[j])) for j in add)
        if size + n <= limit:
            have += add
            chosen.append(i)
            size += n
    m = {j: k for k, j in enumerate(have)}

    def move(t):
        if isinstance(t, dict):
            t = {k: move(v) for k, v in t.items()}
            if t.get('k') == 'ref':
                t['i'] = m[t['i']]
            return t
        return [move(x) for x in t] if isinstance(t, list) else t
    return [move(sch[j]) for j in have], [(i, m[i]) for i in chosen]


MIRI = '-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance'
ASAN = dict(RUSTFLAGS='-Zsanitizer=address')
TRIPLE = 'x86_64-unknown-linux-gnu'


def memory(obs, prop, seed, secs, n=20, thorough=False):
    """The same plain use of the codecs, watched by the counting allocator, AddressSanitizer and Miri."""
    import concurrent.futures
    pd = os.path.join(VERIF, 'harness', 'prim')
    g = dtypes.G(seed, n)
    src = crate.USES + g.source()
    items = rsitems.parse(src)
    dd = crate.crate('dtypes', [('m', src, items)], g.schema(), [('m', 'T%d' % i, i, 'T%d' % i) for i in g.tops], 'dtypes')
    sch, few = subset(g.schema(), g.tops, 4000, seed)
    md = crate.crate('dtypes-miri', [('m', src, items)], sch, [('m', 'T%d' % i, k, 'T%d' % i) for i, k in few], 'dtypes-miri')
    asan = ('build', '--target', TRIPLE)
    miri = ('miri', 'run')
    jobs = [(pd, 'prim'), (dd, 'dtypes'), (pd, 'prim-asan', asan, ASAN, '+nightly'), (dd, 'dtypes-asan', asan, ASAN, '+nightly'),
            (os.path.join(VERIF, 'harness', 'front'), 'front-asan', asan, ASAN, '+nightly')]
    none = ('--', '--prop', prop, '--cases', '0')
    t = time.time()
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        fs = [ex.submit(crate.cargo, j[0], j[1], *([j[2], j[3], 700, j[4]] if len(j) > 2 else [])) for j in jobs]
        for d, t2 in ((pd, 'prim-miri'), (md, 'dtypes-miri')):
            fs.append(ex.submit(crate.cargo, d, t2, miri, dict(MIRIFLAGS=MIRI + ' -Zmiri-ignore-leaks'), 700, '+nightly', none))
        for f in fs:
            f.result()
    log('memory monitors built in %.1f s' % (time.time() - t))
    both = [('prim', 'prim'), ('dtypes', 'dtypes')]
    for engine, name in both:
        common.run_shards(obs, engine, os.path.join(BUILD, name, 'debug', name), prop, seed, secs / 2, shards=4, extra={'types_seed': seed, 'types_n': n})
    for engine, name in both:
        env = dict(SAN='1', ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:symbolize=1')
        common.run_shards(obs, engine + '-asan', os.path.join(BUILD, name + '-asan', TRIPLE, 'debug', name), prop, seed + 1, secs / 2, env=env, extra={'types_seed': seed, 'types_n': n})
    front(obs, 'C15', seed, secs / 2, binary=os.path.join(BUILD, 'front-asan', TRIPLE, 'debug', 'front'), env=dict(SAN='1', ASAN_OPTIONS='detect_leaks=0:abort_on_error=1'), kinds=('sanitizer', 'crash'))

    for name in ('prim-miri', 'dtypes-miri'):
        crate.fresh(name)

    def inside(d, name, k, leaks):
        o = common.Obs()
        env = dict(SAN='1', MIRIFLAGS=MIRI + ('' if leaks else ' -Zmiri-ignore-leaks'), CARGO_TARGET_DIR=os.path.join(BUILD, name), CARGO_TERM_COLOR='never')
        common.run_shards(o, name, None, prop, seed + k * 17, secs * 2, shards=1, env=env, cwd=d, wrap=('cargo', '+nightly', 'miri', 'run', '--offline', '-q', '--'), extra={'types_seed': seed, 'types_n': n})
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(inside, d, name, k, name == 'prim-miri') for k in range(4) for d, name in ((pd, 'prim-miri'), (md, 'dtypes-miri'))]:
            merge(obs, f.result())


def merge(obs, o):
    obs.evaluations += o.evaluations
    obs.hashes |= o.hashes
    for k, c in o.counts.items():
        obs.hit(k, c)
    for x in o.samples[:3]:
        obs.sample(x)
    obs.violations += o.violations
    obs.engines += o.engines


def front_corpus(d, seed):
    """texts and snippets to damage: the repository's own specifications and generated ones"""
    n = 0

    def put(t, ext='asn'):
        nonlocal n
        n += 1
        with open(os.path.join(d, '%05d.%s' % (n, ext)), 'wb') as f:
            f.write(t.encode('utf-8', 'replace'))
    for name in cc.REALS:
        for f in sorted(os.listdir(os.path.join(cc.SPECS, name))):
            t = open(os.path.join(cc.SPECS, name, f), encoding='utf-8', errors='replace').read()
            if len(t) < 30000:
                put(t)
            # parts of the specification as modules of their own
            ls = t.split('\n')
            rng = random.Random(seed * 31 + len(t))
            for _ in range(6):
                i = rng.randrange(len(ls))
                put('M DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n' + '\n'.join(ls[i:i + rng.choice([10, 60, 200])]) + '\nEND\n')
            for a in re.findall(r'\n([A-Z][A-Za-z0-9-]*\s*::=\s[^\n]*(?:\n[ \t}][^\n]*)*)', t)[:4000]:
                if rng.random() < .15 and len(a) < 1500:
                    put(a, 'bit')
    for k in range(60):
        opts = [dict(types=4), dict(types=4, objects=2), dict(types=3, params=3), dict(types=8, mods=1)][k % 4]
        ts = gen_asn.Gen(seed * 1009 + k, **opts).texts()
        put('\n'.join(ts))
        if len(ts) > 1:
            put(ts[0])
    for v in bad_asn.BODY.values():
        for b in (v if isinstance(v, (list, tuple)) else [v]):
            put(b, 'bit')


def front_build():
    crate.cargo(os.path.join(VERIF, 'harness', 'front'), 'front')
    return os.path.join(BUILD, 'front', 'debug', 'front')


def front(obs, prop, seed, secs, only=None, binary=None, env=None, kinds=None):
    b = binary or front_build()
    known = len(obs.violations)
    d = tempfile.mkdtemp(prefix='hampi-front-')
    try:
        c = os.path.join(d, 'corpus')
        os.mkdir(c)
        front_corpus(c, seed)
        env = dict(env or {}, PATH=cc.PLAIN + ':' + os.environ['PATH'])
        args = ['--corpus', c, '--cur', os.path.join(d, 'cur')]
        if only:
            import subprocess
            return subprocess.call([b, '--prop', prop, '--seed', str(seed), '--shard', str(only[0]), '--only', str(only[1])] + args, env=dict(os.environ, **env))
        common.run_shards(obs, 'front', b, prop, seed, secs, args=args, env=env)
        if kinds:
            obs.violations[known:] = [v for v in obs.violations[known:] if v['kind'] in kinds]
        for v in obs.violations[known:]:
            if v['kind'] == 'crash':
                f = os.path.join(d, 'cur%d' % v['replay']['shard'])
                if os.path.exists(f):
                    v['replay']['text'] = open(f, 'rb').read().decode('latin-1')[:200000]
    finally:
        shutil.rmtree(d, ignore_errors=True)


USES = '#[allow(unused_imports)] use asn1_codecs_derive::AperCodec;\n'


def shift(t, by):
    """a model with its references moved"""
    if isinstance(t, dict):
        t = {k: shift(v, by) for k, v in t.items()}
        if t.get('k') == 'ref':
            t['i'] += by
        return t
    return [shift(x, by) for x in t] if isinstance(t, list) else t


def weight(sch, t, depth=4):
    if isinstance(t, dict):
        n = 1 + sum(weight(sch, v, depth) for v in t.values())
        return n + (weight(sch, sch[t['i']]['ty'], depth - 1) if t.get('k') == 'ref' and depth else 0)
    return sum(weight(sch, x, depth) for x in t) if isinstance(t, list) else 0


def choose(sch, keep, seed):
    """the types to exercise on their own: some of the largest, the rest at random"""
    if not keep or len(sch) <= keep:
        return set(range(len(sch)))
    by = sorted(range(len(sch)), key=lambda i: -weight(sch, sch[i]['ty']))
    r = random.Random(seed)
    return set(by[:keep // 6]) | set(r.sample(by[:len(by) // 3], keep // 3)) | set(r.sample(by, keep // 2))


def generated(obs, ws, groups, prop, engine, keep=None, seed=0):
    """Compile each group of specifications into one crate; groups: [(name, [(mod, texts, model, what to say)])].
    What the compiler refuses or gets wrong is a violation; the crates built are returned."""
    out = []
    for name, specs in groups:
        mods, schema, entries = [], [], []
        for m, texts, sch, rep in specs:
            o = cc.Run(texts, fmt=True)
            if o.rc != 0:
                obs.violate('refused', '%s: a well-formed specification is not compiled: %s' % (m, o.why()), rep)
                continue
            src = o.out.decode()
            try:
                items = rsitems.parse(src)
                c = shape.Cmp(items, sch)
                c.run()
                rsitems.reflect(items)
            except rsitems.Unexpected as e:
                obs.violate('output', '%s: the generated code cannot be read: %s' % (m, e), rep)
                continue
            obs.hit(engine + ': specifications compiled')
            if c.diffs:
                d = c.diffs[0]
                obs.violate('shape', '%s: %s' % (d[1], d[2]), rep)
            base = len(schema)
            gone = {x[1] for x in c.diffs}
            mine = choose(sch, keep, seed)
            for i, d in enumerate(sch):
                t = c.top(d['name'])
                schema.append({'name': '%s.%s' % (m, d['name']), 'ty': shift(d['ty'], base)})
                if t in c.by and i in mine:
                    entries.append((m, t, base + i, '%s.%s' % (m, d['name'])))
            obs.hit(engine + ': types generated', len(items))
            mods.append((m, src, items))
        if mods:
            crate.crate(name, mods, schema, entries, engine, member_of=ws)
            out.append((name, specs))
    if not out:
        return []
    d = crate.workspace(ws, [n for n, _ in out])
    t = time.time()
    try:
        crate.cargo(d, ws)
    except crate.BuildError as e:
        # is it the generated code that does not build, or what the harness adds to it?
        blame(obs, d, ws, out, str(e))
        return []
    log('%d crates of generated code built in %.1f s' % (len(out), time.time() - t))
    return [(n, os.path.join(BUILD, ws, 'debug', n), specs) for n, specs in out]


def blame(obs, d, ws, out, err):
    for n, specs in out:
        for m, _, _, _ in specs:
            p = os.path.join(d, n, 'src', m + '.rs')
            if os.path.exists(p):
                s = open(p).read()
                i = s.index('\npub mod reflect_ {')
                open(p, 'w').write(s[:i] + '\npub fn codecs_(_: &mut Vec<std::rc::Rc<dyn refper::codec::Codec>>) {}\n')
    try:
        crate.cargo(d, ws)
    except crate.BuildError as e:
        bad = set(re.findall(r'--> ([a-z0-9_]+)/src/([a-z0-9_]+)\.rs', str(e)))
        for n, specs in out:
            for m, texts, _, rep in specs:
                if (n, m) in bad:
                    obs.violate('build', '%s: the generated code does not build: %s' % (m, str(e)[:1500]), rep)
        if bad:
            return
        raise
    if obs.violations:
        return
    raise crate.BuildError(err)


def e2e(obs, prop, seed, secs, groups=8, each=4, rounds=1):
    """random specifications, all the way"""
    cc.build()
    for k in range(rounds):
        gs, n = [], 0
        for i in range(groups):
            specs = []
            while len(specs) < each:
                n += 1
                s = (seed * 100 + k) * 100000 + n
                opts = E2E[n % len(E2E)]
                texts = gen_asn.Gen(s, **opts).texts()
                try:
                    sch = cc.model(texts)
                except (asn1ref.Bad, asn1ref.Unsupported):
                    continue
                specs.append(('s%d' % n, texts, sch, dict(engine='e2e', prop=prop, texts=texts)))
                obs.seen(s)
                obs.sample('specification %d: %s' % (s, texts[0][:400]))
            gs.append(('g%d' % i, specs))
        bs = generated(obs, 'e2e', gs, prop, 'e2e')
        if len(obs.violations) > 10:
            return
        drive(obs, bs, prop, seed * 100 + k, secs / rounds, 'e2e')


def drive(obs, bs, prop, seed, secs, engine, **more):
    """run the crates side by side, so that together they use the processors for the given time"""
    import concurrent.futures
    per = max(1, common.SHARDS // max(1, len(bs)))
    obss = [common.Obs() for _ in bs]

    def one(i):
        n, b, specs = bs[i]
        common.run_shards(obss[i], engine, b, prop, seed + i * 7, secs, shards=per, extra=dict(texts=None if engine == 'gpp' else {m: t for m, t, _, _ in specs}, crate=n, **more))
    with concurrent.futures.ThreadPoolExecutor(max(1, len(bs))) as ex:
        for f in [ex.submit(one, i) for i in range(len(bs))]:
            f.result()
    for o in obss:
        merge(obs, o)


E2E = [dict(types=10), dict(types=6, objects=2, params=0), dict(types=6, params=2, objects=0), dict(types=14, objects=0, params=0, ext=.5), dict(types=10, objects=1, params=1, mods=3),
       dict(types=12, objects=0, params=0, int=12, bits=6, octs=6, chars=6, seqof=6)]


def gpp(obs, prop, seed, secs, names=None, keep=None):
    """the specifications of the repository, all the way"""
    cc.build()
    gs = []
    for n in names or cc.REALS:
        texts, sch = cc.real(n)
        gs.append((n + '_', [(n, texts, sch, dict(engine='gpp', prop=prop, spec=n))]))
    bs = generated(obs, 'gpp', gs, prop, 'gpp', keep, seed)
    drive(obs, bs, prop, seed, secs, 'gpp', keep=keep, chosen=seed)
