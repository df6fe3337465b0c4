"""Which engines decide which property, and for how long."""
import json, os, subprocess, tempfile, time
import cc, common, crate, engines, extract, shape

SCALE = float(os.environ.get('VERIF_SCALE', '1'))   # a fraction of the time, for the development tools

CODEC_RULE = {
    'C01': 'Each case decodes hostile octets (mutated, spliced, truncated and length-lying encodings of random values, and random octets) from a random bit offset; distinct = (type, octets, offset) that decoding accepted, or each distinct refused cut.',
    'C02': 'Each case encodes and decodes one random value of a random bound (edges of every length and range form); distinct = (type, value).',
    'C03': 'Each case compares the bits with an independent X.691 encoder and decodes the encoding of that encoder, values outside extensible roots and of 16K and more included; distinct = (type, value).',
    'C04': 'Each case spoils one node of a random valid value and offers it to the encoder; distinct = (type, spoiled value).',
    'C05': 'Each case decodes hostile octets, or an encoding forced by the reference encoder to carry an out-of-constraint value, at every bit offset; distinct = accepted (type, octets, offset).',
    'C06': 'Each case cuts a valid encoding short at many bit and octet positions; distinct = (type, encoding, cut).',
    'C07': 'Each case runs a random history of 2..10 encodes into one buffer and decodes back (with interleavings of failures), or repeats a single encode; distinct = (types, values).',
    'C08': 'Each case is a value of a random SEQUENCE type (or a type that holds one) checked against the X.691 reference; distinct = (type, value).',
    'C09': 'Each case is a value of a random CHOICE type (or a type that holds one) checked against the X.691 reference; distinct = (type, value).',
    'C10': 'Each case is a value of a random SEQUENCE OF type (or a type that holds one) checked against the X.691 reference; distinct = (type, value).',
    'C11': 'Each case is a value of a random SEQUENCE with key and open types, or an encoding whose open type length lies; distinct = (type, value).',
    'C12': 'Each case decodes what a newer version could send (unknown additions in SEQUENCE, CHOICE, ENUMERATED, extended sizes) followed by a marker; distinct = (type, value, additions).',
}


def codec(prop, tier, seed, obs):
    q = tier == 'quick'
    t = SCALE if q else 14
    if prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C12'):
        engines.prim(obs, prop, seed, 12 * t)
    if prop not in ('C02', 'C03'):
        engines.derived(obs, prop, seed, 15 * t, n=60 if q else 150, rounds=1 if q else 4)
    if not q and prop not in ('C02', 'C03', 'C04'):
        # and the types of real and random specifications, as the compiler generates them
        n = len(obs.violations)
        engines.gpp(obs, prop, seed, 60, keep=200)
        engines.e2e(obs, prop, seed, 40, rounds=2)
        # what the compiler does is the matter of other properties
        obs.violations[n:] = [v for v in obs.violations[n:] if v['kind'] not in ('refused', 'output', 'shape', 'build')]
    return CODEC_RULE[prop], 1000


COMPILER_RULE = {
    'C15': 'Each case feeds one text (damaged real and generated specifications, snippets, deep nestings, chains of definitions, noise) to the front end in one process, and others to hampi-asn1c; distinct = text.',
    'C16': 'Each case compiles a random specification and compares every generated item (names, shape, order, OPTIONAL, keys, references) with the model an independent front end makes of the text; also the four specifications of the repository; distinct = specification.',
    'C17': 'Each case compiles a random specification of constrained types and compares every bounds attribute with the model; also the four specifications of the repository; distinct = specification.',
    'C18': 'Each case compiles a random specification of INTEGER types at the edges of the Rust integers and compares the generated integer type with the permitted values; distinct = specification.',
    'C19': 'Each case compiles a random specification of ENUMERATED types and compares bounds and constants with the indices of X.691; distinct = specification.',
    'C20': 'Each case compiles a specification again, and rewritten (order of files, modules and assignments, layout, comments); distinct = text.',
    'C21': 'Each case compiles a random specification of classes, objects and object sets and compares the open types, keys and fields with the model; distinct = specification.',
    'C22': 'Each case compiles a random specification of parameterised types and compares every instance with the model; distinct = specification.',
    'C23': 'Each case makes one thing of a well-formed specification wrong (a definition missing, a cycle, a wrong kind of symbol, a token changed) and runs hampi-asn1c; the independent front end has to find it wrong too; also well-formed random specifications, which have to be accepted; distinct = specification.',
    'C25': 'Each case runs hampi-asn1c on a well-formed specification while something outside it fails (rustfmt, an input file, the standard output); distinct = (fault, specification).',
    'C26': 'Each case runs specs/parse_spec.py on one random document (a stand-in for python-docx hands it the paragraphs) and compares the file it writes with the ASN.1 in the document, or compiles the extracted text of a specification; distinct = document.',
}


def compiler(prop, tier, seed, obs):
    q = tier == 'quick'
    t = SCALE if q else 16
    cc.build()
    if prop == 'C15':
        engines.front(obs, prop, seed, 22 * t)
        cc.pool(obs, 'any', cc.any_task, cc.seeds(prop, seed), 8 * t)
        return COMPILER_RULE[prop], 5000
    if prop == 'C25':
        cc.pool(obs, 'faults', cc.fault_task, cc.seeds(prop, seed), 20 * t, minimum=100)
        return COMPILER_RULE[prop], 100
    if prop == 'C26':
        cc.pool(obs, 'extract', extract.task, cc.seeds(prop, seed), 15 * t, minimum=300)
        return COMPILER_RULE[prop], 200
    if prop == 'C20':
        cc.pool(obs, 'rewrites', cc.same_task, cc.seeds(prop, seed), 25 * t, minimum=50)
        return COMPILER_RULE[prop], 100
    if prop == 'C23':
        cc.pool(obs, 'each token', cc.each_task, cc.each_seeds(prop, seed), 16 * t, minimum=len(cc.each_list()[0]) // 8 + 50)
        cc.pool(obs, 'ill-formed', cc.bad_task, cc.seeds(prop, seed), 22 * t, minimum=500)
        if len(obs.violations) < 10:
            cc.pool(obs, 'well-formed', cc.shape_task, cc.seeds(prop, seed), 10 * t, minimum=200)
        return COMPILER_RULE[prop], 500
    if prop in ('C16', 'C17', 'C18', 'C19', 'C21', 'C22'):
        cc.pool(obs, 'real', cc.real_task, [(prop, seed, n) for n in cc.REALS], 600, minimum=4)
        if len(obs.violations) < 10:
            cc.pool(obs, 'specs', cc.shape_task, cc.seeds(prop, seed), 22 * t, minimum=200)
        return COMPILER_RULE[prop], 500


CHAIN_RULE = {
    'C13': 'Each case is a value of a type the compiler generates for the specifications under specs/, its encoding compared with an independent X.691 encoder working on an independent reading of the specification, and decoded back; distinct = (type, value).',
    'C14': 'Each case encodes a value and decodes its encoding and damaged ones, under the counting allocator (alone, repeated, from several threads), AddressSanitizer and Miri; also the compiler under AddressSanitizer; distinct = result digest.',
    'C24': 'Each case is a value of a type the compiler generates for a random specification, its encoding compared with an independent X.691 encoder working on an independent reading of the specification, and decoded back; distinct = (type, value).',
}


def chain(prop, tier, seed, obs):
    q = tier == 'quick'
    if prop == 'C13':
        engines.gpp(obs, prop, seed, 12 if q else 300, keep=60 if q else None)
    if prop == 'C24':
        engines.e2e(obs, prop, seed, 12 if q else 300, rounds=1 if q else 12)
    if prop == 'C14':
        engines.memory(obs, prop, seed, 6 if q else 150, n=15 if q else 60, thorough=not q)
    return CHAIN_RULE[prop], 1000


PLANS = {p: codec for p in CODEC_RULE}
PLANS.update({p: compiler for p in COMPILER_RULE})
PLANS.update({p: chain for p in CHAIN_RULE})


def check(prop, tier, seed):
    t0 = time.time()
    obs = common.Obs(common.findings(prop))
    try:
        r = PLANS[prop](prop, tier, seed, obs)
    except Exception as e:
        if not obs.violations:
            raise
        common.log('stopped after a violation: %r' % e)
        r = ('', 0)
    return common.finish(obs, prop, tier, seed, t0, r[0], r[1], r[2] if len(r) > 2 else None)


def replay(v):
    """the reported case once more: 1 if it still shows, 0 if not"""
    r, prop = v['replay'], v['property']
    e = r.get('engine')
    print('%s %s: %s' % (prop, v['kind'], v['msg'][:1500]))
    if v['kind'] == 'build':
        print('nothing to run: it is the build that fails')
        return 0
    if e == 'extract':
        return extract.replay(r)
    if e == 'front' and r.get('case') is not None:
        return engines.front(common.Obs(), prop, r['seed'], 0, only=(r['shard'], r['case']))
    if e == 'front' and r.get('hex'):
        cc.build()
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'm.asn')
            with open(f, 'wb') as o:
                o.write(bytes.fromhex(r['hex']))
            try:
                rc = subprocess.call([cc.BIN, f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            except subprocess.TimeoutExpired:
                rc = 'none in 60 s'
        print('hampi-asn1c on %s: exit %s' % (r['where'], rc))
        return int(rc not in (0, 1))
    if e in ('dtypes', 'prim', 'gpp', 'e2e') and r.get('case') is not None:
        if e == 'dtypes':
            _, b = engines.dtypes_build(r['types_seed'], r['types_n'])
        elif e == 'prim':
            crate.cargo(os.path.join(common.VERIF, 'harness', 'prim'), 'prim')
            b = os.path.join(common.BUILD, 'prim', 'debug', 'prim')
        else:
            cc.build()
            if e == 'gpp':
                texts, sch = cc.real(r['crate'][:-1])
                specs = [(r['crate'][:-1], texts, sch, {})]
            else:
                specs = [(m, t, cc.model(t), {}) for m, t in r['texts'].items()]
            obs = common.Obs()
            bs = engines.generated(obs, 'replay', [(r['crate'], specs)], prop, e, r.get('keep'), r.get('chosen', 0))
            if not bs:
                print(obs.violations)
                return 1
            b = bs[0][1]
        p = subprocess.run([b, '--prop', r['prop'], '--seed', str(r['seed']), '--shard', str(r['shard']), '--only', str(r['case'])], stdout=subprocess.PIPE)
        print(p.stdout.decode('utf-8', 'replace'))
        return int(p.returncode != 0 or b'{"violation"' in p.stdout)
    if r.get('task'):
        cc.build()
        x = cc.fault_task(prop, *r['task']).viol
        print(x)
        return int(bool(x))
    if r.get('texts'):
        cc.build()
        res = cc.Res()
        texts = r['texts']
        if isinstance(texts, dict):
            return max(replay(dict(v, replay=dict(r, texts=t, case=None))) for t in texts.values())
        o = cc.Run(texts, fmt=True)
        print('hampi-asn1c: exit %s, %d octets printed' % (o.rc, len(o.out)), o.err[-400:] if o.rc else '')
        if r.get('other'):
            o2 = cc.Run(r['other'], fmt=True)
            print('rewritten: exit %s, %d octets printed' % (o2.rc, len(o2.out)), o2.err[-400:] if o2.rc else '')
            if o.rc or o2.rc:
                return int(o.rc != o2.rc)
            (a, ta), (b, tb) = shape.canon(o.items()), shape.canon(o2.items())
            d = [n for n in sorted(set(a) | set(b)) if n not in a or n not in b or ta(n, {}) != tb(n, {})]
            print('items that differ:', d)
            return int(bool(d))
        if prop in cc.PROFILES or prop in ('C13', 'C24'):
            cc.judge(res, prop if prop in cc.PROFILES else 'all', texts, cc.model(texts), fmt=True)
            for x in res.viol:
                print(x[0], x[1])
            return int(bool(res.viol))
        if v['kind'] in ('accepted', 'code'):
            return int(o.rc == 0 or bool(o.out))
        return int(o.rc not in (0, 1) if v['kind'] == 'failure' else o.rc != 0)
    print(json.dumps(v, indent=1)[:20000])
    return 0
