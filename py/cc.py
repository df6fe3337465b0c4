"""The compiler under test, run as a user runs it, and the monitors of what it prints."""
import collections, functools, json, multiprocessing, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback
import asn1ref, bad_asn, common, crate, gen_asn, rsitems, seeds_asn, shape
from common import BUILD, REPO, VERIF, HarnessError, log

sys.setrecursionlimit(20000)
BIN = os.path.join(BUILD, 'compiler', 'debug', 'hampi-asn1c')
PLAIN = os.path.join(VERIF, 'harness', 'fmt')        # a rustfmt that leaves the code as it is
SPECS = os.path.join(REPO, 'specs')


def build():
    t = time.time()
    crate.cargo(REPO, 'compiler', ('build', '-p', 'asn1-compiler', '--bin', 'hampi-asn1c'))
    log('compiler built in %.1f s' % (time.time() - t))
    return BIN


class Run:
    """one run of the compiler over some texts"""

    def __init__(s, texts, fmt=False, timeout=60, names=None, path=None, extra=(), where=None):
        d = tempfile.mkdtemp(prefix='hampi-cc-')
        try:
            fs = []
            for i, t in enumerate(texts):
                f = os.path.join(d, (names[i] if names else '%d.asn' % i))
                with open(f, 'wb') as h:
                    h.write(t if isinstance(t, bytes) else t.encode())
                fs.append(f)
            e = dict(os.environ, RUST_BACKTRACE='0')
            if path:
                e['PATH'] = path
            elif not fmt:
                e['PATH'] = PLAIN + ':' + e['PATH']
            s.timeout = False
            for x in extra:
                fs.insert(x[0] % (len(fs) + 1), x[1])
            try:
                o = open(where, 'wb') if where else subprocess.PIPE
                p = subprocess.run([BIN] + fs, stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=d)
                if where:
                    o.close()
                s.rc, s.out, s.err = p.returncode, p.stdout or b'', p.stderr.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired:
                s.rc, s.out, s.err, s.timeout = None, b'', '', True
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def why(s):
        if s.timeout:
            return 'it does not end'
        l = s.err.strip().split('\n')
        return 'exit %s: %s' % (s.rc, ' '.join(l[-12:])[-400:])

    def items(s):
        return rsitems.parse(s.out.decode())


class Res:
    """what one task observed"""

    def __init__(s):
        s.ev = 0
        s.hashes = []
        s.counts = collections.Counter()
        s.samples = []
        s.viol = []

    def violate(s, kind, msg, **rep):
        s.viol.append((kind, msg, rep))

    def seen(s, *p):
        import hashlib
        s.hashes.append(int.from_bytes(hashlib.blake2b(repr(p).encode(), digest_size=8).digest(), 'big'))


def model(texts):
    """the model of the texts, or the reason there is none"""
    return asn1ref.Spec(texts).schema()


def guarded(a):
    fn, args = a
    try:
        return fn(*args)
    except Exception:
        r = Res()
        r.broken = '%s%r\n%s' % (fn.__name__, args[:2], traceback.format_exc()[-2500:])
        return r


def pool(obs, engine, fn, argsets, secs, procs=common.SHARDS, minimum=0):
    """run fn over argsets in processes, at least `minimum` of them, then until the time is up"""
    t0 = time.time()
    ev = n = 0
    fails = []
    with multiprocessing.get_context('fork').Pool(procs) as p:
        lead, stop = threading.Semaphore(3 * procs), threading.Event()
        for r in p.imap(guarded, ((fn, a) for a in limited(argsets, t0, secs, minimum, lead, stop)), 1):
            lead.release()
            n += 1
            if hasattr(r, 'broken'):
                fails.append(r.broken)
                if len(fails) > 2:
                    break
                continue
            ev += r.ev
            obs.hashes.update(r.hashes)
            for k, c in r.counts.items():
                obs.hit('%s: %s' % (engine, k), c)
            for x in r.samples:
                if len([y for y in obs.samples if y.startswith(engine)]) < 6:
                    obs.sample('%s: %s' % (engine, x))
            for kind, msg, rep in r.viol:
                if len(obs.violations) < 60:
                    obs.violate(kind, msg, dict(rep, engine=engine))
            if len(obs.violations) >= 40:
                break
        stop.set()
        p.terminate()
    if fails and not obs.violations:
        raise HarnessError('%s: %s' % (engine, fails[0]))
    obs.evaluations += ev
    obs.engines.append({'engine': engine, 'tasks': n, 'evaluations': ev, 'wall_s': round(time.time() - t0, 1)})
    return n


def limited(argsets, t0, secs, minimum, lead, stop):
    # imap pulls its arguments ahead of the workers: keep it on a short lead
    k = 0
    for a in argsets:
        if k >= minimum and time.time() - t0 > secs:
            return
        k += 1
        while not lead.acquire(timeout=.2):
            if stop.is_set():
                return
        yield a


# ---- monitors

PROFILES = {
    'C16': [dict(), dict(objects=0, params=0, types=24, mods=3), dict(seq=12, choice=8, seqof=6, ext=.5, depth=5), dict(mods=4, types=20, alias=8, creff=4)],
    'C17': [dict(objects=0, params=0, types=30, int=12, bits=6, octs=6, chars=6, seqof=6, creff=8, ext=.5, cons=.95), dict(objects=0, params=2, types=16, int=8, wide=.4, creff=6, named=.4)],
    'C18': [dict(objects=0, params=0, types=30, int=20, wide=.7, cons=.97), dict(objects=0, params=1, types=30, int=20, wide=.4, creff=8)],
    'C19': [dict(objects=0, params=0, types=24, enum=20, enumnum=.7, bigenum=.06, ext=.4), dict(objects=0, params=1, types=16, enum=12, enumnum=.3, mods=3)],
    'C21': [dict(objects=4, params=0, types=4), dict(objects=3, params=1, types=6, mods=3), dict(objects=2, params=0, types=3, mods=1)],
    'C22': [dict(objects=0, params=5, types=6), dict(objects=2, params=3, types=6, mods=3), dict(objects=0, params=3, types=3, mods=1)],
}
PROFILES['C23'] = [PROFILES[p][0] for p in sorted(PROFILES)] + [dict(objects=0, params=0, types=20, int=12, ext=.6, creff=8, wide=.3, mods=3)]
CLASSES = {'C23': (), 'C16': ('structure', 'objects'), 'C17': ('constraint',), 'C18': ('width',), 'C19': ('enum',)}
COUNTED = {'C17': ('int', 'bits', 'octs', 'utf8', 'visible', 'printable', 'seqof'), 'C18': ('int',), 'C19': ('enum',), 'C21': ('open',)}


def shape_task(prop, seed, k):
    """generate, model, compile, compare"""
    r = Res()
    g = gen_asn.Gen(seed * 1000003 + k, **PROFILES[prop][k % len(PROFILES[prop])])
    texts = g.texts()
    if k % 3 == 0:
        rng = random.Random(k)
        texts = [gen_asn.relayout(t, rng) for t in texts]
    try:
        sch = model(texts)
    except (asn1ref.Bad, asn1ref.Unsupported) as e:
        r.counts['left out: %s' % str(e)[:60]] += 1
        return r
    judge(r, prop, texts, sch, fmt=k % 16 == 0)
    for f, n in g.features.items():
        r.counts['specifications with ' + f] += 1
    if k < 2:
        r.samples.append('specification %d: %s' % (k, texts[0][:500]))
    return r


def judge(r, prop, texts, sch, fmt=False, must=True):
    """The compiler has to accept the texts and generate what the model says (must: the texts are in the supported subset)."""
    o = Run(texts, fmt)
    r.ev += 1
    r.seen(texts)
    rep = dict(texts=[t if isinstance(t, str) else t.decode('latin-1') for t in texts])
    if o.rc != 0:
        if o.timeout or o.rc not in (0, 1):
            r.violate('failure', 'a well-formed specification is not compiled: ' + o.why(), **rep)
        elif must:
            r.violate('refused', 'a well-formed specification is refused: ' + o.why(), **rep)
        r.counts['refused'] += 1
        return None
    try:
        items = o.items()
    except Exception as e:
        r.violate('output', 'the generated code cannot be read: %s' % e, **rep)
        return None
    c = shape.compare(items, sch)
    cl = CLASSES.get(prop)
    for d in c.diffs:
        if cl is None or d[0] in cl:
            r.violate(d[0], '%s: %s' % (d[1], d[2]), **rep)
            break
    want = COUNTED.get(prop)
    for x, n in c.compared.items():
        if want is None or x in want:
            r.counts['compared: ' + x] += n
            r.ev += n
    r.counts['accepted'] += 1
    return items


REAL = {}
REALS = ['ngap', 's1ap', 'ranap', 'rrc']


def real(name):
    """the texts and the model of a specification of the repository"""
    if name not in REAL:
        d = os.path.join(SPECS, name)
        fs = sorted(f for f in os.listdir(d) if f.endswith('.asn'))
        texts = [open(os.path.join(d, f), encoding='utf-8', errors='replace').read() for f in fs]
        REAL[name] = texts, model(texts)
    return REAL[name]


def real_task(prop, seed, name):
    r = Res()
    texts, sch = real(name)
    judge(r, prop, texts, sch, fmt=True)
    r.counts['specification ' + name] += 1
    return r


def same_task(prop, seed, k):
    """the same specification, written differently"""
    r = Res()
    rng = random.Random(seed * 7919 + k)
    names = REALS
    if k < 2 * len(names):
        name = names[k % len(names)]
        texts, sch = real(name)
        tops = {d['name'] for d in sch}
        what = 'specification ' + name
        var = []
        t = list(texts)
        rng.shuffle(t)
        var.append(('the files in another order', t))
        rng.shuffle(t)
        var.append(('all modules in one file', ['\n'.join(t)]))
        var.append(('another layout', [gen_asn.relayout(x, rng) for x in texts]))
    else:
        g = gen_asn.Gen(seed * 1000003 + k, **dict(rng.choice(PROFILES['C16'] + PROFILES['C21'] + PROFILES['C22'])))
        texts = g.texts()
        tops = {d['name'] for d in g.defs if d['kind'] == 'type'}
        what = 'generated specification'
        var = []
        ms = [t for _, t in g.modules(rng)]
        rng.shuffle(ms)
        var.append(('the assignments in another order', ms))
        ms = list(texts)
        rng.shuffle(ms)
        if len(ms) > 1:
            var.append(('the files in another order', ms))
            var.append(('all modules in one file', ['\n'.join(ms)]))
        for _ in range(2):
            var.append(('another layout', [gen_asn.relayout(x, rng) for x in texts]))
        var.append(('another layout and order', [gen_asn.relayout(t, rng) for _, t in g.modules(rng)][::-1]))
    fmt = k % 8 == 0
    a = Run(texts, fmt)
    r.counts[what] += 1
    r.seen(texts)
    rep = dict(texts=texts)
    if a.rc != 0:
        r.violate('refused', 'a well-formed specification is refused: ' + a.why(), **rep)
        return r
    for _ in range(2):
        b = Run(texts, fmt)
        r.ev += 1
        r.counts['repeated runs'] += 1
        if b.rc != a.rc or b.out != a.out:
            r.violate('rerun', 'two runs over the same files differ: ' + first_diff(a.out, b.out), **rep)
            return r

    def canon(o):
        by, text = shape.canon(o.items())
        ids = {}
        for n in tops:
            i = shape.ident(n)
            ids[i if i in by else i + '_'] = n
        return {i: text(i, ids) if i in by else None for i in ids}
    ca = canon(a)
    for how, ts in var:
        b = Run(ts)
        r.ev += 1
        r.counts['rewritten: ' + how] += 1
        r.seen(ts)
        if b.rc != 0:
            r.violate('refused', 'the specification is refused after a rewrite (%s): %s' % (how, b.why()), texts=texts, other=ts)
            return r
        cb = canon(b)
        if ca != cb:
            n = [x for x in sorted(ca) if ca[x] != cb.get(x)][0]
            r.violate('meaning', 'a rewrite (%s) changes %s: %s' % (how, n, first_diff(str(ca[n]).encode(), str(cb[n]).encode())), texts=texts, other=ts)
            return r
    return r


def first_diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return 'at %d: %r / %r' % (i, a[max(0, i - 40):i + 60], b[max(0, i - 40):i + 60])


def bad_task(prop, seed, k):
    """an ill-formed specification has to be refused, without code"""
    r = Res()
    rng = random.Random(seed * 104729 + k)
    opts = dict(rng.choice([dict(types=5), dict(types=3, objects=1, params=1), dict(types=8, mods=3), dict(types=6, mods=4), dict(types=2, mods=1, objects=0, params=0), dict(types=4, objects=3, mods=2)]))
    g = gen_asn.Gen(seed * 1000003 + k, **opts)
    if k % 2:
        m = bad_asn.mutate(g, rng)
        if m is None:
            return r
        kind, texts = m
        bad = True
        try:
            sch = model(texts)
            # what is wrong is not in anything the generated code depends on (an addition, say)
            bad = True if kind.startswith('sure') else False if kind.startswith('maybe') else None
        except asn1ref.Bad:
            pass
        except asn1ref.Unsupported:
            bad = None if kind.startswith('maybe') else True
    else:
        base = g.texts()
        if k % 16 == 0:
            base = list(real(rng.choice(['ranap', 's1ap', 'ngap', 'rrc']))[0])
        m = bad_asn.tokens(base, rng)
        if m is None:
            return r
        kind, texts = 'a token ' + m[0], m[1]
        try:
            sch = model(texts)
            bad = False
        except asn1ref.Bad as e:
            kind += ': ' + re.sub(r"[A-Za-z0-9-]*[A-Z0-9-][A-Za-z0-9-]*|'.*'", 'N', str(e))[:50]
            bad = None if isinstance(e, asn1ref.BadAddition) else True
        except asn1ref.Unsupported:
            bad = None
        except RecursionError:
            return r
    if k % 5 == 0:
        texts = [gen_asn.relayout(t, rng) for t in texts] if k % 2 else texts
    return judged(r, kind, texts, sch if bad is False else None, bad)


def judged(r, kind, texts, sch, bad):
    r.seen(texts)
    if bad is False:
        judge(r, 'all', texts, sch, must=False)
        r.counts['still well-formed after a change'] += 1
        return r
    o = Run(texts)
    r.ev += 1
    if bad is None:
        r.counts['not judged'] += 1
        return r
    r.counts['ill-formed: ' + kind] += 1
    rep = dict(texts=texts, wrong=kind)
    if o.timeout:
        r.violate('hang', 'no answer for an ill-formed specification (%s)' % kind, **rep)
    elif o.rc == 0:
        r.violate('accepted', 'an ill-formed specification is accepted (%s)' % kind, **rep)
    elif o.out.strip():
        r.violate('code', 'an ill-formed specification (%s) is refused, yet code is printed: %r' % (kind, o.out[:200]), **rep)
    return r


@functools.lru_cache(None)
def each_list():
    """every change of one token of the seeds: those that take no other token first"""
    first, rest = [], []
    for i, texts in enumerate(seeds_asn.SEEDS):
        texts = [texts] if isinstance(texts, str) else texts
        for j, t in enumerate(texts):
            for c in seeds_asn.changes(t.split(' ')):
                x = (i, j) + c
                if c[0] in ('deleted', 'doubled', 'swapped'):
                    first.append(x)
                elif c[0] != 'cut' or len(c[1]) % 4 == 0:
                    rest.append(x)
    return first, rest


def each_seeds(prop, seed):
    first, rest = each_list()
    rest = list(range(len(rest)))
    random.Random(seed).shuffle(rest)
    for k in range(0, len(first), 8):
        yield prop, 0, range(k, min(k + 8, len(first)))
    for k in range(0, len(rest), 8):
        yield prop, 1, rest[k:k + 8]


def each_task(prop, which, ks):
    """one token changed: refused if it is ill-formed then, and generated as it reads if it is not"""
    r = Res()
    for k in ks:
        i, j, what, toks = each_list()[which][k]
        texts = seeds_asn.SEEDS[i]
        texts = [texts] if isinstance(texts, str) else list(texts)
        texts[j] = seeds_asn.join(toks)
        kind, sch = 'a token ' + what, None
        try:
            sch = model(texts)
            bad = False
        except asn1ref.Bad as e:
            kind += ': ' + re.sub(r"[A-Za-z0-9-]*[A-Z0-9-][A-Za-z0-9-]*|'.*'", 'N', str(e))[:50]
            bad = None if isinstance(e, asn1ref.BadAddition) else True
        except asn1ref.Unsupported:
            bad = None
        judged(r, kind, texts, sch, bad)
    return r


def any_task(prop, seed, k):
    """any files: an answer, and a failure status with a reason unless there is code"""
    r = Res()
    rng = random.Random(seed * 15485863 + k)
    base = list(real(rng.choice(REALS))[0]) if rng.random() < .1 else gen_asn.Gen(seed * 1000003 + k, types=rng.choice([2, 5, 9])).texts()
    for _ in range(rng.choice([1, 2, 5])):
        m = bad_asn.tokens(base, rng)
        if m:
            base = m[1]
    texts = [t.encode() for t in base]
    what = 'damaged tokens'
    x = rng.random()
    i = rng.randrange(len(texts))
    if x < .25:
        what, texts[i] = 'cut short', texts[i][:rng.randrange(len(texts[i]) + 1)]
    elif x < .45 and texts[i]:
        b = bytearray(texts[i])
        for _ in range(rng.choice([1, 3, 20])):
            b[rng.randrange(len(b))] = rng.choice([0, 9, 10, 13, 34, 39, 45, 127, 128, 195, 226, 255, rng.randrange(256)])
        what, texts[i] = 'damaged octets', bytes(b)
    elif x < .5:
        what, texts[i] = 'octets', bytes(rng.randrange(256) for _ in range(rng.randrange(300)))
    elif x < .53:
        what, texts[i] = 'UTF-16', texts[i].decode().encode('utf-16')
    elif x < .56:
        what, texts[i] = 'a byte order mark', b'\xef\xbb\xbf' + texts[i]
    elif x < .58:
        what, texts[i] = 'an empty file', b''
    elif x < .6:
        what, texts = 'no file', []
    o = Run(texts)
    r.ev += 1
    r.seen(texts)
    r.counts['hampi-asn1c: ' + what] += 1
    rep = dict(texts=[t.decode('latin-1') for t in texts])
    if o.timeout or o.rc not in (0, 1) or 'panicked' in o.err:
        r.violate('failure', '%s: %s' % (what, o.why()), **rep)
    r.counts['hampi-asn1c: exit %s' % o.rc] += 1
    return r


FAULTS = {
    'rustfmt is missing': None,
    'rustfmt fails at once': 'exit 1',
    'rustfmt fails after some output': 'head -c 300; exit 1',
    'rustfmt fails after all of the output': 'cat; exit 3',
    'rustfmt is killed': 'kill -9 $$',
    'rustfmt is killed after some output': 'head -c 100; kill -9 $$',
    'rustfmt is killed after all of the output': 'cat; kill -15 $$',
    'rustfmt does not read and fails': 'exec <&-; echo "// x"; exit 2',
    'rustfmt fails late': 'cat > /dev/null; sleep .2; exit 1',
    'rustfmt fails after octets that are not text': "cat; printf '\\377'; exit 1",
    'rustfmt is killed after octets that are not text': "printf '\\377\\376'; cat > /dev/null; kill -9 $$",
}
# what a formatter that says it did well leaves behind: no code, or all of it
LIES = {
    'rustfmt does not read, and writes what is not text': "exec <&-; printf '\\377'; exit 0",
    'rustfmt writes what is not text': "cat > /dev/null; printf '\\377'; exit 0",
}


def fault_task(prop, seed, k):
    """a run in which something outside fails: a failure status and no code; a slow or chatty one: the code"""
    r = Res()
    rng = random.Random(seed * 32452843 + k)
    names = REALS
    if rng.random() < .15:
        texts = list(real(rng.choice(names))[0])
    else:
        texts = gen_asn.Gen(seed * 1000003 + k, **dict(rng.choice(PROFILES['C16']))).texts()
    d = tempfile.mkdtemp(prefix='hampi-fault-')
    try:
        sane = Run(texts)
        rep = dict(texts=texts, task=(seed, k))
        if sane.rc != 0:
            r.violate('refused', 'a well-formed specification is refused: ' + sane.why(), **rep)
            return r
        if not sane.out.strip():
            r.violate('output', 'exit 0, and no code is printed', **rep)
            return r
        x = rng.random()
        good = False
        extra = ()
        path = None
        if x < .55:
            what = sorted(FAULTS)[k % len(FAULTS)]
            if FAULTS[what] is None:
                path = d
            else:
                with open(os.path.join(d, 'rustfmt'), 'w') as f:
                    f.write('#!/bin/sh\n%s\n' % FAULTS[what])
                os.chmod(os.path.join(d, 'rustfmt'), 0o755)
                path = d + ':' + os.environ['PATH']
        elif x < .7:
            what = 'a file that does not exist'
            extra = ((rng.randrange(100), os.path.join(d, 'none.asn')),)
        elif x < .76:
            what = 'a directory for a file'
            extra = ((rng.randrange(100), d),)
        elif x < .86:
            good = True
            what = 'a slow rustfmt'
            with open(os.path.join(d, 'rustfmt'), 'w') as f:
                f.write('#!/bin/sh\nsleep .1; echo some warning >&2; cat\n')
            os.chmod(os.path.join(d, 'rustfmt'), 0o755)
            path = d + ':' + os.environ['PATH']
        elif x < .9:
            good = None
            what = rng.choice(sorted(LIES))
            with open(os.path.join(d, 'rustfmt'), 'w') as f:
                f.write('#!/bin/sh\n%s\n' % LIES[what])
            os.chmod(os.path.join(d, 'rustfmt'), 0o755)
            path = d + ':' + os.environ['PATH']
        elif x < .95:
            what = 'standard output is full'
        else:
            what = 'the same file twice'
            texts = texts + [texts[rng.randrange(len(texts))]]
        if what == 'standard output is full':
            o = Run(texts, where='/dev/full')
        else:
            o = Run(texts, path=path, extra=extra)
        r.ev += 1
        r.seen(what, texts)
        r.counts[what] += 1
        rep['fault'] = what
        if o.timeout:
            r.violate('hang', '%s: the compiler does not end' % what, **rep)
        elif good is None and o.rc == 0:
            if o.out != sane.out:
                r.violate('output', '%s: exit 0, and the code is not there (%d of %d octets): %r' % (what, len(o.out), len(sane.out), o.out[:100]), **rep)
        elif good:
            if o.rc != 0 or o.out != sane.out:
                r.violate('output', '%s: the code is not all there (exit %s, %d of %d octets)' % (what, o.rc, len(o.out), len(sane.out)), **rep)
        elif o.rc == 0:
            r.violate('status', '%s: exit 0' % what, **rep)
        elif o.rc < 0:
            r.violate('status', '%s: killed by signal %d' % (what, -o.rc), **rep)
        elif o.out.strip():
            r.violate('code', '%s: exit %s, yet there is code: %r' % (what, o.rc, o.out[:100]), **rep)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r


def seeds(prop, seed, start=0):
    k = start
    while True:
        yield (prop, seed, k)
        k += 1
