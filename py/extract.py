"""specs/parse_spec.py run on documents, with a stand-in for python-docx, and its output compared with the ASN.1 in them."""
import json, os, random, shutil, subprocess, sys, tempfile
import cc, common, gen_asn

SCRIPT = os.path.join(common.REPO, 'specs', 'parse_spec.py')
STUB = os.path.join(common.VERIF, 'harness', 'docx')
START, STOP = '-- ASN1START', '-- ASN1STOP'
# a paragraph that is not exactly a marker is none
NEAR = ['-- ASN1STARTX', 'x-- ASN1START', ' -- ASN1START', '-- ASN1START ', '--ASN1START', '-- asn1start', '-- ASN1START is the marker', 'see -- ASN1START', '-- ASN1 START',
        '-- ASN1STOPS', 'x-- ASN1STOP', ' -- ASN1STOP', '-- ASN1STOP ', '--ASN1STOP', '-- asn1stop', '-- ASN1STOP ends it', 'see -- ASN1STOP', 'ASN1START', 'ASN1STOP', '- ASN1START', '-- ASN1START -- ASN1STOP',
        '-- ASN1START\nFoo ::= NULL', '-- ASN1STOP\nBar ::= NULL', '-- TAG-FOO-START', '-- TAG-FOO-STOP', '-- ASN1-START', '-- ASN1STARTASN1STOP', '-- ASN1STOP-- ASN1START']
PROSE = ['', ' ', '6.2.2\tMessage definitions', 'The IE \u201cFoo\u201d is OPTIONAL.', 'caf\u00e9 na\u00efve \u6d88\u606f', 'END', '}', 'Zz DEFINITIONS ::= BEGIN', '100% of {0} %s {x} \\n', '--', 'Note 1:\u00a0see 38.331']
CODE = ['', 'Foo ::= SEQUENCE {', '\tbar\tINTEGER (0..7)\t\tOPTIONAL,', '    baz   Baz,    -- Need \u201cR\u201d', '}', '  ', '\t', 'a\u00a0BOOLEAN,', '-- a comment', '-- both -- x NULL,', 'END', 'Foo ::= NULL\nBar ::= NULL',
        'v VisibleString ::= "a""b \\n %s {0}"', 'trailing   ', '...,', '[[ x NULL ]]', '-- \U0001f600', '\u2028x', 'x\ry', '\ufeffx', 'same', 'same', 'Foo-IEs', '*/ /*', '#!']


def expected(paras):
    out, on = [], False
    for p in paras:
        if p == START:
            on = True
        if on:
            out.append(p + '\n')
        if p == STOP:
            on = False
    return ''.join(out)


def only_comments(t):
    i = 0
    while i < len(t):
        if t[i] in ' \t\n\r\v\f':
            i += 1
        elif t.startswith('--', i):
            i += 2
            while i < len(t) and t[i] not in '\n\r\v\f':
                if t.startswith('--', i):
                    i += 2
                    break
                i += 1
        else:
            return False
    return True


def run(d, paras, spec='spec.docx', out='out.asn', argv=None, env=None, old=None):
    with open(os.path.join(d, spec), 'w', encoding='utf-8') as f:
        json.dump(paras, f)
    if old is not None:
        with open(os.path.join(d, out), 'w') as f:
            f.write(old)
    e = dict(os.environ, PYTHONPATH=STUB, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    p = subprocess.run([sys.executable, SCRIPT] + (argv if argv is not None else [spec, '-o', out]), cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    data = None
    if os.path.isfile(os.path.join(d, out)):
        with open(os.path.join(d, out), 'rb') as f:
            data = f.read()
    return p.returncode, data, p.stderr.decode('utf-8', 'replace')[-300:]


def judge(paras, rc, data, err):
    """what is wrong with the output, or nothing"""
    if rc != 0:
        return 'exit %s for a document that can be read: %s' % (rc, err)
    if data is None:
        return 'exit 0 and no output file'
    want = expected(paras).encode('utf-8')
    if not data.endswith(want):
        try:
            t = data.decode('utf-8')
        except UnicodeDecodeError:
            return 'the output is not UTF-8'
        g = t.split('\n')
        w = want.decode('utf-8').split('\n')
        k = next((i for i in range(1, min(len(g), len(w)) + 1) if g[-i] != w[-i]), None)
        return 'the output does not end with the ASN.1 of the document; from its end, line %s: %r' % (k, (g[-k][:200] if k else len(g), 'expected', w[-k][:200] if k else len(w)))
    head = data[:len(data) - len(want)]
    try:
        if not only_comments(head.decode('utf-8')):
            return 'something other than comments before the ASN.1 of the document: %r' % head[-300:]
    except UnicodeDecodeError:
        return 'the output is not UTF-8'
    return None


def classify(why, err, paras, spec, out, env):
    """the kind of a violation: two are identified by what the document is called and by the locale"""
    text = expected(paras) + spec + out
    if why.startswith('something other than comments before') and ('--' in spec + out or '\n' in spec + out):
        return 'header'
    lone = any(0xd800 <= ord(c) < 0xe000 for c in text)
    if why.startswith('exit ') and 'UnicodeEncodeError' in err and (lone or env.get('PYTHONUTF8') == '0' and not text.isascii()):
        return 'encoding'
    return 'output'


ENVS = [{}, {}, {}, {'LC_ALL': 'C'}, {'LC_ALL': 'C.UTF-8'}, {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}]
SPECS = ['spec.docx', '38331 f50.docx', '38331--f50.docx', 'sp\u00e9c.docx', os.fsdecode(b'sp\xe9c.docx'), "it's.docx", 'a--b--c.docx', 'new\nline.docx', '{0}%s.docx', 'x---y.docx']
OUTS = ['out.asn', 'out file.asn', 'out--x.asn', 'o.txt', 'out']


def document(rng):
    paras, on = [], False
    for _ in range(rng.choice([0, 1, 3, 8, 20, 60, 300])):
        x = rng.random()
        if x < .12:
            # mostly in turn, now and then twice or without the other
            on = not on if rng.random() < .85 else on
            paras.append(START if on else STOP)
        elif x < .25:
            paras.append(rng.choice(NEAR))
        else:
            paras.append(rng.choice(CODE if on else PROSE) if rng.random() < .8 else rng.choice(CODE + PROSE) + str(rng.randrange(100)))
    return paras


def wrapped(rng, text):
    """the text as a document: cut anywhere between lines, with prose in the gaps"""
    paras = [rng.choice(PROSE + NEAR) for _ in range(rng.randrange(5))] + [START]
    for line in text.split('\n'):
        if rng.random() < .03:
            paras += [STOP] + [rng.choice(PROSE) for _ in range(rng.randrange(4))] + [START]
        paras.append(line)
    return paras + [STOP] + [rng.choice(PROSE) for _ in range(rng.randrange(3))]


def task(prop, seed, k):
    r = cc.Res()
    rng = random.Random(seed * 86028121 + k)
    d = tempfile.mkdtemp(prefix='hampi-extract-')
    try:
        x = rng.random()
        if x < .7:
            paras = document(rng)
            spec, out = rng.choice(SPECS), rng.choice(OUTS)
            old = rng.choice([None, None, 'x' * 100000, '-- older\n'])
            env = rng.choice(ENVS)
            rep = dict(paras=paras, spec=spec, out=out, env=env, old=old and old[:10])
            # the flag before the output is not looked at beyond its place
            rc, data, err = run(d, paras, spec, out, env=env, old=old)
            r.ev += 1
            r.seen(paras, spec, out, sorted(env.items()))
            r.counts['documents'] += 1
            r.counts['paragraphs'] += len(paras)
            r.counts['in another locale' if env else 'in this locale'] += 1
            why = judge(paras, rc, data, err)
            if why:
                r.violate(classify(why, err, paras, spec, out, env), why, **rep)
            elif k % 50 == 0:
                r.samples.append('%d paragraphs, %d octets written' % (len(paras), len(data)))
        elif x < .85:
            # nothing can come of it: a failure status
            paras = [START, 'Foo ::= NULL', STOP]
            what = rng.choice(['no arguments', 'one argument', 'no output', 'no document', 'no folder', 'full device', 'no document at all'])
            argv = {'no arguments': [], 'one argument': ['spec.docx'], 'no output': ['spec.docx', '-o'], 'no document': ['none.docx', '-o', 'out.asn'], 'no folder': ['spec.docx', '-o', 'none/out.asn'],
                    'full device': ['spec.docx', '-o', '/dev/full'], 'no document at all': ['bad.docx', '-o', 'out.asn']}[what]
            with open(os.path.join(d, 'bad.docx'), 'wb') as f:
                f.write(b'\x00\xffPK')
            rc, data, err = run(d, paras, argv=argv)
            r.ev += 1
            r.seen(what)
            r.counts['failures: ' + what] += 1
            if rc == 0:
                r.violate('status', '%s: exit 0' % what, paras=paras, argv=argv)
        else:
            # what the compiler makes of the extracted text is what it makes of the text
            if rng.random() < .1:
                texts = list(cc.real(rng.choice(cc.REALS))[0])
            else:
                texts = gen_asn.Gen(seed * 1000003 + k, **dict(rng.choice(cc.PROFILES['C16']))).texts()
            a = cc.Run(texts)
            if a.rc != 0:
                return r
            got, docs = [], []
            for i, t in enumerate(texts):
                paras = wrapped(rng, t if isinstance(t, str) else t.decode('utf-8'))
                docs.append(paras)
                rc, data, err = run(d, paras, rng.choice(['spec.docx', 'a-b.docx']), 'out%d.asn' % i)
                r.ev += 1
                why = judge(paras, rc, data, err)
                if why:
                    r.violate('output', why, paras=paras, spec='spec.docx', out='out.asn', env={}, old=None)
                    return r
                got.append(data.decode('utf-8'))
            b = cc.Run(got)
            r.seen(docs)
            r.counts['specifications extracted and compiled'] += 1
            if b.rc != 0 or a.out != b.out:
                r.violate('compiled', 'the extracted specification compiles to something else than the specification: exit %s, %d of %d octets' % (b.rc, len(b.out), len(a.out)), docs=docs, texts=texts)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r


def replay(r):
    d = tempfile.mkdtemp(prefix='hampi-extract-')
    try:
        if r.get('docs'):
            cc.build()
            got = []
            for p in r['docs']:
                rc, data, err = run(d, p)
                print(judge(p, rc, data, err))
                got.append((data or b'').decode('utf-8', 'replace'))
            a, b = cc.Run(r['texts']), cc.Run(got)
            print('compiled: exit %s and %s' % (a.rc, b.rc))
            return int(b.rc != 0 or a.out != b.out)
        if r.get('argv') is not None:
            with open(os.path.join(d, 'bad.docx'), 'wb') as f:
                f.write(b'\x00\xffPK')
            rc, _, err = run(d, r['paras'], argv=r['argv'])
            print('exit %s: %s' % (rc, err))
            return int(rc == 0)
        why = judge(r['paras'], *run(d, r['paras'], r['spec'], r['out'], env=r['env'], old=r['old'] and r['old'] * 10000))
        print(why)
        return int(bool(why))
    finally:
        shutil.rmtree(d, ignore_errors=True)
