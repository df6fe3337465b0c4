#!/usr/bin/env python3
"""mutate.py init W | run W GROUP SEED COUNT   (development only: no check uses it)

Mutation testing of the checks: small mechanical changes to the code under test, in a scratch copy of /repo and /verif
under /tmp/mut/W, the checks of the group run in turn (at a fraction of their time) until one of them reports.  The
mutants that none reports are listed in /tmp/mut/W/survivors.txt to be looked at by hand."""
import json, os, random, re, subprocess, sys, time
M = '/tmp/mut'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUPS = {
    'codecs': (['codecs/src/aper'], 'C03 C05 C10 C11 C01 C04 C06 C07 C09 C08 C12 C02'.split()),
    'derive': (['codecs_derive/src'], 'C10 C08 C09 C11 C12 C05 C04 C01 C06 C07'.split()),
    'compiler': (['asn-compiler/src'], 'C16 C17 C21 C22 C19 C18 C23 C20 C15 C25'.split()),
}
SKIP = re.compile(r'^\s*(//|#\[|use |pub use|pub mod|mod |log::|\}|$)|debug!|trace!|warn!|error!\(|^\s*"|_err\(|Err\(|println!|assert')


def ops(l):
    out = []

    def sub(p, r, n=0):
        for m in re.finditer(p, l):
            out.append(l[:m.start()] + m.expand(r) + l[m.end():])
    sub(r' < (?=[^<>]*$)', ' <= ')
    sub(r' <= ', ' < ')
    sub(r' > (?=[^<>]*$)', ' >= ')
    sub(r' >= ', ' > ')
    sub(r' == ', ' != ')
    sub(r' != ', ' == ')
    sub(r' && ', ' || ')
    sub(r' \|\| ', ' && ')
    sub(r' \+ 1\b', '')
    sub(r' - 1\b', '')
    sub(r' \+ ', ' - ')
    sub(r' - ', ' + ')
    sub(r' \+= ', ' -= ')
    sub(r'\btrue\b', 'false')
    sub(r'\bfalse\b', 'true')
    sub(r'(?<=if )!', '')
    sub(r'\bif (?!let)(.*) \{$', r'if !(\1) {')
    sub(r'\bif (?!let)(.*) \{$', r'if false && (\1) {')
    for m in re.finditer(r'(?<![\w.#"])(\d+)(?![\w."])', l):
        k = int(m.group(1))
        out.append(l[:m.start()] + str(k + 1) + l[m.end():])
        if k:
            out.append(l[:m.start()] + str(k - 1) + l[m.end():])
    sub(r'\.\.=', '..')
    sub(r'\.is_some\(\)', '.is_none()')
    sub(r'\.is_none\(\)', '.is_some()')
    sub(r'\.is_empty\(\)', '.len() > 1')
    sub(r'\bSome\((\w[\w.]*)\)(?! =)(?!.*=>)', r'None')
    sub(r'\bmin\(', 'max(')
    sub(r'\bmax\(', 'min(')
    sub(r'\.any\(', '.all(')
    sub(r'\.all\(', '.any(')
    sub(r'\bbreak;', 'continue;')
    if re.match(r'^\s+[\w.]+(\(|\.\w+\().*\);$', l) or re.match(r'^\s+[\w.]+ [-+|]?= .*;$', l) or re.match(r'^\s+[\w.:]+\(.*\)\?;$', l):
        out.append(re.match(r'^\s*', l).group(0) + '// gone')
    return [x for x in out if x != l]


def mutants(repo, dirs):
    res = []
    for d in dirs:
        for root, _, fs in sorted(os.walk(os.path.join(repo, d))):
            for f in sorted(fs):
                if not f.endswith('.rs') or 'uper' in root:
                    continue
                p = os.path.join(root, f)
                ls = open(p).read().split('\n')
                for i, l in enumerate(ls):
                    if l.startswith('#[cfg(test)]'):
                        break
                    if SKIP.search(l):
                        continue
                    for x in ops(l):
                        res.append((os.path.relpath(p, repo), i, l, x))
    return res


def sh(c, **k):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def init(w):
    d = os.path.join(M, w)
    os.makedirs(d, exist_ok=True)
    sh('rm -rf %s/repo; cp -a %s %s/repo; rsync -a --exclude .git --exclude seeded --exclude evidence --exclude __pycache__ %s/ %s/verif/' % (d, os.environ.get('HAMPI_FROM', '/repo'), d, V, d))
    sh("sed -i 's#/repo/#%s/repo/#g' %s/verif/harness/*/Cargo.toml" % (d, d))


def run(w, group, seed, count):
    d = os.path.join(M, w)
    repo, verif = d + '/repo', d + '/verif'
    dirs, props = GROUPS[group]
    ms = mutants('/repo', dirs)
    rng = random.Random(seed)
    # at most one mutant of a line
    rng.shuffle(ms)
    seen, pick = set(), []
    for m in ms:
        if m[:2] not in seen:
            seen.add(m[:2])
            pick.append(m)
    print('%d mutants of %d lines' % (len(ms), len(pick)))
    env = dict(os.environ, HAMPI_REPO=repo, VERIF_SHARDS='4', VERIF_SCALE='.35', VERIF_SEED=str(seed))
    tally = {}
    for f, i, old, new in pick[:count]:
        p = os.path.join(repo, f)
        s = open(p).read()
        ls = s.split('\n')
        assert ls[i] == old
        ls[i] = new
        open(p, 'w').write('\n'.join(ls))
        t = time.time()
        who = None
        try:
            rc, o = sh('cargo check --offline -q -p %s' % {'codecs': 'asn1-codecs', 'codecs_derive': 'asn1_codecs_derive', 'asn-compiler': 'asn1-compiler'}[f.split('/')[0]], cwd=repo)
            if rc:
                who = 'does not compile'
            else:
                order = list(props)
                for c in order:
                    try:
                        rc, o = sh('./check %s quick' % c, cwd=verif, env=env, timeout=400)
                    except subprocess.TimeoutExpired:
                        who = 'timeout ' + c
                        break
                    if rc == 1:
                        who = 'caught ' + c
                        break
                    if rc == 2:
                        who = 'no answer ' + c + ' ' + o[-300:].replace('\n', ' | ')
                        break
        finally:
            open(p, 'w').write(s)
        k = who.split(' ')[0] if who else 'survived'
        tally[k] = tally.get(k, 0) + 1
        print('%4.0f %s:%d %s   %s' % (time.time() - t, f, i + 1, new.strip()[:70], who or 'SURVIVED'), flush=True)
        if k in ('survived', 'no', 'timeout'):
            with open(d + '/survivors.txt', 'a') as h:
                h.write('%s:%d %s\n  - %s\n  + %s\n' % (f, i + 1, who or '', old.strip(), new.strip()))
    print(tally)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'init':
        init(a[1])
    else:
        run(a[1], a[2], int(a[3]), int(a[4]))
