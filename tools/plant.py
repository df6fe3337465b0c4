#!/usr/bin/env python3
"""plant.py init | make ID | check ID [PROP..]   (development only: no check uses it)

seeded/ID/edit.py is not kept: `make` takes /tmp/plant/ID.json {property, needs, what_it_breaks, edits: [[file, old, new]..],
files: {name: text}} , applies it to a scratch copy of /repo, builds, tests, runs the demonstration on both trees and
writes seeded/ID/."""
import json, os, shutil, subprocess, sys, re
P = '/tmp/plant'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, cwd=None, timeout=1500):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def init(w):
    d = '%s/%s' % (P, w)
    os.makedirs(d, exist_ok=True)
    sh('rm -rf %s/repo %s/vp; cp -a /repo %s/repo; cp -a /opt/vp %s/vp' % (d, d, d, d))
    sh("sed -i 's#/repo#%s/repo#g' %s/vp/*.sh %s/vp/*.py; sed -i 's#^\\. /opt/vp#. %s/vp#; s#/opt/vp/#%s/vp/#g' %s/vp/*.sh" % (d, d, d, d, d, d))
    print(sh('bash %s/vp/build.sh' % d)[0])


def make(i, w='a'):
    d = '%s/%s' % (P, w)
    repo = d + '/repo'
    j = json.load(open('%s/%s.json' % (P, i)))
    sh('git checkout -q -- . && git clean -fdq -e target', repo)
    sh('git fetch -q %s HEAD && git reset -q --hard FETCH_HEAD' % os.environ.get('HAMPI_FROM', '/repo'), repo)
    for f, old, new in j['edits']:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            return 'edit matches %d times in %s: %r' % (s.count(old), f, old[:80])
        open(p, 'w').write(s.replace(old, new))
    s = os.path.join(V, 'seeded', i)
    os.makedirs(s, exist_ok=True)
    diff = sh('git diff', repo)[1]
    # are the lines changed those of the original?
    orig = False
    for f in {e[0] for e in j['edits']}:
        old = {}
        for l in sh('git blame -s HEAD -- %s' % f, repo)[1].split('\n'):
            m = re.match(r'(\^?[0-9a-f]+)\s+(?:\S+\s+)?(\d+)\) ?(.*)', l)
            if m and m.group(1).startswith('^'):
                old.setdefault(m.group(3), 1)
        for l in sh('git diff -U0 -- %s' % f, repo)[1].split('\n'):
            if l.startswith('-') and not l.startswith('---') and l[1:] in old and len(l.strip()) > 4:
                orig = True
    open(s + '/patch.diff', 'w').write(diff)
    for n, t in j['files'].items():
        open(os.path.join(s, n), 'w').write(t)
    json.dump({k: j[k] for k in ('property', 'needs', 'what_it_breaks')}, open(s + '/meta.json', 'w'), indent=1)
    out = ['original lines: %s' % orig]
    rc, o = sh('bash %s/vp/build.sh' % d)
    if rc:
        return 'does not build\n' + o[-1500:]
    rc, o = sh('bash %s' % os.path.join(s, 'demo.sh'), repo, 300)
    out.append('demo with the change: %d %s' % (rc, o[-300:].strip()))
    if rc == 0:
        return '\n'.join(out)
    sh('bash %s/vp/test.sh %s/out.json' % (d, d), repo)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    got = json.load(open(d + '/out.json'))
    ok = set(got.get('passed', []))
    out.append('stable tests failing: %s' % sorted(base - ok)[:5])
    sh('git checkout -q -- .', repo)
    rc, o = sh('bash %s/vp/build.sh' % d)
    rc, o = sh('bash %s' % os.path.join(s, 'demo.sh'), repo, 300)
    out.append('demo without: %d %s' % (rc, o[-400:].strip() if rc else ''))
    out.append('GOOD' if orig and not (base - ok) and rc == 0 else 'BAD')
    return '\n'.join(out)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'init':
        init(a[1] if len(a) > 1 else 'a')
    elif a[0] == 'make':
        w = a[1]
        for i in a[2:]:
            print(i, make(i, w).replace('\n', '\n   '), flush=True)
