"""Running the harness binaries in shards, gathering what they observed."""
import array, json, os, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HAMPI_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
EVID = os.path.join(VERIF, 'evidence')
SHARDS = int(os.environ.get('VERIF_SHARDS', '8'))


class HarnessError(Exception):
    """The machinery, not the code under test, failed: no answer."""


class Obs:
    """What one check observed, over all its engines."""

    def __init__(s, listed=()):
        s.listed = listed   # the recorded findings of the property
        s.evaluations = 0
        s.hashes = set()
        s.counts = {}
        s.samples = []
        s.violations = []   # dicts: kind, msg, replay
        s.known = []        # strings
        s.engines = []
        s.rules = []

    def hit(s, k, n=1):
        s.counts[k] = s.counts.get(k, 0) + n

    def seen(s, *parts):
        s.hashes.add(hash(parts) & 0xffffffffffffffff)

    def sample(s, x):
        if len(s.samples) < 40:
            s.samples.append(str(x)[:700])

    def violate(s, kind, msg, replay):
        for f in s.listed:
            if kind == f['kind'] and f['has'] in msg:
                if f['what'] not in s.known:
                    s.known.append(f['what'])
                return
        s.violations.append({'kind': kind, 'msg': msg, 'replay': replay})


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run_shards(obs, engine, binary, prop, seed, secs, cases=10**9, extra=None, env=None, shards=None, wrap=(), args=(), cwd=None):
    """Run the binary once per shard and merge the reports into obs."""
    shards = shards or SHARDS
    tmp = tempfile.mkdtemp(prefix='hampi-verif-')
    procs = []
    e = dict(os.environ, RUST_BACKTRACE='0')
    e.update(env or {})
    t0 = time.time()
    for i in range(shards):
        out = open(os.path.join(tmp, 'out%d' % i), 'w')
        err = open(os.path.join(tmp, 'err%d' % i), 'w')
        cmd = list(wrap) + ([binary] if binary else []) + [ '--prop', prop, '--seed', str(seed), '--shard', str(i), '--cases', str(cases), '--secs', str(secs),
                            '--hashes', os.path.join(tmp, 'h%d' % i)] + list(args)
        procs.append(subprocess.Popen(cmd, stdout=out, stderr=err, env=e, cwd=cwd or tmp))
    dead = time.time() + secs * 3 + 240
    ev = 0
    for i, p in enumerate(procs):
        try:
            p.wait(max(1, dead - time.time()))
        except subprocess.TimeoutExpired:
            for q in procs:
                q.kill()
            raise HarnessError('%s: shard %d did not stop' % (engine, i))
    for i, p in enumerate(procs):
        summary = False
        for l in open(os.path.join(tmp, 'out%d' % i), errors='replace'):
            l = l.strip()
            if not l:
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if 'violation' in d:
                v = d['violation']
                r = v.get('replay')
                try:
                    r = json.loads(r)
                except (TypeError, ValueError):
                    r = {'engine': engine, 'prop': prop, 'seed': seed, 'shard': i, 'where': v.get('where'), 'hex': v.get('hex')}
                r.update(extra or {})
                obs.violate(v['kind'], v['msg'], r)
            if 'summary' in d:
                m = d['summary']
                summary = True
                if m.get('aborted'):    # after a hang, or too much memory: reported above
                    continue
                ev += m['evaluations']
                for k, n in m['counts'].items():
                    obs.hit('%s: %s' % (engine, k), n)
                if i == 0:
                    for x in m['samples']:
                        obs.sample('%s: %s' % (engine, x))
        h = os.path.join(tmp, 'h%d' % i)
        if os.path.exists(h):
            a = array.array('Q')
            a.frombytes(open(h, 'rb').read())
            obs.hashes.update(a)
        err = open(os.path.join(tmp, 'err%d' % i), errors='replace').read()
        if env and env.get('SAN') and ('Sanitizer' in err or 'Undefined Behavior' in err or 'Data race' in err or 'error: memory leaked' in err):
            obs.violate('sanitizer', '%s: %s' % (engine, err[-3000:]), dict({'engine': engine, 'prop': prop, 'seed': seed, 'shard': i, 'case': None}, **(extra or {})))
        elif not summary:
            if p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE) and 'harness:' not in err:
                obs.violate('crash', '%s: the process died of signal %d: %s' % (engine, -p.returncode, err[-1500:]),
                            dict({'engine': engine, 'prop': prop, 'seed': seed, 'shard': i, 'case': None}, **(extra or {})))
            else:
                raise HarnessError('%s shard %d ended with %s\n%s' % (engine, i, p.returncode, err[-3000:]))
    obs.evaluations += ev
    obs.engines.append({'engine': engine, 'shards': shards, 'evaluations': ev, 'wall_s': round(time.time() - t0, 1)})
    subprocess.call(['rm', '-rf', tmp])
    return ev


def findings(prop):
    """defects of the code under test that are recorded, not repaired"""
    pre = 'finding: property=%s ' % prop
    return [json.loads(l[len(pre):]) for l in open(os.path.join(VERIF, 'known-findings.txt')) if l.startswith(pre)]


def finish(obs, prop, tier, seed, t0, rule, minimum=1, extra=None):
    """Evidence file, report lines, exit code."""
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    cov = {
        'evaluations': obs.evaluations,
        'distinct_nontrivial': len(obs.hashes),
        'rule': rule,
        'samples': obs.samples[:20] or ['none'],
        'observed': {k: obs.counts[k] for k in sorted(obs.counts)},
        'engines': obs.engines,
        'violations': len(obs.violations),
        'known_findings_seen': obs.known,
    }
    cov.update(extra or {})
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(time.time() - t0, 1)}, f, indent=1)
    for k in sorted(set(obs.known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if obs.violations:
        kinds = {}
        for v in obs.violations:
            kinds[v['kind']] = kinds.get(v['kind'], 0) + 1
            if kinds[v['kind']] > 3:
                continue
            path = os.path.join(EVID, 'replays', '%s-%s-%d.json' % (prop, v['kind'], kinds[v['kind']]))
            with open(path, 'w') as f:
                json.dump(dict(v, property=prop), f, indent=1)
            log('%s: %s' % (v['kind'], v['msg'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if obs.evaluations < minimum or len(obs.hashes) < 2:
        raise HarnessError('observed too little: %d evaluations, %d distinct' % (obs.evaluations, len(obs.hashes)))
    print('%s: held on %d evaluations (%d distinct), %.1f s' % (prop, obs.evaluations, len(obs.hashes), time.time() - t0))
    return 0
