"""Write and build a harness crate around generated types."""
import glob, hashlib, json, os, shutil, subprocess
import rsitems

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HAMPI_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')

CARGO = '''[package]
name = "%s"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
refper = { path = "%s/harness/refper" }
asn1-codecs = { path = "%s/codecs" }
asn1_codecs_derive = { path = "%s/codecs_derive" }
bitvec = "1"
log = "0.4"

[profile.dev]
debug = 0
opt-level = %s
incremental = false
[profile.dev.package."*"]
opt-level = 2
'''

USES = '''#[allow(unused_imports)] use asn1_codecs_derive::AperCodec;
#[allow(unused_imports)] use bitvec::vec::BitVec;
#[allow(unused_imports)] use bitvec::order::Msb0;
'''


class BuildError(Exception):
    pass


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def crate(name, mods, schema, entries, engine, opt=0, member_of=None):
    """mods: [(mod name, rust source, with uses, items)], entries: [(mod, rust type, schema index, label)]"""
    d = os.path.join(BUILD, 'gen', *([member_of] if member_of else []), name)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    c = CARGO % (name, VERIF, REPO, REPO, opt)
    if member_of:
        c = c.replace('[workspace]\n', '')[:c.index('[profile.dev]') - len('[workspace]\n')]
    else:
        shutil.copy(os.path.join(VERIF, 'harness', 'Cargo.lock.gen'), os.path.join(d, 'Cargo.lock'))
    write(os.path.join(d, 'Cargo.toml'), c)
    write(os.path.join(d, 'schema.json'), json.dumps({'types': schema}))
    main = ['#![allow(warnings)]', 'use refper::types::*;', '#[global_allocator] static A: refper::mon::Counting = refper::mon::Counting;']
    calls = []
    for m, src, items in mods:
        body = src + '\npub mod reflect_ {\nuse super::*; use refper::codec::{Reflect, Fields}; use refper::schema::Val;\n' + rsitems.reflect(items) + '\n}\n'
        mine = [e for e in entries if e[0] == m]
        body += 'pub fn codecs_(v: &mut Vec<std::rc::Rc<dyn refper::codec::Codec>>) {\n'
        for _, t, i, label in mine:
            body += '    v.push(refper::types::derived::<%s>(%s, %d));\n' % (t, json.dumps(label), i)
        body += '}\n'
        write(os.path.join(d, 'src', m + '.rs'), body)
        main.append('mod %s;' % m)
        calls.append('    %s::codecs_(&mut v);' % m)
    main.append('fn types() -> Types {\n    let mut v = vec![];\n%s\n    Types::new(%s, include_str!("../schema.json"), v)\n}' % ('\n'.join(calls), json.dumps(engine)))
    main.append('fn main() {\n    if refper::run::args().prop == "C14" {\n        return refper::ub::run(|| Box::new(types()));\n    }\n    refper::run::run(&mut types())\n}')
    write(os.path.join(d, 'src', 'main.rs'), '\n'.join(main) + '\n')
    return d


def workspace(name, members, opt=0):
    """a workspace of crates made by crate(.., member_of=name), built at the same time"""
    d = os.path.join(BUILD, 'gen', name)
    os.makedirs(d, exist_ok=True)
    for x in os.listdir(d):
        if os.path.isdir(os.path.join(d, x)) and x not in members:
            shutil.rmtree(os.path.join(d, x))
    c = CARGO % (name, '', '', '', opt)
    write(os.path.join(d, 'Cargo.toml'), '[workspace]\nresolver = "2"\nmembers = %s\n\n%s' % (json.dumps(members), c[c.index('[profile.dev]'):]))
    shutil.copy(os.path.join(VERIF, 'harness', 'Cargo.lock.gen'), os.path.join(d, 'Cargo.lock'))
    return d


def source():
    """a hash of the sources of the crates under test"""
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/*/**/*.rs', recursive=True) + glob.glob(REPO + '/**/Cargo.toml', recursive=True)):
        if not f.startswith(REPO + '/target/'):
            h.update(f.encode() + open(f, 'rb').read())
    return h.hexdigest()


def fresh(target):
    """cargo compares times: what was built from other sources is built again whatever their times are"""
    t = os.path.join(BUILD, target)
    stamp = os.path.join(t, '.source')
    now = source()
    if os.path.exists(t) and (not os.path.exists(stamp) or open(stamp).read() != now):
        for f in glob.glob(t + '/**/.fingerprint/asn1*', recursive=True, include_hidden=True):
            shutil.rmtree(f, ignore_errors=True)
    os.makedirs(t, exist_ok=True)
    write(stamp, now)


def cargo(d, target, args=('build',), env=None, timeout=700, toolchain=None, after=()):
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, target), CARGO_TERM_COLOR='never')
    e.pop('RUSTFLAGS', None)
    e.update(env or {})
    fresh(target)
    cmd = ['cargo'] + ([toolchain] if toolchain else []) + list(args) + ['--offline', '-q'] + list(after)
    p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode('utf-8', 'replace')
    if p.returncode:
        raise BuildError(out)
    return out
