#!/usr/bin/env python3
"""Write and validate planted bugs (seeded/<id>/), from tools/seedspecs/*.py.

  mkseed.py ID...            write the folder, confirm the demonstration
  mkseed.py --tests ID...    also run the repository's stable tests with the change
  mkseed.py --check ID...    also run the registered quick check of the property
  (no ID: all)

A spec is a dict: id, property, edits [(file, old, new)...], needs, breaks, demo.
Everything happens in a scratch copy of /repo under /tmp.
"""
import glob, json, os, re, shutil, subprocess, sys, textwrap, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
BASE = 'c5956c4'
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
os.environ.setdefault("MPLBACKEND", "Agg")
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import legume
assert os.path.realpath(legume.__file__).startswith(os.path.realpath(os.getcwd())), legume.__file__

def hole(eps_b=12., d=0.5, r=0.3, lattice='square', eps_l=1., eps_u=1., x=0., y=0., eps=1.):
    phc = legume.PhotCryst(legume.Lattice(lattice) if isinstance(lattice, str) else lattice,
                           eps_l=eps_l, eps_u=eps_u)
    phc.add_layer(d=d, eps_b=eps_b)
    phc.add_shape(legume.Circle(eps=eps, x_cent=x, y_cent=y, r=r))
    return phc

'''
SH = '''#!/bin/bash
# exit 0 when the guarantee holds, non-zero when it is broken; cwd is the repository
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
export MPLBACKEND=Agg MPLCONFIGDIR="$W" SCRATCH="$W" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2
/opt/venv/bin/python "$D/demo.py"
'''


def specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools/seedspecs/*.py'))):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        for s in ns['SEEDS']:
            assert s['id'] not in out, s['id']
            out[s['id']] = s
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def make(s, tests, check):
    sid = s['id']
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    scratch = '/tmp/seed_' + sid
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree(REPO, scratch, symlinks=True)
    sh(['git', '-C', scratch, 'checkout', '-q', '--', '.'])
    try:
        demo = HEAD + textwrap.dedent(s['demo']).lstrip('\n')
        open(d + '/demo.py', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        t0 = time.time()
        r = sh(['bash', d + '/demo.sh'], cwd=scratch)
        t1 = time.time() - t0
        if r.returncode != 0:
            return 'DEMO FAILS ON CLEAN TREE\n' + r.stdout[-1500:]
        for (f, old, new) in s['edits']:
            p = os.path.join(scratch, f)
            src = open(p).read()
            if src.count(old) != 1:
                return 'old text occurs %d times in %s' % (src.count(old), f)
            open(p, 'w').write(src.replace(old, new))
        diff = sh(['git', '-C', scratch, 'diff']).stdout
        open(d + '/patch.diff', 'w').write(diff)
        # at least one removed line must be an original one
        orig = added = 0
        for f in set(e[0] for e in s['edits']):
            base = set(l.strip() for l in sh(
                ['git', '-C', REPO, 'show', BASE + ':' + f]).stdout.split('\n'))
            for l in diff.split('\n'):
                if l.startswith('-') and not l.startswith('---') and l[1:].strip():
                    if l[1:].strip() in base:
                        orig += 1
                    else:
                        added += 1
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        open(d + '/meta.json', 'a').write('\n')
        msg = ['demo %.0fs, removed lines: %d original, %d mine' % (t1, orig, added)]
        r = sh(['bash', d + '/demo.sh'], cwd=scratch)
        if r.returncode == 0:
            return 'DEMO PASSES WITH THE CHANGE'
        msg.append('demo says: ' + r.stdout.strip().split('\n')[-1][:150])
        if tests:
            t0 = time.time()
            env = dict(os.environ, MPLBACKEND='Agg', OMP_NUM_THREADS='2', PYTHONDONTWRITEBYTECODE='1')
            r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider'] + TESTFILES, cwd=scratch, env=env)
            bad = [l for l in r.stdout.split('\n') if l.startswith(('FAILED', 'ERROR'))]
            msg.append('tests %.0fs: %s %s' % (time.time() - t0, r.stdout.strip().split('\n')[-1], bad))
        if check:
            for c in ([s['property']] + s.get('also', [])):
                t0 = time.time()
                env = dict(os.environ, LEGUME_REPO=scratch, VERIF_SEED='1', VERIF_TIER='quick')
                r = sh([V + '/run.sh', c, '--tier', 'quick'], cwd=V, env=env)
                vio = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                msg.append('%s: %s exit %d, %.0fs, %s' % (
                    c, 'CAUGHT' if r.returncode == 1 and vio else 'MISSED', r.returncode,
                    time.time() - t0, vio[:1]))
        return '\n   '.join(msg)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


TESTFILES = []
for t in json.load(open('/opt/vp/BASELINE.json'))['stable']:
    cls, meth = t.split('::')
    mod, cls = cls.rsplit('.', 1)
    TESTFILES.append('%s.py::%s::%s' % (mod.replace('.', '/'), cls, meth))


if __name__ == '__main__':
    args = sys.argv[1:]
    tests = '--tests' in args
    check = '--check' in args
    ids = [a for a in args if not a.startswith('--')]
    S = specs()
    for sid in (ids or sorted(S)):
        if sid not in S:
            print(sid, 'unknown')
            continue
        print('== %s (%s)' % (sid, S[sid]['property']))
        print('  ', make(S[sid], tests, check), flush=True)
