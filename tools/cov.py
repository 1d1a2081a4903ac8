#!/usr/bin/env python3
"""Which lines of the library do the quick checks run?   cov.py [IDS...]"""
import ast, collections, glob, os, shutil, subprocess, sys
V = '/verif'
D = '/tmp/vk_cov'
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
ids = sys.argv[1:] or ['C%02d' % i for i in range(1, 21)]
for c in ids:
    env = dict(os.environ, VK_COV=D + '/' + c, VK_OUT=D + '/out')
    subprocess.run([V + '/run.sh', c, '--tier', 'quick'], env=env, cwd=V)
hit = collections.defaultdict(set)
for f in glob.glob(D + '/C*/*'):
    for l in open(f):
        p, n = l.split()
        hit[p].add(int(n))
tot = run = 0
for p in sorted(glob.glob('/repo/legume/**/*.py', recursive=True)):
    r = p[len('/repo/legume/'):]
    code = compile(open(p).read(), p, 'exec')
    lines = set()

    def walk(c):
        lines.update(n for _, _, n in c.co_lines() if n)
        for k in c.co_consts:
            if hasattr(k, 'co_lines'):
                walk(k)
    walk(code)
    doc = set()
    for n in ast.walk(ast.parse(open(p).read())):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.update(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            doc.update([n.lineno] + [d.lineno for d in n.decorator_list])
    lines -= doc | {0}
    miss = sorted(lines - hit[r])
    tot += len(lines)
    run += len(lines) - len(miss)
    print(r, '%d/%d' % (len(lines) - len(miss), len(lines)), miss)
print('total %d/%d' % (run, tot))
