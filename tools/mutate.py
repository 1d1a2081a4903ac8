#!/usr/bin/env python3
"""Mutation campaign: which small changes of the library do the checks miss?

  mutate.py list [FILE...]                    count the mutants
  mutate.py run N SEED LOG [FILE...]          try N of them (resumes from LOG)

Only a development aid (the checks themselves never sample).  Every mutant is
made in a scratch copy of /repo and shown to the checks that cover its file,
cheapest first, until one reports a violation.  Survivors are judged by hand.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    'legume/phc/lattice.py': 'C04 C03 C02',
    'legume/phc/shapes.py': 'C01 C18 C02 C14 C21',
    'legume/phc/layer.py': 'C04 C15 C02 C14 C21',
    'legume/phc/phc.py': 'C02 C20 C21 C19',
    'legume/gme/slab_modes.py': 'C05 C10 C06 C11 C14 C07 C21',
    'legume/gme/matrix_elements.py': 'C06 C10 C07',
    'legume/gme/gme.py': 'C04 C06 C10 C11 C09 C08 C13 C14 C21',
    'legume/pwe/pwe.py': 'C04 C12 C13 C14 C21',
    'legume/exc/exc.py': 'C15 C04 C16 C13 C21',
    'legume/pol/pol.py': 'C16 C13 C21',
    'legume/minimize.py': 'C17 C21',
    'legume/gds.py': 'C18 C21',
    'legume/viz.py': 'C19 C21',
    'legume/utils.py': 'C20 C04 C14',
    'legume/primitives.py': 'C20 C14',
    'legume/backend.py': 'C20 C08 C14',
    'legume/print_utils.py': 'C08',
    'legume/print_backend.py': 'C08',
    'legume/constants.py': 'C15 C16 C20',
}
SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*',
        ast.FloorDiv: '/', ast.Mod: '//'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
DROP = {'conj', 'real', 'imag', 'abs', 'transpose', 'sort', 'array', 'square',
        'sqrt', 'float', 'get_value', 'ravel', 'copy', 'list', 'lower'}


def mutants(path):
    src = open(os.path.join('/repo', path)).read()
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()
    out = []

    def put(n, new, what, s=None, e=None):
        if s is None:
            s, e = pos(n)
        out.append((path, n.lineno, what, s, e, new))
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(n.value)
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                doc.add(m)
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                doc.add(m)
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP and not isinstance(n.left, ast.Constant):
            s, e = pos(n.left)[1], pos(n.right)[0]
            gap = b[s:e].decode()
            tok = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**',
                   ast.FloorDiv: '//', ast.Mod: '%'}[type(n.op)]
            if gap.count(tok) == 1 and not isinstance(n.left, ast.Constant):
                if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                    continue
                put(n, gap.replace(tok, SWAP[type(n.op)]), 'op %s -> %s' % (tok, SWAP[type(n.op)]), s, e)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            s, e = pos(n.left)[1], pos(n.comparators[0])[0]
            gap = b[s:e].decode().strip(' ()')
            put(n, ' ' + CMP[type(n.ops[0])] + ' ', 'cmp %s -> %s' % (gap, CMP[type(n.ops[0])]), s, e) \
                if '\n' not in gap and '(' not in b[s:e].decode() and ')' not in b[s:e].decode() else None
        elif isinstance(n, ast.BoolOp):
            s, e = pos(n.values[0])[1], pos(n.values[1])[0]
            gap = b[s:e].decode()
            a, c = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            if gap.count(a) == 1:
                put(n, gap.replace(a, c), '%s -> %s' % (a, c), s, e)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, seg(n.operand) if not isinstance(n.operand, ast.Constant) else '(' + seg(n.operand) + ')', 'drop minus')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(' + seg(n.operand) + ')', 'drop not')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), 'const %d + 1' % n.value)
                if n.value > 0:
                    put(n, str(n.value - 1), 'const %d - 1' % n.value)
            elif isinstance(n.value, float) and n.value != 0:
                put(n, '(%r)' % (n.value * 2), 'const %r * 2' % n.value)
                if abs(n.value) < 1e-3:
                    put(n, '(%r)' % (n.value * 1e6), 'const %r * 1e6' % n.value)
            elif isinstance(n.value, complex):
                put(n, '(-%r)' % n.value, 'const -j')
        elif isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if name in DROP and n.args:
                put(n, '(' + seg(n.args[0]) + ')', 'drop %s()' % name)
            elif name in DROP and isinstance(n.func, ast.Attribute) and not n.args:
                put(n, seg(n.func.value), 'drop .%s()' % name)
            sw = {'cos': 'sin', 'sin': 'cos', 'max': 'min', 'min': 'max', 'amax': 'amin', 'vstack': 'hstack',
                  'zeros': 'ones', 'ones': 'zeros', 'real': 'imag', 'floor': 'ceil', 'argmin': 'argmax'}
            if name in sw and isinstance(n.func, ast.Attribute):
                s, e = pos(n.func)
                put(n, seg(n.func.value) + '.' + sw[name], '%s -> %s' % (name, sw[name]), s, e)
            for k in n.keywords:
                if k.arg:
                    s, e = pos(k)
                    # drop a keyword argument
                    t = b[e:e + 1].decode()
                    if t == ',':
                        put(k, '', 'drop keyword %s' % k.arg, s, e + 1)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not isinstance(n.args[0], ast.Constant):
                s0, e0 = pos(n.args[0]); s1, e1 = pos(n.args[1])
                if b[s0:e0] != b[s1:e1]:
                    put(n, b[s1:e1].decode() + b[e0:s1].decode() + b[s0:e0].decode(), 'swap arguments', s0, e1)
        elif isinstance(n, ast.Slice):
            if n.step is not None and seg(n.step).replace(' ', '') == '-1':
                s, e = pos(n.step)
                put(n.step, '1', 'no reversal')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.lineno == n.end_lineno:
            if isinstance(n, ast.AugAssign):
                t = seg(n)
                op = {'+=': '-=', '-=': '+='}
                for k in op:
                    if k in t:
                        put(n, t.replace(k, '=', 1), 'aug to =')
            elif isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                put(n, 'pass', 'delete assignment')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, 'pass', 'delete call')
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a, c in (('a1', 'a2'), ('b1', 'b2'), ('z_min', 'z_max'), ('eps_b', 'eps_avg'),
                         ('gmode_te', 'gmode_tm'), ('T1', 'T2'), ('G1', 'G2'), ('n1g', 'n2g'),
                         ('x_cent', 'y_cent'), ('x_edges', 'y_edges'), ('freqs', 'freqs_im'),
                         ('eps_array', 'eps_array_val'), ('d_array', 'd_array_val')):
                s, e = pos(n)
                if n.attr == a:
                    put(n, seg(n)[:-len(a)] + c, '%s -> %s' % (a, c))
                elif n.attr == c and a not in ('eps_array', 'd_array'):
                    put(n, seg(n)[:-len(c)] + a, '%s -> %s' % (c, a))
        elif isinstance(n, ast.Raise):
            put(n, 'pass', 'delete raise')
        elif isinstance(n, ast.Break):
            put(n, 'pass', 'delete break')
        elif isinstance(n, ast.If) and not n.orelse:
            put(n.test, '(' + seg(n.test) + ') and False', 'never') if n.test.lineno == n.test.end_lineno else None
    for m in out:
        src2 = (b[:m[3]] + m[5].encode() + b[m[4]:]).decode()
        try:
            ast.parse(src2)
        except SyntaxError:
            continue
        yield m + (src2,)


def show(m):
    new = m[6].split('\n')
    old = open('/repo/' + m[0]).read().split('\n')
    d = [i for i in range(min(len(new), len(old))) if new[i] != old[i]]
    i = d[0] if d else 0
    return '%s:%d [%s] %s  =>  %s' % (m[0], i + 1, m[2], old[i].strip()[:90], new[i].strip()[:90])


def one(m, jobs):
    d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    try:
        shutil.copytree('/repo/legume', d + '/legume', ignore=shutil.ignore_patterns('__pycache__'))
        open(os.path.join(d, m[0]), 'w').write(m[6])
        r = subprocess.run(['/opt/venv/bin/python', '-c', 'import legume'], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return 'import', 0
        t0 = time.time()
        res = []
        for c in MAP[m[0]].split():
            if c in os.environ.get('MUT_SKIP', '').split(','):
                continue
            env = dict(os.environ, LEGUME_REPO=d, VERIF_SEED='1', VERIF_TIER='quick', VK_STOP='1',
                       VK_OUT=d + '/out', VERIF_JOBS=str(jobs), OMP_NUM_THREADS='1')
            try:
                r = subprocess.run([V + '/run.sh', c, '--tier', 'quick'], cwd=V, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res.append(c + ':timeout')
                continue
            if 'VIOLATION' in r.stdout:
                key = [l for l in r.stdout.split('\n') if 'key=' in l][:1]
                return 'killed %s %s' % (c, key[0].strip()[:80] if key else ''), time.time() - t0
            if r.returncode:
                res.append(c + ':rc%d' % r.returncode)
        return 'SURVIVED ' + ' '.join(res), time.time() - t0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'list':
        tot = 0
        for f in (sys.argv[2:] or MAP):
            n = len(list(mutants(f)))
            tot += n
            print(f, n)
        print(tot)
    else:
        N, seed, log = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
        files = sys.argv[5:] or list(MAP)
        par = int(os.environ.get('MUT_PAR', '3'))
        ms = []
        for f in files:
            ms += list(mutants(f))
        random.Random(seed).shuffle(ms)
        done = set(l.split(' || ')[0] for l in open(log)) if os.path.exists(log) else set()
        q = [m for m in ms[:N] if show(m) not in done]
        lock = threading.Lock()

        def work():
            while True:
                with lock:
                    if not q:
                        return
                    m = q.pop(0)
                r, t = one(m, max(1, 8 // par))
                with lock:
                    open(log, 'a').write('%s || %s || %.0fs\n' % (show(m), r, t))
        ts = [threading.Thread(target=work) for _ in range(par)]
        [t.start() for t in ts]
        [t.join() for t in ts]
