"""Mutation sweep (a development tool, no check uses it).

python tools/mutate.py list                 -> number of mutants
python tools/mutate.py run OUT.jsonl [stride offset]
Each mutant is applied in a scratch copy of /repo under /tmp; those that the
stable tests miss are given to the quick checks (VERIF_REPO=copy)."""
import ast
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

REPO = os.environ.get('MUT_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['engine.py', 'run.py', 'report.py', 'geometry/base.py',
         'geometry/plot.py', 'geometry/pvarray.py', 'geometry/pvground.py',
         'geometry/pvrow.py', 'geometry/timeseries.py', 'geometry/utils.py',
         'irradiance/base.py', 'irradiance/models.py', 'irradiance/utils.py',
         'viewfactors/aoimethods.py', 'viewfactors/calculator.py',
         'viewfactors/vfmethods.py', 'config.py']
ORDER = {
    'engine.py': 'P06 P11 P09 P20 P13 P19 P23 P12', 'run.py': 'P12 P23 P20',
    'report.py': 'P12 P23', 'geometry/base.py': 'P18 P16 P26 P17 P01',
    'geometry/plot.py': 'P16', 'geometry/pvarray.py': 'P02 P01 P03 P09 P19',
    'geometry/pvground.py': 'P03 P16 P17 P26 P05 P11 P08',
    'geometry/pvrow.py': 'P26 P01 P02 P16 P17 P18 P08 P14',
    'geometry/timeseries.py': 'P26 P17 P16 P01 P04 P05',
    'geometry/utils.py': 'P18 P16', 'config.py': 'P22 P25 P18 P03',
    'irradiance/base.py': 'P08 P06 P20 P25 P13', 'irradiance/models.py':
        'P08 P11 P24 P20 P25 P19 P13 P21 P23', 'irradiance/utils.py': 'P24 P22 P08 P20 P13',
    'viewfactors/aoimethods.py': 'P15 P25', 'viewfactors/calculator.py':
        'P04 P05 P11 P15 P13', 'viewfactors/vfmethods.py':
        'P04 P05 P11 P07'}
ALL = ['P%02d' % i for i in range(1, 40)
       if os.path.exists(os.path.join(ROOT, 'harness/checks/p%02d.py' % i))]
SWAP_ATTR = {'b1': 'b2', 'b2': 'b1', 'x': 'y', 'y': 'x', 'front': 'back',
             'back': 'front', 'shaded': 'illum', 'illum': 'shaded',
             'any': 'all', 'all': 'any', 'maximum': 'minimum',
             'minimum': 'maximum', 'highest_point': 'lowest_point',
             'lowest_point': 'highest_point', 'sin': 'cos', 'cos': 'sin',
             'dni': 'dhi', 'dhi': 'dni', 'rho_front': 'rho_back',
             'rho_back': 'rho_front', 'min': 'max', 'max': 'min',
             'list_ts_surfaces': 'list_ts_surfaces[:-1]',
             'illum_elements': 'shadow_elements',
             'shadow_elements': 'illum_elements'}
SWAP_NAME = {'sind': 'cosd', 'cosd': 'sind', 'max': 'min', 'min': 'max'}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'],
       ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.BitAnd: '|', ast.BitOr: '&', ast.Mod: '//', ast.FloorDiv: '/'}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    starts = [0]
    for line in src.splitlines(True):
        starts.append(starts[-1] + len(line.encode()))
    b = src.encode()

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def add(n, new, kind):
        s, e = span(n)
        if b[s:e].decode() != new:
            out.append((n.lineno, kind, s, e, new))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                docs.add(id(n.body[0]))
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(
                    n.left.value, str):
                continue
            add(n, '(%s) %s (%s)' % (seg(n.left), BIN[type(n.op)],
                                     seg(n.right)), 'bin')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                add(n, '(%s) %s (%s)' % (seg(n.left), op, seg(
                    n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, op.join('(%s)' % seg(v) for v in n.values), 'bool')
        elif isinstance(n, ast.UnaryOp):
            if not isinstance(n.op, ast.UAdd):
                add(n, '(%s)' % seg(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'const')
            elif isinstance(v, int):
                add(n, str(v + 1), 'const')
                if v == 1:
                    add(n, '0', 'const')
            elif isinstance(v, float):
                add(n, repr(v * 1.01 + .01), 'const')
            elif v in ('front', 'back'):
                add(n, repr('back' if v == 'front' else 'front'), 'const')
        elif isinstance(n, ast.Call):
            f = seg(n.func)
            if f == 'np.where' and len(n.args) == 3:
                add(n, 'np.where(%s, %s, %s)' % (
                    seg(n.args[0]), seg(n.args[2]), seg(n.args[1])), 'where')
            for i, k in enumerate(n.keywords):
                if k.arg is None:
                    continue
                parts = [seg(a) for a in n.args] + [
                    '%s=%s' % (q.arg, seg(q.value)) if q.arg
                    else '**' + seg(q.value)
                    for j, q in enumerate(n.keywords) if j != i]
                add(n, '%s(%s)' % (f, ', '.join(parts)), 'dropkw')
            if len(n.args) >= 2 and not any(isinstance(
                    a, ast.Starred) for a in n.args) and f != 'np.where':
                a = [seg(x) for x in n.args]
                for i in range(len(a) - 1):
                    q = list(a)
                    q[i], q[i + 1] = q[i + 1], q[i]
                    add(n, '%s(%s)' % (f, ', '.join(q + [
                        '%s=%s' % (k.arg, seg(k.value)) if k.arg else
                        '**' + seg(k.value) for k in n.keywords])), 'args')
        elif isinstance(n, ast.Attribute) and n.attr in SWAP_ATTR:
            if isinstance(n.ctx, ast.Load):
                add(n, '%s.%s' % (seg(n.value), SWAP_ATTR[n.attr]), 'attr')
        elif isinstance(n, ast.Name) and n.id in SWAP_NAME:
            add(n, SWAP_NAME[n.id], 'name')
        elif isinstance(n, ast.IfExp):
            add(n, '(%s if not (%s) else %s)' % (
                seg(n.body), seg(n.test), seg(n.orelse)), 'ifexp')
        if isinstance(n, ast.If):
            add(n.test, 'not (%s)' % seg(n.test), 'if')
        if isinstance(n, (ast.Expr, ast.AugAssign)) and id(n) not in docs:
            add(n, 'pass', 'delete')
        if isinstance(n, ast.Assign) and isinstance(
                n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, 'pass', 'delete')
        if isinstance(n, ast.Subscript) and isinstance(
                n.slice, (ast.Slice,)) and isinstance(n.ctx, ast.Load):
            add(n, seg(n.value), 'slice')
    return src, out


def all_mutants():
    res = []
    for f in FILES:
        src, out = mutants(os.path.join(REPO, 'pvfactors', f))
        for m in sorted(out, key=lambda q: (q[2], q[3], q[4])):
            res.append((f,) + m)
    return res


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def try_one(args):
    k, mut, done_dir = args
    f, line, kind, s, e, new = mut
    slot = '/tmp/mut/%d' % os.getpid()
    path = os.path.join(slot, 'pvfactors', f)
    if not os.path.exists(slot):
        shutil.copytree(REPO, slot, ignore=shutil.ignore_patterns(
            '.git', '__pycache__', 'docs'))
    orig = open(os.path.join(REPO, 'pvfactors', f)).read()
    b = orig.encode()
    old = b[s:e].decode()
    text = (b[:s] + new.encode() + b[e:]).decode()
    rec = {'k': k, 'file': f, 'line': line, 'kind': kind, 'old': old,
           'new': new}
    try:
        compile(text, f, 'exec')
    except SyntaxError:
        rec['status'] = 'syntax'
        return rec
    with open(path, 'w') as g:
        g.write(text)
    try:
        rec.update(judge(slot, f))
    finally:
        with open(path, 'w') as g:
            g.write(orig)
    return rec


def judge(slot, f):
    env = dict(ENV)
    env.pop('PYTHONPATH', None)
    try:
        r = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p',
             'no:cacheprovider', '-W', 'ignore', '--deselect',
             'pvfactors/tests/test_geometry/test_pvarray.py::'
             'test_ordered_pvarray_gnd_shadow_casting'], cwd=slot, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        return {'status': 'tests'}
    if r.returncode:
        return {'status': 'tests'}
    order = ORDER.get(f, '').split()
    if os.environ.get('MUT_ALL'):
        order += [c for c in ALL if c not in order]
    odd = {}
    for c in order:
        env2 = dict(env, VERIF_REPO=slot, VERIF_JOBS='1', VERIF_SCALE='.25',
                    VERIF_EVIDENCE=os.path.join(slot, 'ev'),
                    MPLCONFIGDIR='/opt/venv/mplconfig')
        try:
            r = subprocess.run(['bash', 'run_check.sh', c, 'quick'],
                               cwd=ROOT, env=env2, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=400)
        except subprocess.TimeoutExpired:
            odd[c] = 'timeout'
            continue
        if r.returncode == 1:
            return {'status': 'killed', 'by': c}
        if r.returncode not in (0, 2):
            odd[c] = r.stdout.decode()[-300:]
    return {'status': 'survived', 'odd': odd}


def main(argv):
    res = all_mutants()
    if argv[0] == 'list':
        import collections
        print(len(res), collections.Counter(r[0] for r in res),
              collections.Counter(r[2] for r in res))
        return
    out = argv[1]
    stride, off = (int(argv[2]), int(argv[3])) if len(argv) > 3 else (1, 0)
    todo = [(k, m, None) for k, m in enumerate(res)]
    random.Random(7).shuffle(todo)
    todo = todo[off::stride]
    if os.environ.get('MUT_SKIP'):     # earlier results
        seen = set()
        for x in os.environ['MUT_SKIP'].split():
            for r in map(json.loads, open(x)):
                if r['status'] != 'survived':
                    seen.add((r['file'], r['kind'], r['old'], r['new']))
        def key(m):
            b = open(os.path.join(REPO, 'pvfactors', m[0]), 'rb').read()
            return m[0], m[2], b[m[3]:m[4]].decode(), m[5]
        todo = [t for t in todo if key(t[1]) not in seen]
    with mp.Pool(int(os.environ.get('MUT_JOBS', '8'))) as pool, \
            open(out, 'a') as g:
        for rec in pool.imap_unordered(try_one, todo):
            g.write(json.dumps(rec) + '\n')
            g.flush()


if __name__ == '__main__':
    main(sys.argv[1:])
