#!/opt/veriftools/pyvenv/bin/python
"""mutate.py gen DIR            writes every mutant of the code under test as DIR/NNNN.json
   mutate.py tests DIR [P]      which of them pass the stable tests (DIR/NNNN.tests)
   mutate.py checks DIR [P] [cap] [--from DIR/list]
                                runs the checks, capped, against those that do, until one reports a violation
   mutate.py full DIR NNNN...   runs all checks in full
Working copies are made under /dev/shm and removed.  This is a tool for finding what the checks miss, not a check."""
import ast, concurrent.futures, glob, json, os, random, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
FILES = ['cache_dependencies/' + x for x in ('cache.py', 'dependencies.py', 'relations.py', 'transaction.py', 'locks.py', 'defer.py',
         'tagging.py', 'nocache.py', 'utils.py', 'mixins.py', 'exceptions.py')] + \
        ['django_cache_dependencies/' + x for x in ('__init__.py', 'backends.py', 'decorators.py', 'middleware.py', 'utils.py',
         'templatetags/cache_tagging_tags.py')]
CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'],
       ast.Is: ['is not', '=='], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}


def mutants(path):
    src = open('/repo/' + path).read()
    lines = src.splitlines(True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []

    def rep(n, text, what):
        s, e = pos(n)
        out.append((n.lineno, what, (b[:s] + text.encode() + b[e:]).decode()))

    def rep2(n1, n2, what):
        (s1, e1), (s2, e2) = pos(n1), pos(n2)
        out.append((n1.lineno, what, (b[:s1] + b[s2:e2] + b[e1:s2] + b[s1:e1] + b[e2:]).decode()))
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, '%s %s %s' % (seg(n.left), o, seg(n.comparators[0])), 'compare ' + o)
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + o.join(seg(v) for v in n.values) + ')', 'boolop')
            for i in range(len(n.values)):
                rep(n, '(' + (' and ' if o == ' or ' else ' or ').join(seg(v) for j, v in enumerate(n.values) if j != i) + ')', 'drop operand %d' % i)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % seg(n.operand), 'drop not')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            rep(n.test, '(not (%s))' % seg(n.test), 'negate condition')
            if not isinstance(n, ast.While):
                rep(n.test, 'True', 'condition True')
            rep(n.test, 'False', 'condition False')
        if isinstance(n, ast.Constant) and not isinstance(n.value, str):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), 'flip')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), '+1')
                if n.value:
                    rep(n, str(n.value - 1), '-1')
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    s, e = pos(k)
                    t = b[:s].decode().rstrip()
                    t2 = b[e:].decode()
                    if t.endswith(','):
                        t = t[:-1]
                    elif t2.lstrip().startswith(','):
                        t2 = t2.lstrip()[1:]
                    out.append((n.lineno, 'drop keyword ' + k.arg, t + t2))
            if n.args and not isinstance(n.args[-1], ast.Starred) and not n.keywords and len(n.args) > 1:
                s, e = pos(n.args[-1])
                t = b[:s].decode().rstrip()
                out.append((n.lineno, 'drop last argument', t[:-1] + b[e:].decode().lstrip(',')))
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Name):
                    rep(a, 'None', 'argument %d None' % i)
            for i in range(len(n.args) - 1):
                if not isinstance(n.args[i], ast.Starred) and not isinstance(n.args[i + 1], ast.Starred):
                    rep2(n.args[i], n.args[i + 1], 'swap arguments %d' % i)
        if isinstance(n, (ast.Attribute,)) and n.attr in SWAP:
            rep(n, seg(n.value) + '.' + SWAP[n.attr], 'attribute ' + SWAP[n.attr])
        if isinstance(n, ast.BinOp):
            o = {ast.Add: '-', ast.Sub: '+', ast.BitOr: '&', ast.BitAnd: '|', ast.Mult: '+'}.get(type(n.op))
            if o:
                rep(n, '(%s) %s (%s)' % (seg(n.left), o, seg(n.right)), 'operator ' + o)
            rep(n, '(%s)' % seg(n.left), 'left operand only')
        if isinstance(n, ast.AugAssign):
            rep(n, '%s = %s' % (seg(n.target), seg(n.value)), 'plain assignment')
        if isinstance(n, ast.Subscript):
            pass
        body = []
        for f in ('body', 'orelse', 'finalbody'):
            x = getattr(n, f, None)
            if isinstance(x, list):
                body.append(x)
        for stmts in body:
            for i, s in enumerate(stmts):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete, ast.Assert)):
                    rep(s, 'pass', 'drop statement')
                if isinstance(s, ast.Return) and s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                    rep(s, seg(s.value), 'no return')
                if isinstance(s, (ast.Continue,)):
                    rep(s, 'break', 'break')
                if isinstance(s, (ast.For, ast.While)):
                    last = s.body[-1]
                    ind = ' ' * s.body[0].col_offset
                    e = pos(last)[1]
                    out.append((s.lineno, 'one iteration', (b[:e] + ('\n' + ind + 'break').encode() + b[e:]).decode()))
                if isinstance(s, ast.Try):
                    for h in s.handlers:
                        if h.type is not None:
                            rep(h.type, 'ZeroDivisionError', 'handler never')
                    if s.finalbody:
                        pass
                if i + 1 < len(stmts):
                    t = stmts[i + 1]
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Return)) and \
                            not isinstance(t, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) and s.lineno > 12 and \
                            not isinstance(n, (ast.ClassDef, ast.Module)):
                        rep2(s, t, 'swap statements')
    seen = {src}
    for line, what, text in out:
        if text in seen:
            continue
        seen.add(text)
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        yield line, what, text


SWAP = {'begin': 'finish', 'pop': 'get', 'update': 'difference_update', 'add': 'discard', 'append': 'remove', 'parent': 'current',
        'get_start_time': 'get_end_time', 'get_end_time': 'get_start_time', 'release': 'acquire', 'acquire': 'release',
        'set_many': 'get_many', 'extend': '__eq__', 'setdefault': 'get', 'finish': 'begin', 'flush': 'finish'}


def worktree(d, i):
    m = json.load(open('%s/%s.json' % (d, i)))
    t = tempfile.mkdtemp(prefix='mut_', dir='/dev/shm')
    tree = t + '/repo'
    subprocess.run(['cp', '-a', '/repo', tree], check=True)
    open(tree + '/' + m['file'], 'w').write(m['text'])
    return t, tree, m


def fast_tests(tree):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=tree + ':/opt/vp', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    for part in ('django_cache_dependencies/tests', 'cache_dependencies/tests'):
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'pytest_timeout', '-p', 'vp_bootstrap', '-p',
                    'no:cacheprovider', '--timeout=60', '-x', '--deselect', 'cache_dependencies/tests/test_transaction.py::TransactionTestCase::test_add_dependency_and_finish', '--rootdir=' + tree, '-o',
                    'python_files=test_*.py tests/__init__.py', part], cwd=tree, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200)
        except subprocess.TimeoutExpired:
            return False
        if r.returncode:
            return False
    return True


def do_tests(d, i):
    import plant
    out = '%s/%s.tests' % (d, i)
    if os.path.exists(out):
        return
    t, tree, m = worktree(d, i)
    try:
        r = fast_tests(tree)
    finally:
        shutil.rmtree(t)
    open(out, 'w').write('pass' if r else 'fail')


STABLE = set()
ORDER = {'locks.py': 'C06 C07 C05 C09 C19', 'transaction.py': 'C06 C07 C08 C19 C21', 'dependencies.py': 'C10 C07 C04 C03 C01 C11 C12', 'relations.py': 'C03 C19 C09 C12',
         'defer.py': 'C10 C11 C01 C12', 'templatetags': 'C14', 'decorators': 'C13 C08', 'middleware': 'C13 C21', 'django_cache_dependencies/utils': 'C13',
         '__init__': 'C12 C21 C16 C08 C09', 'nocache': 'C15 C14', 'cache.py': 'C03 C11 C10 C18 C12 C21 C01', 'mixins': 'C09 C20', 'backends': 'C17',
         ' cache_dependencies/utils': 'C20 C02 C12', '/tagging.py': 'C11 C12 C08 C02', 'exceptions': 'C11 C10'}
ALL = ['C%02d' % i for i in range(1, 22)]


def do_checks(d, i, cap, workers='1'):
    out = '%s/%s.checks' % (d, i)
    if os.path.exists(out):
        return
    t, tree, m = worktree(d, i)
    order = []
    for k, v in ORDER.items():
        if k in ' ' + m['file']:
            order += [c for c in v.split() if c not in order]
    if not cap:
        order += [c for c in ALL if c not in order]
    res = []
    try:
        for cap, c in [(cap, c) for cap in ([cap, cap * 10] if cap else [0]) for c in order]:
            env = dict(os.environ, VERIF_REPO=tree, MC_CAP=str(cap), MC_OUT=t)
            try:
                p = subprocess.run([V + '/bin/check', c, '--workers', workers], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            except subprocess.TimeoutExpired:
                res.append(c + '=timeout')
                break
            if p.returncode == 1 and b'VIOLATION' in p.stdout:
                res.append(c + '=caught')
                break
            if p.returncode:
                res.append(c + '=%d' % p.returncode)
                if p.returncode == 2:
                    open('%s/%s.err' % (d, i), 'ab').write(p.stdout[-1500:])
    finally:
        shutil.rmtree(t)
    open(out, 'w').write(' '.join(res) or 'SURVIVED')


def main():
    cmd, d = sys.argv[1:3]
    if cmd == 'gen':
        os.makedirs(d, exist_ok=True)
        n = 0
        for f in FILES:
            for line, what, text in mutants(f):
                json.dump({'file': f, 'line': line, 'what': what, 'text': text}, open('%s/%04d.json' % (d, n), 'w'))
                n += 1
        print(n)
        return
    ids = sorted(os.path.basename(x)[:-5] for x in glob.glob(d + '/*.json'))
    if cmd == 'tests':
        STABLE.update(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else [])
        P = int(sys.argv[3])
        with concurrent.futures.ThreadPoolExecutor(P) as ex:
            list(ex.map(lambda i: do_tests(d, i), ids))
    if cmd == 'checks':
        P, cap = int(sys.argv[3]), int(sys.argv[4])
        ids = [i for i in ids if os.path.exists('%s/%s.tests' % (d, i)) and open('%s/%s.tests' % (d, i)).read() == 'pass']
        random.Random(7).shuffle(ids)       # it may be stopped at any time
        with concurrent.futures.ThreadPoolExecutor(P) as ex:
            list(ex.map(lambda i: do_checks(d, i, cap), ids))
    if cmd == 'show':
        import difflib
        for i in ids:
            p = '%s/%s.checks' % (d, i)
            if os.path.exists(p) and 'caught' not in open(p).read():
                m = json.load(open('%s/%s.json' % (d, i)))
                diff = [l.rstrip() for l in difflib.unified_diff(open('/repo/' + m['file']).read().splitlines(), m['text'].splitlines(), n=0, lineterm='') if l[:1] in '+-' and l[:3] not in ('+++', '---')]
                print(i, m['file'], m['line'], m['what'], '|', open(p).read()[:60])
                for l in diff[:8]:
                    print('      ' + l[:150])


main()
