"""Development tool: mutation testing of a check.
mutate.py CNN N SEED FILE[:regex of function names] ...   (files relative to the repository)
With RARE=K in the environment a mutation only takes effect at every K-th execution of its place.
Works on a scratch clone of /repo and a scratch copy of /verif under /tmp; prints the mutants the quick check misses."""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
pid, N, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
RARE = int(os.environ.get('RARE', 0))
TAIL = f'\nimport itertools as _vk_it\n_vk_n = _vk_it.count(1)\ndef _vk_rare(): return next(_vk_n) % {RARE} == 0\n'.encode() if RARE else b''
rng = random.Random(f'{pid}{seed}')
w = tempfile.mkdtemp(prefix=f'mut_{pid}_', dir='/tmp')
r, v = w + '/r', w + '/v'
subprocess.check_call(['git', 'clone', '-q', '/repo', r])
subprocess.check_call(['rsync', '-a', '--exclude', '.git', '--exclude', 'seeded', '/verif/', v + '/']) if shutil.which('rsync') else shutil.copytree('/verif', v, ignore=shutil.ignore_patterns('.git', 'seeded'))
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*'}
SKIP_FUNC = re.compile('plot|__str__|__repr__|^print|^main|^run_|_example|render')


def mutants(path, pat):
    src = open(path, newline='').read()
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    out = []

    def seg(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, kind, fn, span=None):
        a, e = span or seg(n)
        if RARE:
            A, E = (a, e) if kind in ('neg', 'filter') else seg(n)
            old, new = b[A:E].decode(), b[A:a].decode() + new + b[e:E].decode()
            if kind == 'del':
                if '\n' in old or isinstance(n, (ast.Break, ast.Continue)):
                    return
                new = f'{old} if not _vk_rare() else None' if isinstance(n, ast.Expr) else f'if not _vk_rare(): {old}'
            else:
                new = f'(({new}) if _vk_rare() else ({old}))'
            a, e = A, E
        out.append((a, e, new, kind, n.lineno, fn))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if SKIP_FUNC.search(n.name):
                return
            fn = (fn + '.' if fn else '') + n.name
            for c in n.body:
                walk(c, fn)
            return
        if isinstance(n, ast.ClassDef):
            for c in n.body:
                walk(c, (fn + '.' if fn else '') + n.name)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('print', 'super', 'TypeVar'):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('debug', 'info', 'warning', 'format'):
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == 'verbose':
            return
        if isinstance(n, ast.AnnAssign) and n.value is None:
            return
        if fn and (not pat or re.search(pat, fn)):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, rr = seg(n.left), seg(n.comparators[0])
                add(n, ' ' + CMP[type(n.ops[0])] + ' ', 'cmp', fn, (l[1], rr[0])) if '(' not in b[l[1]:rr[0]].decode() and ')' not in b[l[1]:rr[0]].decode() else None
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                l, rr = seg(n.left), seg(n.right)
                m = b[l[1]:rr[0]].decode()
                if m.strip() in ('+', '-', '*', '/', '//', '%') and not isinstance(n.left, (ast.List, ast.JoinedStr)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    add(n, BIN[type(n.op)], 'bin', fn, (l[1], rr[0]))
            elif isinstance(n, ast.BoolOp):
                l, rr = seg(n.values[0]), seg(n.values[1])
                m = b[l[1]:rr[0]].decode()
                if m.strip() in ('and', 'or'):
                    add(n, m.replace('and', 'OR').replace('or', 'and').replace('OR', 'or'), 'bool', fn, (l[1], rr[0]))
            elif isinstance(n, ast.Constant) and type(n.value) in (int, bool):
                add(n, str(not n.value) if isinstance(n.value, bool) else str(n.value + 1), 'const', fn)
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n.test, (ast.Compare, ast.Constant)):
                a, e = seg(n.test)
                add(n, 'not (' + b[a:e].decode() + ')', 'neg', fn, (a, e))
            elif isinstance(n, (ast.AugAssign, ast.Break, ast.Continue)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                if not (isinstance(n, ast.Expr) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'print'):
                    add(n, 'pass', 'del', fn)
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                add(n, 'pass', 'del', fn)
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args) and not (isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'getattr', 'zip')):
                a, e = seg(n.args[0]), seg(n.args[1])
                add(n, b[e[0]:e[1]].decode() + b[a[1]:e[0]].decode() + b[a[0]:a[1]].decode(), 'swap', fn, (a[0], e[1]))
            elif isinstance(n, ast.comprehension) and n.ifs:
                a, e = seg(n.ifs[0])
                add(n.ifs[0], 'True', 'filter', fn, (a, e))
        for f, val in ast.iter_fields(n):
            if f in ('annotation', 'returns', 'decorator_list', 'type_comment'):
                continue
            for c in val if isinstance(val, list) else [val]:
                if isinstance(c, ast.AST):
                    walk(c, fn)
    walk(ast.parse(src), '')
    return b, out


pool = []
for f in files:
    f, _, pat = f.partition(':')
    b, ms = mutants(f'{r}/{f}', pat)
    pool += [(f, b, m) for m in ms]
rng.shuffle(pool)
print(f'{pid}: {len(pool)} possible mutants, {N} taken', flush=True)
kill = surv = 0
try:
    for f, b, (a, e, new, kind, line, fn) in pool[:N]:
        p = f'{r}/{f}'
        nb = b[:a] + new.encode() + b[e:] + TAIL
        try:
            compile(nb, p, 'exec')
        except SyntaxError:
            continue
        open(p, 'wb').write(nb)
        t = time.time()
        try:
            c = subprocess.run([v + '/run', pid, 'quick'], cwd=v, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            rc = c.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        open(p, 'wb').write(b)
        if rc == 1:
            kill += 1
        else:
            surv += 1
            src = b[:a].decode().splitlines()
            full = b.decode().splitlines()[line - 1].strip()
            nl = nb.decode().splitlines()[line - 1].strip()
            print(f'MISSED rc={rc} {f}:{line} {fn} [{kind}]\n    - {full}\n    + {nl}   ({b[a:e].decode()[:60]!r} -> {new[:60]!r})', flush=True)
            if rc not in (0, 1):
                print('      ', c.stdout.strip().splitlines()[-1:] if rc != 'timeout' else '', flush=True)
    print(f'{pid}: caught {kill}, missed {surv}', flush=True)
finally:
    shutil.rmtree(w)
