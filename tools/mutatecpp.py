"""Development tool: mutation testing of the checks of the compiled code.
mutatecpp.py CNN N SEED FILE[:first-last] ...   (files relative to the repository); prints the mutants the quick check misses."""
import os, random, re, shutil, subprocess, sys, tempfile
pid, N, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
rng = random.Random(f'{pid}{seed}')
w = tempfile.mkdtemp(prefix=f'mutc_{pid}_', dir='/tmp')
r, v = w + '/r', w + '/v'
subprocess.check_call(['git', 'clone', '-q', '/repo', r])
shutil.copytree('/verif', v, ignore=shutil.ignore_patterns('.git', 'seeded', 'build'))
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '2'),
       (r'(?<![\w.])0\.0(?![\w.])', '1.0'), (r'(?<![\w.])1\.0(?![\w.])', '0.5'), (r'!\(', '('), (r' \+= ', ' = '), (r' -= ', ' = '), (r'std::min\b', 'std::max'), (r'std::max\b', 'std::min'), (r'\+\+', '--')]
SKIP = re.compile(r'spdlog|logging|runtime_error|StringConverter|print|^\s*(#|//|\*|/\*|template|typedef|using|std::enable_if|typename|class|struct|friend)|enable_if|_debug_logs')
STMT = re.compile(r'^\s*(?!return|throw|const|auto|std::(size_t|list|vector|unordered|pair|priority|function|map|string|uni)|double|bool|int|typename)[\w.\->\[\]()*: &]*(\(.*\)|\s[+\-*]?=\s.*);\s*$')
pool = []
for f in files:
    f, _, span = f.partition(':')
    lines = open(f'{r}/{f}').read().split('\n')
    lo, hi = (map(int, span.split('-')) if span else (1, len(lines)))
    block = False
    for k, l in enumerate(lines, 1):
        if '/*' in l:
            block = True
        if block:
            block = '*/' not in l
            continue
        if not lo <= k <= hi or SKIP.search(l):
            continue
        code = l.split('//')[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if a in (' < ', ' > ') and ('std::' in code[max(0, m.start() - 12):m.start()]):
                    continue
                pool.append((f, k, l, l[:m.start()] + b + l[m.end():]))
        if STMT.match(code):
            pool.append((f, k, l, re.match(r'\s*', l).group() + ';'))
rng.shuffle(pool)
print(f'{pid}: {len(pool)} possible mutants, {N} taken', flush=True)
kill = surv = bad = 0
try:
    for f, k, old, new in pool[:N]:
        p = f'{r}/{f}'
        src = open(p).read().split('\n')
        assert src[k - 1] == old
        open(p, 'w').write('\n'.join(src[:k - 1] + [new] + src[k:]))
        try:
            c = subprocess.run([v + '/run', pid, 'quick'], cwd=v, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900, start_new_session=True)
            rc, out = c.returncode, c.stdout
        except subprocess.TimeoutExpired:
            rc, out = 'timeout', ''
            subprocess.run(['pkill', '-9', '-f', w])
        open(p, 'w').write('\n'.join(src))
        shutil.rmtree(v + '/build/cpp', ignore_errors=True)
        if rc == 1:
            kill += 1
        elif 'cannot build' in out:
            bad += 1
        else:
            surv += 1
            print(f'MISSED rc={rc} {f}:{k}\n    - {old.strip()}\n    + {new.strip()}', flush=True)
            if rc:
                print('      ', out.strip().splitlines()[-1:], flush=True)
    print(f'{pid}: caught {kill}, missed {surv}, not compiling {bad}', flush=True)
finally:
    shutil.rmtree(w)
