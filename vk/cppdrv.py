"""Builds the C++ harness from the current /repo/cpp/src under ASan+UBSan and runs one scenario per process."""
import glob
import hashlib
import os
import re
import shutil
import subprocess

from vk.common import REPO, VERIF

HERE = os.path.join(VERIF, 'vk', 'cpp')
PAR = None      # parameters of the parallel execution (C36); None: sequential
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']


def _key(sources):
    h = hashlib.sha256()
    for f in sorted(sources):
        h.update(f.encode() + b'\0' + open(f, 'rb').read())
    return h.hexdigest()[:24]


def build(names, src='harness.cc', flags=SAN, extra_inc=(), libs=(), tag=''):
    """compile (in parallel) the harness for each solver; returns {name: path}"""
    out = os.path.join(VERIF, 'build', 'cpp')
    os.makedirs(out, exist_ok=True)
    files = [f for p in (REPO + '/cpp/src/hub/**/*', REPO + '/cpp/src/builders/**/*', REPO + '/cpp/src/utils/*', REPO + '/cpp/src/*.hh', HERE + '/**/*') for f in glob.glob(p, recursive=True) if os.path.isfile(f)]
    k = _key(files)
    for old in os.listdir(out):
        if not old.startswith(k) and not os.environ.get('VERIF_REPO'):
            shutil.rmtree(os.path.join(out, old), ignore_errors=True)
    d = os.path.join(out, k)
    os.makedirs(d, exist_ok=True)
    bins, jobs = {}, []
    for n in names:
        b = os.path.join(d, n + tag)
        bins[n] = b
        if os.path.exists(b):
            continue
        tmp = f'{b}.{os.getpid()}'
        base = ['g++', '-std=c++17', '-O1', '-g1', '-w', *flags, f'-DVK_{n}', *[f'-I{i}' for i in extra_inc]]
        tail = [f'-I{REPO}/cpp/src', os.path.join(HERE, src), '-o', tmp, '-pthread', *libs]
        jobs.append((n, b, tmp, base, tail, subprocess.Popen(base + [f'-I{HERE}/inc'] + tail, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for n, b, tmp, base, tail, p in jobs:
        log = p.communicate()[0]
        if p.returncode:        # the logging stand-in may not offer what the code now uses: build against the real library
            inc = os.path.join(d, 'inc_real')
            os.makedirs(inc, exist_ok=True)
            shutil.copy(f'{HERE}/inc/config.h', inc)
            r = subprocess.run(base + ['-DFMT_HEADER_ONLY', f'-I{inc}'] + tail, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError(f'cannot build the harness for {n}:\n{log[-3000:]}\n{r.stdout[-3000:]}')
        os.rename(tmp, b)
    return bins


def graph_text(g):
    """g: list of dicts(goal, term, h, f, acts=[(id, [(p, s, c)])])"""
    o = [f'graph {len(g)}']
    for s in g:
        o.append(f"{int(s.get('goal', 0))} {int(s.get('term', 0))} {s.get('h', 0)!r} {len(s.get('f', []))} {' '.join(map(str, s.get('f', [])))} {len(s['acts'])}")
        for a, outs in s['acts']:
            o.append(f"{a} {len(outs)} " + ' '.join(f'{p!r} {t} {float(c)!r}' for p, t, c in outs))
    return '\n'.join(o)


ENV = dict(os.environ, OMP_NUM_THREADS='8', ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:allocator_may_return_null=0', UBSAN_OPTIONS='print_stacktrace=1', LSAN_OPTIONS='')


def scenario(params, g, ops):
    params = {**params, **(PAR or {})}
    return '\n'.join(f'{k} {v}' for k, v in params.items()) + '\n' + graph_text(g) + '\n' + '\n'.join(ops) + '\nend\n'


def execute(run, binary, text, cpu=20, env=None, wall=None):
    """-> list of output lines (split), or None after recording a violation (sanitizer report, crash, illegal domain call, no progress)"""
    if PAR:
        cpu, wall = 60, 400
    run.hit('processes')
    for attempt in range(6):
        try:
            p = subprocess.run(['bash', '-c', f'ulimit -t {cpu}; exec "$0"', binary], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env or ENV, errors='replace', timeout=wall)
        except subprocess.TimeoutExpired:
            run.fail('no-progress:deadlock', text)
            return None
        if 'unexpected memory mapping' not in p.stderr:        # address space layout the race detector cannot use: drawn again
            break
    lines = [l.split(' ') for l in p.stdout.splitlines()]
    why = None
    rep = p.stderr
    frames = [m for m in re.findall(r'#\d+ (?:0x\w+ in )?(.*?) (/[^ \n]+)', rep) if m[1].startswith(REPO)]
    at = ''
    if frames:
        at = os.path.basename(frames[0][1].split(':')[0]) + ':' + re.sub(r'[<(].*', '', re.sub(r'skdecide::\w+<.*?>::(?=[a-z_]+\()', '', frames[0][0]))[-40:]
        fn = re.findall(r'::(~?\w+)\(', frames[0][0])
        if fn:
            at = os.path.basename(frames[0][1].split(':')[0]) + ':' + fn[-1]
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)', rep)
    u = re.search(r'runtime error: (.*)', rep)
    t = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', rep)
    if u:
        why = 'ubsan:' + re.sub(r'0x\w+|\d+', 'N', u.group(1))[:60].strip().replace(' ', '-') + ':' + at
    elif m:
        why = f'{m.group(1)}:{m.group(2)}:{at}'
    elif t:
        why = f'tsan:{t.group(1).strip().replace(" ", "-")}:{at}'
    elif p.returncode in (-24, 152, 137, -9):
        why = 'no-progress:cpu-limit'
    elif p.returncode:
        why = f'crash:exit-{p.returncode}'
    elif any(l[0] == 'ILLEGAL' for l in lines):
        why = 'illegal-domain-call'
    elif any(l[0] == 'BUDGET' for l in lines):
        why = 'no-progress:domain-calls'
    elif not lines or lines[-1][0] != 'done':
        why = 'no-answer'
    if why:
        run.fail(why, (p.stdout[-600:] + '\n' + rep[:1800] + '\n' + text)[:2900])
        return None
    if PAR:
        for l in lines:
            if l[0] == 'par':
                for k, x in zip(('parallel_loops', 'parallel_calls', 'overlapping_calls'), l[1:]):
                    run.hit(k, int(x))
        lines = [l for l in lines if l[0] != 'par']
    return lines
