"""Development tool: create/validate a planted bug.  seed.py SPEC.py [id...]
SPEC.py calls bug(id, prop, edits=[(file, old, new)...], demo=<python source>, needs=, breaks=)."""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', MPLBACKEND='Agg')
DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore PYTHONPATH="$PWD"
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
exec timeout 250 $PY "$here/demo.py"
'''
only = sys.argv[2:]


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def bug(id, prop, edits, demo, needs, breaks, check=True, files=None):
    if only and id not in only:
        return
    d = f'{V}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        r = w + '/r'
        base = {}
        for f, old, new in edits:
            p = f'{r}/{f}'
            s = open(p, newline='').read()
            base.setdefault(f, subprocess.run(['git', 'show', f'9447bc4:{f}'], cwd='/repo', stdout=subprocess.PIPE, text=True).stdout)
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff', '--binary'], cwd=r, stdout=subprocess.PIPE).stdout
        assert diff
        old = set(l.strip() for b in base.values() for l in b.splitlines())
        gone = [l[1:].strip() for l in diff.decode().splitlines() if l.startswith('-') and not l.startswith('---')]
        if not gone or not all(l in old or l.rstrip('\r') in old for l in gone):
            print('   NOTE lines not in the original:', [l for l in gone if l not in old] or 'nothing removed')
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        for name, src in (files or {}).items():
            if os.path.isdir(src):
                shutil.copytree(src, f'{d}/{name}', dirs_exist_ok=True)
            elif os.path.isabs(src) and os.path.exists(src):
                shutil.copy(src, f'{d}/{name}')
            else:
                open(f'{d}/{name}', 'w').write(src)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        a = sh(['bash', d + '/demo.sh'], '/repo')
        b = sh(['bash', d + '/demo.sh'], r)
        t = sh(['bash', '-c', f'PYTHONPATH={r} /opt/venv/bin/python -m pytest -q -p no:cacheprovider -x tests/test_autocast.py 2>&1 | tail -3'], r)
        ok = a.returncode == 0 and b.returncode != 0 and '100%' in t.stdout and 'failed' not in t.stdout
        print(f'{id}: demo base={a.returncode} patched={b.returncode} tests={t.stdout.strip().splitlines()[-1:]}', 'OK' if ok else 'BAD')
        if not ok:
            print(a.stdout[-1500:], '\n-----\n', b.stdout[-1500:])
        if check:
            c = subprocess.run([V + '/run', prop, 'quick'], cwd=V, env=dict(ENV, VERIF_REPO=r, VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res = V + '/tools/seeded_results.json'
            R = json.load(open(res)) if os.path.exists(res) else {}
            R[id] = 'caught' if c.returncode == 1 else 'missed'
            json.dump(dict(sorted(R.items())), open(res, 'w'), indent=1)
            lines = [l.strip() for l in c.stdout.splitlines() if 'mechanism=' in l]
            print(f'   check {prop}: exit {c.returncode}', 'CAUGHT' if c.returncode == 1 else 'MISSED', lines[:3], c.stdout.strip().splitlines()[-1:])
    finally:
        shutil.rmtree(w)


sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
