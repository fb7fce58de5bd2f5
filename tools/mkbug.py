"""Development aid: plant a bug and record it under seeded/.

    python3 tools/mkbug.py SPEC.py [--no-tests] [--checks C01,C02|own|none]

SPEC.py defines ID, PROP, EDITS = [(file, old, new)], DEMO (python source), NEEDS, BREAKS.
The bug is built in a scratch copy of /repo; nothing in /repo changes."""
import json, os, shutil, subprocess, sys, tempfile
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(scratch):
    env = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONPATH=scratch + ':/opt/vp/pyplugin', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    rep = tempfile.mkdtemp()
    r = run([PY, '-m', 'pytest', '-q', '-W', 'ignore', '-p', 'no:cacheprovider', '-p', 'vp_isolate', '-n', '8', '--timeout=300', '--tb=short',
         '--continue-on-collection-errors', '-o', 'junit_family=xunit2', f'--junitxml={rep}/junit.xml', f'{scratch}/tests', f'{scratch}/examples'], cwd=scratch, env=env)
    run([PY, '/opt/vp/results.py', f'{rep}/o.json', f'junit:{rep}/junit.xml'])
    o = json.load(open(f'{rep}/o.json'))
    b = json.load(open('/opt/vp/BASELINE.json'))
    shutil.rmtree(rep)
    return sorted(set(b['stable']) - set(o['passed']))


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    checks = 'own'
    if '--checks' in sys.argv:
        checks = sys.argv[sys.argv.index('--checks') + 1]
    scratch = f'/tmp/bug_{spec["ID"]}'
    if os.path.exists(scratch):
        shutil.rmtree(scratch)
    shutil.copytree('/repo', scratch, symlinks=True)
    d = f'{HOME}/seeded/{spec["ID"]}'
    ok = True
    try:
        for f, old, new in spec['EDITS']:
            p = f'{scratch}/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', '-C', scratch, 'diff']).stdout
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.py', 'w').write(spec['DEMO'])
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump(dict(property=spec['PROP'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(f'{d}/meta.json', 'w'), indent=1)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        a = run([f'{d}/demo.sh'], cwd='/repo', env=env)
        b = run([f'{d}/demo.sh'], cwd=scratch, env=dict(env, PYTHONPATH=scratch))
        print('demo clean', a.returncode, a.stdout[-300:] if a.returncode else '')
        print('demo bug', b.returncode, b.stdout[-300:])
        ok = a.returncode == 0 and b.returncode != 0
        if '--no-tests' not in sys.argv:
            m = tests(scratch)
            print('tests missing', len(m), m[:5])
            ok = ok and not m
        if checks != 'none':
            for c in ([spec['PROP']] if checks == 'own' else checks.split(',')):
                r = run([f'{HOME}/run.sh', c, '--tier', 'quick'], env=dict(env, VERIF_REPO=scratch))
                print(c, 'rc', r.returncode, '\n'.join(l[:300] for l in r.stdout.splitlines() if 'VIOL' in l or 'HARN' in l or l.startswith('  C'))[:1200])
    finally:
        shutil.rmtree(scratch)
    print(spec['ID'], 'KEEP' if ok else 'REJECT')
    if not ok:
        shutil.rmtree(d)


main()
