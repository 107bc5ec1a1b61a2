"""tools/seed.py ID PROP: validate and store a planted bug: reads /tmp/seeds/ID.py which defines EDITS = [(file, old, new)],
DEMO (python source; exit 0 iff right), NEEDS, BREAKS"""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')


def run(d, cmd, **k):
    return subprocess.run(cmd, cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build_pyx(d, files):
    for f in files:
        mod = 'pystruct/models/utils' if f == 'src/utils.pyx' else f[:-4]
        so = [os.path.join(d, mod.rsplit('/', 1)[0], n) for n in os.listdir(os.path.join(d, mod.rsplit('/', 1)[0]))
              if n.startswith(os.path.basename(mod) + '.') and n.endswith('.so')][0]
        code = ("import sys; sys.path.insert(0, %r); from pv.harness import build_ext; build_ext(*sys.argv[1:])" % H)
        subprocess.check_call([PY, '-W', 'ignore', '-c', code, os.path.join(d, f), so, '/tmp/seedtree', mod], cwd='/tmp', env=ENV)


def main(sid, prop, tests=True):
    g = {}
    exec(open('/tmp/seeds/%s.py' % sid).read(), g)
    d = '/tmp/seedtree/%s' % sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/seedtree', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=d)
    for f, old, new, *nth in g['EDITS']:
        p = os.path.join(d, f)
        s = open(p).read()
        parts = s.split(old)
        at = nth[0] if nth else 0
        assert len(parts) == 2 or nth and len(parts) > at + 1, (f, len(parts) - 1, old)
        open(p, 'w').write(old.join(parts[:at + 1]) + new + old.join(parts[at + 1:]))
    diff = subprocess.check_output(['git', 'diff'], cwd=d, text=True)
    out = os.path.join(H, 'seeded', sid)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    open(os.path.join(out, 'demo.py'), 'w').write(g['DEMO'].lstrip())
    open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    if any(f.endswith('.pyx') for f, *_ in g['EDITS']):
        build_pyx(d, [f for f, *_ in g['EDITS'] if f.endswith('.pyx')])
    env = dict(ENV, PYTHONPATH=d)
    a = subprocess.run([PY, '-W', 'ignore', '-B', os.path.join(out, 'demo.py')], cwd='/repo', env=dict(ENV, PYTHONPATH='/repo'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = subprocess.run([PY, '-W', 'ignore', '-B', os.path.join(out, 'demo.py')], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = a.returncode == 0 and b.returncode != 0
    print(sid, 'demo clean %d, patched %d' % (a.returncode, b.returncode), 'OK' if ok else 'BAD')
    if a.returncode:
        print(a.stdout[-600:])
    print('   patched says:', b.stdout.strip()[-200:])
    if tests and ok:
        t = run(d, [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '4', '--timeout=600', '--disable-warnings', '--tb=short',
                    "--doctest-glob=*.rst", '-o', 'junit_family=xunit2', '--junitxml=/tmp/seedtree/%s.xml' % sid, 'pystruct', 'doc'])
        subprocess.run(['python3', '/opt/vp/results.py', '/tmp/seedtree/%s.json' % sid, 'junit:/tmp/seedtree/%s.xml' % sid])
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = json.load(open('/tmp/seedtree/%s.json' % sid))
        names = set(base if isinstance(base, list) else base['stable'])
        failed = names - set(res.get('passed', []))
        print(sid, 'tests:', 'pass' if not failed else 'FAIL %s' % sorted(failed)[:5])
    shutil.rmtree(d, ignore_errors=True)


main(sys.argv[1], sys.argv[2], tests='--no-tests' not in sys.argv)
