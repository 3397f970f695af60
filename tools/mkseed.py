"""Make a planted bug under /verif/seeded from a spec module.

usage: mkseed.py SPEC.py   where SPEC defines  ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS
Works in a scratch copy of /repo under /tmp; confirms: the patch applies to HEAD, the tests pass with it, the demonstration
passes without it and fails with it, then writes patch.diff, demo.sh, demo.py and meta.json."""
import json, os, runpy, shutil, subprocess, sys, tempfile

SH = '''#!/bin/bash
# cwd /repo; fails when the property is broken
export HOME=/root PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig PYTHONPATH=$PWD/src LC_ALL=C.UTF-8
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
cd "$w" && timeout 200 /opt/venv/bin/python "$here/demo.py"
'''
sp = runpy.run_path(sys.argv[1])
sid = sp['ID']
w = tempfile.mkdtemp(prefix='mkseed', dir='/tmp')
try:
    r = os.path.join(w, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    out = os.path.join(w, 'seed')
    os.makedirs(out)
    open(out + '/demo.py', 'w').write(sp['DEMO'].strip() + '\n')
    open(out + '/demo.sh', 'w').write(SH)
    os.chmod(out + '/demo.sh', 0o755)

    def demo():
        return subprocess.run(['bash', out + '/demo.sh'], cwd=r, capture_output=True, text=True)
    a = demo()
    if a.returncode != 0:
        sys.exit(f'{sid}: demo fails on unchanged tree\n{a.stdout}{a.stderr}')
    for f, old, new in sp['EDITS']:
        p = os.path.join(r, 'src/craterstats', f)
        s = open(p, encoding='utf-8').read()
        if s.count(old) != 1:
            sys.exit(f'{sid}: {f}: {s.count(old)} matches of {old!r}')
        open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=r, text=True)
    b = demo()
    if b.returncode == 0:
        sys.exit(f'{sid}: demo passes with the patch')
    env = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig', PYTHONPATH=r + '/src', LC_ALL='C.UTF-8')
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'src/craterstats/tests'], cwd=r, env=env, capture_output=True, text=True)
    if t.returncode != 0:
        sys.exit(f'{sid}: tests fail\n' + t.stdout[-1500:])
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({'property': sp['PROPERTY'], 'needs': sp['NEEDS'], 'what_it_breaks': sp['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    dst = '/verif/seeded/' + sid
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    print(sid, 'ok; demo says:', (b.stdout + b.stderr).strip().splitlines()[-1][:150])
finally:
    shutil.rmtree(w)
