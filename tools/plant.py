"""Makes and verifies a planted bug.

    plant.py <id>       verify seeded/<id> in a scratch copy of /repo

Applies patch.diff to a copy of /repo, checks that the stable tests still
pass, that demo.sh tells the two trees apart and whether the check of the
property (with VERIF_REPO pointing to the copy) catches it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           TZ='UTC', PYTHONPYCACHEPREFIX='/nonexistent/pyc')


def tests_pass(copy):
    out = os.path.join(copy, '.out.xml')
    subprocess.run(
        ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
         'no:cacheprovider', '--timeout=120', '-o', 'junit_family=xunit2',
         '--junitxml=' + out, 'verktyg/testsuite'],
        cwd=copy, env=dict(ENV, PYTHONPATH=copy), stdout=subprocess.DEVNULL,
        stderr=subprocess.DEVNULL)
    res = os.path.join(copy, '.res.json')
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', res,
                    'junit:' + out], cwd=copy, stdout=subprocess.DEVNULL)
    got = json.load(open(res))
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    missing = set(want) - set(got['passed'])
    os.remove(out)
    os.remove(res)
    return not missing, sorted(missing)[:3]


def demo(folder, copy):
    # demo.sh runs with cwd /repo: here the copy stands in for it
    return subprocess.run(
        ['bash', os.path.join(folder, 'demo.sh')], cwd=copy, env=ENV,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)


def main(bid):
    folder = os.path.join(HERE, 'seeded', bid)
    meta = json.load(open(os.path.join(folder, 'meta.json')))
    base = tempfile.mkdtemp(prefix='plant-')
    try:
        copy = os.path.join(base, 'repo')
        shutil.copytree('/repo', copy)
        clean = demo(folder, copy)
        if clean.returncode:
            return 'demo fails on the clean tree: ' + clean.stdout.decode()
        patch = os.path.join(folder, 'patch.diff')
        subprocess.run(['git', 'apply', patch], cwd=copy, check=True)
        ok, missing = tests_pass(copy)
        if not ok:
            return 'tests fail: %r' % missing
        dirty = demo(folder, copy)
        if not dirty.returncode:
            return 'demo passes on the changed tree'
        r = subprocess.run(
            ['./check', meta['property'], 'quick'], cwd=HERE,
            env=dict(ENV, VERIF_REPO=copy), stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)
        out = r.stdout.decode()
        caught = r.returncode == 1 and (
            'VIOLATION property=' + meta['property']) in out
        return 'ok, %s %s' % (
            meta['property'], 'CAUGHT' if caught else 'MISSED %d %s' % (
                r.returncode, out[-300:]))
    finally:
        shutil.rmtree(base)


def expand(args):
    names = sorted(os.listdir(os.path.join(HERE, 'seeded')))
    return [n for n in names
            if not args or any(n == a or n.startswith(a + '-') for a in args)]


if __name__ == '__main__':
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(2) as pool:
        names = expand(sys.argv[1:])
        for name, result in zip(names, pool.map(main, names)):
            print(name, result, flush=True)
