"""Confirm planted bugs in scratch copies (development tool).

python tools/seed.py NAME...   (names of folders of seeded/; default: all)
For each: applies, stable tests pass, demo 0 without / nonzero with, and which
quick checks report it (all of them, or those in $CHECKS)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ['P%02d' % i for i in range(1, 40)
       if os.path.exists(os.path.join(ROOT, 'harness/checks/p%02d.py' % i))]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR='/opt/venv/mplconfig')
ENV.pop('PYTHONPATH', None)


def run(cmd, cwd, env=ENV, t=400):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout.decode()
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def main(names):
    sd = os.path.join(ROOT, 'seeded')
    names = names or sorted(os.listdir(sd))
    table = {}
    for name in names:
        d = os.path.join(sd, name)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        tmp = tempfile.mkdtemp(prefix='seed')
        try:
            repo = os.path.join(tmp, 'repo')
            shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns(
                '__pycache__'))
            demo = os.path.join(tmp, 'demo')
            shutil.copytree(d, demo, ignore=shutil.ignore_patterns(
                '*.diff', 'meta.json'))
            env = dict(ENV, PYTHONPATH=repo)
            r0, o0 = run(['bash', os.path.join(demo, 'demo.sh')], repo, env)
            a, oa = run(['git', 'apply', os.path.join(d, 'patch.diff')], repo)
            r1, o1 = run(['bash', os.path.join(demo, 'demo.sh')], repo, env)
            t, ot = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                         'no:cacheprovider', '-W', 'ignore', '--deselect',
                         'pvfactors/tests/test_geometry/test_pvarray.py::'
                         'test_ordered_pvarray_gnd_shadow_casting'], repo)
            bad = []
            if a:
                bad.append('apply: ' + oa[-300:])
            if r0:
                bad.append('demo fails unpatched: ' + o0[-300:])
            if not r1 or r1 == 'timeout':
                bad.append('demo passes patched: ' + o1[-300:])
            if t:
                bad.append('tests: ' + ot[-400:])
            print('%s %s %s' % (name, meta['property'],
                                'BAD ' + '; '.join(bad) if bad else 'ok'))
            print('   demo: ' + o1.strip()[-160:].replace('\n', ' | '))
            if bad:
                continue
            got, odd = [], {}
            for c in os.environ.get('CHECKS', ' '.join(ALL)).split():
                env = dict(ENV, VERIF_REPO=repo, VERIF_EVIDENCE=os.path.join(
                    tmp, 'ev'), VERIF_JOBS=os.environ.get('VERIF_JOBS', '8'))
                rc, o = run(['bash', 'run_check.sh', c, 'quick'], ROOT, env)
                if rc == 1:
                    got.append(c)
                elif rc:
                    odd[c] = (rc, o[-200:])
            print('   caught by: %s %s %s' % (
                ' '.join(got), '' if meta['property'] in got
                else '<-- OWN CHECK MISSES', odd or ''), flush=True)
        finally:
            shutil.rmtree(tmp)


if __name__ == '__main__':
    main(sys.argv[1:])
