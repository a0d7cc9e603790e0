"""seeded.py [-a] [ids...]: runs the checks against the planted changes.

Each change is applied to a scratch clone of /repo; by default the check of
the property it is planted against is run, with -a every check.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
CHECKS = ['C%02d' % i for i in range(1, 30)]


def run(ident, every):
    folder = os.path.join(SEEDED, ident)
    prop = json.load(open(os.path.join(folder, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='seeded-')
    try:
        src = os.path.join(tmp, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', src])
        subprocess.check_call(['git', '-C', src, 'apply',
                               os.path.join(folder, 'patch.diff')])
        demo = subprocess.run(['bash', os.path.join(folder, 'demo.sh')],
                              cwd=src, capture_output=True).returncode
        clean = subprocess.run(['bash', os.path.join(folder, 'demo.sh')],
                               cwd='/repo', capture_output=True).returncode
        caught = []
        env = dict(os.environ, VERIF_REPO=src, VERIF_JOBS='2',
                   VERIF_EVIDENCE=os.path.join(tmp, 'ev'))
        for c in CHECKS if every else [prop]:
            p = subprocess.run([sys.executable,
                                os.path.join(VERIF, 'vp', 'run.py'), c,
                                'quick'], cwd=VERIF, env=env,
                               capture_output=True, text=True)
            if p.returncode == 1 and 'VIOLATION property=' + c in p.stdout:
                caught.append(c)
            elif p.returncode:
                caught.append('%s?%d' % (c, p.returncode))
        return ident, prop, clean, demo, caught
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = sys.argv[1:]
    every = '-a' in args
    ids = [a for a in args if a != '-a'] or sorted(os.listdir(SEEDED))
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for ident, prop, clean, demo, caught in pool.map(
                lambda i: run(i, every), ids):
            print('%-32s %s %-5s %s%s' % (
                ident, prop, 'ok' if prop in caught else 'MISS',
                ' '.join(caught),
                '' if clean == 0 and demo else '  DEMO %d %d' % (clean,
                                                                 demo)),
                  flush=True)


main()
