"""run.py PROP [quick|thorough] | run.py --replay FILE

Runs the monitors of one property against the working tree of /repo under both
XML libraries, in parallel worker processes, and gives the verdict."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
PY = {'lxml': '/opt/venv/bin/python', 'etree': '/opt/venv-nolxml/bin/python'}
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))


# The interpreters of the shards differ in what must not matter: assertions
# stripped, another order of sets, another time zone
VARIANTS = [([], {}), (['-O'], {'TZ': 'Pacific/Chatham'}),
            ([], {'PYTHONHASHSEED': '%d', 'TZ': 'America/St_Johns'}),
            (['-OO'], {'PYTHONHASHSEED': '%d'})]


def environment(backend, scratch, known):
    env = dict((k, v) for k, v in os.environ.items()
               if not k.startswith('PYTHON'))
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               LC_ALL='C.UTF-8', SSL_CERT_FILE='/dev/null',
               SSL_CERT_DIR=scratch, VERIF_BACKEND=backend, VERIF_SCRATCH=scratch,
               VERIF_KNOWN=json.dumps(known), HOME=scratch, TMPDIR=scratch)
    return env


def load_known(prop):
    """known_findings.txt: 'known: property=<id> mech=<key> <text>'"""
    known = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'known:' and \
                    w[1] == 'property=' + prop and w[2].startswith('mech='):
                known[w[2][5:]] = w[3].strip()
    return known


def spec(prop):
    """META of the property module, read without importing the repository"""
    import ast
    path = os.path.join(HERE, 'props', prop.lower() + '.py')
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and \
                getattr(node.targets[0], 'id', None) == 'META':
            return ast.literal_eval(node.value)
    raise SystemExit('no META in ' + path)


def run(prop, tier, seed, only=None, backends=None):
    meta = spec(prop)
    known = load_known(prop)
    t0 = time.time()
    backends = backends or meta.get('backends', ['lxml', 'etree'])
    ncpu = int(os.environ.get('VERIF_JOBS', '8'))
    nshards = 1 if only else max(1, ncpu // len(backends))
    limit = 780 if tier == 'quick' else 3600
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    procs = []
    results = []
    problems = []
    try:
        for b in backends:
            for s in range(nshards):
                out = os.path.join(scratch, '%s.%d.json' % (b, s))
                d = os.path.join(scratch, '%s.%d.d' % (b, s))
                os.mkdir(d)
                flags, extra = VARIANTS[s % len(VARIANTS)]
                args = [PY[b], '-W', 'ignore'] + flags + [
                    os.path.join(HERE, 'worker.py'),
                    prop, tier, str(seed), str(s), str(nshards), out]
                env = environment(b, d, known)
                for k, v in extra.items():
                    env[k] = v % (seed * 16 + s) if '%' in v else v
                if only:
                    args += [only[0], str(only[1])]
                err = open(out + '.err', 'w+')
                p = subprocess.Popen(args, stdout=err, stderr=err, cwd=d,
                                     stdin=subprocess.DEVNULL,
                                     env=env)
                procs.append((b, s, out, p, err))
        for b, s, out, p, err in procs:
            left = limit - (time.time() - t0)
            try:
                rc = p.wait(max(1, left))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                problems.append('%s shard %d: no answer in %ds' % (b, s, limit))
                continue
            if rc != 0 or not os.path.exists(out):
                err.seek(0)
                problems.append('%s shard %d: worker ended with %s: %s' % (
                    b, s, rc, err.read()[-1500:]))
                continue
            results.append((b, json.load(open(out))))
    finally:
        for item in procs:
            if item[3].poll() is None:
                item[3].kill()
                item[3].wait()
            item[4].close()
        shutil.rmtree(scratch, ignore_errors=True)
    counters, distinct, samples, violations, known_seen = {}, set(), [], [], {}
    evaluations = 0
    for b, r in results:
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        distinct.update(r['distinct'])
        if len(samples) < 8:
            samples.extend(r['samples'][:2])
        violations.extend(r['violations'])
        known_seen.update(r['known'])
        evaluations += r['evaluations']
        problems.extend('%s: %s' % (b, e) for e in r['errors'])
    if not only and not violations:
        for name in meta['floors']:
            need = meta['floors'][name]
            if counters.get(name, 0) < need:
                problems.append('monitor not reached: counter %s is %d, '
                                'needs %d' % (name, counters.get(name, 0),
                                              need))
        if not evaluations:
            problems.append('the oracle never decided anything')
    if not only:
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = {
            'property': prop, 'tier': tier, 'seed': seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': evaluations,
                'distinct_nontrivial': len(distinct),
                'rule': meta['rule'],
                'samples': samples[:8],
                'counters': dict(sorted(counters.items())),
                'workers': ['%s x%d' % (b, nshards) for b in backends],
                'interpreters': [' '.join(f + sorted(
                    '%s=%s' % (k, v % seed if '%' in v else v)
                    for k, v in e.items())) or 'default'
                    for f, e in VARIANTS[:nshards]],
                'inconclusive': problems,
            },
            'wall_s': round(time.time() - t0, 2),
            'violations': len(violations),
            'assumptions': meta['assumptions'],
        }
        path = os.path.join(EVIDENCE, prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(path + '.tmp', path)
    for mech in sorted(known):
        if mech in known_seen:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[mech]))
    for p in problems[:6]:
        print('INCONCLUSIVE property=%s %s' % (prop, p))
    if violations:
        rdir = os.path.join(EVIDENCE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        n = 0
        for v in violations:
            path = os.path.join(rdir, '%s-%s-%s-%s-%s.json' % (
                prop, seed, v['backend'], v['group'], v['index']))
            if path in shown:
                continue
            shown.add(path)
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            n += 1
            if n <= 4:
                print('  %s/%s[%s]: %s' % (v['backend'], v['group'],
                                           v['index'], v['message'][:600]))
                print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if problems:
        return 2
    print('OK property=%s tier=%s seed=%s evaluations=%d distinct=%d wall=%.1fs'
          % (prop, tier, seed, evaluations, len(distinct), time.time() - t0))
    return 0


def main(argv):
    if argv[0] == '--replay':
        v = json.load(open(argv[1]))
        print(json.dumps(v, indent=1).replace('\\n', '\n'))
        return run(v['property'], v['tier'], v['seed'],
                   (v['group'], v['index']), [v['backend']])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    return run(prop, tier, seed)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv[1:]))
