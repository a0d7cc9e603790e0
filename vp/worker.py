"""worker.py PROP TIER SEED SHARD NSHARDS OUT [GROUP INDEX]"""
import importlib
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def main(argv):
    prop, tier, seed, shard, nshards, out = argv[:6]
    only = (argv[6], int(argv[7])) if len(argv) > 7 else None
    from vp import harness
    t0 = time.time()
    ctx = harness.Ctx(prop, tier, int(seed), int(shard), int(nshards),
                      os.environ['VERIF_BACKEND'], only)
    kf = os.environ.get('VERIF_KNOWN')
    if kf:
        ctx.known_mechs = json.loads(kf)
    try:
        import ndg.xacml
        where = os.path.abspath(ndg.xacml.__file__)
        if not where.startswith(REPO + os.sep):
            raise RuntimeError('wrong copy under test: ' + where)
        ndg.xacml.importElementTree()
        if ndg.xacml.Config.use_lxml != (ctx.backend == 'lxml'):
            raise RuntimeError('wrong XML library under test')
        harness.quiet_logging()
        mod = importlib.import_module('vp.props.' + prop.lower())
        mod.run(ctx)
    except harness.Stop:
        pass
    except BaseException:
        import traceback
        tb = traceback.format_exc()
        if harness._in_repo(sys.exc_info()[2]):
            ctx.violations.append({
                'property': prop, 'group': 'setup', 'index': 0,
                'seed': int(seed), 'tier': tier, 'backend': ctx.backend,
                'shard': int(shard), 'nshards': int(nshards),
                'message': 'the code under test failed outside any case: '
                + tb.strip().splitlines()[-1], 'mech': 'setup',
                'detail': tb[-4000:]})
        else:
            ctx.errors.append(tb[-4000:])
    finally:
        # A signal while the interpreter is shutting down would end it
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_IGN)
        signal.signal(signal.SIGVTALRM, signal.SIG_IGN)
    res = ctx.result()
    res['wall'] = time.time() - t0
    res['cpu'] = time.process_time()
    with open(out, 'w') as f:
        json.dump(res, f, default=repr)


if __name__ == '__main__':
    main(sys.argv[1:])
