"""Rule combining algorithms combine rule outcomes as XACML 2.0 specifies"""
import itertools

from vp import emit, gen, model, mon, sut
from vp.gen import F1, PROBE
from vp.model import D, I, N, P

META = {
    'rule': 'one evaluation = the decision of one policy (or of the combining'
            ' algorithm called directly) for one sequence of rule outcomes,'
            ' compared with the XACML 2.0 appendix C pseudo-code; distinct ='
            ' distinct (algorithm, sequence of (effect, outcome))',
    'assumptions': [
        'sequences are enumerated exhaustively up to the length given in the'
        ' counters (seq.len.*) and sampled beyond it'],
    'floors': {'seq.len.1': 18, 'seq.len.2': 100, 'seq.len.3': 600,
               'long': 100, 'long.60+': 20, 'long.500+': 10,
               'direct': 500, 'permuted': 100,
               'got.Permit': 100, 'got.Deny': 100, 'got.Indeterminate': 100,
               'got.NotApplicable': 30},
}
KINDS = [(e, o) for e in (P, D) for o in ('effect', I, N)]
HIT = {'actions': [[{'fn': F1 + 'string-equal',
                     'value': {'type': 'string', 'value': 'go'},
                     'src': {'k': 'desig', 'cat': 'Action', 'id': 'act',
                             'type': 'string', 'mbp': False}}]]}
MISS = {'subjects': [[{'fn': F1 + 'string-equal',
                       'value': {'type': 'string', 'value': 'nobody'},
                       'src': {'k': 'desig', 'cat': 'Subject', 'id': 'sub',
                               'type': 'string', 'mbp': False}}]]}
MISS2 = {'actions': [[{'fn': PROBE + 'false',
                       'value': {'type': 'string', 'value': 'x'},
                       'src': {'k': 'desig', 'cat': 'Action', 'id': 'act',
                               'type': 'string', 'mbp': False}}]]}
ERR1 = {'resources': [[{'fn': F1 + 'string-equal',
                        'value': {'type': 'string', 'value': 'x'},
                        'src': {'k': 'desig', 'cat': 'Resource', 'id': 'none',
                                'type': 'string', 'mbp': True}}]]}
ERR2 = {'actions': [[{'fn': PROBE + 'raise',
                      'value': {'type': 'string', 'value': 'x'},
                      'src': {'k': 'desig', 'cat': 'Action', 'id': 'act',
                              'type': 'string', 'mbp': False}}]]}
ERR3 = {'actions': [[{'fn': F1 + 'anyURI-equal',
                      'value': {'type': 'anyURI', 'value': 'go'},
                      'src': {'k': 'desig', 'cat': 'Action', 'id': 'act',
                              'type': 'string', 'mbp': False}}]]}


def fn(name, *args):
    return {'k': 'apply', 'fn': PROBE + name, 'args': list(args)}


TRUES = [fn('true'), fn('attrtrue'),
         {'k': 'apply', 'fn': F1 + 'not', 'args': [fn('false')]},
         {'k': 'apply', 'fn': F1 + 'and', 'args': []}]
FALSES = [fn('false'), fn('attrfalse'),
          {'k': 'apply', 'fn': F1 + 'not', 'args': [fn('true')]}]
ERRORS = [fn('raise'), fn('none'), fn('str'), fn('emptystr'), fn('int1'),
          fn('int0'), fn('emptybag'), fn('attrstr'),
          {'k': 'apply', 'fn': F1 + 'not', 'args': []},
          {'k': 'apply', 'fn': F1 + 'string-one-and-only', 'args': [
              {'k': 'desig', 'cat': 'Subject', 'id': 'none',
               'type': 'string', 'mbp': False}]}]
# realisations of each outcome: (target, condition)
WAYS = {
    'effect': [(t, c) for t in (None, {}, HIT) for c in [None] + TRUES],
    N: [(t, c) for t in (MISS, MISS2)
        for c in [None, fn('raise')] + TRUES + FALSES] +
       [(t, c) for t in (None, HIT) for c in FALSES],
    I: [(t, c) for t in (ERR1, ERR2, ERR3)
        for c in [None] + TRUES + FALSES + ERRORS] +
       [(t, c) for t in (None, HIT) for c in ERRORS],
}
REQ = {'subjects': [{'category': None, 'attrs': [
    {'id': 'sub', 'type': 'string', 'issuer': None, 'values': ['me']}]}],
    'resources': [], 'action': {'attrs': [
        {'id': 'act', 'type': 'string', 'issuer': None, 'values': ['go']}]},
    'env': {'attrs': []}, 'pip': None, 'doc': None}


def outcome(kind):
    return kind[0] if kind[1] == 'effect' else kind[1]


def make_rule(rng, i, kind):
    t, c = rng.choice(WAYS[kind[1]])
    return {'id': 'r%d' % i, 'effect': kind[0], 'target': t, 'cond': c}


def run(ctx):
    sut.register_all()
    req = sut.request(REQ)
    stub_cache = {}

    def stub(effect, decision):
        """A rule whose outcome is fixed"""
        class Stub(sut.Rule):
            def evaluate(self, context):
                return sut.Decision(decision)
        r = Stub()
        r.id = 'stub'
        r.effect = {'Permit': sut.Effect.PERMIT,
                    'Deny': sut.Effect.DENY}[effect]
        return r
    for e, o in KINDS:
        stub_cache[(e, o)] = stub(e, outcome((e, o)))
    from ndg.xacml.core.rule_combining_alg import RuleCombiningAlgClassFactory
    algs = dict((a, RuleCombiningAlgClassFactory()(model.RALG + a)())
                for a in gen.RALGS)

    def judge(alg, seq, rng, via='xml'):
        want = model.rule_combine_seq(alg, [(outcome(k), k[0]) for k in seq])
        p = {'k': 'Policy', 'id': 'p', 'alg': alg, 'target': None,
             'rules': [make_rule(rng, i, k) for i, k in enumerate(seq)]}
        o = sut.load(sut.text(p)) if via == 'xml' else (
            sut.api_derived if rng.random() < .3 else sut.api_policy)(p)
        detail = lambda: mon.describe(p, REQ, sequence=seq)  # noqa
        if rng.random() < .3:
            for k, ro in zip(seq, o.rules):
                got = sut.decide(ro, req)
                ctx.check(got == outcome(k), lambda: 'rule outcome %r, not %r'
                          % (got, outcome(k)), detail)
        got = sut.decide(o, req)
        ctx.check(got == want, lambda: '%s of %s gives %r, not %r' % (
            alg, seq, got, want), detail)
        ctx.count('got.' + got)
        ctx.seen(alg, tuple(seq))
        ctx.sample({'algorithm': alg, 'sequence': seq, 'decision': got})
        return got

    def direct(alg, seq):
        want = model.rule_combine_seq(alg, [(outcome(k), k[0]) for k in seq])
        rules = sut.TypedList(sut.Rule, [stub_cache[k] for k in seq])
        d = algs[alg].evaluate(rules, req)
        got = d.value if isinstance(d, sut.Decision) else d
        ctx.check(got == want, lambda: '%s called with %s gives %r, not %r' % (
            alg, seq, got, want))
        ctx.count('direct')
        ctx.seen(alg, tuple(seq))

    maxlen = 3 if ctx.tier == 'quick' else 5
    exact = [s for n in range(maxlen + 1)
             for s in itertools.product(KINDS, repeat=n)]

    def enumerate_(rng, i):
        seq = exact[i]
        for alg in gen.RALGS:
            judge(alg, seq, rng, 'xml' if rng.random() < .8 else 'api')
            ctx.count('seq.len.%d' % len(seq))
    ctx.group('enumerate', len(exact), len(exact), enumerate_)

    dlen = 5 if ctx.tier == 'quick' else 6
    chunks = list(itertools.product(KINDS, repeat=2))

    def enumerate_direct(rng, i):
        """All sequences that start with one pair, algorithm called
        directly"""
        head = chunks[i]
        for n in range(dlen - 1):
            for tail in itertools.product(KINDS, repeat=n):
                for alg in gen.RALGS:
                    direct(alg, head + tail)
    ctx.group('direct', len(chunks), len(chunks), enumerate_direct)

    def long(rng, i):
        n = rng.randint(4, 40) if i % 24 else gen.size(rng, 1100)
        if n > 60:
            ctx.count('long.%d+' % (500 if n > 499 else 60))
        weights = [rng.random() ** 3 for _ in KINDS]
        seq = rng.choices(KINDS, weights, k=n)
        if not i % 24:
            # what decides stands alone, anywhere
            a, b = rng.choice(KINDS), rng.choice(KINDS)
            seq = [(a[0], rng.choice([N, a[1]]))] * n
            seq[rng.choice([rng.randint(0, n - 1), n - 1])] = b
        alg = rng.choice(gen.RALGS)
        got = judge(alg, seq, rng)
        ctx.count('long')
        if alg != 'first-applicable':
            for _ in range(2):
                perm = list(seq)
                rng.shuffle(perm)
                other = judge(alg, perm, rng)
                ctx.check(other == got, lambda: 'order changes the decision of'
                          ' %s: %r and %r' % (alg, got, other))
                ctx.count('permuted')
    ctx.group('long', 2880, 17280, long)

    def random_rules(rng, i):
        """Realistic rules; outcomes taken from the rules themselves"""
        w = gen.World(rng, errors=.05)
        for _ in range(3):
            mreq = w.request()
            p = w.policy(mreq)
            p['target'] = None
            rq = sut.request(mreq)
            o = sut.load(sut.text(p))
            outs = [(sut.decide(r, rq), r.effect.value) for r in o.rules]
            for alg in gen.RALGS:
                o.ruleCombiningAlgId = model.RALG + alg
                want = model.rule_combine_seq(alg, outs)
                got = sut.decide(o, rq)
                ctx.check(got == want, lambda: '%s of %s gives %r, not %r' % (
                    alg, outs, got, want), lambda: mon.describe(p, mreq))
                ctx.count('random')
    ctx.group('random', 1920, 11520, random_rules)
