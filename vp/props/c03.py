"""Policy combining algorithms combine child decisions as XACML 2.0 specifies"""
import itertools

from vp import emit, gen, model, mon, sut
from vp.model import D, I, N, P
from vp.props import c02

META = {
    'rule': 'one evaluation = the decision of one policy set (or of the'
            ' combining algorithm called directly) for one sequence of child'
            ' decisions, compared with the XACML 2.0 appendix C pseudo-code;'
            ' distinct = distinct (algorithm, own target, sequence)',
    'assumptions': [
        'sequences are enumerated exhaustively up to the length given in the'
        ' counters (seq.len.*) and sampled beyond it'],
    'floors': {'seq.len.1': 12, 'seq.len.2': 40, 'seq.len.3': 180,
               'nested': 100, 'direct': 1000, 'long.20+': 10,
               'long.200+': 10, 'chain.deep': 5, 'own.miss': 50, 'own.error': 50,
               'got.Permit': 100, 'got.Deny': 100, 'got.Indeterminate': 50,
               'got.NotApplicable': 30},
}
DECISIONS = (P, D, I, N)
_n = [0]


def ident(prefix):
    _n[0] += 1
    return '%s%d' % (prefix, _n[0])


def child(rng, decision, depth=1):
    """A policy or policy set with that decision, in one of many ways"""
    if depth > 0 and rng.random() < .35:
        return child_set(rng, decision, depth - 1)
    k = rng.random()
    target = rng.choice([None, {}, c02.HIT])
    if decision == N and k < .4:
        return policy([rng.choice(c02.KINDS) for _ in range(rng.randint(0, 2))],
                      rng.choice([c02.MISS, c02.MISS2]), rng)
    if decision == I and k < .5:
        return policy([rng.choice(c02.KINDS) for _ in range(rng.randint(0, 2))],
                      rng.choice([c02.ERR1, c02.ERR2, c02.ERR3]), rng)
    while True:
        alg = rng.choice(gen.RALGS)
        seq = [rng.choice(c02.KINDS) for _ in range(rng.randint(0, 3))]
        if model.rule_combine_seq(
                alg, [(c02.outcome(s), s[0]) for s in seq]) == decision:
            return policy(seq, target, rng, alg)


def policy(seq, target, rng, alg=None):
    return {'k': 'Policy', 'id': ident('p'), 'alg': alg or
            rng.choice(gen.RALGS), 'target': target,
            'rules': [c02.make_rule(rng, i, k) for i, k in enumerate(seq)]}


def child_set(rng, decision, depth):
    k = rng.random()
    if decision == N and k < .4:
        return pset([rng.choice(DECISIONS) for _ in range(rng.randint(0, 2))],
                    rng.choice([c02.MISS, c02.MISS2]), rng, depth)
    if decision == I and k < .4:
        return pset([rng.choice(DECISIONS) for _ in range(rng.randint(0, 2))],
                    rng.choice([c02.ERR1, c02.ERR2, c02.ERR3]), rng, depth)
    while True:
        alg = rng.choice(gen.RALGS)
        seq = [rng.choice(DECISIONS) for _ in range(rng.randint(0, 3))]
        if decision == I and not seq:
            seq = [I]
        if model.policy_combine_seq(alg, seq) == decision:
            return pset(seq, rng.choice([None, {}, c02.HIT]), rng, depth, alg)


def pset(seq, target, rng, depth, alg=None):
    return {'k': 'PolicySet', 'id': ident('s'), 'alg': alg or
            rng.choice(gen.RALGS), 'target': target,
            'children': [child(rng, d, depth) for d in seq]}


def run(ctx):
    sut.register_all()
    req = sut.request(c02.REQ)
    from ndg.xacml.core.policy_combining_alg import \
        PolicyCombiningAlgClassFactory
    algs = dict((a, PolicyCombiningAlgClassFactory()(model.PALG + a)())
                for a in gen.RALGS)

    def stub(base, decision):
        class Stub(base):
            def evaluate(self, context):
                return sut.Decision(decision)
        return Stub()
    stubs = dict(((b, d), stub(base, d)) for d in DECISIONS
                 for b, base in ((0, sut.Policy), (1, sut.PolicySet)))

    def judge(alg, seq, own, rng, depth=1, via=None):
        target = {None: rng.choice([None, {}, c02.HIT]),
                  'miss': rng.choice([c02.MISS, c02.MISS2]),
                  'error': rng.choice([c02.ERR1, c02.ERR2, c02.ERR3])}[own]
        p = pset(seq, target, rng, depth, alg)
        want = model.policy_combine_seq(alg, seq)
        if own == 'miss':
            want = N
        elif own == 'error':
            want = I
        if via is None:
            via = 'xml' if rng.random() < .8 else 'api'
        o = sut.load(sut.text(p)) if via == 'xml' else (
            sut.api_derived if rng.random() < .3 else sut.api_policy)(p)
        detail = lambda: mon.describe(p, c02.REQ, sequence=seq)  # noqa
        for d, co in zip(seq, o.policies):
            got = sut.decide(co, req)
            ctx.check(got == d, lambda: 'child gives %r, not %r' % (got, d),
                      detail)
        got = sut.decide(o, req)
        ctx.check(got == want, lambda: '%s of %s (own target: %s) gives %r, '
                  'not %r' % (alg, seq, own, got, want), detail)
        ctx.count('got.' + got)
        ctx.count('own.%s' % own)
        ctx.seen(alg, own, tuple(seq))
        ctx.sample({'algorithm': alg, 'sequence': seq, 'own target': own,
                    'decision': got})
        return p, o, got

    maxlen = 3 if ctx.tier == 'quick' else 5
    exact = [s for n in range(maxlen + 1)
             for s in itertools.product(DECISIONS, repeat=n)]

    def enumerate_(rng, i):
        seq = exact[i]
        for alg in gen.RALGS:
            judge(alg, seq, None, rng)
            ctx.count('seq.len.%d' % len(seq))
            judge(alg, seq, rng.choice(['miss', 'error']), rng)
    ctx.group('enumerate', len(exact), len(exact), enumerate_)

    dlen = 6 if ctx.tier == 'quick' else 8
    heads = list(itertools.product(DECISIONS, repeat=2))

    def enumerate_direct(rng, i):
        for n in range(dlen - 1):
            for tail in itertools.product(DECISIONS, repeat=n):
                seq = heads[i] + tail
                kids = sut.TypedList(sut.PolicyBase, [
                    stubs[((j + n) % 2, d)] for j, d in enumerate(seq)])
                for alg in gen.RALGS:
                    d = algs[alg].evaluate(kids, req)
                    got = d.value if isinstance(d, sut.Decision) else d
                    want = model.policy_combine_seq(alg, seq)
                    ctx.check(got == want, lambda: '%s called with %s gives '
                              '%r, not %r' % (alg, seq, got, want))
                    ctx.count('direct')
    ctx.group('direct', len(heads), len(heads), enumerate_direct)

    def nested(rng, i):
        n = rng.randint(1, 6)
        seq = [rng.choice(DECISIONS) for _ in range(n)]
        p, o, got = judge(rng.choice(gen.RALGS), seq, None if rng.random() < .8
                          else rng.choice(['miss', 'error']), rng,
                          depth=rng.randint(2, 4))
        mon.judge_policy(ctx, p, o, c02.REQ, req,
                         lambda: mon.describe(p, c02.REQ))
        ctx.count('nested')
    ctx.group('nested', 2560, 15360, nested)

    def long(rng, i):
        n = rng.randint(4, 20) if i % 24 else gen.size(rng, 600)
        seq = rng.choices(DECISIONS, [rng.random() ** 3 for _ in DECISIONS],
                          k=n)
        if not i % 24:
            # what decides stands alone, anywhere
            seq = [rng.choice([N, rng.choice(DECISIONS)])] * n
            seq[rng.choice([rng.randint(0, n - 1), n - 1])] = \
                rng.choice(DECISIONS)
            ctx.count('long.%d+' % (200 if n > 199 else 20))
        alg = rng.choice(gen.RALGS)
        _, _, got = judge(alg, seq, None, rng, depth=0)
        if alg != 'first-applicable':
            rng.shuffle(seq)
            _, _, other = judge(alg, seq, None, rng, depth=0)
            ctx.check(got == other, lambda: 'order changes the decision of %s'
                      % alg)
        ctx.count('long')
    ctx.group('long', 1920, 11520, long)

    def chain(rng, i):
        """A decision carried through many levels"""
        d = rng.choice(DECISIONS)
        p = child(rng, d, 0)
        levels = rng.randint(3, 25)
        if not i % 32:
            levels = rng.choice([31, 32, 33, 49, 51, 63, 65, 99, 101, 110])
            ctx.count('chain.deep')
        for _ in range(levels):
            alg = rng.choice(gen.RALGS)
            seq = [d] + [N] * rng.randint(0, 1)
            d = model.policy_combine_seq(alg, seq)
            own = rng.choice([None, None, None, {}, c02.HIT])
            kids = [p] + [child(rng, N, 0) for _ in seq[1:]]
            if rng.random() < .5:
                kids.reverse()
            p = {'k': 'PolicySet', 'id': ident('s'), 'alg': alg,
                 'target': own, 'children': kids}
        got = sut.decide(sut.pdp(sut.text(p)), req)
        ctx.check(got == d, lambda: 'nested sets give %r, not %r' % (got, d),
                  lambda: mon.describe(p, c02.REQ))
        ctx.count('chain')
    ctx.group('chain', 960, 5760, chain)
