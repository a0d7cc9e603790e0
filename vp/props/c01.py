"""The PDP decision is the XACML 2.0 decision for the policy and request"""
from vp import emit, gen, model, mon, sut
from vp.gen import wpick

META = {
    'rule': 'one evaluation = one outcome (PDP decision, or outcome of a rule,'
            ' target, condition, policy or policy set inside it) compared with'
            ' the independent reference evaluator; distinct = distinct'
            ' (policy shape, outcomes of all parts) combinations',
    'assumptions': [
        'reference evaluator vp/model.py follows XACML 2.0 for the supported'
        ' functions, algorithms and expressions; an error in any match makes'
        ' the target one in error',
        'data types without a built-in text form are read by readers the'
        ' harness registers'],
    'floors': {'policy.own': 100, 'pdp.Permit': 20, 'pdp.Deny': 20, 'pdp.Indeterminate': 20,
               'pdp.NotApplicable': 20, 'Policy.Permit': 50,
               'Policy.Deny': 50, 'PolicySet.Permit': 20,
               'PolicySet.Deny': 20, 'rule.Permit': 50, 'rule.Deny': 50,
               'rule.Indeterminate': 50, 'rule.NotApplicable': 50,
               'condition.True': 50, 'condition.False': 50,
               'condition.E': 50, 'deep': 10, 'request.xml': 20,
               'request.api': 50, 'policy.api': 20, 'ids.near': 100,
               'ids.same': 30},
}


def run(ctx):
    sut.register_all()

    def judge(p, mreq, rng, via_xml=False, api_policy=False):
        detail = lambda: mon.describe(p, mreq)  # noqa
        if via_xml:
            req = sut.request_from_xml(emit.varied(
                emit.request_node(mreq), rng, ns=emit.CNS))
            ctx.count('request.xml')
        else:
            req = sut.request(mreq)
            ctx.count('request.api')
        if api_policy:
            own = rng.random() < .4
            o = (sut.api_derived if own else sut.api_policy)(p)
            pdp = sut.PDP(o)
            ctx.count('policy.api')
            ctx.count('policy.own', own)
        else:
            data = sut.text(p) if rng.random() < .6 else \
                emit.varied(emit.policy_node(p), rng)
            pdp = sut.pdp(data)
            o = pdp.policy
        want = model.policy(p, mreq)
        got = sut.decide(pdp, req)
        ctx.check(got in want, lambda: 'PDP decides %r, XACML calls for %s' % (
            got, sorted(want)), detail)
        ctx.count('pdp.' + got)
        inner = mon.judge_policy(ctx, p, o, mreq, req, detail)
        ctx.check(inner == got, lambda: 'PDP decides %r, its policy %r' % (
            got, inner), detail)
        again = sut.decide(pdp, req)
        ctx.check(again == got, lambda: 'second evaluation gives %r after %r'
                  % (again, got), detail)
        ctx.seen(mon.signature(p), got, ctx.evaluations % 7)
        ctx.sample({'policy': sut.text(p).decode()[:1500], 'decision': got})

    def general(rng, i):
        w = gen.World(rng, errors=rng.choice([0, .03, .1]),
                      probes=rng.random() < .5)
        for _ in range(3):
            req = w.request(pip=.15)
            p = w.any_policy(req, depth=rng.choice([1, 2, 3]))
            api, same = rng.random() < .12, False
            if rng.random() < .2:
                gen.rename(rng, p)
                ctx.count('ids.near')
            elif api and rng.random() < .4:
                gen.same_ids(rng, p)
                same = True
                ctx.count('ids.same')
            judge(p, req, rng, api_policy=api)
            for _ in range(2):      # the same policy, other requests
                judge(p, w.request(pip=.15), rng, api_policy=same)

    def strings(rng, i):
        """Policies of text types only, requests through XML"""
        types = ['string'] + [rng.choice(model.STR_TYPES)
                              for _ in range(rng.randint(0, 2))]
        w = gen.World(rng, types=types, selectors=0, errors=.02,
                      probes=False)
        for _ in range(3):
            req = w.request(xml=True)
            p = w.any_policy(req)
            judge(p, req, rng, via_xml=True)

    def clean(rng, i):
        """No errors and nothing left open: one acceptable decision"""
        w = gen.World(rng, errors=0, probes=False, selectors=0)
        for _ in range(4):
            req = w.request(missing=0)
            p = w.any_policy(req, depth=3)
            judge(p, req, rng)

    def deep(rng, i):
        w = gen.World(rng, errors=.02)
        req = w.request()
        if rng.random() < .5:
            p = w.policy(req)
            for n in range(rng.randint(5, 30)):
                kids = [p] + [w.policy(req, 'x%d.%d' % (n, j), nrules=1)
                              for j in range(rng.randint(0, 1))]
                rng.shuffle(kids)
                p = {'k': 'PolicySet', 'id': 's%d' % n, 'target': None,
                     'alg': rng.choice(gen.RALGS), 'children': kids}
        else:
            p = w.policy(req, nrules=2)
            e = w.boolean(req, 1)
            for n in range(rng.randint(5, 40)):
                fn = rng.choice(['and', 'not'])
                args = [e]
                if fn == 'and' and rng.random() < .3:
                    args.append(w.boolean(req, 0))
                e = {'k': 'apply', 'fn': gen.F1 + fn, 'args': args}
            p['rules'][0]['cond'] = e
        judge(p, req, rng)
        ctx.count('deep')

    def wide(rng, i):
        """Many rules and many attributes with values that repeat"""
        w = gen.World(rng, errors=0, probes=False, selectors=0)
        req = w.request(missing=0)
        for s in req['subjects']:
            s['attrs'] = [w.attr() for _ in range(rng.randint(5, 25))]
        p = w.policy(req, nrules=rng.randint(8, 30))
        judge(p, req, rng)

    ctx.group('general', 800, 8000, general)
    ctx.group('strings', 320, 3000, strings)
    ctx.group('clean', 320, 3000, clean)
    ctx.group('deep', 96, 1000, deep)
    ctx.group('wide', 64, 600, wide)
