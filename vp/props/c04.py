"""Evaluation fails safe: one result, errors Indeterminate, no exception"""
import copy

from vp import emit, gen, model, mon, sut
from vp.gen import F1, F2, PROBE, wpick
from vp.model import D, I, N, P

META = {
    'rule': 'one evaluation = one judged outcome with exactly one injected'
            ' fault (an exception raised by a function, the policy information'
            ' point or the attribute selection, or a part missing in the'
            ' request); distinct = distinct (fault kind, place, outcome)',
    'assumptions': [
        'faults are exceptions derived from Exception; every leaf of a policy'
        ' that calls out (function, designator, selector) is made to fail in'
        ' turn'],
    'floors': {'fault.function': 100, 'fault.match': 50, 'fault.pip': 50,
               'fault.selector': 50, 'fault.missing': 50, 'fault.junk': 50,
               'selector.hit': 30,
               'fault.kinds': 10, 'decided.Indeterminate': 200,
               'decided.Permit': 30, 'decided.Deny': 30},
}
KINDS = sorted(sut.ERROR_KINDS)


class BadSelector(sut.EtreeXPathSelector):
    """Attribute selection that fails for one path"""

    def __init__(self, elem):
        sut.EtreeXPathSelector.__init__(self, elem)
        self.bad = None
        self.kind = None
        self.asked = []

    def selectText(self, path):
        self.asked.append(path)
        if self.bad is not None and path == self.bad:
            raise sut.make_error(self.kind)
        return sut.EtreeXPathSelector.selectText(self, path)


class BadHandler(sut.CtxHandlerBase):
    __slots__ = ('fail_at', 'kind', 'calls', 'answer')

    def __init__(self, fail_at, kind, answer=None):
        super(BadHandler, self).__init__()
        self.fail_at = fail_at
        self.kind = kind
        self.calls = 0
        self.answer = answer

    def handlePEPRequest(self, pepRequest):
        raise NotImplementedError()

    def pipQuery(self, request, designator):
        self.calls += 1
        if self.fail_at is None or self.calls == self.fail_at:
            if self.kind.startswith('='):
                return {'=int': 5, '=str': 'text', '=obj': object(),
                        '=listint': [1], '=listnone': [None],
                        '=true': True}[self.kind]
            raise sut.make_error(self.kind)
        return None


def leaves(p):
    """Every place that can be made to fail: (container, key, expression)"""
    def in_expr(holder, key):
        e = holder[key]
        yield holder, key, e
        if e['k'] == 'apply':
            for i in range(len(e['args'])):
                for x in in_expr(e['args'], i):
                    yield x

    def in_target(t):
        for sec in model.SECTIONS:
            for child in (t or {}).get(sec) or ():
                for m in child:
                    yield m, 'match', m
    for x in in_target(p.get('target')):
        yield x
    if p['k'] == 'Policy':
        for r in p['rules']:
            for x in in_target(r.get('target')):
                yield x
            if r.get('cond') is not None:
                for x in in_expr(r, 'cond'):
                    yield x
    else:
        for c in p['children']:
            for x in leaves(c):
                yield x


def selectors(p):
    for holder, key, e in leaves(p):
        if key == 'match':
            e = e['src']
        if e['k'] == 'sel':
            yield e


def run(ctx):
    sut.register_all()
    for k in KINDS:
        sut.register_probe(PROBE + 'raise:' + k)

    def judge(p, mreq, req, what, kind, o=None, want=None):
        detail = lambda: mon.describe(p, mreq, fault=what, kind=kind)  # noqa
        if o is None:
            o = sut.load(sut.text(p))
        pdp = sut.PDP(o)
        try:
            got = sut.decide(pdp, req)
        except Exception as e:
            ctx.fail('evaluation raised %s: %s' % (type(e).__name__, e),
                     detail())
        if want is None:
            want = model.policy(p, mreq)
        ctx.check(got in want, lambda: 'fault in %s (%s): decision %r, '
                  'expected %s' % (what, kind, got, sorted(want)), detail)
        ctx.count('fault.' + what)
        ctx.count('decided.' + got)
        ctx.seen(what, kind, got, mon.signature(p))
        ctx.sample({'fault': what, 'exception': kind, 'decision': got})
        return o, got

    def functions(rng, i):
        """Each call-out of a policy fails in turn"""
        w = gen.World(rng, errors=0, selectors=0, types=['string'])
        mreq = w.request(missing=0)
        p = w.any_policy(mreq, depth=1)
        req = sut.request(mreq)
        places = list(leaves(p))
        rng.shuffle(places)
        for holder, key, e in places[:14]:
            kind = rng.choice(KINDS)
            fn = PROBE + 'raise:' + kind
            if key == 'match':
                old = holder['fn']
                holder['fn'] = fn
                o, got = judge(p, mreq, req, 'match', kind)
                mon.judge_policy(ctx, p, o, mreq, req,
                                 lambda: mon.describe(p, mreq))
                holder['fn'] = old
            else:
                holder[key] = {'k': 'apply', 'fn': fn, 'args': []}
                o, got = judge(p, mreq, req, 'function', kind)
                mon.judge_policy(ctx, p, o, mreq, req,
                                 lambda: mon.describe(p, mreq))
                holder[key] = e
    ctx.group('functions', 320, 4000, functions)

    def every_kind(rng, i):
        """Every kind of exception at the simplest places"""
        kind = KINDS[i]
        ctx.count('fault.kinds')
        fn = PROBE + 'raise:' + kind
        w = gen.World(rng, errors=0, selectors=0)
        mreq = w.request(missing=0)
        mreq['subjects'] = [{'category': None, 'attrs': [
            {'id': 'a', 'type': 'string', 'issuer': None, 'values': ['v']}]}]
        src = {'k': 'desig', 'cat': 'Subject', 'id': 'a', 'type': 'string',
               'mbp': False}
        bad = {'subjects': [[{'fn': fn, 'value': {'type': 'string',
                                                  'value': 'v'},
                              'src': src}]]}
        req = sut.request(mreq)
        for effect in (P, D):
            for alg in gen.RALGS:
                for cond, target in ((True, None), (False, bad)):
                    r = {'id': 'r', 'effect': effect, 'target': target,
                         'cond': {'k': 'apply', 'fn': fn, 'args': []}
                         if cond else None}
                    p = {'k': 'Policy', 'id': 'p', 'alg': alg, 'target': None,
                         'rules': [r]}
                    judge(p, mreq, req, 'function', kind, want={I})
                p = {'k': 'Policy', 'id': 'p', 'alg': alg, 'target': bad,
                     'rules': [{'id': 'r', 'effect': effect, 'target': None,
                                'cond': None}]}
                judge(p, mreq, req, 'match', kind, want={I})
                s = {'k': 'PolicySet', 'id': 's', 'alg': alg, 'target': bad,
                     'children': [dict(p, target=None)]}
                judge(s, mreq, req, 'match', kind, want={I})
    ctx.group('kinds', len(KINDS), len(KINDS), every_kind)

    def selector(rng, i):
        w = gen.World(rng, errors=0, selectors=.6, types=['string'],
                      probes=False)
        mreq = w.request(missing=0)
        mreq['doc'] = w.make_doc()
        p = w.any_policy(mreq, depth=1)
        o = sut.load(sut.text(p))
        req = sut.request(mreq)
        sel = BadSelector(sut.element(mreq['doc']))
        req.attributeSelector = sel
        base = sut.decide(sut.PDP(o), req)
        places = list(selectors(p))
        for path in sorted(set(model.path_string(e['path'])
                               for e in places))[:8]:
            kind = rng.choice(KINDS)
            sel.bad, sel.kind, sel.asked = path, kind, []
            hit = [e for e in places if model.path_string(e['path']) == path]
            for e in hit:
                e['broken'] = True
            judge(p, mreq, req, 'selector', kind, o)
            mon.judge_policy(ctx, p, o, mreq, req,
                             lambda: mon.describe(p, mreq))
            for e in hit:
                del e['broken']
            if path in sel.asked:
                ctx.count('selector.hit')
        sel.bad = None
        got = sut.decide(sut.PDP(o), req)
        ctx.check(got == base, lambda: 'decision %r after failures, %r before'
                  % (got, base), lambda: mon.describe(p, mreq))
        # no selection possible at all
        mreq['doc'] = None
        judge(p, mreq, sut.request(mreq), 'missing', 'selector', o)
    ctx.group('selector', 240, 3000, selector)

    def pip(rng, i):
        w = gen.World(rng, errors=0, selectors=0, types=['string'])
        mreq = w.request(missing=0)
        if not mreq['subjects']:
            mreq['subjects'] = [{'category': None, 'attrs': []}]
        kind = rng.choice(KINDS + ['=int', '=obj', '=listint', '=listnone',
                                   '=true', '=str'])
        p = w.any_policy(mreq, depth=1)
        req = sut.request(mreq)
        req.ctxHandler = BadHandler(None, kind)
        # every subject designator is in error
        answers = dict((x, 'raise') for x in w.ids + gen.IDS)
        m2 = dict(mreq, pip={'answers': answers})
        o, got = judge(p, m2, req, 'pip', kind)
        mon.judge_policy(ctx, p, o, m2, req, lambda: mon.describe(p, mreq))
        # and none once the point answers again
        req.ctxHandler = BadHandler(10 ** 9, kind)
        judge(p, mreq, req, 'pip', 'recovered', o)
    ctx.group('pip', 320, 4000, pip)

    def missing(rng, i):
        """Incomplete requests"""
        w = gen.World(rng, errors=0)
        mreq = w.request(missing=0)
        p = w.any_policy(mreq, depth=1)
        o = sut.load(sut.text(p))
        for what in ('action', 'env', 'subjects', 'resources', 'attrs',
                     'values', 'all', 'empty'):
            m = copy.deepcopy(mreq)
            if what in ('action', 'env'):
                m[what] = None
            elif what in ('subjects', 'resources'):
                m[what] = []
            elif what == 'all':
                m.update(action=None, env=None, subjects=[], resources=[],
                         doc=None)
            else:
                for h in m['subjects'] + m['resources'] + [m['action'],
                                                           m['env']]:
                    if what == 'attrs':
                        h['attrs'] = []
                    elif what == 'values':
                        for a in h['attrs']:
                            a['values'] = []
            if what == 'empty':
                m.update(action=None, env=None, subjects=[], resources=[],
                         doc=None)
                req = sut.Request()
            else:
                req = sut.request(m)
            judge(p, m, req, 'missing', what, o)
            mon.judge_policy(ctx, p, o, m, req, lambda: mon.describe(p, m))
    ctx.group('missing', 160, 2000, missing)

    def junk(rng, i):
        """Objects that were never filled in: no exception, one result, and
        an attribute without identifier or type is no attribute"""
        w = gen.World(rng, errors=0, selectors=0, probes=False)
        mreq = w.request(missing=0)
        p = w.any_policy(mreq, depth=1)
        o = sut.load(sut.text(p))
        req = sut.request(mreq)
        base = sut.decide(o, req)
        holders = list(req.subjects) + list(req.resources) + [
            req.action, req.environment]
        for h in holders:
            if rng.random() < .7:
                a = sut.Attribute()
                k = rng.random()
                if k < .3:
                    a.attributeId = rng.choice(w.ids)
                elif k < .6:
                    a.dataType = model.TYPES[rng.choice(w.types)]
                t = rng.choice(w.types)
                a.attributeValues.append(sut.CLASSES[t](value=w.value(t)))
                h.attributes.insert(rng.randint(0, len(h.attributes)), a)
        if rng.random() < .5:
            req.subjects.append(sut.Subject())
            req.resources.append(sut.Resource())
        got = sut.decide(sut.PDP(o), req)
        ctx.check(got == base, lambda: 'unfilled attributes change the '
                  'decision from %r to %r' % (base, got),
                  lambda: mon.describe(p, mreq))
        # values never set: an equal comparison cannot hold, nothing raised
        for h in holders:
            for a in h.attributes:
                if a.dataType and rng.random() < .4:
                    cls = sut.avFactory(a.dataType)
                    if cls is not None:
                        a.attributeValues.append(cls())
        got = sut.decide(sut.PDP(o), req)
        ctx.count('fault.junk')
        ctx.count('decided.' + got)
    ctx.group('junk', 160, 2000, junk)

    def policy_errors(rng, i):
        """Policies through the API with parts missing"""
        w = gen.World(rng, errors=0, selectors=0)
        mreq = w.request(missing=0)
        req = sut.request(mreq)
        p = w.policy(mreq, nrules=2, alg=rng.choice(gen.RALGS))
        p['target'] = None
        for r in p['rules']:
            r['target'] = None
            r['cond'] = None
        o = sut.api_policy(p)
        effect = p['rules'][0]['effect']
        k = rng.randint(0, 4)
        rule = o.rules[0]
        if k == 0:      # a match without a source
            t = sut.api_target({'subjects': [[{
                'fn': F1 + 'string-equal', 'value': {'type': 'string',
                                                     'value': 'x'},
                'src': {'k': 'desig', 'cat': 'Subject', 'id': 'a',
                        'type': 'string'}}]]})
            from ndg.xacml.core.match import SubjectMatch
            m = SubjectMatch()
            m.matchId = F1 + 'string-equal'
            m.attributeValue = sut.CLASSES['string'](value='x')
            t.subjects[0].matches[0] = m
            rule.target = t
        elif k == 1:    # a condition without an expression
            rule.condition = sut.Condition()
        elif k == 2:    # an Apply without a function
            rule.condition = sut.Condition()
            rule.condition.expression = sut.Apply()
        elif k == 3:    # an undefined effect
            rule = sut.Rule()
            rule.id = 'r'
            rule.condition = sut.Condition()
            rule.condition.expression = sut.api_expr(
                {'k': 'apply', 'fn': PROBE + 'raise', 'args': []})
            rule.effect = sut.Effect.PERMIT
            o.rules[0] = rule
        elif k == 4:    # an unknown path
            rule.condition = sut.Condition()
            rule.condition.expression = sut.api_expr(
                {'k': 'sel', 'path': None, 'badpath': '][', 'type': 'string'})
        got = sut.decide(rule, req)
        ctx.check(got == I, lambda: 'a rule that cannot be evaluated (%d) '
                  'gives %r' % (k, got))
        sut.decide(sut.PDP(o), req)
        ctx.count('fault.policy')
    ctx.group('policy', 96, 768, policy_errors)
