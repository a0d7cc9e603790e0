"""Attributes from the context handler are merged soundly"""

from vp import emit, gen, model, mon, sut
from vp.gen import F1
from vp.model import D, I, N, P

META = {
    'rule': 'one evaluation = the bag (or error) of one designator for one'
            ' request with a scripted context handler compared with the'
            ' reference merge, or one recorded query checked for what it asks;'
            ' distinct = distinct (category, own values, answer, overlap)',
    'assumptions': [
        'the handler is asked once per subject of the request and its answer'
        ' is merged each time; answers hold no value twice in one answer'],
    'floors': {'answer.none': 50, 'answer.empty': 20, 'answer.values': 100,
               'answer.wrongtype': 20, 'answer.raise': 20, 'overlap': 50,
               'query': 200, 'notasked': 100, 'mbp.saved': 10,
               'handler.rich': 1000, 'handler.empty': 1000,
               'mbp.error': 10, 'decision.Permit': 20, 'decision.NotApplicable': 20,
               'decision.Indeterminate': 20, 'large': 100},
}


def run(ctx):
    sut.register_all()

    def snapshot(req, handler):
        return (sut.dump_request(req),
                dict((k, [(v.dataType, v.value) for v in l])
                     for k, l in handler.lists.items()),
                dict((k, [id(v) for v in l])
                     for k, l in handler.lists.items()))

    def make(rng):
        w = gen.World(rng, ntypes=rng.randint(0, 2), selectors=0)
        mreq = w.request(missing=0)
        if rng.random() < .9 and not mreq['subjects']:
            mreq['subjects'] = [dict(w.holder(), category=None)]
        answers = {}
        for x in w.ids:
            k = rng.random()
            if k < .25:
                answers[x] = None
            elif k < .33:
                answers[x] = 'raise'
            elif k < .45:
                answers[x] = []
            else:
                t = rng.choice(w.types)
                vals = []
                for _ in range(rng.randint(1, 4)):
                    v = (t, w.value(t))
                    if v not in vals:
                        vals.append(v)
                if rng.random() < .15:
                    t2 = rng.choice(sorted(model.TYPES))
                    v2 = gen.World(rng, types=[t2], selectors=0).value(t2)
                    if t2 != t:
                        vals.insert(rng.randint(0, len(vals)), (t2, v2))
                answers[x] = vals
        mreq['pip'] = {'answers': answers, 'handler': rng.choice(
            [None, None, 'rich', 'empty'])}
        ctx.count('handler.%s' % (mreq['pip']['handler'] or 'plain'))
        return w, mreq

    def judge(rng, d, mreq, req, o, detail):
        want = model.designator(d, mreq)
        h = req.ctxHandler
        for x in list(h.answers):       # fill in the handler's lists first
            if isinstance(h.answers[x], list) and x not in h.lists:
                h.lists[x] = [sut.CLASSES[t](value=v)
                              for t, v in h.answers[x]]
        before = snapshot(req, h)
        h.log = []
        got, exc = sut.run_expr(o, req)
        ctx.check(model.same(got, want), lambda: 'designator %s gives %r '
                  '(%r), expected %r' % (d, got, exc, want), detail)
        ctx.check(snapshot(req, h) == before, 'the request or the list of the '
                  'handler was modified', detail)
        odd = sorted(set(getattr(h, 'used', ())) - set(['__eq__']))
        ctx.check(not odd, lambda: 'of the handler %r is used, which is no '
                  'part of the interface' % odd, detail)
        if d['cat'] != 'Subject':
            ctx.check(not h.log, 'the handler was asked for another category',
                      detail)
            ctx.count('notasked')
            return
        own = model.designator(dict(d, mbp=False), dict(mreq, pip=None))[2]
        ans = mreq['pip']['answers'].get(d['id'])
        if mreq['subjects']:
            ctx.check(len(h.log) >= 1, 'the handler was not asked', detail)
        for q, des in h.log:
            ctx.check(q is req and des is o, 'the handler was asked with '
                      'another request or designator', detail)
            ctx.count('query')
        if mreq['subjects']:
            kind = 'none' if ans is None else 'raise' if ans == 'raise' else \
                'wrongtype' if any(t != d['type'] for t, _ in ans) else \
                'values' if ans else 'empty'
            ctx.count('answer.' + kind)
            overlap = 0
            if kind == 'values':
                overlap = sum(1 for _, v in ans if v in own)
                if overlap:
                    ctx.count('overlap')
            if d['mbp'] and not own:
                if want == model.ERR:
                    ctx.count('mbp.error')
                else:
                    ctx.count('mbp.saved')
            ctx.seen(kind, len(own), overlap, d['mbp'], len(mreq['subjects']),
                     len(ans) if isinstance(ans, list) else None)
            ctx.sample({'designator': d, 'own': own, 'answer': ans,
                        'bag': want})

    def general(rng, i):
        w, mreq = make(rng)
        req = sut.request(mreq)
        for _ in range(8):
            d = w.desig(mreq, 'Subject' if rng.random() < .8 else None)
            if rng.random() < .5:
                ans = mreq['pip']['answers'].get(d['id'])
                if isinstance(ans, list) and ans:
                    d['type'] = ans[0][0]
            if rng.random() < .2:
                d['mbp'] = True
            detail = lambda: mon.show({'request': mreq, 'd': d})  # noqa
            o = sut.api_src(d)
            judge(rng, d, mreq, req, o, detail)
            if rng.random() < .3:       # asking again gives the same
                judge(rng, d, mreq, req, o, detail)
    ctx.group('general', 11520, 69120, general)

    class Iterables(sut.CtxHandlerBase):
        """Answers in other containers than a list"""
        __slots__ = ('values', 'kind')

        def handlePEPRequest(self, pepRequest):
            raise NotImplementedError()

        def pipQuery(self, request, designator):
            if self.kind == 'tuple':
                return tuple(self.values)
            if self.kind == 'typed':
                return sut.TypedList(type(self.values[0]), self.values) \
                    if self.values else sut.TypedList(sut.AttributeValue)
            return list(self.values)

    def containers(rng, i):
        w = gen.World(rng, types=['string'], selectors=0)
        mreq = w.request(missing=0)
        mreq['subjects'] = mreq['subjects'][:1] or [dict(w.holder(),
                                                         category=None)]
        d = w.desig(mreq, 'Subject', 'string')
        vals = []
        for _ in range(rng.randint(0, 3)):
            v = w.value('string')
            if v not in vals:
                vals.append(v)
        mreq['pip'] = {'answers': {d['id']: [('string', v) for v in vals]}}
        h = Iterables()
        h.values = [sut.CLASSES['string'](value=v) for v in vals]
        h.kind = rng.choice(['tuple', 'typed', 'list'])
        req = sut.request(dict(mreq, pip=None))
        req.ctxHandler = h
        got, exc = sut.run_expr(sut.api_src(d), req)
        want = model.designator(d, mreq)
        ctx.check(model.same(got, want), lambda: 'answer as %s: %r (%r), '
                  'expected %r' % (h.kind, got, exc, want),
                  lambda: mon.show({'request': mreq, 'd': d}))
        ctx.check([v.value for v in h.values] == vals, 'handler list changed')
        ctx.count('container.' + h.kind)
    ctx.group('containers', 5760, 34560, containers)

    def decisions(rng, i):
        """Policies decided with a handler, also while the handler itself
        evaluates other requests"""
        w, mreq = make(rng)
        mreq['subjects'] = mreq['subjects'] or [{'category': None,
                                                 'attrs': []}]
        d = w.desig(mreq, 'Subject')
        vals = model.designator(d, mreq)
        v = rng.choice(vals[2]) if vals[0] == 'bag' and vals[2] and \
            rng.random() < .7 else w.value(d['type'])
        if v == '':
            v = 'z'
        t = d['type']
        fn = F1 + t + '-equal' if t in model.EQ_TYPES else \
            'urn:oasis:names:tc:xacml:2.0:function:%s-regexp-match' % t
        tgt = {'subjects': [[{'fn': fn, 'value': {'type': t, 'value': v},
                              'src': d}]]}
        p = {'k': 'Policy', 'id': 'p', 'alg': rng.choice(gen.RALGS),
             'target': None, 'rules': [{'id': 'r', 'effect': P,
                                        'target': tgt, 'cond': None}]}
        req = sut.request(mreq)
        pdp = sut.pdp(sut.text(p))
        if rng.random() < .4:           # a handler that evaluates itself
            w2, m2 = make(rng)
            m2['pip'] = None
            p2 = w2.policy(m2, 'other')
            pdp2, req2 = sut.pdp(sut.text(p2)), sut.request(m2)
            want2 = model.policy(p2, m2)

            def hook(request, designator):
                g = sut.decide(pdp2, req2)
                if g not in want2:
                    ctx.fail('nested evaluation gives %r, expected %s' % (
                        g, want2))
            req.ctxHandler.hook = hook
            ctx.count('nested')
        got = sut.decide(pdp, req)
        want = model.policy(p, mreq)
        ctx.check(got in want, lambda: 'decision %r, expected %s' % (
            got, want), lambda: mon.describe(p, mreq))
        ctx.count('decision.' + got)
    ctx.group('decisions', 11520, 69120, decisions)

    def mutable_world(rng, i):
        """What the handler knows changes between evaluations: every
        evaluation uses the answers of its own time"""
        w, mreq = make(rng)
        mreq['subjects'] = mreq['subjects'] or [{'category': None,
                                                 'attrs': []}]
        d = w.desig(mreq, 'Subject')
        o = sut.api_src(d)
        req = sut.request(mreq)
        for _ in range(4):
            k = rng.random()
            if k < .3:
                ans = None
            elif k < .4:
                ans = 'raise'
            else:
                ans = []
                for _ in range(rng.randint(0, 3)):
                    v = (d['type'], w.value(d['type']))
                    if v not in ans:
                        ans.append(v)
            mreq['pip']['answers'][d['id']] = ans
            req.ctxHandler.answers = mreq['pip']['answers']
            req.ctxHandler.lists = {}
            judge(rng, d, mreq, req, o,
                  lambda: mon.show({'request': mreq, 'd': d}))
        # a request without a handler, same designator
        req2 = sut.request(dict(mreq, pip=None))
        got, exc = sut.run_expr(o, req2)
        want = model.designator(d, dict(mreq, pip=None))
        ctx.check(model.same(got, want), lambda: 'without handler: %r, '
                  'expected %r' % (got, want))
        ctx.count('changing')
    ctx.group('changing', 5760, 34560, mutable_world)

    def large(rng, i):
        """Long answers that overlap with long bags, and many subjects, each
        of which the handler is asked for"""
        n = gen.size(rng, 520)
        t = rng.choice(model.STR_TYPES)
        nsub = rng.choice([1, 1, 2, 33, 70])
        own = ['v%d' % k for k in range(rng.choice([0, 1, n]))]
        subs = [{'category': None, 'attrs': []} for _ in range(nsub)]
        for v in own:
            subs[rng.randint(0, nsub - 1)]['attrs'].append({
                'id': 'x', 'type': t, 'issuer': None, 'values': [v]})
        m = rng.choice([1, 2, n])
        ans = rng.sample(['v%d' % k for k in range(2 * n)], m)
        if rng.random() < .4:
            ans.insert(rng.choice([0, len(ans)]), 'fresh')
        mreq = {'subjects': subs, 'resources': [], 'action': {'attrs': []},
                'env': {'attrs': []}, 'doc': None,
                'pip': {'answers': {'x': [(t, v) for v in ans]}}}
        d = {'k': 'desig', 'cat': 'Subject', 'id': 'x', 'type': t,
             'issuer': None, 'mbp': rng.random() < .5}
        judge(rng, d, mreq, sut.request(mreq), sut.api_src(d),
              lambda: mon.show({'request': mreq, 'd': d}))
        ctx.count('large')
    ctx.group('large', 240, 1440, large)
