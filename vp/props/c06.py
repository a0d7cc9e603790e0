"""Attribute designators yield exactly the matching request values"""
import copy

from vp import emit, gen, model, mon, sut
from vp.gen import F1
from vp.model import D, I, N, P

META = {
    'rule': 'one evaluation = the bag (or error) one designator gives for one'
            ' request compared, value by value and with multiplicity, with an'
            ' independent selection over the request; distinct = distinct'
            ' (category, type, issuer given, must be present, bag size,'
            ' near misses present)',
    'assumptions': ['requests without a context handler (C07 covers those)'],
    'floors': {'own': 50, 'bag.0': 100, 'bag.1': 100, 'bag.many': 100, 'error': 30,
               'issuer': 100, 'Subject': 200, 'Resource': 200, 'Action': 100,
               'Environment': 100, 'nearmiss': 200, 'xml': 100,
               'foreign': 100, 'again.value': 50,
               'again.attribute': 50, 'again.Subject': 50,
               'again.Resource': 50, 'large': 100, 'large.bag.60+': 40},
}


def run(ctx):
    sut.register_all()

    def judge(d, mreq, req, o, detail):
        want = model.designator(d, mreq)
        got, exc = sut.run_expr(o, req)
        ctx.check(model.same(got, want) or (
            got[0] == want[0] == 'bag' and got[1] == want[1] and
            sorted(map(repr, got[2])) == sorted(map(repr, want[2]))),
            lambda: 'designator %s gives %r (%r), expected %r' % (
                d, got, exc, want), detail)
        if want[0] == 'bag':
            n = len(want[2])
            ctx.count('bag.%s' % (n if n < 2 else 'many'))
            ctx.check(list(got[2]) == list(want[2]), lambda: 'designator %s: '
                      'values %r out of order, request has %r' % (
                          d, got[2], want[2]), detail)
        else:
            n = -1
            ctx.count('error')
        if d.get('issuer') is not None:
            ctx.count('issuer')
        ctx.count(d['cat'])
        near = sum(1 for c in gen.CATS for h in holders(mreq, c)
                   for a in h['attrs'] if sum((
                       a['id'] == d['id'], a['type'] == d['type'],
                       d.get('issuer') in (None, a['issuer']),
                       c == d['cat'])) == 3)
        if near:
            ctx.count('nearmiss')
        ctx.seen(d['cat'], d['type'], d.get('issuer') is None, d['mbp'], n,
                 min(near, 4))
        return want

    def holders(mreq, cat):
        if cat in ('Subject', 'Resource'):
            return mreq[cat.lower() + 's']
        h = mreq['action' if cat == 'Action' else 'env']
        return [h] if h is not None else []

    def parse(d):
        t = dict((b, a) for a, b in gen.SECTION_CAT.items())[d['cat']]
        p = {'k': 'Policy', 'id': 'p', 'alg': 'deny-overrides',
             'target': None, 'rules': [
                 {'id': 'r', 'effect': P, 'target': {t: [[{
                     'fn': F1 + 'string-equal', 'value': {
                         'k': 'val', 'type': 'string', 'value': 'x'},
                     'src': d}]]}, 'cond': None},
                 {'id': 'q', 'effect': P, 'target': None, 'cond': {
                     'k': 'apply', 'fn': F1 + 'not', 'args': [d]}}]}
        o = sut.load(sut.text(p))
        yield getattr(o.rules[0].target, t)[0].matches[0].attributeDesignator
        yield o.rules[1].condition.expression.expressions[0]

    def again(rng, mreq, req):
        """An application adds an object it has already added: the request
        contains it twice"""
        real = {'Subject': list(req.subjects), 'Resource':
                list(req.resources), 'Action': [req.action],
                'Environment': [req.environment]}
        for c in gen.CATS:
            for h, o in zip(holders(mreq, c), real[c]):
                if not h['attrs'] or rng.random() < .5:
                    continue
                k = rng.randrange(len(h['attrs']))
                a, b = h['attrs'][k], o.attributes[k]
                if rng.random() < .5 and a['values']:
                    a['values'].append(a['values'][0])
                    b.attributeValues.append(b.attributeValues[0])
                    ctx.count('again.value')
                else:
                    h['attrs'].append(a)
                    o.attributes.append(b)
                    ctx.count('again.attribute')
        for c, k, l in (('Subject', 'subjects', req.subjects),
                        ('Resource', 'resources', req.resources)):
            if mreq[k] and rng.random() < .4:
                n = rng.randrange(len(mreq[k]))
                mreq[k].append(mreq[k][n])
                l.append(l[n])
                ctx.count('again.' + c)

    def general(rng, i):
        w = gen.World(rng, ntypes=rng.randint(0, 3), selectors=0)
        xml = all(t in model.STR_TYPES for t in w.types) and rng.random() < .6
        for _ in range(4):
            mreq = w.request(xml=xml)
            if rng.random() < .5:       # more attributes that nearly match
                for c in gen.CATS:
                    for h in holders(mreq, c):
                        for a in list(h['attrs']):
                            b = copy.deepcopy(a)
                            k = rng.randint(0, 4 if xml else 6)
                            if k == 0:
                                b['id'] = rng.choice([
                                    b['id'] + 'x', b['id'].upper(),
                                    b['id'] + ' ', b['id'][:-1]])
                            elif k == 1:
                                b['issuer'] = rng.choice(
                                    [None, 'iss', (b['issuer'] or '') + 'x',
                                     (b['issuer'] or 'A').swapcase()])
                            elif k == 2:
                                b['type'] = rng.choice(
                                    model.STR_TYPES) if b['type'] in \
                                    model.STR_TYPES else b['type']
                            elif k > 4:
                                # a data type of the application's own
                                t = model.TYPES[b['type']]
                                b['dtype'] = rng.choice([
                                    'http://example.org/types#' +
                                    t.split('#')[-1].split(':')[-1],
                                    t + 'x', t.upper(), ' ' + t, t[:-1],
                                    t.split('#')[-1].split(':')[-1],
                                    t.replace('http:', 'https:') + '/',
                                    t + '#'])
                                ctx.count('foreign')
                            h['attrs'].insert(
                                rng.randint(0, len(h['attrs'])), b)
            if xml:
                req = sut.request_from_xml(emit.varied(
                    emit.request_node(mreq), rng, ns=emit.CNS))
                ctx.count('xml')
            else:
                req = sut.request(mreq)
                ctx.count('own', mreq['own'])
                if rng.random() < .4:
                    again(rng, mreq, req)
            for _ in range(6):
                d = w.desig(mreq)
                if rng.random() < .15 and d['issuer'] is None:
                    d['issuer'] = rng.choice(gen.ISSUERS)
                detail = lambda: mon.show({'request': mreq, 'd': d})  # noqa
                if rng.random() < .75:
                    judge(d, mreq, req, sut.api_src(d), detail)
                else:
                    for o in parse(d):
                        judge(d, mreq, req, o, detail)
                ctx.sample({'designator': d})
    ctx.group('general', 3200, 19200, general)

    def cross(rng, i):
        """Every category, type and issuer against one request that has the
        same identifier everywhere"""
        types = list(model.TYPES)
        attrs = []
        for t in types:
            for iss in (None, 'i', 'j'):
                n = rng.randint(0, 2)
                v = gen.World(rng, types=[t], selectors=0)
                attrs.append({'id': 'x', 'type': t, 'issuer': iss,
                              'values': [v.value(t) for _ in range(n)]})

        def some(k):
            out = [copy.deepcopy(a) for a in attrs if rng.random() < k]
            rng.shuffle(out)
            return {'attrs': out, 'category': rng.choice(gen.CATEGORIES),
                    'content': None}
        mreq = {'subjects': [some(.5) for _ in range(rng.randint(1, 3))],
                'resources': [some(.5) for _ in range(rng.randint(1, 3))],
                'action': some(.5), 'env': some(.5), 'pip': None, 'doc': None}
        req = sut.request(mreq)
        for cat in gen.CATS:
            for t in types:
                for iss in (None, 'i', 'j', 'k', ''):
                    d = {'k': 'desig', 'cat': cat, 'id': 'x', 'type': t,
                         'issuer': iss, 'mbp': rng.random() < .3}
                    judge(d, mreq, req, sut.api_src(d),
                          lambda: mon.show({'request': mreq, 'd': d}))
    ctx.group('cross', 384, 2304, cross)

    def independent(rng, i):
        """Bags are new objects: changing one changes neither the request nor
        the next bag"""
        w = gen.World(rng, selectors=0)
        mreq = w.request(missing=0)
        req = sut.request(mreq)
        d = w.desig(mreq)
        d['mbp'] = False
        o = sut.api_src(d)
        want = model.designator(d, mreq)
        bag = o.evaluate(req)
        bag.append(sut.CLASSES[d['type']](value=w.value(d['type'])))
        bag.reverse()
        bag2 = o.evaluate(req)
        ctx.check(sut.to_result(bag2) == want, 'a later evaluation sees what '
                  'was done to an earlier bag', lambda: mon.show(
                      {'request': mreq, 'd': d}))
        del bag2[:]
        ctx.check(sut.dump_request(req) == sut.model_dump(mreq),
                  'the request changed with a bag')
        ctx.count('independent')
    ctx.group('independent', 1600, 9600, independent)

    def decisions(rng, i):
        """The bag a policy sees: its size and members decide"""
        w = gen.World(rng, types=['string'], selectors=0, errors=0)
        mreq = w.request(missing=0)
        req = sut.request(mreq)
        d = w.desig(mreq, typ='string')
        want = model.designator(d, mreq)
        for v in w.vals['string'][:3]:
            e = {'k': 'apply', 'fn': F1 + 'string-equal', 'args': [
                {'k': 'apply', 'fn': F1 + 'string-one-and-only', 'args': [d]},
                {'k': 'val', 'type': 'string', 'value': v}]}
            p = {'k': 'Policy', 'id': 'p', 'alg': 'first-applicable',
                 'target': None, 'rules': [{'id': 'r', 'effect': P,
                                            'target': None, 'cond': e}]}
            got = sut.decide(sut.pdp(sut.text(p)), req)
            if want == model.ERR or len(want[2]) != 1:
                w_ = I
            else:
                w_ = P if want[2][0] == v else N
            ctx.check(got == w_, lambda: 'decision %r, expected %r' % (
                got, w_), lambda: mon.describe(p, mreq))
            ctx.count('decision.' + got)
    ctx.group('decisions', 2560, 15360, decisions)

    def large(rng, i):
        """Requests with many holders, attributes and values: the designator
        finds exactly its own, wherever they stand"""
        n = gen.size(rng, 1100)
        ids = ['urn:a:%d' % k for k in range(rng.choice([1, 2, 3, n]))]
        types = rng.sample(model.STR_TYPES, rng.randint(1, 2))
        mreq = {'subjects': [], 'resources': [], 'action': {'attrs': []},
                'env': {'attrs': []}, 'pip': None, 'doc': None}
        per = rng.choice([1, 2, 7, n])      # attributes in one holder
        most = rng.choice([0, 1, 1, 3, n])  # values in one attribute
        cat = rng.choice(gen.CATS)
        attrs, total = [], 0
        for k in range(n):
            if total > n and rng.random() < .5:
                break
            vals = ['v%d' % (total + j) for j in range(
                rng.randint(min(1, most), most))]
            if vals and rng.random() < .2:
                vals.append(vals[0])
            total += len(vals)
            attrs.append({'id': rng.choice(ids), 'type': rng.choice(types),
                          'issuer': rng.choice([None, None, 'i', 'j']),
                          'values': vals})
        last = {'id': 'urn:last', 'type': types[0], 'issuer': None,
                'values': ['last']}
        attrs.insert(rng.choice([len(attrs), rng.randint(0, len(attrs))]),
                     last)
        hs = [{'category': None, 'content': None, 'attrs': attrs[k:k + per]}
              for k in range(0, len(attrs), per)]
        if cat in ('Subject', 'Resource'):
            mreq[cat.lower() + 's'] = hs
        else:
            mreq['action' if cat == 'Action' else 'env'] = {'attrs': attrs}
        if most and rng.random() < .5:
            req = sut.request_from_xml(emit.plain(
                emit.request_node(mreq), ns=emit.CNS))
        else:
            req = sut.request(mreq)
        for x in ['urn:last', ids[0], ids[-1], rng.choice(ids), 'urn:none']:
            for mbp in (False, True):
                d = {'k': 'desig', 'cat': cat, 'id': x,
                     'type': rng.choice(types) if x != 'urn:last' else
                     types[0], 'issuer': rng.choice([None, None, 'j']),
                     'mbp': mbp}
                want = judge(d, mreq, req, sut.api_src(d),
                             lambda: mon.show({'request': mreq, 'd': d}))
                if want[0] == 'bag':
                    ctx.count('large.bag.%s' % (
                        len(want[2]) if len(want[2]) < 2 else '60+' if
                        len(want[2]) > 60 else 'some'))
        ctx.count('large')
    ctx.group('large', 240, 1440, large)
