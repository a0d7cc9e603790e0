"""Request contexts survive pickling and copying"""
import copy
import pickle
import re

from vp import emit, gen, model, mon, sut
from vp.harness import Violation
from vp.model import D, I, N, P
from vp.peer import Peer
from vp.props import c15

META = {
    'rule': 'one evaluation = the content, a decision, a type restriction or'
            ' the independence of a copied or unpickled object checked against'
            ' its original; distinct = distinct (kind of object, route,'
            ' request shape)',
    'assumptions': [
        'an XML document set for attribute selectors is copied with deepcopy;'
        ' it is pickled with the standard library only (lxml elements cannot'
        ' be pickled)',
        'a context handler is the caller\'s own class: one that can itself be'
        ' pickled is kept with the request'],
    'floors': {'response.large': 15, 'api': 300, 'xml': 300, 'content': 200, 'native': 200,
               'category': 300, 'deepcopy': 200, 'copy.selector': 50,
               'pickle.0': 50, 'pickle.1': 50, 'pickle.2': 50, 'pickle.3': 50,
               'pickle.4': 50, 'pickle.5': 50, 'twice': 100, 'decided': 500,
               'decision.Permit': 50, 'decision.Deny': 50, 'enforced': 500,
               'independent': 300, 'response': 100, 'constant': 50,
               'value': 500, 'bag': 200, 'peer': 100, 'handler': 300, 'changed': 500,
               'handler.asked': 150, 'own': 50, 'stray': 30},
}
ROUTES = ['deepcopy', 0, 1, 2, 3, 4, 5]
STRAY = re.compile(b'(</(?:[A-Za-z0-9]+:)?ResourceContent>)')


def duplicate(rng, x, ctx, route=None):
    if route is None:
        route = rng.choice(ROUTES)
        # the standard library's elements do not support the oldest protocols
        if route in (0, 1) and isinstance(x, sut.Request):
            route = 2
    ctx.count('deepcopy' if route == 'deepcopy' else 'pickle.%d' % route)
    try:
        if route == 'deepcopy':
            return copy.deepcopy(x), route
        return pickle.loads(pickle.dumps(x, route)), route
    except Exception as e:
        raise Violation('a %s cannot be copied (%s): %s: %s' % (
            type(x).__name__, route, type(e).__name__, e))


def elements(r):
    for s in r.subjects:
        yield s
    for s in r.resources:
        yield s
    for h in (r.action, r.environment):
        if h is not None:
            yield h


def sut_attrs(h):
    return [sut.dump_attribute(a) for a in h.attributes]


def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def enforced(ctx, r, detail):
    """Type restrictions of a request"""
    bad = ['x', None, 1, object()]
    for b in bad:
        for op in (lambda: r.subjects.append(b),
                   lambda: r.resources.extend([b]),
                   lambda: r.subjects.insert(0, b),
                   lambda: setattr(r, 'action', b),
                   lambda: setattr(r, 'environment', b)):
            ctx.check(refused(op), lambda: 'a copied request takes %r' % (b,),
                      detail)
    for h in elements(r):
        ctx.check(refused(lambda: h.attributes.append('x')),
                  'attributes of a copy take a string', detail)
        for a in h.attributes:
            ctx.check(refused(lambda: a.attributeValues.append('x')),
                      'values of a copy take a string', detail)
            ctx.check(refused(lambda: setattr(a, 'issuer', 1)),
                      'the issuer of a copy takes a number', detail)
    ctx.count('enforced')


def change(rng, r):
    """Change as many parts of a request as there are"""
    for h in elements(r):
        for a in h.attributes:
            for v in a.attributeValues:
                if isinstance(v.value, str):
                    v.value = 'changed'
            a.attributeId = 'urn:changed'
            a.issuer = 'changed'
            if rng.random() < .5 and len(a.attributeValues):
                del a.attributeValues[0]
        if isinstance(h, sut.Subject):
            h.subjectCategory = 'urn:changed'
        if isinstance(h, sut.Resource) and h.resourceContent is not None:
            h.resourceContent.text = 'changed'
            h.resourceContent.set('changed', '1')
        h.attributes.append(sut.attribute(
            {'id': 'new', 'type': 'string', 'values': ['x']}))
    r.subjects.append(sut.Subject())
    del r.resources[:]
    r.action = sut.Action()


def run(ctx):
    sut.register_all()

    def build(rng):
        """@return: (world, model, request, expected content)"""
        k = rng.random()
        if k < .4:
            w = c15.world(rng)
            m = c15.make(rng, w)
            if rng.random() < .5:
                data = emit.plain(emit.request_node(m), ns=emit.CNS)
                if rng.random() < .3:
                    # text which belongs to no element
                    data, n = STRAY.subn(br'\1stray text', data)
                    ctx.count('stray', n)
            else:
                data = emit.varied(emit.request_node(m), rng, ns=emit.CNS)
            r = sut.request_from_xml(data)
            ctx.count('xml')
        else:
            if k < .7:
                w = gen.World(rng, selectors=0, probes=False)
                m = w.request()
                m['doc'] = None
                if rng.random() < .03:
                    w.enlarge(m)
                ctx.count('native')
            else:
                w = c15.world(rng)
                m = c15.make(rng, w)
            r = sut.request(m)
            ctx.count('api')
            ctx.count('own', m['own'])
        ctx.count('content', sum(s.get('content') is not None
                                 for s in m['resources']))
        ctx.count('category', sum(s.get('category') is not None
                                  for s in m['subjects']))
        return w, m, r, sut.dump_request(r)

    def requests(rng, i):
        w, m, r, want = build(rng)
        detail = lambda: mon.show(m)  # noqa
        c, route = duplicate(rng, r, ctx)
        ctx.check(type(c) is type(r), 'the copy is of another class', detail)
        got = sut.dump_request(c)
        ctx.check(got == want, lambda: 'the copy (%s) has another content: %s'
                  % (route, mon.show([want, got])), detail)
        ctx.check(sut.dump_request(r) == want, 'copying changed the original',
                  detail)
        c2, route2 = duplicate(rng, c, ctx)
        ctx.check(sut.dump_request(c2) == want, lambda: 'the copy (%s) of the '
                  'copy (%s) has another content: %s' % (
                      route2, route, mon.show([want, sut.dump_request(c2)])),
                  detail)
        ctx.count('twice')
        for h, hc in zip(elements(r), elements(c)):
            ctx.check(type(h) is type(hc) and h is not hc,
                      'parts of the copy are shared', detail)
            for a, ac in zip(h.attributes, hc.attributes):
                ctx.check(a is not ac and type(ac) is type(a) and
                          a.attributeValues is not ac.attributeValues,
                          'attributes of the copy are shared', detail)
                for v, vc in zip(a.attributeValues, ac.attributeValues):
                    ctx.check(v is not vc and type(v) is type(vc) and
                              v == vc and type(v.value) is type(vc.value),
                              'values of the copy differ or are shared',
                              detail)
        for _ in range(2):
            p = w.any_policy(m, depth=1)
            o = sut.load(sut.text(p))
            ds = [sut.decide(o, x) for x in (r, c, c2)]
            ctx.check(len(set(ds)) == 1, lambda: 'decisions differ: %r' % ds,
                      lambda: mon.describe(p, m))
            ctx.count('decided')
            ctx.count('decision.' + ds[0])
        for x in (c, c2):
            enforced(ctx, x, detail)
            ctx.check(sut.dump_request(x) == want, 'a refused change took '
                      'effect', detail)
        if want['action'] is not None and want['env'] is not None and \
                all(v[0] in [model.TYPES[t] for t in model.STR_TYPES]
                    for h in elements(r) for a in sut_attrs(h)
                    for v in a['values']) and \
                not any((s.resourceContent.tail or '').strip()
                        for s in r.resources if s.resourceContent is not None):
            # (white space and text which follow the resource content, and
            # belong to no attribute or content, may be left out)
            a = c15.squeeze(sut.dump_element(sut.RequestElementTree.toXML(r)))
            b = c15.squeeze(sut.dump_element(sut.RequestElementTree.toXML(c)))
            ctx.check(a == b, 'the copy is serialised differently', detail)
        victims = [r, c, c2]
        rng.shuffle(victims)
        change(rng, victims[0])
        now = sut.dump_request(victims[0])
        c3, route3 = duplicate(rng, victims[0], ctx)
        ctx.check(sut.dump_request(c3) == now, lambda: 'the copy (%s) of a '
                  'changed request has another content: %s' % (
                      route3, mon.show([now, sut.dump_request(c3)])), detail)
        ctx.count('changed')
        for x in victims[1:]:
            ctx.check(sut.dump_request(x) == want, lambda: 'a change of one '
                      'shows in the other: %s' % mon.show(
                          [want, sut.dump_request(x)]), detail)
        change(rng, victims[1])
        ctx.check(sut.dump_request(victims[2]) == want, 'a change of one '
                  'shows in the other', detail)
        ctx.count('independent')
        ctx.seen('request', route, route2, c15.shape(m) if m['action'] and
                 m['env'] else i)
        ctx.sample({'routes': [route, route2], 'content': str(want)[:400]})
    ctx.group('requests', 2800, 16800, requests)

    def handlers(rng, i):
        """Requests with a context handler that can be copied with them"""
        w = gen.World(rng, selectors=0, probes=False)
        m = w.request(pip=1)
        m['pip'].pop('handler', None)
        r = sut.request(m)
        c, route = duplicate(rng, r, ctx, rng.choice(ROUTES[:1] + ROUTES[3:]))
        ctx.check(type(c.ctxHandler) is type(r.ctxHandler) and
                  c.ctxHandler is not r.ctxHandler, lambda: 'the copy (%s) of'
                  ' a request with a context handler has %r' % (
                      route, c.ctxHandler), lambda: mon.show(m))
        for _ in range(2):
            p = w.any_policy(m, depth=1)
            o = sut.load(sut.text(p))
            a, b = sut.decide(o, r), sut.decide(o, c)
            ctx.check(a == b, lambda: 'decisions differ: %r, for the copy (%s)'
                      ' %r' % (a, route, b), lambda: mon.describe(p, m))
            ctx.count('handler')
            ctx.count('handler.asked', bool(r.ctxHandler.log))
            ctx.seen('handler', route, a, bool(r.ctxHandler.log))
    ctx.group('handlers', 400, 2400, handlers)

    def selectors(rng, i):
        """Requests with a document for selectors"""
        w = gen.World(rng, types=['string'], probes=False, selectors=.7)
        m = w.request(missing=0)
        m['doc'] = w.make_doc()
        r = sut.request(m)
        route = 'deepcopy' if ctx.backend == 'lxml' else None
        c, route = duplicate(rng, r, ctx, route)
        p = w.any_policy(m, depth=1)
        o = sut.load(sut.text(p))
        a, b = sut.decide(o, r), sut.decide(o, c)
        ctx.check(a == b, lambda: 'decisions differ: %r, for the copy %r' % (
            a, b), lambda: mon.describe(p, m))
        path = model.path_string(w.path())
        ctx.check(r.attributeSelector.selectText(path) ==
                  c.attributeSelector.selectText(path),
                  'the copy selects another text', lambda: mon.show(m))
        ctx.count('copy.selector')
        ctx.seen('selector', route, a)
    ctx.group('selectors', 480, 2880, selectors)

    def responses(rng, i):
        res = [(rng.choice([P, D, I, N]), rng.choice([None, 'urn:x', 'a b']))
               for _ in range(rng.randint(0, 4) if rng.random() < .97 else
                              gen.size(rng, 520))]
        if len(res) > 4:
            ctx.count('response.large')
        r = sut.response(res)
        if rng.random() < .5:
            for x in r.results:
                if rng.random() < .5:
                    x.decision = {P: sut.Decision.PERMIT,
                                  D: sut.Decision.DENY,
                                  I: sut.Decision.INDETERMINATE,
                                  N: sut.Decision.NOT_APPLICABLE}[
                                      x.decision.value]
        c, route = duplicate(rng, r, ctx)
        ctx.check(type(c) is sut.Response and sut.dump_response(c) == res,
                  lambda: 'the copy (%s) is %r, expected %r' % (
                      route, sut.dump_response(c), res))
        for x, y in zip(r.results, c.results):
            ctx.check(type(y) is type(x) and x is not y and
                      x.decision == y.decision and
                      type(x.decision) is type(y.decision),
                      'results of the copy differ or are shared')
            ctx.check((x.status is None) == (y.status is None) and (
                x.status is None or
                (x.status.statusCode.value, x.status.statusMessage,
                 x.status.statusDetail) ==
                (y.status.statusCode.value, y.status.statusMessage,
                 y.status.statusDetail)), 'the status of the copy differs')
        ctx.check(refused(lambda: c.results.append('Permit')) and
                  refused(lambda: c.results.append(sut.Decision(P))),
                  'a copied response takes what is no result')
        for y in c.results:
            ctx.check(refused(lambda: setattr(y, 'decision', 'Permit')),
                      'a copied result takes a string as its decision')
            if type(y.decision) is sut.Decision:
                ctx.check(refused(lambda: setattr(y.decision, 'value', 'X')),
                          'a copied decision takes an unknown value')
        ctx.check(sut.dump_response(c) == res, 'a refused change took effect')
        one, other = (r, c) if rng.random() < .5 else (c, r)
        for x in one.results:
            if type(x.decision) is sut.Decision:
                x.decision.value = D if x.decision.value == P else P
            x.resourceId = 'changed'
            if x.status is not None:
                x.status.statusMessage = 'changed'
        one.results.append(sut.Result())
        ctx.check(sut.dump_response(other) == res and all(
            x.status is None or x.status.statusMessage != 'changed'
            for x in other.results), 'a change of one shows in the other')
        ctx.count('response')
        ctx.seen('response', route, tuple(res))
    ctx.group('responses', 1200, 7200, responses)

    def small(rng, i):
        """Decisions, attributes, values and bags on their own"""
        word = rng.choice([P, D, I, N])
        for d in (sut.Decision(word), {
                P: sut.Decision.PERMIT, D: sut.Decision.DENY,
                I: sut.Decision.INDETERMINATE,
                N: sut.Decision.NOT_APPLICABLE}[word]):
            c, route = duplicate(rng, d, ctx)
            ctx.check(type(c) is type(d) and c.value == word and c == d and
                      str(c) == word, lambda: 'copy (%s) of %r is %r' % (
                          route, d, c))
            ctx.check(refused(lambda: setattr(c, 'value', 'X')) and
                      c.value == word, 'a copied decision takes X')
            if type(d) is not sut.Decision:
                ctx.check(refused(lambda: setattr(c, 'value', P)) and
                          c.value == word and d.value == word,
                          'the copy of a constant is not read-only')
                ctx.count('constant')
            else:
                c.value = D if word == P else P
                ctx.check(d.value == word, 'a change of the copy shows')
        w = gen.World(rng, ntypes=4)
        for t in w.types:
            v = sut.CLASSES[t](value=w.value(t))
            if rng.random() < .1:
                v = sut.CLASSES[t]()
            c, route = duplicate(rng, v, ctx)
            ctx.check(type(c) is type(v) and c.dataType == v.dataType and
                      c.value == v.value and type(c.value) is type(v.value),
                      lambda: 'copy (%s) of the %s value %r is %r' % (
                          route, t, v.value, c.value))
            ctx.check(refused(lambda: setattr(c, 'value', object())),
                      'a copied value takes any type')
            ctx.count('value')
            bag = sut.TypedList(sut.CLASSES[t], [
                sut.CLASSES[t](value=w.value(t))
                for _ in range(rng.randint(0, 3))])
            b, route = duplicate(rng, bag, ctx)
            ctx.check(type(b) is sut.TypedList and
                      b.elementType is bag.elementType and
                      len(b) == len(bag) and all(
                          x == y and x is not y for x, y in zip(b, bag)),
                      'the copy of a bag differs')
            ctx.check(refused(lambda: b.append('x')) and
                      refused(lambda: b.extend([sut.Subject()])) and
                      len(b) == len(bag), 'a copied bag takes a string')
            n = len(bag)
            b.append(sut.CLASSES[t](value=w.value(t)))
            ctx.check(len(bag) == n, 'a copied bag shares its items')
            ctx.count('bag')
            a = sut.attribute(dict(w.attr(), type=t, values=[
                w.value(t) for _ in range(rng.randint(0, 3))]))
            want = sut.dump_attribute(a)
            c, route = duplicate(rng, a, ctx)
            ctx.check(type(c) is type(a) and sut.dump_attribute(c) == want,
                      lambda: 'copy (%s) of an attribute: %s' % (
                          route, mon.show([want, sut.dump_attribute(c)])))
            c.attributeId = 'changed'
            c.attributeValues.append(sut.CLASSES[t](value=w.value(t)))
            ctx.check(sut.dump_attribute(a) == want, 'a change of the copy '
                      'of an attribute shows')
            ctx.seen('value', t, route)
    ctx.group('small', 800, 4800, small)

    def elsewhere(rng, i):
        """Unpickled in another process, in another order of imports"""
        peer = Peer(ctx.backend, str(rng.randint(1, 10 ** 6)))
        try:
            for _ in range(15):
                w, m, r, want = build(rng)
                p = w.any_policy(m, depth=1)
                data = sut.text(p)
                proto = rng.choice([2, 3, 4, 5, None])
                st, got = peer.ask('unpickle', pickle.dumps(r, proto), [data])
                ctx.check(got[0] == want, lambda: 'unpickled elsewhere with '
                          'another content: %s' % mon.show([want, got[0]]))
                here = sut.decide(sut.load(data), r)
                ctx.check(got[1] == [here], lambda: 'decision %r here, %r '
                          'elsewhere' % (here, got[1]),
                          lambda: mon.describe(p, m))
                ctx.count('peer')
            res = [(rng.choice([P, D, I, N]), None) for _ in range(3)]
            st, got = peer.ask('unpickle_response',
                               pickle.dumps(sut.response(res)))
            ctx.check(got == res, 'a response is unpickled differently '
                      'elsewhere')
        finally:
            peer.close()
    ctx.group('elsewhere', 8, 100, elsewhere)
