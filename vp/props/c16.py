"""Responses, results and decisions survive serialisation to XML and parsing"""
from vp import emit, gen, model, mon, sut
from vp.emit import Node
from vp.model import D, I, N, P
from vp.sut import ElementTree

META = {
    'rule': 'one evaluation = the content of a response, its document or a'
            ' decision element compared before and after a round trip, or one'
            ' malformed response document refused; distinct = distinct'
            ' (decisions, identifiers present, route) or (mutation, place)',
    'assumptions': [
        'the status is not part of the documents the serialiser writes',
        'the standard library writes a carriage return in an attribute'
        ' unescaped (its own defect): such identifiers are then compared'
        ' without going through text'],
    'floors': {'results.30+': 30, 'changed': 300, 'roundtrip': 500, 'roundtrip.text': 300, 'decision.Permit': 200,
               'decision.Deny': 200, 'decision.Indeterminate': 200,
               'decision.NotApplicable': 200, 'resourceId': 300,
               'noResourceId': 100, 'results.0': 20, 'results.many': 100,
               'evaluated': 100, 'spelling': 200, 'refused': 800,
               'm.decision': 100, 'm.root': 50, 'm.unknown': 100,
               'm.twice': 50, 'm.none': 50, 'm.child': 50,
               'alone.decision': 100, 'alone.twice': 50, 'alone.none': 50,
               'alone.child': 100, 'alone.kind': 200},
}
WORDS = [P, D, I, N]
RIDS = ['urn:x', 'a b', '<&>"\'', '\u00e9', 'http://h/p?q=1&r', ' x ', 'x' * 400,
        '', 'a\tb', 'a\nb', 'a\rb', '{urn:x}y', 'None', '\U0001f600', 'Permit',
        '%s', ']]>']
BADWORDS = ['permit', 'PERMIT', 'Permitted', 'Permi', '', 'Allow', 'true',
            'Not Applicable', 'Notapplicable', 'Permit Deny', 'PermitDeny',
            'P\u0435rmit', '1', 'None', 'Indeterminate{P}', 'Deny,',
            'urn:Permit']
NAMES = ['Unknown', 'decision', 'Status', 'Obligations', 'Request', 'Rule',
         'Decision2', 'Results', 'X', 'ResourceId']


def results(rng):
    n = gen.wpick(rng, [(1, 6), (2, 2), (3, 1), (7, 1), (0, 1),
                        (gen.size(rng, 300), .03)])
    return [(rng.choice(WORDS), rng.choice(RIDS) if rng.random() < .6
             else None) for _ in range(n)]


def build(rng, res):
    """The response, by different means"""
    out = sut.Response()
    for d, rid in res:
        k = rng.randint(0, 5)
        if k == 0:
            r = sut.Result.createInitialised(decision=d)
        elif k == 1 and rid:
            r = sut.Result.createInitialised(decision=d, resourceId=rid)
        elif k == 2:
            r = sut.Result()
            r.decision = {P: sut.Decision.PERMIT, D: sut.Decision.DENY,
                          I: sut.Decision.INDETERMINATE,
                          N: sut.Decision.NOT_APPLICABLE}[d]
        elif k == 3:
            r = sut.Result()
            r.decision = sut.Decision(d)
        elif k == 4:
            # a decision class of the application's own
            r = sut.Result()
            r.decision = rng.choice([sut.OwnDecision,
                                     sut.AuditedDecision])(d)
        else:
            r = sut.Result()
            r.decision = sut.Decision()
            r.decision.value = d
        if rid is not None:
            r.resourceId = rid
        out.results.append(r)
    return out


def doc(res, words=None):
    out = Node('Response')
    for d, rid in res:
        out.children.append(Node('Result', {} if rid is None else
                                 {'ResourceId': rid},
                                 [Node('Decision', {}, [d])]))
    return out


def shape(e):
    """Document structure with local names, namespaces apart"""
    return (e.tag, dict(e.attrib), (e.text or '').strip(),
            [shape(c) for c in e])


def run(ctx):
    sut.register_all()

    def expect(res):
        q = '{%s}' % emit.CNS
        return (q + 'Response', {}, '', [
            (q + 'Result', {} if rid is None else {'ResourceId': rid}, '',
             [(q + 'Decision', {}, d, [])]) for d, rid in res])

    def back(rng, elem, res):
        cr = any('\r' in (rid or '') for _, rid in res)
        routes = ['direct']
        if ctx.backend == 'lxml' or not cr:
            routes += ['text', 'declared', 'file']
        route = rng.choice(routes)
        if route == 'direct':
            return elem, route
        ctx.count('roundtrip.text')
        if route == 'text':
            data = ElementTree.tostring(elem)
        elif route == 'declared':
            data = ElementTree.tostring(elem, encoding=rng.choice(
                ['utf-8', 'utf-16', 'us-ascii']))
        else:
            ElementTree.ElementTree(elem).write('x.xml', encoding='utf-8')
            with open('x.xml', 'rb') as f:
                data = f.read()
        return sut.parse_element(data), route

    def roundtrip(rng, i):
        res = results(rng)
        detail = lambda: mon.show(res)  # noqa
        r = build(rng, res)
        ctx.check(sut.dump_response(r) == res, lambda: 'the response does not'
                  ' have the content it was given: %r' % sut.dump_response(r),
                  detail)
        elem = sut.ResponseElementTree.toXML(r)
        ctx.check(shape(elem) == expect(res), lambda: 'the document is %r'
                  % (shape(elem),), detail)
        ctx.check(sut.dump_response(r) == res, 'serialising changed the '
                  'response', detail)
        ctx.check(shape(sut.ResponseElementTree.toXML(r)) == shape(elem),
                  'serialising again gives another document', detail)
        e2, route = back(rng, elem, res)
        got = sut.ResponseElementTree.fromXML(e2)
        ctx.check(isinstance(got, sut.Response) and
                  sut.dump_response(got) == res, lambda: 'read back (%s) as %r'
                  % (route, sut.dump_response(got)), detail)
        e3, route3 = back(rng, sut.ResponseElementTree.toXML(got), res)
        got3 = sut.ResponseElementTree.fromXML(e3)
        ctx.check(sut.dump_response(got3) == res, lambda: 'read back twice as'
                  ' %r' % sut.dump_response(got3), detail)
        ctx.count('roundtrip')
        ctx.count('results.%s' % (len(res) if len(res) < 2 else 'many'))
        if len(res) > 30:
            ctx.count('results.30+')
        for k, (d, rid) in enumerate(res):
            ctx.count('decision.' + d)
            ctx.count('noResourceId' if rid is None else 'resourceId')
            x = got.results[k]
            ctx.check(isinstance(x.decision, sut.Decision) and
                      x.decision == d and str(x.decision) == d and
                      all((x.decision == o) is (o == d) for o in WORDS),
                      'the decision read does not equal its value', detail)
            re = sut.ResultElementTree.toXML(r.results[k])
            one = sut.ResultElementTree.fromXML(re)
            ctx.check((one.decision.value, one.resourceId) == (d, rid),
                      'a result on its own is read differently', detail)
            de = sut.DecisionElementTree.toXML(r.results[k].decision)
            ctx.check(shape(de) == ('{%s}Decision' % emit.CNS, {}, d, []),
                      lambda: 'decision document %r' % (shape(de),), detail)
            ctx.check(sut.DecisionElementTree.fromXML(de).value == d,
                      'a decision on its own is read differently', detail)
        # independent objects
        if res and got.results:
            got.results[0].decision = sut.Decision(P if res[0][0] != P else D)
            got.results[0].resourceId = 'changed'
            got.results.append(sut.Result())
            ctx.check(sut.dump_response(r) == res and
                      sut.dump_response(got3) == res, 'changing the copy '
                      'changes the original', detail)
            # the changed response is serialised as it is now
            got.results.pop()
            if rng.random() < .5:
                got.results.reverse()
            now = sut.dump_response(got)
            ctx.check(shape(sut.ResponseElementTree.toXML(got)) ==
                      expect(now), 'a changed response is serialised with '
                      'another content', detail)
            ctx.count('changed')
        ctx.seen(tuple(d for d, _ in res)[:4],
                 tuple(x is None for _, x in res)[:4], route, route3)
        ctx.sample({'results': [str(x) for x in res[:3]],
                    'xml': ElementTree.tostring(elem)[:400]})
    ctx.group('roundtrip', 21600, 129600, roundtrip)

    def evaluated(rng, i):
        """Responses the PDP gives"""
        w = gen.World(rng, errors=.1)
        m = w.request()
        p = w.any_policy(m, depth=1)
        resp = sut.pdp(sut.text(p)).evaluate(sut.request(m))
        sut.assert_response(resp)
        d = resp.results[0].decision.value
        elem, route = back(rng, sut.ResponseElementTree.toXML(resp),
                           [(d, resp.results[0].resourceId)])
        before = ElementTree.tostring(elem)
        got = sut.ResponseElementTree.fromXML(elem)
        ctx.check(ElementTree.tostring(elem) == before, 'reading a response'
                  ' changes the element it is read from',
                  lambda: repr(before))
        ctx.check(sut.dump_response(got) == sut.dump_response(resp),
                  lambda: 'the response %r is read back as %r' % (
                      sut.dump_response(resp), sut.dump_response(got)))
        ctx.check(ElementTree.tostring(elem).count(d.encode()) == 1,
                  'the document does not name the decision')
        ctx.count('evaluated')
        ctx.seen('evaluated', d, route)
    ctx.group('evaluated', 3840, 23040, evaluated)

    def spelling(rng, i):
        res = results(rng)
        node = doc(res)
        strange = rng.random() < .2
        if strange:
            # attributes of other namespaces: refused or of no effect
            emit.strangers(rng, node, emit.CNS)
            for n in node.children:
                if rng.random() < .5:
                    emit.foreign(rng, n, 'ResourceId', 'other', emit.CNS)
        data = emit.varied(node, rng, ns=emit.CNS)
        try:
            got = sut.ResponseElementTree.fromXML(sut.parse_element(data))
        except Exception:
            if strange:
                ctx.count('strangers.refused')
                return
            raise
        ctx.count('strangers', strange)
        ctx.check(sut.dump_response(got) == res, lambda: 'read as %r, '
                  'expected %r' % (sut.dump_response(got), res),
                  lambda: repr(data))
        ctx.count('spelling')
        ctx.seen('spelling', tuple(d for d, _ in res)[:4])
    ctx.group('spelling', 9600, 57600, spelling)

    def malformed(rng, i):
        res = results(rng) or [(P, None)]
        for name in ('decision', 'root', 'unknown', 'twice', 'none', 'child'):
            tree = doc(res)
            r = rng.choice(tree.children)
            d = r.children[0]
            where = name
            if name == 'decision':
                d.children = [rng.choice(BADWORDS)]
                where = d.children[0]
            elif name == 'root':
                tree.tag = rng.choice(['response', 'Request', 'Result',
                                       'Decision', 'X', 'Responses',
                                       'Policy'])
                where = tree.tag
            elif name == 'unknown':
                n = rng.choice([tree, r])
                bad = NAMES + (['Decision'] if n is tree else ['Result'])
                c = Node(rng.choice(bad), {}, [P] if rng.random() < .5 else [])
                n.children.insert(rng.randint(0, len(n.children)), c)
                where = n.tag + '/' + c.tag
            elif name == 'twice':
                r.children.insert(rng.randint(0, 1), Node(
                    'Decision', {}, [rng.choice(WORDS)]))
            elif name == 'none':
                r.children = [] if rng.random() < .6 else [P]
            else:
                s = d.children[0]
                j = rng.randint(0, len(s))
                d.children = [s[:j], Node('b', {}, ['x']), s[j:]]
            data = emit.plain(tree, ns=emit.CNS) if rng.random() < .6 else \
                emit.varied(tree, rng, ns=emit.CNS, encoding='utf-8')
            elem = sut.parse_element(data)
            try:
                got = sut.ResponseElementTree.fromXML(elem)
                exc = None
            except Exception as e:
                got, exc = None, type(e).__name__
            ctx.check(got is None, lambda: 'a malformed response (%s: %s) was'
                      ' read as %r' % (name, where, sut.dump_response(got)),
                      lambda: data.decode())
            ctx.count('refused')
            ctx.count('m.' + name)
            ctx.seen(name, where, exc)
            # the part at fault, or one of another kind, on its own
            at = list(tree.children).index(r) if r in tree.children else None
            kids = [e for e in elem if isinstance(e.tag, str)]
            alone = []
            if name in ('decision', 'twice', 'none', 'child') and \
                    at is not None:
                alone.append((sut.ResultElementTree, kids[at], name))
                if name in ('decision', 'child'):
                    alone.append((sut.DecisionElementTree, kids[at][0], name))
            if name in ('decision', 'none') and at is not None:
                alone += [(sut.DecisionElementTree, kids[at], 'kind'),
                          (sut.ResponseElementTree, kids[at], 'kind'),
                          (sut.ResultElementTree, elem, 'kind'),
                          (sut.DecisionElementTree, elem, 'kind')]
            for cls, e, what in alone:
                if not isinstance(e.tag, str):
                    continue
                try:
                    got = cls.fromXML(e)
                except Exception:
                    got = None
                ctx.check(got is None, lambda: '%s reads a malformed element '
                          '(%s: %s) on its own' % (cls.__name__, what, where),
                          lambda: data.decode())
                ctx.count('alone.' + what)
        bad = rng.choice([None, 'Permit', sut.Request(), 1, sut.Decision()])
        for cls in (sut.ResponseElementTree, sut.ResultElementTree):
            try:
                cls.toXML(bad)
                ok = True
            except Exception:
                ok = False
            ctx.check(not ok, 'something that is no response was serialised')
        empty = sut.Response()
        empty.results.append(sut.Result())
        try:
            e = sut.ResponseElementTree.toXML(empty)
            ok = True
        except Exception:
            ok = False
        ctx.check(not ok, 'a result without a decision was serialised')
    ctx.group('malformed', 7200, 43200, malformed)
