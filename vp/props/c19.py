"""Both XML libraries give the same policies, contexts and decisions"""
import glob
import os

from vp import emit, gen, harness, model, mon, peer, sut
from vp.model import D, I, N, P
from vp.props import c12, c15, c16

META = {
    'rule': 'one evaluation = the outcome (content, refusal, decision,'
            ' selection or serialised content) of one case under lxml compared'
            ' with that of the same case in a second process using the'
            ' standard library; distinct = distinct (kind of document,'
            ' outcome, mutation or shape)',
    'assumptions': [
        'the workers run under lxml and drive one process each running under'
        ' the standard library',
        'documents without a DTD; the standard library writes a carriage'
        ' return unescaped (its own defect), so documents it serialised with'
        ' one are not read back',
        'which exception refuses a document may differ'],
    'backends': ['lxml'],
    'floors': {'large': 30, 'policy.ok': 200, 'policy.refused': 300, 'broken': 100,
               'request.ok': 200, 'request.refused': 200,
               'response.ok': 100, 'response.refused': 100,
               'decided': 500, 'decision.Permit': 50, 'decision.Deny': 50,
               'decision.Indeterminate': 30, 'decision.NotApplicable': 30,
               'selector': 200, 'toxml': 200, 'cross': 200, 'fixture': 15,
               'content': 50, 'path': 500, 'encoding': 200},
}


def run(ctx):
    sut.register_all()
    if ctx.backend != 'lxml':
        raise RuntimeError('this check runs under lxml')
    other = peer.Peer('etree', '7')

    def both(op, *args):
        """Outcome here and in the other process"""
        here = peer.answer(op, *args)
        there = other.ask(op, *args)
        return here, there

    def same(op, data, kind, where, *more):
        here, there = both(op, data, *more)
        text = lambda: repr(data) if isinstance(data, bytes) else \
            mon.show(data)   # noqa
        ctx.check(here[0] == there[0], lambda: '%s (%s): %s with lxml, %s with'
                  ' the standard library' % (kind, where, here[0] + ' ' + str(
                      here[1])[:200], there[0] + ' ' + str(there[1])[:200]),
                  text)
        if here[0] == 'ok':
            a, b = here[1], there[1]
            if op in ('request', 'request_toxml', 'response_toxml'):
                a, b = a[0], b[0]
            ctx.check(a == b, lambda: '%s (%s): other content: %s' % (
                kind, where, mon.show([a, b])), text)
        ctx.count('%s.%s' % (kind, here[0]))
        ctx.seen(kind, where, here[0])
        return here, there

    def documents(rng, w, node, ns):
        if rng.random() < .4:
            return emit.plain(node, ns=ns)
        ctx.count('encoding')
        return emit.varied(node, rng, ns=ns)

    def policies(rng, i):
        w = gen.World(rng, probes=rng.random() < .3, selectors=.2)
        m = w.request()
        p = w.any_policy(m, depth=1)
        node = emit.policy_node(p)
        st, _ = same('policy', documents(rng, w, node, emit.NS), 'policy',
                     'valid')
        ctx.check(st[0] == 'ok', lambda: 'a valid policy is refused: %s' %
                  st[1], lambda: sut.text(p).decode())
        names = [n for n in sorted(vars(c12.Mutator))
                 if not n.startswith('_') and n != 'pick']
        for k in range(3):
            name = names[(i * 3 + k) % len(names)]
            out = getattr(c12.Mutator(rng), name)(node.copy())
            if out is not None:
                tree, where = out
                same('policy', documents(rng, w, tree, emit.NS), 'policy',
                     name)
        data, where = c12.break_text(rng, emit.plain(node))
        same('policy', data, 'policy', 'broken ' + where)
        ctx.count('broken')
    ctx.group('policies', 720, 8000, policies)

    def decisions(rng, i):
        w = gen.World(rng, selectors=rng.choice([0, .1, .5]),
                      errors=.05)
        m = w.request(pip=.15)
        p = w.any_policy(m, depth=2)
        ms = [m] + [w.request(pip=.15) for _ in range(3)]
        data = documents(rng, w, emit.policy_node(p), emit.NS)
        here, there = both('decide', data, ms)
        for k in range(4):
            ctx.check(here[1][k] == there[1][k], lambda: 'decision %r with '
                      'lxml, %r with the standard library' % (
                          here[1][k], there[1][k]),
                      lambda: mon.describe(p, ms[k]))
            ctx.count('decided')
            ctx.count('decision.' + here[1][k])
            if ms[k]['doc'] is not None:
                ctx.count('selector')
        ctx.seen('decision', mon.signature(p), tuple(here[1]))
        ctx.sample({'policy': sut.text(p).decode()[:300],
                    'decisions': [here[1], there[1]]})
    ctx.group('decisions', 960, 8000, decisions)

    def requests(rng, i):
        w = c15.world(rng)
        m = c15.make(rng, w, ctx)
        node = emit.request_node(m)
        data = documents(rng, w, node, emit.CNS)
        here, there = same('request', data, 'request', 'valid')
        ctx.check(here[0] == 'ok', lambda: 'a valid request is refused: %s' %
                  here[1], lambda: repr(data))
        p = w.any_policy(m, depth=1)
        same('decide_xml', sut.text(p), 'decision', 'xml', data)
        # what one library writes, the other reads
        a = sut.dump_request(sut.request_from_xml(here[1][1]))
        got = other.ask('request', here[1][1])
        ctx.check(got[0] == 'ok' and got[1][0] == a, lambda: 'the document '
                  'lxml wrote is read as %s instead of %s' % (
                      mon.show(got), mon.show(a)), lambda: repr(here[1][1]))
        ctx.count('cross')
        if not c15.has_cr(m):
            back = sut.dump_request(sut.request_from_xml(there[1][1]))
            ctx.check(back == a, lambda: 'the document the standard library '
                      'wrote is read as %s instead of %s' % (
                          mon.show(back), mon.show(a)),
                      lambda: repr(there[1][1]))
            ctx.count('cross')
        for k in range(2):
            name = c15.MUTATIONS[(i * 2 + k) % len(c15.MUTATIONS)]
            tree = node.copy()
            if getattr(c15.Mutator(rng), name)(tree) is not None:
                same('request', documents(rng, w, tree, emit.CNS), 'request',
                     name)
    ctx.group('requests', 960, 8000, requests)

    def large(rng, i):
        """Large requests and documents"""
        w = gen.World(rng, types=['string', 'anyURI'], probes=False,
                      errors=.02, selectors=.5)
        m = w.request(xml=True)
        w.enlarge(m)
        if rng.random() < .6:
            m['doc'] = m['doc'] or w.make_doc()
            w.grow(m['doc'], 520)
        p = w.any_policy(m, depth=1)
        if p['k'] == 'Policy' and rng.random() < .5:
            p['rules'] = [dict(rng.choice(p['rules']), id='n%d' % k)
                          for k in range(gen.size(rng, 200))] \
                if p['rules'] else []
        here, there = both('decide', sut.text(p), [m])
        ctx.check(here[1] == there[1], lambda: 'decision %r with lxml, %r '
                  'with the standard library' % (here[1], there[1]),
                  lambda: mon.describe(p, m))
        same('policy', sut.text(p), 'policy', 'large')
        same('request', emit.plain(emit.request_node(m), ns=emit.CNS),
             'request', 'large')
        ctx.count('large')
    ctx.group('large', 80, 640, large)

    def toxml(rng, i):
        w = c15.world(rng)
        m = c15.make(rng, w, ctx)
        here, there = same('request_toxml', m, 'toxml', 'request')
        ctx.check(here[0] == 'ok', 'a request is not serialised')
        for data in (here[1][1],) if c15.has_cr(m) else (here[1][1],
                                                         there[1][1]):
            a, b = both('request', data)
            ctx.check(a[0] == b[0] == 'ok' and a[1][0] == b[1][0] ==
                      sut.model_dump(m, gen.DEFAULT_CATEGORY),
                      'a serialised request has another content in the other '
                      'library', lambda: repr(data))
            ctx.count('cross')
        ctx.count('toxml')
        res = c16.results(rng)
        here, there = same('response_toxml', res, 'toxml', 'response')
        if not any('\r' in (rid or '') for _, rid in res):
            for data in (here[1][1], there[1][1]):
                a, b = both('response', data)
                ctx.check(a == b == ('ok', res), lambda: 'a serialised '
                          'response is read as %r and %r' % (a, b),
                          lambda: repr(data))
                ctx.count('cross')
    ctx.group('toxml', 720, 5760, toxml)

    def responses(rng, i):
        res = c16.results(rng) or [(P, None)]
        node = c16.doc(res)
        same('response', documents(rng, None, node, emit.CNS), 'response',
             'valid')
        r = rng.choice(node.children)
        k = rng.randint(0, 4)
        if k == 0:
            r.children[0].children = [rng.choice(c16.BADWORDS +
                                                 [' Permit', 'Deny\n'])]
        elif k == 1:
            r.children = []
        elif k == 2:
            r.children.append(emit.Node('Decision', {}, [D]))
        elif k == 3:
            r.children.append(emit.Node(rng.choice(c16.NAMES)))
        else:
            node.tag = 'Request'
        same('response', documents(rng, None, node, emit.CNS), 'response',
             'bad %d' % k)
    ctx.group('responses', 720, 5760, responses)

    def paths(rng, i):
        from vp.props import c18
        w = gen.World(rng, types=['string'], probes=False)
        doc = c18.documents(rng, w)
        data = emit.plain(emit.doc_node(doc), ns='urn:d')

        def spell(path):
            """The names without a namespace are in urn:d here"""
            def q(t):
                return t if t is None or t.startswith('{') else '{urn:d}' + t
            return model.path_string({'abs': path['abs'], 'steps': [
                (a, q(t), ('haschild', q(p[1])) if p and p[0] == 'haschild'
                 else p) for a, t, p in path['steps']]})
        paths = [spell(w.path()) for _ in range(6)]
        here, there = same('select', data, 'select', 'paths', paths)
        ctx.count('path', 6)
        for q, a in zip(paths, here[1]):
            ctx.seen('path', q.count('/'), min(len(a), 3))
    ctx.group('paths', 720, 6000, paths)

    def fixtures(rng, i):
        root = os.path.join(harness.REPO, 'ndg', 'xacml', 'test')
        names = sorted(glob.glob(root + '/**/*.xml', recursive=True))
        for name in names[i::8]:
            with open(name, 'rb') as f:
                data = f.read()
            here, there = both('policy_path', name)
            ctx.check(here == there if here[0] == 'ok' else
                      here[0] == there[0],
                      lambda: '%s: %s with lxml, %s with the standard library'
                      % (name, here[0], there[0]))
            same('policy', data, 'fixture', os.path.basename(name))
            ctx.count('fixture')
    ctx.group('fixtures', 8, 8, fixtures)
    other.close()
