"""Evaluation is read-only, deterministic and independent of history"""
import copy
import io

from vp import emit, gen, model, mon, sut
from vp.harness import Violation
from vp.model import D, I, N, P

META = {
    'rule': 'one evaluation = one decision, content dump or held response'
            ' compared with the reference or with its own earlier state in a'
            ' random history; distinct = distinct (operation, previous'
            ' operation, decision, policy shape)',
    'assumptions': [
        'content is what the public attributes of policies, requests and'
        ' responses show'],
    'floors': {'long': 50, 'marathon': 20000, 'op.evaluate': 2000, 'op.evaluate_raising': 100,
               'op.load_bad': 100, 'op.load_again': 100, 'op.mutate': 200,
               'op.serialise': 50, 'op.edit': 100, 'op.partial': 200, 'op.swap': 50, 'op.reload': 50, 'reload.refused': 50, 'reload.done': 25,
               'repeat': 1000, 'held': 1000, 'peer': 100,
               'decision.Permit': 100, 'decision.Deny': 100,
               'decision.Indeterminate': 100, 'decision.NotApplicable': 100},
}

BAD = [b'<Policy', b'<Policy/>',
       b'<Policy xmlns="%s" PolicyId="x" RuleCombiningAlgId="urn:none"/>'
       % emit.NS.encode(),
       b'<Policy xmlns="%s" PolicyId="x" RuleCombiningAlgId="%s">'
       b'<Rule RuleId="r" Effect="Allow"/></Policy>' % (
           emit.NS.encode(), (model.RALG + 'deny-overrides').encode()),
       b'<Policy xmlns="%s" PolicyId="x" RuleCombiningAlgId="%s">'
       b'<Rule RuleId="r" Effect="Permit"><Condition><Apply FunctionId="'
       b'urn:oasis:names:tc:xacml:1.0:function:integer-add"/></Condition>'
       b'</Rule></Policy>' % (emit.NS.encode(),
                              (model.RALG + 'deny-overrides').encode())]


def req_content(r):
    """Everything observable of a request object, shared parts by identity"""
    return (sut.dump_request(r), id(r.ctxHandler), id(r.attributeSelector),
            [id(s) for s in r.subjects], [id(s) for s in r.resources],
            id(r.action), id(r.environment),
            [[(id(a), [id(v) for v in a.attributeValues])
              for a in s.attributes] for s in r.subjects])


def resp_content(r):
    return (sut.dump_response(r), [
        (x.status.statusCode.value, x.status.statusMessage)
        if x.status is not None else None for x in r.results])


class Pool:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        w = gen.World(rng, errors=.12, selectors=.12)
        self.world = w
        self.mreqs = [w.request(pip=.2) for _ in range(rng.randint(2, 4))]
        if rng.random() < .3:           # long enough to be worth a shortcut
            for m in self.mreqs:
                for _ in range(rng.randint(1, 2)):
                    w.enlarge(m, 40)
            ctx.count('long')
        self.reqs = [sut.request(m) for m in self.mreqs]
        self.before = [req_content(r) for r in self.reqs]
        self.policies, self.pdps, self.texts, self.dumps = [], [], [], []
        for i in range(rng.randint(2, 3)):
            p = w.any_policy(rng.choice(self.mreqs), depth=1)
            self.add(p)
        self.memo = {}      # (policy, request) -> decision first seen
        self.held = []      # (response, content)
        self.decisions = []     # (decision, value) returned by parts

    def add(self, p):
        data = sut.text(p)
        self.policies.append(p)
        self.texts.append(data)
        self.pdps.append(sut.pdp(data))
        self.dumps.append(sut.dump_policy(self.pdps[-1].policy))

    def detail(self, i, j, log):
        return lambda: mon.describe(self.policies[i], self.mreqs[j],
                                    history=log[-30:])

    def decide(self, i, j, log, pdp=None, what='evaluation'):
        ctx = self.ctx
        resp = (pdp or self.pdps[i]).evaluate(self.reqs[j])
        sut.assert_response(resp)
        got = resp.results[0].decision.value
        key = (i, j)
        want = model.policy(self.policies[i], self.mreqs[j])
        ctx.check(got in want, lambda: '%s of policy %d for request %d gives '
                  '%r, expected %s' % (what, i, j, got, sorted(want)),
                  self.detail(i, j, log))
        if key in self.memo:
            ctx.check(got == self.memo[key], lambda: '%s of policy %d for '
                      'request %d gave %r before and %r now' % (
                          what, i, j, self.memo[key], got),
                      self.detail(i, j, log))
            ctx.count('repeat')
        self.memo[key] = got
        for r, _ in self.held:
            ctx.check(resp is not r and resp.results is not r.results and
                      resp.results[0] is not r.results[0],
                      'two responses share their content',
                      self.detail(i, j, log))
        if len(self.held) < 8:
            self.held.append((resp, resp_content(resp)))
        ctx.count('decision.' + got)
        return got

    def untouched(self, log):
        ctx = self.ctx
        for k, r in enumerate(self.reqs):
            ctx.check(req_content(r) == self.before[k],
                      lambda: 'request %d changed: %s' % (k, mon.show(
                          [self.before[k][0], sut.dump_request(r)])),
                      lambda: mon.show(log[-30:]))
        for k, p in enumerate(self.pdps):
            d = sut.dump_policy(p.policy)
            ctx.check(d == self.dumps[k], lambda: 'policy %d changed: %s' % (
                k, mon.show([self.dumps[k], d])),
                lambda: mon.show(log[-30:]))
        for r, c in self.held:
            ctx.check(resp_content(r) == c, lambda: 'an earlier response '
                      'changed from %r to %r' % (c, resp_content(r)),
                      lambda: mon.show(log[-30:]))
            ctx.count('held')


def mutate(rng, pool):
    """Change a response the caller owns; only that response may change"""
    k = rng.randrange(len(pool.held))
    r, _ = pool.held.pop(k)
    x = r.results[0]
    how = rng.randint(0, 7)
    if how == 0:
        try:
            x.decision.value = rng.choice([P, D, N, I])
        except AttributeError:      # a read-only constant
            pass
    elif how == 1:
        x.decision = sut.Decision(rng.choice([P, D, N, I]))
    elif how == 2:
        del r.results[:]
    elif how == 3:
        r.results.append(sut.Result.createInitialised(
            decision=rng.choice([P, D])))
    elif how == 4:
        x.resourceId = 'changed'
    elif how == 5:
        if x.status is not None:
            x.status.statusMessage = 'changed'
            x.status.statusCode.value = x.status.statusCode.CODES[-1]
    elif how == 6:
        r.results[0] = sut.Result.createInitialised(decision=P)
    else:
        x.decision = sut.Decision(P)
        x.decision.value = D
    return how


def edit(rng, pool, j):
    """Change a request the caller owns, in place; decisions about it are
    those about what it holds now"""
    m, r = pool.mreqs[j], pool.reqs[j]
    holders = list(zip(m['subjects'], r.subjects)) + list(
        zip(m['resources'], r.resources)) + [
            (x, y) for x, y in ((m['action'], r.action),
                                (m['env'], r.environment)) if x is not None]
    how = rng.choice(['value', 'value', 'add', 'drop', 'type', 'part', 'all',
                      'handler'])
    if how in ('value', 'type', 'drop'):
        found = [(h, o, k) for h, o in holders
                 for k in range(len(h['attrs'])) if how == 'drop' or
                 h['attrs'][k]['values']]
        if not found:
            return None
        h, o, k = rng.choice(found)
        at = h['attrs'][k]
        if how == 'drop':
            del h['attrs'][k]
            del o.attributes[k]
        elif how == 'value':
            n = rng.randrange(len(at['values']))
            at['values'][n] = pool.world.value(at['type'])
            new = sut.attribute(at).attributeValues[n]
            if rng.random() < .5:
                o.attributes[k].attributeValues[n].value = new.value
            else:
                o.attributes[k].attributeValues[n] = new
        else:
            at['id'] = rng.choice(pool.world.ids)
            o.attributes[k].attributeId = at['id']
    elif how == 'add':
        if not holders:
            return None
        h, o = rng.choice(holders)
        more = pool.world.holder(2)
        for at in more['attrs']:
            h['attrs'].append(at)
            o.attributes.append(sut.attribute(at))
    else:
        n = pool.world.request(pip=.3, missing=0)
        new = sut.request(n)
        parts = ['subjects', 'resources', 'action', 'env']
        if how == 'handler':
            parts = ['pip'] if n['pip'] is not None else []
        elif how == 'part':
            parts = [rng.choice(parts)]
        for part in parts:
            m[part] = n[part]
            if part in ('subjects', 'resources'):
                del getattr(r, part)[:]
                getattr(r, part).extend(getattr(new, part))
            elif part == 'pip':
                r.ctxHandler = new.ctxHandler
            else:
                name = {'env': 'environment'}.get(part, part)
                setattr(r, name, getattr(new, name))
    pool.before[j] = req_content(r)
    for k in list(pool.memo):
        if k[1] == j:
            del pool.memo[k]
    return how


def raising(rng, w):
    """A request every selection or context handler query of which fails"""
    m = w.request(pip=1.0)
    for k in m['pip']['answers']:
        m['pip']['answers'][k] = 'raise'
    m['doc'] = None
    if rng.random() < .5:
        m['action'] = None
    return m


def run(ctx):
    sut.register_all()

    def history(rng, i):
        pool = Pool(ctx, rng)
        log = []
        last = None
        for step in range(rng.randint(15, 35)):
            k = gen.wpick(rng, [('evaluate', 12), ('evaluate_raising', 1),
                                ('load_bad', 1), ('load_again', 1),
                                ('mutate', 3), ('serialise', 1),
                                ('partial', 2), ('swap', .7), ('edit', 1.5),
                                ('reload', .7),
                                ('copy', .5), ('new', .5)])
            a = rng.randrange(len(pool.pdps))
            b = rng.randrange(len(pool.reqs))
            if k == 'mutate' and not pool.held:
                k = 'evaluate'
            log.append((k, a, b))
            got = None
            if k == 'evaluate':
                got = pool.decide(a, b, log)
            elif k == 'evaluate_raising':
                m = raising(rng, pool.world)
                got = sut.decide(pool.pdps[a], sut.request(m))
                want = model.policy(pool.policies[a], m)
                ctx.check(got in want, lambda: 'failing request: %r, expected'
                          ' %s' % (got, sorted(want)),
                          lambda: mon.describe(pool.policies[a], m,
                                               history=log[-30:]))
            elif k == 'load_bad':
                data = rng.choice(BAD)
                try:
                    sut.pdp(data)
                    ok = True
                except Exception:
                    ok = False
                ctx.check(not ok, 'a malformed document loads',
                          lambda: data.decode())
            elif k == 'load_again':
                o = sut.pdp(pool.texts[a])
                ctx.check(sut.dump_policy(o.policy) == pool.dumps[a],
                          'the same document loads differently',
                          pool.detail(a, b, log))
                got = pool.decide(a, b, log, o, 'evaluation after a reload')
                if rng.random() < .5:
                    pool.pdps[a] = o
            elif k == 'mutate':
                log[-1] += (mutate(rng, pool),)
            elif k == 'edit':
                got = pool.decide(a, b, log, None, 'evaluation before a'
                                  ' change')
                log[-1] += (edit(rng, pool, b),)
                got = pool.decide(a, b, log, None, 'evaluation after the'
                                  ' request was changed')
            elif k == 'serialise':
                for r, _ in pool.held[:2]:
                    sut.ResponseElementTree.toXML(r)
                m, r = pool.mreqs[b], pool.reqs[b]
                if r.action is not None and r.environment is not None and \
                        all(at['type'] in model.STR_TYPES
                            for s in m['subjects'] + m['resources'] +
                            [m['action'], m['env']] for at in s['attrs']):
                    sut.RequestElementTree.toXML(r)
            elif k == 'partial':        # parts on their own, any order
                o = pool.pdps[a].policy
                todo = [o]
                while todo:
                    x = todo.pop(rng.randrange(len(todo)))
                    if hasattr(x, 'policies'):
                        todo.extend(x.policies)
                    elif hasattr(x, 'rules'):
                        todo.extend(x.rules)
                    mon.real_target(x, pool.reqs[b])
                    if hasattr(x, 'condition'):
                        mon.real_cond(x, pool.reqs[b])
                    if rng.random() < .5:
                        y = x.evaluate(pool.reqs[b])
                        if rng.random() < .5:   # the caller's own decision
                            try:
                                y.value = rng.choice([P, D, N, I])
                            except AttributeError:
                                pass
                            z = x.evaluate(pool.reqs[b])
                            for h in pool.decisions:
                                ctx.check(h[0].value == h[1], 'a decision'
                                          ' returned earlier changed')
                            if z is not y:
                                pool.decisions.append((z, z.value))
                                del pool.decisions[:-20]
            elif k == 'swap':           # one PDP object, its policy replaced
                c = rng.randrange(len(pool.pdps))
                old = pool.pdps[a].policy
                pdp = sut.PDP(policy=old)
                got = pool.decide(a, b, log, pdp, 'evaluation by a new PDP')
                pdp.policy = pool.pdps[c].policy
                pool.decide(c, b, log, pdp, 'evaluation after a swap')
                pdp.policy = old
                pool.decide(a, b, log, pdp, 'evaluation after a swap back')
            elif k == 'reload':         # one PDP object loads another policy
                c = rng.randrange(len(pool.pdps))
                pdp = sut.PDP(policy=pool.pdps[a].policy)
                if rng.random() < .3:
                    pdp = sut.pdp(pool.texts[a])
                held = pdp.policy
                finder = sut.LocalPolicyFinder()
                for _ in range(rng.randint(1, 3)):
                    data = rng.choice(BAD + [b'', b'junk', pool.texts[c][:-9],
                                             b'<Rule/>', None])
                    try:
                        if rng.random() < .7:
                            pdp.setPolicyFromSource(
                                data if data is None else io.BytesIO(data),
                                sut.ReaderFactory, finder)
                        else:
                            pdp.policy = rng.choice(
                                [data, pool.reqs[b], sut.Rule(), pdp])
                        ok = True
                    except Exception:
                        ok = False
                    ctx.check(not ok and pdp.policy is held, 'a refused '
                              'policy takes the place of the one in use',
                              lambda: repr(data))
                    pool.decide(a, b, log, pdp, 'evaluation after a refused'
                                ' load')
                    ctx.count('reload.refused')
                pdp.setPolicyFromSource(io.BytesIO(pool.texts[c]),
                                        sut.ReaderFactory, finder)
                ctx.check(sut.dump_policy(pdp.policy) == pool.dumps[c],
                          'a PDP told to load a policy holds another',
                          pool.detail(c, b, log))
                got = pool.decide(c, b, log, pdp, 'evaluation after another'
                                  ' policy was loaded')
                ctx.count('reload.done')
            elif k == 'copy':
                pool.mreqs.append(copy.deepcopy(pool.mreqs[b]))
                pool.reqs.append(sut.request(pool.mreqs[-1]))
                pool.before.append(req_content(pool.reqs[-1]))
                got = pool.decide(a, len(pool.reqs) - 1, log)
            else:
                pool.add(pool.world.any_policy(rng.choice(pool.mreqs),
                                               depth=1))
            ctx.count('op.' + k)
            ctx.seen(k, last, got, mon.signature(pool.policies[a]))
            last = k
            if rng.random() < .3:
                pool.untouched(log)
        for a in range(len(pool.pdps)):     # everything once more, shuffled
            js = list(range(len(pool.reqs)))
            rng.shuffle(js)
            for b in js:
                pool.decide(a, b, log + ['final'])
        pool.untouched(log)
        ctx.sample({'history': [str(x) for x in log[:12]],
                    'decisions': [str(x) for x in
                                  sorted(pool.memo.items())[:6]]})
    ctx.group('history', 900, 12000, history)

    def marathon(rng, i):
        """Thousands of evaluations of one policy, for few and for many
        requests, give what each gives at first"""
        w = gen.World(rng, errors=.1, selectors=.1)
        mreqs = [w.request(pip=.2) for _ in range(rng.choice([2, 8, 600]))]
        p = w.any_policy(mreqs[0], depth=1)
        pdp = sut.pdp(sut.text(p))
        before = sut.dump_policy(pdp.policy)
        reqs = [sut.request(m) for m in mreqs]
        dumps = [req_content(r) for r in reqs]
        first = {}
        for n in range(1500):
            j = n if n < len(reqs) else rng.randrange(len(reqs))
            got = sut.decide(pdp, reqs[j])
            if j not in first:
                first[j] = got
                want = model.policy(p, mreqs[j])
                ctx.check(got in want, lambda: 'evaluation %d: %r, expected '
                          '%s' % (n, got, sorted(want)),
                          lambda: mon.describe(p, mreqs[j]))
            ctx.check(got == first[j], lambda: 'evaluation %d of one PDP '
                      'gives %r, before %r' % (n, got, first[j]),
                      lambda: mon.describe(p, mreqs[j]))
            ctx.count('marathon')
        ctx.check(sut.dump_policy(pdp.policy) == before,
                  'the policy has changed', lambda: mon.describe(p, mreqs[0]))
        ctx.check([req_content(r) for r in reqs] == dumps,
                  'a request has changed', lambda: mon.describe(p, mreqs[0]))
        ctx.seen('marathon', mon.signature(p), len(reqs))
    ctx.group('marathon', 24, 200, marathon)

    def sharing(rng, i):
        """Responses of one evaluation or error never show in another's"""
        from ndg.xacml.core.context import exceptions as X
        kinds = [X.XacmlContextError, X.XacmlContextTypeError,
                 X.MissingAttributeError]
        errs = [rng.choice(kinds)('error %d' % k) for k in range(3)]
        first = [resp_content(e.response) for e in errs]
        for k, e in enumerate(errs):
            c = resp_content(e.response)
            ctx.check(c[0] == [(I, None)] and c[1][0][1] == 'error %d' % k,
                      lambda: 'response of a context error: %r' % (c,))
        k = rng.randrange(3)
        errs[k].response.results[0].status.statusMessage = 'changed'
        del errs[k].response.results[:]
        for j in range(3):
            if j != k:
                ctx.check(resp_content(errs[j].response) == first[j],
                          'context errors share their response')
        ctx.count('errors')
    ctx.group('sharing', 120, 720, sharing)

    def orders(rng, i):
        """The decision of each pair is the same in any order of evaluation
        and in another process with another hash seed"""
        from vp.peer import Peer
        w = gen.World(rng, errors=.1, selectors=.12)
        pairs = []
        for _ in range(30):
            m = w.request(pip=.2)
            pairs.append((w.any_policy(m, depth=1), m))
        objs = [(sut.pdp(sut.text(p)), sut.request(m)) for p, m in pairs]
        first = [sut.decide(o, r) for o, r in objs]
        for _ in range(3):
            order = list(range(len(pairs)))
            rng.shuffle(order)
            for k in order:
                got = sut.decide(*objs[k])
                ctx.check(got == first[k], lambda: 'decision %r first and %r '
                          'in another order' % (first[k], got),
                          lambda: mon.describe(*pairs[k]))
        peer = Peer(ctx.backend, str(rng.randint(1, 10 ** 6)))
        try:
            order = list(range(len(pairs)))
            rng.shuffle(order)
            for k in order:
                p, m = pairs[k]
                st, got = peer.ask('decide', sut.text(p), [m])
                ctx.check(got[0] == first[k], lambda: 'decision %r here and '
                          '%r in another process' % (first[k], got[0]),
                          lambda: mon.describe(*pairs[k]))
                ctx.count('peer')
                ctx.seen('peer', first[k], mon.signature(p))
        finally:
            peer.close()
    ctx.group('orders', 8, 200, orders)
