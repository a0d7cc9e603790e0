"""Targets match exactly when the request satisfies their matches"""
import itertools

from vp import emit, gen, model, mon, sut
from vp.gen import F1, PROBE
from vp.model import D, I, N, P

META = {
    'rule': 'one evaluation = the outcome of one target, or of one match, for'
            ' one request compared with the reference, or one recorded call of'
            ' a match function checked for its arguments; distinct = distinct'
            ' (target shape, outcomes of its matches)',
    'assumptions': [
        'a match in error makes its target one in error, even where another'
        ' match would already decide'],
    'floors': {'target.True': 200, 'target.False': 200, 'target.E': 30,
               'match.True': 200, 'match.False': 200, 'call': 500,
               'shape': 200, 'policy': 100,
               'mixed': 20, 'errors': 800, 'many.60+': 20, 'wide': 60},
}


def run(ctx):
    sut.register_all()
    sut.register_probe(PROBE + 'lt:rec')

    def match_outcome(m, req):
        try:
            return m.evaluate(req)
        except Exception:
            return 'E'

    def judge(t, mreq, req, o, detail):
        want = model.target(t, mreq)
        got = mon.real_target(o, req)
        ctx.check(got in want, lambda: 'target: %r, expected %s' % (got, want),
                  detail)
        ctx.count('target.%s' % got)
        strict = []
        if o.target is not None:
            for sec in model.SECTIONS:
                kids = []
                for child, co in zip(t.get(sec) or (), getattr(o.target,
                                                               sec)):
                    ms = []
                    for m, mo in zip(child, co.matches):
                        g = match_outcome(mo, req)
                        w = model.match(m, mreq)
                        ctx.check(g in w, lambda: 'match %s: %r, expected %s'
                                  % (m['fn'], g, w), detail)
                        ctx.count('match.%s' % g)
                        ms.append(g)
                    kids.append(ms)
                strict.append(kids)
        flat = [g for s in strict for c in s for g in c]
        if 'E' not in flat:
            w = all(any(all(c) for c in s) if s else True for s in strict)
            ctx.check(got is w, lambda: 'target: %r although its matches are '
                      '%s' % (got, strict), detail)
        else:
            ctx.check(got == 'E', lambda: 'target: %r although one of its '
                      'matches is in error: %s' % (got, strict), detail)
            if any('E' not in c and not all(c) for s in strict for c in s) \
                    or any('E' not in c and all(c) for s in strict
                           for c in s):
                ctx.count('mixed')
        ctx.seen(str(strict), got)
        return got

    def general(rng, i):
        w = gen.World(rng, errors=rng.choice([0, 0, .05]),
                      probes=rng.random() < .4)
        for _ in range(6):
            mreq = w.request(pip=.1)
            req = sut.request(mreq)
            for _ in range(3):
                t = w.target(mreq, p_none=.05, nsec=.5)
                r = {'id': 'r', 'effect': P, 'target': t, 'cond': None}
                p = {'k': 'Policy', 'id': 'p', 'alg': 'first-applicable',
                     'target': t if rng.random() < .5 else None, 'rules': [r]}
                detail = lambda: mon.describe(p, mreq)  # noqa
                o = sut.load(sut.text(p)) if rng.random() < .7 else (
                    sut.api_derived if rng.random() < .4 else
                    sut.api_policy)(p)
                got = judge(t or {}, mreq, req, o.rules[0], detail)
                d = sut.decide(sut.PDP(o), req)
                want = {True: P, False: N, 'E': I}[got]
                ctx.check(d == want, lambda: 'target %r but decision %r' % (
                    got, d), detail)
                ctx.count('policy')
                ctx.sample({'target': str(t)[:500], 'matches': got})
    ctx.group('general', 640, 5120, general)

    def shapes(rng, i):
        """Every combination of a few sections, children and matches with
        fixed outcomes"""
        outcomes = []
        t = {}
        mreq = {'subjects': [{'category': None, 'attrs': [
            {'id': 'x', 'type': 'string', 'issuer': None,
             'values': ['v', 'w']}]}],
            'resources': [{'content': None, 'attrs': [
                {'id': 'x', 'type': 'string', 'issuer': None,
                 'values': ['v']}]}],
            'action': {'attrs': [{'id': 'x', 'type': 'string', 'issuer': None,
                                  'values': ['w', 'v']}]},
            'env': {'attrs': [{'id': 'x', 'type': 'string', 'issuer': None,
                               'values': ['v', 'v']}]},
            'pip': None, 'doc': None}
        for sec in model.SECTIONS:
            if rng.random() < .3:
                continue
            kids = []
            for _ in range(rng.randint(0, 3)):
                ms = []
                for _ in range(rng.randint(1, 3)):
                    hit = rng.random() < .6
                    ms.append({'fn': F1 + 'string-equal', 'value': {
                        'type': 'string', 'value': 'v' if hit else
                        rng.choice(['V', 'v ', 'vv', 'nope'])},
                        'src': {'k': 'desig', 'cat': gen.SECTION_CAT[sec],
                                'id': 'x', 'type': 'string', 'mbp': False}})
                kids.append(ms)
            t[sec] = kids
        req = sut.request(mreq)
        p = {'k': 'Policy', 'id': 'p', 'alg': 'deny-overrides', 'target': t,
             'rules': []}
        o = sut.load(sut.text(p))
        judge(t, mreq, req, o, lambda: mon.describe(p, mreq))
        ctx.count('shape')
    ctx.group('shapes', 1600, 12800, shapes)

    kinds = sorted(sut.ERROR_KINDS)
    for kind in kinds:
        sut.register_probe(PROBE + 'pick:' + kind)

    def errors(rng, i):
        """Targets whose matches hold, do not hold or are in error for each
        single request value, in every position"""
        n = {}
        mreq = {'pip': None, 'doc': None}
        for sec, key in (('subjects', 'subjects'), ('resources', 'resources'),
                         ('actions', 'action'), ('environments', 'env')):
            n[sec] = rng.choice([0, 1, 1, 2, 2, 3])
            values = [str(j) for j in range(n[sec])]
            attrs = []
            while values or not attrs:
                k = rng.randint(1, max(1, len(values)))
                attrs.append({'id': 'x', 'type': 'string', 'issuer': None,
                              'values': values[:k]})
                values = values[k:]
            if key in ('subjects', 'resources'):
                mreq[key] = [{'category': None, 'content': None,
                              'attrs': [a]} for a in attrs]
            else:
                mreq[key] = {'attrs': attrs}
        req = sut.request(mreq)
        for _ in range(6):
            p_err = rng.choice([0, .05, .15, .3])
            t = {}
            for sec in model.SECTIONS:
                if rng.random() < .3:
                    continue
                kids = []
                for _ in range(rng.randint(1, 3)):
                    ms = []
                    for _ in range(rng.randint(1, 3)):
                        word = ''.join(
                            '!' if rng.random() < p_err else
                            't' if rng.random() < .6 else 'f'
                            for _ in range(n[sec]))
                        ms.append({
                            'fn': PROBE + 'pick' + rng.choice(
                                ['', ':' + rng.choice(kinds)]),
                            'value': {'type': 'string', 'value': word + '.'},
                            'src': {'k': 'desig',
                                    'cat': gen.SECTION_CAT[sec],
                                    'id': 'x', 'type': 'string',
                                    'mbp': rng.random() < .1}})
                    kids.append(ms)
                t[sec] = kids
            r = {'id': 'r', 'effect': P, 'target': t, 'cond': None}
            p = {'k': 'Policy', 'id': 'p', 'alg': 'first-applicable',
                 'target': t if rng.random() < .5 else None, 'rules': [r]}
            o = sut.load(sut.text(p))
            got = judge(t, mreq, req, o.rules[0],
                        lambda: mon.describe(p, mreq))
            d = sut.decide(sut.PDP(o), req)
            want = {True: P, False: N, 'E': I}[got]
            ctx.check(d == want, lambda: 'target %r but decision %r' % (
                got, d), lambda: mon.describe(p, mreq))
            ctx.count('errors')
    ctx.group('errors', 1200, 9600, errors)

    def calls(rng, i):
        """What the match function is called with"""
        w = gen.World(rng, errors=0, probes=False, selectors=0)
        mreq = w.request(missing=0)
        req = sut.request(mreq)
        cat = rng.choice(gen.CATS)
        src = w.desig(mreq, cat)
        src['mbp'] = False
        v = w.val(src['type'])
        sec = dict((b, a) for a, b in gen.SECTION_CAT.items())[cat]
        t = {sec: [[{'fn': PROBE + 'lt:rec', 'value': v, 'src': src}]]}
        p = {'k': 'Policy', 'id': 'p', 'alg': 'deny-overrides', 'target': t,
             'rules': []}
        o = sut.load(sut.text(p))
        del sut.CALLS[:]
        sut.RECORD[0] = True
        try:
            got = mon.real_target(o, req)
        finally:
            sut.RECORD[0] = False
        vals = [x for x in model.designator(src, mreq)[2]]
        detail = lambda: mon.describe(p, mreq, calls=repr(sut.CALLS))  # noqa
        want = any(model.lt(v['value'], x) for x in vals)
        ctx.check(got is want, lambda: 'target %r, expected %r' % (got, want),
                  detail)
        seen = []
        for fn, args in sut.CALLS:
            ctx.check(len(args) == 2 and args[0].value == v['value'] and
                      args[0].dataType == model.TYPES[v['type']],
                      'the first argument is not the value of the policy',
                      detail)
            seen.append(args[1].value)
            ctx.count('call')
        # every request value is tried, or those up to the first that matches
        hits = [x for x in vals if model.lt(v['value'], x)]
        if hits:
            ctx.check(set(map(repr, seen)) <= set(map(repr, vals)) and
                      any(model.lt(v['value'], x) for x in seen),
                      'called with other values than those of the request',
                      detail)
        else:
            ctx.check(sorted(map(repr, seen)) == sorted(map(repr, vals)),
                      'not called with exactly the values of the request',
                      detail)
    ctx.group('calls', 2000, 16000, calls)

    def many(rng, i):
        """One matching value among many, at any position"""
        n = rng.randint(2, 60) if i % 8 else gen.size(rng)
        at = rng.choice([rng.randint(0, n - 1), n - 1])
        hit = rng.random() < .7
        vals = ['v%d' % k for k in range(n)]
        want = 'v%d' % at if hit else 'v%dx' % at
        attrs = []
        k = 0
        spread = rng.choice([1, 3, n])
        while k < n:
            m = rng.randint(1, min(n - k, spread))
            attrs.append({'id': 'x', 'type': 'string', 'issuer': None,
                          'values': vals[k:k + m]})
            k += m
        cat = rng.choice(gen.CATS)
        mreq = {'subjects': [], 'resources': [], 'action': {'attrs': []},
                'env': {'attrs': []}, 'pip': None, 'doc': None}
        holders = []
        spread = rng.choice([1, 3, n])
        while attrs:
            m = rng.randint(1, min(len(attrs), spread))
            holders.append({'category': None, 'content': None,
                            'attrs': attrs[:m]})
            attrs = attrs[m:]
        if cat in ('Subject', 'Resource'):
            mreq[cat.lower() + 's'] = holders
        else:
            mreq['action' if cat == 'Action' else 'env'] = {
                'attrs': [a for h in holders for a in h['attrs']]}
        sec = dict((b, a) for a, b in gen.SECTION_CAT.items())[cat]
        m = {'fn': F1 + 'string-equal', 'value': {'type': 'string',
                                                  'value': want},
             'src': {'k': 'desig', 'cat': cat, 'id': 'x', 'type': 'string',
                     'mbp': False}}
        never = {'fn': F1 + 'string-equal', 'value': {
            'type': 'string', 'value': 'never'}, 'src': m['src']}
        kids = [[never] for _ in range(rng.randint(0, 6))] + [
            [m] * rng.randint(1, 4)]
        rng.shuffle(kids)
        if n > 60:
            ctx.count('many.60+')
        p = {'k': 'Policy', 'id': 'p', 'alg': 'deny-overrides',
             'target': {sec: kids}, 'rules': []}
        o = sut.load(sut.text(p))
        judge(p['target'], mreq, sut.request(mreq), o,
              lambda: mon.describe(p, mreq))
        ctx.count('many')
    ctx.group('many', 640, 5120, many)

    def wide(rng, i):
        """Long sections and long lists of matches: one child or one match
        decides, at any position"""
        one = [{'id': 'x', 'type': 'string', 'issuer': None,
                'values': ['v']}]
        mreq = {'subjects': [{'category': None, 'attrs': one}],
                'resources': [{'content': None, 'attrs': one}],
                'action': {'attrs': one}, 'env': {'attrs': one},
                'pip': None, 'doc': None}

        def match(sec, word):
            return {'fn': PROBE + 'pick', 'value': {
                'type': 'string', 'value': word + '.'}, 'src': {
                    'k': 'desig', 'cat': gen.SECTION_CAT[sec], 'id': 'x',
                    'type': 'string', 'mbp': False}}
        # pick looks at the request value as an index into the word
        for a in one:
            a['values'] = ['0']
        t = {}
        for sec in rng.sample(list(model.SECTIONS), rng.choice([1, 1, 2])):
            n = gen.size(rng, 600)
            at = rng.choice([rng.randint(0, n - 1), n - 1])
            usual, odd = rng.choice(['ft', 'ft', 'f!', 'tf', 't!', 'ff',
                                     'tt'])
            if rng.random() < .5:
                t[sec] = [[match(sec, odd if j == at else usual)]
                          for j in range(n)]
            else:
                ms = [match(sec, odd if j == at else usual)
                      for j in range(n)]
                t[sec] = [ms] + [[match(sec, 'f')]
                                 for _ in range(rng.choice([0, 0, 2]))]
                rng.shuffle(t[sec])
        p = {'k': 'Policy', 'id': 'p', 'alg': 'deny-overrides', 'target': t,
             'rules': []}
        o = sut.load(sut.text(p))
        judge(t, mreq, sut.request(mreq), o,
              lambda: mon.describe(p, mreq))
        ctx.count('wide')
    ctx.group('wide', 96, 768, wide)
