"""Regular expression functions depend only on pattern and value"""
import re
import warnings

from vp import gen, model, mon, sut
from vp.model import F1, F2
from vp.sut import functionMap

META = {
    'rule': 'one evaluation = one call of a regular expression function, or'
            ' one match or decision of a policy using it, compared with the'
            ' pattern compiled afresh by the harness; distinct = distinct'
            ' (pattern, value, function, outcome)',
    'assumptions': [
        'the dialect is that of the re module, matched at the start of the'
        ' value (as in the stable tests)',
        'the library keeps its compiled expressions for the life of the'
        ' process; the harness works out each expected result on its own'],
    'floors': {'call.True': 1500, 'call.False': 3000, 'call.error': 800,
               'repeat': 3000, 'refused': 800, 'match.True': 200,
               'match.False': 200, 'match.E': 50, 'swapped': 200,
               'many': 4000},
}
FUNCS = [(t, (F1 if t == 'string' else F2) + t + '-regexp-match')
         for t in model.RE_TYPES]
BASE = ['a', 'ab', 'abc', 'b', '', 'A', 'a+', 'a*', 'a?', '.', '.*', '^a', 'a$',
        '^a$', '^$', '$', '^', '(?i)a', '(?s).', '(?m)^b', '(?x) a b', 'a|b',
        '[ab]+$', '[^a]', r'\d+', r'\w+$', r'\s', r'\.', r'a\b', 'a{2}',
        'a{2,}', '(a)(b)?', r'(a)\1', '(?:a|b)*c', '(?=a)', '(?!a)', '(?<=a)b',
        'é', '\\u00e9', '[à-ü]', '\n', 'a\nb', '.a', 'a.b', 'a\\.b', '1', '01',
        '10.0.0.1', r'10\.0\.0\.\d+', 'http://h/', 'http://.*\\.org',
        r'.*@h\.org', '(?P<n>a)', 'x' * 300, '[a-c]{3}', '(a|ab)(c|bcd)(d*)',
        'None', 'True', '[]a]', '\\$', '%s', '{}', 'ß', '(?i)SS', 'ſ', 'K',
        '(?i)k', '(?a)\\w', '\\w']
INVALID = ['(', ')', '[', '*', '+', '?', 'a**', '(?', '(?<a', '[b-a]', '\\',
           'a{2,1}', '(?P<1>a)', '(a', 'a)', r'\1', '(?z)a', '[[:foo', '(?P=x)',
           r'\Q', '(?i', 'x' * 20 + '(', 'a(?i)', '(?<=a*)b', r'\N{nope}',
           '(?P<a>x)(?P<a>y)']
VALUES = ['a', 'ab', 'abc', 'b', '', 'A', 'aa', 'aab', 'ba', 'a b', ' a', 'a\n',
          '\n', 'a\nb', 'B', 'c', 'abcd', '1', '01', '10', '10.0.0.1',
          '10a0b0c1', '10.0.0.10', 'http://h/', 'http://h.org', 'HTTP://h/',
          'u@h.org', 'u@hxorg', 'é', 'e\u0301', 'ü', 'ss', 'ß', 'SS', 'K', 'k',
          '\u212a', 'x' * 300, 'x' * 299, '.', '*', '(', '[', '\\', '^a', 'a$',
          '.*', 'a+', 'None', 'True', 'a.b', 'axb', '_', ' ', '\t', ']', '%s',
          '{}', '$', '^', '(?i)a', '\u2028', '\U0001f600']


def expected(pattern, value):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            rx = re.compile(pattern)
    except Exception:
        return 'error'
    return rx.match(value) is not None


def run(ctx):
    warnings.simplefilter('ignore')
    sut.register_all()
    C = sut.CLASSES

    def call(fn, a, b, fresh=True, inst={}):
        try:
            f = functionMap[fn]() if fresh else inst.setdefault(
                fn, functionMap[fn]())
            return f.evaluate(a, b)
        except Exception:
            return 'error'

    def pattern(rng):
        x = rng.random()
        if x < .55:
            return rng.choice(BASE)
        if x < .7:
            return rng.choice(INVALID)
        if x < .85:
            return rng.choice(BASE) + rng.choice(BASE)
        return rng.choice(VALUES)

    def value(rng, pats):
        x = rng.random()
        if x < .7:
            return rng.choice(VALUES)
        if x < .85:
            return rng.choice(VALUES) + rng.choice(VALUES)
        return rng.choice(pats)

    def histories(rng, i):
        pats = [pattern(rng) for _ in range(rng.randint(2, 8))]
        vals = [value(rng, pats) for _ in range(rng.randint(2, 8))]
        seen = {}
        trace = []
        for step in range(60):
            t, fn = rng.choice(FUNCS)
            p, v = rng.choice(pats), rng.choice(vals)
            k = rng.random()
            if k < .12:
                # refused, whatever was matched before
                u = rng.choice([x for x in model.RE_TYPES if x != t])
                a, b = C[t](value=p), C[t](value=v)
                args = rng.choice([
                    (C[u](value=p), b), (a, C[u](value=v)), (p, b), (a, v),
                    (a, None), (None, b), (a, sut.TypedList(C[t], [b])),
                    (C[u](value=p), C[u](value=v)), (C['integer'](value=1),
                                                     b)])
                got = call(fn, *args)
                ctx.check(got == 'error', lambda: '%s of wrong types gives %r'
                          % (fn, got), lambda: mon.show(trace))
                ctx.count('refused')
                trace.append((fn, 'wrong types'))
                continue
            pa, va = C[t](value=p), C[t](value=v)
            got = call(fn, pa, va, fresh=rng.random() < .5)
            want = expected(p, v)
            trace.append((fn, p, v, got))
            ctx.check(type(got) is type(want) and got == want,
                      lambda: '%s(%r, %r): %r, expected %r' % (
                          fn, p, v, got, want), lambda: mon.show(trace))
            ctx.check(pa.value == p and va.value == v, 'an argument changed')
            key = (p, v)
            if key in seen:
                ctx.count('repeat')
            seen[key] = got
            ctx.count('call.%s' % got)
            ctx.seen(p, v, t, got)

    def many(rng, i):
        """More patterns than any cache of the re module holds"""
        pats = ['%s%d%s' % (rng.choice(['', 'a', '(', '^']), k, rng.choice(
            ['', '$', '.*', '?'])) for k in range(700)]
        vals = [str(rng.randint(0, 800)) for _ in range(3)] + ['a1', '']
        for rnd in range(2):
            for p in pats:
                t, fn = rng.choice(FUNCS)
                v = rng.choice(vals + [p.strip('^$.*?(') or 'x'])
                got = call(fn, C[t](value=p), C[t](value=v))
                want = expected(p, v)
                ctx.check(got == want, lambda: '%s(%r, %r): %r, expected %r' %
                          (fn, p, v, got, want))
                ctx.count('many')
                ctx.seen('many', p[:1], p[-1:], got)

    def policies(rng, i):
        w = gen.World(rng, types=rng.sample(model.RE_TYPES, 2), probes=False,
                      selectors=0, errors=0)
        pats = [pattern(rng) for _ in range(3)]
        vals = [value(rng, pats) for _ in range(4)]
        for t in w.vals:
            w.vals[t] = vals
        mreq = w.request()
        req = sut.request(mreq)
        rules = []
        for k in range(3):
            cat = rng.choice(gen.CATS)
            src = w.desig(mreq, cat)
            t = src['type']
            p = rng.choice(pats)
            v = rng.choice(vals)
            fn = dict(FUNCS)[t]
            sec = [s for s, c in gen.SECTION_CAT.items() if c == cat][0]
            if rng.random() < .6 and p != '':
                rules.append({'id': 'r%d' % k, 'effect': rng.choice(
                    ['Permit', 'Deny']), 'cond': None, 'target': {sec: [[{
                        'fn': fn, 'value': {'type': t, 'value': p},
                        'src': src}]]}})
            else:
                rules.append({'id': 'r%d' % k, 'effect': rng.choice(
                    ['Permit', 'Deny']), 'target': None, 'cond': {
                        'k': 'apply', 'fn': fn, 'args': [
                            {'k': 'val', 'type': t, 'value': p},
                            {'k': 'apply', 'fn': F1 + t + '-one-and-only',
                             'args': [src]} if rng.random() < .5 and
                            t in model.BAG_TYPES else
                            {'k': 'val', 'type': t, 'value': v}]}})
        pol = {'k': 'Policy', 'id': 'p', 'alg': rng.choice(gen.RALGS),
               'target': None, 'rules': rules}
        o = sut.api_policy(pol)
        detail = lambda: mon.show([pol, mreq])     # noqa
        for rnd in range(2):
            mon.judge_policy(ctx, pol, o, mreq, req, detail)
            for r, ro in zip(rules, o.rules):
                if r['target']:
                    g = mon.real_target(ro, req)
                    ctx.count('match.%s' % g)
                    ctx.seen('match', str(r['target'])[:200], g)

    def swapped(rng, i):
        """The pattern is the policy's value, never the request's"""
        t, fn = rng.choice(FUNCS)
        p, v = pattern(rng) or 'a', value(rng, BASE) or 'b'
        m = {'fn': fn, 'value': {'type': t, 'value': p}, 'src': {
            'k': 'desig', 'cat': 'Subject', 'id': 'x', 'type': t,
            'mbp': False, 'issuer': None}}
        pol = {'k': 'Policy', 'id': 'p', 'alg': 'deny-overrides', 'target':
               None, 'rules': [{'id': 'r', 'effect': 'Permit', 'cond': None,
                                'target': {'subjects': [[m]]}}]}
        others = [rng.choice(VALUES + BASE + INVALID) for _ in
                  range(rng.randint(0, 2))]
        values = [v] + others
        rng.shuffle(values)
        mreq = {'subjects': [{'category': None, 'attrs': [
            {'id': 'x', 'type': t, 'issuer': None, 'values': values}]}],
            'resources': [], 'action': {'attrs': []}, 'env': {'attrs': []},
            'pip': None, 'doc': None}
        results = [expected(p, x) for x in values]
        want = 'Indeterminate' if 'error' in results else \
            'Permit' if any(results) else 'NotApplicable'
        o = sut.api_policy(pol)
        for rnd in range(2):
            got = sut.decide(o, sut.request(mreq))
            ctx.check(got == want, lambda: 'match of pattern %r with request '
                      'values %r: %s, expected %s' % (p, values, got, want))
        ctx.count('swapped')
        ctx.seen('swapped', p, tuple(values), got)

    ctx.group('histories', 5400, 32400, histories)
    ctx.group('many', 144, 864, many)
    ctx.group('policies', 6000, 36000, policies)
    ctx.group('swapped', 12000, 72000, swapped)
