"""Functions compute the XACML-defined result for every well-typed input"""
import itertools
import random
import math
import re
from fractions import Fraction

from vp import emit, gen, model, mon, sut
from vp.gen import F1, F2
from vp.model import D, I, N, P

META = {
    'rule': 'one evaluation = the result of one function call on well-typed'
            ' arguments compared (kind, data type, value) with an independent'
            ' definition, or its arguments compared before and after; distinct'
            ' = distinct (function, arguments)',
    'assumptions': [
        'rfc822Name-match and x500Name-match: only identical and entirely'
        ' different names are judged', 'round: no halves',
        'and / not / round take plain booleans and numbers, as computed by'
        ' other functions'],
    'floors': {'equal.True': 1000, 'equal.False': 1000, 're.True': 500,
               're.False': 500, 'one': 500, 'bag': 500, 'alomo.True': 300,
               'alomo.False': 300, 'and.True': 100, 'and.False': 100,
               'not': 8, 'round': 50, 'concat': 300, 'match': 40,
               'apply': 500, 'functions': 65, 'decision.Permit': 50, 'reused': 2000,
               'decision.NotApplicable': 50, 'large': 100,
               'large.apply.True': 50, 'large.apply.False': 50,
               'large.alomo.True': 10, 'large.alomo.False': 10},
}
NAMES = ['a@h.org', 'b@x.net', 'CN=a, O=b', 'x500', 'q']
NUMBERS = [0, 1, -1, 2, 10 ** 18, 0.2, -0.2, 0.7, 1.49, 1.51, -1.49, -1.51,
           2.4, 1e15 + 0.25, 3.0, -7.9, 99.999, 2.0 ** 52 + 1, 2.0 ** 53 - 1,
           -(2.0 ** 52 + 1), 2.0 ** 53 + 2, 1e22, -1e22, 1e300, 5e-324, 2 ** 53 +
           1, -(2 ** 53) - 1, 10 ** 40 + 1, 10 ** 400 + 1, -0.0]
# the nearest numbers to a half which are not it
NUMBERS += [math.nextafter(k + .5, k + up) for k in list(range(-4, 5)) + [
    2 ** 20, -2 ** 20, 2 ** 31, 2 ** 40 + 1] for up in (0, 1)]


def pool(t):
    return gen.REQ_STRINGS if t in model.STR_TYPES else gen.POOLS[t]


def run(ctx):
    sut.register_all()

    def judge(fn, args, want=None, key=True):
        """args: model results"""
        objs = [sut.obj_of(a) for a in args]
        before = [sut.freeze(o) for o in objs]
        got, exc, raw = sut.call(fn, objs)
        wants = [want] if want is not None else model.apply_fn(fn, args)
        ctx.check(any(model.same(got, w) for w in wants), lambda:
                  '%s%r gives %r%s, expected %r' % (
                      fn, tuple(args), got,
                      '' if exc is None else ' (%r)' % exc, wants))
        ctx.check(before == [sut.freeze(o) for o in objs],
                  lambda: '%s%r changed its arguments' % (fn, tuple(args)))
        if key:
            ctx.seen(fn, args)
        return got, raw, objs

    def values(t, vals):
        return [('v', t, v) for v in vals]

    def equal(rng, i):
        """All pairs of a pool"""
        t = model.EQ_TYPES[i % len(model.EQ_TYPES)]
        p = pool(t)
        pairs = list(itertools.product(p, p))
        if ctx.tier == 'quick' and len(pairs) > 1500:
            pairs = [(a, a) for a in p] + rng.sample(pairs, 1500)
        for a, b in pairs:
            # equal values that are not the same object
            if isinstance(b, str):
                b = b[:1] + b[1:]
            got, _, _ = judge(F1 + t + '-equal', values(t, (a, b)))
            ctx.count('equal.%s' % got[1])
        if t in model.STR_TYPES:
            for _ in range(200):
                s = ''.join(rng.choice('aAbB \t\u00e9\u0301.') for _ in
                            range(rng.randint(1, 6)))
                u = list(s)
                k = rng.randint(0, len(s) - 1)
                u[k] = rng.choice([u[k], u[k].swapcase(), 'z', '', u[k] * 2])
                got, _, _ = judge(F1 + t + '-equal', values(t, (
                    s, ''.join(u))))
                ctx.count('equal.%s' % got[1])
        elif t in ('integer', 'hexBinary'):
            for _ in range(200):
                a = rng.getrandbits(rng.choice([8, 31, 32, 53, 64, 65, 100]))
                b = a + rng.choice([0, 0, 1, -1, 2 ** 32, 2 ** 64])
                got, _, _ = judge(F1 + t + '-equal', values(t, (a, b)))
                ctx.count('equal.%s' % got[1])
    n = len(model.EQ_TYPES)
    ctx.group('equal', n, n * 3, equal)

    def regexp(rng, i):
        t = rng.choice(model.RE_TYPES)
        fn = (F1 if t == 'string' else F2) + t + '-regexp-match'
        w = gen.World(rng, types=[t], selectors=0)
        for _ in range(12):
            v = rng.choice([rng.choice(gen.REQ_STRINGS), w.value(t)])
            p = w.pattern(t, [v])['value'] if rng.random() < .7 else \
                rng.choice(gen.STRINGS)
            got, _, _ = judge(fn, values(t, (p, v)))
            ctx.count('re.%s' % got[-1])
    ctx.group('regexp', 14400, 86400, regexp)

    def bags(rng, i):
        t = model.BAG_TYPES[i % len(model.BAG_TYPES)]
        p = pool(t)
        for _ in range(6):
            v = rng.choice(p)
            _, raw, objs = judge(F1 + t + '-one-and-only', [('bag', t, (v,))])
            ctx.check(raw.value == v and raw.dataType == model.TYPES[t],
                      'one-and-only lost the value')
            ctx.count('one')
            n = rng.choice([0, 1, 2, 3, 5, 40])
            vals = [rng.choice(p) for _ in range(n)]
            got, raw, objs = judge(F1 + t + '-bag', values(t, vals))
            ctx.count('bag')
            # the bag feeds the other functions
            if n == 1:
                judge(F1 + t + '-one-and-only', [got])
            got2, raw2, _ = judge(F1 + t + '-bag', values(t, vals))
            del raw[:]
            ctx.check(len(raw2) == n, 'two bags are one object')
            a = [rng.choice(p) for _ in range(rng.choice([0, 1, 2, 4, 30]))]
            b = [rng.choice(p) for _ in range(rng.choice([0, 1, 2, 4, 30]))]
            if rng.random() < .4:
                b = [x for x in b if x not in a]
                if a and rng.random() < .5:
                    b.insert(rng.randint(0, len(b)), rng.choice(a))
            got, _, _ = judge(F1 + t + '-at-least-one-member-of', [
                ('bag', t, tuple(a)), ('bag', t, tuple(b))])
            ctx.count('alomo.%s' % got[1])
    ctx.group('bags', 4680, 28080, bags)

    def logic(rng, i):
        for n in range(0, 7):
            for combo in itertools.product([True, False], repeat=n):
                got, _, _ = judge(F1 + 'and', [('b', c) for c in combo])
                ctx.count('and.%s' % got[1])
        for n in (20, 64, 200):
            for at in (None, 0, n // 2, n - 1):
                judge(F1 + 'and', [('b', k != at) for k in range(n)])
        for v in (True, False):
            for _ in range(4):
                judge(F1 + 'not', [('b', v)])
                ctx.count('not')
        for x in NUMBERS + [rng.uniform(-1e6, 1e6) for _ in range(60)]:
            if Fraction(x) % 1 == Fraction(1, 2):
                continue
            f = sut.functionMap[F1 + 'round']()
            r = f.evaluate(x)
            ctx.check(not isinstance(r, bool) and isinstance(
                r, (int, float)) and r == int(r) and
                abs(Fraction(r) - Fraction(x)) < Fraction(1, 2),
                lambda: 'round(%r) gives %r' % (x, r))
            ctx.count('round')
    ctx.group('logic', 8, 40, logic)

    def concat(rng, i):
        t = rng.choice(['string', 'anyURI'])
        fn = F2 + ('string' if t == 'string' else 'url-string') + \
            '-concatenate'
        for _ in range(10):
            n = rng.choice([2, 2, 3, 4, 12])
            args = values(t, [rng.choice(gen.REQ_STRINGS)]) + values(
                'string', [rng.choice(gen.REQ_STRINGS) for _ in range(n - 1)])
            _, raw, _ = judge(fn, args)
            ctx.check(type(raw) is sut.CLASSES[t], 'wrong class')
            ctx.count('concat')
    ctx.group('concat', 2160, 12960, concat)

    def large(rng, i):
        """Long texts, long bags and long argument lists"""
        n = gen.size(rng)
        t = rng.choice(model.STR_TYPES)
        text = ''.join(rng.choice('abcXYZ 019._-/') for _ in range(
            rng.choice([n, n * 10])))
        k = rng.choice([len(text) - 1, rng.randint(0, len(text) - 1)])
        other = text[:k] + rng.choice(['', '\u00e9', text[k] * 2]) + \
            text[k + 1:]
        if t in model.EQ_TYPES:
            judge(F1 + t + '-equal', values(t, (text, text[:1] + text[1:])))
            judge(F1 + t + '-equal', values(t, (text, other)))
        if t in model.RE_TYPES:
            fn = (F1 if t == 'string' else F2) + t + '-regexp-match'
            for p in ('.*z?$', '[a-zA-Z 019._/-]*$', '.{%d}$' % len(text),
                      re.escape(text) + '$'):
                judge(fn, values(t, (p, text)))
                judge(fn, values(t, (p, other)))
        ct = rng.choice(['string', 'anyURI'])
        fn = F2 + ('string' if ct == 'string' else 'url-string') + \
            '-concatenate'
        judge(fn, values(ct, [text]) + values('string', [
            'a%d,' % j for j in range(n)]))
        bt = rng.choice(model.BAG_TYPES)
        p = pool(bt)
        _, raw, _ = judge(F1 + bt + '-bag', values(
            bt, [rng.choice(p) for _ in range(n)]))
        judge(F1 + bt + '-one-and-only', [('bag', bt, tuple(
            rng.choice(p) for _ in range(n)))])
        if bt in model.STR_TYPES:
            m = min(n, 300)
            a = ['v%d' % j for j in range(m)]
            b = ['w%d' % j for j in range(m)]
            if rng.random() < .5:
                b[rng.choice([m - 1, rng.randint(0, m - 1)])] = a[
                    rng.choice([m - 1, rng.randint(0, m - 1)])]
            got, _, _ = judge(F1 + bt + '-at-least-one-member-of', [
                ('bag', bt, tuple(a)), ('bag', bt, tuple(b))])
            ctx.count('large.alomo.%s' % got[1])
        at = rng.choice([None, n - 1, rng.randint(0, n - 1)])
        judge(F1 + 'and', [('b', j != at) for j in range(n)])
        # the same through Apply
        const = lambda t, v: {'k': 'val', 'type': t, 'value': v}    # noqa
        call = lambda fn, args: {'k': 'apply', 'fn': fn, 'args': args}  # noqa
        m = min(n, 600)
        bag = lambda vs: call(F1 + ct + '-bag',     # noqa
                              [const(ct, v) for v in vs])
        for e in (
                call(F1 + ct + '-equal', [
                    call(fn, [const(ct, 'x')] + [
                        const('string', 'a%d,' % j) for j in range(m)]),
                    const(ct, 'x' + ''.join('a%d,' % j for j in range(
                        m - rng.choice([0, 0, 1]))))]),
                call(F1 + ct + '-at-least-one-member-of', [
                    bag(['z']), bag(['a%d' % j for j in range(m)] +
                                    ['z'] * rng.randint(0, 1))]),
                call(F1 + 'and', [call(F1 + 'string-equal', [
                    const('string', 'a'), const('string', 'b' if at ==
                                                n - m + j else 'a')])
                    for j in range(m)])):
            wants = model.ev(e, {})
            got, exc = sut.run_expr(sut.api_expr(e), empty)
            ctx.check(any(model.same(got, x) for x in wants), lambda:
                      '%s with %d arguments gives %r (%r), expected %r' % (
                          e['fn'], m, got, exc, wants))
            ctx.count('large.apply.%s' % (got[1],))
        ctx.count('large')
    empty = sut.request(gen.World(random.Random(1)).request())
    ctx.group('large', 240, 1440, large)

    def names(rng, i):
        for t in ('rfc822Name', 'x500Name'):
            for a in NAMES:
                for b in NAMES:
                    judge(F1 + t + '-match', values(t, (a, b)),
                          ('b', a == b))
                    ctx.count('match')
    ctx.group('names', 8, 8, names)

    def every(rng, i):
        """Every supported identifier gives an object of its own function,
        and two objects do not share state"""
        for fn in sorted(model.FUNCS):
            a, b = sut.functionMap[fn](), sut.functionMap[fn]()
            ctx.check(a is not b and type(a) is type(b), fn)
            ctx.count('functions')
    ctx.group('every', 8, 8, every)

    def reused(rng, i):
        """One function object evaluated many times: every result stays what
        it was when it was returned, as do the arguments"""
        fns = rng.sample(sorted(model.FUNCS), 4)
        objs = dict((fn, sut.functionMap[fn]()) for fn in fns)
        held = []
        for _ in range(24):
            fn = rng.choice(fns)
            kind, t = model.FUNCS[fn]
            p = pool(t) if t else []
            if kind in ('equal', 're'):
                args = values(t, [rng.choice(p), rng.choice(p)])
            elif kind == 'one':
                args = [('bag', t, (rng.choice(p),))]
            elif kind == 'bag':
                args = values(t, [rng.choice(p) for _ in range(
                    rng.randint(0, 4))])
            elif kind == 'alomo':
                args = [('bag', t, tuple(rng.choice(p) for _ in range(
                    rng.randint(0, 3)))) for _ in range(2)]
            elif kind == 'concat':
                args = values(t, [rng.choice(gen.REQ_STRINGS)]) + values(
                    'string', [rng.choice(gen.REQ_STRINGS) for _ in range(
                        rng.randint(1, 3))])
            elif kind == 'and':
                args = [('b', rng.random() < .7) for _ in range(
                    rng.randint(0, 6))]
            elif kind == 'not':
                args = [('b', rng.random() < .5)]
            else:
                args = [('n', rng.randint(-9, 9))]
            os = [sut.obj_of(a) for a in args]
            try:
                raw = objs[fn].evaluate(*os)
                got = sut.to_result(raw)
            except Exception:
                raw, got = None, model.ERR
            wants = model.apply_fn(fn, args)
            ctx.check(any(model.same(got, w) for w in wants), lambda:
                      '%s%r gives %r, expected %r' % (fn, args, got, wants))
            held.append((fn, args, os, [sut.freeze(o) for o in os], raw, got))
            ctx.count('reused')
        for fn, args, os, before, raw, got in held:
            ctx.check(before == [sut.freeze(o) for o in os], lambda:
                      'arguments of %s%r changed later' % (fn, args))
            if got != model.ERR:
                ctx.check(model.same(sut.to_result(raw), got), lambda:
                          'the result of %s%r, %r, has become %r' % (
                              fn, args, got, sut.to_result(raw)))
    ctx.group('reused', 3600, 21600, reused)

    def applied(rng, i):
        """Through Apply, nested, with values and bags of the policy"""
        w = gen.World(rng, errors=0, selectors=0, probes=False)
        mreq = w.request(missing=0)
        req = sut.request(mreq)
        for _ in range(4):
            e = w.boolean(mreq, 3)
            wants = model.ev(e, mreq)
            got, exc = sut.run_expr(sut.api_expr(e), req)
            ctx.check(any(model.same(got, x) for x in wants), lambda:
                      'expression gives %r (%r), expected %r' % (
                          got, exc, wants), lambda: mon.show(
                              {'expr': e, 'request': mreq}))
            ctx.count('apply')
            ctx.seen(mon.expr_sig(e), got)
            ctx.sample({'expression': repr(e)[:400], 'result': repr(got)})
    ctx.group('applied', 7200, 43200, applied)

    def decisions(rng, i):
        """The same through a loaded policy"""
        fn = sorted(model.FUNCS)[i % len(model.FUNCS)]
        kind, t = model.FUNCS[fn]
        w = gen.World(rng, types=[t or 'string', 'string'], selectors=0,
                      errors=0)

        def val(typ):
            return {'k': 'val', 'type': typ, 'value': w.value(typ)}

        def bag(n):
            return {'k': 'apply', 'fn': F1 + t + '-bag',
                    'args': [val(t) for _ in range(n)]}
        eqs = [F1 + 'string-equal']
        if kind == 'equal':
            e = {'k': 'apply', 'fn': fn, 'args': [val(t), val(t)]}
        elif kind == 're':
            e = {'k': 'apply', 'fn': fn, 'args': [
                w.pattern(t, w.vals[t]), val(t)]}
        elif kind == 'one':
            e = {'k': 'apply', 'fn': F1 + t + '-equal', 'args': [
                {'k': 'apply', 'fn': fn, 'args': [bag(1)]}, val(t)]}
        elif kind in ('bag', 'alomo'):
            e = {'k': 'apply', 'fn': F1 + t + '-at-least-one-member-of',
                 'args': [bag(rng.randint(0, 3)), bag(rng.randint(0, 3))]}
        elif kind == 'concat':
            args = [val(t), val('string'), val('string')]
            r = model.apply_fn(fn, [('v', a['type'], a['value'])
                                    for a in args])[0]
            e = {'k': 'apply', 'fn': F1 + t + '-equal', 'args': [
                {'k': 'apply', 'fn': fn, 'args': args},
                {'k': 'val', 'type': t, 'value': r[2] if rng.random() < .6
                 else r[2] + ' '}]}
        elif kind == 'and' or kind == 'not':
            def eq():
                return {'k': 'apply', 'fn': rng.choice(eqs),
                        'args': [val('string'), val('string')]}
            e = {'k': 'apply', 'fn': fn, 'args': [
                eq() for _ in range(1 if kind == 'not' else
                                    rng.randint(0, 3))]}
        else:
            return
        wants = model.cond(e, {})
        p = {'k': 'Policy', 'id': 'p', 'alg': 'first-applicable',
             'target': None, 'rules': [{'id': 'r', 'effect': P,
                                        'target': None, 'cond': e}]}
        mreq = w.request(missing=0)
        got = sut.decide(sut.pdp(sut.text(p)), sut.request(mreq))
        ok = set({True: P, False: N, 'E': I}[x] for x in wants)
        ctx.check(got in ok, lambda: 'decision %r, expected %s' % (got, ok),
                  lambda: mon.describe(p, mreq))
        ctx.count('decision.' + got)
    ctx.group('decisions', 21600, 129600, decisions)
