"""Functions refuse arguments of the wrong type or number"""
import itertools

from vp import emit, gen, model, mon, sut
from vp.gen import F1, F2
from vp.model import D, I, N, P

EPOCH = gen.POOLS["date"][0]

META = {
    'rule': 'one evaluation = one function call (or comparison of two values)'
            ' whose arguments are not what the function takes and which must'
            ' end in an error; distinct = distinct (function, types and kinds'
            ' of the arguments)',
    'assumptions': [
        'and / not with boolean attribute values may compute or refuse',
        'a wrong argument next to a false one may make "and" false or an'
        ' error'],
    'floors': {'refused': 20000, 'type.pairs': 200, 'policy': 300,
               'apply': 300, 'charwise': 200, 'long': 2000, 'bags': 400, 'computed': 100, 'target': 100},
}


def run(ctx):
    sut.register_all()
    TYPES = sorted(model.TYPES)

    def sample_values(rng):
        """One of everything"""
        out = []
        for t in TYPES:
            p = gen.STRINGS if t in model.STR_TYPES else gen.POOLS[t]
            v, u = rng.choice(p), rng.choice(p)
            out.append(('v', t, v))
            out += [('bag', t, ()), ('bag', t, (v,)), ('bag', t, (v, u))]
        out += [('b', True), ('b', False), ('n', 0), ('n', 1), ('n', 2.5),
                ('o', None), ('o', 'text'), ('o', ''), ('o', ()), ('o', []),
                ('o', ['a']), ('o', {'a': 1}), ('o', object()),
                ('o', NotImplemented)]
        return out

    def extra(rng):
        """Objects that look like bags but are not of the type"""
        s = sut.CLASSES['string']
        out = [[s(value='a')], (s(value='a'),), {'a': s(value='a')},
               sut.TypedList(str, ['a']), sut.TypedList(sut.AttributeValue,
                                                        [s(value='a')]),
               s, sut.Decision.PERMIT, iter([s(value='a')])]
        return out

    def kind(a):
        return a[:2] + (len(a[2]),) if a[0] == 'bag' else a[:2] if \
            a[0] == 'v' else (a[0], type(a[1]).__name__)

    def judge(fn, args, how='call'):
        wants = model.apply_fn(fn, args)
        objs = [sut.obj_of(a) for a in args]
        got, exc, raw = sut.call(fn, objs)
        if wants == [model.ERR]:
            ctx.check(got == model.ERR, lambda: '%s%r gives %r instead of an '
                      'error' % (fn, tuple(args), got))
            ctx.count('refused')
            ctx.seen(fn, [kind(a) for a in args])
        else:
            ctx.check(any(model.same(got, w) for w in wants), lambda:
                      '%s%r gives %r (%r), expected %r' % (
                          fn, tuple(args), got, exc, wants))
            ctx.count('computed')

    fns = sorted(model.FUNCS)

    def arity(rng, i):
        """Every function: no argument, every single one, every pair, and
        three and four of which at most one is wrong"""
        fn = fns[i % len(fns)]
        kind_, t = model.FUNCS[fn]
        vals = sample_values(rng)
        judge(fn, [])
        for a in vals:
            if kind_ != 'round' or a[0] != 'n':
                judge(fn, [a])
        pairs = list(itertools.product(vals, vals))
        if ctx.tier == 'quick':
            pairs = rng.sample(pairs, 900)
        for a, b in pairs:
            judge(fn, [a, b])
        # well-typed arguments, one of them replaced, dropped or added
        if t is None:
            good = [('b', True)] * 3
        elif kind_ in ('one', 'alomo'):
            good = [('bag', t, (x[2],)) for x in vals
                    if x[:2] == ('v', t)] * 2
        elif kind_ == 'concat':
            good = [x for x in vals if x[:2] == ('v', t)] + [
                x for x in vals if x[:2] == ('v', 'string')] * 2
        else:
            good = [x for x in vals if x[:2] == ('v', t)] * 2
        for a in vals:
            for k in range(len(good)):
                judge(fn, good[:k] + [a] + good[k + 1:])
                judge(fn, good[:k] + [a] + good[k:])
            judge(fn, good + [a])
        judge(fn, good * 2)
        if kind_ == 'one':
            judge(fn, good[:1] * 2)
    ctx.group('arity', len(fns), len(fns) * 6, arity)

    def long_lists(rng, i):
        """Many arguments of which one is wrong"""
        fn = fns[i % len(fns)]
        kind_, t = model.FUNCS[fn]
        n = rng.choice([5, 8, 9, 10, 11, 16, 17, 31, 33, 64, 65, 100, 257])
        vals = sample_values(rng)
        if kind_ in ('and', 'not'):
            good = [('b', True)] * n
        elif kind_ == 'round':
            good = [('n', 1)] * n
        elif kind_ in ('one', 'alomo'):
            good = [rng.choice([x for x in vals if x[:2] == ('bag', t)])
                    for _ in range(n)]
        elif kind_ == 'concat':
            good = [rng.choice([x for x in vals if x[:2] == ('v', t)])] + [
                ('v', 'string', rng.choice(gen.STRINGS))
                for _ in range(n - 1)]
        else:
            good = [rng.choice([x for x in vals if x[:2] == ('v', t)])
                    for _ in range(n)]
        judge(fn, good)
        for k in sorted(set([0, 1, n // 2, n - 2, n - 1,
                             rng.randrange(n)])):
            bad = rng.sample(vals, 12)
            if kind_ in ('concat', 'bag', 'equal', 're'):
                bad = [x for x in vals if x[0] == 'v'] + bad[:4]
            for a in bad:
                judge(fn, good[:k] + [a] + good[k + 1:])
                ctx.count('long')
    ctx.group('long', len(fns) * 4, len(fns) * 24, long_lists)

    def large_bags(rng, i):
        """Bags of the right length for the wrong function, and of one value
        too many"""
        t = model.BAG_TYPES[i % len(model.BAG_TYPES)]
        p = gen.STRINGS if t in model.STR_TYPES else gen.POOLS[t]
        u = rng.choice([x for x in model.BAG_TYPES if x != t])
        q = gen.STRINGS if u in model.STR_TYPES else gen.POOLS[u]
        n = gen.size(rng)
        big = ('bag', t, tuple(rng.choice(p) for _ in range(n)))
        same = ('bag', t, (p[0],) * n)
        other = ('bag', u, tuple(rng.choice(q) for _ in range(n)))
        one = F1 + t + '-one-and-only'
        alomo = F1 + t + '-at-least-one-member-of'
        for fn, args in ((one, [big]), (one, [same]), (one, [other]),
                         (alomo, [big, other]), (alomo, [other, big]),
                         (alomo, [other, other]), (alomo, [big]),
                         (F1 + t + '-bag', [big]),
                         (F1 + t + '-bag', [('v', t, p[0])] * n + [other])):
            judge(fn, args)
            ctx.count('bags')
    ctx.group('bags', 130, 780, large_bags)

    def odd(rng, i):
        for fn in fns:
            kind_, t = model.FUNCS[fn]
            for x in extra(rng):
                for args in ([x], [x, x], [sut.CLASSES[t or 'string'](), x]):
                    got, exc, raw = sut.call(fn, args)
                    ctx.check(got == model.ERR, lambda: '%s%r gives %r' % (
                        fn, args, raw))
                    ctx.count('refused')
    ctx.group('odd', 8, 8, odd)

    def values(rng, i):
        """Values of two data types, with the same characters or number"""
        for t, u in itertools.product(TYPES, TYPES):
            a = sut.CLASSES[t]
            b = sut.CLASSES[u]
            for v in (gen.STRINGS[:6] + ['true', '1'] if
                      t in model.STR_TYPES else gen.POOLS[t]):
                x = a(value=v)
                try:
                    y = b(value=v)
                except TypeError:
                    y = b(value=rng.choice(
                        gen.STRINGS if u in model.STR_TYPES else
                        gen.POOLS[u]))
                for op, f in (('==', lambda: x == y), ('!=', lambda: x != y)):
                    try:
                        r = f()
                    except Exception:
                        r = model.ERR
                    if t != u:
                        ctx.check(r == model.ERR, lambda: '%r %s %r gives %r'
                                  % (x, op, y, r))
                        ctx.count('charwise')
                    else:
                        want = (x.value == y.value) == (op == '==')
                        ctx.check(r is want, lambda: '%r %s %r gives %r' % (
                            x, op, y, r))
            ctx.count('type.pairs')
            ctx.seen('values', t, u)
        for t in TYPES:
            v = rng.choice(gen.STRINGS if t in model.STR_TYPES
                           else gen.POOLS[t])
            x = sut.CLASSES[t](value=v)
            for other in (v, None, str(v), 1, [x], sut.TypedList(
                    sut.CLASSES[t], [x])):
                try:
                    r = x == other
                except Exception:
                    r = model.ERR
                ctx.check(r == model.ERR, lambda: '%r == %r gives %r' % (
                    x, other, r))
    ctx.group('values', 8, 16, values)

    def constructed(rng, i):
        """A value never holds something of another native type"""
        for t in TYPES:
            good = gen.STRINGS if t in model.STR_TYPES else gen.POOLS[t]
            for x in ('text', 'true', '1', b'bytes', 1, 1.5, None, [], (),
                      object(), EPOCH, EPOCH - EPOCH):
                ok = isinstance(x, type(good[0]))
                if ok or x is None:
                    continue
                v = sut.CLASSES[t](value=good[0])
                for f in (lambda: sut.CLASSES[t](value=x),
                          lambda: setattr(v, 'value', x)):
                    try:
                        f()
                        r = 'accepted'
                    except Exception:
                        r = 'refused'
                    ctx.check(r == 'refused', lambda: '%s takes %r' % (t, x))
                ctx.check(v.value == good[0], 'the value changed')
                ctx.count('refused')
    ctx.group('constructed', 8, 8, constructed)

    def policies(rng, i):
        """In conditions and targets: the rule is Indeterminate"""
        fn = fns[i % len(fns)]
        kind_, t = model.FUNCS[fn]
        w = gen.World(rng, types=[t or 'string', 'string',
                                  rng.choice(TYPES)], selectors=0)
        mreq = w.request(missing=0)
        n = rng.choice([0, 1, 1, 2, 2, 2, 3])
        args = []
        for _ in range(n):
            typ = rng.choice(w.types)
            k = rng.random()
            if k < .5:
                args.append(w.val(typ))
            elif k < .7 and typ in model.BAG_TYPES:
                args.append({'k': 'apply', 'fn': F1 + typ + '-bag',
                             'args': [w.val(typ)]})
            elif k < .8:
                args.append({'k': 'apply', 'fn': F1 + 'and', 'args': []})
            else:
                args.append(w.desig(mreq, typ=typ))
        e = {'k': 'apply', 'fn': fn, 'args': args}
        if model.ev(e, mreq) != [model.ERR]:
            return
        req = sut.request(mreq)
        got, exc = sut.run_expr(sut.api_expr(e), req)
        ctx.check(got == model.ERR, lambda: 'expression gives %r' % (got,),
                  lambda: mon.show({'expr': e, 'request': mreq}))
        ctx.count('apply')
        wrap = rng.random()
        if wrap < .3:
            e = {'k': 'apply', 'fn': F1 + 'not', 'args': [e]}
        elif wrap < .5:
            e = {'k': 'apply', 'fn': F1 + 'and', 'args': [
                {'k': 'apply', 'fn': F1 + 'and', 'args': []}, e]}
        for effect in (P, D):
            p = {'k': 'Policy', 'id': 'p', 'alg': 'first-applicable',
                 'target': None, 'rules': [{'id': 'r', 'effect': effect,
                                            'target': None, 'cond': e}]}
            got = sut.decide(sut.pdp(sut.text(p)), req)
            ctx.check(got == I, lambda: 'decision %r, expected Indeterminate'
                      % got, lambda: mon.describe(p, mreq))
        ctx.count('policy')
        ctx.sample({'function': fn, 'arguments': repr(args)[:300]})
    ctx.group('policies', 18000, 108000, policies)

    def targets(rng, i):
        """A match whose function is for other data types than the value or
        the designator"""
        w = gen.World(rng, ntypes=2, selectors=0)
        mreq = w.request(missing=0)
        src = w.desig(mreq)
        src['mbp'] = False
        bag = model.designator(src, mreq)
        if bag == model.ERR or not bag[2]:
            return
        vt = rng.choice(w.types)
        fn = rng.choice([f for f in fns if model.FUNCS[f][0] in
                         ('equal', 're', 'concat', 'alomo', 'one')])
        value = rng.choice(bag[2]) if rng.random() < .7 else w.value(src['type'])
        if rng.random() < .5 and vt in model.STR_TYPES and isinstance(
                value, str) and value:
            v = {'type': vt, 'value': value}
        else:
            v = w.val(vt)
        m = {'fn': fn, 'value': v, 'src': src}
        if model.match(m, mreq) != {'E'}:
            return
        sec = dict((b, a) for a, b in gen.SECTION_CAT.items())[src['cat']]
        p = {'k': 'Policy', 'id': 'p', 'alg': 'first-applicable',
             'target': None, 'rules': [{'id': 'r', 'effect': P, 'target': {
                 sec: [[m]]}, 'cond': None}]}
        req = sut.request(mreq)
        got = sut.decide(sut.pdp(sut.text(p)), req)
        ctx.check(got == I, lambda: 'decision %r, expected Indeterminate'
                  % got, lambda: mon.describe(p, mreq))
        p['target'] = p['rules'][0].pop('target')
        got = sut.decide(sut.pdp(sut.text(p)), req)
        ctx.check(got == I, lambda: 'decision %r, expected Indeterminate'
                  % got, lambda: mon.describe(p, mreq))
        ctx.count('target')
    ctx.group('targets', 18000, 108000, targets)
