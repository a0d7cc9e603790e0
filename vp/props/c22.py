"""Decision, effect and status code values"""
import copy
import pickle

from vp import gen, sut
from vp.harness import Violation

META = {
    'rule': 'one evaluation = one construction, assignment, comparison or look'
            ' at an object whose outcome is compared with the model (a value'
            ' from the vocabulary per object, constants fixed); distinct ='
            ' distinct (kind, operation, argument kind, outcome)',
    'assumptions': ['reflection (private names, rebinding class attributes,'
                    ' calling __init__ or __setstate__ again) is not tried'],
    'floors': {'set.done': 1000, 'set.refused': 2000, 'new.done': 500,
               'new.refused': 500, 'eq.done': 5000, 'eq.refused': 2000,
               'constant.refused': 1000, 'copied': 500, 'evaluated': 100},
}


class S(str):
    pass


def attempt(fn):
    try:
        return 'ok', fn()
    except (TypeError, AttributeError, ValueError) as e:
        return 'refused', type(e).__name__


def run(ctx):
    from ndg.xacml.core.context import result as R
    from ndg.xacml.core import rule as L
    from ndg.xacml.core import obligation as O
    sut.register_all()
    Decision, Effect, StatusCode = R.Decision, L.Effect, R.StatusCode
    DV = ('Permit', 'Deny', 'Indeterminate', 'NotApplicable')
    EV = ('Deny', 'Permit')
    SV = tuple('urn:oasis:names:tc:xacml:1.0:status:' + x for x in (
        'ok', 'missing-attribute', 'processing-error', 'syntax-error'))
    constants = [('d', Decision.PERMIT, 'Permit'), ('d', Decision.DENY, 'Deny'),
                 ('d', Decision.INDETERMINATE, 'Indeterminate'),
                 ('d', Decision.NOT_APPLICABLE, 'NotApplicable'),
                 ('e', Effect.PERMIT, 'Permit'), ('e', Effect.DENY, 'Deny')]
    klass = {'d': Decision, 'e': Effect, 'o': O.Effect}
    vocab = {'d': DV, 'e': EV, 'o': EV}
    near = ['permit', 'PERMIT', ' Permit', 'Permit ', 'Permi', 'Permitt', '',
            'Deny\n', 'Not Applicable', 'NOT_APPLICABLE', 'None', 'True',
            'PermitDeny', 'Permit,Deny', 'ok', 'deny', 'indeterminate', 'e',
            'Den', 'PermitDecision'] + list(SV) + list(DV)
    wrong = [None, True, False, 0, 1, 1.0, b'Permit', ['Permit'], ('Permit',),
             {'value': 'Permit'}, object(), Decision, Effect, str, {'Permit'},
             NotImplemented]

    def constants_hold(what):
        for k, c, v in constants:
            ctx.check(c.value == v and str(c) == v and type(c.value) is str,
                      lambda: 'the constant %s of %s is %r after %s' % (
                          v, klass[k].__name__, c.value, what))
            ctx.check((c == v) is True and (c != v) is False and
                      (v == c) is True, lambda: 'constant %s compares wrong' %
                      v)
        ctx.check(bool(Effect.PERMIT) is True and bool(Effect.DENY) is False,
                  'truth of effects')
        for n in ('PERMIT', 'DENY', 'INDETERMINATE', 'NOT_APPLICABLE'):
            ctx.check(any(c is getattr(Decision, n) for _, c, _ in constants),
                      'a decision constant was replaced')
        for n in ('PERMIT', 'DENY'):
            ctx.check(any(c is getattr(Effect, n) for _, c, _ in constants),
                      'an effect constant was replaced')

    def objects(rng, i):
        pool = [(k, c, v, True) for k, c, v in constants]
        trace = []

        def argument(kind):
            """@return: argument, the value it stands for, kind of argument"""
            x = rng.random()
            if x < .35:
                v = rng.choice(vocab[kind])
                return (S(v) if rng.random() < .2 else v), v, 'text'
            if x < .6:
                k, o, v, _ = rng.choice(pool)
                return o, (v if k == kind else None), \
                    'same' if k == kind else 'other'
            if x < .8:
                v = rng.choice(near)
                return v, (v if v in vocab[kind] else None), 'near'
            return rng.choice(wrong), None, 'wrong'
        for step in range(rng.randint(10, 30)):
            op = rng.choice(['new', 'set', 'set', 'eq', 'eq', 'copy', 'del',
                             'attr', 'default', 'sub'])
            if op in ('new', 'sub', 'default'):
                kind = rng.choice('deo')
                arg, v, how = argument(kind)
                if op == 'default' and kind != 'o':
                    o, v = klass[kind](), {'d': 'Indeterminate',
                                           'e': 'Deny'}[kind]
                    got = ('ok', o)
                    how = 'default'
                elif op == 'sub':
                    base = klass[kind]

                    class Sub(base):
                        pass
                    Sub.__name__ = base.__name__
                    got = attempt(lambda: Sub(arg))
                elif rng.random() < .3:
                    kw = {'d': 'decision', 'e': 'effect',
                          'o': 'effectType'}[kind]
                    got = attempt(lambda: klass[kind](**{kw: arg}))
                else:
                    got = attempt(lambda: klass[kind](arg))
                trace.append((op, kind, repr(arg), got[0]))
                ctx.check(got[0] == ('refused' if v is None else 'ok'),
                          lambda: '%s(%r): %s' % (klass[kind].__name__, arg,
                                                  got), lambda: repr(trace))
                ctx.count('new.refused' if v is None else 'new.done')
                if v is not None and len(pool) < 14 and op != 'sub':
                    pool.append((kind, got[1], v, False))
                elif v is not None:
                    ctx.eq(str(got[1].value), v, 'value of a new object')
            elif op == 'set':
                n = rng.randrange(len(pool))
                kind, o, old, const = pool[n]
                arg, v, how = argument(kind)
                got = attempt(lambda: setattr(o, 'value', arg))
                trace.append((op, n, repr(arg), got[0]))
                if const:
                    ctx.check(got[0] == 'refused', lambda: 'the constant %s '
                              'takes %r' % (old, arg), lambda: repr(trace))
                    ctx.count('constant.refused')
                elif v is None:
                    ctx.check(got[0] == 'refused', lambda: 'value %r taken' %
                              (arg,), lambda: repr(trace))
                    ctx.count('set.refused')
                else:
                    ctx.check(got[0] == 'ok', lambda: 'value %r refused: %s' %
                              (arg, got), lambda: repr(trace))
                    pool[n] = (kind, o, v, False)
                    ctx.count('set.done')
            elif op == 'eq':
                kind, o, v, _ = rng.choice(pool)
                arg, w, how = argument(kind)
                forms = [(lambda: o == arg, lambda x: x),
                         (lambda: o != arg, lambda x: not x)]
                if not isinstance(arg, (Decision, Effect, O.Effect)):
                    forms += [(lambda: arg == o, lambda x: x),
                              (lambda: arg != o, lambda x: not x)]
                for f, norm in forms:
                    got = attempt(f)
                    if w is None and kind == 'o' and isinstance(arg, str):
                        # the effect of an obligation: unequal will do
                        ctx.check(got[0] == 'refused' or
                                  norm(got[1]) is False,
                                  lambda: 'comparing %s with %r gives %r' % (
                                      v, arg, got[1]), lambda: repr(trace))
                    elif w is None:
                        ctx.check(got[0] == 'refused', lambda: 'comparing %s '
                                  'with %r gives %r' % (v, arg, got[1]),
                                  lambda: repr(trace))
                        ctx.count('eq.refused')
                    else:
                        ctx.check(got[0] == 'ok' and type(got[1]) is bool and
                                  norm(got[1]) == (v == w),
                                  lambda: 'comparing %s with %r gives %r' % (
                                      v, arg, got), lambda: repr(trace))
                        ctx.count('eq.done')
            elif op == 'copy':
                kind, o, v, const = rng.choice(pool)
                how = rng.choice(['copy', 'deep', 'pickle'])
                p = rng.randint(2, pickle.HIGHEST_PROTOCOL)
                try:
                    c = {'copy': copy.copy, 'deep': copy.deepcopy,
                         'pickle': lambda x: pickle.loads(
                             pickle.dumps(x, p))}[how](o)
                except Exception as e:
                    raise Violation('%s of %s: %r' % (how, v, e))
                ctx.check(isinstance(c, klass[kind]) and c.value == v and
                          (c == o) is True, 'a copy differs')
                if const:
                    got = attempt(lambda: setattr(c, 'value', rng.choice(
                        vocab[kind])))
                    if c is o or type(c) is type(o):
                        ctx.check(got[0] == 'refused', 'a copied constant can '
                                  'be set')
                        ctx.count('constant.refused')
                elif len(pool) < 14:
                    ctx.check(c is not o, 'a copy is the object itself')
                    pool.append((kind, c, v, False))
                ctx.count('copied')
            elif op == 'del':
                kind, o, v, _ = rng.choice(pool)
                how = 'del'
                got = attempt(lambda: delattr(o, 'value'))
                ctx.check(got[0] == 'refused', 'the value can be deleted')
            else:
                kind, o, v, const = rng.choice(pool)
                how = rng.choice(['PERMIT', 'DENY', 'TYPES', 'PERMIT_STR',
                                  'DENY_STR', 'foo', '__class__'])
                val = {'__class__': rng.choice([Decision, Effect])}.get(
                    how, rng.choice([None, 'Deny', ('x',)]))
                if how != '__class__' or const:
                    if how != '__class__':
                        got = attempt(lambda: setattr(o, how, val))
                        ctx.check(got[0] == 'refused', lambda: 'attribute %s '
                                  'of a %s object can be set' % (
                                      how, klass[kind].__name__))
            for kind, o, v, const in pool:
                ctx.check(o.value == v and str(o) == v and
                          type(str(o)) is str or isinstance(o.value, S),
                          lambda: '%s object holds %r, expected %r' % (
                              klass[kind].__name__, o.value, v),
                          lambda: repr(trace))
                if kind == 'e':
                    ctx.check(bool(o) is (v == 'Permit'), 'truth of an effect',
                              lambda: repr(trace))
            ctx.seen(op, how, kind)
        constants_hold(trace[-3:])

    def status(rng, i):
        """Status codes take only the defined codes"""
        s = StatusCode()
        st = R.Status.createInitialised()
        ctx.check(s.value is None and st.statusCode.value == SV[0],
                  'initial status code')
        cur = None
        for step in range(10):
            v = rng.choice(list(SV) + near + wrong + [SV[0].upper(), SV[0][4:],
                                                      SV[0] + ':x'])
            ok = isinstance(v, str) and v in SV
            got = attempt(lambda: setattr(s, 'value', v))
            ctx.check(got[0] == ('ok' if ok else 'refused'), lambda: 'status '
                      'code %r: %s' % (v, got))
            if ok:
                cur = v
            ctx.check(s.value == cur, lambda: 'status code holds %r, expected'
                      ' %r' % (s.value, cur))
            got = attempt(lambda: R.Status.createInitialised(code=v))
            ctx.check(got[0] == ('ok' if ok else 'refused'), lambda: 'status '
                      'with code %r: %s' % (v, got))
            if ok:
                ctx.check(got[1].statusCode.value == v, 'code of a status')
            ctx.check(st.statusCode.value == SV[0], 'another status changed')
            ctx.count('set.done' if ok else 'set.refused')
            ctx.seen('status', ok, type(v).__name__)

    def evaluated(rng, i):
        """Decisions given out by the library cannot poison later ones"""
        w = gen.World(rng, probes=False)
        m = w.request()
        p = w.any_policy(m, depth=1)
        obj = sut.pdp(sut.text(p))
        req = sut.request(m)
        first = sut.decide(obj, req)
        pairs = [x for x in sut.walk(p, obj.policy)]
        rules = [r for q, o in pairs if q['k'] == 'Policy' for r in o.rules]
        for step in range(4):
            k = rng.randint(0, 3)
            v = rng.choice(DV)
            if k == 0:
                d = obj.evaluate(req).results[0].decision
            elif k == 1:
                d = rng.choice(pairs)[1].evaluate(req)
            elif k == 2 and rules:
                d = rng.choice(rules).evaluate(req)
            else:
                res = R.Result.createInitialised(
                    decision=rng.choice(constants[:4])[1])
                d = res.decision
            got = attempt(lambda: setattr(d, 'value', v))
            ctx.check(d.value == (v if got[0] == 'ok' else d.value) and
                      d.value in DV, 'value of a decision given out')
            again = sut.decide(obj, req)
            ctx.check(again == first, lambda: 'after setting a decision given '
                      'out to %s the decision is %s, not %s' % (
                          v, again, first), lambda: sut.text(p).decode())
            constants_hold('setting a decision given out')
            ctx.count('evaluated')
            ctx.seen('evaluated', k, got[0], first)
        if rules:
            r = rng.choice(rules)
            before = r.effect.value
            ctx.check(before in EV, 'effect of a loaded rule')
            for v in rng.sample(near, 3) + rng.sample(wrong, 2):
                got = attempt(lambda: setattr(r.effect, 'value', v))
                ok = isinstance(v, str) and v in EV
                ctx.check((got[0] == 'ok') == ok, lambda: 'effect set to %r: '
                          '%s' % (v, got))
                if ok:
                    ctx.check(all(x is r or x.effect is not r.effect
                                  for x in rules), 'rules share an effect')
            constants_hold('setting the effect of a loaded rule')

    ctx.group('objects', 30000, 180000, objects)
    ctx.group('status', 2250, 13500, status)
    ctx.group('evaluated', 1800, 10800, evaluated)
