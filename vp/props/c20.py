"""Typed lists, unique lists, restricted and vetted dictionaries"""
import copy
import pickle

from vp import gen, harness
from vp.harness import Violation

META = {
    'rule': 'one evaluation = one container operation whose outcome (returned'
            ' value or error) and resulting content are compared with those of'
            ' a plain list or dictionary following the same history; distinct'
            ' = distinct (container, operation, kind of argument, outcome)',
    'assumptions': [
        'an operation given an iterator which itself fails part way only has'
        ' to keep the content well typed (a plain list keeps the items before'
        ' the failure)',
        'vetted dictionaries drop what their filters decline and pass on what'
        ' their filters raise',
        'items are compared with ==, as the list type does'],
    'floors': {'long': 100, 'typed.done': 3000, 'typed.refused': 1000, 'uniq.done': 1000,
               'restricted.done': 1000, 'restricted.refused': 500,
               'vetted.done': 1000, 'vetted.declined': 500,
               'vetted.raised': 200, 'iterators': 500, 'library': 200},
}


class Base:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Base) and o.n == self.n

    def __lt__(self, o):
        return self.n < o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return '%s(%d)' % (type(self).__name__, self.n)


class Derived(Base):
    pass


class Boom(Exception):
    pass


def failing(items):
    for i in items:
        yield i
    raise Boom()


def outcome(fn):
    try:
        return 'ok', fn()
    except Boom:
        return 'boom', None
    except (TypeError, ValueError, IndexError, KeyError,
            AttributeError) as e:
        return type(e).__name__, None


class Alike:
    """Equal to itself only, though all look the same"""

    def __repr__(self):
        return 'alike'

    def __reduce__(self):
        return one_of, (ALIKE.index(self),)

    def __deepcopy__(self, memo):
        return self


class Same:
    """Equal to one another, though all look different"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Same)

    __hash__ = None

    def __repr__(self):
        return 'same%d' % self.n


def one_of(k):
    return ALIKE[k]


ALIKE = [Alike() for _ in range(3)]
KINDS = {
    'int': (int, lambda r: r.randint(-3, 9), lambda r: r.choice(
        ['1', 1.0, None, [1], Base(1), b'1'])),
    'str': (str, lambda r: r.choice(['a', 'b', '', 'é', 'aa']),
            lambda r: r.choice([1, None, b'a', ['a'], ('a',), Base(0)])),
    'pair': ((str, int), lambda r: r.choice(['a', 'b', 1, 2, True]),
             lambda r: r.choice([1.5, None, b'a', [], Base(1)])),
    'class': (Base, lambda r: r.choice([Base, Derived])(r.randint(0, 4)),
              lambda r: r.choice([1, None, 'Base', Base, [Base(1)]])),
    'sub': (Derived, lambda r: Derived(r.randint(0, 4)),
            lambda r: r.choice([Base(1), 1, None, Derived])),
}


def wrap(rng, items, ctx):
    """The items as some iterable; one-shot ones too"""
    k = rng.randint(0, 6)
    if k == 0:
        return list(items), 'list'
    if k == 1:
        return tuple(items), 'tuple'
    ctx.count('iterators')
    if k == 2:
        return iter(items), 'iterator'
    if k == 3:
        return (x for x in items), 'generator'
    if k == 4:
        return map(lambda x: x, items), 'map'
    if k == 5:
        return filter(lambda x: True, list(items)), 'filter'
    return dict(enumerate(items)).values(), 'view'


def same(a, b):
    return len(a) == len(b) and all(
        type(x) is type(y) and (x is y or x == y) for x, y in zip(a, b))


def run(ctx):
    from ndg.xacml import utils

    # ------------------------------------------------------- typed lists
    def typed_list(rng, i):
        kind = rng.choice(sorted(KINDS))
        typ, good, bad = KINDS[kind]
        init = [good(rng) for _ in range(rng.randint(0, 4))]
        if rng.random() < .01:
            init = [good(rng) for _ in range(gen.size(rng, 520))]
            ctx.count('long')
        model = list(init)
        if rng.random() < .3:
            broken = init + [bad(rng)]
            rng.shuffle(broken)
            arg, how = wrap(rng, broken, ctx)
            r = outcome(lambda: utils.TypedList(typ, arg))
            ctx.check(r[0] == 'TypeError', lambda: 'TypedList(%s, %r) accepted'
                      % (kind, broken))
        box = utils.TypedList(typ, wrap(rng, init, ctx)[0])
        other = utils.TypedList(typ)
        trace = []
        state(box, model, kind, typ, trace)
        for step in range(rng.randint(5, 25)):
            box, model = typed_step(rng, kind, typ, good, bad, box, model,
                                    trace)
            state(box, model, kind, typ, trace)
        ctx.check(len(other) == 0, 'a list not touched changed')

    def state(box, model, kind, typ, trace):
        """All the ways to look at the content agree with the model"""
        why = lambda: 'TypedList of %s after %s: %r, expected %r' % (   # noqa
            kind, trace[-1:], list(box), model)
        ctx.check(same(list(box), model), why, lambda: repr(trace))
        ctx.check(all(isinstance(x, typ) for x in list(box)), why,
                  lambda: repr(trace))
        ctx.check(len(box) == len(model) and [box[j] for j in
                  range(len(model))] == model and list(reversed(box)) ==
                  model[::-1] and box == model and not box != model and
                  bool(box) == bool(model), why, lambda: repr(trace))
        ctx.check(box.elementType is typ or box.elementType == typ,
                  'element type changed', lambda: repr(trace))

    def typed_step(rng, kind, typ, good, bad, box, model, trace):
        n = len(model)
        items = [good(rng) for _ in range(rng.randint(0, 3))]
        wrong = rng.random() < .4
        spoilt = list(items)
        if wrong:
            spoilt.insert(rng.randint(0, len(items)), bad(rng))
        item = bad(rng) if wrong else good(rng)
        idx = rng.randint(-n - 2, n + 2)
        sl = slice(*[rng.choice([None, rng.randint(-n - 2, n + 2)])
                     for _ in range(2)] + [rng.choice(
                         [None, None, None, 1, 2, -1, -2])])
        op = rng.choice(OPS)
        seq = rng.random()
        arg, how = wrap(rng, spoilt, ctx)
        marg = list(spoilt)
        boom = False
        if op in ('extend', 'iadd', 'setslice') and rng.random() < .08:
            arg, how, boom = failing(list(spoilt)), 'failing', True
        elif op in ('extend', 'iadd') and rng.random() < .06:
            # itself
            arg, marg, how, wrong = box, list(model), 'itself', False
        trace.append((op, how, item, spoilt, idx, sl))
        adds = op in ('append', 'insert', 'extend', 'iadd', 'setitem',
                      'setslice')
        before = list(model)
        m = list(model)
        two = None
        if op == 'append':
            got = outcome(lambda: box.append(item))
            want = outcome(lambda: m.append(item))
        elif op == 'insert':
            got = outcome(lambda: box.insert(idx, item))
            want = outcome(lambda: m.insert(idx, item))
        elif op == 'extend':
            got = outcome(lambda: box.extend(arg))
            want = outcome(lambda: m.extend(marg))
        elif op == 'iadd':
            def iadd(x, y):
                z = x
                z += y
                if z is not x:
                    raise Violation('+= makes another list')
            got = outcome(lambda: iadd(box, arg))
            want = outcome(lambda: iadd(m, marg))
        elif op == 'setitem':
            got = outcome(lambda: box.__setitem__(idx, item))
            want = outcome(lambda: m.__setitem__(idx, item))
        elif op == 'setslice':
            got = outcome(lambda: box.__setitem__(sl, arg))
            want = outcome(lambda: m.__setitem__(sl, marg))
        elif op == 'notiter':
            x = rng.choice([None, 5, 1.5, object()])
            f = rng.choice(['extend', '__iadd__'])
            got = outcome(lambda: (getattr(box, f)(x), None)[1])
            want = outcome(lambda: (getattr(m, f)(x), None)[1])
        elif op == 'imul':
            k = rng.choice([-1, 0, 1, 2, 'x'])
            if n > 20 and k == 2:
                k = 0

            def imul(x):
                x *= k
                return list(x)
            got = outcome(lambda: imul(box))
            want = outcome(lambda: imul(m))
            # the operator may answer another list: judge what is kept
        elif op in ('pop', 'delitem', 'getitem'):
            f = {'pop': 'pop', 'delitem': '__delitem__',
                 'getitem': '__getitem__'}[op]
            got = outcome(lambda: getattr(box, f)(idx))
            want = outcome(lambda: getattr(m, f)(idx))
        elif op == 'poplast':
            got = outcome(lambda: box.pop())
            want = outcome(lambda: m.pop())
        elif op in ('delslice', 'getslice'):
            f = {'delslice': '__delitem__', 'getslice': '__getitem__'}[op]
            got = outcome(lambda: getattr(box, f)(sl))
            want = outcome(lambda: getattr(m, f)(sl))
            if got[1] is not None:
                got = (got[0], list(got[1]))
        elif op in ('remove', 'index', 'count', '__contains__'):
            got = outcome(lambda: getattr(box, op)(item))
            want = outcome(lambda: getattr(m, op)(item))
        elif op in ('reverse', 'clear', 'sort'):
            got = outcome(lambda: getattr(box, op)())
            want = outcome(lambda: getattr(m, op)())
            if want[0] != 'ok':
                m[:] = list(box)       # a failed sort may leave any order
                ctx.check(sorted(map(repr, m)) == sorted(map(repr, before)),
                          'sort lost items', lambda: repr(trace))
        elif op == 'sortkey':
            got = outcome(lambda: box.sort(key=repr, reverse=seq < .5))
            want = outcome(lambda: m.sort(key=repr, reverse=seq < .5))
        elif op == 'add':
            got = outcome(lambda: list(box + items))
            want = outcome(lambda: m + items)
        elif op == 'copy':
            f = rng.choice([copy.copy, copy.deepcopy] + [
                (lambda x, p=p: pickle.loads(pickle.dumps(x, p)))
                for p in range(pickle.HIGHEST_PROTOCOL + 1)])
            try:
                two = f(box)
            except Exception as e:
                raise Violation('copying or pickling a typed list: %s: %s' % (
                    type(e).__name__, e), repr(trace))
            ctx.check(type(two) is type(box), 'copy of another type',
                      lambda: repr(trace))
            state(two, m, kind, typ, trace)
            r = outcome(lambda: two.append(bad(rng)))
            ctx.check(r[0] == 'TypeError', 'a copied typed list takes any item'
                      ' type', lambda: repr(trace))
            two.append(good(rng))
            state(box, m, kind, typ, trace)
            two.pop()
            got = want = ('ok', None)
        elif op == 'settype':
            got = outcome(lambda: setattr(box, 'elementType', object))
            want = ('AttributeError', None)
        if adds and boom:
            ctx.check(got[0] in ('boom', 'TypeError'),
                      lambda: '%s of a failing iterator: %s' % (op, got[0]),
                      lambda: repr(trace))
            now = list(box)
            ctx.check(all(isinstance(x, typ) for x in now),
                      lambda: 'wrong type in %r after %s' % (now, op),
                      lambda: repr(trace))
            return box, now
        if adds and wrong:
            # refused, whatever else is wrong, with nothing changed
            ctx.check(got[0] != 'ok', lambda: 'TypedList of %s: %s of %r '
                      'accepted' % (kind, op, spoilt if op in (
                          'extend', 'iadd', 'setslice') else item),
                      lambda: repr(trace))
            if want[0] == 'ok':
                ctx.check(got[0] == 'TypeError', lambda: '%s refused with %s'
                          % (op, got[0]), lambda: repr(trace))
            ctx.count('typed.refused')
            ctx.seen('typed', kind, op, how, 'refused')
            return box, before
        ctx.check(got[0] == want[0], lambda: 'TypedList of %s: %s gives %s, a'
                  ' list %s' % (kind, op, got, want), lambda: repr(trace))
        if got[0] == 'ok' and op != 'imul':
            ctx.check(type(got[1]) is type(want[1]) and got[1] == want[1],
                      lambda: 'TypedList of %s: %s gives %r, a list %r' % (
                          kind, op, got[1], want[1]), lambda: repr(trace))
        ctx.count('typed.done')
        ctx.seen('typed', kind, op, how, got[0])
        return (two if two is not None and seq < .5 else box), m

    # --------------------------------------------------- lists of the library
    def library(rng, i):
        """The typed lists inside the policy and context objects"""
        from ndg.xacml.core.target import Target
        from ndg.xacml.core.subject import Subject
        from ndg.xacml.core.resource import Resource
        from ndg.xacml.core.match import SubjectMatch, ResourceMatch
        from ndg.xacml.core.attribute import Attribute
        from ndg.xacml.core.attributevalue import (
            AttributeValueClassFactory, AttributeValue)
        from ndg.xacml.core.context.request import Request
        from ndg.xacml.core.context.subject import Subject as CSubject
        from ndg.xacml.core.context.resource import Resource as CResource
        from ndg.xacml.core.context.result import Result
        from ndg.xacml.core.context.response import Response
        from ndg.xacml.core.policy import Policy
        from ndg.xacml.core.rule import Rule
        S = AttributeValueClassFactory()(
            'http://www.w3.org/2001/XMLSchema#string')
        places = [
            (lambda: Target().subjects, Subject),
            (lambda: Target().resources, Resource),
            (lambda: Subject().matches, SubjectMatch),
            (lambda: Resource().matches, ResourceMatch),
            (lambda: Request().subjects, CSubject),
            (lambda: Request().resources, CResource),
            (lambda: CSubject().attributes, Attribute),
            (lambda: CResource().attributes, Attribute),
            (lambda: Attribute().attributeValues, lambda: S('x')),
            (lambda: Response().results, Result),
            (lambda: Policy().rules, Rule),
        ]
        get, new = rng.choice(places)
        box = get()
        fresh = get()
        wrongs = [1, 'x', None, Target(), Policy(), S, [S('x')], Subject,
                  Request()]
        model = []
        for k in range(6):
            good = new()
            wrong = rng.choice(wrongs)
            how = rng.randint(0, 5)
            both = [good, wrong]
            rng.shuffle(both)
            if how == 0:
                r = outcome(lambda: box.append(wrong))
            elif how == 1:
                r = outcome(lambda: box.extend(iter(both)))
            elif how == 2:
                r = outcome(lambda: box.__iadd__(both))
            elif how == 3:
                r = outcome(lambda: box.insert(0, wrong))
            elif how == 4:
                r = outcome(lambda: box.__setitem__(slice(0, 9), both))
            else:
                # both refused: a plain list would say IndexError when empty
                r = outcome(lambda: box.__setitem__(0, wrong))
            ctx.check(r[0] in ('TypeError', 'IndexError'),
                      lambda: 'a list of %s takes %r' % (box.elementType,
                                                         wrong))
            if rng.random() < .5:
                box.append(good)
            else:
                box.extend(x for x in [good])
            model.append(good)
            ctx.check(len(box) == len(model) and all(
                a is b for a, b in zip(box, model)),
                lambda: 'list of %s holds %r' % (box.elementType, list(box)))
            ctx.count('library')
        ctx.check(len(fresh) == 0, 'another object\'s list changed')
        ctx.seen('library', repr(box.elementType))

    # -------------------------------------------------------- unique lists
    def uniq(rng, i):
        pool = [0, 1, 2, 3, True, 1.0, 'a', 'b', 'A', None, (1, 2), [1], [],
                Base(1), Derived(1), Base(2), b'a', Same(1), Same(2)] + ALIKE
        rng.shuffle(pool)
        pool = pool[:rng.randint(3, 10)]
        model = []

        def add(x, at=None):
            if x not in model:
                model.insert(len(model) if at is None else at, x)
        init = [rng.choice(pool) for _ in range(rng.randint(0, 5))]
        for x in init:
            add(x)
        box = utils.UniqList(wrap(rng, init, ctx)[0]) if init else \
            utils.UniqList()
        trace = [('init', init)]
        for k in range(rng.randint(5, 25)):
            items = [rng.choice(pool) for _ in range(rng.randint(0, 5))]
            op = rng.choice(['append', 'append', 'extend', 'extend', 'iadd',
                             'iadd', 'insert', 'pop', 'remove', 'reverse',
                             'clear', 'del', 'copy'])
            arg, how = wrap(rng, items, ctx)
            trace.append((op, how, items))
            if op == 'append':
                x = rng.choice(pool)
                trace.append(x)
                add(x)
                ctx.check(box.append(x) is None, 'append returns something')
            elif op == 'insert':
                x = rng.choice(pool)
                at = rng.randint(-len(model) - 1, len(model) + 1)
                trace.append((x, at))
                add(x, at)
                box.insert(at, x)
            elif op == 'extend':
                if rng.random() < .1:
                    arg, items = box, []
                for x in items:
                    add(x)
                ctx.check(box.extend(arg) is None, 'extend returns something')
            elif op == 'iadd':
                if rng.random() < .1:
                    arg, items = box, []
                for x in items:
                    add(x)
                old = box
                box += arg
                ctx.check(box is old, '+= makes another list')
            elif op == 'pop':
                if model:
                    at = rng.randint(-len(model), len(model) - 1)
                    ctx.check(box.pop(at) == model.pop(at), 'pop')
            elif op == 'remove':
                if model:
                    x = rng.choice(model)
                    model.remove(x)
                    box.remove(x)
            elif op == 'reverse':
                model.reverse()
                box.reverse()
            elif op == 'clear':
                if rng.random() < .3:
                    model = []
                    box.clear()
            elif op == 'del':
                s = slice(rng.randint(0, 3), rng.randint(0, 6),
                          rng.choice([1, 2]))
                del model[s]
                del box[s]
            else:
                f = rng.choice([copy.copy, copy.deepcopy, lambda x:
                                pickle.loads(pickle.dumps(x))])
                try:
                    box = f(box)
                except Exception as e:
                    raise Violation('copying a unique list: %r' % e)
                ctx.check(isinstance(box, utils.UniqList), 'copy type')
            got = list(box)
            ctx.check(len(got) == len(model) and got == model and
                      len(box) == len(model),
                      lambda: 'unique list: %r, expected %r' % (got, model),
                      lambda: repr(trace))
            ctx.count('uniq.done')
            ctx.seen('uniq', op, how, len(model))

    # ---------------------------------------------- restricted dictionaries
    def restricted(rng, i):
        names = rng.sample(['a', 'b', 'c', 'd', 'é', '', 'self', 'key'],
                           rng.randint(0, 5))
        pairs = [(k, rng.randint(0, 9)) for k in names]
        how = rng.randint(0, 2)
        if how == 0:
            box = utils.RestrictedKeyNamesDict(dict(pairs))
        elif how == 1:
            box = utils.RestrictedKeyNamesDict(iter(pairs))
        else:
            pairs = [(k, v) for k, v in pairs if k not in ('', 'self')]
            names = [k for k, _ in pairs]
            box = utils.RestrictedKeyNamesDict(**dict(pairs))
        twin = utils.RestrictedKeyNamesDict(zz=1)
        model = dict(pairs)
        unknown = ['x', 'y', 'A', 'bb', 0, None, ('a', 1), 'update']
        trace = [('init', pairs)]
        for step in range(rng.randint(5, 25)):
            wrong = rng.random() < .4
            ks = [rng.choice(names) for _ in range(rng.randint(0, 3))] \
                if names else []
            if wrong:
                ks.insert(rng.randint(0, len(ks)), rng.choice(unknown))
            k = rng.choice(unknown) if wrong or not names else \
                rng.choice(names)
            new = [(x, rng.randint(10, 99)) for x in ks]
            v = rng.randint(10, 99)
            op = rng.choice(['set', 'update', 'updatepairs', 'updatekw',
                             'both', 'ior', 'setdefault', 'del', 'pop', 'get',
                             'getitem', 'clear', 'popitem', 'in'])
            trace.append((op, k, v, new))
            bad = k not in names
            m = dict(model)
            if op == 'set':
                got = outcome(lambda: box.__setitem__(k, v))
                want = outcome(lambda: m.__setitem__(k, v))
            elif op in ('update', 'updatepairs', 'ior', 'updatekw', 'both'):
                bad = any(x not in names for x, _ in new)
                if op == 'updatekw':
                    new = [(x, y) for x, y in new if isinstance(x, str) and
                           x not in ('self', 'd')]
                    bad = any(x not in names for x, _ in new)
                    got = outcome(lambda: box.update({}, **dict(new)))
                elif op == 'both':
                    kw = {rng.choice(['x', 'A']): 1} if wrong else {}
                    bad = bad or bool(kw)
                    got = outcome(lambda: box.update(dict(new), **kw))
                elif op == 'update':
                    got = outcome(lambda: box.update(dict(new)))
                elif op == 'updatepairs':
                    got = outcome(lambda: box.update(iter(new)))
                else:
                    got = outcome(lambda: (box.__ior__(dict(new)), None)[1])
                want = outcome(lambda: m.update(new))
            elif op == 'setdefault':
                got = outcome(lambda: box.setdefault(k, v))
                want = outcome(lambda: m.setdefault(k, v))
            else:
                bad = False
                if op == 'del':
                    f = lambda d: d.__delitem__(k)          # noqa
                elif op == 'pop':
                    f = lambda d: d.pop(k, 'default')       # noqa
                elif op == 'get':
                    f = lambda d: (d.get(k), d.get(k, 7))   # noqa
                elif op == 'getitem':
                    f = lambda d: d[k]                      # noqa
                elif op == 'in':
                    f = lambda d: k in d                    # noqa
                elif op == 'popitem':
                    f = lambda d: d.popitem()               # noqa
                else:
                    f = (lambda d: d.clear()) if rng.random() < .3 else \
                        (lambda d: len(d))
                got = outcome(lambda: f(box))
                want = outcome(lambda: f(m))
            if bad:
                ctx.check(got[0] == 'KeyError', lambda: 'restricted dictionary'
                          ' with names %r: %s of %r, %r: %s' % (
                              names, op, k, new, got), lambda: repr(trace))
                ctx.count('restricted.refused')
                m = model
            else:
                ctx.check(got == want, lambda: 'restricted dictionary: %s of '
                          '%r, %r gives %r, expected %r' % (
                              op, k, new, got, want), lambda: repr(trace))
                ctx.count('restricted.done')
            model = m
            ctx.check(dict(box) == model and list(box.keys()) == list(
                model.keys()) and list(box.values()) == list(model.values())
                and list(box.items()) == list(model.items()) and
                len(box) == len(model),
                lambda: 'restricted dictionary: %r, expected %r' % (
                    dict(box), model), lambda: repr(trace))
            ctx.seen('restricted', op, bad, got[0])
        ctx.check(dict(twin) == {'zz': 1} and outcome(
            lambda: twin.__setitem__('a', 1))[0] == 'KeyError',
            'names of one dictionary leak into another')

    # -------------------------------------------------- vetted dictionaries
    def vetted(rng, i):
        raising = rng.random() < .5
        calls = []

        def keyf(k):
            calls.append(('k', k))
            if isinstance(k, str):
                return True
            if raising:
                raise Boom()
            return False

        def valf(v):
            calls.append(('v', v))
            if isinstance(v, int) and v >= 0:
                return True
            if raising:
                raise Boom()
            return rng.choice([False, None, 0, ''])
        ctx.check(outcome(lambda: utils.VettedDict(keyf))[0] == 'TypeError' and
                  outcome(lambda: utils.VettedDict(keyf, None))[0] ==
                  'TypeError' and outcome(lambda: utils.VettedDict(
                      'x', valf))[0] == 'TypeError' and outcome(
                      lambda: utils.VettedDict(keyf, valf, valf))[0] ==
                  'TypeError', 'a vetted dictionary without two filters')
        box = utils.VettedDict(keyf, valf)
        twin = utils.VettedDict(lambda k: True, lambda v: True)
        model = {}
        trace = []
        keys = ['a', 'b', 'c', '']
        badk = [1, None, b'a', ('a',)]
        badv = [-1, 'x', None, 1.5]
        for step in range(rng.randint(5, 25)):
            def pair():
                return (rng.choice(keys if rng.random() < .8 else badk),
                        rng.choice([0, 1, 2, 3] if rng.random() < .8 else
                                   badv))
            ok = lambda k, v: k in keys and v in (0, 1, 2, 3) and \
                isinstance(v, int)      # noqa
            k, v = pair()
            new = [pair() for _ in range(rng.randint(0, 3))]
            op = rng.choice(['set', 'set', 'set', 'update', 'updatepairs',
                             'setdefault', 'del', 'pop', 'popitem', 'get',
                             'getitem', 'in', 'clear'])
            trace.append((op, k, v, new))
            m = dict(model)
            tally = 'done'
            if op == 'set':
                got = outcome(lambda: box.__setitem__(k, v))
                if ok(k, v):
                    want = outcome(lambda: m.__setitem__(k, v))
                else:
                    want = ('boom' if raising else 'ok', None)
                    tally = 'raised' if raising else 'declined'
            elif op in ('update', 'updatepairs'):
                if op == 'update':
                    new = list(dict(new).items())
                    got = outcome(lambda: box.update(dict(new)))
                else:
                    got = outcome(lambda: box.update(iter(new)))
                want = ('ok', None)
                for a, b in new:
                    if ok(a, b):
                        m[a] = b
                    elif raising:
                        want = ('boom', None)
                        tally = 'raised'
                        break
                    else:
                        tally = 'declined'
            elif op == 'setdefault':
                got = outcome(lambda: box.setdefault(k, v))
                if k in m:
                    want = ('ok', m[k])
                elif ok(k, v):
                    want = ('ok', v)
                    m[k] = v
                elif raising:
                    want = ('boom', None)
                    tally = 'raised'
                else:
                    # nothing stored; what it answers is not specified
                    want = got
                    tally = 'declined'
            else:
                f = {'del': lambda d: d.__delitem__(k),
                     'pop': lambda d: d.pop(k, 'default'),
                     'get': lambda d: (d.get(k), d.get(k, 7)),
                     'getitem': lambda d: d[k],
                     'in': lambda d: (k in d, k not in d),
                     'popitem': lambda d: None,
                     'clear': (lambda d: d.clear()) if rng.random() < .3 else
                     (lambda d: len(d))}[op]
                got = outcome(lambda: f(box))
                want = outcome(lambda: f(m))
                if op == 'popitem':
                    got = outcome(lambda: box.popitem())
                    if not m:
                        want = ('KeyError', None)
                    else:
                        ctx.check(got[0] == 'ok' and got[1] in list(
                            m.items()), 'popitem', lambda: repr(trace))
                        m.pop(got[1][0], None)
                        want = got
            ctx.check(got == want, lambda: 'vetted dictionary (%s): %s of %r '
                      'gives %r, expected %r' % (
                          'raising' if raising else 'declining', op,
                          (k, v, new), got, want), lambda: repr(trace))
            model = m
            ctx.check(sorted(box.items()) == sorted(model.items()) and
                      sorted(box.keys()) == sorted(model) and
                      sorted(box) == sorted(model) and
                      sorted(box.values()) == sorted(model.values()) and
                      len(box) == len(model) and box == model,
                      lambda: 'vetted dictionary: %r, expected %r' % (
                          dict(box), model), lambda: repr(trace))
            ctx.count('vetted.' + tally)
            ctx.seen('vetted', op, tally, got[0])
        ctx.check(len(twin) == 0, 'content of one dictionary leaks')

    ctx.group('typed', 18000, 108000, typed_list)
    ctx.group('library', 6000, 36000, library)
    ctx.group('uniq', 9000, 54000, uniq)
    ctx.group('restricted', 9000, 54000, restricted)
    ctx.group('vetted', 9000, 54000, vetted)


OPS = ['append', 'append', 'insert', 'extend', 'extend', 'iadd', 'iadd',
       'setitem', 'setslice', 'setslice', 'notiter', 'imul', 'pop', 'delitem',
       'getitem', 'poplast', 'delslice', 'getslice', 'remove', 'index',
       'count', '__contains__', 'reverse', 'clear', 'sort', 'sortkey', 'add',
       'copy', 'settype']
