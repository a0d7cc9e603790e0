"""Unsupported functions and algorithms are refused when a policy is loaded"""
import os

from vp import emit, gen, model, mon, sut
from vp.gen import F1, F2, PROBE
from vp.model import D, I, N, P

META = {
    'rule': 'one evaluation = one lookup, assignment, registration or load of'
            ' a policy for one identifier, judged against the list of what is'
            ' implemented; distinct = distinct (identifier, place, earlier'
            ' outcome)',
    'assumptions': [
        'the list of implemented identifiers is the one of this repository at'
        ' the pinned commit; a newly implemented standard function counts as'
        ' implemented if its class names that very identifier and it is not'
        ' one of the classes of another identifier'],
    'floors': {'unimplemented.function': 800, 'unimplemented.alg': 100,
               'near': 800, 'implemented': 1000, 'load.refused': 500,
               'load.accepted': 200, 'again': 500, 'custom.refused': 200,
               'custom.accepted': 10},
}
XF = sut.functionMap
ALL_TYPES = ('string', 'boolean', 'integer', 'double', 'time', 'date',
             'dateTime', 'anyURI', 'hexBinary', 'base64Binary',
             'dayTimeDuration', 'yearMonthDuration', 'x500Name', 'rfc822Name')


def standard():
    """Every function identifier of XACML 2.0, appendix A.3 and C"""
    out = []
    for t in ALL_TYPES:
        out += [F1 + t + s for s in (
            '-equal', '-one-and-only', '-bag-size', '-is-in', '-bag',
            '-intersection', '-at-least-one-member-of', '-union', '-subset',
            '-set-equals')]
    for t in ('integer', 'double', 'string', 'time', 'date', 'dateTime'):
        out += [F1 + t + s for s in (
            '-greater-than', '-greater-than-or-equal', '-less-than',
            '-less-than-or-equal')]
    for t in ('integer', 'double'):
        out += [F1 + t + s for s in ('-add', '-subtract', '-multiply',
                                     '-divide', '-abs')]
    out += [F1 + s for s in (
        'integer-mod', 'round', 'floor', 'string-normalize-space',
        'string-normalize-to-lower-case', 'double-to-integer',
        'integer-to-double', 'or', 'and', 'n-of', 'not',
        'dateTime-add-dayTimeDuration', 'dateTime-add-yearMonthDuration',
        'dateTime-subtract-dayTimeDuration',
        'dateTime-subtract-yearMonthDuration', 'date-add-yearMonthDuration',
        'date-subtract-yearMonthDuration', 'any-of', 'all-of', 'any-of-any',
        'all-of-any', 'any-of-all', 'all-of-all', 'map', 'x500Name-match',
        'rfc822Name-match', 'string-regexp-match', 'xpath-node-count',
        'xpath-node-equal', 'xpath-node-match')]
    out += [F2 + s for s in (
        'time-in-range', 'string-concatenate', 'url-string-concatenate',
        'anyURI-regexp-match', 'ipAddress-regexp-match',
        'dnsName-regexp-match', 'rfc822Name-regexp-match',
        'x500Name-regexp-match')]
    return out


STANDARD = standard()
IMPLEMENTED = set(model.FUNCS) | {F1 + 'x500Name-match',
                                  F1 + 'rfc822Name-match'}
# of no data type the functions below could work with at all: left open
OPEN = {F1 + 'base64Binary' + s for s in (
    '-equal', '-one-and-only', '-bag', '-at-least-one-member-of')}
MISSING = [f for f in STANDARD if f not in IMPLEMENTED and f not in OPEN]
KNOWN = {F1 + 'xpath-node-equal': 'xpath-node-equal',
         F1 + 'xpath-node-match': 'xpath-node-match'}
A10 = 'urn:oasis:names:tc:xacml:1.0:'
A11 = 'urn:oasis:names:tc:xacml:1.1:'
RULE_ALGS = [model.RALG + a for a in gen.RALGS]
POLICY_ALGS = [model.PALG + a for a in gen.RALGS]
OTHER_ALGS = [
    A11 + 'rule-combining-algorithm:ordered-deny-overrides',
    A11 + 'rule-combining-algorithm:ordered-permit-overrides',
    A11 + 'policy-combining-algorithm:ordered-deny-overrides',
    A11 + 'policy-combining-algorithm:ordered-permit-overrides',
    A10 + 'policy-combining-algorithm:only-one-applicable',
    A10 + 'rule-combining-algorithm:only-one-applicable',
    'urn:oasis:names:tc:xacml:3.0:rule-combining-algorithm:deny-overrides',
    'urn:oasis:names:tc:xacml:3.0:rule-combining-algorithm:'
    'deny-unless-permit', A11 + 'rule-combining-algorithm:deny-overrides',
    'deny-overrides', '', ' ', 'urn:x', A10, A10 + 'rule-combining-algorithm:']


def near_algs():
    out = []
    for a in RULE_ALGS + POLICY_ALGS:
        out += [a + ' ', ' ' + a, a.upper(), a.lower().replace('-o', '_o'),
                a[:-1], a + 's', a + ':', a.replace('urn:', 'URN:'),
                a.title()]
    return [a for a in out if a not in RULE_ALGS and a not in POLICY_ALGS]


NEAR_ALGS = near_algs()


def near(rng):
    """An identifier that is almost one of an implemented function"""
    f = rng.choice(sorted(IMPLEMENTED))
    ns, name = f.rsplit(':', 1)
    ns += ':'
    k = rng.randint(0, 13)
    other = {F1: F2, F2: F1}[ns]
    out = [
        lambda: f + ' ', lambda: ' ' + f, lambda: f.upper(),
        lambda: ns.upper() + name, lambda: ns + name[:-1],
        lambda: ns + name + rng.choice(['s', '-', 'x', ':', '2', '\n']),
        lambda: ns + rng.choice('xyz') + name,
        lambda: ns + name.replace('-', '_') if '-' in name else ns + name + '_',
        lambda: ns + name[:1].swapcase() + name[1:],
        lambda: ns + name.upper(),
        lambda: ns + 'foo:' + name,
        lambda: other + name,
        lambda: name,
        lambda: ns.replace('xacml', 'xacmlx') + name,
    ][k]()
    if out in IMPLEMENTED or out in OPEN:
        return f + '-no-such'
    return out


def junk(rng):
    return rng.choice([
        '', ' ', ':', 'x', F1, F2, F1[:-1], F1 + '-equal', F1 + '-', F1 + 'x',
        F1 + 'equal', F1 + 'match', F1 + '__init__', F2 + '__init__',
        F1 + '..equal', F1 + 'os', F1 + 'url-string-equal', F1 + 'or-equal',
        F1 + 'xpath-node-bag', F2 + 'xpath-node-concatenate',
        F2 + 'integer-concatenate', F2 + 'integer-regexp-match',
        F1 + 'string-match', F1 + 'anyURI-match', F1 + 'ipAddress-equal',
        F1 + 'dnsName-bag', F1 + 'unknown-equal', F1 + 'unknown-one-and-only',
        F1 + 'unknown-bag', 'urn:oasis:names:tc:xacml:3.0:function:'
        'string-equal', 'urn:oasis:names:tc:xacml:3.0:function:'
        'string-starts-with', 'http://x/y', 'ndg.xacml.core.functions.v1.and',
        F1 + 'string-equal?', F1 + 'string-equal#x', F1 + 'string equal',
        F1 + u'string\u2010equal', '\u00e9', 'urn:unregistered:function'])


def run(ctx):
    sut.register_all()

    def resolves(f):
        """Class the map gives, or None when it refuses"""
        try:
            c = XF.get(f)
        except Exception:
            return None
        if c is NotImplemented or c is None:
            return None
        return c

    def doc(f, place):
        val = {'k': 'val', 'type': 'string', 'value': 'x'}
        src = {'k': 'desig', 'cat': 'Subject', 'id': 'x', 'type': 'string',
               'mbp': False}
        match = {'subjects': [[{'fn': f, 'value': val, 'src': src}]]}
        rule = {'id': 'r', 'effect': P, 'target': None, 'cond': None}
        p = {'k': 'Policy', 'id': 'p', 'alg': 'deny-overrides',
             'target': None, 'rules': [dict(rule, id='q'), rule]}
        e = {'k': 'apply', 'fn': f, 'args': [val, val]}
        if place == 'target':
            p['target'] = match
        elif place == 'ruletarget':
            rule['target'] = match
        elif place == 'cond':
            rule['cond'] = e
        elif place == 'nested':
            rule['cond'] = {'k': 'apply', 'fn': F1 + 'and', 'args': [
                {'k': 'apply', 'fn': F1 + 'not', 'args': [e]}]}
        elif place in ('set', 'settarget'):
            if place == 'set':
                rule['cond'] = e
            p = {'k': 'PolicySet', 'id': 's', 'alg': 'deny-overrides',
                 'target': match if place == 'settarget' else None,
                 'children': [p]}
        return p
    PLACES = ('target', 'ruletarget', 'cond', 'nested', 'set', 'settarget')

    def load(p):
        try:
            return sut.load(sut.text(p)), None
        except Exception as e:
            return None, e

    def objects(f, want, mech):
        """Apply and match objects refuse or take the identifier"""
        from ndg.xacml.core.match import SubjectMatch, ResourceMatch
        for cls, name in ((sut.Apply, 'functionId'), (SubjectMatch, 'matchId'),
                          (ResourceMatch, 'matchId')):
            o = cls()
            try:
                setattr(o, name, f)
                got = True
            except Exception:
                got = False
            if got and new(f, want):
                continue
            ctx.check(got == want, lambda: '%s takes %r: %r' % (
                cls.__name__, f, got), mech=mech)
            if got:
                ctx.check(o.function is not None and
                          o.function.FUNCTION_NS == f, lambda:
                          '%s with %r has the function %r' % (
                              cls.__name__, f, o.function), mech=mech)
            else:
                ctx.check(o.function is None, 'a function is set although it '
                          'was refused', mech=mech)

    def judge(f, want, how, rng, mech=None):
        for turn in range(rng.choice([1, 2, 3])):
            k = rng.randint(0, 3)
            if k == 0:
                c = resolves(f)
                ctx.check((c is not None) == want or new(f, want), lambda: 'looking up %r '
                          'gives %r' % (f, c), mech=mech)
                if c is not None:
                    ctx.check(c.FUNCTION_NS == f, lambda: '%r resolves to the '
                              'function %r' % (f, c.FUNCTION_NS), mech=mech)
            elif k == 1:
                try:
                    c = XF[f]
                    got = c is not NotImplemented
                except Exception:
                    got = False
                ctx.check(got == want or new(f, want), lambda: 'the map %s %r' % (
                    'gives' if got else 'refuses', f), mech=mech)
            elif k == 2:
                objects(f, want, mech)
            else:
                place = rng.choice(PLACES)
                p = doc(f, place)
                if '\n' in f or not f.strip():
                    continue
                o, exc = load(p)
                if want and resolves(f) is not None and o is None:
                    ctx.fail('a policy with %r is refused: %r' % (f, exc))
                ctx.check((o is not None) == want or new(f, want), lambda:
                          'a policy with %r '
                          '(%s) %s' % (f, place, 'loads' if o else
                                       'is refused: %r' % exc),
                          lambda: mon.describe(p, None), mech=mech)
                ctx.count('load.' + ('accepted' if want else 'refused'))
            if turn:
                ctx.count('again')
            ctx.seen(f, k, turn)
        ctx.count(how)

    def new(f, want):
        return not want and newly_implemented(f, resolves(f))

    def newly_implemented(f, c):
        """A standard function somebody implemented since: its own class"""
        if c is None or f not in STANDARD or f in KNOWN:
            return False
        if getattr(c, 'FUNCTION_NS', None) != f:
            return False
        bases = set(c.__mro__) - {object, sut.AbstractFunction}
        for g in IMPLEMENTED:
            d = resolves(g)
            if d is not None and bases & (set(d.__mro__) - {
                    object, sut.AbstractFunction}):
                return False
        return True

    def history(rng, i):
        """Any order of lookups, assignments and loads"""
        for _ in range(20):
            k = rng.random()
            if k < .35:
                f = rng.choice(MISSING)
                judge(f, False, 'unimplemented.function', rng, KNOWN.get(f))
            elif k < .6:
                judge(near(rng), False, 'near', rng)
            elif k < .7:
                judge(junk(rng), False, 'near', rng)
            else:
                judge(rng.choice(sorted(IMPLEMENTED)), True, 'implemented',
                      rng)
    ctx.group('history', 5760, 34560, history)

    def classes(rng, i):
        """No two identifiers share a class, repeated lookups give the same
        one"""
        got = {}
        fns = sorted(IMPLEMENTED)
        rng.shuffle(fns)
        for f in fns:
            c = XF.get(f)
            ctx.check(c not in got, lambda: '%r and %r have one class' % (
                f, got.get(c)))
            got[c] = f
            for g in (XF.get(f), XF[f], XF.get(f, None)):
                ctx.check(g is c, 'repeated lookup gives another class')
            ctx.check(f in XF and c.FUNCTION_NS == f and
                      issubclass(c, sut.AbstractFunction), f)
            ctx.count('implemented')
    ctx.group('classes', 16, 160, classes)

    def algorithms(rng, i):
        bad = OTHER_ALGS + NEAR_ALGS
        for kind, good, wrong in (
                ('Policy', RULE_ALGS, POLICY_ALGS),
                ('PolicySet', POLICY_ALGS, RULE_ALGS)):
            attr = 'ruleCombiningAlgId' if kind == 'Policy' else \
                'policyCombiningAlgId'
            cls = sut.Policy if kind == 'Policy' else sut.PolicySet
            seen = {}
            for a in good + rng.sample(bad + wrong, len(bad + wrong)):
                want = a in good
                for turn in range(2):
                    o = cls()
                    try:
                        setattr(o, attr, a)
                        got = True
                    except Exception:
                        got = False
                    ctx.check(got == want, lambda: '%s takes the algorithm '
                              '%r: %s' % (kind, a, got))
                    alg = getattr(o, attr[:-2])
                    ctx.check((alg is not None) == want, 'algorithm object')
                    if want:
                        seen.setdefault(a, type(alg))
                        ctx.check(seen[a] is type(alg), 'algorithm changes')
                if not a.strip():
                    continue
                p = {'k': kind, 'id': 'x', 'alg': a, 'target': None,
                     'rules': [], 'children': []}
                q = emit.policy_node(p)
                q.attrib['RuleCombiningAlgId' if kind == 'Policy' else
                         'PolicyCombiningAlgId'] = a
                docs = [q]
                docs.append(emit.Node('PolicySet', {
                    'PolicySetId': 'outer', 'PolicyCombiningAlgId':
                    POLICY_ALGS[0]}, [emit.Node('Target'), q.copy()]))
                for d in docs:
                    try:
                        sut.load(emit.plain(d))
                        got = True
                    except Exception:
                        got = False
                    ctx.check(got == want, lambda: 'a %s with the algorithm '
                              '%r %s' % (kind, a, 'loads' if got else
                                         'is refused'))
                    ctx.count('load.' + ('accepted' if want else 'refused'))
                ctx.count('unimplemented.alg' if not want else 'implemented')
                ctx.seen(kind, a)
            ctx.check(len(set(seen.values())) == len(good),
                      'two algorithms have one class')
    ctx.group('algorithms', 8, 64, algorithms)

    def custom(rng, i):
        """A custom function cannot take a standard identifier, and what was
        there stays"""
        def factory(identifier):
            class Mine(sut.AbstractFunction):
                FUNCTION_NS = identifier

                def evaluate(self, *inputs):
                    return True
            return Mine
        fns = rng.sample(STANDARD, 20)
        for f in fns:
            if f == F2 + 'url-string-concatenate':
                continue
            before = resolves(f) if rng.random() < .5 else None
            # by name first: load_custom_function with a path
            for kw in ({'function_factory': factory},
                       {'function_factory_path':
                        'ndg.xacml.core.functions.v1.and'
                        '.FunctionClassFactory'}):
                try:
                    XF.load_custom_function(f, **kw)
                    got = True
                except Exception:
                    got = False
                ctx.check(not got, lambda: 'a custom function was registered '
                          'as %r' % f)
                ctx.count('custom.refused')
            c = resolves(f)
            if before is not None:
                ctx.check(c is before, 'the standard function changed')
            if f not in KNOWN and f not in OPEN and c is not None and \
                    not newly_implemented(f, c):
                ctx.check(f in IMPLEMENTED, lambda: '%r resolves to %r after '
                          'a refused registration' % (f, c))
        f = 'urn:verif:custom:%d:%d' % (i, rng.randint(0, 10 ** 6))
        ctx.check(resolves(f) is None, 'unregistered function found')
        o, exc = load(doc(f, 'cond'))
        ctx.check(o is None, 'a policy with an unregistered function loads')
        XF.load_custom_function(f, function_factory=factory)
        ctx.check(resolves(f).FUNCTION_NS == f, 'registered function missing')
        o, exc = load(doc(f, 'cond'))
        ctx.check(o is not None, lambda: 'a policy with a registered function '
                  'is refused: %r' % exc)
        ctx.count('custom.accepted')
    ctx.group('custom', 960, 5760, custom)
