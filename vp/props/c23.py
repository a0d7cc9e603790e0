"""Property setters refuse what is not theirs and take what is"""
import copy
import datetime as dt

from vp import gen, model, mon, sut
from vp.model import F1, F2, PROBE, TYPES

META = {
    'rule': 'one evaluation = one assignment (or construction) whose outcome'
            ' and effect on every readable property of the object, of all'
            ' other objects of the history and of the decisions that depend'
            ' on it are compared with the model; distinct = distinct (class,'
            ' property, kind of value, prior state, outcome)',
    'assumptions': [
        'a string is any str, a boolean only True and False; None is of no'
        ' type: properties cannot be emptied by assigning it',
        'the resource content, status detail and parsed element properties'
        ' take anything, and the container of attribute values any typed list'
        ' of attribute values (lists of other types are not tried)',
        'the type of the FulfillOn property of an obligation is left open:'
        ' obligations are not supported'],
    'floors': {'set.done': 20000, 'set.refused': 20000, 'unresolved': 400,
               'edit.done': 3000, 'edit.refused': 3000, 'redit.done': 1500,
               'redit.refused': 1500, 'fresh': 1000, 'pdp': 300, 'again': 250,
               'loaded': 200, 'edit.effect': 100},
}


class S(str):
    pass


class Other:
    value = 'Permit'


def canon(name, v):
    """Readable value of a property, for comparison"""
    if isinstance(v, (str, bool, int, float, dt.datetime, dt.timedelta,
                      type(None))):
        return (type(v).__name__, v)
    if name == 'function':
        return ('fn', type(v).__name__, getattr(v, 'FUNCTION_NS', None))
    if name in ('ruleCombiningAlg', 'policyCombiningAlg'):
        return ('alg', type(v).__name__)
    if isinstance(v, sut.TypedList):
        return ('list', id(v), v.elementType, [id(i) for i in v])
    return ('obj', id(v))


def properties(cls):
    return sorted(n for n in dir(cls) if isinstance(getattr(cls, n), property))


def snapshot(o):
    out = {}
    for n in properties(type(o)):
        try:
            out[n] = canon(n, getattr(o, n))
        except Exception as e:
            out[n] = ('raises', type(e).__name__)
    return out


def fresh_shape(o):
    """The state of a new object, without identities"""
    out = {}
    for n, v in snapshot(o).items():
        out[n] = v if v[0] not in ('obj', 'list') else (v[0], type(
            getattr(o, n)).__name__, len(getattr(o, n)) if v[0] == 'list'
            else None)
    return out


def run(ctx):
    sut.register_all()
    from ndg.xacml.core import (action as A, environment as E, match as M,
                                obligation as O, resource as R, subject as U)
    from ndg.xacml.core.policydefaults import PolicyDefaults
    from ndg.xacml.core.context import exceptions as XE
    from ndg.xacml.core.context import result as X
    from ndg.xacml.core.context.handlerinterface import CtxHandlerInterface
    from ndg.xacml.core.context.pipinterface import PIPInterface
    from ndg.xacml.core.context.pdpinterface import PDPInterface
    from ndg.xacml.core.expression import Expression
    from ndg.xacml.core.functions import FunctionMap
    from ndg.xacml.core.policy_combining_alg import (
        PolicyCombiningAlgClassFactory)
    from ndg.xacml.core.rule_combining_alg import RuleCombiningAlgClassFactory
    from ndg.xacml.core.attributevalue import AttributeValue
    from ndg.xacml.utils.xpath_selector import XPathSelectorInterface
    RF, PF = RuleCombiningAlgClassFactory(), PolicyCombiningAlgClassFactory()

    class Pip(PIPInterface):
        def attributeQuery(self, context, attributeDesignator):
            return []

    class Handler(sut.CtxHandlerBase):
        def handlePEPRequest(self, pepRequest):
            pass

        def pipQuery(self, request, designator):
            return None

    ids = sorted(model.FUNCS) + [PROBE + n for n in sorted(model.PROBES)]
    BAD_FN = [F1 + 'string-no-such', F2 + 'x', 'urn:x', '', ' ', 'string-equal',
              F1 + 'integer-add', F1 + 'string-is-in', F1 + 'nosuch-equal',
              F1 + 'or', F2 + 'time-in-range', F1 + 'string-equal ', F1, F2,
              F2 + 'string-equal', F1 + 'string-Equal', PROBE + 'unknown']
    RA = [model.RALG + a for a in gen.RALGS]
    PA = [model.PALG + a for a in gen.RALGS]
    BAD_ALG = ['', 'deny-overrides', RA[0] + ' ', RA[0].upper(), 'urn:x',
               'urn:oasis:names:tc:xacml:1.1:rule-combining-algorithm:ordered-'
               'deny-overrides', 'urn:oasis:names:tc:xacml:1.1:policy-'
               'combining-algorithm:ordered-deny-overrides',
               'urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:'
               'only-one-applicable']
    STR = gen.STRINGS + ['', ' ', '\n', 'Permit', S('sub'), S('')]
    types = sorted(TYPES)
    values = {'integer': [0, 1, -7, 10 ** 30], 'hexBinary': [0, 255],
              'boolean': [True, False], 'double': [0.0, -1.5, 1e300],
              'date': [dt.datetime(2020, 1, 1)],
              'time': [dt.datetime(1900, 1, 1, 5)],
              'dateTime': [dt.datetime(1999, 2, 3, 4, 5)],
              'dayTimeDuration': [dt.timedelta(1)],
              'yearMonthDuration': [dt.timedelta(0)]}

    def status():
        return X.Status.createInitialised(message='m')

    def selector():
        e = sut.ElementTree.Element('a')
        return sut.EtreeXPathSelector(e)

    # kinds: name -> (right values, predicate)
    KINDS = {
        'str': (lambda g: g.choice(STR), lambda v: isinstance(v, str)),
        'bool': (lambda g: g.random() < .5, lambda v: v is True or v is False),
        'any': (lambda g: g.choice([1, None, 'x', object()]),
                lambda v: True),
        'fn': (lambda g: g.choice(ids), lambda v: isinstance(v, str)),
        'ralg': (lambda g: g.choice(RA), lambda v: isinstance(v, str)),
        'palg': (lambda g: g.choice(PA), lambda v: isinstance(v, str)),
        'code': (lambda g: g.choice(X.StatusCode.CODES),
                 lambda v: isinstance(v, str)),
        'decval': (lambda g: g.choice(X.Decision.TYPES + (
            X.Decision.PERMIT, X.Decision('Deny'))),
            lambda v: isinstance(v, (str, X.Decision))),
        'effval': (lambda g: g.choice(('Permit', 'Deny', sut.Effect.DENY)),
                   lambda v: isinstance(v, (str, sut.Effect))),
        'target': (lambda g: sut.Target(),
                   lambda v: isinstance(v, sut.Target)),
        'defaults': (lambda g: PolicyDefaults(),
                     lambda v: isinstance(v, PolicyDefaults)),
        'condition': (lambda g: sut.Condition(),
                      lambda v: isinstance(v, sut.Condition)),
        'effect': (lambda g: g.choice([sut.Effect.PERMIT, sut.Effect.DENY,
                                       sut.Effect('Permit')]),
                   lambda v: isinstance(v, sut.Effect)),
        'expr': (lambda g: g.choice([
            sut.Apply, sut.AttributeSelector, sut.SubjectAttributeDesignator,
            CLS['string'], CLS['boolean']])(),
            lambda v: isinstance(v, Expression)),
        'value': (lambda g: CLS[g.choice(types)](),
                  lambda v: isinstance(v, AttributeValue)),
        'desig': (lambda g: sut.DESIGNATORS[g.choice(gen.CATS)](),
                  lambda v: isinstance(v, sut.AttributeDesignator)),
        'sel': (lambda g: sut.AttributeSelector(),
                lambda v: isinstance(v, sut.AttributeSelector)),
        'fmap': (lambda g: g.choice([FunctionMap(), sut.functionMap]),
                 lambda v: isinstance(v, FunctionMap)),
        'values': (lambda g: sut.TypedList(g.choice([
            AttributeValue, CLS['string']]), [CLS['string'](value='x')][
                :g.randint(0, 1)]), lambda v: isinstance(v, sut.TypedList)),
        'decision': (lambda g: g.choice([
            X.Decision.PERMIT, X.Decision.DENY, X.Decision('Permit'),
            X.Decision()]), lambda v: isinstance(v, X.Decision)),
        'status': (lambda g: status(), lambda v: isinstance(v, X.Status)),
        'scode': (lambda g: X.StatusCode(),
                  lambda v: isinstance(v, X.StatusCode)),
        'obligation': (lambda g: O.Obligation(),
                       lambda v: isinstance(v, O.Obligation)),
        'action': (lambda g: sut.Action(),
                   lambda v: isinstance(v, sut.Action)),
        'env': (lambda g: sut.Environment(),
                lambda v: isinstance(v, sut.Environment)),
        'handler': (lambda g: Handler(),
                    lambda v: isinstance(v, CtxHandlerInterface)),
        'selector': (lambda g: selector(),
                     lambda v: isinstance(v, XPathSelectorInterface)),
        'policy': (lambda g: g.choice([sut.Policy, sut.PolicySet])(),
                   lambda v: isinstance(v, sut.PolicyBase)),
        'response': (lambda g: sut.Response(),
                     lambda v: isinstance(v, sut.Response)),
        'pip': (lambda g: Pip(), lambda v: isinstance(v, PIPInterface)),
        'pdp': (lambda g: sut.PDP(), lambda v: isinstance(v, PDPInterface)),
        'rfactory': (lambda g: RuleCombiningAlgClassFactory(), lambda v:
                     isinstance(v, RuleCombiningAlgClassFactory)),
        'pfactory': (lambda g: PolicyCombiningAlgClassFactory(), lambda v:
                     isinstance(v, PolicyCombiningAlgClassFactory)),
    }
    CLS = sut.CLASSES
    for t in types:
        cls = CLS[t].TYPE
        if isinstance(cls, type):
            KINDS['v.' + t] = (
                lambda g, t=t: g.choice(values.get(t, STR)),
                lambda v, cls=cls: isinstance(v, cls))
    base = {'xmlns': 'str'}
    mt = dict(base, attributeValue='value', attributeDesignator='desig',
              attributeSelector='sel', matchId='fn', loadFunctionFromId='bool',
              functionMap='fmap')
    ds = dict(attributeId='str', issuer='str', mustBePresent='bool',
              dataType='str')
    SPEC = [
        (sut.Policy, dict(
            base, policyId='str', version='str', ruleCombiningAlgId='ralg',
            description='str', policyDefaults='defaults', target='target',
            ruleCombiningAlgFactory='rfactory')),
        (sut.PolicySet, dict(
            base, policySetId='str', version='str',
            policyCombiningAlgId='palg', description='str',
            policySetDefaults='defaults', target='target',
            policyCombiningAlgFactory='pfactory')),
        (sut.Rule, dict(base, id='str', effect='effect', target='target',
                        condition='condition', description='str')),
        (sut.Condition, dict(base, expression='expr')),
        (PolicyDefaults, dict(base, xpathVersion='str')),
        (M.SubjectMatch, mt), (M.ResourceMatch, mt), (M.ActionMatch, mt),
        (M.EnvironmentMatch, mt),
        (sut.Apply, dict(base, functionId='fn', dataType='str',
                         loadFunctionFromId='bool', functionMap='fmap')),
        (sut.Attribute, dict(base, attributeId='str', dataType='str',
                             issuer='str', attributeValues='values')),
        (sut.SubjectAttributeDesignator, dict(base, **ds)),
        (sut.ResourceAttributeDesignator, dict(base, **ds)),
        (sut.ActionAttributeDesignator, dict(base, **ds)),
        (sut.EnvironmentAttributeDesignator, dict(base, **ds)),
        (sut.AttributeSelector, dict(base, requestContextPath='str',
                                     mustBePresent='bool', dataType='str')),
        (X.Result, dict(base, resourceId='str', decision='decision',
                        status='status', obligations='obligation')),
        (X.Status, dict(base, statusCode='scode', statusMessage='str',
                        statusDetail='any')),
        (X.StatusCode, dict(base, value='code')),
        (X.Decision, dict(value='decval')),
        (sut.Effect, dict(value='effval')),
        (O.Obligation, dict(base, obligationId='str')), (sut.Target, base),
        (sut.Request, dict(base, action='action', environment='env',
                           ctxHandler='handler',
                           attributeSelector='selector')),
        (sut.Subject, dict(base, subjectCategory='str')),
        (sut.Resource, dict(base)), (sut.Action, dict(base)),
        (sut.Environment, dict(base)), (sut.Response, dict(base)),
        (U.Subject, base), (A.Action, base), (R.Resource, base),
        (E.Environment, base),
        (sut.PDP, dict(policy='policy')),
        (Handler, dict(pip='pip', pdp='pdp')),
        (XE.XacmlContextError, dict(response='response')),
        (XE.MissingAttributeError, dict(response='response')),
    ] + [(CLS[t], dict(base, value='v.' + t, dataType='str'))
         for t in types if 'v.' + t in KINDS]
    spec = dict(SPEC)

    def make(cls):
        return cls('Permit') if cls is sut.Effect else cls()
    new_shape = dict((cls, fresh_shape(make(cls))) for cls, _ in SPEC)
    # read-only ones must refuse too
    READ_ONLY = ('function', 'ruleCombiningAlg', 'policyCombiningAlg', 'ident',
                 'isValidXmlns')
    ALLOWED = {'policyId': ('ident',), 'policySetId': ('ident',),
               'ruleCombiningAlgId': ('ruleCombiningAlg',),
               'policyCombiningAlgId': ('policyCombiningAlg',),
               'matchId': ('function',), 'functionId': ('function',),
               'attributeDesignator': ('attributeSelector',),
               'attributeSelector': ('attributeDesignator',),
               'xmlns': ('isValidXmlns',)}
    JUNK = [None, 0, 1, -1, True, False, 1.5, b'x', b'', 'x', '', ['x'], [],
            ('x',), (), {'value': 'x'}, {}, {'x'}, object(), str, sut.Request,
            sut.Policy, NotImplemented, Ellipsis, lambda: 'x', Other(), 'Permit',
            dt.datetime(2020, 1, 1), dt.date(2020, 1, 1), dt.time(1),
            dt.timedelta(1), 1j, iter('x'), range(1), bytearray(b'x'),
            X.Decision.PERMIT, sut.Effect.PERMIT, X.Decision, sut.Effect,
            sut.TypedList(str, ['x']), sut.functionMap, {'k': None},
            PolicyDefaults, sut.Target, RuleCombiningAlgClassFactory,
            PolicyCombiningAlgClassFactory, RF, PF]

    def kind(v):
        return type(v).__name__ if not isinstance(v, type) else 'class'

    def invalid(name, k, v, o):
        """Right type, but a value that names nothing (-> refused)"""
        if k == 'fn':
            lf = o.loadFunctionFromId
            return lf and v not in ids
        if k == 'ralg':
            return v not in RA
        if k == 'palg':
            return v not in PA
        if k == 'code':
            return v not in X.StatusCode.CODES
        if k == 'decval':
            return str(v) not in X.Decision.TYPES
        if k == 'effval':
            return str(v) not in ('Permit', 'Deny')
        return False

    def objects(rng, i):
        classes = rng.sample([c for c, _ in SPEC], 5)
        if i % 5 == 0:
            classes = rng.sample([c for c, x in SPEC if 'functionMap' in x],
                                 3)
        pool = []
        for c in classes:
            pool += [make(c) for _ in range(2)]
        fmaps = {}
        trace = []
        extra = []
        for step in range(60):
            o = rng.choice(pool)
            cls = type(o)
            props = spec[cls]
            before = [(x, snapshot(x)) for x in pool]
            state = dict(before[[x is o for x in pool].index(True)][1])
            x = rng.random()
            ro = [n for n in state if n in READ_ONLY and
                  state[n][0] != 'raises']
            if x < .06 and ro:
                name, k = rng.choice(ro), None
                v = rng.choice(JUNK + [getattr(o, name)])
                good = False
            elif x < .1 and any(n in props for n in ('matchId', 'functionId')):
                # the function for the identifier, from a map
                name, k = 'setFunctionFromMap', None
                v = rng.choice([sut.functionMap, FunctionMap()])
                idn = 'matchId' if 'matchId' in props else 'functionId'
                cur = getattr(o, idn)
                good = cur in model.FUNCS or (v is sut.functionMap and
                                              cur in ids)
                try:
                    o.setFunctionFromMap(v)
                    done = True
                except Exception:
                    done = False
                ctx.check(done == good, lambda: 'setFunctionFromMap with %s %r'
                          ': %s' % (idn, cur, done), lambda: mon.show(trace))
                for x_, b in before:
                    for n, s in snapshot(x_).items():
                        if x_ is o and n == 'function' and done:
                            ctx.check(s[0] == 'fn' and s[2] in (None, cur),
                                      lambda: 'function of %r is %r' % (
                                          cur, s))
                            continue
                        ctx.check(s == b[n], lambda: 'setFunctionFromMap '
                                  'changed %s of %s' % (n, type(x_).__name__))
                ctx.count('frommap')
                continue
            else:
                if not props:
                    continue
                name = rng.choice(sorted(props))
                if 'functionMap' in props and rng.random() < .4:
                    name = rng.choice([n for n in props if n in (
                        'functionId', 'matchId', 'loadFunctionFromId',
                        'functionMap')])
                k = props[name]
                right, isright = KINDS[k]
                y = rng.random()
                if y < .5:
                    v = right(rng)
                elif y < .8:
                    v = rng.choice(JUNK)
                elif y < .9:
                    v = rng.choice(pool)
                else:
                    v = rng.choice({'fn': BAD_FN, 'ralg': BAD_ALG + PA,
                                    'palg': BAD_ALG + RA}.get(
                                        k, STR + [right(rng)]))
                if k == 'fn' and getattr(o, name) and rng.random() < .3:
                    v = getattr(o, name)            # what it is already
                    ctx.count('again')
                if k == 'values' and isinstance(v, sut.TypedList) and \
                        not issubclass(v.elementType, AttributeValue):
                    continue
                if k.startswith('v.') and isinstance(v, bool) and \
                        k != 'v.boolean':
                    continue
                good = isright(v) and not invalid(name, k, v, o)
                if good and k == 'fn' and o.functionMap is not \
                        sut.functionMap and o.loadFunctionFromId:
                    good = v in model.FUNCS
            trace.append((cls.__name__, name, repr(v)[:80]))
            try:
                setattr(o, name, v)
                done = True
            except Exception:
                done = False
            ctx.check(done == good, lambda: '%s.%s = %s (%s) is %s' % (
                cls.__name__, name, repr(v)[:80], kind(v),
                'accepted' if done else 'refused'), lambda: mon.show(trace))
            after = [(x_, snapshot(x_)) for x_ in pool]
            for (x_, b), (_, a) in zip(before, after):
                for n in b:
                    if x_ is o and done and (n == name or
                                             n in ALLOWED.get(name, ())):
                        continue
                    ctx.check(a[n] == b[n], lambda: '%s of %s %s: %r became %r'
                              ' when %s.%s was set to %s (%s)' % (
                                  n, 'the' if x_ is o else 'another',
                                  type(x_).__name__, b[n], a[n], cls.__name__,
                                  name, repr(v)[:80], done),
                              lambda: mon.show(trace))
            if done:
                got = getattr(o, name)
                if k in ('decval', 'effval'):
                    ok = got == str(v) and type(got) is str
                elif isinstance(v, str):
                    ok = isinstance(got, str) and got == v
                elif isinstance(v, (int, float, dt.datetime, dt.timedelta)):
                    ok = type(got) is type(v) and got == v
                else:
                    ok = got is v
                ctx.check(ok, lambda: '%s.%s reads %r after it was set to %r'
                          % (cls.__name__, name, got, v),
                          lambda: mon.show(trace))
                a = snapshot(o)
                if k == 'fn':
                    if o.loadFunctionFromId:
                        ctx.check(a['function'][0] == 'fn' and
                                  a['function'][2] in (None, v),
                                  lambda: 'function is %r for %r' % (
                                      a['function'], v))
                    else:
                        ctx.check(a['function'] == state['function'],
                                  'the function changed although it is not '
                                  'to be loaded')
                if k == 'ralg':
                    ctx.check(type(o.ruleCombiningAlg) is RF(v), lambda:
                              'algorithm is %r for %r' % (
                                  o.ruleCombiningAlg, v))
                if k == 'palg':
                    ctx.check(type(o.policyCombiningAlg) is PF(v), lambda:
                              'algorithm is %r for %r' % (
                                  o.policyCombiningAlg, v))
                if name == 'attributeDesignator':
                    ctx.check(getattr(o, 'attributeSelector', None) is None,
                              'designator set and the selector stays')
                if name == 'attributeSelector' and 'matchId' in props:
                    ctx.check(o.attributeDesignator is None,
                              'selector set and the designator stays')
                if name in ('policyId', 'policySetId'):
                    ctx.check(o.ident == v, 'ident is not the identifier')
                extra.append(v)
            elif k is not None and KINDS[k][1](v):
                ctx.count('unresolved')
            ctx.count('set.done' if done else 'set.refused')
            ctx.seen(cls.__name__, name, kind(v), done, state.get(name, (0,))[0])
        for c in classes:
            ctx.check(fresh_shape(make(c)) == new_shape[c], lambda:
                      'a new %s is %r, it was %r before the assignments' % (
                          c.__name__, fresh_shape(make(c)), new_shape[c]),
                      lambda: mon.show(trace))
            ctx.count('fresh')

    # ------------------------------------------------ parts of live policies
    def wrong_values(rng, o, name):
        """A value the property refuses"""
        k = next(spec[c] for c in type(o).__mro__ if c in spec)[name]
        for _ in range(20):
            v = rng.choice(JUNK + {'fn': BAD_FN, 'ralg': BAD_ALG + PA,
                                   'palg': BAD_ALG + RA}.get(k, []) * 4)
            if k.startswith('v.') and isinstance(v, bool):
                continue
            if k in ('any', 'values'):
                return None
            if not KINDS[k][1](v) or invalid(name, k, v, o):
                return v
        return None

    def parts(p, o):
        """(dict, object, kind) of everything in a policy that can be set"""
        out = []

        def src(s, x):
            out.append((s, x, 'src'))

        def expr(e, x):
            out.append((e, x, e['k'] if e['k'] in ('val', 'apply') else 'src'))
            if e['k'] == 'apply':
                for a, b in zip(e['args'], x.expressions):
                    expr(a, b)

        def target(t, x):
            if not t or x is None:
                return
            for sec in model.SECTIONS:
                for mc, c in zip(t.get(sec) or (), getattr(x, sec)):
                    for mm, m in zip(mc, c.matches):
                        out.append((mm, m, 'match'))
                        out.append((mm['value'], m.attributeValue, 'val'))
                        src(mm['src'], m.attributeDesignator or
                            m.attributeSelector)
        for q, x in sut.walk(p, o):
            out.append((q, x, q['k']))
            target(q.get('target'), x.target)
            if q['k'] == 'Policy':
                for r, ro in zip(q['rules'], x.rules):
                    out.append((r, ro, 'rule'))
                    if ro.effect is not sut.Effect.PERMIT and \
                            ro.effect is not sut.Effect.DENY:
                        out.append((r, ro.effect, 'effect'))
                    target(r.get('target'), ro.target)
                    if r.get('cond'):
                        expr(r['cond'], ro.condition.expression)
        return out

    FIELDS = {
        'Policy': ['policyId', 'version', 'ruleCombiningAlgId', 'description',
                   'policyDefaults', 'target'],
        'PolicySet': ['policySetId', 'version', 'policyCombiningAlgId',
                      'description', 'policySetDefaults', 'target'],
        'rule': ['id', 'effect', 'target', 'condition', 'description'],
        'match': ['matchId', 'attributeValue', 'attributeDesignator',
                  'attributeSelector'],
        'apply': ['functionId'], 'val': ['value'], 'effect': ['value'],
    }

    def fields(d, x, kd):
        if kd == 'src':
            return ['attributeId', 'issuer', 'mustBePresent', 'dataType'] if \
                d['k'] == 'desig' else ['requestContextPath', 'mustBePresent',
                                        'dataType']
        return FIELDS[kd]

    def edit(rng, w, mreq, d, x, kd, name):
        """Apply a right value to the object and to the dict"""
        if name in ('policyId', 'policySetId', 'id'):
            d['id'] = v = 'n%d' % rng.randint(0, 99)
        elif name == 'version':
            d['version'] = v = rng.choice(['1.0', '2.0', '9'])
        elif name in ('ruleCombiningAlgId', 'policyCombiningAlgId'):
            d['alg'] = rng.choice(gen.RALGS)
            v = (model.RALG if kd == 'Policy' else model.PALG) + d['alg']
        elif name == 'description':
            d['desc'] = v = rng.choice(['new', ' x ', 'e'])
        elif name in ('policyDefaults', 'policySetDefaults'):
            v = PolicyDefaults()
            v.xpathVersion = d['defaults'] = rng.choice(['1', model.XPATH1])
        elif name == 'target':
            d['target'] = t = w.target(mreq, 0)
            v = sut.api_target(t)
        elif name == 'effect':
            d['effect'] = rng.choice(['Permit', 'Deny'])
            v = rng.choice([sut.Effect(d['effect']),
                            getattr(sut.Effect, d['effect'].upper())])
        elif name == 'condition':
            d['cond'] = c = w.boolean(mreq, 1)
            v = sut.Condition()
            v.expression = sut.api_expr(c)
        elif name == 'matchId':
            d['fn'] = v = w.match(mreq, rng.choice(gen.CATS))['fn']
        elif name == 'attributeValue':
            d['value'] = q = w.val(rng.choice(w.types))
            v = sut.api_value(q)
        elif name in ('attributeDesignator', 'attributeSelector'):
            cat = type(x).__name__.replace('Match', '')
            q = w.desig(mreq, cat) if name == 'attributeDesignator' else \
                w.sel()
            d['src'] = q
            v = sut.api_src(q)
        elif name == 'functionId':
            d['fn'] = v = rng.choice([
                d['fn'], w.boolean(mreq, 0)['fn'], rng.choice(ids)])
        elif kd == 'effect':
            d['effect'] = v = rng.choice(['Permit', 'Deny'])
        elif name == 'value':
            if d['type'] not in w.vals:
                return None
            d['value'] = v = w.value(d['type'])
        elif name == 'attributeId':
            d['id'] = v = rng.choice(w.ids)
        elif name == 'issuer':
            d['issuer'] = v = rng.choice(w.issuers)
        elif name == 'mustBePresent':
            d['mbp'] = v = rng.random() < .5
        elif name == 'dataType':
            t = rng.choice([t for t in w.types if d['k'] == 'desig' or
                            t in model.STR_TYPES])
            d['type'] = t
            v = TYPES[t]
        elif name == 'requestContextPath':
            d['path'] = p = w.path()
            d.pop('badpath', None)
            v = model.path_string(p)
        setattr(x, name, v)
        return True

    def live(rng, i):
        w = gen.World(rng, errors=.03, selectors=.2)
        mreqs = [w.request(xml=False) for _ in range(2)]
        reqs = [sut.request(m) for m in mreqs]
        p = copy.deepcopy(w.any_policy(mreqs[0], depth=1))
        loaded = rng.random() < .5
        if loaded:      # what is loaded is nobody else's
            data = sut.text(p)
            o, twin = sut.load(data), sut.load(data)
            ctx.count('loaded')
        else:
            o, twin = sut.api_policy(p), sut.api_policy(copy.deepcopy(p))
        for q, x in sut.walk(p, o):
            if loaded:
                break
            x.version = q['version'] or '2.0'
            if q['desc']:
                x.description = q['desc']
            if q['defaults']:
                y = PolicyDefaults()
                y.xpathVersion = q['defaults']
                setattr(x, 'policyDefaults' if q['k'] == 'Policy' else
                        'policySetDefaults', y)
            if q['k'] == 'Policy':
                for r, ro in zip(q['rules'], x.rules):
                    if r['desc']:
                        ro.description = r['desc']
        trace = [p, mreqs]
        twin_dump = sut.dump_policy(twin)
        decisions = [sut.decide(o, r) for r in reqs]
        for step in range(12):
            d, x, kd = rng.choice(parts(p, o))
            name = rng.choice(fields(d, x, kd))
            if rng.random() < .5:
                dump = sut.dump_policy(o)
                v = wrong_values(rng, x, name)
                if v is None:
                    continue
                trace.append(('wrong', type(x).__name__, name, repr(v)[:60]))
                try:
                    setattr(x, name, v)
                    done = True
                except Exception:
                    done = False
                ctx.check(not done, lambda: '%s.%s = %s is accepted' % (
                    type(x).__name__, name, repr(v)[:60]),
                    lambda: mon.show(trace))
                ctx.check(sut.dump_policy(o) == dump, lambda: 'the policy '
                          'changed though %s.%s = %s was refused' % (
                              type(x).__name__, name, repr(v)[:60]),
                          lambda: mon.show(trace))
                now = [sut.decide(o, r) for r in reqs]
                ctx.check(now == decisions, lambda: 'decisions %r became %r '
                          'though %s.%s = %s was refused' % (
                              decisions, now, type(x).__name__, name,
                              repr(v)[:60]), lambda: mon.show(trace))
                ctx.count('edit.refused')
            else:
                if not edit(rng, w, mreqs[0], d, x, kd, name):
                    continue
                trace.append(('right', type(x).__name__, name, str(d)[:300]))
                diffs = list(sut.diff_policy(p, o))
                ctx.check(not diffs, lambda: 'after %s.%s was set: %r' % (
                    type(x).__name__, name, diffs[:2]),
                    lambda: mon.show(trace))
                for m, r in zip(mreqs, reqs):
                    mon.judge_policy(ctx, p, o, m, r, lambda: mon.show(trace))
                decisions = [sut.decide(o, r) for r in reqs]
                ctx.count('edit.done')
                if kd == 'effect':
                    ctx.count('edit.effect')
            ctx.seen('live', type(x).__name__, name, decisions)
        ctx.check(sut.dump_policy(twin) == twin_dump,
                  'a policy nobody touched has changed',
                  lambda: mon.show(trace))

    # ------------------------------------------------ parts of live requests
    def requests(rng, i):
        w = gen.World(rng, errors=.02, selectors=.25)
        mreq = w.request(missing=0)
        req = sut.request(mreq)
        pols = [w.any_policy(mreq, depth=1) for _ in range(3)]
        objs = [sut.api_policy(p) for p in pols]
        trace = [pols, copy.deepcopy(mreq)]
        twin = sut.request(mreq)
        twin_dump = sut.dump_request(twin)
        decisions = [sut.decide(o, req) for o in objs]
        for step in range(12):
            holders = [(m, x, 'subject') for m, x in zip(
                mreq['subjects'], req.subjects)] + [
                (m, x, 'resource') for m, x in zip(
                    mreq['resources'], req.resources)] + [
                (mreq['action'], req.action, 'action'),
                (mreq['env'], req.environment, 'env')]
            spots = [(mreq, req, n) for n in (
                'action', 'environment', 'ctxHandler', 'attributeSelector')]
            for m, x, k in holders:
                if k == 'subject':
                    spots.append((m, x, 'subjectCategory'))
                for a, b in zip(m['attrs'], x.attributes):
                    spots += [(a, b, 'attributeId'), (a, b, 'issuer'),
                              (a, b, 'attributeValues')]
                    for j, v in enumerate(b.attributeValues):
                        spots.append(((a, j), v, 'value'))
            d, x, name = rng.choice(spots)
            if rng.random() < .5:
                dump = sut.dump_request(req)
                v = wrong_values(rng, x, name)
                if v is None and name != 'attributeValues':
                    continue
                if name == 'attributeValues':
                    v = rng.choice([None, [], ['x'], 'x', (), object(), {},
                                    list(x.attributeValues)])
                try:
                    setattr(x, name, v)
                    done = True
                except Exception:
                    done = False
                trace.append(('wrong', type(x).__name__, name, repr(v)[:60]))
                ctx.check(not done, lambda: '%s.%s = %s is accepted' % (
                    type(x).__name__, name, repr(v)[:60]),
                    lambda: mon.show(trace))
                ctx.check(sut.dump_request(req) == dump, lambda: 'the request '
                          'changed though %s.%s = %s was refused' % (
                              type(x).__name__, name, repr(v)[:60]),
                          lambda: mon.show(trace))
                now = [sut.decide(o, req) for o in objs]
                ctx.check(now == decisions, lambda: 'decisions %r became %r '
                          'though %s.%s = %s was refused' % (
                              decisions, now, type(x).__name__, name,
                              repr(v)[:60]), lambda: mon.show(trace))
                ctx.count('redit.refused')
            else:
                if name in ('action', 'environment'):
                    h = w.holder(2)
                    d[name[:3] if name != 'action' else name] = h
                    v = (sut.Action if name == 'action' else
                         sut.Environment)()
                    for a in h['attrs']:
                        v.attributes.append(sut.attribute(a))
                elif name == 'ctxHandler':
                    d['pip'] = q = {'answers': dict(
                        (k, rng.choice([None, [('string', 'pip')]]))
                        for k in w.ids)}
                    v = sut.Handler(q['answers'])
                elif name == 'attributeSelector':
                    d['doc'] = q = w.make_doc()
                    v = sut.EtreeXPathSelector(sut.element(q))
                elif name == 'subjectCategory':
                    d['category'] = v = rng.choice(gen.CATEGORIES)
                elif name == 'attributeId':
                    d['id'] = v = rng.choice(w.ids)
                elif name == 'issuer':
                    d['issuer'] = v = rng.choice(w.issuers)
                elif name == 'attributeValues':
                    d['values'] = q = [w.value(d['type']) for _ in range(
                        rng.randint(0, 3))]
                    cls = CLS[d['type']]
                    v = sut.TypedList(rng.choice([cls, AttributeValue]),
                                      [cls(value=z) for z in q])
                else:
                    a, j = d
                    v = w.value(a['type'])
                    a['values'][j] = v
                setattr(x, name, v)
                trace.append(('right', type(x).__name__, name, repr(v)[:60]))
                ctx.check(sut.dump_request(req) == sut.model_dump(mreq),
                          lambda: 'the request after %s.%s was set: %r' % (
                              type(x).__name__, name, sut.dump_request(req)),
                          lambda: mon.show(trace))
                for p, o in zip(pols, objs):
                    mon.judge_policy(ctx, p, o, mreq, req,
                                     lambda: mon.show(trace))
                decisions = [sut.decide(o, req) for o in objs]
                ctx.count('redit.done')
            ctx.seen('req', type(x).__name__, name, decisions)
        ctx.check(sut.dump_request(twin) == twin_dump,
                  'a request nobody touched has changed',
                  lambda: mon.show(trace))

    def pdps(rng, i):
        w = gen.World(rng, errors=.03)
        mreq = w.request()
        req = sut.request(mreq)
        pols = [w.any_policy(mreq, depth=1) for _ in range(3)]
        objs = [sut.api_policy(p) for p in pols]
        p, q = sut.PDP(), sut.PDP(objs[2])
        held = None
        for step in range(10):
            if rng.random() < .5:
                held = rng.randrange(3)
                if rng.random() < .2:
                    p = sut.PDP(objs[held])
                else:
                    p.policy = objs[held]
            else:
                v = rng.choice(JUNK + [sut.text(pols[0]), req, sut.Rule(), p])
                try:
                    if rng.random() < .2:
                        if v is None:       # PDP(None) has no policy
                            continue
                        sut.PDP(v)
                    else:
                        p.policy = v
                    ctx.fail('a PDP takes %r as its policy' % (v,))
                except (TypeError, AttributeError):
                    pass
            ctx.check(p.policy is (None if held is None else objs[held]) and
                      q.policy is objs[2], 'policy of the PDP',)
            if held is not None:
                got = sut.decide(p, req)
                want = model.policy(pols[held], mreq)
                ctx.check(got in want, lambda: 'PDP gives %s, its policy '
                          'calls for %s' % (got, want))
                ctx.seen('pdp', got)
            ctx.count('pdp')

    ctx.group('objects', 700, 30000, objects)
    ctx.group('live', 600, 20000, live)
    ctx.group('requests', 400, 12000, requests)
    ctx.group('pdps', 100, 2000, pdps)
