"""Extensions take effect as registered, and nothing else changes"""
from vp import emit, gen, model, stdnames, sut
from vp.model import F1, F2
from vp.props.c20 import outcome
from vp.sut import (AbstractFunction, AttributeValue,
                    AttributeValueClassFactory, DataTypeReaderClassFactory,
                    ETreeDataTypeReaderBase, Policy, PolicySet, ReaderFactory,
                    functionMap)

META = {
    'rule': 'one evaluation = one registration whose acceptance or refusal is'
            ' judged, or one look at a registry or at a policy loaded after it'
            ' (values, functions called, algorithm, decision) compared with'
            ' the model of what is registered; distinct = distinct (registry,'
            ' operation, identifier kind, outcome)',
    'assumptions': [
        'replaced built-in entries are put back through the same interface at'
        ' the end of a case',
        'policies loaded before a registration are not judged after it'],
    'floors': {'type.near': 500, 'function.registered': 300, 'function.refused': 300,
               'function.policy': 1000, 'type.registered': 300,
               'type.kept': 100, 'type.replaced': 100, 'type.refused': 200,
               'type.policy': 1000, 'reader.registered': 200,
               'element.registered': 150, 'element.calls': 500,
               'element.derived': 300,
               'alg.registered': 300, 'alg.refused': 200, 'others': 3000},
}

TABLE = {}          # identifier -> class, for factories named by a path


class PathFactory:
    """Function factory found by its path"""

    def __call__(self, identifier):
        return TABLE.get(identifier)


class NotAFactory:
    pass


def function(identifier, tag):
    class Custom(AbstractFunction):
        FUNCTION_NS = identifier
        TAG = tag

        def evaluate(self, *inputs):
            return tag
    return Custom


def doc(cond=None, match=None, alg='deny-overrides'):
    """Policy with one permit rule having that condition or match"""
    x = '<Policy xmlns="%s" PolicyId="p" RuleCombiningAlgId="%s%s"><Target/>' \
        '<Rule RuleId="r" Effect="Permit">' % (emit.NS, model.RALG, alg)
    if match:
        fn, dtype, text, aid, qtype = match
        x += ('<Target><Subjects><Subject><SubjectMatch MatchId="%s">'
              '<AttributeValue DataType="%s">%s</AttributeValue>'
              '<SubjectAttributeDesignator AttributeId="%s" DataType="%s"/>'
              '</SubjectMatch></Subject></Subjects></Target>'
              % (fn, dtype, text, aid, qtype))
    if cond:
        x += '<Condition>%s</Condition>' % cond
    return (x + '</Rule></Policy>').encode('utf-8')


def apply_(fn, *args):
    return '<Apply FunctionId="%s">%s</Apply>' % (fn, ''.join(args))


def value(dtype, text):
    return '<AttributeValue DataType="%s">%s</AttributeValue>' % (dtype, text)


STRING = model.TYPES['string']
BASE_DOCS = [
    (doc(cond=apply_(F1 + 'string-equal', value(STRING, 'a'),
                     value(STRING, 'a'))), 'Permit'),
    (doc(cond=apply_(F1 + 'string-equal', value(STRING, 'a'),
                     value(STRING, 'b'))), 'NotApplicable'),
    (doc(match=(F1 + 'string-equal', STRING, 'x', 'urn:a', STRING)),
     'Permit'),
    (doc(match=(F2 + 'anyURI-regexp-match', model.TYPES['anyURI'], 'x', 'urn:b',
                model.TYPES['anyURI'])), 'Permit'),
    (doc(match=(F1 + 'string-equal', STRING, 'y', 'urn:a', STRING)),
     'NotApplicable'),
    (doc(cond=apply_(F1 + 'string-at-least-one-member-of',
                     apply_(F1 + 'string-bag', value(STRING, 'q')),
                     apply_(F1 + 'string-bag', value(STRING, 'q')))),
     'Permit'),
]


def base_request():
    r = sut.Request()
    s = sut.Subject()
    for aid, t in (('urn:a', 'string'), ('urn:b', 'anyURI')):
        a = sut.Attribute()
        a.attributeId = aid
        a.dataType = model.TYPES[t]
        a.attributeValues.append(sut.CLASSES[t](value='x'))
        s.attributes.append(a)
    r.subjects.append(s)
    return r


def run(ctx):
    from ndg.xacml.core import XacmlCoreBase
    from ndg.xacml.core.functions import FunctionClassFactoryBase
    from ndg.xacml.core import (
        action, apply, attributedesignator, attributeselector, condition,
        environment, match, policybase, policydefaults, resource, rule,
        subject, target)
    from ndg.xacml.core.context.result import Decision
    from ndg.xacml.core.policy_combining_alg import (
        PolicyCombiningAlgClassFactory, PolicyCombiningAlgInterface)
    from ndg.xacml.core.rule_combining_alg import (
        RuleCombiningAlgClassFactory, RuleCombiningAlgInterface)
    sut.register_all()
    std = sorted(model.FUNCS)
    base_functions = dict((f, functionMap.get(f)) for f in std)
    base_types = dict((u, AttributeValueClassFactory()(u))
                      for u in AttributeValue.TYPE_URIS)

    def reader_of(u):
        return DataTypeReaderClassFactory.getReader(base_types[u]())
    base_readers = dict((u, reader_of(u)) for u in model.TYPES.values())
    elements = {
        'PolicyBase': policybase.PolicyBase, 'Policy': Policy,
        'PolicySet': PolicySet, 'Rule': rule.Rule, 'Target': target.Target,
        'Condition': condition.Condition, 'Apply': apply.Apply,
        'AttributeValue': AttributeValue,
        'AttributeSelector': attributeselector.AttributeSelector,
        'SubjectAttributeDesignator':
        attributedesignator.SubjectAttributeDesignator,
        'ResourceAttributeDesignator':
        attributedesignator.ResourceAttributeDesignator,
        'ActionAttributeDesignator':
        attributedesignator.ActionAttributeDesignator,
        'EnvironmentAttributeDesignator':
        attributedesignator.EnvironmentAttributeDesignator,
        'Subject': subject.Subject, 'Resource': resource.Resource,
        'Action': action.Action, 'Environment': environment.Environment,
        'SubjectMatch': match.SubjectMatch,
        'ResourceMatch': match.ResourceMatch,
        'ActionMatch': match.ActionMatch,
        'EnvironmentMatch': match.EnvironmentMatch,
        'PolicyDefaults': policydefaults.PolicyDefaults,
    }
    base_elements = dict((n, ReaderFactory.getReader(c))
                         for n, c in elements.items())
    algs = [a + b for a in (model.RALG, model.PALG) for b in gen.RALGS]
    base_ralgs = dict((a, RuleCombiningAlgClassFactory()(a)) for a in algs)
    base_palgs = dict((a, PolicyCombiningAlgClassFactory()(a)) for a in algs)

    def others(rng, but=(), trace=None):
        """Everything not touched is as it was at the start"""
        why = lambda x: lambda: '%s changed' % x       # noqa
        det = lambda: repr(trace)       # noqa
        for f in rng.sample(std, 4):
            if f not in but:
                ctx.check(functionMap.get(f) is base_functions[f] and
                          functionMap[f] is base_functions[f],
                          why('function ' + f), det)
        for u in rng.sample(sorted(base_readers), 4):
            if u not in but:
                ctx.check(AttributeValueClassFactory()(u) is base_types[u],
                          why('data type ' + u), det)
                ctx.check(reader_of(u) is base_readers[u],
                          why('data type reader ' + u), det)
        for n in rng.sample(sorted(elements), 3):
            if n not in but:
                ctx.check(ReaderFactory.getReader(elements[n]) is
                          base_elements[n], why('reader of ' + n), det)
        a = rng.choice(algs)
        ctx.check(RuleCombiningAlgClassFactory()(a) is base_ralgs[a] and
                  PolicyCombiningAlgClassFactory()(a) is base_palgs[a],
                  why('algorithm ' + a), det)
        if not but:
            d, want = rng.choice(BASE_DOCS)
            got = outcome(lambda: sut.decide(sut.pdp(d), base_request()))
            ctx.check(got == ('ok', want), lambda: 'a policy using nothing'
                      ' registered gives %s, not %s: %s' % (got, want, d), det)
        ctx.count('others')

    # -------------------------------------------------------------- functions
    def ids(rng, i, n):
        out = []
        for k in range(n):
            out.append(rng.choice([
                'urn:verif:c21:%d:f%d', 'urn:oasis:names:tc:xacml:1.0:function'
                ':string-equal-x%d-%d', 'http://h/f?%d#%d', 'f%d.%d',
                'urn:oasis:names:tc:xacml:2.0:function:x%d-y%d',
                'urn:verif:function:true%d:%d', 'urn:verif:%d:string-equal%d'])
                % (i, k))
        return out

    def functions(rng, i):
        names = ids(rng, i, 4)
        table = {}          # what is registered
        trace = []
        for step in range(rng.randint(4, 9)):
            f = rng.choice(names)
            tag = rng.random() < .5
            cls = function(f, tag)
            op = rng.choice(['callable', 'path', 'pathcolon', 'base', 'item',
                             'none', 'wrong', 'raises', 'std', 'nothing',
                             'badpath', 'badattr', 'badkey', 'baditem',
                             'notcallable', 'pathnone'])
            trace.append((op, f, tag))
            TABLE.clear()
            before = dict((n, n in functionMap) for n in names)
            good = op in ('callable', 'path', 'pathcolon', 'base', 'item')
            want = None
            if op == 'callable':
                go = lambda: functionMap.load_custom_function(   # noqa
                    f, function_factory=lambda n: cls if n == f else None)
            elif op in ('path', 'pathcolon'):
                TABLE[f] = cls
                go = lambda: functionMap.load_custom_function(   # noqa
                    f, function_factory_path='vp.props.c21%sPathFactory' % (
                        ':' if op == 'pathcolon' else '.'))
            elif op == 'base':
                f = 'urn:verif:c21:%d:%s-probe%d' % (
                    i, rng.choice(['string', 'anyURI', 'integer', 'time',
                                   'x500Name', 'dayTimeDuration']), step)
                names.append(f)
                before[f] = f in functionMap

                class Base(AbstractFunction):
                    FUNCTION_NS = None
                    TYPE = None
                    TAG = tag

                    def evaluate(self, *a):
                        return self.TAG

                class Factory(FunctionClassFactoryBase):
                    FUNCTION_NAMES = (f, f + 'x')
                    FUNCTION_NS_SUFFIX = '-probe%d' % step
                    FUNCTION_BASE_CLASS = Base
                factory = Factory()
                cls = factory(f)
                ctx.check(isinstance(cls, type) and issubclass(cls, Base) and
                          cls.FUNCTION_NS == f and cls.TYPE is base_types[
                              model.TYPES[f.split(':')[-1].split('-')[0]]],
                          lambda: 'function factory made %r for %s' % (cls, f),
                          lambda: repr(trace))
                ctx.check(factory(f + 'y') is None, 'a function factory makes'
                          ' a function it does not declare')
                go = lambda: functionMap.load_custom_function(f, factory)  # noqa
            elif op == 'item':
                go = lambda: functionMap.__setitem__(f, cls)     # noqa
            elif op == 'none':
                go = lambda: functionMap.load_custom_function(   # noqa
                    f, lambda n: None)
            elif op == 'wrong':
                bad = rng.choice([int, AttributeValue, 'x', cls(), object(),
                                  lambda: None])
                go = lambda: functionMap.load_custom_function(   # noqa
                    f, lambda n: bad)
                want = 'TypeError'
            elif op == 'raises':
                def boom(n):
                    raise KeyError(n)
                go = lambda: functionMap.load_custom_function(f, boom)  # noqa
                want = 'KeyError'
            elif op == 'std':
                s = rng.choice([x for x in stdnames.NAMES
                                if 'string-concatenate' not in x])
                go = lambda: functionMap.load_custom_function(   # noqa
                    s, lambda n: cls)
            elif op == 'nothing':
                go = lambda: functionMap.load_custom_function(f)     # noqa
                want = 'TypeError'
            elif op == 'badpath':
                go = lambda: functionMap.load_custom_function(   # noqa
                    f, function_factory_path='vp.nosuch%d.F' % i)
            elif op == 'badattr':
                go = lambda: functionMap.load_custom_function(   # noqa
                    f, function_factory_path='vp.props.c21.NoSuch')
            elif op == 'badkey':
                bad = rng.choice([1, None, b'x', ('a',), cls])
                go = lambda: functionMap.__setitem__(bad, cls)   # noqa
                want = 'TypeError'
            elif op == 'baditem':
                bad = rng.choice([None, int, 'x', cls(), AttributeValue])
                go = lambda: functionMap.__setitem__(f, bad)     # noqa
                want = 'TypeError'
            elif op == 'notcallable':
                go = lambda: functionMap.load_custom_function(   # noqa
                    f, function_factory_path='vp.props.c21.NotAFactory')
            else:
                go = lambda: functionMap.load_custom_function(   # noqa
                    f, function_factory_path='vp.props.c21.PathFactory')
            try:
                go()
                got = 'ok'
            except Exception as e:
                got = type(e).__name__
            if good:
                ctx.check(got == 'ok', lambda: 'registering a function (%s): '
                          '%s' % (op, got), lambda: repr(trace))
                table[f] = cls
                ctx.count('function.registered')
            else:
                ctx.check(got != 'ok' and want in (None, got),
                          lambda: 'registering a function (%s): %s' % (op, got),
                          lambda: repr(trace))
                ctx.check(dict((n, n in functionMap) for n in names) == before,
                          lambda: 'a refused registration (%s) changed the map'
                          % op, lambda: repr(trace))
                ctx.count('function.refused')
            ctx.seen('function', op, got, f in table)
            look(rng, names, table, trace)
            others(rng, (), trace)

    def look(rng, names, table, trace):
        for f in names:
            d = doc(cond=apply_(f, value(STRING, 'x'))) \
                if rng.random() < .5 else \
                doc(match=(f, STRING, 'x', 'urn:a', STRING))
            d = d.replace(b'&', b'&amp;')
            try:
                pdp = sut.pdp(d)
            except Exception as e:
                pdp = None
                err = e
            if f in table:
                ctx.check(functionMap.get(f) is table[f] and
                          functionMap[f] is table[f], lambda: 'the function '
                          'registered for %s is not there' % f,
                          lambda: repr(trace))
                ctx.check(pdp is not None, lambda: 'policy using a registered '
                          'function is refused: %r' % err, lambda: repr(trace))
                want = 'Permit' if table[f].TAG else 'NotApplicable'
                got = sut.decide(pdp, base_request())
                ctx.check(got == want, lambda: 'policy using %s: %s, expected '
                          '%s' % (f, got, want), lambda: repr(trace))
            else:
                ctx.check(pdp is None, lambda: 'policy using %s, which is not '
                          'registered, loads' % f, lambda: repr(trace))
            ctx.count('function.policy')

    # -------------------------------------------------------------- data types
    def make_type(identifier, native, base=AttributeValue):
        class Custom(base):
            TYPE = native
            IDENTIFIER = identifier
        return Custom

    def make_reader(mark):
        class Reader(ETreeDataTypeReaderBase):
            @classmethod
            def parse(cls, elem, attributeValue):
                attributeValue.value = mark + (elem.text or '')
        return Reader

    ever = set()        # what types were ever registered in this process

    def types(rng, i):
        eq = 'urn:verif:c21:eq'

        class Eq(AbstractFunction):
            FUNCTION_NS = eq

            def evaluate(self, a, b):
                return type(a) is type(b) and a.value == b.value
        functionMap[eq] = Eq
        new = ['urn:verif:c21:type%d-%d' % (i, k) for k in range(2)]
        new.append('http://www.w3.org/2001/XMLSchema#x%d' % i)
        builtin = [model.TYPES[t] for t in rng.sample(gen.STR_TYPES, 2)]
        names = new + builtin
        ever.update(names)
        classes = dict((u, base_types[u]) for u in builtin)
        readers = dict((u, '') for u in builtin)      # '' = text as it is
        trace = []
        own = AttributeValueClassFactory.IDENTIFIER2CLASS_MAP.__class__()
        private = AttributeValueClassFactory(own)
        priv = {}
        try:
            for step in range(rng.randint(4, 9)):
                u = rng.choice(names)
                op = rng.choice(['add', 'add', 'over', 'over', 'reader',
                                 'reader', 'badclass', 'badid', 'badreader',
                                 'badreaderid', 'private', 'badmap'])
                trace.append((op, u))
                # often derived from a class known already, or one known under
                # another identifier
                cls = make_type(u, str, *rng.choice(
                    [(), (classes.get(u, AttributeValue), ), (rng.choice(
                        sorted(classes.items(), key=lambda x: x[0]))[1], )]))
                if rng.random() < .15:
                    cls = rng.choice([c for x, c in sorted(
                        classes.items(), key=lambda x: x[0])])
                got = None
                if op == 'add':
                    got = outcome(lambda: AttributeValueClassFactory.addClass(
                        u, cls))
                    ctx.check(got[0] == 'ok', lambda: 'addClass: %s' % got[0])
                    if u in classes:
                        ctx.count('type.kept')
                    else:
                        classes[u] = cls
                        ctx.count('type.registered')
                elif op == 'over':
                    got = outcome(lambda: AttributeValueClassFactory.addClass(
                        u, cls, overwrite=True))
                    ctx.check(got[0] == 'ok', lambda: 'addClass: %s' % got[0])
                    ctx.count('type.replaced' if u in classes
                              else 'type.registered')
                    classes[u] = cls
                elif op == 'reader':
                    mark = rng.choice(['m', 'n%d' % step])
                    r = make_reader(mark)
                    got = outcome(lambda: DataTypeReaderClassFactory.addReader(
                        u, r))
                    ctx.check(got[0] == 'ok', lambda: 'addReader: %s' % got[0])
                    readers[u] = mark
                    ctx.count('reader.registered')
                elif op == 'private':
                    own[u] = cls
                    priv[u] = cls
                else:
                    over = rng.random() < .5
                    bad = rng.choice([int, str, 'x', None, object(), object,
                                      AbstractFunction, cls()])
                    badid = rng.choice([1, None, b'x', cls, ('a', )])
                    go = {
                        'badclass': lambda:
                            AttributeValueClassFactory.addClass(
                                u, bad, overwrite=over),
                        'badid': lambda: AttributeValueClassFactory.addClass(
                            badid, cls, overwrite=over),
                        'badreader': lambda:
                            DataTypeReaderClassFactory.addReader(
                                u, rng.choice([int, None, 'x', cls, Eq])),
                        'badreaderid': lambda:
                            DataTypeReaderClassFactory.addReader(
                                badid, make_reader('z')),
                        'badmap': lambda: AttributeValueClassFactory(
                            classMap={u: cls}),
                    }[op]
                    got = outcome(go)
                    ctx.check(got[0] == 'TypeError', lambda: '%s: %s' % (
                        op, got[0]), lambda: repr(trace))
                    ctx.count('type.refused')
                ctx.seen('type', op, u in base_types, u in classes,
                         u in readers)
                x = gen.near_type(rng, rng.choice(
                    sorted(base_types) + names + [u, u]))
                if x not in base_types and x not in ever:
                    ctx.check(AttributeValueClassFactory()(x) is None, lambda:
                              'the identifier %r, never registered, stands '
                              'for %r' % (x, AttributeValueClassFactory()(x)),
                              lambda: repr(trace))
                    if x:
                        look_type(rng, x, None, None, eq, trace)
                    ctx.count('type.near')
                for x in names:
                    look_type(rng, x, classes.get(x), readers.get(x), eq,
                              trace)
                    ctx.check(private(x) is priv.get(x), 'a factory with its '
                              'own map knows other classes',
                              lambda: repr(trace))
                others(rng, names, trace)
        finally:
            for u in builtin:
                AttributeValueClassFactory.addClass(u, base_types[u],
                                                    overwrite=True)
                DataTypeReaderClassFactory.addReader(u, base_readers[u])
        others(rng, (), trace)

    def look_type(rng, u, cls, mark, eq, trace):
        ctx.check(AttributeValueClassFactory()(u) is cls, lambda: 'class for %s'
                  ' is %r, expected %r' % (u, AttributeValueClassFactory()(u),
                                           cls), lambda: repr(trace))
        text = rng.choice(['x', 'y', 'mx'])
        d = doc(match=(eq, u, text, 'urn:c', u))
        try:
            pdp = sut.pdp(d)
        except Exception as e:
            pdp = None
            err = e
        ctx.count('type.policy')
        if cls is None or mark is None:
            ctx.check(pdp is None, lambda: 'a policy with a value of type %s '
                      'loads, class: %r, reader: %r' % (u, cls, mark),
                      lambda: repr(trace))
            return
        ctx.check(pdp is not None, lambda: 'a policy with a value of type %s is'
                  ' refused: %r' % (u, err), lambda: repr(trace))
        v = pdp.policy.rules[0].target.subjects[0].matches[0].attributeValue
        ctx.check(type(v) is cls and v.dataType == u and
                  v.value == mark + text, lambda: 'value of type %s loaded as '
                  '%s %r' % (u, type(v), v.value), lambda: repr(trace))
        for have, want in ((mark + text, 'Permit'), ('no', 'NotApplicable')):
            r = sut.Request()
            s = sut.Subject()
            a = sut.Attribute()
            a.attributeId = 'urn:c'
            a.dataType = u
            v = cls(value=have)
            v.dataType = u
            a.attributeValues.append(v)
            s.attributes.append(a)
            r.subjects.append(s)
            got = sut.decide(pdp, r)
            ctx.check(got == want, lambda: 'decision about a value of type %s:'
                      ' %s, expected %s' % (u, got, want), lambda: repr(trace))

    # ------------------------------------------------------- element readers
    def count_nodes(node, out):
        out[node.tag] = out.get(node.tag, 0) + 1
        for c in node.children:
            if isinstance(c, emit.Node):
                count_nodes(c, out)

    def element_readers(rng, i):
        w = gen.World(rng, probes=False)
        m = w.request()
        p = w.any_policy(m, depth=1)
        node = emit.policy_node(p)
        data = emit.plain(node)
        counts = {}
        count_nodes(node, counts)
        counts['PolicyBase'] = 1
        counts['PolicyDefaults'] = counts.get('PolicyDefaults', 0) + \
            counts.get('PolicySetDefaults', 0)
        base = sut.load(data)
        want = sut.dump_policy(base)
        req = sut.request(m)
        decision = sut.decide(base, req)
        names = rng.sample(sorted(elements), rng.randint(1, 3))
        if rng.random() < .6:
            names = [n for n in names if counts.get(n)] or ['Target']
        calls = dict((n, 0) for n in names)

        def custom(n):
            class Reader(base_elements[n]):
                def __call__(self, obj, common):
                    calls[n] = calls.get(n, 0) + 1
                    return super(Reader, self).__call__(obj, common)
            return Reader
        mine = dict((n, custom(n)) for n in names)
        try:
            for n in names:
                for key, val in ((elements[n], rng.choice(
                        [int, None, 'x', base_elements[n]().__class__.TYPE])),
                        (rng.choice([int, 'x', None]), mine[n])):
                    got = outcome(lambda: ReaderFactory.addReader(key, val))
                    ctx.check(got[0] == 'TypeError', lambda: 'addReader(%r, %r)'
                              ': %s' % (key, val, got[0]))
                    ctx.check(ReaderFactory.getReader(elements[n]) is
                              base_elements[n], 'a refused reader is used')
                ReaderFactory.addReader(elements[n], mine[n])
                ctx.check(ReaderFactory.getReader(elements[n]) is mine[n],
                          'the reader registered for %s is not returned' % n)
                ctx.count('element.registered')
                others(rng, [x for x in names], None)
            if rng.random() < .5:
                # one for another class of elements, of the same name
                for n in rng.sample(names, 1) + rng.sample(
                        sorted(elements), 1):
                    own = type(rng.choice([n, 'Other']), (elements[n],),
                               {'__slots__': ()})
                    strange = custom(n)
                    ReaderFactory.addReader(own, strange)
                    ctx.check(ReaderFactory.getReader(own) is strange,
                              'the reader registered for a class derived from'
                              ' %s is not returned' % n)
                    ctx.check(ReaderFactory.getReader(elements[n]) is
                              mine.get(n, base_elements[n]), lambda: 'a reader'
                              ' registered for a class derived from %s is '
                              'returned for it' % n)
                    ctx.count('element.derived')
            got = sut.load(data)
            ctx.check(sut.dump_policy(got) == want, 'policy read through '
                      'registered readers differs', lambda: data.decode())
            ctx.check(sut.decide(got, req) == decision, 'decision of a policy'
                      ' read through registered readers differs',
                      lambda: data.decode())
            for n in names:
                ctx.check(calls[n] == counts.get(n, 0), lambda: 'the reader '
                          'registered for %s read %d of %d elements' % (
                              n, calls[n], counts.get(n, 0)),
                          lambda: data.decode())
                ctx.count('element.calls', calls[n])
                ctx.seen('element', n, min(calls[n], 4))
        finally:
            for n in names:
                ReaderFactory.addReader(elements[n], base_elements[n])
        others(rng)

    # ------------------------------------------------------------- algorithms
    def algorithms(rng, i):
        rules = rng.random() < .5
        factory_cls = RuleCombiningAlgClassFactory if rules else \
            PolicyCombiningAlgClassFactory
        other_cls = PolicyCombiningAlgClassFactory if rules else \
            RuleCombiningAlgClassFactory
        iface = RuleCombiningAlgInterface if rules else \
            PolicyCombiningAlgInterface
        make = Policy if rules else PolicySet
        kw = 'ruleCombiningAlgFactory' if rules else \
            'policyCombiningAlgFactory'
        key = 'ruleCombiningAlgId' if rules else 'policyCombiningAlgId'
        algname = 'ruleCombiningAlg' if rules else 'policyCombiningAlg'
        prefix = model.RALG if rules else model.PALG
        decisions = [Decision.PERMIT, Decision.DENY, Decision.INDETERMINATE,
                     Decision.NOT_APPLICABLE]

        def alg(decision):
            class Alg(iface):
                RESULT = decision

                def evaluate(self, items, context):
                    return decision
            return Alg
        names = ['urn:verif:alg:%d' % k for k in range(3)] + [
            prefix + 'first-applicable', prefix + 'only-one-applicable']
        table = dict((n, alg(rng.choice(decisions)))
                     for n in rng.sample(names, rng.randint(1, 4)))
        bad = 'urn:verif:alg:bad'
        table[bad] = rng.choice([int, None, NotImplemented, 'x', object(),
                                 factory_cls, alg(Decision.PERMIT)()])
        wrongiface = 'urn:verif:alg:iface'
        table[wrongiface] = object
        factory = factory_cls(dict(table))
        if rng.random() < .5:
            obj = make(**{kw: factory})
        else:
            obj = make()
            before = outcome(lambda: setattr(obj, key, rng.choice(
                [n for n in names if n.startswith('urn:verif')])))
            ctx.check(before[0] == 'TypeError', 'an algorithm never registered'
                      ' is accepted')
            setattr(obj, kw, factory)
        twin = make()
        current = None
        trace = []
        req = base_request()
        for step in range(8):
            op = rng.choice(['id', 'id', 'id', 'factory', 'twin', 'bad'])
            n = rng.choice(names + [bad, wrongiface])
            trace.append((op, n))
            if op == 'id':
                good = n in table and n not in (bad, wrongiface)
                got = outcome(lambda: setattr(obj, key, n))
                if good:
                    ctx.check(got[0] == 'ok', lambda: 'a registered algorithm '
                              'is refused', lambda: repr(trace))
                    current = n
                    ctx.count('alg.registered')
                else:
                    ctx.check(got[0] != 'ok', lambda: 'algorithm %s: accepted '
                              'though not registered' % n,
                              lambda: repr(trace))
                    ctx.count('alg.refused')
            elif op == 'factory':
                x = rng.choice([None, 1, dict(table), factory_cls,
                                other_cls(), int])
                got = outcome(lambda: setattr(obj, kw, x))
                ctx.check(got[0] == 'TypeError', lambda: 'factory %r accepted'
                          % (x,), lambda: repr(trace))
                ctx.count('alg.refused')
            elif op == 'bad':
                x = rng.choice([1, dict(table), factory_cls, other_cls()])
                got = outcome(lambda: make(**{kw: x}))
                ctx.check(got[0] == 'TypeError', lambda: 'factory %r accepted'
                          % (x,), lambda: repr(trace))
                ctx.count('alg.refused')
            else:
                n = prefix + rng.choice(gen.RALGS)
                setattr(twin, key, n)
                ctx.check(type(getattr(twin, algname)) is (
                    base_ralgs if rules else base_palgs)[n],
                    'algorithm of another policy changed',
                    lambda: repr(trace))
                for x in names[:3]:
                    ctx.check(outcome(lambda: setattr(twin, key, x))[0] ==
                              'TypeError', 'an algorithm registered for one '
                              'policy is accepted by another')
            ctx.check(getattr(obj, key) == current, lambda: '%s is %r, expected'
                      ' %r' % (key, getattr(obj, key), current),
                      lambda: repr(trace))
            ctx.check(type(getattr(obj, algname)) is (
                type(None) if current is None else table[current]),
                'the algorithm in use is not the one registered',
                lambda: repr(trace))
            if current is not None:
                if obj.target is None:
                    obj.target = target.Target()
                got = sut.decide(obj, req)
                ctx.check(got == table[current].RESULT.value, lambda: 'a '
                          'registered algorithm deciding %s: %s' % (
                              table[current].RESULT.value, got),
                          lambda: repr(trace))
            ctx.seen('alg', rules, op, n[:20], current is None)
        others(rng, (), trace)

    def loaded_algorithms(rng, i):
        """Policy types with their own algorithms, by registered readers"""
        name = rng.choice(['urn:verif:alg:x', model.RALG + 'first-applicable'])
        decision = rng.choice([Decision.PERMIT, Decision.DENY])

        class Alg(RuleCombiningAlgInterface):
            def evaluate(self, rules, context):
                return decision
        table = dict(RuleCombiningAlgClassFactory.DEFAULT_MAP)
        table[name] = Alg
        factory = RuleCombiningAlgClassFactory(table)

        class MyPolicy(Policy):
            def __init__(self):
                super(MyPolicy, self).__init__(ruleCombiningAlgFactory=factory)

        class MyReader(base_elements['Policy']):
            TYPE = MyPolicy
        d = doc().replace((model.RALG + 'deny-overrides').encode(),
                          name.encode())
        nested = rng.random() < .5
        if nested:
            d = ('<PolicySet xmlns="%s" PolicySetId="s" PolicyCombiningAlgId='
                 '"%sdeny-overrides"><Target/>%s</PolicySet>' % (
                     emit.NS, model.PALG, d.decode())).encode()
        usual = outcome(lambda: sut.decide(sut.pdp(d), base_request()))
        want = ('TypeError', None) if name.startswith('urn:verif') else \
            ('ok', 'Permit')
        ctx.check(usual == want, lambda: 'before registration: %s' % (usual,))
        ReaderFactory.addReader(Policy, MyReader)
        try:
            got = outcome(lambda: sut.decide(sut.pdp(d), base_request()))
            ctx.check(got == ('ok', decision.value), lambda: 'a policy type '
                      'with its own algorithm: %s, expected %s' % (
                          got, decision.value), lambda: d.decode())
        finally:
            ReaderFactory.addReader(Policy, base_elements['Policy'])
        got = outcome(lambda: sut.decide(sut.pdp(d), base_request()))
        ctx.check(got == usual, 'after taking the registration back')
        ctx.seen('loaded', nested, name, decision.value)
        ctx.count('element.registered')

    ctx.group('functions', 1600, 9600, functions)
    ctx.group('types', 1600, 9600, types)
    ctx.group('elements', 1920, 11520, element_readers)
    ctx.group('algorithms', 1600, 9600, algorithms)
    ctx.group('loaded', 320, 1920, loaded_algorithms)
