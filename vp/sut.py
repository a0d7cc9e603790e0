"""Adapter to the code under test, through its public interfaces only."""
import io
import os
import sys

import ndg.xacml
from ndg.xacml import importElementTree
ElementTree = importElementTree()
from ndg.xacml.core.action import Action as TAction
from ndg.xacml.core.apply import Apply
from ndg.xacml.core.attribute import Attribute
from ndg.xacml.core.attributedesignator import (
    ActionAttributeDesignator, AttributeDesignator,
    EnvironmentAttributeDesignator, ResourceAttributeDesignator,
    SubjectAttributeDesignator)
from ndg.xacml.core.attributeselector import AttributeSelector
from ndg.xacml.core.attributevalue import (AttributeValue,
                                           AttributeValueClassFactory)
from ndg.xacml.core.condition import Condition
from ndg.xacml.core.context.action import Action
from ndg.xacml.core.context.environment import Environment
from ndg.xacml.core.context.handler import CtxHandlerBase
from ndg.xacml.core.context.pdp import PDP
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.resource import Resource
from ndg.xacml.core.context.response import Response
from ndg.xacml.core.context.result import Decision, Result
from ndg.xacml.core.context.subject import Subject
from ndg.xacml.core.functions import AbstractFunction, functionMap
from ndg.xacml.core.policy import Policy
from ndg.xacml.core.policybase import PolicyBase
from ndg.xacml.core.policyset import PolicySet
from ndg.xacml.core.rule import Effect, Rule
from ndg.xacml.core.target import Target
from ndg.xacml.finder.localpolicyfinder import LocalPolicyFinder
from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
from ndg.xacml.parsers.etree.attributevaluereader import (
    DataTypeReaderClassFactory, ETreeDataTypeReaderBase)
from ndg.xacml.parsers.etree.context import (
    ActionElementTree, AttributeElementTree, DecisionElementTree,
    EnvironmentElementTree, RequestElementTree, ResourceElementTree,
    ResponseElementTree, ResultElementTree, SubjectElementTree)
from ndg.xacml.parsers.etree.factory import ReaderFactory
from ndg.xacml.utils import TypedList
from ndg.xacml.utils.etree import prettyPrint
from ndg.xacml.utils.xpath_selector import EtreeXPathSelector

from vp import emit, gen, model

avFactory = AttributeValueClassFactory()
CLASSES = dict((t, avFactory(u)) for t, u in model.TYPES.items())
DESIGNATORS = {'Subject': SubjectAttributeDesignator,
               'Resource': ResourceAttributeDesignator,
               'Action': ActionAttributeDesignator,
               'Environment': EnvironmentAttributeDesignator}
BACKEND = 'lxml' if ndg.xacml.Config.use_lxml else 'etree'


class ProbeError(Exception):
    pass


class UntoldError(Exception):
    """One of which no text can be made"""

    def __str__(self):
        raise ValueError('no text')
    __repr__ = __str__


ERROR_KINDS = {}


def _error_kinds():
    from ndg.xacml.core.context import exceptions as X
    from ndg.xacml.core.functions import UnsupportedFunctionError
    from ndg.xacml.parsers import XMLParseError
    kinds = {
        'ProbeError': ProbeError, 'UntoldError': UntoldError,
        'KeyError': KeyError,
        'TypeError': TypeError, 'ValueError': ValueError,
        'AttributeError': AttributeError, 'IndexError': IndexError,
        'StopIteration': StopIteration, 'RecursionError': RecursionError,
        'UnicodeError': UnicodeError, 'ZeroDivisionError': ZeroDivisionError,
        'OSError': OSError, 'AssertionError': AssertionError,
        'NotImplementedError': NotImplementedError,
        'XacmlError': ndg.xacml.XacmlError, 'XMLParseError': XMLParseError,
        'UnsupportedFunctionError': UnsupportedFunctionError,
        'LookupError': LookupError, 'MemoryError': MemoryError,
    }
    for name in ('XacmlContextError', 'XacmlContextTypeError',
                 'MissingAttributeError'):
        if hasattr(X, name):
            kinds[name] = getattr(X, name)
    return kinds


ERROR_KINDS.update(_error_kinds())


def make_error(kind):
    cls = ERROR_KINDS[kind]
    try:
        return cls('probe')
    except Exception:
        return cls()


# --------------------------------------------------------- probe functions
CALLS = []          # (identifier, args) of every probe call, if switched on
RECORD = [False]


def _probe_result(name, extra):
    if name == 'true':
        return True
    if name == 'false':
        return False
    if name == 'raise':
        raise make_error(extra or 'ProbeError')
    return {
        'none': lambda: None, 'str': lambda: 'x', 'emptystr': lambda: '',
        'int1': lambda: 1, 'int0': lambda: 0,
        'attrtrue': lambda: CLASSES['boolean'](value=True),
        'attrfalse': lambda: CLASSES['boolean'](value=False),
        'attrstr': lambda: CLASSES['string'](value='true'),
        'emptybag': lambda: TypedList(CLASSES['boolean']),
        'truebag': lambda: TypedList(CLASSES['boolean'],
                                     [CLASSES['boolean'](value=True)]),
        'decision': lambda: Decision.PERMIT,
        'notimpl': lambda: NotImplemented,
    }[name]()


def probe_class(identifier):
    parts = identifier[len(model.PROBE):].split(':')
    name, extra = parts[0], parts[1] if len(parts) > 1 else None

    class Probe(AbstractFunction):
        FUNCTION_NS = identifier

        def evaluate(self, *inputs):
            if RECORD[0]:
                CALLS.append((identifier, inputs))
            if name == 'lt':
                a, b = inputs
                if type(a) is not type(b):
                    raise TypeError('types differ')
                return model.lt(a.value, b.value)
            if name == 'pick':
                # decided by the request value: a character of the policy
                # value starting at the request value's position
                a, b = inputs
                c = a.value[int(b.value)]
                if c == '!':
                    raise make_error(extra or 'ProbeError')
                return c == 't'
            return _probe_result(name, extra)
    return Probe


_registered = set()


def register_probe(identifier):
    if identifier not in _registered:
        functionMap.load_custom_function(identifier,
                                         function_factory=probe_class)
        _registered.add(identifier)


def register_all():
    for name in list(model.PROBES) + ['lt', 'pick']:
        register_probe(model.PROBE + name)
    for t in sorted(model.TYPES):
        if t not in model.STR_TYPES:
            DataTypeReaderClassFactory.addReader(model.TYPES[t],
                                                 _type_reader(t))


def _type_reader(t):
    class Reader(ETreeDataTypeReaderBase):
        @classmethod
        def parse(cls, elem, attributeValue):
            text = elem.text
            for c in elem:
                text = (text or '') + (c.tail or '')
            attributeValue.value = gen.decode(t, text)
    return Reader


# ----------------------------------------------------------------- requests
class _Own(object):
    """A class of the application's own, derived from one of the package"""
    __slots__ = ()

    def __init__(self):
        super(_Own, self).__init__()


class OwnRequest(_Own, Request):
    __slots__ = ()


class OwnSubject(_Own, Subject):
    __slots__ = ()


class OwnResource(_Own, Resource):
    __slots__ = ()


class OwnAction(_Own, Action):
    __slots__ = ()


class OwnEnvironment(_Own, Environment):
    __slots__ = ()


class OwnAttribute(_Own, Attribute):
    __slots__ = ()


class OwnDecision(Decision):
    __slots__ = ()


class AuditedDecision(OwnDecision):
    __slots__ = ()


OWN = {Request: OwnRequest, Subject: OwnSubject, Resource: OwnResource,
       Action: OwnAction, Environment: OwnEnvironment,
       Attribute: OwnAttribute}


def attribute(a, own=False):
    out = OwnAttribute() if own else Attribute()
    out.attributeId = a['id']
    # a data type of the application's own may be given instead
    out.dataType = a.get('dtype') or model.TYPES[a['type']]
    if a.get('issuer') is not None:
        out.issuer = a['issuer']
    for v in a['values']:
        out.attributeValues.append(CLASSES[a['type']](value=v))
    return out


def element(d):
    """Document dict -> element of the XML library in use"""
    e = ElementTree.Element(d['tag'])
    e.text = d['text'] or None
    for k, v in d['attrib'].items():
        e.set(k, v)
    for c in d['children']:
        e.append(element(c))
    return e


class Handler(CtxHandlerBase):
    """Context handler with scripted answers and a log of what it was asked"""
    __slots__ = ('answers', 'log', 'lists', 'hook')

    def __init__(self, answers):
        super(Handler, self).__init__()
        self.answers = answers
        self.log = []
        self.lists = {}
        self.hook = None

    def handlePEPRequest(self, pepRequest):
        raise NotImplementedError()

    def pipQuery(self, request, designator):
        self.log.append((request, designator))
        if self.hook is not None:
            self.hook(request, designator)
        ans = self.answers.get(designator.attributeId)
        if ans == 'raise':
            raise ProbeError('pip')
        if ans is None:
            return None
        key = designator.attributeId
        if key not in self.lists:       # always the handler's own list
            self.lists[key] = [CLASSES[t](value=v) for t, v in ans]
        return self.lists[key]


class RichHandler(Handler):
    """A handler with more to it than the interface asks for: nothing of it
    is the policy's business"""
    __slots__ = ('used', '__weakref__', '__dict__')
    __hash__ = None

    def __init__(self, answers):
        super(RichHandler, self).__init__(answers)
        self.used = []

    def __eq__(self, other):
        self.used.append('__eq__')
        return False

    def __enter__(self):
        self.used.append('__enter__')
        return self

    def __exit__(self, *exc):
        self.used.append('__exit__')

    def __call__(self, *args):
        self.used.append('__call__')

    def __iter__(self):
        self.used.append('__iter__')
        return iter(())

    def _extra(name):
        def method(self, *args, **kw):
            self.used.append(name)
        return method

    for _n in ('close', 'open', 'reset', 'flush', 'shutdown', 'clear',
               'get', 'items', 'keys', 'update', 'lookup', 'cache', 'copy',
               'stop', 'release', 'finish', 'start', 'register', 'query'):
        locals()[_n] = _extra(_n)
    del _n


class EmptyHandler(RichHandler):
    """A handler that counts what it holds, and holds nothing yet"""
    __slots__ = ()
    __hash__ = None

    def __len__(self):
        return 0


def request(r):
    """Request through the API"""
    own = bool(r.get('own'))

    def make(cls):
        return (OWN[cls] if own else cls)()
    out = make(Request)
    for s in r['subjects']:
        subject = make(Subject)
        if s.get('category') is not None:
            subject.subjectCategory = s['category']
        for a in s['attrs']:
            subject.attributes.append(attribute(a, own))
        out.subjects.append(subject)
    for s in r['resources']:
        resource = make(Resource)
        for a in s['attrs']:
            resource.attributes.append(attribute(a, own))
        if s.get('content') is not None:
            tag = '{%s}ResourceContent' % emit.CNS
            if s.get('bare'):
                e = element(dict(s['content'], tag=tag))
            else:
                e = ElementTree.Element(tag)
                e.append(element(s['content']))
            resource.resourceContent = e
        out.resources.append(resource)
    for key, cls in (('action', Action), ('env', Environment)):
        if r[key] is not None:
            h = make(cls)
            for a in r[key]['attrs']:
                h.attributes.append(attribute(a, own))
            setattr(out, 'action' if key == 'action' else 'environment', h)
    if r.get('pip') is not None:
        out.ctxHandler = HANDLERS[r['pip'].get('handler')](
            r['pip']['answers'])
    if r.get('doc') is not None:
        out.attributeSelector = EtreeXPathSelector(element(r['doc']))
    return out


HANDLERS = {None: Handler, 'rich': RichHandler, 'empty': EmptyHandler}


def parse_element(data):
    return ElementTree.parse(io.BytesIO(data)).getroot()


def request_from_xml(data):
    return RequestElementTree.fromXML(parse_element(data))


def dump_attribute(a):
    return {'id': a.attributeId, 'type': a.dataType, 'issuer': a.issuer,
            'values': [(v.dataType, v.value) for v in a.attributeValues]}


def dump_element(e):
    """Structure of an element, comments and processing instructions left
    out: (tag, attributes, content) with adjacent text joined"""
    items = [e.text or '']
    for c in e:
        if isinstance(c.tag, str):
            items.append(dump_element(c))
            items.append(c.tail or '')
        else:
            items[-1] += c.tail or ''
    return (e.tag, tuple(sorted(e.attrib.items())), tuple(items))


def dump_request(r):
    """Everything a policy can see of a request, as plain data"""
    def holder(h):
        return [dump_attribute(a) for a in h.attributes]
    return {
        'subjects': [(s.subjectCategory, holder(s)) for s in r.subjects],
        'resources': [(None if s.resourceContent is None
                       else dump_element(s.resourceContent), holder(s))
                      for s in r.resources],
        'action': None if r.action is None else holder(r.action),
        'env': None if r.environment is None else holder(r.environment)}


def model_dump(r, default_category=None):
    """The same for a request dict"""
    def holder(h):
        return [{'id': a['id'],
                 'type': a.get('dtype') or model.TYPES[a['type']],
                 'issuer': a.get('issuer'),
                 'values': [(model.TYPES[a['type']], v)
                            for v in a['values']]} for a in h['attrs']]

    def elem(d):
        items = [d['text']]
        for c in d['children']:
            items.append(elem(c))
            items.append('')
        return (d['tag'], tuple(sorted(d['attrib'].items())), tuple(items))
    res = []
    for s in r['resources']:
        c = s.get('content')
        tag = '{%s}ResourceContent' % emit.CNS
        res.append((None if c is None else
                    elem(dict(c, tag=tag)) if s.get('bare') else
                    (tag, (), ('', elem(c), '')), holder(s)))
    return {
        'subjects': [(default_category if s.get('category') is None
                      else s['category'], holder(s))
                     for s in r['subjects']],
        'resources': res,
        'action': None if r['action'] is None else holder(r['action']),
        'env': None if r['env'] is None else holder(r['env'])}


# ---------------------------------------------------------------- responses
def response(results):
    """Response through the API: [(decision text, resource id or None)]"""
    out = Response()
    for decision, rid in results:
        r = Result.createInitialised(decision=decision)
        if rid is not None:
            r.resourceId = rid
        out.results.append(r)
    return out


def dump_response(r):
    return [(None if x.decision is None else x.decision.value, x.resourceId)
            for x in r.results]


# ----------------------------------------------------------------- policies
def load(data, finder=None):
    """Policy or policy set from bytes (through the PDP interface)"""
    return pdp(data, finder).policy


def pdp(data, finder=None):
    if isinstance(data, bytes):
        data = io.BytesIO(data)
    if finder is None:
        return PDP.fromPolicySource(data, ReaderFactory)
    return PDP.fromPolicySource(data, ReaderFactory, finder)


def text(p):
    return emit.plain(emit.policy_node(p))


def decide(obj, req):
    """Decision text of a PDP or a policy for one request"""
    if isinstance(obj, PDP):
        response = obj.evaluate(req)
        assert_response(response)
        return response.results[0].decision.value
    d = obj.evaluate(req)
    return d.value if isinstance(d, Decision) else ('not a decision', d)


def assert_response(response):
    from vp.harness import Violation
    if not isinstance(response, Response):
        raise Violation('evaluation returned %r, not a response' % (response,))
    n = len(response.results)
    if n != 1:
        raise Violation('response with %d results' % n)
    d = response.results[0].decision
    if not isinstance(d, Decision) or d.value not in (
            'Permit', 'Deny', 'Indeterminate', 'NotApplicable'):
        raise Violation('result without a decision: %r' % (d,))


def short(uri):
    return model.URI2TYPE.get(uri, uri)


def to_result(x):
    """Value of an expression of the code under test -> model result"""
    if isinstance(x, AttributeValue):
        return ('v', short(x.dataType), x.value)
    if isinstance(x, TypedList):
        et = x.elementType
        ident = getattr(et, 'IDENTIFIER', None)
        return ('bag', short(ident), tuple(v.value for v in x))
    if isinstance(x, bool):
        return ('b', x)
    if isinstance(x, (int, float)):
        return ('n', x)
    if x is None:
        return ('o', None)
    if x is NotImplemented:
        return ('o', 'notimpl')
    if isinstance(x, Decision):
        return ('o', 'decision')
    return ('o', x)


def run_expr(expr, req):
    """@return: (model result, exception or None)"""
    try:
        return to_result(expr.evaluate(req)), None
    except Exception as e:
        return ('err',), e


# -------------------------------------------- building policies through the API
_DERIVED = {}
_USE_DERIVED = [False]


def _own(cls):
    """The class, or one derived from it while `derived` has been asked for"""
    if not _USE_DERIVED[0]:
        return cls
    if cls not in _DERIVED:
        _DERIVED[cls] = type('Own' + cls.__name__, (_Own, cls),
                             {'__slots__': ()})
    return _DERIVED[cls]


def api_derived(p):
    """The policy out of objects of classes of the application's own"""
    _USE_DERIVED[0] = True
    try:
        return api_policy(p)
    finally:
        _USE_DERIVED[0] = False


def api_value(v):
    out = CLASSES[v['type']](value=v['value'])
    return out


def api_src(s):
    if s['k'] == 'desig':
        d = _own(DESIGNATORS[s['cat']])()
        d.attributeId = s['id']
        d.dataType = model.TYPES[s['type']]
        if s.get('issuer') is not None:
            d.issuer = s['issuer']
        d.mustBePresent = bool(s.get('mbp'))
        return d
    x = _own(AttributeSelector)()
    x.requestContextPath = s['badpath'] if s.get('badpath') else \
        model.path_string(s['path'])
    x.dataType = model.TYPES.get(s['type'], s['type'])
    x.mustBePresent = bool(s.get('mbp'))
    return x


def api_expr(e):
    if e['k'] == 'val':
        return api_value(e)
    if e['k'] == 'apply':
        a = _own(Apply)()
        a.functionId = e['fn']
        for x in e['args']:
            a.expressions.append(api_expr(x))
        return a
    return api_src(e)


def api_target(t):
    from ndg.xacml.core import match as M
    from ndg.xacml.core import (action as A, environment as E, resource as R,
                                subject as S)
    out = _own(Target)()
    classes = {'subjects': (S.Subject, M.SubjectMatch),
               'resources': (R.Resource, M.ResourceMatch),
               'actions': (A.Action, M.ActionMatch),
               'environments': (E.Environment, M.EnvironmentMatch)}
    for sec in model.SECTIONS:
        for child in t.get(sec) or ():
            c = _own(classes[sec][0])()
            for m in child:
                x = _own(classes[sec][1])()
                x.attributeValue = api_value(m['value'])
                x.matchId = m['fn']
                src = api_src(m['src'])
                if isinstance(src, AttributeSelector):
                    x.attributeSelector = src
                else:
                    x.attributeDesignator = src
                c.matches.append(x)
            getattr(out, sec).append(c)
    return out


def api_rule(r):
    out = _own(Rule)()
    if r['id'] is not None:
        out.id = r['id']
    out.effect = {'Permit': Effect.PERMIT, 'Deny': Effect.DENY}[r['effect']]
    if r.get('target') is not None:
        out.target = api_target(r['target'])
    if r.get('cond') is not None:
        c = _own(Condition)()
        c.expression = api_expr(r['cond'])
        out.condition = c
    if r.get('desc') is not None:
        out.description = r['desc']
    return out


def api_policy(p):
    pol = p['k'] == 'Policy'
    out = _own(Policy if pol else PolicySet)()
    if pol:
        if p['id'] is not None:
            out.policyId = p['id']
        out.ruleCombiningAlgId = model.RALG + p['alg']
        for r in p['rules']:
            out.rules.append(api_rule(r))
    else:
        if p['id'] is not None:
            out.policySetId = p['id']
        out.policyCombiningAlgId = model.PALG + p['alg']
        for c in p['children']:
            out.policies.append(api_policy(c))
    if p.get('target') is not None:
        out.target = api_target(p['target'])
    return out


# ------------------------------------------------------- comparing trees
def diff_src(s, o, where):
    if s['k'] == 'desig':
        want = DESIGNATORS[s['cat']]
        if type(o) is not want:
            yield where, want.__name__, type(o).__name__
            return
        for name, val in (('attributeId', s['id']),
                          ('dataType', model.TYPES.get(s['type'], s['type'])),
                          ('issuer', s.get('issuer')),
                          ('mustBePresent', bool(s.get('mbp')))):
            if getattr(o, name) != val or \
                    type(getattr(o, name)) is not type(val):
                yield where + '.' + name, val, getattr(o, name)
        return
    if type(o) is not AttributeSelector:
        yield where, 'AttributeSelector', type(o).__name__
        return
    path = s['badpath'] if s.get('badpath') else model.path_string(s['path'])
    for name, val in (('requestContextPath', path),
                      ('dataType', model.TYPES.get(s['type'], s['type']))):
        if getattr(o, name) != val:
            yield where + '.' + name, val, getattr(o, name)
    if bool(o.mustBePresent) != bool(s.get('mbp')):
        yield where + '.mustBePresent', s.get('mbp'), o.mustBePresent


def diff_expr(e, o, where):
    if e['k'] == 'val':
        if not isinstance(o, AttributeValue):
            yield where, 'AttributeValue', type(o).__name__
        elif o.dataType != model.TYPES[e['type']] or \
                o.value != e['value'] or \
                type(o.value) is not type(e['value']) or \
                type(o) is not CLASSES[e['type']]:
            yield where, (e['type'], e['value']), (o.dataType, o.value,
                                                   type(o).__name__)
    elif e['k'] == 'apply':
        if not isinstance(o, Apply):
            yield where, 'Apply', type(o).__name__
            return
        if o.functionId != e['fn']:
            yield where + '.functionId', e['fn'], o.functionId
        if o.function is None:
            yield where + '.function', 'a function', None
        elif getattr(o.function, 'FUNCTION_NS', e['fn']) != e['fn']:
            yield where + '.function', e['fn'], o.function.FUNCTION_NS
        if len(o.expressions) != len(e['args']):
            yield where + ' arguments', len(e['args']), len(o.expressions)
            return
        for i, (a, b) in enumerate(zip(e['args'], o.expressions)):
            for d in diff_expr(a, b, '%s.%d' % (where, i)):
                yield d
    else:
        for d in diff_src(e, o, where):
            yield d


def diff_target(t, o, where):
    if t is None:
        if o is not None and any(len(getattr(o, s)) for s in model.SECTIONS):
            yield where, None, o
        return
    if o is None:
        if any(t.get(s) for s in model.SECTIONS):
            yield where, 'a target', None
        return
    names = {'subjects': 'Subject', 'resources': 'Resource',
             'actions': 'Action', 'environments': 'Environment'}
    for sec in model.SECTIONS:
        want = t.get(sec) or []
        got = getattr(o, sec)
        w = where + '.' + sec
        if len(want) != len(got):
            yield w, len(want), len(got)
            continue
        for i, (wc, gc) in enumerate(zip(want, got)):
            if type(gc).__name__ != names[sec]:
                yield w, names[sec], type(gc).__name__
            if len(wc) != len(gc.matches):
                yield '%s.%d matches' % (w, i), len(wc), len(gc.matches)
                continue
            for j, (wm, gm) in enumerate(zip(wc, gc.matches)):
                ww = '%s.%d.%d' % (w, i, j)
                if type(gm).__name__ != names[sec] + 'Match':
                    yield ww, names[sec] + 'Match', type(gm).__name__
                if gm.matchId != wm['fn']:
                    yield ww + '.matchId', wm['fn'], gm.matchId
                if gm.function is None or getattr(
                        gm.function, 'FUNCTION_NS', wm['fn']) != wm['fn']:
                    yield ww + '.function', wm['fn'], gm.function
                for d in diff_expr(dict(wm['value'], k='val'),
                                   gm.attributeValue, ww + '.value'):
                    yield d
                sel = wm['src']['k'] == 'sel'
                used, other = gm.attributeDesignator, gm.attributeSelector
                if sel:
                    used, other = other, used
                if other is not None:
                    yield ww, 'one source', other
                for d in diff_src(wm['src'], used, ww + '.src'):
                    yield d


def norm_desc(s):
    return (s.strip() or None) if s is not None else None


def diff_policy(p, o, where='', index=None):
    """Differences between a policy dict and a loaded policy"""
    if p['k'] in ('PolicyRef', 'PolicySetRef'):
        p = index[(p['k'][:-3], p['ref'])]
    where = where + '/' + p['id'][:12]
    pol = p['k'] == 'Policy'
    if type(o) is not (Policy if pol else PolicySet):
        yield where, p['k'], type(o).__name__
        return
    checks = [('description', norm_desc(p.get('desc'))),
              ('version', p.get('version') or '2.0'), ('ident', p['id'])]
    if pol:
        checks += [('policyId', p['id']),
                   ('ruleCombiningAlgId', model.RALG + p['alg'])]
        defaults = o.policyDefaults
    else:
        checks += [('policySetId', p['id']),
                   ('policyCombiningAlgId', model.PALG + p['alg'])]
        defaults = o.policySetDefaults
    for name, val in checks:
        got = getattr(o, name)
        if name == 'description':
            got = norm_desc(got)
        if got != val:
            yield where + '.' + name, val, got
    xp = None if defaults is None else defaults.xpathVersion
    if xp != p.get('defaults'):
        yield where + '.defaults', p.get('defaults'), xp
    for d in diff_target(p.get('target'), o.target, where + '.target'):
        yield d
    if pol:
        if len(o.rules) != len(p['rules']):
            yield where + '.rules', len(p['rules']), len(o.rules)
            return
        for r, ro in zip(p['rules'], o.rules):
            for d in diff_rule(r, ro, where):
                yield d
    else:
        if len(o.policies) != len(p['children']):
            yield where + '.policies', len(p['children']), len(o.policies)
            return
        for c, co in zip(p['children'], o.policies):
            for d in diff_policy(c, co, where, index):
                yield d


def diff_rule(r, o, where):
    where = where + '.' + r['id'][:12]
    if o.id != r['id']:
        yield where + '.id', r['id'], o.id
    eff = o.effect.value if o.effect is not None else None
    if eff != r['effect']:
        yield where + '.effect', r['effect'], eff
    if norm_desc(o.description) != norm_desc(r.get('desc')):
        yield where + '.description', r.get('desc'), o.description
    for d in diff_target(r.get('target'), o.target, where + '.target'):
        yield d
    if r.get('cond') is None:
        if o.condition is not None:
            yield where + '.condition', None, o.condition
    elif o.condition is None:
        yield where + '.condition', 'a condition', None
    else:
        for d in diff_expr(r['cond'], o.condition.expression,
                           where + '.condition'):
            yield d


def dump_policy(o):
    """Everything readable of a loaded policy, as plain data"""
    def src(x):
        if x is None:
            return None
        if isinstance(x, AttributeSelector):
            return ('sel', x.requestContextPath, x.dataType, x.mustBePresent)
        return (type(x).__name__, x.attributeId, x.dataType, x.issuer,
                x.mustBePresent)

    def expr(x):
        if isinstance(x, AttributeValue):
            return (type(x).__name__, x.dataType, x.value)
        if isinstance(x, Apply):
            return ('apply', x.functionId,
                    getattr(x.function, 'FUNCTION_NS', None),
                    [expr(a) for a in x.expressions])
        return src(x)

    def target(t):
        if t is None:
            return None
        return [[[(type(m).__name__, m.matchId, expr(m.attributeValue),
                   src(m.attributeDesignator), src(m.attributeSelector))
                  for m in c.matches] for c in getattr(t, s)]
                for s in model.SECTIONS]
    if isinstance(o, Policy):
        d = o.policyDefaults
        return ('Policy', o.policyId, o.ruleCombiningAlgId, o.version,
                o.description, None if d is None else d.xpathVersion,
                type(o.ruleCombiningAlg).__name__, target(o.target),
                [(r.id, r.effect.value, r.description, target(r.target),
                  None if r.condition is None
                  else expr(r.condition.expression)) for r in o.rules])
    d = o.policySetDefaults
    return ('PolicySet', o.policySetId, o.policyCombiningAlgId, o.version,
            o.description, None if d is None else d.xpathVersion,
            type(o.policyCombiningAlg).__name__, target(o.target),
            [dump_policy(c) for c in o.policies])


def walk(p, o, index=None):
    """Pairs (policy dict, loaded policy) of a tree, outermost first"""
    if p['k'] in ('PolicyRef', 'PolicySetRef'):
        p = index[(p['k'][:-3], p['ref'])]
    yield p, o
    if p['k'] == 'PolicySet':
        for c, co in zip(p['children'], o.policies):
            for x in walk(c, co, index):
                yield x


# ------------------------------------------------- model results as objects
def obj_of(res):
    """Object of the code under test for a model result"""
    if res[0] == 'v':
        return CLASSES[res[1]](value=res[2])
    if res[0] == 'bag':
        cls = CLASSES.get(res[1], res[1])
        return TypedList(cls, [CLASSES[res[1]](value=v) for v in res[2]])
    return res[1]


def freeze(x):
    """Content of an argument, to see whether a call changed it"""
    if isinstance(x, AttributeValue):
        return ('v', type(x).__name__, x.dataType, repr(x.value))
    if isinstance(x, TypedList):
        return ('bag', repr(x.elementType), [freeze(i) for i in x],
                [id(i) for i in x])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(i) for i in x])
    return repr(x)


def call(fn, args):
    """@return: (model result, exception or None, raw result)"""
    f = functionMap[fn]()
    try:
        r = f.evaluate(*args)
    except Exception as e:
        return ('err',), e, None
    return to_result(r), None, r
