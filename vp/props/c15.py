"""Request contexts survive serialisation to XML and parsing"""
import io

from vp import emit, gen, model, mon, sut
from vp.emit import Node
from vp.sut import ElementTree

META = {
    'rule': 'one evaluation = the content (or a decision, or the serialised'
            ' form) of a request compared before and after a round trip, or'
            ' one malformed request document refused; distinct = distinct'
            ' (request shape, text features, route) or (mutation, place)',
    'assumptions': [
        'only data types whose values are text are serialised, and every'
        ' attribute has a value, as the serialiser and the parser require',
        'the standard library writes a carriage return in text unescaped'
        ' (its own defect), so such values are then compared without going'
        ' through text',
        'an Action or Environment element left out is not refused: the'
        ' request then has none'],
    'floors': {'large.attrs': 8, 'large.holders': 8,
               'large.text': 8, 'large.values': 8, 'roundtrip': 1000, 'roundtrip.text': 500, 'content': 100,
               'content.bare': 30, 'own': 100, 'changed': 500,
               'nocategory': 100, 'issuer': 300, 'special': 300,
               'empty': 100, 'decided': 1000, 'decision.Permit': 50,
               'decision.Deny': 50, 'spelling': 500, 'refused': 1000,
               'm.drop': 100, 'm.unknown': 100, 'm.twice': 100,
               'm.type': 50, 'm.root': 50, 'm.novalue': 50, 'm.child': 50,
               'm.part': 50, 'kept': 300, 'altered': 300,
               'part.Subject': 300, 'part.Resource': 300, 'part.Action': 100,
               'part.Environment': 100, 'part.Attribute': 500,
               'part.refused': 2000},
}

TEXTS = ['', ' ', '\n', '\t', '  a  ', 'a\nb', '\n a \n', 'a\r\nb', '\r',
         '<a>', '</AttributeValue>', '&amp;', '&lt;', ']]>', '"', "'",
         '"\'', '\u00e9', '\U0001f600', '\u2028', '\u0085', '\u00a0', '\ufeff',
         'e\u0301', '\x7f', '\u200b', '\ufffd', 'x' * 3000, 'a' + ' ' * 200,
         '<!-- c -->', '<?pi?>', '{urn:x}y', '${a}', '%s', '0', 'None',
         'true', '-', 'a\tb', 'a  b']
IDTEXTS = ['urn:x', '', ' ', 'a b', '<&>"\'', '\u00e9', 'x' * 500, 'a\tb',
           'a\nb', 'a\rb', '{urn:x}y', 'None', ' urn:x ']


def attrs_of(m):
    for h in m['subjects'] + m['resources'] + [m['action'], m['env']]:
        for a in h['attrs']:
            yield a


def has_cr(m):
    def doc(d):
        return '\r' in d['text'] or any('\r' in v for v in
                                        d['attrib'].values()) or \
            any(doc(c) for c in d['children'])
    if any(s.get('category') and '\r' in s['category']
           for s in m['subjects']):
        return True
    for s in m['resources']:
        if s.get('content') is not None and doc(s['content']):
            return True
    for a in attrs_of(m):
        if any('\r' in x for x in a['values'] + [a['id'],
                                                 a.get('issuer') or '']):
            return True
    return False


def make(rng, w, ctx=None):
    count = ctx.count if ctx is not None else (lambda *a: None)
    m = w.request(xml=True)
    m['doc'] = None
    for s in m['subjects']:
        k = rng.random()
        if k < .25:
            s['category'] = None
            count('nocategory')
        elif k < .35:
            s['category'] = rng.choice(IDTEXTS)
    for s in m['resources']:
        if rng.random() < .35:
            s['content'] = w.make_doc(2, 8)
            count('content')
            if rng.random() < .3:
                # text or attributes of the content itself, or nothing at all
                s['bare'] = True
                if rng.random() < .6:
                    s['content']['children'] = []
                    s['content']['text'] = rng.choice(['', ' ', 'text', '0'])
                count('content.bare')
    for a in attrs_of(m):
        if rng.random() < .3:
            a['values'][rng.randrange(len(a['values']))] = rng.choice(TEXTS)
            count('special')
        if '' in a['values']:
            count('empty')
        if rng.random() < .06:
            a['id'] = rng.choice(IDTEXTS)
        if rng.random() < .06:
            a['issuer'] = rng.choice(IDTEXTS)
        if a.get('issuer') is not None:
            count('issuer')
        if rng.random() < .1:
            a['values'] = a['values'] * rng.randint(2, 4)
    if rng.random() < .02:
        count('large.' + w.enlarge(m)[0])
    return m


def shape(m):
    return (len(m['subjects']), len(m['resources']),
            tuple(sorted((a['type'], len(a['values']),
                          a.get('issuer') is not None)
                         for a in attrs_of(m))))


def world(rng):
    return gen.World(rng, types=['string'] + [
        rng.choice(model.STR_TYPES) for _ in range(rng.randint(0, 2))],
        selectors=0, probes=False, errors=.03)


PARTS = {'Subject': sut.SubjectElementTree,
         'Resource': sut.ResourceElementTree,
         'Action': sut.ActionElementTree,
         'Environment': sut.EnvironmentElementTree,
         'Attribute': sut.AttributeElementTree,
         'Request': sut.RequestElementTree}
# ------------------------------------------------------------- malformations
HOLDERS = ('Subject', 'Resource', 'Action', 'Environment')
NAMES = ['Unknown', 'attribute', 'Attributes', 'Target', 'Policy', 'Subjects',
         'Request', 'AttributeValue', 'Resource-Content', 'Status',
         '{urn:other}ext', 'MatchId', 'X']


class Mutator:
    def __init__(self, rng):
        self.rng = rng

    def pick(self, root, names):
        nodes = [n for n in root.walk() if n.tag in names]
        return self.rng.choice(nodes) if nodes else None

    def put(self, node, child):
        node.children.insert(self.rng.randint(0, len(node.children)), child)

    def m_drop(self, root):
        n = self.pick(root, ('Attribute',))
        if n is None:
            return None
        a = self.rng.choice(['AttributeId', 'DataType'])
        v = n.attrib.pop(a)
        k = self.rng.random()
        if k < .3:
            n.attrib[a.lower()] = v
        elif k < .5:
            emit.foreign(self.rng, n, a, v, emit.CNS)
            return 'fx:' + a
        return a

    def m_unknown(self, root):
        n = self.pick(root, ('Request',) + HOLDERS + ('Attribute',))
        bad = list(NAMES)
        if n.tag == 'Attribute':
            bad.remove('AttributeValue')
            bad += list(HOLDERS) + ['Attribute', 'ResourceContent']
        elif n.tag == 'Request':
            bad += ['Attribute', 'ResourceContent']
        else:
            bad += list(HOLDERS)
            if n.tag != 'Resource':
                bad.append('ResourceContent')
        c = Node(self.rng.choice(bad))
        if self.rng.random() < .4:
            c.children = [Node('Attribute', {
                'AttributeId': 'urn:x', 'DataType': model.TYPES['string']},
                [Node('AttributeValue', {}, ['v'])])]
        self.put(n, c)
        return n.tag + '/' + c.tag

    def m_twice(self, root):
        k = self.rng.choice(['Action', 'Environment', 'ResourceContent'])
        n = self.pick(root, (k,))
        if n is None:
            return None
        if k == 'ResourceContent':
            for r in root.walk():
                if r.tag == 'Resource' and n in r.children:
                    self.put(r, n.copy())
        else:
            self.put(root, n.copy() if self.rng.random() < .5 else Node(k))
        return k

    def m_type(self, root):
        n = self.pick(root, ('Attribute',))
        if n is None:
            return None
        t = n.attrib['DataType']
        n.attrib['DataType'] = gen.near_type(self.rng, t)
        return 'DataType'

    def m_root(self, root):
        root.tag = self.rng.choice(['request', 'Response', 'Requests',
                                    'Policy', 'Subject', 'Attribute',
                                    'Result', 'X', 'XRequest'])
        return root.tag

    def m_novalue(self, root):
        n = self.pick(root, ('Attribute',))
        if n is None:
            return None
        n.children = [] if self.rng.random() < .7 else ['text']
        return 'Attribute'

    def m_child(self, root):
        n = self.pick(root, ('AttributeValue',))
        if n is None:
            return None
        c = Node(self.rng.choice(['b', 'AttributeValue', 'Attribute']), {},
                 ['t'] if self.rng.random() < .5 else [])
        s = n.children[0] if n.children else ''
        if len(s) > 1:
            j = self.rng.randint(1, len(s) - 1)
            n.children = [s[:j], c, s[j:]]
        else:
            self.put(n, c)
        return 'AttributeValue'

    def m_part(self, root):
        """One part in place of another"""
        n = self.pick(root, HOLDERS + ('Attribute',))
        if n is None:
            return None
        old = n.tag
        if n.tag == 'Attribute':
            n.tag = self.rng.choice(HOLDERS + ('AttributeValue', 'Attr'))
        else:
            n.tag = self.rng.choice(['Attribute', 'AttributeValue',
                                     n.tag + 's', n.tag.lower()])
        return old + '>' + n.tag


MUTATIONS = [n for n in sorted(vars(Mutator)) if n.startswith('m_')]


def squeeze(e):
    """Without the default namespace emit.py gives, and ignorable white
    space"""
    tag, at, items = e
    return (tag.replace('{%s}' % emit.CNS, ''), at, tuple(
        squeeze(x) if isinstance(x, tuple) else
        x.strip() if len(items) > 1 else x for x in items))


def run(ctx):
    sut.register_all()

    def back(rng, elem, m):
        """One of the routes from a serialised request to a request"""
        routes = ['direct']
        if ctx.backend == 'lxml' or not has_cr(m):
            routes += ['text', 'text', 'file', 'declared']
        route = rng.choice(routes)
        if route == 'direct':
            before = ElementTree.tostring(elem)
            got = sut.RequestElementTree.fromXML(elem)
            ctx.check(ElementTree.tostring(elem) == before, 'reading a request'
                      ' changes the element it is read from',
                      lambda: repr(before))
            return got, route
        ctx.count('roundtrip.text')
        if route == 'text':
            data = ElementTree.tostring(elem)
        elif route == 'declared':
            enc = rng.choice(['utf-8', 'utf-16', 'us-ascii', 'iso-8859-1'])
            data = ElementTree.tostring(elem, encoding=enc)
        else:
            ElementTree.ElementTree(elem).write('r.xml', encoding='utf-8')
            with open('r.xml', 'rb') as f:
                data = f.read()
        return sut.request_from_xml(data), route

    def roundtrip(rng, i):
        w = world(rng)
        m = make(rng, w, ctx)
        req = sut.request(m)
        before = sut.dump_request(req)
        detail = lambda: mon.show(m)  # noqa
        ctx.check(before == sut.model_dump(m), 'the request does not have '
                  'the content it was given', detail)
        elem = sut.RequestElementTree.toXML(req)
        first = sut.dump_element(elem)
        ctx.check(sut.dump_request(req) == before, lambda: 'serialising '
                  'changed the request: %s' % mon.show(
                      [before, sut.dump_request(req)]), detail)
        again = sut.RequestElementTree.toXML(req)
        ctx.check(sut.dump_element(again) == first, 'serialising a second '
                  'time gives another document', detail)
        got, route = back(rng, elem, m)
        want = sut.model_dump(m, gen.DEFAULT_CATEGORY)
        content = sut.dump_request(got)
        ctx.check(content == want, lambda: 'the request read back (%s) has '
                  'another content: %s' % (route, mon.show([want, content])),
                  detail)
        ctx.check(sut.dump_request(req) == before, 'reading it back changed '
                  'the original', detail)
        ctx.count('roundtrip')
        ctx.count('own', bool(m.get('own')))
        # once more from the request read back, through the other document
        elem2 = sut.RequestElementTree.toXML(got)
        got2, route2 = back(rng, elem2, m)
        ctx.check(sut.dump_request(got2) == want, lambda: 'the second round '
                  'trip (%s after %s) loses content: %s' % (
                      route2, route, mon.show([want, sut.dump_request(got2)])),
                  detail)
        ctx.check(sut.dump_request(got) == want, 'serialising changed the '
                  'request that had been read', detail)
        for _ in range(2):
            p = w.any_policy(m, depth=1)
            o = sut.load(sut.text(p))
            a, b, c = (sut.decide(o, r) for r in (req, got, got2))
            ctx.check(a == b == c, lambda: 'decisions for the request and '
                      'its copies differ: %r %r %r' % (a, b, c),
                      lambda: mon.describe(p, m))
            want_d = model.policy(p, m)
            ctx.check(b in want_d, lambda: 'decision %r for the request read '
                      'back, expected %s' % (b, sorted(want_d)),
                      lambda: mon.describe(p, m))
            ctx.count('decided')
            ctx.count('decision.' + a)
        ctx.seen(shape(m), route, route2)
        ctx.sample({'request_xml': ElementTree.tostring(elem)[:600]})
    ctx.group('roundtrip', 3600, 24000, roundtrip)

    def independent(rng, i):
        """Later changes of the request and its document stay apart"""
        w = world(rng)
        m = make(rng, w)
        req = sut.request(m)
        elem = sut.RequestElementTree.toXML(req)
        got = sut.RequestElementTree.fromXML(elem)
        want = sut.model_dump(m, gen.DEFAULT_CATEGORY)
        # the document may be thrown away or altered by its owner, except for
        # the resource content, which the parsed request refers to
        for s in req.subjects:
            for a in s.attributes:
                a.attributeValues.append(
                    sut.CLASSES[sut.short(a.dataType)](value='later'))
            s.subjectCategory = 'urn:later'
        req.subjects.append(sut.Subject())
        ctx.check(sut.dump_request(got) == want, 'changing the request '
                  'changes the one read from its document')
        got.subjects.append(sut.Subject())
        n = len(req.subjects)
        ctx.check(n == len(m['subjects']) + 1, 'changing the request read '
                  'back changes the original')
        ctx.count('kept')
        # both are serialised as they are now
        for x in (req, got):
            for h in list(x.subjects) + list(x.resources) + [
                    x.action, x.environment]:
                k = rng.random()
                if k < .3:
                    h.attributes.append(sut.attribute({
                        'id': 'later', 'type': 'string', 'values': ['l']}))
                elif k < .5 and len(h.attributes):
                    del h.attributes[rng.randrange(len(h.attributes))]
                elif k < .7 and len(h.attributes):
                    rng.choice(h.attributes).attributeId = 'renamed'
                elif k < .9 and isinstance(h, sut.Resource):
                    h.resourceContent = None
            now = sut.dump_request(x)
            now['subjects'] = [(gen.DEFAULT_CATEGORY if c is None else c, a)
                               for c, a in now['subjects']]
            after = sut.dump_request(sut.RequestElementTree.fromXML(
                sut.RequestElementTree.toXML(x)))
            ctx.check(after == now, lambda: 'a changed request is serialised '
                      'with another content: %s' % mon.show([now, after]))
            ctx.count('changed')
    ctx.group('independent', 640, 3840, independent)

    def parts(rng, i):
        """The parts of a request serialised and read on their own"""
        w = world(rng)
        m = make(rng, w)
        req = sut.request(m)
        want = sut.model_dump(m, gen.DEFAULT_CATEGORY)
        before = sut.dump_request(req)
        things = [('Subject', s, lambda h, k=k: (
            (h.subjectCategory, [sut.dump_attribute(a)
                                 for a in h.attributes]),
            want['subjects'][k])) for k, s in enumerate(req.subjects)]
        things += [('Resource', s, lambda h, k=k: (
            (None if h.resourceContent is None else
             sut.dump_element(h.resourceContent),
             [sut.dump_attribute(a) for a in h.attributes]),
            want['resources'][k])) for k, s in enumerate(req.resources)]
        for name, h, w_ in (('Action', req.action, want['action']),
                            ('Environment', req.environment, want['env'])):
            if h is not None:
                things.append((name, h, lambda h, w_=w_: (
                    [sut.dump_attribute(a) for a in h.attributes], w_)))
        for name, h, _ in list(things):
            for a in h.attributes:
                things.append(('Attribute', a, lambda h, a=a: (
                    sut.dump_attribute(h), sut.dump_attribute(a))))
        rng.shuffle(things)
        made = []
        for name, h, both in things[:8]:
            cls = PARTS[name]
            elem = cls.toXML(h)
            got = cls.fromXML(elem)
            ctx.check(isinstance(got, getattr(sut, name)), lambda: 'reading '
                      'a %s on its own gives a %s' % (name, type(got)))
            a, b = both(got)
            ctx.check(a == b, lambda: 'a %s serialised on its own is read '
                      'back with another content: %s' % (
                          name, mon.show([b, a])))
            ctx.count('part.' + name)
            ctx.seen('part', name, len(h.attributes) if name != 'Attribute'
                     else h.dataType)
            other = rng.choice([n for n in PARTS if n != name])
            try:
                PARTS[other].fromXML(elem)
                ok = True
            except Exception:
                ok = False
            ctx.check(not ok, lambda: 'the element of a %s is read as a %s' %
                      (name, other), lambda: ElementTree.tostring(elem)[:900])
            try:
                PARTS[other].toXML(h)
                ok = True
            except Exception:
                ok = False
            ctx.check(not ok, lambda: 'a %s is serialised as a %s' %
                      (name, other))
            ctx.count('part.refused', 2)
            made.append((name, h, both, cls, elem))
        # what was serialised belongs to its receiver
        for name, h, both, cls, elem in made:
            first = sut.dump_element(elem)
            for e in list(elem.iter()):
                if isinstance(e.tag, str):
                    e.text = 'altered'
                    e.set('altered', '1')
            for e in list(elem):
                elem.remove(e)
            ctx.check(sut.dump_element(cls.toXML(h)) == first, lambda:
                      'altering the element of a %s changes the next one' %
                      name)
        whole = sut.RequestElementTree.toXML(req)
        first = sut.dump_element(whole)
        for e in list(whole.iter()):
            if isinstance(e.tag, str):
                e.text = 'altered'
        ctx.check(sut.dump_request(req) == before, 'altering the elements '
                  'made from a request changes the request')
        ctx.check(sut.dump_element(sut.RequestElementTree.toXML(req)) ==
                  first, 'altering the element made from a request changes '
                  'the next one')
        ctx.count('altered')
    ctx.group('parts', 1200, 8000, parts)

    def spelling(rng, i):
        w = world(rng)
        m = make(rng, w)
        node = emit.request_node(m)
        strange = rng.random() < .2
        if strange:
            # attributes of other namespaces: refused or of no effect
            for n in node.children:
                if isinstance(n, Node):
                    for c in n.children:
                        if isinstance(c, Node) and c.tag == 'Attribute' and \
                                rng.random() < .5:
                            emit.strangers(rng, c, emit.CNS)
                    if rng.random() < .3:
                        emit.foreign(rng, n, 'SubjectCategory', 'x', emit.CNS)
        data = emit.varied(node, rng, ns=emit.CNS)
        try:
            got = sut.dump_request(sut.request_from_xml(data))
        except Exception:
            if strange:
                ctx.count('strangers.refused')
                return
            raise
        ctx.count('strangers', strange)
        # ignorable white space between the children of a resource content
        # element is content there
        want = sut.model_dump(m, gen.DEFAULT_CATEGORY)
        for x in (got, want):
            x['resources'] = [(None if c is None else squeeze(c), a)
                              for c, a in x['resources']]
        ctx.check(got == want, lambda: 'the request read has another content:'
                  ' %s' % mon.show([want, got]), lambda: repr(data))
        ctx.count('spelling')
        ctx.seen('spelling', shape(m))
    ctx.group('spelling', 2400, 14400, spelling)

    def malformed(rng, i):
        w = world(rng)
        m = make(rng, w)
        node = emit.request_node(m)
        for _ in range(6):
            name = MUTATIONS[(i + _) % len(MUTATIONS)]
            tree = node.copy()
            where = getattr(Mutator(rng), name)(tree)
            if where is None:
                continue
            data = emit.plain(tree, ns=emit.CNS) if rng.random() < .6 else \
                emit.varied(tree, rng, ns=emit.CNS, encoding='utf-8')
            try:
                elem = sut.parse_element(data)
            except Exception:
                raise RuntimeError('harness: %r' % data)
            try:
                got = sut.RequestElementTree.fromXML(elem)
            except Exception as e:
                got = None
                exc = type(e).__name__
            ctx.check(got is None, lambda: 'a malformed request (%s in %s) '
                      'was read' % (name[2:], where),
                      lambda: data.decode('utf-8', 'replace'))
            ctx.count('refused')
            ctx.count(name.replace('_', '.'))
            ctx.seen(name, where, exc)
        try:
            sut.RequestElementTree.toXML(rng.choice(
                [None, 'x', sut.Response(), sut.Subject(), 1, {}]))
            ok = True
        except Exception:
            ok = False
        ctx.check(not ok, 'something that is no request was serialised')
    ctx.group('malformed', 2000, 12000, malformed)
