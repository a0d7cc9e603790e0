"""Pretty-printed XML parses back to the same content"""
import io
import xml.etree.ElementTree as StdET

from ndg.xacml.utils.etree import prettyPrint
from vp import emit, gen, mon, sut
from vp.props import c15, c16
from vp.sut import ElementTree

META = {
    'rule': 'one evaluation = one printed element parsed back (by the standard'
            ' library and by the library in use) and compared with the'
            ' element, an element compared before and after printing, or two'
            ' prints of it; distinct = distinct (source, namespaces, features,'
            ' size)',
    'assumptions': [
        'white space at either end of a run of text is not compared, as'
        ' printing adds and drops it',
        'where comments or processing instructions stand inside text, the'
        ' text is compared without white space',
        'elements lxml itself cannot write (prefixes mixed up when moving an'
        ' element between documents) are discarded and counted'],
    'floors': {'namespaces.many': 20, 'wide': 30, 'printed': 3000, 'request': 300, 'response': 200,
               'policy': 200, 'any': 800, 'content': 100, 'interleaved': 800,
               'unchanged': 2500, 'f.mixed': 400, 'f.nons': 200,
               'f.default': 200, 'f.prefix': 400, 'f.rebound': 150,
               'f.nsattr': 200, 'f.xmlattr': 100, 'f.comment': 150,
               'f.markup': 300, 'f.cr': 100, 'f.deep': 50, 'f.newlineattr': 50,
               'f.nsmarkup': 50},
}
URIS = ['urn:a', 'urn:b', 'http://h/p?q=1&r=2', "urn:it's", 'urn:b?&lt;',
        emit.NS, emit.CNS, 'urn:a/../b']
PREFIXES = ['p', 'q', 'r', 'xacml', 'ns0', 'ns1', 'x-y.z']
TEXTS = ['a', 'b c', '  a  ', 'a\nb', '<x>', '</x>', '&amp;', '&', ']]>', '"',
         "'", '\u00e9', '\U0001f600', 'a\rb', 'a  b', '{urn:x}y', '%s', '%d%%',
         '0', 'None', 'a\tb', '<!-- no -->', '<?no?>', '&#13;', '\\n', '{0}']
ATTRS = TEXTS + ['', ' ', '\n', '\t', ' a ', 'a\r\nb', '"\'', 'x\n\ty']
XMLNS = 'http://www.w3.org/XML/1998/namespace'


def esc_a(s):
    return emit.esc_attr(s)


class Doc:
    """A random document as text, with what it is made of noted"""

    def __init__(self, rng, comments):
        self.rng = rng
        self.comments = comments
        self.left = rng.choice([1, 3, 8, 25, 25, 60])
        self.widen = rng.random() < .03
        self.features = set()
        self.uris = rng.sample(URIS, rng.randint(1, 4))
        self.prefixes = rng.sample(PREFIXES, rng.randint(1, 3))
        self.p_decl = rng.choice([.1, .3, .7])
        self.p_text = rng.choice([.1, .5, .9])

    def text(self):
        s = self.rng.choice(TEXTS)
        if '\r' in s:
            self.features.add('cr')
        if '<' in s or '&' in s:
            self.features.add('markup')
        return s

    def comment(self):
        self.features.add('comment')
        return self.rng.choice(['<!-- c -->', '<!---->', '<?pi data?>',
                                '<!-- <a b="c"> & -->', '<?x?>',
                                '<!--a\nb-->'])

    def node(self, scope, depth):
        rng = self.rng
        self.left -= 1
        if depth > 6:
            self.features.add('deep')
        scope = dict(scope)
        at = []
        if rng.random() < self.p_decl:
            for p in rng.sample(self.prefixes + [''],
                                rng.randint(1, 1 + len(self.prefixes))):
                u = rng.choice(self.uris)
                if p == '' and rng.random() < .3:
                    u = ''
                if scope.get(p) not in (None, u):
                    self.features.add('rebound')
                if '&' in u or '"' in u or '<' in u:
                    self.features.add('nsmarkup')
                scope[p] = u
                at.append('xmlns%s="%s"' % (p and ':' + p, esc_a(u)))
        known = [p for p, u in scope.items() if p]
        local = rng.choice(['a', 'b', 'Subject', 'x-y', '_', '\u00e9l'])
        if known and rng.random() < .6:
            tag = rng.choice(known) + ':' + local
            self.features.add('prefix')
        else:
            tag = local
            self.features.add('default' if scope.get('') else 'nons')
        names = set()
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            k = rng.choice(['k', 'l', 'Id', 'None'])
            if known and rng.random() < .4:
                p = rng.choice(known)
                name = (scope[p], k)
                k = p + ':' + k
                self.features.add('nsattr')
            elif rng.random() < .25:
                k = rng.choice(['lang', 'space', 'base', 'id'])
                name = (XMLNS, k)
                k = 'xml:' + k
                if name not in names:
                    self.features.add('xmlattr')
            else:
                name = (None, k)
            if name in names:
                continue
            names.add(name)
            v = rng.choice(ATTRS)
            if name == (XMLNS, 'space'):
                v = 'preserve'
            elif name == (XMLNS, 'id'):
                v = 'i%d' % self.left
            if '\n' in v or '\r' in v:
                self.features.add('newlineattr')
            at.append('%s="%s"' % (k, esc_a(v)))
        rng.shuffle(at)
        out = '<' + ' '.join([tag] + at) + '>'
        kids = rng.randint(0, 4) if depth < 9 else 0
        if depth < 4 and rng.random() < .3:
            kids = max(kids, 1)
        texts = 0
        done = 0
        if self.widen and depth < 2 and rng.random() < .5:
            self.widen = False
            self.features.add('wide')
            out += ''.join('<w%d k="%d">t%d</w%d>' % (j, j, j, j)
                           for j in range(gen.size(rng, 520)))
        for k in range(kids + 1):
            if rng.random() < self.p_text:
                out += emit.esc_text(self.text())
                texts += 1
            elif rng.random() < .3:
                out += '\n  '
            if self.comments and rng.random() < .12:
                out += self.comment()
                if rng.random() < .5:
                    out += emit.esc_text(self.text())
            if k < kids and self.left > 0:
                out += self.node(scope, depth + 1)
                done += 1
        if texts and done:
            self.features.add('mixed')
        return out + '</%s>' % tag


def dump(e):
    """(content as printing must keep it, whether comments were met): runs of
    text between elements stripped, empty ones left out"""
    found = [False]

    def go(e):
        items = [e.text or '']
        for c in e:
            if isinstance(c.tag, str):
                items += [go(c), c.tail or '']
            else:
                found[0] = True
                items[-1] += c.tail or ''
        items = [x.strip() if isinstance(x, str) else x for x in items]
        return (e.tag, tuple(sorted(e.attrib.items())),
                tuple(x for x in items if x != ''))
    return go(e), found[0]


def squash(d):
    tag, at, items = d
    return (tag, at, tuple(''.join(x.split()) if isinstance(x, str)
                           else squash(x) for x in items))


def exact(e):
    """Everything of an element, comments included, except its tail"""
    def go(e):
        tag = e.tag if isinstance(e.tag, str) else 'special'
        return (tag, tuple(e.attrib.items()), e.text, tuple(
            (go(c), c.tail) for c in e))
    return go(e), e.tail


def parse(data):
    if sut.BACKEND == 'lxml':
        parser = ElementTree.XMLParser()
    else:
        parser = StdET.XMLParser(target=StdET.TreeBuilder(
            insert_comments=True, insert_pis=True))
    return ElementTree.parse(io.BytesIO(data), parser).getroot()


def run(ctx):
    sut.register_all()
    # the prefixes of the serialisers
    w0 = gen.World(__import__('random').Random(1), types=['string'],
                   probes=False, errors=0, selectors=0)
    sut.RequestElementTree.toXML(sut.request(w0.request(xml=True)))
    sut.ResponseElementTree.toXML(sut.response([('Permit', None)]))

    def sound(elem):
        """Moving an element, lxml may leave it with a prefix that stands for
        another namespace where it is (its own defect: what lxml writes then
        does not parse to the same content either)"""
        if sut.BACKEND != 'lxml':
            return True
        try:
            same = exact(ElementTree.fromstring(ElementTree.tostring(
                elem, encoding='utf-8', with_tail=False)))[0] == exact(elem)[0]
        except Exception:
            same = False
        if not same:
            ctx.count('discarded')
        return same

    def judge(elem, kw, detail, source):
        before = exact(elem)
        want, noted = dump(elem)
        out = prettyPrint(elem, **kw)
        ctx.count('printed')
        ctx.check(exact(elem) == before, 'printing altered the element',
                  detail)
        ctx.count('unchanged')
        ctx.check(isinstance(out, str), lambda: 'printing gives %r' % (out,),
                  detail)
        for lib in {StdET, ElementTree}:
            try:
                back = lib.fromstring(out.encode('utf-8'))
            except Exception as e:
                ctx.check(False, lambda: 'what is printed does not parse: %s'
                          % e, lambda: '%s\nprinted:\n%s' % (detail(), out))
            got, _ = dump(back)
            a, b = (squash(want), squash(got)) if noted else (want, got)
            ctx.check(a == b, lambda: 'what is printed has another content: '
                      '%s' % mon.show([want, got]),
                      lambda: '%s\nprinted:\n%s' % (detail(), out))
        ctx.check(prettyPrint(elem, **kw) == out,
                  'printing again gives another text', detail)
        return out

    def kwargs(rng):
        return rng.choice([{}, {}, {'space': '\t'}, {'space': ''},
                           {'indent': '  '}, {'space': ' ' * 2}])

    def content(rng):
        if rng.random() < .04:
            # many namespaces at once
            n = gen.size(rng, 150)
            decl = rng.random() < .5
            text = '<r%s>%s</r>' % (''.join(
                ' xmlns:p%d="urn:n:%d"' % (j, j) for j in range(n))
                if decl else '', ''.join(
                    '<p%d:e p%d:k="%d"%s>t</p%d:e>' % (
                        j, j, j, '' if decl else
                        ' xmlns:p%d="urn:n:%d"' % (j, j), j)
                    if rng.random() < .7 or decl else
                    '<e xmlns="urn:d:%d"/>' % j for j in range(n)))
            ctx.count('namespaces.many', n > 30)
            return parse(text.encode('utf-8')), text, set(['nsmany'])
        doc = Doc(rng, rng.random() < .3)
        text = doc.node({}, 0)
        return parse(text.encode('utf-8')), text, doc.features

    def make(rng):
        """An element to print, its source and what it is made of"""
        k = rng.random()
        if k < .45:
            elem, text, feats = content(rng)
            return elem, 'any', feats, text
        if k < .65:
            w = c15.world(rng)
            m = c15.make(rng, w)
            req = sut.request(m)
            texts, feats = [mon.show(m)], set()
            for r in req.resources:
                if rng.random() < .6:
                    e, t, feats = content(rng)
                    r.resourceContent = e
                    texts.append(t)
                    ctx.count('content')
            return (sut.RequestElementTree.toXML(req), 'request', feats,
                    '\n'.join(texts))
        if k < .8:
            res = c16.results(rng)
            return (sut.ResponseElementTree.toXML(sut.response(res)),
                    'response', set(), repr(res))
        w = gen.World(rng, probes=False, errors=0)
        mreq = w.request()
        p = w.any_policy(mreq)
        data = emit.varied(emit.policy_node(p), rng, encoding='utf-8')
        return parse(data), 'policy', set(), data.decode('utf-8', 'replace')

    def prints(rng, i):
        first = []
        for _ in range(rng.randint(1, 3)):
            elem, source, feats, text = make(rng)
            if not sound(elem):
                continue
            kw = kwargs(rng)
            detail = lambda: '%s %r\n%s' % (source, kw, text)   # noqa
            out = judge(elem, kw, detail, source)
            ctx.count(source)
            if 'wide' in feats:
                ctx.count('wide')
            for f in feats:
                ctx.count('f.' + f)
            ctx.seen(source, tuple(sorted(feats)), len(out) // 40)
            first.append((elem, kw, out, detail))
        for elem, kw, out, detail in first:
            ctx.check(prettyPrint(elem, **kw) == out, 'printing after other '
                      'elements gives another text', detail)
            ctx.count('interleaved')
        for x in first[:1]:
            ctx.sample({'printed': x[2][:400]})

    def part(rng, i):
        """Any element of a document, not only its root"""
        elem, source, feats, text = make(rng)
        if not sound(elem):
            return
        nodes = [e for e in elem.iter() if isinstance(e.tag, str)]
        for e in rng.sample(nodes, min(3, len(nodes))):
            judge(e, kwargs(rng), lambda: 'part %s of %s' % (e.tag, text),
                  source)
            ctx.count('part')

    ctx.group('prints', 3200, 30000, prints)
    ctx.group('part', 800, 8000, part)
