"""Attribute selectors yield exactly the selected text, in document order"""
import copy
import io

from vp import emit, gen, model, mon, sut
from vp.emit import Node
from vp.sut import ElementTree

META = {
    'rule': 'one evaluation = the bag or error of one selector, or the text'
            ' list of one path, compared with an independent evaluation of'
            ' the path over the document, or a decision that depends on it;'
            ' distinct = distinct (path shape, number selected, how the'
            ' document and selector were made)',
    'assumptions': [
        'paths are of the fragment both XML libraries implement: child and'
        ' descendant steps, names, *, position, last(), attribute and child'
        ' predicates; with lxml also text() and attribute steps',
        'a leading slash means relative to the context element, as the'
        ' selector documents',
        'the text of an element is its own text, not that of its children'],
    'floors': {'selected.30+': 80, 'selected.0': 200, 'selected.1': 200, 'selected.many': 200,
               'nested': 100, 'repeat': 500, 'text.empty': 50,
               'text.comment': 50, 'namespace': 100, 'pred.pos': 50,
               'pred.last': 30, 'pred.attr': 50, 'pred.hasattr': 30,
               'pred.haschild': 20, 'wildcard': 50, 'desc': 200,
               'mbp.missing': 50, 'error.nodoc': 30, 'error.type': 30,
               'error.path': 30, 'error.native': 30, 'loaded': 300,
               'api': 300, 'edited': 3000, 'edited.other': 500, 'decided': 300, 'decision.Permit': 30},
}
TEXTS = ['a', 'b', '', ' ', ' a ', 'a\nb', '\n a\n', '<&>', ']]>', '\u00e9',
         '1', 'true', 'x' * 200, '\u2028', 'e\u0301', 'a b']
BADPATHS = ['a[', '//a[@', 'a[1', './/b[@k=', '//a[@k="1]', './a[', '/a[b']


def documents(rng, w):
    """A document with nested elements of the same name"""
    doc = w.make_doc(rng.choice([2, 3, 4]), rng.choice([8, 14, 25]))

    def retext(n, tags):
        if rng.random() < .5:
            n['text'] = rng.choice(TEXTS)
        if rng.random() < .4:
            n['tag'] = rng.choice(tags)
        for c in n['children']:
            retext(c, tags)
    retext(doc, rng.sample(w.TAGS, rng.randint(1, 3)))
    if rng.random() < .03:
        w.grow(doc)
    w.doc = doc
    return doc


def edit(rng, w, doc, elem):
    """The same change made to the model of a document and to its element"""
    while doc['children'] and rng.random() < .6:
        k = rng.randrange(len(doc['children']))
        doc, elem = doc['children'][k], elem[k]
    k = rng.choice(['text', 'append', 'insert', 'remove', 'attrib'])
    if k == 'text':
        doc['text'] = rng.choice(TEXTS)
        elem.text = doc['text'] or None
    elif k == 'attrib' and doc['attrib']:
        name = rng.choice(sorted(doc['attrib']))
        del doc['attrib'][name]
        del elem.attrib[name]
    elif k == 'remove' and doc['children']:
        n = rng.randrange(len(doc['children']))
        del doc['children'][n]
        del elem[n]
    else:
        new = copy.deepcopy(rng.choice(doc['children'])) \
            if doc['children'] and rng.random() < .5 else w.make_doc(2, 4)
        n = rng.randint(0, len(doc['children']))
        doc['children'].insert(n, new)
        elem.insert(n, sut.element(new))


def has_nested(doc, tags=()):
    return doc['tag'] in tags or any(
        has_nested(c, tuple(tags) + (doc['tag'],)) for c in doc['children'])


def parse(rng, doc):
    """The document through text, with comments inside the text at times"""
    def node(d):
        return Node(d['tag'] if d['tag'].startswith('{') else '{}' + d['tag'],
                    d['attrib'],
                    [d['text']] + [node(c) for c in d['children']])

    def write(d):
        ns, local = emit.split(d['tag'])
        out = '<' + local
        out += ' xmlns="%s"' % (ns or '')
        for k, v in d['attrib'].items():
            out += ' %s="%s"' % (k, emit.esc_attr(v))
        t = d['text']
        if len(t) > 1 and rng.random() < .3:
            j = rng.randint(1, len(t) - 1)
            t = emit.esc_text(t[:j]) + rng.choice(
                ['<!-- c -->', '<?p i?>', '<!---->']) + emit.esc_text(t[j:])
            commented[0] += 1
        else:
            t = emit.esc_text(t)
        out += '>' + t
        for c in d['children']:
            out += write(c)
            if rng.random() < .3:
                out += rng.choice([' tail ', '\n', 'tail'])
            if rng.random() < .1:
                out += '<!-- between -->'
        return out + '</%s>' % local
    commented = [0]
    return sut.parse_element(write(doc).encode('utf-8')), commented[0]


def path_sig(path):
    return tuple((a, t is None, '{' in (t or ''), p[0] if p else None)
                 for a, t, p in path['steps'])


def run(ctx):
    sut.register_all()

    def tally(path, texts, doc):
        n = len(texts)
        if n > 30:
            ctx.count('selected.30+')
        ctx.count('selected.%s' % (n if n < 2 else 'many'))
        if has_nested(doc):
            ctx.count('nested')
        if '' in texts:
            ctx.count('text.empty')
        for a, t, p in path['steps']:
            if a == 'desc':
                ctx.count('desc')
            if t is None:
                ctx.count('wildcard')
            elif '{' in t:
                ctx.count('namespace')
            if p is not None:
                ctx.count('pred.' + p[0])

    def paths(rng, i):
        w = gen.World(rng, types=['string'] + rng.sample(
            model.STR_TYPES, 2), probes=False)
        doc = documents(rng, w)
        plain = rng.random() < .5
        if plain:
            elem = sut.element(doc)
        else:
            elem, commented = parse(rng, doc)
            ctx.count('text.comment', commented)
        before = sut.dump_element(elem)
        selector = sut.EtreeXPathSelector(elem)
        first, shapes = {}, []
        for _ in range(8):
            path = w.path()
            shapes.append(path)
            s = model.path_string(path)
            detail = lambda: mon.show({'document': doc, 'path': s})  # noqa
            want = [n['text'] for n in model.doc_select(doc, path)]
            got = selector.selectText(s)
            ctx.check(isinstance(got, list) and
                      [str(x) for x in got] == want and
                      all(isinstance(x, str) for x in got),
                      lambda: 'path %s selects %r, expected %r' % (
                          s, got, want), detail)
            tally(path, want, doc)
            first[s] = want
            ctx.seen(path_sig(path), min(len(want), 3), 'text')
        for s, want in first.items():
            ctx.check(list(map(str, selector.selectText(s))) == want,
                      'a second selection differs')
            ctx.count('repeat')
        ctx.check(sut.dump_element(elem) == before,
                  'selecting changed the document')
        if not plain:
            return
        # the document changes: what is selected does
        for _ in range(2):
            edit(rng, w, doc, elem)
            for path in shapes:
                s = model.path_string(path)
                want = [n['text'] for n in model.doc_select(doc, path)]
                got = list(map(str, selector.selectText(s)))
                ctx.check(got == want, lambda: 'path %s selects %r from the '
                          'changed document, expected %r' % (s, got, want),
                          lambda: mon.show({'document': doc, 'path': s}))
                ctx.count('edited')
                ctx.count('edited.other', want != first[s])
    ctx.group('paths', 3500, 28000, paths)

    def selectors(rng, i):
        w = gen.World(rng, types=['string'] + rng.sample(
            model.STR_TYPES, 2), probes=False)
        mreq = w.request(missing=0)
        mreq['doc'] = documents(rng, w)
        req = sut.request(mreq)
        if rng.random() < .5:
            elem, n = parse(rng, mreq['doc'])
            ctx.count('text.comment', n)
            req.attributeSelector = sut.EtreeXPathSelector(elem)
        for _ in range(5):
            s = w.sel()
            if rng.random() < .4:
                s['mbp'] = True
            k = rng.random()
            fault = None
            if k < .05:
                s['badpath'] = rng.choice(BADPATHS)
                fault = 'path'
            elif k < .1:
                s['type'] = rng.choice(['urn:none', model.XS + 'String', ''])
                fault = 'type'
            elif k < .16:
                s['type'] = rng.choice([t for t in sorted(model.TYPES)
                                        if t not in model.STR_TYPES])
                fault = 'native'
            detail = lambda: mon.show({'request': mreq, 'selector': s})  # noqa
            if rng.random() < .5 and fault != 'type':
                rule = {'id': 'r', 'effect': 'Permit', 'target': None,
                        'desc': None, 'cond': {
                            'k': 'apply', 'args': [s],
                            'fn': model.F1 + 'string-one-and-only'}}
                p = {'k': 'Policy', 'id': 'p', 'alg': 'deny-overrides',
                     'target': None, 'rules': [rule], 'desc': None,
                     'version': None, 'defaults': None}
                data = sut.text(p) if rng.random() < .5 else emit.varied(
                    emit.policy_node(p), rng)
                o = sut.load(data).rules[0].condition.expression.expressions[0]
                ctx.count('loaded')
            else:
                o = sut.api_src(s)
                ctx.count('api')
            got, exc = sut.run_expr(o, req)
            if fault == 'type':
                want = [model.ERR]
            else:
                want = model.selector(s, mreq)
            ctx.check(got in want, lambda: 'selector yields %r (%r), expected'
                      ' %r' % (got, exc, want), detail)
            if got == model.ERR:
                if fault:
                    ctx.count('error.' + fault)
                else:
                    ctx.check(s.get('mbp') and type(exc).__name__ ==
                              'MissingAttributeError', lambda: 'the error is '
                              '%r' % exc, detail)
                    ctx.count('mbp.missing')
            else:
                raw = o.evaluate(req)
                cls = sut.CLASSES[s['type']]
                ctx.check(raw.elementType is cls and all(
                    type(v) is cls and v.dataType == model.TYPES[s['type']]
                    for v in raw), 'the bag is not of the data type', detail)
                ctx.check(sut.to_result(raw) == got, 'a second evaluation '
                          'differs', detail)
                tally(s['path'], got[2], mreq['doc'])
                ctx.seen(path_sig(s['path']), min(len(got[2]), 3), s['type'],
                         bool(s.get('mbp')))
            if rng.random() < .1:
                bare = sut.request(dict(mreq, doc=None))
                got, exc = sut.run_expr(o, bare)
                ctx.check(got == model.ERR, lambda: 'without a document the '
                          'selector yields %r' % (got,), detail)
                ctx.count('error.nodoc')
        ctx.sample({'path': model.path_string(w.path()), 'document':
                    ElementTree.tostring(sut.element(mreq['doc']))[:300]})
    ctx.group('selectors', 3500, 28000, selectors)

    def decisions(rng, i):
        w = gen.World(rng, types=['string', 'anyURI'], probes=False,
                      errors=.02, selectors=.75)
        mreq = w.request(missing=0)
        mreq['doc'] = documents(rng, w)
        p = w.any_policy(mreq, depth=1)
        req = sut.request(mreq)
        o = sut.load(sut.text(p))
        detail = lambda: mon.describe(p, mreq)  # noqa
        got = sut.decide(o, req)
        want = model.policy(p, mreq)
        ctx.check(got in want, lambda: 'decision %r, expected %s' % (
            got, sorted(want)), detail)
        mon.judge_policy(ctx, p, o, mreq, req, detail)
        # the same policy for another document, and for none
        mreq2 = dict(mreq, doc=documents(rng, w))
        got2 = sut.decide(o, sut.request(mreq2))
        want2 = model.policy(p, mreq2)
        ctx.check(got2 in want2, lambda: 'decision %r for another document, '
                  'expected %s' % (got2, sorted(want2)),
                  lambda: mon.describe(p, mreq2))
        mreq3 = dict(mreq, doc=None)
        got3 = sut.decide(o, sut.request(mreq3))
        want3 = model.policy(p, mreq3)
        ctx.check(got3 in want3, lambda: 'decision %r without a document, '
                  'expected %s' % (got3, sorted(want3)),
                  lambda: mon.describe(p, mreq3))
        ctx.count('decided')
        ctx.count('decision.' + got)
        ctx.seen('decision', mon.signature(p), got, got2, got3)
    ctx.group('decisions', 1500, 12000, decisions)

    def invalid(rng, i):
        for bad in (None, 'x', 1, object(), [], b'<a/>'):
            try:
                sut.EtreeXPathSelector(bad)
                ok = True
            except Exception:
                ok = False
            ctx.check(not ok, lambda: 'a selector over %r' % (bad,))
        s = sut.api_src({'k': 'sel', 'path': {'abs': True, 'steps': [
            ('desc', 'a', None)]}, 'type': 'string'})
        for bad in (None, 'x', {}, sut.Response()):
            got, exc = sut.run_expr(s, bad)
            ctx.check(got == model.ERR, 'a selector evaluated without a '
                      'request')
    ctx.group('invalid', 8, 8, invalid)

    def lxml_only(rng, i):
        """Steps to text and attributes, unions, results that are no nodes"""
        w = gen.World(rng, types=['string'], probes=False)
        doc = documents(rng, w)
        selector = sut.EtreeXPathSelector(sut.element(doc))
        path = w.path()
        s = model.path_string(path)
        nodes = model.doc_select(doc, path)
        k = rng.choice('kl')
        detail = lambda: mon.show({'document': doc, 'path': s})  # noqa
        for p, want in (
                (s + '/@' + k, [n['attrib'][k] for n in nodes
                                if k in n['attrib']]),
                (s + '/text()', [n['text'] for n in nodes if n['text']])):
            got = [str(x) for x in selector.selectText(p)]
            ctx.check(got == want, lambda: 'path %s selects %r, expected %r'
                      % (p, got, want), detail)
            ctx.count('lxml.step')
        for fn in ('string', 'count', 'boolean', 'normalize-space'):
            try:
                got = selector.selectText('%s(%s)' % (fn, s.lstrip('/')
                                                      or '.'))
            except Exception:
                got = None
            ctx.check(got is None, lambda: '%s(...) selects %r' % (fn, got),
                      detail)
            ctx.count('lxml.function')
    if ctx.backend == 'lxml':
        ctx.group('lxml_only', 1500, 12000, lxml_only)
