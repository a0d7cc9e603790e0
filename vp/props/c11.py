"""Loading a policy document preserves its content"""
import io
import os
import tempfile

from vp import emit, gen, model, mon, sut
from vp.model import D, I, N, P

META = {
    'rule': 'one evaluation = one loaded policy compared field by field with'
            ' the document it was written from, or the content or decision of'
            ' two loads of equivalent spellings compared; distinct = distinct'
            ' (policy shape, spelling features, source kind)',
    'assumptions': [
        'descriptions are compared after stripping surrounding white space',
        'values of types without a built-in reader use a registered reader'],
    'floors': {'load.path': 100, 'load.relpath': 50, 'load.stream': 100,
               'load.file': 100, 'load.element': 100, 'load.twice': 100, 'via.pdp': 100,
               'via.class': 100, 'via.base': 50, 'spelling.plain': 100,
               'spelling.varied': 300, 'decision.Permit': 20,
               'decision.Deny': 20, 'default.version': 50,
               'default.target': 50, 'mbp': 50, 'selector': 50,
               'ids.near': 100, 'path.odd': 50,
               'name.odd': 300, 'long': 10, 'long.big': 10, 'longtext': 40, 'text.long': 10, 'text.special': 100},
}

SCHEMES = ['plain', 'utf-8', 'utf-8-sig', 'utf-16', 'iso-8859-1', 'us-ascii',
           'random', 'random']


def decorate(rng, p, ctx):
    """Spelling of optional things; the meaning is kept in the model"""
    def src(s):
        k = rng.random()
        if k < .3:
            s['mbp'] = True
            s['mbptext'] = rng.choice(['true', '1', 'true'])
        elif k < .5:
            s['mbp'] = False
            s['mbptext'] = rng.choice(['false', '0'])
        ctx.count('mbp' if s.get('mbp') else 'mbp.not')
        if s['k'] == 'sel':
            ctx.count('selector')
            if any(t[2] and t[2][0] == 'attr' and t[2][2] in gen.DOCVALS
                   for t in s['path']['steps']):
                ctx.count('path.odd')

    def expr(e):
        if e['k'] == 'apply':
            for a in e['args']:
                expr(a)
        elif e['k'] != 'val':
            src(e)
        elif isinstance(e['value'], str) and \
                e['value'].strip() != e['value'] or '<' in str(e['value']):
            ctx.count('text.special')

    def targ(t):
        if not t:
            ctx.count('default.target')
            return
        for s in model.SECTIONS:
            for c in t.get(s) or ():
                for m in c:
                    src(m['src'])

    def pol(p):
        targ(p.get('target'))
        if rng.random() < .3:
            p['desc'] = rng.choice(['', ' ', 'a', 'a b', '\n a\n  b\n',
                                    '<x/>', '&', 'Gr\u00fc\u00dfe', '"\'',
                                    ']]>', 'z' * 300])
            if rng.random() < .06:
                p['desc'] = gen.long_body(rng, 100000)
                ctx.count('text.long')
        if rng.random() < .3:
            p['version'] = rng.choice(['1', '1.0', '1.2.3', '10.20', '0',
                                       '2.0.0'])
        if p.get('version') is None:
            ctx.count('default.version')
        for r in p.get('rules', ()):
            targ(r.get('target'))
            if r.get('cond') is not None:
                expr(r['cond'])
        for c in p.get('children', ()):
            pol(c)
    pol(p)
    if rng.random() < .2:
        gen.rename(rng, p)
        ctx.count('ids.near')


# names of files that mean something else elsewhere
NAMES = ['a b.xml', '$HOME.xml', '~', '~root/p.xml', '~/p.xml', '$HOME/x', 'p', 'p.xml.gz',
         '*.xml', '[p].xml', 'a&b.xml', 'a#b.xml', 'a?b=c.xml', '.xml', '-p',
         'Gr\u00fc\u00dfe.xml', "'p'.xml", '${TMPDIR}', '{p}.xml', 'a;b', 'P.XML',
         'a+b.xml', 'a=b.xml', '<p>.xml', 'a\\b.xml', 'd.xml/p.xml', 'a,b']


def run(ctx):
    sut.register_all()
    scratch = tempfile.mkdtemp(dir=os.getcwd())

    def source(kind, data, i):
        if kind in ('path', 'relpath', 'file'):
            path = os.path.join(scratch, 'p%d.xml' % (i % 4))
            if i % 3 == 0:
                path = os.path.join(scratch, str(i // 3 % len(NAMES)),
                                    NAMES[i // 3 % len(NAMES)])
                os.makedirs(os.path.dirname(path), exist_ok=True)
                ctx.count('name.odd')
            with open(path, 'wb') as f:
                f.write(data)
            if kind == 'relpath':
                # from where the file is, or from the directory above
                os.chdir(os.path.dirname(path) if i % 2 else scratch)
                return os.path.relpath(path)
            return path if kind == 'path' else open(path, 'rb')
        if kind == 'stream':
            return io.BytesIO(data)
        return sut.parse_element(data)

    def load(rng, kind, via, p, data, i):
        src = source(kind, data, i)
        if kind != 'element':
            return load_from(src, via, p)
        before = sut.ElementTree.tostring(src)
        o = load_from(src, via, p)
        ctx.check(sut.ElementTree.tostring(src) == before, 'loading a parsed '
                  'element changes it', lambda: repr(before))
        if rng.random() < .5:
            try:
                again = load_from(src, rng.choice(['pdp', 'class', 'base']), p)
            except Exception as e:
                ctx.fail('an element is loaded once but not again: %r' % e,
                         repr(before))
            ctx.check(sut.dump_policy(again) == sut.dump_policy(o), 'one '
                      'element loads differently', lambda: repr(before))
            ctx.count('load.twice')
        return o

    def load_from(src, via, p):
        try:
            if via == 'pdp':
                return sut.PDP.fromPolicySource(src, sut.ReaderFactory).policy
            if via == 'base':
                return sut.PolicyBase.fromSource(src, sut.ReaderFactory,
                                                 sut.LocalPolicyFinder())
            cls = sut.Policy if p['k'] == 'Policy' else sut.PolicySet
            return cls.fromSource(src, sut.ReaderFactory)
        finally:
            if hasattr(src, 'close'):
                src.close()

    def one(rng, i, p, mreqs):
        node = emit.policy_node(p)
        first = None
        for n in range(3):
            scheme = 'plain' if n == 0 else rng.choice(SCHEMES)
            if scheme == 'plain':
                data = emit.plain(node)
            elif scheme == 'random':
                data = emit.varied(node, rng)
            else:
                data = emit.varied(node, rng, encoding=scheme)
            kind = rng.choice(['path', 'relpath', 'stream', 'file', 'element'])
            via = rng.choice(['pdp', 'class', 'base', 'pdp'])

            def detail():
                return mon.show({'document': data.decode('latin-1'),
                                 'bytes': repr(data)[:4000],
                                 'source': kind, 'via': via})
            try:
                o = load(rng, kind, via, p, data, i)
            except Exception as e:
                ctx.fail('a supported document (%s, %s, %s) is refused: %r' % (
                    scheme, kind, via, e), detail())
            d = list(sut.diff_policy(p, o))
            ctx.check(not d, lambda: 'content not preserved (where, document, '
                      'loaded): %r' % (d[:3],), detail)
            content = sut.dump_policy(o)
            decisions = []
            for mreq in mreqs:
                req = sut.request(mreq)
                got = sut.decide(o, req)
                decisions.append(got)
                ctx.count('decision.' + got)
            if first is None:
                first = content, decisions
            ctx.check(content == first[0], 'equivalent spellings load '
                      'differently', detail)
            ctx.check(decisions == first[1], lambda: 'equivalent spellings '
                      'decide %r and %r' % (first[1], decisions), detail)
            ctx.count('load.' + kind)
            ctx.count('via.' + via)
            ctx.count('spelling.plain' if scheme == 'plain' else
                      'spelling.varied')
            ctx.seen(mon.signature(p), scheme, kind, via)
        ctx.sample({'document': emit.plain(node).decode()[:300]})

    def content(rng, i):
        w = gen.World(rng, probes=rng.random() < .3)
        mreq = w.request()
        p = w.any_policy(mreq, depth=rng.randint(0, 3))
        decorate(rng, p, ctx)
        one(rng, i, p, [mreq, w.request()])
    ctx.group('content', 1000, 15000, content)

    def long_case(rng, i):
        """Order and completeness of long sequences"""
        w = gen.World(rng, ntypes=1)
        mreq = w.request()
        k = i % 4
        big = i // 4 % 3 == 0
        n = gen.size(rng, 600)
        if big:
            ctx.count('long.big')
        p = w.policy(mreq, nrules=rng.choice([10, 25, 60]) if k == 0 else 2)
        if k == 0 and big:
            p['rules'] = [{'id': 'r%d' % j, 'effect': rng.choice(
                ['Permit', 'Deny']), 'target': None, 'cond': None}
                for j in range(n)]
        if k == 1:
            p['target'] = dict((s, [[w.match(mreq, gen.SECTION_CAT[s])
                                     for _ in range(rng.randint(1, 12))]
                                    for _ in range(rng.randint(1, 12))])
                               for s in model.SECTIONS)
            if big:
                s = rng.choice(model.SECTIONS)
                ms = [w.match(mreq, gen.SECTION_CAT[s])
                      for _ in range(min(n, 300))]
                p['target'][s] = [ms] if rng.random() < .5 else \
                    [[m] for m in ms]
        elif k == 2:
            p = w.policyset(mreq, depth=0)
            p['children'] = [w.policy(mreq, 'c%d' % n, nrules=1)
                             for n in range(rng.choice([8, 20, 40]) if not
                                            big else min(n, 130))]
        else:
            p['rules'][0]['cond'] = {
                'k': 'apply', 'fn': gen.F1 + 'and', 'args': [
                    w.boolean(mreq, 1) for _ in range(30)]}
            if big:
                p['rules'][0]['cond'] = {
                    'k': 'apply', 'fn': gen.F1 + 'string-equal', 'args': [
                        {'k': 'val', 'type': 'string', 'value': 'x'},
                        {'k': 'apply', 'fn': gen.F2 + 'string-concatenate',
                         'args': [{'k': 'val', 'type': 'string',
                                   'value': 'v%d' % j + 'z' * rng.choice(
                                       [0, 0, 0, 0, 70000])}
                                  for j in range(n)]}]}
        decorate(rng, p, ctx)
        one(rng, i, p, [mreq])
        ctx.count('long')
    ctx.group('long', 96, 600, long_case)

    def values(rng, i):
        """Every text value, in every place a value can stand"""
        vals = [v for v in gen.STRINGS]
        rng.shuffle(vals)
        typ = rng.choice(model.STR_TYPES)
        fn = (gen.F1 if typ == 'string' else gen.F2) + typ + '-regexp-match'

        def val(v):
            return {'k': 'val', 'type': typ, 'value': v}
        src = {'k': 'desig', 'cat': 'Subject', 'id': rng.choice(vals),
               'type': typ, 'issuer': rng.choice(vals + [None])}
        p = {'k': 'Policy', 'id': rng.choice(vals), 'alg': 'deny-overrides',
             'desc': rng.choice(vals), 'version': None, 'defaults': None,
             'target': {'subjects': [[{'fn': fn, 'value': val(v), 'src': dict(
                 src, id=rng.choice(vals))} for v in vals[:6]]]},
             'rules': [{'id': v + str(n), 'effect': 'Permit', 'target': None,
                        'desc': v, 'cond': {'k': 'apply', 'fn': fn, 'args': [
                            val(vals[-1 - n]), val(vals[-2 - n])]}}
                       for n, v in enumerate(vals[6:10])]}
        decorate(rng, p, ctx)
        ctx.count('text.special')
        one(rng, i, p, [])
    ctx.group('values', 120, 2000, values)

    def longtext(rng, i):
        """Long texts wherever a text can stand; some differ only in one
        place"""
        f = gen.stretch(rng, rng.choice([1000, 12000, 12000, 70000]))
        names = [f(s) for s in rng.sample(gen.STRINGS, 8)]
        w = gen.World(rng, types=['string', rng.choice(model.STR_TYPES)],
                      strings=names[:4], selectors=.2)
        w.ids, w.issuers = names[2:5], names[5:7]
        mreq = w.request()
        p = w.any_policy(mreq, depth=rng.randint(0, 2))
        fresh = iter(range(10 ** 6))

        def pol(p):
            p['id'] = f('id%d' % next(fresh))
            for key in ('desc', 'version'):
                if rng.random() < .6:
                    p[key] = rng.choice(names).strip() or None
            if p['k'] == 'Policy' and not p['rules']:
                p['rules'].append(w.rule(mreq, 0))
            for r in p.get('rules', ()):
                r['id'] = f('r%d' % next(fresh))
                if rng.random() < .6:
                    r['desc'] = rng.choice(names)
            for c in p.get('children', ()):
                pol(c)
        pol(p)
        one(rng, i, p, [mreq])
        ctx.count('longtext')
    ctx.group('longtext', 96, 900, longtext)

    def depth(rng, i):
        """Deep nesting of sets and of expressions"""
        w = gen.World(rng, ntypes=0)
        mreq = w.request()
        n = rng.choice([5, 12, 25, 60, 100])
        p = w.policy(mreq, 'leaf', nrules=1)
        e = {'k': 'apply', 'fn': model.F1 + 'and', 'args': []}
        for _ in range(n):
            e = {'k': 'apply', 'fn': model.F1 + 'not', 'args': [e]}
        p['rules'][0]['cond'] = e
        for k in range(n):
            p = {'k': 'PolicySet', 'id': 'set%d' % k, 'children': [p],
                 'alg': rng.choice(gen.RALGS), 'target': None, 'desc': None,
                 'version': None, 'defaults': None}
        one(rng, i, p, [mreq])
    ctx.group('depth', 10, 200, depth)

    def strangers(rng, i):
        """Attributes of other namespaces: refused or of no effect"""
        w = gen.World(rng)
        mreq = w.request()
        p = w.any_policy(mreq, depth=1)
        decorate(rng, p, ctx)
        node = emit.policy_node(p)
        emit.strangers(rng, node)
        data = emit.plain(node) if rng.random() < .5 else \
            emit.varied(node, rng)
        kind = rng.choice(['path', 'stream', 'element'])
        try:
            o = load(rng, kind, 'pdp', p, data, i)
        except Exception:
            ctx.count('strangers.refused')
            return
        d = list(sut.diff_policy(p, o))
        ctx.check(not d, lambda: 'attributes of other namespaces change the '
                  'content (where, document, loaded): %r' % (d[:3],),
                  lambda: repr(data)[:4000])
        ctx.count('strangers')
        ctx.seen('strangers', kind, len(data) // 200)
    ctx.group('strangers', 600, 6000, strangers)
