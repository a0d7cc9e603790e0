"""Policy references behave as the referenced policy included in place"""
import copy
import io
import os
import shutil
import tempfile
import threading

from vp import emit, gen, model, mon, sut
from vp.emit import Node
from vp.model import D, I, N, P

META = {
    'rule': 'one evaluation = one policy set with references compared with'
            ' the referenced documents (content), or its decision for a'
            ' request compared with the reference evaluator and with the same'
            ' set written out without references, or one set of documents'
            ' that must be refused; distinct = distinct (tree shape, reference'
            ' spellings, entry point, defect)',
    'assumptions': [
        'references use file names without characters that need escaping in'
        ' a URL; a remote document is served on the loopback interface'],
    'floors': {'many': 8, 'internal': 100, 'external': 200, 'chain.2': 30,
               'twice': 20, 'ref.policy': 100, 'ref.set': 100,
               'entry.default_path': 20, 'entry.default_link': 20, 'entry.default_rel': 20,
               'entry.default_file': 20, 'entry.finder_stream': 20,
               'entry.finder_path': 20, 'entry.class': 20,
               'spelling.plain': 50, 'spelling.file': 30, 'spelling.abs': 20,
               'spelling.dot': 20, 'spelling.filerel': 20, 'spelling.http': 1, 'refused': 150, 'answer.bad': 50,
               'decision.Permit': 50, 'decision.Deny': 50,
               'decision.NotApplicable': 20, 'decoy': 50, 'reload': 20,
               'name.case': 10, 'name.odd': 50, 'name.base': 50},
}


class Build:
    """Splits a policy set into documents that refer to one another"""

    def __init__(self, ctx, rng, base, other, external=True, http=None):
        self.ctx = ctx
        self.rng = rng
        self.base = base
        self.other = other
        self.external = external
        self.http = http
        self.files = {}         # absolute path -> policy dict
        self.index = {}         # (kind, id) -> policy dict
        self.done = []          # completed definitions, in parse order
        self.n = 0
        self.names = []
        self.spellings = set()

    def name(self):
        self.n += 1
        name = self.rng.choice(['p%d.xml', 'sub/p%d.xml', 'a/b/p%d.xml',
                                'p%d', 'x.%d.policy', 'd%d/p.xml',
                                'd%d/e/p.xml', 'e/d%d/p.xml',
                                'P%d']) % self.n
        if not self.http and self.rng.random() < .12:
            name = self.rng.choice(['a:b/p%d', 'cmip://p%d.xml', 'urn:x:p%d',
                                    'gopher://h/p%d', 'httpx://p%d', 'c:/%d',
                                    'a b/p%d.xml', 'Gr\u00fc\u00dfe/p%d.xml',
                                    'file/p%d', 'http/p%d', '.h/p%d', '~/p%d',
                                    'a+b/p%d&c=d', '-p%d', '$HOME/%d',
                                    '..p%d', 'x' * 200 + '%d']) % self.n
            self.ctx.count('name.odd')
        if self.names and self.rng.random() < .1:
            other = self.rng.choice(self.names).swapcase()
            if other not in self.names:
                name = other
                self.ctx.count('name.case')
        self.names.append(name)
        if '/p.xml' in name:
            self.ctx.count('name.base')
        return name

    def place(self, p):
        """Choose a reference for a node put into its own file"""
        rel = self.name()
        k = self.rng.choice(['plain', 'plain', 'file', 'file', 'abs', 'dot',
                             'filedot', 'filerel', 'other'] +
                            (['http', 'http'] if self.http else []))
        path = os.path.join(self.base, rel)
        if k == 'plain':
            ref = rel
        elif k == 'dot':
            ref = './' + rel
        elif k == 'file':
            ref = 'file://' + path
        elif k == 'filedot':
            ref = 'file://./' + rel
        elif k == 'filerel':
            ref = 'file://' + rel
        elif k == 'abs':
            ref = path
        elif k == 'other':
            path = os.path.join(self.other, rel)
            ref = path if self.rng.random() < .5 else 'file://' + path
        else:
            ref = self.http + '/' + rel
        self.spellings.add(k)
        self.ctx.count('spelling.' + {'filedot': 'file', 'other': 'abs'}.get(
            k, k))
        return ref, path

    def node(self, p, depth=0):
        """@return: the node to write in place of p"""
        kind = p['k']
        out = dict(p)
        external = self.external and depth > 0 and self.rng.random() < .45
        if external:
            out['id'], path = self.place(p)
        if kind == 'PolicySet':
            kids = []
            for c in p['children']:
                self.reuse(kids)
                kids.append(self.node(c, depth + 1))
            self.reuse(kids)
            out['children'] = kids
        self.index[(kind, out['id'])] = out
        self.done.append((kind, out['id']))
        if external:
            self.files[path] = out
            self.ctx.count('external')
            self.ctx.count('ref.policy' if kind == 'Policy' else 'ref.set')
            if depth > 1:
                self.ctx.count('chain.2')
            return {'k': kind[:] + 'Ref', 'ref': out['id']}
        return out

    def reuse(self, kids):
        if self.done and self.rng.random() < .3:
            kind, ident = self.rng.choice(self.done)
            kids.append({'k': kind + 'Ref', 'ref': ident})
            self.ctx.count('internal')
            if [k for k in kids if k.get('ref') == ident][1:]:
                self.ctx.count('twice')

    def inline(self, p, counter=None):
        """The same without references, every identifier different"""
        counter = counter if counter is not None else [0]
        if p['k'].endswith('Ref'):
            p = self.index[(p['k'][:-3], p['ref'])]
        out = dict(p)
        counter[0] += 1
        out['id'] = 'inline-%d' % counter[0]
        if p['k'] == 'PolicySet':
            out['children'] = [self.inline(c, counter)
                               for c in p['children']]
        return out

    def size(self, p):
        if p['k'].endswith('Ref'):
            p = self.index[(p['k'][:-3], p['ref'])]
        return 1 + sum(self.size(c) for c in p.get('children', ()))

    def write(self, rng=None):
        for path, p in self.files.items():
            d = os.path.dirname(path)
            if not os.path.isdir(d):
                os.makedirs(d)
            node = emit.policy_node(p)
            with open(path, 'wb') as f:
                f.write(emit.plain(node) if rng is None or rng.random() < .6
                        else emit.varied(node, rng))


def serve(root):
    """Files below root over HTTP on the loopback interface"""
    import functools
    import http.server

    class Quiet(http.server.SimpleHTTPRequestHandler):
        def log_message(self, *args):
            pass
    srv = http.server.ThreadingHTTPServer(
        ('127.0.0.1', 0), functools.partial(Quiet, directory=root))
    srv.daemon_threads = True
    t = threading.Thread(target=srv.serve_forever, daemon=True)
    t.start()
    return srv, 'http://127.0.0.1:%d' % srv.server_address[1]


def answering(table):
    """A server on the loopback interface which gives the answer of a table:
    path -> (how, body)"""
    import http.server
    import socket

    class Handler(http.server.BaseHTTPRequestHandler):
        def log_message(self, *args):
            pass

        def do_GET(self):
            how, body, kind = table.get(self.path, (404, b'', 'text/html'))
            chunked = how == 'chunked'
            code = how if isinstance(how, int) else 200
            if how == 'closed':
                self.connection.shutdown(socket.SHUT_RDWR)
                return
            self.protocol_version = 'HTTP/1.1' if chunked else 'HTTP/1.0'
            self.send_response(code)
            self.send_header('Content-Type', kind)
            if code in (301, 302, 307):
                self.send_header('Location', '/gone')
            if chunked:
                self.send_header('Transfer-Encoding', 'chunked')
                self.send_header('Connection', 'close')
            elif how != 'unsized':
                self.send_header('Content-Length', str(len(body)))
            self.end_headers()
            if chunked:
                for k in range(0, len(body), 97):
                    part = body[k:k + 97]
                    self.wfile.write(b'%x\r\n%s\r\n' % (len(part), part))
                self.wfile.write(b'0\r\n\r\n')
                self.close_connection = True
            elif how == 'cut':
                self.wfile.write(body[:-12])
            else:
                self.wfile.write(body)
    srv = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Handler)
    srv.daemon_threads = True
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    return srv, 'http://127.0.0.1:%d' % srv.server_address[1]


def run(ctx):
    sut.register_all()
    home = os.getcwd()
    top = tempfile.mkdtemp(dir=home)
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]

    def fresh():
        """A clean set of directories"""
        for name in os.listdir(top):
            p = os.path.join(top, name)
            (shutil.rmtree if os.path.isdir(p) else os.remove)(p)
        out = []
        for name in ('base', 'other', 'cwd'):
            os.mkdir(os.path.join(top, name))
            out.append(os.path.join(top, name))
        return out

    def enter(rng, data, base, cwd, entry, external):
        """Load the main document through one of the entry points"""
        main = os.path.join(base, 'main.xml')
        with open(main, 'wb') as f:
            f.write(data)
        slash = base + rng.choice(['', '/'])
        finder = sut.UrlPolicyFinder(slash) if external or rng.random() < .5 \
            else sut.LocalPolicyFinder()
        RF = sut.ReaderFactory
        os.chdir(cwd)
        try:
            if entry == 'default_path':
                return sut.PDP.fromPolicySource(main, RF).policy
            if entry == 'default_link':     # where the link is counts
                away = tempfile.mkdtemp(dir=top)
                real = os.path.join(away, 'real.xml')
                os.rename(main, real)
                os.symlink(real, main)
                link = main if rng.random() < .5 else os.path.relpath(main)
                return sut.PDP.fromPolicySource(link, RF).policy
            if entry == 'default_rel':
                rel = os.path.relpath(main)
                return sut.PDP.fromPolicySource(rel, RF).policy
            if entry == 'default_file':
                with open(main, 'rb') as f:
                    return sut.PDP.fromPolicySource(f, RF).policy
            if entry == 'finder_stream':
                return sut.PDP.fromPolicySource(io.BytesIO(data), RF,
                                                finder).policy
            if entry == 'finder_element':
                return sut.PDP.fromPolicySource(sut.parse_element(data), RF,
                                                finder).policy
            if entry == 'finder_path':
                path = os.path.join(top, 'elsewhere.xml')
                with open(path, 'wb') as f:
                    f.write(data)
                return sut.PDP.fromPolicySource(path, RF, finder).policy
            if entry == 'class_default':
                return sut.PolicySet.fromSource(main, RF)
            return sut.PolicySet.fromSource(io.BytesIO(data), RF, finder)
        finally:
            os.chdir(home)
    ENTRIES = ['default_path', 'default_link', 'default_rel', 'default_file',
               'finder_stream', 'finder_element', 'finder_path',
               'class_default', 'class_finder']

    def decoys(rng, b, cwd):
        """Documents of the same name and identifier where the process runs"""
        for path, p in b.files.items():
            if path.startswith(b.base + '/'):
                d = os.path.join(cwd, path[len(b.base) + 1:])
                if not os.path.isdir(os.path.dirname(d)):
                    os.makedirs(os.path.dirname(d))
                if p['k'] == 'Policy':
                    q = dict(p, rules=[], target=None)
                else:
                    q = dict(p, children=[], target=None)
                with open(d, 'wb') as f:
                    f.write(sut.text(q))
                ctx.count('decoy')

    def case(ctx, rng, external, http=None, base_dirs=None):
        base, other, cwd = base_dirs or fresh()
        w = gen.World(rng, probes=rng.random() < .3, selectors=0,
                      ntypes=rng.randint(0, 1))
        mreq = w.request()
        p = w.policyset(mreq, ident='s', depth=3, p_set=.5)
        b = Build(ctx, rng, base, other, external, http)
        main = b.node(p)
        return w, mreq, b, main, base, cwd

    def judge(rng, b, main, o, mreqs, detail):
        d = list(sut.diff_policy(main, o, index=b.index))
        ctx.check(not d, lambda: 'content differs from the referenced '
                  'documents: %r' % (d[:3],), detail)
        flat = b.inline(main)
        try:
            fo = sut.load(sut.text(flat), sut.LocalPolicyFinder())
        except Exception as e:
            ctx.fail('the set written out without references is refused: %r'
                     % e, detail())
        for mreq in mreqs:
            req = sut.request(mreq)
            got = sut.decide(o, req)
            want = model.policy(flat, mreq)
            ctx.check(got in want, lambda: 'decision %r, expected %s' % (
                got, sorted(want)), detail)
            alone = sut.decide(fo, req)
            ctx.check(got == alone, lambda: 'decision %r with references, %r '
                      'with the policies written out' % (got, alone), detail)
            ctx.count('decision.' + got)
            mon.judge_policy(ctx, main, o, mreq, req, detail, b.index)

    def show(b, main, entry):
        return mon.show({'main': sut.text(main).decode(), 'entry': entry,
                         'files': dict((k, sut.text(v).decode())
                                       for k, v in b.files.items())})

    def references(rng, i, http=None, dirs=None):
        external = http is not None or rng.random() < .75
        w, mreq, b, main, base, cwd = case(ctx, rng, external, http, dirs)
        n = 0
        while b.size(main) > 60 and n < 20:
            w, mreq, b, main, base, cwd = case(ctx, rng, external, http, dirs)
            n += 1
        if b.size(main) > 60:
            return
        b.write(rng)
        if rng.random() < .5:
            decoys(rng, b, cwd)
        entry = rng.choice(ENTRIES)
        node = emit.policy_node(main)
        data = emit.plain(node) if rng.random() < .6 else \
            emit.varied(node, rng)

        def detail():
            return show(b, main, entry)
        try:
            o = enter(rng, data, base, rng.choice([cwd, base, '/', home]),
                      entry, external)
        except Exception as e:
            ctx.fail('documents with good references are refused (%s): %r' % (
                entry, e), detail())
        for path in b.files:        # loading is complete
            if rng.random() < .5:
                os.remove(path)
        judge(rng, b, main, o, [mreq, w.request()], detail)
        ctx.count('entry.' + ('class' if entry.startswith('class') else
                              entry))
        ctx.seen(mon.signature(main), sorted(b.spellings), entry)
        ctx.sample({'main': sut.text(main).decode()[:300],
                    'files': sorted(b.files)[:3], 'entry': entry})
    ctx.group('references', 600, 9000, references)

    def remote(rng, i):
        dirs = fresh()
        try:
            srv, url = serve(dirs[0])
        except OSError:
            ctx.count('noloopback')
            return
        try:
            references(rng, i, url, dirs)
        finally:
            srv.shutdown()
            srv.server_close()
    ctx.group('remote', 16, 200, remote)

    # ------------------------------------------------------------- refused
    def leaf(ident, effect='Permit', rid='r'):
        return {'k': 'Policy', 'id': ident, 'alg': 'deny-overrides',
                'target': None, 'desc': None, 'version': None,
                'defaults': None, 'rules': [{
                    'id': rid, 'effect': effect, 'target': None,
                    'cond': None, 'desc': None}]}

    def pset(ident, *children):
        return {'k': 'PolicySet', 'id': ident, 'alg': 'first-applicable',
                'target': None, 'desc': None, 'version': None,
                'defaults': None, 'children': list(children)}

    def pref(ident, kind='Policy'):
        return {'k': kind + 'Ref', 'ref': ident}

    def many(rng, i):
        """Many references in one set, to many documents and to few, and
        long chains of documents"""
        n = gen.size(rng, 130)
        d = tempfile.mkdtemp(dir=os.getcwd())

        def path(j):
            return os.path.join(d, 'd%d.xml' % j)

        def put(j, p):
            with open(path(j), 'wb') as f:
                f.write(emit.plain(emit.policy_node(p)))
        rules = [{'id': 'r', 'effect': 'Deny', 'desc': None, 'cond': None,
                  'target': {'actions': [[{
                      'fn': gen.F1 + 'string-equal', 'value': {
                          'type': 'string', 'value': 'never'}, 'src': {
                              'k': 'desig', 'cat': 'Action', 'id': 'act',
                              'type': 'string', 'mbp': False}}]]}}]
        odd = rng.choice([n - 1, rng.randrange(n)])
        kind = rng.choice(['many', 'few', 'chain'])
        if kind == 'many':
            for j in range(n):
                p = leaf(path(j), rng.choice(['Permit', 'Deny'])
                         if j == odd else 'Permit')
                if j != odd:
                    p['rules'] = rules
                put(j, p)
            main = pset('main', *[pref(path(j)) for j in range(n)])
        elif kind == 'few':
            for j in range(3):
                p = leaf(path(j), 'Permit')
                if j < 2:
                    p['rules'] = rules
                put(j, p)
            main = pset('main', *[pref(path(2 if j == odd else
                                            rng.randrange(2)))
                                  for j in range(n)])
        else:
            n = min(n, 60)
            put(n, leaf(path(n), 'Permit'))
            for j in range(n):
                last = j == n - 1
                put(j, pset(path(j), pref(path(j + 1), 'Policy' if last else
                                          'PolicySet')))
            main = pset('main', pref(path(0), 'PolicySet'))
        o = sut.load(emit.plain(emit.policy_node(main)),
                     sut.UrlPolicyFinder(d))
        req = sut.request({'subjects': [], 'resources': [],
                           'env': {'attrs': []}, 'action': {'attrs': []},
                           'pip': None, 'doc': None})
        got = sut.decide(o, req)
        if kind == 'chain':
            ok, c, depth = got == 'Permit', o, 0
            while hasattr(c, 'policies') and depth < n + 5:
                ctx.check(len(c.policies) == 1, 'a chain of documents has '
                          'lost a part')
                c, depth = c.policies[0], depth + 1
            ctx.check(depth == n + 1 and c.policyId == path(n), lambda:
                      'a chain of %d documents ends after %d' % (n, depth))
        else:
            ids = [c['ref'] for c in main['children']]
            ctx.check([c.policyId for c in o.policies] == ids, lambda:
                      '%d references have become %d policies' % (
                          n, len(o.policies)))
            effect = o.policies[odd].rules[0].effect.value
            ok = got == effect
        ctx.check(ok, lambda: 'decision %r of a set with %d references (%s)'
                  % (got, n, kind))
        shutil.rmtree(d)
        ctx.count('many')
        ctx.seen('many', kind, n)
    ctx.group('many', 16, 300, many)

    def wrap(rng, p, n):
        """Move the defect to some depth, with harmless siblings"""
        for k in range(n):
            kids = [p]
            if rng.random() < .5:
                kids.insert(rng.randint(0, 1), leaf('w%d' % k))
            p = pset('wrap%d' % k, *kids)
        return p

    def refused(rng, i):
        base, other, cwd = fresh()
        files = {}
        kind = rng.choice(['Policy', 'PolicySet'])
        x = 'x.xml'

        def make(ident, *kids):
            return leaf(ident) if kind == 'Policy' else pset(
                ident, *(kids or [leaf('in-' + ident)]))

        def again(ident):
            """Another definition with that identifier, often not alike"""
            q = make(ident)
            if rng.random() < .3:
                return q
            q['alg'] = rng.choice(gen.RALGS)
            q['desc'] = rng.choice([None, 'again'])
            q['version'] = rng.choice([None, '1.0', '2.1'])
            if kind == 'Policy':
                q['rules'] = [dict(q['rules'][0], id='a%d' % k,
                                   effect=rng.choice([P, D]))
                              for k in range(rng.randint(0, 3))]
            else:
                q['children'] = [
                    rng.choice([leaf, pset])('again%d' % k)
                    for k in range(rng.randint(0, 3))]
            return q
        swap = {'Policy': 'PolicySet', 'PolicySet': 'Policy'}[kind]
        defect = DEFECTS[i % len(DEFECTS)]
        good = None
        if defect == 'missing file':
            bad = pref(x, kind)
            good = {x: make(x)}
        elif defect == 'other id':
            files[x] = make(rng.choice(['y.xml', 'X.xml', 'x.xml ', 'x',
                                        './x.xml', 'file://x.xml', '']))
            bad = pref(x, kind)
            good = {x: make(x)}
        elif defect == 'other kind':
            files[x] = leaf(x) if kind == 'PolicySet' else pset(
                x, leaf('in'))
            bad = pref(x, kind)
            good = {x: make(x)}
        elif defect == 'other kind inside':
            # the right identifier and kind, but not the document itself
            files[x] = pset('top', leaf(x)) if kind == 'PolicySet' else \
                leaf('top')
            bad = pref(x, kind)
        elif defect == 'defined later':
            bad = pset('s', pref('later', kind), make('later'))
            good = {}
            fixed = pset('s', make('later'), pref('later', kind))
        elif defect == 'kind of earlier':
            bad = pset('s', make('e'), pref('e', swap))
            good = {}
            fixed = pset('s', make('e'), pref('e', kind))
        elif defect == 'self':
            bad = pset('self', leaf('l'), pref('self', 'PolicySet'))
        elif defect == 'cycle':
            files[x] = pset(x, pref('y.xml', 'PolicySet'))
            files['y.xml'] = pset('y.xml', pref(x, 'PolicySet'))
            bad = pref(x, 'PolicySet')
        elif defect == 'duplicate in file':
            files[x] = pset(x, again('dup'))
            bad = pset('s', make('dup'), pref(x, 'PolicySet'))
            if rng.random() < .5:
                bad['children'].reverse()
            good = {x: pset(x, make('nodup'))}
        elif defect == 'duplicate of file':
            files[x] = make(x)
            bad = pset('s', make(x), pset('t', pref(x, kind)), again(x))
            if rng.random() < .5:
                bad = pset('s', pref(x, kind), again(x))
        elif defect == 'duplicate across files':
            files[x] = pset(x, make('dup'))
            files['y.xml'] = pset('y.xml', pset('deep', again('dup')))
            bad = pset('s', pref(x, 'PolicySet'),
                       pref('y.xml', 'PolicySet'))
            good = {x: pset(x, make('nodup'))}
        elif defect == 'duplicate in one':
            files[x] = make(x)
            bad = pset('s', make('dup'), pref(x, kind), again('dup'))
            if rng.random() < .5:
                bad['children'][2] = pset('t', bad['children'][2])
            good = {x: make(x)}
            fixed = pset('s', make('dup'), pref(x, kind))
        elif defect == 'malformed':
            files[x] = None
            bad = pref(x, kind)
            good = {x: make(x)}
        elif defect == 'duplicate rules in file':
            q = leaf(x)
            q['rules'].append(dict(q['rules'][0], effect='Deny'))
            files[x] = q
            bad = pref(x)
            kind = 'Policy'
            good = {x: make(x)}
        elif defect == 'empty':
            bad = pref('', kind)
        depth = rng.randint(0, 3)
        if bad['k'].endswith('Ref'):
            depth += 1
        main = wrap(rng, bad, depth)

        def put(files):
            for name, q in files.items():
                with open(os.path.join(base, name), 'wb') as f:
                    if q is None:
                        f.write(rng.choice([b'', b'<Policy', b'<Rule/>',
                                            b'<Policy/>', b'text']))
                    else:
                        f.write(sut.text(q))
        put(files)
        # what the process would find from where it runs is no excuse
        with open(os.path.join(cwd, 'x.xml'), 'wb') as f:
            f.write(sut.text(make(x)))
        entry = rng.choice(ENTRIES)

        def detail():
            return mon.show({'main': sut.text(main).decode(), 'entry': entry,
                             'defect': defect, 'files': dict(
                                 (k, v and sut.text(v).decode())
                                 for k, v in files.items())})
        try:
            # without other documents any finder will do
            o = enter(rng, sut.text(main), base, cwd, entry, bool(
                files or good))
        except Exception as e:
            o, exc = None, e
        ctx.check(o is None, lambda: 'a set of documents with a bad reference'
                  ' (%s) was loaded' % defect, detail)
        ctx.count('refused')
        ctx.count('defect.' + defect)
        ctx.seen(defect, kind, depth, entry, type(exc).__name__)
        if good is not None:        # the same, mended, is loaded
            put(good)
            if defect in ('defined later', 'kind of earlier',
                          'duplicate in one'):
                main = wrap(rng, fixed, depth)
            try:
                o = enter(rng, sut.text(main), base, cwd, entry, True)
            except Exception as e:
                ctx.fail('the mended documents are refused: %r' % e, detail())
            ctx.eval()
            ctx.check(sut.decide(o, sut.request(EMPTY)) == P,
                      'wrong decision of the mended documents', detail)
            ctx.count('mended')
    ctx.group('refused', 560, 6000, refused)

    def answers(rng, i):
        """What a server answers instead of the document is not one"""
        base, other, cwd = fresh()
        table = {}
        try:
            srv, url = answering(table)
        except OSError:
            ctx.count('noloopback')
            return
        try:
            for step in range(8):
                kind = rng.choice(['Policy', 'PolicySet'])
                ref = '%s/%d/%s.xml' % (url, step, rng.choice('abc'))
                doc = leaf(ref) if kind == 'Policy' else pset(
                    ref, leaf('in'))
                body = sut.text(doc)
                deep = rng.randint(1, 3)
                main = wrap(rng, pref(ref, kind), deep)
                mime = rng.choice(['text/xml', 'application/xml',
                                   'application/xml; charset=utf-8',
                                   'text/html', 'text/plain'])
                how = rng.choice([400, 401, 403, 404, 404, 406, 410, 418, 451,
                                  500, 502, 503, 504, 301, 302, 307, 'closed',
                                  'cut', 'empty', 200, 200, 'chunked',
                                  'unsized', 'alien'])
                good = how in (200, 'chunked', 'unsized')
                table[ref[len(url):]] = (
                    200 if how in ('empty', 'alien') else how,
                    b'' if how == 'empty' else
                    b'<html><body>%s</body></html>' % body
                    if how == 'alien' else body, mime)
                entry = rng.choice([e for e in ENTRIES])
                try:
                    o, exc = enter(rng, sut.text(main), base, cwd, entry,
                                   True), None
                except Exception as e:
                    o, exc = None, e
                if good:
                    ctx.check(o is not None, lambda: 'a document from a '
                              'server (%s, %s) is refused: %r' % (
                                  how, mime, exc))
                    got = sut.decide(o, sut.request(EMPTY))
                    ctx.check(got == P, lambda: 'a document from a server: '
                              'decision %s' % got)
                    ctx.count('answer.good')
                else:
                    ctx.check(o is None, lambda: 'the answer of a server '
                              '(%s, %s) was taken for the document' % (
                                  how, mime), lambda: sut.text(main).decode())
                    ctx.count('answer.bad')
                ctx.seen('answer', how, mime, kind, deep)
        finally:
            srv.shutdown()
            srv.server_close()
    ctx.group('answers', 32, 400, answers)

    def reload_case(rng, i):
        """Every load reads the documents as they are then"""
        base, other, cwd = fresh()
        main = pset('s', pref('x.xml'))
        for k in range(4):
            effect = rng.choice(['Permit', 'Deny'])
            with open(os.path.join(base, 'x.xml'), 'wb') as f:
                f.write(sut.text(leaf('x.xml', effect, 'r%d' % k)))
            o = enter(rng, sut.text(main), base, cwd, rng.choice(ENTRIES),
                      True)
            got = sut.decide(o, sut.request(EMPTY))
            ctx.check(got == effect, lambda: 'loaded after the document '
                      'changed to %s, decides %s' % (effect, got))
            ctx.count('reload')
    ctx.group('reload', 16, 300, reload_case)

    def two_bases(rng, i):
        """Two finders with different base paths do not see each other"""
        base, other, cwd = fresh()
        main = pset('s', pref('x.xml'))
        for d, effect in ((base, P), (other, D)):
            with open(os.path.join(d, 'x.xml'), 'wb') as f:
                f.write(sut.text(leaf('x.xml', effect)))
        order = [(base, P), (other, D)] * 2
        rng.shuffle(order)
        for d, effect in order:
            entry = rng.choice(ENTRIES)
            o = enter(rng, sut.text(main), d, cwd, entry, True)
            got = sut.decide(o, sut.request(EMPTY))
            ctx.check(got == effect, lambda: 'base path %s, decision %s' % (
                d, got))
            ctx.count('bases')
    ctx.group('bases', 16, 300, two_bases)


EMPTY = {'subjects': [], 'resources': [], 'action': None, 'env': None}
DEFECTS = ['missing file', 'other id', 'other kind', 'other kind inside',
           'defined later', 'kind of earlier', 'self', 'cycle',
           'duplicate in file', 'duplicate of file',
           'duplicate across files', 'duplicate in one', 'malformed',
           'duplicate rules in file', 'empty']
