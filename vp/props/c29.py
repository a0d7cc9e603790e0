"""Loading and evaluating touch nothing else and leave nothing behind"""
import copy
import gc
import io
import os
import pickle
import shutil
import sys
import threading
import tempfile
import tracemalloc

from vp import emit, gen, mon, sut, watch
from vp.props import c12, c13, c16
from vp.sut import ElementTree

META = {
    'rule': 'one evaluation = one step (loading, evaluating, serialising,'
            ' printing, copying; successful or not) whose files, connections,'
            ' processes, compiled code, output and process state before and'
            ' after are judged, one document with a DTD or entities, or one'
            ' series of rounds whose objects and memory left over are'
            ' counted; distinct = distinct (step, source, outcome, features)',
    'assumptions': [
        'reading source and compiled files of Python modules is no access;'
        ' nor are the tables of file types the standard library reads',
        'file access by native code is seen by inotify, where the sandbox has'
        ' it; connections by a server on the loopback interface',
        'the standard library\'s table of namespace prefixes (changed while'
        ' reading and writing) and its caches are not process state'],
    'floors': {'step': 4000, 'step.ok': 2000, 'step.failed': 500,
               'state': 3000, 'since': 300, 'control.audit': 2, 'read.given': 300,
               'read.referenced': 100, 'hostile': 600, 'hostile.refused': 200,
               'hostile.loaded': 100, 'rounds': 60, 'op.evaluate': 500,
               'op.serialise': 150, 'op.print': 150, 'op.failing': 150,
               'op.references': 100, 'dropped': 100, 'op.request': 150},
}
# what the harness changes itself
VARYING = ('open files', 'working directory', 'logging', 'random numbers',
           'threads', 'streams', 'environment')
C = watch.CANARY
STRINGS = [C, C + '.x', '__import__("%s")' % C, 'open("%s")' % C, '{%s}' % C,
           '%%(%s)s' % C, '$(%s)' % C, '%s()' % C, '/%s' % C, 'file:///%s' % C,
           'http://127.0.0.1:9/%s' % C, '../%s' % C, '"%s"' % C, "'%s'" % C,
           '[%s]' % C, 'lambda: %s' % C, '%s:%s' % (C, C), 'b"%s"' % C]
SECRET = 'vpsecret' + 'zq91'


def run(ctx):
    sut.register_all()
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    home = os.getcwd()
    top = os.path.realpath(tempfile.mkdtemp(dir=home))
    notify = watch.Inotify()
    server = watch.Server()
    http = 'http://127.0.0.1:%d' % server.addr[1]
    watch.install()
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = watch.Recorder(), watch.Recorder()
    prime()
    try:
        monitors(ctx, top, notify, server, http)
    finally:
        sys.stdout, sys.stderr = out, err
        shutil.rmtree(top, ignore_errors=True)


def prime():
    """First use of lazily imported parts of the standard library"""
    import urllib.request
    p = os.path.abspath('prime.xml')
    with open(p, 'wb') as f:
        f.write(b'<a/>')
    urllib.request.build_opener().open('file://' + p).read()
    try:
        urllib.request.build_opener().open('http://127.0.0.1:9/').read()
    except OSError:
        pass
    import decimal
    decimal.getcontext()
    import traceback
    try:
        raise ValueError
    except ValueError:
        traceback.format_exc()
    import warnings
    warnings.warn('x')


def monitors(ctx, top, notify, server, http):
    from vp import harness

    def clean():
        for name in os.listdir(top):
            shutil.rmtree(os.path.join(top, name))
        notify.read()
        dirs = []
        for name in ('base', 'other', 'cwd', 'decoy'):
            os.mkdir(os.path.join(top, name))
            dirs.append(os.path.join(top, name))
        server.files = {}
        del server.asked[:]
        return dirs

    start = {}

    def since_start(what):
        """What was done once, in a step that was not observed"""
        if not start:                   # a replay of one case
            start.update(watch.state())
        diff = watch.differences(*[dict((k, v) for k, v in x.items() if
                                        k not in VARYING) for x in (
            start, watch.state())])
        ctx.check(not diff, lambda: '%s: since the first use the process has '
                  'changed: %s' % (what, '; '.join(diff[:4])))
        ctx.count('since')

    def observe(what, fn, allowed=(), hosts=(), urls=(), detail=None,
                paths=()):
        """Run one step and judge what it touched and left changed
        @return: ('ok', result) or ('failed', type of exception)"""
        notify.read()
        del server.asked[:]
        del watch.EVENTS[:]
        before = watch.state()
        texts = (sys.stdout.getvalue(), sys.stderr.getvalue())
        bytes_ = watch.written()
        watch.ON[0] = True
        try:
            try:
                got = ('ok', fn())
            except Exception as e:
                got = ('failed', type(e).__name__)
                e = None
        finally:
            watch.ON[0] = False
        server.settle()
        events = list(watch.EVENTS)
        asked = list(server.asked)
        touched = notify.read()
        odd = watch.odd(events, allowed, hosts, urls, top)
        ctx.check(not odd, lambda: '%s (%s) %s' % (what, got[0],
                                                   '; '.join(odd[:4])),
                  detail)
        allow = set(os.path.realpath(a) for a in allowed)
        strange = dict((p, m) for p, m in touched.items() if not (
            os.path.realpath(p) in allow and not m & (
                notify.MODIFY | notify.CREATE | notify.DELETE |
                notify.MOVED)) and not os.path.isdir(p))
        ctx.check(not strange, lambda: '%s (%s) touches %r' % (
            what, got[0], strange), detail)
        strange = [a for a in asked if a not in paths]
        ctx.check(not strange, lambda: '%s (%s) connects to the host for %r' %
                  (what, got[0], strange), detail)
        ctx.check(texts == (sys.stdout.getvalue(), sys.stderr.getvalue()) and
                  bytes_ == watch.written(),
                  lambda: '%s (%s) writes on standard output or error: %r' % (
                      what, got[0], (sys.stdout.getvalue() +
                                     sys.stderr.getvalue())[-300:]), detail)
        after = watch.state()
        diff = watch.differences(before, after)
        if diff:
            gc.collect()                # what only waits for the collector
            after = watch.state()
            diff = watch.differences(before, after)
        ctx.check(not diff, lambda: '%s (%s) changes the process: %s' % (
            what, got[0], '; '.join(diff[:4])), detail)
        ctx.count('state')
        ctx.count('step')
        ctx.count('step.' + got[0])
        if events:
            ctx.count('audit.events', len(events))
        if touched:
            ctx.count('inotify.files', len(touched))
        return got

    # ----------------------------------------------------- positive control
    def control(rng, i):
        """The monitors see what they are there to see"""
        base = clean()[0]
        start.update(watch.state())     # nothing has been loaded yet
        p = os.path.join(base, 'x')
        with open(p, 'w') as f:
            f.write('<a/>')
        seen = notify.add(base)
        notify.read()
        del watch.EVENTS[:]
        watch.ON[0] = True
        try:
            open(p).close()
            eval('1 if "%s" else 0' % C)
            os.listdir(base)
        finally:
            watch.ON[0] = False
        odd = watch.odd(list(watch.EVENTS), (), (), (), top)
        if len(odd) != 3 or not (odd[0].startswith('reads') and
                                 'compile' in odd[1] and 'lists' in odd[2]):
            raise RuntimeError('the audit hook does not work: %r' % odd)
        ctx.count('control.audit')
        if seen and p in notify.read():
            ctx.count('control.inotify')
        before = watch.state()
        sys.path.append(base)
        os.environ['VP_X'] = '1'
        f = open(p)
        old = os.umask(0o77)
        diff = watch.differences(before, watch.state())
        os.umask(old)
        f.close()
        del os.environ['VP_X']
        sys.path.pop()
        if len(diff) != 4 or watch.differences(before, watch.state()):
            raise RuntimeError('process state is not seen: %r' % diff)
        ctx.count('control.state')
        if ctx.backend == 'lxml':
            notify.read()
            ElementTree.parse(p)
            if p in notify.read():
                ctx.count('control.native')
    ctx.once('control', control)

    def world(rng):
        w = gen.World(rng, probes=rng.random() < .6,
                      strings=rng.sample(STRINGS, 4) if rng.random() < .6
                      else None, ntypes=rng.randint(0, 2), longtexts=0)
        if rng.random() < .5:
            w.ids += rng.sample([s for s in STRINGS], 2)
        return w

    def broken(rng, w, data):
        """A document that does not load, or may not"""
        x = rng.randint(0, 5)
        if x == 0:
            return data[:rng.randint(1, len(data) - 1)]
        if x == 1:
            return c12.break_text(rng, data)[0]
        if x == 2:
            return data.replace(b'Effect="', b'Effect="x', 1)
        if x == 3:
            return data.replace(b'function:', ('function:%s.' % C).encode(), 1)
        if x == 4:
            return data.replace(b'XMLSchema#string', b'XMLSchema#' +
                                C.encode(), 1)
        return data.replace(b'combining-algorithm:', (
            'combining-algorithm:%s' % C).encode(), 1)

    # ------------------------------------------------------------ sequences
    def steps(rng, i):
        since_start('loading and evaluating')
        base, other, cwd, decoy = clean()
        for d in (base, decoy, cwd):
            for n in ('secret.xml', C, 'policy.xml', C + '.py', C + '.dtd'):
                with open(os.path.join(d, n), 'w') as f:
                    f.write('<a>%s</a>' % SECRET)
        w = world(rng)
        m = w.request(xml=rng.random() < .5, pip=.3)
        p = w.any_policy(m, depth=2)
        if rng.random() < .3:
            p['id'] = rng.choice(STRINGS)
        data = sut.text(p) if rng.random() < .7 else emit.varied(
            emit.policy_node(p), rng)
        path = os.path.join(base, 'main.xml')
        with open(path, 'wb') as f:
            f.write(data)
        watched = [notify.add(d) for d in (base, other, cwd, decoy)]
        detail = lambda: mon.describe(p, m, done=done)
        done = []
        obj = None
        RF = sut.ReaderFactory
        pdps, responses, elements = [], [], []
        reqs = [sut.request(m)]
        for step in range(rng.randint(5, 10)):
            op = rng.choice(['load', 'load', 'evaluate', 'evaluate',
                             'evaluate', 'serialise', 'print', 'print', 'copy',
                             'request', 'failing', 'failing', 'response',
                             'parts'])
            if op in ('evaluate', 'parts') and not pdps:
                op = 'load'
            if op == 'print' and not elements:
                op = 'serialise'
            done.append(op)
            how = ''
            if op in ('load', 'failing'):
                how = rng.choice(['path', 'stream', 'file', 'element',
                                  'class'])
                d = data if op == 'load' else broken(rng, w, data)
                q = path
                if op == 'failing':
                    q = os.path.join(base, 'bad.xml')
                    with open(q, 'wb') as f:
                        f.write(d)
                    if rng.random() < .15:
                        os.remove(q)
                f = None
                allowed = ()
                if how == 'path':
                    allowed = [q]
                    fn = lambda: sut.PDP.fromPolicySource(q, RF)
                elif how == 'file':
                    try:
                        f = open(q, 'rb')
                    except OSError:
                        continue
                    fn = lambda: sut.PDP.fromPolicySource(f, RF)
                    allowed = [q]
                elif how == 'class':
                    cls = sut.Policy if p['k'] == 'Policy' else sut.PolicySet
                    allowed = [q]
                    fn = lambda: sut.PDP(cls.fromSource(q, RF))
                elif how == 'stream':
                    f = io.BytesIO(d)
                    fn = lambda: sut.PDP.fromPolicySource(f, RF)
                else:
                    try:
                        e = sut.parse_element(d)
                    except Exception:
                        continue
                    fn = lambda: sut.PDP.fromPolicySource(e, RF)
                got = observe('loading a policy (%s)' % how, fn, allowed,
                              detail=detail)
                if got[0] == 'ok' and op == 'load':
                    pdps.append(got[1])
                if allowed:
                    ctx.count('read.given')
                if f is not None:
                    ctx.check(not f.closed or how != 'file' or True, 'x')
                    f.close()
            elif op == 'evaluate':
                o, r = rng.choice(pdps), rng.choice(reqs)
                got = observe('evaluating a request',
                              lambda: o.evaluate(r), detail=detail)
                if got[0] == 'ok':
                    responses.append(got[1])
                    how = got[1].results[0].decision.value
                for k in range(rng.randint(0, 2)):
                    r = sut.request(w.request(pip=.3))
                    observe('evaluating a request', lambda: o.evaluate(r),
                            detail=detail)
            elif op == 'parts':
                o = rng.choice(pdps).policy
                r = rng.choice(reqs)
                objs = [o, getattr(o, 'target', None)] + list(
                    getattr(o, 'rules', ()))
                objs += [x.target for x in getattr(o, 'rules', ())]
                objs += [x.condition for x in getattr(o, 'rules', ())]
                x = rng.choice([x for x in objs if x is not None])
                f = getattr(x, 'evaluate', None) or x.match
                how = type(x).__name__
                got = observe('evaluating a %s' % how, lambda: f(r),
                              detail=detail)
            elif op == 'request':
                r = world(rng).request(xml=True)
                d = emit.plain(emit.request_node(r))
                if rng.random() < .3:
                    d = c12.break_text(rng, d)[0]
                try:
                    e = sut.parse_element(d)
                except Exception:
                    continue
                got = observe('parsing a request', lambda:
                              sut.RequestElementTree.fromXML(e),
                              detail=detail)
                if got[0] == 'ok':
                    reqs.append(got[1])
            elif op == 'response':
                res = c16.results(rng)
                d = emit.plain(c16.doc(res))
                if rng.random() < .3:
                    d = c12.break_text(rng, d)[0]
                try:
                    e = sut.parse_element(d)
                except Exception:
                    continue
                got = observe('parsing a response', lambda:
                              sut.ResponseElementTree.fromXML(e),
                              detail=detail)
            elif op == 'serialise':
                if responses and rng.random() < .5:
                    x = rng.choice(responses)
                    how = 'response'
                    got = observe('serialising a response', lambda:
                                  sut.ResponseElementTree.toXML(x),
                                  detail=detail)
                else:
                    x = rng.choice(reqs)
                    how = 'request'
                    got = observe('serialising a request', lambda:
                                  sut.RequestElementTree.toXML(x),
                                  detail=detail)
                if got[0] == 'ok':
                    elements.append(got[1])
            elif op == 'print':
                x = rng.choice(elements)
                got = observe('printing', lambda: sut.prettyPrint(x),
                              detail=detail)
            else:
                x = rng.choice(pdps + reqs + responses)
                how = rng.choice(['copy', 'deepcopy', 'pickle'])
                how2 = type(x).__name__
                got = observe('copying a %s' % how2, lambda: {
                    'copy': copy.copy, 'deepcopy': copy.deepcopy,
                    'pickle': lambda y: pickle.loads(pickle.dumps(y))}[how](
                        x), detail=detail)
                how += how2
            ctx.count('op.' + op)
            ctx.seen('step', op, how, got[0],
                     got[1] if got[0] == 'failed' else '')
        ctx.count('inotify.watched', sum(watched))
    ctx.group('steps', 420, 9000, steps)

    # ------------------------------------------------------------ references
    def references(rng, i):
        """Loading opens exactly the documents referred to"""
        dirs = clean()
        base, other, cwd, decoy = dirs
        w = gen.World(rng, probes=False, selectors=0, ntypes=0, longtexts=0,
                      strings=rng.sample(STRINGS, 4) if rng.random() < .5
                      else None)
        m = w.request()

        class Quiet:
            def count(self, *a):
                pass
        for n in range(20):
            p = w.policyset(m, ident='s', depth=3, p_set=.5)
            b = c13.Build(Quiet(), rng, base, other, True, http)
            main = b.node(p)
            if b.size(main) <= 60 and b.files:
                break
        else:
            return
        b.write(rng)
        hosts, urls, paths = [], [], []
        allowed = []
        refs = set()

        def collect(p):
            if p['k'].endswith('Ref'):
                refs.add(p['ref'])
            for c in p.get('children', ()):
                collect(c)
        collect(main)
        for p in b.files.values():
            collect(p)
        byref = dict((p['id'], (f, p)) for f, p in b.files.items())
        for ref in refs:
            if ref not in byref:
                continue
            f, p = byref[ref]
            if ref.startswith('http'):
                with open(f, 'rb') as g:
                    server.files[ref[len(http):]] = g.read()
                hosts.append(server.addr)
                urls.append(ref)
                paths.append(ref[len(http):])
                os.remove(f)
            else:
                allowed.append(f)
                urls.append('file://' + f)
                if ref.startswith('file:'):
                    urls.append(ref)
        # neighbours that are not referred to
        names = [os.path.basename(f) for f in b.files]
        for d in (base, other, cwd):
            for n in rng.sample(names, min(2, len(names))):
                for q in (n + '.bak', 'x' + n, n):
                    q = os.path.join(d, q)
                    if not os.path.exists(q) and q not in b.files:
                        with open(q, 'wb') as f:
                            f.write(sut.text(main))
        fails = rng.random()
        if fails < .2 and allowed:
            f = rng.choice(allowed)
            with open(f, 'rb') as g:
                text = g.read()
            with open(f, 'wb') as g:
                g.write(broken(rng, w, text))
        elif fails < .3 and allowed:
            os.remove(rng.choice(allowed))
        elif fails < .4 and server.files:
            del server.files[rng.choice(sorted(server.files))]
        data = sut.text(main)
        path = os.path.join(base, 'main.xml')
        with open(path, 'wb') as f:
            f.write(data)
        for d, _, _ in os.walk(top):
            notify.add(d)
        entry = rng.choice(['path', 'stream', 'file', 'finder'])
        finder = sut.UrlPolicyFinder(base)
        stream = open(path, 'rb') if entry == 'file' else io.BytesIO(data)
        src = path if entry in ('path', 'finder') else stream
        detail = lambda: mon.show({
            'main': data.decode(), 'entry': entry, 'allowed': allowed,
            'http': paths})
        if entry != 'stream':
            allowed.append(path)
        got = observe(
            'loading a set with references', lambda:
            sut.PDP.fromPolicySource(src, sut.ReaderFactory) if entry in (
                'path', 'file') else
            sut.PDP.fromPolicySource(src, sut.ReaderFactory, finder),
            allowed, hosts, urls, detail, paths)
        stream.close()
        ctx.count('op.references')
        ctx.count('read.referenced', len(allowed))
        if paths:
            ctx.count('read.http', len(paths))
        if got[0] == 'ok':
            req = sut.request(m)
            for name in os.listdir(base):
                q = os.path.join(base, name)
                if os.path.isfile(q):
                    with open(q, 'wb') as f:
                        f.write(b'<no/>')
            observe('evaluating a set with references',
                    lambda: got[1].evaluate(req), detail=detail)
        else:
            ctx.count('op.failing')
        ctx.seen('references', entry, got[0], sorted(b.spellings),
                 len(b.files))
    ctx.group('references', 120, 2500, references)

    # --------------------------------------------------------------- hostile
    def hostile(rng, i):
        """DTDs and entities read no other file and contact no host, and
        nothing of other files gets into what is loaded"""
        base, other, cwd, decoy = clean()
        names = ['secret.txt', 'secret.xml', 'secret.dtd', 'secret.ent',
                 'x.xsd', 'x.xsl']
        for d in (base, decoy, os.getcwd()):
            for n in names:
                with open(os.path.join(d, n), 'w') as f:
                    f.write({'dtd': '<!ENTITY e "%s"><!ATTLIST Policy '
                             'PolicyId CDATA "%s">' % (SECRET, SECRET),
                             'ent': SECRET, 'txt': SECRET,
                             'xml': '<x>%s</x>' % SECRET}.get(
                                 n[-3:], '<x>%s</x>' % SECRET))
        w = world(rng)
        m = w.request(xml=True)
        kind = rng.choice(['policy', 'policy', 'policy', 'request',
                           'response'])
        if kind == 'policy':
            p = w.any_policy(m, depth=1)
            data = sut.text(p)
            root = p['k']
        elif kind == 'request':
            data = emit.plain(emit.request_node(m))
            root = 'Request'
        else:
            data = emit.plain(c16.doc(c16.results(rng)))
            root = 'Response'
        d = rng.choice([base, decoy])

        def place(n):
            return rng.choice([
                'file://' + os.path.join(d, n), os.path.join(d, n), n,
                './' + n, '../decoy/' + n, http + '/' + n,
                http.replace('http', 'ftp') + '/' + n,
                'file://localhost' + os.path.join(d, n)])
        subset, features = [], []
        dtd = ''
        x = rng.random()
        if x < .3:
            dtd = 'SYSTEM "%s"' % place('secret.dtd')
            features.append('system')
        elif x < .4:
            dtd = 'PUBLIC "-//x//y" "%s"' % place('secret.dtd')
            features.append('public')
        for k in range(rng.randint(0, 3)):
            f = rng.choice(['ext', 'ext', 'param', 'int', 'unparsed', 'extpub',
                            'chain', 'paramdecl', 'attlist'])
            features.append(f)
            subset.append({
                'ext': '<!ENTITY e SYSTEM "%s">' % place(rng.choice(
                    ['secret.txt', 'secret.xml', 'secret.ent'])),
                'extpub': '<!ENTITY e PUBLIC "-//x//y" "%s">' % place(
                    'secret.txt'),
                'param': '<!ENTITY %% p SYSTEM "%s"> %%p;' % place(
                    'secret.dtd'),
                'paramdecl': '<!ENTITY % q "<!ENTITY e SYSTEM \''
                             + place('secret.txt') + '\'>"> %q;',
                'int': '<!ENTITY e "inner">',
                'chain': '<!ENTITY a "%s"><!ENTITY e "&a;&a;">' % 'ab',
                'unparsed': '<!NOTATION n SYSTEM "%s"><!ENTITY u SYSTEM "%s" '
                            'NDATA n>' % (place('secret.txt'),
                                          place('secret.txt')),
                'attlist': '<!ATTLIST %s x CDATA "y">' % root}[f])
        body = data.decode('utf-8')
        body = body[body.index('<' + root):] if '<' + root in body else body
        use = rng.random()
        if use < .5 and '</' in body:
            # a reference to the entity in some text, or between elements
            spots = [n for n in range(len(body)) if body.startswith('</', n)]
            n = rng.choice(spots)
            body = body[:n] + '&e;' + body[n:]
            features.append('used')
        elif use < .65 and '="' in body:
            spots = [n + 2 for n in range(len(body))
                     if body.startswith('="', n)]
            n = rng.choice(spots)
            body = body[:n] + '&e;' + body[n:]
            features.append('inattr')
        if rng.random() < .2:
            body = body.replace('>', ' xmlns:xi="http://www.w3.org/2001/'
                                'XInclude"><xi:include href="%s" parse="%s"/>'
                                % (place('secret.xml'), rng.choice(
                                    ['xml', 'text'])), 1)
            features.append('xinclude')
        if rng.random() < .2:
            body = body.replace('>', ' xmlns:xsi="http://www.w3.org/2001/'
                                'XMLSchema-instance" xsi:schemaLocation="%s '
                                '%s" xml:base="%s">' % (
                                    emit.NS, place('x.xsd'), place('x')), 1)
            features.append('schema')
        doc = '<?xml version="1.0"?>'
        if rng.random() < .2:
            doc += '<?xml-stylesheet type="text/xsl" href="%s"?>' % place(
                'x.xsl')
            features.append('xsl')
        if dtd or subset or rng.random() < .2:
            doc += '<!DOCTYPE %s %s [%s]>' % (root, dtd, '\n'.join(subset))
        if rng.random() < .06 and '</' in body:
            doc = ('<?xml version="1.0"?><!DOCTYPE %s [<!ENTITY a0 "%s">%s'
                   '<!ENTITY e "&a%d;">]>' % (root, 'x' * 50, ''.join(
                       '<!ENTITY a%d "%s">' % (n, ('&a%d;' % (n - 1)) * 10)
                       for n in range(1, 10)), 9))
            if 'used' not in features:
                n = body.rindex('</')
                body = body[:n] + '&e;' + body[n:]
            features = ['bomb']
        data = (doc + body).encode('utf-8')
        source = rng.choice(['path', 'stream', 'file', 'reference']) \
            if kind == 'policy' else 'element'
        path = os.path.join(base, 'main.xml')
        with open(path, 'wb') as f:
            f.write(data)
        for q in (base, other, cwd, decoy):
            notify.add(q)
        here = os.getcwd()
        hooked = [notify.add(here)]
        RF = sut.ReaderFactory
        stream = open(path, 'rb') if source == 'file' else io.BytesIO(data)
        allowed = [] if source == 'stream' else [path]
        urls = []
        if source == 'reference':
            outer = sut.text({
                'k': 'PolicySet', 'id': 'o', 'alg': 'first-applicable',
                'target': None, 'desc': None, 'version': None,
                'defaults': None,
                'children': [{'k': root + 'Ref', 'ref': 'main.xml'}]})
            data2 = body.replace('%sId="%s"' % (
                root, p['id']), '%sId="main.xml"' % root, 1)
            with open(path, 'wb') as f:
                f.write((doc + data2).encode('utf-8'))
            urls = ['file://' + path]
            fn = lambda: sut.PDP.fromPolicySource(
                io.BytesIO(outer), RF, sut.UrlPolicyFinder(base))
        elif kind == 'policy':
            src = path if source == 'path' else stream
            fn = lambda: sut.PDP.fromPolicySource(src, RF)
        else:
            # the caller parses it, without loading anything
            try:
                e = sut.parse_element(data)
            except Exception:
                stream.close()
                return
            cls = sut.RequestElementTree if kind == 'request' else \
                sut.ResponseElementTree
            fn = lambda: cls.fromXML(e)
        detail = lambda: data.decode()
        rss = memory()
        got = observe('loading a %s with %s' % (kind, features), fn, allowed,
                      urls=urls, detail=detail)
        grown = memory() - rss
        ctx.check(grown < 600e6, lambda: 'loading a small document takes %d '
                  'bytes of memory' % grown, detail)
        stream.close()
        ctx.count('hostile')
        if got[0] == 'ok':
            if kind == 'policy':
                text = repr(sut.dump_policy(got[1].policy))
            elif kind == 'request':
                text = repr(sut.dump_request(got[1]))
            else:
                text = repr(sut.dump_response(got[1]))
            ctx.check(SECRET not in text, lambda: 'a document with %s loads '
                      'what stands in another file' % features, detail)
            ctx.count('hostile.loaded')
            if kind == 'policy' and rng.random() < .5:
                req = sut.request(m)
                observe('evaluating a policy with %s' % features,
                        lambda: got[1].evaluate(req), detail=detail)
        else:
            ctx.count('hostile.refused')
        ctx.seen('hostile', kind, source, got[0], sorted(set(features)))
    ctx.group('hostile', 700, 12000, hostile)

    # ----------------------------------------------------------------- rounds
    def rounds(rng, i):
        """What a round of work made is gone when it is over"""
        clean()
        same = rng.random() < .5
        seeds = []

        def seed(k):
            while len(seeds) <= k:
                w = gen.World(rng, probes=False, types=["string"] + rng.sample(
                    sorted(gen.STR_TYPES), 2), longtexts=0)
                m = w.request(xml=True)
                m['pip'] = None
                p = w.any_policy(m, depth=2)
                text = sut.text(p)
                # compiled expressions are kept on purpose
                if same or b'regexp' not in text:
                    seeds.append((m, p, text))
            return seeds[k]
        kinds = rng.sample(['evaluate', 'fail', 'request', 'response', 'print',
                            'copy', 'finder', 'failed evaluation',
                            'reference', 'reference'], 6)
        leaf = seed(0)[1]
        kind = leaf['k']
        path = os.path.join(top, 'base', 'leaf.xml')
        with open(path, 'wb') as f:
            f.write(sut.text(dict(leaf, id='leaf.xml')))
        outer = sut.text({
            'k': 'PolicySet', 'id': 'o', 'alg': 'deny-overrides',
            'target': None, 'desc': None, 'version': None, 'defaults': None,
            'children': [{'k': kind + 'Ref', 'ref': 'leaf.xml'}]})

        def one(k):
            m, p, text = seed(0 if same else k)
            o = sut.pdp(text, sut.UrlPolicyFinder('/') if 'finder' in kinds
                        else None)
            req = sut.request(m)
            if 'evaluate' in kinds:
                for j in range(2):
                    o.evaluate(req)
            if 'fail' in kinds:
                for bad in (text[:len(text) // 2],
                            text.replace(b'Id="', b'Idx="', 1)):
                    try:
                        sut.pdp(bad)
                    except Exception:
                        pass
            if 'request' in kinds:
                e = sut.RequestElementTree.toXML(req)
                sut.RequestElementTree.fromXML(e)
                if 'print' in kinds:
                    sut.prettyPrint(e)
            if 'response' in kinds:
                e = sut.ResponseElementTree.toXML(o.evaluate(req))
                sut.ResponseElementTree.fromXML(e)
            if 'copy' in kinds:
                copy.deepcopy(req)
                pickle.loads(pickle.dumps(o.evaluate(req)))
            if 'reference' in kinds:
                x = sut.pdp(outer, sut.UrlPolicyFinder(os.path.dirname(path)))
                x.evaluate(req)
            if 'failed evaluation' in kinds:
                bad = sut.request(m)
                bad.ctxHandler = sut.Handler(dict((k, 'raise')
                                                  for k in gen.IDS))
                o.evaluate(bad)

        turn = [0]

        def segment(n):
            for k in range(n):
                one(turn[0])
                turn[0] += 1
            return census(), memory_lines()
        tracemalloc.start(1)
        try:
            segment(5)
            if 'fail' in kinds and ctx.backend == 'lxml':
                for k in range(120):    # lxml keeps the last messages
                    try:
                        sut.pdp(seed(0)[2][:-9])
                    except Exception:
                        pass
            last = segment(2)
            # what grows with every round, again and again
            growing = None
            for n in (14, 28, 56, 56):
                # not the rounds of this monitor
                seed(0 if same else turn[0] + n)
                last = census(), memory_lines()
                now = segment(n)
                grown = set()
                for a, b in ((last[0], now[0]), (last[1], now[1])):
                    grown |= set(k for k in b
                                 if b[k] - a.get(k, 0) >= n * .7)
                growing = grown if growing is None else growing & grown
                if not growing:
                    break
                last = now
                ctx.count('rounds.again')
        finally:
            tracemalloc.stop()
        ctx.check(not growing, lambda: 'rounds (%s) leave something behind '
                  'every time: %r' % (kinds, sorted(growing)),
                  lambda: seeds[0][2].decode())
        ctx.count('rounds')
        ctx.seen('rounds', same, sorted(kinds), seeds[0][1]['k'])
    ctx.group('rounds', 32, 600, rounds)

    # ---------------------------------------------------------------- dropped
    def dropped(rng, i):
        """Requests, responses and documents go when the caller drops them,
        though the policy that worked on them stays"""
        since_start('loading and evaluating')
        w = world(rng)
        m = w.request(xml=True, pip=.3)
        p = w.any_policy(m, depth=2)
        text = sut.text(p)
        RF = sut.ReaderFactory
        kept = []

        def work(how):
            """@return: what the policy answers; the rest is dropped"""
            o = kept[0]
            n = w.request(xml=True, pip=.3) if how != 'same' else m
            r = sut.request(n)
            if how == 'raise':
                r.ctxHandler = sut.Handler(dict((k, 'raise')
                                                for k in gen.IDS))
            if how == 'direct':
                o = o.policy
                for x in [o, o.target] + list(getattr(o, 'rules', ())):
                    f = getattr(x, 'evaluate', None) or getattr(x, 'match',
                                                                None)
                    if f is None:
                        continue
                    try:
                        f(r)
                    except Exception:
                        pass
                return
            if how == 'thread':
                t = threading.Thread(target=lambda: o.evaluate(r))
                t.start()
                t.join()
                return
            a = o.evaluate(r)
            if how == 'serialise':
                try:
                    e = sut.RequestElementTree.toXML(r)
                    sut.RequestElementTree.fromXML(e)
                    sut.prettyPrint(sut.ResponseElementTree.toXML(a))
                except Exception:
                    pass
        try:
            kept.append(sut.PDP.fromPolicySource(io.BytesIO(text), RF))
        except Exception:
            return
        if rng.random() < .5:
            # what the policy makes of the first request may stay with it
            for k in range(2):
                work('same')
            work('new')
        ways = [rng.choice(['same', 'new', 'new', 'raise', 'direct',
                            'serialise', 'thread'])
                for k in range(rng.randint(1, 3))]
        before = census(('ndg.', sut.__name__))
        for how in ways:
            work(how)
        now = census(('ndg.', sut.__name__))
        more = dict((k, n - before.get(k, 0)) for k, n in now.items()
                    if n > before.get(k, 0) and (
                        k.startswith(('ndg.xacml.core.context.',
                                      'ndg.xacml.parsers.',
                                      sut.__name__)) or
                        k.endswith(('.Attribute', 'XPathSelector'))))
        ctx.check(not more, lambda: 'of the requests evaluated (%s) there '
                  'stays %r, the caller having dropped them' % (ways, more),
                  lambda: mon.describe(p, m))
        ctx.count('dropped', len(ways))
        before = now
        del kept[:]
        now = census('ndg.')
        ctx.check(not any(k.endswith(('.PDP', '.Policy', '.PolicySet',
                                      '.Request', '.Response')) and
                          now.get(k, 0) > base.get(k, 0) for k in now),
                  lambda: 'a policy dropped by the caller stays: %r' % now,
                  lambda: mon.describe(p, m))
        ctx.seen('dropped', p['k'], sorted(set(ways)))
    gc.collect()
    base = census('ndg.')
    ctx.group('dropped', 60, 1500, dropped)


def memory():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * os.sysconf('SC_PAGE_SIZE')


def census(only=None):
    """Objects of the code under test and of the XML library, by type"""
    gc.collect()
    out = {}
    for x in gc.get_objects():
        t = type(x)
        mod = getattr(t, '__module__', None)
        if isinstance(mod, str) and (mod.startswith('ndg.') or
                                     mod.startswith('lxml') or
                                     mod.startswith('xml.')):
            if only is not None and not mod.startswith(only):
                continue
            k = '%s.%s' % (mod, t.__name__)
        elif only is not None:
            continue
        elif t in (dict, list, tuple, set, type) or t.__name__ in (
                'frame', 'traceback', 'function', 'cell'):
            k = t.__name__
        elif isinstance(x, BaseException):
            k = 'exception ' + t.__name__
        else:
            continue
        out[k] = out.get(k, 0) + 1
    return out


def memory_lines():
    """Live allocations by line of the code under test"""
    gc.collect()
    sys._clear_type_cache()             # it holds on to names
    out = {}
    for st in tracemalloc.take_snapshot().statistics('lineno'):
        f = st.traceback[0]
        if os.path.realpath(f.filename).startswith(
                os.path.realpath(watch.REPO) + os.sep):
            out['%s:%d' % (f.filename, f.lineno)] = st.count
    return out
