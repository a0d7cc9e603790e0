"""Loading and evaluating in several threads"""
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import tempfile
import time
import traceback

from vp import emit, gen, harness, model, mon, sched, sut
from vp.model import F1, F2, PROBE, TYPES

META = {
    'rule': 'one evaluation = one operation of one thread (load, evaluation,'
            ' expression, look-up, registration, parsing) whose outcome is'
            ' compared with that of the same operation done alone in another'
            ' process, and decisions with the reference model as well;'
            ' distinct = distinct schedules (sequence of who passed control'
            ' to whom at which line) and operation outcomes',
    'assumptions': [
        'every case runs in two forked processes which have not yet loaded'
        ' any function: one does the operations one after the other, one in'
        ' 2 to 6 threads',
        'preemption is between lines or byte codes of the library (forced at'
        ' seeded random points) or wherever the interpreter switches at an'
        ' interval of 1 us',
        'a finder, a source stream or a request is not shared between'
        ' threads while it is being changed'],
    'floors': {'op.decide': 3000, 'op.load': 500, 'op.expr': 800,
               'op.lookup': 500, 'op.register': 100, 'op.parse': 200,
               'op.regexp': 500, 'op.refs': 100, 'switches': 30000,
               'schedules': 150, 'free': 100, 'family': 60},
}
UNKNOWN = [F1 + 'string-is-in', F1 + 'integer-add', F1 + 'or', F2 + 'nope',
           F1 + 'string-nope', 'urn:nope:x', F2 + 'time-in-range',
           F1 + 'nope-equal', F1 + 'string-equal-x']
BROKEN = [
    b'<Policy xmlns="%s" PolicyId="x" RuleCombiningAlgId="urn:x"/>',
    b'<Policy xmlns="%s" RuleCombiningAlgId="' + (
        model.RALG + 'deny-overrides').encode() + b'"/>',
    b'<Policy xmlns="%s"', b'<Rule xmlns="%s"/>',
    b'<Policy xmlns="%s" PolicyId="x" RuleCombiningAlgId="' + (
        model.RALG + 'deny-overrides').encode() + b'"><Rule RuleId="r"'
    b' Effect="Permit"><Condition><Apply FunctionId="' + (
        F1 + 'integer-add').encode() + b'"/></Condition></Rule></Policy>']
BROKEN = [b.replace(b'%s', emit.NS.encode()) for b in BROKEN]


def name_of(e):
    return ('raised', type(e).__name__)


class Echo(sut.CtxHandlerBase):
    """One handler for all requests: answers with what the request itself
    holds, so that an answer for another request would show"""

    def handlePEPRequest(self, pepRequest):
        raise NotImplementedError()

    def pipQuery(self, request, designator):
        time.sleep(0)
        tag = [a.attributeValues[0].value for a in request.action.attributes
               if a.attributeId == 'tag'][0]
        time.sleep(0)
        return [sut.CLASSES['string'](value='pip ' + tag)]


class Env:
    """What the threads of one case share"""

    def __init__(self, case):
        self.case = case
        self.reqs = [sut.request(m) for m in case['mreqs']]
        self.exprs = None
        self.pdps = None
        if case['warm']:
            self.warm()

    def warm(self):
        self.pdps = [sut.pdp(d) for d in self.case['docs']]
        self.exprs = [sut.api_expr(e) for e in self.case['exprs']]
        echo = Echo()
        d = sut.SubjectAttributeDesignator()
        d.attributeId, d.dataType = 'tag', TYPES['string']
        self.tagd = d
        self.tagged = []
        for k in range(len(self.case['mreqs'])):
            r = sut.request({'subjects': [{'category': None, 'attrs': [
                {'id': 'tag', 'type': 'string', 'issuer': None,
                 'values': ['own %d' % k]}]}], 'resources': [],
                'action': {'attrs': [{'id': 'tag', 'type': 'string',
                                      'issuer': None,
                                      'values': ['%d' % k]}]},
                'env': {'attrs': []}, 'pip': None, 'doc': None})
            r.ctxHandler = echo
            self.tagged.append(r)


def perform(env, own, op):
    """One operation.  @return: plain data"""
    k = op[0]
    case = env.case
    try:
        if k == 'load':
            p = sut.pdp(case['docs'][op[1]])
            own[op[1]] = p
            return ('loaded', harness.digest(sut.dump_policy(p.policy)))
        if k == 'broken':
            return ('loaded', sut.pdp(BROKEN[op[1]]).policy.ident)
        if k == 'refs':
            p = sut.pdp(os.path.join(case['dir'], 'root.xml'))
            return ('loaded', harness.digest(sut.dump_policy(p.policy)),
                    [sut.decide(p, r) for r in env.reqs])
        if k == 'decide':
            if env.pdps is not None:
                p = env.pdps[op[1]]
            else:
                if op[1] not in own:
                    own[op[1]] = sut.pdp(case['docs'][op[1]])
                p = own[op[1]]
            resp = p.evaluate(env.reqs[op[2]])
            return ('decided', len(resp.results),
                    resp.results[0].decision.value)
        if k == 'expr':
            if env.exprs is None:
                x = sut.api_expr(case['exprs'][op[1]])
            else:
                x = env.exprs[op[1]]
            r, e = sut.run_expr(x, env.reqs[op[2]])
            return ('expr', r, None if e is None else type(e).__name__)
        if k == 'tag':
            if env.pdps is None:
                return ('tag', None)
            return ('tag', [v.value for v in env.tagd.evaluate(
                env.tagged[op[1]])])
        if k == 'lookup':
            f = sut.functionMap[op[1]] if op[2] else \
                sut.functionMap.get(op[1])
            return ('function', f.__name__ if isinstance(f, type) else
                    repr(f), getattr(f, 'FUNCTION_NS', None))
        if k == 'regexp':
            t, p, v = op[1:]
            fn = (F1 if t == 'string' else F2) + t + '-regexp-match'
            a, b = sut.CLASSES[t](value=p), sut.CLASSES[t](value=v)
            return ('regexp', sut.functionMap[fn]().evaluate(a, b))
        if k == 'register':
            ident = PROBE + 'thread-' + op[1]
            sut.functionMap.load_custom_function(
                ident, function_factory=custom(op[2]))
            pol = {'k': 'Policy', 'id': 'c', 'alg': 'deny-overrides',
                   'target': None, 'rules': [{
                       'id': 'r', 'effect': 'Permit', 'target': None,
                       'cond': {'k': 'apply', 'fn': ident, 'args': []}}]}
            return ('registered', sut.decide(sut.load(sut.text(pol)),
                                             env.reqs[0]))
        if k == 'datatype':
            ident = 'urn:type:' + op[1]
            from ndg.xacml.core.attributevalue import AttributeValue
            cls = type('T' + op[1], (AttributeValue,),
                       {'TYPE': str, 'IDENTIFIER': ident})
            sut.AttributeValueClassFactory.addClass(ident, cls)
            got = sut.AttributeValueClassFactory()(ident)
            return ('type', got is cls,
                    [sut.AttributeValueClassFactory()(u).IDENTIFIER
                     for u in sorted(TYPES.values())])
        if k == 'parse':
            r = sut.request_from_xml(case['xmls'][op[1]])
            return ('parsed', harness.digest(sut.dump_request(r)),
                    [sut.decide(p, r) for p in env.pdps]
                    if env.pdps is not None else None)
        if k == 'alg':
            r = sut.Policy() if op[1] else sut.PolicySet()
            try:
                if op[1]:
                    r.ruleCombiningAlgId = op[2]
                    return ('alg', type(r.ruleCombiningAlg).__name__)
                r.policyCombiningAlgId = op[2]
                return ('alg', type(r.policyCombiningAlg).__name__)
            except TypeError:
                return ('alg', 'refused', r.ruleCombiningAlgId if op[1]
                        else r.policyCombiningAlgId)
        raise RuntimeError('harness: ' + k)
    except RuntimeError as e:
        if str(e).startswith('harness'):
            raise
        return name_of(e)
    except Exception as e:
        return name_of(e)


def value_of(e, m):
    try:
        return repr(model.ev(e, m))
    except Exception as x:
        return type(x).__name__


def custom(value):
    def factory(identifier):
        class Custom(sut.AbstractFunction):
            FUNCTION_NS = identifier

            def evaluate(self, *inputs):
                return value
        return Custom
    return factory


ASLEEP = 45.0           # seconds


def activity(pid):
    """Processor time a child has used, in ticks, or None if any of its
    threads is doing something"""
    try:
        for tid in os.listdir('/proc/%d/task' % pid):
            with open('/proc/%d/task/%s/stat' % (pid, tid)) as f:
                if f.read().rsplit(')', 1)[1].split()[0] != 'S':
                    return None
        with open('/proc/%d/stat' % pid) as f:
            return sum(map(int, f.read().rsplit(')', 1)[1].split()[11:13]))
    except OSError:
        return None


def in_child(fn, wall):
    """fn() in a forked process.  @return: its result, or ('died', how)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                out = ('ok', fn())
            except sched.Blocked:
                out = ('blocked', None)
            except BaseException:
                out = ('error', traceback.format_exc())
            data = pickle.dumps(out)
            data = struct.pack('>I', len(data)) + data
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    end = time.time() + wall
    out = None
    last, since = None, time.time()
    while True:
        left = end - time.time()
        if left > 0 and not select.select([r], [], [], min(left, 1))[0]:
            now = activity(pid)
            if last is None or now is None or now > last + 10:
                last, since = now, time.time()
            if time.time() - since < ASLEEP:
                continue
            os.kill(pid, signal.SIGKILL)
            out = ('blocked', None)
            break
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            out = ('timeout', None)
            break
        part = os.read(r, 65536)
        if not part:
            break
        data += part
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    if out is None:
        if len(data) >= 4 and len(data) == 4 + struct.unpack('>I',
                                                             data[:4])[0]:
            return pickle.loads(data[4:])
        out = ('died', os.WTERMSIG(status) if os.WIFSIGNALED(status)
               else status)
    return out


def run(ctx):
    sut.register_all()
    scratch = tempfile.mkdtemp(prefix='c24-', dir=os.environ.get(
        'VERIF_SCRATCH'))

    def make_case(rng):
        w = gen.World(rng, errors=.04, selectors=.12)
        mreqs = [w.request(xml=True, missing=0)]
        for _ in range(rng.randint(1, 3)):
            mreqs.append(w.request(xml=True, missing=0))
        for m in mreqs:
            if rng.random() < .3:
                m['pip'] = {'answers': dict(
                    (k, rng.choice([None, [(rng.choice(w.types), None)]]))
                    for k in w.ids)}
                for k, a in m['pip']['answers'].items():
                    if a:
                        m['pip']['answers'][k] = [
                            (t, w.value(t)) for t, _ in a]
        pols = [w.any_policy(rng.choice(mreqs), depth=1)
                for _ in range(rng.randint(1, 3))]
        exprs = [w.boolean(rng.choice(mreqs), 2) for _ in range(2)] + \
            [w.desig(rng.choice(mreqs)) for _ in range(2)]
        return w, {'mreqs': mreqs, 'pols': pols, 'exprs': exprs,
                   'docs': [sut.text(p) for p in pols],
                   'xmls': [emit.plain(emit.request_node(m), ns=emit.CNS)
                            for m in mreqs],
                   'warm': rng.random() < .5}

    def documents(rng, case, w):
        """The policies as one set of documents referring to each other"""
        d = case['dir'] = tempfile.mkdtemp(dir=scratch)
        kids = []
        for k, p in enumerate(case['pols']):
            name = 'doc%d.xml' % k
            q = dict(p, id=name)
            if q['k'] == 'PolicySet':
                q['children'] = [rename(c, name) for c in q['children']]
            with open(os.path.join(d, name), 'wb') as f:
                f.write(sut.text(q))
            kids.append({'k': p['k'] + 'Ref', 'ref': name, 'id': name})
        root = {'k': 'PolicySet', 'id': 'root', 'alg': rng.choice(gen.RALGS),
                'target': None, 'children': kids, 'desc': None,
                'version': None, 'defaults': None}
        with open(os.path.join(d, 'root.xml'), 'wb') as f:
            f.write(sut.text(root))

    def rename(p, prefix):
        q = dict(p, id=prefix + '/' + p['id'])
        if q['k'] == 'PolicySet':
            q['children'] = [rename(c, prefix) for c in q['children']]
        return q

    def operation(rng, case, t, n):
        def pick(x):
            return rng.randrange(len(case[x]))
        x = rng.random()
        if x < .34:
            return ('decide', pick('docs'), pick('mreqs'))
        if x < .46:
            return ('load', pick('docs'))
        if x < .60:
            return ('expr', pick('exprs'), pick('mreqs'))
        if x < .66:
            return ('tag', pick('mreqs'))
        if x < .74:
            return ('lookup', rng.choice(case['fns']), rng.random() < .7)
        if x < .83:
            t = rng.choice(model.RE_TYPES)
            return ('regexp', t, rng.choice(case['pats']),
                    rng.choice(case['pats'] + ['a', 'ab', '']))
        if x < .86:
            return ('register', '%d-%d' % (t, n), rng.random() < .5)
        if x < .88:
            return ('datatype', '%d-%d' % (t, n))
        if x < .93:
            return ('parse', pick('xmls'))
        if x < .96:
            return ('refs',)
        if x < .98:
            return ('alg', rng.random() < .5, rng.choice(
                [model.RALG + a for a in gen.RALGS] +
                [model.PALG + a for a in gen.RALGS] + ['urn:x']))
        return ('broken', rng.randrange(len(BROKEN)))

    def family(rng, w, mreqs):
        """Expressions of one class with different contents"""
        m = rng.choice(mreqs)
        t = rng.choice(w.types)
        what = rng.choice(['desig', 'desig', 'desig', 'sel', 'equal', 'alomo',
                           'regexp', 'bag', 'only', 'concat', 'nest'])
        cat = rng.choice(gen.CATS)

        def val(t):
            return {'k': 'val', 'type': t, 'value': w.value(t)}

        def bag():
            return {'k': 'apply', 'fn': F1 + t + '-bag',
                    'args': [val(t) for _ in range(rng.randint(0, 4))]}
        out = []
        for _ in range(8):
            if what == 'desig':
                e = w.desig(m, cat)
                e['mbp'] = e['mbp'] and rng.random() < .5
            elif what == 'sel' and m['doc'] is not None:
                e = w.sel()
            elif what == 'equal' and t in model.EQ_TYPES:
                a = val(t)
                e = {'k': 'apply', 'fn': F1 + t + '-equal',
                     'args': [a, rng.choice([a, val(t)])]}
            elif what == 'alomo' and t in model.BAG_TYPES:
                e = {'k': 'apply', 'fn': F1 + t + '-at-least-one-member-of',
                     'args': [bag(), bag()]}
            elif what == 'bag' and t in model.BAG_TYPES:
                e = bag()
            elif what == 'only' and t in model.BAG_TYPES:
                e = {'k': 'apply', 'fn': F1 + t + '-one-and-only',
                     'args': [bag()]}
            elif what == 'concat':
                e = {'k': 'apply', 'fn': F2 + 'string-concatenate',
                     'args': [val('string'), val('string')]}
            elif what == 'nest':
                e = w.boolean(m, 2)
            else:
                v = w.value('string')
                e = {'k': 'apply', 'fn': F1 + 'string-regexp-match',
                     'args': [w.pattern('string', [v]), val('string')]}
            out.append(e)
        return out

    def case_of(rng, threads, nops):
        w, case = make_case(rng)
        documents(rng, case, w)
        fns = sorted(model.FUNCS)
        case['fns'] = rng.sample(fns, 3) + rng.sample(UNKNOWN, 2)
        case['pats'] = [rng.choice(['a', 'a+', '(', '[ab]', '(?i)A', '^a$',
                                    '.*b', 'a|b', '*']) for _ in range(3)] + [
            'x%d+' % rng.randint(0, 99)]
        kind = rng.random()
        if kind < .3:       # different instances of one class at once
            case['warm'] = rng.random() < .8
            if rng.random() < .2:
                m = rng.choice(case['mreqs'])
                case['pols'] = [w.policy(m, 'f%d' % k, 1, 'deny-overrides')
                                for k in range(threads)]
                case['docs'] = [sut.text(p) for p in case['pols']]
                what, n = 'decide', threads
                documents(rng, case, w)
            else:
                case['exprs'] = family(rng, w, case['mreqs'])
                what, n = 'expr', len(case['exprs'])
            r = rng.randrange(len(case['mreqs']))
            plan = [[(what, (t + j // 4) % n, r if rng.random() < .8 else
                      rng.randrange(len(case['mreqs'])))
                     for j in range(4 * nops)] for t in range(threads)]
            ctx.count('family')
        elif kind < .5:     # the same objects for different requests at once
            case['warm'] = True
            what, pool = rng.choice([('decide', 'docs'), ('expr', 'exprs')])
            ks = list(range(len(case[pool])))
            rng.shuffle(ks)
            k = max(ks, key=lambda k: len(set(
                repr(sorted(model.policy(case['pols'][k], m), key=repr)
                     if what == 'decide' else value_of(case['exprs'][k], m))
                for m in case['mreqs'])))
            ms = list(range(len(case['mreqs'])))
            rng.shuffle(ms)
            plan = [[(what, k, ms[(t + (j if rng.random() < .1 else 0)) %
                                  len(ms)]) for j in range(nops + 2)]
                    for t in range(threads)]
        elif kind < .7:     # all threads do the same at once
            ops = [operation(rng, case, 0, k) for k in range(nops)]
            plan = [[o if o[0] not in ('register', 'datatype') else
                     (o[0], '%d-%d' % (t, k)) + o[2:]
                     for k, o in enumerate(ops)] for t in range(threads)]
        else:
            plan = [[operation(rng, case, t, k) for k in range(nops)]
                    for t in range(threads)]
        return case, plan

    def alone(case, plan):
        env = Env(case)
        out = []
        for ops in plan:
            own = {}
            out.append([perform(env, own, op) for op in ops])
        return out

    def together(case, plan, s):
        env = Env(case)

        def body(ops):
            own = {}
            return [perform(env, own, op) for op in ops]
        out = s.run([lambda ops=ops: body(ops) for ops in plan])
        # what is left behind must be sound too
        own = {}
        again = [[perform(env, own, op) for op in ops
                  if op[0] not in ('register', 'datatype')] for ops in plan]
        return (out, again, s.switches, s.lines, s.trail.hexdigest(),
                len(s.places))

    def cases(mode):
        def one(rng, i):
            threads = rng.choice([2, 2, 3, 4, 6])
            nops = rng.randint(2, 6) if mode != 'free' else rng.randint(4, 12)
            case, plan = case_of(rng, threads, nops)
            s = sched.Scheduler(random.Random(rng.random()), mode,
                                rng.choice([2, 4, 10, 30, 100, 400]) *
                                (4 if mode == 'opcode' else 1))
            try:
                want = in_child(lambda: alone(case, plan), 150)
                if want[0] != 'ok':
                    if want[0] == 'died' and want[1] == signal.SIGXCPU:
                        ctx.fail('operations done one after the other do not '
                                 'end', mon.show([case, plan]))
                    if want[0] == 'blocked':
                        ctx.fail('operations done one after the other wait for '
                                 'ever', mon.show([case, plan]))
                    raise RuntimeError('sequential run: %r' % (want,))
                got = in_child(lambda: together(case, plan, s), 240)
            finally:
                shutil.rmtree(case['dir'], ignore_errors=True)
            want = want[1]
            detail = lambda: mon.show([case['pols'], case['mreqs'],   # noqa
                                       case['exprs'], plan, mode])
            if got[0] == 'blocked':
                ctx.fail('the threads block one another for ever', detail())
            if got[0] == 'died' and got[1] == signal.SIGXCPU:
                ctx.fail('the threads do not end', detail())
            if got[0] != 'ok':
                raise RuntimeError('threads: %r' % (got,))
            out, again, switches, lines, trail, places = got[1]
            ctx.count('switches', switches)
            ctx.count('lines', lines)
            ctx.count('places', places)
            ctx.count('free' if mode == 'free' else 'schedules')
            if mode != 'free':
                ctx.seen('schedule', trail)
            for t, (ops, a, b) in enumerate(zip(plan, want, out)):
                ctx.check(b is not None, lambda: 'thread %d ended early' % t,
                          detail)
                for k, (op, x, y) in enumerate(zip(ops, a, b)):
                    ctx.check(x == y, lambda: 'thread %d, operation %d, %r: '
                              '%r, done alone %r' % (t, k, op, y, x), detail)
                    judge(case, op, y, detail)
                    ctx.count('op.' + op[0])
                    ctx.seen(op[0], y)
            for t, (ops, a, b) in enumerate(zip(plan, want, again)):
                a = [x for op, x in zip(ops, a)
                     if op[0] not in ('register', 'datatype')]
                ctx.check(a == b, lambda: 'once more after the threads have '
                          'ended: %r, done alone %r' % (
                              [y for x, y in zip(a, b) if x != y][:2],
                              [x for x, y in zip(a, b) if x != y][:2]), detail)
        return one

    def judge(case, op, y, detail):
        if op[0] == 'decide':
            acc = model.policy(case['pols'][op[1]], case['mreqs'][op[2]])
            ctx.check(y[0] == 'decided' and y[1] == 1 and y[2] in acc,
                      lambda: '%r gives %r, expected %s' % (op, y, acc),
                      detail)
            ctx.count('decision.%s' % y[2])
        elif op[0] == 'tag' and case['warm']:
            want = ['own %d' % op[1], 'pip %d' % op[1]]
            ctx.check(y == ('tag', want), lambda: 'the values of request %d '
                      'are %r' % (op[1], y), detail)
        elif op[0] == 'register':
            want = 'Permit' if op[2] else 'NotApplicable'
            ctx.check(y == ('registered', want), lambda: '%r: %r' % (op, y),
                      detail)
        elif op[0] == 'datatype':
            ctx.check(y == ('type', True, sorted(TYPES.values())),
                      lambda: '%r: %r' % (op, y), detail)
        elif op[0] == 'lookup' and op[1] in model.FUNCS:
            ctx.check(y[0] == 'function' and y[2] in (None, op[1]),
                      lambda: '%r: %r' % (op, y), detail)

    try:
        ctx.group('line', 160, 3000, cases('line'))
        ctx.group('opcode', 60, 1500, cases('opcode'))
        ctx.group('free', 200, 1500, cases('free'))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
