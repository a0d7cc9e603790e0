"""Objects named by a path"""
import importlib
import os
import shutil
import sys
import tempfile

from vp import sut

META = {
    'rule': 'one evaluation = one import or call by name (result identity,'
            ' arguments received, error) or one look at the import path and'
            ' the arguments after it; distinct = distinct (operation, form of'
            ' the name, kind of object, demanded type, way the directory is'
            ' given, outcome)',
    'assumptions': ['modules are files in scratch directories which nothing'
                    ' else changes; a demanded type is a class',
                    'which of two modules of one name on the path is taken is'
                    ' not judged'],
    'floors': {'import.done': 2000, 'import.refused': 1000, 'call.done': 1500,
               'call.refused': 800, 'path.extended': 800, 'factory': 150, 'shadowed': 150,
               'path.bare': 60},
}

SOURCE = '''
import sys
CALLS = []
class Base(object):
    pass
class %(M)sError(Exception):
    pass
class %(A)s(Base):
    WHO = (__name__, %(A)r)
    def __init__(self, *args, **kw):
        CALLS.append((type(self), args, kw))
        self.got = (args, kw)
    class %(B)s(Base):
        WHO = (__name__, %(A)r, %(B)r)
        def __init__(self, *args, **kw):
            CALLS.append((type(self), args, kw))
            self.got = (args, kw)
        class %(C)s(object):
            WHO = (__name__, %(A)r, %(B)r, %(C)r)
            def __init__(self, *args, **kw):
                CALLS.append((type(self), args, kw))
                self.got = (args, kw)
class %(B)s(object):
    WHO = (__name__, %(B)r)
    def __init__(self, *args, **kw):
        CALLS.append((type(self), args, kw))
        self.got = (args, kw)
class %(C)s(%(A)s):
    WHO = (__name__, %(C)r)
class %(D)s(object):
    WHO = (__name__, %(D)r)
    def __init__(self, *args, **kw):
        CALLS.append((type(self), args, kw))
        self.got = (args, kw)
class %(A)sx(object):
    WHO = (__name__, %(A)r + 'x')
    def __init__(self, *args, **kw):
        CALLS.append((type(self), args, kw))
        self.got = (args, kw)
RESULT = [None]
def %(F)s(*args, **kw):
    CALLS.append((%(F)s, args, kw))
    if isinstance(RESULT[0], Exception):
        raise RESULT[0]
    return RESULT[0]
'''
BROKEN = ['import no_such_module_%s\n', 'x = = %s\n', '1 / 0  # %s\n',
          'raise ValueError("%s")\n', 'raise KeyError("%s")\n',
          'from sys import no_such_name_%s\n']
SERIAL = [0]


class Virtual(type):
    def __subclasscheck__(cls, other):
        return cls.WANT(other)


class World:
    """Packages in scratch directories; some on the import path"""

    def __init__(self, rng):
        self.rng = rng
        SERIAL[0] += 1
        self.n = SERIAL[0]
        self.root = tempfile.mkdtemp(prefix='c28-')
        self.dirs = []
        self.modules = []           # (module name, names, dir)
        self.broken = []
        self.shadowed = {}          # package -> object and module name
        for d in range(rng.randint(1, 2)):
            path = os.path.join(self.root, 'd%d' % d)
            os.mkdir(path)
            self.dirs.append(path)
            pk = 'vpm%d%s' % (self.n, 'ab'[d])
            os.mkdir(os.path.join(path, pk))
            os.mkdir(os.path.join(path, pk, 'sub'))
            for name in (pk, pk + '.sub', pk + '.mod', pk + '.sub.mod',
                         pk + '.sub.mod2', pk + 'flat'):
                f = os.path.join(path, *name.split('.'))
                f = os.path.join(f, '__init__.py') if name in (
                    pk, pk + '.sub') else f + '.py'
                names = dict(zip('ABCDF', rng.sample(
                    ['Alpha', 'Beta', 'Gamma', 'Delta', 'make', 'Al',
                     'alpha', 'Policy', 'mod_', '_x', 'X1'], 5)), M='Mod')
                text = SOURCE % names
                if name in (pk, pk + '.sub') and rng.random() < .5:
                    # a module with the name of an object of its package
                    own = names[rng.choice('ABCD')]
                    inner = dict(zip('ABCDF', rng.sample(
                        ['Alpha', 'Beta', 'make', 'alpha', 'X1'], 5)),
                        M='Mod')
                    open(os.path.join(os.path.dirname(f), own + '.py'),
                         'w').write(SOURCE % inner)
                    text = 'import %s.%s\n' % (name, own) + text
                    self.shadowed[name] = own
                    self.modules.append((name + '.' + own, inner, path))
                open(f, 'w').write(text)
                self.modules.append((name, names, path))
            name = pk + '.bad'
            open(os.path.join(path, pk, 'bad.py'), 'w').write(
                rng.choice(BROKEN) % self.n)
            self.broken.append((name, path))
        importlib.invalidate_caches()
        self.on_path = [d for d in self.dirs if rng.random() < .5]
        for d in self.on_path:
            if rng.random() < .5:
                sys.path.append(d)
            else:
                sys.path.insert(rng.randint(0, len(sys.path)), d)

    def close(self):
        sys.path[:] = [p for p in sys.path if not p.startswith(self.root)]
        for k in [k for k in sys.modules
                  if k.startswith('vpm%d' % self.n)]:
            del sys.modules[k]
        shutil.rmtree(self.root, ignore_errors=True)


def run(ctx):
    from ndg.xacml.utils import factory
    from ndg.xacml.core.functions import functionMap, AbstractFunction
    imp, call = factory.importModuleObject, factory.callModuleObject

    def follow(module, path):
        o = module
        for p in path:
            o = getattr(o, p)
        return o

    def pick(w):
        """@return: keyword arguments naming an object, what it is, form"""
        rng = w.rng
        module, names, d = rng.choice(w.modules)
        if w.shadowed and rng.random() < .15:
            own = rng.choice(sorted(w.shadowed))
            module, names, d = [m for m in w.modules if m[0] == own][0]
        kind = rng.choice('AABBCCDFF') if rng.random() < .8 else 'deep'
        if kind == 'deep':
            path = [names['A'], names['B'], names['C']]
            path = path[:rng.randint(2, 3)]
            form = 'colon'
        else:
            path = [names[kind]]
            if kind == 'A' and rng.random() < .2:
                path = [names['A'] + 'x']
            form = rng.choice(['dot', 'colon', 'apart', 'apart'])
        if w.shadowed.get(module) == path[0]:
            ctx.count('shadowed')
        want = path
        ok = True
        x = rng.random()
        why = 'ok'
        if x < .08:
            path, ok, why = path[:-1] + [path[-1] + 'y'], False, 'no name'
        elif x < .12:
            path, ok, why = path[:-1] + [path[-1].swapcase()], False, 'case'
            if path[-1] in list(names.values()) + [names['A'] + 'x']:
                path[-1] += '_'
        elif x < .16:
            module, ok, why = module + 'z', False, 'no module'
        elif x < .22:
            module, d = rng.choice(w.broken)
            ok, why = False, 'broken'
        elif x < .25:
            path, ok, why = path + ['Nope'], False, 'no inner name'
            form = 'colon'
        if form == 'dot':
            kw = {'moduleName': '%s.%s' % (module, '.'.join(path))}
        elif form == 'colon':
            kw = {'moduleName': '%s:%s' % (module, '.'.join(path))}
        else:
            kw = {'moduleName': module, 'objectName': path[0]}
        return kw, module, want, d, form, kind, ok, why

    def demanded(rng, target, others):
        """@return: a demanded type, whether the object is of it"""
        x = rng.random()
        if x < .3:
            return None, True, 'none'
        isclass = isinstance(target, type)
        if x < .65 and isclass:
            t = rng.choice(target.__mro__)
            return t, True, 'base' if t is not target else 'itself'
        if x < .75 and isclass:
            sub = type('Sub', (target,), {})
            return sub, False, 'subclass'
        if x < .8 and isclass:
            yes = rng.random() < .5
            t = Virtual('Virt', (object,), {})
            t.WANT = classmethod(lambda c, o: yes and o is target)
            return t, yes, 'virtual'
        t = rng.choice(others + [int, dict, Exception])
        return t, isclass and issubclass(target, t), 'other'

    def history(rng, i):
        w = World(rng)
        try:
            trace = []
            for step in range(rng.randint(6, 14)):
                one(w, rng, trace)
        finally:
            w.close()

    def one(w, rng, trace):
        kw, module, want, d, form, kind, ok, why = pick(w)
        reachable = d in w.on_path or \
            module.split('.')[0] in sys.modules
        calling = rng.random() < .55
        given = 'none'
        if calling and (not reachable or rng.random() < .3):
            x = rng.random()
            if x < .75:
                kw['moduleFilePath'], given = d, 'right'
                reachable = True
            elif x < .85:
                kw['moduleFilePath'], given = d + '-none', 'missing'
            elif x < .93:
                kw['moduleFilePath'], given = '', 'empty'
            else:
                kw['moduleFilePath'] = os.path.join(d, 'nothing')
                os.makedirs(kw['moduleFilePath'], exist_ok=True)
                given = 'other'
        ok = ok and reachable and given != 'missing'
        if not reachable:
            why = 'not on the path'
        # what the name stands for, found without the code under test
        target = None
        others = []
        if ok:
            before = list(sys.path)
            sys.path.append(d)
            try:
                m = importlib.import_module(module)
                target = follow(m, want)
                others = [follow(m, ['Base']), follow(m, ['ModError'])]
                if rng.random() < .3 and given != 'right':
                    pass
            finally:
                sys.path[:] = before
            if rng.random() < .4:
                # forget it: the code under test does the import
                for k in [k for k in sys.modules if k.split('.')[0] ==
                          module.split('.')[0]]:
                    del sys.modules[k]
                fresh = True
                reachable = d in w.on_path or given == 'right'
                if not reachable:
                    ok, why = False, 'not on the path'
                    target = None
            else:
                fresh = False
        dtype, good, dkind = None, True, 'none'
        if ok and not fresh:
            dtype, good, dkind = demanded(rng, target, others)
        elif rng.random() < .3 and kind != 'F':
            dtype, dkind = object, 'object'
        if dtype is not None:
            kw['objectType'] = dtype
        elif rng.random() < .3:
            kw['objectType'] = None
        if not calling and 'objectName' not in kw and rng.random() < .3:
            kw['objectName'] = None
        desc = '%s(%s)' % ('callModuleObject' if calling else
                           'importModuleObject',
                           ', '.join('%s=%r' % p for p in kw.items()))
        trace.append(desc)
        before = list(sys.path)
        detail = lambda: '\n'.join(trace)
        if not calling:
            try:
                got = imp(**kw)
                err = None
            except Exception as e:
                got, err = None, e
            ctx.check(sys.path == before,
                      lambda: '%s leaves the import path %r, it was %r' % (
                          desc, sys.path, before), detail)
            if not ok:
                ctx.check(err is not None, lambda: '%s (%s) gives %r' % (
                    desc, why, got), detail)
                ctx.count('import.refused')
            else:
                if fresh:
                    target = follow(sys.modules[module], want) \
                        if module in sys.modules else None
                    good = dtype is None or isinstance(target, type)
                if not good:
                    ctx.check(isinstance(err, TypeError), lambda: '%s: an '
                              'object of another kind (%r) gives %r' % (
                                  desc, target, err or got), detail)
                    ctx.count('import.refused')
                else:
                    ctx.check(err is None and got is target,
                              lambda: '%s: expected %r, got %r' % (
                                  desc, target, err or got), detail)
                    who = getattr(got, 'WHO', None)
                    ctx.check(who is None or who == (module,) + tuple(want),
                              lambda: '%s gives the object %r' % (desc, who),
                              detail)
                    ctx.count('import.done')
            ctx.seen('import', form, kind, why, dkind, good, ok)
            return
        # a call
        values = [None, 0, '', 'x', [], {}, (), rng, 1.5]
        args = [rng.choice(values) for _ in range(rng.randint(0, 3))]
        props = dict((rng.choice(['a', 'b', 'moduleName', 'objectArgs',
                                  'objectName', 'objectProperties', 'x',
                                  'objectType', 'moduleFilePath']),
                      rng.choice(values)) for _ in range(rng.randint(0, 3)))
        kw['objectArgs'] = rng.choice([list, tuple])(args) if args or \
            rng.random() < .5 else None
        kw['objectProperties'] = props if props or rng.random() < .5 else None
        desc += ' %r %r' % (kw['objectArgs'], kw['objectProperties'])
        outcome = rng.choice([object(), None, 0, '', ProbeError('x'),
                              AttributeError('y'), ImportError('z'),
                              TypeError('t'), KeyError('k'),
                              StopIteration(3)])
        mod = sys.modules.get(module) if ok else None
        if mod is not None:
            mod.RESULT[0] = outcome
            del mod.CALLS[:]
        given_args, given_props = list(args), dict(props)
        held = None
        if given == 'right' and rng.random() < .15:
            # nothing on the import path but the directory that is given
            held, before = before, rng.choice([[], [], [w.dirs[0] + '-no']])
            sys.path[:] = before
            ctx.count('path.bare')
        try:
            got = call(**kw)
            err = None
        except Exception as e:
            got, err = None, e
        after = list(sys.path)
        if held is not None:
            sys.path[:] = held
        ctx.check(after == before,
                  lambda: '%s leaves the import path %r, it was %r' % (
                      desc, after, before), detail)
        ctx.check(list(kw['objectArgs'] or ()) == given_args and
                  dict(kw['objectProperties'] or {}) == given_props,
                  lambda: '%s changed its arguments' % desc, detail)
        if given in ('right', 'missing', 'other'):
            ctx.count('path.extended')
        ctx.seen('call', form, kind, why, dkind, good, ok, given,
                 type(outcome).__name__, bool(args), bool(props))
        if not ok:
            ctx.check(err is not None, lambda: '%s (%s) gives %r' % (
                desc, why, got), detail)
            if given == 'missing':
                ctx.check(isinstance(err, (OSError, ImportError)),
                          lambda: '%s: a missing directory gives %r' % (
                              desc, err), detail)
            ctx.count('call.refused')
            return
        mod = sys.modules.get(module)
        ctx.check(mod is not None, lambda: '%s: the module is not there; %r' %
                  (desc, err or got), detail)
        if fresh:
            target = follow(mod, want)
            outcome = None
            good = dtype is None or isinstance(target, type)
        calls = list(mod.CALLS)
        if not good:
            ctx.check(isinstance(err, TypeError) and not calls,
                      lambda: '%s: an object of another kind (%r) gives %r, '
                      'called with %r' % (desc, target, err or got, calls),
                      detail)
            ctx.count('call.refused')
            return
        ctx.check(len(calls) == 1, lambda: '%s: called %d times, %r' % (
            desc, len(calls), err or got), detail)
        who, a, k = calls[0]
        ctx.check(who is target and len(a) == len(args) and
                  all(x is y for x, y in zip(a, args)) and k == props and
                  all(k[x] is props[x] for x in k),
                  lambda: '%s: called %r with %r %r' % (desc, who, a, k),
                  detail)
        if kind == 'F':
            if isinstance(outcome, Exception):
                ctx.check(err is outcome, lambda: '%s: the error %r came out '
                          'as %r' % (desc, outcome, err or got), detail)
            else:
                ctx.check(err is None and got is outcome,
                          lambda: '%s: the result %r came out as %r' % (
                              desc, outcome, err or got), detail)
        else:
            ctx.check(err is None and type(got) is target,
                      lambda: '%s: expected a new %r, got %r' % (
                          desc, target, err or got), detail)
        ctx.count('call.done')

    class ProbeError(Exception):
        pass

    def factories(rng, i):
        """Function factories named by a path"""
        w = World(rng)
        try:
            module, names, d = rng.choice(w.modules)
            if d not in w.on_path:
                sys.path.append(d)
                w.on_path.append(d)
            mod = importlib.import_module(module)
            other = [x for x in w.modules if x[2] == d and x[0] != module]
            om, onames, _ = rng.choice(other)
            omod = importlib.import_module(om)
            urn = 'urn:vp:c28:%s:%d:%d' % (ctx.backend, os.getpid(), w.n)

            def maker(tag, result=True):
                class Fn(AbstractFunction):
                    FUNCTION_NS = urn
                    WHO = tag

                    def evaluate(self, *inputs):
                        return True
                asked = []

                def factory_(ns):
                    asked.append(ns)
                    return Fn if result else None
                return factory_, asked, Fn
            good = rng.random() < .75
            f, asked, Fn = maker('right', good)
            g, gasked, _ = maker('wrong')
            mod.RESULT[0] = f
            omod.RESULT[0] = g
            sep = rng.choice('.:')
            before = list(sys.path)
            known = urn in functionMap
            try:
                functionMap.load_custom_function(
                    urn, function_factory_path='%s%s%s' % (
                        module, sep, names['F']))
                err = None
            except Exception as e:
                err = e
            ctx.check(sys.path == before, 'registering a factory by path '
                      'changes the import path')
            ctx.check(len(mod.CALLS) == 1 and not omod.CALLS and
                      asked == [urn] and not gasked,
                      lambda: 'factory by path: %r, asked %r' % (mod.CALLS,
                                                                 asked))
            if good:
                ctx.check(err is None and functionMap[urn] is Fn,
                          lambda: 'factory by path registers %r' % (
                              err or functionMap[urn],))
            else:
                ctx.check(err is not None and (urn in functionMap) == known,
                          'a factory without a function is taken')
            # a factory which is not there registers nothing
            urn2 = urn + ':none'
            x = rng.randint(0, 3)
            path = ['%s:%s' % (module, 'Nope'), module + 'q.' + names['F'],
                    '%s.%s' % (w.broken[0][0], names['F']),
                    module + ':' + names['F'] + '.Nope'][x]
            try:
                functionMap.load_custom_function(urn2,
                                                 function_factory_path=path)
                err = None
            except Exception as e:
                err = e
            ctx.check(err is not None and urn2 not in list(functionMap),
                      lambda: 'the factory %s which is not there is taken' %
                      path)
            ctx.check(sys.path == before, 'registering a factory by path '
                      'changes the import path')
            ctx.count('factory')
            ctx.seen('factory', good, sep, x)
        finally:
            w.close()

    def own(rng, i):
        """Names of the package's own objects, as they are written in
        configuration"""
        names = [n for n in sorted(sys.modules)
                 if n.startswith('ndg.xacml.') and sys.modules[n] is not None]
        m = rng.choice(names)
        mod = sys.modules[m]
        objs = sorted(k for k, v in vars(mod).items()
                      if isinstance(v, type) or
                      (callable(v) and not k.startswith('__')))
        if not objs:
            return
        k = rng.choice(objs)
        v = getattr(mod, k)
        form = rng.randint(0, 2)
        try:
            got = [lambda: imp('%s.%s' % (m, k)),
                   lambda: imp('%s:%s' % (m, k)),
                   lambda: imp(m, objectName=k)][form]()
        except Exception as e:
            got = e
        ctx.check(got is v, lambda: 'the name %s of %s gives %r, not %r' % (
            k, m, got, v))
        if isinstance(v, type):
            t = rng.choice(v.__mro__)
            try:
                got = imp(m + ':' + k, objectType=t)
            except Exception as e:
                got = e
            ctx.check(got is v, lambda: '%s:%s demanded to be a %r: %r' % (
                m, k, t, got))
            ctx.count('import.done')
        ctx.count('import.done')
        ctx.seen('own', m, k, form)

    ctx.group('history', 1920, 12000, history)
    ctx.group('factories', 600, 3600, factories)
    ctx.group('own', 4500, 27000, own)
