"""Independent reference evaluator for the supported subset of XACML 2.0.

It works on plain dicts (see gen.py), shares no code with the repository and
returns *sets* of acceptable outcomes: more than one only where XACML 2.0 and
the documented behaviour of the repository both may be followed (an error next
to a sibling that already decides the result).

Expression results are tuples:
  ('err',)            error
  ('b', bool)         boolean computed by a function
  ('n', number)       number computed by a function
  ('o', obj)          some other plain object (custom functions)
  ('v', type, value)  attribute value
  ('bag', type, (values...))
Type names are the short names of TYPES.
"""
import itertools
import re

XS = 'http://www.w3.org/2001/XMLSchema#'
XQ = 'http://www.w3.org/TR/2002/WD-xquery-operators-20020816#'
X1 = 'urn:oasis:names:tc:xacml:1.0:data-type:'
X2 = 'urn:oasis:names:tc:xacml:2.0:data-type:'
TYPES = {
    'string': XS + 'string', 'anyURI': XS + 'anyURI',
    'integer': XS + 'integer', 'boolean': XS + 'boolean',
    'double': XS + 'double', 'date': XS + 'date',
    'dateTime': XS + 'dateTime', 'time': XS + 'time',
    'dayTimeDuration': XQ + 'dayTimeDuration',
    'yearMonthDuration': XQ + 'yearMonthDuration',
    'x500Name': X1 + 'x500Name', 'rfc822Name': X1 + 'rfc822Name',
    'hexBinary': XS + 'hexBinary',
    'ipAddress': X2 + 'ipAddress', 'dnsName': X2 + 'dnsName',
}
URI2TYPE = dict((v, k) for k, v in TYPES.items())
STR_TYPES = ('string', 'anyURI', 'x500Name', 'rfc822Name', 'ipAddress',
             'dnsName')
EQ_TYPES = ('string', 'boolean', 'integer', 'double', 'date', 'time',
            'dateTime', 'dayTimeDuration', 'yearMonthDuration', 'anyURI',
            'x500Name', 'rfc822Name', 'hexBinary')
BAG_TYPES = EQ_TYPES
RE_TYPES = ('string', 'anyURI', 'ipAddress', 'dnsName', 'rfc822Name',
            'x500Name')
F1 = 'urn:oasis:names:tc:xacml:1.0:function:'
F2 = 'urn:oasis:names:tc:xacml:2.0:function:'
PROBE = 'urn:verif:function:'
XPATH1 = 'http://www.w3.org/TR/1999/Rec-xpath-19991116'

ERR = ('err',)
TRUE = ('b', True)
FALSE = ('b', False)

FUNCS = {}      # identifier -> (kind, type)
for _t in EQ_TYPES:
    FUNCS[F1 + _t + '-equal'] = ('equal', _t)
for _t in BAG_TYPES:
    FUNCS[F1 + _t + '-one-and-only'] = ('one', _t)
    FUNCS[F1 + _t + '-bag'] = ('bag', _t)
    FUNCS[F1 + _t + '-at-least-one-member-of'] = ('alomo', _t)
FUNCS[F1 + 'string-regexp-match'] = ('re', 'string')
for _t in RE_TYPES[1:]:
    FUNCS[F2 + _t + '-regexp-match'] = ('re', _t)
FUNCS[F2 + 'string-concatenate'] = ('concat', 'string')
FUNCS[F2 + 'url-string-concatenate'] = ('concat', 'anyURI')
FUNCS[F1 + 'and'] = ('and', None)
FUNCS[F1 + 'not'] = ('not', None)
FUNCS[F1 + 'round'] = ('round', None)

# custom functions registered by the harness (sut.py implements them)
PROBES = {
    'true': [TRUE], 'false': [FALSE], 'raise': [ERR], 'none': [('o', None)],
    'str': [('o', 'x')], 'emptystr': [('o', '')], 'int1': [('n', 1)],
    'int0': [('n', 0)], 'attrtrue': [('v', 'boolean', True)],
    'attrfalse': [('v', 'boolean', False)],
    'attrstr': [('v', 'string', 'true')],
    'emptybag': [('bag', 'boolean', ())],
    'truebag': [('bag', 'boolean', (True,))],
    'decision': [('o', 'decision')], 'notimpl': [('o', 'notimpl')],
}


def probe_name(fn):
    if fn.startswith(PROBE):
        return fn[len(PROBE):].split(':')[0]
    return None


def lt(a, b):
    try:
        return a < b
    except TypeError:       # times with and without a time zone
        return repr(a) < repr(b)


def regexp(pattern, value):
    try:
        rx = re.compile(pattern)
    except Exception:
        return ERR
    return ('b', rx.match(value) is not None)


def apply_fn(fn, args):
    """@return: list of acceptable results"""
    p = probe_name(fn)
    if p is not None:
        if any(a == ERR for a in args):
            return [ERR]
        if p == 'lt':       # not symmetric: first argument < second
            if len(args) == 2 and args[0][0] == args[1][0] == 'v' and \
                    args[0][1] == args[1][1]:
                return [('b', lt(args[0][2], args[1][2]))]
            return [ERR]
        if p == 'pick':
            c = args[0][2][int(args[1][2])]
            return [ERR if c == '!' else ('b', c == 't')]
        return list(PROBES[p])
    kind, typ = FUNCS[fn]
    if kind == 'and':
        nat = [a for a in args if a[0] == 'b']
        battr = [a for a in args if a[0] == 'v' and a[1] == 'boolean']
        if len(nat) == len(args):
            return [('b', all(a[1] for a in args))]
        if any(a == FALSE for a in args) or \
                any(a == ('v', 'boolean', False) for a in args):
            return [ERR, FALSE]
        if len(nat) + len(battr) == len(args):
            return [ERR, TRUE]
        return [ERR]
    if any(a == ERR for a in args):
        return [ERR]
    if kind == 'not':
        if len(args) != 1:
            return [ERR]
        a = args[0]
        if a[0] == 'b':
            return [('b', not a[1])]
        if a[0] == 'v' and a[1] == 'boolean':
            return [ERR, ('b', not a[2])]
        return [ERR]
    if kind == 'round':
        if len(args) == 1 and args[0][0] == 'n':
            return [('n', round(args[0][1]))]
        return [ERR]
    if kind == 'equal':
        if len(args) == 2 and all(a[0] == 'v' and a[1] == typ for a in args):
            return [('b', args[0][2] == args[1][2])]
        return [ERR]
    if kind == 're':
        if len(args) == 2 and all(a[0] == 'v' and a[1] == typ for a in args):
            return [regexp(args[0][2], args[1][2])]
        return [ERR]
    if kind == 'one':
        if len(args) == 1 and args[0][0] == 'bag' and args[0][1] == typ \
                and len(args[0][2]) == 1:
            return [('v', typ, args[0][2][0])]
        return [ERR]
    if kind == 'bag':
        if all(a[0] == 'v' and a[1] == typ for a in args):
            return [('bag', typ, tuple(a[2] for a in args))]
        return [ERR]
    if kind == 'alomo':
        if len(args) == 2 and all(a[0] == 'bag' and a[1] == typ for a in args):
            return [('b', any(x == y for x in args[0][2] for y in args[1][2]))]
        return [ERR]
    if kind == 'concat':
        if len(args) >= 2 and args[0][0] == 'v' and args[0][1] == typ and \
                all(a[0] == 'v' and a[1] == 'string' for a in args[1:]):
            return [('v', typ, ''.join(a[2] for a in args))]
        return [ERR]
    raise KeyError(fn)


# --------------------------------------------------------------- designators
def designator(d, req):
    """@return: single result"""
    cat = d['cat']
    typ, aid, issuer = d['type'], d['id'], d.get('issuer')

    def select(holder):
        out = []
        for a in holder['attrs']:
            if a['id'] == aid and a['type'] == typ and \
                    not a.get('dtype') and \
                    (issuer is None or a.get('issuer') == issuer):
                out.extend(a['values'])
        return out
    bag = []
    if cat == 'Subject':
        for s in req['subjects']:
            bag.extend(select(s))
            if req.get('pip') is not None:
                ans = pip_answer(req['pip'], d)
                if ans == ERR:
                    return ERR
                if ans is not None:
                    if any(t != typ for t, _ in ans):
                        return ERR
                    vals = [v for _, v in ans]
                    bag.extend([v for v in vals
                                if not any(v == b for b in bag)])
    elif cat == 'Resource':
        for r in req['resources']:
            bag.extend(select(r))
    else:
        holder = req['action' if cat == 'Action' else 'env']
        if holder is None:
            return ERR
        bag.extend(select(holder))
    if not bag and d.get('mbp'):
        return ERR
    return ('bag', typ, tuple(bag))


def pip_answer(pip, d):
    """pip: {'answers': {attribute id: [(type, value)..] | None | 'raise'}}"""
    ans = pip['answers'].get(d['id'])
    if ans == 'raise':
        return ERR
    return ans


# ----------------------------------------------------------------- selectors
def doc_select(root, path):
    """root: node dict {tag, attrib, text, children}; path: {'abs': bool,
    'steps': [(axis, tag or None, predicate or None)]}.  Document order."""
    order = {}

    def number(n):
        order[id(n)] = len(order)
        for c in n['children']:
            number(c)
    number(root)
    current = [root]
    for axis, tag, pred in path['steps']:
        found = []
        seen = set()
        for n in current:
            if axis == 'child':
                groups = [n['children']]
            else:
                groups = []

                def walk(m):
                    groups.append(m['children'])
                    for c in m['children']:
                        walk(c)
                walk(n)
            for children in groups:
                cand = [c for c in children if tag is None or c['tag'] == tag]
                if pred is not None and pred[0] == 'pos':
                    cand = cand[pred[1] - 1:pred[1]]
                elif pred is not None and pred[0] == 'last':
                    cand = cand[-1:]
                elif pred is not None and pred[0] == 'attr':
                    cand = [c for c in cand
                            if c['attrib'].get(pred[1]) == pred[2]]
                elif pred is not None and pred[0] == 'hasattr':
                    cand = [c for c in cand if pred[1] in c['attrib']]
                elif pred is not None and pred[0] == 'haschild':
                    cand = [c for c in cand
                            if any(k['tag'] == pred[1] for k in c['children'])]
                for c in cand:
                    if id(c) not in seen:
                        seen.add(id(c))
                        found.append(c)
        found.sort(key=lambda n: order[id(n)])
        current = found
    return current


def path_string(path):
    out = ''
    for i, (axis, tag, pred) in enumerate(path['steps']):
        if axis == 'child':
            if i:
                out += '/'
            else:
                out += '/' if path['abs'] else '' if path.get('bare') else './'
        else:
            out += '//' if (i or path['abs']) else './/'
        out += tag if tag is not None else '*'
        if pred is not None:
            if pred[0] == 'pos':
                out += '[%d]' % pred[1]
            elif pred[0] == 'last':
                out += '[last()]'
            elif pred[0] == 'attr':
                q = '"' if "'" in pred[2] else "'"
                out += '[@%s=%s%s%s]' % (pred[1], q, pred[2], q)
            elif pred[0] == 'hasattr':
                out += '[@%s]' % pred[1]
            elif pred[0] == 'haschild':
                out += '[%s]' % pred[1]
    return out


def selector(s, req):
    doc = req.get('doc')
    if doc is None:
        return [ERR]
    if s.get('badpath') or s.get('broken'):
        return [ERR]
    nodes = doc_select(doc, s['path'])
    if nodes and s['type'] not in STR_TYPES:
        return [ERR]
    texts = [n['text'] for n in nodes]
    if not texts and s.get('mbp'):
        return [ERR]
    return [('bag', s['type'], tuple(t or '' for t in texts))]


# --------------------------------------------------------------- expressions
def uniq(items):
    out = []
    for i in items:
        if not any(same(i, o) for o in out):
            out.append(i)
    return out


def same(a, b):
    return type(a) is type(b) and a == b and repr(a) == repr(b)


def ev(expr, req):
    """@return: list of acceptable results"""
    k = expr['k']
    if k == 'val':
        return [('v', expr['type'], expr['value'])]
    if k == 'desig':
        return [designator(expr, req)]
    if k == 'sel':
        return selector(expr, req)
    if k == 'apply':
        argsets = [ev(a, req) for a in expr['args']]
        out = []
        for args in itertools.islice(itertools.product(*argsets), 64):
            out.extend(apply_fn(expr['fn'], args))
        return uniq(out)
    raise KeyError(k)


def cond(expr, req):
    """@return: set of True / False / 'E'"""
    out = set()
    for r in ev(expr, req):
        if r[0] == 'b':
            out.add(r[1])
        elif r[0] == 'v' and r[1] == 'boolean':
            out.add(r[2])
        else:
            out.add('E')
    return out


# ------------------------------------------------------------------- targets
def three_or(sets):
    """Acceptable outcomes of an OR over the outcome sets of the children: an
    error anywhere is an error of the whole (XACML 2.0 section 7.6; match.py:
    the other attributes need to be checked in case an error occurs)"""
    out = set()
    for combo in itertools.islice(itertools.product(*sets), 256):
        if 'E' in combo:
            out.add('E')
        else:
            out.add(True in combo)
    return out


def three_and(sets):
    out = set()
    for combo in itertools.islice(itertools.product(*sets), 256):
        if 'E' in combo:
            out.add('E')
        else:
            out.add(False not in combo)
    return out


def match(m, req):
    out = set()
    src = m['src']
    srcs = [designator(src, req)] if src['k'] == 'desig' else selector(src, req)
    for bag in srcs:
        if bag == ERR:
            out.add('E')
            continue
        results = []
        for v in bag[2]:
            rs = apply_fn(m['fn'], [('v', m['value']['type'],
                                     m['value']['value']),
                                    ('v', bag[1], v)])
            one = set()
            for r in rs:
                if r[0] == 'b':
                    one.add(r[1])
                elif r[0] == 'v' and r[1] == 'boolean':
                    one |= {r[2], 'E'}
                else:
                    one.add('E')
            results.append(one)
        out |= three_or(results) if results else {False}
    return out


SECTIONS = ('subjects', 'resources', 'actions', 'environments')


def target(t, req):
    """@return: set of True / False / 'E'"""
    if t is None:
        return {True}
    secs = []
    for name in SECTIONS:
        children = t.get(name)
        if not children:
            secs.append({True})
            continue
        secs.append(three_or([three_and([match(m, req) for m in child])
                              for child in children]))
    return three_and(secs)


# ------------------------------------------------------------ rules, policies
P, D, I, N = 'Permit', 'Deny', 'Indeterminate', 'NotApplicable'
RALG = 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:'
PALG = 'urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:'


def rule(r, req):
    out = set()
    for t in target(r.get('target'), req):
        if t == 'E':
            out.add(I)
        elif t is False:
            out.add(N)
        elif r.get('cond') is None:
            out.add(r['effect'])
        else:
            for c in cond(r['cond'], req):
                out.add(I if c == 'E' else r['effect'] if c else N)
    return out


def rule_combine_seq(alg, seq):
    """XACML 2.0 appendix C pseudo-code on [(decision, effect)]"""
    if alg == 'first-applicable':
        for d, _ in seq:
            if d != N:
                return d
        return N
    win = D if alg == 'deny-overrides' else P
    lose = P if win == D else D
    err = potential = other = False
    for d, effect in seq:
        if d == win:
            return win
        if d == lose:
            other = True
        elif d == I:
            err = True
            if effect == win:
                potential = True
    if potential:
        return I
    if other:
        return lose
    if err:
        return I
    return N


def policy_combine_seq(alg, seq):
    if alg == 'first-applicable':
        for d in seq:
            if d != N:
                return d
        return N
    if alg == 'deny-overrides':
        permit = False
        for d in seq:
            if d in (D, I):
                return D
            permit = permit or d == P
        return P if permit else N
    deny = err = False
    for d in seq:
        if d == P:
            return P
        deny = deny or d == D
        err = err or d == I
    return D if deny else I if err else N


def combine(fn, sets):
    """Outcomes of fn over the product of sets; sampled when very large"""
    out = set()
    for combo in itertools.islice(itertools.product(*sets), 4096):
        out.add(fn(list(combo)))
    n = 1
    for s in sets:
        n *= len(s)
    if n > 4096:
        out = {P, D, I, N}
    return out


def policy(p, req, index=None):
    """@return: set of acceptable decisions
    @param index: for references: {id: policy or policy set dict}"""
    if p['k'] in ('PolicyRef', 'PolicySetRef'):
        return policy(index[(p['k'][:-3], p['ref'])], req, index)
    out = set()
    for t in target(p.get('target'), req):
        if t == 'E':
            out.add(I)
        elif t is False:
            out.add(N)
        elif p['k'] == 'Policy':
            sets = [[(d, r['effect']) for d in sorted(rule(r, req))]
                    for r in p['rules']]
            out |= combine(lambda s: rule_combine_seq(p['alg'], s), sets)
        else:
            sets = [sorted(policy(c, req, index)) for c in p['children']]
            out |= combine(lambda s: policy_combine_seq(p['alg'], s), sets)
    return out
