"""Request-first, biased generators of plain-dict policies and requests.

Small universes per case (a few identifiers, issuers and values, many of them
near-duplicates of one another) make matches, collisions and all four decisions
frequent."""
import datetime as dt

from vp import model
from vp.model import F1, F2, PROBE, STR_TYPES, TYPES

STRINGS = [
    'a', 'A', 'ab', 'abc', 'a ', ' a', 'a b', 'a  b', 'a.c', 'a.*', '.*', 'a*',
    '^a$', 'a$', '^abc$', 'ab?c', '(a', '[a', 'a\\', '(?i)a', 'a|b', 'b',
    '\u00e9', 'e\u0301', 'E\u0301', '\u00df', 'ss', '\u0131', 'I', 'i',
    '<a>&"\'', ']]>', '&amp;', '&#65;', 'a\nb', 'a\tb', 'a\r\nb', '\u2028',
    '\u00a0', '\U0001f600', 'true', 'True', 'false', '1', '01', '1.0', '0',
    'None', 'urn:x:y', 'urn:x:Y', 'http://h/p?q=1&r=2#f', 'http://h/p',
    'http://h/p/', 'CN=J, O=B', 'CN=J,O=B', 'cn=j, o=b', 'u@h.org', 'U@h.org',
    'u@H.org', '10.0.0.1', '10.0.0.1:80', '10a0b0c1', 'h.org', '*.h.org',
    'xy' * 40, '-', '_', '%41', '%s', '{0}', '$1', '\\1', 'Permit', 'Deny',
]
REQ_STRINGS = STRINGS + ['', ' ', '\n', '\t ']
IDS = [
    'urn:oasis:names:tc:xacml:1.0:subject:subject-id',
    'urn:oasis:names:tc:xacml:1.0:resource:resource-id',
    'urn:oasis:names:tc:xacml:1.0:action:action-id',
    'urn:id:a', 'urn:id:A', 'urn:id:ab', 'urn:id:a ', 'urn:id:a/', 'urn:id',
    'group', 'Group', 'groups', 'urn:id:\u00e9', 'a&b<c',
]
_S = 'urn:oasis:names:tc:xacml:1.0:'
STD_IDS = [_S + 'subject:' + x for x in (
    'authn-locality:dns-name', 'authn-locality:ip-address',
    'authentication-method', 'authentication-time', 'key-info',
    'request-time', 'session-start-time', 'subject-id',
    'subject-id-qualifier')] + [_S + x for x in (
        'resource:resource-location', 'resource:resource-id',
        'resource:simple-file-name', 'action:action-id',
        'action:implied-action', 'environment:current-time',
        'environment:current-date', 'environment:current-dateTime')] + [
            'urn:oasis:names:tc:xacml:2.0:resource:target-namespace',
            'urn:oasis:names:tc:xacml:2.0:subject:role']
ISSUERS = ['iss', 'Iss', 'iss ', 'iss2', 'urn:iss', '', 'CN=CA, O=X']
CATS = ('Subject', 'Resource', 'Action', 'Environment')
SECTION_CAT = {'subjects': 'Subject', 'resources': 'Resource',
               'actions': 'Action', 'environments': 'Environment'}
RALGS = ('deny-overrides', 'permit-overrides', 'first-applicable')
DEFAULT_CATEGORY = ('urn:oasis:names:tc:xacml:1.0:subject-category:'
                    'access-subject')
CATEGORIES = [DEFAULT_CATEGORY,
              'urn:oasis:names:tc:xacml:1.0:subject-category:codebase',
              'urn:oasis:names:tc:xacml:1.0:subject-category:'
              'intermediary-subject',
              'urn:oasis:names:tc:xacml:1.0:subject-category:'
              'recipient-subject',
              'urn:oasis:names:tc:xacml:1.0:subject-category:'
              'requesting-machine',
              'urn:cat:x']
_D = dt.datetime
POOLS = {
    'integer': [0, 1, -1, 2, 7, 10 ** 20, 255],
    'hexBinary': [0, 1, 10, 16, 255, 0xabcdef],
    'boolean': [True, False],
    'double': [0.0, 1.0, -1.5, 0.1, 1e300, 2.0, 0.1 + 0.2, 0.3, 5e-324],
    'date': [_D(2020, 1, 1), _D(2020, 1, 2), _D(1999, 12, 31)],
    'dateTime': [_D(2020, 1, 1, 0, 0), _D(2020, 1, 1, 0, 0, 1),
                 _D(2020, 2, 29, 23, 59, 59), _D(2020, 1, 1, 0, 0, 0, 1),
                 _D(2020, 1, 1, 0, 0, tzinfo=dt.timezone.utc),
                 _D(2020, 1, 1, 1, 0, tzinfo=dt.timezone(dt.timedelta(
                     hours=1))),
                 _D(2020, 1, 1, 0, 0, tzinfo=dt.timezone(dt.timedelta(
                     hours=1)))],
    'time': [_D(1900, 1, 1, 0, 0), _D(1900, 1, 1, 12, 30),
             _D(1900, 1, 1, 23, 59, 59), _D(1900, 1, 1, 12, 30, 0, 500000),
             _D(1900, 1, 1, 12, 30, tzinfo=dt.timezone.utc)],
    'dayTimeDuration': [dt.timedelta(0), dt.timedelta(1),
                        dt.timedelta(1, 1), dt.timedelta(-1),
                        dt.timedelta(1, 1, 1)],
    'yearMonthDuration': [dt.timedelta(0), dt.timedelta(30),
                          dt.timedelta(365)],
}


def wpick(rng, pairs):
    total = sum(w for _, w in pairs)
    x = rng.random() * total
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


SIZES = [31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199,
         200, 201, 255, 256, 257, 258, 300, 400, 499, 500, 501, 511, 512, 513,
         600, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049]


def size(rng, top=2100, low=20):
    """How many: mostly some dozens, sometimes around a round number up to
    top"""
    if rng.random() < .4:
        return rng.randint(low, 80)
    return rng.choice([n for n in SIZES if n <= top])


def encode(typ, value):
    """Text form of a value; sut.py registers readers that decode it"""
    if typ in STR_TYPES:
        return value
    if typ == 'boolean':
        return 'true' if value else 'false'
    if typ == 'integer':
        return str(value)
    if typ == 'hexBinary':
        return '%x' % value
    if typ == 'double':
        return repr(value)
    if typ in ('date', 'time', 'dateTime'):
        return value.isoformat()
    return '%d:%d:%d' % (value.days, value.seconds, value.microseconds)


def decode(typ, text):
    if typ in STR_TYPES:
        return text
    if typ == 'boolean':
        if text not in ('true', 'false'):
            raise ValueError(text)
        return text == 'true'
    if typ == 'integer':
        return int(text)
    if typ == 'hexBinary':
        return int(text, 16)
    if typ == 'double':
        return float(text)
    if typ in ('date', 'time', 'dateTime'):
        return _D.fromisoformat(text)
    return dt.timedelta(*[int(x) for x in text.split(':')])


WORDS = ('data', 'urn:x', 'MIP', 'ocean model', 'CN=a', 'b/c', 'sst.nc',
         'Gr\u00fc\u00dfe', '<&>', '2009-03', 'x' * 30, 'read')


def long_body(rng, top=12000):
    """Text of some hundreds to many thousands of characters"""
    n = int(150 * (top / 150.0) ** rng.random())
    if rng.random() < .3:
        n = rng.choice([k for k in (255, 256, 257, 512, 1000, 1023, 1024, 4095,
                                    4096, 4097, 8192, 65535, 65536, 65537)
                        if k <= top])
    # without short periods, so that no regular expression backtracks for long
    part = []
    left = n
    while left > 0:
        part.append('%s%d ' % (rng.choice(WORDS), rng.randint(0, 10 ** 6)))
        left -= len(part[-1])
    return ''.join(part)[:n - 1].rstrip() + 'q'


def stretch(rng, top=12000):
    """A one to one function which makes short texts long: they differ only
    at the end, at the start or in the middle"""
    body = long_body(rng, top)
    at = rng.choice([0, len(body), len(body), len(body) // 2])
    return lambda s: body[:at] + s + body[at:]


DOCVALS = ['a  b', ' a', 'a ', 'a]', '[1]', 'a/b', '//x', "it's", 'x="1"',
           '\u00e9', 'e\u0301', '.', '..', '@k', '*', '', 'a:b', '{u}a', '{', 'A',
           '<&>', 'last()', 'a' * 300, '01', '1.0', ' ', '%', '#', '\\', '|']


def near_type(rng, uri):
    """No type, but nearly the identifier of one"""
    base, sep, local = uri.rpartition('#' if '#' in uri else ':')
    while True:
        t = rng.choice([
            uri + 'x', uri[:-1], uri.upper(), uri.lower(), '', local,
            ' ' + uri, uri + ' ', base, base + sep, sep + local,
            base + sep + local[:1].swapcase() + local[1:],
            base + '/' + sep + local, base + sep * 2 + local,
            base + '-datatypes' + sep + local, base + ':' + local,
            base + '/' + local, base + '#' + local, 'urn:x' + sep + local,
            'urn:x#' + local, 'urn:x:' + local, 'xs:' + local, 'xsd:' + local,
            'XMLSchema#' + local, '{%s}%s' % (base, local),
            uri.replace('http:', 'https:'), uri.replace('www.', ''),
            uri.replace('2001', '1999'), uri.replace(':1.0:', ':2.0:'),
            uri.replace(':2.0:', ':1.0:'), uri + '#', uri + '#' + local,
            uri + '?x#' + local, 'urn:oasis:names:tc:xacml:1.0:data-type:' +
            local, 'urn:oasis:names:tc:xacml:2.0:data-type:' + local,
            'http://www.w3.org/2001/XMLSchema#' + local,
            'http://www.w3.org/TR/2002/WD-xquery-operators-20020816#' + local,
            'http://www.w3.org/2001/XMLSchema#decimal', 'urn:x',
            local + sep + base, uri.replace(sep, sep + ' ')])
        if t not in model_uris():
            return t


def model_uris():
    from vp import model
    return model.URI2TYPE


def near_ids(rng, n, base=None):
    """Different identifiers that are nearly the same"""
    base = base or rng.choice(['rule', 'urn:x:Policy:1', 'a', 'http://h/p#x',
                               'Gr\u00fc\u00dfe', '1', 'x' * 300])
    out = [base]
    while len(out) < n:
        s = rng.choice(out[:3])
        k = rng.randrange(len(s) + 1)
        c = s[k:k + 1]
        t = rng.choice([
            s.upper(), s.lower(), s.swapcase(), s + ' ', ' ' + s, s + '.',
            s + '0', '0' + s, s + '/', s + '#', s + s[-1], s[:-1], s[1:],
            s + '\u0301', s + '\u00e9', s + 'e\u0301', s + '\u200b', s + '  ',
            s[:k] + c.swapcase() + s[k + 1:], s[:k] + '_' + s[k:],
            s[:k] + '-' + s[k:], s + '-1', s + '_1', 'rule-' + s, s + ':' + s,
            s.replace('e', '\u0435'), s + str(len(out))])
        if t and t not in out:
            out.append(t)
    rng.shuffle(out)
    return out


def rename(rng, p):
    """Give the parts of a policy identifiers that are nearly the same: those
    of policies, of policy sets and of the rules of a policy differ"""
    pols, sets = [], []

    def walk(q):
        if q['k'] == 'Policy':
            pols.append(q)
            for r, i in zip(q['rules'], near_ids(rng, len(q['rules']) + 1)):
                r['id'] = i
        elif q['k'] == 'PolicySet':
            sets.append(q)
            for c in q['children']:
                walk(c)
    walk(p)
    base = rng.choice([None, 'p'])
    for qs in (pols, sets):
        for q, i in zip(qs, near_ids(rng, len(qs) + 1, base)):
            q['id'] = i
    # a policy, a set and a rule may have the same one
    if pols and sets and rng.random() < .5:
        i = rng.choice(sets)['id']
        if i not in [q['id'] for q in pols]:
            rng.choice(pols)['id'] = i
    if rng.random() < .5:
        for q in pols:
            if q['rules'] and q['id'] not in [r['id'] for r in q['rules']]:
                rng.choice(q['rules'])['id'] = q['id']


def same_ids(rng, p, ident=None):
    """Only for policies that are not written as documents"""
    ident = ident or rng.choice(['x', '', None])
    if rng.random() < .8:
        p['id'] = ident
    for r in p.get('rules', ()):
        if rng.random() < .8:
            r['id'] = ident
    for c in p.get('children', ()):
        same_ids(rng, c, ident)


class World:
    """The universe of one case"""

    def __init__(self, rng, types=None, ntypes=None, strings=None,
                 probes=True, errors=0.06, selectors=0.1,
                 longtexts=0.03):
        self.rng = rng
        self.errors = errors
        self.probes = probes
        self.selectors = selectors
        if types is None:
            types = ['string']
            for _ in range(ntypes if ntypes is not None
                           else wpick(rng, [(0, 3), (1, 4), (2, 2)])):
                types.append(rng.choice(sorted(TYPES)))
        self.types = list(types)
        self.ids = rng.sample(IDS, rng.randint(2, 4))
        self.std = rng.random() < .2
        if self.std:
            self.ids = rng.sample(STD_IDS, len(self.ids) - 1) + self.ids[:1]
        self.issuers = rng.sample(ISSUERS, rng.randint(1, 3))
        shared = self._strings(rng, strings)
        self.vals = {}
        for t in set(self.types):
            if t in STR_TYPES:
                self.vals[t] = shared if rng.random() < .6 else \
                    self._strings(rng, strings)
            else:
                n = min(len(POOLS[t]), rng.randint(2, 3))
                self.vals[t] = rng.sample(POOLS[t], n)
        self.long = strings is None and rng.random() < longtexts
        if self.long:
            f = stretch(rng, 12000 if rng.random() < .9 else 70000)
            self.ids = [f(s) for s in self.ids]
            self.issuers = [s and f(s) for s in self.issuers]
            for t in self.vals:
                if t in STR_TYPES:
                    self.vals[t] = [f(s) for s in self.vals[t]]
        self.doc = None
        # values of the XML attributes of a document
        self.docvals = ['1', '2', 'a', 'b']
        if rng.random() < .15:
            self.docvals = rng.sample(DOCVALS, 3) + ['a']

    @staticmethod
    def _strings(rng, strings):
        if strings is not None:
            return list(strings)
        out = rng.sample(STRINGS, rng.randint(2, 4))
        if rng.random() < .6:
            s = rng.choice(out)
            out.append(rng.choice([s + ' ', ' ' + s, s.upper(), s.lower(),
                                   s + s, s[:-1] or 'q', s.swapcase(),
                                   s + 'x']))
        return out

    def value(self, t):
        return self.rng.choice(self.vals[t])

    # -------------------------------------------------------------- request
    def attr(self, xml=False, maxvals=3):
        rng = self.rng
        t = rng.choice(self.types)
        n = wpick(rng, [(1, 6), (2, 3), (3, 1), (0, 0 if xml else 1)])
        vals = [self.value(t) for _ in range(n)]
        if t in STR_TYPES:
            vals = ['' if rng.random() < .03 else v for v in vals]
        return {'id': rng.choice(self.ids), 'type': t,
                'issuer': rng.choice(self.issuers) if rng.random() < .4
                else None, 'values': vals}

    def holder(self, nmax=4, xml=False):
        rng = self.rng
        n = rng.randint(0, nmax) if rng.random() < .85 else 0
        return {'attrs': [self.attr(xml) for _ in range(n)]}

    def request(self, xml=False, pip=0.0, missing=0.08):
        rng = self.rng
        req = {'subjects': [], 'resources': [], 'action': None, 'env': None,
               'pip': None, 'doc': None, 'own': rng.random() < .08}
        for _ in range(wpick(rng, [(1, 6), (2, 3), (3, 1), (0, 1)])):
            h = self.holder(xml=xml)
            h['category'] = rng.choice(CATEGORIES)
            req['subjects'].append(h)
        for _ in range(wpick(rng, [(1, 6), (2, 2), (0, 1)])):
            h = self.holder(3, xml=xml)
            h['content'] = None
            req['resources'].append(h)
        if xml or rng.random() >= missing:
            req['action'] = self.holder(2, xml=xml)
        if xml or rng.random() >= missing:
            req['env'] = self.holder(2, xml=xml)
        if rng.random() < pip:
            answers = {}
            for i in self.ids:
                k = rng.random()
                if k < .35:
                    answers[i] = None
                elif k < .42:
                    answers[i] = 'raise'
                else:
                    t = rng.choice(self.types)
                    answers[i] = [(t, self.value(t))
                                  for _ in range(rng.randint(0, 3))]
                    if rng.random() < .15 and answers[i]:
                        t2 = rng.choice(sorted(TYPES))
                        if t2 in self.vals:
                            answers[i].append((t2, self.value(t2)))
            req['pip'] = {'answers': answers}
            if len(answers) % 3 == 1:
                req['pip']['handler'] = 'rich'
        if self.selectors and rng.random() < .5:
            req['doc'] = self.make_doc()
        return req

    def enlarge(self, req, top=520):
        """Make one part of a request very long"""
        rng = self.rng
        n = size(rng, top)
        holders = [h for h in req['subjects'] + req['resources'] +
                   [req['action'], req['env']] if h is not None]
        k = rng.choice(['values', 'attrs', 'holders', 'text'])
        if k == 'holders':
            key = rng.choice(['subjects', 'resources'])
            for j in range(n):
                h = {'attrs': [self.plain_attr('h%d' % j)]}
                h['category' if key == 'subjects' else 'content'] = None
                req[key].append(h)
        elif holders:
            h = rng.choice(holders)
            if k == 'attrs' or not h['attrs']:
                h['attrs'].extend(self.plain_attr('a%d' % j)
                                  for j in range(n))
            else:
                a = self.plain_attr('v')
                a['values'] = ['v%d' % j for j in range(n)] \
                    if k == 'values' else ['t' * n * 100 + 'end']
                h['attrs'].insert(rng.randint(0, len(h['attrs'])), a)
        return k, n

    def plain_attr(self, value):
        rng = self.rng
        return {'id': rng.choice(self.ids), 'type': 'string',
                'issuer': rng.choice([None, None, rng.choice(ISSUERS)]),
                'values': [value]}

    # ------------------------------------------------------------ documents
    def grow(self, doc, top=1100):
        """Make a document very wide or rather deep somewhere"""
        rng = self.rng
        n = size(rng, top)
        nodes = []

        def walk(x):
            nodes.append(x)
            for c in x['children']:
                walk(c)
        walk(doc)
        at = rng.choice(nodes)
        tags = [rng.choice(self.TAGS) for _ in range(rng.choice([1, 2]))]
        if rng.random() < .3:
            for j in range(min(n, 90)):
                new = {'tag': rng.choice(tags), 'attrib': {}, 'text':
                       'd%d' % j, 'children': []}
                at['children'].insert(rng.randint(0, len(at['children'])),
                                      new)
                at = new
        else:
            new = [{'tag': rng.choice(tags), 'attrib': {}, 'text': 'w%d' % j,
                    'children': []} for j in range(n)]
            for j in (rng.randrange(n), n - 1):
                new[j]['attrib'] = {'k': '1'}
                new[j]['children'].append({
                    'tag': rng.choice(self.TAGS), 'attrib': {},
                    'text': 'inner%d' % j, 'children': []})
            at['children'].extend(new)

    TAGS = ['a', 'b', 'c', '{urn:n}a', '{urn:m}b']

    def make_doc(self, depth=3, size=14):
        rng = self.rng
        texts = self.vals.get('string') or STRINGS[:4]
        left = [size]

        def node(d):
            left[0] -= 1
            n = {'tag': rng.choice(self.TAGS), 'attrib': {}, 'children': [],
                 'text': rng.choice(texts) if rng.random() < .93 else
                 rng.choice(['', 't'])}
            for a in ('k', 'l'):
                if rng.random() < .35:
                    n['attrib'][a] = rng.choice(self.docvals)
            if d > 0:
                for _ in range(rng.randint(0, 4)):
                    if left[0] > 0:
                        n['children'].append(node(d - 1))
            return n
        root = node(depth)
        self.doc = root
        return root

    def path(self, doc=None):
        """A path; half the time one that follows the document"""
        rng = self.rng
        doc = doc or self.doc
        steps = []
        cur = [doc] if doc is not None else []
        for _ in range(rng.randint(1, 3)):
            axis = 'desc' if rng.random() < .3 else 'child'
            pool = []
            for n in cur:
                pool.extend(n['children'])
                if axis == 'desc':
                    for c in n['children']:
                        pool.extend(c['children'])
            if pool and rng.random() < .85:
                hit = rng.choice(pool)
                tag = hit['tag']
            else:
                hit = None
                tag = rng.choice(self.TAGS)
            pred = None
            if rng.random() < .3:
                k = rng.random()
                if k < .3:
                    pred = ('pos', rng.randint(1, 3) if rng.random() < .9 or
                            len(pool) < 5 else
                            rng.randint(1, len(pool)))
                elif k < .45:
                    pred = ('last',)
                elif k < .75:
                    pred = ('attr', rng.choice('kl'),
                            rng.choice(self.docvals))
                elif k < .9:
                    pred = ('hasattr', rng.choice('kl'))
                else:
                    pred = ('haschild', rng.choice(self.TAGS))
            if rng.random() < .15 and (pred is None or
                                       pred[0] not in ('pos', 'last')):
                tag = None
            steps.append((axis, tag, pred))
            cur = [hit] if hit else []
        return {'abs': rng.random() < .5, 'steps': steps,
                'bare': rng.random() < .5}

    # ---------------------------------------------------------- expressions
    def holders(self, req, cat):
        if cat == 'Subject':
            return req['subjects']
        if cat == 'Resource':
            return req['resources']
        h = req['action' if cat == 'Action' else 'env']
        return [h] if h is not None else []

    def desig(self, req, cat=None, typ=None, want_type=None):
        rng = self.rng
        cat = cat or rng.choice(CATS)
        attrs = [a for h in self.holders(req, cat) for a in h['attrs']
                 if typ is None or a['type'] == typ]
        d = {'k': 'desig', 'cat': cat, 'mbp': rng.random() < .15,
             'issuer': None}
        if attrs and rng.random() < .8:
            a = rng.choice(attrs)
            d['id'], d['type'] = a['id'], a['type']
            if rng.random() < .3:
                d['issuer'] = a.get('issuer')
        else:
            d['id'] = rng.choice(self.ids)
            d['type'] = typ or rng.choice(self.types)
        if rng.random() < .12:
            d['issuer'] = rng.choice(self.issuers)
        if rng.random() < .04:
            d['id'] = rng.choice(IDS)
        return d

    def sel(self, typ=None):
        rng = self.rng
        s = {'k': 'sel', 'path': self.path(), 'mbp': rng.random() < .15,
             'type': typ if typ in STR_TYPES else
             rng.choice([t for t in self.types if t in STR_TYPES] or
                        ['string'])}
        return s

    def bag_source(self, req, typ=None, cat=None):
        if self.selectors and self.rng.random() < self.selectors and \
                (typ is None or typ in STR_TYPES):
            return self.sel(typ)
        return self.desig(req, cat, typ)

    def val(self, typ):
        return {'k': 'val', 'type': typ, 'value': self.value(typ)}

    def bag_values(self, src, req):
        """Values of a source in the reference model (for biasing)"""
        r = model.ev(src, req)[0]
        return list(r[2]) if r[0] == 'bag' else []

    def bag(self, req, typ, depth):
        rng = self.rng
        if typ in model.BAG_TYPES and (depth > 0 and rng.random() < .3 or
                                       rng.random() < .1):
            return {'k': 'apply', 'fn': F1 + typ + '-bag',
                    'args': [self.single(req, typ, depth - 1)
                             for _ in range(rng.randint(0, 3))]}
        return self.bag_source(req, typ)

    def single(self, req, typ, depth):
        rng = self.rng
        if rng.random() < self.errors:
            k = rng.random()
            if k < .4:
                return self.bag_source(req, typ)
            if k < .7:
                t = rng.choice(self.types)
                return self.val(t)
            if self.probes:
                return {'k': 'apply', 'fn': PROBE + 'raise', 'args': []}
        if depth > 0:
            k = rng.random()
            if k < .4 and typ in model.BAG_TYPES:
                return {'k': 'apply', 'fn': F1 + typ + '-one-and-only',
                        'args': [self.bag(req, typ, depth - 1)]}
            if k < .55 and typ == 'string':
                return {'k': 'apply', 'fn': F2 + 'string-concatenate',
                        'args': [self.single(req, 'string', depth - 1)
                                 for _ in range(rng.randint(2, 3))]}
            if k < .55 and typ == 'anyURI' and 'string' in self.vals:
                return {'k': 'apply', 'fn': F2 + 'url-string-concatenate',
                        'args': [self.single(req, 'anyURI', depth - 1)] +
                        [self.single(req, 'string', depth - 1)
                         for _ in range(rng.randint(1, 2))]}
        return self.val(typ)

    def boolean(self, req, depth):
        """A boolean-valued Apply"""
        rng = self.rng
        k = rng.random()
        if self.probes and k < .07:
            names = ['true', 'false', 'raise']
            if rng.random() < .3:
                names = sorted(model.PROBES)
            return {'k': 'apply', 'fn': PROBE + rng.choice(names),
                    'args': []}
        if depth > 0 and k < .3:
            return {'k': 'apply', 'fn': F1 + 'and', 'args': [
                self.boolean(req, depth - 1)
                for _ in range(wpick(rng, [(2, 6), (1, 2), (3, 2), (0, 1)]))]}
        if depth > 0 and k < .42:
            return {'k': 'apply', 'fn': F1 + 'not',
                    'args': [self.boolean(req, depth - 1)]}
        typ = rng.choice(self.types)
        if rng.random() < .35 and typ in model.BAG_TYPES:
            b1, b2 = self.bag(req, typ, depth), self.bag(req, typ, depth)
            if b2['k'] == 'apply' and rng.random() < .7:
                vals = [v for v in self.bag_values(b1, req) if v != '']
                if vals:
                    b2['args'].append({'k': 'val', 'type': typ,
                                       'value': rng.choice(vals)})
            fn = F1 + typ + '-at-least-one-member-of'
            e = {'k': 'apply', 'fn': fn, 'args': [b1, b2]}
        elif rng.random() < .3 and typ in model.RE_TYPES:
            arg = self.single(req, typ, depth)
            fn = (F1 if typ == 'string' else F2) + typ + '-regexp-match'
            e = {'k': 'apply', 'fn': fn, 'args': [
                self.pattern(typ, [self.value(typ)]), arg]}
        elif typ in model.EQ_TYPES:
            a = self.single(req, typ, depth)
            b = self.single(req, typ, depth - 1)
            if rng.random() < .45:
                v = model.ev(a, req)[0]
                if v[0] == 'v' and v[1] == typ and v[2] != '':
                    b = {'k': 'val', 'type': typ, 'value': v[2]}
            e = {'k': 'apply', 'fn': F1 + typ + '-equal', 'args': [a, b]}
            if rng.random() < .3:
                e['args'].reverse()
        else:
            src = self.bag_source(req, typ)
            e = {'k': 'apply', 'fn': (F1 if typ == 'string' else F2) + typ +
                 '-regexp-match', 'args': [self.pattern(typ, [self.value(typ)]),
                                           self.val(typ)]}
        if rng.random() < self.errors * .5:     # wrong number or kind
            if rng.random() < .5 and e['args']:
                e['args'].pop()
            else:
                e['args'].append(self.val(typ))
        return e

    def pattern(self, typ, targets):
        rng = self.rng
        import re
        v = rng.choice(targets) or 'a'
        k = rng.random()
        if k < .3:
            p = re.escape(v)
        elif k < .45:
            p = re.escape(v) + '$'
        elif k < .6:
            p = '.*' + re.escape(v[-2:]) + '$'
        elif k < .7:
            p = re.escape(v[:1]) + '.'
        elif k < .8:
            p = rng.choice(['.*', '^$|a', '[a-z]+$', '(?i)A', '[^x]', r'\w+',
                            '(a', '[', '*', 'a{2}'])
        else:
            p = self.value(typ)
        return {'k': 'val', 'type': typ, 'value': p}

    # --------------------------------------------------------------- target
    def match(self, req, cat, pneg=0.0):
        rng = self.rng
        src = self.bag_source(req, None, cat)
        typ = src['type']
        vals = self.bag_values(src, req)
        vals = [v for v in vals if v != '']
        hit = vals and rng.random() < .75
        if self.probes and rng.random() < .06:
            names = ['true', 'false', 'raise', 'true', 'lt', 'lt']
            if rng.random() < .25:
                names = sorted(model.PROBES) + [None]
            name = rng.choice(names)
            return {'fn': PROBE + name if name else
                    F2 + 'string-concatenate',
                    'value': self.val(typ), 'src': src}
        if typ in model.RE_TYPES and (rng.random() < .35 or
                                      typ not in model.EQ_TYPES):
            fn = (F1 if typ == 'string' else F2) + typ + '-regexp-match'
            value = self.pattern(typ, vals if hit else [self.value(typ)])
        else:
            fn = F1 + typ + '-equal'
            value = {'k': 'val', 'type': typ, 'value': rng.choice(vals)} \
                if hit else self.val(typ)
        if rng.random() < self.errors * .7:
            other = rng.choice([t for t in model.EQ_TYPES])
            fn = F1 + other + '-equal'
        return {'fn': fn, 'value': value, 'src': src}

    def target(self, req, p_none=.3, nsec=None):
        rng = self.rng
        if rng.random() < p_none:
            return None if rng.random() < .6 else {}
        t = {}
        for sec in model.SECTIONS:
            if rng.random() < (.4 if nsec is None else nsec):
                t[sec] = [[self.match(req, SECTION_CAT[sec]) for _ in range(
                    wpick(rng, [(1, 7), (2, 2), (3, 1)]))]
                    for _ in range(wpick(rng, [(1, 5), (2, 3), (3, 1)]))]
            elif rng.random() < .08:
                t[sec] = []
        return t

    # -------------------------------------------------------------- policies
    def rule(self, req, i, depth=2):
        rng = self.rng
        return {'id': 'rule-%d' % i, 'effect': rng.choice(['Permit', 'Deny']),
                'target': self.target(req, .5),
                'cond': self.boolean(req, depth) if rng.random() < .6 else
                None, 'desc': rng.choice([None, None, 'text', ' x\n y '])}

    def policy(self, req, ident='p', nrules=None, alg=None):
        rng = self.rng
        n = nrules if nrules is not None else wpick(
            rng, [(1, 3), (2, 4), (3, 3), (4, 1), (0, .4), (7, .3)])
        return {'k': 'Policy', 'id': ident, 'alg': alg or rng.choice(RALGS),
                'target': self.target(req, .55, .25),
                'rules': [self.rule(req, i) for i in range(n)],
                'desc': rng.choice([None, None, 'a policy']),
                'version': rng.choice([None, '1.0', '2.0', '3']),
                'defaults': rng.choice([None, None, model.XPATH1])}

    def policyset(self, req, ident='s', depth=2, p_set=.35):
        rng = self.rng
        n = wpick(rng, [(1, 2), (2, 4), (3, 2), (4, 1), (0, .4)])
        kids = []
        for i in range(n):
            cid = '%s.%d' % (ident, i)
            if depth > 0 and rng.random() < p_set:
                kids.append(self.policyset(req, cid, depth - 1, p_set))
            else:
                kids.append(self.policy(req, cid))
        return {'k': 'PolicySet', 'id': ident, 'alg': rng.choice(RALGS),
                'target': self.target(req, .6, .2), 'children': kids,
                'desc': rng.choice([None, None, 'a set']),
                'version': rng.choice([None, '1.0', '2.0']),
                'defaults': rng.choice([None, None, model.XPATH1])}

    def any_policy(self, req, depth=2):
        if self.rng.random() < .45:
            return self.policy(req)
        return self.policyset(req, depth=depth)
