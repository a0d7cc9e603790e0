"""Write plain-dict policies and requests as XML text.

Without rng: one plain form.  With rng: the same document with insignificant
differences (prefixes, attribute order, quoting, white space, comments,
processing instructions, CDATA, character references, encoding)."""
from vp import model
from vp.gen import encode

NS = 'urn:oasis:names:tc:xacml:2.0:policy:schema:os'
CNS = 'urn:oasis:names:tc:xacml:2.0:context:schema:os'
ENCODINGS = ['utf-8', 'utf-8', 'utf-8-sig', 'utf-16', 'iso-8859-1',
             'us-ascii']


class Node:
    """Element: tag (local name or Clark), attrib, children (Node or str)"""

    def __init__(self, tag, attrib=None, children=()):
        self.tag = tag
        self.attrib = dict(attrib or {})
        self.children = [c for c in children if c is not None]

    def copy(self):
        return Node(self.tag, self.attrib, [
            c.copy() if isinstance(c, Node) else c for c in self.children])

    def walk(self):
        yield self
        for c in self.children:
            if isinstance(c, Node):
                for n in c.walk():
                    yield n

    def elements(self):
        return [c for c in self.children if isinstance(c, Node)]


# ------------------------------------------------------------ model -> nodes
def value_node(v):
    text = v['text'] if 'text' in v else encode(v['type'], v['value'])
    return Node('AttributeValue', {'DataType': model.TYPES.get(
        v['type'], v['type'])}, [text])


def src_node(s):
    typ = model.TYPES.get(s['type'], s['type'])
    if s['k'] == 'desig':
        at = {'AttributeId': s['id'], 'DataType': typ}
        if s.get('issuer') is not None:
            at['Issuer'] = s['issuer']
        if 'mbptext' in s:
            at['MustBePresent'] = s['mbptext']
        elif s.get('mbp'):
            at['MustBePresent'] = 'true'
        return Node(s['cat'] + 'AttributeDesignator', at)
    path = s['badpath'] if s.get('badpath') else model.path_string(s['path'])
    at = {'RequestContextPath': path, 'DataType': typ}
    if 'mbptext' in s:
        at['MustBePresent'] = s['mbptext']
    elif s.get('mbp'):
        at['MustBePresent'] = 'true'
    return Node('AttributeSelector', at)


def expr_node(e):
    if e['k'] == 'val':
        return value_node(e)
    if e['k'] == 'apply':
        return Node('Apply', {'FunctionId': e['fn']},
                    [expr_node(a) for a in e['args']])
    return src_node(e)


SEC = {'subjects': 'Subject', 'resources': 'Resource', 'actions': 'Action',
       'environments': 'Environment'}


def target_node(t):
    out = Node('Target')
    for sec in model.SECTIONS:
        if t.get(sec):
            name = SEC[sec]
            out.children.append(Node(name + 's', {}, [
                Node(name, {}, [
                    Node(name + 'Match', {'MatchId': m['fn']},
                         [value_node(m['value']), src_node(m['src'])])
                    for m in child]) for child in t[sec]]))
    return out


def rule_node(r):
    out = Node('Rule', {'RuleId': r['id'] or '', 'Effect': r['effect']})
    if r.get('desc') is not None:
        out.children.append(Node('Description', {}, [r['desc']]))
    if r.get('target') is not None:
        out.children.append(target_node(r['target']))
    if r.get('cond') is not None:
        out.children.append(Node('Condition', {}, [expr_node(r['cond'])]))
    return out


def policy_node(p):
    if p['k'] == 'PolicyRef':
        return Node('PolicyIdReference', {}, [p['ref']])
    if p['k'] == 'PolicySetRef':
        return Node('PolicySetIdReference', {}, [p['ref']])
    pol = p['k'] == 'Policy'
    alg = p['alg'] if ':' in p['alg'] else \
        (model.RALG if pol else model.PALG) + p['alg']
    at = {'PolicyId' if pol else 'PolicySetId': p['id'] or '',
          'RuleCombiningAlgId' if pol else 'PolicyCombiningAlgId': alg}
    if p.get('version') is not None:
        at['Version'] = p['version']
    out = Node(p['k'], at)
    if p.get('desc') is not None:
        out.children.append(Node('Description', {}, [p['desc']]))
    if p.get('defaults') is not None:
        out.children.append(Node(p['k'] + 'Defaults', {}, [
            Node('XPathVersion', {}, [p['defaults']])]))
    # the schema requires a Target element; leaving it out is accepted too
    if p.get('target') is not None:
        out.children.append(target_node(p['target']))
    if pol:
        out.children.extend(rule_node(r) for r in p['rules'])
    else:
        out.children.extend(policy_node(c) for c in p['children'])
    return out


def doc_node(d):
    return Node(d['tag'], d['attrib'], [d['text']] +
                [doc_node(c) for c in d['children']])


def attribute_node(a):
    at = {'AttributeId': a['id'], 'DataType': model.TYPES.get(a['type'],
                                                              a['type'])}
    if a.get('issuer') is not None:
        at['Issuer'] = a['issuer']
    return Node('Attribute', at, [
        Node('AttributeValue', {}, [encode(a['type'], v)])
        for v in a['values']])


def request_node(r):
    out = Node('Request')
    for s in r['subjects']:
        at = {}
        if s.get('category') is not None:
            at['SubjectCategory'] = s['category']
        out.children.append(Node('Subject', at, [attribute_node(a)
                                                 for a in s['attrs']]))
    for s in r['resources']:
        kids = []
        if s.get('content') is not None:
            if s.get('bare'):
                kids.append(doc_node(dict(s['content'],
                                          tag='ResourceContent')))
            else:
                kids.append(Node('ResourceContent', {},
                                 [doc_node(s['content'])]))
        out.children.append(Node('Resource', {}, kids + [
            attribute_node(a) for a in s['attrs']]))
    for key, name in (('action', 'Action'), ('env', 'Environment')):
        if r[key] is not None:
            out.children.append(Node(name, {}, [attribute_node(a)
                                                for a in r[key]['attrs']]))
    return out


# ------------------------------------------------------------- nodes -> text
def esc_text(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('\r', '&#13;')


def esc_attr(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '"', '&quot;').replace('\r', '&#13;').replace('\n', '&#10;').replace(
        '\t', '&#9;')


def split(tag):
    if tag.startswith('{'):
        ns, local = tag[1:].split('}')
        return ns, local
    return None, tag


FOREIGN = ['urn:other', 'http://www.w3.org/2001/XMLSchema-instance',
           'http://www.w3.org/1999/xlink']


def foreign(rng, node, name, value, ns=NS):
    """Give an element an attribute of a namespace: not the one without"""
    node.attrib['xmlns:fx'] = rng.choice([ns, ns + '#'] + FOREIGN)
    node.attrib['fx:' + name] = value


STRANGE = {'Effect': ['Permit', 'Deny', 'x'], 'MustBePresent': ['true', 'false'],
           'Issuer': ['them', ''], 'AttributeId': ['other', ''],
           'DataType': ['http://www.w3.org/2001/XMLSchema#integer', 'x'],
           'Version': ['9.9'], 'RuleId': ['x'], 'PolicyId': ['x', ''],
           'PolicySetId': ['x'], 'SubjectCategory': ['urn:x'],
           'FunctionId': ['urn:x'], 'MatchId': ['urn:x'],
           'RequestContextPath': ['/x'], 'ResourceId': ['x', ''],
           'RuleCombiningAlgId': ['urn:x'], 'PolicyCombiningAlgId': ['urn:x']}


def strangers(rng, node, ns=NS):
    """Give a few elements attributes of other namespaces which have the
    names of ones they may have; their own are as before"""
    nodes = list(node.walk())
    for n in rng.sample(nodes, min(len(nodes), rng.randint(1, 6))):
        names = sorted(set(STRANGE) & set(n.attrib)) if rng.random() < .5 \
            else sorted(STRANGE)
        if names:
            k = rng.choice(names)
            foreign(rng, n, k, rng.choice(STRANGE[k]), ns)


def plain(node, ns=NS, indent=None, decl=False):
    """Canonical text: default namespace, no extra white space"""
    def write(n, cur):
        tns, local = split(n.tag)
        if tns is None:
            tns = ns if cur is not Ellipsis else ns
        at = ''
        if tns != cur:
            at += ' xmlns="%s"' % esc_attr(tns)
        for k, v in n.attrib.items():
            at += ' %s="%s"' % (k, esc_attr(v))
        kids = ''.join(esc_text(c) if isinstance(c, str) else write(c, tns)
                       for c in n.children)
        if kids:
            return '<%s%s>%s</%s>' % (local, at, kids, local)
        return '<%s%s/>' % (local, at)
    return write(node, None).encode('utf-8')


TEXT_ELEMENTS = ('AttributeValue', 'Description', 'XPathVersion',
                 'PolicyIdReference', 'PolicySetIdReference', 'ResourceId',
                 'Decision')


class Varied:
    """One random but equivalent spelling of a document"""

    def __init__(self, rng, ns=NS, in_text=True, encoding=None, junk=True):
        self.rng = rng
        self.ns = ns
        self.junk = junk
        self.in_text = in_text
        self.enc = encoding or rng.choice(ENCODINGS)
        self.p_ws = rng.choice([0, 0, .5, 1])
        self.p_junk = rng.choice([0, 0, .15, .4]) if junk else 0
        self.p_ref = rng.choice([0, 0, .1, .5])
        self.p_cdata = rng.choice([0, .2, .5])
        self.style = rng.choice(['default', 'prefix', 'mixed'])
        self.nprefix = 0

    def bytes(self, node):
        text = self.write(node, {'': None}, 0)
        rng = self.rng
        if rng.random() < self.p_junk:
            text = '<!-- c -->' + text
        if rng.random() < self.p_junk:
            text += '<?pi end?>\n<!-- t -->'
        codec = {'utf-8-sig': 'utf-8'}.get(self.enc, self.enc)
        if self.enc in ('utf-16', 'iso-8859-1', 'us-ascii') or \
                rng.random() < .5:
            text = '<?xml version="1.0" encoding="%s"?>%s' % (
                codec, '\n' if rng.random() < .5 else '') + text
        return text.encode(self.enc, 'xmlcharrefreplace')

    def char(self, c, attr):
        """Escaped spelling of one character"""
        rng = self.rng
        o = ord(c)
        try:
            c.encode(self.enc)
        except UnicodeEncodeError:
            return '&#x%x;' % o
        if c == '\r' or attr and c in '\t\n':
            return rng.choice(['&#%d;', '&#x%x;']) % o
        if c == '&':
            return '&amp;' if rng.random() < .8 else '&#38;'
        if c == '<':
            return '&lt;' if rng.random() < .8 else '&#60;'
        if c == '>':
            return '&gt;'
        if attr and c in '"\'':
            return '&quot;' if c == '"' else '&apos;'
        if rng.random() < self.p_ref:
            return rng.choice(['&#%d;', '&#x%X;', '&#x%x;']) % o
        return c

    def comment(self):
        return self.rng.choice(['<!-- comment -->', '<!---->', '<?pi data?>',
                                '<!-- <Rule Effect="Deny"/> -->', '<?x?>'])

    def text(self, s):
        rng = self.rng
        out = ''
        i = 0
        while i < len(s):
            if self.in_text and rng.random() < self.p_junk * .5:
                out += self.comment()
            if rng.random() < self.p_cdata * .4:
                j = rng.randint(i + 1, len(s))
                part = s[i:j]
                ok = ']]>' not in part and '\r' not in part and \
                    not part.endswith(']')
                try:
                    part.encode(self.enc)
                except UnicodeEncodeError:
                    ok = False
                if ok:
                    out += '<![CDATA[' + part + ']]>'
                    i = j
                    continue
            out += self.char(s[i], False)
            i += 1
        if self.in_text and s and rng.random() < self.p_junk:
            out += self.comment()
        return out

    def gap(self, depth):
        rng = self.rng
        out = ''
        if rng.random() < self.p_ws:
            out += rng.choice(['\n' + '  ' * depth, ' ', '\n\n\t', '\r\n'])
        while rng.random() < self.p_junk:
            out += self.comment()
            if rng.random() < self.p_ws:
                out += '\n'
        return out

    def write(self, n, scope, depth):
        """scope: prefix -> namespace"""
        rng = self.rng
        tns, local = split(n.tag)
        if tns is None:
            tns = self.ns
        scope = dict(scope)
        decls = []
        usable = [p for p, u in scope.items() if u == tns]
        fresh = not usable or (self.style == 'mixed' and rng.random() < .2)
        if fresh:
            if self.style == 'default' or self.style == 'mixed' and \
                    rng.random() < .5:
                prefix = ''
            else:
                self.nprefix += 1
                prefix = rng.choice(['p', 'xacml', 'ns', 'X.y-z', '_'])
                prefix = '%s%d' % (prefix, self.nprefix)
            scope[prefix] = tns
            decls.append((('xmlns:' + prefix) if prefix else 'xmlns', tns))
        else:
            prefix = rng.choice(usable)
        if self.p_junk and rng.random() < .05:
            self.nprefix += 1
            decls.append(('xmlns:u%d' % self.nprefix, 'urn:unused'))
        name = prefix + ':' + local if prefix else local
        at = list(n.attrib.items())
        if rng.random() < .5:
            rng.shuffle(at)
        at = decls + at if rng.random() < .5 else at + decls
        out = '<' + name
        for k, v in at:
            q = '"' if rng.random() < .7 else "'"
            out += rng.choice([' ', ' ', '  ', '\n ']) + k + \
                rng.choice(['=', '=', ' = ']) + q + \
                ''.join(self.char(c, True) for c in v) + q
        kids = n.children
        if not kids or all(c == '' for c in kids):
            if local in TEXT_ELEMENTS:
                return out + ('/>' if rng.random() < .5 else '></%s>' % name)
            if rng.random() < .5:
                return out + rng.choice(['', ' ']) + '/>'
        out += rng.choice(['', '', ' ']) + '>'
        mixed = any(isinstance(c, str) for c in kids)
        for c in kids:
            if isinstance(c, str):
                out += self.text(c)
            else:
                if not mixed:
                    out += self.gap(depth + 1)
                out += self.write(c, scope, depth + 1)
        if not mixed:
            out += self.gap(depth)
        return out + '</%s>' % name


def varied(node, rng, **kw):
    return Varied(rng, **kw).bytes(node)
