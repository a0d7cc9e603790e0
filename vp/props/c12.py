"""Malformed policies are refused, never partly loaded"""
import io
import os

from vp import emit, gen, model, mon, sut
from vp.emit import Node
from vp.model import D, I, N, P

META = {
    'rule': 'one evaluation = one document made malformed in one known way'
            ' offered for loading (must be refused) or the original document'
            ' offered again (must load with its content); distinct ='
            ' distinct (kind of defect, element it is in, source, spelling)',
    'assumptions': [
        'defects are limited to the ones the property names; a foreign'
        ' namespace on a known element name, empty target sections and'
        ' unknown XML attributes are accepted by the code and not judged'],
    'floors': {'large': 60, 'refused': 1500, 'original': 300, 'm.drop_attribute': 50,
               'm.empty_value': 10, 'm.effect': 20, 'm.datatype': 20,
               'm.duplicate_rule': 10, 'm.duplicate_policy': 5,
               'm.both_sources': 20, 'm.unknown_element': 100,
               'm.misplaced_element': 50, 'm.unsupported_element': 50,
               'm.repeated_element': 20, 'm.condition': 20,
               'm.defaults': 5, 'm.root': 10, 'm.not_well_formed': 50,
               'm.missing_part': 10, 'm.element_in_text': 20},
}

REQUIRED = {
    'Policy': ('PolicyId', 'RuleCombiningAlgId'),
    'PolicySet': ('PolicySetId', 'PolicyCombiningAlgId'),
    'Rule': ('RuleId', 'Effect'), 'Apply': ('FunctionId',),
    'AttributeValue': ('DataType',),
    'AttributeSelector': ('RequestContextPath', 'DataType'),
}
for _c in gen.CATS:
    REQUIRED[_c + 'Match'] = ('MatchId',)
    REQUIRED[_c + 'AttributeDesignator'] = ('AttributeId', 'DataType')
MATCHES = tuple(c + 'Match' for c in gen.CATS)
DESIGS = tuple(c + 'AttributeDesignator' for c in gen.CATS)
# containers and the elements that may stand in them
ALLOWED = {
    'Policy': ('Description', 'PolicyDefaults', 'Target', 'Rule'),
    'PolicySet': ('Description', 'PolicySetDefaults', 'Target', 'Policy',
                  'PolicySet', 'PolicyIdReference', 'PolicySetIdReference'),
    'Rule': ('Description', 'Target', 'Condition'),
    'Target': ('Subjects', 'Resources', 'Actions', 'Environments'),
    'Condition': ('Apply',),
    'Apply': ('Apply', 'AttributeValue', 'AttributeSelector',
              'Condition') + DESIGS,
    'PolicyDefaults': ('XPathVersion',),
    'PolicySetDefaults': ('XPathVersion',),
}
for _c in gen.CATS:
    ALLOWED[_c + 's'] = (_c,)
    ALLOWED[_c] = (_c + 'Match',)
    ALLOWED[_c + 'Match'] = ('AttributeValue', _c + 'AttributeDesignator',
                             'AttributeSelector')
UNSUPPORTED = {
    'Policy': ('Obligations', 'CombinerParameters', 'RuleCombinerParameters',
               'VariableDefinition'),
    'PolicySet': ('Obligations', 'CombinerParameters',
                  'PolicyCombinerParameters', 'PolicySetCombinerParameters'),
    'Apply': ('Function', 'VariableReference'),
    'Condition': ('VariableReference', 'Function'),
}


def samples():
    """One valid element of each name"""
    val = Node('AttributeValue', {'DataType': model.TYPES['string']}, ['v'])
    out = {'AttributeValue': val,
           'Description': Node('Description', {}, ['d']),
           'AttributeSelector': Node('AttributeSelector', {
               'RequestContextPath': './a',
               'DataType': model.TYPES['string']}),
           'Apply': Node('Apply', {'FunctionId': model.F1 + 'and'}),
           'XPathVersion': Node('XPathVersion', {}, [model.XPATH1])}
    for d in DESIGS:
        out[d] = Node(d, {'AttributeId': 'x',
                          'DataType': model.TYPES['string']})
    for c in gen.CATS:
        m = Node(c + 'Match', {'MatchId': model.F1 + 'string-equal'},
                 [val.copy(), out[c + 'AttributeDesignator'].copy()])
        out[c + 'Match'] = m
        out[c] = Node(c, {}, [m.copy()])
        out[c + 's'] = Node(c + 's', {}, [out[c].copy()])
    out['Target'] = Node('Target', {}, [out['Subjects'].copy()])
    out['Condition'] = Node('Condition', {}, [out['Apply'].copy()])
    out['Rule'] = Node('Rule', {'RuleId': 'extra rule', 'Effect': 'Deny'})
    for k in ('Policy', 'PolicySet'):
        out[k + 'Defaults'] = Node(k + 'Defaults', {},
                                   [out['XPathVersion'].copy()])
    out['Policy'] = Node('Policy', {
        'PolicyId': 'extra policy',
        'RuleCombiningAlgId': model.RALG + 'deny-overrides'},
        [out['Rule'].copy()])
    out['PolicySet'] = Node('PolicySet', {
        'PolicySetId': 'extra set',
        'PolicyCombiningAlgId': model.PALG + 'deny-overrides'})
    out['Obligations'] = Node('Obligations', {}, [
        Node('Obligation', {'ObligationId': 'o', 'FulfillOn': 'Permit'})])
    for k in ('CombinerParameters', 'RuleCombinerParameters',
              'PolicyCombinerParameters', 'PolicySetCombinerParameters'):
        out[k] = Node(k, {})
    out['VariableDefinition'] = Node('VariableDefinition',
                                     {'VariableId': 'v'}, [val.copy()])
    out['VariableReference'] = Node('VariableReference', {'VariableId': 'v'})
    out['Function'] = Node('Function', {'FunctionId': model.F1 +
                                        'string-equal'})
    return out


SAMPLES = samples()
UNKNOWN = ['Unknown', 'rule', 'policy', 'Rules', 'Deny', 'target', 'apply',
           'Conditions', 'AttributeAssignment', '{urn:other}ext', 'X',
           'Request', 'RuleIdReference', 'condition', 'Subject-Match']
BADEFFECTS = ['permit', 'DENY', '', 'Allow', 'Permit ', ' Deny',
              'Indeterminate', 'NotApplicable', 'true', 'PermitDeny', 'P']


def hollow(rng, node):
    """Sometimes the element as such, without what belongs into it: it is
    just as little allowed"""
    k = rng.random()
    if k < .3:
        node.children = []
    if k < .15:
        node.attrib = {}
    return node


def insert(rng, node, child):
    node.children.insert(rng.randint(0, len(node.children)), child)


class Mutator:
    """Each method makes one defect in a copy of the tree.
    @return: (tree, element name) or None if there is no place for it"""

    def __init__(self, rng):
        self.rng = rng

    def pick(self, root, names):
        nodes = [n for n in root.walk() if n.tag in names]
        return self.rng.choice(nodes) if nodes else None

    def drop_attribute(self, root):
        names = sorted(set(n.tag for n in root.walk()) & set(REQUIRED))
        n = self.pick(root, (self.rng.choice(names),))
        a = self.rng.choice(REQUIRED[n.tag])
        v = n.attrib.pop(a)
        k = self.rng.random()
        if k < .2:
            n.attrib[a.lower()] = v
        elif k < .3:
            n.attrib[a + 's'] = v
        elif k < .5:
            emit.foreign(self.rng, n, a, v)
            return root, n.tag + '/fx:' + a
        return root, n.tag + '/' + a

    def empty_value(self, root):
        n = self.pick(root, ('AttributeValue',))
        if n is None:
            return None
        n.children = []
        return root, n.tag

    def effect(self, root):
        n = self.pick(root, ('Rule',))
        if n is None:
            return None
        n.attrib['Effect'] = self.rng.choice(BADEFFECTS)
        return root, n.attrib['Effect']

    def datatype(self, root):
        n = self.pick(root, ('AttributeValue',))
        if n is None:
            return None
        t = n.attrib['DataType']
        n.attrib['DataType'] = gen.near_type(self.rng, t)
        return root, n.tag

    def duplicate_rule(self, root):
        nodes = [n for n in root.walk() if n.tag == 'Policy' and
                 any(c.tag == 'Rule' for c in n.elements())]
        if not nodes:
            return None
        n = self.rng.choice(nodes)
        rules = [c for c in n.elements() if c.tag == 'Rule']
        r = self.rng.choice(rules)
        if len(rules) > 1 and self.rng.random() < .5:
            other = self.rng.choice([x for x in rules if x is not r])
            other.attrib['RuleId'] = r.attrib['RuleId']
        else:
            c = r.copy() if self.rng.random() < .5 else SAMPLES['Rule'].copy()
            c.attrib['RuleId'] = r.attrib['RuleId']
            insert(self.rng, n, c)
        return root, 'Rule'

    def duplicate_policy(self, root):
        kind = self.rng.choice(['Policy', 'PolicySet'])
        nodes = [n for n in root.walk() if n.tag == kind]
        sets = [n for n in root.walk() if n.tag == 'PolicySet']
        if not nodes or not sets:
            return None
        n = self.rng.choice(nodes)
        if len(nodes) > 1 and self.rng.random() < .5:
            other = self.rng.choice([x for x in nodes if x is not n])
            other.attrib[kind + 'Id'] = n.attrib[kind + 'Id']
        else:
            c = SAMPLES[kind].copy()
            c.attrib[kind + 'Id'] = n.attrib[kind + 'Id']
            insert(self.rng, self.rng.choice(sets), c)
        return root, kind

    def both_sources(self, root):
        n = self.pick(root, MATCHES)
        if n is None:
            return None
        has = [c.tag for c in n.elements()]
        other = n.tag[:-5] + 'AttributeDesignator' \
            if 'AttributeSelector' in has else 'AttributeSelector'
        insert(self.rng, n, SAMPLES[other].copy())
        return root, n.tag

    def unknown_element(self, root):
        names = sorted(set(n.tag for n in root.walk()) & set(ALLOWED))
        n = self.pick(root, (self.rng.choice(names),))
        c = Node(self.rng.choice(UNKNOWN))
        if self.rng.random() < .4:
            c.children = [self.rng.choice(list(SAMPLES.values())).copy()]
        insert(self.rng, n, c)
        return root, n.tag

    def nearly_known(self, root):
        """An element whose name is nearly one that is allowed there"""
        names = sorted(n.tag for n in root.walk() if ALLOWED.get(n.tag))
        n = self.pick(root, (self.rng.choice(sorted(set(names))),))
        if self.rng.random() < .5 and n.elements():
            c = self.rng.choice(n.elements())
        else:
            c = SAMPLES[self.rng.choice(sorted(
                set(ALLOWED[n.tag]) & set(SAMPLES)))].copy()
            insert(self.rng, n, c)
        t = c.tag
        c.tag = self.rng.choice([
            'X-' + t, 'My.' + t, 'X_' + t, '_' + t, 'x' + t, t + '-1', t + '.',
            t + '_', t + 's', t + t, t[:-1], t[1:], t.lower(), t.upper(),
            t.swapcase(), t[0].lower() + t[1:], 'xacml-' + t, t[:3] + '-' +
            t[3:], t[:-1] + t[-1].upper(), t + '\u00e9', 'Not' + t])
        if c.tag in ALLOWED[n.tag] or c.tag in SAMPLES:
            return None
        return root, n.tag + '/' + c.tag

    def like_a_reference(self, root):
        """What names a policy of the document, and is no reference"""
        ids = [n.attrib[n.tag + 'Id'] for n in root.walk()
               if n.tag in ('Policy', 'PolicySet')]
        n = self.pick(root, ('PolicySet',) if self.rng.random() < .8 else
                      ('Policy', 'Rule', 'Target'))
        if n is None or not ids:
            return None
        t = self.rng.choice(UNKNOWN + [
            'PolicyReference', 'PolicySetReference', 'PolicyId', 'Reference',
            'PolicySetId', 'policyIdReference', 'PolicySetIDReference',
            'PolicyIdRef', 'PolicySetIdReferences', 'IdReference', 'Include',
            'XPolicySetIdReference', 'RuleReference', 'Description2'])
        c = Node(t, {}, [self.rng.choice(ids)])
        if self.rng.random() < .6:
            n.children.append(c)
        else:
            insert(self.rng, n, c)
        return root, n.tag + '/' + t

    def misplaced_element(self, root):
        names = sorted(set(n.tag for n in root.walk()) & set(ALLOWED))
        n = self.pick(root, (self.rng.choice(names),))
        bad = sorted(set(SAMPLES) - set(ALLOWED[n.tag]))
        t = self.rng.choice(bad)
        insert(self.rng, n, hollow(self.rng, SAMPLES[t].copy()))
        return root, n.tag + '/' + t

    def unsupported_element(self, root):
        names = sorted(set(n.tag for n in root.walk()) & set(UNSUPPORTED))
        n = self.pick(root, (self.rng.choice(names),))
        t = self.rng.choice(UNSUPPORTED[n.tag])
        c = hollow(self.rng, SAMPLES[t].copy())
        if n.tag == 'Condition':
            n.children = [c]
        else:
            insert(self.rng, n, c)
        return root, n.tag + '/' + t

    def repeated_element(self, root):
        """A second element where only one can count"""
        spots = []
        for n in root.walk():
            for t in {'Rule': ('Target', 'Condition'), 'Policy': ('Target',),
                      'PolicySet': ('Target',)}.get(n.tag, ()):
                if any(c.tag == t for c in n.elements()):
                    spots.append((n, t))
            if n.tag in MATCHES:
                for c in n.elements():
                    spots.append((n, c.tag))
        if not spots:
            return None
        n, t = self.rng.choice(spots)
        c = SAMPLES[t].copy()
        if t == 'Target':
            hollow(self.rng, c)
        if self.rng.random() < .3:
            c = [x for x in n.elements() if x.tag == t][0].copy()
        insert(self.rng, n, c)
        return root, n.tag + '/' + t

    def condition(self, root):
        n = self.pick(root, ('Condition',))
        if n is None:
            return None
        k = self.rng.choice(['none', 'two', 'twosame', 'value', 'text'])
        if k == 'none':
            n.children = []
        elif k == 'two':
            insert(self.rng, n, SAMPLES['Apply'].copy())
        elif k == 'twosame':
            n.children.append(n.children[0].copy())
        elif k == 'value':
            insert(self.rng, n, SAMPLES['AttributeValue'].copy())
        else:
            n.children = ['true']
        return root, k

    def defaults(self, root):
        n = self.pick(root, ('PolicyDefaults', 'PolicySetDefaults'))
        if n is None:
            return None
        k = self.rng.choice(['none', 'two', 'empty'])
        if k == 'none':
            n.children = []
        elif k == 'two':
            n.children.append(SAMPLES['XPathVersion'].copy())
        else:
            n.children = [Node('XPathVersion')]
        return root, n.tag

    def root(self, root):
        k = self.rng.random()
        if k < .4:
            return SAMPLES[self.rng.choice(sorted(
                set(SAMPLES) - {'Policy', 'PolicySet'}))].copy(), 'other'
        if k < .6:
            return Node(self.rng.choice(UNKNOWN), {}, [root]), 'wrapped'
        root.tag = self.rng.choice(
            ['policy', 'POLICY', 'policyset', 'Policyset', 'PolicySet1',
             'XPolicy', 'Rule', 'Policies', 'Response'] +
            UNKNOWN)
        return root, 'renamed'

    def missing_part(self, root):
        n = self.pick(root, MATCHES)
        if n is None:
            return None
        c = self.rng.choice(n.elements())
        n.children.remove(c)
        return root, n.tag + '/' + c.tag

    def element_in_text(self, root):
        """Child elements in the middle of a value or in an empty element"""
        n = self.pick(root, ('AttributeValue', 'AttributeSelector',
                             'XPathVersion') + DESIGS)
        if n is None or n.tag == 'AttributeValue' and \
                model.URI2TYPE[n.attrib['DataType']] not in model.STR_TYPES:
            return None     # readers of other types are our own
        c = Node(self.rng.choice(['Unknown', 'AttributeValue', 'b']))
        if self.rng.random() < .5:
            c.children = ['t']
        if n.children and isinstance(n.children[0], str) and \
                len(n.children[0]) > 1:
            s = n.children[0]
            j = self.rng.randint(1, len(s) - 1)
            n.children = [s[:j], c, s[j:]]
        else:
            n.children.append(c)
        return root, n.tag


def break_text(rng, data):
    """Bytes that are not a well-formed document"""
    end = data.rstrip().rfind(b'>')
    k = rng.randint(0, 8)
    if k == 0:
        return data[:rng.randint(0, end)], 'truncated'
    if k == 1:
        return data + b'<Policy/>', 'second root'
    if k == 2:
        return data[:end] + b'x>', 'end tag'
    if k == 3:
        i = data.find(b' ')
        return data[:i] + b' A="1" A="2"' + data[i:], 'attribute twice'
    if k == 4:
        i = data.rfind(b'</')
        return data[:i] + b'&undefined;' + data[i:], 'entity'
    if k == 5:
        i = data.rfind(b'</')
        return data[:i] + rng.choice([b'\x00', b'<', b'&', b'\x01']) + \
            data[i:], 'character'
    if k == 6:
        i = data.rfind(b'</')
        return data[:i] + b'\xff\xfe' + data[i:], 'encoding'
    if k == 7:
        i = data.rfind(b'</')
        return data[:i] + b'<q:x/>' + data[i:], 'prefix'
    return rng.choice([b'', b' ', b'text', b'{}', b'<', b'<?xml?>',
                       b'<!-- -->']), 'no document'


def run(ctx):
    sut.register_all()
    names = [n for n in sorted(vars(Mutator))
             if not n.startswith('_') and n != 'pick']

    def offer(rng, data):
        kind = rng.choice(['stream', 'stream', 'path', 'element'])
        if kind == 'path':
            with open('m.xml', 'wb') as f:
                f.write(data)
            src = os.path.abspath('m.xml')
        elif kind == 'stream':
            src = io.BytesIO(data)
        else:
            try:
                src = sut.parse_element(data)
            except Exception:
                return None, 'unparsable', kind
        try:
            return sut.PDP.fromPolicySource(src, sut.ReaderFactory), None, kind
        except Exception as e:
            return None, e, kind

    def base(rng):
        w = gen.World(rng, probes=False, selectors=.2,
                      ntypes=rng.randint(0, 1))
        mreq = w.request()
        if rng.random() < .5:
            p = w.policy(mreq, nrules=rng.randint(1, 3))
        else:
            p = w.policyset(mreq, depth=1)
        if rng.random() < .6:
            p['defaults'] = model.XPATH1
        return p

    def mutants(rng, i):
        p = base(rng)
        node = emit.policy_node(p)
        o, exc, kind = offer(rng, emit.plain(node))
        ctx.check(o is not None, lambda: 'a supported document is refused: '
                  '%r' % exc, lambda: emit.plain(node).decode())
        content = sut.dump_policy(o.policy)
        for _ in range(8):
            name = names[(i + _ * 5) % len(names)] if rng.random() < .5 else \
                rng.choice(names)
            out = getattr(Mutator(rng), name)(node.copy())
            if out is None:
                ctx.count('noplace')
                continue
            tree, where = out
            spelling = 'plain' if rng.random() < .6 else 'varied'
            data = emit.plain(tree) if spelling == 'plain' else \
                emit.varied(tree, rng, encoding='utf-8')
            o, exc, kind = offer(rng, data)
            ctx.check(o is None, lambda: 'a malformed document (%s in %s, %s '
                      'source) was loaded' % (name, where, kind),
                      lambda: data.decode('utf-8', 'replace'),
                      mech='match-value-repeated'
                      if name == 'repeated_element' and
                      where.endswith('Match/AttributeValue') else None)
            ctx.count('refused')
            ctx.count('m.' + name)
            ctx.seen(name, where, kind, spelling, type(exc).__name__)
        for _ in range(2):
            data, where = break_text(rng, emit.plain(node))
            o, exc, kind = offer(rng, data)
            ctx.check(o is None, lambda: 'a document that is not well-formed '
                      '(%s) was loaded' % where,
                      lambda: repr(data))
            ctx.count('refused')
            ctx.count('m.not_well_formed')
            ctx.seen('text', where, kind)
        o, exc, kind = offer(rng, emit.plain(node))
        ctx.check(o is not None, lambda: 'the original is refused after the '
                  'malformed ones: %r' % exc)
        ctx.check(sut.dump_policy(o.policy) == content, 'the original loads '
                  'differently after malformed documents')
        ctx.count('original')
        ctx.sample({'mutations': names[:4], 'document':
                    emit.plain(node).decode()[:200]})
    ctx.group('mutants', 1000, 15000, mutants)

    def large(rng, i):
        """The same in large documents, wherever the fault stands"""
        n = gen.size(rng, 400)

        def rule(j):
            t = {'actions': [[{'fn': gen.F1 + 'string-equal', 'value': {
                'type': 'string', 'value': 'v%d' % j}, 'src': {
                    'k': 'desig', 'cat': 'Action', 'id': 'act',
                    'type': 'string', 'mbp': False}}]]}
            return {'id': 'r%d' % j, 'effect': rng.choice(['Permit', 'Deny']),
                    'target': t if rng.random() < .3 else None, 'cond': {
                        'k': 'apply', 'fn': gen.F1 + 'not', 'args': [{
                            'k': 'apply', 'fn': gen.F1 + 'and', 'args': []}]}
                    if rng.random() < .3 else None}
        if rng.random() < .6:
            p = {'k': 'Policy', 'id': 'p', 'alg': 'deny-overrides',
                 'target': None, 'rules': [rule(j) for j in range(n)]}
        else:
            p = {'k': 'PolicySet', 'id': 's', 'alg': 'deny-overrides',
                 'target': None, 'children': [
                     {'k': 'Policy', 'id': 'p%d' % j, 'target': None,
                      'alg': 'deny-overrides', 'rules': [rule(0)]}
                     for j in range(n)]}
        node = emit.policy_node(p)
        o, exc, kind = offer(rng, emit.plain(node))
        ctx.check(o is not None, lambda: 'a supported document is refused: '
                  '%r' % exc, lambda: emit.plain(node).decode()[:3000])
        for _ in range(5):
            name = rng.choice(names + ['duplicate_rule', 'duplicate_policy',
                                       'misplaced_element'])
            out = getattr(Mutator(rng), name)(node.copy())
            if out is None:
                continue
            tree, where = out
            if rng.random() < .4 and name in ('duplicate_rule',
                                              'duplicate_policy'):
                # two that stand far apart
                kids = [c for c in tree.children if getattr(c, 'tag', None)
                        in ('Rule', 'Policy')]
                key = 'RuleId' if kids and kids[0].tag == 'Rule' \
                    else 'PolicyId'
                tree = node.copy()
                kids = [c for c in tree.children if getattr(c, 'tag', None)
                        in ('Rule', 'Policy')]
                kids[-1].attrib[key] = kids[0].attrib[key]
            data = emit.plain(tree)
            o, exc, kind = offer(rng, data)
            ctx.check(o is None, lambda: 'a malformed document (%s in %s, %s '
                      'source) was loaded' % (name, where, kind),
                      lambda: data.decode('utf-8', 'replace')[-3000:],
                      mech='match-value-repeated'
                      if name == 'repeated_element' and
                      where.endswith('Match/AttributeValue') else None)
            ctx.count('refused')
            ctx.count('large')
            ctx.seen('large', name, where, kind, type(exc).__name__)
        data, where = break_text(rng, emit.plain(node))
        o, exc, kind = offer(rng, data)
        ctx.check(o is None, lambda: 'a document that is not well-formed '
                  '(%s) was loaded' % where, lambda: repr(data)[-3000:])
    ctx.group('large', 40, 600, large)

    def keep(rng, i):
        """A failed load leaves a PDP with the policy it had"""
        p = base(rng)
        node = emit.policy_node(p)
        pdp = sut.pdp(emit.plain(node))
        before = pdp.policy
        content = sut.dump_policy(before)
        tree, where = Mutator(rng).drop_attribute(node.copy())
        data = emit.plain(tree)
        try:
            pdp.setPolicyFromSource(io.BytesIO(data), sut.ReaderFactory,
                                    sut.LocalPolicyFinder())
            ok = True
        except Exception:
            ok = False
        ctx.check(not ok, 'a malformed document was set as the policy',
                  lambda: data.decode())
        ctx.check(pdp.policy is before and
                  sut.dump_policy(before) == content,
                  'a refused document changed the policy of the PDP')
        ctx.count('refused')
        try:
            sut.PDP.fromPolicySource('/nonexistent/policy.xml',
                                     sut.ReaderFactory)
            ok = True
        except Exception:
            ok = False
        ctx.check(not ok, 'a file that does not exist was loaded')
    ctx.group('keep', 80, 800, keep)
