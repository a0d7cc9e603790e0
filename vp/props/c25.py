"""A rule gives its effect only if target matches and condition is true"""
import itertools

from vp import gen, model, mon, sut
from vp.gen import F1, PROBE
from vp.model import D, I, N, P

META = {
    'rule': 'one evaluation = the decision of one rule compared with the'
            ' reference, with its own target and condition, or with an earlier'
            ' decision; distinct = distinct (target outcome or kind, condition'
            ' result or kind, effect, way of building)',
    'assumptions': [
        'and / not of a boolean attribute value may be an error or its value',
        'an error in any match makes the target one in error'],
    'floors': {'matrix': 1500, 'rule.Permit': 300, 'rule.Deny': 300,
               'rule.Indeterminate': 500, 'rule.NotApplicable': 300,
               'condition.True': 200, 'condition.False': 200,
               'condition.E': 200, 'history': 500, 'errors': 300,
               'incomplete': 30},
}


def run(ctx):
    sut.register_all()
    kinds = sorted(sut.ERROR_KINDS)
    for k in kinds:
        sut.register_probe(PROBE + 'raise:' + k)
    from ndg.xacml.core.condition import Condition
    from ndg.xacml.core.target import Target

    attr = {'id': 'x', 'type': 'string', 'issuer': None, 'values': ['v', 'w']}
    flag = {'id': 'f', 'type': 'boolean', 'issuer': None, 'values': [True]}
    mreq0 = {'subjects': [{'category': None, 'attrs': [attr, flag]}],
             'resources': [{'content': None, 'attrs': [attr]}],
             'action': {'attrs': [attr]}, 'env': None, 'pip': None,
             'doc': None}
    req0 = sut.request(mreq0)

    def desig(t='string', **kw):
        return dict({'k': 'desig', 'cat': 'Subject', 'id': 'x', 'type': t,
                     'mbp': False, 'issuer': None}, **kw)

    def probe(n, *args):
        return {'k': 'apply', 'fn': PROBE + n, 'args': list(args)}

    def val(t, v):
        return {'k': 'val', 'type': t, 'value': v}

    def apply_(fn, *args):
        return {'k': 'apply', 'fn': F1 + fn, 'args': list(args)}

    conds = [('none', None)]
    conds += [('probe ' + n, probe(n)) for n in sorted(model.PROBES)]
    conds += [('raise ' + k, probe('raise:' + k)) for k in kinds]
    conds += [
        ('bag of string', apply_('string-bag', val('string', 'true'))),
        ('bag of true', apply_('boolean-bag', val('boolean', True))),
        ('bag of false', apply_('boolean-bag', val('boolean', False))),
        ('empty bag', apply_('boolean-bag')),
        ('one true', apply_('boolean-one-and-only', apply_(
            'boolean-bag', val('boolean', True)))),
        ('one false', apply_('boolean-one-and-only', apply_(
            'boolean-bag', val('boolean', False)))),
        ('one of request', apply_('boolean-one-and-only',
                                  desig('boolean', id='f'))),
        ('one of none', apply_('boolean-one-and-only',
                               desig('boolean', id='gone'))),
        ('one string', apply_('string-one-and-only', apply_(
            'string-bag', val('string', 'x')))),
        ('one integer', apply_('integer-one-and-only', apply_(
            'integer-bag', val('integer', 1)))),
        ('one of two', apply_('string-one-and-only', desig())),
        ('concat', {'k': 'apply', 'fn': gen.F2 + 'string-concatenate',
                    'args': [val('string', 'tr'), val('string', 'ue')]}),
        ('equal', apply_('string-equal', val('string', 'a'),
                         val('string', 'a'))),
        ('unequal', apply_('string-equal', val('string', 'a'),
                           val('string', 'b'))),
        ('equal types', apply_('string-equal', val('string', 'a'),
                               val('anyURI', 'a'))),
        ('equal one', apply_('string-equal', val('string', 'a'))),
        ('not false', apply_('not', probe('false'))),
        ('not true', apply_('not', probe('true'))),
        ('not raise', apply_('not', probe('raise'))),
        ('not none', apply_('not', probe('none'))),
        ('not int0', apply_('not', probe('int0'))),
        ('not emptybag', apply_('not', probe('emptybag'))),
        ('not emptystr', apply_('not', probe('emptystr'))),
        ('and empty', apply_('and')),
        ('and tf', apply_('and', probe('true'), probe('false'))),
        ('and tt', apply_('and', probe('true'), probe('true'))),
        ('and tr', apply_('and', probe('true'), probe('raise'))),
        ('and rt', apply_('and', probe('raise'), probe('true'))),
        ('and t1', apply_('and', probe('true'), probe('int1'))),
        ('regexp', apply_('string-regexp-match', val('string', '('),
                          val('string', '('))),
        ('mbp', apply_('string-one-and-only', desig(id='gone', mbp=True))),
        ('alomo', apply_('string-at-least-one-member-of', desig(), apply_(
            'string-bag', val('string', 'w')))),
        ('alomo none', apply_('string-at-least-one-member-of', desig(),
                              apply_('string-bag', val('string', 'z')))),
        ('alomo mbp', apply_('string-at-least-one-member-of', desig(
            id='gone', mbp=True), apply_('string-bag', val('string', 'w')))),
    ]
    # only through the API: the expression of a condition may be anything
    api_conds = [('true', val('boolean', True)), ('false', val('boolean',
                                                               False)),
                 ('text', val('string', 'true')), ('number', val('integer',
                                                                 1)),
                 ('zero', val('integer', 0)), ('empty', val('string', '')),
                 ('bag', desig()), ('flag', desig('boolean', id='f')),
                 ('none', desig(id='gone')),
                 ('missing', desig(id='gone', mbp=True))]

    def m(fn, v, **kw):
        return {'fn': fn, 'value': {'type': 'string', 'value': v},
                'src': desig(**kw)}
    EQ = F1 + 'string-equal'
    yes, no = m(EQ, 'v'), m(EQ, 'V')
    err, mbp = m(PROBE + 'raise', 'v'), m(EQ, 'v', id='gone', mbp=True)
    text, typ = m(PROBE + 'str', 'v'), m(F1 + 'integer-equal', 'v')
    targets = [('none', None), ('empty', {}), ('sections', {
        'subjects': [], 'actions': []}),
        ('yes', {'subjects': [[yes]]}), ('no', {'subjects': [[no]]}),
        ('err', {'subjects': [[err]]}), ('mbp', {'subjects': [[mbp]]}),
        ('text', {'subjects': [[text]]}), ('type', {'subjects': [[typ]]}),
        ('or', {'subjects': [[no], [yes]]}),
        ('or no', {'subjects': [[no], [no]]}),
        ('and', {'subjects': [[yes, no]]}),
        ('and yes', {'subjects': [[yes, yes]]}),
        ('or and', {'subjects': [[yes, no], [no, yes], [yes, yes]]}),
        ('gone', {'subjects': [[m(EQ, 'v', id='gone')]]}),
        ('two', {'subjects': [[yes]], 'resources': [[dict(
            yes, src=desig(cat='Resource'))]]}),
        ('two no', {'subjects': [[yes]], 'resources': [[dict(
            no, src=desig(cat='Resource'))]]}),
        ('env', {'environments': [[dict(yes, src=desig(
            cat='Environment'))]]}),
        ('four', {'subjects': [[yes]], 'resources': [[dict(
            yes, src=desig(cat='Resource'))]], 'actions': [[dict(
                yes, src=desig(cat='Action'))]]}),
    ]

    def build(r, xml):
        p = {'k': 'Policy', 'id': 'p', 'alg': 'first-applicable',
             'target': None, 'rules': [r]}
        return p, (sut.load(sut.text(p)) if xml else (
            sut.api_derived if len(repr(r)) % 3 == 0 else sut.api_policy)(p))

    matrix = [(t, c, e, 'xml') for t, c, e in itertools.product(
        targets, conds, (P, D))]
    matrix += [(t, c, e, 'api') for t, c, e in itertools.product(
        targets, conds + api_conds, (P, D))]

    def cells(rng, i):
        n = max(1, len(matrix) // BLOCKS)
        for (tn, t), (cn, c), e, how in matrix[i::BLOCKS]:
            r = {'id': 'r', 'effect': e, 'target': t, 'cond': c}
            p, o = build(r, how == 'xml')
            detail = lambda: mon.show([tn, cn, e, how, r])     # noqa
            got = mon.judge_rule(ctx, r, o.rules[0], mreq0, req0, detail)
            ctx.check(sut.decide(sut.PDP(o), req0) == got, 'decision of the '
                      'policy with that rule only', detail)
            ctx.count('matrix')
            if 'raise' in cn or 'err' in tn:
                ctx.count('errors')
            ctx.seen(tn, cn, e, how, got)

    def general(rng, i):
        w = gen.World(rng, errors=rng.choice([0, .05, .2]),
                      probes=rng.random() < .6)
        for _ in range(3):
            mreq = w.request(pip=.15)
            req = sut.request(mreq)
            for _ in range(3):
                r = w.rule(mreq, 0, depth=rng.randint(0, 3))
                xml = rng.random() < .6
                p, o = build(r, xml)
                detail = lambda: mon.describe(p, mreq)     # noqa
                got = mon.judge_rule(ctx, r, o.rules[0], mreq, req, detail)
                ctx.check(sut.decide(o.rules[0], req) == got, 'the second '
                          'evaluation differs', detail)
                ctx.seen('general', mon.expr_sig(r['cond']), got)
                ctx.sample({'rule': str(r)[:600], 'decision': got})

    def history(rng, i):
        """Parts of one rule replaced between evaluations"""
        r = {'id': 'r', 'effect': rng.choice([P, D]), 'target': rng.choice(
            targets)[1], 'cond': rng.choice(conds)[1]}
        p, o = build(r, rng.random() < .5)
        rule = o.rules[0]
        w = gen.World(rng, probes=False)
        reqs = [(mreq0, req0)]
        for _ in range(2):
            x = w.request()
            reqs.append((x, sut.request(x)))
        trace = []
        for step in range(10):
            k = rng.randint(0, 5)
            if k == 0:
                r['effect'] = rng.choice([P, D])
                how = rng.randint(0, 2)
                if how == 0:
                    rule.effect = {P: sut.Effect.PERMIT,
                                   D: sut.Effect.DENY}[r['effect']]
                elif how == 1:
                    rule.effect = sut.Effect(r['effect'])
                else:
                    rule.effect = sut.Effect()
                    rule.effect.value = r['effect']
            elif k == 1:
                n, t = rng.choice(targets[1:])
                r['target'] = t
                rule.target = sut.api_target(t)
            elif k == 2:
                n, c = rng.choice((conds + api_conds)[1:])
                r['cond'] = c
                x = Condition()
                x.expression = sut.api_expr(c)
                rule.condition = x
            elif k == 3 and rule.condition is not None:
                n, c = rng.choice((conds + api_conds)[1:])
                r['cond'] = c
                rule.condition.expression = sut.api_expr(c)
            elif k == 4:
                for bad in (None, 'Permit', r, rule):
                    for name in ('target', 'condition', 'effect'):
                        try:
                            setattr(rule, name, bad)
                        except (TypeError, AttributeError):
                            continue
                        ctx.fail('%s set to %r' % (name, bad))
            mreq, req = rng.choice(reqs)
            trace.append((k, str(r)[:300]))
            mon.judge_rule(ctx, r, rule, mreq, req, lambda: mon.show(trace))
            ctx.count('history')
            ctx.seen('history', k)

    def incomplete(rng, i):
        """Rules and conditions with parts never set never apply"""
        rule = sut.Rule()
        rule.id = 'r'
        k = i % 4
        if k == 0:
            want = {I}
        elif k == 1:
            rule.effect = sut.Effect.PERMIT
            rule.condition = Condition()
            want = {I}
        elif k == 2:
            rule.condition = Condition()
            rule.condition.expression = sut.api_value(
                {'type': 'boolean', 'value': False})
            want = {I, N}
        else:
            rule.effect = rng.choice([sut.Effect.PERMIT, sut.Effect.DENY])
            rule.target = Target()
            want = {rule.effect.value}
        got = sut.decide(rule, req0)
        ctx.check(got in want, lambda: 'incomplete rule (%d) gives %r' % (
            k, got))
        ctx.count('incomplete')
        ctx.seen('incomplete', k, got)

    ctx.group('matrix', BLOCKS, BLOCKS, cells)
    ctx.group('general', 3200, 19200, general)
    ctx.group('history', 3200, 19200, history)
    ctx.group('incomplete', 160, 960, incomplete)


BLOCKS = 64
