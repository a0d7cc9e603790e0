"""Monitors shared by several properties."""
import json

from vp import emit, model, sut
from vp.model import D, I, N, P


def show(obj):
    return json.dumps(obj, default=repr, indent=1, ensure_ascii=True)


def describe(p, req, **kw):
    d = {'policy_xml': sut.text(p).decode('utf-8') if p else None,
         'request': req}
    d.update(kw)
    return show(d)


def real_target(o, req):
    """True / False / 'E' of the target of a loaded rule or policy"""
    if o.target is None:
        return True
    try:
        r = o.target.match(req)
    except Exception:
        return 'E'
    if r is not True and r is not False:
        return ('odd', r)
    return r


def real_cond(o, req):
    if o.condition is None:
        return True
    try:
        r = o.condition.evaluate(req)
    except Exception:
        return 'E'
    r = sut.to_result(r)
    if r[0] == 'b':
        return r[1]
    if r[0] == 'v' and r[1] == 'boolean':
        return r[2]
    return 'E'


def judge_rule(ctx, r, ro, mreq, req, detail):
    """One rule against the reference and against its own parts.
    @return: decision text"""
    got = sut.decide(ro, req)
    want = model.rule(r, mreq)
    ctx.check(got in want, lambda: 'rule %s gives %r, expected %s' % (
        r['id'], got, sorted(want)), detail)
    t = real_target(ro, req)
    mt = model.target(r.get('target'), mreq)
    ctx.check(t in mt, lambda: 'target of rule %s: %r, expected %s' % (
        r['id'], t, mt), detail)
    if t == 'E':
        strict = I
    elif t is False:
        strict = N
    else:
        c = real_cond(ro, req)
        mc = model.cond(r['cond'], mreq) if r.get('cond') else {True}
        ctx.check(c in mc, lambda: 'condition of rule %s: %r, expected %s' % (
            r['id'], c, mc), detail)
        strict = I if c == 'E' else r['effect'] if c else N
        ctx.count('condition.%s' % c)
    ctx.check(got == strict, lambda: 'rule %s gives %r although its target '
              'and condition call for %r' % (r['id'], got, strict), detail)
    ctx.count('rule.' + got)
    return got


def judge_policy(ctx, p, o, mreq, req, detail, index=None, seen=None):
    """A loaded policy or policy set, and everything in it, against the
    reference; every level also strictly against its own children.
    @return: decision text"""
    if p['k'] in ('PolicyRef', 'PolicySetRef'):
        p = index[(p['k'][:-3], p['ref'])]
    if p['k'] == 'Policy':
        ctx.check(len(o.rules) == len(p['rules']), 'rules lost on load',
                  detail)
        kids = [(judge_rule(ctx, r, ro, mreq, req, detail), r['effect'])
                for r, ro in zip(p['rules'], o.rules)]
        strict = model.rule_combine_seq(p['alg'], kids)
    else:
        ctx.check(len(o.policies) == len(p['children']),
                  'policies lost on load', detail)
        kids = [judge_policy(ctx, c, co, mreq, req, detail, index)
                for c, co in zip(p['children'], o.policies)]
        strict = model.policy_combine_seq(p['alg'], kids)
    t = real_target(o, req)
    mt = model.target(p.get('target'), mreq)
    ctx.check(t in mt, lambda: 'target of %s %s: %r, expected %s' % (
        p['k'], p['id'], t, mt), detail)
    if t == 'E':
        strict = I
    elif t is False:
        strict = N
    got = sut.decide(o, req)
    ctx.check(got == strict, lambda: '%s %s (%s) gives %r, its target (%s) '
              'and children %s call for %r' % (p['k'], p['id'], p['alg'], got,
                                               t, kids, strict), detail)
    ctx.count('%s.%s' % (p['k'], got))
    ctx.count('alg.%s.%s' % (p['k'], p['alg']))
    return got


def signature(p, index=None):
    """Shape of a policy, for counting distinct cases"""
    if p['k'] in ('PolicyRef', 'PolicySetRef'):
        return (p['k'],)
    t = p.get('target')
    ts = None if not t else tuple(
        tuple(len(c) for c in t.get(s) or ()) for s in model.SECTIONS)
    if p['k'] == 'Policy':
        return ('P', p['alg'], ts, tuple(
            (r['effect'], bool(r.get('target')), expr_sig(r.get('cond')))
            for r in p['rules']))
    return ('S', p['alg'], ts, tuple(signature(c) for c in p['children']))


def expr_sig(e):
    if e is None:
        return None
    if e['k'] == 'apply':
        return (e['fn'].split(':')[-1],) + tuple(expr_sig(a)
                                                 for a in e['args'])
    return e['k']
