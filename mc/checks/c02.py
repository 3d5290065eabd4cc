"""C02: nonce binding between the ID Token and the session, for every pair of sessions."""
import json

from .. import env, jose
from .. import large, similar
from ..core import Part
from ..world import *

FLOWS = {'code': 'token', 'id_token': 'front', 'id_token token': 'front', 'code id_token': 'both',
         'code id_token token': 'front', 'code token': 'none'}
ALLRT = ['code', 'id_token', 'id_token token', 'code id_token', 'code id_token token']
NONCE = ['own', 'missing', 'empty', 'state', 'b', 'b_state', 'old', 'upper', 'space', 'prefix', 'extended', 'list',
         'captured', 'captured_old', 'unknown']
STAGE = ['begun', 'front', 'done', 'cleared']


def run(ctx, case):
    rt_a, where, rt_b, stage, user_b, given, variant = case
    s = Setup(1, response_types=list(ALLRT), issue_rt=False) if False else Setup(1, response_types=list(ALLRT))
    h, op = s.h, s.op
    # an older, finished session of the same user
    old = s.begin(req_args={'response_type': rt_a})
    rec = {'tokens': {}}

    def sign(c, w, grant):
        t = jose.sign(c, 'RS256', owner='op1')
        rec['tokens'].setdefault(grant['state'], {})[w] = t
        return t
    op.hook['sign'] = sign
    old_nonce = query(old['url'])['nonce']
    h.finalize(op.issuer, op.authorize(old['url'], 'alice'))
    # the other session
    b = s.begin(req_args={'response_type': rt_b})
    b_nonce = query(b['url'])['nonce']
    b_resp = b_res = None
    if stage in ('front', 'done', 'cleared'):
        b_resp = op.authorize(b['url'], user_b)
        if stage in ('done', 'cleared'):
            b_res = h.finalize(op.issuer, b_resp)
        if stage == 'cleared':
            h.clear_session(b['state'])
    # the session under attack
    args = {'response_type': rt_a}
    if given:
        args['nonce'] = 'nonce-given-by-the-application'
    a = s.begin(req_args=args)
    a_nonce = query(a['url'])['nonce']
    if given:
        ctx.check(a_nonce == args['nonce'], 'given-nonce-not-sent', a_nonce)
    deliver = {}

    def claims(c, w, grant):
        if grant['state'] != a['state'] or w != where:
            return c
        c = dict(c)
        val = {'own': a_nonce, 'empty': '', 'state': a['state'], 'b': b_nonce, 'b_state': b['state'],
               'old': old_nonce, 'upper': a_nonce.swapcase(), 'space': a_nonce + ' ', 'prefix': a_nonce[:-1],
               'extended': a_nonce + a_nonce[0], 'list': [a_nonce], 'unknown': 'never-used-nonce-value'}.get(variant)
        if val is None:
            c.pop('nonce', None)
        else:
            c['nonce'] = val
        return c

    def sign2(c, w, grant):
        if grant['state'] == a['state'] and w == where:
            cap = {'captured': b['state'], 'captured_old': old['state']}.get(variant)
            if cap:
                toks = rec['tokens'].get(cap, {})
                t = toks.get(where) or toks.get('token') or toks.get('front')
                if t:
                    deliver['tok'] = t
                    return t
                deliver['none'] = True
        deliver['cur'] = jose.sign(c, 'RS256', owner='op1')
        return deliver['cur'] if grant['state'] == a['state'] else sign(c, w, grant)
    op.hook.update(claims=claims, sign=sign2)
    ctx.step(5)
    b_before = None
    if stage != 'cleared':
        b_before = plain(h.get_session_information(b['state']))
    resp = op.authorize(a['url'], 'alice')
    if deliver.get('none'):
        ctx.outcome('nothing-to-capture')
        return
    ok, res = attempt(h.finalize, op.issuer, resp)
    ctx.step()
    label = 'accepted' if ok else type(res).__name__
    ctx.outcome(where + '/' + label)
    ctx.state((rt_a, where, rt_b, stage, variant, given, label))
    if stage != 'cleared':
        ctx.check(plain(h.get_session_information(b['state'])) == b_before, 'other-session-changed', '')
    if variant == 'own':
        ctx.check(ok, 'own-nonce-rejected', res)
        if ok:
            ctx.check(res['id_token']['sub'] == 'alice' and res['state'] == a['state'], 'wrong-result', plain(res))
    else:
        ctx.check(not ok, 'foreign-nonce-accepted:' + variant, '%r' % (case,))
        if not ok:
            store = json.dumps(snapshot(s.client()).get('_db', {}).get(a['state'], ''))
            bad = deliver.get('tok') or deliver.get('cur')
            ctx.check(bad not in store, 'rejected-token-stored', '')
            front_ok = where == 'token' and 'id_token' in rt_a
            active = attempt(h.has_active_authentication, a['state'])
            ctx.check(front_ok or active != (True, True), 'rejected-but-authenticated', '')
    # the other session still works
    op.hook.update(claims=lambda c, w, g: c, sign=lambda c, w, g: None)
    if stage in ('begun', 'front'):
        if b_resp is None:
            b_resp = op.authorize(b['url'], user_b)
        r = h.finalize(op.issuer, b_resp)
        ctx.check(r['state'] == b['state'] and r['userinfo']['sub'] == user_b, 'other-session-lost', plain(r))
    elif stage == 'done':
        ctx.check(h.has_active_authentication(b['state']), 'other-session-lost', '')


#: the other ID Token is about somebody else
SUBJECTS = {'sub': 'mallory', 'longer': 'alice2', 'part': 'lic', 'start': 'a', 'case': 'Alice', 'space': 'alice '}


def same_subject(ctx, case):
    """Two ID Tokens of one login name one subject, iss and sub (OIDC Core 3.3.3.6)."""
    rt, change = case
    s = Setup(1, response_types=[rt])

    def claims(c, w, grant):
        if w == 'token' and change in SUBJECTS:
            return dict(c, sub=SUBJECTS[change])
        if w == 'token' and change == 'more':
            return dict(c, email='alice@example.org')
        return c
    s.op.hook['claims'] = claims
    s.op.hook['userinfo'] = lambda c, t: dict(c, sub=SUBJECTS.get(change, t['sub']))
    b = s.begin()
    ok, res = attempt(s.h.finalize, s.op.issuer, s.op.authorize(b['url'], 'alice'),
                      {'collect_tokens': True} if rt == 'code id_token token' else None)
    ctx.step(2)
    ctx.state((case, ok))
    ctx.outcome('%s/%s' % (change, ok))
    if change in SUBJECTS:
        ctx.check(not ok, 'two-subjects-accepted', rt)
        if not ok:
            ctx.check(not attempt(s.context().state.get_state_by_sub, SUBJECTS[change])[0], 'second-subject-bound', '')
    else:
        ctx.check(ok, 'rejected', res)


def space(stages, flows_b, users=('alice', 'bob')):
    out = []
    for rt_a, w in FLOWS.items():
        for where in {'token': ['token'], 'front': ['front'], 'both': ['front', 'token'], 'none': []}[w]:
            for rt_b in flows_b:
                for stage in stages:
                    for u in users:
                        for given in (False, True):
                            for v in NONCE:
                                out.append((rt_a, where, rt_b, stage, u, given, v))
    return out


def parts(tier):
    fb = ['code', 'code id_token token'] if tier == 'quick' else ALLRT
    return [similar.part(tier, ('front-token', 'nonce-front', 'nonce-token', 'nonce-both')), large.part(tier, ('nonce', 'idt'), ('code', 'code id_token')),
            Part('pairs', run, space(STAGE, fb), 'flow x flow x stage of the other session x user x nonce variant'),
            Part('subjects', same_subject, [(rt, c) for rt in ('code id_token', 'code id_token token')
                                            for c in ('same', 'more', *SUBJECTS)], 'hybrid flows')]


META = dict(rule='one attacked login per (flow, delivery, other flow, stage of other session, user, nonce variant)',
            assumptions=['the signing keys of the OP are not compromised'])
