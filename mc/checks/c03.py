"""C03: authorization responses are bound to a live session, its issuer and this client."""
import json

from .. import similar
from ..core import Part, product
from ..world import *

ALLRT = ['code', 'id_token', 'id_token token', 'code id_token', 'code token', 'code id_token token']
STATES = ['own', 'own2', 'other_op', 'cleared', 'unknown', 'missing', 'empty', 'nonce', 'nonce_key', 'ref_key',
          'logout_state', 'logout_key', 'sub', 'padded', 'upper', 'issuer']
ATTR = ['op1', 'op2', 'nobody', 'op1/']
ISSP = ['absent', 'own', 'other', 'slash', 'unknown']
CIDP = ['absent', 'own', 'other']
AUDP = ['absent', 'own', 'own_list', 'both', 'other', 'other_list']
KIND = ['ok', 'error', 'no_code', 'no_idt', 'error_too']


def direct(ctx, case, s, client, issuer, resp, before, live):
    """the application picks the client itself, and states the issuer"""
    rt, st, attr, issp, cidp, audp, kind = case[1:]
    h = s.h
    n = len(s.w.log)
    ok, res = attempt(h.finalize_auth, client, issuer, dict(resp))
    after = [snapshot(s.client(op)) for op in s.ops]
    sent = [r for r in s.w.log[n:] if r.endpoint in ('token', 'userinfo')]
    ctx.step(9)
    label = ('error' if ok and 'error' in res else 'accepted') if ok else type(res).__name__
    ctx.outcome(case[0] + '/' + kind + '/' + label)
    ctx.state(case + (label,))
    ctx.check(not sent, 'request-sent', repr(sent))
    same = issp in ('absent', 'own') and cidp in ('absent', 'own') and audp in ('absent', 'own', 'own_list', 'both')
    mine = st in ('own', 'own2') and attr == 'op1' and case[0] == 'client1'
    theirs = st == 'other_op' and attr == 'op2' and case[0] == 'client2'
    if kind.startswith('error'):
        if mine and same:
            ctx.check(ok and res.get('error') == 'access_denied', 'error-not-reported', repr(res))
        elif ok:
            ctx.check('error' in res, 'accepted-error', repr(res))
        ctx.check(after == before, 'stored-after-error', '')
    elif not (mine or theirs) or (mine and not same):
        ctx.check(not ok, 'unqualified-accepted', '%s %r' % (label, case))
        ctx.check(after == before, 'session-changed', repr(case))
    elif mine and st == 'own' and kind == 'ok':
        ctx.check(ok and 'error' not in res, 'qualified-rejected', repr(res))
        ctx.check(after[1] == before[1], 'other-issuer-changed', '')


def run_direct(ctx, case):
    run(ctx, case[1:], case[0], case)


def run(ctx, case, via=None, full=None):
    rt, st, attr, issp, cidp, audp, kind = case
    case = full or case
    s = Setup(2, response_types=list(ALLRT))
    h, op1, op2 = s.h, s.ops[0], s.ops[1]
    done = s.login('carol', op1, req_args={'response_type': rt}, behaviour_args=None)
    lo = h.logout(done['state'])
    gone = s.begin(op1, req_args={'response_type': rt})
    h.finalize(op1.issuer, op1.authorize(gone['url'], 'dave'))
    h.clear_session(gone['state'])
    a = s.begin(op1, req_args={'response_type': rt})
    a2 = s.begin(op1, req_args={'response_type': rt})
    b = s.begin(op2, req_args={'response_type': rt})
    nonce = query(a['url'])['nonce']
    resp = op1.authorize(a['url'], 'alice')
    if kind == 'error':
        resp = {'state': resp['state'], 'error': 'access_denied', 'error_description': 'no'}
    elif kind == 'error_too':
        resp.update(error='access_denied', error_description='no')
    elif kind == 'no_code':
        if 'code' not in resp:
            return
        del resp['code']
    elif kind == 'no_idt':
        if 'id_token' not in resp:
            return
        del resp['id_token']
    own, other = 'rp-client-1', 'rp-client-2'
    state = {'own': a['state'], 'own2': a2['state'], 'other_op': b['state'], 'cleared': gone['state'],
             'unknown': 'x' * 32, 'missing': None, 'empty': '', 'nonce': nonce, 'nonce_key': '__%s__' % nonce,
             'ref_key': 'ref%sref' % a['state'], 'logout_state': query(lo['url'])['state'],
             'logout_key': '::%s::' % query(lo['url'])['state'], 'sub': '==carol==', 'padded': a['state'] + ' ',
             'upper': a['state'].swapcase(), 'issuer': op1.issuer}[st]
    if state is None:
        del resp['state']
    else:
        resp['state'] = state
    if issp != 'absent':
        resp['iss'] = {'own': op1.issuer, 'other': op2.issuer, 'slash': op1.issuer + '/',
                       'unknown': 'https://x.example.net'}[issp]
    if cidp != 'absent':
        resp['client_id'] = {'own': own, 'other': other}[cidp]
    if audp != 'absent':
        resp['aud'] = {'own': own, 'own_list': [own], 'both': [other, own], 'other': other,
                       'other_list': [other]}[audp]
    issuer = {'op1': op1.issuer, 'op2': op2.issuer, 'nobody': 'https://nobody.example.org',
              'op1/': op1.issuer + '/'}[attr]
    before = [snapshot(s.client(op1)), snapshot(s.client(op2))]
    log = len(s.w.log)
    if via:
        return direct(ctx, case, s, s.client({'client1': op1, 'client2': op2}[via]), issuer, resp, before, [a, a2, b])
    ok, res = attempt(h.finalize, issuer, dict(resp))
    sent = [r for r in s.w.log[log:] if r.endpoint in ('token', 'userinfo')]
    after = [snapshot(s.client(op1)), snapshot(s.client(op2))]
    ctx.step(9)
    good = (st in ('own', 'own2') and attr == 'op1' and issp in ('absent', 'own') and cidp in ('absent', 'own')
            and audp in ('absent', 'own', 'own_list', 'both'))
    if st == 'own2' and 'id_token' in rt:
        good = False       # that ID Token carries the nonce of the other session
    label = ('error' if ok and 'error' in res else 'accepted') if ok else type(res).__name__
    ctx.outcome(kind + '/' + label)
    ctx.state((rt, st, attr, issp, cidp, audp, kind, label))
    if kind.startswith('error'):
        if st in ('own', 'own2') and attr == 'op1' and issp in ('absent', 'own') and cidp in ('absent', 'own'):
            ctx.check(ok and res.get('error') == 'access_denied' and res.get('state') == state, 'error-not-reported',
                      res)
        elif ok:
            ctx.check('error' in res, 'accepted-error', res)
        ctx.check(not sent, 'requests-after-error', sent)
        ctx.check(after == before, 'stored-after-error', '')
        for x in (a, a2):
            ok2, tok = attempt(h.get_valid_access_token, x['state'])
            ctx.check(not ok2, 'token-after-error', tok)
        return
    if kind == 'no_code':
        if rt in ('code', 'code id_token'):
            ctx.check(not ok, 'accepted-without-code', res)
            ctx.check(not sent, 'requests-without-code', sent)
            return
    if kind == 'no_idt' and rt in ('id_token', 'id_token token', 'code id_token token'):
        ctx.check(not ok, 'accepted-without-id-token', res)
        return
    if kind in ('no_idt', 'no_code'):
        if not good:
            ctx.check(not ok, 'unqualified-accepted', '%s %r' % (label, case))
        return
    if st == 'other_op' and attr == 'op2':
        # state and issuer agree; only code and ID Token are somebody else's
        if rt != 'code token':
            ctx.check(not ok, 'swapped-response-accepted', res)
        return
    if st == 'own2' and rt == 'code' and good:
        # the code of another session: only the ID Token's nonce can tell
        ctx.check(not ok and after[1] == before[1], 'swapped-code-accepted', res)
        return
    if good:
        ctx.check(ok and 'error' not in res, 'qualified-rejected', res)
        if ok:
            ctx.check(res.get('state') == state, 'wrong-state', res)
            ctx.check(after[1] == before[1], 'other-issuer-changed', '')
    else:
        ctx.check(not ok, 'unqualified-accepted', '%s %r' % (label, case))
        ctx.check(not sent, 'request-sent', '%r' % (sent,))
        ctx.check(after == before, 'session-changed', '')
        # everything still works
        r = h.finalize(op2.issuer, op2.authorize(b['url'], 'bob'))
        ctx.check(r.get('userinfo', {}).get('sub', 'bob') == 'bob' and 'error' not in r, 'other-session-lost', r)
        r = h.finalize(op1.issuer, op1.authorize(a['url'], 'alice'))
        ctx.check('error' not in r and r['state'] == a['state'], 'own-session-lost', r)


def near(dims, t):
    """Vectors with at most t coordinates off the first value."""
    import itertools
    out = []
    for n in range(t + 1):
        for idx in itertools.combinations(range(len(dims)), n):
            for vals in itertools.product(*[dims[i][1:] for i in idx]):
                v = [d[0] for d in dims]
                for i, x in zip(idx, vals):
                    v[i] = x
                out.append(tuple(v))
    return out


def parts(tier):
    dims = [STATES, ATTR, ISSP, CIDP, AUDP, KIND]
    more = [Part('direct', run_direct, [(c, rt) + v for c in ('client1', 'client2') for rt in ALLRT for v in near(dims, 2 if tier == 'quick' else 3)],
                 'all pairs of deviations, the client and the issuer given by the application')]
    if tier == 'quick':
        return more + [similar.part5(tier), Part('pairs', run, [(rt,) + v for rt in ALLRT for v in near(dims, 2)], 'all pairs of deviations')]
    return more + [similar.part5(tier), Part('triples', run, [(rt,) + v for rt in ALLRT for v in near(dims, 3)], 'all triples'),
            Part('full-code', run, [('code',) + v for v in product(*dims)], 'full product for the code flow')]


META = dict(rule='one callback per (flow, state, attributed issuer, iss, client_id, aud, kind)',
            assumptions=['a session counts as live until it is cleared',
                         'substring matches inside a plain-string aud are not judged'])
