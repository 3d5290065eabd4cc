"""C11: user info. Enumerates every flow x user-info subject x representation (JSON, JWTs of every signer/algorithm/header
trick, encrypted) x registered algorithm, claim documents over awkward values, and histories of several sessions and
repeated fetches, and compares what is accepted, returned and stored with an independent judge."""
import itertools

from .. import jose
from .. import large, similar
from ..core import Part, product
from ..world import *

SVC = ('discovery', 'registration', 'authorization', 'access_token', 'refresh_access_token', 'userinfo', 'end_session')
FLOWS = [('code', False), ('id_token token', False), ('code id_token', False), ('code id_token token', False),
         ('code id_token token', True), ('code token', True)]
SUBS = ['same', 'other', 'missing', 'empty', 'case', 'space', 'prefix', 'nul', 'int', 'list', 'list2', 'null', 'dict', 'true']
CP = 'https://claims.example.net'


def sub_value(kind):
    return {'same': 'alice', 'other': 'mallory', 'empty': '', 'case': 'Alice', 'space': 'alice ', 'prefix': 'alic',
            'nul': 'alice\x00', 'int': 7, 'list': ['alice'], 'list2': ['alice', 'mallory'], 'null': None,
            'dict': {'alice': 1}, 'true': True}[kind]


def encrypted(payload, cty='JWT', owner='rp'):
    from cryptojwt.jwe.jwe import JWE
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    key = key_from_jwk_dict(jose.public(jose.jwk(owner, 'RSA', 'enc')))
    kw = {'cty': cty} if cty else {}
    return JWE(payload, alg='RSA-OAEP', enc='A128CBC-HS256', **kw).encrypt([key])


# representation -> (good signature?, algorithm)
REPS = {
    'json': ('plain', None), 'json-charset': ('plain', None), 'json-notype': ('plain', None), 'json-text': ('odd', None),
    'RS256': ('good', 'RS256'), 'ES256': ('good', 'ES256'), 'noiss': ('odd', 'RS256'), 'mistagged': ('odd', 'RS256'),
    'jose': ('odd', 'RS256'), 'badaud': ('odd', 'RS256'), 'nokid': ('odd', 'RS256'),
    'otherkey': ('bad', 'RS256'), 'otherkey-kid': ('bad', 'RS256'), 'otherkey-nokid': ('bad', 'RS256'),
    'otheriss': ('bad', 'RS256'), 'cp': ('bad', 'RS256'), 'cp-asop': ('bad', 'RS256'), 'rpkey': ('bad', 'RS256'),
    'none': ('bad', 'none'), 'None': ('bad', 'None'), 'none-mistagged': ('bad', 'none'), 'none-jose': ('bad', 'none'),
    'tampered': ('bad', 'RS256'), 'stripped': ('bad', 'RS256'),
    'jwk': ('bad', 'RS256'), 'jwk-unknown-kid': ('bad', 'RS256'), 'jwk-unknown-iss': ('bad', 'RS256'),
    'jwk-noiss': ('bad', 'RS256'), 'jku': ('bad', 'RS256'), 'hs-pub': ('bad', 'HS256'),
    'enc-signed': ('good', 'RS256'), 'enc-badsig': ('bad', 'RS256'), 'enc-none': ('bad', 'none'),
    'enc-other': ('bad', 'RS256'),
}


def represent(kind, claims, op, cl):
    claims = dict(claims)
    if kind == 'json':
        return jresp(claims)
    if kind == 'json-charset':
        return jresp(claims, ctype='application/json; charset=utf-8')
    if kind == 'json-notype':
        return Resp(200, json.dumps(claims), {})
    if kind == 'json-text':
        return jresp(claims, ctype='text/plain')
    j = dict(claims, iss=op.issuer, aud=[cl['client_id']])
    ctype = 'application/jwt'
    own = op.keys
    evil = jose.public(jose.jwk('evil', 'RSA'))
    if kind in ('RS256', 'ES256'):
        body = jose.sign(j, kind, owner=own)
    elif kind == 'noiss':
        j.pop('iss')
        body = jose.sign(j, 'RS256', owner=own)
    elif kind == 'nokid':
        body = jose.sign(j, 'RS256', owner=own, kid=None)
    elif kind == 'mistagged':
        body, ctype = jose.sign(j, 'RS256', owner=own), 'application/json'
    elif kind == 'jose':
        body, ctype = jose.sign(j, 'RS256', owner=own), 'application/jose'
    elif kind == 'badaud':
        body = jose.sign(dict(j, aud=['another']), 'RS256', owner=own)
    elif kind == 'otherkey':
        body = jose.sign(j, 'RS256', owner='evil')
    elif kind == 'otherkey-kid':
        body = jose.sign(j, 'RS256', owner='evil', kid=jose.jwk(own, 'RSA')['kid'])
    elif kind == 'otherkey-nokid':
        body = jose.sign(j, 'RS256', owner='evil', kid=None)
    elif kind == 'otheriss':
        body = jose.sign(dict(j, iss='https://evil.example.com'), 'RS256', owner='evil')
    elif kind == 'cp':          # a claims provider whose keys the RP happens to hold
        body = jose.sign(dict(j, iss=CP), 'RS256', owner='src')
    elif kind == 'cp-asop':
        body = jose.sign(j, 'RS256', owner='src')
    elif kind == 'rpkey':
        body = jose.sign(dict(j, iss=cl['client_id']), 'RS256', owner='rp')
    elif kind == 'none':
        body = jose.sign(j, 'none')
    elif kind == 'None':
        body = jose.b64e(json.dumps({'alg': 'None'})) + '.' + jose.b64e(json.dumps(j)) + '.'
    elif kind == 'none-mistagged':
        body, ctype = jose.sign(j, 'none'), 'application/json'
    elif kind == 'none-jose':
        body, ctype = jose.sign(j, 'none'), 'application/jose'
    elif kind == 'tampered':
        h, p, s = jose.sign(dict(j, name='x'), 'RS256', owner=own).split('.')
        body = '.'.join([h, jose.b64e(json.dumps(j)), s])
    elif kind == 'stripped':
        h, p, s = jose.sign(j, 'RS256', owner=own).split('.')
        body = '.'.join([h, p, ''])
    elif kind == 'jwk':
        body = jose.sign(j, 'RS256', owner='evil', extra={'jwk': evil})
    elif kind == 'jwk-unknown-kid':
        body = jose.sign(j, 'RS256', owner='evil', kid='made-up', extra={'jwk': dict(evil, kid='made-up')})
    elif kind == 'jwk-unknown-iss':
        body = jose.sign(dict(j, iss='https://evil.example.com'), 'RS256', owner='evil', extra={'jwk': evil})
    elif kind == 'jwk-noiss':
        j.pop('iss')
        body = jose.sign(j, 'RS256', owner='evil', extra={'jwk': evil})
    elif kind == 'jku':
        body = jose.sign(j, 'RS256', owner='evil', extra={'jku': 'https://evil.example.com/jwks.json'})
    elif kind == 'hs-pub':
        body = jose.sign(j, 'HS256', secret=json.dumps(jose.public(jose.jwk(own, 'RSA'))))
    elif kind == 'enc-signed':
        body = encrypted(jose.sign(j, 'RS256', owner=own))
    elif kind == 'enc-badsig':
        body = encrypted(jose.sign(j, 'RS256', owner='evil', kid=jose.jwk(own, 'RSA')['kid']))
    elif kind == 'enc-none':
        body = encrypted(jose.sign(j, 'none'))
    elif kind == 'enc-other':
        body = encrypted(jose.sign(j, 'RS256', owner=own), owner='evil')
    return Resp(200, body, {'content-type': ctype})


def make(flows=None, beh=None, **kw):
    b = dict(beh or {})
    return Setup(1, response_types=sorted({f for f, _ in flows or FLOWS}), svcs=services(*SVC), behaviour=b, **kw)


def expect(subkind, rep, reg, has_idt=True):
    """True / False / None (either)"""
    qual, alg = REPS[rep]
    if qual == 'bad':
        return False
    if reg and alg and alg != reg:
        return False
    if subkind != 'same':
        return None if subkind == 'list' or not has_idt else False
    if qual == 'odd' or (reg and qual == 'plain'):
        return None
    return True


def stored(s, state):
    st = json.loads(s.client().client_get('service_context').state.dump()['_db'][state])
    return st.get('user_info')


def judge(ctx, s, state, ok, res, want, doc, before, label):
    """doc: the claims the OP sent; before: what was stored before."""
    if want is True:
        ctx.check(ok, 'good-userinfo-refused:' + label, repr(res))
    elif want is False:
        ctx.check(not ok, 'bad-userinfo-accepted:' + label, repr(plain(res)))
    st = stored(s, state)
    if not ok:
        ctx.check(st == before, 'rejected-but-stored:' + label, '%r -> %r' % (before, st))
    else:
        got = {k: v for k, v in plain(res).items() if k not in ('iss', 'aud')}
        exp = dict(doc)
        if exp.get('sub') == ['alice']:
            exp['sub'] = got.get('sub')
        ctx.check(got == exp, 'claims-changed:' + label, '%r sent, %r returned' % (exp, got))
        sv = json.loads(st) if isinstance(st, str) else st
        sv = {k: v for k, v in (sv or {}).items() if k not in ('iss', 'aud')}
        ctx.check(sv == exp, 'stored-claims-differ:' + label, '%r sent, %r stored' % (exp, sv))
    ctx.outcome((want, ok, type(res).__name__ if not ok else ''))


def doc_for(subkind):
    d = {'name': 'Näme "x"', 'email': 'alice@op1.example.org', 'groups': ['a', 'b']}
    if subkind != 'missing':
        d['sub'] = sub_value(subkind)
    return d


def case_matrix(ctx, case):
    flow, collect, subkind, rep, reg, how = case
    s = make(beh={'userinfo_signed_response_alg': reg} if reg else {})
    doc = doc_for(subkind)
    op = s.op
    op.hook['userinfo'] = lambda c, t: represent(rep, doc, op, op.clients['rp-client-1'])
    s.w.static['https://evil.example.com/jwks.json'] = jresp(jose.jwks('evil'))
    h = s.h
    b = h.begin(op.issuer, req_args={'response_type': flow})
    cl = s.client()
    cl.client_get('service_context').keyjar.import_jwks(jose.jwks('src'), CP)
    cl.client_get('service_context').keyjar.import_jwks(jose.jwks('rp'), 'rp-client-1')
    resp = op.authorize(b['url'], 'alice')
    state = b['state']
    if how == 'finalize':
        ok, res = attempt(h.finalize, op.issuer, resp, {'collect_tokens': True} if collect else None)
        tok = None
        if ok and 'error' in res:
            ok, res = False, res['error']
        if ok:
            tok, res = res['token'], res['userinfo']
    else:
        ar = h.finalize_auth(cl, op.issuer, resp)
        t = h.get_access_and_id_token(ar, state=state, client=cl, behaviour_args={'collect_tokens': True} if collect else None)
        tok = t['access_token']
        ok, res = attempt(h.get_user_info, state, **({'access_token': tok} if how == 'explicit' else {}))
    has_idt = flow != 'code token' or collect
    judge(ctx, s, state, ok, res, expect(subkind, rep, reg, has_idt), doc, None, rep if REPS[rep][0] != 'plain' else subkind)
    reqs = s.w.to('userinfo')
    ctx.check(len(reqs) == 1, 'userinfo-requests', repr(reqs))
    # the token(s) of this session
    own = set(op.tokens)
    for r in reqs:
        a = r.headers.get('authorization', '')
        ctx.check(a[7:] in own and a.startswith('Bearer '), 'wrong-token', a)
        if tok:
            ctx.check(a == 'Bearer ' + tok, 'not-the-session-token', '%s instead of %s' % (a, tok))
    if not ok and how == 'finalize':
        ctx.check('mallory' not in json.dumps(snapshot(cl)), 'foreign-subject-in-store', '')
    ctx.state((flow, collect, subkind, rep, reg, ok))
    ctx.step(4)


VALS = ['x', 'Zoë "q" \\ \n', '0', 'a' * 300, '\U0001f600']
CLAIMDOCS = [{c: v} for c in ('name', 'given_name', 'nickname', 'email', 'locale', 'custom', 'https://x.example/c', 'name#ja')
             for v in VALS] + \
    [{'email_verified': v} for v in (True, False)] + [{'phone_number_verified': True}] + \
    [{'updated_at': v} for v in (0, 1, 1700000000, -5)] + \
    [{'address': v} for v in ({'formatted': 'A\nB'}, {'country': 'SE', 'locality': 'Umeå'}, {'x': 'y'})] + \
    [{'birthdate': v} for v in ('2000-01-31', '2000', '0000-12-24')] + \
    [{'custom': v} for v in (0, 1, False, True, 1.5, [1, 'a', {'b': None}], {'a': {'b': ['c']}}, [[]], {})] + \
    [{'groups': ['a']}, {'groups': []}, {'error_code': 'x'}, {'state': 'zz'}, {'nonce': 'n'}, {'id_token': 'x'},
     {'access_token': 'zz', 'expires_in': 5}, {'exp': 5, 'iat': 3}, {'__verified_id_token': {'sub': 'mallory'}},
     {'amr': ['pwd', 'otp'], 'acr': '2'}]


def case_claims(ctx, case):
    i, rep = case
    doc = dict(CLAIMDOCS[i], sub='alice')
    s = make()
    s.op.hook['userinfo'] = lambda c, t: represent(rep, doc, s.op, s.op.clients['rp-client-1'])
    b = s.begin()
    resp = s.op.authorize(b['url'], 'alice')
    ok, res = attempt(s.h.finalize, s.op.issuer, resp)
    token = list(s.op.tokens)[-1]
    judge(ctx, s, b['state'], ok, res['userinfo'] if ok else res, True, doc, None, 'claims %r' % sorted(doc))
    ctx.state((i, rep))
    ctx.step()
    # nothing in the document may change what the session knows
    st = s.h.get_valid_access_token(b['state'])
    ctx.check(st[0] == token, 'token-changed', repr(st))
    ctx.check(s.h.has_active_authentication(b['state']), 'authentication-lost', '')
    s.op.hook['userinfo'] = lambda c, t: {'sub': 'mallory'}
    ok, res = attempt(s.h.get_user_info, b['state'])
    judge(ctx, s, b['state'], ok, res, False, {}, stored(s, b['state']), 'second')


def case_from_id_token(ctx, case):
    """Where there is no user info to fetch the claims of the ID Token are what the application gets."""
    i, flow, why = case
    svcs = services(*[x for x in SVC if x != 'userinfo']) if why == 'no-service' else services(*SVC)
    s = Setup(1, response_types=[flow], svcs=svcs)
    doc = dict(CLAIMDOCS[i])
    protocol = ('iss', 'sub', 'aud', 'exp', 'iat', 'nonce', 'at_hash', 'c_hash', 'azp', 'auth_time', 'acr', 'amr', '__verified_id_token')
    extra = {k: v for k, v in doc.items() if k not in protocol and v not in ('', [], {}, None)}
    s.op.hook['claims'] = lambda c, where, grant: dict(extra, **c)
    b = s.begin()
    ok, res = attempt(s.h.finalize, s.op.issuer, s.op.authorize(b['url'], 'alice'))
    ctx.step()
    ctx.state(case)
    if not ok:
        ctx.check(not acceptable_in_id_token(extra), 'login-refused', repr(res))
        return
    if why != 'no-service' and flow != 'id_token':
        return
    got = plain(res['userinfo'])
    ctx.check(got.get('sub') == 'alice', 'wrong-subject', repr(got))
    for k, v in extra.items():
        ctx.check(k in got and got[k] == v and type(got[k]) is type(v), 'claim-lost', '%s: %r instead of %r' % (k, got.get(k), v))
    for k in got:
        ctx.check(k in extra or k in protocol or k == 'sid', 'claim-made-up', '%s: %r' % (k, got[k]))
    ctx.outcome(sorted(got))


def acceptable_in_id_token(extra):
    return not any(k in ('email_verified', 'birthdate', 'updated_at', 'address', 'phone_number_verified') for k in extra)


SEQ = ['same', 'other', 'missing', '401', '500', 'RS256', 'otherkey', 'refresh']


def case_history(ctx, case):
    """Repeated fetches for two sessions of two users; the same user info endpoint answers for whichever is asked."""
    flow, collect, ops = case
    s = make()
    s.op.issue_rt = True
    answer = {}

    def ui(c, t):
        k = answer['kind']
        d = {'sub': t['sub'], 'n': answer['n']}
        if k in ('other',):
            d['sub'] = {'alice': 'bob', 'bob': 'alice'}[t['sub']]
        if k == 'missing':
            d.pop('sub')
        if k == '401':
            return jresp({'error': 'invalid_token'}, 401)
        if k == '500':
            return Resp(500, 'x', {'content-type': 'text/plain'})
        answer['doc'] = d
        return represent(k if k in REPS else 'json', d, s.op, s.op.clients['rp-client-1'])
    s.op.hook['userinfo'] = ui
    state, tok, last = {}, {}, {}
    for u in ('alice', 'bob'):
        answer.update(kind='same', n='login')
        b = s.h.begin(s.op.issuer, req_args={'response_type': flow})
        r = s.h.finalize(s.op.issuer, s.op.authorize(b['url'], u), {'collect_tokens': True} if collect else None)
        state[u], tok[u] = b['state'], r['token']
        last[u] = stored(s, b['state'])
        ctx.check(r['userinfo']['sub'] == u, 'wrong-user', repr(r))
    for n, (u, k) in enumerate(ops):
        answer.update(kind=k, n=str(n))
        if k == 'refresh':
            ok, res = attempt(s.h.refresh_access_token, state[u])
            if 'code' in flow and not (flow == 'code id_token token' and not collect):
                ctx.check(ok, 'refresh-failed', repr(res))
                tok[u] = s.h.get_valid_access_token(state[u])[0]
            continue
        log = len(s.w.log)
        ok, res = attempt(s.h.get_user_info, state[u])
        auth = [r.headers.get('authorization') for r in s.w.log[log:] if r.endpoint == 'userinfo']
        ctx.check(auth == ['Bearer ' + tok[u]], 'not-the-session-token', '%r instead of %r' % (auth, tok[u]))
        judge(ctx, s, state[u], ok, res, k in ('same', 'RS256'), answer.get('doc', {}), last[u], 'history-' + k)
        last[u] = stored(s, state[u])
        v = 'bob' if u == 'alice' else 'alice'
        ctx.check(stored(s, state[v]) == last[v], 'other-session-changed', '')
        ctx.step()
    ctx.state((flow, collect, tuple(sorted((u, str(x)) for u, x in last.items()))))


def parts(tier):
    q = tier == 'quick'
    hows = ['finalize', 'implicit', 'explicit']
    m = [(f, c, sk, rep, reg, how) for f, c in FLOWS for sk in SUBS for rep in REPS for reg in (None, 'RS256', 'ES256')
         for how in hows
         if not q or (rep in ('json', 'RS256') and reg is None) or (sk in ('same', 'other') and how == 'finalize'
                                                                  and (f in ('code', 'id_token token') or reg is None))
         or (sk == 'same' and f == 'code' and reg is None)]
    ops = [(u, k) for u in ('alice', 'bob') for k in SEQ]
    depth = 2 if q else 3
    hist = [(f, c, h) for f, c in FLOWS[:5 if not q else 3] for h in itertools.product(ops, repeat=depth)]
    out = [Part('matrix', case_matrix, m, 'flow x subject x representation x registered algorithm x call'),
           Part('claims', case_claims, product(range(len(CLAIMDOCS)), ['json', 'RS256']), 'claim documents'),
           Part('history', case_history, hist, 'repeated fetches by two sessions', 'depth %d' % depth)]
    out.append(Part('from-id-token', case_from_id_token, product(range(len(CLAIMDOCS)), ['code', 'id_token', 'code id_token'], ['no-service', 'no-token']), 'claim documents in ID Tokens'))
    return out + [similar.part4(tier, ('userinfo',)), similar.part(tier, ('userinfo',)), large.part(tier, ('userinfo',))]


META = dict(rule='distinct (flow, subject kind, representation, registered algorithm, verdict)')
