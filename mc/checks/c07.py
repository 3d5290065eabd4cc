"""C07: back-channel logout. Every single and every pair of deviations of a logout token, as verified by the real
backchannel_logout, against an independent reading of OpenID Connect Back-Channel Logout; and every history of logins of
one or two users in one to three sessions, with every logout token naming one of them."""
from .. import env, jose
from .. import large, similar
from ..core import Part, product
from ..world import *
from ..env import CLOCK

OTHER_EVENT = 'http://schemas.openid.net/event/other'
# deviation axis -> {name: verdict}; verdict True = still acceptable, False = must be refused, None = don't care
AX = {
    'sign': {'ok': True, 'other_key': False, 'other_key_same_kid': False, 'none': False, 'tampered': False, 'stripped': False,
             'hs_with_rsa_public': False, 'hs_secret': False, 'es256': False, 'rs512': False, 'rp_key': False, 'op2': False,
             'nokid': None, 'ps256': False},
    'iss': {'ok': True, 'other': False, 'unknown': False, 'missing': False, 'slash': False, 'upper': False, 'client': False,
            'empty': False},
    'aud': {'ok': True, 'str': True, 'two': True, 'other': False, 'missing': False, 'empty': False, 'prefix': False,
            'issuer': False},
    'iat': {'ok': True, 'past': True, 'future': False, 'far': False, 'missing': False, 'str': None, 'text': False},
    'jti': {'ok': True, 'missing': False},
    'events': {'ok': True, 'missing': False, 'other': False, 'both': False, 'empty': False, 'list': False, 'string': False,
               'true': None, 'members': None},
    'nonce': {'ok': True, 'some': False, 'session': False, 'empty': None},
    'who': {'both': True, 'sub': True, 'sid': True, 'none': False, 'unknown_sub': False, 'unknown_sid': False,
            'unknown_sid_sub': None, 'sid_unknown_sub': None, 'empty_sub': False, 'sid_as_sub': False, 'sub_as_sid': False,
            'nonce_as_sid': False, 'state_as_sid': False},
    'how': {'request': True, 'args': True, 'bytes': True, 'nothing': False, 'twice': None, 'garbage': False,
            'claims_only': False, 'wrong_name': False},
}
DEFAULT = {a: next(iter(v)) for a, v in AX.items()}


def make(s, op, cid, dev, ses, alg):
    d = dict(DEFAULT, **dev)
    now = int(CLOCK.now)
    c = {'iss': op.issuer, 'aud': [cid], 'iat': now, 'jti': op.fresh('jti'), 'events': {EVENT: {}}}
    for k, v in {'other': {'iss': s.ops[1].issuer}, 'unknown': {'iss': 'https://evil.example.net'},
                 'slash': {'iss': op.issuer + '/'}, 'upper': {'iss': op.issuer.replace('op1', 'OP1')},
                 'client': {'iss': cid}, 'empty': {'iss': ''}}.items():
        if d['iss'] == k:
            c.update(v)
    if d['iss'] == 'missing':
        del c['iss']
    aud = {'ok': [cid], 'str': cid, 'two': ['someone', cid], 'other': ['someone'], 'empty': [], 'prefix': [cid[:-1]],
           'issuer': [op.issuer], 'missing': None}[d['aud']]
    c['aud'] = aud
    if aud is None:
        del c['aud']
    iat = {'ok': now, 'past': now - 7000, 'future': now + 100, 'far': now + 10 ** 6, 'str': str(now), 'text': 'now',
           'missing': None}[d['iat']]
    c['iat'] = iat
    if iat is None:
        del c['iat']
    if d['jti'] == 'missing':
        del c['jti']
    ev = {'ok': {EVENT: {}}, 'other': {OTHER_EVENT: {}}, 'both': {EVENT: {}, OTHER_EVENT: {}}, 'empty': {},
          'list': [EVENT], 'string': EVENT, 'true': {EVENT: True}, 'members': {EVENT: {'a': 1}}, 'missing': None}[d['events']]
    c['events'] = ev
    if ev is None:
        del c['events']
    n = {'ok': None, 'some': 'n-0S6_WzA2Mj', 'session': ses['nonce'], 'empty': ''}[d['nonce']]
    if n is not None:
        c['nonce'] = n
    sub, sid = ses['sub'], ses['sid']
    c.update({'both': {'sub': sub, 'sid': sid}, 'sub': {'sub': sub}, 'sid': {'sid': sid}, 'none': {},
              'unknown_sub': {'sub': 'nobody'}, 'unknown_sid': {'sid': 'nothing'},
              'unknown_sid_sub': {'sid': 'nothing', 'sub': sub}, 'sid_unknown_sub': {'sid': sid, 'sub': 'nobody'},
              'empty_sub': {'sub': ''}, 'sid_as_sub': {'sub': sid}, 'sub_as_sid': {'sid': sub},
              'nonce_as_sid': {'sid': ses['nonce']}, 'state_as_sid': {'sid': ses['state']}}[d['who']])
    c = {k: v for k, v in c.items() if v is not None}
    sec = op.clients[cid]['client_secret']
    sg = d['sign']
    kid = jose.jwk(op.keys, 'RSA')['kid']
    good = dict(secret=sec) if alg.startswith('HS') else dict(owner=op.keys)
    if sg == 'ok':
        t = jose.sign(c, alg, **good)
    elif sg == 'nokid':
        t = jose.sign(c, alg, kid=None, **good)
    elif sg == 'other_key':
        t = jose.sign(c, 'RS256', owner='evil')
    elif sg == 'other_key_same_kid':
        t = jose.sign(c, 'RS256', owner='evil', kid=kid)
    elif sg == 'none':
        t = jose.sign(c, 'none')
    elif sg == 'stripped':
        t = jose.sign(c, 'RS256', owner=op.keys).rsplit('.', 1)[0] + '.'
    elif sg == 'tampered':
        a, _, z = jose.sign(dict(c, sub='zoe', sid='zzz'), alg, **good).split('.')
        t = '.'.join([a, jose.b64e(json.dumps(c)), z])
    elif sg == 'hs_with_rsa_public':
        t = jose.sign(c, 'HS256', secret=json.dumps(jose.public(jose.jwk(op.keys, 'RSA'))))
    elif sg == 'hs_secret':
        t = jose.sign(c, 'HS256', secret=sec)
    elif sg == 'es256':
        t = jose.sign(c, 'ES256', owner=op.keys)
    elif sg in ('rs512', 'ps256'):
        t = jose.sign(c, sg.upper(), owner=op.keys)
    elif sg == 'rp_key':
        t = jose.sign(c, 'RS256', owner='rp')
    elif sg == 'op2':
        t = jose.sign(c, 'RS256', owner=s.ops[1].keys)
    return t, c


def verdict(dev, alg):
    vs = []
    for a, v in dev.items():
        x = AX[a][v]
        if a == 'sign':
            if v == 'es256' and alg == 'ES256' or v == 'hs_secret' and alg == 'HS256':
                x = True
            if v == 'nokid' and alg == 'HS256':
                x = True
        vs.append(x)
    if False in vs:
        return False
    return None if None in vs else True


def call(client, tok, how, c):
    from urllib.parse import urlencode
    from oidcrp.rp_handler import backchannel_logout
    if how == 'request':
        return backchannel_logout(client, request=urlencode({'logout_token': tok}))
    if how == 'bytes':
        return backchannel_logout(client, request=urlencode({'logout_token': tok}).encode())
    if how == 'args':
        return backchannel_logout(client, request_args={'logout_token': tok})
    if how == 'nothing':
        return backchannel_logout(client)
    if how == 'twice':
        return backchannel_logout(client, request=urlencode([('logout_token', tok), ('logout_token', tok)]))
    if how == 'garbage':
        return backchannel_logout(client, request='logout_token=abc')
    if how == 'wrong_name':
        return backchannel_logout(client, request=urlencode({'token': tok}))
    return backchannel_logout(client, request_args=dict(c))


def base(alg, reg):
    def conf(op):
        kw = {}
        if reg:
            kw['registration_response'] = {'client_id': 'rp-' + op.tag, 'client_secret': SECRET,
                                           'id_token_signed_response_alg': alg}
        c = static_conf(op, client_id='rp-' + op.tag, alg=alg, **kw)
        return c
    s = Setup(2, conf=conf, op_kw={'caps': {'backchannel_logout_session_supported': True,
                                            'backchannel_logout_supported': True}})
    return s


def ready(alg):
    if alg == 'RS256':
        s = base(alg, False)
    elif alg.startswith('static-'):
        # registered out of band: the configuration says with what
        s = Setup(2, conf=lambda op: static_conf(op, client_id='rp-' + op.tag, alg=alg[7:], behaviour={
            'response_types': ['code'], 'scope': ['openid'], 'token_endpoint_auth_method': 'client_secret_basic', 'id_token_signed_response_alg': alg[7:]}),
                  op_kw={'caps': {'backchannel_logout_session_supported': True, 'backchannel_logout_supported': True}})
    else:
        # a dynamically registered client that asked for alg
        s = Setup(2, conf=lambda op: dynamic_conf(prefs={'id_token_signed_response_alg': alg}, issuer=op.issuer),
                  op_kw={'caps': {'backchannel_logout_session_supported': True, 'backchannel_logout_supported': True,
                                  'id_token_signing_alg_values_supported': ['RS256', 'ES256', 'HS256']}})
    return s


def deviate(ctx, case):
    mode, dev = case
    alg = mode.split('-')[-1]
    dev = dict(dev)
    s = ready(mode)
    ses = {}
    for user, op in (('bob', s.op), ('alice', s.op), ('carol', s.ops[1])):
        b = s.begin(op)
        q = query(b['url'])
        r = s.h.finalize(op.issuer, op.authorize(b['url'], user, sid='sid-' + user))
        ses[user] = dict(sub=user, sid='sid-' + user, state=r['state'], nonce=q['nonce'])
    client = s.client()
    cid = client.get_client_id()
    before = snapshot(client)
    log = len(s.w.log)
    tok, c = make(s, s.op, cid, dev, ses['alice'], alg)
    how = dict(DEFAULT, **dev)['how']
    ok, res = attempt(call, client, tok, how, c)
    want = verdict(dev, alg)
    ctx.step(4)
    ctx.state((mode, sorted(dev.items()), ok))
    ctx.outcome('%s/%s' % (want, 'ok' if ok else type(res).__name__))
    if want is True:
        ctx.check(ok, 'refused', '%r %r' % (dev, res))
    if want is False:
        ctx.check(not ok, 'accepted', '%r -> %r' % (dev, res))
    if ok:
        ctx.check(res == ses['alice']['state'], 'wrong-session', '%r -> %r' % (dev, res))
    ctx.check(snapshot(client) == before, 'store-changed', '')
    ctx.check(len(s.w.log) == log or want is not True, 'unexpected-request', s.w.log[log:])
    ctx.check(s.h.has_active_authentication(ses['bob']['state']), 'other-session-gone', '')


def history(ctx, case):
    """logins: tuple of (user, op index, sid given?); then the token names the k-th of them."""
    logins, support, cleared, k, who = case
    caps = {'front': {'frontchannel_logout_session_supported': True}, True: {'backchannel_logout_session_supported': True}, False: {}}[support]
    s = Setup(2, op_kw={'caps': caps}, response_types=['code', 'id_token token'])
    ses = []
    for i, (user, o, flow) in enumerate(logins):
        op = s.ops[o]
        b = s.begin(op, req_args={'response_type': flow})
        s.h.finalize(op.issuer, op.authorize(b['url'], user, sid='sid-%d' % i))
        ses.append((user, o, 'sid-%d' % i, b['state']))
    for i in cleared:
        s.h.clear_session(ses[i][3])
    user, o, sid, state = ses[k]
    op = s.ops[o]
    client = s.client(op)
    kw = {'both': dict(sub=user, sid=sid), 'sub': dict(sub=user), 'sid': dict(sid=sid)}[who]
    tok = op.logout_token(client.get_client_id(), **kw)
    ok, res = attempt(call, client, tok, 'request', None)
    ctx.step(len(logins) + len(cleared) + 1)
    ctx.state((case, ok))
    ctx.outcome(ok)
    live = [x for i, x in enumerate(ses) if i not in cleared and x[1] == o]
    if 'sid' in kw and support and k not in cleared:
        ctx.check(ok and res == state, 'sid-names-another-session', '%r %r' % (case, res))
    elif 'sub' in kw:
        mine = [x[3] for x in live if x[0] == user]
        if ok:
            ctx.check(res in mine, 'wrong-session', '%r -> %r, of %r' % (case, res, mine))
        else:
            # the subject leads to the session it was last bound to
            lastone = [x for x in ses if x[0] == user and x[1] == o][-1]
            ctx.check(lastone[3] not in mine, 'refused', '%r %r' % (case, res))
    else:
        ctx.check(not ok, 'unknown-accepted', '%r %r' % (case, res))
    if ok:
        s.h.clear_session(res)
        for x in ses:
            if x[3] != res and ses.index(x) not in cleared:
                ctx.check(attempt(s.h.get_session_information, x[3])[0], 'other-session-ended', '')


def space(alg, pairs, drop=()):
    singles = [(a, v) for a in AX for v in AX[a] if v != DEFAULT[a]]
    out = [(alg, ())] + [(alg, (x,)) for x in singles]
    if pairs:
        out += [(alg, (x, y)) for i, x in enumerate(singles) for y in singles[i + 1:] if x[0] != y[0]]
    return out


def hist_space(n):
    out = []
    for m in range(1, n + 1):
        for users in product(*[('alice', 'bob')] * m):
            if users[0] != 'alice':
                continue
            for os_ in product(*[(0, 1)] * m):
                if os_[0] != 0:
                    continue
                for support in (True, False, 'front') if m < 3 else (True, False):
                    for cl in [()] + [(i,) for i in range(m)] + [(i, j) for i in range(m) for j in range(m) if i < j]:
                        for k in range(m):
                            for who in ('both', 'sub', 'sid'):
                                flow = 'code' if m < 3 else 'id_token token'
                                out.append((tuple((u, o, flow) for u, o in zip(users, os_)), support, cl, k, who))
    return out


def parts(tier):
    algs = ['RS256', 'ES256', 'HS256']
    dev = []
    for a in algs:
        dev += space(a, a == 'RS256' or tier != 'quick')
        dev += space('static-' + a, False)
    return [similar.part4(tier, ('logout',)), similar.part(tier, ('logout-sid', 'logout-sub')), large.part(tier, ('sid',)),
            Part('tokens', deviate, dev, 'all single and pairs of deviations', 'up to 2 deviations'),
            Part('histories', history, hist_space(3 if tier == 'quick' else 4), 'all login histories x cleared x token')]


META = dict(rule='one logout token per (algorithm, set of up to two deviations); one per (login history, cleared sessions, '
                 'named session, naming)')
