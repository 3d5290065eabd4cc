"""Sizes and alphabets: what holds for a short value holds for every length up to the bound. Two sessions get values of one kind (codes, tokens, ID
Tokens, subjects, ...) that are that long and differ in their last character only; each is used in everything that is done for a session."""
from .core import Part
from .world import *

EVENT = 'http://schemas.openid.net/event/backchannel-logout'
#: characters a value may be made of; every value ends with what makes it unique
CHARS = {'plain': 'abcdefghijklmnopqrstuvwxyz0123456789', 'token': 'aB3-._~+/', 'visible': 'a +&=%?#/\\"\'<>{}|;,:@!$*()[]^`~-_.Z'}
WHATS = {'code': ('plain', 'token', 'visible'), 'at': ('plain', 'token'), 'rt': ('plain', 'token', 'visible'), 'idt': ('plain', 'visible'), 'sub': ('plain', 'visible'), 'sid': ('plain', 'visible'),
         'nonce': ('plain', 'token', 'visible'), 'session_state': ('plain', 'visible'), 'userinfo': ('plain', 'visible'), 'login_hint': ('plain', 'visible')}


def sizes(tier, limit=None):
    top = 14 if tier == 'quick' else 17
    out = sorted({n + d for n in (2 ** k for k in range(3, top + 1)) for d in (-1, 0, 1)} | set(range(1, 33)) | {100, 200, 500, 1000, 1500, 2000, 3000, 4000, 5000, 10000})
    return [n for n in out if limit is None or n <= limit]


def value(what, n, chars, end):
    if isinstance(chars, tuple):
        # two given values
        return chars[0] if end == '1' else chars[1]
    c = CHARS[chars]
    return (c * (n // len(c) + 1))[:n] + end


def cases(tier, whats, flows=('code',)):
    return [(w, n, ch, f) for w in whats for ch in WHATS[w] for n in sizes(tier, 254 if w == 'sub' else None) for f in flows]


def history(ctx, case):
    from oidcrp.rp_handler import backchannel_logout
    what, n, chars, flow = case[:4]
    restored = len(case) > 4
    ctx.state(case)
    s = Setup(1, response_types=[flow], pkce=True, op_kw={'caps': {'backchannel_logout_session_supported': True}})
    op = s.op
    op.issue_rt = True
    sent = {}
    fresh = op.fresh
    op.fresh = lambda k: value(what, n, chars, fresh(k)) if k == what else fresh(k)

    def sign(claims, where, grant):
        if what == 'idt':
            claims = dict(claims, own=value(what, n, chars, grant['state'][:4]))
        j = jose.sign(claims, 'RS256', owner='op1')
        sent[grant['state']] = (j, claims)
        return j
    op.hook['sign'] = sign
    if what == 'userinfo':
        op.hook['userinfo'] = lambda c, t: dict(c, own=value(what, n, chars, t['sub'][-1]))
    if what == 'session_state':
        op.hook['authz_response'] = lambda out, g: dict(out, session_state=value(what, n, chars, g['sub'][-1]))
    ms = []
    for i in (1, 2):
        args = {what: value(what, n, chars, str(i))} if what in ('nonce', 'login_hint') else {}
        m = {'user': value(what, n, chars, str(i)) if what == 'sub' else 'user%d' % i, 'sid': value(what, n, chars, str(i)) if what == 'sid' else 'sid%d' % i, 'args': args}
        ok, b = attempt(s.begin, req_args=dict(args))
        if not ctx.check(ok, 'cannot-begin:' + what, repr(b)[:200]):
            return
        m.update(b)
        ms.append(m)
    for m in ms[::-1]:
        ok, resp = attempt(op.authorize, m['url'], m['user'], sid=m['sid'])
        ctx.step()
        if not ctx.check(ok, 'refused-by-the-op:' + what, repr(resp)[:200]):
            return
        for k, v in m['args'].items():
            ctx.check(op.last_authz.get(k) == v, 'request-value:' + what, '%d characters, sent %.80r' % (n, op.last_authz.get(k)))
        m['ss'] = resp.get('session_state', '')
        ok, r = attempt(s.h.finalize, op.issuer, resp)
        ctx.step()
        if not ctx.check(ok and 'error' not in r and not op.rejects, 'login-fails:' + what, '%d characters: %.300r %.300r' % (n, r, op.rejects[-1:])):
            return
        m['token'] = r['token']
        ctx.check(r['session_state'] == m['ss'], 'session-state', '%d characters' % n)
        use(ctx, s, m, what, n, chars, sent, r['userinfo'], r['id_token'])
    for rotate in (True, False, True):
        if restored:
            # the process ends here and another one takes over
            h, old = s.h, s.client(op)
            ok, d = attempt(lambda: json.dumps(old.client_get('service_context').dump() if case[4] == 'context' else old.client_get('service_context').state.dump()))
            if not ctx.check(ok, 'not-dumped:' + what, '%d characters: %.200r' % (n, d)):
                return
            s.h = handler(copy.deepcopy(s.configs))
            if case[4] == 'context':
                c = s.h.init_client(op.issuer)
                ok, r = attempt(c.client_get('service_context').load, json.loads(d))
                s.h.do_provider_info(c)
                s.h.do_client_registration(c, op.issuer)
                s.h.issuer2rp[op.issuer] = c
            else:
                ok, r = attempt(s.h.client_setup(op.issuer).client_get('service_context').state.load, json.loads(d))
            if not ctx.check(ok, 'not-loaded:' + what, '%d characters: %.200r' % (n, r)):
                return
            st = s.context(op).state
            for m in ms:
                use(ctx, s, m, what, n, chars, sent)
        op.rotate_rt = rotate
        for m in ms:
            op.refresh_idt = rotate
            ok, r = attempt(s.h.refresh_access_token, m['state'])
            ctx.step()
            if not ctx.check(ok and not op.rejects, 'refresh-fails:' + what, '%d characters: %.300r %.300r' % (n, r, op.rejects[-1:])):
                return
            m['token'] = r['access_token']
            use(ctx, s, m, what, n, chars, sent)
    st = s.context(op).state
    for m, o in (ms, ms[::-1]):
        for k, v in (('sub', m['user']), ('sid', m['sid']), ('nonce', query(m['url'])['nonce'])):
            ok, got = attempt(getattr(st, 'get_state_by_' + k), v)
            ctx.check(ok and got == m['state'], 'found-by:' + k, '%d characters -> %r' % (n, got))
        for by in ({'sid': m['sid']}, {'sub': m['user']}, {'sub': m['user'], 'sid': m['sid']}):
            token = jose.sign(dict(by, iss=op.issuer, aud=[s.client(op).get_client_id()], iat=int(CLOCK.now), jti='j-' + m['sid'][-1:], events={EVENT: {}}), 'RS256', owner='op1')
            ok, got = attempt(backchannel_logout, s.client(op), request_args={'logout_token': token})
            ctx.step()
            ctx.check(ok and got == m['state'], 'logged-out-by:' + '+'.join(by), '%d characters -> %.200r' % (n, got))
    ok, r = attempt(s.h.clear_session, ms[0]['state'])
    ctx.check(ok, 'not-cleared', repr(r))
    dump = json.dumps(snapshot(s.client(op)))
    for v in (ms[0]['state'], json.dumps(ms[0]['token'])[1:-1], json.dumps(ms[0]['user'])[1:-1] if what == 'sub' else '', json.dumps(ms[0]['sid'])[1:-1] if what == 'sid' else ''):
        ctx.check(len(v) < 16 or v not in dump, 'left-behind:' + what, '%d characters' % n)
    use(ctx, s, ms[1], what, n, chars, sent)
    ctx.outcome((what, chars, flow))


def use(ctx, s, m, what, n, chars, sent, info=None, idt=None):
    """Everything that is done for a session carries its values as they were."""
    op = s.op
    ok, r = attempt(s.h.get_valid_access_token, m['state'])
    ctx.check(ok and r[0] == m['token'] and op.tokens.get(m['token'], {}).get('state') == m['state'], 'token:' + what, '%d characters: %.200r' % (n, r))
    ok, r = attempt(s.h.get_user_info, m['state'])
    ctx.step()
    if ctx.check(ok and not op.rejects, 'user-info-fails:' + what, '%d characters: %.200r %.200r' % (n, r, op.rejects[-1:])):
        for x in (r, info):
            if x is not None:
                ctx.check(x['sub'] == m['user'], 'user-info-of-another', '%d characters' % n)
                ctx.check(what != 'userinfo' or x['own'] == value(what, n, chars, m['user'][-1]), 'user-info-value', '%d characters, not as the OP sent it' % n)
        ui = plain(s.h.get_session_information(m['state']))['user_info']
        ui = json.loads(ui) if isinstance(ui, str) else ui
        ctx.check(ui == plain(r), 'user-info-stored', '%d characters' % n)
    token, claims = sent[m['state']]
    if idt is not None:
        ctx.check({k: v for k, v in plain(idt).items() if k in claims} == {k: [v] if k == 'aud' and isinstance(v, str) else v for k, v in claims.items()}, 'id-token-claims', '%d characters' % n)
    ok, r = attempt(s.h.logout, m['state'])
    ctx.step()
    if ctx.check(ok, 'logout-fails', repr(r)[:200]):
        q = query(r['url'])
        ctx.check(q.get('id_token_hint') == token, 'logout-hint', 'an ID Token of %d characters, hint of %d' % (len(token), len(q.get('id_token_hint') or '')))
    ctx.check(s.h.has_active_authentication(m['state']) is True, 'not-authenticated', '%d characters' % n)


def cookies(ctx, case):
    """A cookie of that length round trips, and every change of one character of it, wherever it is, is noticed."""
    from oidcrp.cookie import InvalidCookieSign, make_cookie, parse_cookie
    n, chars, mode = case
    ctx.state(case)
    seed, key = b'0123456789abcdef', b'fedcba9876543210' if mode == 'enc' else None
    load = value('cookie', n, chars, '1')
    made = make_cookie('kaka', load, seed, timestamp='1700000000', enc_key=key)
    text = made[1].split('; ')[0] if chars == 'plain' else made[1]
    ok, r = attempt(parse_cookie, 'kaka', seed, text, key)
    ctx.step()
    ctx.check(ok and r == (load, '1700000000'), 'not-round:' + mode, '%d characters: %.200r' % (n, r))
    if chars == 'plain':
        head, body = text.split('=', 1)
        body = body.strip('"')
        for i in sorted({p + d for p in [0, len(body) - 1] + [2 ** k for k in range(1, 15)] for d in (-1, 0, 1) if 0 <= p + d < len(body)} | set(range(max(0, len(body) - 90), len(body)))):
            if body[i] in '|=':
                continue
            if mode == 'enc' and body[i + 1:i + 2] in ('=', '|', ''):
                continue        # bits that do not count in base64
            other = body[:i] + ('b' if body[i] != 'b' else 'c') + body[i + 1:]
            ok, r = attempt(parse_cookie, 'kaka', seed, '%s="%s"' % (head, other), key)
            ctx.step()
            ctx.check(isinstance(r, InvalidCookieSign) if not ok else r is None, 'change-unnoticed:' + mode, 'character %d of %d: %.200r' % (i, len(body), r))
    ctx.outcome((chars, mode))


def store(ctx, case):
    """The session store with values and keys of that length."""
    from oidcmsg.oauth2 import AccessTokenResponse
    from oidcrp.state_interface import StateInterface
    where, n, chars = case
    ctx.state(case)
    st = StateInterface()
    keys = [st.create_state('https://op.example.org', value('key', n, chars, str(i)) if where == 'key' else 'state%d' % i) for i in (1, 2)]
    vals = [value('v', n, chars, str(i)) for i in (1, 2)]
    for k, v in zip(keys, vals):
        st.store_item(AccessTokenResponse(access_token=v if where == 'value' else 't' + k, token_type='Bearer'), 'token_response', k)
        for x in ('nonce', 'sub', 'sid', 'logout_state'):
            getattr(st, 'store_%s2state' % x)(v if where == x else x + k, k)
        ctx.step()
    for again in (0, 1):
        for k, v in zip(keys, vals):
            ok, r = attempt(st.get_item, AccessTokenResponse, 'token_response', k)
            ctx.check(ok and r['access_token'] == (v if where == 'value' else 't' + k), 'item:' + where, '%d characters: %.200r' % (n, r))
            ok, r = attempt(st.get_iss, k)
            ctx.check(ok and r == 'https://op.example.org', 'issuer:' + where, '%d characters: %.200r' % (n, r))
            for x in ('nonce', 'sub', 'sid', 'logout_state'):
                ok, r = attempt(getattr(st, 'get_state_by_' + x), v if where == x else x + k)
                ctx.check(ok and r == k, 'found-by:' + x, '%d characters: %.200r' % (n, r))
            ok, r = attempt(st.multiple_extend_request_args, {}, k, ['access_token'], ['auth_response', 'token_response'])
            ctx.check(ok and r == {'access_token': v if where == 'value' else 't' + k}, 'extended:' + where, '%d characters: %.200r' % (n, r))
            ctx.step()
        d = json.loads(json.dumps(st.dump()))
        st = StateInterface()
        st.load(d)
    st.remove_state(keys[0])
    ok, r = attempt(st.get_iss, keys[0])
    ctx.check(not ok, 'still-there', '%d characters' % n)
    ok, r = attempt(st.get_item, AccessTokenResponse, 'token_response', keys[1])
    ctx.check(ok and r['access_token'] == (vals[1] if where == 'value' else 't' + keys[1]), 'item-lost:' + where, '%d characters' % n)
    ctx.outcome((where, chars))


def grants(ctx, case):
    """Client credentials: tokens and secrets of that length."""
    what, n, chars = case
    ctx.state(case)
    from .checks import c30
    w, s, c = c30.make({'client_secret': value(what, n, chars, '1')} if what == 'secret' else {'client_id': value(what, n, chars, '1')} if what == 'id' else None,
                         refresh={'default_authn_method': 'client_secret_basic'} if what in ('secret', 'id') else None)
    form = []

    def answer(req):
        form.append(req)
        body = {'access_token': value(what, n, chars, 'at%d' % len(form)) if what == 'at' else 'at%d' % len(form), 'token_type': 'Bearer', 'expires_in': 60,
                'refresh_token': value(what, n, chars, 'rt%d' % len(form)) if what == 'rt' else 'rt%d' % len(form)}
        return jresp(body)
    w.static[c30.TOKEN] = answer
    cid, sec = (value(what, n, chars, '1') if what == k else d for k, d in (('id', 'me'), ('secret', SECRET)))
    for i, (srv, key) in enumerate((('accesstoken', 'k1'), ('accesstoken', 'k2'), ('refresh_token', 'k1'), ('refresh_token', 'k2'), ('refresh_token', 'k1'))):
        ok, r = attempt(c.do_request, srv, state=key, request_args={})
        ctx.step()
        if not ctx.check(ok and len(form) == i + 1, 'fails:' + what, '%d characters: %.200r' % (n, r)):
            return
        at = value(what, n, chars, 'at%d' % (i + 1)) if what == 'at' else 'at%d' % (i + 1)
        ctx.check(r.get('access_token') == at, 'answer:' + what, '%d characters: %.200r' % (n, r))
        ok, h = attempt(c30.held, c, key)
        ctx.check(ok and h and h['access_token'] == at or srv == 'refresh_token', 'not-kept:' + what, '%d characters: %.200r' % (n, h))
        if srv == 'refresh_token':
            last = {2: 1, 3: 2, 4: 3}[i]
            want = value(what, n, chars, 'rt%d' % last) if what == 'rt' else 'rt%d' % last
            if what in ('at', 'rt'):
                # sent as it is by default
                ctx.check(form[-1].headers['authorization'] == 'Bearer ' + want, 'other-refresh-token:' + what, '%d characters: %.200r' % (n, form[-1].headers))
                continue
            ctx.check(form[-1].form.get('refresh_token') == want, 'other-refresh-token:' + what, '%d characters: %.200r' % (n, form[-1].form))
        raw = base64.b64decode(form[-1].headers['authorization'][6:]).decode().split(':')
        ctx.check([unquote_plus(x) for x in raw] == [cid, sec], 'other-credentials:' + what, '%d characters' % n)
    ctx.outcome((what, chars))


def part(tier, whats, flows=('code',)):
    cs = cases(tier, whats, flows)
    return Part('large', history, cs, 'length x alphabet of the value' + (' x flow' if len(flows) > 1 else ''), 'up to %d characters' % max(c[1] for c in cs))


def arguments(what, n):
    """Arguments of a login request: n of them, or one that is n characters long."""
    return {'scopes': {'scope': ['openid'] + ['scope%d' % i for i in range(n)]}, 'extras': {'x_own%d' % i: 'v%d' % i for i in range(n)},
            'acrs': {'acr_values': ['acr%d' % i for i in range(n)]}, 'text': {'login_hint': value('', n, 'visible', '1')}, 'nonce': {'nonce': value('', max(n, 8), 'token', 'n')},
            'claims': {'claims': {'userinfo': {'claim%d' % i: None for i in range(n)}}}, 'values': {'claims': {'id_token': {'acr': {'essential': True, 'values': ['v%d' % i for i in range(n)]}}}}}[what]
