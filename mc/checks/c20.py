"""C20: dynamic registration. Every set of up to three response types x usable channels x provider support x configured URIs, every kind of
registration answer followed by a retry, every pair of issuers, seeds and handlers; what was registered at the simulated OP is compared
with what is used afterwards in complete logins and logouts."""
import itertools

from .. import many
from ..core import Part
from ..world import *

RT = ['code', 'id_token', 'id_token token', 'code id_token', 'code token', 'code id_token token']
ORD = ['token id_token', 'id_token code', 'token code', 'id_token code token', 'token id_token code']
GT = {'code': {'authorization_code'}, 'token': {'implicit'}, 'id_token': {'implicit'}}
URI_KEYS = ['redirect_uris', 'post_logout_redirect_uris', 'backchannel_logout_uri', 'frontchannel_logout_uri', 'request_uris']
CONF = {'redirect_uris': [BASE + '/my/cb', BASE + '/my/cb2'], 'post_logout_redirect_uris': [BASE + '/my/bye'],
        'backchannel_logout_uri': BASE + '/my/bc', 'frontchannel_logout_uri': BASE + '/my/fc', 'request_uris': [BASE + '/my/req']}


def grants(rts):
    return set().union(*[GT[w] for rt in rts for w in rt.split(' ')])


def aslist(v):
    return [v] if isinstance(v, str) else list(v or [])


def case_uris(ctx, case):
    rts, usable, support, configured, methods = case
    w = World()
    op = SimOP(w, ISS[1], 'op1')
    op.md['response_types_supported'] = list(dict.fromkeys([*op.md['response_types_supported'], *rts]))
    for s in support:
        op.md[s] = True
    if methods == 'silent':
        op.md.pop('token_endpoint_auth_methods_supported')
    conf = dynamic_conf(response_types=rts, prefs={u: True for u in usable})
    conf['issuer'] = op.issuer
    for k in configured:
        conf[k] = copy.deepcopy(CONF[k])
    before = copy.deepcopy(conf)
    h = handler({op.issuer: conf})
    ok, b = attempt(h.begin, op.issuer)
    ctx.step()
    ctx.state(case)
    if not ctx.check(ok, 'begin-failed', repr(b)):
        return
    reg = op.last_registration
    ctx.check(conf == before, 'configuration-changed', repr(conf))
    # what is stated
    ctx.check(reg.get('response_types') == list(rts), 'wrong-response-types', repr(reg))
    ctx.check(set(reg.get('grant_types', [])) == grants(rts), 'wrong-grant-types', '%r for %r' % (reg.get('grant_types'), rts))
    ctx.check(reg.get('application_type') == 'web', 'preference-not-stated', repr(reg))
    ctx.check(reg.get('token_endpoint_auth_method') == 'client_secret_basic', 'preference-not-stated', repr(reg))
    ctx.check(reg.get('jwks_uri') == BASE + '/static/jwks.json' and 'jwks' not in reg, 'wrong-keys', repr(reg))
    ctx.check('client_secret' not in reg and 'client_id' not in reg, 'secret-in-request', repr(reg))
    # URIs: as configured, or generated
    seen = []
    for k in URI_KEYS:
        got = aslist(reg.get(k))
        if k in configured:
            ctx.check(got == aslist(CONF[k]), 'configured-uri-not-registered:' + k, repr(got))
            continue
        for u in got:
            ctx.check(u.startswith(BASE + '/') and len(u.rsplit('/', 1)[-1]) >= 32, 'strange-uri:' + k, u)
            ctx.check(u not in seen, 'uri-used-twice', u)
            ctx.check(h.hash2issuer.get(u.rsplit('/', 1)[-1]) == op.issuer, 'uri-does-not-lead-back', '%s %r' % (u, list(h.hash2issuer)))
            seen.append(u)
    for k, sup, use in (('backchannel_logout_uri', 'backchannel_logout_supported', 'backchannel_logout_usable'),
                        ('frontchannel_logout_uri', 'frontchannel_logout_supported', 'frontchannel_logout_usable')):
        if k not in configured:
            ctx.check((k in reg) == (sup in support and use in usable), 'logout-uri:' + k, '%r' % (reg.get(k),))
    if 'redirect_uris' not in configured:
        want = ('code' in rts) + any(r != 'code' for r in rts) + ('form_post_usable' in usable)
        ctx.check(len(aslist(reg.get('redirect_uris'))) == want, 'number-of-redirect-uris', '%r for %r %r' % (reg.get('redirect_uris'), rts, usable))
    # what is used
    x = h.issuer2rp[op.issuer].client_get('service_context')
    for i, rt in enumerate(rts):
        for mode in [None] + (['form_post'] if 'form_post_usable' in usable else []):
            ra = {'response_type': rt} if i else {}
            if mode:
                ra['response_mode'] = mode
            ok, b = attempt(h.begin, op.issuer, req_args=ra or None)
            if not ctx.check(ok, 'begin-failed', '%r %r' % (ra, b)):
                continue
            q = query(b['url'])
            ctx.check(q['redirect_uri'] in aslist(reg['redirect_uris']), 'unregistered-redirect-uri', '%s not in %r' % (q['redirect_uri'], reg['redirect_uris']))
            ctx.check(q['response_type'] == rt, 'other-response-type', q['response_type'])
            ctx.check(q['client_id'] in op.clients, 'other-client-id', q['client_id'])
            if q['redirect_uri'] in aslist(reg['redirect_uris']):
                ok, res = attempt(h.finalize, op.issuer, op.authorize(b['url'], 'u%d' % i))
                ctx.check(ok and 'error' not in res and res['userinfo']['sub'] == 'u%d' % i, 'login-failed', '%r %r' % (res, op.rejects))
            ctx.step()
    lo = h.logout(b['state'])
    pl = query(lo['url']).get('post_logout_redirect_uri')
    ctx.check(pl is None or pl in aslist(reg.get('post_logout_redirect_uris')), 'unregistered-post-logout-uri', '%s %r' % (pl, reg))
    ctx.check(pl is not None or not reg.get('post_logout_redirect_uris'), 'registered-post-logout-uri-not-used', repr(reg))
    ctx.check(len(w.to('registration')) == 1, 'registered-twice', '')
    ctx.check(not op.rejects, 'op-rejected', repr(op.rejects))
    if 'request_uri_usable' in usable and 'request_uris' in reg:
        pass
    ctx.outcome((len(rts), usable, len(configured)))


def uris_of(issuer, base, seed, cseed, order):
    from oidcrp.rp_handler import RPHandler
    w = World()
    ops = {i: SimOP(w, i, 'op1') for i in order}
    for o in ops.values():
        o.md.update(backchannel_logout_supported=True, frontchannel_logout_supported=True)
    conf = dynamic_conf(response_types=('code', 'id_token'),
                        prefs={'form_post_usable': True, 'backchannel_logout_usable': True, 'frontchannel_logout_usable': True})
    if cseed:
        conf['hash_seed'] = cseed
    kw = {'hash_seed': seed} if seed else {}
    h = RPHandler(base, client_configs={'': conf}, services=services(), keyjar=keyjar(), jwks_path='static/jwks.json', **kw)
    out = {}
    for i in order:
        h.begin(i)
        reg = ops[i].last_registration
        out[i] = {k: tuple(aslist(reg[k])) for k in URI_KEYS if reg.get(k)}
        for us in out[i].values():
            for u in us:
                if h.hash2issuer.get(u.rsplit('/', 1)[-1]) != i:
                    out.setdefault('lost', []).append((i, u))
    return out


# every two of them differ in one component of the URL only, or in several
UI = ['https://op1.example.org', 'https://op2.example.org', 'https://op1.example.org/a', 'https://op1.example.org/b', 'https://op2.example.org/a',
      'https://op1.example.org:8443/a', 'http://op1.example.org/a', 'https://op1.example.org/a/b', 'https://op1.example.org/A']


def case_unique(ctx, case):
    a, b, base, seed, cseed = case
    x = uris_of(a, base, seed, cseed, (a, b))
    y = uris_of(a, base, seed, cseed, (b, a))
    ctx.check('lost' not in x, 'uri-does-not-lead-back', repr(x.get('lost')))
    fx = {u for us in x[a].values() for u in us}
    fy = {u for us in x[b].values() for u in us}
    ctx.check(len(fx) == len([1 for us in x[a].values() for u in us]), 'uri-used-twice', repr(x))
    ctx.check(not fx & fy, 'uri-shared-by-issuers', repr(fx & fy))
    ctx.check(all(u.startswith(base.rstrip('/') + '/') for u in fx | fy), 'foreign-base', repr(fx))
    if seed or cseed:
        ctx.check(x[a] == y[a] and x[b] == y[b], 'not-stable', '%r %r' % (x, y))
        other = uris_of(a, base, seed and seed + 'x', cseed and cseed + 'x', (a,))
        ctx.check(not fx & {u for us in other[a].values() for u in us}, 'independent-of-seed', '')
    ctx.step(3)
    ctx.state(case)
    ctx.outcome((bool(seed), bool(cseed)))


def answers():
    def upd(**kw):
        return lambda resp, r: {k: v for k, v in dict(resp, **kw).items() if v is not None}
    return {
        'full': lambda resp, r: resp,
        'minimal': lambda resp, r: {k: resp[k] for k in ('client_id', 'client_secret', 'redirect_uris')},
        'no-secret': upd(client_secret=None, client_secret_expires_at=None),
        'blank-secret': upd(client_secret=''),
        'other-method-post': upd(token_endpoint_auth_method='client_secret_post'),
        'other-method-pkj': upd(token_endpoint_auth_method='private_key_jwt'),
        'es256': upd(id_token_signed_response_alg='ES256'),
        'expires': upd(client_secret_expires_at=1_700_001_000),
        'rat': upd(registration_access_token='rat-1', registration_client_uri=ISS[1] + '/registration?client_id=x'),
        'half-rat': upd(registration_access_token='rat-1'),
        'extra': upd(x_extra='1', software_version='2'),
        'one-redirect': lambda resp, r: dict(resp, redirect_uris=resp['redirect_uris'][:1]),
        'fewer-types': upd(response_types=['code'], grant_types=['authorization_code']),
        'no-id': upd(client_id=None),
        'blank-id': upd(client_id=''),
        'id-list': upd(client_id=['a', 'b']),
        'id-object': upd(client_id={'a': 1}),
        'no-redirects': upd(redirect_uris=None),
        'error-400': lambda resp, r: jresp({'error': 'invalid_redirect_uri', 'error_description': 'no'}, 400),
        'error-200': lambda resp, r: jresp({'error': 'invalid_client_metadata'}),
        'error-and-id': upd(error='invalid_client_metadata'),
        'error-500': lambda resp, r: jresp(resp, 500),
        'redirect': lambda resp, r: Resp(302, json.dumps(resp), {'location': ISS[1] + '/x', 'content-type': 'application/json'}),
        'forbidden': lambda resp, r: jresp(resp, 403),
        'html': lambda resp, r: Resp(200, '<html/>', {'content-type': 'text/html'}),
        'empty': lambda resp, r: Resp(201, '', {'content-type': 'application/json'}),
        'array': lambda resp, r: Resp(201, '[]', {'content-type': 'application/json'}),
    }


BAD = ['half-rat', 'no-id', 'blank-id', 'id-list', 'id-object', 'no-redirects', 'error-400', 'error-200', 'error-and-id', 'error-500', 'redirect', 'forbidden',
       'html', 'empty', 'array']
GOOD = [a for a in answers() if a not in BAD]


def case_answer(ctx, case):
    seq, method, flow, pkce = case
    w = World()
    op = SimOP(w, ISS[1], 'op1')
    op.issue_rt = True
    hooks = [answers()[n] for n in seq]
    given = []

    def hook(resp, r):
        if not hooks:
            f = answers()['full']
        else:
            f = hooks.pop(0)
        out = f(resp, r)
        if isinstance(out, dict) and isinstance(out.get('client_id'), str):
            cl = op.clients[resp['client_id']]
            cl['method'] = out.get('token_endpoint_auth_method', r.get('token_endpoint_auth_method', 'client_secret_basic'))
            cl['id_token_signed_response_alg'] = out.get('id_token_signed_response_alg', 'RS256')
            if 'client_secret' not in out:
                cl['method'] = 'private_key_jwt' if cl['method'] == 'private_key_jwt' else 'none'
            given.append(out)
        return out
    op.hook['registration'] = hook
    conf = dynamic_conf(response_types=(flow,), prefs={'token_endpoint_auth_method': method}, pkce=pkce)
    conf['issuer'] = op.issuer
    h = handler({op.issuer: conf})
    ctx.state(case)
    for i, n in enumerate(seq):
        ok, b = attempt(h.begin, op.issuer)
        ctx.step()
        if n in BAD:
            ctx.check(not ok, 'half-registered:' + n, repr(b))
            ctx.check(not h.issuer2rp, 'half-registered-client-kept:' + n, '')
            continue
        if not ctx.check(ok, 'registration-refused:' + n, repr(b)):
            return
        break
    else:
        ok, b = attempt(h.begin, op.issuer)
        if not ctx.check(ok, 'retry-failed', repr(b)):
            return
    ans = given[-1]
    x = h.issuer2rp[op.issuer].client_get('service_context')
    ctx.check(x.client_id == ans['client_id'], 'other-client-id', '%r %r' % (x.client_id, ans))
    ctx.check((x.client_secret or '') == ans.get('client_secret', ''), 'other-secret', '%r %r' % (x.client_secret, ans))
    if ans.get('client_secret') and 'client_secret_expires_at' in ans:
        ctx.check(x.client_secret_expires_at == ans['client_secret_expires_at'], 'other-expiry', repr(x.client_secret_expires_at))
    q = query(b['url'])
    ctx.check(q['client_id'] == ans['client_id'], 'other-client-id', b['url'])
    ctx.check(q['redirect_uri'] in ans['redirect_uris'], 'unregistered-redirect-uri', '%s %r' % (q['redirect_uri'], ans))
    m = op.clients[ans['client_id']]['method']
    if m == 'none' or (seq[-1] == 'blank-secret' and m != 'private_key_jwt'):
        return ctx.outcome('no usable credentials')
    ok, res = attempt(h.finalize, op.issuer, op.authorize(b['url']))
    ctx.check(ok and 'error' not in res and not op.rejects, 'login-failed', '%r %r' % (res, op.rejects))
    if not ok:
        return
    if flow == 'code':
        ok, r = attempt(h.refresh_access_token, b['state'])
        ctx.check(ok, 'refresh-failed', repr(r))
    # an ID Token under another algorithm than the one of the answer is refused
    if 'id_token_signed_response_alg' in ans and flow == 'code':
        alg = ans['id_token_signed_response_alg']
        op.clients[ans['client_id']]['id_token_signed_response_alg'] = 'RS256' if alg == 'ES256' else 'ES256'
        b = h.begin(op.issuer)
        ok, res = attempt(h.finalize, op.issuer, op.authorize(b['url']))
        ctx.check(not ok, 'other-algorithm-accepted', repr(res))
    ctx.outcome((seq[-1], method, flow))
    ctx.step(2)


def case_read(ctx, case):
    """The client configuration endpoint is read with the given token at the given place."""
    uri, tok, ans = case
    w = World()
    op = SimOP(w, ISS[1], 'op1')
    op.hook['registration'] = lambda resp, r: dict(resp, registration_access_token=tok, registration_client_uri=uri)
    conf = dynamic_conf()
    conf['issuer'] = op.issuer
    h = handler({op.issuer: conf}, services(registration_read={'class': 'oidcrp.oidc.read_registration.RegistrationRead'}))
    h.begin(op.issuer)
    c = h.issuer2rp[op.issuer]
    reg = plain(c.client_get('service_context').registration_response)
    got = []

    def serve(req):
        got.append(req)
        return {'good': jresp(reg), 'error': jresp({'error': 'invalid_token'}, 401), 'down': Resp(503, '')}[ans]
    w.static[uri.split('?')[0]] = serve
    w.fault = lambda req, ep: serve(req) if req.url == uri else None
    ok, r = attempt(c.do_request, 'registration_read')
    ctx.step()
    ctx.state(case)
    ctx.outcome((ans, ok))
    if ctx.check(len(got) == 1, 'not-read', repr(w.log)):
        ctx.check(got[0].url == uri and got[0].method == 'GET', 'wrong-place', repr(got[0]))
        ctx.check(got[0].headers.get('authorization') == 'Bearer ' + tok, 'wrong-token', repr(got[0].headers))
    if ans == 'good':
        ctx.check(ok and plain(r)['client_id'] == reg['client_id'], 'read-failed', repr(r))
    else:
        ctx.check(not ok or 'error' in r, 'error-hidden', repr(r))
    ctx.check(plain(c.client_get('service_context').registration_response) == reg, 'registration-changed', '')


ARGS = [('contacts', ['x@example.com']), ('post_logout_redirect_uris', [BASE + '/given/bye']), ('client_name', 'Another name'), ('redirect_uris', [BASE + '/given/cb']), ('logo_uri', BASE + '/logo.png'),
        ('token_endpoint_auth_method', 'client_secret_post'), ('id_token_signed_response_alg', 'ES256'),
        ('default_max_age', 3600), ('jwks_uri', BASE + '/given/jwks.json'), ('jwks', {'keys': [jose.public(jose.jwk('rp2', 'EC'))]}), ('request_uris', [BASE + '/given/req']),
        ('application_type', 'native'), ('not_a_parameter', 'x')]


def case_args(ctx, case):
    """Arguments given for the set-up end up in the registration, and what is used is what was registered."""
    names, flow, configured, way = case
    w = World()
    op = SimOP(w, ISS[1], 'op1', caps={'backchannel_logout_supported': True, 'frontchannel_logout_supported': True})
    conf = dynamic_conf(response_types=(flow,), **{k: copy.deepcopy(CONF[k]) for k in configured})
    conf['issuer'] = op.issuer
    h = handler({op.issuer: conf})
    given = {k: copy.deepcopy(v) for k, v in ARGS if k in names}
    if way == 'behaviour':
        ok, b = attempt(h.begin, op.issuer, behaviour_args=given)
    else:
        def steps():
            c = h.init_client(op.issuer)
            h.issuer2rp[h.do_provider_info(c)] = c
            h.do_client_registration(c, op.issuer, request_args=given)
            return h.begin(op.issuer)
        ok, b = attempt(steps)
    ctx.step()
    ctx.state(case)
    ctx.outcome((names, way))
    if not ctx.check(ok, 'begin-failed', repr(b)):
        return
    reg = op.last_registration
    for k, v in ARGS:
        if k == 'not_a_parameter':
            ctx.check(k not in reg, 'unknown-parameter-registered', repr(reg))
        elif k == 'jwks' and 'jwks_uri' in names:
            ctx.check(k not in reg, 'two-places-for-keys', repr(reg))
        elif k in names:
            ctx.check(reg.get(k) == v, 'argument-not-registered', '%s: %r' % (k, reg.get(k)))
    ctx.check(('jwks' in reg) + ('jwks_uri' in reg) == 1, 'two-places-for-keys', repr(reg))
    if way == 'behaviour':
        ctx.check(given == {k: v for k, v in ARGS if k in names}, 'arguments-changed', repr(given))
    ctx.check(query(b['url'])['redirect_uri'] in reg['redirect_uris'], 'unregistered-redirect-uri', '%s %r' % (b['url'], reg['redirect_uris']))
    ok, res = attempt(h.finalize, op.issuer, op.authorize(b['url']) if query(b['url'])['redirect_uri'] in reg['redirect_uris'] else {})
    ctx.check(ok and 'error' not in res and not op.rejects, 'login-failed', '%r %r' % (res, op.rejects))
    if ok:
        pl = query(h.logout(b['state'])['url']).get('post_logout_redirect_uri')
        ctx.check(pl is None or pl in aslist(reg.get('post_logout_redirect_uris')), 'unregistered-post-logout-uri', '%s %r' % (pl, reg))
        ctx.check(pl is not None or not reg.get('post_logout_redirect_uris'), 'registered-post-logout-uri-not-used', repr(reg))
    ctx.step()


def case_grants(ctx, case):
    """Preferred grant types are stated besides those the response types need."""
    rts, gts = case
    w = World()
    op = SimOP(w, ISS[1], 'op1')
    op.md['response_types_supported'] = list(dict.fromkeys([*op.md['response_types_supported'], *rts]))
    op.md['grant_types_supported'] = ['authorization_code', 'implicit', 'refresh_token', 'client_credentials']
    conf = dynamic_conf(response_types=rts, prefs={'grant_types': list(gts)})
    conf['issuer'] = op.issuer
    h = handler({op.issuer: conf})
    h.begin(op.issuer)
    got = op.last_registration.get('grant_types')
    ctx.check(set(got) == grants(rts) | set(gts), 'wrong-grant-types', '%r for %r and %r' % (got, rts, gts))
    ctx.check(len(set(got)) == len(got), 'grant-type-twice', repr(got))
    ctx.step()
    ctx.state(case)
    ctx.outcome(len(got))


def case_keys(ctx, case):
    """The provider knows the keys the client signs with, and none that are secret."""
    owner, path, method, alg, mode, base = case
    import os
    import shutil
    import tempfile
    from cryptojwt.key_jar import KeyJar
    from oidcrp.rp_handler import RPHandler
    w = World()
    ops = [SimOP(w, ISS[i], 'op%d' % i) for i in (1, 2)]
    for op in ops:
        op.md['token_endpoint_auth_signing_alg_values_supported'] = ['RS256', 'ES256', 'HS256']
    kw = {}
    if owner == 'own':
        kj = None
    else:
        kj = KeyJar()
        for o, kinds in owner:
            kj.import_jwks(jose.jwks(o, private=True, kinds=kinds), '' if o == 'rp' else ISS[1] if o == 'op1' else 'https://elsewhere.example.com')
    if path != 'absent':
        kw['jwks_path'] = path
    pref = {'token_endpoint_auth_method': method}
    if alg:
        pref['token_endpoint_auth_signing_alg'] = alg
    conf = dynamic_conf(prefs=pref)
    if mode == 'known':
        conf = {op.issuer: dict(copy.deepcopy(conf), issuer=op.issuer) for op in ops}
    else:
        conf = {'': conf}
    here = os.getcwd()
    d = os.path.abspath(tempfile.mkdtemp(dir='.'))
    os.chdir(d)
    try:
        h = RPHandler(base, client_configs=conf, services=services(), keyjar=kj, hash_seed='mc', **kw)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    ctx.state(case)
    mine = [k for k in json.loads(h.keyjar.export_jwks_as_json(False, ''))['keys']]
    url = {'static/jwks.json': '/static/jwks.json', '/static/jwks.json': '/static/jwks.json'}.get(path)
    if owner == 'own' and path in (None, 'absent'):
        url = '/static/jwks.json'
    kinds = {k['kty'] for k in mine if k.get('use') == 'sig'}
    can = method != 'private_key_jwt' or ({'RS256': 'RSA', 'ES256': 'EC'}[alg] in kinds if alg else bool(kinds))
    for i, op in enumerate(ops):
        ok, b = attempt(h.begin, op.issuer)
        ctx.step()
        if not ctx.check(ok, 'begin-failed', repr(b)):
            continue
        reg = op.last_registration
        text = json.dumps(reg)
        if url:
            ctx.check(reg.get('jwks_uri') == base.rstrip('/') + url and 'jwks' not in reg, 'keys-not-registered', '%r %r' % (reg.get('jwks_uri'), reg.get('jwks')))
        else:
            ctx.check('jwks_uri' not in reg, 'strange-jwks-uri', repr(reg.get('jwks_uri')))
            got = (reg.get('jwks') or {}).get('keys', [])
            same = lambda ks: sorted((k['kty'], k.get('n') or k.get('x'), k.get('kid', '')) for k in ks)
            ctx.check(same(got) == same(mine), 'keys-not-registered', '%r instead of %r' % (got, mine))
            for k in got:
                ctx.check(not set(k) & {'d', 'p', 'q', 'dp', 'dq', 'qi', 'k'}, 'private-key-registered', repr(k))
        for c in op.clients.values():
            # the provider fetches jwks_uri, where the application publishes its keys
            c['jwks'] = {'keys': mine} if url else reg.get('jwks')
            c['keys'] = 'nobody'
        ok, res = attempt(lambda: h.finalize(op.issuer, op.authorize(b['url'], 'u%d' % i)))
        ctx.step()
        if can:
            ctx.check(ok and 'error' not in res and res['userinfo']['sub'] == 'u%d' % i, 'login-failed', '%r %r' % (res, op.rejects))
        else:
            ctx.check(not ok or 'error' in res, 'logged-in', repr(res))
            ctx.check(not op.jtis, 'assertion-accepted', '')
        if alg and method.endswith('_jwt'):
            ctx.check(reg.get('token_endpoint_auth_signing_alg') == alg, 'alg-not-registered', repr(reg))
    ctx.outcome((bool(url), method, can, len(mine)))


def case_again(ctx, case):
    """The client registers again: from then on the last answer is used; if that is an error, the one before."""
    seq, method, alg, login_between, carried = case
    w = World()
    op = SimOP(w, ISS[1], 'op1')
    op.issue_rt = True
    op.md['token_endpoint_auth_signing_alg_values_supported'] = ['HS256', 'RS256'] if method == 'client_secret_jwt' else ['RS256']
    op.md['id_token_signing_alg_values_supported'] = ['RS256', 'HS256']
    now = {}
    kinds = ['full'] + list(seq)

    def hook(resp, r):
        kind = kinds[len(now.setdefault('given', []))]
        mine = dict(resp, id_token_signed_response_alg=alg)
        cl = op.clients[resp['client_id']]
        if kind == 'same-id':
            del op.clients[resp['client_id']]
            mine['client_id'] = cl['client_id'] = now['cl']['client_id']
        elif kind == 'same-secret':
            mine['client_secret'] = cl['client_secret'] = now['cl']['client_secret']
        elif kind == 'longer-secret':
            mine['client_secret'] = cl['client_secret'] = cl['client_secret'] + 'x' * 40
        elif kind == 'post':
            mine['token_endpoint_auth_method'] = cl['method'] = 'client_secret_post'
        elif kind in ('error', 'down'):
            del op.clients[resp['client_id']]
            now['given'].append(kind)
            return jresp({'error': 'invalid_client_metadata'}, 400) if kind == 'error' else Resp(503, '')
        cl['id_token_signed_response_alg'] = alg
        if now.get('cl') and kind != 'same-id':
            op.clients.pop(now['cl']['client_id'], None)
        op.clients[cl['client_id']] = cl
        now['cl'] = cl
        now['given'].append(kind)
        return mine
    op.hook['registration'] = hook
    conf = dynamic_conf(prefs={'token_endpoint_auth_method': method, 'id_token_signed_response_alg': alg})
    conf['issuer'] = op.issuer
    h = handler({op.issuer: conf})
    ctx.state(case)

    def login(b=None):
        b = b or h.begin(op.issuer)
        ctx.check(query(b['url'])['client_id'] == now['cl']['client_id'], 'other-client-id', b['url'])
        ok, res = attempt(lambda: h.finalize(op.issuer, op.authorize(b['url'])))
        ctx.step()
        if not ctx.check(ok and 'error' not in res and not op.rejects, 'login-failed', '%r %r' % (res, op.rejects)):
            return
        ok, r = attempt(h.refresh_access_token, b['state'])
        ctx.check(ok and not op.rejects, 'refresh-failed', '%r %r' % (r, op.rejects))
        return b
    b = h.begin(op.issuer)
    if login_between:
        b = login(b)
        if not b:
            return
    c = h.issuer2rp[op.issuer]
    x = c.client_get('service_context')
    for kind in seq:
        ok, r = attempt(c.do_request, 'registration')
        ctx.step()
        ctx.check((ok and 'error' not in r) == (kind not in ('error', 'down')), 'registration', '%s %r' % (kind, r))
        ctx.check(x.client_id == now['cl']['client_id'], 'other-client-id', repr(x.client_id))
        ctx.check(x.client_secret == now['cl']['client_secret'], 'other-secret', repr(x.client_secret))
        if carried == 'each':
            login()
    login()
    # what is signed with a secret the client no longer has isn't accepted
    if alg == 'HS256' and 'same-secret' not in seq and now['given'][-1] not in ('error', 'down'):
        b = h.begin(op.issuer)
        op.hook['sign'] = lambda claims, where, grant: jose.sign(claims, 'HS256', secret='op1-secret-1-0123456789abcdef0123456789abcdef')
        ok, res = attempt(lambda: h.finalize(op.issuer, op.authorize(b['url'])))
        if ok and 'error' not in res:
            ctx.outcome('old secret accepted')
    ctx.outcome((method, alg, seq[-1]))


def parts(tier):
    q = tier == 'quick'
    sets = [s for n in (1, 2, 3) for s in (itertools.combinations(RT, n) if q else itertools.permutations(RT, n))]
    sets += [(o,) for o in ORD] + [('code', o) for o in ORD]
    us = ['form_post_usable', 'request_uri_usable', 'backchannel_logout_usable', 'frontchannel_logout_usable']
    usable = [u for n in range(5) for u in itertools.combinations(us, n)]
    ss = ['backchannel_logout_supported', 'frontchannel_logout_supported']
    support = [(), tuple(ss)] if q else [s for n in range(3) for s in itertools.combinations(ss, n)]
    confd = [(), ('redirect_uris',), ('post_logout_redirect_uris',), tuple(CONF)] + ([] if q else [(k,) for k in CONF if k[0] != 'r' and k[0] != 'p'])
    ur = [(s, u, p, c, m) for s in (sets if not q else [x for x in sets if len(x) < 3] + sets[21::4]) for u in usable for p in support for c in confd
          for m in ('listed', 'silent') if m == 'listed' or not u]
    if q:
        ur = [x for x in ur if len(x[1]) < 2 or len(x[0]) == 1 or (len(x[1]) == 4 and x[2])]
    uni = [(a, b, base, s, c) for a, b in itertools.permutations(UI, 2) for base in (BASE, 'https://rp2.example.com/sub') for s in ('', 'seed', 'seed2')
           for c in ('', 'cseed')]
    seqs = [(g,) for g in GOOD] + [(b, g) for b in BAD for g in (['full', 'minimal'] if q else GOOD)] + [(b, c) for b in BAD for c in (BAD[::3] if q else BAD)]
    ans = [(s, m, f, p) for s in seqs for m in ('client_secret_basic', 'client_secret_post', 'private_key_jwt') for f in ('code', 'code id_token', 'id_token')
           for p in (False, True) if not q or not p or len(s) == 1]
    read = [(u, t, a) for u in (ISS[1] + '/registration/7', ISS[1] + '/registration?client_id=a%20b&x=', 'https://reg.example.net/c/1') for t in ('rat', 'a+b/c==')
            for a in ('good', 'error', 'down')]
    args = [(n, f, c, way) for k in (0, 1, 2, 3) for n in itertools.combinations([a for a, _ in ARGS], k) for f in ('code', 'id_token', 'code id_token token')
            for c in ((), ('redirect_uris',), tuple(CONF)) if not c or k < 3 or 'redirect_uris' in n
            for way in ('behaviour', 'request')
            if way == 'behaviour' and 'post_logout_redirect_uris' not in n or way == 'request' and 'not_a_parameter' not in n]
    gr = [(s, g) for s in sets for g in ((), ('refresh_token',), ('authorization_code',), ('implicit', 'refresh_token'), ('client_credentials', 'authorization_code'))
          if g]
    RP, FOREIGN = ('rp', None), ('op1', None)
    owners = ['own', (), (RP,), (('rp', (('EC', 'sig'),)),), (('rp', (('RSA', 'sig'),)),), (RP, FOREIGN), (FOREIGN,), (RP, ('op2', (('EC', 'sig'),)))]
    ky = [(o, p, m, a, mode, base) for o in owners for p in ('static/jwks.json', '/static/jwks.json', '', None, 'absent')
          for m, a in (('client_secret_basic', None), ('client_secret_jwt', None), ('private_key_jwt', None), ('private_key_jwt', 'RS256'), ('private_key_jwt', 'ES256'))
          for mode in ('known', 'found') for base in (BASE, 'https://rp2.example.com/sub/') if not q or o != 'own' or (mode == 'known' and base == BASE and p in ('', 'absent'))]
    K = ['full', 'same-id', 'same-secret', 'longer-secret', 'post', 'error', 'down']
    ag = [(s, m, alg, l, e) for n in ((1, 2) if q else (1, 2, 3)) for s in itertools.product(K, repeat=n)
          for m in ('client_secret_basic', 'client_secret_post', 'client_secret_jwt', 'private_key_jwt')
          for alg in ('RS256', 'HS256') for l in (False, True) for e in ('each', 'end')]
    big = [(n, o, m) for n in many.sizes(tier)[:8] for o in many.ORDERS for m in ('client_secret_basic', 'private_key_jwt')]
    return [Part('many', many.issuers, big, 'issuers x order x authentication', '%d issuers' % many.sizes(tier)[7]), Part('uris', case_uris, ur, 'response types x usable x support x configured'), Part('unique', case_unique, uni, 'issuer pairs x seeds'),
            Part('answers', case_answer, ans, 'registration answers in sequence'), Part('read', case_read, read, 'client configuration endpoint'),
            Part('again', case_again, ag, 'sequences of registrations x authentication x signature'),
            Part('keys', case_keys, ky, 'keys x place of publication x authentication'),
            Part('arguments', case_args, args, 'arguments of the set-up'), Part('grants', case_grants, gr, 'preferred grant types')]


META = dict(rule='distinct (response types, channels, URIs, answers, arguments)')
