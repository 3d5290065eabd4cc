"""C31: the wire. All parameter sets over an alphabet of awkward values x endpoints x methods x serialisations are turned into requests by the services and
decoded the way a provider does; all authorization and token responses over the same alphabet are given in every form a response can have (whole redirect
URL with or without a query of its own, query, fragment, dictionary, form, JSON; several escapings and content types) and must be understood the same."""
import itertools
from urllib.parse import quote, urlencode

from .. import form, large
from ..core import Part
from ..world import *

VALUES = ['a', ' ', '  a', 'a ', '+', 'a+b', '%', '%20', '%2B', 'a%', '&', 'a&b=c', '=', '==', '#', 'a#b', '?', 'a?b', '/', ';', 'a;b', ',', ':', '@', '!$\'()*', '"', '\\', "'", '<a>', '{}', '{"a": 1}', '[]', '\n',
          'a\r\nX-Injected: 1', '\t', '\0', 'é', 'ÅÄÖ', '日本', '😀', 'e\u0301', '\u202e', 'null', 'true', '0', '1.0', 'https://rp.example.com/cb?a=b&c=d#e', 'a.b.c', '~-._', '|', '^`', 'None', 'b' * 3000]
NAMES = ['x', 'X', 'a b', 'a&b', 'a=b', 'é', 'a+b', 'x[]', 'a.b', '#', 'a%20']
ENDPOINTS = ['/e', '/e?', '/e?tenant=a', '/e?a=1&b=2', '/e?a=%26%3D%2B+%20', '/e?x=1&x=2', '/e?flag', '/e?empty=', '/e?%C3%A9=%C3%A9', '/a%20b/c;d=e?q=/?', '/e?state=fixed', '']


def client(oidc=True, **conf):
    from oidcrp.oidc import RP
    from oidcrp.oauth2 import Client
    World()
    c = dict({'client_id': 'me', 'client_secret': SECRET, 'redirect_uris': [BASE + '/cb'], 'issuer': ISS[1], 'behaviour': {'response_types': ['code']},
              'provider_info': {'issuer': ISS[1], 'authorization_endpoint': ISS[1] + '/a', 'token_endpoint': ISS[1] + '/t'}}, **conf)
    svcs = services() if oidc else {'authorization': {'class': 'oidcrp.oauth2.authorization.Authorization'}, 'access_token': {'class': 'oidcrp.oauth2.access_token.AccessToken'},
                                    'refresh_token': {'class': 'oidcrp.oauth2.refresh_access_token.RefreshAccessToken'}}
    return (RP if oidc else Client)(config=c, services=svcs, keyjar=keyjar())


def decode(text):
    """The way a provider reads it."""
    return [(k, v) for k, v in parse_qsl(text, keep_blank_values=True, strict_parsing=False)]


def case_request(ctx, case):
    """Any service, any extra parameters."""
    oidc, which, method, ep, extra, body = case
    ctx.state(case)
    c = client(oidc)
    svc = c.client_get('service', which)
    k = c.client_get('service_context')
    state = k.state.create_state(ISS[1])
    args = {'authorization': {'response_type': 'code', 'redirect_uri': BASE + '/cb'}, 'accesstoken': {'code': 'kod', 'redirect_uri': BASE + '/cb', 'grant_type': 'authorization_code'},
            'refresh_token': {'refresh_token': 'rt', 'grant_type': 'refresh_token'}, 'registration': {'redirect_uris': [BASE + '/cb'], 'application_type': 'web'}, 'end_session': {}, 'userinfo': {}}[which]
    args = dict(args, **dict(extra))
    given = copy.deepcopy(args)
    kw = {'state': state, 'endpoint': ISS[1] + ep}
    if 'state' in args:
        del kw['state']
    if which == 'userinfo':
        kw['access_token'] = 'at'
    if body:
        kw['request_body_type'] = body
    ok, info = attempt(svc.get_request_parameters, request_args=args, method=method, **kw)
    ctx.step()
    if not ok:
        ctx.fail('refused', '%r: %r' % (info, given))
        return
    u = urlsplit(info['url'])
    e = urlsplit(ISS[1] + ep)
    ctx.check((u.scheme, u.netloc, u.path, u.fragment) == (e.scheme, e.netloc, e.path, ''), 'other-endpoint', info['url'])
    ctx.check(all(33 <= ord(x) < 127 for x in info['url']), 'not-a-url', info['url'][:300])
    own = decode(e.query)
    if method in ('GET', 'DELETE'):
        ctx.check('body' not in info, 'body-with-get', repr(info)[:300])
        pairs = decode(u.query)
    else:
        ctx.check(decode(u.query) == own and u.query == e.query, 'endpoint-query-changed', info['url'])
        own = []
        t = info['headers']['Content-Type']
        if 'json' in t:
            ctx.check(body == 'json' or which == 'registration', 'other-body-type', t)
            pairs = list(json.loads(info['body']).items())
        else:
            ctx.check(t == 'application/x-www-form-urlencoded' and body != 'json', 'other-body-type', t)
            ctx.check(all(33 <= ord(x) < 127 for x in info['body']), 'not-a-form', info['body'][:300])
            pairs = decode(info['body'])
    got = dict(pairs)
    for n, v in extra:
        g = [x for m, x in pairs if m == n]
        ctx.check(g == [v], 'value-changed', '%r: %r instead of %r' % (n, g, v))
    for n, v in given.items():
        ctx.check(got.get(n) == v, 'value-changed', '%r: %r instead of %r' % (n, got.get(n), v))
    for n in {n for n, _ in own} - set(given) - {'state'}:
        ctx.check([x for m, x in pairs if m == n] == [x for m, x in own if m == n], 'endpoint-query-lost', '%r: %r' % (n, info['url']))
    known = set(given) | {n for n, _ in own} | {'client_id', 'state', 'nonce', 'scope', 'client_secret', 'redirect_uri', 'grant_type', 'id_token_hint', 'post_logout_redirect_uri', 'response_types', 'grant_types', 'jwks', 'jwks_uri',
                                               'contacts', 'token_endpoint_auth_method', 'application_type', 'client_name', 'id_token_signed_response_alg', 'subject_type', 'request_uris', 'default_max_age', 'userinfo_signed_response_alg',
                                               'request_object_signing_alg', 'token_endpoint_auth_signing_alg'}
    ctx.check(set(got) <= known, 'parameters-from-nowhere', repr(set(got) - known))
    for h, v in (info.get('headers') or {}).items():
        ctx.check(not set('\r\n\0') & set(h + v), 'header-injected', repr((h, v)))
    # and it can be sent: what arrives is what was built
    import requests
    ok, p = attempt(lambda: requests.Request(info['method'], info['url'], data=info.get('body'), headers=info.get('headers')).prepare())
    ctx.check(ok, 'cannot-be-sent', repr(p))
    if ok and method in ('GET', 'DELETE'):
        ctx.check(decode(urlsplit(p.url).query) == pairs, 'sent-differently', p.url[:300])
    ctx.outcome((which, method, body, ep))


def esc(params, how):
    """A query or fragment string."""
    if how == 'plus':
        return urlencode(params)
    if how == 'percent':
        return '&'.join('%s=%s' % (quote(k, safe=''), quote(v, safe='')) for k, v in params)
    if how == 'lower':
        import re
        return re.sub('%[0-9A-F]{2}', lambda m: m[0].lower(), '&'.join('%s=%s' % (quote(k, safe=''), quote(v, safe='')) for k, v in params))
    # only what has to be: RFC 3986 allows pchar, / and ? in query and fragment; & = + are delimiters of the form
    return '&'.join('%s=%s' % (quote(k, safe="/?:@!$'()*,;"), quote(v, safe="/?:@!$'()*,;=")) for k, v in params)


ESC = ['plus', 'percent', 'lower', 'minimal']
URLS = {'plain': BASE + '/cb', 'query': BASE + '/cb?tenant=a', 'query2': BASE + '/cb?x=y&z=%20', 'root': 'https://rp.example.com', 'slash': 'https://rp.example.com/', 'custom': 'com.example.app:/cb', 'custom2': 'app://cb',
        'path': '/cb', 'loopback': 'http://127.0.0.1:8080/cb', 'ipv6': 'http://[::1]:8080/cb', 'eq': BASE + '/cb/a=b', 'semi': BASE + '/cb;v=1', 'at': BASE + '/cb/@1,2', 'urn': 'urn:ietf:wg:oauth:2.0:oob'}


def forms(params):
    """Everything a response can look like -> (name, text, may there be parameters of the redirect URI)."""
    for how in ESC:
        q = esc(params, how)
        yield 'query-string/' + how, q, ()
        yield '?query/' + how, '?' + q, ()
        yield '#fragment/' + how, '#' + q, ()
        for n, u in URLS.items():
            own = urlsplit(u).query
            yield 'query:%s/%s' % (n, how), u + ('&' if own else '?') + q, dict(decode(own))
            yield 'query:%s/%s/#_=_' % (n, how), u + ('&' if own else '?') + q + '#_=_', dict(decode(own))
            yield 'query:%s/%s/#' % (n, how), u + ('&' if own else '?') + q + '#', dict(decode(own))
            yield 'fragment:%s/%s' % (n, how), u + '#' + q, ()


def case_response(ctx, case):
    """An authorization response, in all forms."""
    oidc, kind, extra = case
    ctx.state(case)
    c = client(oidc)
    svc = c.client_get('service', 'authorization')
    k = c.client_get('service_context')
    state = k.state.create_state(ISS[1])
    svc.get_request_parameters(request_args={'response_type': {'code': 'code', 'token': 'token', 'error': 'code', 'both': 'code token'}[kind], 'redirect_uri': BASE + '/cb'}, state=state, endpoint=ISS[1] + '/a')
    base = {'code': [('code', 'kod/+='), ('state', state)], 'token': [('access_token', 'at-1'), ('token_type', 'Bearer'), ('expires_in', '60'), ('state', state)],
            'error': [('error', 'access_denied'), ('state', state)], 'both': [('code', 'c1'), ('access_token', 'at-1'), ('token_type', 'Bearer'), ('state', state)]}[kind]
    params = [(n, v) for n, v in base if n not in dict(extra)] + list(extra)
    ref = {n: v for n, v in params}
    ok0, r0 = attempt(svc.parse_response, copy.deepcopy(ref), sformat='dict', state=state)
    ctx.step()
    if not ok0:
        ctx.fail('dict-refused', '%r %r' % (r0, ref))
        return

    def values(r):
        d = r.to_dict()
        if 'expires_in' in d:
            d['expires_in'] = int(d['expires_in'])
        if isinstance(d.get('scope'), list):
            d['scope'] = ' '.join(d['scope'])
        return {n: v for n, v in d.items() if not n.startswith('__')}
    want = values(r0)
    for n, v in params:
        ctx.check(str(want.get(n)) == v, 'value-changed:dict', '%r: %r instead of %r' % (n, want.get(n), v))
    for name, text, own in forms(params):
        if set(own) & set(ref):
            continue
        ok, r = attempt(svc.parse_response, text, sformat='urlencoded', state=state)
        ctx.step()
        form = name.split('/')[0].split(':')[0]
        if not ok:
            ctx.fail('not-understood:' + form, '%s %r: %r' % (name, r, text[:300]))
            continue
        got = values(r)
        for n in own:
            if n not in want:
                got.pop(n, None)
        ctx.check(got == want, 'understood-differently:' + form, '%s %r: %r instead of %r' % (name, text[:300], got, want))
    ctx.outcome((oidc, kind, type(r0).__name__))


CT = {'json': ['application/json', 'application/json; charset=utf-8', 'application/json;charset=UTF-8', 'Application/JSON', None, 'text/plain', 'text/json', 'application/jrd+json'],
      'form': ['application/x-www-form-urlencoded', 'application/x-www-form-urlencoded; charset=utf-8', 'Application/X-WWW-Form-URLEncoded', None]}


def case_token(ctx, case):
    """A token response, in all forms."""
    oidc, extra = case
    ctx.state(case)
    c = client(oidc)
    k = c.client_get('service_context')
    members = dict({'access_token': 'at-1', 'token_type': 'Bearer', 'expires_in': 60, 'refresh_token': 'rt-1'}, **dict(extra))
    w = World()
    texts = [('json', t) for t in (json.dumps(members), json.dumps(members, ensure_ascii=False), json.dumps(members, indent=3), ' \r\n' + json.dumps(members) + '\n')]
    texts += [('form', esc([(n, str(v)) for n, v in members.items()], h)) for h in ESC]
    for fmt, text in texts:
        for ct in CT[fmt]:
            if not text.isascii() and (not ct or not ct.startswith('application/json')):
                continue                             # the encoding is a guess
            state = k.state.create_state(ISS[1])
            w.static[ISS[1] + '/t'] = lambda req: Resp(200, text.encode('utf-8'), {'content-type': ct} if ct else {})
            ok, r = attempt(c.do_request, 'refresh_token', request_args={'refresh_token': 'rt'}, state=state, endpoint=ISS[1] + '/t')
            ctx.step()
            if not ok:
                ctx.fail('not-understood:%s:%s' % (fmt, ct), '%r: %r' % (r, text[:300]))
                continue
            for n, v in members.items():
                g = r.get(n)
                g = ' '.join(g) if n == 'scope' and isinstance(g, list) else g
                ctx.check(str(g) == str(v), 'value-changed:%s' % fmt, '%r: %r instead of %r (%s)' % (n, g, v, ct))
    ctx.outcome(oidc)


def parts(tier):
    q = tier == 'quick'
    out = []
    req = []
    which = [(True, 'authorization'), (False, 'authorization'), (True, 'accesstoken'), (False, 'accesstoken'), (True, 'refresh_token'), (True, 'registration'), (True, 'end_session')]
    for o, s in which:
        for m, b in (('GET', ''), ('POST', 'urlencoded'), ('POST', 'json'), ('DELETE', '')):
            if s == 'registration' and b != 'json' or b == 'json' and s in ('accesstoken', 'refresh_token'):
                continue
            for v in VALUES:
                for ep in ENDPOINTS if not q else ('/e', '/e?a=1&b=2'):
                    req.append((o, s, m, ep, (('x', v),), b))
            for ep in ENDPOINTS:
                for v in ('a', '&=+ é'):
                    req.append((o, s, m, ep, (('x', v),), b))
                    req.append((o, s, m, ep, (('y', v), ('a', 'mine')), b))
            for n in NAMES:
                for v in ('a', '&=+ %é'):
                    req.append((o, s, m, '/e', ((n, v),), b))
            for v in VALUES:
                if s == 'authorization' and b != 'json':
                    req += [(o, s, m, '/e', ((n, v),), b) for n in ('redirect_uri', 'login_hint', 'state')]
                if s == 'accesstoken':
                    req += [(o, s, m, '/e', ((n, v),), b) for n in ('code', 'redirect_uri')]
                if s == 'refresh_token':
                    req += [(o, s, m, '/e', ((n, v),), b) for n in ('refresh_token',)]
                if s == 'registration':
                    req += [(o, s, m, '/e', ((n, v),), b) for n in ('client_name',)]
                if s == 'end_session' and b != 'json':
                    req += [(o, s, m, '/e', ((n, v),), b) for n in ('post_logout_redirect_uri',)]
            if not q:
                for v, v2 in itertools.product(VALUES, repeat=2):
                    req.append((o, s, m, '/e?a=1', (('x', v), ('y', v2)), b))
    out.append(Part('requests', case_request, req, 'inputs', 'one or two awkward values'))
    resp = []
    for o in (True, False):
        for kind in ('code', 'token', 'error', 'both') if o else ('code', 'error', 'both'):
            for v in VALUES:
                resp += [(o, kind, ((n, v),)) for n in ({'code': ('code', 'x'), 'token': ('access_token', 'x'), 'error': ('error_description', 'error_uri'), 'both': ('x',)}[kind])]
            for n in NAMES:
                resp += [(o, kind, ((n, 'a?b'),))]
    if not q:
        for v, v2 in itertools.product(VALUES, repeat=2):
            resp.append((True, 'code', (('code', v), ('x', v2))))
    out.append(Part('responses', case_response, resp, 'inputs', 'one or two awkward values'))
    tok = [(o, ((n, v),)) for o in (True, False) for v in VALUES for n in ('access_token', 'refresh_token', 'x')]
    out.append(Part('tokens', case_token, tok, 'inputs', 'one awkward value'))
    return out + [form.part(tier), large.part(tier, ('session_state', 'code'), ('code', 'code id_token'))]


META = dict(rule='distinct (service, method, endpoint, parameters) or (response parameters)', assumptions=[
    'empty strings are no values: oidcmsg leaves them out', 'a parameter of a request replaces one with the same name in the query of the endpoint', 'U+0000 to U+10FFFF without surrogates'])
