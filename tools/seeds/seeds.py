seed('c02-token-nonce', ['C02'], [('oidc/access_token.py', """            try:
                if _state_interface.get_state_by_nonce(_idt['nonce']) != key:
                    raise ParameterError('Someone has messed with "nonce"')
            except KeyError:
                raise ValueError('Invalid nonce value')
""", """            _nonce = _idt.get('nonce')
            if _nonce:
                try:
                    if _state_interface.get_state_by_nonce(_nonce) != key:
                        raise ParameterError('Someone has messed with "nonce"')
                except KeyError:
                    raise ValueError('Invalid nonce value')
""")], """
from op import *

op = OP()
h = handler({op.iss: static(op)})
assert login(h, op, 'alice')[1]['userinfo']['sub'] == 'alice'


def no_nonce(rec, answer):
    sub = answer['id_token'] and op.tokens[answer['access_token']]
    return dict(answer, id_token=op.id_token(sub, None, token=answer['access_token']))


answer = op.do_token
op.do_token = lambda rec: no_nonce(rec, answer(rec))
b = h.begin(op.iss)
assert refused(h.finalize, op.iss, op.authorize(b['url'], 'alice')), 'an ID Token without nonce was accepted'
""", 'a token response whose ID Token has no nonce at all (a wrong nonce is still refused)', 'An ID Token that does not carry the nonce of the session logs in that session.')

seed('c10-refresh-order', ['C10'], [('oauth2/refresh_access_token.py', """        _args = _si.extend_request_args({}, oauth2.AccessTokenResponse,
                                        'token_response', _state, parameters)

        _args = _si.extend_request_args(_args, oauth2.AccessTokenResponse,
                                        'refresh_token_response', _state,
                                        parameters)
""", """        _args = {}
        for _item in ['refresh_token_response', 'token_response']:
            _args = _si.extend_request_args(_args, oauth2.AccessTokenResponse, _item, _state,
                                            parameters)
""")], """
from op import *

op = OP()
h = handler({op.iss: static(op)})
s, _ = login(h, op, 'alice')
r1 = h.refresh_access_token(s)
r2 = h.refresh_access_token(s)
assert LOG[-1]['form']['refresh_token'] == r1['refresh_token'], (LOG[-1]['form'], r1)
""", 'two refreshes in a row, with a provider that hands out a new refresh token each time', 'The second refresh sends the first refresh token, which a provider that rotates refresh tokens has revoked.')

seed('c11-front-channel', ['C11'], [('oidc/userinfo.py', """        _args = _state_interface.multiple_extend_request_args(
            {}, kwargs['state'], ['id_token'],
            ['auth_response', 'token_response', 'refresh_token_response']
        )

        try:
            _sub""", """        # The ID Token that came together with the access token
        _args = _state_interface.multiple_extend_request_args(
            {}, kwargs['state'], ['id_token'],
            ['token_response', 'refresh_token_response']
        )

        try:
            _sub""")], """
from op import *

op = OP()
h = handler({op.iss: static(op, behaviour={'response_types': ['id_token token'], 'scope': ['openid']})})
assert login(h, op, 'alice')[1]['userinfo']['sub'] == 'alice'
op.hook['/userinfo'] = lambda rec, a: dict(a, sub='mallory')
b = h.begin(op.iss)
assert refused(h.finalize, op.iss, op.authorize(b['url'], 'alice')), 'user info about someone else'
""", 'the implicit flow, where the only ID Token came in the authorization response', 'User info about another subject is accepted as that of the one who logged in.')

seed('c09-active-order', ['C09'], [('rp_handler.py', """            {}, state, ['__verified_id_token'],
            ['auth_response', 'token_response', 'refresh_token_response'])

        if _arg:
            _now""", """            {}, state, ['__verified_id_token'],
            ['token_response', 'refresh_token_response', 'auth_response'])

        if _arg:
            _now""")], """
from op import *

op = OP()
h = handler({op.iss: static(op, behaviour={'response_types': ['code id_token'], 'scope': ['openid']})})
answer = op.do_token


def short(rec):
    a = answer(rec)
    sub = op.tokens[a['access_token']]
    claims = json.loads(base64.urlsafe_b64decode(a['id_token'].split('.')[1] + '=='))
    return dict(a, id_token=op.id_token(sub, claims['nonce'], token=a['access_token'], iat=int(time.time()) - 60, exp=int(time.time()) - 5))


s, r = login(h, op, 'alice')
assert h.has_active_authentication(s)
op.do_token = short
s, r = login(h, op, 'alice')
assert not h.has_active_authentication(s), 'the newest ID Token has expired'
""", 'a hybrid flow where the ID Token of the token response expires before the one of the authorization response', 'A login is reported as active on the strength of an older ID Token after the newest has expired.')

seed('c15-redirect-uri', ['C15'], [('rp_handler.py', """            'redirect_uri': authorization_request['redirect_uri'],
            'grant_type'""", """            'redirect_uri': pick_redirect_uri(_context,
                                              response_type=authorization_request['response_type']),
            'grant_type'""")], """
from op import *

op = OP()
h = handler({op.iss: static(op, redirect_uris=[BASE + '/cb', BASE + '/other'])})
login(h, op, 'alice')
for uri in (BASE + '/cb', BASE + '/other'):
    b = h.begin(op.iss, req_args={'redirect_uri': uri})
    h.finalize(op.iss, op.authorize(b['url'], 'alice'))
    sent = [r for r in LOG if r['path'] == '/token'][-1]['form']['redirect_uri']
    assert sent == uri, sent
""", 'a session that was started with another redirect URI than the default one', 'The code exchange names another redirect URI than the authorization request did, which providers must refuse.')

seed('c13-explicit-zero', ['C13'], [('service.py', """            if prop in ar_args:
                continue

            for source""", """            if ar_args.get(prop):
                continue

            for source""")], """
from op import *
from oidcrp.defaults import DEFAULT_OIDC_SERVICES

op = OP()
svcs = {k: dict(v) for k, v in DEFAULT_OIDC_SERVICES.items()}
svcs['authorization'] = {'class': 'oidcrp.oidc.authorization.Authorization', 'kwargs': {'conf': {'request_args': {'max_age': 3600}}}}
h = handler({op.iss: static(op)}, services=svcs)


def max_age(**req):
    b = h.begin(op.iss, req_args=req)
    return parse_qs(urlsplit(b['url']).query).get('max_age')


assert max_age() == ['3600'], max_age()
assert max_age(max_age=10) == ['10'], max_age(max_age=10)
assert max_age(max_age=0) == ['0'], max_age(max_age=0)
""", 'a request argument whose value is false in Python (max_age=0) where a default is configured', 'What was asked for is replaced with the configured default: the user is not asked to authenticate again.')

seed('c28-stored-late', ['C28', 'C02', 'C13'], [('oidc/authorization.py', """        _context.state.store_item(req, 'auth_request', req['state'])

        _request_param""", """        _state = req['state']

        _request_param"""), ('oidc/authorization.py', """            for k in _keys:
                del req[k]

        return req""", """            for k in _keys:
                del req[k]

        # The request as it was sent
        _context.state.store_item(req, 'auth_request', _state)
        return req""")], """
from op import *

op = OP()
h = handler({op.iss: static(op, behaviour={'response_types': ['id_token'], 'scope': ['openid']})})
for args in (None, {'request_param': 'request'}):
    b = h.begin(op.iss, behaviour_args=args)
    assert ('request' in parse_qs(urlsplit(b['url']).query)) == bool(args)
    r = {'state': b['state'], 'id_token': op.id_token('mallory', 'some-other-nonce-that-was-not-given')}
    assert refused(h.finalize, op.iss, r), 'wrong nonce with %r' % args
""", 'a login with a request object, in a flow where the ID Token comes in the authorization response', 'Only what is left outside the request object is recorded, so the nonce of the ID Token is not compared with anything.')

seed('c18-issuer-host', ['C18'], [('oauth2/provider_info_discovery.py', """            if _issuer != _pcr_issuer:
                raise OidcServiceError(""", """            # Ports and paths are deployment details
            if urlsplit(_issuer)[:2] != urlsplit(_pcr_issuer)[:2]:
                raise OidcServiceError("""), ('oauth2/provider_info_discovery.py', """import logging
""", """import logging
from urllib.parse import urlsplit
""")], """
from op import *

for wanted, says in (('', ''), ('/tenant1', '/tenant2'), ('', '/tenant1')):
    op = OP()
    op.iss += wanted
    op.md['issuer'] = 'https://op.example.org' + says
    h = handler({'': dynamic()})
    assert refused(h.begin, op.iss) == (wanted != says), (wanted, says)
""", 'a provider at the same host but with another path in its issuer identifier', 'Metadata of one tenant is adopted for another tenant at the same host.')

seed('c16-secret-twice', ['C16'], [('client_auth.py', """        # If client_secret was part of the request message instance remove it
        try:
            del request["client_secret"]
        except (KeyError, TypeError):
            pass

        # Modifies the request
        self._with_or_without_client_id(request, service)
""", """        # Modifies the request
        self._with_or_without_client_id(request, service)
"""), ('client_auth.py', """            'grant_type'] == 'authorization_code':
            if 'client_id' not in request:""", """            'grant_type'] == 'authorization_code':
            # If client_secret was part of the request message instance remove it
            request.pop('client_secret', None)
            if 'client_id' not in request:""")], """
from op import *

op = OP()
h = handler({op.iss: static(op, behaviour={'response_types': ['code'], 'scope': ['openid'], 'token_endpoint_auth_method': 'client_secret_basic'})})
s, _ = login(h, op, 'alice')
h.refresh_access_token(s)
for r in LOG:
    if r['path'] == '/token':
        assert r['headers']['authorization'].startswith('Basic ')
        assert 'client_secret' not in r['form'], r['form']['grant_type']
""", 'a refresh request by a client that authenticates with client_secret_basic', 'The client secret is sent in the body as well as in the header: two authentication methods in one request.')

seed('c23-seed-unused', ['C23'], [('cookie.py', """        # to the top level APIs.
        key = _make_hashed_key((enc_key, seed))
""", """        # to the top level APIs.
        key = _make_hashed_key((enc_key,))
"""), ('cookie.py', """        # Make sure the key is 32-Bytes long
        key = _make_hashed_key((enc_key, seed))
""", """        # Make sure the key is 32-Bytes long
        key = _make_hashed_key((enc_key,))
""")], """
from op import *
from oidcrp.cookie import InvalidCookieSign
from oidcrp.cookie import make_cookie
from oidcrp.cookie import parse_cookie


def value(c):
    return c[1].split(';')[0]


for enc in (None, b'k' * 32):
    c = value(make_cookie('name', 'load', b'seed-one', enc_key=enc))
    assert parse_cookie('name', b'seed-one', c, enc_key=enc)[0] == 'load'
    try:
        r = parse_cookie('name', b'seed-two', c, enc_key=enc)
    except InvalidCookieSign:
        pass
    else:
        raise AssertionError('accepted with another seed: %r' % (r,))
""", 'an encrypted cookie and two sites (or generations of one) that share the encryption key but not the seed', 'An encrypted cookie made with another seed is accepted.')

seed('c13-sticky-arguments', ['C13', 'C04', 'C27', 'C28'], [('service.py', """            _args = self.conf[context].copy()
        except KeyError:""", """            _args = self.conf[context]
        except KeyError:""")], """
from op import *
from oidcrp.defaults import DEFAULT_OIDC_SERVICES

op = OP()
svcs = {k: dict(v) for k, v in DEFAULT_OIDC_SERVICES.items()}
svcs['authorization'] = {'class': 'oidcrp.oidc.authorization.Authorization', 'kwargs': {'conf': {'post_construct': {'lifetime': 60}}}}
h = handler({op.iss: static(op)}, services=svcs)


def keys(**kw):
    return 'request' in parse_qs(urlsplit(h.begin(op.iss, **kw)['url']).query)


assert not keys()
assert keys(behaviour_args={'request_param': 'request'})
assert not keys(), 'what was asked for in one session is used in the next'
""", 'a service with configured construct arguments, and one request with behaviour arguments before one without', 'Arguments given for one session are used for all later sessions.')

seed('c22-callback-lost', ['C22'], [('service_context.py', """        'behaviour': None,
        'callback': None,
""", """        'behaviour': None,
""")], """
from op import *

op = OP()
h = handler({'': dynamic()})
assert login(h, op, 'alice')[1]['userinfo']['sub'] == 'alice'
client = h.issuer2rp[op.iss]
saved = json.loads(json.dumps(client.client_get('service_context').dump()))
h2 = handler({'': dynamic()}, keyjar=h.keyjar)
c2 = h2.init_client(op.iss)
c2.client_get('service_context').load(saved)
b = h2.init_authorization(c2)
assert parse_qs(urlsplit(b['url']).query)['redirect_uri'][0] in op.registered['redirect_uris']
""", 'a dynamically registered client that is restored in another process before it starts a login', 'The restored client does not know the redirect URIs it has registered.')

seed('c20-callback-host', ['C20'], [('oidc/registration.py', """    _hash.update(as_bytes(issuer))
""", """    _hash.update(as_bytes(urlsplit(issuer).netloc))
"""), ('oidc/registration.py', """import hashlib
""", """import hashlib
from urllib.parse import urlsplit
""")], """
from op import *

op = OP()
h = handler({'': dynamic()})
uris = []
for tenant in ('/one', '/two'):
    op.md['issuer'] = op.iss = 'https://op.example.org' + tenant
    b = h.begin(op.iss)
    uris.append(parse_qs(urlsplit(b['url']).query)['redirect_uri'][0])
assert uris[0] != uris[1], uris
""", 'two providers that live at the same host', 'Two providers share one redirect URI, which the URIs are constructed to avoid (mix-up), and the issuer found from the URI is the wrong one.')

seed('c08-hint-order', ['C08'], [('oidc/end_session.py', """            ['auth_response', 'token_response', 'refresh_token_response'],
            orig=True""", """            ['refresh_token_response', 'token_response', 'auth_response'],
            orig=True""")], """
from op import *

op = OP()
h = handler({op.iss: static(op, behaviour={'response_types': ['code id_token'], 'scope': ['openid']})}, services=dict(
    __import__('oidcrp.defaults').defaults.DEFAULT_OIDC_SERVICES, end_session={'class': 'oidcrp.oidc.end_session.EndSession'}))
b = h.begin(op.iss)
front = op.authorize(b['url'], 'alice')
given = []
answer = op.do_token
op.do_token = lambda rec: (given.append(answer(rec)), given[0])[1]
h.finalize(op.iss, dict(front))
hint = parse_qs(urlsplit(h.logout(b['state'])['url']).query)['id_token_hint'][0]
assert hint == given[0]['id_token'] != front['id_token']
""", 'a hybrid flow, where there are two ID Tokens', 'The logout request carries an older ID Token as hint than the newest one of the session.')

seed('c25-shared-verifier', ['C25', 'C15'], [('oauth2/add_on/pkce.py', """    code_verifier = unreserved(cv_len)
    _cv = code_verifier.encode()
""", """    _kwargs['code_verifier'] = unreserved(cv_len)
    _cv = _kwargs['code_verifier'].encode()
"""), ('oauth2/add_on/pkce.py', """    _item = Message(code_verifier=code_verifier, code_challenge_method=_method)
""", """    _item = Message(code_verifier=_kwargs['code_verifier'], code_challenge_method=_method)
""")], """
import threading
from op import *

op = OP()
h = handler({op.iss: static(op, add_ons={'pkce': {'function': 'oidcrp.oauth2.add_on.pkce.add_support', 'kwargs': {'code_challenge_length': 64, 'code_challenge_method': 'S256'}}})})
login(h, op, 'zoe')


def one(out):
    out.append(h.begin(op.iss)['url'])


# The one thread is stopped before its n:th line in the add on, while another user logs in
n, reached = 0, True
while reached:
    n += 1
    reached = False
    count = [0]
    stop, go = threading.Event(), threading.Event()

    def trace(frame, event, arg):
        if 'add_on' not in frame.f_code.co_filename:
            return trace if event == 'call' else None
        if event == 'line':
            count[0] += 1
            if count[0] == n:
                stop.set()
                go.wait(20)
        return trace

    def traced(out):
        sys.settrace(trace)
        one(out)
        sys.settrace(None)
        stop.set()
    a, b = [], []
    t = threading.Thread(target=traced, args=(a,))
    t.start()
    stop.wait(20)
    reached = count[0] >= n
    one(b)
    go.set()
    t.join()
    for url, who in ((a[0], 'alice'), (b[0], 'bob')):
        h.finalize(op.iss, op.authorize(url, who))
        sent = [r for r in LOG if r['path'] == '/token'][-1]['form']['code_verifier']
        want = parse_qs(urlsplit(url).query)['code_challenge'][0]
        assert b64(hashlib.sha256(sent.encode()).digest()) == want, 'line %d: verifier of another session for %s' % (n, who)
""", 'two threads that start a login at the same provider: one makes its verifier between the other making and storing its own', 'The verifier of one session is stored, and sent, for another session: its code can not be exchanged.')

seed('c01-audience', ['C01'], [('oidc/access_token.py', """        _entity = self.client_get("entity")

        kwargs = {
            'client_id': _entity.get_client_id(),
            'iss'""", """
        kwargs = {
            'iss'""")], """
from op import *

op = OP()
h = handler({op.iss: static(op)})
assert login(h, op, 'alice')[1]['userinfo']['sub'] == 'alice'
answer = op.do_token


def other(rec):
    a = answer(rec)
    claims = json.loads(base64.urlsafe_b64decode(a['id_token'].split('.')[1] + '=='))
    return dict(a, id_token=op.id_token(claims['sub'], claims['nonce'], token=a['access_token'], aud=['another-client']))


op.do_token = other
b = h.begin(op.iss)
assert refused(h.finalize, op.iss, op.authorize(b['url'], 'alice')), 'an ID Token for another client was accepted'
""", 'an ID Token from the token endpoint that is meant for another client', 'The audience of ID Tokens from the token endpoint is not verified.')

seed('c07-logout-audience', ['C07'], [('rp_handler.py', """    kwargs = {
        'aud': client.get_client_id(),
        'iss'""", """    kwargs = {
        'iss'""")], """
from op import *
from oidcrp.rp_handler import backchannel_logout

op = OP(backchannel_logout_supported=True, backchannel_logout_session_supported=True)
h = handler({op.iss: static(op)})
s, _ = login(h, op, 'alice')
client = h.issuer2rp[op.iss]


def token(aud):
    now = int(time.time())
    return op.sign({'iss': op.iss, 'sub': 'alice', 'aud': [aud], 'iat': now, 'exp': now + 60, 'jti': 'x' + aud, 'events': {'http://schemas.openid.net/event/backchannel-logout': {}}})


assert backchannel_logout(client, request_args={'logout_token': token('me')}) == s
assert refused(backchannel_logout, client, request_args={'logout_token': token('another')}), 'a logout token for another client'
""", 'a logout token that the provider made for another of its clients', 'A logout token for another client ends the session.')
