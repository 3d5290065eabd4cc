"""C30: client credentials. All sequences of token and refresh requests under several keys x all kinds of answers are executed against a simulated
authorization server and compared, step by step, with a model of what is held under each key; all combinations of authentication method, configured and
requested scope, arguments and endpoint are executed and the requests judged by the server."""
import itertools
from urllib.parse import urlencode

from .. import large
from ..core import Part
from ..world import *

CC = 'oidcrp.oauth2.client_credentials.'
TOKEN = ISS[1] + '/token'
#: what the server answers with -> (status, content type, body or members)
ANSWERS = {
    'full': (200, {'expires_in': 3600, 'refresh_token': True}), 'no-rt': (200, {'expires_in': 600}), 'no-exp': (200, {'refresh_token': True}), 'bare': (200, {}),
    'zero': (200, {'expires_in': 0, 'refresh_token': True}), 'string-exp': (200, {'expires_in': '900'}), 'created': (201, {'expires_in': 60}), 'extra': (200, {'scope': 'a b', 'ext': {'x': [1]}, 'refresh_token': True}),
    'form': (200, 'form'), 'state': (200, {'state': 'other', 'refresh_token': True}),
    'error': (400, {'error': 'invalid_grant', 'error_description': 'no'}), 'error-401': (401, {'error': 'invalid_client'}), 'error-200': (200, {'error': 'invalid_scope'}),
    'error-text': (400, 'text'), 'no-at': (200, 'no-at'), 'no-type': (200, 'no-type'), 'not-json': (200, 'not-json'), 'list': (200, 'list'), 'empty': (200, 'empty'), 'bad-exp': (200, {'expires_in': 'soon'}),
    'at-list': (200, 'at-list'), 'server-error': (500, 'text'), 'redirect': (302, 'text'), 'unavailable': (503, 'text'), 'down': (0, None), 'error-500': (500, {'error': 'server_error'}), 'html': (200, 'html')}
GOOD = [a for a in ANSWERS if list(ANSWERS).index(a) < 10]
KEYS = {'none': {}, 'empty': {'state': ''}, 'k1': {'state': 'k1'}, 'k2': {'state': 'k2'}, 'cc': {'state': 'cc'}}


class Server:
    """The authorization server."""

    def __init__(self, world):
        import requests
        self.world, self.n, self.log, self.next, self.down = world, 0, [], 'full', requests.exceptions.ConnectionError
        world.static[TOKEN] = self.serve

    def serve(self, req):
        self.log.append(req)
        self.n += 1
        status, what = ANSWERS[self.next]
        if what is None:
            raise self.down('down')
        body = {'access_token': 'at-%d' % self.n, 'token_type': 'Bearer'}
        if isinstance(what, dict):
            if 'error' in what:
                body = {}
            body.update(what)
            if body.get('refresh_token') is True:
                body['refresh_token'] = 'rt-%d' % self.n
            self.body = body
            return jresp(body, status)
        self.body = None
        if what == 'form':
            self.body = dict(body, expires_in=120)
            return Resp(status, urlencode(self.body), {'content-type': 'application/x-www-form-urlencoded'})
        text = {'text': 'no', 'no-at': '{"token_type": "Bearer", "expires_in": 1, "refresh_token": "evil"}', 'no-type': '{"access_token": "evil", "refresh_token": "evil"}', 'not-json': '{"access_token": "evil"',
                'list': '["access_token"]', 'empty': '', 'at-list': '{"access_token": ["a", "b"], "token_type": "Bearer"}', 'html': '<html>evil</html>'}[what]
        return Resp(status, text, dict({'content-type': 'text/plain' if what == 'text' else 'text/html' if what == 'html' else 'application/json'}, **({'location': 'https://evil.example.net/'} if status == 302 else {})))


def make(conf=None, token=None, refresh=None, cls=None, extra=None):
    from oidcrp.oauth2 import Client
    from oidcrp.oidc import RP
    w = World()
    s = Server(w)
    svcs = {'token': {'class': CC + 'cc_access_token.CCAccessToken'}, 'refresh_token': {'class': CC + 'cc_refresh_access_token.CCRefreshAccessToken'}}
    for k, v in (('token', token), ('refresh_token', refresh)):
        if v:
            svcs[k]['kwargs'] = {'conf': v}
    svcs.update(extra or {})
    c = (RP if cls == 'rp' else Client)(config=dict({'client_id': 'me', 'client_secret': SECRET, 'issuer': ISS[1], 'provider_info': {'issuer': ISS[1], 'token_endpoint': TOKEN}}, **(conf or {})), services=svcs, keyjar=keyjar())
    return w, s, c


def held(c, key):
    from oidcmsg.oauth2 import AccessTokenResponse
    ok, r = attempt(c.client_get('service_context').state.get_item, AccessTokenResponse, 'token_response', key)
    return r.to_dict() if ok else None


def key_of(k):
    return KEYS[k].get('state') or 'cc'


def case_history(ctx, case):
    """Any sequence of requests and answers."""
    seq, = case
    ctx.state(case)
    w, s, c = make()
    now0 = CLOCK.now
    model = {}                                       # key -> what is held
    for i, (what, k, answer) in enumerate(seq):
        CLOCK.advance(7)
        key = key_of(k)
        s.next = answer
        n = len(s.log)
        before = {x: held(c, x) for x in ('cc', 'k1', 'k2')}
        rt = (model.get(key) or {}).get('refresh_token')
        ok, r = attempt(c.do_request, 'accesstoken' if what == 't' else 'refresh_token', **KEYS[k])
        ctx.step(what=(what, k, answer))
        sent = s.log[n:]
        after = {x: held(c, x) for x in ('cc', 'k1', 'k2')}
        # the request
        if what == 'r' and rt is None:
            ctx.check(not sent and not ok, 'refreshed-without-token', '%r %r' % (r, [(q.form, q.headers.get('authorization')) for q in sent]))
            ctx.check(before == after, 'lost-by-failure', '%r -> %r' % (before, after))
            ctx.outcome('nothing to refresh with')
            continue
        ctx.check(len(sent) == 1, 'not-one-request', '%r: %r' % (sent, r))
        for q in sent:
            ctx.check(q.method == 'POST' and q.url == TOKEN and q.headers.get('content-type') == 'application/x-www-form-urlencoded', 'wrong-request', '%r %r' % (q, q.headers))
            auth = q.headers.get('authorization', '')
            if what == 't':
                ctx.check(q.form == {'grant_type': 'client_credentials'}, 'wrong-token-request', repr(q.form))
                ctx.check(auth == 'Basic ' + base64.b64encode(('me:' + SECRET).encode()).decode(), 'not-authenticated', auth)
            else:
                got = [x for x in (q.form.get('refresh_token'), auth[7:] if auth.startswith('Bearer ') else None) if x]
                ctx.check(got == [rt], 'not-the-newest-refresh-token', '%r instead of %r' % (got, rt))
                ctx.check({k: v for k, v in q.form.items() if k != 'refresh_token'} == {'grant_type': 'refresh_token'}, 'wrong-refresh-request', repr(q.form))
        # the answer
        ctx.outcome((what, answer, ok, type(r).__name__))
        if answer in GOOD:
            ctx.check(ok, 'good-answer-refused', '%s: %r' % (answer, r))
            if not ok:
                continue
            want = dict(s.body)
            if 'expires_in' in want:
                want['expires_in'] = int(want['expires_in'])
                want['__expires_at'] = CLOCK.now + want['expires_in']
            if what == 'r' and 'refresh_token' not in want:
                want['refresh_token'] = rt
            h = after[key] or {}
            if str(h.get('expires_in', '')).isdigit():
                h = dict(h, expires_in=int(h['expires_in']))
            for k2, v in dict(s.body).items():
                ctx.check((int(r[k2]) if k2 == 'expires_in' else plain(r.get(k2))) == (int(v) if k2 == 'expires_in' else v if k2 != 'scope' else v.split(' ')), 'answer-not-returned', '%s: %r' % (k2, r))
            if isinstance(h.get('scope'), list):
                h = dict(h, scope=' '.join(h['scope']))
            if what == 't' and 'refresh_token' not in want and (model.get(key) or {}).get('refresh_token') and 'refresh_token' in h:
                want['refresh_token'] = model[key]['refresh_token']      # an earlier one may be kept
            ctx.check({k2: v for k2, v in h.items()} == want, 'not-what-was-answered', '%r instead of %r' % (h, want))
            model[key] = want
            before[key] = after[key]
        else:
            ctx.check(not ok or 'error' in r, 'bad-answer-accepted:' + answer, repr(r))
            if answer in ('error', 'error-401', 'error-200'):
                ctx.check(ok and r.get('error') == ANSWERS[answer][1]['error'], 'error-not-reported', repr(r))
        ctx.check(before == after, 'lost-by-failure' if answer not in GOOD else 'keys-mixed', '%r -> %r' % (before, after))


METHODS = ['client_secret_basic', 'client_secret_post', 'client_secret_jwt', 'private_key_jwt']


def case_auth(ctx, case):
    """Authentication, scope and arguments."""
    cls, method, how, rmethod, scope, asked, extra, key, alg = case
    ctx.state(case)
    conf = {}
    if scope is not None:
        conf['behaviour'] = {'scope': copy.deepcopy(scope)}
    if 'client_secret_jwt' in (method, rmethod) and 'private_key_jwt' not in (method, rmethod) and alg:
        conf.setdefault('behaviour', {})['token_endpoint_auth_signing_alg'] = alg
    tc = {'default_authn_method': method} if how == 'conf' and method else {}
    rc = {'default_authn_method': rmethod} if how == 'conf' and rmethod else {}
    op = SimOP(World(), ISS[1], 'op1')               # only judges credentials
    op.md['token_endpoint'] = TOKEN
    w, s, c = make(conf, tc, rc, cls)
    for n, (what, m) in enumerate((('accesstoken', method), ('refresh_token', rmethod), ('refresh_token', rmethod))):
        args = copy.deepcopy(extra)
        if asked is not None:
            args['scope'] = copy.deepcopy(asked)
        kw = dict(KEYS[key])
        if how == 'call' and m:
            kw['authn_method'] = m
        s.next = 'full' if n == 0 else 'no-rt'
        ok, r = attempt(c.do_request, what, request_args=args or None, **kw)
        ctx.step()
        if not ok:
            ctx.fail('cannot-get-token', '%s: %r' % (what, r))
            return
        q = s.log[-1]
        form = dict(q.form)
        auth = q.headers.get('authorization', '')
        m = m or ('client_secret_basic' if n == 0 else 'bearer_header')
        if m == 'bearer_header':
            ctx.check(auth == 'Bearer rt-1', 'not-authenticated', auth)
        else:
            op.clients.clear()
            op.add_client('me', SECRET, [], m)
            ok, r = attempt(op.authenticate, q, form)
            ctx.check(ok, 'not-authenticated', '%r: %r %r' % (r, form, auth))
            for k in ('client_id', 'client_secret', 'client_assertion', 'client_assertion_type'):
                form.pop(k, None)
            if n:
                ctx.check(form.pop('refresh_token', None) == 'rt-1', 'not-the-newest-refresh-token', repr(q.form))
        ctx.check(SECRET not in q.url and (m == 'client_secret_post' or SECRET not in str(q.body)), 'secret-leaked', repr(q))
        ctx.check(form.pop('grant_type', None) == ('refresh_token' if n else 'client_credentials'), 'wrong-grant', repr(q.form))
        sc = asked if asked is not None else scope
        sc = ' '.join(sc) if isinstance(sc, list) else sc
        ctx.check(form.pop('scope', '') == (sc or ''), 'wrong-scope', '%r instead of %r' % (q.form, sc))
        ctx.check(form == {k: v for k, v in extra.items()}, 'other-parameters', '%r instead of %r' % (form, extra))
        ctx.check(args == dict(copy.deepcopy(extra), **({'scope': asked} if asked is not None else {})), 'arguments-changed', repr(args))
        ctx.outcome((m, sorted(q.form)))


def parts(tier):
    q = tier == 'quick'
    ops = [(w, k, a) for w in 'tr' for k in KEYS for a in ANSWERS]
    hist = [(s,) for n in (1, 2) for s in itertools.product(ops if not q else [o for o in ops if o[1] in ('none', 'k1', 'k2')], repeat=n) if n == 1 or s[0][2] in GOOD or s[1][2] == 'full']
    # a token, then anything, then what is held is used
    for k, k2 in itertools.product(('none', 'k1') if q else KEYS, ('none', 'k1') if q else KEYS):
        for a0 in ('full', 'no-rt'):
            for w1, a1, a2 in itertools.product('tr', ANSWERS, ('full', 'bare')):
                hist.append(((('t', k, a0), (w1, k2, a1), ('r', k, a2), ('r', k2, 'full')),))
    small = [(w, k, a) for w in 'tr' for k in ('none', 'k1') for a in ('full', 'no-rt', 'error', 'not-json')]
    for n in (3,) if q else (3, 4):
        hist += [(s,) for s in itertools.product(small, repeat=n)]
    auth = list(itertools.product(('client', 'rp'), [None] + METHODS, ('conf', 'call'), [None] + METHODS, (None, ['a'], ['a', 'b'], 'a b'), (None, ['x'], 'x y', []), ({}, {'audience': 'https://api/?a=b&c'}),
                                  ('none', 'k1'), ('HS256',)))
    auth = [a for a in auth if not (a[2] == 'call' and a[1] is None and a[3] is None)]
    if q:
        auth = [a for a in auth if a[7] == 'none' or a[0] == 'client']
        auth = [a for a in auth if a[1] == a[3] or a[1] is None or a[3] is None]
    # different algorithms are needed for one with the secret and one with a private key
    auth = [a for a in auth if not ('client_secret_jwt' in a[:4] and 'private_key_jwt' in a[:4])]
    return [Part('large', large.grants, [(w, n, ch) for w in ('at', 'rt', 'secret', 'id') for n in large.sizes(tier) for ch in large.CHARS], 'what x length x alphabet', 'five requests'),
            Part('histories', case_history, hist, 'histories', 'at most %d requests' % (4,)), Part('authentication', case_auth, auth, 'configurations', 'a token and two refreshes')]


META = dict(rule='distinct (configuration, sequence of requests and answers)', assumptions=[
    'a refresh token may be presented in the body or, as the unit tests require, as a bearer token', 'what a token request that answers without a refresh token means for an earlier refresh token is left open'])
