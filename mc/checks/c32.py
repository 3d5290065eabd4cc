"""C32: plain OAuth2 providers. Every flavour of client x way of answering a token request x user document is taken through a login against a simulated provider
that issues no ID Tokens; interleavings of sessions at an OpenID provider and two plain ones are explored breadth first with a model of what each session
holds; all subsets of services and endpoints x calls must give the result the remaining ones allow or a clear exception."""
import itertools
from urllib.parse import quote, urlencode

from ..core import BFS, Found, Part
from ..env import CLOCK, NET
from ..world import *

A, P = 'oidcrp.', 'oidcrp.provider.'
CODE = {'class': A + 'oauth2.authorization.Authorization'}
OIDC = {'class': A + 'oidc.authorization.Authorization'}
RT2, RTC = {'class': A + 'oauth2.refresh_access_token.RefreshAccessToken'}, {'class': A + 'oidc.refresh_access_token.RefreshAccessToken'}
BEARER = {'kwargs': {'conf': {'default_authn_method': 'bearer_header'}}}
QUERY = {'kwargs': {'conf': {'default_authn_method': ''}}}
#: flavour -> (services, method the client uses, does the user info service want a subject)
FLAVOURS = {
    'github': (dict(authorization=OIDC, access_token={'class': P + 'github.AccessToken'}, userinfo={'class': P + 'github.UserInfo'}, refresh=RTC), 'client_secret_post'),
    'github-bearer': (dict(authorization=CODE, access_token={'class': P + 'github.AccessToken'}, userinfo=dict({'class': P + 'github.UserInfo'}, **BEARER), refresh=RT2), 'client_secret_basic'),
    'github-oidc': (dict(authorization=OIDC, access_token={'class': A + 'oidc.access_token.AccessToken'}, userinfo=dict({'class': A + 'oidc.userinfo.UserInfo'}, **QUERY), refresh=RTC), ''),
    'linkedin': (dict(authorization=OIDC, access_token={'class': P + 'linkedin.AccessToken'}, userinfo={'class': P + 'linkedin.UserInfo'}, refresh=RTC), 'client_secret_post'),
    'facebook': (dict(authorization=OIDC, access_token=dict({'class': A + 'oidc.access_token.AccessToken'}, **{'kwargs': {'conf': {'default_authn_method': ''}}}),
                      userinfo=dict({'class': A + 'oidc.userinfo.UserInfo'}, **QUERY)), ''),
    'plain': (dict(authorization=CODE, access_token={'class': A + 'oauth2.access_token.AccessToken'}, userinfo=dict({'class': P + 'github.UserInfo'}, **BEARER), refresh=RT2), 'client_secret_basic'),
    'logout': (dict(authorization=OIDC, access_token={'class': A + 'oidc.access_token.AccessToken'}, userinfo=dict({'class': P + 'github.UserInfo'}, **BEARER), refresh=RTC,
                    end_session={'class': A + 'oidc.end_session.EndSession'}, revocation={'class': A + 'oidc.check_session.CheckSession'}), 'client_secret_basic'),
    'nothing': (dict(authorization=CODE, access_token={'class': A + 'oauth2.access_token.AccessToken'}, refresh=RT2), 'client_secret_post'),
}
SUBJECT = ('github-oidc', 'facebook')
CRASH = (AttributeError, TypeError, NameError, IndexError, RecursionError, AssertionError, UnicodeError)


class PlainOP(SimOP):
    """No ID Tokens; the access token of a user info request in the header or in the query."""
    doc = None
    encode = 'json'
    extra = {}
    query_token = False

    def do_token(self, req):
        r = SimOP.do_token(self, req)
        d = json.loads(r.body)
        d.pop('id_token', None)
        d.update(self.extra)
        d = {k: v for k, v in d.items() if v is not None}
        self.sent = d
        return encoded(d, self.encode)

    def do_userinfo(self, req):
        q = dict(req.args)
        auth = req.headers.get('authorization', '')
        if bool(auth) == ('access_token' in q):
            raise Reject('invalid_token', 'token %r %r' % (auth, q))
        if self.query_token == bool(auth):
            raise Reject('invalid_token', 'not the way this client is configured')
        t = self.tokens.get(q['access_token'] if 'access_token' in q else auth[7:] if auth.startswith('Bearer ') else None)
        if t is None or t['exp'] is not None and t['exp'] <= CLOCK.now:
            raise Reject('invalid_token', 'not valid')
        if set(q) - {'access_token'} - set(dict(parse_qsl(urlsplit(self.md['userinfo_endpoint']).query))):
            raise Reject('invalid_request', 'unexpected %r' % q)
        d = self.doc(t) if self.doc else {'id': t['sub'], 'login': 'Login ' + t['sub']}
        return d if isinstance(d, (Resp, Exception)) else jresp(d)


#: ways of encoding a token answer
ENC = {
    'json': ('json', 'application/json'), 'json-utf8': ('json', 'application/json; charset=utf-8'), 'json-none': ('json', None), 'json-text': ('json', 'text/plain'), 'json-js': ('json', 'text/javascript; charset=utf-8'),
    'form': ('form', 'application/x-www-form-urlencoded'), 'form-utf8': ('form', 'application/x-www-form-urlencoded; charset=utf-8'), 'form-text': ('form', 'text/plain'), 'form-html': ('form', 'text/html; charset=utf-8'),
    'form-none': ('form', None), 'form-upper': ('form', 'Application/X-WWW-Form-Urlencoded')}
#: the ones every client understands: the type says what it is
LABELLED = ('json', 'json-utf8', 'form', 'form-utf8', 'form-upper')


def encoded(d, enc, status=200):
    how, ct = ENC[enc]
    text = json.dumps(d) if how == 'json' else urlencode(d)
    return Resp(status, text, {'content-type': ct} if ct else {})


def configure(op, flavour, only=None, pkce=False, omit=(), method=None):
    svcs, m = FLAVOURS[flavour]
    if method is not None:
        m = method
    cid, ru = 'c-' + op.tag, [BASE + '/cb/' + op.tag]
    op.add_client(cid, SECRET, ru, m or 'client_secret_post')
    op.query_token = flavour in ('github', 'github-oidc', 'facebook')
    b = {'response_types': ['code'], 'scope': ['user', 'repo'], 'token_endpoint_auth_method': m}
    if m == 'none':
        b['token_endpoint_auth_method'] = ''
    conf = {'issuer': op.issuer, 'client_id': cid, 'client_secret': SECRET, 'redirect_uris': ru, 'behaviour': b,
            'provider_info': {e: op.md[e] for e in ('authorization_endpoint', 'token_endpoint', 'userinfo_endpoint') if e not in omit},
            'services': {k: copy.deepcopy(v) for k, v in svcs.items() if only is None or k in only}}
    if pkce:
        conf['add_ons'] = copy.deepcopy(PKCE)
    return conf


def setup(flavour, **kw):
    w = World()
    op = PlainOP(w, ISS[1], 'op1')
    op.issue_rt = True
    op.rotate_rt = True
    h = handler({'p': configure(op, flavour, **kw)})
    return w, op, h


def go(ctx, op, h, user='alice', name='p'):
    b = h.begin(name)
    return b, op.authorize(b['url'], user)


# ---------------------------------------------------------------- logins

DOCS = {
    'id': {'id': 'x-1'}, 'sub': {'sub': 'alice', 'id': 'x-1'}, 'int-id': {'id': 12345, 'login': 'a'}, 'nested': {'id': 'x', 'plan': {'name': 'pro', 'space': 1, 'private': False}},
    'lists': {'id': 'x', 'emails': ['a@b', 'c@d'], 'l': [{'a': 1}, {'b': [2]}], 'one': ['x'], 'none': []}, 'null': {'id': 'x', 'company': None, 'n': {'m': None}}, 'bool': {'id': 'x', 'admin': False, 'hireable': True},
    'zero': {'id': 'x', 'followers': 0, 'ratio': 0.5, 'big': 2 ** 60, 'neg': -1}, 'unicode': {'id': 'x', 'name': 'Åsa Öberg \U0001f600', 'bio': 'line\nline\ttab "q" \\'},
    'lang': {'id': 'x', 'name#sv': 'Åsa', 'name': 'Asa'}, 'names': {'id': 'x', 'state': 'S', 'iss': 'https://other', 'access_token': 'other', 'exp': 1, 'code': 'c', 'client_id': 'z', 'id_token': 'nonsense', 'nonce': 'n', 'user_info': 'u', 'token_type': 't'},
    'sid': {'id': 'x', 'sid': 'SID', 'session_state': 'ss'}, 'nothing': {}, 'urls': {'id': 'x', 'url': 'https://api.example.com/users/a?b=c&d=e#f', 'html': '<b>&amp;</b>'}, 'mark': {'id': 'x', '__expires_at': 5, '__verified_id_token': {'sub': 'eve'}},
    'claims': {'id': 'x', '_claim_names': {'a': 's'}, '_claim_sources': {'s': {'endpoint': 'https://x.example.com/', 'access_token': 'z'}}},
    'int-sub': {'sub': 7}, 'null-sub': {'sub': None, 'id': 'x'}, 'list-sub': {'sub': ['a', 'b'], 'id': 'x'}, 'dict-sub': {'sub': {'a': 'b'}, 'id': 'x'}, 'bool-sub': {'sub': True, 'id': 'x'}, 'odd-sub': {'sub': '__state__', 'id': 'x'},
}


def good_doc(flavour, doc):
    d = DOCS[doc]
    if not d:                                        # is as good as no answer
        return None
    if flavour in SUBJECT:                           # these services demand it
        d = dict({'sub': 'alice'}, **d)
        if not isinstance(d['sub'], str):
            return None
        if doc == 'null':                            # null is not allowed in an OpenID document
            return None
    elif flavour == 'linkedin':
        d = dict(d, id=str(d.get('id', 'x')))
    return d


def clean(d):
    """Members without a value do not count."""
    return {k: v for k, v in d.items() if v is not None and v != '' and v != []}


def case_login(ctx, case):
    flavour, enc, doc, life, pkce = case
    ctx.state(case)
    w, op, h = setup(flavour, pkce=pkce)
    op.encode, op.at_lifetime = enc, life
    want = good_doc(flavour, doc)
    if want is None:
        return
    op.doc = lambda t: want
    b, resp = go(ctx, op, h)
    ok, r = attempt(h.finalize, op.issuer, resp)
    ctx.step(3)
    if not ok:
        return ctx.fail('login:%s' % type(r).__name__, 'login failed: %r, rejects %r' % (r, op.rejects))
    st = b['state']
    at = [t for t in op.tokens][-1]
    has_ui = flavour != 'nothing'
    ctx.check(clean(plain(r['userinfo'])) == (clean(want) if has_ui else {}), 'userinfo', '%r instead of %r' % (plain(r['userinfo']), want))
    ctx.check(r['token'] == at, 'token', '%r instead of %r' % (r['token'], at))
    ctx.check(not r['id_token'] and r['state'] == st and not r.get('error'), 'result', repr(r))
    ctx.check(h.has_active_authentication(st) is False, 'active', 'an active authentication without an ID Token')
    got = h.get_valid_access_token(st)
    ctx.check(got == (at, 0 if life is None else int(CLOCK.now) + life), 'valid-token', '%r' % (got,))
    if has_ui:
        ok, r2 = attempt(h.get_user_info, st)
        ctx.check(ok and clean(plain(r2)) == clean(want), 'userinfo-again', repr(r2))
    if 'refresh' in FLAVOURS[flavour][0]:
        ok, r3 = attempt(h.refresh_access_token, st)
        new = [t for t in op.tokens][-1]
        ctx.check(ok and r3['access_token'] == new != at, 'refresh', '%r %r' % (r3, op.rejects))
        if ok:
            got = h.get_valid_access_token(st)
            ctx.check(got == (new, 0 if life is None else int(CLOCK.now) + life), 'valid-token-refreshed', repr(got))
            if has_ui:
                n = len(w.log)
                ok, r4 = attempt(h.get_user_info, st)
                ctx.check(ok and clean(plain(r4)) == clean(want), 'userinfo-refreshed', repr(r4))
                sent = w.log[-1]
                ctx.check(len(w.log) == n + 1 and new in (sent.args.get('access_token'), sent.headers.get('authorization', '')[7:]), 'userinfo-token', 'not with the new token')
    ctx.check(not op.rejects, 'rejected', repr(op.rejects))
    ctx.step(6)
    ctx.outcome((flavour, ENC[enc][0], life is None))


# ---------------------------------------------------------------- token answers

EXTRA = {
    'as-is': {}, 'lower-type': {'token_type': 'bearer'}, 'scope': {'scope': 'user repo'}, 'scope-comma': {'scope': 'user,repo'}, 'own': {'account': 'x', 'uid': '7'}, 'string-life': {'expires_in': '60'},
    'state': {'state': 'somebody-else'}, 'no-refresh': {'refresh_token': None}, 'iss': {'iss': 'https://other.example.com'}, 'code': {'code': 'other'}, 'sub': {'sub': 'eve'}, 'exp': {'exp': '5'},
    'marked': {'__verified_id_token': {'iss': ISS[1], 'sub': 'eve', 'aud': ['c-op1'], 'exp': 4000000000, 'iat': 1700000000}},
    'marked-life': {'__expires_at': 4000000000}, 'marked-past': {'__expires_at': 5}, 'client': {'client_id': 'eve'},
    'secret': {'client_secret': 'other'}, 'grant': {'grant_type': 'password'}, 'redirect': {'redirect_uri': 'https://evil.example.com/cb'},
    'assertion': {'client_assertion': 'a.b.c', 'client_assertion_type': 'x'}, 'verifier': {'code_verifier': 'v' * 43}}
BAD = {
    'error': {'error': 'bad_verification_code', 'error_description': 'The code is wrong'}, 'error-only': {'error': 'incorrect_client_credentials'}, 'no-token': {'token_type': 'bearer', 'expires_in': 5},
    'error-and-token': {'error': 'x', 'access_token': 'evil', 'token_type': 'bearer', 'expires_in': 5}, 'nothing': {}}


def case_token(ctx, case):
    """A token answer that is good, or not, in all encodings."""
    flavour, enc, what, status = case
    ctx.state(case)
    w, op, h = setup(flavour)
    op.encode, op.at_lifetime = enc, 60
    op.doc = lambda t: dict(good_doc(flavour, 'id'))
    if what in EXTRA:
        op.extra = EXTRA[what]
    else:
        op.hook['token_response'] = lambda *a: (_ for _ in ()).throw(Reject('x', 'y'))
        real = op.do_token
        op.do_token = lambda req: encoded(BAD[what], enc, status)
    b, resp = go(ctx, op, h)
    ok, r = attempt(h.finalize, op.issuer, resp)
    ctx.step(3)
    st = b['state']
    if what in EXTRA:
        if not ok or r.get('error'):
            return ctx.fail('login:' + what, '%r' % (r,))
        at = [t for t in op.tokens][-1]
        ctx.check(r['token'] == at and r['state'] == st and not r['id_token'], 'token:' + what, repr(r))
        ctx.check(h.has_active_authentication(st) is False, 'active:' + what, 'an active authentication without an ID Token')
        ctx.check(clean(plain(r['userinfo'])) == ({} if flavour == 'nothing' else clean(op.doc(None))), 'userinfo:' + what, repr(r))
        got = h.get_valid_access_token(st)
        ctx.check(got == (at, int(CLOCK.now) + 60), 'valid-token:' + what, repr(got))
        if 'refresh' in FLAVOURS[flavour][0]:
            n = len(op.tokens)
            ok, r = attempt(h.refresh_access_token, st)
            if what == 'no-refresh':
                ctx.check(not ok and not isinstance(r, CRASH) and len(op.tokens) == n, 'refresh-without', repr(r))
            else:
                ctx.check(ok and r['access_token'] == [t for t in op.tokens][-1] and len(op.tokens) == n + 1, 'refresh:' + what, repr(r))
    else:
        ctx.check(not ok or bool(r.get('error')), 'accepted:' + what, 'login completed: %r' % (r,))
        ctx.check(ok or not isinstance(r, CRASH), 'crash:' + what, repr(r))
        if not ok and 'error' in BAD[what] and enc in LABELLED:
            ctx.check(BAD[what]['error'] in str(r), 'error-lost:' + what, repr(r))
        ok, r = attempt(h.get_valid_access_token, st)
        ctx.check(not ok and not isinstance(r, CRASH), 'token-kept:' + what, repr(r))
        ctx.check(not [q for q in w.log if q.endpoint == 'userinfo'], 'userinfo-after:' + what, 'user info was asked for')
        ctx.check(h.has_active_authentication(st) is False, 'active', what)
        # another login is not affected
        op.do_token = real
        op.hook.clear()
        b, resp = go(ctx, op, h, 'bob')
        ok, r = attempt(h.finalize, op.issuer, resp)
        ctx.check(ok and not r.get('error'), 'next-login:' + what, repr(r))
    ctx.outcome((flavour, what, ok))


# ---------------------------------------------------------------- user info answers

UI = {
    'error-401': (401, {'error': 'invalid_token'}), 'error-403': (403, {'error': 'insufficient_scope', 'error_description': 'x'}), 'error-200': (200, {'error': 'rate_limited'}), 'message-401': (401, {'message': 'Bad credentials'}), 'message-403': (403, {'message': 'rate limit'}),
    'text-500': (500, 'oops'), 'html-200': (200, '<html></html>'), 'list': (200, [{'id': 'x'}]), 'string': (200, '"x"'), 'null': (200, 'null'), 'number': (200, '7'), 'empty': (200, ''), 'no-content': (204, ''), 'cut': (200, '{"id": "x'), 'redirect': (302, ''),
    'text-400': (400, 'no'), 'list-400': (400, ['no']), 'null-400': (400, 'null'), 'down': (0, None)}


def case_userinfo(ctx, case):
    """A user info answer that is of no use."""
    flavour, what, ct = case
    ctx.state(case)
    import requests
    w, op, h = setup(flavour)
    op.at_lifetime = 60
    status, body = UI[what]

    def answer(t):
        if body is None:
            return requests.exceptions.ConnectionError('down')
        return Resp(status, body if isinstance(body, str) else json.dumps(body), {'content-type': ct} if ct else {})
    op.doc = answer
    b, resp = go(ctx, op, h)
    ok, r = attempt(h.finalize, op.issuer, resp)
    ctx.step(4)
    ctx.check(not ok or bool(r.get('error')), 'accepted:' + what, 'login completed: %r' % (r,))
    ctx.check(ok or not isinstance(body, dict) or not isinstance(r, CRASH), 'crash:' + what, repr(r))
    if isinstance(body, dict) and 'error' in body:
        ctx.check(body['error'] in str(r), 'error-lost:' + what, repr(r))
    st = b['state']
    got = h.get_valid_access_token(st)
    ctx.check(got == ([t for t in op.tokens][-1], int(CLOCK.now) + 60), 'valid-token', repr(got))
    d = h.get_session_information(st)
    ctx.check(json.loads(d.get('user_info') or '{}') == {}, 'stored', '%r' % (d.to_dict(),))
    op.doc = lambda t: good_doc(flavour, 'id')
    ok, r = attempt(h.get_user_info, st)
    ctx.check(ok and clean(plain(r)) == clean(op.doc(None)), 'later', repr(r))
    ctx.outcome((flavour, what))


# ---------------------------------------------------------------- interleavings

class Mixed:
    """Sessions at an OpenID provider, github and linkedin, through one handler."""
    USERS = {'o': 'olga', 'g': 'gus', 'l': 'lin'}

    def __init__(self, names='ogl', per=1):
        self.w = World()
        self.ops, confs, self.log = {}, {}, []
        for i, n in enumerate(names, 1):
            cls = SimOP if n == 'o' else PlainOP
            op = self.ops[n] = cls(self.w, ISS[i], 'op%d' % i)
            op.issue_rt, op.rotate_rt, op.at_lifetime = True, True, 600
            confs[n] = static_conf(op, client_id='c-' + op.tag) if n == 'o' else configure(op, {'g': 'github', 'l': 'linkedin'}[n])
            if n == 'g':
                op.encode = 'form'
        self.h = handler(confs)
        self.keys = [(n, k) for n in names for k in range(per)]
        self.s = {}                                  # (n, k) -> model of the session

    def enabled(self):
        out = []
        for key in self.keys:
            s = self.s.get(key)
            if s is None:
                if key[1] == 0 or (key[0], key[1] - 1) in self.s:
                    out.append(('begin', key))
            elif s['phase'] == 'begun':
                out += [('finish', key), ('deny', key), ('fail', key), ('half', key)]
                out += [('mixup', key, o) for o in sorted(self.ops) if o != key[0]]
            elif s['phase'] == 'in':
                out += [('refresh', key), ('info', key), ('clear', key)]
        return out

    def step(self, op):
        NET.world = self.w
        getattr(self, 'do_' + op[0])(op[1], *op[2:])
        for key in self.s:
            self.verify(key)

    def do_begin(self, key):
        b = self.h.begin(key[0])
        self.s[key] = {'phase': 'begun', 'b': b, 'user': self.USERS[key[0]] + str(key[1]), 'token': None, 'info': None, 'tries': 0}
        if b['state'] in [s['b']['state'] for k, s in self.s.items() if k != key]:
            raise Found('same-state', b['state'])

    def answer(self, key, **kw):
        s = self.s[key]
        return self.ops[key[0]].authorize(s['b']['url'], s['user'], **kw)

    def want_info(self, key):
        s = self.s[key]
        return {'sub': s['user'], 'name': 'Name of ' + s['user'], 'email': '%s@%s' % (s['user'], self.ops[key[0]].host)} if key[0] == 'o' else {'id': s['user'], 'login': 'Login ' + s['user']}

    def do_finish(self, key):
        s, op = self.s[key], self.ops[key[0]]
        r = self.h.finalize(op.issuer, self.answer(key))
        if r.get('error') or plain(r['userinfo']) != self.want_info(key) or r['state'] != s['b']['state'] or bool(r['id_token']) != (key[0] == 'o'):
            raise Found('finish', '%r: %r' % (key, r))
        if op.tokens.get(r['token'], {}).get('sub') != s['user']:
            raise Found('finish-token', '%r: %r' % (key, r['token']))
        s.update(phase='in', token=r['token'], info=self.want_info(key))

    def do_deny(self, key):
        r = self.h.finalize(self.ops[key[0]].issuer, self.answer(key, error='access_denied'))
        if r.get('error') != 'access_denied' or r.get('state') != self.s[key]['b']['state'] or r.get('token'):
            raise Found('deny', repr(r))
        self.s[key]['phase'] = 'denied'

    def do_fail(self, key):
        """The token request fails."""
        op = self.ops[key[0]]
        resp = self.answer(key)
        op.hook['token_response'] = lambda *a: jresp({'error': 'temporarily_unavailable'}, 400)
        ok, r = attempt(self.h.finalize, op.issuer, resp)
        op.hook.pop('token_response')
        if ok and not r.get('error') or not ok and isinstance(r, CRASH):
            raise Found('fail', repr(r))
        self.s[key]['phase'] = 'failed'

    def do_half(self, key):
        """The user info request fails: there is a token, but nobody is known."""
        op = self.ops[key[0]]
        resp = self.answer(key)
        real, op.do_userinfo = op.do_userinfo, lambda req: jresp({'error': 'server_error'}, 500)
        ok, r = attempt(self.h.finalize, op.issuer, resp)
        op.do_userinfo = real
        if ok and not r.get('error') or not ok and isinstance(r, CRASH):
            raise Found('half', repr(r))
        self.s[key].update(phase='in', token=[t for t, g in op.tokens.items() if g['state'] == self.s[key]['b']['state']][-1])

    def do_mixup(self, key, other):
        """The answer is delivered as one of another provider."""
        s = self.s[key]
        s['tries'] += 1
        resp = self.answer(key)
        ok, r = attempt(self.h.finalize, self.ops[other].issuer, resp) if self.begun(other) else (False, KeyError())
        if ok and not r.get('error'):
            raise Found('mixup', '%r as %r: %r' % (key, other, r))
        s['phase'] = 'spent' if s['tries'] > 1 else s['phase']

    def begun(self, n):
        return any(k[0] == n for k in self.s)

    def do_refresh(self, key):
        s, op = self.s[key], self.ops[key[0]]
        r = self.h.refresh_access_token(s['b']['state'])
        new = [t for t in op.tokens][-1]
        if r['access_token'] != new or op.tokens[new]['sub'] != s['user']:
            raise Found('refresh', '%r: %r' % (key, r))
        s['token'] = new

    def do_info(self, key):
        s = self.s[key]
        r = self.h.get_user_info(s['b']['state'])
        if plain(r) != self.want_info(key):
            raise Found('info', '%r: %r' % (key, r))
        s['info'] = self.want_info(key)

    def do_clear(self, key):
        self.h.clear_session(self.s[key]['b']['state'])
        self.s[key]['phase'] = 'gone'

    def verify(self, key):
        s = self.s[key]
        st = s['b']['state']
        ok, info = attempt(self.h.get_session_information, st)
        if s['phase'] == 'gone':
            if ok and info:
                raise Found('not-gone', repr(info))
            return
        if not ok or info['iss'] != self.ops[key[0]].issuer:
            raise Found('session', '%r: %r' % (key, info))
        ok, r = attempt(self.h.get_valid_access_token, st)
        if s['token'] is None and ok or s['token'] and (not ok or r[0] != s['token']):
            raise Found('token', '%r: %r instead of %r' % (key, r, s['token']))
        if not ok and isinstance(r, CRASH):
            raise Found('token-crash', repr(r))
        if bool(self.h.has_active_authentication(st)) != (s['token'] is not None and key[0] == 'o'):
            raise Found('active', repr(key))
        got = info.get('user_info')
        got = plain(json.loads(got) if isinstance(got, str) else got) if got else None
        if got != s['info']:
            raise Found('stored-info', '%r: %r instead of %r' % (key, got, s['info']))

    def canon(self):
        out = []
        for key in self.keys:
            s = self.s.get(key)
            out.append((key, s and (s['phase'], bool(s['token']), bool(s['info']), s['tries'])))
        return tuple(out)


# ---------------------------------------------------------------- what is missing

CALLS = ['finalize', 'token', 'userinfo', 'refresh', 'active', 'valid', 'logout', 'close', 'session', 'clear']


def case_missing(ctx, case):
    """All subsets of services and endpoints: calls give what the rest allows."""
    flavour, svcs, omit, order = case
    ctx.state(case)
    w, op, h = setup(flavour, only=svcs, omit=omit)
    op.at_lifetime = 60
    op.doc = lambda t: good_doc(flavour, 'id')
    can = {'authorize': 'authorization' in svcs and 'authorization_endpoint' not in omit}
    can['token'] = 'access_token' in svcs and 'token_endpoint' not in omit and can['authorize']
    can['userinfo'] = 'userinfo' in svcs and 'userinfo_endpoint' not in omit
    ok, b = attempt(h.begin, 'p')
    ctx.step()
    if not can['authorize']:
        ctx.check(not ok, 'begin', repr(b))
        return ctx.outcome('begin')
    if not ok:
        return ctx.fail('begin', repr(b))
    st = b['state']
    resp = op.authorize(b['url'])
    ok, r = attempt(h.finalize, op.issuer, resp)
    ctx.step()
    if not can['token']:
        ctx.check(not ok or bool(r.get('error')), 'finalize', repr(r))
        ctx.check(ok or not isinstance(r, CRASH), 'finalize-crash', repr(r))
    elif 'userinfo' in svcs and not can['userinfo']:
        ctx.check(ok or not isinstance(r, CRASH), 'finalize-crash', repr(r))
    else:
        if not ok or r.get('error'):
            return ctx.fail('finalize', '%r %r' % (r, op.rejects))
        ctx.check(r['token'] in op.tokens and clean(plain(r['userinfo'])) == (clean(op.doc(None)) if can['userinfo'] else {}), 'result', repr(r))
    for call in order:
        before = snapshot(h.issuer2rp[op.issuer])
        n = len(w.log)
        fn = {'active': h.has_active_authentication, 'valid': h.get_valid_access_token, 'refresh': h.refresh_access_token, 'userinfo': h.get_user_info, 'logout': h.logout, 'close': h.close, 'session': h.get_session_information, 'clear': h.clear_session}[call]
        ok, r = attempt(fn, st)
        ctx.step()
        if call == 'active':
            ctx.check(ok and r is False, 'active', repr(r))
        elif call == 'valid':
            ctx.check(ok == can['token'] and (ok or not isinstance(r, CRASH)), 'valid', repr(r))
        elif call == 'refresh':
            ctx.check(ok == (can['token'] and 'refresh' in svcs) and (ok or not isinstance(r, CRASH)), 'refresh', repr(r))
        elif call == 'userinfo':
            ctx.check(ok == (can['token'] and can['userinfo']) and (ok or not isinstance(r, CRASH)), 'get-userinfo', repr(r))
        elif call in ('logout', 'close'):
            ctx.check(not ok and type(r).__name__ == 'OidcServiceError', call, repr(r))
        elif call == 'session':
            ctx.check(ok and r['iss'] == op.issuer, 'session', repr(r))
        elif call == 'clear':
            ctx.check(ok, 'clear', repr(r))
        if not ok:
            ctx.check(snapshot(h.issuer2rp[op.issuer]) == before, 'changed-by:' + call, 'a call that failed changed the session')
            ctx.check(len(w.log) == n, 'sent-by:' + call, 'a call that cannot succeed sent a request')
        if call == 'clear':
            break
    ctx.outcome((svcs, omit, can['token'], can['userinfo']))


def parts(tier):
    q = tier == 'quick'
    out = []
    fl = [f for f in FLAVOURS if f != 'logout']
    log = [(f, e, d, life, p) for f in fl for e in LABELLED for d in DOCS for life in (None, 60) for p in (False, True)
           if not (f == 'linkedin' and life is None) and (not q or (e in ('json', 'form') and (not p or d == 'id')))]
    out.append(Part('logins', case_login, log, 'configurations x inputs', 'one login and refresh'))
    tok = [(f, e, w, 200) for f in fl for e in LABELLED for w in EXTRA]
    tok += [(f, e, w, s) for f in fl for e in LABELLED for w in BAD for s in (200, 400, 401, 403, 500)]
    out.append(Part('token-answers', case_token, tok, 'inputs', 'one token answer'))
    ui = [(f, w, ct) for f in fl if f != 'nothing' for w in UI for ct in ('application/json', 'application/json; charset=utf-8', 'text/plain', 'text/html', None)]
    out.append(Part('userinfo-answers', case_userinfo, ui, 'inputs', 'one user info answer'))
    mis = []
    for f in ('github', 'plain', 'linkedin', 'github-oidc', 'logout'):
        names = list(FLAVOURS[f][0])
        for r in range(1, len(names) + 1):
            for sub in itertools.combinations(names, r):
                for k in range(4):
                    for om in itertools.combinations(('authorization_endpoint', 'token_endpoint', 'userinfo_endpoint'), k):
                        calls = ['active', 'valid', 'refresh', 'userinfo', 'logout', 'close', 'session']
                        orders = [calls + ['clear'], calls[::-1] + ['clear']]
                        if not q:
                            orders += [list(o) for o in itertools.permutations(('valid', 'refresh', 'userinfo', 'logout'))]
                        mis += [(f, sub, om, tuple(o)) for o in orders]
    out.append(Part('missing', case_missing, mis, 'configurations', 'all subsets of services and endpoints'))
    out.append(BFS('mixed', Mixed, 5 if q else 9, 'histories'))
    if not q:
        out.append(BFS('mixed-2', lambda: Mixed('og', 2), 8, 'histories'))
        out.append(BFS('mixed-plain', lambda: Mixed('gl', 2), 8, 'histories'))
    return out


META = dict(rule='distinct (flavour, encoding, user document, lifetime), (flavour, answer), (flavour, services, endpoints) or session states', assumptions=[
    'members that are empty or null carry no information', 'token answers say what they are in their media type', 'the linkedin flavour requires a lifetime, the OpenID user info service a subject'])
