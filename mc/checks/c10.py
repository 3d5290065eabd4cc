"""C10: refreshing. Breadth-first search over chains of refresh answers (rotated or kept refresh token, every kind of ID
Token, OAuth errors, HTTP failures, garbage) mixed with user-info and logout calls, for every flow with a refresh token;
after each history the refresh token, access token, identity and logout hint in use are compared with a model."""
from .. import large, many, similar
from ..core import BFS, Found, Part
from ..env import CLOCK
from .. import jose
from ..world import *

FLOWS = [('code', False), ('code id_token', False), ('code id_token token', True), ('code token', True)]
GOOD = ['none', 'same', 'nononce']
BAD = ['sub', 'sub-nononce', 'iss', 'aud', 'expired', 'key', 'alg-none', 'nonce', 'tampered']
#: what else may be in an answer
ALSO = {'': {}, 'all': {'scope': 'openid', 'expires_in': 3600, 'refresh_expires_in': 1800, 'x_own': 'a b'}, 'scope': {'scope': 'openid email'}, 'expires': {'expires_in': '900'}}
#: nearly the right subject or nonce
NEAR = {'sub-longer': 'alice2', 'sub-part': 'lic', 'sub-case': 'Alice', 'sub-space': 'alice ', 'sub-list': ['alice']}
NONCE_NEAR = {'nonce-start': lambda n: n[:8] + 'x' * (len(n) - 8), 'nonce-end': lambda n: n[:-1] + ('a' if n[-1] != 'a' else 'b'), 'nonce-longer': lambda n: n + 'a',
              'nonce-part': lambda n: n[:8], 'nonce-case': lambda n: n.swapcase()}
FAIL = ['error', '500', 'net', 'garbage', 'noat', '302', 'empty', 'html']


class Sys:
    def __init__(self, full=False, dynamic=False, twin=False):
        self.full = full
        self.s = Setup(1, response_types=sorted({f for f, _ in FLOWS}), svcs=services(
            'discovery', 'registration', 'authorization', 'access_token', 'refresh_access_token', 'userinfo', 'end_session'),
            **({'discover': True} if dynamic else {}))
        self.op, self.h = self.s.op, self.s.h
        self.op.issue_rt = True
        self.op.hook['claims'] = self.claims
        self.op.hook['sign'] = self.sign
        self.op.hook['token_response'] = self.token_response
        self.idt_kind = 'same'
        self.members = ''
        self.fail = None
        self.state, self.flow = None, None
        self.rt = self.at = self.idt = self.last_idt = self.exp = None
        self.n_ref = 0
        self.last = None

    # -------------------------------------------------------------- OP side
    def claims(self, c, where, grant):
        c = dict(c)
        if where != 'refresh':
            return c
        k = self.idt_kind
        c['exp'] = c['iat'] + 400 + self.n_ref
        if k == 'nononce':
            c.pop('nonce', None)
        elif k == 'sub-nononce':
            c['sub'] = 'mallory'
            c.pop('nonce', None)
        elif k == 'sub':
            c['sub'] = 'mallory'
        elif k == 'iss':
            c['iss'] = ISS[2]
        elif k == 'aud':
            c['aud'] = ['someone-else']
        elif k == 'expired':
            c['exp'] = c['iat'] - 10000
            c['iat'] -= 20000
        elif k == 'nonce':
            c['nonce'] = 'made-up-nonce'
        elif k in NEAR:
            c['sub'] = NEAR[k]
        elif k in NONCE_NEAR:
            c['nonce'] = NONCE_NEAR[k](c['nonce'])
        return c

    def sign(self, claims, where, grant):
        if where == 'refresh' and self.idt_kind == 'key':
            j = jose.sign(claims, 'RS256', owner='op2')
        elif where == 'refresh' and self.idt_kind == 'alg-none':
            j = jose.sign(claims, 'none')
        else:
            j = jose.sign(claims, 'RS256', owner='op1')
        if where == 'refresh' and self.idt_kind == 'tampered':
            h, p, s = j.split('.')
            j = '.'.join([h, jose.b64e(json.dumps(dict(claims, acr='9'))), s])
        self.last_idt = (j, claims['exp'])
        return j

    def token_response(self, resp, g, form):
        if form['grant_type'] != 'refresh_token':
            return resp
        f = self.fail
        if f == 'error':
            return jresp({'error': 'invalid_grant', 'error_description': 'no'}, 400)
        if f == '500':
            return Resp(500, 'oops', {'content-type': 'text/plain'})
        if f == 'net':
            import requests
            return requests.exceptions.ConnectionError('down')
        if f == 'garbage':
            return Resp(200, '{"access_token": "x', {'content-type': 'application/json'})
        if f == 'noat':
            return jresp({k: v for k, v in resp.items() if k != 'access_token'})
        if f == '302':
            return Resp(302, '', {'location': 'https://evil.example.com/'})
        if f == 'empty':
            return Resp(200, '', {'content-type': 'application/json'})
        if f == 'html':
            return Resp(200, '<html>', {'content-type': 'text/html'})
        resp = {k: v for k, v in resp.items() if k not in ('scope', 'expires_in')}
        return dict(resp, **ALSO[self.members])

    # ---------------------------------------------------------------- steps
    def enabled(self):
        if self.state is None:
            return []
        out = [('refresh', rot, k) for rot in (False, True) for k in GOOD]
        out += [('refresh', rot, k, m) for rot, k, m in ((False, 'none', 'all'), (True, 'none', 'all'), (False, 'same', 'all'), (False, 'none', 'scope'), (True, 'same', 'expires'))]
        out += [('badidt', k) for k in (BAD + list(NEAR) + list(NONCE_NEAR) if self.full else BAD)]
        out += [('fail', k) for k in (FAIL if self.full else FAIL[:5])]
        out += [('userinfo', 'same'), ('userinfo', 'other'), ('logout',), ('scope',)]
        return out

    def login(self, flow, collect):
        b = self.h.begin(self.op.issuer, req_args={'response_type': flow})
        resp = self.op.authorize(b['url'], 'alice')
        res = self.h.finalize(self.op.issuer, resp, {'collect_tokens': True} if collect else None)
        self.state, self.flow = b['state'], flow
        self.at = res['token']
        self.rt = [t for t, g in self.op.rts.items() if not g.get('dead')][-1]
        self.idt, self.exp = self.last_idt

    def step(self, op):
        if op[0] == 'login':
            return self.login(*op[1:])
        if op[0] == 'refresh':
            self.n_ref += 1
            self.members = op[3] if len(op) > 3 else ''
            self.op.rotate_rt, self.idt_kind, self.fail = op[1], op[2], None
            self.op.refresh_idt = op[2] != 'none'
            self.refresh(True)
        elif op[0] == 'scope':
            self.op.rotate_rt, self.op.refresh_idt, self.fail = False, False, None
            self.refresh(True, scope='openid email')
        elif op[0] == 'badidt':
            self.op.rotate_rt, self.idt_kind, self.fail = False, op[1], None
            self.op.refresh_idt = True
            self.refresh(False)
        elif op[0] == 'fail':
            self.op.rotate_rt, self.op.refresh_idt, self.fail = False, False, op[1]
            self.refresh(False)
        elif op[0] == 'userinfo':
            self.userinfo(op[1])
        elif op[0] == 'logout':
            self.logout()
        self.last = op[0]

    def refresh(self, good, **kw):
        n = len(self.s.w.log)
        before = snapshot(self.s.client())
        known = set(self.op.tokens)
        rts = set(self.op.rts)
        ok, res = attempt(self.h.refresh_access_token, self.state, **kw)
        reqs = self.s.w.log[n:]
        tr = [r for r in reqs if r.endpoint == 'token']
        if len(tr) != 1 or len([r for r in reqs if r.endpoint != 'jwks']) != 1:
            raise Found('not-one-request', repr(reqs))
        form = tr[0].form
        if form.get('grant_type') != 'refresh_token' or form.get('refresh_token') != self.rt:
            raise Found('wrong-refresh-token', '%r instead of %r' % (form, self.rt))
        if 'scope' in kw and form.get('scope') != kw['scope']:
            raise Found('scope-not-sent', repr(form))
        if set(form) - {'grant_type', 'refresh_token', 'scope', 'client_id'}:
            raise Found('extra-parameters', repr(form))
        if good:
            if not ok:
                raise Found('refused-good-answer', repr(res))
            self.at = (set(self.op.tokens) - known).pop()
            if res['access_token'] != self.at:
                raise Found('wrong-token-returned', repr(res))
            new = set(self.op.rts) - rts
            if new:
                self.rt = new.pop()
            if self.op.refresh_idt:
                self.idt, self.exp = self.last_idt
        else:
            if ok:
                raise Found('bad-answer-accepted', repr(plain(res)))
            after = snapshot(self.s.client())
            if after != before:
                raise Found('failed-refresh-changed-the-session', '%r -> %r' % (before, after))

    def userinfo(self, kind):
        self.op.hook['userinfo'] = lambda c, t: dict(c, sub='mallory') if kind == 'other' else c
        n = len(self.s.w.log)
        ok, res = attempt(self.h.get_user_info, self.state)
        reqs = [r for r in self.s.w.log[n:] if r.endpoint == 'userinfo']
        if len(reqs) != 1 or reqs[0].headers.get('authorization') != 'Bearer ' + self.at:
            raise Found('userinfo-token', '%r instead of %r' % ([r.headers for r in reqs], self.at))
        if kind == 'other' and ok and self.idt:
            raise Found('user-info-of-other-subject', repr(plain(res)))
        if kind == 'same' and (not ok or res['sub'] != 'alice'):
            raise Found('userinfo-failed', repr(res))

    def logout(self):
        ok, res = attempt(self.h.logout, self.state)
        if not ok:
            raise Found('logout-failed', repr(res))
        hint = query(res['url']).get('id_token_hint')
        if hint != self.idt:
            raise Found('logout-hint', '%r instead of %r' % (hint, self.idt))

    def canon(self):
        """The end of the history: what is in use now?"""
        tok = self.h.get_valid_access_token(self.state)
        if tok[0] != self.at:
            raise Found('token-in-use', '%r instead of %r' % (tok, self.at))
        if not self.h.has_active_authentication(self.state):
            raise Found('no-longer-authenticated', '')
        self.userinfo('same')
        self.userinfo('other')
        self.logout()
        self.op.rotate_rt, self.op.refresh_idt, self.fail = False, False, None
        snap = snapshot(self.s.client())
        self.refresh(True)
        tok = self.h.get_valid_access_token(self.state)
        if tok[0] != self.at:
            raise Found('token-in-use', '%r instead of %r' % (tok, self.at))
        self.userinfo('other')
        self.logout()
        CLOCK.now = float(self.exp - 1)
        if not self.h.has_active_authentication(self.state):
            raise Found('no-longer-authenticated', 'before the newest ID Token expires')
        CLOCK.now = float(self.exp)
        if self.h.has_active_authentication(self.state):
            raise Found('still-authenticated', 'after the newest ID Token expired')
        st = json.loads(snap['_db'][self.state]) if '_db' in snap else snap
        return (self.flow, self.last, sorted((k, sorted(json.loads(v)) if isinstance(v, str) and v.startswith('{') else None)
                                  for k, v in st.items()), self.n_ref)


class Twin(Sys):
    """Two sessions refreshed in turn."""

    def __init__(self):
        Sys.__init__(self)
        self.mem = {}
        self.cur = None

    def enabled(self):
        return [(i,) + op for i in (0, 1) for op in
                [('refresh', True, 'same'), ('refresh', False, 'none'), ('refresh', True, 'none'), ('badidt', 'sub'),
                 ('fail', 'error'), ('swap',)]]

    FIELDS = ('state', 'flow', 'rt', 'at', 'idt', 'exp')

    def switch(self, i):
        if self.cur is not None:
            self.mem[self.cur] = [getattr(self, f) for f in self.FIELDS]
        self.cur = i
        for f, v in zip(self.FIELDS, self.mem.get(i, [None] * 6)):
            setattr(self, f, v)

    def step(self, op):
        self.switch(op[0])
        if op[1:] == ('swap',):
            # the OP answers with the ID Token of the other session (same subject, other nonce)
            other = self.mem.get(1 - op[0])
            self.op.hook['sign'] = lambda claims, where, grant: other[4]
            self.op.rotate_rt, self.idt_kind, self.fail = False, 'same', None
            self.op.refresh_idt = True
            try:
                self.refresh(False)
            finally:
                self.op.hook['sign'] = self.sign
            return
        Sys.step(self, op[1:])

    def canon(self):
        a = []
        for i in sorted(self.mem if self.cur in self.mem else list(self.mem) + [self.cur]):
            self.switch(i)
            CLOCK.reset()
            a.append(Sys.canon(self))
        return a + [self.n_ref]


#: members an answer of the token endpoint has no business to contain
MEMBERS = [{'client_id': 'eve'}, {'client_secret': 'other'}, {'grant_type': 'password'}, {'redirect_uri': 'https://evil.example.com/cb'},
           {'client_assertion': 'a.b.c', 'client_assertion_type': 'x'}, {'code': 'other'}, {'code_verifier': 'v' * 43}, {'state': 'other'},
           {'request': 'x'}, {'authn_method': 'none'}, {'nonce': 'other'}, {'url': 'https://evil.example.com/token'}, {'iss': 'https://evil.example.com'},
           {'subject': 'x', 'audience': 'y'}, {'key': 'other'}, {'method': 'GET'}]


def case_members(ctx, case):
    """What else the answers contain makes no difference to the refresh requests."""
    kind, method, extra, where, rotate = case
    kw = {}
    if method == 'client_secret_jwt':
        kw['op_kw'] = {'caps': {'token_endpoint_auth_signing_alg_values_supported': ['HS256']}}
    s = Setup(1, method=method, **kw)
    op, h = s.op, s.h
    op.issue_rt, op.rotate_rt = True, rotate
    current = []

    def answer(resp, g, form):
        if resp.get('refresh_token'):
            current[:] = [resp['refresh_token']]
        which = 'refresh' if form['grant_type'] == 'refresh_token' else 'token'
        return dict(resp, **extra) if where in (which, 'both') else resp
    op.hook['token_response'] = answer
    ok, r = attempt(s.login, 'alice')
    ctx.state(case)
    if not ctx.check(ok and 'error' not in r, 'login-failed', '%r %r' % (r, op.rejects)):
        return
    bodies = []
    for i in range(3):
        n, rt = len(s.w.log), list(current)
        ok, x = attempt(h.refresh_access_token, r['state'])
        ctx.step()
        if not ctx.check(ok and not op.rejects, 'refresh-failed:' + sorted(extra)[0], '%r %r' % (x, op.rejects)):
            return
        f = dict(parse_qsl(s.w.log[n].body))
        ctx.check(f.pop('refresh_token') == rt[0], 'wrong-refresh-token', s.w.log[n].body)
        f.pop('client_assertion', None)
        bodies.append(f)
        ctx.check(not any(v in f.values() for v in extra.values()), 'echoed', s.w.log[n].body)
        ctx.check(h.get_valid_access_token(r['state'])[0] == x['access_token'], 'not-the-new-token', '')
    ctx.check(bodies[0] == bodies[1] == bodies[2], 'requests-differ', repr(bodies))
    ctx.outcome((method, sorted(extra)[0], where))


def parts(tier):
    q = tier == 'quick'
    out = [BFS('chains', lambda: Sys(full=True), 2 if q else 3, roots=[(('login', f, c),) for f, c in FLOWS],
               rule='refresh answers x user info x logout')]
    out.append(BFS('deep', Sys, 3 if q else 4, roots=[(('login', 'code', False),)]))
    out.append(BFS('two-sessions', Twin, 2 if q else 4,
                   roots=[((0, 'login', f, c), (1, 'login', g, d)) for f, c in FLOWS[:3] for g, d in FLOWS[:1]]))
    out.append(Part('many', many.repeats, [('refresh', n, r) for n in many.sizes(tier)[:9] for r in ('always', 'never', 'alternate', 'once')], 'how often x rotation', 'up to %d times' % many.sizes(tier)[:9][-1]))
    out.append(Part('members', case_members, [('oidc', m, e, w, r) for m in ('client_secret_basic', 'client_secret_post', 'client_secret_jwt', 'private_key_jwt')
                                              for e in MEMBERS for w in ('token', 'refresh', 'both') for r in (False, True)],
                    'members the answers should not have'))
    return out + [similar.part4(tier, ('refresh',)), similar.part(tier, ('refresh', 'nonce-refresh')), large.part(tier, ('rt',))]


META = dict(rule='distinct (flow, stored items and their members, number of refreshes) after a history')
