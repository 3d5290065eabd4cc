"""C15: the code exchange. A strict OP (checks code, redirect URI, client, verifier and burns the code) and a monitor on the
wire. Enumerated: flow x PKCE {off, transformations, lengths} x authentication method x redirect URI x handler or bare
services x extra parameters in the authorization response; and all interleavings of the steps of two (thorough: three)
sessions with different redirect URIs at one or two OPs."""
import hashlib
import itertools

from .. import jose
from .. import large
from ..core import Part, interleavings
from ..world import *

FLOWS = ['code', 'code id_token', 'code token', 'code id_token token']
METHODS = ['client_secret_basic', 'client_secret_post', 'client_secret_jwt', 'private_key_jwt']
PK = [None] + [(m, n) for m in ('S256', 'S384', 'S512') for n in (43, 64, 128)]
URIS = [BASE + '/cb/one', BASE + '/cb/two?x=a%20b&y=%26', BASE + '/cb/three/']
HASH = {'S256': 'sha256', 'S384': 'sha384', 'S512': 'sha512'}
ALPHABET = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~')
AUTH = {'client_secret_basic': set(), 'client_secret_post': {'client_secret'},
        'client_secret_jwt': {'client_assertion', 'client_assertion_type'},
        'private_key_jwt': {'client_assertion', 'client_assertion_type'}}
EXTRA = [{}, {'redirect_uri': 'https://evil.example.com/cb'}, {'grant_type': 'client_credentials'}, {'code_verifier': 'v' * 43},
         {'client_assertion': 'a.b.c', 'client_assertion_type': 'x'}, {'client_secret': 'evil'}, {'session_state': 'abc'},
         {'token_endpoint': 'https://evil.example.com/token'}, {'scope': 'openid'}, {'iss': None}]


def pkce(p):
    if p is None:
        return False
    return {'pkce': {'function': 'oidcrp.oauth2.add_on.pkce.add_support',
                     'kwargs': {'code_challenge_length': p[1], 'code_challenge_method': p[0]}}}


def setup(n_ops, method, pk, svc='oidc', uris=URIS):
    beh = {}
    if method == 'client_secret_jwt':
        caps = {'token_endpoint_auth_signing_alg_values_supported': ['HS256']}
    else:
        caps = {'token_endpoint_auth_signing_alg_values_supported': ['RS256', 'ES256']}
    caps['code_challenge_methods_supported'] = ['plain', 'S256', 'S384', 'S512']      # what is configured counts
    kw = {}
    if svc == 'oauth2':
        kw['svcs'] = {k: {'class': 'oidcrp.oauth2.' + v} for k, v in
                      dict(authorization='authorization.Authorization', access_token='access_token.AccessToken').items()}
    s = Setup(n_ops, method=method, pkce=pkce(pk), redirect_uris=uris, op_kw={'caps': caps}, behaviour=beh,
              scope=['openid'] if svc == 'oidc' else ['read'], **kw,
              **({'client_type': 'oauth2'} if svc == 'oauth2' else {}))
    for op in s.ops:
        op.at_lifetime = 100
    s.method, s.pk, s.svc = method, pk, svc
    return s


class One:
    def __init__(self, s, op, flow, uri, user, path):
        self.s, self.op, self.flow, self.uri, self.user, self.path = s, op, flow, uri, user, path
        self.code = None

    def begin(self, ctx):
        s, h = self.s, self.s.h
        args = {'response_type': self.flow}
        if self.uri:
            args['redirect_uri'] = self.uri
        if self.path == 'service':
            cl = h.client_setup(self.op.issuer)
            self.state = getattr(self, 'state', None) or cl.client_get('service_context').state.create_state(self.op.issuer)
            i = cl.client_get('service', 'authorization').get_request_parameters(
                request_args=dict(args, state=self.state, scope=['openid'] if s.svc == 'oidc' else ['read']))
            url = i['url']
        else:
            b = h.begin(self.op.issuer, req_args=args)
            url, self.state = b['url'], b['state']
        self.url, self.q = url, query(url)
        ctx.check('code_verifier' not in self.q, 'verifier-in-front-channel', url)
        if s.pk:
            ctx.check(self.q.get('code_challenge_method') == s.pk[0] and self.q.get('code_challenge'), 'no-challenge', url)
        else:
            ctx.check('code_challenge' not in self.q and 'code_challenge_method' not in self.q, 'unexpected-challenge', url)

    def auth(self, ctx, extra=None):
        extra = dict(extra or {})
        if 'iss' in extra:
            extra['iss'] = self.op.issuer
        resp = self.op.authorize(self.url, self.user)
        self.code = resp['code']
        resp.update(extra)
        cl = self.s.h.issuer2rp[self.op.issuer]
        self.resp = resp
        if self.path == 'service':
            srv = cl.client_get('service', 'authorization')
            r = srv.parse_response(dict(resp), sformat='dict', state=self.state)
            srv.update_service_context(r, key=self.state)
            if self.s.svc == 'oauth2':               # what isn't said is what was asked for (RFC 6749, 3.3)
                ctx.check(plain(r).get('scope') in ([resp.get('scope', 'read')], resp.get('scope', 'read')), 'wrong-scope', repr(plain(r)))
        else:
            self.s.h.finalize_auth(cl, self.op.issuer, dict(resp))

    def token(self, ctx):
        cl = self.s.h.issuer2rp[self.op.issuer]
        n = len(self.s.w.log)
        if self.path == 'handler':
            self.s.h.get_tokens(self.state)
        elif self.path == 'explicit':
            self.s.h.get_tokens(self.state, client=cl)
        else:
            cl.do_request('accesstoken', state=self.state, authn_method=self.s.method,
                          request_args={'state': self.state})
        reqs = [r for r in self.s.w.log[n:] if r.endpoint != 'jwks']
        self.reqs = reqs
        self.judge(ctx, reqs)

    def judge(self, ctx, reqs):
        s = self.s
        if not ctx.check(len(reqs) == 1 and reqs[0].endpoint == 'token' and reqs[0].op is self.op and reqs[0].method == 'POST',
                         'not-one-token-request', repr(reqs)):
            return
        r = reqs[0]
        ctx.check(r.url == self.op.md['token_endpoint'], 'wrong-url', r.url)
        ctx.check(not self.op.rejects, 'op-rejected', repr(self.op.rejects))
        ctx.check(r.answer.status == 200, 'exchange-failed', repr(r.answer.body))
        pairs = parse_qsl(r.body, keep_blank_values=True)
        f = dict(pairs)
        ctx.check(len(f) == len(pairs), 'repeated-parameter', r.body)
        cid = s.h.issuer2rp[self.op.issuer].get_client_id()
        want = {'grant_type': 'authorization_code', 'code': self.code, 'redirect_uri': self.q['redirect_uri']}
        for k, v in want.items():
            ctx.check(f.pop(k, None) == v, 'wrong-' + k, r.body)
        ctx.check(f.pop('state', self.state) == self.state, 'wrong-state', r.body)
        c = f.pop('client_id', None)
        ctx.check(c == cid or (c is None and s.method.endswith('jwt')), 'wrong-client_id', r.body)
        v = f.pop('code_verifier', None)
        if s.pk:
            if ctx.check(v is not None, 'no-verifier', r.body):
                ctx.check(len(v) == s.pk[1], 'verifier-length', '%d' % len(v))
                ctx.check(set(v) <= ALPHABET, 'verifier-alphabet', v)
                d = getattr(hashlib, HASH[s.pk[0]])(v.encode()).digest()
                ctx.check(jose.b64e(d) == self.q['code_challenge'], 'verifier-does-not-fit', '%s %s' % (v, self.url))
        else:
            ctx.check(v is None, 'unexpected-verifier', r.body)
        ctx.check(set(f) == AUTH[s.method], 'other-parameters', repr(f))
        if 'client_assertion' in f:
            ctx.check(jose.decode(f['client_assertion'])[1]['sub'] == cid, 'foreign-assertion', f['client_assertion'])
        self.verifier = v


def case_single(ctx, case):
    flow, pk, method, uri, path, svc, extra = case
    s = setup(1, method, pk, svc)
    one = One(s, s.op, flow, uri, 'alice', path)
    one.begin(ctx)
    ok, err = attempt(one.auth, ctx, extra)
    if not ok:
        # refusing a response with something odd in it is fine, refusing a plain one is not
        ctx.check(bool(extra) and set(extra) & {'redirect_uri', 'grant_type', 'client_secret', 'client_assertion', 'code_verifier'},
                  'response-refused', repr(err))
        ctx.outcome('refused')
        return
    one.token(ctx)
    ctx.step(3)
    ctx.outcome((flow, bool(pk), method, sorted(k for k in one.reqs[0].form) if one.reqs else None))
    ctx.state(case)


def case_unsupported(ctx, case):
    meth, length = case
    ok, s = attempt(setup, 1, 'client_secret_basic', (meth, length))
    if ok:
        ok, b = attempt(s.begin)
    ctx.check(not ok, 'unsupported-transformation-used', repr(b) if ok else '')
    ctx.outcome('raised')
    ctx.state(case)
    ctx.step()


def case_inter(ctx, case):
    order, flows, pk, method, nops, path, svc = case
    s = setup(nops, method, pk, svc)
    ss = [One(s, s.ops[i % nops], flows[i], URIS[i], 'user%d' % i, path) for i in range(len(flows))]
    pos = [0] * len(ss)
    for i in order:
        getattr(ss[i], ('begin', 'auth', 'token')[pos[i]])(ctx)
        pos[i] += 1
        ctx.step()
    if pk:
        ctx.check(len({o.verifier for o in ss}) == len(ss), 'verifier-shared', '')
    # a later request of the session doesn't carry the verifier or code again
    for o in ss:
        if svc == 'oidc':
            n = len(s.w.log)
            s.h.get_user_info(o.state, access_token=s.h.get_valid_access_token(o.state)[0])
            for r in s.w.log[n:]:
                raw = repr((r.url, r.body, dict(r.headers)))
                ctx.check(o.code not in raw and not (pk and o.verifier in raw), 'code-or-verifier-sent-again', raw)
    ctx.outcome((flows, bool(pk)))
    ctx.state(case)


def case_repeat(ctx, case):
    """the request of a session is made anew (the user chose another scope, say) before or after there was a response; the
    exchange always goes with the request that the code was issued for"""
    flow, pk, method, svc, hist = case
    s = setup(1, method, pk, svc)
    o = One(s, s.op, flow, URIS[0], 'alice', 'service')
    seen = []
    for x in hist:
        if x == 'B':
            o.begin(ctx)
            seen.append(o.q.get('code_challenge'))
        elif x == 'C':
            o.uri = URIS[1] if o.uri == URIS[0] else URIS[0]
        else:
            o.auth(ctx)
            o.token(ctx)
        ctx.step()
    ctx.check(not pk or len(set(seen)) == len(seen), 'challenge-repeated', repr(seen))
    ctx.outcome((flow, bool(pk), hist))
    ctx.state(case)


def case_injected(ctx, case):
    """the code of session A (0) is delivered in the callback of session B (1): what B sends is still B's own"""
    order, flow, pk, method, nops, path = case
    s = setup(nops, method, pk)
    ss = [One(s, s.ops[i % nops], flow, URIS[i], 'user%d' % i, path) for i in range(2)]

    def deliver(o, resp):
        cl = s.h.issuer2rp[o.op.issuer]
        if path == 'service':
            srv = cl.client_get('service', 'authorization')
            r = srv.parse_response(dict(resp), sformat='dict', state=o.state)
            srv.update_service_context(r, key=o.state)
        else:
            s.h.finalize_auth(cl, o.op.issuer, dict(resp))

    def exchange(o):
        n = len(s.w.log)
        cl = s.h.issuer2rp[o.op.issuer]
        if path == 'service':
            attempt(cl.do_request, 'accesstoken', state=o.state, authn_method=method, request_args={'state': o.state})
        else:
            attempt(s.h.get_tokens, o.state)
        for r in s.w.log[n:]:
            if r.endpoint != 'token':
                continue
            f = dict(parse_qsl(r.body, keep_blank_values=True))
            ctx.check(f.get('redirect_uri') == o.q['redirect_uri'], 'foreign-redirect_uri', r.body)
            if f.get('client_id') is not None:
                ctx.check(f['client_id'] == cl.get_client_id(), 'foreign-client_id', r.body)
            v = f.get('code_verifier')
            if pk and ctx.check(v is not None, 'no-verifier', r.body):
                d = getattr(hashlib, HASH[pk[0]])(v.encode()).digest()
                ctx.check(jose.b64e(d) == o.q['code_challenge'], 'foreign-verifier', r.body)
            ctx.check(r.op is o.op, 'wrong-op', r.url)

    for o in ss:
        o.begin(ctx)
    resp = ss[0].op.authorize(ss[0].url, 'user0')
    done = []
    for x in order:
        if x == 'A':
            ok, _ = attempt(deliver, ss[0], resp)
            ctx.check(ok, 'response-refused', repr(_))
        elif x == 'a':
            exchange(ss[0])
        elif x == 'B':
            ok, _ = attempt(deliver, ss[1], dict(resp, state=ss[1].state))
            if not ok:
                break
        elif x == 'b':
            exchange(ss[1])
        done.append(x)
        ctx.step()
    ctx.outcome((flow, bool(pk), ''.join(done)))
    ctx.state(case)


def parts(tier):
    q = tier == 'quick'
    single = [(f, p, m, u, path, 'oidc', {}) for f in FLOWS for p in PK for m in METHODS for u in [None] + URIS[1:]
              for path in ('handler', 'explicit', 'service')]
    single += [(f, p, m, u, path, 'oauth2', {}) for f in ('code',) for p in PK for m in METHODS for u in [None] + URIS[1:]
               for path in ('handler', 'service')]
    single += [(f, p, m, None, path, 'oidc', e) for f in FLOWS[:2 if q else 4] for p in (None, ('S256', 64)) for m in METHODS
               for path in ('handler', 'service') for e in EXTRA]
    single += [('code', p, m, None, path, 'oauth2', e) for p in (None, ('S256', 64)) for m in METHODS
               for path in ('handler', 'service') for e in EXTRA]
    inter = [(o, fl, p, m, n, path, svc) for o in interleavings([3, 3])
             for svc, fls in (('oidc', [('code', 'code'), ('code id_token', 'code token')]), ('oauth2', [('code', 'code')]))
             for fl in fls for p in (None, ('S256', 64)) for m in METHODS for n in (1, 2) for path in ('handler', 'service')]
    if not q:
        inter += [(o, ('code', 'code', 'code'), p, m, n, path, 'oidc') for o in interleavings([3, 3, 3])
                  for p in (None, ('S512', 43)) for m in ('client_secret_basic', 'private_key_jwt')
                  for n in (1, 2) for path in ('handler', 'service')]
    inj = [(o, f, p, m, n, path) for o in ('Bb', 'ABab', 'ABba', 'AaBb', 'BAab', 'BAba', 'BbAa', 'AaBbb', 'ABbab')
           for f in ('code', 'code token') for p in (None, ('S256', 64), ('S512', 43)) for m in METHODS for n in (1, 2)
           for path in ('handler', 'service')]
    rep = [(f, p, m, svc, h) for svc in ('oidc', 'oauth2') for f in (FLOWS if svc == 'oidc' else ['code'])
           for p in (None, ('S256', 64), ('S512', 43)) for m in METHODS
           for h in ('BBX', 'BCBX', 'BXBX', 'BXCBX', 'BBBX', 'BXBBX', 'BXBXBX', 'BXCBXCBX')]
    return [large.part(tier, ('code',)),
            Part('repeated', case_repeat, rep, 'several requests of one session'),
            Part('injected', case_injected, inj, 'the code of one session in the callback of another'),
            Part('single', case_single, single, 'one exchange'),
            Part('unsupported', case_unsupported, [(m, n) for m in ('S1', 'md5', 'none', 's256') for n in (43, 64)],
                 'a transformation that is not known'),
            Part('interleaved', case_inter, inter, 'all step orders of two (three) sessions')]


META = dict(rule='distinct (configuration, step order)')
