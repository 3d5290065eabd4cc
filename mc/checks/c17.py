"""C17: DPoP. Every pair of client and OP algorithm lists, endpoint shape, authentication method and flow, and every sequence of
requests by two sessions at one or two OPs; each request on the wire is judged by an independent proof verifier."""
import itertools

from .. import jose, large
from ..core import Part
from ..env import CLOCK
from ..world import *

ALGS = ['RS256', 'ES256', 'ES384', 'HS256', 'none']
PRIVATE = {'d', 'p', 'q', 'dp', 'dq', 'qi', 'oth', 'k'}
KTY = {'RS256': ('RSA', None), 'ES256': ('EC', 'P-256'), 'ES384': ('EC', 'P-384'), 'PS256': ('RSA', None), 'ES512': ('EC', 'P-521')}


def common(client, op):
    return next((a for a in client if a in (op or []) and a in KTY), None)


def mk(client, op_algs, n_ops=1, ep=None, **kw):
    caps = {}
    if op_algs is not None:
        caps['dpop_signing_alg_values_supported'] = list(op_algs)
    if kw.get('method') == 'client_secret_jwt':
        caps['token_endpoint_auth_signing_alg_values_supported'] = ['HS256', 'RS256']
    if ep:
        caps['token_endpoint'] = ISS[1] + '/token' + ep
        caps['userinfo_endpoint'] = ISS[1] + '/userinfo' + ep
    ao = {'dpop': {'function': 'oidcrp.oauth2.add_on.dpop.add_support', 'kwargs': {'signing_algorithms': list(client)}}}
    if kw.pop('pkce_too', False):
        ao.update(copy.deepcopy(PKCE))
    s = Setup(n_ops, op_kw={'caps': caps}, add_ons=ao, **kw)
    for o in s.ops:
        o.issue_rt = True
        o.rotate_rt = False
    return s


class Judge:
    def __init__(self, ctx, s, alg):
        self.ctx, self.s, self.alg = ctx, s, alg
        self.keys, self.jtis, self.seen = {}, set(), 0
        self.n = 0

    def __call__(self, what=''):
        ctx = self.ctx
        for r in self.s.w.log[self.seen:]:
            hdr = {k.lower(): v for k, v in r.headers.items()}
            proof = hdr.get('dpop')
            if r.endpoint not in ('token', 'userinfo'):
                ctx.check(proof is None, 'proof-elsewhere', repr(r))
                continue
            if self.alg is None:
                ctx.check(proof is None, 'proof-without-common-algorithm', '%s %s' % (r, proof))
                continue
            self.n += 1
            if not ctx.check(proof is not None, 'no-proof:' + r.endpoint + ':' + r.form.get('grant_type', ''), '%s %s' % (what, r)):
                continue
            try:
                h, c, sig = jose.decode(proof)
                jwk = h['jwk']
                ctx.check(not set(jwk) & PRIVATE, 'private-key-in-proof', repr(sorted(jwk)))
                ctx.check(h.get('typ') == 'dpop+jwt', 'wrong-typ', repr(h))
                ctx.check(h['alg'] == self.alg, 'wrong-alg', '%s, expected %s' % (h['alg'], self.alg))
                ctx.check((jwk['kty'], jwk.get('crv')) == KTY[self.alg], 'wrong-key', repr(jwk))
                jose.verify(proof, {k: v for k, v in jwk.items() if k not in ('use', 'alg', 'key_ops')})
            except Exception as err:
                ctx.fail('proof-does-not-verify', '%r %s' % (err, proof))
                continue
            ctx.check(c.get('htm') == r.method, 'wrong-method', '%r %r' % (c, r))
            ctx.check(c.get('htu') == r.url.split('?')[0].split('#')[0], 'wrong-target', '%r for %s' % (c.get('htu'), r.url))
            ctx.check(c.get('iat') == int(CLOCK.now) and isinstance(c.get('iat'), int), 'wrong-iat', repr(c))
            ctx.check(bool(c.get('jti')) and len(c['jti']) >= 16 and c['jti'] not in self.jtis, 'jti-not-unique', repr(c))
            self.jtis.add(c.get('jti'))
            tp = tuple(sorted(jwk.items()))
            ctx.check(self.keys.setdefault(r.op.issuer, tp) == tp, 'key-changed', '')
        self.seen = len(self.s.w.log)


def case_algs(ctx, case):
    client, op_algs, flow, method, ep, pk = case
    alg = common(client, op_algs)
    s = mk(client, op_algs, ep=ep, method=method, pkce_too=pk)
    j = Judge(ctx, s, alg)
    ok, r = attempt(s.login, 'alice', req_args={'response_type': flow})
    j('login')
    if not ctx.check(ok, 'login-failed', '%r %r' % (r, s.op.rejects)):
        return
    st = r['state']
    CLOCK.advance(3)
    s.h.get_user_info(st)
    j('userinfo')
    s.client().do_request('userinfo', state=st, method='POST', request_args={'access_token': s.h.get_valid_access_token(st)[0]})
    j('userinfo post')
    if flow in ('code', 'code id_token'):
        CLOCK.advance(1)
        ok, r = attempt(s.h.refresh_access_token, st)
        ctx.check(ok, 'refresh-failed', repr(r))
        j('refresh')
    s.login('bob')
    j('second login')
    ctx.check(not s.op.rejects, 'op-rejected', repr(s.op.rejects))
    ctx.check(alg is None or j.n >= 3, 'too-few-requests', str(j.n))
    ctx.step(5)
    ctx.outcome((alg, flow, method))
    ctx.state(case)


def case_seq(ctx, case):
    nops, client, ops = case
    s = mk(client, ['ES256'], n_ops=nops)
    j = Judge(ctx, s, 'ES256')
    st = {}
    for who, what in ops:
        op = s.ops[who % nops]
        if what == 'login' or who not in st:
            st[who] = s.login('u%d' % who, op=op)['state']
        elif what == 'info':
            s.h.get_user_info(st[who])
        elif what == 'refresh':
            s.h.refresh_access_token(st[who])
        elif what == 'fail':
            # a request that fails does not change anything
            op.hook['token_response'] = lambda resp, g, form: jresp({'error': 'invalid_grant'}, 400)
            attempt(s.h.refresh_access_token, st[who])
            op.hook.pop('token_response')
        elif what == 'clear':
            s.h.clear_session(st.pop(who))
        CLOCK.advance(2 if what == 'info' else 0)
        j(what) if what != 'info' else None
        if what == 'info':
            CLOCK.advance(-2)
            j(what)
            CLOCK.advance(2)
        ctx.step()
    ctx.outcome(j.n)
    ctx.state(case)


def case_unsupporting(ctx, case):
    """Client services without a token or user-info service."""
    drop, client, op_algs = case
    names = [n for n in SERVICES if n not in drop]
    ao = {'dpop': {'function': 'oidcrp.oauth2.add_on.dpop.add_support', 'kwargs': {'signing_algorithms': list(client)}}}
    s = Setup(1, op_kw={'caps': {'dpop_signing_alg_values_supported': list(op_algs)} if op_algs is not None else {}}, add_ons=ao,
              svcs=services(*names))
    ok, r = attempt(s.login)
    ctx.check(ok, 'login-failed', repr(r))
    Judge(ctx, s, common(client, op_algs))()
    ctx.outcome(drop)
    ctx.step()
    ctx.state(case)


def parts(tier):
    q = tier == 'quick'
    cl = [()] + [x for n in (1, 2) for x in itertools.permutations(ALGS, n)] + ([] if q else list(itertools.permutations(ALGS, 3)))
    op = [None, ()] + [x for n in (1, 2) for x in itertools.combinations(ALGS[:4], n)] + ([] if q else list(itertools.combinations(ALGS[:4], 3)))
    algs = [(c, o, f, 'client_secret_basic', None, False) for c in cl for o in op for f in ('code', 'code token')
            if not q or f == 'code' or len(c) < 2]
    for m in ('client_secret_basic', 'client_secret_post', 'client_secret_jwt', 'private_key_jwt'):
        for f in ('code', 'code id_token', 'id_token token', 'code id_token token', 'code token'):
            for ep in (None, '?tenant=1'):
                for pk in (False, True):
                    algs.append((('ES256',), ('ES256', 'RS256'), f, m, ep, pk))
    steps = [(w, x) for w in (0, 1) for x in ('login', 'info', 'refresh', 'fail', 'clear')]
    seqs = [(n, ('ES256',), seq) for n in (1, 2) for seq in itertools.product(steps, repeat=3 if q else 4)]
    uns = [(d, c, o) for d in ((), ('userinfo',), ('refresh_access_token',), ('userinfo', 'refresh_access_token'), ('end_session',))
           for c in ((), ('ES256',), ('ES384', 'ES256')) for o in (None, (), ('ES256',), ('RS256',))]
    lg = [(('ES256',), ('ES256',), 'code', 'client_secret_basic', pre + large.value('', n, ch, '1'), False)
          for pre, ch in (('/', 'plain'), ('?t=', 'plain')) for n in large.sizes(tier, 4100)]
    return [Part('large', case_algs, lg, 'endpoints of any length'),
            Part('algorithms', case_algs, algs, 'client x OP algorithm lists, methods, flows, endpoints'),
            Part('sequences', case_seq, seqs, 'request sequences of two sessions'),
            Part('services', case_unsupporting, uns, 'service sets')]


META = dict(rule='distinct (algorithm lists, flow, method, endpoint) and request sequences')
