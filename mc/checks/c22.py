"""C22: saved state. Every history of begin/complete/refresh/user-info/access-token/logout steps of two sessions up to the bound is cut at every
point (and at two points), the dump goes through JSON into a fresh handler of the same configuration, and the remaining steps (results, requests
on the wire, the OP's verdict) are compared with the uninterrupted run; the original, living on, must not change the dump or the copy."""
import itertools

from .. import large
from ..core import Part
from ..env import CLOCK
from ..world import *

FLAVOUR = {
    'static': dict(), 'post': dict(method='client_secret_post'), 'pkj': dict(method='private_key_jwt'), 'pkce': dict(pkce=True),
    'dpop': dict(dpop=True), 'pkce+dpop': dict(pkce=True, dpop=True), 'discover': dict(discover=True), 'hybrid': dict(rt='code id_token'),
    'implicit': dict(rt='id_token token'), 'es256': dict(alg='ES256'), 'norotate': dict(rotate=False),
    'dynamic': dict(dynamic=True), 'dynamic-pkj': dict(dynamic=True, method='private_key_jwt'), 'dynamic-pkce-hybrid': dict(dynamic=True, pkce=True, rt='code id_token'),
    'dynamic-dpop': dict(dynamic=True, dpop=True), 'par': dict(par='strict'), 'dynamic-par': dict(dynamic=True, par='lax', pkce=True),
}
MODES = ['context+services', 'context+info', 'state']
DPOP = {'function': 'oidcrp.oauth2.add_on.dpop.add_support', 'kwargs': {'signing_algorithms': ['ES256', 'RS256']}}


class Pusher:
    """The HTTP client of one process that pushes authorization requests; it isn't part of what can be saved."""

    def __init__(self):
        self.pushed = {}

    def __deepcopy__(self, memo):
        return self

    def get(self, url, data=None, **kw):
        uri = 'urn:ietf:params:oauth:request_uri:%d' % len(self.pushed)
        self.pushed[uri] = url, data
        return jresp({'request_uri': uri, 'expires_in': 60}, 201)


class Run:
    def __init__(self, flavour):
        f = dict(FLAVOUR[flavour])
        self.dynamic = f.pop('dynamic', False)
        dpop, self.rt = f.pop('dpop', False), f.pop('rt', 'code')
        self.w = World()
        op = self.op = SimOP(self.w, ISS[1], 'op1', caps={'dpop_signing_alg_values_supported': ['ES256', 'RS256']} if dpop else {})
        par = f.pop('par', None)
        self.pusher = Pusher()
        if par:
            op.md['pushed_authorization_request_endpoint'] = ISS[1] + '/par'
        op.issue_rt = True
        op.rotate_rt = f.pop('rotate', True)
        op.md['backchannel_logout_supported'] = True
        if self.dynamic:
            m = f.pop('method', None)
            self.conf = dynamic_conf(response_types=(self.rt,), prefs=dict({'backchannel_logout_usable': True}, **({'token_endpoint_auth_method': m} if m else {})),
                                     **f)
            self.conf['issuer'] = op.issuer
        else:
            self.conf = static_conf(op, response_types=(self.rt,), post_logout_redirect_uris=[BASE + '/bye'], **f)
        if dpop:
            self.conf.setdefault('add_ons', {})['dpop'] = copy.deepcopy(DPOP)
        if par:
            self.conf.setdefault('add_ons', {})['par'] = {'function': 'oidcrp.oauth2.add_on.pushed_authorization.add_support', 'kwargs': {
                'body_format': 'urlencoded', 'signing_algorithm': 'RS256', 'http_client': self.pusher, 'merge_rule': par}}
        self.h = self.fresh()
        self.h.client_setup(op.issuer)
        self.b, self.seen = {}, len(self.w.log)
        self.results = []
        self.proofs = set()

    def fresh(self):
        return handler({self.op.issuer: copy.deepcopy(self.conf)}, services(registration_read={'class': 'oidcrp.oidc.read_registration.RegistrationRead'}))

    @property
    def client(self):
        return self.h.issuer2rp[self.op.issuer]

    def dump(self, mode):
        x = self.client.client_get('service_context')
        if mode == 'state':
            return {'state': x.state.dump()}
        d = {'context': x.dump()}
        if mode == 'context+services':
            d['services'] = self.client.client_get('services').dump()
        return d

    def restore(self, mode, d):
        h = self.fresh()
        if mode == 'state':
            c = h.client_setup(self.op.issuer)
            c.client_get('service_context').state.load(d['state'])
            return h
        c = h.init_client(self.op.issuer)
        c.client_get('service_context').load(d['context'])
        if mode == 'context+services':
            c.client_get('services').load(d['services'], init_args={'client_get': c.client_get})
        else:
            h.do_provider_info(c)
            h.do_client_registration(c, self.op.issuer)
        h.issuer2rp[self.op.issuer] = c
        return h

    # ------------------------------------------------------------ steps

    def step(self, name):
        kind, i = name[0], name[1:]
        try:
            r = getattr(self, 'do_' + kind)(i)
        except Exception as e:
            r = 'exception %s' % type(e).__name__
        wire = []
        for q in self.w.log[self.seen:]:
            hdr = {k.lower(): v for k, v in q.headers.items()}
            proof = hdr.get('dpop')
            if q.endpoint == 'jwks':                     # when keys are fetched is up to the key cache
                continue
            wire.append((q.method, q.endpoint, q.url.split('?')[0], tuple(sorted(q.form)), hdr.get('authorization', '').split(' ')[0],
                         self.key(proof) if proof else None, q.answer.status_code if hasattr(q.answer, 'status_code') else ''))
        self.seen = len(self.w.log)
        self.results.append((name, r, wire, len(self.op.rejects)))
        CLOCK.advance(1)

    def key(self, proof):
        """All proofs of a client are made with one key."""
        from .. import jose
        h = jose.decode(proof)[0]
        self.proofs.add(json.dumps(h['jwk'], sort_keys=True))
        return h['alg'], len(self.proofs)

    def do_B(self, i):
        b = self.b[i] = self.h.begin(self.op.issuer)
        q = query(b['url'])
        if 'request_uri' in q:
            url, data = self.pusher.pushed[q['request_uri']]
            b['url'] = b['url'].split('?')[0] + '?' + data
            q = dict(query(b['url']), **{'front ' + k: v if k != 'state' else 0 for k, v in q.items()}, pushed=(url, len(self.pusher.pushed)))
        return {k: v if k not in ('state', 'nonce', 'code_challenge') else len(v) for k, v in q.items()}

    def do_F(self, i):
        resp = self.op.authorize(self.b[i]['url'], 'user' + i, sid='sid-' + i)
        r = self.h.finalize(self.op.issuer, resp)
        return self.view(r, i)

    def view(self, r, i):
        r = plain(r)
        idt = r.get('id_token') or {}
        return sorted(r), r.get('error'), plain(r.get('userinfo') or {}), idt.get('sub'), idt.get('sid'), bool(r.get('token')), r.get('state') == self.b[i]['state']

    def do_R(self, i):
        r = self.h.refresh_access_token(self.b[i]['state'])
        return sorted(plain(r)), r['access_token'] in self.op.tokens

    def do_U(self, i):
        return plain(self.h.get_user_info(self.b[i]['state']))

    def do_A(self, i):
        tok, exp = self.h.get_valid_access_token(self.b[i]['state'])
        return tok in self.op.tokens and self.op.tokens[tok].get('sub', True), exp - CLOCK.now

    def do_H(self, i):
        return bool(self.h.has_active_authentication(self.b[i]['state']))

    def do_L(self, i):
        r = self.h.logout(self.b[i]['state'])
        q = query(r['url'])
        st = q.get('state')
        return {k: v if k not in ('state', 'id_token_hint') else len(v) > 20 for k, v in q.items()}, \
            self.client.client_get('service_context').state.get_state_by_logout_state(st) == self.b[i]['state']

    def do_X(self, i):
        return self.h.clear_session(self.b[i]['state'])

    def do_C(self, i):
        x = self.client.client_get('service_context').state
        return x.get_state_by_sid('sid-' + i) == self.b[i]['state'], x.get_state_by_sub('user' + i) == self.b[i]['state']

    def do_I(self, i):
        return sorted(plain(self.h.get_session_information(self.b[i]['state'])))

    def do_K(self, i):
        """The RP's own keys, and a fresh signature of the OP."""
        x = self.client.client_get('service_context')
        return sorted((o, sorted(set(k.kid for k in x.keyjar.get_issuer_keys(o)))) for o in x.keyjar.owners()), x.client_id, x.client_secret, x.issuer, \
            plain(x.behaviour), x.redirect_uris, plain(x.callback), x.base_url, x.clock_skew


STEPS = {'B': None, 'F': 'B', 'R': 'F', 'U': 'F', 'A': 'F', 'H': 'B', 'L': 'F', 'X': 'B', 'C': 'F', 'I': 'B'}


def sequences(depth, names, kinds):
    """All sequences of steps in which a session is begun before it is used and completed at most once; session 2 comes after 1."""
    out = []

    def grow(seq):
        if len(seq) == depth:
            out.append(tuple(seq))
            return
        done = set(seq)
        n = 0
        for i in names:
            for k in kinds:
                s = k + i
                need = STEPS[k]
                if need and need + i not in done or k == 'B' and (s in done or i != names[0] and 'B' + names[names.index(i) - 1] not in done):
                    continue
                if k == 'F' and s in done or k in 'HCI' and seq and seq[-1] == s:
                    continue
                n += 1
                grow(seq + [s])
        if not n:
            out.append(tuple(seq))
    grow([])
    return out


def run(flavour, seq, cuts=(), mode=None):
    r = Run(flavour)
    for n, s in enumerate(seq):
        for _ in range(cuts.count(n)):
            r.h = r.restore(mode, json.loads(json.dumps(r.dump(mode))))
            r.seen = len(r.w.log)
        r.step(s)
    return r.results


CACHE = {}


def expected(flavour, seq):
    k = (flavour, seq)
    if k not in CACHE:
        CACHE.clear()
        t = CLOCK.now
        CACHE[k] = run(flavour, seq)
        CLOCK.now = t
    return CACHE[k]


def compare(ctx, got, want, sig, where):
    for g, w in zip(got, want):
        ctx.step()
        if g != w:
            kind = 'result' if g[1] != w[1] else 'requests' if g[2] != w[2] else 'op-rejects'
            ctx.fail('%s:%s' % (sig, kind), '%s: step %s gives %r instead of %r' % (where, g[0], g[1:], w[1:]))
            return


def case_cut(ctx, case):
    flavour, seq, mode, cuts = case
    want = expected(flavour, seq)
    got = run(flavour, seq, cuts, mode)
    ctx.state(case)
    ctx.outcome((flavour, mode, len(cuts)))
    compare(ctx, got, want, 'restored-differs', repr(case))


def case_snapshot(ctx, case):
    """The original goes on after the dump; then the copy goes on from the dump; then the original again."""
    flavour, seq, mode, n, how = case
    ctx.state(case)
    ctx.outcome((flavour, mode, how))
    r = Run(flavour)
    for s in seq[:n]:
        r.step(s)
    d = r.dump(mode)
    before = json.dumps(d, sort_keys=True)
    orig = r.h
    b0 = dict(r.b)
    if how == 'original-first':
        for s in seq[n:]:
            r.step(s)
        ctx.check(json.dumps(d, sort_keys=True) == before, 'dump-changed-by-original', repr(case))
    r.h = r.restore(mode, d)
    copy_client = r.client
    ctx.check(json.dumps(r.dump(mode), sort_keys=True) == before or mode != 'context+services', 'loading-changes', '%r' % (case,))
    mine = view_of(orig, r.op)
    for s in ('B8', 'F8', 'R8', 'L8', 'X1'):
        r.step(s)
    ctx.step(len(seq) + 5)
    ctx.check(json.dumps(d, sort_keys=True) == before, 'dump-changed-by-copy', repr(case))
    ctx.check(view_of(orig, r.op) == mine, 'original-changed-by-copy', repr(case))
    theirs = view_of(r.h, r.op)
    r.h, cp = orig, r.h
    for s in ('B9', 'F9', 'L9', 'X9'):
        r.step(s)
    orig.issuer2rp[r.op.issuer].client_get('service_context').behaviour['x-mine'] = ['1']
    ctx.check(view_of(cp, r.op) == theirs, 'copy-changed-by-original', repr(case))


def view_of(h, op):
    c = h.issuer2rp[op.issuer]
    x = c.client_get('service_context')
    return json.dumps([snapshot(c), plain(x.behaviour), plain(x.provider_info), plain(x.registration_response), plain(x.callback), x.redirect_uris,
                       sorted(x.keyjar.owners()), x.client_id, x.config.get('issuer'), sorted(x.add_on)], sort_keys=True, default=str)


def case_read(ctx, case):
    """What the registration gave serves after a restore too."""
    mode, = case
    r = Run('dynamic')
    got = []
    r.op.hook['registration'] = lambda resp, q: dict(resp, registration_access_token='rat-1', registration_client_uri=ISS[1] + '/registration/7')
    r.h = r.fresh()
    r.h.client_setup(r.op.issuer)
    reg = plain(r.client.client_get('service_context').registration_response)

    def serve(req):
        got.append(req)
        return jresp(reg)
    r.w.static[ISS[1] + '/registration/7'] = serve
    r.h = r.restore(mode, json.loads(json.dumps(r.dump(mode))))
    ok, x = attempt(r.client.do_request, 'registration_read')
    ctx.step()
    ctx.state(case)
    ctx.outcome(mode)
    ctx.check(ok and len(got) == 1 and got[0].headers.get('authorization') == 'Bearer rat-1', 'registration-not-read', '%r %r' % (x, got))


def alone(flavour):
    """Whether all that is kept about sessions is in the session store; a DPoP key and a registration aren't."""
    return not FLAVOUR[flavour].get('dynamic') and not FLAVOUR[flavour].get('dpop')


def parts(tier):
    q = tier == 'quick'
    cut = []
    for fl in FLAVOUR:
        main = fl in ('static', 'dynamic', 'dynamic-dpop', 'pkce')
        seqs = sequences(3 if q else 4, ('1',), 'BFRUALXCHI')
        seqs += [s for s in sequences(4 if q else 5, ('1',), 'BFRUAL') if len(s) >= 4 and s[:2] == ('B1', 'F1')]
        if main or not q:
            seqs += [s for s in sequences(4 if q else 5, ('1', '2'), 'BFRX') if 'B2' in s]
        seqs += [('B1', 'F1', 'K1', 'R1', 'U1', 'L1'), ('B1', 'K1', 'F1', 'B2', 'F2', 'R2', 'R1', 'U1', 'L2', 'X1', 'U2')]
        for s in dict.fromkeys(seqs):
            for m in MODES:
                cs = [(i,) for i in range(len(s))]
                if len(s) > 5 or not q:
                    cs += list(itertools.combinations_with_replacement(range(len(s)), 2))
                cut += [(fl, s, m, c) for c in cs if m != 'state' or alone(fl)]
    snap = []
    for fl in FLAVOUR:
        s = ('B1', 'F1', 'R1', 'B2', 'U1', 'F2', 'L1', 'X2')
        snap += [(fl, s, m, n, how) for m in MODES for n in range(len(s) + 1) for how in ('original-first', 'copy-first') if m != 'state' or alone(fl)]
    return [Part('large', large.history, [x + (m,) for x in large.cases('quick' if tier == 'quick' else 'thorough', ('code', 'at', 'rt', 'idt', 'sub', 'userinfo')) for m in ('context', 'state')], 'length x alphabet of a value x what is dumped', 'restored three times'),
            Part('cut', case_cut, cut, 'histories x cut points'), Part('snapshot', case_snapshot, snap, 'histories x dump points'),
            Part('registration', case_read, [(m,) for m in MODES[:2]], 'restores')]


META = dict(rule='distinct (flavour, history, cut points, way of restoring)')
