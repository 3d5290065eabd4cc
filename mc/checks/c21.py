"""C21: failed and garbled HTTP answers. Every endpoint x status x content type x body (and every transport exception), alone and in
sequence, judged at the moment of the request against the stored data, followed by a good answer."""
import itertools
from urllib.parse import urlencode

import requests

from .. import jose
from ..core import Part
from ..world import *

JSON = 'application/json'
FORM = 'application/x-www-form-urlencoded'
CTYPES = [JSON, 'application/json; charset=utf-8', 'text/html', 'text/plain', FORM, 'application/jwt', 'application/jose', 'application/octet-stream', None]
STATUS = [200, 201, 202, 204, 206, 210, 226, 299, 300, 301, 302, 303, 304, 307, 308, 400, 401, 403, 404, 409, 429, 451, 499, 500, 501, 502, 503, 504, 599]
TARGETS = ['discovery', 'registration', 'token', 'refresh', 'userinfo']
BODIES = ['valid', 'valid-form', 'error', 'error-form', 'error+valid', 'empty', 'blank', 'object', 'array', 'in-array', 'string', 'number', 'null', 'cut',
          'trailing', 'html', 'binary', 'missing', 'blank-form', 'jwtlike', 'error-blank', 'error-null', 'true', 'nested']
REQUIRED = {'discovery': 'issuer', 'registration': 'client_id', 'token': 'access_token', 'refresh': 'access_token', 'userinfo': 'sub'}
EXC = ['timeout', 'refused', 'tls', 'chunk', 'redirects', 'oserror']


def body(name, target, good):
    j = json.dumps(good)
    return {'valid': j, 'valid-form': urlencode({k: v if isinstance(v, str) else json.dumps(v) for k, v in good.items()}),
            'error': json.dumps({'error': 'invalid_grant', 'error_description': 'no'}), 'error-form': 'error=invalid_grant&error_description=no',
            'error+valid': json.dumps(dict(good, error='invalid_grant')), 'empty': '', 'blank': ' \n', 'object': '{}', 'array': '[]',
            'in-array': '[%s]' % j, 'string': '"%s"' % 'abc', 'number': '17', 'null': 'null', 'cut': j[:-3], 'trailing': j + '}', 'html': '<html>%s</html>' % j,
            'binary': b'\xff\xfe\x00' + j.encode('utf-16-le'), 'missing': json.dumps({k: v for k, v in good.items() if k != REQUIRED[target]}),
            'blank-form': 'access_token=&token_type=&client_id=&sub=&issuer=', 'jwtlike': 'eyJhbGciOiJub25lIn0.eyJzdWIiOiJhbGljZSJ9.', 'true': 'true',
            'error-blank': json.dumps({'error': ''}), 'error-null': json.dumps({'error': None}), 'nested': json.dumps({'response': good})}[name]


def exc(name):
    x = requests.exceptions
    return {'timeout': x.ReadTimeout, 'refused': x.ConnectionError, 'tls': x.SSLError, 'chunk': x.ChunkedEncodingError, 'redirects': x.TooManyRedirects,
            'oserror': OSError}[name](name)


def client_view(c):
    x = c.client_get('service_context')
    return (x.client_id, x.client_secret, x.issuer, repr(plain(x.provider_info)), repr(plain(x.registration_response)), repr(plain(x.behaviour)),
            sorted((n, s.endpoint) for n, s in c.client_get('services').items()), sorted(x.keyjar.owners()))


def view(c):
    return client_view(c), snapshot(c)


class Sut:
    """One RP and OP with *target* about to be requested. act() makes the request through the handler."""

    def __init__(self, target, flavour='oidc'):
        self.target, self.ep = target, 'token' if target == 'refresh' else target
        self.flavour = flavour
        w = self.w = World()
        op = self.op = SimOP(w, ISS[1], 'op1')
        op.issue_rt = True
        self.seen, self.answer, self.good = [], None, None
        self.count = 0
        conf = dynamic_conf() if target in ('discovery', 'registration') else static_conf(op, discover=True)
        conf['issuer'] = op.issuer
        self.h = handler({op.issuer: conf})
        self.clients = []
        orig = self.h.init_client

        def init_client(issuer):
            c = orig(issuer)
            self.clients.append(c)
            return c
        self.h.init_client = init_client
        w.fault = self.fault
        if target not in ('discovery', 'registration'):
            self.b = self.h.begin(op.issuer)
            self.state = self.b['state']
            self.resp = op.authorize(self.b['url'])
            if target != 'token':
                self.h.finalize(op.issuer, self.resp)
            else:
                self.h.finalize_auth(self.clients[-1], op.issuer, self.resp)

    def fault(self, req, ep):
        if ep != self.ep or self.answer is None:
            return None
        name, ans = self.answer
        self.answer = None
        self.count += 1
        self.seen.append(view(self.clients[-1]))
        if isinstance(ans, Exception):
            return ans
        status, ctype, bname = ans
        # the good answer, without its effects on the OP
        keep = copy.deepcopy((self.op.codes, self.op.tokens, self.op.rts, self.op.clients, self.op.n))
        good = json.loads(self.op.serve(ep, req).body)
        self.op.codes, self.op.tokens, self.op.rts, self.op.clients, self.op.n = keep
        self.good = good
        b = body(bname, self.target, good)
        h = {'content-type': ctype} if ctype else {}
        if 300 <= status < 400:
            h['location'] = 'https://op1.example.org/elsewhere'
        return Resp(status, b, h)

    def act(self):
        h, t = self.h, self.target
        if t in ('discovery', 'registration'):
            return h.begin(self.op.issuer)
        if t == 'token':
            return h.get_tokens(self.state)
        if t == 'refresh':
            return h.refresh_access_token(self.state)
        return h.get_user_info(self.state)

    def value(self, r):
        """What the client now holds for the target."""
        if self.target == 'discovery':
            return plain(self.clients[-1].client_get('service_context').provider_info)
        if self.target == 'registration':
            return plain(self.clients[-1].client_get('service_context').registration_response)
        return plain(r)


def run(ctx, target, seq):
    s = Sut(target)
    for what in seq:
        s.answer = (what, exc(what) if isinstance(what, str) else what)
        n = len(s.clients)
        ok, r = attempt(s.act)
        ctx.step()
        ctx.check(s.count == len(s.seen) and s.answer is None, 'no-request', repr(what))
        if ok:
            # must have been a success message
            good = not isinstance(what, str) and 200 <= what[0] < 300 and what[2] in ('valid', 'valid-form')
            if not ctx.check(good, 'taken-for-success:%s:%s' % (target, what if isinstance(what, str) else what[2]), '%r %r' % (what, plain(r))):
                return
            got = s.value(r)
            for k, v in s.good.items():
                if k in ('id_token',):
                    continue
                if what[2] == 'valid' or isinstance(v, str):
                    ctx.check(got.get(k) == v, 'wrong-value', '%s: %r, sent %r' % (k, got.get(k), v))
            ctx.outcome((target, 'success'))
            return
        must = not isinstance(what, str) and what[0] in (200, 201) and what[1] and what[1].startswith(JSON) and what[2] == 'valid'
        if not ctx.check(not must, 'success-refused:' + target, '%r %r' % (what, r)):
            return
        if not isinstance(what, str) and what[2] == 'error' and what[1] == JSON and (what[0] in (200, 400, 401, 403)):
            ctx.check('invalid_grant' in str(r), 'error-not-reported:' + target, repr(r))
        c = s.clients[-1]
        v = view(c)
        if v != s.seen[-1]:
            ctx.fail('failed-but-changed:' + target, '%r\n%s' % (what, diff(s.seen[-1], v)))
        if target in ('discovery', 'registration'):
            ctx.check(not s.h.issuer2rp, 'client-kept:' + target, repr(what))
    ok, r = attempt(s.act)
    ctx.step()
    if ctx.check(ok, 'retry-failed:' + target, '%r %r' % (seq, r)):
        if target in ('discovery', 'registration'):
            res = s.h.finalize(s.op.issuer, s.op.authorize(r['url']))
            ctx.check('id_token' in res and not s.op.rejects, 'retry-login-failed', '%r %r' % (res, s.op.rejects))
        else:
            ctx.check('error' not in r, 'retry-failed:' + target, repr(r))
            ctx.check(s.h.get_user_info(s.state)['sub'] == 'alice', 'later-request-failed', '')
    ctx.outcome((target, 'failed then good'))


def diff(a, b):
    if type(a) is type(b) and isinstance(a, (tuple, list)) and len(a) == len(b):
        return '; '.join(diff(x, y) for x, y in zip(a, b) if x != y)
    if isinstance(a, dict) and isinstance(b, dict):
        return '; '.join('%s: %s' % (k, diff(a.get(k), b.get(k))) for k in sorted(set(a) | set(b), key=str) if a.get(k) != b.get(k))
    return '%.300r -> %.300r' % (a, b)


def idt(**change):
    """The answer with another ID Token. None removes a claim."""
    def f(s, good, owner='op1', alg='RS256'):
        c = dict(jose.decode(good['id_token'])[1])
        for k, v in change.items():
            v = v(c) if callable(v) else v
            c.pop(k, None)
            if v is not None:
                c[k] = v
        return dict(good, id_token=jose.sign(c, alg, owner=owner))
    return f


def but(**change):
    def f(s, good):
        return {k: v for k, v in dict(good, **change).items() if v is not None}
    return f


def foreign_key(s, good):
    return idt()(s, good, owner='evil')


def unsigned(s, good):
    return idt()(s, good, alg='none')


def cut_signature(s, good):
    return dict(good, id_token=good['id_token'][:-8])


# well-formed answers that have to be refused for what they say; None where either outcome will do, as long as a refusal changes nothing
IDT = {'nonce': (idt(nonce='another'), True), 'sub': (idt(sub='mallory'), None), 'aud': (idt(aud=['somebody']), True), 'expired': (idt(exp=1000, iat=900), True),
       'issuer': (idt(iss='https://evil.example.org'), True), 'no-sub': (idt(sub=None), True), 'no-exp': (idt(exp=None), True), 'foreign-key': (foreign_key, True), 'unsigned': (unsigned, True),
       'cut-signature': (cut_signature, True), 'not-a-jwt': (but(id_token='abc'), True), 'at_hash': (idt(at_hash='AAAAAAAAAAAAAAAAAAAAAA'), None),
       'expires': (but(expires_in='soon'), True), 'expires-float': (but(expires_in=1.5), None), 'token-list': (but(access_token=['a', 'b']), None),
       'token-object': (but(access_token={'a': 1}), None), 'no-type': (but(token_type=None), None), 'expires-null': (but(expires_in=None), None)}
REFUSED = {
    'token': dict(IDT, **{'no-nonce': (idt(nonce=None), True), 'no-id-token': (but(id_token=None), None)}),
    'refresh': dict(IDT, **{'sub': (idt(sub='mallory'), True), 'no-nonce': (idt(nonce=None), None)}),
    'userinfo': {'sub': (but(sub='mallory'), True), 'no-sub': (but(sub=None), True), 'sub-list': (but(sub=['alice', 'mallory']), True), 'sub-object': (but(sub={'a': 1}), True),
                 'sub-number': (but(sub=17), True), 'sources-string': (but(_claim_sources='x', _claim_names={'a': 'x'}), None), 'sources-empty': (but(_claim_sources={'x': {}}, _claim_names={'a': 'x'}), None),
                 'sources-junk': (but(_claim_sources={'x': {'JWT': 'abc'}}, _claim_names={'a': 'x'}), None), 'sources-other': (but(_claim_sources={'x': {'JWT': jose.sign({'b': 1}, 'RS256', owner='op1')}}, _claim_names={'a': 'x'}), None),
                 'no-names': (but(_claim_sources={'x': {'JWT': jose.sign({'b': 1}, 'RS256', owner='op1')}}), None), 'address': (but(address='here'), None), 'email': (but(email=17), None)},
    'discovery': {'issuer': (but(issuer='https://evil.example.org'), True), 'issuer-list': (but(issuer=['https://op1.example.org']), None), 'no-issuer': (but(issuer=None), True), 'endpoint-number': (but(token_endpoint=17), None),
                  'no-authz': (but(authorization_endpoint=None), True), 'no-types': (but(response_types_supported=None), True), 'no-jwks': (but(jwks_uri=None), True), 'types-string': (but(response_types_supported='code'), None),
                  'methods': (but(token_endpoint_auth_methods_supported=['tls_client_auth']), True), 'scopes-number': (but(scopes_supported=17), None)},
    'registration': {'no-id': (but(client_id=None), True), 'id-list': (but(client_id=['a']), None), 'id-number': (but(client_id=17), None), 'uris-string': (but(redirect_uris='https://rp.example.com/other'), None),
                     'uris-number': (but(redirect_uris=[17]), None), 'expires': (but(client_secret_expires_at='never'), None), 'no-expires': (but(client_secret_expires_at=None), None), 'method-list': (but(token_endpoint_auth_method=['client_secret_basic']), None)},
}


def case_refused(ctx, case):
    target, names = case
    s = Sut(target)
    if target == 'refresh':
        s.op.refresh_idt = True
    for name in names:
        change, must = REFUSED[target][name]
        s.answer = (name, (200, JSON, 'valid'))
        good = s.fault

        def fault(req, ep, change=change):
            r = good(req, ep)
            return r if r is None else jresp(change(s, json.loads(r.body)), r.status)
        s.w.fault = fault
        ok, r = attempt(s.act)
        s.w.fault = good
        ctx.step()
        ctx.check(s.answer is None, 'no-request', name)
        ctx.state((target, names, name, ok))
        if ok:
            if not (isinstance(r, dict) and 'error' in r):
                ctx.check(not must, 'taken-for-success:%s:%s' % (target, name), plain(r))
            ctx.outcome((target, 'accepted'))
            return
        v = view(s.clients[-1])
        # nothing in common with the provider is found out after its metadata were taken; the client is dropped
        ctx.check(name == 'methods' or v == s.seen[-1], 'refused-but-changed:%s:%s' % (target, name), diff(s.seen[-1], v))
        if target in ('discovery', 'registration'):
            ctx.check(not s.h.issuer2rp, 'client-kept:' + target, name)
    ok, r = attempt(s.act)
    ctx.step()
    if ctx.check(ok, 'retry-failed:' + target, '%r %r' % (names, r)):
        if target in ('discovery', 'registration'):
            r = s.h.finalize(s.op.issuer, s.op.authorize(r['url']))
            ctx.check('id_token' in r and not s.op.rejects, 'retry-login-failed', '%r %r' % (r, s.op.rejects))
        else:
            ctx.check('error' not in r, 'retry-failed:' + target, repr(r))
            ctx.check(s.h.get_user_info(s.state)['sub'] == 'alice', 'later-request-failed', '')
    ctx.outcome((target, 'refused'))


def case_one(ctx, case):
    target, what = case
    run(ctx, target, [what])
    ctx.state(case)


def case_seq(ctx, case):
    target, seq = case
    run(ctx, target, list(seq))
    ctx.state(case)


def case_finalize(ctx, case):
    """A complete finalize() in which the token or user-info answer is bad."""
    ep, what, flow = case
    w = World()
    op = SimOP(w, ISS[1], 'op1')
    h = handler({op.issuer: static_conf(op, response_types=(flow,))})
    b = h.begin(op.issuer)
    resp = op.authorize(b['url'])
    hit = []

    def fault(req, e):
        if e != ep or hit:
            return None
        hit.append(view(h.issuer2rp[op.issuer]))
        if isinstance(what, str):
            return exc(what)
        keep = copy.deepcopy((op.codes, op.tokens, op.rts, op.n))
        good = json.loads(op.serve(e, req).body)
        op.codes, op.tokens, op.rts, op.n = keep
        return Resp(what[0], body(what[2], ep, good), {'content-type': what[1]} if what[1] else {})
    w.fault = fault
    ok, r = attempt(h.finalize, op.issuer, resp)
    ctx.step()
    ctx.state(case)
    if not hit:
        ctx.check(ok and 'error' not in r, 'login-failed', repr(r))
        return ctx.outcome('not requested')
    good = not isinstance(what, str) and 200 <= what[0] < 300 and what[2] in ('valid', 'valid-form')
    if ok and 'error' not in r:
        ctx.check(good, 'taken-for-success:finalize:' + ep, '%r %r' % (what, plain(r)))
        return ctx.outcome('success')
    v = view(h.issuer2rp[op.issuer])
    ctx.check(v == hit[0], 'failed-but-changed:finalize:' + ep, '%r\n%s' % (what, diff(hit[0], v)))
    ctx.check(not (isinstance(r, dict) and (r.get('userinfo') or r.get('token'))), 'data-with-error', repr(r))
    ctx.outcome('failed')
    # others are not affected, and a new login works
    b = h.begin(op.issuer)
    res = h.finalize(op.issuer, op.authorize(b['url'], 'bob'))
    ctx.check(res.get('userinfo', {}).get('sub') == 'bob', 'later-login-failed', repr(res))
    if ep == 'userinfo':
        ok, r = attempt(h.get_user_info, resp['state'])
        ctx.check(ok and r['sub'] == 'alice', 'retry-failed:finalize', repr(r))
    else:
        ok, r = attempt(h.get_tokens, resp['state'])
        ctx.check(ok and 'access_token' in r, 'retry-failed:finalize', repr(r))
    ctx.step(2)


def parts(tier):
    q = tier == 'quick'
    answers = [(st, ct, b) for st in STATUS for ct in CTYPES for b in BODIES]
    if q:
        few = (200, 201, 204, 299, 302, 307, 400, 401, 403, 404, 500, 503)
        answers = [(st, ct, b) for st, ct, b in answers if (st in few or ct == JSON) and (ct in (JSON, FORM, 'text/html', None) or st in (200, 400))]
    one = [(t, a) for t in TARGETS for a in answers] + [(t, e) for t in TARGETS for e in EXC]
    short = [(200, JSON, 'error'), (200, JSON, 'missing'), (200, 'text/html', 'html'), (302, JSON, 'valid'), (400, JSON, 'error'), (400, JSON, 'valid'),
             (401, None, 'empty'), (500, JSON, 'valid'), (503, 'text/html', 'html'), 'timeout', (200, FORM, 'blank-form'), (200, JSON, 'null')]
    seqs = [(t, x) for t in TARGETS for n in ((2,) if q else (2, 3)) for x in itertools.product(short, repeat=n)]
    fin = [(e, a, f) for e in ('token', 'userinfo') for a in [(st, ct, b) for st in STATUS for ct in (JSON, FORM, None) for b in BODIES
           if not (st < 300 and b in ('valid', 'valid-form') and e == 'token')
           if not q or (st in (200, 302, 400, 401, 404, 500) and ct != FORM)] + EXC for f in ('code', 'code id_token')]
    refused = [(t, x) for t in TARGETS for n in ((1, 2) if q else (1, 2, 3)) for x in itertools.product(REFUSED[t], repeat=n)]
    return [Part('refused', case_refused, refused, 'endpoint x well-formed answers that are refused for what they say, in sequence'),
            Part('one', case_one, one, 'endpoint x answer'), Part('sequences', case_seq, seqs, 'endpoint x bad answers in sequence'),
            Part('finalize', case_finalize, fin, 'complete logins with one bad answer')]


META = dict(rule='distinct (endpoint, answers)')
