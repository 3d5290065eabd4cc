"""C26: client set-up. All sequences of begin/complete/failing-begin over every name of two issuers (configuration key, issuer, issuer with the
other spelling of the trailing slash, user identifier) for ten ways of configuring them; and every kind of failure at every set-up step, once or
twice, each followed by a clean attempt and the completion of every login that was in progress, in both orders."""
import itertools

from ..core import Part
from ..env import CLOCK
from ..world import *

REL = 'http://openid.net/specs/connect/1.0/issuer'
SVCS = dict(web_finger={'class': 'oidcrp.oidc.webfinger.WebFinger'})


class Site:
    """Two OPs, A and B, and a handler that knows them according to *variant*."""

    def __init__(self, variant):
        self.variant = variant
        self.w = World()
        slash = variant.endswith('/slash')
        v = variant.split('/')[0]
        ia, ib = ISS[1] + ('/' if slash else ''), ISS[2] + ('/' if slash else '')
        if variant.endswith('/case'):           # tenants of one host
            ia, ib = ISS[1] + '/tenant', ISS[1] + '/Tenant'
        elif variant.endswith('/nested'):
            ia, ib = ISS[1] + '/t', ISS[1] + '/t/t'
        elif variant.endswith('/port'):
            ia, ib = ISS[1], ISS[1] + ':8443'
        self.ops = {'A': self.op(ia, 'op1'), 'B': self.op(ib, 'op2')}
        a, b = self.ops['A'], self.ops['B']
        dyn = lambda op, **kw: dynamic_conf(issuer=op.issuer, response_types=('code',), **kw)
        st = lambda op, **kw: static_conf(op, client_id='rp-' + op.tag, **kw)
        other = {'A': self.swap(ia), 'B': self.swap(ib)}
        if v == 'default':
            conf = {'': dynamic_conf(response_types=('code',))}
        elif v == 'keys-dynamic':
            conf = {'alpha': dyn(a), 'beta': dyn(b)}
        elif v == 'keys-static':
            conf = {'alpha': st(a), 'beta': st(b)}
        elif v == 'keys-semi':
            conf = {'alpha': st(a, discover=True), 'beta': st(b, discover=True)}
        elif v == 'issuers-dynamic':
            conf = {ia: dyn(a), ib: dyn(b)}
        elif v == 'issuers-other':          # the configuration spells the issuers the other way
            conf = {other[x]: dict(dyn(self.ops[x]), issuer=other[x]) for x in 'AB'}
        elif v == 'mixed':                  # one is configured, the rest are dynamic
            conf = {'': dynamic_conf(response_types=('code',)), 'alpha': dyn(a)}
        elif v == 'mixed-static':
            conf = {'': dynamic_conf(response_types=('code',)), ia: st(a)}
        elif v == 'mixed-info':             # static provider info, spelled the other way
            conf = {'': dynamic_conf(response_types=('code',)), 'alpha': dict(st(a, provider_info={'issuer': a.issuer}), issuer=a.issuer)}
        elif v == 'mismatch':               # an issuer that is known not to use its own name
            conf = {'alpha': dyn(a), 'beta': dyn(b)}
            for x in 'AB':
                name = 'https://entry.example.net/' + x
                conf['alpha' if x == 'A' else 'beta'].update(issuer=name, allow={'issuer_mismatch': True})
                self.ops[x].hook['claims'] = (lambda name: lambda claims, where, grant: dict(claims, iss=name))(name)
                self.w.static[name + '/.well-known/openid-configuration'] = (lambda op: lambda req: op.serve('discovery', req))(self.ops[x])
        self.conf = conf
        self.has_default = '' in conf
        self.names = {}
        for x in 'AB':
            op = self.ops[x]
            n = {'iss': op.issuer, 'oth': other[x]}
            k = 'alpha' if x == 'A' else 'beta'
            if k in conf:
                n['key'] = k
            if self.has_default:
                n['user'] = 'joe%s@users.example.com' % x
            if v == 'mismatch':
                n = {'key': k}
            elif not self.has_default and k in conf:
                n = {'key': k, 'iss': op.issuer, 'oth': other[x]}
            self.names[x] = n
        self.conf0 = copy.deepcopy(conf)
        self.h = handler(conf, services(**SVCS))
        self.open, self.done = [], []
        self.n = 0
        self.fault = None
        self.faults = {'A': [], 'B': []}
        self.w.static['https://users.example.com/.well-known/webfinger'] = self.webfinger
        self.w.fault = self.inject

    def swap(self, iss):
        return iss[:-1] if iss.endswith('/') else iss + '/'

    def op(self, iss, key):
        op = SimOP(self.w, iss, key)
        for k, v in op.md.items():
            if isinstance(v, str) and v.startswith(iss) and k != 'issuer':
                op.md[k] = iss.rstrip('/') + v[len(iss):].replace('//', '/')
        op.issue_rt = True
        return op

    def webfinger(self, req):
        x = req.args['resource'][len('acct:joe')]
        return jresp({'subject': req.args['resource'], 'links': [{'rel': REL, 'href': self.ops[x].issuer}]}, ctype='application/jrd+json')

    def inject(self, req, ep):
        if self.fault:
            step, kind = self.fault
            if req.base in self.w.static:
                ep = 'webfinger' if 'webfinger' in req.base else 'discovery'
            if ep == step:
                self.hit += 1
                op = req.op
                return KINDS[step][kind](op or self.ops[self.target], req)
        return None

    def count(self, x, what):
        op = self.ops[x]
        if what == 'discovery' and self.variant.startswith('mismatch'):
            return len([r for r in self.w.log if r.base.startswith('https://entry.example.net/%s/' % x)])
        return len(self.w.to(what, op))

    def begin(self, x, name):
        n = self.names[x][name]
        return self.h.begin(user_id=n) if name == 'user' else self.h.begin(n)

    def clients(self, x):
        """The clients that serve an issuer."""
        iss = self.ops[x].issuer
        out = {}
        for c in self.h.issuer2rp.values():
            ctx = c.client_get('service_context')
            pi = plain(ctx.provider_info) or {}
            if pi.get('issuer') == iss:
                out[id(c)] = c
        return list(out.values())

    # ---------------------------------------------------------- operations

    def do_begin(self, ctx, x, name):
        ok, b = attempt(self.begin, x, name)
        if not ok and not self.has_default and name != 'key' and not self.clients(x) and isinstance(b, KeyError):
            return False                    # there is nothing known about an issuer by that name
        ctx.check(ok, 'begin-failed:%s' % name, '%r: %r' % (b, self.variant))
        if ok:
            u = urlsplit(b['url'])
            ctx.check(b['url'].startswith(self.ops[x].md['authorization_endpoint']), 'wrong-endpoint', b['url'])
            self.open.append((x, b))
        return ok

    def do_fail(self, ctx, x, name, fault):
        self.fault, self.hit, self.target = fault, 0, x
        before = len(self.clients(x)), len(self.h.issuer2rp)
        ok, b = attempt(self.begin, x, name)
        self.fault = None
        if self.hit:
            ctx.check(not ok, 'failure-hidden:%s:%s' % fault, repr(b))
            ctx.check((len(self.clients(x)), len(self.h.issuer2rp)) == before, 'client-after-failure:%s:%s' % fault, '')
            if fault[0] != 'webfinger':
                self.faults[x].append(fault)
        elif ok:
            self.open.append((x, b))
        return self.hit

    def complete(self, ctx, x, b):
        self.n += 1
        op = self.ops[x]
        user = 'user%d' % self.n
        try:
            resp = op.authorize(b['url'], user)
        except Reject as e:
            return ctx.fail('login-refused', '%r %r' % (e, b))
        state = b['state']
        ok, iss = attempt(lambda: self.h.get_session_information(state)['iss'])
        if not ctx.check(ok, 'session-lost', '%r %r' % (iss, self.variant)):
            return
        ok, r = attempt(self.h.finalize, iss, resp)
        if not ctx.check(ok, 'login-failed', '%r %r' % (r, self.variant)):
            return
        r = plain(r)
        ctx.check((r.get('userinfo') or {}).get('sub') == user, 'wrong-user', repr(r))
        c = self.h.get_client_from_session_key(state)
        ctx.check([id(c)] == [id(z) for z in self.clients(x)], 'several-clients', '%r' % (sorted(self.h.issuer2rp),))
        self.done.append((x, state, user))

    def use(self, ctx):
        for x, state, user in self.done:
            ok, r = attempt(self.h.refresh_access_token, state)
            ctx.check(ok, 'refresh-failed', '%r %r' % (r, self.variant))
            ok, r = attempt(self.h.get_user_info, state)
            ctx.check(ok and r['sub'] == user, 'userinfo-failed', repr(r))

    def finish(self, ctx, reverse):
        todo = self.open[::-1] if reverse else self.open
        for x, b in todo:
            self.complete(ctx, x, b)
        self.open = []
        self.use(ctx)
        for x in 'AB':
            n = len([1 for d in self.done if d[0] == x])
            used = bool(n)
            d, r = self.count(x, 'discovery'), self.count(x, 'registration')
            fd = len([f for f in self.faults[x] if f[0] == 'discovery'])
            fr = len([f for f in self.faults[x] if f[0] == 'registration'])
            dynamic, disc = self.kind(x)
            ctx.check(r == (used if dynamic else 0) + fr, 'registrations', '%s %s: %d registrations, %d failed' % (self.variant, x, r, fr))
            lo, hi = (used if disc else 0) + fd, (used if disc else 0) + fd + fr
            ctx.check(lo <= d <= hi, 'discoveries', '%s %s: %d discoveries, %d + %d failed' % (self.variant, x, d, fd, fr))
            ctx.check(len(self.clients(x)) == used, 'clients', '%d clients for %s' % (len(self.clients(x)), x))
        ctx.check(self.conf == self.conf0, 'configuration-changed', '')

    def kind(self, x):
        v = self.variant.split('/')[0]
        if v.startswith('keys-'):
            return v == 'keys-dynamic', v != 'keys-static'
        if v in ('mixed-static', 'mixed-info'):
            return x == 'B', x == 'B'
        return True, True


VARIANTS = ['default', 'keys-dynamic', 'keys-static', 'keys-semi', 'issuers-dynamic', 'issuers-other', 'mixed', 'mixed-static', 'mixed-info', 'mismatch']


def md(op, **kw):
    return {k: v for k, v in dict(op.md, **kw).items() if v is not None}


def exc(name):
    import requests
    return getattr(requests.exceptions, name)('injected')


COMMON = {
    'conn': lambda op, q: exc('ConnectionError'), 'timeout': lambda op, q: exc('ReadTimeout'), 'ssl': lambda op, q: exc('SSLError'),
    '500': lambda op, q: Resp(500, 'oops', {'content-type': 'text/plain'}), '503-json': lambda op, q: jresp({'error': 'temporarily_unavailable'}, 503),
    '404': lambda op, q: Resp(404, '<html>no</html>', {'content-type': 'text/html'}), '400-error': lambda op, q: jresp({'error': 'invalid_request'}, 400),
    '200-error': lambda op, q: jresp({'error': 'server_error'}), 'garbage': lambda op, q: Resp(200, '{"issuer": ', {'content-type': 'application/json'}),
    'html': lambda op, q: Resp(200, '<html></html>', {'content-type': 'text/html'}), 'empty': lambda op, q: Resp(200, '', {'content-type': 'application/json'}),
    'list': lambda op, q: jresp([]), 'null': lambda op, q: jresp(None), 'string': lambda op, q: jresp('x'), 'object': lambda op, q: jresp({}),
    '302': lambda op, q: Resp(302, '', {'location': 'https://evil.example.com/'}),
}
KINDS = {
    'webfinger': dict(COMMON, **{'no-links': lambda op, q: jresp({'subject': q.args['resource']}), 'no-issuer': lambda op, q: jresp(
        {'subject': q.args['resource'], 'links': [{'rel': 'x', 'href': 'https://x.org'}]}), 'links-null': lambda op, q: jresp({'subject': q.args['resource'], 'links': []})}),
    'discovery': dict(COMMON, **dict({'no-' + k: (lambda k: lambda op, q: jresp(md(op, **{k: None})))(k) for k in (
        'issuer', 'authorization_endpoint', 'jwks_uri', 'response_types_supported')}, **{
        'wrong-issuer': lambda op, q: jresp(md(op, issuer='https://evil.example.com')),
        'no-common-response-type': lambda op, q: jresp(md(op, response_types_supported=['id_token'])),
        'no-common-auth-method': lambda op, q: jresp(md(op, token_endpoint_auth_methods_supported=['private_key_jwt']))})),
    'registration': dict(COMMON, **{
        'no-client-id': lambda op, q: jresp({'redirect_uris': json.loads(q.body)['redirect_uris'], 'client_secret': 'x'}, 201),
        'empty-client-id': lambda op, q: jresp({'client_id': '', 'redirect_uris': json.loads(q.body)['redirect_uris']}, 201),
        'error-201': lambda op, q: jresp({'error': 'invalid_redirect_uri'}, 201)}),
}


def case_names(ctx, case):
    variant, seq, reverse = case
    s = Site(variant)
    ctx.state(case)
    for o in seq:
        x, name = o[0], o[2:]
        ctx.step(what=o)
        if name == 'F':
            if s.open:
                s.complete(ctx, *s.open.pop(0))
            continue
        if name == '!d' or name == '!r':
            n = 'key' if 'key' in s.names[x] else 'iss'
            s.do_fail(ctx, x, n, ('discovery', '500') if name == '!d' else ('registration', '400-error'))
            continue
        if name not in s.names[x]:
            continue
        s.do_begin(ctx, x, name)
    s.finish(ctx, reverse)
    ctx.outcome((variant, len(s.done), len(s.h.issuer2rp)))


def case_fault(ctx, case):
    """B is in use with one login done and one open, A may be; then the failure(s), then everything must work."""
    variant, name, faults, reverse = case
    s = Site(variant)
    ctx.state(case)
    nb = 'key' if 'key' in s.names['B'] else 'iss'
    s.do_begin(ctx, 'B', nb)
    s.complete(ctx, *s.open.pop())
    s.do_begin(ctx, 'B', nb)
    hit = 0
    for f in faults:
        ctx.step(what=f)
        hit += bool(s.do_fail(ctx, 'A', name, f))
    ctx.step()
    s.do_begin(ctx, 'A', name)
    s.do_begin(ctx, 'A', 'key' if 'key' in s.names['A'] else 'iss')
    s.do_begin(ctx, 'B', nb)
    s.finish(ctx, reverse)
    ctx.outcome((variant, name, hit))


def case_first(ctx, case):
    """The failing attempt is the first thing that happens to a handler; and a set-up done by hand is picked up."""
    variant, name, fault = case
    s = Site(variant)
    ctx.state(case)
    s.do_fail(ctx, 'A', name, fault)
    ctx.step()
    s.do_begin(ctx, 'B', 'key' if 'key' in s.names['B'] else 'iss')
    s.do_begin(ctx, 'A', name)
    s.finish(ctx, False)
    ctx.outcome((variant, name, fault[0]))


def case_replaced(ctx, case):
    """The application puts another client (set up by another handler from the same configuration) in the place of the one that
    is there, or takes it away."""
    variant, first, second, how, between = case
    s = Site(variant)
    ctx.state(case)
    s.do_begin(ctx, 'A', first)
    s.complete(ctx, *s.open.pop())
    s.done = []
    ctx.step()
    old = s.clients('A')
    if how == 'replace':
        other = handler(copy.deepcopy(s.conf0), services(**SVCS))
        mine, s.h = s.h, other
        s.do_begin(ctx, 'A', first)
        new = [c for c in other.issuer2rp.values()][0]
        s.h = mine
        s.open = []
    for k in [k for k, c in s.h.issuer2rp.items() if any(c is o for o in old)]:
        if how == 'replace':
            s.h.issuer2rp[k] = new
        else:
            del s.h.issuer2rp[k]
    if between:
        s.do_begin(ctx, 'B', 'key' if 'key' in s.names['B'] else 'iss')
        ctx.step()
    s.do_begin(ctx, 'A', second)
    for x, b in s.open:
        s.complete(ctx, x, b)
    s.use(ctx)
    ctx.check(not any(c is o for c in s.clients('A') for o in old), 'replaced-client-used', '')
    ctx.outcome((variant, how, len(s.h.issuer2rp)))


def parts(tier):
    q = tier == 'quick'
    names = []
    for v in VARIANTS:
        for sl in ('', '/slash', '/case', '/nested', '/port'):
            variant = v + sl
            if v == 'mismatch' and sl:
                continue
            s = Site(variant)
            ops = ['A.' + n for n in s.names['A']] + ['B.' + next(iter(s.names['B']))] + ['A.F', 'A.!d', 'A.!r']
            for n in range(1, 5 if q else 6):
                for seq in itertools.product(ops, repeat=n):
                    if seq[-1][2] in '!F' or seq[0][2] == 'F':
                        continue
                    if sl not in ('', '/slash') and (n > (2 if q else 3) or not any(o[0] == 'B' for o in seq)):
                        continue
                    if q and (n == 4 and (sl or len(set(seq)) < 4 or seq[0][0] == 'B') or n == 3 and len(set(seq)) < (3 if sl else 2)):
                        continue
                    for rev in (False, True):
                        if rev and (n < 2 or q and (n != 3 or sl)):
                            continue
                        names.append((variant, seq, rev))
    fault, first = [], []
    for v in VARIANTS:
        s = Site(v)
        for name in s.names['A']:
            steps = [st for st in KINDS if st != 'webfinger' or name == 'user']
            fs = [(st, k) for st in steps for k in KINDS[st]]
            if v == 'mismatch':
                fs = [f for f in fs if f[1] != 'wrong-issuer']
            if v == 'keys-semi':
                fs = [f for f in fs if f[1] not in ('no-common-response-type', 'no-common-auth-method')]
            fault += [(v, name, (f,), rev) for f in fs for rev in ((True,) if q else (False, True))]
            first += [(v, name, f) for f in fs]
            red = [f for f in fs if f[1] in ('conn', '400-error', 'garbage')] if q else fs
            fault += [(v, name, ff, False) for ff in itertools.product(red, repeat=2)]
    rep = []
    for v in VARIANTS:
        n = Site(v).names['A']
        rep += [(v, a, b, how, z) for a in n for b in n for how in ('replace', 'remove') for z in (False, True)
                if a == b or 'key' in (a, b) or 'key' not in n]
    return [Part('replaced', case_replaced, rep, 'a client is replaced or taken away'), Part('names', case_names, names, 'sequences of begin/complete/fail'), Part('fault', case_fault, fault, 'failures before a clean attempt'),
            Part('first', case_first, first, 'failures at first')]


META = dict(rule='distinct (configuration, sequence, order of completion) and (configuration, name, failures)', assumptions=[
    'there is one configuration per issuer', 'two issuers are the same if they only differ in a trailing slash, as the discovery service has it'])
