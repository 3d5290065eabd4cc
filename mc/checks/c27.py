"""C27: independence of clients. For every way of sharing a configuration between two clients (or the same client of two handlers) and every
sequence of operations on one of them up to the bound -- logins with request and behaviour arguments, negotiation, registration answers, settings,
keys -- the other client's whole observable behaviour (attributes, requests on the wire, results) must equal that of a client that is alone."""
import itertools

from ..core import Part
from ..env import CLOCK
from ..world import *

SHARED_SERVICES = services(
    authorization={'class': 'oidcrp.oidc.authorization.Authorization', 'kwargs': {'conf': {'request_args': {'ui_locales': ['en'], 'acr_values': ['1']}}}},
    access_token={'class': 'oidcrp.oidc.access_token.AccessToken', 'kwargs': {'conf': {'default_authn_method': 'client_secret_basic'}}},
    registration={'class': 'oidcrp.oidc.registration.Registration', 'kwargs': {'conf': {'request_args': {'contacts': ['ops@example.com']}}}},
    web_finger={'class': 'oidcrp.oidc.webfinger.WebFinger'})
PREFS = {'application_type': 'web', 'application_name': 'mc', 'response_types': ['code', 'code id_token'], 'scope': ['openid', 'email'],
         'token_endpoint_auth_method': ['client_secret_post', 'client_secret_basic'], 'id_token_signed_response_alg': ['ES256', 'RS256'],
         'backchannel_logout_usable': True, 'request_object_signing_alg': ['ES256', 'RS256'], 'default_max_age': 86400}
RARGS = {'ui_locales': ['sv'], 'claims': {'id_token': {'email': {'essential': True}}}, 'prompt': ['login']}
POOR = {'response_types_supported': ['code id_token'], 'id_token_signing_alg_values_supported': ['RS256'], 'scopes_supported': ['openid'],
        'token_endpoint_auth_methods_supported': ['client_secret_basic'], 'request_object_signing_alg_values_supported': ['RS256'],
        'check_session_iframe': 'https://op1.example.org/csi'}
DPOP = {'dpop': {'function': 'oidcrp.oauth2.add_on.dpop.add_support', 'kwargs': {'signing_algorithms': ['ES256', 'RS256']}}}


class Pair:
    """Two clients, 'A' and 'B', that share what *variant* says."""

    def __init__(self, variant):
        self.v = v = variant
        self.w = World()
        caps = {'request_object_signing_alg_values_supported': ['ES256', 'RS256'], 'dpop_signing_alg_values_supported': ['ES256', 'RS256']}
        self.ops = {'A': SimOP(self.w, ISS[1], 'op1', caps=dict(caps, **(POOR if v in ('default', 'keys', 'module-defaults') else {}))),
                    'B': SimOP(self.w, ISS[2], 'op2', caps=dict(caps))}
        for op in self.ops.values():
            op.issue_rt = True
        a, b = self.ops['A'], self.ops['B']
        svcs = copy.deepcopy(SHARED_SERVICES)
        prefs, rargs, addons = copy.deepcopy(PREFS), copy.deepcopy(RARGS), copy.deepcopy(PKCE)
        base = dict(client_preferences=prefs, request_args=rargs, add_ons=addons, allow={'missing_kid': True}, clock_skew=10, contacts=['a@b.c'],
                    verify_args={'allow_sign_alg_none': False}, post_logout_redirect_uris=[BASE + '/bye'])
        self.hb = None
        if v == 'default':
            conf = {'': base}
        elif v == 'keys':                            # as from YAML with anchors
            conf = {x.issuer: dict(base, issuer=x.issuer) for x in (a, b)}
        elif v == 'static':
            common = dict(behaviour={'response_types': ['code'], 'scope': ['openid', 'email'], 'token_endpoint_auth_method': ['client_secret_basic']},
                          redirect_uris=[BASE + '/cb'], request_args=rargs, allow={'missing_kid': True}, add_ons=addons,
                          client_preferences={'id_token_signed_response_alg': ['RS256']}, callback={'code': BASE + '/cb', 'implicit': BASE + '/icb'},
                          post_logout_redirect_uris=[BASE + '/bye'], register_args={'x': ['y']}, services=svcs, verify_args={'a': ['b']})
            conf = {}
            for x in (a, b):
                x.add_client('rp', SECRET, [BASE + '/cb'], 'client_secret_basic')
                conf[x.issuer] = dict(common, issuer=x.issuer, client_id='rp', client_secret=SECRET,
                                      provider_info=dict({k: w for k, w in x.md.items() if k != 'jwks_uri'}, keys={'url': {x.issuer: x.md['jwks_uri']}}))
        elif v == 'add-ons':                         # only one of them has add ons
            conf = {a.issuer: dict(base, issuer=a.issuer, add_ons=dict(addons, **DPOP)), b.issuer: dict(base, issuer=b.issuer)}
            del conf[b.issuer]['add_ons']
        elif v == 'module-defaults':
            conf = None
        else:
            raise ValueError(v)
        self.conf = conf
        keys = keyjar()
        self.httpc = {'verify': True, 'timeout': 5}
        mk = lambda: self.handler(conf, None if v == 'module-defaults' else svcs, keys)
        self.h = {'A': mk()}
        self.h['B'] = self.h['A']
        self.mk = mk
        self.svcs, self.keys = svcs, keys
        from oidcrp import defaults
        self.supplied = lambda: (self.httpc, self.conf, self.svcs, sorted(self.keys.owners()), [sorted(k.kid for k in self.keys.get_issuer_keys(o)) for o in sorted(self.keys.owners())],
                                 defaults.DEFAULT_CLIENT_CONFIGS, defaults.DEFAULT_OIDC_SERVICES, defaults.DEFAULT_RP_KEY_DEFS)
        self.before = copy.deepcopy(self.supplied())
        self.b, self.n = {}, 0

    def handler(self, conf, svcs, keys):
        from oidcrp.rp_handler import RPHandler
        path = {} if self.v == 'keys' else {'jwks_path': 'static/jwks.json'}     # the keys are registered by value, by reference
        return RPHandler(BASE, client_configs=conf, services=svcs, keyjar=keys, hash_seed='mc', httpc_params=self.httpc, **path)

    def client(self, who):
        return self.h[who].issuer2rp[self.ops[who].issuer]

    def context(self, who):
        return self.client(who).client_get('service_context')

    # ---------------------------------------------------------- operations

    def run(self, who, op):
        return getattr(self, 'op_' + op)(who)

    def op_begin(self, who, **kw):
        self.b[who] = self.h[who].begin(self.ops[who].issuer, **kw)
        return self.b[who]

    def op_args(self, who):
        req = {'scope': ['openid', 'profile', 'offline_access'], 'ui_locales': ['fi'], 'acr_values': ['2'], 'claims': {'userinfo': {'x-%s' % who: None}},
               'prompt': ['consent'], 'login_hint': who, 'x_extra': 'x' + who}
        keep = copy.deepcopy(req)
        b = self.op_begin(who, req_args=req)
        same = req == keep
        req['scope'].append('later')
        req['claims']['userinfo']['later'] = None
        return same

    def op_behave(self, who):
        args = {'token_endpoint_auth_method': 'client_secret_basic', 'response_types': ['code id_token'], 'scope': 'openid', 'contacts': ['%s@x.y' % who]}
        keep = copy.deepcopy(args)
        self.op_begin(who, behaviour_args=args)
        same = args == keep
        args['contacts'].append('z')
        return same

    def op_object(self, who):
        self.op_begin(who, behaviour_args={'request_param': 'request', 'request_object_signing_alg': 'RS256'})
        return True

    def op_login(self, who):
        b = self.op_begin(who)
        return self.finish(who)

    def finish(self, who):
        self.n += 1
        op = self.ops[who]
        return self.h[who].finalize(op.issuer, op.authorize(self.b[who]['url'], 'user-' + who, sid='sid-' + who))

    def op_session(self, who):
        self.op_login(who)
        st = self.b[who]['state']
        h = self.h[who]
        h.refresh_access_token(st, scope='openid')
        h.get_user_info(st)
        h.logout(st)

    def op_keys(self, who):
        self.op_begin(who)
        kj = self.context(who).keyjar
        kj.import_jwks(jose.jwks('rp2', private=True), '')
        kj.import_jwks(jose.jwks('evil'), 'https://extra.example.org')
        kj.add_symmetric('', 'another-secret-of-' + who)

    def op_set(self, who):
        self.op_begin(who)
        x = self.context(who)
        x.set('clock_skew', 4711)
        x.behaviour['scope'] = ['openid', 'x-' + who]
        x.behaviour.setdefault('response_types', []).append('x')
        x.allow['issuer_mismatch'] = True
        x.client_preferences['x'] = who
        for v in x.client_preferences.values():
            if isinstance(v, list):
                v.append('more')
        x.redirect_uris.append('https://rp.example.com/' + who)
        if x.callback:
            x.callback['x'] = who
        x.register_args['contacts'] = ['new']
        x.post_logout_redirect_uris.append('https://rp.example.com/out/' + who)
        if getattr(x, 'verify_args', None):
            x.verify_args['x'] = who
        x.add_on.setdefault('pkce', {})['x'] = who
        if getattr(x, 'jwks', None):
            x.jwks['keys'].append({'kty': 'oct', 'k': 'abcd'})
        x.add_on['x'] = {'y': who}

    def op_service(self, who):
        self.op_begin(who)
        for name, srv in self.client(who).client_get('services').items():
            srv.default_request_args['display'] = 'popup'
            srv.conf['default_authn_method'] = 'private_key_jwt'
            srv.conf.setdefault('request_args', {})['login_hint'] = who
            for v in srv.conf['request_args'].values():
                if isinstance(v, list):
                    v.append('more')
            srv.endpoint = srv.endpoint
            srv.pre_construct.append(lambda request_args, service=None, **kw: (dict(request_args, x_hook=who), {}))
            srv.construct_extra_headers.append(lambda *a, **kw: {'x-hook': who})

    def op_config(self, who):
        self.op_begin(who)
        x = self.context(who)
        x.config['clock_skew'] = 99
        x.config['request_args'] = {'display': 'wap'}
        x.config['client_preferences'] = dict(x.config.get('client_preferences') or {}, scope=['openid', 'phone'])

    def op_deep(self, who):
        self.op_begin(who)
        x = self.context(who)
        for k in ('client_preferences', 'request_args', 'allow', 'verify_args', 'behaviour', 'provider_info'):
            d = x.config.get(k)
            if isinstance(d, dict):
                d['x-' + who] = 'x'

    def op_registered(self, who):
        self.ops[who].hook['registration'] = lambda resp, q: dict(resp, redirect_uris=q['redirect_uris'], contacts=['changed'], scope='openid',
                                                                  token_endpoint_auth_method='client_secret_basic', response_types=['code id_token'],
                                                                  default_max_age=1, registration_access_token='rat')
        self.op_begin(who)

    def op_provider(self, who):
        self.op_begin(who)
        self.h[who].do_provider_info(self.client(who))
        pi = self.context(who).provider_info
        pi['x'] = who
        pi['scopes_supported'] = ['openid']

    def op_httpc(self, who):
        self.op_begin(who)
        self.context(who).httpc_params.update(timeout=77)
        self.client(who).httpc_params.update(timeout=77)
        self.context(who).keyjar.httpc_params.update(timeout=66)

    def op_again(self, who):
        """A second handler of the same configuration."""
        h = self.h[who]
        self.h[who] = self.mk()
        try:
            self.op_session(who)
        finally:
            self.h[who] = h

    # ------------------------------------------------------------- probing

    def probe(self, who):
        """All there is to see of a client: what it sends, gets and has."""
        seen = len(self.w.log)
        out = []
        op, h = self.ops[who], self.h[who]

        def do(what, fn, *a, **kw):
            ok, r = attempt(fn, *a, **kw)
            r = plain(r) if ok else repr(r)
            out.append((what, r))
            return ok

        def url(**kw):
            b = self.b[who] = h.begin(op.issuer, **kw)
            return {k: v if k not in ('state', 'nonce', 'code_challenge', 'request') else len(v) for k, v in query(b['url']).items()}, b['url'].split('?')[0]
        do('begin', url)
        do('view', self.view, who)
        do('finalize', lambda: self.summary(self.finish(who)))
        st = self.b.get(who, {}).get('state')
        do('refresh', lambda: sorted(plain(h.refresh_access_token(st))))
        do('userinfo', lambda: h.get_user_info(st))
        do('session', lambda: sorted(plain(h.get_session_information(st))))
        do('logout', lambda: {k: v if k == 'client_id' or 'uri' in k else len(v) for k, v in query(h.logout(st)['url']).items()})
        do('object', lambda: sorted(url(behaviour_args={'request_param': 'request'})[0]))
        do('args', lambda: url(req_args={'scope': ['openid'], 'display': 'page'}))
        do('view', self.view, who)
        for q in self.w.log[seen:]:
            if q.op is not op and q.base not in self.w.static:
                out.append(('foreign request', q.url))
            elif q.endpoint not in ('jwks', 'discovery', 'registration'):
                form = {k: v for k, v in q.form.items() if k not in ('code_verifier', 'code', 'refresh_token', 'client_assertion', 'state')}
                out.append((q.method, q.endpoint, q.query, form, sorted(q.form), sorted(q.headers), q.opts['verify'], q.opts['timeout'],
                            q.headers.get('authorization', '')[:6]))
        reg = self.w.to('registration', op)
        out.append(('registered', json.loads(reg[-1].body) if reg else None, reg[-1].method if reg else ''))
        out.append(('rejects', list(op.rejects)))
        return json.loads(json.dumps(out, default=repr, sort_keys=True))

    def summary(self, r):
        r = plain(r)
        idt = r.get('id_token') or {}
        return sorted(r), r.get('error'), r.get('userinfo'), idt.get('sub'), idt.get('sid')

    def view(self, who):
        x = self.context(who)
        c = self.client(who)
        srv = {}
        for name, s in c.client_get('services').items():
            srv[name] = (type(s).__name__, s.endpoint, plain(s.default_request_args), plain(s.conf), s.default_authn_method, s.http_method, len(s.pre_construct),
                         len(s.post_construct), len(s.construct_extra_headers))
        at = {k: plain(getattr(x, k, None)) for k in ('behaviour', 'client_preferences', 'provider_info', 'registration_response', 'callback', 'redirect_uris', 'allow',
                                                     'clock_skew', 'register_args', 'client_secret', 'client_id', 'issuer', 'base_url', 'verify_args',
                                                     'post_logout_redirect_uris', 'jwks_uri', 'httpc_params', 'registration_access_token')}
        kj = {o: sorted(set((k.kid, k.kty) for k in x.keyjar.get_issuer_keys(o) if k.kty != 'oct')) for o in x.keyjar.owners()}
        octs = len(set(k.key for o in x.keyjar.owners() for k in x.keyjar.get_issuer_keys(o) if k.kty == 'oct'))
        return srv, at, kj, octs, plain(dict(x.config)), sorted(x.add_on), {k: sorted(set(v) - {'key', 'alg'}) for k, v in x.add_on.items()}, plain(c.httpc_params), plain(x.keyjar.httpc_params)


OPS = ['begin', 'args', 'behave', 'object', 'login', 'session', 'keys', 'set', 'service', 'registered', 'provider', 'again', 'config', 'deep', 'httpc']
SETTING = ('set', 'service', 'keys', 'provider', 'config', 'deep', 'registered', 'httpc')
VARIANTS = ['default', 'keys', 'static', 'add-ons', 'module-defaults']
ALONE = {}


def alone(variant, who, early):
    k = (variant, who, early)
    if k not in ALONE:
        t = CLOCK.now
        p = Pair(variant)
        if early:
            p.h[who].client_setup(p.ops[who].issuer)
        ALONE[k] = p.probe(who)
        CLOCK.now = t
    return ALONE[k]


def differs(ctx, got, want, sig, where):
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            return ctx.fail('%s:%s' % (sig, g[0] if isinstance(g, list) else g), '%s: %s' % (where, diff(g, w)))
    ctx.check(len(got) == len(want), sig + ':length', where)


def diff(g, w, path=''):
    if type(g) is type(w) and isinstance(g, dict):
        ks = [k for k in sorted(set(g) | set(w)) if g.get(k) != w.get(k)]
        return diff(g.get(ks[0]), w.get(ks[0]), path + '.' + ks[0])
    if type(g) is type(w) and isinstance(g, list) and len(g) == len(w):
        for i, (a, b) in enumerate(zip(g, w)):
            if a != b:
                return diff(a, b, path + '[%d]' % i)
    return '%s: %r instead of %r' % (path, g, w)


def case_other(ctx, case):
    """What is done with one client doesn't show in the other."""
    variant, seq, early, who = case
    other = 'B' if who == 'A' else 'A'
    want = alone(variant, other, early)
    p = Pair(variant)
    ctx.state(case)
    if early:
        p.h[other].client_setup(p.ops[other].issuer)
    for o in seq:
        ctx.step(what=o)
        ok, r = attempt(p.run, who, o)
        if o in ('args', 'behave') and ok:
            ctx.check(r, 'arguments-modified:' + o, repr(case))
    ctx.outcome((variant, early, who))
    ctx.check(p.supplied() == p.before, 'configuration-modified', lambda_diff(p))
    got = p.probe(other)
    ctx.step()
    differs(ctx, got, want, 'shows-in-other-client', repr(case))


def lambda_diff(p):
    try:
        return diff(json.loads(json.dumps(p.supplied(), default=repr)), json.loads(json.dumps(p.before, default=repr)))
    except Exception as e:
        return repr(e)


def case_handler(ctx, case):
    """What is done with a handler doesn't show in the next one of the same configuration."""
    variant, seq, early = case
    want = {x: alone(variant, x, False) for x in 'AB'}
    p = Pair(variant)
    ctx.state(case)
    ctx.outcome((variant, early))
    h2 = p.mk() if early else None
    for who, o in seq:
        ctx.step(what=(who, o))
        attempt(p.run, who, o)
    ctx.check(p.supplied() == p.before, 'configuration-modified', lambda_diff(p))
    for op in p.ops.values():                        # providers without memory
        op.n = 0
        op.hook.clear()
    p.h = dict.fromkeys('AB', h2 or p.mk())
    p.ops['A'].rejects.clear(), p.ops['B'].rejects.clear()
    for x in 'AB':
        got = p.probe(x)
        ctx.step()
        differs(ctx, got, want[x], 'shows-in-other-handler', repr(case))


def case_request(ctx, case):
    """The arguments of one request don't show in the next request of the same client."""
    variant, seq, who = case
    want = alone(variant, who, True)
    p = Pair(variant)
    p.h[who].client_setup(p.ops[who].issuer)
    ctx.state(case)
    ctx.outcome((variant, who))
    for o in seq:
        ctx.step(what=o)
        attempt(p.run, who, o)
    reg = len(p.w.to('registration', p.ops[who]))
    n = p.ops[who].n
    p.ops[who].rejects.clear()
    got = p.probe(who)
    ctx.check(len(p.w.to('registration', p.ops[who])) == reg, 'registered-again', repr(case))
    differs(ctx, got, want, 'shows-in-next-request', repr(case))


def parts(tier):
    q = tier == 'quick'
    L = 2 if q else 3
    seqs = [s for n in range(1, L + 1) for s in itertools.product(OPS, repeat=n)]
    other = [(v, s, e, w) for v in VARIANTS for s in seqs for e in (False, True) for w in 'AB']
    if q:
        other = [c for c in other if len(c[1]) < 2 or c[3] == 'A' and (c[2] or c[1][0] not in ('begin', 'login'))]
    quiet = [o for o in OPS if o not in SETTING]
    req = [(v, s, w) for v in VARIANTS for n in range(1, L + 1) for s in itertools.product(quiet, repeat=n) for w in 'AB']
    hs = [((w, o),) for w in 'AB' for o in OPS] + [(('A', o), ('B', r)) for o in OPS for r in OPS]
    if not q:
        hs += [((w1, o), (w2, r), ('A', 'session')) for o in OPS for r in OPS for w1 in 'AB' for w2 in 'AB']
    return [Part('other', case_other, other, 'operations on one client, then the other'), Part('handler', case_handler, [(v, s, e) for v in VARIANTS for s in hs for e in (False, True)
            if not q or len(s) == 1 or e == (hash_of(s) % 2 == 0)], 'operations, then another handler'), Part('request', case_request, req, 'requests, then one of the same client'),
            Part('sessions', case_sessions, [(v, s, k) for v in VARIANTS for n in range(1, 4 if q else 5) for s in itertools.product([(w, u) for w in 'AB' for u in 'uv'], repeat=n)
                                             for k in ('one', 'handlers')], 'logins of two users at two providers, then every look-up')]


def case_sessions(ctx, case):
    """What one client knows of its sessions the other doesn't: looking up what only the other one has finds nothing, and the same name found at both
    is each one's own."""
    variant, seq, kind = case
    p = Pair(variant)
    for op in p.ops.values():
        op.md['backchannel_logout_session_supported'] = True
    if variant == 'static':
        for c in p.conf.values():
            c['provider_info']['backchannel_logout_session_supported'] = True
        p.h['A'] = p.h['B'] = p.mk()
    ctx.state(case)
    have = {'A': {}, 'B': {}}
    if kind == 'handlers':                           # the same configuration once more, another provider's client
        p.h['B'] = p.mk()
    for who, sub in seq:
        ctx.step(what=(who, sub))
        op = p.ops[who]
        b = p.op_begin(who)
        r = p.h[who].finalize(op.issuer, op.authorize(b['url'], sub, sid='sid-' + sub))
        if not ctx.check('error' not in r, 'login-failed', repr(r)):
            return
        have[who][sub] = (b['state'], query(b['url']).get('nonce'))
    for who in 'AB':
        if p.ops[who].issuer not in p.h[who].issuer2rp:
            continue
        st = p.context(who).state
        mine = {s for s, _ in have[who].values()}
        for sub in ('u', 'v'):
            want = have[who].get(sub, (None, None))
            for get, key in ((st.get_state_by_sub, sub), (st.get_state_by_sid, 'sid-' + sub)):
                ok, got = attempt(get, key)
                ctx.check((got if ok else None) == want[0], 'session-of-other-client' if ok and got not in mine else 'session-lost', '%r %r: %r' % (case, key, got))
        for other in 'AB':
            for s, n in have[other].values():
                ok, got = attempt(st.get_iss, s)
                ctx.check((other == who and got == p.ops[who].issuer) if ok else other != who, 'state-of-other-client', '%r %r' % (case, got))
                if n:
                    ok, got = attempt(st.get_state_by_nonce, n)
                    ctx.check(not ok or got in mine, 'nonce-of-other-client', '%r %r' % (case, got))
                ok, got = attempt(st.get_state, s)
                ctx.check(ok == (other == who), 'state-of-other-client', '%r %r' % (case, s))
    ctx.outcome((variant, tuple(sorted((k, tuple(v)) for k, v in have.items()))))
    # leaving one doesn't end the other
    if have['A'] and have['B']:
        for s, _ in have['A'].values():
            attempt(p.context('A').state.remove_state, s)
        for sub, (s, _) in have['B'].items():
            ctx.check(attempt(p.context('B').state.get_state_by_sub, sub) == (True, s), 'ended-by-other-client', repr(case))
            ok, r = attempt(p.h['B'].get_user_info, s)
            ctx.check(ok and r.get('sub') == sub, 'ended-by-other-client', repr(r))


def hash_of(s):
    return sum(OPS.index(o) for _, o in s)


META = dict(rule='distinct (configuration, operations, order of set-up, which client)', assumptions=[
    'the application may hand the same dictionaries to several clients and handlers, but does not change them itself'])
