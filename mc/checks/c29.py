"""C29: transport settings. Every set of transport parameters x every way to give them x every kind of request the library makes is executed, and the
parameters that reach the requests transport adapter are compared with what was configured; every kind of request is answered with every redirect;
all sequences of calls with different per-call arguments, hooks and cookies are compared with each call alone."""
import itertools
import os

from ..core import Part
from ..world import *

# name -> (httpc_params, what the adapter has to see)
CA, CERT, KEY = '/etc/own/ca.pem', '/etc/own/cert.pem', '/etc/own/key.pem'
PARAMS = {
    'none': (None, {}), 'verify-true': ({'verify': True}, {}), 'verify-false': ({'verify': False}, {'verify': False}), 'ca': ({'verify': CA}, {'verify': CA}),
    'cert': ({'cert': (CERT, KEY)}, {'cert': (CERT, KEY)}), 'cert1': ({'verify': CA, 'cert': CERT}, {'verify': CA, 'cert': CERT}),
    'client-cert': ({'verify': False, 'client_cert': CERT, 'client_key': KEY}, {'verify': False, 'cert': (CERT, KEY)}),
    'client-cert1': ({'client_cert': CERT}, {'cert': CERT}), 'timeout': ({'timeout': 3}, {'timeout': 3}), 'timeouts': ({'timeout': (1, 7), 'verify': False}, {'timeout': (1, 7), 'verify': False}),
    'proxies': ({'proxies': {'https': 'http://proxy.example.com:3128'}}, {'proxies': {'https': 'http://proxy.example.com:3128'}}),
    'headers': ({'headers': {'User-Agent': 'mc/1', 'X-Own': 'a'}, 'verify': CA}, {'verify': CA, 'headers': {'user-agent': 'mc/1', 'x-own': 'a'}}),
    'all': ({'verify': CA, 'cert': (CERT, KEY), 'timeout': 2, 'headers': {'X-Own': 'b'}, 'proxies': {'https': 'http://p:1'}},
            {'verify': CA, 'cert': (CERT, KEY), 'timeout': 2, 'headers': {'x-own': 'b'}, 'proxies': {'https': 'http://p:1'}}),
    'ssl': ('verify_ssl', {'verify': False}),
}


def seen(ctx, req, want, kind):
    o = req.opts
    ctx.check(o['verify'] == want.get('verify', True) and type(o['verify']) is type(want.get('verify', True)), 'other-verification:%s' % kind, '%r: verify=%r' % (req, o['verify']))
    ctx.check(o['cert'] == want.get('cert'), 'other-certificate:%s' % kind, '%r: %r' % (req, o['cert']))
    if 'timeout' in want or kind not in ('jwks', 'cs-jwks'):    # keys have a default
        ctx.check(o['timeout'] == want.get('timeout'), 'other-timeout:%s' % kind, '%r: %r' % (req, o['timeout']))
    ctx.check(o['proxies'] == want.get('proxies', {}), 'other-proxies:%s' % kind, '%r: %r' % (req, o['proxies']))
    for k, v in want.get('headers', {}).items() if kind != 'jwks' else ():
        ctx.check(req.headers.get(k) == v, 'header-lost:%s' % kind, '%r: %s %r' % (req, k, req.headers.get(k)))
    if 'headers' not in want:
        ctx.check('x-own' not in req.headers, 'header-from-elsewhere:%s' % kind, repr(req.headers))


def site(params, kind, given, how='code', method='client_secret_basic', par=False, userinfo='json', aggregated=False, only=None):
    """(world, op, handler, what to do) with everything that makes requests in use."""
    w = World()
    caps = {'pushed_authorization_request_endpoint': ISS[1] + '/par'} if par else {}
    caps['userinfo_signing_alg_values_supported'] = ['RS256']
    op = SimOP(w, ISS[1], 'op1', caps=caps)
    op.issue_rt = True
    op.do_pushed_authorization_request = lambda req: (op.__dict__.setdefault('pushed', {}).update(req.form), jresp({'request_uri': 'urn:par:1', 'expires_in': 60}, 201))[1]
    if par:
        op.unwrap_request = lambda q: op.pushed if 'request_uri' in q else q
    op.hook['userinfo'] = lambda claims, t: dict(claims, _claim_names={'a': 'tok', 'b': 'plain'}, _claim_sources={
        'tok': {'endpoint': 'https://cs.example.org/tok', 'access_token': 'cs-token'}, 'plain': {'endpoint': 'https://cs.example.org/plain'}})
    for p in ('tok', 'plain'):
        w.static['https://cs.example.org/' + p] = lambda req, p=p: jresp({'tok': {'a': 1}, 'plain': {'b': 2}}[p])
    w.static['https://users.example.com/.well-known/webfinger'] = lambda req: jresp({'subject': req.args['resource'], 'links': [
        {'rel': 'http://openid.net/specs/connect/1.0/issuer', 'href': ISS[1]}]})
    addons = {}
    if par:
        addons['par'] = {'function': 'oidcrp.oauth2.add_on.pushed_authorization.add_support', 'kwargs': {'body_format': 'urlencoded', 'merge_rule': 'lax'}}
    extra = {'add_ons': addons} if addons else {}
    if kind == 'dynamic':
        c = {'': dynamic_conf(response_types=(how,), **extra)}
    elif kind == 'discover':
        c = {op.issuer: static_conf(op, response_types=(how,), discover=True, method=method, **extra)}
    else:
        c = {op.issuer: static_conf(op, response_types=(how,), method=method, **extra)}
    httpc, want = PARAMS[params]
    kw = {'verify_ssl': False} if httpc == 'verify_ssl' else {'httpc_params': copy.deepcopy(httpc)} if httpc is not None else {}
    if given == 'no-keyjar':
        kw['keyjar'] = None
        kw['jwks_path'] = None
    elif given == 'keyjar-set':
        kw['keyjar'] = keyjar()
        kw['keyjar'].httpc_params = {'timeout': 4}
    h = handler(c, services(web_finger={'class': 'oidcrp.oidc.webfinger.WebFinger'}), **kw)
    return w, op, h, want, kw


def walk(w, op, h, kind, how='code'):
    """A login and all that follows."""
    b = h.begin(user_id='joe@users.example.com') if kind == 'dynamic' else h.begin(op.issuer)
    r = op.authorize(b['url'], 'alice')
    r = h.finalize(op.issuer, r)
    if 'error' in r:
        raise ValueError(repr(r))
    h.get_user_info(b['state'])
    if 'token' not in how.split():
        h.refresh_access_token(b['state'])
    h.get_valid_access_token(b['state'])
    from oidcmsg.oidc import OpenIDSchema
    h.issuer2rp[op.issuer].fetch_distributed_claims(OpenIDSchema(**h.get_user_info(b['state']).to_dict()))
    # new keys at the provider
    op.keys = 'op2'
    b = h.begin(op.issuer)
    return h.finalize(op.issuer, op.authorize(b['url'], 'bob'))


def name(req):
    return req.endpoint or {'users.example.com': 'webfinger', 'cs.example.org': 'claims'}.get(req.host, req.host)


def case_kinds(ctx, case):
    params, kind, given, how, method, par = case
    ctx.state(case)
    cwd = os.getcwd()
    if given == 'no-keyjar':                     # it makes its keys in files of its own
        os.makedirs('kj-%d' % os.getpid(), exist_ok=True)
        os.chdir('kj-%d' % os.getpid())
    try:
        w, op, h, want, kw = site(params, kind, given, how, method, par)
        before = copy.deepcopy(kw.get('httpc_params'))
        ok, r = attempt(walk, w, op, h, kind, how)
        ctx.step(len(w.log))
        ctx.check(ok, 'cannot-log-in', repr(r))
    finally:
        os.chdir(cwd)
    for q in w.log:
        wanted = dict(want)
        if given == 'keyjar-set' and 'timeout' not in want and name(q) == 'jwks':
            wanted['timeout'] = 4
        seen(ctx, q, wanted, name(q))
        ctx.outcome((name(q), params))
    ctx.check(kw.get('httpc_params') == before, 'settings-modified', '%r instead of %r' % (kw.get('httpc_params'), before))
    got = {name(q) for q in w.log}
    need = {'jwks', 'userinfo', 'claims'} | ({'token'} if 'token' not in how.split() else set()) | ({'discovery', 'registration', 'webfinger'} if kind == 'dynamic' else {'discovery'} if kind == 'discover' else set())
    if par:
        need.add('pushed_authorization_request')
    ctx.check(not need - got, 'harness-not-covered', repr(need - got))


def client(httpc, svcs, conf=None, **kw):
    from oidcrp.oidc import RP
    a = {} if httpc is None else {'httpc_params': copy.deepcopy(httpc)}
    return RP(config=dict({'client_id': 'me', 'client_secret': SECRET, 'redirect_uris': [BASE + '/cb'], 'issuer': ISS[1]}, **(conf or {})), services=svcs, **a, **kw)


def case_client(ctx, case):
    """Clients that are made without a handler."""
    params, what, keys = case
    ctx.state(case)
    httpc, want = PARAMS[params]
    if httpc == 'verify_ssl':
        return
    w = World()
    op = SimOP(w, ISS[1], 'op1')
    op.add_client('me', SECRET, [BASE + '/cb'])
    kw = {'keyjar': keyjar()} if keys == 'given' else {}
    if what == 'cc':
        op.do_token = lambda req: jresp({'access_token': 'a', 'token_type': 'Bearer', 'expires_in': 3600, 'refresh_token': 'r'})
        svcs = {'token': {'class': 'oidcrp.oauth2.client_credentials.cc_access_token.CCAccessToken'},
                'refresh_token': {'class': 'oidcrp.oauth2.client_credentials.cc_refresh_access_token.CCRefreshAccessToken'}}
        c = client(httpc, svcs, **kw)
        for s in ('accesstoken', 'refresh_token'):
            c.client_get('service', s).endpoint = op.md['token_endpoint']
        c.do_request('accesstoken', state='cc')
        c.do_request('refresh_token', state='cc')
    elif what == 'read':
        w.static[ISS[1] + '/reg/1'] = lambda req: jresp({'client_id': 'me', 'redirect_uris': [BASE + '/cb']})
        c = client(httpc, dict(services(), read={'class': 'oidcrp.oidc.read_registration.RegistrationRead'}), **kw)
        c.client_get('service_context').registration_response = {'registration_client_uri': ISS[1] + '/reg/1', 'registration_access_token': 't'}
        c.do_request('registration_read')
    elif what == 'discovery':
        c = client(httpc, services(), **kw)
        from oidcrp.oauth2 import dynamic_provider_info_discovery
        dynamic_provider_info_discovery(c)
        c.client_get('service_context').keyjar.get_signing_key('RSA', op.issuer)
    elif what == 'import':
        c = client(httpc, services(), **kw)
        k = c.client_get('service_context')
        k.import_keys({'url': {op.issuer: op.md['jwks_uri']}})
        k.keyjar.get_signing_key('RSA', op.issuer)
    elif what == 'import-conf':
        c = client(httpc, services(), conf={'keyjar': None, 'keydefs': {'url': {op.issuer: op.md['jwks_uri']}}}, **kw)
        k = c.client_get('service_context')
        k.keyjar.get_signing_key('RSA', op.issuer)
    elif what == 'claims':
        from oidcmsg.oidc import OpenIDSchema
        w.static['https://cs.example.org/x'] = lambda req: jresp({'a': 1})
        for spec, cb in (({}, None), ({'access_token': 't'}, None), ({}, lambda e: 't2')):
            u = OpenIDSchema(sub='x', _claim_names={'a': 's'}, _claim_sources={'s': dict(spec, endpoint='https://cs.example.org/x')})
            c = client(httpc, services(), **kw)
            c.fetch_distributed_claims(u, callback=cb)
    ctx.step(len(w.log))
    ctx.check(len(w.log) > 0 or what == 'import-conf', 'harness-not-covered', '')
    for q in w.log:
        seen(ctx, q, want, name(q))
        ctx.outcome((what, params))


REDIRECT = [301, 302, 303, 307, 308]


def case_redirect(ctx, case):
    """What is sent where the user or the application did not ask for it to be sent is lost."""
    where, status, params, target = case
    ctx.state(case)
    w, op, h, want, kw = site(params, 'dynamic', 'keyjar', par=True)
    loc = {'http': 'http://evil.example.net/x', 'other': 'https://evil.example.net/x', 'same': ISS[1] + '/moved', 'relative': '/moved'}[target]
    n = []

    def fault(req, ep):
        if name(req) == where and not n:
            n.append(req)
            return Resp(status, '', {'location': loc})
    w.fault = fault
    ok, r = attempt(walk, w, op, h, 'dynamic')
    ctx.step(len(w.log))
    ctx.outcome((where, status, ok, type(r).__name__))
    ctx.check(bool(n), 'harness-not-covered', where)
    there = [q for q in w.log if q.host == 'evil.example.net' or q.path == '/moved']
    ctx.check(not there, 'redirect-followed:%s' % where, repr(there))


# --------------------------------------------------------------- histories of the HTTP client

CALLS = {
    'plain': {}, 'header': {'headers': {'X-Call': '1', 'Authorization': 'Bearer secret'}}, 'own-header': {'headers': {'X-Own': 'call'}}, 'data': {'method': 'POST', 'data': 'a=b'},
    'noverify': {'verify': False}, 'ca': {'verify': '/other.pem'}, 'timeout': {'timeout': 99}, 'follow': {'allow_redirects': True}, 'cookies': {'cookies': {'own': 'c'}},
    'params': {'params': {'q': '1'}}, 'auth': {'auth': ('u', 'p')}, 'none-header': {'headers': None}, 'cert': {'cert': ('/x', '/y')}, 'fail': {}, 'json': {'method': 'PUT', 'json': {'a': 1}}}
COOKIES = [None, 'sid=abc; Path=/', 'a b=c', 'x=y; expires=garbage', 'x=y; max-age=abc', 'x=y; max-age=0', 'x=y; version=abc', 'x=y; version="1,2"', 'x=y; Domain=.example.org; Path=/z; Secure; HttpOnly',
           'x=y; port="80"', '=', ';;;', 'x', 'x="unterminated', 'a=b, c=d', 'x=y; expires=Thu, 01 Jan 1970 00:00:00 GMT', 'x=y; SameSite=None; Partitioned', 'é=ü', 'x=y; comment=', 'x=y; max-age=-1',
           'a,b=c', 'x=y; expires=Wed, 99 Foo 2025 10:00:00 GMT']


def observe(req):
    return (req.method, req.url, {k: v for k, v in req.headers.items()}, req.body, {k: req.opts[k] for k in ('verify', 'cert', 'timeout', 'proxies')})


def alone(h, call, world, target):
    """What one call gives with a client that has done nothing else."""
    kw = copy.deepcopy(CALLS[call])
    n = len(world.log)
    world.fail = call == 'fail'
    try:
        r = h(target, **kw) if len(kw.get('method', '')) != 3 else h.send(target, **kw)
        out = r.status_code
    except Exception as e:
        out = type(e).__name__
    world.fail = False
    return out, [observe(q) for q in world.log[n:]]


def case_calls(ctx, case):
    params, seq = case
    from oidcrp.http import HTTPLib
    httpc, want = PARAMS[params]
    ctx.state(case)
    import requests
    w = World()
    target = {i: 'https://h%d.example.org/p' % i for i in range(len(seq))}
    w.fault = lambda req, ep: requests.exceptions.ConnectionError('down') if w.fail else Resp(302, '', {'location': 'https://moved.example.org/'}) if req.host != 'moved.example.org' else Resp(200, 'x', {
        'set-cookie': 'sid=%s; Path=/' % req.host})
    given = copy.deepcopy(httpc)
    h = HTTPLib(given)
    start = copy.deepcopy(h.request_args)
    for i, call in enumerate(seq):
        got = alone(h, call, w, target[i])
        ctx.step()
        ref = alone(HTTPLib(copy.deepcopy(httpc)), call, w, target[i])
        ctx.check(got == ref, 'call-affected-by-earlier', '%r at %d: %r instead of %r' % (seq, i, got, ref))
        ctx.check(h.request_args == start and given == httpc, 'defaults-modified', '%r after %r' % (h.request_args, call))
        for o in got[1][:1]:
            c = CALLS[call]
            for k in ('verify', 'cert', 'timeout'):
                wanted = c[k] if k in c else want.get(k, {'verify': True}.get(k))
                ctx.check(o[4][k] == wanted, 'call-settings-not-used:%s' % k, '%r: %r instead of %r' % (call, o[4][k], wanted))
            hd = {k.lower(): v for k, v in dict((httpc or {}).get('headers', {}), **(c.get('headers') or {})).items()}
            ctx.check(all(o[2].get(k) == v for k, v in hd.items()), 'call-header-lost', '%r: %r instead of %r' % (call, o[2], hd))
        ctx.check(len(got[1]) == (2 if call == 'follow' else 1), 'redirect-followed', '%r: %r' % (call, got[1]))
    ctx.outcome((params, len(set(seq))))


def case_hook(ctx, case):
    """The function that may modify the arguments of each request."""
    params, call = case
    from oidcrp.http import HTTPLib
    ctx.state(case)
    httpc, want = PARAMS[params]
    w = World()
    w.fault = lambda req, ep: Resp(200, 'x')
    h = HTTPLib(copy.deepcopy(httpc))
    start = copy.deepcopy(h.request_args)
    seen_ = []

    def hook(method, url, **kw):
        seen_.append((method, url, copy.deepcopy(kw)))
        kw['timeout'] = 123
        kw['headers'] = dict(kw.get('headers') or {}, **{'X-Hook': url})
        return kw
    h.req_callback = hook
    for i in (0, 1):
        url = 'https://h%d.example.org/' % i
        kw = copy.deepcopy(CALLS[call])
        h(url, **kw)
        ctx.step()
        q = w.log[-1]
        ctx.check(seen_[-1][:2] == (kw.get('method', 'GET'), url), 'hook-sees-other', repr(seen_[-1]))
        ctx.check(q.opts['timeout'] == 123 and q.headers.get('x-hook') == url, 'hook-ignored', '%r %r' % (q.opts, q.headers))
        ctx.check(q.opts['verify'] == kw.get('verify', want.get('verify', True)) and q.opts['cert'] == kw.get('cert', want.get('cert')), 'hook-loses-settings', repr(q.opts))
        ctx.check(h.request_args == start, 'defaults-modified', repr(h.request_args))
        if i == 0:
            h.req_callback = hook
    h.req_callback = None
    h('https://h3.example.org/')
    ctx.check('x-hook' not in w.log[-1].headers, 'call-affected-by-earlier', repr(w.log[-1].headers))
    ctx.outcome(case)


def case_cookie(ctx, case):
    """Cookies: never a reason not to understand an answer, never sent to another host."""
    which, cookie = case
    ctx.state(case)
    w, op, h, want, kw = site('none', 'dynamic', 'keyjar')

    def fault(req, ep):
        if name(req) in (which, 'everywhere') or which == 'everywhere':
            orig = w.fault
            w.fault = None
            n = len(w.log)
            try:
                a = op.serve(ep, req) if req.op is op else w.static[req.base](req)
            finally:
                w.fault = orig
                del w.log[n:]
            if isinstance(a, Resp) and cookie is not None:
                a.headers['set-cookie'] = cookie
            return a
    w.fault = fault
    ok, r = attempt(walk, w, op, h, 'dynamic')
    ctx.step(len(w.log))
    ctx.outcome(ok)
    ctx.check(ok and r.get('userinfo', {}).get('sub') == 'bob', 'answer-lost-for-its-cookie', repr(r))
    first = {}
    for q in w.log:
        if 'cookie' in q.headers:
            given = [p for p in w.log if p.host == q.host and 'set-cookie' in (getattr(p.answer, 'headers', None) or {})]
            ctx.check(bool(given), 'cookie-sent-to-another-host', '%r %r' % (q, q.headers['cookie']))


def case_config(ctx, case):
    """The documented configuration, in the documented form, becomes request arguments."""
    from oidcrp.util import get_http_params
    verify, ssl, cert, key = case
    ctx.state(case)
    ctx.step()
    c = {k: v for k, v in (('verify', verify), ('verify_ssl', ssl), ('client_cert', cert), ('client_key', key)) if v is not None}
    before = copy.deepcopy(c)
    got = get_http_params(c)
    want = {'verify': verify if verify is not None else ssl if ssl is not None else True}
    if cert:
        want['cert'] = (cert, key) if key else cert
    ctx.check(got == want and c == before, 'wrong-parameters', '%r: %r instead of %r' % (c, got, want))
    ctx.outcome(sorted(got))


def parts(tier):
    q = tier == 'quick'
    kinds = set()
    for p in PARAMS:
        for kind in ('static', 'dynamic', 'discover'):
            for given in ('keyjar', 'keyjar-set'):
                kinds.add((p, kind, given, 'code', 'client_secret_basic', True))
            if not q:
                for how, method, par in itertools.product(('code', 'code id_token', 'code id_token token'), ('client_secret_basic', 'client_secret_post', 'private_key_jwt'), (False, True)):
                    kinds.add((p, kind, 'keyjar', how, method, par))
    for p in ('ca', 'verify-false', 'timeout', 'none'):
        kinds.add((p, 'dynamic', 'no-keyjar', 'code', 'client_secret_basic', True))
    clients = list(itertools.product(PARAMS, ('cc', 'read', 'discovery', 'import', 'claims'), ('given', 'own')))
    redirects = list(itertools.product(('webfinger', 'discovery', 'registration', 'pushed_authorization_request', 'token', 'userinfo', 'claims'), REDIRECT, ('none', 'all') if q else PARAMS,
                                       ('http', 'other', 'same', 'relative')))
    calls = [(p, s) for p in (('none', 'headers', 'all', 'client-cert') if q else [p for p in PARAMS if p != 'ssl']) for n in ((1, 2) if q else (1, 2, 3)) for s in itertools.product(CALLS, repeat=n)]
    hooks = list(itertools.product([p for p in PARAMS if p != 'ssl'], [c for c in CALLS if c not in ('fail', 'follow')]))
    cookies = list(itertools.product(('everywhere', 'token', 'registration', 'claims') if q else ('everywhere', 'webfinger', 'discovery', 'registration', 'token', 'userinfo', 'claims'), COOKIES))
    config = list(itertools.product((None, True, False, CA), (None, True, False), (None, '', CERT), (None, '', KEY)))
    return [Part('kinds', case_kinds, sorted(kinds), 'configurations', 'a login, refresh, new keys'), Part('clients', case_client, clients, 'configurations', 'one or two requests'),
            Part('redirects', case_redirect, redirects, 'fault_sequences', 'one redirect'), Part('calls', case_calls, calls, 'histories', 'at most %d calls' % (2 if q else 3)),
            Part('hook', case_hook, hooks, 'configurations', 'two calls'), Part('cookies', case_cookie, cookies, 'inputs', 'one kind of cookie'),
            Part('config', case_config, config, 'configurations', 'all combinations')]


META = dict(rule='distinct (parameters, kind of request or calls)', assumptions=[
    'parameters are observed where requests hands them to its transport adapter', 'keys are fetched with a default time limit if none is configured, without configured headers (a key bundle of cryptojwt modifies the headers it is given), and may be redirected'])
