"""C13: the authorization request. Enumerates response type x mode x redirect-URI configuration (static, several, negotiated
by dynamic registration) x scope forms x extra parameters x configured defaults x endpoint shapes, through the handler and
directly through the services; every ordered pair of argument sets is built twice on one client and compared with an
independent statement of what the URL must carry, with what is recorded and with what a fresh client produces."""
import itertools

from .. import large
from ..core import Part, product
from ..world import *

RTS = ['code', 'id_token', 'id_token token', 'code id_token', 'code token', 'code id_token token']
MODES = [None, 'query', 'fragment', 'form_post']
SCOPES = [None, ['openid'], ['profile'], [], 'openid email', 'profile email', ['openid', 'offline_access'],
          ['email', 'openid', 'profile'], 'openid_x', ['offline_access', 'openid'], 'openid offline_access_x']
EXTRAS = [{}, {'prompt': 'login'}, {'max_age': 0}, {'max_age': 300}, {'ui_locales': 'sv en'}, {'acr_values': ['1', '2']},
          {'login_hint': 'al+ice@example.org & co'}, {'display': 'popup', 'prompt': 'none'}, {'foo': 'bår &=#?/%'},
          {'resource': 'https://api.example.com/a?b=c&d'}, {'claims': {'id_token': {'acr': {'essential': True}}}},
          {'nonce': 'my-own-nonce-0123456789'}, {'state': 'my-state'}, {'id_token_hint': 'a.b.c'},
          {'claims': {'userinfo': {'email': None}}, 'claims_locales': 'sv'}]
ENDPOINTS_ = ['/authorization', '/authz?tenant=a%20b', '/a/b?x=1&y=']
ALT = BASE + '/other/cb'


def expected_scope(arg, conf, oidc=True):
    sc = arg if arg is not None else conf
    sc = sc.split(' ') if isinstance(sc, str) else list(sc)
    sc = [x for x in sc if x]
    if oidc and 'openid' not in sc:
        sc.append('openid')
    return sc


def flat(v):
    if isinstance(v, (list, tuple)):
        return ' '.join(v)
    if isinstance(v, dict):
        return v
    return str(v)


def judge(ctx, s, url, state, args, conf_args, conf_scope, rts, redirect, oidc=True, ep=None):
    """url: what was built; args: the caller's arguments."""
    op = s.op
    u = urlsplit(url)
    pairs = parse_qsl(u.query, keep_blank_values=True)
    got = dict(pairs)
    ctx.check(len(pairs) == len(got), 'repeated-parameter', url)
    base = urlsplit(ep or op.md['authorization_endpoint'])
    ctx.check((u.scheme, u.netloc, u.path, u.fragment) == (base.scheme, base.netloc, base.path, ''), 'wrong-endpoint', url)
    for k, v in parse_qsl(base.query, keep_blank_values=True):
        ctx.check(got.pop(k, None) == v, 'endpoint-query-lost', url)
    merged = dict(conf_args)
    merged.update(args)
    merged.pop('state', None)
    exp = {'client_id': s.cid, 'response_type': flat(merged.pop('response_type', rts[0])), 'state': state}
    scope = expected_scope(merged.pop('scope', None), conf_scope, oidc)
    # a nonce is needed whenever an ID Token will come; otherwise it does no harm
    need_nonce = oidc and ('code' in exp['response_type'].split(' ') or 'id_token' in exp['response_type'].split(' '))
    nonce = got.pop('nonce', None)
    if 'nonce' in merged:
        ctx.check(nonce == merged.pop('nonce'), 'callers-nonce-changed', url)
    elif need_nonce:
        ctx.check(bool(nonce) and len(nonce) >= 16, 'no-nonce', url)
    ctx.check(sorted(got.pop('scope', '').split(' ')) == sorted(scope) if scope else 'scope' not in got or not got.pop('scope'),
              'wrong-scope', '%s, expected %r' % (url, scope))
    ru = got.pop('redirect_uri', None)
    if 'redirect_uri' in merged:
        ctx.check(ru == merged.pop('redirect_uri'), 'callers-redirect-uri-changed', url)
    else:
        ctx.check(ru in redirect, 'wrong-redirect-uri', '%r, expected one of %r' % (ru, redirect))
    if 'offline_access' in scope and 'prompt' not in merged and oidc:
        ctx.check(got.pop('prompt', None) == 'consent', 'no-consent-prompt', url)
    for k, v in merged.items():
        exp[k] = flat(v)
    for k, v in exp.items():
        g = got.pop(k, None)
        if isinstance(v, dict):
            try:
                g = json.loads(g)
            except Exception:
                pass
        ctx.check(g == v, 'wrong-parameter:' + k, '%r instead of %r in %s' % (g, v, url))
    for k in ('code_challenge', 'code_challenge_method') if s.pkce else ():
        ctx.check(bool(got.pop(k, None)), 'no-' + k, url)
    ctx.check(not got, 'unexpected-parameters', repr(got))
    # the record
    st = json.loads(s.client_.client_get('service_context').state.dump()['_db'][state])
    rec = st.get('auth_request')
    rec = json.loads(rec) if isinstance(rec, str) else rec
    full = dict(pairs)
    for k, v in parse_qsl(base.query, keep_blank_values=True):
        full.pop(k, None)
    recf = {k: flat(v) for k, v in (rec or {}).items()}
    for k in recf:
        if isinstance(recf[k], dict) and k in full:
            full[k] = json.loads(full[k])
    ctx.check(recf == full, 'record-differs', '%r recorded, %r sent' % (recf, full))
    ctx.check(st.get('iss') == op.issuer, 'record-issuer', repr(st.get('iss')))
    if need_nonce and oidc:
        ok, x = attempt(s.client_.client_get('service_context').state.get_state_by_nonce, nonce)
        ctx.check(ok and x == state, 'nonce-not-bound', repr(x))


def build(s, args, **kw):
    b = s.h.begin(s.op.issuer, req_args=args, **kw)
    s.client_ = s.h.issuer2rp[s.op.issuer]
    s.cid = s.client_.get_client_id()
    return b


def redirects(s, kind, args, conf_args, rts):
    """What redirect URIs suit the request."""
    if kind != 'dynamic':
        return s.configs[s.op.issuer]['redirect_uris']
    cb = s.client_.client_get('service_context').get('callback')
    reg = s.op.last_registration['redirect_uris']
    m = dict(conf_args, **args)
    rt = sorted(flat(m.get('response_type', rts[0])).split(' '))
    mode = m.get('response_mode')
    if mode == 'form_post':
        c = [cb['form_post']] if 'form_post' in cb else []
    elif rt == ['code']:
        c = [cb['code']]
    else:
        c = [cb['implicit']]
    return [x for x in c if x in reg]


def make(kind, rts, conf_scope, conf_args, ep, pkce, svcs=None):
    kw = {'authorization_endpoint': ISS[1] + ep} if ep else {}

    def conf(op):
        if kind == 'dynamic':
            return dynamic_conf(response_types=rts, scope=conf_scope, prefs={'form_post_usable': True}, pkce=pkce,
                                issuer=op.issuer, **({'request_args': copy.deepcopy(conf_args)} if conf_args else {}))
        return static_conf(op, client_id='rp-client-1', response_types=rts, scope=conf_scope, pkce=pkce,
                           redirect_uris=[BASE + '/cb/1', BASE + '/cb/2?x=y&z=%20'] if kind == 'several' else None,
                           **({'request_args': copy.deepcopy(conf_args)} if conf_args else {}))
    s = Setup(1, conf=conf, op_kw={'caps': kw}, svcs=svcs)
    s.pkce = pkce
    return s


def clean(url):
    u = urlsplit(url)
    return u[:3], {k: v for k, v in parse_qsl(u.query, keep_blank_values=True)
                   if k not in ('state', 'nonce', 'code_challenge', 'client_id', 'redirect_uri')}


def case_pair(ctx, case):
    kind, rts, conf_scope, conf_args, ep, pkce, seq = case
    s = make(kind, list(rts), list(conf_scope), conf_args, ep, pkce)
    s.h.client_setup(s.op.issuer)
    before = json.dumps(s.configs, sort_keys=True, default=str)
    urls = []
    for args in seq:
        a = copy.deepcopy(args)
        ok, b = attempt(build, s, a)
        if not ok:
            ctx.fail('refused', '%r with %r' % (b, args))
            return
        ctx.check(a == args, 'arguments-changed', '%r -> %r' % (args, a))
        ctx.check(json.dumps(s.configs, sort_keys=True, default=str) == before, 'configuration-changed',
                  '%s -> %s' % (before, json.dumps(s.configs, sort_keys=True, default=str)))
        r = redirects(s, kind, args, conf_args, rts)
        ctx.check('redirect_uri' in args or bool(r), 'nothing-registered-suits', '')
        judge(ctx, s, b['url'], b['state'], args, conf_args, conf_scope, rts, r)
        urls.append((b['url'], b['state']))
        ctx.step()
    ctx.check(len({x for _, x in urls}) == len(urls), 'state-reused', '')
    # the last one, alone
    if len(seq) > 1:
        s2 = make(kind, list(rts), list(conf_scope), conf_args, ep, pkce)
        b2 = build(s2, copy.deepcopy(seq[-1]))
        ctx.check(clean(urls[-1][0]) == clean(b2['url']), 'depends-on-earlier-requests',
                  '%s\nalone: %s' % (urls[-1][0], b2['url']))
        # and earlier ones are still recorded as they were sent
        if seq[0].get('nonce') is None or seq[0].get('nonce') not in [a.get('nonce') for a in seq[1:]]:
            judge(ctx, s, urls[0][0], urls[0][1], seq[0], conf_args, conf_scope, rts,
                  redirects(s, kind, seq[0], conf_args, rts))
    ctx.outcome((kind, sorted(query(urls[-1][0]))))
    ctx.state((kind, rts, conf_scope, str(conf_args), ep, pkce, str(seq)))


def case_defaults(ctx, case):
    """Defaults configured for the service; requests with and without behaviour arguments take turns."""
    kind, svc_args, construct, conf_args, seq = case
    c = {}
    if svc_args is not None:
        c['request_args'] = copy.deepcopy(svc_args)
    c.update(copy.deepcopy(construct))
    svcs = services(authorization={'class': 'oidcrp.oidc.authorization.Authorization', 'kwargs': {'conf': c}})
    s = make(kind, list(RTS), ['openid'], conf_args, None, False, svcs)
    s.h.client_setup(s.op.issuer)
    before = json.dumps([s.configs, s.h.services], sort_keys=True, default=str)
    defaults = dict(svc_args or {}, **conf_args)
    for args, behaviour in seq:
        a, b = copy.deepcopy(args), copy.deepcopy(behaviour)
        ok, r = attempt(build, s, a, **({'behaviour_args': b} if behaviour is not None else {}))
        if not ok:
            ctx.fail('refused', '%r with %r' % (r, (args, behaviour)))
            return
        ctx.check((a, b) == (args, behaviour), 'arguments-changed', '%r -> %r' % ((args, behaviour), (a, b)))
        ctx.check(json.dumps([s.configs, s.h.services], sort_keys=True, default=str) == before, 'configuration-changed', '')
        if behaviour and 'request_param' in behaviour:
            ctx.check('request' in query(r['url']), 'no-request-object', r['url'])
        else:
            judge(ctx, s, r['url'], r['state'], args, defaults, ['openid'], RTS, redirects(s, kind, args, defaults, RTS))
        ctx.step()
        ctx.outcome((kind, sorted(query(r['url']))))
    ctx.state((kind, str(svc_args), str(construct), str(conf_args), str(seq)))


def case_service(ctx, case):
    """The services without the handler."""
    cls, rts, args, how = case
    s = Setup(1, response_types=list(rts))
    s.pkce = False
    conf = s.configs[s.op.issuer]
    oidc = cls == 'oidc'
    if oidc:
        from oidcrp.oidc import RP as C
        svcs = services()
    else:
        from oidcrp.oauth2 import Client as C
        svcs = {'authorization': {'class': 'oidcrp.oauth2.authorization.Authorization'},
                'access_token': {'class': 'oidcrp.oauth2.access_token.AccessToken'}}
    cl = C(keyjar=keyjar(), config=conf, services=svcs)
    s.client_, s.cid = cl, cl.get_client_id()
    srv = cl.client_get('service', 'authorization')
    srv.endpoint = s.op.md['authorization_endpoint']
    _ctx = cl.client_get('service_context')
    a = copy.deepcopy(args)
    before = json.dumps(conf, sort_keys=True, default=str)
    kw = {}
    if how == 'create':
        kw['state'] = _ctx.state.create_state(s.op.issuer)
    elif how == 'args':
        a['state'] = _ctx.state.create_state(s.op.issuer)
    n = 2
    for i in range(n):
        if 'state' in a and i:
            a['state'] = _ctx.state.create_state(s.op.issuer)
        if 'state' in kw and i:
            kw['state'] = _ctx.state.create_state(s.op.issuer)
        b = copy.deepcopy(a)
        inner = dict(b)
        ok, info = attempt(srv.get_request_parameters, request_args=b, **kw)
        if not ok:
            ctx.fail('refused', '%r with %r' % (info, args))
            return
        st = query(info['url']).get('state')
        if how != 'none':
            ctx.check(st == kw.get('state', a.get('state')), 'state-not-used', info['url'])
        judge(ctx, s, info['url'], st, args, {}, ['openid'] if oidc else conf['behaviour']['scope'], rts, conf['redirect_uris'], oidc)
        # the service may complete its own argument dictionary, but nothing inside it
        for k in a:
            ctx.check(inner[k] == a[k], 'arguments-changed', '%s: %r -> %r' % (k, a[k], inner[k]))
        ctx.check(json.dumps(conf, sort_keys=True, default=str) == before, 'configuration-changed', '')
        ctx.step()
        ctx.outcome((cls, sorted(query(info['url']))))
    ctx.state(case)


def case_again(ctx, case):
    """Requests made for a session that there is already, for a client, and for a client set up step by step; two providers."""
    kind, seq = case
    confs = {1: ({'prompt': 'login'}, ['openid']), 2: ({'max_age': 7}, ['openid', 'email'])}

    def conf(op):
        n = 1 if op.issuer == ISS[1] else 2
        ra, sc = copy.deepcopy(confs[n])
        if kind == 'dynamic':
            return dynamic_conf(response_types=list(RTS), scope=sc, issuer=op.issuer, request_args=ra)
        return static_conf(op, client_id='rp-client-%d' % n, response_types=list(RTS), scope=sc, request_args=ra)
    s = Setup(2, conf=conf)
    s.pkce = False
    ops = {1: s.ops[0], 2: s.ops[1]}
    first = {}
    for n in (1, 2):
        first[n] = s.h.begin(ops[n].issuer)['state']
    # the second session is complete, the first one has only begun
    s.op = ops[2]
    b = s.h.begin(ops[2].issuer)
    s.h.finalize(ops[2].issuer, ops[2].authorize(b['url'], 'alice'))
    first[2] = b['state']
    before = json.dumps(s.configs, sort_keys=True, default=str)
    done = []
    for n, how, args in seq:
        s.op = op = ops[n]
        a = copy.deepcopy(args)
        if how == 'begin':
            f = lambda: s.h.begin(op.issuer, req_args=a)
        elif how == 'state':
            f = lambda: s.h.init_authorization(state=first[n], req_args=a)
        elif how == 'client':
            f = lambda: s.h.init_authorization(client=s.h.issuer2rp[op.issuer], req_args=a)
        elif how == 'steps-state':
            def f():
                i = s.h.do_provider_info(state=first[n])
                ctx.check(i == op.issuer, 'issuer-of-another-provider', repr(i))
                regs = getattr(op, 'last_registration', None)
                s.h.do_client_registration(state=first[n], iss_id=op.issuer)
                ctx.check(getattr(op, 'last_registration', None) is regs, 'registered-again', '')
                return s.h.init_authorization(state=first[n], req_args=a)
        ok, r = attempt(f)
        if not ok:
            ctx.fail('refused', '%s: %r with %r' % (how, r, args))
            return
        ctx.check(a == args, 'arguments-changed', '%r -> %r' % (args, a))
        ctx.check(json.dumps(s.configs, sort_keys=True, default=str) == before, 'configuration-changed', '')
        s.client_ = s.h.issuer2rp[op.issuer]
        s.cid = s.client_.get_client_id()
        judge(ctx, s, r['url'], r['state'], args, confs[n][0], confs[n][1], RTS, redirects(s, kind, args, confs[n][0], RTS))
        ctx.check(r['state'] not in first.values() and r['state'] not in [x for _, x, _ in done], 'state-reused', r['state'])
        done.append((n, r['state'], r['url']))
        first[n] = r['state']
        ctx.step()
    # every one of them can be answered, by the provider it was made for
    for n, st, url in done:
        ok, res = attempt(s.h.finalize, ops[n].issuer, ops[n].authorize(url, 'alice'))
        if ctx.check(ok and 'error' not in res, 'no-login', repr(res)):
            ctx.check(res['state'] == st and s.h.state2issuer(st) == ops[n].issuer, 'login-of-another-session', repr(res['state']))
        ctx.step()
        ctx.outcome((n, how, sorted(query(url))))
    ctx.state(case)


def parts(tier):
    q = tier == 'quick'
    out = []
    single = []
    for kind in ('static', 'several', 'dynamic'):
        for rt in [None] + RTS + [['code'], ['code', 'id_token'], 'id_token code', 'token id_token']:
            for mode in MODES:
                for sc in SCOPES:
                    if sc == 'openid_x' and rt is not None:
                        continue
                    a = {}
                    if rt is not None:
                        a['response_type'] = rt
                    if mode:
                        a['response_mode'] = mode
                    if sc is not None:
                        a['scope'] = sc
                    for conf_scope in (('openid',), ('profile', 'email')) if not q or mode is None else (('openid',),):
                        single.append((kind, tuple(RTS), conf_scope, {}, None, False, (a,)))
    for rts in itertools.permutations(RTS, 2):
        for kind in ('static', 'dynamic'):
            for mode in (None, 'form_post'):
                single.append((kind, rts, ('openid', 'email'), {}, None, False, ({'response_mode': mode} if mode else {},)))
    for e in EXTRAS:
        for rt in ('code', 'id_token', 'code id_token token'):
            for ep in ENDPOINTS_:
                for pk in (False, True):
                    for ru in (None, ALT):
                        a = dict(e, response_type=rt, **({'redirect_uri': ru} if ru else {}))
                        single.append(('static', tuple(RTS), ('openid',), {}, ep, pk, (a,)))
    out.append(Part('single', case_pair, single, 'one request'))
    confs = [{}, {'prompt': 'login'}, {'response_mode': 'form_post'}, {'response_type': 'id_token'}, {'scope': ['email']},
             {'claims': {'id_token': {'acr': None}}}, {'max_age': 5, 'foo': 'x'}]
    sets = [{}, {'scope': ['profile']}, {'scope': ['openid', 'offline_access']}, {'response_type': 'id_token'},
            {'response_mode': 'form_post'}, {'claims': {'userinfo': {'email': None}}}, {'prompt': 'none', 'max_age': 1},
            {'nonce': 'n-0123456789abcdef'}, {'foo': 'bar', 'redirect_uri': ALT}, {'response_type': ['code', 'token']},
            {'acr_values': ['1', '2'], 'scope': 'openid email'}]
    pairs = [(kind, tuple(RTS), cs, c, None, pk, seq) for kind in ('static', 'dynamic') for c in confs
             for cs in (('openid',), ('email',)) for pk in ((False,) if q else (False, True))
             for seq in itertools.product(sets, repeat=2)]
    if not q:
        pairs += [(kind, tuple(RTS), ('email',), c, None, False, seq) for kind in ('static',) for c in confs
                  for seq in itertools.product(sets, repeat=3)]
    out.append(Part('sequences', case_pair, pairs, 'every ordered pair (thorough: triple) of argument sets'))
    svc_args = [None, {}, {'max_age': 3600}, {'max_age': 0}, {'prompt': 'login', 'ui_locales': 'sv'}, {'display': 'page', 'max_age': 7}]
    constructs = [{}, {'post_construct': {'lifetime': 60}}, {'pre_construct': {}}, {'post_construct': {}, 'pre_construct': {}}]
    asked = [({}, None), ({'max_age': 0}, None), ({'max_age': 10}, None), ({'prompt': 'none'}, None), ({}, {}),
             ({}, {'request_param': 'request'}), ({'max_age': 0}, {'request_param': 'request', 'request_object_signing_alg': 'ES256'}),
             ({'ui_locales': ''}, None)]
    df = [(kind, sa, co, ca, seq) for kind in ('static', 'dynamic') for sa in svc_args for co in constructs
          for ca in (({}, {'max_age': 99}) if q else ({}, {'max_age': 99}, {'max_age': 0}, {'prompt': 'consent'}))
          for n in ((1, 2) if q else (1, 2, 3)) for seq in itertools.product(asked[:7], repeat=n)]
    out.append(Part('defaults', case_defaults, df, 'defaults configured for the service; request and behaviour arguments in turn'))
    aa = [{}, {'prompt': 'none', 'scope': ['profile']}, {'response_type': 'code id_token', 'max_age': 0}]
    ops_ = [(n, how, a) for n in (1, 2) for how in ('begin', 'state', 'client', 'steps-state') for a in aa]
    ag = [(kind, seq) for kind in ('static', 'dynamic') for k in ((1, 2) if q else (1, 2, 3))
          for seq in itertools.product(ops_ if k < 3 else ops_[::3], repeat=k)]
    out.append(Part('again', case_again, ag, 'requests for sessions and clients there are already'))
    srv = []
    for cls in ('oidc', 'oauth2'):
        for rts in [(r,) for r in RTS] + [('code', 'id_token'), ('id_token', 'code')]:
            for rt in [None] + RTS + [['code', 'id_token'], ['id_token', 'token'], 'token id_token']:
                for sc in (None, ['openid'], ['profile'], 'profile email'):
                    if cls == 'oauth2' and rt is None:
                        continue        # nothing to take a default from
                    for how in ('create', 'args', 'none') if cls == 'oidc' else ('create', 'args'):
                        for extra in ({}, {'prompt': 'login'}, {'nonce': 'n' * 20}):
                            a = dict(extra)
                            if rt is not None:
                                a['response_type'] = rt
                            if sc is not None:
                                a['scope'] = sc
                            srv.append((cls, rts, a, how))
    out.append(Part('service', case_service, srv, 'the services used directly'))
    cnt = [(k, ('code',), ('openid',), {}, ep, False, (large.arguments(what, n), {})) for what in ('scopes', 'extras', 'acrs', 'claims', 'values') for n in large.sizes(tier, 520)
           for k in ('static', 'dynamic') for ep in (None, '?a=1')]
    out.append(Part('counts', case_pair, cnt, 'requests with many arguments or values'))
    return out + [large.part(tier, ('login_hint', 'nonce'))]


META = dict(rule='distinct (client kind, configuration, argument sequence)')
