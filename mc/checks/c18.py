"""C18: provider metadata. Every issuer variant x allow setting, every subset and form of endpoints, every key source, every
malformed document or failing answer followed by a retry, on clients of the handler and on bare clients."""
import itertools
import os

import requests

from .. import jose, large
from ..core import Part
from ..env import CLOCK
from ..world import *

WELL = '/.well-known/openid-configuration'
BASES = ['https://op1.example.org', 'https://op1.example.org/tenant', 'https://op1.example.org/t/a%20b', 'https://op1.example.org:8443']


def variants(iss):
    b = iss.rstrip('/')
    host = b.split('/')[2]
    return {'same': b, 'slash': b + '/', 'other': 'https://op2.example.org', 'prefix': b[:-1], 'longer': b + 'x', 'deeper': b + '/x',
            'upper': b.replace('op1', 'OP1'), 'http': b.replace('https', 'http'), 'query': b + '?a=1', 'fragment': b + '#a',
            'user': b.replace('https://', 'https://op1.example.org@'), 'sub': b.replace('op1.', 'x.op1.'), 'parent': 'https://' + host + '/other',
            'slashes': b + '//', 'space': b + ' ', 'empty': '', 'number': 7, 'list': [b], 'two': [b, 'https://op2.example.org'], 'none': None,
            'wellknown': b + WELL}


STRINGS = [k for k, v in variants(BASES[0]).items() if isinstance(v, str)]


def view(client):
    """What metadata can change in a client."""
    c = client.client_get('service_context')
    return (c.issuer, repr(plain(c.provider_info)), repr(plain(c.behaviour)),
            sorted((n, s.endpoint) for n, s in client.client_get('services').items()),
            sorted(o for o in c.keyjar.owners()))


def case_issuer(ctx, case):
    base, cslash, var, allow, kind = case
    w = World()
    conf_iss = base + ('/' if cslash else '')
    op = SimOP(w, conf_iss, 'op1')
    md_iss = variants(base)[var]
    good = op.md['issuer']
    op.md['issuer'] = md_iss
    if md_iss is None:
        del op.md['issuer']
    mk = {'static': lambda: static_conf(op, discover=True), 'dynamic': dynamic_conf}[kind]
    conf = mk()
    conf['issuer'] = conf_iss
    if allow != 'absent':
        conf['allow'] = {'issuer_mismatch': allow} if allow != 'other' else {'http_links': True}
    h = handler({conf_iss: conf})
    ok, r = attempt(h.begin, conf_iss)
    ctx.check([q.url for q in w.log if q.endpoint == 'discovery' or q.path.endswith('configuration')][:1] == [base + WELL], 'wrong-location',
              repr([q.url for q in w.log]))
    same = isinstance(md_iss, str) and md_iss.rstrip('/') == base and not md_iss.endswith('//')
    may = same or (allow is True and isinstance(md_iss, str) and md_iss.startswith('https'))
    ctx.outcome((var, allow, ok))
    ctx.step()
    ctx.state(case)
    if same:
        if not ctx.check(ok, 'own-metadata-refused', repr(r)):
            return
        op.issuer = md_iss
        resp = op.authorize(r['url'])
        iss = h.get_session_information(r['state'])['iss']
        ctx.check(iss == md_iss, 'issuer-not-adopted', '%r %r' % (iss, md_iss))
        res = h.finalize(iss, resp)
        ctx.check(plain(res.get('id_token', {})).get('sub') == 'alice', 'login-failed', repr(res))
        ctx.step()
        return
    if ok:
        # where that is allowed the client works, and goes on by the name it was configured with
        if ctx.check(may, 'foreign-metadata-adopted', '%r for %r' % (md_iss, conf_iss)):
            iss = h.get_session_information(r['state'])['iss']
            op.issuer = iss
            ok, res = attempt(lambda: h.finalize(iss, op.authorize(r['url'])))
            ctx.check(ok and plain(res.get('id_token', {})).get('sub') == 'alice', 'allowed-mismatch-login-failed', '%r %r: %r' % (case, iss, res))
            ctx.outcome(iss == conf_iss)
            ctx.step()
        return
    if allow is True and var in ('other', 'prefix', 'longer', 'deeper', 'sub', 'parent'):
        ctx.fail('allowed-mismatch-refused', repr(r))
    # a failed attempt leaves nothing, a later one succeeds
    ctx.check(not h.issuer2rp, 'client-kept', repr(list(h.issuer2rp)))
    ctx.check(not [q for q in w.log if q.endpoint not in ('discovery', None)], 'foreign-metadata-used', repr(w.log))
    op.md['issuer'] = good
    ok, r = attempt(h.begin, conf_iss)
    if ctx.check(ok, 'retry-failed', repr(r)):
        res = h.finalize(h.get_session_information(r['state'])['iss'], op.authorize(r['url']))
        ctx.check(plain(res.get('id_token', {})).get('sub') == 'alice', 'retry-login-failed', repr(res))
    ctx.step(2)


def case_bare(ctx, case):
    """A refused document leaves a bare client (OAuth2 or OIDC) as it was; an adopted one sets all endpoints."""
    cls, var, before, drop = case
    from oidcrp import oauth2, oidc
    w = World()
    op = SimOP(w, BASES[0], 'op1')
    conf = {'issuer': BASES[0], 'client_id': 'c', 'client_secret': SECRET, 'redirect_uris': [BASE + '/cb'],
            'behaviour': {'response_types': ['code'], 'scope': ['openid']}}
    c = oauth2.Client(config=conf) if cls == 'oauth2' else oidc.RP(config=conf)
    op.md['grant_types_supported'] = ['authorization_code']
    if before:
        c.do_request('provider_info')
    v0 = view(c)
    old = dict(op.md)
    op.md['issuer'] = variants(BASES[0])[var]
    if var == 'none':
        del op.md['issuer']
    for k in list(op.md):
        if k.endswith('_endpoint'):
            op.md[k] = 'https://new.example.org/' + k
    if drop:
        del op.md[drop]
    op.md['jwks_uri'] = 'https://new.example.org/jwks'
    ok, r = attempt(c.do_request, 'provider_info')
    ok = ok and 'error' not in r
    good = var in ('same', 'slash')
    ctx.outcome((cls, var, ok))
    ctx.step()
    ctx.state(case)
    ctx.check(ok or not good, 'own-metadata-refused', repr(r))
    ctx.check(good or not ok, 'foreign-metadata-adopted', repr(r))
    if not ok:
        ctx.check(view(c) == v0, 'refused-but-changed', '%r -> %r' % (v0, view(c)))
        op.md = old
        ok, r = attempt(c.do_request, 'provider_info')
        if not ctx.check(ok, 'retry-failed', repr(r)):
            return
        ctx.step()
    ctx.check(c.client_get('service_context').issuer == op.md['issuer'], 'issuer-not-adopted', '')
    for n, s in c.client_get('services').items():
        want = op.md.get(s.endpoint_name)
        if want and n != 'provider_info':
            ctx.check(s.get_endpoint() == want, 'endpoint-not-adopted:' + n, '%s, expected %s' % (s.get_endpoint(), want))
    ctx.check(plain(c.client_get('service_context').provider_info).get('jwks_uri') == op.md['jwks_uri'], 'metadata-not-adopted', '')


def case_given(ctx, case):
    """Where an OAuth2 provider's keys are, if it has any."""
    how, slash, twice, other = case
    from oidcrp import oauth2
    w = World()
    op = SimOP(w, BASES[0], 'op1')
    uri = op.md.pop('jwks_uri')
    op.md.update({'location': {'jwks_uri': uri}, 'value': {'jwks': jose.jwks('op1')}, 'none': {}}[how])
    op.md['grant_types_supported'] = ['authorization_code']
    op.md['issuer'] = BASES[0] + slash
    c = oauth2.Client(config={'issuer': BASES[0], 'client_id': 'c', 'client_secret': SECRET, 'redirect_uris': [BASE + '/cb']})
    x = c.client_get('service_context')
    if other:
        x.keyjar.import_jwks(jose.jwks('evil'), ISS[3])
    for _ in range(1 + twice):
        ok, r = attempt(c.do_request, 'provider_info')
        ctx.step()
        if not ctx.check(ok and 'error' not in r, 'own-metadata-refused', repr(r)):
            return
    kids = lambda o: {k.kid for k in x.keyjar.get_issuer_keys(o) if k.kty != 'oct'} if o in x.keyjar.owners() else set()
    want = {k['kid'] for k in jose.jwks('op1')['keys']} if how != 'none' else set()
    ctx.check(x.issuer == op.md['issuer'], 'issuer-not-adopted', x.issuer)
    ctx.check(kids(x.issuer) == want, 'wrong-keys:' + how, '%r instead of %r' % (kids(x.issuer), want))
    ctx.check(kids(ISS[3]) == ({k['kid'] for k in jose.jwks('evil')['keys']} if other else set()), 'other-keys', repr(kids(ISS[3])))
    ctx.check(not [q for q in w.log if q.endpoint != 'discovery' and q.url != uri], 'request-elsewhere', repr(w.log))
    ctx.state(case)
    ctx.outcome((how, len(want)))


EPS = ['token', 'userinfo', 'registration', 'end_session', 'authorization']
FORMS = [lambda i, e: '%s/%s' % (i, e), lambda i, e: 'https://%s.example.net/x/%s' % (e.replace('_', '-'), e), lambda i, e: '%s/%s/' % (i, e),
         lambda i, e: '%s/%s?tenant=a%%26b' % (i, e)]


def long(form, e):
    """An endpoint that many characters, segments or parameters long."""
    kind, n = form
    x = large.value('', n, 'plain', '1')
    return {'path': '/%s/%s' % (e, x), 'segments': '/%s/%s' % (e, '/'.join(x)), 'query': '/%s?q=%s' % (e, x),
            'parameters': '/%s?%s' % (e, '&'.join('p%d=%d' % (i, i) for i in range(n)))}[kind]


def at(url, endpoint):
    return url.split('?')[0] == endpoint.split('?')[0] and query(endpoint).items() <= query(url).items()


def case_endpoints(ctx, case):
    kind, flow, present, forms = case
    w = World()
    op = SimOP(w, BASES[0], 'op1', omit=[e + '_endpoint' for e in EPS if e not in present])
    op.issue_rt = True
    for e, f in zip(EPS, forms):
        if e in present:
            op.md[e + '_endpoint'] = FORMS[f](BASES[0], e) if isinstance(f, int) else BASES[0] + long(f, e)
    if flow == 'id_token':
        op.md['response_types_supported'] = ['id_token']
    mdc = copy.deepcopy(op.md)
    conf = {'static': lambda: static_conf(op, discover=True, response_types=(flow,)), 'dynamic': lambda: dynamic_conf(response_types=(flow,)),
            'configured': lambda: static_conf(op, response_types=(flow,))}[kind]()
    conf['issuer'] = BASES[0]
    h = handler({BASES[0]: conf})
    ok, r = attempt(h.begin, BASES[0])
    need = {'authorization'} | ({'token'} if flow == 'code' and kind != 'configured' else set()) | ({'registration'} if kind == 'dynamic' else set())
    ctx.outcome((kind, flow, ok))
    ctx.step()
    ctx.state(case)

    def right():
        for q in w.log:
            if q.endpoint in EPS:
                ctx.check(q.url == op.md[q.endpoint + '_endpoint'], 'wrong-endpoint', q.url)
            else:
                ctx.check(q.endpoint in ('discovery', 'jwks'), 'request-elsewhere', repr(q))
    if not need <= set(present):
        ctx.check(not ok, 'incomplete-metadata-used', repr(r))
        right()
        return
    if not ctx.check(ok, 'begin-failed', repr(r)):
        return
    ctx.check(at(r['url'], op.md['authorization_endpoint']), 'wrong-endpoint:authorization', r['url'])
    iss = BASES[0]
    resp = op.authorize(r['url'])
    ok, res = attempt(h.finalize, iss, resp)
    right()
    ok = ok and 'error' not in res
    if not ('token' in present or flow == 'id_token'):
        ctx.check(not ok, 'login-without-token-endpoint', repr(res))
        return
    if not ctx.check(ok or ('userinfo' not in present and flow == 'code'), 'login-failed', repr(res)):
        return
    if flow == 'code' and ok:
        ok, r2 = attempt(h.refresh_access_token, r['state'])
        ctx.check(ok, 'refresh-failed', repr(r2))
        right()
    if 'end_session' in present and ok:
        lo = h.logout(r['state'])
        ctx.check(at(lo['url'], op.md['end_session_endpoint']), 'wrong-endpoint:end_session', lo['url'])
    ctx.check(plain(mdc) == op.md, 'harness', '')
    ctx.step(3)


SOURCES = ['jwks_uri', 'other', 'rotated', 'inline', 'url', 'file-jwks', 'none', 'down', 'garbage', 'empty', 'down-then-up']
SIGNERS = [('op1', 'RS256'), ('op1', 'ES256'), ('op2', 'RS256'), ('op2', 'ES256'), ('evil', 'RS256'), ('rp', 'RS256')]


def case_keys(ctx, case):
    source, signer, alg, stray = case
    w = World()
    op = SimOP(w, BASES[0], 'op1')
    op.alg = alg
    op.keys = signer
    keys = {'op1'}
    jw = BASES[0] + '/jwks.json'
    w.static[jw] = jresp(jose.jwks('op1'))
    conf = static_conf(op, discover=source in ('jwks_uri', 'other', 'rotated', 'down', 'garbage', 'empty', 'down-then-up'), alg=alg)
    if source == 'other':
        op.md['jwks_uri'] = 'https://keys.example.net/op2'
        w.static[op.md['jwks_uri']] = jresp(jose.jwks('op2'))
        keys = {'op2'}
    elif source == 'inline':
        conf['provider_info'].pop('keys')
        conf['provider_info'] = {}
        op.md['jwks'] = jose.jwks('op1')
        op.md.pop('jwks_uri')
        conf['behaviour'] = dict(conf['behaviour'])
        keys = None
    elif source == 'url':
        conf['provider_info']['keys'] = {'url': {BASES[0]: 'https://keys.example.net/op2', 'https://unrelated.example.net': 'https://keys.example.net/evil'}}
        w.static['https://keys.example.net/op2'] = jresp(jose.jwks('op2'))
        w.static['https://keys.example.net/evil'] = jresp(jose.jwks('evil'))
        keys = {'op2'}
    elif source == 'file-jwks':
        fn = 'op2-%d.jwks' % os.getpid()
        with open(fn, 'w') as f:
            json.dump(jose.jwks('op2'), f)
        conf['provider_info']['keys'] = {'file': {'jwks': fn}}
        keys = {'op2'}
    elif source == 'none':
        conf['provider_info'].pop('keys')
        keys = set()
    elif source == 'down':
        w.static[jw] = Resp(503, 'down')
        keys = set()
    elif source == 'garbage':
        w.static[jw] = Resp(200, '<html>', {'content-type': 'text/html'})
        keys = set()
    elif source == 'empty':
        w.static[jw] = jresp({'keys': []})
        keys = set()
    elif source == 'down-then-up':
        n = []
        w.static[jw] = lambda q: n.append(1) or (Resp(503, 'down') if len(n) == 1 else jresp(jose.jwks('op1')))
    h = handler({BASES[0]: conf})
    ok, r = attempt(h.begin, BASES[0])
    if keys is None:
        ctx.outcome(('inline', ok))
        ctx.state(case)
        ctx.step()
        if ok:
            keys = {'op1'}
        else:
            return
    if not ctx.check(ok, 'begin-failed', repr(r)):
        return
    if stray:
        # keys of somebody else the client knows must not verify this OP's tokens
        h.issuer2rp[BASES[0]].client_get('service_context').keyjar.import_jwks(jose.jwks(stray), 'https://stray.example.net')
    resp = op.authorize(r['url'])
    res = attempt(h.finalize, BASES[0], resp)
    good = res[0] and 'id_token' in res[1]
    if source == 'rotated' and signer == 'op1':
        # the OP changes keys at the same location: tokens under the new keys verify after the library fetched them
        w.static[jw] = jresp(jose.jwks('op2'))
        op.keys = 'op2'
        CLOCK.advance(400)
        b = h.begin(BASES[0])
        res2 = attempt(h.finalize, BASES[0], op.authorize(b['url']))
        ctx.check(res2[0] and 'id_token' in res2[1], 'rotated-keys-not-fetched', repr(res2))
    if source != 'down-then-up':
        ctx.check(good == (signer in keys), 'accepted' if good else 'refused', '%r %r' % (case, res))
    elif signer != 'op1':
        ctx.check(not good, 'accepted', '%r %r' % (case, res))
    ctx.outcome((source, signer, good))
    ctx.step(2)
    ctx.state(case)


def docs(md):
    """Malformed documents and failing answers, by name."""
    d = {}
    for k in ('authorization_endpoint', 'jwks_uri', 'response_types_supported', 'subject_types_supported', 'id_token_signing_alg_values_supported',
              'issuer', 'token_endpoint'):
        x = dict(md)
        x.pop(k)
        d['without-' + k] = jresp(x)
        for n, bad in (('list', ['https://a', 'https://b']), ('number', 3), ('object', {'a': 'b'}), ('null', None), ('true', True)):
            if k.endswith('supported') and n == 'list':
                continue
            if k == 'token_endpoint' and n == 'null':
                continue
            d['%s-%s' % (n, k)] = jresp(dict(md, **{k: bad}))
    j = json.dumps(md)
    ct = {'content-type': 'application/json'}
    d.update({'empty': Resp(200, '', ct), 'array': Resp(200, '[%s]' % j, ct), 'string': Resp(200, '"x"', ct), 'number': Resp(200, '7', ct),
              'null': Resp(200, 'null', ct), 'cut': Resp(200, j[:-10], ct), 'html': Resp(200, '<html>hi</html>', {'content-type': 'text/html'}),
              'trailing': Resp(200, j + 'x', ct), 'object': Resp(200, '{}', ct), 'error': jresp({'error': 'server_error'}),
              'no-openid': jresp(dict(md, scopes_supported=['profile'])), 'no-rs256': jresp(dict(md, id_token_signing_alg_values_supported=['ES256'])),
              'none-auth': jresp(dict(md, token_endpoint_auth_signing_alg_values_supported=['none', 'RS256']))})
    for st in (300, 301, 302, 303, 304, 307, 308, 400, 401, 403, 404, 410, 429, 500, 501, 502, 503, 504, 599):
        d['status-%d' % st] = Resp(st, j, dict(ct, **({'location': 'https://op1.example.org/else'} if st < 400 else {})))
        d['status-%d-html' % st] = Resp(st, '<html>', {'content-type': 'text/html'})
        d['status-%d-error' % st] = jresp({'error': 'temporarily_unavailable'}, st)
        d['status-%d-empty' % st] = Resp(st, '', {})
    for n, e in (('timeout', requests.exceptions.ReadTimeout), ('refused', requests.exceptions.ConnectionError), ('tls', requests.exceptions.SSLError),
                 ('chunk', requests.exceptions.ChunkedEncodingError)):
        d[n] = e(n)
    return d


DOCS = sorted(docs({k: k for k in ('authorization_endpoint', 'jwks_uri', 'response_types_supported', 'subject_types_supported', 'issuer',
                                   'id_token_signing_alg_values_supported', 'token_endpoint')}))


def case_faults(ctx, case):
    kind, seq, level = case
    w = World()
    op = SimOP(w, BASES[0], 'op1')
    todo = [docs(op.md)[n] for n in seq]
    w.fault = lambda req, ep: todo.pop(0) if ep == 'discovery' and todo else None
    conf = static_conf(op, discover=True) if kind == 'static' else dynamic_conf()
    conf['issuer'] = BASES[0]
    if level == 'client':
        from oidcrp import oidc
        c = oidc.RP(config=conf, services=services(), keyjar=keyjar())
        v0 = view(c)
        for n in seq:
            ok, r = attempt(c.do_request, 'provider_info')
            ctx.check(not ok or 'error' in r, 'garbled-metadata-taken', '%s: %r' % (n, r))
            ctx.check(view(c) == v0, 'failed-but-changed', '%s: %r' % (n, view(c)))
            ctx.step()
        ok, r = attempt(c.do_request, 'provider_info')
        ctx.check(ok and 'error' not in r, 'retry-failed', repr(r))
        ctx.check(c.client_get('service_context').provider_info.get('issuer') == BASES[0], 'not-adopted', '')
    else:
        h = handler({BASES[0]: conf})
        for n in seq:
            ok, r = attempt(h.begin, BASES[0])
            ctx.check(not ok, 'garbled-metadata-taken', '%s: %r' % (n, r))
            ctx.check(not h.issuer2rp, 'client-kept', n)
            ctx.check(not [q for q in w.log if q.endpoint != 'discovery'], 'garbled-metadata-used', repr(w.log))
            ctx.step()
        ok, r = attempt(h.begin, BASES[0])
        if ctx.check(ok, 'retry-failed', repr(r)):
            res = h.finalize(BASES[0], op.authorize(r['url']))
            ctx.check('id_token' in res, 'retry-login-failed', repr(res))
    ctx.outcome((level, len(seq)))
    ctx.state(case)


def parts(tier):
    q = tier == 'quick'
    names = list(variants(BASES[0]))
    iss = [(b, c, v, a, k) for b in BASES for c in (False, True) for v in names for a in ('absent', False, True, None, 'other')
           for k in ('static', 'dynamic') if not q or k == 'static' or a in ('absent', True)]
    bare = [(cls, v, before, drop) for cls in ('oauth2', 'oidc') for v in names for before in (False, True)
            for drop in (None, 'userinfo_endpoint', 'registration_endpoint', 'end_session_endpoint')]
    ends = []
    for kind in ('static', 'dynamic', 'configured'):
        for flow in ('code', 'id_token'):
            for n in range(len(EPS) + 1):
                for pres in itertools.combinations(EPS, n):
                    for forms in ([(f,) * 5 for f in range(len(FORMS))] if q else itertools.product(range(len(FORMS)), repeat=5)):
                        if all(f == 0 for e, f in zip(EPS, forms) if e not in pres):
                            ends.append((kind, flow, pres, forms))
                        elif q:
                            ends.append((kind, flow, pres, forms))
    keys = [(s, o, a, st) for s in SOURCES for o, a in SIGNERS for st in (None, 'evil', 'op2')]
    seqs = [(d,) for d in DOCS] + ([(a, b) for a in DOCS[::5] for b in DOCS[::7]] if q else list(itertools.product(DOCS, repeat=2)))
    fl = [(k, s, lv) for k in ('static', 'dynamic') for s in seqs for lv in ('handler', 'client')]
    lg = [(k, 'code', EPS, ((w, n),) * 5) for k in ('static', 'dynamic', 'configured') for w in ('path', 'segments', 'query', 'parameters') for n in large.sizes(tier, 1100 if w == 'parameters' else 4100)
          if not q or n % 3 == 0 or n > 31]
    return [Part('large', case_endpoints, lg, 'endpoints of any length'), Part('issuer', case_issuer, iss, 'configured x metadata issuer x allow'),
            Part('bare', case_bare, bare, 'OAuth2/OIDC client x issuer variant x earlier metadata'),
            Part('given', case_given, list(itertools.product(('location', 'value', 'none'), ('', '/'), (0, 1), (0, 1))), 'where the keys of an OAuth2 provider are'),
            Part('endpoints', case_endpoints, ends, 'subsets and URL forms of endpoints'),
            Part('keys', case_keys, keys, 'key source x signer'),
            Part('faults', case_faults, fl, 'sequences of bad answers, then a good one')]


META = dict(rule='distinct (issuer, document, endpoint set, key source, fault sequence)')
