"""C12: aggregated and distributed claims. Enumerates user-info documents with one or two claim sources of every kind
(signed by a known key or in any way badly, encrypted, distributed with own token / callback / none, failing) x attributed
claims including the subject and the control members, and checks which claims appear and what was sent to whom."""
from .. import jose
from .. import similar
from ..core import Part, product
from ..world import *
from .c11 import encrypted, stored

SVC = ('discovery', 'registration', 'authorization', 'access_token', 'refresh_access_token', 'userinfo')
CP, CP2 = 'https://claims.example.net', 'https://claims2.example.net'
EP = {'A': 'https://src-a.example.net/claims', 'B': 'https://src-b.example.net/claims', 'AB': 'https://src-ab.example.net/claims'}
# kind -> may the claims be added?
AGG = {'good': True, 'good-ec': True, 'good-enc': True, 'nokid': None, 'none': False, 'None': False, 'json': False,
       'evil': False, 'evil-kid': False, 'evil-nokid': False, 'jwk': False, 'jku': False, 'unknown-iss': False,
       'unknown-iss-jwk': False, 'noiss': False, 'tampered': False, 'stripped': False, 'hs-secret': False, 'NONE': False, 'nOne': False, 'hs384': False, 'hs512': False, 'hs-cp': False, 'hs256-noiss': False, 'hs384-noiss': False, 'hs512-noiss': False, 'hs384-me': False, 'garbage': False,
       'enc-json': False, 'enc-none': False, 'empty': False}
DIST = {'token': True, 'plain': True, 'callback': True, '404': False, '500': False, '302': False, 'net': False,
        'garbage': False, 'html200': False, 'list': False}
SETS = [('email',), ('credit',), ('sub',), ('sub', 'email'), ('_claim_names',), ('_claim_sources',), ('email', 'credit'), ()]


def source_claims(src):
    return {'sub': 'mallory', 'email': src + '@evil.example', 'credit': 'score-' + src, 'extra': 'x' + src, 'name': 'N' + src,
            '_claim_names': {'name': src, 'email': src, 'extra': src, 'nickname': src}, '_claim_sources': {},
            'nickname': 'nick' + src}


def aggregated(kind, src, op):
    c = dict(source_claims(src), iss=CP)
    kid = jose.jwk('src', 'RSA')['kid']
    evil = jose.public(jose.jwk('evil', 'RSA'))
    if kind == 'good':
        return jose.sign(c, 'RS256', owner='src')
    if kind == 'good-ec':
        return jose.sign(c, 'ES256', owner='src')
    if kind == 'good-enc':
        return encrypted(jose.sign(c, 'RS256', owner='src'))
    if kind == 'nokid':
        return jose.sign(c, 'RS256', owner='src', kid=None)
    if kind == 'none':
        return jose.sign(c, 'none')
    if kind in ('None', 'NONE', 'nOne'):
        return jose.b64e(json.dumps({'alg': kind})) + '.' + jose.b64e(json.dumps(c)) + '.'
    if kind == 'json':
        return json.dumps(c)
    if kind == 'evil':
        return jose.sign(c, 'RS256', owner='evil')
    if kind == 'evil-kid':
        return jose.sign(c, 'RS256', owner='evil', kid=kid)
    if kind == 'evil-nokid':
        return jose.sign(c, 'RS256', owner='evil', kid=None)
    if kind == 'jwk':
        return jose.sign(c, 'RS256', owner='evil', extra={'jwk': evil})
    if kind == 'jku':
        return jose.sign(c, 'RS256', owner='evil', extra={'jku': 'https://evil.example.com/jwks.json'})
    if kind == 'unknown-iss':
        return jose.sign(dict(c, iss='https://evil.example.com'), 'RS256', owner='evil')
    if kind == 'unknown-iss-jwk':
        return jose.sign(dict(c, iss='https://evil.example.com'), 'RS256', owner='evil', extra={'jwk': evil})
    if kind == 'noiss':
        c.pop('iss')
        return jose.sign(c, 'RS256', owner='evil')
    if kind == 'tampered':
        h, p, s = jose.sign(dict(c, credit='other'), 'RS256', owner='src').split('.')
        return '.'.join([h, jose.b64e(json.dumps(c)), s])
    if kind == 'stripped':
        return jose.sign(c, 'RS256', owner='src').rsplit('.', 1)[0] + '.'
    if kind == 'hs-secret':
        return jose.sign(c, 'HS256', secret=SECRET)
    if kind in ('hs384', 'hs512'):
        return jose.sign(c, kind.upper(), secret=SECRET)
    if kind.endswith('-noiss'):
        c.pop('iss')
        return jose.sign(c, kind[:5].upper(), secret=SECRET)
    if kind == 'hs384-me':
        return jose.sign(dict(c, iss='rp-client-1'), 'HS384', secret=SECRET)
    if kind == 'hs-cp':
        return jose.sign(dict(c, iss=ISS[1]), 'HS512', secret=SECRET)
    if kind == 'garbage':
        return 'a.b.c'
    if kind == 'empty':
        return '..'
    if kind == 'enc-json':
        return encrypted(json.dumps(c), cty=None)
    if kind == 'enc-none':
        return encrypted(jose.sign(c, 'none'))


def dist_answer(kind, src):
    if kind in ('token', 'plain', 'callback'):
        return jresp(source_claims(src))
    if kind in ('404', '500'):
        return jresp(source_claims(src), int(kind))
    if kind == '302':
        return Resp(302, json.dumps(source_claims(src)), {'location': 'https://evil.example.com/'})
    if kind == 'net':
        import requests
        return requests.exceptions.ConnectionError('down')
    if kind == 'garbage':
        return Resp(200, '{"email": ', {'content-type': 'application/json'})
    if kind == 'html200':
        return Resp(200, '<html>', {'content-type': 'text/html'})
    if kind == 'list':
        return jresp(['email'])


def case(ctx, c):
    sources, names_kind, flow = c
    s = Setup(1, response_types=[flow], svcs=services(*SVC))
    op = s.op
    names, srcs = {}, {}
    for src, kind, cs in sources:
        for n in cs:
            names.setdefault(n, src)
        if kind in AGG:
            srcs[src] = {'JWT': aggregated(kind, src, op)}
        else:
            srcs[src] = {'endpoint': EP.get(src)}
            if kind == 'token':
                srcs[src]['access_token'] = 'own-token-' + src
            s.w.static[EP[src]] = (lambda k, x: lambda req: dist_answer(k, x))(kind.split(':')[-1], src)
    doc = {'sub': 'alice', 'name': 'Alice', '_claim_sources': srcs}
    if names_kind == 'normal':
        doc['_claim_names'] = names
    elif names_kind == 'unknown-source':
        doc['_claim_names'] = dict(names, nickname='nowhere')
    op.hook['userinfo'] = lambda x, t: doc
    s.w.static['https://evil.example.com/jwks.json'] = jresp(jose.jwks('evil'))
    b = s.begin()
    cl = s.client()
    cl.client_get('service_context').keyjar.import_jwks(jose.jwks('src'), CP)
    resp = op.authorize(b['url'], 'alice')
    ok, res = attempt(s.h.finalize, op.issuer, resp)
    tokens = set(op.tokens)
    n_login = len(s.w.log)
    agg_bad = any(k in AGG and AGG[k] is not True for _, k, _ in sources)
    if not ok:
        # a source that is no good may make the whole answer unacceptable
        ctx.check(agg_bad or names_kind == 'absent', 'good-document-refused', repr(res))
        ctx.check(stored(s, b['state']) is None, 'rejected-but-stored', '')
        info = None
    else:
        info = res['userinfo']
        st = stored(s, b['state'])
        st = json.loads(st) if isinstance(st, str) else st
        ctx.check(st is not None and plain(info).get('sub') == 'alice' and st.get('sub') == 'alice', 'subject-replaced',
                  '%r / %r' % (plain(info), st))
        verify(ctx, plain(info), sources, names, doc, names_kind, False)
        verify(ctx, st, sources, names, doc, names_kind, False)
    outside(ctx, s, tokens, False)
    if info is not None:
        # now the distributed sources
        before = plain(info)
        used = []

        def cb(ep):
            used.append(ep)
            return 'cb-token-for-' + ep
        use_cb = any(k == 'callback' for _, k, _ in sources)
        ok2, res2 = attempt(cl.fetch_distributed_claims, info, *([cb] if use_cb else []))
        out = plain(res2) if ok2 else plain(info)
        if not ok2:
            ctx.check(any(k in DIST and DIST[k] is not True for _, k, _ in sources) or names_kind == 'absent',
                      'good-source-refused', repr(res2))
        ctx.check(out.get('sub') == 'alice', 'subject-replaced-by-distributed', repr(out))
        verify(ctx, out, sources, names, doc, names_kind, ok2)
        outside(ctx, s, tokens, True)
        for r in s.w.log[n_login:]:
            src = [x for x in EP if EP[x] == r.base]
            kind = [k for x, k, _ in sources if src and x == src[0]]
            want = {'token': 'Bearer own-token-%s' % (src or ['?'])[0],
                    'callback': 'Bearer cb-token-for-' + EP[src[0]] if src else ''}.get(kind[0] if kind else '')
            got = r.headers.get('authorization')
            if use_cb and kind and kind[0] != 'token':
                want = 'Bearer cb-token-for-' + EP[src[0]]
            ctx.check(bool(src) and got == want, 'source-token', '%s: %r instead of %r' % (r.url, got, want))
        if ok2:
            asked = sorted(r.base for r in s.w.log[n_login:])
            ctx.check(asked == sorted(EP[x] for x, k, _ in sources if k in DIST), 'sources-asked', repr(asked))
    # the session is still alice's
    ctx.check('mallory' not in json.dumps([k for k in snapshot(cl)['_db']]), 'foreign-subject-bound', '')
    ctx.state((sources, names_kind, flow, ok))
    ctx.outcome((ok, info is not None and sorted(plain(info))))
    ctx.step(3)


def verify(ctx, got, sources, names, doc, names_kind, fetched):
    """Exactly the document's members plus the attributed, verified claims."""
    usable = {}
    for src, kind, cs in sources:
        usable[src] = AGG[kind] if kind in AGG else (DIST[kind] if fetched else False)
    for k, v in got.items():
        if k in ('sub', '_claim_names', '_claim_sources'):
            if k in doc or k == 'sub':
                ctx.check(v == doc.get(k), 'control-member-changed', '%s: %r' % (k, v))
            else:
                ctx.fail('control-member-added', '%s: %r' % (k, v))
            continue
        if k in doc and v == doc[k]:
            continue
        src = names.get(k) if names_kind != 'absent' else None
        if src is None or k not in source_claims(src):
            ctx.fail('claim-not-attributed', '%s: %r' % (k, v))
        elif v != source_claims(src)[k]:
            ctx.fail('claim-of-another-source', '%s: %r' % (k, v))
        else:
            ctx.check(usable[src] is not False or not_fetched_ok(src, sources, fetched), 'claim-of-unverified-source',
                      '%s: %r from %r' % (k, v, [x for x in sources if x[0] == src]))
    for k, src in names.items():
        if names_kind == 'absent' or k in ('sub', '_claim_names', '_claim_sources'):
            continue
        if usable.get(src) is True:
            ctx.check(got.get(k) == source_claims(src)[k], 'attributed-claim-missing', '%s of %r' % (k, src))


def not_fetched_ok(src, sources, fetched):
    # a failing source may have left an earlier source's claims in place
    kind = [k for x, k, _ in sources if x == src][0]
    return kind in DIST and DIST[kind] and any(k in DIST and not DIST[k] for _, k, _ in sources)


def outside(ctx, s, tokens, all_):
    for r in s.w.log:
        if r.op is None:
            blob = r.url + json.dumps(r.headers) + r.body
            for t in tokens:
                ctx.check(t not in blob, 'session-token-leaked', '%s to %s' % (t, r.url))
            ctx.check(SECRET not in blob, 'secret-leaked', r.url)
            ctx.check(r.base in EP.values(), 'unexpected-host', r.url)
        if not all_:
            ctx.check(r.op is not None, 'source-contacted-during-login', r.url)


def case_secret(ctx, c):
    """An aggregated source signed with the one secret that is in the client's own keys."""
    kind, alg, iss, kid, names, flow = c
    s = Setup(1, svcs=services(*SVC), conf=(lambda op: static_conf(op, response_types=(flow,))) if kind == 'static' else None)
    op = s.op
    if kind == 'registered':
        s.h = handler({'': dynamic_conf(response_types=(flow,))}, services(*SVC))
    b = s.begin()
    cl = s.client()
    cid = cl.get_client_id()
    secret = op.clients[cid]['client_secret']
    claims = dict(source_claims('A'))
    who = {'client': cid, 'issuer': op.issuer, 'base': BASE, 'empty': '', 'source': CP}.get(iss)
    if who is not None:
        claims['iss'] = who
    cl.client_get('service_context').keyjar.import_jwks(jose.jwks('src'), CP)
    token = jose.sign(claims, alg, secret=secret, kid='some-key' if kid else None) if alg != 'none' else jose.sign(claims, 'none')
    op.hook['userinfo'] = lambda x, t: {'sub': 'alice', 'name': 'Alice', '_claim_names': {n: 'A' for n in names}, '_claim_sources': {'A': {'JWT': token}}}
    resp = op.authorize(b['url'], 'alice')
    ok, res = attempt(s.h.finalize, op.issuer, resp)
    st = stored(s, b['state'])
    if ok:
        for info in (plain(res['userinfo']), json.loads(st) if isinstance(st, str) else plain(st)):
            ctx.check(info.get('sub') == 'alice' and info.get('name') == 'Alice', 'subject-replaced', repr(info))
            ctx.check(not {'email', 'credit', 'extra'} & set(info), 'signed-with-the-client-secret', '%s: %r' % (c, info))
    else:
        ctx.check(st is None, 'rejected-but-stored', '')
    ctx.state(c)
    ctx.step(2)
    ctx.outcome((kind, ok))


def parts(tier):
    q = tier == 'quick'
    kinds = list(AGG) + list(DIST)
    one = [((('A', k, cs),), nk, f) for k in kinds for cs in SETS for nk in ('normal', 'absent', 'unknown-source')
           for f in ('code', 'id_token token')]
    main = ['good', 'none', 'evil', 'token', 'plain', 'callback', '404']
    sets = SETS[:5] if q else SETS
    two = [((('A', a, x), ('B', b, y)), 'normal', 'code') for a in (main if q else kinds) for b in (main if q else kinds)
           for x in sets for y in sets]
    # one source's name is the beginning of the other's
    near = [((('A', a, x), ('AB', b, y)), 'normal', 'code') for a in main for b in main for x in SETS[:5] for y in SETS[:5]]
    return [similar.part7(tier), Part('one-source', case, one, 'source kind x attributed claims x attribution'),
            Part('two-sources', case, two, 'pairs of sources, overlapping attributions'),
            Part('similar-names', case, near, 'pairs of sources with similar names'),
            Part('client-secret', case_secret, product(('registered', 'static'), ('HS256', 'HS384', 'HS512', 'none'), ('client', 'issuer', 'base', 'empty', 'source', 'absent'), (0, 1),
                                                       (('credit',), ('email', 'credit')), ('code',) if tier == 'quick' else ('code', 'code id_token', 'id_token token')),
                 'registration x algorithm x issuer x attributed claims')]


META = dict(rule='distinct (sources, attribution, flow, verdict)')
