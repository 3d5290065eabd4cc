"""C28: request objects and pushed requests. Every combination of transport (by value, by reference, pushed), signing algorithm and where it is
chosen, lifetime, encryption, PKCE, response type and parameter set is sent to an OP that decodes the object with its own decoder, compares it with
the same request sent as plain parameters, and completes the login; another login is begun in between. Pushed requests also meet every failing answer."""
import itertools
import os

from .. import large
from ..core import Part
from ..world import *

# ---------------------------------------------------------------- the OP's side


def norm(k, v):
    """A parameter as it is in a query."""
    if isinstance(v, (dict, list)):
        return v
    if k in ('claims', 'registration'):
        return json.loads(v)
    return str(v)


class Decoder:
    """What an OP does about request objects."""

    def __init__(self, ctx, setup, op, want):
        self.ctx, self.setup, self.op, self.want = ctx, setup, op, want
        self.jtis, self.seen, self.refs = set(), [], {}
        op.unwrap_request = self.unwrap
        op.do_pushed_authorization_request = self.par
        self.pushed, self.par_answer = {}, None

    def secret(self, cid):
        return self.op.clients[cid]['client_secret']

    def decrypt(self, token):
        from cryptojwt.jwe.jwe import factory
        from cryptojwt.jwk.jwk import key_from_jwk_dict
        h = json.loads(jose.b64d(token.split('.')[0]))
        self.ctx.check((h.get('alg'), h.get('enc')) == self.want['enc'], 'other-encryption', repr(h))
        k = jose.jwk(self.op.keys, 'RSA' if h['alg'].startswith('RSA') else 'EC', 'enc')
        self.ctx.check(h.get('kid') in (None, '', k['kid']), 'encrypted-with-unknown-key', repr(h))
        self.ctx.check(h.get('cty') == 'JWT', 'nested-object-not-marked', repr(h))
        r = factory(token).decrypt(token, [key_from_jwk_dict(dict(k))])
        return r.decode() if isinstance(r, bytes) else r

    def object(self, token, cid):
        ctx, want = self.ctx, self.want
        if want.get('enc'):
            if not ctx.check(token.count('.') == 4, 'not-encrypted', token[:40]):
                raise Reject('invalid_request_object')
            token = self.decrypt(token)
        h, claims, sig = jose.decode(token)
        ctx.check(h['alg'] == want['alg'], 'wrong-algorithm', '%r instead of %s' % (h, want['alg']))
        if h['alg'] == 'none':
            ctx.check(sig == b'', 'wrong-signature', 'a signature on an unsigned object')
        else:
            if h['alg'].startswith('HS'):
                key = {'secret': self.secret(cid)}
            else:
                key = jose.public(jose.jwk('rp', 'RSA' if h['alg'][0] in 'RP' else 'EC'))
                ctx.check(h.get('kid') == key['kid'], 'unknown-key', repr(h))
            try:
                jose.verify(token, key)
            except Exception as e:
                ctx.fail('wrong-signature', repr(e))
        ctx.check(claims.pop('iss', None) == cid, 'not-issued-by-the-client', repr(claims))
        aud = claims.pop('aud', None)
        ctx.check(aud in (self.op.issuer, [self.op.issuer]), 'not-addressed-to-the-issuer', repr(aud))
        ctx.check(claims.pop('iat', None) == int(CLOCK.now), 'wrong-iat', '')
        exp = claims.pop('exp', None)
        ctx.check(exp == (want.get('life') and int(CLOCK.now) + want['life']), 'wrong-lifetime', '%r instead of %r' % (exp, want.get('life')))
        jti = claims.pop('jti', None)
        ctx.check(bool(jti) == bool(want.get('jti')) and (not jti or jti not in self.jtis), 'wrong-jti', repr(jti))
        self.jtis.add(jti)
        ctx.check(claims.get('client_id') == cid, 'client-id-differs', repr(claims))
        ctx.check(not {'request', 'request_uri'} & set(claims), 'nested-request', repr(sorted(claims)))
        return claims

    def fetch(self, url):
        """The file that is served at a URL."""
        base = BASE
        self.ctx.check(len(url) <= 512 and url.isascii() and url.startswith(base + '/'), 'bad-request-uri', url)
        path = url[len(base) + 1:]
        if path.startswith('requests/'):
            path = self.want.get('dir', 'requests') + path[len('requests'):]
        with open(path) as f:
            return f.read()

    def par(self, req):
        ctx = self.ctx
        ctx.check(req.method == 'POST', 'pushed-with-get', '%s %s' % (req.method, req.url))
        ctx.check(req.headers.get('content-type', '').split(';')[0] == 'application/x-www-form-urlencoded', 'pushed-without-content-type', repr(req.headers))
        ctx.check('?' not in req.url, 'pushed-in-the-url', req.url)
        body = req.body.decode() if isinstance(req.body, bytes) else req.body or ''
        pairs = parse_qsl(body, keep_blank_values=True)
        form = dict(pairs)
        ctx.check(len(form) == len(pairs), 'repeated-parameter', body)
        if self.par_answer is not None:
            a = self.par_answer(form)
            if a is not None:
                return a
        uri = 'urn:ietf:params:oauth:request_uri:' + self.op.fresh('par')
        self.pushed[uri] = form
        return jresp({'request_uri': uri, 'expires_in': 60}, self.want.get('status', 201))

    def unwrap(self, q):
        ctx, want = self.ctx, self.want
        front = dict(q)
        uri = q.get('request_uri')
        if uri is not None and uri.startswith('urn:'):
            if uri not in self.pushed:
                ctx.fail('unknown-request-uri', repr(q))
                raise Reject('invalid_request_uri')
            self.refs.setdefault(uri, []).append(q)
            ctx.check(bool(q.get('client_id')), 'front-channel-lacks', 'client_id: %r' % q)
            ctx.check(not set(q) - {'request_uri', 'client_id', 'response_type', 'scope', 'redirect_uri'}, 'front-channel-has-more', repr(sorted(q)))
            if want.get('merge') == 'lax':
                # an OP that merges lax may look for what OAuth 2.0 requires in the query
                ctx.check(bool(q.get('response_type')), 'front-channel-lacks', 'response_type: %r' % q)
            q = dict(self.pushed.pop(uri))
            if want['format'] == 'jws':
                ctx.check('request' in q, 'no-object-pushed', repr(sorted(q)))
                ctx.check(not set(q) - {'request', 'client_id', 'response_type', 'scope', 'redirect_uri'}, 'plain-parameters-pushed', repr(sorted(q)))
                outer = {k: v for k, v in q.items() if k != 'request'}
                if want.get('merge') == 'lax':
                    ctx.check(bool(outer.get('client_id') and outer.get('response_type')), 'pushed-lacks', repr(outer))
                q = self.object(q['request'], front['client_id'])
                for k, v in outer.items():
                    ctx.check(norm(k, q.get(k)) == v, 'outside-differs', '%s: %r and %r' % (k, v, q.get(k)))
            else:
                ctx.check('request' not in q, 'object-pushed', repr(sorted(q)))
            for k, v in front.items():
                if k != 'request_uri':
                    ctx.check(norm(k, q.get(k)) == v, 'outside-differs', '%s: %r and %r' % (k, v, q.get(k)))
        elif 'request' in q or uri is not None:
            ctx.check(want['how'] == ('request' if 'request' in q else 'request_uri') and not ('request' in q and uri), 'other-transport', repr(sorted(q)))
            lacks = [k for k in ('client_id', 'response_type', 'scope') if not q.get(k)]
            ctx.check(not lacks, 'front-channel-lacks', '%r: %r' % (lacks, q))
            if uri is not None:
                ctx.check(uri not in self.refs, 'request-uri-used-twice', uri)
                self.refs[uri] = q
                token = self.fetch(uri)
            else:
                token = q['request']
            q = self.object(token, front['client_id'])
            for k, v in front.items():
                if k not in ('request', 'request_uri'):
                    ctx.check(norm(k, q.get(k)) == v, 'outside-differs', '%s: %r and %r' % (k, v, q.get(k)))
        else:
            ctx.check(want.get('plain'), 'sent-in-plain', repr(sorted(q)))
        q = {k: norm(k, v) for k, v in q.items()}
        for k, v in q.items():
            ctx.check(isinstance(v, str) or k in ('claims', 'registration'), 'not-a-string', '%s: %r' % (k, v))
        self.seen.append(q)
        return q


# ---------------------------------------------------------------- one world

RANDOM = ('state', 'nonce', 'code_challenge')
class Params(dict):
    def __missing__(self, k):
        return large.arguments(*k)


PARAMS = Params({
    'none': {}, 'scope': {'scope': ['openid', 'email', 'offline_access']}, 'text': {'login_hint': 'jö e&=+%20?#"\\', 'ui_locales': 'sv en', 'display': 'page'},
    'claims': {'claims': {'id_token': {'auth_time': {'essential': True}}, 'userinfo': {'name': None}}, 'max_age': 10}, 'prompt': {'prompt': 'login consent', 'x_own': 'a b'},
    'given': {'nonce': 'given-nonce-0123456789'}, 'mode': {'response_mode': 'query', 'acr_values': ['1', '2']}})


def conf(kind, op, rt, c, addons, keep=None):
    b = {k: v for k, v in c.items() if k.startswith('request_object')}
    extra = {'add_ons': copy.deepcopy(addons)} if addons else {}
    for k in ('local_dir', 'request_uris'):
        if k in c:
            extra[k] = c[k]
    if kind == 'static':
        return {op.issuer: static_conf(op, response_types=(rt,), behaviour=b, **extra)}
    return {'': dynamic_conf(response_types=(rt,), prefs=b, **extra)}


def setup(ctx, kind, rt, c, addons=None, want=None, caps=None):
    w = World()
    op = SimOP(w, ISS[1], 'op1', caps=dict({'request_parameter_supported': True, 'request_uri_parameter_supported': True,
                                            'pushed_authorization_request_endpoint': ISS[1] + '/par',
                                            'request_object_signing_alg_values_supported': ['none', 'RS256', 'ES256', 'HS256', 'RS512', 'HS512'],
                                            'request_object_encryption_alg_values_supported': ['RSA-OAEP', 'RSA1_5'],
                                            'request_object_encryption_enc_values_supported': ['A128CBC-HS256', 'A256GCM']}, **(caps or {})))
    op.issue_rt = True
    op.md['response_types_supported'].append('token')
    h = handler(conf(kind, op, rt, c, addons))
    return w, op, h, Decoder(ctx, w, op, want or {})


def compare(ctx, got, plain_, b, given):
    """What the OP decoded, and what it gets when nothing special is asked for."""
    ctx.check(set(got) == set(plain_), 'other-parameters', '%r' % sorted(set(got) ^ set(plain_)))
    for k in set(got) & set(plain_):
        if k in RANDOM and k not in given:
            ctx.check(bool(got[k]) and got[k] != plain_[k], 'not-fresh', k)
        else:
            ctx.check(got[k] == plain_[k], 'value-differs', '%s: %r instead of %r' % (k, got[k], plain_[k]))
    ctx.check(got.get('state') == b['state'], 'other-state', '%r instead of %r' % (got.get('state'), b['state']))


def complete(ctx, op, h, b, q, user, resp, rt):
    """The recorded request serves the rest of the login."""
    si = plain(h.get_session_information(b['state']))
    rec = json.loads(si['auth_request']) if isinstance(si['auth_request'], str) else si['auth_request']
    ctx.check(not {'request', 'request_uri'} & set(rec) and {k: norm(k, ' '.join(v) if isinstance(v, list) else v) for k, v in rec.items()} == q, 'recorded-request-differs',
              '%r and %r' % (rec, q))
    ok, r = attempt(h.finalize, op.issuer, resp)
    if not ctx.check(ok and 'error' not in r, 'login-fails', '%r %r' % (r, op.rejects[-1:])):
        return
    idt = plain(r.get('id_token')) or {}
    ctx.check(r['state'] == b['state'] and (rt in ('id_token', 'id_token token') and 'token' not in rt.split() or (r.get('userinfo') or {}).get('sub') == user), 'wrong-login',
              repr(plain(r))[:300])
    ctx.check(rt == 'token' or idt.get('sub') == user and idt.get('nonce') == q.get('nonce'), 'wrong-id-token', repr(idt))


def case_object(ctx, case):
    kind, how, alg, where, life, jti, enc, pkce, rt, params = case
    c, ba = {}, {}
    target = c if where == 'conf' else ba
    if alg:
        target['request_object_signing_alg'] = alg
    if enc:
        target['request_object_encryption_alg'], target['request_object_encryption_enc'] = enc
    if life == 'lifetime':
        ba['lifetime'] = 4000
    elif life == 'expires_in':
        ba['expires_in'] = 900
    if jti:
        ba['with_jti'] = True
    ba['request_param'] = how
    if where == 'dir':
        c['local_dir'] = 'own/dir'
    want = {'how': how, 'alg': alg or 'RS256', 'life': {'lifetime': 4000, 'expires_in': 900}.get(life), 'jti': jti, 'enc': enc,
            'dir': c.get('local_dir', 'requests')}
    ctx.state(case)
    w, op, h, d = setup(ctx, kind, rt, c, PKCE if pkce else None, want)
    args = lambda: copy.deepcopy(PARAMS[params])
    # the same in plain, in a world of its own
    _w, op0, h0, d0 = setup(ctx, kind, rt, c, PKCE if pkce else None, {'plain': True})
    NET.world = _w
    b0 = h0.begin(op0.issuer, req_args=args())
    op0.authorize(b0['url'], 'alice')
    ref = d0.seen[-1]
    NET.world = w
    bs = []
    for i in (0, 1):
        a = args()
        if 'nonce' in a:
            a['nonce'] += str(i)
        ok, b = attempt(h.begin, op.issuer, req_args=a, behaviour_args=dict(ba))
        ctx.step()
        if not ok:
            ctx.fail('cannot-begin%s' % ('-hs-static' if kind == 'static' and (alg or '').startswith('HS') else ''), repr(b))
            return
        bs.append(b)
    for i, user in ((1, 'bob'), (0, 'alice')):
        ok, resp = attempt(op.authorize, bs[i]['url'], user)
        ctx.step()
        if not ctx.check(ok, 'refused-by-the-op', repr(resp)):
            return
        q = d.seen[-1]
        g = dict(args())
        r = dict(ref)
        if 'nonce' in g:
            r['nonce'] += str(i)
        compare(ctx, q, r, bs[i], g)
        complete(ctx, op, h, bs[i], q, user, resp, rt)
    ctx.outcome((kind, how, want['alg'], bool(enc), rt))


def case_direct(ctx, case):
    """The authorization service, asked for a request object by its own keyword arguments."""
    kind, method, name, alg, rt, where, extra = case
    ctx.state(case)
    conf_alg = 'ES256' if where == 'conf' else None
    w, op, h, d = setup(ctx, kind, rt, {'request_object_signing_alg': conf_alg} if conf_alg else {}, None,
                        {'how': {'value': 'request', 'reference': 'request_uri'}[method], 'alg': alg or conf_alg or 'RS256'})
    ok, b0 = attempt(h.begin, op.issuer, behaviour_args={'request_param': d.want['how'], 'request_object_signing_alg': d.want['alg']})
    if not ctx.check(ok, 'cannot-begin', repr(b0)):
        return
    client = h.get_client_from_session_key(b0['state'])
    context = client.client_get('service_context')
    srv = client.client_get('service', 'authorization')
    rec = plain(h.get_session_information(b0['state']))['auth_request']
    ru = (json.loads(rec) if isinstance(rec, str) else rec)['redirect_uri']
    rqs = []
    for i, user in ((0, 'alice'), (1, 'bob')):
        state = context.state.create_state(op.issuer)
        args = {'redirect_uri': ru,
                'response_type': rt, 'scope': ['openid', 'email'], 'nonce': 'nonce-%d-0123456789abcdef' % i, 'login_hint': 'jö %d' % i}
        kw = {'request_method': method}
        if name:
            kw[name] = alg
        if extra == 'kid':
            kw['sig_kid'] = jose.jwk('rp', 'EC')['kid']
        if extra == 'request_args':
            args['state'] = state
        else:
            kw['state'] = state
        given = copy.deepcopy(args)
        keep = copy.deepcopy(kw)
        ok, info = attempt(srv.get_request_parameters, request_args=args, **kw)
        ctx.step()
        if not ctx.check(ok, 'cannot-begin-directly', repr(info)):
            return
        ctx.check(kw == keep, 'arguments-changed', repr(kw))
        rqs.append(({'url': info['url'], 'state': state}, given, user))
    for b, given, user in rqs[::-1]:
        ok, resp = attempt(op.authorize, b['url'], user)
        ctx.step()
        if not ctx.check(ok, 'refused-by-the-op', repr(resp)):
            return
        q = d.seen[-1]
        for k, v in given.items():
            ctx.check(q.get(k) == norm(k, ' '.join(v) if isinstance(v, list) else v), 'value-differs', '%s: %r instead of %r' % (k, q.get(k), v))
        ctx.check(q.get('state') == b['state'], 'other-state', '%r instead of %r' % (q.get('state'), b['state']))
        ctx.check(set(q) == set(given) | {'client_id', 'state'}, 'other-parameters', repr(sorted(set(q) ^ set(given))))
        complete(ctx, op, h, b, q, user, resp, rt)
    ctx.outcome((kind, method, d.want['alg'], rt))


def case_registered(ctx, case):
    """Request URIs that are registered: two logins, the OP fetching after each, or after both."""
    kind, together, caps = case
    ctx.state(case)
    c = {'request_uris': [BASE + '/requests/fixed.jwt']} if caps == 'configured' else {}
    w = World()
    want = {'how': 'request_uri', 'alg': 'RS256'}
    prefs = {'request_uri_usable': True}
    op = SimOP(w, ISS[1], 'op1', caps={'request_uri_parameter_supported': True, 'require_request_uri_registration': True})
    h = handler({'': dynamic_conf(prefs=prefs, **c)})
    d = Decoder(ctx, w, op, want)
    registered = None
    bs = []
    for i in (0, 1):
        ok, b = attempt(h.begin, op.issuer, behaviour_args={'request_param': 'request_uri'})
        ctx.step()
        if not ctx.check(ok, 'cannot-begin-with-registered', repr(b)):
            return
        registered = op.last_registration.get('request_uris')
        ctx.check(query(b['url'])['request_uri'].split('#')[0] in (registered or []), 'not-a-registered-uri', '%r %r' % (query(b['url']), registered))
        bs.append(b)
        if not together:
            d.refs.clear()
            ok, r = attempt(op.authorize, b['url'], 'user%d' % i)
            if ctx.check(ok, 'refused-by-the-op', repr(r)):
                complete(ctx, op, h, b, d.seen[-1], 'user%d' % i, r, 'code')
    if together:
        states = []
        for i, b in enumerate(bs):
            d.refs.clear()
            op.authorize(b['url'], 'user%d' % i)
            states.append(d.seen[-1]['state'])
        ctx.check(states == [b['state'] for b in bs], 'registered-uri-shared', 'both users are sent to one URL, that has the request of the second')
    ctx.outcome(case)


def case_stored(ctx, case):
    """The OP decides on the request URIs that are registered; the file is still in the application's directory."""
    kind, together = case
    ctx.state(case)
    cwd = os.getcwd()
    name = 'esc-%d' % os.getpid()
    own = {'up': '/../%s/%s/x.jwt' % (os.path.basename(cwd), name), 'deep-up': '/requests/../../%s/%s/x.jwt' % (os.path.basename(cwd), name),
           'abs': '/%s/%s/x.jwt' % (cwd, name), 'host': '.evil.example.org/../../%s/%s/x.jwt' % (os.path.basename(cwd), name), 'dot': '/./r1.jwt', 'plain': '/r2/r3.jwt'}
    uri = BASE + own[kind] if kind in own else {'other': ISS[2] + '/requests/x.jwt', 'empty': '', 'none': None}[kind]
    os.makedirs(name, exist_ok=True)
    try:
        w = World()
        op = SimOP(w, ISS[1], 'op1', caps={'request_uri_parameter_supported': True, 'require_request_uri_registration': True})
        op.hook['registration'] = lambda resp, r: dict(resp, request_uris=[uri] if uri is not None else [])
        h = handler({'': dynamic_conf(prefs={'request_uri_usable': True})})
        d = Decoder(ctx, w, op, {'how': 'request_uri', 'alg': 'RS256'})
        ok, b = attempt(h.begin, op.issuer, behaviour_args={'request_param': 'request_uri'})
        ctx.step()
        ctx.outcome((kind, ok))
        ctx.check(not os.path.exists(name + '/x.jwt'), 'stored-elsewhere', '%s: a file outside of where requests are to be stored' % uri)
        ctx.check(ok or kind not in ('dot', 'plain', 'none', 'empty'), 'cannot-begin', repr(b))
        if ok:
            u = query(b['url'])['request_uri']
            ctx.check(u.startswith(BASE + '/'), 'request-uri-elsewhere', u)
            if kind in ('dot', 'plain', 'none', 'empty'):
                ok, r = attempt(op.authorize, b['url'], 'alice')
                if ctx.check(ok, 'refused-by-the-op', repr(r)):
                    complete(ctx, op, h, b, d.seen[-1], 'alice', r, 'code')
    finally:
        if os.path.exists(name + '/x.jwt'):
            os.remove(name + '/x.jwt')
        os.rmdir(name)


def case_generate(ctx, case):
    """Making URLs for request objects changes nothing about where the users are sent back to."""
    kind, rt, path = case
    ctx.state(case)
    w, op, h, d = setup(ctx, kind, rt, {}, None, {'plain': True})
    before = query(h.begin(op.issuer)['url'])
    c = h.issuer2rp[op.issuer].client_get('service_context')
    urls = c.generate_request_uris(path)
    ctx.check(len(urls) == 1 and urls[0].startswith(BASE + '/' + path.strip('/') + '/'), 'bad-request-uri', repr(urls))
    b = h.begin(op.issuer)
    ctx.step()
    q = query(b['url'])
    ctx.outcome((kind, rt))
    if ctx.check(q.get('redirect_uri') == before['redirect_uri'] and set(q) == set(before), 'redirect-uri-changed', '%r instead of %r' % (q, before)):
        r = op.authorize(b['url'], 'alice')
        complete(ctx, op, h, b, d.seen[-1], 'alice', r, rt)


def par(fmt, alg, merge, client=None):
    return {'pushed_authorization': {'function': 'oidcrp.oauth2.add_on.pushed_authorization.add_support',
                                     'kwargs': dict({'body_format': fmt, 'merge_rule': merge, 'http_client': client}, **({'signing_algorithm': alg} if alg else {}))}}


def case_pushed(ctx, case):
    kind, fmt, alg, merge, order, rt, params, status, how = case
    ctx.state(case)
    p = par(fmt, alg, merge)
    addons = {'': p, 'par-pkce': dict(p, **PKCE), 'pkce-par': dict(PKCE, **p)}[order]
    want = {'how': how, 'alg': alg or 'RS256', 'format': fmt, 'status': status, 'merge': merge}
    w, op, h, d = setup(ctx, kind, rt, {}, addons, want)
    _w, op0, h0, d0 = setup(ctx, kind, rt, {}, PKCE if order else None, {'plain': True})
    args = lambda: copy.deepcopy(PARAMS[params])
    NET.world = _w
    b0 = h0.begin(op0.issuer, req_args=args())
    op0.authorize(b0['url'], 'alice')
    ref = d0.seen[-1]
    NET.world = w
    bs = []
    for i in (0, 1):
        a = args()
        if 'nonce' in a:
            a['nonce'] += str(i)
        ok, b = attempt(h.begin, op.issuer, req_args=a)
        ctx.step()
        if not ctx.check(ok, 'cannot-begin%s' % ('-hs-static' if kind == 'static' and (alg or '').startswith('HS') else ''), repr(b)):
            return
        ctx.check(len(w.to('pushed_authorization_request')) == i + 1, 'not-pushed-once', '')
        bs.append(b)
    for i, user in ((1, 'bob'), (0, 'alice')):
        ok, resp = attempt(op.authorize, bs[i]['url'], user)
        ctx.step()
        if not ctx.check(ok, 'refused-by-the-op', repr(resp)):
            return
        r = dict(ref)
        if 'nonce' in args():
            r['nonce'] += str(i)
        compare(ctx, d.seen[-1], r, bs[i], args())
        complete(ctx, op, h, bs[i], d.seen[-1], user, resp, rt)
    ctx.outcome((kind, fmt, want['alg'], merge, rt))


def answer(kind):
    import requests
    uri = 'urn:ietf:params:oauth:request_uri:unknown'
    return {
        '400': lambda f: jresp({'error': 'invalid_request'}, 400), '401': lambda f: jresp({'error': 'invalid_client'}, 401), '500': lambda f: Resp(500, 'oops', {}),
        '503-json': lambda f: jresp({'request_uri': uri, 'expires_in': 60}, 503), '404': lambda f: Resp(404, 'no', {}), '302': lambda f: Resp(302, '', {'location': ISS[2] + '/par'}),
        'refused': lambda f: requests.exceptions.ConnectionError('refused'), 'timeout': lambda f: requests.exceptions.Timeout('late'),
        'not-json': lambda f: Resp(200, '<html>', {'content-type': 'text/html'}), 'empty': lambda f: Resp(200, '', {}), 'list': lambda f: jresp([uri], 200),
        'no-uri': lambda f: jresp({'expires_in': 60}, 201), 'empty-uri': lambda f: jresp({'request_uri': ''}, 201), 'null-uri': lambda f: jresp({'request_uri': None}, 201),
        'error-200': lambda f: jresp({'error': 'invalid_request'}, 200), '204': lambda f: Resp(204, '', {})}[kind]


ANSWERS = ['400', '401', '500', '503-json', '404', '302', 'refused', 'timeout', 'not-json', 'empty', 'list', 'no-uri', 'empty-uri', 'null-uri', 'error-200', '204']


def case_fails(ctx, case):
    """The OP does not take the pushed request: the login cannot be begun, or goes on with a complete request; and the next one works."""
    kind, fmt, merge, ans = case
    ctx.state(case)
    want = {'how': '', 'alg': 'RS256', 'format': fmt, 'plain': True}
    w, op, h, d = setup(ctx, kind, 'code', {}, par(fmt, None, merge), want)
    a = answer(ans)
    d.par_answer = a
    ok, b = attempt(h.begin, op.issuer)
    ctx.step()
    ctx.check(not [q for q in w.log if q.op is not op], 'pushed-elsewhere', repr(w.log))
    ctx.outcome((ans, ok))
    if ok:
        ctx.check('request_uri' not in query(b['url']), 'made-up-request-uri', b['url'])
        ok, r = attempt(op.authorize, b['url'], 'alice')
        if ctx.check(ok, 'incomplete-request', '%r: %s' % (r, b['url'])):
            complete(ctx, op, h, b, d.seen[-1], 'alice', r, 'code')
    d.par_answer = None
    ok, b = attempt(h.begin, op.issuer)
    if ctx.check(ok, 'next-login-fails', repr(b)):
        ctx.check('request_uri' in query(b['url']), 'next-not-pushed', b['url'])
        ok, r = attempt(op.authorize, b['url'], 'bob')
        if ctx.check(ok, 'next-login-fails', repr(r)):
            complete(ctx, op, h, b, d.seen[-1], 'bob', r, 'code')


ENC = [('RSA-OAEP', 'A128CBC-HS256'), ('RSA-OAEP', 'A256GCM'), ('RSA1_5', 'A128CBC-HS256')]
ALGS = [None, 'RS256', 'ES256', 'HS256', 'none', 'RS512', 'HS512']
RTS = ['code', 'code id_token', 'id_token token', 'code id_token token', 'token']


def parts(tier):
    q = tier == 'quick'
    kinds = ['static', 'dynamic']
    obj = set()
    hows = ['request', 'request_uri']
    for kind, how in itertools.product(kinds, hows):
        for alg in ALGS:
            for where in (['conf', 'args'] if alg else ['args', 'dir']):
                for pkce, life in ((0, ''), (1, 'lifetime')) if q else itertools.product((0, 1), ('', 'lifetime', 'expires_in')):
                    obj.add((kind, how, alg, where, life, 0, None, pkce, 'code', 'none'))
        for rt, params in itertools.product(RTS, PARAMS):
            if rt == 'token' and params in ('claims', 'given', 'scope') or params == 'mode' and rt != 'code':
                continue
            for alg in (None,) if q else ALGS[:5]:
                obj.add((kind, how, alg, 'args', '', 0, None, 1, rt, params))
        for life, jti in itertools.product(('', 'lifetime', 'expires_in'), (0, 1)):
            obj.add((kind, how, 'ES256', 'args', life, jti, None, 1, 'code', 'scope'))
        for enc, alg, where in itertools.product(ENC, ('RS256', 'ES256', 'none') if q else ALGS, ('conf', 'args')):
            obj.add((kind, how, alg, where, '', 0, enc, 1, 'code', 'claims'))
    if not q:
        obj |= set(itertools.product(kinds, hows, ALGS[1:5], ('conf', 'args'), ('', 'lifetime', 'expires_in'), (0, 1), (None, ENC[0]), (0, 1), ('code', 'code id_token'), ('none', 'claims')))
    reg = list(itertools.product(['dynamic'], (0, 1), ('required', 'configured')))
    push = set()
    for kind, fmt, merge, order in itertools.product(kinds, ('jws', 'urlencoded'), ('strict', 'lax'), ('', 'par-pkce', 'pkce-par')):
        for alg in (ALGS if fmt == 'jws' else [None]):
            push.add((kind, fmt, alg, merge, order, 'code', 'none', 201, ''))
        for rt, params in itertools.product(RTS, PARAMS):
            if rt == 'token' and params in ('claims', 'given', 'scope') or params == 'mode' and rt != 'code':
                continue
            if q and (order != 'pkce-par' or rt not in ('code', 'code id_token') and params != 'none'):
                continue
            push.add((kind, fmt, None, merge, order, rt, params, 200 if rt == 'code' else 201, ''))
    fails = list(itertools.product(kinds, ('jws', 'urlencoded'), ('strict', 'lax'), ANSWERS))
    direct = [(k, m, n, a, rt, wh, x) for k, m, (n, a), rt, wh, x in itertools.product(
        kinds, ('value', 'reference'), [(n, a) for n in ('algorithm', 'request_object_signing_alg') for a in (ALGS[1:3] + ['HS256', 'none'] if q else ALGS[1:])] + [(None, None)],
        [t for t in RTS if t != 'token'], ('', 'conf'), ('request_args', 'kwargs', 'kid')) if rt == 'code' or x == 'request_args' and wh == '']
    key = lambda t: tuple(map(str, t))
    lg = []
    for what in ('scopes', 'extras', 'acrs', 'text', 'nonce', 'claims', 'values'):
        for n in large.sizes(tier, 5000 if what in ('text', 'nonce') else 260):
            if q and n % 4 and n < 31:
                continue
            for kind, how in itertools.product(kinds, hows):
                lg.append((kind, how, 'ES256', 'args', '', 0, None, 1, 'code', (what, n)))
            push |= {('static', fmt, 'ES256' if fmt == 'jws' else None, 'strict', 'par-pkce', 'code', (what, n), 201, '') for fmt in ('jws', 'urlencoded')}
    return [Part('large', case_object, lg, 'configurations', 'two logins each'), Part('objects', case_object, sorted(obj, key=key), 'configurations', 'two logins each'),
            Part('direct', case_direct, direct, 'configurations', 'two logins each'),
            Part('registered', case_registered, reg, 'configurations', 'two logins each'),
            Part('stored', case_stored, [(k, 0) for k in ('up', 'deep-up', 'abs', 'host', 'dot', 'plain', 'other', 'empty', 'none')], 'inputs', 'one request'),
            Part('generate', case_generate, list(itertools.product(kinds, RTS, ('/requests', 'requests'))), 'configurations', 'one login before, one after'),
            Part('pushed', case_pushed, sorted(push, key=key), 'configurations', 'two logins each'),
            Part('fails', case_fails, fails, 'fault_sequences', 'one failing answer, then one login')]


META = dict(rule='distinct (configuration, transport, parameters)', assumptions=[
    'the file written for a request is what is served at its URL', 'a pushed request needs no client authentication of its own'])
