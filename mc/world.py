"""Simulated OpenID Providers, the network between them and the RP, and RP set-up."""
import base64
import copy
import json
from urllib.parse import parse_qsl, unquote_plus, urlsplit

from . import env, jose
from .env import CLOCK, NET

BASE = 'https://rp.example.com'
ISS = {1: 'https://op1.example.org', 2: 'https://op2.example.org', 3: 'https://op3.example.org/tenant'}
EVENT = 'http://schemas.openid.net/event/backchannel-logout'


class Resp:
    def __init__(self, status=200, body='', headers=None):
        self.status, self.body = status, body
        self.headers = dict(headers or {})


def jresp(obj, status=200, ctype='application/json', headers=None):
    h = {'content-type': ctype}
    h.update(headers or {})
    return Resp(status, json.dumps(obj), h)


class Req:
    def __init__(self, prep, opts):
        self.method = prep.method
        self.url = prep.url
        u = urlsplit(prep.url)
        self.scheme, self.host, self.path, self.query = u.scheme, u.netloc, u.path, u.query
        self.base = '%s://%s%s' % (u.scheme, u.netloc, u.path)
        self.headers = {k.lower(): v for k, v in prep.headers.items()}
        b = prep.body
        self.body = (b.decode('utf-8') if isinstance(b, bytes) else b) or ''
        self.opts = opts
        self.answer = None
        self.endpoint = None

    @property
    def form(self):
        return dict(parse_qsl(self.body, keep_blank_values=True))

    @property
    def args(self):
        return dict(parse_qsl(self.query, keep_blank_values=True))

    def __repr__(self):
        return '%s %s' % (self.method, self.url)


class World:
    def __init__(self):
        self.ops = {}
        self.log = []
        self.fault = None        # callable(req, endpoint) -> Resp | Exception | None
        self.static = {}         # url -> Resp or callable
        NET.world = self

    def handle(self, prep, opts):
        req = Req(prep, opts)
        self.log.append(req)
        op, ep = self.route(req)
        req.endpoint, req.op = ep, op
        if self.fault:
            r = self.fault(req, ep)
            if r is not None:
                req.answer = r
                return r
        if req.base in self.static:
            r = self.static[req.base]
            r = r(req) if callable(r) else r
        elif op is None:
            import requests
            r = requests.exceptions.ConnectionError('no such host %s' % req.url)
        else:
            r = op.serve(ep, req)
        req.answer = r
        return r

    def route(self, req):
        for op in self.ops.values():
            for ep, url in op.urls().items():
                if req.base == url.split('?')[0]:
                    return op, ep
        for op in self.ops.values():
            if op.host == req.host:
                return op, None
        return None, None

    def to(self, ep, op=None):
        return [r for r in self.log if r.endpoint == ep and (op is None or r.op is op)]


class Reject(Exception):
    def __init__(self, error, reason=''):
        Exception.__init__(self, error, reason)
        self.error, self.reason = error, reason


ENDPOINTS = ['authorization', 'token', 'userinfo', 'registration', 'end_session',
             'pushed_authorization_request']


class SimOP:
    """A strict OpenID Provider."""

    def __init__(self, world, issuer, keys='op1', tag=None, alg='RS256', caps=None, omit=()):
        self.world, self.issuer, self.keys, self.alg = world, issuer, keys, alg
        self.host = urlsplit(issuer).netloc
        self.tag = tag or keys
        world.ops[issuer] = self
        self.clients, self.codes, self.tokens, self.rts = {}, {}, {}, {}
        self.jtis = set()
        self.n = 0
        self.rejects = []
        self.idt_lifetime, self.at_lifetime = 300, 3600
        self.issue_rt = False
        self.rotate_rt = True
        self.refresh_idt = False
        self.hook = {}           # claims / sign / token_response / userinfo / authz_response
        self.md = {
            'issuer': issuer,
            'jwks_uri': issuer + '/jwks.json',
            'response_types_supported': ['code', 'id_token', 'id_token token', 'code id_token',
                                         'code token', 'code id_token token'],
            'subject_types_supported': ['public'],
            'id_token_signing_alg_values_supported': ['RS256', 'ES256'],
            'scopes_supported': ['openid', 'profile', 'email', 'offline_access'],
            'token_endpoint_auth_methods_supported': [
                'client_secret_basic', 'client_secret_post', 'client_secret_jwt', 'private_key_jwt'],
        }
        for e in ENDPOINTS:
            if e != 'pushed_authorization_request':
                self.md[e + '_endpoint'] = '%s/%s' % (issuer, e)
        self.md.update(caps or {})
        for o in omit:
            self.md.pop(o, None)

    def urls(self):
        iss = self.issuer.rstrip('/')
        u = {'discovery': iss + '/.well-known/openid-configuration'}
        if 'jwks_uri' in self.md:
            u['jwks'] = self.md['jwks_uri']
        for e in ENDPOINTS:
            if e + '_endpoint' in self.md:
                u[e] = self.md[e + '_endpoint']
        return u

    def fresh(self, kind):
        self.n += 1
        return '%s-%s-%d' % (self.tag, kind, self.n)

    # ------------------------------------------------------------ clients
    def add_client(self, client_id, secret='', redirect_uris=(), method='client_secret_basic',
                   **kw):
        self.clients[client_id] = dict(client_id=client_id, client_secret=secret,
                                       redirect_uris=list(redirect_uris), method=method, **kw)

    # ------------------------------------------------------------ serving
    def serve(self, ep, req):
        try:
            return getattr(self, 'do_' + str(ep))(req)
        except Reject as err:
            self.rejects.append((ep, err.error, err.reason))
            return jresp({'error': err.error, 'error_description': err.reason},
                         401 if err.error in ('invalid_client', 'invalid_token') else 400)

    def do_None(self, req):
        return Resp(404, 'not found', {'content-type': 'text/plain'})

    def do_discovery(self, req):
        return jresp(self.md)

    def do_jwks(self, req):
        return jresp(jose.jwks(self.keys))

    # -------------------------------------------------------- front channel
    def authorize(self, url, user='alice', sid=None, extra=None, error=None):
        """The user agent follows *url*, *user* logs in. Returns the response parameters."""
        u = urlsplit(url)
        base = '%s://%s%s' % (u.scheme, u.netloc, u.path)
        if base != self.md['authorization_endpoint'].split('?')[0]:
            raise Reject('wrong_endpoint', url)
        pairs = parse_qsl(u.query, keep_blank_values=True)
        keys = [k for k, _ in pairs]
        if len(set(keys)) != len(keys):
            raise Reject('invalid_request', 'repeated parameter in %s' % url)
        q = dict(pairs)
        q = self.unwrap_request(q)
        self.last_authz = q
        cl = self.clients.get(q.get('client_id'))
        if cl is None:
            raise Reject('unauthorized_client', 'client_id %r' % q.get('client_id'))
        if q.get('redirect_uri') not in cl['redirect_uris']:
            raise Reject('invalid_redirect_uri', '%r not in %r' % (q.get('redirect_uri'), cl['redirect_uris']))
        rt = q.get('response_type', '').split(' ')
        if not q.get('state'):
            raise Reject('invalid_request', 'no state')
        if error:
            return {'state': q['state'], 'error': error}
        scope = q.get('scope', '').split(' ')
        oidc = 'openid' in scope
        if 'id_token' in rt and not q.get('nonce'):
            raise Reject('invalid_request', 'nonce required')
        code = None
        out = {'state': q['state']}
        grant = dict(client_id=q['client_id'], redirect_uri=q['redirect_uri'], nonce=q.get('nonce'),
                     scope=scope, sub=user, sid=sid, state=q['state'], oidc=oidc,
                     challenge=q.get('code_challenge'), method=q.get('code_challenge_method', 'plain'))
        if 'code' in rt:
            code = out['code'] = self.fresh('code')
            self.codes[code] = dict(grant, used=False)
        if 'token' in rt:
            out['access_token'] = self.new_token(grant)
            out['token_type'] = 'Bearer'
            if self.at_lifetime is not None:
                out['expires_in'] = str(self.at_lifetime)
        if 'id_token' in rt:
            out['id_token'] = self.id_token(grant, 'front', code=code, at=out.get('access_token'))
        if extra:
            out.update(extra)
        if 'authz_response' in self.hook:
            out = self.hook['authz_response'](out, grant)
        return out

    def unwrap_request(self, q):
        return q

    def new_token(self, grant):
        t = self.fresh('at')
        self.tokens[t] = dict(grant, exp=None if self.at_lifetime is None
                              else CLOCK.now + self.at_lifetime)
        return t

    def id_token(self, grant, where, code=None, at=None):
        now = int(CLOCK.now)
        claims = dict(iss=self.issuer, sub=grant['sub'], aud=[grant['client_id']],
                      exp=now + self.idt_lifetime, iat=now)
        if grant.get('nonce'):
            claims['nonce'] = grant['nonce']
        if grant.get('sid'):
            claims['sid'] = grant['sid']
        cl = self.clients[grant['client_id']]
        alg = cl.get('id_token_signed_response_alg', self.alg)
        if where == 'front' and alg != 'none':
            if at:
                claims['at_hash'] = jose.left_hash(at, alg)
            if code:
                claims['c_hash'] = jose.left_hash(code, alg)
        if 'claims' in self.hook:
            claims = self.hook['claims'](claims, where, grant)
        if 'sign' in self.hook:
            r = self.hook['sign'](claims, where, grant)
            if r is not None:
                return r
        return self.sign(claims, alg, cl)

    def sign(self, claims, alg, cl):
        if alg.startswith('HS'):
            return jose.sign(claims, alg, secret=cl['client_secret'])
        return jose.sign(claims, alg, owner=self.keys)

    # -------------------------------------------------------- back channel
    def authenticate(self, req, form):
        ways = []
        auth = req.headers.get('authorization', '')
        if auth:
            ways.append('basic' if auth.startswith('Basic ') else 'bearer' if
                        auth.startswith('Bearer ') else 'other')
        if 'client_secret' in form:
            ways.append('post')
        if 'client_assertion' in form:
            ways.append('jwt')
        if len(ways) > 1:
            raise Reject('invalid_request', 'several authentication methods %r' % ways)
        if 'client_secret' in req.query or 'client_assertion' in req.query:
            raise Reject('invalid_request', 'credentials in the URL')
        if not ways:
            cl = self.clients.get(form.get('client_id'))
            if not cl or cl['method'] != 'none':
                raise Reject('invalid_client', 'no authentication')
            return cl
        if ways == ['basic']:
            try:
                raw = base64.b64decode(auth[6:], validate=True).decode('utf-8')
                cid, sec = raw.split(':')
                cid, sec = unquote_plus(cid), unquote_plus(sec)
            except Exception as err:
                raise Reject('invalid_client', 'malformed basic credentials %s' % err)
            cl = self.clients.get(cid)
            if not cl or cl['client_secret'] != sec or cl['method'] != 'client_secret_basic':
                raise Reject('invalid_client', 'basic %r' % cid)
        elif ways == ['post']:
            cl = self.clients.get(form.get('client_id'))
            if not cl or cl['client_secret'] != form['client_secret'] or cl['method'] != 'client_secret_post':
                raise Reject('invalid_client', 'post')
        elif ways == ['jwt']:
            cl = self.assertion(form)
        else:
            raise Reject('invalid_client', 'method %r' % ways)
        if 'client_id' in form and form['client_id'] != cl['client_id']:
            raise Reject('invalid_client', 'client_id differs')
        return cl

    def assertion(self, form):
        if form.get('client_assertion_type') != 'urn:ietf:params:oauth:client-assertion-type:jwt-bearer':
            raise Reject('invalid_client', 'assertion type')
        hdr, claims, _ = jose.decode(form['client_assertion'])
        cl = self.clients.get(claims.get('sub'))
        if not cl or claims.get('iss') != claims.get('sub'):
            raise Reject('invalid_client', 'assertion iss/sub')
        try:
            if cl['method'] == 'client_secret_jwt':
                if not hdr['alg'].startswith('HS'):
                    raise ValueError('alg %s' % hdr['alg'])
                jose.verify(form['client_assertion'], {'secret': cl['client_secret']})
            elif cl['method'] == 'private_key_jwt':
                want = cl.get('token_endpoint_auth_signing_alg')
                if want and hdr['alg'] != want:
                    raise ValueError('alg %s is not the registered %s' % (hdr['alg'], want))
                kty = {'R': 'RSA', 'P': 'RSA', 'E': 'EC'}[hdr['alg'][0]]
                if cl.get('jwks'):
                    keys = [k for k in cl['jwks']['keys'] if k['kty'] == kty and k.get('use', 'sig') == 'sig' and (not hdr.get('kid') or k.get('kid') == hdr['kid'])]
                    if not keys:
                        raise ValueError('no registered key %r' % (hdr,))
                else:
                    keys = [jose.public(jose.jwk(cl.get('keys', 'rp'), kty))]
                for i, k in enumerate(keys):
                    try:
                        jose.verify(form['client_assertion'], k)
                        break
                    except Exception:
                        if i == len(keys) - 1:
                            raise
            else:
                raise ValueError('method %s' % cl['method'])
        except Exception as err:
            raise Reject('invalid_client', 'assertion: %s' % err)
        aud = claims.get('aud')
        aud = [aud] if isinstance(aud, str) else aud
        if self.md['token_endpoint'] not in (aud or []):
            raise Reject('invalid_client', 'assertion aud %r' % (aud,))
        now = CLOCK.now
        if not (now < claims.get('exp', 0) <= now + 3600):
            raise Reject('invalid_client', 'assertion exp')
        if 'iat' in claims and claims['iat'] > now:
            raise Reject('invalid_client', 'assertion iat')
        if not claims.get('jti') or claims['jti'] in self.jtis:
            raise Reject('invalid_client', 'assertion jti')
        self.jtis.add(claims['jti'])
        return cl

    def do_token(self, req):
        if req.method != 'POST':
            raise Reject('invalid_request', 'method')
        if not req.headers.get('content-type', '').startswith('application/x-www-form-urlencoded'):
            raise Reject('invalid_request', 'content type %r' % req.headers.get('content-type'))
        form = req.form
        cl = self.authenticate(req, form)
        gt = form.get('grant_type')
        if gt == 'authorization_code':
            g = self.codes.get(form.get('code'))
            if g is None or g['client_id'] != cl['client_id']:
                raise Reject('invalid_grant', 'code %r' % form.get('code'))
            if g['used']:
                raise Reject('invalid_grant', 'code used twice')
            if g['redirect_uri'] != form.get('redirect_uri'):
                raise Reject('invalid_grant', 'redirect_uri %r' % form.get('redirect_uri'))
            self.check_pkce(g, form)
            g['used'] = True
        elif gt == 'refresh_token':
            g = self.rts.get(form.get('refresh_token'))
            if g is None or g['client_id'] != cl['client_id'] or g.get('dead'):
                raise Reject('invalid_grant', 'refresh token %r' % form.get('refresh_token'))
            if 'code_verifier' in form or 'code' in form:
                raise Reject('invalid_request', 'code parameters in a refresh')
        elif gt == 'client_credentials':
            g = dict(client_id=cl['client_id'], sub='client', scope=form.get('scope', '').split(' '),
                     oidc=False)
        else:
            raise Reject('unsupported_grant_type', repr(gt))
        resp = self.grant_answer(g, gt, form)
        if 'token_response' in self.hook:
            resp = self.hook['token_response'](resp, g, form)
        if isinstance(resp, (Resp, Exception)):
            return resp
        return jresp(resp)

    def grant_answer(self, g, gt, form):
        at = self.new_token(g)
        resp = {'access_token': at, 'token_type': 'Bearer'}
        if self.at_lifetime is not None:
            resp['expires_in'] = self.at_lifetime
        if gt == 'refresh_token':
            if self.rotate_rt:
                self.rts[form['refresh_token']]['dead'] = True
                resp['refresh_token'] = self.new_rt(g)
            if self.refresh_idt:
                resp['id_token'] = self.id_token(g, 'refresh', at=at)
        else:
            if self.issue_rt:
                resp['refresh_token'] = self.new_rt(g)
            if g.get('oidc'):
                resp['id_token'] = self.id_token(g, 'token', at=at)
        return resp

    def new_rt(self, g):
        rt = self.fresh('rt')
        self.rts[rt] = {k: v for k, v in g.items() if k not in ('used', 'dead')}
        return rt

    def check_pkce(self, g, form):
        import hashlib
        ver = form.get('code_verifier')
        if g['challenge'] is None:
            if ver is not None:
                raise Reject('invalid_grant', 'unexpected verifier')
            return
        if ver is None:
            raise Reject('invalid_grant', 'no verifier')
        if not (43 <= len(ver) <= 128) and not self.hook.get('any_verifier_length'):
            raise Reject('invalid_grant', 'verifier length %d' % len(ver))
        h = {'S256': 'sha256', 'S384': 'sha384', 'S512': 'sha512'}.get(g['method'])
        want = jose.b64e(getattr(hashlib, h)(ver.encode()).digest()) if h else ver
        if want != g['challenge']:
            raise Reject('invalid_grant', 'verifier does not match')

    def userinfo_claims(self, t):
        return {'sub': t['sub'], 'name': 'Name of %s' % t['sub'], 'email': '%s@%s' % (t['sub'], self.host)}

    def do_userinfo(self, req):
        auth = req.headers.get('authorization', '')
        if not auth.startswith('Bearer '):
            raise Reject('invalid_token', 'no bearer token: %r' % auth)
        if 'access_token' in req.args or 'access_token' in req.form:
            raise Reject('invalid_request', 'token sent twice')
        t = self.tokens.get(auth[7:])
        if t is None:
            raise Reject('invalid_token', auth)
        if t['exp'] is not None and t['exp'] <= CLOCK.now:
            raise Reject('invalid_token', 'expired')
        c = self.userinfo_claims(t)
        if 'userinfo' in self.hook:
            c = self.hook['userinfo'](c, t)
        if isinstance(c, (Resp, Exception)):
            return c
        return jresp(c)

    def do_registration(self, req):
        if req.method != 'POST' or not req.headers.get('content-type', '').startswith('application/json'):
            raise Reject('invalid_request', 'registration needs a JSON POST')
        r = json.loads(req.body)
        if not r.get('redirect_uris'):
            raise Reject('invalid_redirect_uri', 'none')
        cid, sec = self.fresh('client'), self.fresh('secret') + '-0123456789abcdef0123456789abcdef'
        resp = dict(r)
        resp.update(client_id=cid, client_secret=sec, client_id_issued_at=int(CLOCK.now),
                    client_secret_expires_at=0)
        self.clients[cid] = dict(r, client_id=cid, client_secret=sec,
                                 method=r.get('token_endpoint_auth_method', 'client_secret_basic'))
        self.last_registration = r
        if 'registration' in self.hook:
            resp = self.hook['registration'](resp, r)
            if isinstance(resp, (Resp, Exception)):
                return resp
        return jresp(resp, 201)

    def do_end_session(self, req):
        return Resp(200, '<html>bye</html>', {'content-type': 'text/html'})

    # ------------------------------------------------------------ logout token
    def logout_token(self, client_id, sub=None, sid=None, alg='RS256', edit=None, **kw):
        claims = {'iss': self.issuer, 'aud': [client_id], 'iat': int(CLOCK.now),
                  'jti': self.fresh('jti'), 'events': {EVENT: {}}}
        if sub is not None:
            claims['sub'] = sub
        if sid is not None:
            claims['sid'] = sid
        if edit:
            claims = edit(claims)
        return jose.sign(claims, alg, owner=kw.get('owner', self.keys), **({'secret': kw['secret']} if 'secret' in kw else {}))


# ---------------------------------------------------------------- the RP side

SERVICES = {
    'web_finger': {'class': 'oidcrp.oidc.webfinger.WebFinger'},
    'discovery': {'class': 'oidcrp.oidc.provider_info_discovery.ProviderInfoDiscovery'},
    'registration': {'class': 'oidcrp.oidc.registration.Registration'},
    'authorization': {'class': 'oidcrp.oidc.authorization.Authorization'},
    'access_token': {'class': 'oidcrp.oidc.access_token.AccessToken'},
    'refresh_access_token': {'class': 'oidcrp.oidc.refresh_access_token.RefreshAccessToken'},
    'userinfo': {'class': 'oidcrp.oidc.userinfo.UserInfo'},
    'end_session': {'class': 'oidcrp.oidc.end_session.EndSession'},
}


def services(*names, **extra):
    s = {k: copy.deepcopy(v) for k, v in SERVICES.items() if not names or k in names}
    s.update(copy.deepcopy(extra))
    return s


PKCE = {'pkce': {'function': 'oidcrp.oauth2.add_on.pkce.add_support',
                 'kwargs': {'code_challenge_length': 64, 'code_challenge_method': 'S256'}}}
SECRET = 'S3cret-0123456789-abcdefghijklmnopqrstuvwxyz'


def static_conf(op, client_id='rp-client', secret=SECRET, redirect_uris=None,
                response_types=('code',), scope=('openid',), method='client_secret_basic',
                discover=False, alg=None, behaviour=None, pkce=False, provider_info=None,
                register=True, **extra):
    """A statically registered client's configuration (and its registration at the OP)."""
    ru = list(redirect_uris or [BASE + '/cb/' + op.tag])
    if register:
        kw = {}
        if alg:
            kw['id_token_signed_response_alg'] = alg
        op.add_client(client_id, secret, ru, method, **kw)
    conf = {
        'issuer': op.issuer, 'client_id': client_id, 'client_secret': secret, 'redirect_uris': ru,
        'behaviour': dict({'response_types': list(response_types), 'scope': list(scope),
                           'token_endpoint_auth_method': method}, **(behaviour or {})),
    }
    if not discover:
        pi = {k: v for k, v in op.md.items() if k != 'jwks_uri'}
        pi['keys'] = {'url': {op.issuer: op.md['jwks_uri']}}
        pi.update(provider_info or {})
        conf['provider_info'] = pi
    if pkce:
        conf['add_ons'] = copy.deepcopy(PKCE) if pkce is True else pkce
    conf.update(extra)
    return conf


def dynamic_conf(response_types=('code',), scope=('openid',), prefs=None, pkce=False, **extra):
    conf = {'client_preferences': dict({
        'application_type': 'web', 'application_name': 'mc', 'response_types': list(response_types),
        'scope': list(scope), 'token_endpoint_auth_method': 'client_secret_basic'}, **(prefs or {}))}
    if pkce:
        conf['add_ons'] = copy.deepcopy(PKCE)
    conf.update(extra)
    return conf


def keyjar(owner='rp', kinds=None):
    from cryptojwt.key_jar import KeyJar
    kj = KeyJar()
    kj.import_jwks(jose.jwks(owner, private=True, kinds=kinds), '')
    return kj


def handler(configs, svcs=None, **kw):
    from oidcrp.rp_handler import RPHandler
    kw.setdefault('keyjar', keyjar())
    kw.setdefault('hash_seed', 'mc-hash-seed')
    kw.setdefault('jwks_path', 'static/jwks.json')
    return RPHandler(BASE, client_configs=configs, services=svcs or services(), **kw)


def query(url):
    return dict(parse_qsl(urlsplit(url).query, keep_blank_values=True))


class Setup:
    """One handler, some OPs, helper steps."""

    def __init__(self, n_ops=1, conf=None, svcs=None, hkw=None, op_kw=None, names=None, **ckw):
        self.w = World()
        self.ops = []
        configs = {}
        for i in range(1, n_ops + 1):
            op = SimOP(self.w, ISS[i], 'op%d' % i, **(op_kw or {}))
            self.ops.append(op)
            name = names[i - 1] if names else op.issuer
            configs[name] = conf(op) if conf else static_conf(op, client_id='rp-client-%d' % i, **ckw)
        self.op = self.ops[0]
        self.configs = configs
        self.h = handler(configs, svcs, **(hkw or {}))

    def begin(self, op=None, **kw):
        return self.h.begin((op or self.op).issuer, **kw)

    def login(self, user='alice', op=None, sid=None, req_args=None, behaviour_args=None, **kw):
        op = op or self.op
        b = self.begin(op, req_args=req_args)
        resp = op.authorize(b['url'], user, sid=sid, **kw)
        res = self.h.finalize(op.issuer, resp, behaviour_args=behaviour_args)
        return res

    def client(self, op=None):
        return self.h.issuer2rp[(op or self.op).issuer]

    def context(self, op=None):
        return self.client(op).client_get('service_context')


def snapshot(client):
    """Everything a session store holds, as plain data."""
    d = client.client_get('service_context').state.dump()
    return json.loads(json.dumps(d, sort_keys=True, default=str))


def plain(x):
    """Messages and containers to plain comparable data."""
    try:
        x = x.to_dict()
    except AttributeError:
        pass
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def attempt(fn, *a, **kw):
    """(True, result) or (False, exception)."""
    try:
        return True, fn(*a, **kw)
    except Exception as err:       # noqa
        return False, err
