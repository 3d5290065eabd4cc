"""A provider that lives in the process: what the requests library is about to send ends up here."""
import base64
import hashlib
import json
import os
import sys
import tempfile
import time
from urllib.parse import parse_qs
from urllib.parse import urlsplit

sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
_scratch = tempfile.TemporaryDirectory()
os.chdir(_scratch.name)

import requests
import requests.adapters
from cryptojwt.jws.jws import JWS
from cryptojwt.key_jar import build_keyjar
from cryptojwt.key_jar import init_key_jar

from oidcrp.rp_handler import RPHandler

KEYS = [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]
BASE = 'https://rp.example.com'
LOG = []
OPS = {}


def send(self, request, **kwargs):
    u = urlsplit(request.url)
    body = request.body.decode() if isinstance(request.body, bytes) else request.body or ''
    rec = {'method': request.method, 'url': request.url, 'path': u.path, 'host': u.netloc, 'query': {k: v[0] for k, v in parse_qs(u.query).items()},
           'body': body, 'form': {k: v[0] for k, v in parse_qs(body).items()}, 'headers': {k.lower(): v for k, v in request.headers.items()}, 'args': kwargs}
    LOG.append(rec)
    status, ctype, text = OPS[u.netloc].serve(rec) if u.netloc in OPS else (404, 'text/plain', '')
    r = requests.Response()
    r.status_code = status
    r.headers['content-type'] = ctype
    r._content = text.encode()
    r.url = request.url
    r.request = request
    r.encoding = 'utf-8'
    return r


requests.adapters.HTTPAdapter.send = send


def b64(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


class OP:
    def __init__(self, host='op.example.org', **meta):
        self.iss = 'https://' + host
        self.keys = build_keyjar(KEYS)
        self.md = dict({
            'issuer': self.iss, 'authorization_endpoint': self.iss + '/authz', 'token_endpoint': self.iss + '/token', 'userinfo_endpoint': self.iss + '/userinfo',
            'jwks_uri': self.iss + '/jwks', 'registration_endpoint': self.iss + '/reg', 'end_session_endpoint': self.iss + '/end',
            'response_types_supported': ['code', 'id_token', 'code id_token', 'id_token token', 'code token', 'code id_token token'], 'grant_types_supported': ['authorization_code', 'implicit'],
            'subject_types_supported': ['public'], 'id_token_signing_alg_values_supported': ['RS256', 'ES256'], 'scopes_supported': ['openid', 'profile', 'email'],
            'token_endpoint_auth_methods_supported': ['client_secret_basic', 'client_secret_post', 'private_key_jwt', 'client_secret_jwt'], 'claims_supported': ['sub', 'name', 'email']}, **meta)
        self.md = {k: v for k, v in self.md.items() if v is not None}
        self.codes = {}
        self.tokens = {}
        self.n = 0
        self.client_id = 'me'
        self.hook = {}                    # path -> function(rec, answer) that gives another answer
        OPS[host] = self

    def serve(self, rec):
        p = rec['path']
        f = getattr(self, 'do_' + p.strip('/').split('/')[-1].replace('-', '_'), None)
        a = f(rec) if f else (404, 'text/plain', '')
        a = self.hook[p](rec, a) if p in self.hook else a
        if isinstance(a, dict):
            a = (200, 'application/json', json.dumps(a))
        return a

    def do_openid_configuration(self, rec):
        return self.md

    def do_jwks(self, rec):
        return json.loads(self.keys.export_jwks_as_json())

    def do_reg(self, rec):
        self.registered = json.loads(rec['body'])
        return 201, 'application/json', json.dumps(dict(self.registered, client_id=self.client_id, client_secret='hemlighet-som-ar-lang-nog-for-hs256'))

    def sign(self, claims, alg='RS256'):
        key = self.keys.get_signing_key('RSA' if alg[0] != 'E' else 'EC')[0]
        return JWS(json.dumps(claims), alg=alg).sign_compact([key])

    def id_token(self, sub, nonce, code=None, token=None, **more):
        now = int(time.time())
        c = {'iss': self.iss, 'sub': sub, 'aud': [self.client_id], 'iat': now, 'exp': now + 600, 'nonce': nonce}
        for k, v in (('c_hash', code), ('at_hash', token)):
            if v:
                c[k] = b64(hashlib.sha256(v.encode()).digest()[:16])
        c.update(more)
        return self.sign({k: v for k, v in c.items() if v is not None})

    def fresh(self, what, sub):
        self.n += 1
        t = '%s-%s-%d' % (what, sub, self.n)
        self.tokens[t] = sub
        return t

    def authorize(self, url, sub, **more):
        q = {k: v[0] for k, v in parse_qs(urlsplit(url).query).items()}
        rt = q['response_type'].split()
        r = {'state': q['state']}
        if 'code' in rt:
            r['code'] = self.fresh('code', sub)
            self.codes[r['code']] = (sub, q)
        if 'token' in rt:
            r.update(access_token=self.fresh('at', sub), token_type='Bearer', expires_in=3600)
        if 'id_token' in rt:
            r['id_token'] = self.id_token(sub, q['nonce'], r.get('code'), r.get('access_token'))
        r.update(more)
        return r

    def do_token(self, rec):
        f = rec['form']
        if f['grant_type'] == 'authorization_code':
            sub, q = self.codes.pop(f['code'])
            r = {'access_token': self.fresh('at', sub), 'token_type': 'Bearer', 'expires_in': 3600, 'refresh_token': self.fresh('rt', sub)}
            r['id_token'] = self.id_token(sub, q.get('nonce'), token=r['access_token'])
            return r
        sub = self.tokens[f['refresh_token']]
        return {'access_token': self.fresh('at', sub), 'token_type': 'Bearer', 'expires_in': 3600, 'refresh_token': self.fresh('rt', sub)}

    def do_userinfo(self, rec):
        t = rec['headers'].get('authorization', '')[7:]
        return {'sub': self.tokens[t], 'name': self.tokens[t].title()}


def keyjar():
    return build_keyjar(KEYS)


def static(op, **conf):
    """A client that is registered, at a provider whose metadata is configured."""
    return dict({'issuer': op.iss, 'client_id': op.client_id, 'client_secret': 'hemlighet-som-ar-lang-nog-for-hs256', 'redirect_uris': [BASE + '/cb'],
                 'provider_info': dict(op.md, keys={'url': {op.iss: op.md['jwks_uri']}}), 'behaviour': {'response_types': ['code'], 'scope': ['openid']}}, **conf)


def dynamic(**conf):
    return dict({'redirect_uris': None, 'client_preferences': {'application_type': 'web', 'response_types': ['code'], 'scope': ['openid'], 'token_endpoint_auth_method': ['client_secret_basic'],
                                                                'application_name': 'rp'}}, **conf)


def handler(confs, **kw):
    return RPHandler(BASE, confs, keyjar=kw.pop('keyjar', None) or keyjar(), jwks_path='static/jwks.json', **kw)


def login(h, op, sub, name=None, **kw):
    b = h.begin(name or op.iss, **kw)
    return b['state'], h.finalize(op.iss, op.authorize(b['url'], sub))


def refused(f, *a, **kw):
    try:
        r = f(*a, **kw)
    except Exception:
        return True
    return isinstance(r, dict) and 'error' in r
