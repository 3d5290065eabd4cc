"""C33: configuration. All combinations of file format, way of loading, place and origin of domain and port, base path, spelling of the names and
templates in the URIs are loaded and compared with the settings they stand for; the resulting handlers go through logins whose requests must be those of a
handler made from the literal settings; all server certificate settings are compared with the TLS context they should give."""
import itertools
import os
import shutil
import ssl
import sys
import tempfile

from ..core import Part
from ..world import *

T = 'https://{domain}:{port}'
URI_NAMES = ['redirect_uris', 'post_logout_redirect_uri', 'post_logout_redirect_uris', 'frontchannel_logout_uri', 'backchannel_logout_uri']


def settings(op=None, template=True, host='rp.example.com:8443', single=False, braces=True):
    """What the configuration says, in lower case."""
    b = T if template else 'https://' + host
    c1 = {'issuer': ISS[1], 'client_id': 'c1', 'client_secret': SECRET, 'redirect_uris': [b + '/authz_cb/one', b + '/authz_cb/two'],
          'post_logout_redirect_uris': b + '/bye' if single else [b + '/bye'], 'frontchannel_logout_uri': 'https://fc.{domain}:{port}/fc' if template else b + '/fc', 'backchannel_logout_uri': b + '/bc', 'post_logout_redirect_uri': b + '/after',
          'behaviour': {'response_types': ['code'], 'scope': ['openid', 'email'], 'token_endpoint_auth_method': 'client_secret_basic'}}
    if op is not None:
        pi = {k: v for k, v in op.md.items() if k != 'jwks_uri'}
        pi['keys'] = {'url': {op.issuer: op.md['jwks_uri']}}
        c1['provider_info'] = pi
    c2 = {'client_preferences': {'application_name': 'n{domain}' if braces else 'n', 'response_types': ['code'], 'scope': ['openid'], 'token_endpoint_auth_method': 'client_secret_post'}}
    return {'base_url': b, 'httpc_params': {'verify': False, 'timeout': 7}, 'hash_seed': 'sow', 'services': services('discovery', 'registration', 'authorization', 'access_token', 'userinfo', 'end_session'),
            'clients': {'': c2, 'one': c1},
            'rp_keys': {'private_path': 'private/j.json', 'public_path': 'static/j.json', 'read_only': False, 'key_defs': [{'type': 'EC', 'crv': 'P-256', 'use': ['sig']}]}}


def fill(x, domain, port):
    """What the templates stand for."""
    if isinstance(x, dict):
        return {k: (fill(v, domain, port) if isinstance(v, (dict, list)) and k not in URI_NAMES + ['base_url', 'issuer'] else
                    [i.replace('{domain}', domain).replace('{port}', str(port)) for i in v] if isinstance(v, list) else
                    v.replace('{domain}', domain).replace('{port}', str(port)) if isinstance(v, str) and k in URI_NAMES + ['base_url', 'issuer'] else v) for k, v in x.items()}
    return x


N = [0]


def write(d, conf, fmt):
    N[0] += 1
    name = 'mcconf_%d_%d' % (os.getpid(), N[0])
    p = os.path.join(d, name + '.' + fmt)
    if fmt == 'json':
        text = json.dumps(conf)
    elif fmt == 'yaml':
        import yaml
        text = yaml.safe_dump(conf)
    else:
        text = 'CONFIG = %r\n' % (conf,)
    with open(p, 'w') as f:
        f.write(text)
    return p


def load(d, conf, fmt, way, args, base):
    """-> (configuration of the relying party, configuration of the application or None)"""
    from oidcmsg.configure import create_from_config_file
    from oidcrp.configure import Configuration, RPConfiguration
    if way == 'nested':
        whole = {'rp': conf, 'webserver': {'port': 1, 'domain': 'x'}}
        for k in ('domain', 'port'):
            if k in conf:
                whole[k] = conf.pop(k)
        conf = whole
    cls = RPConfiguration if way == 'rp' else Configuration
    kw = dict(args)
    if base:
        kw['base_path'] = base
    if way != 'rp':
        kw['entity_conf'] = [{'class': RPConfiguration, 'attr': 'rp', 'path': ['rp']} if way == 'nested' else {'class': RPConfiguration, 'attr': 'rp'}]
    if fmt == 'dict':
        c = cls(copy.deepcopy(conf), **kw)
    else:
        p = write(d, conf, fmt)
        sys.path.insert(0, d)
        try:
            c = create_from_config_file(cls, filename=p, **kw)
        finally:
            sys.path.remove(d)
    return (c, None) if way == 'rp' else (c.rp, c)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir='.')
        return os.path.abspath(self.d)

    def __exit__(self, *a):
        shutil.rmtree(os.path.abspath(self.d), ignore_errors=True)


def where(source):
    """-> members of the configuration, arguments, domain, port"""
    return {'default': ({}, {}, '127.0.0.1', 80), 'conf': ({'domain': 'rp.example.com', 'port': 8443}, {}, 'rp.example.com', 8443),
            'args': ({}, {'domain': 'rp.example.com', 'port': 8443}, 'rp.example.com', 8443), 'both': ({'domain': 'other.example.com', 'port': 1}, {'domain': 'rp.example.com', 'port': 8443}, 'rp.example.com', 8443),
            'mixed': ({'port': 8443}, {'domain': 'rp.example.com'}, 'rp.example.com', 8443), 'mixed2': ({'domain': 'rp.example.com'}, {'port': 8443}, 'rp.example.com', 8443)}[source]


def case_load(ctx, case):
    fmt, way, source, base, upper, single, template = case
    ctx.state(case)
    conf, args, domain, port = where(source)
    s = settings(template=template, single=single)
    want = fill(copy.deepcopy(s), domain, port)
    c = dict(copy.deepcopy(s), **conf)
    for k in upper:
        if k in c:
            c[k.upper()] = c.pop(k)
    with Scratch() as d:
        bp = {'': '', 'abs': d, 'rel': os.path.relpath(d)}[base]
        before = copy.deepcopy(c)
        rp, app = load(d, c, fmt, way, args, bp)
        rp2, _ = load(d, copy.deepcopy(before), fmt, way, args, bp)
    ctx.step(2)
    for x in (rp, rp2):
        ctx.check(x.base_url == want['base_url'], 'base_url', '%r instead of %r' % (x.base_url, want['base_url']))
        ctx.check(x.clients == want['clients'], 'clients', '%r instead of %r' % (x.clients, want['clients']))
        ctx.check(x.services == want['services'], 'services', repr(x.services))
        ctx.check(x.httpc_params == want['httpc_params'], 'httpc_params', repr(x.httpc_params))
        ctx.check(x.hash_seed == 'sow', 'hash_seed', repr(x.hash_seed))
        kd = dict(want['rp_keys'])
        if bp:
            kd.update({k: os.path.join(bp, kd[k]) for k in ('private_path', 'public_path')})
        ctx.check(x.key_conf == kd, 'keys', '%r instead of %r' % (x.key_conf, kd))
    if app is not None:
        ctx.check((app.web_conf or {}) == ({'port': 1, 'domain': 'x'} if way == 'nested' else {}), 'web', repr(app.web_conf))
    ctx.outcome((fmt, way, source))


def case_absent(ctx, case):
    """What is not said, or said to be nothing."""
    missing, how, way, fmt = case
    ctx.state(case)
    s = settings(template=False)
    for k in missing:
        if how == 'absent':
            s.pop(k)
        else:
            s[k] = {'none': None, 'empty': {} if isinstance(s[k], dict) else ''}[how]
    with Scratch() as d:
        a, _ = load(d, copy.deepcopy(s), fmt, way, {}, '')
        b, _ = load(d, copy.deepcopy(s), fmt, way, {}, '')
    ctx.step(2)
    for k in ('base_url', 'clients', 'services'):
        ctx.check((getattr(a, k) or None) == (s.get(k) or None), k, repr(getattr(a, k)))
    ctx.check((a.key_conf or None) == (s.get('rp_keys') or None), 'keys', repr(a.key_conf))
    if 'httpc_params' in missing:
        # whatever is missing, certificates are verified
        ctx.check((a.httpc_params or {}).get('verify', True) is True, 'verify', repr(a.httpc_params))
    else:
        ctx.check(a.httpc_params == s['httpc_params'], 'httpc_params', repr(a.httpc_params))
    if 'hash_seed' in missing:
        ctx.check(a.hash_seed and b.hash_seed and a.hash_seed != b.hash_seed and len(a.hash_seed) >= 32, 'seed', '%r %r' % (a.hash_seed, b.hash_seed))
    else:
        ctx.check(a.hash_seed == b.hash_seed == 'sow', 'seed', '%r' % a.hash_seed)
    ctx.outcome((missing, how))


def run(make, users=('alice', 'bob')):
    """Logins of a handler: what the providers see."""
    w = World()
    ops = [SimOP(w, ISS[i], 'op%d' % i) for i in (1, 2)]
    ops[0].add_client('c1', SECRET, ['https://rp.example.com:8443/authz_cb/one', 'https://rp.example.com:8443/authz_cb/two'])
    ops[0].add_client('c1l', SECRET, ['https://rp.example.com:8443/authz_cb/one'])
    h = make(ops[0])
    out = []
    for op, name in ((ops[0], 'one'), (ops[1], ops[1].issuer)):
        for u in users:
            ok, b = attempt(h.begin, name)
            if not ok:
                out.append((name, 'begin', type(b).__name__))
                continue
            q = query(b['url'])
            ok, r = attempt(lambda: h.finalize(op.issuer, op.authorize(b['url'], u)))
            out.append((name, {k: v for k, v in q.items() if k not in ('state', 'nonce')}, ok, (r.get('error'), plain(r['userinfo'])) if ok else repr(r), list(op.rejects)))
            ok, r = attempt(h.logout, b['state'])
            out.append((ok, {k: v for k, v in query(r['url']).items() if k not in ('state', 'id_token_hint')} if ok else type(r).__name__))
    reg = dict(getattr(ops[1], 'last_registration', {}))
    reg.pop('jwks', None)
    out.append(reg)
    out.append([(q.method, q.url.split('?')[0], q.opts.get('timeout'), q.opts.get('verify')) for q in w.log])
    return out


def handler_of(conf, d):
    """As the example application does it."""
    from cryptojwt.key_jar import init_key_jar, KeyJar
    from oidcrp.rp_handler import RPHandler
    import re
    kj = init_key_jar(**conf.key_conf) if conf.key_conf else KeyJar()
    kj.httpc_params = conf.httpc_params
    return RPHandler(conf.base_url, conf.clients, services=conf.services, hash_seed=conf.hash_seed, keyjar=kj, jwks_path='static/j.json' if conf.key_conf else '', httpc_params=conf.httpc_params)


def case_login(ctx, case):
    """A handler made from a configuration behaves as one made from the settings."""
    fmt, way, source, base, single = case
    ctx.state(case)
    cf, args, domain, port = where(source)

    def literal(op):
        s = settings(op, template=False, single=single)
        from oidcrp.rp_handler import RPHandler
        return RPHandler(s['base_url'], s['clients'], services=s['services'], hash_seed=s['hash_seed'], keyjar=keyjar(kinds=[('EC', 'sig')]), jwks_path='static/j.json', httpc_params=s['httpc_params'])

    def loaded(op):
        rp, _ = load(d, dict(settings(op, single=single), **cf), fmt, way, args, d if base else '')
        if not base:
            rp.key_conf.update({k: os.path.join(d, rp.key_conf[k]) for k in ('private_path', 'public_path')})
        return handler_of(rp, d)
    want = run(literal)
    with Scratch() as d:
        got = run(loaded)
        files = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs if f == 'j.json')
    ctx.step(len(want) + len(got))
    ctx.check(len(want) == 10 and all(x[2] is True and x[3][1] and not x[4] for x in want[:8:2]) and all(x[0] is True for x in want[1:8:2]), 'reference', repr(want))
    ctx.check(files == ['private/j.json', 'static/j.json'], 'key-files', repr(files))
    for a, b in zip(want, got):
        ctx.check(a == b, 'behaves-differently', '%r instead of %r' % (b, a))
    ctx.outcome((fmt, way, source))


# ---------------------------------------------------------------- server side TLS

def certificate(d, name='server'):
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import ec
    from cryptography.x509.oid import NameOID
    import datetime
    key = ec.generate_private_key(ec.SECP256R1())
    n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, name)])
    c = x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(key.public_key()).serial_number(7).not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(
        datetime.datetime(2040, 1, 1)).sign(key, hashes.SHA256())
    os.makedirs(os.path.join(d, 'certs'), exist_ok=True)
    for f, b in (('crt', c.public_bytes(serialization.Encoding.PEM)), ('key', key.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.NoEncryption()))):
        with open(os.path.join(d, 'certs', '%s.%s' % (name, f)), 'wb') as h:
            h.write(b)


def case_tls(ctx, case):
    from oidcrp.util import create_context
    cert, key, verify, ca, upper, absolute = case
    ctx.state(case)
    with Scratch() as d:
        certificate(d)
        certificate(d, 'other')
        path = (lambda n: os.path.join(d, 'certs', n)) if absolute else (lambda n: 'certs/' + n)
        conf = {'server_cert': path(cert) if cert else cert, 'server_key': path(key) if key else key, 'verify_user': verify, 'ca_bundle': os.path.join(d, 'certs', ca) if ca else ca}
        conf = {(k.upper() if upper else k): v for k, v in conf.items() if v is not None}
        try:
            r = create_context(d, conf, protocol=ssl.PROTOCOL_TLS_SERVER)
        except SystemExit:
            r = 'exit'
        except Exception as err:
            r = type(err).__name__
        ctx.step()
        good = cert == 'server.crt' and key == 'server.key'
        if not cert or not key:
            return ctx.check(r is None, 'no-certificate', repr(r))
        if verify not in (None, '', 'optional', 'required'):
            return ctx.check(r == 'exit', 'unknown-verify', repr(r))
        if verify and ca == 'missing.crt':
            return ctx.check(isinstance(r, str), 'missing-ca', repr(r))
        if not good:
            return ctx.check(r == 'exit', 'bad-certificate', repr(r))
        if not isinstance(r, ssl.SSLContext):
            return ctx.fail('context', repr(r))
        want = {None: ssl.CERT_NONE, '': ssl.CERT_NONE, 'optional': ssl.CERT_OPTIONAL, 'required': ssl.CERT_REQUIRED}[verify]
        ctx.check(r.verify_mode == want, 'verify-mode', '%r instead of %r' % (r.verify_mode, want))
        n = len(r.get_ca_certs(binary_form=True)) if verify and ca else 0
        ctx.check(r.cert_store_stats()['x509'] == (1 if verify and ca else 0), 'ca', '%r %r' % (r.cert_store_stats(), n))
    ctx.outcome((verify, bool(ca)))


FN = {'authorization': 'authorization', 'access_token': 'token', 'refresh_access_token': 'token', 'registration': 'registration', 'end_session': 'end_session'}
WHICH = [('pre',), ('pre', 'pre2'), ('pre2', 'pre'), ('post',), ('post', 'post2'), ('post2', 'post'), ('pre', 'post'), ('pre', 'pre2', 'post', 'post2')]
X = ('x_pre', 'x_pre2', 'x_last', 'x_post', 'x_post2')


def case_functions(ctx, case):
    """Functions named in the configuration of a service take part in making its requests, in order, and in no others."""
    from .. import fns
    kind, where, which, cls = case
    ctx.state(case)
    w = World()
    op = SimOP(w, ISS[1], 'op1')
    op.issue_rt = True
    conf = dynamic_conf(response_types=('code',), issuer=op.issuer) if kind == 'dynamic' else static_conf(op)
    svcs = services()
    want = {}
    for name in where:
        spec = svcs[name]
        if cls == 'class':
            from oidcrp.util import importer
            spec['class'] = importer(spec['class'])
        for p in ('pre', 'post'):
            fs = [{'function': 'mc.fns.' + f} for f in which if f.startswith(p)]
            if fs:
                spec[p + '_functions'] = fs
        x = {}
        for f in which:
            x.update({'pre': lambda: {'x_pre': 'p&=é', 'x_last': 'pre'}, 'pre2': lambda: {'x_pre2': x.get('x_pre', 'None'), 'x_last': 'pre2'},
                      'post': lambda: {'x_post': 'q ' + x.get('x_last', '')}, 'post2': lambda: {'x_post2': x.get('x_post', '-')}}[f]())
        want[name] = x
    h = handler({op.issuer: conf}, svcs)
    del fns.CALLS[:]
    ok, b = attempt(h.begin, op.issuer)
    if not ctx.check(ok, 'cannot-begin', repr(b)):
        return
    seen = {'authorization': query(b['url'])}
    ok, r = attempt(h.finalize, op.issuer, op.authorize(b['url'], 'alice'))
    if not ctx.check(ok and r.get('userinfo', {}).get('sub') == 'alice', 'cannot-login', repr(r)):
        return
    ok, r = attempt(h.refresh_access_token, b['state'])
    ctx.check(ok, 'cannot-refresh', repr(r))
    seen['end_session'] = query(h.logout(b['state'])['url'])
    toks = w.to('token', op)
    seen['access_token'], seen['refresh_access_token'] = toks[0].form, toks[-1].form
    if kind == 'dynamic':
        seen['registration'] = op.last_registration
    ctx.step(4)
    for name, sent in seen.items():
        got = {k: sent[k] for k in X if k in sent}
        ctx.check(got == want.get(name, {}), 'function-of-%s' % ('the-service' if name in want else 'another-service'), '%s: %r instead of %r' % (name, got, want.get(name, {})))
    order = [f for f in which]
    for sname in {n for _, n in fns.CALLS}:
        ctx.check([f for f, n in fns.CALLS if n == sname] == order, 'calls', repr(fns.CALLS))
    ctx.check(len({n for _, n in fns.CALLS}) == len([n for n in where if n in seen]), 'not-called', repr(fns.CALLS))
    ctx.outcome((kind, which, len(where)))


def parts(tier):
    q = tier == 'quick'
    FMT, WAY, SRC = ['dict', 'json', 'yaml', 'py'], ['rp', 'flat', 'nested'], ['default', 'conf', 'args', 'both', 'mixed', 'mixed2']
    names = ['base_url', 'clients', 'services', 'httpc_params', 'hash_seed', 'rp_keys']
    out = []
    lo = [(f, w, s, b, (), single, True) for f in FMT for w in WAY for s in SRC for b in ('', 'abs', 'rel') for single in (False, True)]
    lo += [(f, w, s, b, up, False, False) for f in FMT for w in WAY for s in ('default', 'args') for b in ('', 'abs')
           for r in range(1, len(names) + 1) for up in itertools.combinations(names, r) if not q or r in (1, len(names))]
    out.append(Part('load', case_load, lo, 'configurations', 'all combinations'))
    ab = [(m, how, w, f) for r in range(1, len(names) + 1) for m in itertools.combinations(names, r) for how in ('absent', 'none', 'empty') for w in WAY for f in (('dict',) if q else FMT)]
    out.append(Part('absent', case_absent, ab, 'configurations', 'all subsets left out'))
    lg = [(f, w, s, b, single) for f in FMT for w in WAY for s in ('conf', 'args', 'both') for b in (False, True) for single in (False, True) if not q or f in ('dict', 'yaml') or (s, b) == ('args', True)]
    out.append(Part('logins', case_login, lg, 'configurations', 'four logins and logouts'))
    tl = [(c, k, v, ca, u, a) for c in ('server.crt', 'other.crt', 'missing.crt', '', None) for k in ('server.key', 'other.key', 'missing.key', '', None) for v in (None, '', 'optional', 'required', 'sometimes')
          for ca in (None, 'other.crt', 'missing.crt') for u in (False, True) for a in (False, True)]
    out.append(Part('tls', case_tls, [t for t in tl if not (t[0] == 'other.crt' and t[1] == 'other.key')], 'configurations', 'all combinations'))
    sv = [n for r in range(1, len(FN) + 1) for n in itertools.combinations(FN, r)]
    fn = [(k, n, x, c) for k in ('static', 'dynamic') for n in sv for x in WHICH for c in ('name', 'class')]
    out.append(Part('functions', case_functions, fn, 'configurations', 'all subsets of the services'))
    return out


META = dict(rule='distinct combination of format, way of loading, settings and their origin', assumptions=[
    'names of templated URIs are in lower case', 'domain and port stand at the top of a nested configuration', 'the literal settings given to RPHandler are covered by the other checks'])
