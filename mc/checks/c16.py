"""C16: client authentication at the token endpoint. Enumerated: the agreed method x where the agreement comes from
(configuration, negotiation, registration answer) x signing algorithms the OP lists x request type; all client identifiers
and secrets over an alphabet of awkward characters; all histories of requests by two clients with different methods in one
handler. Oracle: a strict OP, and a monitor that searches everything sent for the secret in any encoding."""
import itertools
import time
from urllib.parse import quote, quote_plus

from .. import jose, large
from ..core import Part
from ..world import *

METHODS = ['client_secret_basic', 'client_secret_post', 'client_secret_jwt', 'private_key_jwt']
ALGS = [None, ['HS256'], ['RS256'], ['ES256'], ['HS256', 'RS256'], ['RS256', 'HS256'], ['ES256', 'HS512'], ['HS384', 'ES256', 'RS256'],
        ['RS512', 'HS256']]
CHARS = ['a', ':', '%', '+', ' ', '&', '=', '~', '?', '/', '-', '_', 'é', '"', '€', '\\', '#', '%41']


def family(method, algs):
    """The listed algorithms that suit the method."""
    if method == 'client_secret_jwt':
        return [a for a in algs if a.startswith('HS')]
    return [a for a in algs if a[:2] in ('RS', 'ES', 'PS')]


def forms(secret):
    out = {secret, quote(secret), quote(secret, safe=''), quote_plus(secret)}
    return {x for x in out if len(x) >= 12}


def monitor(ctx, s, op, cid, secret, method):
    """Everything sent so far."""
    for r in s.w.log:
        hdr = dict(r.headers)
        auth = hdr.pop('Authorization', hdr.pop('authorization', ''))
        ok_body = method == 'client_secret_post' and r.endpoint == 'token' and r.op is op
        ok_head = method == 'client_secret_basic' and r.endpoint == 'token' and r.op is op
        body = r.body.decode() if isinstance(r.body, bytes) else (r.body or '')
        for f in forms(secret):
            ctx.check(f not in r.url, 'secret-in-url', r.url)
            ctx.check(ok_body or f not in body, 'secret-in-body', '%r %s' % (r, body))
            ctx.check(f not in repr(hdr), 'secret-in-header', repr(hdr))
            ctx.check(f not in auth, 'secret-in-header', auth)
        if auth.startswith('Basic ') and r.op is op:
            ctx.check(ok_head, 'basic-where-it-should-not', '%r' % r)
        if r.endpoint != 'token' or r.op is not op:
            continue
        form = r.form
        want = {'client_secret_basic': (True, False, False), 'client_secret_post': (False, True, False)}.get(method, (False, False, True))
        got = (auth.startswith('Basic '), 'client_secret' in form, 'client_assertion' in form)
        ctx.check(got == want, 'not-the-agreed-method', '%s: %s %r' % (method, auth, form))
        if got[0]:
            ctx.check(auth == 'Basic ' + base64.b64encode(('%s:%s' % (quote_plus(cid), quote_plus(secret))).encode()).decode()
                      or decode_basic(auth) == (cid, secret), 'basic-decodes-wrongly', auth)
        if got[1]:
            ctx.check(form['client_secret'] == secret and form.get('client_id') == cid, 'post-wrong', repr(form))


def decode_basic(auth):
    try:
        a, b = base64.b64decode(auth[6:], validate=True).decode().split(':')
        return unquote_plus(a), unquote_plus(b)
    except Exception as err:
        return repr(err)


def alg_of(req):
    return jose.decode(req.form['client_assertion'])[0]['alg']


def mk(source, method, algs, reg_alg, n_ops=1):
    caps = {}
    if algs is not None:
        caps['token_endpoint_auth_signing_alg_values_supported'] = algs
    if source == 'static':
        s = Setup(n_ops, op_kw={'caps': caps}, method=method)
    elif source == 'list':
        s = Setup(n_ops, op_kw={'caps': caps}, method=method, behaviour={'token_endpoint_auth_method': [method, 'client_secret_basic']})
    elif source == 'preference':
        s = Setup(n_ops, op_kw={'caps': caps}, conf=lambda op: dynamic_conf(
            response_types=['code', 'code id_token'], prefs={'token_endpoint_auth_method': method}, issuer=op.issuer))
    elif source == 'negotiated':
        caps['token_endpoint_auth_methods_supported'] = [method]
        s = Setup(n_ops, op_kw={'caps': caps}, conf=lambda op: dynamic_conf(
            response_types=['code', 'code id_token'], prefs={'token_endpoint_auth_method': [m for m in METHODS if m != method] + [method]}, issuer=op.issuer))
    elif source == 'registered':
        # the provider decides otherwise than asked for
        other = METHODS[0] if method != METHODS[0] else METHODS[1]
        s = Setup(n_ops, op_kw={'caps': caps}, conf=lambda op: dynamic_conf(
            response_types=['code', 'code id_token'], prefs={'token_endpoint_auth_method': other}, issuer=op.issuer))
    for op in s.ops:
        op.issue_rt = True

        def reg(resp, r, op=op):
            if source == 'registered':
                resp['token_endpoint_auth_method'] = method
                op.clients[resp['client_id']]['method'] = method
            if reg_alg:
                resp['token_endpoint_auth_signing_alg'] = reg_alg
                op.clients[resp['client_id']]['token_endpoint_auth_signing_alg'] = reg_alg
            return resp
        op.hook['registration'] = reg
    return s


def case_method(ctx, case):
    source, method, algs, reg_alg, flow = case
    s = mk(source, method, algs, reg_alg)
    op = s.op
    jw = method.endswith('jwt')
    suits = ([reg_alg] if reg_alg else None) if algs is None else family(method, [reg_alg] if reg_alg else algs)
    if suits is None:
        suits = {'client_secret_jwt': ['HS256'], 'private_key_jwt': ['RS256']}.get(method)
    ok, r = attempt(s.login, 'alice', req_args={'response_type': flow})
    if not ctx.check(op.issuer in s.h.issuer2rp, 'set-up-failed', repr(r)):
        return
    cl = s.client()
    cid = cl.get_client_id()
    secret = op.clients[cid]['client_secret']
    if jw and not suits:
        # the OP supports nothing that goes with the method
        monitor_unsuitable(ctx, s, method)
        ctx.outcome('no common algorithm')
        return
    sent = [q for q in s.w.log if q.endpoint == 'token']
    if jw and sent and 'client_assertion' in sent[0].form:
        ctx.check(alg_of(sent[0]) in suits, 'wrong-assertion-alg:%s%s' % (method, '' if algs or reg_alg else ':default-' + alg_of(sent[0])),
                  '%s, suitable are %r' % (alg_of(sent[0]), suits))
        if alg_of(sent[0]) not in suits:
            return
    monitor(ctx, s, op, cid, secret, method)
    if not ctx.check(ok and not (isinstance(r, dict) and 'error' in r), 'login-failed', repr(r) + repr(op.rejects)):
        return
    state = r['state']
    ctx.check(not op.rejects, 'op-rejected', repr(op.rejects))
    for i in range(2):
        ok, r = attempt(s.h.refresh_access_token, state)
        ctx.check(ok, 'refresh-failed', '%r %r' % (r, op.rejects))
        ctx.check(not op.rejects, 'op-rejected', repr(op.rejects))
    ok, r = attempt(s.h.get_user_info, state)
    ctx.check(ok, 'userinfo-failed', '%r %r' % (r, op.rejects))
    # the same, straight through the service
    cl.do_request('refresh_token', state=state, request_args={})
    ctx.check(not op.rejects, 'op-rejected', repr(op.rejects))
    attempt(s.h.logout, state)
    monitor(ctx, s, op, cid, secret, method)
    ctx.step(5)
    ctx.outcome((method, [alg_of(q) for q in s.w.to('token')] if jw else None))
    ctx.state(case)


def monitor_unsuitable(ctx, s, method):
    if method == 'private_key_jwt':
        for r in s.w.to('token'):
            if 'client_assertion' in r.form:
                ctx.check(not alg_of(r).startswith('HS'), 'private-key-method-signs-with-secret', alg_of(r))


def case_chars(ctx, case):
    cid, secret, method, source = case
    kw = dict(client_id=cid, secret=secret, method=method)
    caps = {'token_endpoint_auth_signing_alg_values_supported': ['HS256']}
    if source == 'static':
        s = Setup(1, op_kw={'caps': caps}, conf=lambda op: static_conf(op, **kw))
    else:
        s = Setup(1, op_kw={'caps': caps}, conf=lambda op: dynamic_conf(prefs={'token_endpoint_auth_method': method}, issuer=op.issuer))

        def reg(resp, r):
            d = s.op.clients.pop(resp['client_id'])
            d.update(client_id=cid, client_secret=secret)
            s.op.clients[cid] = d
            resp.update(client_id=cid, client_secret=secret)
            return resp
        s.op.hook['registration'] = reg
    s.op.issue_rt = True
    ok, r = attempt(s.login)
    ctx.check(ok, 'login-failed', '%r %r' % (r, s.op.rejects))
    if ok:
        s.h.refresh_access_token(r['state'])
    ctx.check(not s.op.rejects, 'op-rejected', repr(s.op.rejects))
    monitor(ctx, s, s.op, cid, secret, method)
    ctx.step(2)
    ctx.outcome((method, ok))
    ctx.state(case)


def case_hist(ctx, case):
    """Two clients of one handler with different methods."""
    m1, m2, ops = case
    ms = {0: m1, 1: m2}
    s = Setup(2, op_kw={'caps': {'token_endpoint_auth_signing_alg_values_supported': ['HS256', 'RS256']}},
              conf=lambda op: static_conf(op, client_id='cl-' + op.tag, secret=SECRET + op.tag, method=ms[int(op.tag[-1]) - 1]))
    for op in s.ops:
        op.issue_rt = True
        op.rotate_rt = False
    st = {}
    for n, what in ops:
        op = s.ops[n]
        if what == 'login' or n not in st:
            st[n] = s.login('u%d' % n, op=op)['state']
        cl = s.client(op)
        if what == 'refresh':
            s.h.refresh_access_token(st[n])
        elif what == 'bearer_header':
            s.h.get_user_info(st[n])
        elif what == 'refresh-bearer':
            # explicitly asked for: the refresh token as bearer token
            attempt(cl.do_request, 'refresh_token', state=st[n], authn_method='bearer_header', key=st[n])
            op.rejects.clear()
            s.w.log[:] = [r for r in s.w.log if not (r.endpoint == 'token' and r.headers.get('authorization', '').startswith('Bearer '))]
        elif what == 'explicit':
            alt = [m for m in METHODS if m != ms[n]][0]
            attempt(cl.do_request, 'refresh_token', state=st[n], authn_method=alt)
            rq = s.w.log.pop()
            ctx.check(('client_secret' in rq.form, 'client_assertion' in rq.form) ==
                      (alt == 'client_secret_post', alt.endswith('jwt')), 'explicit-method-not-used', '%s %r' % (alt, rq.form))
            op.rejects.clear()
        for k, o in enumerate(s.ops):
            ctx.check(not o.rejects, 'op-rejected', repr(o.rejects))
            monitor(ctx, s, o, 'cl-' + o.tag, SECRET + o.tag, ms[k])
        ctx.step()
    ctx.outcome((m1, m2))
    ctx.state(case)


KIDS = {'none': None, 'rsa': ('rp', 'RSA'), 'rsa2': ('rp2', 'RSA'), 'ec': ('rp', 'EC'), 'ec2': ('rp2', 'EC'), 'unknown': 'no-such-key'}
#: identifiers that only look like that of the key
LIKE = {'like-prefix': lambda k: k[:-1], 'like-first': lambda k: k[:1], 'like-longer': lambda k: k + 'x', 'like-end': lambda k: k[1:], 'like-case': lambda k: k.swapcase(), 'like-blank': lambda k: k + ' '}


def case_arguments(ctx, case):
    """What the application says about the authentication of one request."""
    method, alg, kid, where, lifetime, given, reqs = case
    kj = keyjar()
    kj.import_jwks(jose.jwks('rp2', private=True), '')
    caps = {'token_endpoint_auth_signing_alg_values_supported': [alg]}
    s = Setup(1, op_kw={'caps': caps}, method=method, hkw={'keyjar': kj})
    op = s.op
    op.issue_rt, op.rotate_rt = True, False
    for c in op.clients.values():
        c['jwks'] = {'keys': jose.jwks('rp')['keys'] + jose.jwks('rp2')['keys']}
    st = s.login('alice')['state']
    cl, context = s.client(), s.context()
    n0 = len(s.w.log)
    op.rejects.clear()
    kt = {'H': 'oct', 'R': 'RSA', 'P': 'RSA', 'E': 'EC'}[alg[0]]
    k = LIKE[kid](jose.jwk('rp', kt)['kid']) if kid in LIKE else KIDS[kid]
    if isinstance(k, tuple):
        owner, kty = k
        k = jose.jwk(owner, kty)['kid']
    kw = {}
    if k is not None and where == 'argument':
        kw['kid'] = k
    elif k is not None:
        context.kid['sig'][kt] = k
    if lifetime is not None:
        kw['lifetime'] = lifetime
    own = jose.sign({'iss': 'somebody', 'sub': 'somebody', 'aud': 'x', 'jti': 'j', 'exp': 1}, 'RS256', owner='src')
    if given in ('assertion', 'assertion-type'):
        kw['client_assertion'] = own
    if given == 'assertion-type':
        kw['client_assertion_type'] = 'urn:example:my-type'
    args = {'client_assertion': own} if given == 'in-request' else {}
    jtis = []
    for what in reqs:
        n = len(s.w.log)
        t = s.w.now() if hasattr(s.w, 'now') else time.time()
        # for all but the last one nothing is said
        last = what is reqs[-1]
        a = dict(args) if last else {}
        ok, r = attempt(cl.do_request, 'refresh_token', state=st, request_args=a, authn_method=method, **(kw if last or where == 'x' else {}))
        sent = [x for x in s.w.log[n:] if x.endpoint == 'token']
        ctx.step()
        said = last or where == 'context'
        bad = not (given and last) and said and k is not None and (kid == 'unknown' or kid in LIKE or KIDS[kid][1] != kt)
        if where == 'context' and method == 'client_secret_jwt':
            bad = False if kt == 'oct' and k is None else bad
        if bad:
            ctx.check(not sent, 'sent-with-another-key', '%r %r' % (case, [jose.decode(x.form['client_assertion'])[0] for x in sent]))
            ctx.outcome('refused')
            continue
        if not ctx.check(len(sent) == 1, 'not-sent', repr(r)):
            return
        f = sent[0].form
        jwtb = 'urn:ietf:params:oauth:client-assertion-type:jwt-bearer'
        ctx.check('client_secret' not in f and 'authorization' not in sent[0].headers, 'another-method-too', repr(f))
        if given and last:
            ctx.check(f.get('client_assertion') == own, 'not-the-given-assertion', repr(f.get('client_assertion')))
            ctx.check(f.get('client_assertion_type') == (kw.get('client_assertion_type') or jwtb), 'wrong-assertion-type', repr(f))
            ctx.outcome('given')
            continue
        ctx.check(f.get('client_assertion_type') == jwtb, 'wrong-assertion-type', repr(f))
        h, c, _ = jose.decode(f['client_assertion'])
        ctx.check(h['alg'] == alg, 'wrong-assertion-alg', repr(h))
        if kt == 'oct':
            ok, e = attempt(jose.verify, f['client_assertion'], {'secret': op.clients[cl.get_client_id()]['client_secret']})
        else:
            want = [jose.jwk(o, kt) for o in ('rp', 'rp2')]
            if said and k is not None:
                want = [x for x in want if x['kid'] == k]
            if not ctx.check(h.get('kid') in [x['kid'] for x in want], 'not-the-chosen-key', '%r, wanted %r' % (h, k)):
                continue
            ok, e = attempt(jose.verify, f['client_assertion'], jose.public([x for x in want if x['kid'] == h['kid']][0]))
        ctx.check(ok, 'assertion-does-not-verify', repr(e))
        ctx.check(c.get('iss') == c.get('sub') == cl.get_client_id(), 'wrong-issuer-of-assertion', repr(c))
        aud = c.get('aud')
        ctx.check(op.md['token_endpoint'] in (aud if isinstance(aud, list) else [aud]), 'wrong-audience', repr(c))
        ctx.check(c['exp'] - c['iat'] == (lifetime if last and lifetime is not None else 600) and c['iat'] <= int(time.time()) <= c['exp'],
                  'wrong-lifetime', repr(c))
        jtis.append(c.get('jti'))
        ctx.outcome((alg, h.get('kid') is not None))
    ctx.check(all(jtis) and len(set(jtis)) == len(jtis), 'assertion-repeated', repr(jtis))
    ctx.state(case)


def parts(tier):
    q = tier == 'quick'
    meth = []
    for source in ('static', 'list', 'preference', 'negotiated', 'registered'):
        for m in METHODS:
            for algs in ALGS:
                for reg in [None] + ((algs or ['HS256' if m == 'client_secret_jwt' else 'RS256'])
                                     if source in ('preference', 'negotiated', 'registered') and m.endswith('jwt') else []):
                    if reg == 'none':
                        continue
                    if reg and not family(m, [reg]):
                        continue
                    if reg and reg not in (algs or [reg]):
                        continue
                    for flow in ('code', 'code id_token'):
                        meth.append((source, m, algs, reg, flow))
    words = [''.join(w) for n in range(1, 3) for w in itertools.product(CHARS, repeat=n)]
    pads = ['secret-0123456789', 'secret-01234567890', 'secret-012345678901']
    chars = []
    for m in ('client_secret_basic', 'client_secret_post') + (() if q else ('client_secret_jwt',)):
        for source in ('static', 'dynamic'):
            for w in words:
                for p in pads[:1 if (q and m != 'client_secret_basic') else 3]:
                    chars.append(('client', p + w, m, source))
                    if p == pads[0] or not q:
                        chars.append(('cl' + w + 'x', p, m, source))
        if not q:
            w3 = [''.join(w) for w in itertools.product(CHARS, repeat=3)]
            chars += [('client', pads[0] + w, m, 'static') for w in w3]
    hist = []
    steps = [(n, w) for n in (0, 1) for w in ('login', 'refresh', 'bearer_header', 'refresh-bearer', 'explicit')]
    for m1, m2 in itertools.product(METHODS, repeat=2):
        for seq in itertools.product(steps, repeat=2 if q else 3):
            hist.append((m1, m2, seq))
    args_ = []
    for m, algs in (('client_secret_jwt', ['HS256', 'HS512']), ('private_key_jwt', ['RS256', 'RS512', 'ES256'])):
        for alg in algs:
            for kid in [*KIDS, *LIKE] if m == 'private_key_jwt' else ['none']:
                for where in ('argument', 'context') if kid != 'none' else ('argument',):
                    for lt in (None, 60, 0, 7200) if kid not in LIKE else (None,):
                        for given in (None, 'assertion', 'assertion-type', 'in-request'):
                            for n in (1, 2) if q else (1, 2, 3):
                                args_.append((m, alg, kid, where, lt, given, tuple(range(n))))
    lengths = []
    for m in METHODS[:3]:
        for source in ('static', 'dynamic'):
            for n in large.sizes(tier, 8200):
                for ch in ('plain', 'visible'):
                    if n > 31:
                        lengths.append(('client', large.value('', n, ch, 'S'), m, source))
                    lengths.append((large.value('', n, ch, 'C'), 'secret-' + '0123456789' * 3, m, source))
    return [Part('large', case_chars, lengths, 'identifiers and secrets of any length', 'up to %d characters' % max(len(c[0]) for c in lengths)),
            Part('arguments', case_arguments, args_, 'key, lifetime or assertion given for one request'),
            Part('methods', case_method, meth, 'method x source x algorithms x flow'),
            Part('characters', case_chars, chars, 'identifiers and secrets over an alphabet of awkward characters'),
            Part('histories', case_hist, hist, 'requests of two clients with different methods')]


META = dict(rule='distinct (method, agreement, algorithms), (identifier, secret) and histories')
