"""C01: the ID Token acceptance rule, decided by exhaustive enumeration of token deviations."""
import itertools
import json

from .. import env, jose
from .. import similar
from ..core import Part
from ..world import *

CID = 'rp-client-1'
NOW = env.T0
OTHER = ISS[2]

SIGN = ['ok', 'es', 'ps', 'none', 'None', 'hs_secret', 'hs_empty', 'hs_pub_n', 'hs_pub_pem', 'evil', 'evil_kid',
        'evil_nokid', 'op2', 'rp', 'rp_kid', 'tamper', 'cut', 'nosig', 'jku', 'jwk', 'garbage', 'empty',
        'unk_kid_evil', 'rs512']
ISSV = ['ok', 'missing', 'op2', 'unknown', 'slash', 'list']
AUD = ['ok', 'str', 'other', 'missing', 'multi', 'multi_azp', 'multi_azp_other', 'azp_only', 'azp_other', 'azp_me',
       'prefix', 'empty']
SUB = ['ok', 'missing', 'empty']
EXP = ['ok', 'past', 'in_skew', 'missing', 'text']
IAT = ['ok', 'future', 'in_skew', 'old', 'missing']
HASH = ['ok', 'at_missing', 'at_wrong', 'c_missing', 'c_wrong', 'at_is_c', 'c_is_at']
DIMS = dict(sign=SIGN, iss=ISSV, aud=AUD, sub=SUB, exp=EXP, iat=IAT, hash=HASH)
ORDER = list(DIMS)

PEM = None


def pem():
    global PEM
    if PEM is None:
        from cryptography.hazmat.primitives import serialization
        k = jose.jwk('op1', 'RSA')
        pub = jose.rsa.RSAPublicNumbers(jose._i(k['e']), jose._i(k['n'])).public_key()
        PEM = pub.public_bytes(serialization.Encoding.PEM,
                               serialization.PublicFormat.SubjectPublicKeyInfo).decode()
    return PEM


class Dev:
    """One concrete deviation vector."""

    def __init__(self, vec, skew, alg, where):
        self.v = dict(zip(ORDER, vec))
        self.skew, self.alg, self.where = skew, alg, where

    def base_times(self):
        v = self.v
        exp = {'ok': NOW + 300, 'past': NOW - self.skew - 2, 'in_skew': NOW - self.skew + 2,
               'missing': None, 'text': 'tomorrow'}[v['exp']]
        iat = {'ok': NOW - self.skew - 60, 'future': NOW + self.skew + 3, 'in_skew': NOW + self.skew - 1,
               'old': NOW - 4 * 3600 - self.skew - 3, 'missing': None}[v['iat']]
        return exp, iat

    def claims(self, claims):
        v = self.v
        c = dict(claims)
        exp, iat = self.base_times()
        for k, val in (('exp', exp), ('iat', iat)):
            c[k] = val
            if val is None:
                del c[k]
        if v['iss'] == 'missing':
            del c['iss']
        else:
            c['iss'] = {'ok': c['iss'], 'op2': OTHER, 'unknown': 'https://unknown.example.net',
                        'slash': c['iss'] + '/', 'list': [c['iss']]}[v['iss']]
        me = c['aud'][0]
        a = v['aud']
        c['aud'] = {'ok': [me], 'str': me, 'other': ['someone-else'], 'missing': None,
                    'multi': [me, 'someone-else'], 'multi_azp': [me, 'someone-else'],
                    'multi_azp_other': [me, 'someone-else'], 'azp_only': ['someone-else'], 'azp_other': [me],
                    'azp_me': [me], 'prefix': [me + 'x'], 'empty': []}[a]
        if a == 'missing':
            del c['aud']
        if a in ('multi_azp', 'azp_only', 'azp_me'):
            c['azp'] = me
        if a in ('multi_azp_other', 'azp_other'):
            c['azp'] = 'someone-else'
        if v['sub'] == 'missing':
            del c['sub']
        elif v['sub'] == 'empty':
            c['sub'] = ''
        h = v['hash']
        if h == 'at_missing':
            c.pop('at_hash', None)
        elif h == 'c_missing':
            c.pop('c_hash', None)
        elif h == 'at_wrong':
            c['at_hash'] = jose.left_hash('another-token', 'RS256')
        elif h == 'c_wrong':
            c['c_hash'] = jose.left_hash('another-code', 'RS256')
        elif h == 'at_is_c' and 'c_hash' in c:
            c['at_hash'] = c['c_hash']
        elif h == 'c_is_at' and 'at_hash' in c:
            c['c_hash'] = c['at_hash']
        c['mc_marker'] = 'marker-claim-value'
        return c

    def sign(self, claims, secret):
        s = self.v['sign']
        alg = self.alg or 'RS256'
        if s == 'ok':
            if alg.startswith('HS'):
                return jose.sign(claims, alg, secret=secret)
            if alg == 'none':
                return jose.sign(claims, 'none', owner='op1')
            return jose.sign(claims, alg, owner='op1')
        if s == 'es':
            return jose.sign(claims, 'ES256', owner='op1')
        if s == 'ps':
            return jose.sign(claims, 'PS256', owner='op1')
        if s == 'rs512':
            return jose.sign(claims, 'RS512', owner='op1')
        if s in ('none', 'None'):
            return jose.b64e(json.dumps({'alg': s})) + '.' + jose.b64e(json.dumps(claims)) + '.'
        if s == 'hs_secret':
            return jose.sign(claims, 'HS256', secret=secret)
        if s == 'hs_empty':
            return jose.sign(claims, 'HS256', secret='')
        if s == 'hs_pub_n':
            return jose.sign(claims, 'HS256', secret=jose.jwk('op1', 'RSA')['n'], kid=jose.jwk('op1', 'RSA')['kid'])
        if s == 'hs_pub_pem':
            return jose.sign(claims, 'HS256', secret=pem(), kid=jose.jwk('op1', 'RSA')['kid'])
        evil_alg = 'ES256' if alg == 'ES256' else 'RS256'
        kty = 'EC' if evil_alg == 'ES256' else 'RSA'
        if s == 'evil':
            return jose.sign(claims, evil_alg, owner='evil')
        if s == 'evil_kid':
            return jose.sign(claims, evil_alg, owner='evil', kid=jose.jwk('op1', kty)['kid'])
        if s == 'evil_nokid':
            return jose.sign(claims, evil_alg, owner='evil', kid=None)
        if s == 'unk_kid_evil':
            return jose.sign(claims, evil_alg, owner='evil', kid='no-such-kid')
        if s == 'op2':
            return jose.sign(claims, evil_alg, owner='op2')
        if s == 'rp':
            return jose.sign(claims, evil_alg, owner='rp')
        if s == 'rp_kid':
            return jose.sign(claims, evil_alg, owner='rp', kid=jose.jwk('op1', kty)['kid'])
        if s == 'jku':
            return jose.sign(claims, evil_alg, owner='evil', extra={'jku': 'https://evil.example.net/jwks.json'})
        if s == 'jwk':
            return jose.sign(claims, evil_alg, owner='evil', kid=None,
                             extra={'jwk': jose.public(jose.jwk('evil', kty))})
        good = jose.sign(claims, evil_alg, owner='op1')
        h, p, sig = good.split('.')
        if s == 'tamper':
            return h + '.' + jose.b64e(json.dumps(dict(claims, sub='mallory'))) + '.' + sig
        if s == 'cut':
            return h + '.' + p + '.' + sig[:-8]
        if s == 'nosig':
            return h + '.' + p + '.'
        if s == 'garbage':
            return 'this.is.garbage'
        if s == 'empty':
            return ''

    def acceptable(self, has_at, has_code):
        """The rule of the property; None where it does not say."""
        v = self.v
        s, alg = v['sign'], self.alg
        if s == 'ok':
            ok = True
        elif s == 'es':
            ok = alg in (None, 'ES256')
        elif s in ('ps', 'rs512'):
            ok = None if alg is None else False
        elif s == 'none':
            ok = alg == 'none'
        elif s == 'hs_secret':
            ok = None if alg is None else alg == 'HS256'
        elif s == 'empty':
            # an empty string cannot be told from an absent parameter on the wire
            ok = None
        else:
            ok = False
        unsigned = alg == 'none'
        if alg == 'none' and s not in ('ok', 'none'):
            ok = False if s not in ('es', 'ps', 'rs512', 'hs_secret', 'empty') else None
        if v['iss'] != 'ok':
            ok = False
        if v['aud'] not in ('ok', 'str', 'multi_azp', 'azp_me'):
            ok = False
        if v['sub'] == 'missing':
            ok = False
        if v['sub'] == 'empty':
            ok = False
        if v['exp'] in ('past', 'missing', 'text'):
            ok = False
        if v['iat'] in ('future', 'old', 'missing'):
            ok = False
        exp, iat = self.base_times()
        if ok and isinstance(exp, int) and isinstance(iat, int) and exp < iat:
            ok = None
        if self.where == 'front' and not unsigned:
            h = v['hash']
            if has_at and (h in ('at_missing', 'at_wrong') or (h == 'at_is_c' and has_code)):
                ok = False
            if has_code and (h in ('c_missing', 'c_wrong') or (h == 'c_is_at' and has_at)):
                ok = False
        if s == 'empty':
            return None
        if self.where == 'token' and v['hash'] in ('at_wrong', 'at_is_c'):
            ok = None if ok else ok
        return ok


MODES = ['static', 'RS256', 'ES256', 'HS256', 'none']


def run(ctx, case):
    rt, where, mode, skew, vec = case
    # arguments of the verification can be configured
    allow_none = {'unsigned': True, 'signed': False}.get(mode.split('+')[-1])
    mode = mode.split('+')[0]
    alg = None if mode == 'static' else mode.split('-')[-1]
    dev = Dev(vec, skew, alg, where)
    svcs = services('discovery', 'registration', 'authorization', 'access_token', 'end_session')
    if mode == 'static':
        s = Setup(2, response_types=[rt], svcs=svcs, clock_skew=skew)
    elif mode.startswith('static-'):
        # registered out of band: the configuration says with what
        s = Setup(2, conf=lambda op: static_conf(op, 'rp-client-' + op.tag, response_types=[rt], clock_skew=skew, alg=alg, behaviour={
            'response_types': [rt], 'scope': ['openid'], 'token_endpoint_auth_method': 'client_secret_basic', 'id_token_signed_response_alg': alg}), svcs=svcs)
    else:
        prefs = {'id_token_signed_response_alg': alg}
        if allow_none is not None:
            prefs['verify_args'] = {'allow_sign_alg_none': allow_none}
        s = Setup(2, conf=lambda op: dynamic_conf([rt], prefs=prefs, clock_skew=skew, issuer=op.issuer), svcs=svcs,
                  op_kw={'caps': {'id_token_signing_alg_values_supported': ['RS256', 'ES256', 'HS256', 'none']}})
    s.w.static['https://evil.example.net/jwks.json'] = lambda req: jresp(jose.jwks('evil'))
    other_login = s.login('bystander', s.ops[1])     # the other OP's keys are known to its own client
    seen = {}

    def claims(c, w, grant):
        return dev.claims(c) if w == where else c

    def sign(c, w, grant):
        if w != where:
            return None
        t = dev.sign(c, s.op.clients[grant['client_id']]['client_secret'])
        seen['token'] = t
        seen['claims'] = c
        return t
    s.op.hook.update(claims=claims, sign=sign)
    b = s.begin()
    params = s.op.authorize(b['url'], 'the-unique-subject')
    before = len(s.w.log)
    try:
        res = s.h.finalize(s.op.issuer, params)
        got = True
    except Exception as err:
        res, got = err, False
    ctx.step(3)
    want = dev.acceptable('access_token' in params, 'code' in params)
    if allow_none and dev.v['sign'] in ('none', 'None') and sum(x != 'ok' for x in dev.v.values()) == 1:
        want = None
    label = 'accept' if got else type(res).__name__
    ctx.outcome('%s/%s' % (where, label))
    ctx.state((rt, where, mode, want, label, [k for k, x in dev.v.items() if x not in ('ok',)]))
    store = json.dumps(snapshot(s.client()))
    if not got:
        if want:
            ctx.fail('valid-token-rejected', '%r %s' % (case, res))
        tok = seen.get('token')
        if tok and tok in store:
            ctx.fail('rejected-token-stored', 'the ID Token of a failed login is in the session store')
        two = rt == 'code id_token' and where == 'token'     # the front-channel token was fine
        if 'marker-claim-value' in store or ('the-unique-subject' in store and not two):
            ctx.fail('rejected-claims-stored', 'claims of a rejected ID Token are in the session store')
        ok, _ = attempt(s.context().state.get_state_by_sub, 'the-unique-subject')
        if ok:
            ctx.fail('rejected-subject-bound', 'subject of a rejected token leads to a session')
        ok, act = attempt(s.h.has_active_authentication, b['state'])
        if ok and act and where == ('front' if 'id_token' in rt else 'token'):
            ctx.fail('rejected-but-authenticated', '')
    else:
        if want is False:
            ctx.fail('bad-token-accepted:%s' % where, 'accepted %r' % (dev.v,))
        if isinstance(res, dict) and 'error' in res:
            ctx.fail('error-dict', res)
        elif want:
            idt = plain(res['id_token'])
            for k, val in seen['claims'].items():
                if k == 'aud' and isinstance(val, str):
                    val = [val]
                ctx.check(idt.get(k) == val or (rt == 'code id_token' and where == 'front'), 'claims-changed',
                          '%s: %r != %r' % (k, idt.get(k), val))
    # the other issuer's session is not affected
    ctx.check(s.h.has_active_authentication(other_login['state']), 'bystander-lost')


def vectors(t):
    """All vectors with at most t deviations."""
    base = ['ok'] * len(ORDER)
    out = []
    for n in range(t + 1):
        for idx in itertools.combinations(range(len(ORDER)), n):
            for vals in itertools.product(*[[x for x in DIMS[ORDER[i]] if x != 'ok'] for i in idx]):
                v = list(base)
                for i, x in zip(idx, vals):
                    v[i] = x
                out.append(tuple(v))
    return out


FLOWS = [('code', 'token'), ('id_token', 'front'), ('id_token token', 'front'), ('code id_token', 'front'),
         ('code id_token', 'token'), ('code id_token token', 'front')]


def space(flows, modes, skews, t):
    out = []
    for rt, where in flows:
        for mode in modes:
            if mode == 'none' and rt != 'code':
                continue
            for skew in skews:
                for vec in vectors(t):
                    if where == 'token' and vec[6] not in ('ok', 'at_wrong'):
                        continue
                    if vec[6].startswith('at') and 'token' not in rt.split() and where == 'front':
                        continue
                    if vec[6].startswith('c_') and 'code' not in rt.split() and where == 'front':
                        continue
                    out.append((rt, where, mode, skew, vec))
    return out


ALLOW = [None, {}, {'missing_kid': True}, {'missing_kid': False}, {'issuer_mismatch': True}, {'http_links': True, 'missing_kid': True}]


def run_keys(ctx, case):
    """a provider with one or several keys of a type, and tokens that say or don't say which one they are signed with"""
    rt, where, allow, several, signer, kid, first = case
    s = Setup(2, response_types=[rt], svcs=services('discovery', 'registration', 'authorization', 'access_token', 'end_session', 'refresh_token'),
              **({'allow': dict(allow)} if allow is not None else {}))
    # what is called op1b here is the second key of the provider
    ks = [jose.public(jose.jwk('op1', 'RSA')), jose.public(jose.jwk('op1', 'EC'))]
    if several:
        second = jose.public(jose.jwk('src', 'RSA'))
        ks = [second] + ks if first else ks + [second]
    s.w.static[s.op.md['jwks_uri']] = lambda req: jresp({'keys': ks})
    owner = {'first': 'op1', 'second': 'src', 'evil': 'evil', 'op2': 'op2'}[signer]
    k = {'own': jose.jwk(owner, 'RSA')['kid'], 'none': None, 'empty': '', 'first': jose.jwk('op1', 'RSA')['kid'], 'unknown': 'no-such-kid'}[kid]
    seen = []

    def sign(c, w, grant):
        if w != where:
            return None
        seen.append(jose.sign(c, 'RS256', owner=owner, kid=k))
        return seen[-1]
    s.op.hook['sign'] = sign
    s.login('bystander', s.ops[1])
    ok, res = attempt(s.login, 'alice', s.op)
    ctx.check(bool(seen), 'nothing-signed', '')
    mine = signer == 'first' or (signer == 'second' and several)
    named = kid == 'own' or (kid == 'first' and signer == 'first')
    unnamed = kid in ('none', 'empty')
    want = mine and (named or (unnamed and (not several or bool(allow and allow.get('missing_kid')))))
    ok = ok and 'error' not in res
    ctx.check(ok == want, 'rejected-though-signed-by-the-provider' if want else 'accepted:%s' % where, '%r %r' % (case, res))
    if not ok:
        store = json.dumps(snapshot(s.client()))
        ctx.check(seen[0] not in store, 'rejected-token-stored', '')
    ctx.step()
    ctx.outcome((where, ok, several, bool(allow and allow.get('missing_kid'))))
    ctx.state(case)


def keys_space(tier):
    fl = [('code', 'token'), ('id_token', 'front'), ('code id_token', 'front'), ('code id_token', 'token')]
    if tier != 'quick':
        fl = FLOWS
    return [(rt, w, str_allow, sev, sg, kid, f) for rt, w in fl for str_allow in ALLOW for sev, f in ((False, False), (True, False), (True, True))
            for sg in ('first', 'second', 'evil', 'op2') for kid in ('own', 'none', 'empty', 'first', 'unknown')]


def other_keys(n):
    """n further public RSA keys of the provider that nobody uses."""
    k = jose.public(jose.jwk('src', 'RSA'))
    v = int.from_bytes(jose.b64d(k['n']), 'big')
    return [dict(k, kid='other-%d' % i, n=jose.b64e((v + 2 * i).to_bytes(256, 'big'))) for i in range(n)]


def run_many(ctx, case):
    """Numbers, lengths and places: audiences and keys of any number with the one that counts at any place, tokens with any number of other claims,
    and a change of one character anywhere in a token."""
    what, n, pos, rt, where = case
    s = Setup(1, response_types=[rt])
    op = s.op
    ks = [jose.public(jose.jwk('op1', 'RSA')), jose.public(jose.jwk('op1', 'EC'))]
    kid = jose.jwk('op1', 'RSA')['kid']
    if what == 'keys':
        ks = other_keys(n)
        if pos is not None:
            ks.insert(pos, jose.public(jose.jwk('op1', 'RSA')))
    elif what == 'kid':
        kid = ('k' * n)[:-1] + 'x'
        ks = [dict(ks[0], kid=kid), dict(other_keys(2)[1], kid=kid[:-1] + 'y')]
    s.w.static[op.md['jwks_uri']] = lambda req: jresp({'keys': ks})
    seen = []

    def sign(c, w, grant):
        if w != where:
            return None
        if what == 'aud':
            mine = c['aud'][0] if isinstance(c['aud'], list) else c['aud']
            c = dict(c, aud=['https://other%d.example.org' % i for i in range(n)], azp=mine)
            if pos is not None:
                c['aud'].insert(pos, mine)
        elif what == 'claims':
            c = dict(c, **{'claim%d' % i: {'value': i} for i in range(n)})
        j = jose.sign(c, 'RS256', owner='op1', kid=kid)
        if what == 'character':
            i = n % len(j)
            ch = 'B' if j[i] == 'A' else 'A'
            if j[i] == '.':
                ch = 'A'
            if i == len(j) - 1:
                # its last bits say nothing
                ch = 'Q' if j[i] in 'ABCDEFGHIJKLMNOP' else 'A'
            j = j[:i] + ch + j[i + 1:]
        seen.append(j)
        return j
    op.hook['sign'] = sign
    ok, res = attempt(s.login, 'alice', op)
    if not ctx.check(bool(seen), 'nothing-signed', ''):
        return
    want = what in ('claims', 'kid') or (what in ('aud', 'keys') and pos is not None)
    ok = ok and 'error' not in res
    ctx.check(ok == want, ('rejected:%s' if want else 'accepted:%s') % what, '%r %s' % (case, repr(res)[:200]))
    if ok and want and what == 'claims':
        idt = res['id_token']
        ctx.check(all(idt.get('claim%d' % i) == {'value': i} for i in range(n)), 'claims-lost', '')
    if not ok:
        ctx.check(seen[0] not in json.dumps(snapshot(s.client())), 'rejected-token-stored', '')
    ctx.step()
    ctx.outcome((what, where, ok))
    ctx.state(case)


def many_space(tier):
    q = tier == 'quick'
    out = []
    for rt, where in [('code', 'token'), ('id_token', 'front')]:
        for what in ('aud', 'keys'):
            for n in (1, 2, 3, 4, 5, 8, 16) if q else (*range(1, 13), 16, 32, 64):
                out += [(what, n, p, rt, where) for p in [None, *range(n + 1)]]
        for n in (1, 2, 3, 8, 31, 32, 33, 64, 100, 255, 256, 257, 1000, 5000):
            out += [('claims', n, None, rt, where), ('kid', n, None, rt, where)]
        if not q or where == 'front':
            out += [('character', i, None, rt, where) for i in range(900)]
    return out


def parts(tier):
    many = Part('many', run_many, many_space(tier), 'number of audiences, keys, claims x place of the one that counts; every place of a changed character')
    keys = Part('keys', run_keys, keys_space(tier), 'the keys of the provider x who signs x what key the token names x what is allowed')
    static = Part('static', run, space(FLOWS, ['static-' + m for m in MODES[1:]], [15], 1), 'clients registered out of band: every single deviation')
    args = Part('arguments', run, space(FLOWS, ['RS256+unsigned', 'RS256+signed', 'ES256+signed'], [15], 1), 'verification arguments in the configuration: every single deviation')
    if tier == 'quick':
        return [
            keys,
            many,
            similar.part4(tier, ('front', 'token')),
            static,
            args,
            Part('single', run, space(FLOWS, MODES, [0, 15, 120], 1),
                 'every flow x registration x skew x every single deviation'),
            Part('pairs', run, space([('code', 'token'), ('code id_token token', 'front')], ['RS256'], [15], 2),
                 'every pair of deviations'),
        ]
    return [
        keys,
        many,
        similar.part4(tier, ('front', 'token')),
        static,
        args,
        Part('arguments-pairs', run, space([('code', 'token'), ('id_token', 'front')], ['RS256+unsigned', 'RS256+signed'], [15], 2), 'verification arguments: every pair'),
        Part('single', run, space(FLOWS, MODES, [0, 15, 120], 1), 'every single deviation'),
        Part('pairs', run, space(FLOWS, MODES, [15], 2), 'every pair of deviations'),
        Part('triples', run, space([('code', 'token'), ('code id_token token', 'front')], ['RS256'], [15], 3),
             'every triple of deviations'),
    ]


META = dict(
    rule='one finalize() of the real handler per (flow, registration, skew, deviation vector); distinct = distinct '
         '(flow, mode, oracle verdict, outcome, deviating dimensions)',
    assumptions=['cryptographic primitives of the cryptography package are correct',
                 'exact-second boundaries of exp/iat (equality) are not judged'])
