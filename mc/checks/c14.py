"""C14: fresh, unguessable values. The operating system's entropy is replaced by a recorded stream. Every single bit of what a
request consumes is flipped, one at a time, and the request made again: a value has as many bits of entropy as there are bits
whose flip changes it. And for all histories of login/logout requests with the process' general random generator re-seeded
before each, by one or two handlers, every value is different from all others."""
import hashlib
import itertools
import os
import random

from .. import many
from ..core import Part
from ..world import *

SALT = 0


class Entropy:
    """A recorded stream instead of the operating system's entropy."""

    def __init__(self, tag=b'', flip=None):
        self.tag, self.flip, self.pos = tag, flip, 0

    def read(self, n):
        out = bytearray()
        for i in range(self.pos, self.pos + n):
            b = hashlib.blake2b(b'%s/%d' % (self.tag, i), digest_size=1).digest()[0]
            if self.flip is not None and self.flip // 8 == i:
                b ^= 1 << (self.flip % 8)
            out.append(b)
        self.pos += n
        return bytes(out)

    def __enter__(self):
        self.old = os.urandom, random._urandom
        os.urandom = random._urandom = self.read
        return self

    def __exit__(self, *a):
        os.urandom, random._urandom = self.old


def mk(kind):
    kw = {}
    if kind == 'oauth2':
        svcs = {k: {'class': 'oidcrp.oauth2.' + v} for k, v in
                dict(authorization='authorization.Authorization', access_token='access_token.AccessToken').items()}
        kw['svcs'] = svcs
        kw['conf'] = lambda op: static_conf(op, client_id='rp-client', scope=['read'], client_type='oauth2')
    elif kind == 'pkce':
        kw['pkce'] = True
    elif kind == 'S512':
        p = copy.deepcopy(PKCE)
        p['pkce']['kwargs'].update(code_challenge_length=43, code_challenge_method='S512')
        kw['pkce'] = p
    elif kind == 'hybrid':
        kw['response_types'] = ['code id_token']
    elif kind == 'dynamic':
        kw['conf'] = lambda op: dynamic_conf(pkce=True, issuer=op.issuer)
    s = Setup(2, **kw)
    s.kind = kind
    return s


def ask(s, what, n=0):
    """One request; what it put on the wire or kept to itself."""
    op = s.ops[n]
    if what == 'begin':
        b = s.h.begin(op.issuer)
        q = query(b['url'])
        out = {'state': q['state']}
        if 'nonce' in q:
            out['nonce'] = q['nonce']
        if 'code_challenge' in q:
            d = json.loads(s.h.issuer2rp[op.issuer].client_get('service_context').state.dump()['_db'][b['state']])
            v = d['pkce']
            v = json.loads(v) if isinstance(v, str) else v
            out['verifier'] = v['code_verifier']
        return out, dict((k, v) for k, v in q.items() if k != 'code_challenge')
    if what == 'service':
        cl = s.h.client_setup(op.issuer)
        c = cl.client_get('service_context')
        st = c.state.create_state(op.issuer)
        i = cl.client_get('service', 'authorization').get_request_parameters(request_args={'state': st, 'redirect_uri': BASE + '/cb/op1'})
        q = query(i['url'])
        return {'state': st, 'nonce': q['nonce']}, q
    if what == 'logout':
        q = query(s.h.logout(s.logins[n])['url'])
        return {'logout state': q['state']}, q
    raise ValueError(what)


def prepare(s, what):
    from ..env import NET
    NET.world = s.w
    s.logins = {}
    for n, op in enumerate(s.ops):
        s.h.client_setup(op.issuer)
        if what == 'logout':
            r = s.login('alice', op=op)
            s.logins[n] = r['state']


def run(kind, what, tag, flip):
    random.seed(7)
    s = mk(kind)
    with Entropy(b'setup'):
        prepare(s, what)
    random.seed(7)
    with Entropy(tag, flip) as e:
        vals, wire = ask(s, what)
        return vals, wire, e.pos * 8


def case_bits(ctx, case):
    kind, what, salt = case
    tag = b'stream%d' % salt
    base, wire0, bits = run(kind, what, tag, None)
    again, _, _ = run(kind, what, tag, None)
    same = {k: base[k] == again[k] for k in base}
    for k in base:
        if not ctx.check(same[k], 'unknown-source:' + k, 'different values from the same entropy: %r %r' % (base[k], again[k])):
            return
    eff = {k: 0 for k in base}
    secret = 0
    for bit in range(min(bits, 4096)):
        v, wire, _ = run(kind, what, tag, bit)
        for k in base:
            eff[k] += v[k] != base[k]
        if 'verifier' in base and v['verifier'] != base['verifier'] and wire == wire0:
            secret += 1
        ctx.step()
    for k, n in eff.items():
        ctx.check(n >= 128, 'too-little-entropy:' + k, '%d of the bits consumed matter for %r' % (n, base[k]))
        ctx.outcome((kind, k, n))
    if 'verifier' in base:
        ctx.check(secret >= 128, 'verifier-follows-from-request', '%d bits' % secret)
    ctx.check(len(set(base.values())) == len(base), 'same-value-twice', repr(base))
    ctx.state((kind, what, sorted(eff.items())))


def case_history(ctx, case):
    kind, nh, ops = case
    seen = {}
    with Entropy(b'history'):
        random.seed(1)
        hs = [mk(kind) for _ in range(nh)]
        for s in hs:
            prepare(s, 'logout' if any('logout' in o for o in ops) else 'begin')
        for i, (who, what, n, seed) in enumerate(ops):
            if seed:
                random.seed(seed)
            s = hs[who]
            from ..env import NET
            NET.world = s.w
            vals, _ = ask(s, what, n)
            for k, v in vals.items():
                ctx.check(v not in seen, 'repeated:%s' % k, '%r: %s in request %d, and in %r' % (v, k, i, seen.get(v)))
                seen[v] = (k, i)
            ctx.step()
    ctx.outcome((kind, sorted({k for k, _ in seen.values()})))
    ctx.state(case)


def parts(tier):
    q = tier == 'quick'
    bits = [(k, 'begin', salt) for k in ('plain', 'oauth2', 'pkce', 'S512', 'hybrid', 'dynamic') for salt in range(1 if q else 4)]
    bits += [(k, w, salt) for k in ('plain', 'hybrid') for w in ('service', 'logout') for salt in range(1 if q else 4)]
    hist = []
    for kind in ('plain', 'pkce', 'hybrid') + (() if q else ('dynamic', 'S512')):
        alpha = [(0, 'begin', 0), (0, 'begin', 1), (0, 'service', 0), (0, 'logout', 0), (0, 'logout', 1), (1, 'begin', 0), (1, 'logout', 0)]
        if kind in ('pkce', 'S512', 'dynamic'):
            alpha = [a for a in alpha if a[1] != 'service']
        for seq in itertools.product(alpha, repeat=2 if q else 3):
            for seeds in itertools.product((0, 1, 2), repeat=len(seq)):
                hist.append((kind, 2, tuple(a + (x,) for a, x in zip(seq, seeds))))
    return [Part('many', many.repeats, [('begin', n, '') for n in many.sizes(tier)], 'how often', 'up to %d times' % many.sizes(tier)[-1]),
            Part('bits', case_bits, bits, 'every bit of the entropy a request consumes flipped'),
            Part('histories', case_history, hist, 'all request sequences x re-seeding before each')]


META = dict(rule='distinct (client kind, request kind, effective bits) and request histories',
            assumptions=['The operating system\'s entropy source is sound; it is what the recorded stream stands for.'])
