"""C04: every interleaving of the steps of two (three) sessions on the real handler; each session's trace is compared
with the trace of the same steps run alone, and every request is attributed to the session it was made for."""
import itertools
import json

from .. import jose
from .. import many, similar
from ..core import Part, interleavings
from ..world import *

COARSE = ['begin', 'finalize', 'refresh', 'userinfo', 'logout', 'clear']
FINE = ['begin', 'auth', 'tokens', 'info', 'valid']
SHORT = ['begin', 'finalize', 'read']
DIRECT = ['s-begin', 's-auth', 's-tokens', 's-info', 's-refresh', 's-logout']
METHODS = ['client_secret_basic', 'client_secret_post', 'client_secret_jwt', 'private_key_jwt']


class One:
    def __init__(self, s, name, op, flow, user, explicit):
        self.s, self.name, self.op, self.flow, self.user, self.explicit = s, name, op, flow, user, explicit
        self.state = self.url = None
        self.treated = False
        self.trace = []
        self.done = []

    def do(self, what):
        h, op = self.s.h, self.op
        self.done.append(what)
        kw = {'client': h.issuer2rp[op.issuer]} if self.explicit and what != 'begin' else {}
        if what == 'begin':
            r = h.begin(op.issuer, req_args={'response_type': self.flow})
            self.url, self.state = r['url'], r['state']
            return query(r['url'])
        if what == 'finalize':
            self.resp = op.authorize(self.url, self.user, sid='sid-' + self.name)
            return h.finalize(op.issuer, self.resp)
        if what == 'auth':
            self.resp = op.authorize(self.url, self.user, sid='sid-' + self.name)
            return h.finalize_auth(h.issuer2rp[op.issuer], op.issuer, self.resp)
        if what == 'tokens':
            return h.get_access_and_id_token(state=self.state, **kw)
        if what in ('userinfo', 'info'):
            return h.get_user_info(self.state, access_token=h.get_valid_access_token(self.state)[0], **kw)
        if what == 'refresh':
            if 'code' not in self.flow or self.flow == 'code id_token token':
                return 'no refresh token'
            return h.refresh_access_token(self.state, **kw)
        if what.startswith('s-'):
            return self.service(what)
        if what == 'logout':
            u = h.logout(self.state, **kw)['url']
            q = query(u)
            st = h.issuer2rp[op.issuer].client_get('service_context').state
            return [u.split('?')[0], q, st.get_state_by_logout_state(q['state'])]
        if what in ('read', 'valid'):
            return [h.get_valid_access_token(self.state), h.has_active_authentication(self.state), h.state2issuer(self.state)]
        if what == 'clear':
            h.clear_session(self.state)
            return attempt(h.get_session_information, self.state)[0]

    def service(self, what):
        """The same by way of the client's services, which are left to find everything themselves."""
        client = self.s.h.client_setup(self.op.issuer)
        if what == 's-begin':
            self.state = client.client_get('service_context').state.create_state(self.op.issuer)
            self.url = client.get_service('authorization').get_request_parameters(state=self.state)['url']
            return query(self.url)
        if what == 's-auth':
            srv = client.get_service('authorization')
            resp = srv.parse_response(self.op.authorize(self.url, self.user, sid='sid-' + self.name), 'dict', state=self.state)
            srv.update_service_context(resp, key=self.state)
            return resp
        if what == 's-logout':
            r = client.get_service('end_session').get_request_parameters(state=self.state)
            k = client.get_service('check_session').construct(state=self.state)
            st = client.client_get('service_context').state
            return [query(r['url']), plain(k), st.get_state_by_logout_state(query(r['url'])['state'])]
        return client.do_request({'s-tokens': 'accesstoken', 's-info': 'userinfo', 's-refresh': 'refresh_token'}[what], state=self.state)

    def step(self, ctx, what):
        log = len(self.s.w.log)
        if self.treated:
            ok, res = attempt(self.do, what)
            res = plain(res) if ok else type(res).__name__
        else:
            res = plain(self.do(what))
        reqs = []
        for r in self.s.w.log[log:]:
            if r.endpoint not in ('token', 'userinfo'):
                continue
            ctx.check(r.op is self.op, 'request-to-other-op', '%s during %s of %s' % (r, what, self.name))
            owner = None
            if r.endpoint == 'token':
                g = r.op.codes.get(r.form.get('code')) or r.op.rts.get(r.form.get('refresh_token'))
                owner = g and g['state']
            else:
                t = r.op.tokens.get(r.headers.get('authorization', '')[7:])
                owner = t and t['state']
            ctx.check(owner == self.state, 'foreign-credential', '%s: %r sent for %s' % (r, r.form, self.name))
            for other in [*r.op.tokens, *r.op.rts, *r.op.codes]:
                g = r.op.tokens.get(other) or r.op.rts.get(other) or r.op.codes.get(other)
                if g['state'] != self.state:
                    ctx.check(not any(other in str(v) for v in [r.url, r.body, *r.headers.values()]), 'foreign-credential-somewhere',
                              '%s %r %r: %s' % (r, r.form, dict(r.headers), other))
            reqs.append((r.endpoint, r.method, r.url, sorted(r.form.items()),
                         {k: r.headers.get(k) for k in ('authorization', 'dpop', 'cookie')}))
        info = attempt(self.s.h.get_session_information, self.state)
        info = plain(info[1]) if info[0] else 'none'
        ctx.check(not self.op.rejects, 'op-rejected', self.op.rejects)
        self.trace.append((what, res, reqs, info))
        return info


def canon(x, names):
    """Replaces everything made up by the library or the OP by the order of its appearance."""
    if isinstance(x, dict):
        return {k: canon(x[k], names) for k in sorted(x)}
    if isinstance(x, (list, tuple)):
        return [canon(v, names) for v in x]
    if isinstance(x, str):
        if x.startswith('{'):
            try:
                return canon(json.loads(x), names)
            except ValueError:
                pass
        if x.count('.') == 2 and x.startswith('eyJ'):
            return canon(jose.decode(x)[1], names)
        if x.startswith('Bearer '):
            return 'Bearer ' + canon(x[7:], names)
        if any(x.startswith(p) for p in ('op1-', 'op2-', 'op3-')) or (len(x) in (24, 32, 64) and x.isalnum()) \
                or len(x) in (22, 43, 64):
            return 'n%d' % names.setdefault(x, len(names))
    return x


ALONE = {}
FLOW_OPS = {'RT': ['code', 'id_token token', 'code id_token', 'code id_token token']}


def setup(pkce, method='client_secret_basic', flow='code'):
    svcs = services(check_session={'class': 'oidcrp.oidc.check_session.CheckSession'})
    s = Setup(2, svcs=svcs, response_types=[flow] + [f for f in FLOW_OPS['RT'] if f != flow], pkce=pkce, scope=['openid', 'profile'], method=method,
              behaviour={'token_endpoint_auth_signing_alg': 'HS256' if method == 'client_secret_jwt' else 'RS256'},
              op_kw={'caps': {'backchannel_logout_session_supported': True}})
    for op in s.ops:
        op.issue_rt = True
        op.refresh_idt = True
    return s


def sessions(s, spec, explicit):
    return [One(s, 'ABC'[i], s.ops[o], flow, user, explicit) for i, (flow, o, user) in enumerate(spec)]


# what a provider does for some of its users only
TREAT = {'all': {}, 'no-refresh-token': {'token': lambda r, gt: {k: v for k, v in r.items() if k != 'refresh_token'}},
         'refresh-token-once': {'token': lambda r, gt: {k: v for k, v in r.items() if k != 'refresh_token' or gt != 'refresh_token'}},
         'no-expiry': {'token': lambda r, gt: {k: v for k, v in r.items() if k != 'expires_in'}},
         'scope': {'token': lambda r, gt: dict(r, scope='openid x')},
         'denied': {'authz': lambda r: {'state': r['state'], 'error': 'access_denied'}},
         'no-tokens': {'token': lambda r, gt: jresp({'error': 'invalid_grant'}, 400)},
         'no-renewal': {'token': lambda r, gt: jresp({'error': 'invalid_grant'}, 400) if gt == 'refresh_token' else r},
         'no-claims': {'info': lambda r: jresp({'error': 'invalid_token'}, 401)},
         'other-claims': {'info': lambda r: dict(r, groups=[r['sub']], address={'country': r['sub']})}}


def treat(s, by):
    for op in s.ops:
        pick = lambda g, k: TREAT[by.get(g['sub'], 'all')].get(k)
        op.hook['token_response'] = lambda r, g, form, pick=pick: (pick(g, 'token') or (lambda r, gt: r))(r, form['grant_type'])
        op.hook['authz_response'] = lambda r, g, pick=pick: (pick(g, 'authz') or (lambda r: r))(r)
        op.hook['userinfo'] = lambda c, t, pick=pick: (pick(t, 'info') or (lambda r: r))(c)


def alone(spec, i, steps, pkce, explicit, *more, by=None):
    key = (spec[i], i, tuple(steps), pkce, explicit, more, by and by.get(spec[i][2]))
    if key not in ALONE:
        from ..core import Ctx
        s = setup(pkce, *more)
        one = sessions(s, spec, explicit)[i]
        if by:
            treat(s, by)
            one.treated = True
        for w in steps:
            one.step(Ctx(), w)
        ALONE[key] = canon([t for t in one.trace], {})
    return ALONE[key]


def case_uneven(ctx, case):
    spec, steps, order, ways = case
    run(ctx, (spec, steps, False, False, order), {x[2]: t for x, t in zip(spec, ways)})
    ctx.state((order, ways))


def run(ctx, case, by=None):
    spec, steps, pkce, explicit, order, *more = case
    want = [alone(spec, i, steps, pkce, explicit, *more, by=by) for i in range(len(spec))]
    s = setup(pkce, *more)
    ss = sessions(s, spec, explicit)
    if by:
        treat(s, by)
        for x in ss:
            x.treated = True
    pos = [0] * len(ss)
    infos = {}
    for who in order:
        x = ss[who]
        infos[who] = x.step(ctx, steps[pos[who]])
        pos[who] += 1
        ctx.step()
        for other, rec in infos.items():
            if other != who:
                now = attempt(s.h.get_session_information, ss[other].state)
                ctx.check((plain(now[1]) if now[0] else 'none') == rec, 'other-session-changed',
                          '%s by %s of %s' % (ss[other].name, steps[pos[who] - 1], x.name))
    for i, x in enumerate(ss):
        got = canon(x.trace, {})
        if got != want[i]:
            for g, w in zip(got, want[i]):
                if g != w:
                    ctx.fail('differs-from-alone:%s' % g[0], 'session %s\n got  %s\n want %s' % (x.name, g, w))
                    break
    st = {x.state for x in ss}
    ctx.check(len(st) == len(ss), 'same-state', st)
    ctx.state((spec, pos, order))
    ctx.outcome(sum(len(t[2]) for x in ss for t in x.trace))


def specs(tier):
    two = [(('code', 0, 'alice'), ('code', 0, 'bob')),
           (('code', 0, 'alice'), ('code', 1, 'bob')),
           (('code', 0, 'alice'), ('code id_token token', 0, 'bob')),
           (('code id_token', 0, 'alice'), ('id_token token', 0, 'bob'))]
    if tier != 'quick':
        two += [(('code', 0, 'alice'), ('code', 0, 'alice')),
                (('id_token token', 0, 'alice'), ('id_token token', 0, 'bob')),
                (('code', 1, 'alice'), ('id_token token', 0, 'bob')),
                (('code id_token', 0, 'alice'), ('code id_token', 0, 'bob')),
                (('code id_token token', 0, 'alice'), ('code id_token token', 1, 'alice'))]
    return two


def parts(tier):
    i2c, i2f = interleavings([len(COARSE)] * 2), interleavings([len(FINE)] * 2)
    i3 = interleavings([len(SHORT)] * 3)
    fine_flows = [p for p in specs(tier)]
    coarse = [(sp, tuple(COARSE), True, False, o) for sp in specs(tier) for o in i2c]
    fine = [(sp, tuple(FINE), pk, True, o) for sp in fine_flows for pk in ((False,) if tier == 'quick' else (False, True))
            for o in i2f]
    three = [(('code', 0, 'alice'), ('code', 0, 'bob'), ('code', 1, 'carol')),
             (('code', 0, 'alice'), ('id_token token', 0, 'alice'), ('code id_token', 0, 'bob'))]
    if tier == 'quick':
        three = three[1:]
    tri = [(sp, tuple(SHORT), False, False, o) for sp in three for o in i3]
    i2d, i2m = interleavings([len(DIRECT)] * 2), interleavings([len(DIRECT) - 2] * 2)
    direct = [(sp, tuple(DIRECT), True, False, o, 'client_secret_basic', sp[0][0])
              for sp in (specs(tier)[:1] if tier == 'quick' else [x for x in specs(tier) if x[0][0] == x[1][0] and 'code' in x[0][0]]) for o in i2d]
    methods = [(sp, steps, True, False, o, m, 'code') for sp in specs(tier)[:2] for m in METHODS
               for steps in (tuple(DIRECT[:4]), ('begin', 'finalize', 'refresh', 'userinfo')) for o in i2m]
    i2u = interleavings([4] * 2)
    uneven = [(sp, steps, o, t) for sp in (specs('quick')[:1] if tier == 'quick' else specs('quick')[:2]) for steps in (('begin', 'finalize', 'refresh', 'userinfo'), ('s-begin', 's-auth', 's-tokens', 's-refresh'))
              for o in i2u for t in itertools.combinations_with_replacement(TREAT, 2)]
    if tier != 'quick':
        uneven += [(sp, ('begin', 'finalize', 'refresh', 'read', 'refresh'), o, t) for sp in specs('quick')[:1] for o in interleavings([5] * 2) for t in itertools.combinations(TREAT, 2)]
    big = [(n, o, f, n < 10, 1) for n in many.sizes(tier) for o in many.ORDERS for f in ('code', 'code id_token')]
    return [similar.part2(tier, ('sub', 'sid', 'nonce')), Part('many', many.population, big, 'sessions open at once x order of their responses', '%d sessions' % many.sizes(tier)[-1]),
            Part('uneven', case_uneven, uneven, 'all interleavings of 2 x 4 steps with a provider that treats the users differently (%s)' % ', '.join(TREAT), '2 sessions x 4 steps'),
            Part('direct', run, direct, 'all interleavings of 2 x %r' % (DIRECT,), '2 sessions x 6 steps'),
            Part('methods', run, methods, 'all interleavings of 2 x 4 steps (handler or services), with every client authentication method', '2 sessions x 4 steps'),
            Part('coarse', run, coarse, 'all interleavings of 2 x %r' % (COARSE,), '2 sessions x 6 steps'),
            Part('fine', run, fine, 'all interleavings of 2 x %r' % (FINE,), '2 sessions x 5 steps'),
            Part('three', run, tri, 'all interleavings of 3 x %r' % (SHORT,), '3 sessions x 3 steps')]


META = dict(rule='one run per interleaving; each session trace (results, requests, stored records) is compared with the '
                 'same steps run alone',
            assumptions=['steps of different sessions are atomic here; preemption inside a step is C25'])
