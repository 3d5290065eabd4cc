"""C08: RP-initiated logout. Breadth-first search over login, refresh, logout, clear histories of two sessions for every
source of the post-logout URI; every logout request made is parsed and compared with the model."""
from .. import large, many
from ..core import BFS, Found, Part, product
from ..world import *

GIVEN = BASE + '/goodbye?x=1'
GIVENS = [GIVEN, 'https://www.example.org/bye', 'com.example.app:/out']


class Sys:
    def __init__(self, conf, flows, same_op, keep):
        kw = {}
        self.want_uri = None
        caps = {'backchannel_logout_session_supported': True}
        if conf == 'list':
            kw['post_logout_redirect_uris'] = [BASE + '/out1', BASE + '/out2']
            self.want_uri = BASE + '/out1'
        elif conf == 'string':
            kw['post_logout_redirect_uris'] = BASE + '/out'
            self.want_uri = BASE + '/out'
        if conf == 'dynamic':
            caps.update(backchannel_logout_supported=True)
            self.s = Setup(2, conf=lambda op: dynamic_conf(response_types=sorted(set(flows)), issuer=op.issuer,
                                                           backchannel_logout_usable=True), op_kw={'caps': caps})
        else:
            self.s = Setup(2, response_types=list(flows), op_kw={'caps': caps}, **kw)
        self.conf, self.flows, self.keep = conf, flows, keep
        self.ses = {'A': dict(op=self.s.ops[0], flow=flows[0], stage='none', idt=None, n=0, logs=[]),
                    'B': dict(op=self.s.ops[0 if same_op else 1], flow=flows[1], stage='none', idt=None, n=0, logs=[])}
        self.all_states = set()
        self.idts = {}
        for op in self.s.ops:
            op.issue_rt = True
            op.hook['sign'] = self.signer(op)
        self.last = None

    def signer(self, op):
        def sign(c, where, grant):
            t = op.sign(c, 'RS256', None)
            self.idts[grant['state']] = t
            return t
        return sign

    def enabled(self):
        out = []
        for x, d in self.ses.items():
            if d['stage'] == 'none':
                out.append(('begin', x))
            if d['stage'] == 'begun':
                out.append(('login', x))
            if d['stage'] == 'in' and 'token' not in d['flow'].split(' ') and d['flow'] != 'id_token':
                out += [('refresh', x), ('refresh_idt', x)]
            if d['stage'] in ('begun', 'in'):
                if len(d['logs']) < 3:
                    out += [('logout', x), ('logout_uri', x), ('close', x)]
                out.append(('clear', x))
        return out

    def step(self, op):
        what, x = op
        d, h = self.ses[x], self.s.h
        o = d['op']
        if what == 'begin':
            b = h.begin(o.issuer, req_args={'response_type': d['flow']})
            d.update(stage='begun', url=b['url'], state=b['state'])
        elif what == 'login':
            h.finalize(o.issuer, o.authorize(d['url'], 'user-' + x, sid='sid-' + x))
            d.update(stage='in', idt=self.idts.get(d['state']))
        elif what.startswith('refresh'):
            o.refresh_idt = what == 'refresh_idt'
            h.refresh_access_token(d['state'])
            d['idt'] = self.idts.get(d['state'])
        elif what == 'clear':
            h.clear_session(d['state'])
            d['stage'] = 'cleared'
        else:
            self.logout(what, d)
        self.lookups()
        self.last = (what, d['stage'])

    def given(self, d):
        return GIVENS[list(self.ses.values()).index(d) % 3]

    def logout(self, what, d):
        h, o = self.s.h, d['op']
        log = len(self.s.w.log)
        if what == 'logout':
            r = h.logout(d['state'])
        elif what == 'logout_uri':
            r = h.logout(d['state'], post_logout_redirect_uri=self.given(d))
        else:
            r = h.close(d['state'], issuer=o.issuer)
        if len(self.s.w.log) != log:
            raise Found('request-sent', self.s.w.log[log:])
        u, q = r['url'].split('?')[0], query(r['url'])
        if u != o.md['end_session_endpoint']:
            raise Found('wrong-endpoint', r['url'])
        if q.get('id_token_hint') != d['idt']:
            whose = [x for x, e in self.ses.items() if e['idt'] == q.get('id_token_hint')]
            raise Found('wrong-hint', 'hint of %r, %r' % (whose, q))
        want = self.want_uri
        if what == 'logout_uri':
            want = self.given(d)
        elif self.conf == 'dynamic':
            reg = o.last_registration.get('post_logout_redirect_uris') if getattr(o, 'last_registration', None) else None
            want = reg[0] if reg else None
            if want is None:
                raise Found('nothing-registered', o.last_registration)
        if q.get('post_logout_redirect_uri') != want:
            raise Found('wrong-uri', '%r instead of %r' % (q.get('post_logout_redirect_uri'), want))
        if set(q) - {'id_token_hint', 'post_logout_redirect_uri', 'state', 'client_id', 'logout_hint', 'ui_locales'}:
            raise Found('leaks', sorted(q))
        st = q.get('state')
        if not st or st in self.all_states or st in [e.get('state') for e in self.ses.values()]:
            raise Found('logout-state-not-fresh', st)
        self.all_states.add(st)
        d['logs'].append(st)

    def lookups(self):
        for x, d in self.ses.items():
            rp = self.s.h.issuer2rp.get(d['op'].issuer)
            if rp is None:
                continue
            si = rp.client_get('service_context').state
            for st in d['logs']:
                ok, got = attempt(si.get_state_by_logout_state, st)
                if d['stage'] == 'cleared':
                    if ok:
                        raise Found('cleared-still-found', st)
                elif not ok or got != d['state']:
                    raise Found('logout-state-lost', '%s %r' % (x, got))

    def canon(self):
        return (self.conf, self.flows, sorted((x, d['stage'], len(d['logs']) if self.keep else bool(d['logs']),
                                               d['idt'] is None, d['n']) for x, d in self.ses.items()))


def unsupported(ctx, case):
    """No end-session service, or a provider without the endpoint."""
    kind, stage = case
    if kind == 'service':
        s = Setup(1, svcs=services('discovery', 'registration', 'authorization', 'access_token', 'userinfo'))
    else:
        s = Setup(1, op_kw={'omit': ['end_session_endpoint']})
    b = s.begin()
    if stage == 'in':
        s.h.finalize(s.op.issuer, s.op.authorize(b['url'], 'alice'))
    for call in (lambda: s.h.logout(b['state']), lambda: s.h.close(b['state']),
                 lambda: s.h.close(b['state'], s.op.issuer, GIVEN)):
        ok, r = attempt(call)
        ctx.step()
        ctx.check(not ok, 'logout-without-support', r)
        from oidcrp.exception import OidcServiceError
        if kind == 'service':
            ctx.check(isinstance(r, OidcServiceError), 'unclear-refusal', repr(r))
        else:
            ctx.check(isinstance(r, (OidcServiceError, KeyError)), 'unclear-refusal', repr(r))
    # an unknown session
    for st in ('nope', ''):
        ctx.check(not attempt(s.h.logout, st)[0], 'unknown-session', st)
    ctx.state(case)
    ctx.outcome(type(r).__name__)


FLOWS = ['code', 'id_token token', 'code id_token', 'code id_token token', 'id_token']


def parts(tier):
    out = []
    depth = 6 if tier == 'quick' else 8
    for conf in ('none', 'list', 'string', 'dynamic'):
        pairs = [('code', 'code id_token')] if tier == 'quick' else [
            ('code', 'code id_token'), ('code', 'code'), ('id_token token', 'code'), ('code id_token token', 'id_token')]
        for fl in pairs:
            for same in ((True,) if tier == 'quick' and conf not in ('none', 'list') else (True, False)):
                def make(conf=conf, fl=fl, same=same):
                    return Sys(conf, fl, same, tier != 'quick')
                out.append(BFS('%s/%s/%s' % (conf, '+'.join(fl), 'one op' if same else 'two ops'), make, depth,
                               'operations of two sessions'))
    for f in FLOWS[1:]:
        out.append(BFS('flow/' + f, lambda f=f: Sys('none', (f, f), True, True), 5))
    out.append(Part('many', many.repeats, [('logout', n, '') for n in many.sizes(tier)[:9]], 'how often', 'up to %d times' % many.sizes(tier)[:9][-1]))
    out.append(Part('unsupported', unsupported, product(('service', 'endpoint'), ('begun', 'in')), 'no logout support'))
    return out + [large.part(tier, ('idt',))]


META = dict(rule='distinct (stage, hint, number of outstanding logout states) of two sessions')
