"""C06: clearing a session, at every point of its life, beside every kind of other session."""
import json

from .. import large, many, similar
from ..core import BFS, Found, Part, interleavings, product
from ..world import *

FLOWS = ['code', 'id_token token', 'code id_token token']
STEPS = ['begin', 'login', 'refresh', 'userinfo', 'logout', 'logout2']
FAIL = ['fail_error', 'fail_token']


class Sess:
    def __init__(self, s, name, op, flow, sub, sid=None):
        self.sid = sid or 'sid-' + name
        self.s, self.name, self.op, self.flow, self.sub = s, name, op, flow, sub
        self.secrets, self.log_states, self.state = set(), [], None
        self.bound = []
        self.done = []

    def step(self, what, last):
        h, op = self.s.h, self.op
        self.done.append(what)
        if what == 'begin':
            b = h.begin(op.issuer, req_args={'response_type': self.flow})
            self.url, self.state = b['url'], b['state']
            self.nonce = query(self.url)['nonce']
            self.secrets.add(self.nonce)
            last[('nonce', self.nonce)] = self
        elif what == 'login':
            self.resp = op.authorize(self.url, self.sub, sid=self.sid)
            self.secrets |= {v for k, v in self.resp.items() if k in ('code', 'access_token', 'id_token')}
            self.res = h.finalize(op.issuer, self.resp)
            self.secrets.add(self.res['token'])
            self.secrets |= {'at-mark-' + self.name}
            last[('sub', self.sub)] = self
            last[('sid', self.sid)] = self
        elif what == 'fail_error':
            u = op.authorize(self.url, self.sub, error='login_required')
            h.finalize(op.issuer, u)
        elif what == 'fail_token':
            self.resp = op.authorize(self.url, self.sub)
            self.secrets |= {v for k, v in self.resp.items() if k in ('code', 'access_token', 'id_token')}
            op.hook['token_response'] = lambda *a: Resp(500, 'oops', {'content-type': 'text/html'})
            op.hook['userinfo'] = lambda *a: Resp(500, 'oops', {'content-type': 'text/html'})
            attempt(h.finalize, op.issuer, self.resp)
            op.hook.clear()
            if 'id_token' in self.flow:
                pass
        elif what == 'refresh':
            if 'code' == self.flow:
                r = h.refresh_access_token(self.state)
                self.secrets.add(r['access_token'])
        elif what == 'userinfo':
            h.get_user_info(self.state, access_token=self.res['token'])
        elif what.startswith('logout'):
            q = query(h.logout(self.state)['url'])
            self.log_states.append(q['state'])
            self.secrets.add(q['state'])
            last[('logout', q['state'])] = self


GET = {'nonce': 'get_state_by_nonce', 'sub': 'get_state_by_sub', 'sid': 'get_state_by_sid',
       'logout': 'get_state_by_logout_state'}


def run(ctx, case):
    flow_a, steps_a, flow_b, steps_b, same_sub, same_op, order = case
    # one session at the provider, two here
    sid = 'sid-shared' if same_sub == 'sid' else None
    s = Setup(2, response_types=['code', 'id_token token', 'code id_token token'],
              op_kw={'caps': {'backchannel_logout_session_supported': True}})
    for op in s.ops:
        op.issue_rt = True
    a = Sess(s, 'A', s.ops[0], flow_a, 'alice', sid)
    b = Sess(s, 'B', s.ops[0 if same_op else 1], flow_b, 'alice' if same_sub else 'bob', sid)
    last = {}
    seqs = [list(steps_a), list(steps_b)]
    for who in order:
        (a, b)[who].step(seqs[who].pop(0), last if same_op or who == 0 else last.setdefault('_', {}))
        ctx.step()
    last.pop('_', None)
    st_a = s.context(a.op).state
    rec_b = plain(s.h.get_session_information(b.state)) if b.state else None
    s.h.clear_session(a.state)
    ctx.step()
    # nothing of A is left
    dump = json.dumps(snapshot(s.client(a.op)))
    for sec in a.secrets:
        ctx.check(sec not in dump, 'left-behind', '%s of the cleared session is still stored' % sec)
    ctx.check(a.state not in dump, 'state-left-behind', dump[:300])
    ok, r = attempt(s.h.get_session_information, a.state)
    ctx.check(not ok, 'session-readable', r)
    for (x, v), owner in last.items():
        if owner is a:
            ok, got = attempt(getattr(st_a, GET[x]), v)
            ctx.check(not ok or got != a.state, 'key-leads-to-cleared', '%s %s' % (x, v))
            ctx.check(ok or isinstance(got, KeyError), 'not-keyerror', repr(got))
    log = len(s.w.log)
    for fn in ('refresh_access_token', 'get_user_info', 'get_valid_access_token', 'has_active_authentication',
               'logout', 'get_tokens'):
        ok, r = attempt(getattr(s.h, fn), a.state)
        ctx.check(not ok, 'usable-after-clear:' + fn, r)
    resp = getattr(a, 'resp', None) or a.op.authorize(a.url, a.sub)
    ok, r = attempt(s.h.finalize, a.op.issuer, dict(resp))
    ctx.check(not ok, 'response-accepted-after-clear', r)
    ctx.check(len(s.w.log) == log, 'request-after-clear', s.w.log[log:])
    ctx.check(json.dumps(snapshot(s.client(a.op))) == dump, 'written-after-clear', '')
    # B is as it was
    if b.state:
        ok, r = attempt(s.h.get_session_information, b.state)
        ctx.check(ok and plain(r) == rec_b, 'other-session-changed', r)
        st_b = s.context(b.op).state
        later = 'login' not in b.done
        if same_op:
            for (x, v), owner in last.items():
                if owner is b:
                    ok, got = attempt(getattr(st_b, GET[x]), v)
                    ctx.check(ok and got == b.state, 'other-key-lost:' + x, '%s -> %r' % (v, got))
        elif 'login' in b.done:
            ctx.check(st_b.get_state_by_sub(b.sub) == b.state, 'other-sub-lost')
        for what in STEPS:
            if what not in b.done and not (set(b.done) & set(FAIL)):
                b.step(what, {})
        if not (set(b.done) & set(FAIL)):
            ctx.check(b.res['userinfo']['sub'] == b.sub, 'other-login-wrong', '')
            ctx.check(s.h.has_active_authentication(b.state), 'other-not-active', '')
            if not sid or later or not same_op or last.get(('sid', b.sid)) is b:
                ctx.check(attempt(st_b.get_state_by_sid, b.sid) == (True, b.state), 'other-sid', '')
            # the subject of two sessions leads to the one that bound it last
            if later or not same_op or last.get(('sub', b.sub)) is b:
                ctx.check(attempt(st_b.get_state_by_sub, b.sub) == (True, b.state), 'other-sub', '')
    # the cleared user can come back
    a2 = Sess(s, 'A2', a.op, flow_a, 'alice')
    for what in ('begin', 'login', 'logout'):
        a2.step(what, {})
    ctx.check(st_a.get_state_by_sub('alice') == a2.state, 'new-session-not-found')
    s.h.clear_session(a2.state)
    ctx.outcome(len(dump) > 200)
    ctx.state((case,))


class Store:
    """Sessions with any number of values bound to them, in the store itself."""
    KEYS = ['k1', 'k2']
    BIND = {'nonce': ('store_nonce2state', ['n1', 'n2']), 'sub': ('store_sub2state', ['u1', 'u2']), 'sid': ('store_sid2state', ['s1', 's2']),
            'logout': ('store_logout_state2state', ['l1', 'l2'])}

    def __init__(self, xs, vals=2):
        from oidcrp.state_interface import StateInterface
        self.si, self.xs, self.n = StateInterface(), xs, vals
        self.live, self.bind = set(), {}

    def enabled(self):
        return [(o, k) for k in self.KEYS for o in ('create', 'remove') if (o == 'remove') == (k in self.live)] + [
            ('bind', k, x, v) for k in sorted(self.live) for x in self.xs for v in self.BIND[x][1][:self.n]]

    def step(self, op):
        si = self.si
        if op[0] == 'create':
            si.create_state('https://op.example.org', op[1])
            si.store_item({'access_token': 'at-' + op[1]}, 'token_response', op[1])
            self.live.add(op[1])
        elif op[0] == 'bind':
            getattr(si, self.BIND[op[2]][0])(op[3], op[1])
            self.bind[op[2:]] = op[1]
        else:
            si.remove_state(op[1])
            self.live.discard(op[1])
            self.bind = {b: k for b, k in self.bind.items() if k != op[1]}
        for x in self.xs:
            for v in self.BIND[x][1]:
                ok, got = attempt(getattr(si, GET[x]), v)
                want = self.bind.get((x, v))
                if (got if ok else None) != want or not (ok or isinstance(got, KeyError)):
                    raise Found('leads-elsewhere:' + x, '%s leads to %r instead of %r' % (v, got, want))
        for k in self.KEYS:
            ok, got = attempt(si.get_item, dict, 'token_response', k)
            if ok != (k in self.live) or (ok and got.get('access_token') != 'at-' + k):
                raise Found('session', '%s %r' % (k, got))
        left = json.dumps(si.dump())
        for k in self.KEYS:
            if k not in self.live and k in left:
                raise Found('left-behind', left)

    def canon(self):
        return sorted(self.live), sorted(self.bind.items()), json.dumps(self.si.dump(), sort_keys=True)


def space(flows, prefs_a, prefs_b, all_orders):
    out = []
    for fa, fb in product(flows, flows):
        for pa in prefs_a:
            for pb in prefs_b:
                for same_sub, same_op in product((True, False), (True, False)) + [('sid', True)]:
                    orders = interleavings([len(pa), len(pb)])
                    if not all_orders:
                        orders = sorted({orders[0], orders[-1], orders[len(orders) // 2]})
                    for o in orders:
                        out.append((fa, tuple(pa), fb, tuple(pb), same_sub, same_op, o))
    return out


def bfs(a, b):
    return [similar.part6('quick'), large.part('quick' if a < 9 else '', ('sub', 'sid')), Part('many', many.repeats, [(w, n, '') for w in ('logout', 'relogin') for n in many.sizes('quick' if a < 9 else '')[:9]], 'how often', 'up to %d times' % many.sizes('quick' if a < 9 else '')[:9][-1]),
            BFS('store', lambda: Store(['sub', 'sid']), b, 'bindings of two kinds'), BFS('store-one', lambda: Store(['logout']), a, 'bindings of one kind'),
            BFS('store-all', lambda: Store(['nonce', 'sub', 'sid', 'logout'], 1), b, 'one value of each kind')]


def parts(tier):
    pre = [STEPS[:n] for n in range(1, len(STEPS) + 1)]
    fail = [['begin', f] for f in FAIL]
    if tier == 'quick':
        return [Part('alone-and-beside', run, space(FLOWS, pre + fail, [[], STEPS[:1], STEPS[:2], STEPS[:5]], False),
                     'every prefix of a life x other sessions'),
                Part('interleaved', run, space(['code'], [STEPS[:2], STEPS[:4]], [STEPS[:2], STEPS[:5]], True),
                     'all interleavings')] + bfs(7, 5)
    return [Part('alone-and-beside', run, space(FLOWS, pre + fail, [[]] + pre + fail, False), 'every prefix x prefix'),
            Part('interleaved', run, space(['code', 'code id_token token'], pre, [STEPS[:2], STEPS[:5]], True),
                 'all interleavings')] + bfs(9, 6)


META = dict(rule='one cleared session per (flow, life so far, other flow, its life so far, same subject, same OP, '
                 'interleaving)')
