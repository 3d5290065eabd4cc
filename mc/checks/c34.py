"""C34: what a request carries for a session. Breadth-first over histories of two sessions at one OP (logins of every flow,
refreshes with and without new access, refresh and ID tokens, clearing), for every configured way to present the access token
(header or body, GET or POST); after every history each session's user info request, session check, check-ID request and
logout hint is made and compared with a model of that session's newest tokens, byte for byte, by an OP that reads headers,
query and body."""
from .. import form, large, many
from ..core import BFS, Found, Part
from ..world import *

FLOWS = ['code', 'code id_token', 'id_token token', 'code token', 'code id_token token']
LOGINS = [(f, False) for f in FLOWS] + [('code token', True), ('code id_token token', True)]
WAYS = [('GET', 'bearer_header'), ('POST', 'bearer_header'), ('POST', 'bearer_body'), (None, None)]
USERS = ('alice', 'bob')


class Sys:
    def __init__(self, way, same=False):
        method, how = way
        self.how = how or 'bearer_header'
        self.method = method or 'GET'
        svc = services('discovery', 'registration', 'authorization', 'access_token', 'refresh_access_token', 'userinfo', 'end_session',
                       check_session={'class': 'oidcrp.oidc.check_session.CheckSession'},
                       check_id={'class': 'oidcrp.oidc.check_id.CheckID'})
        if how:
            svc['userinfo']['kwargs'] = {'conf': {'http_method': method, 'default_authn_method': how}}
        self.s = Setup(1, response_types=FLOWS, svcs=svc)
        self.op, self.h = self.s.op, self.s.h
        self.op.issue_rt = True
        self.users = ('alice', 'alice') if same else USERS
        self.op.hook['sign'] = self.sign
        self.seen = []
        self.op.do_userinfo = self.userinfo
        self.ses = [None, None]
        self.idt = None
        self.n = 0
        for n in ('check_session', 'check_id'):
            self.s.h.client_setup(self.op.issuer)
            self.s.client().client_get('service', n).endpoint = self.op.issuer + '/' + n

    # ------------------------------------------------------------------ the OP
    def sign(self, claims, where, grant):
        self.n += 1
        self.idt = jose.sign(dict(claims, n=self.n), 'RS256', owner='op1')
        return self.idt

    def userinfo(self, req):
        places = []
        a = req.headers.get('authorization')
        if a is not None:
            places.append(('bearer_header', a[7:] if a.startswith('Bearer ') else 'not a bearer token: ' + a))
        if 'access_token' in req.form:
            places.append(('bearer_body' if req.headers.get('content-type', '').startswith('application/x-www-form-urlencoded')
                           else 'odd body', req.form['access_token']))
        if 'access_token' in req.args:
            places.append(('query', req.args['access_token']))
        self.seen.append((req.method, places, sorted(set(req.form) | set(req.args))))
        t = self.op.tokens.get(places[0][1]) if places else None
        if t is None:
            return jresp({'error': 'invalid_token'}, 401)
        return jresp(self.op.userinfo_claims(t))

    # --------------------------------------------------------------- operations
    def enabled(self):
        out = []
        for i in (0, 1):
            s = self.ses[i]
            if s is None:
                out += [('login', i, f, c) for f, c in LOGINS]
            else:
                if s['rt']:
                    out += [('refresh', i, rot, idt) for rot in (False, True) for idt in (False, True)]
                out.append(('clear', i))
        return out

    def step(self, op):
        i = op[1]
        if op[0] == 'login':
            known = set(self.op.rts)
            self.idt = None
            b = self.h.begin(self.op.issuer, req_args={'response_type': op[2]})
            resp = self.op.authorize(b['url'], self.users[i])
            self.h.finalize(self.op.issuer, resp, {'collect_tokens': True} if op[3] else None)
            new = set(self.op.rts) - known
            self.ses[i] = {'state': b['state'], 'rt': new.pop() if new else None, 'at': self.newest(), 'idt': self.idt}
        elif op[0] == 'refresh':
            known = set(self.op.rts)
            self.op.rotate_rt, self.op.refresh_idt = op[2], op[3]
            self.h.refresh_access_token(self.ses[i]['state'])
            new = set(self.op.rts) - known
            if new:
                self.ses[i]['rt'] = new.pop()
            self.ses[i]['at'] = self.newest()
            if op[3]:
                self.ses[i]['idt'] = self.idt
        else:
            self.h.clear_session(self.ses[i]['state']) if hasattr(self.h, 'clear_session') else \
                self.s.client().client_get('service_context').state.remove_state(self.ses[i]['state'])
            self.ses[i] = None

    def newest(self):
        return list(self.op.tokens)[-1]

    # -------------------------------------------------------------- observation
    def canon(self):
        for i in (0, 1, 0):
            s = self.ses[i]
            if s:
                self.observe(i, s)
        # a session that is not there has no tokens to offer
        for name in ('check_session', 'check_id'):
            srv = self.s.client().client_get('service', name)
            ok, req = attempt(srv.construct, {}, state='no-such-session')
            if ok and req.to_dict():
                raise Found('token-for-no-session', '%s %r' % (name, plain(req)))
        n = len(self.seen)
        ok, res = attempt(self.h.get_user_info, 'no-such-session')
        if ok or len(self.seen) != n:
            raise Found('userinfo-for-no-session', repr(res))
        return [None if s is None else (bool(s['rt']),) for s in self.ses], self.shape()

    def shape(self):
        d = snapshot(self.s.client())
        out = []
        for s in self.ses:
            if s:
                st = json.loads(d['_db'][s['state']]) if '_db' in d else {}
                out.append(sorted((k, sorted(json.loads(v)) if isinstance(v, str) and v.startswith('{') else '') for k, v in st.items()))
        return out

    def observe(self, i, s):
        cl = self.s.client()
        n = len(self.seen)
        ok, res = attempt(self.h.get_user_info, s['state'])
        if not ok:
            raise Found('userinfo-refused', '%r %r' % (res, self.seen[n:]))
        if res.get('sub') != self.users[i]:
            raise Found('userinfo-of-another', repr(plain(res)))
        if self.seen[n:] != [(self.method, [(self.how, s['at'])], [] if self.how == 'bearer_header' else ['access_token'])]:
            raise Found('userinfo-request', '%r instead of %r in %s of %s' % (self.seen[n:], s['at'], self.how, self.method))
        want = {'id_token': s['idt']} if s['idt'] else {}
        srv = cl.client_get('service', 'check_session')
        for body in ('urlencoded', 'json'):
            info = srv.get_request_parameters(state=s['state'], request_body_type=body)
            q = query(info['url'])
            if q != want or info.get('body'):
                raise Found('check-session', '%r instead of %r' % (q, s['idt']))
        req = cl.client_get('service', 'check_id').construct({}, state=s['state'])
        if req.to_dict() != want:
            raise Found('check-id', '%r instead of %r' % (req.to_dict(), s['idt']))
        out = self.h.logout(s['state'])
        q = query(out['url'])
        if q.get('id_token_hint') != s['idt']:
            raise Found('logout-hint', '%r instead of %r' % (q, s['idt']))


def parts(tier):
    q = tier == 'quick'
    out = []
    for w in WAYS:
        for same in (False, True) if w == WAYS[3] or not q else (False,):
            out.append(BFS('%s-%s%s' % (w[0], w[1], '-same-user' if same else ''), lambda w=w, same=same: Sys(w, same), 3 if q else 5,
                           rule='logins x refreshes x clearing, two sessions'))
    out.append(Part('many', many.repeats, [('userinfo', n, '') for n in many.sizes(tier)[:9]], 'how often', 'up to %d times' % many.sizes(tier)[:9][-1]))
    return out + [form.part2(tier), large.part(tier, ('at', 'idt'))]


META = dict(rule='distinct histories per way to present tokens')
