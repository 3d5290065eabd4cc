"""C09: token and login validity. Breadth-first search over logins (every flow and lifetime), refreshes and clock
advances; after every step the real answers are compared with a model that knows every token issued and its lifetime."""
from .. import zone
from ..core import BFS, Found, Part, product
from ..env import CLOCK
from ..world import *

NOUI = ('discovery', 'registration', 'authorization', 'access_token', 'refresh_access_token')
FLOWS = [('code', False), ('id_token token', False), ('id_token', False), ('code id_token', False),
         ('code id_token token', False), ('code id_token token', True), ('code token', False), ('code token', True)]

# lifetimes of a refreshed access token and of the ID Token that comes with it: each value with each kind of the other
REFRESHED = [(None, None), (0, None), (10, None), (100, None), (None, 10), (10, 10), (100, 10), (0, 200), (10, 200), (100, 200)]


class Sys:
    spoof = {}

    def __init__(self, idt=True):
        self.s = Setup(1, response_types=sorted({f for f, _ in FLOWS}), svcs=services(*NOUI))
        self.op = self.s.op
        self.op.issue_rt = True
        self.tokens = {}        # token -> (received, lifetime, kind)
        self.idt_exp = None
        self.refreshed = None
        self.state = None
        self.last = None
        self.flow = None
        self.op.hook['claims'] = self.claims
        self.op.hook['token_response'] = self.token_response
        self.op.hook['authz_response'] = self.authz_response
        self.life = {}
        self.idt_issued = None

    def claims(self, c, where, grant):
        life = self.life['front_idt' if where == 'front' else 'idt']
        self.idt_issued = c['iat'] + life
        return dict(c, exp=c['iat'] + life)

    def authz_response(self, out, grant):
        out = dict(out)
        if 'access_token' in out:
            out.pop('expires_in', None)
            if self.life['front_at'] is not None:
                out['expires_in'] = str(self.life['front_at'])
            self.tokens[out['access_token']] = (int(CLOCK.now), self.life['front_at'], 'front')
            out.update({k: str(v) for k, v in self.spoof.items()})
        return out

    def token_response(self, resp, g, form):
        resp = dict(resp)
        resp.pop('expires_in', None)
        if self.life['at'] is not None:
            resp['expires_in'] = self.life['at']
        resp.update(self.spoof)
        kind = 'refresh' if form['grant_type'] == 'refresh_token' else 'token'
        self.tokens[resp['access_token']] = (int(CLOCK.now), self.life['at'] and int(self.life['at'])
                                             if self.life['at'] is not None else None, kind)
        if kind == 'refresh':
            self.refreshed = resp['access_token']
        return resp

    def enabled(self):
        if self.state is None:
            return []
        out = [('advance', 9), ('advance', 1), ('advance', 100)]
        if 'code' in self.flow[0] and (self.flow[0] not in ('code id_token token', 'code token') or self.flow[1]):
            out += [('refresh', a, i) for a, i in REFRESHED]
        return out

    def step(self, op):
        h = self.s.h
        if op[0] == 'login':
            _, flow, collect, front_at, at, front_idt, idt = op
            self.flow = (flow, collect)
            self.life = dict(front_at=front_at, at=at, front_idt=front_idt, idt=idt)
            b = h.begin(self.op.issuer, req_args={'response_type': flow})
            r = self.op.authorize(b['url'], 'alice')
            h.finalize(self.op.issuer, r, {'collect_tokens': True} if collect else None)
            self.state = b['state']
            self.idt_exp = self.idt_issued
        elif op[0] == 'advance':
            CLOCK.advance(op[1])
        else:
            self.life.update(at=op[1], idt=op[2])
            self.op.refresh_idt = op[2] is not None
            h.refresh_access_token(self.state)
            self.idt_exp = self.idt_issued
        self.judge()

    def judge(self):
        from oidcrp.exception import OidcServiceError
        h, now = self.s.h, int(CLOCK.now)
        exp = {t: (None if l is None else r + l) for t, (r, l, _) in self.tokens.items()}
        valid = [t for t, e in exp.items() if e is None or now < e]
        ok, got = attempt(h.get_valid_access_token, self.state)
        if not ok:
            if not isinstance(got, OidcServiceError):
                raise Found('wrong-exception', repr(got))
            # a token a refresh has replaced need not be remembered
            keep = [t for t in valid if t == self.refreshed or not self.refreshed]
            if keep:
                raise Found('valid-token-not-found', '%r of %r at %d' % (valid, exp, now))
        else:
            tok, e = got
            if tok not in exp:
                raise Found('not-issued', tok)
            if tok not in valid:
                raise Found('expired-token', '%r of %r at %d' % (tok, exp, now))
            if (e or None) != exp[tok]:
                raise Found('wrong-expiry', '%r, should be %r' % (e, exp[tok]))
            if self.refreshed in valid and tok != self.refreshed:
                raise Found('replaced-token-used', '%r instead of %r' % (tok, self.refreshed))
        ok2, act = attempt(h.has_active_authentication, self.state)
        want = self.idt_exp is not None and now < self.idt_exp
        if not ok2 or bool(act) != want:
            raise Found('authentication', '%r instead of %r' % (act, want))
        self.last = (ok, want)

    def canon(self):
        now = int(CLOCK.now)
        rel = sorted((k, None if l is None else max(r + l - now, -1), t == self.refreshed)
                     for t, (r, l, k) in self.tokens.items() if k != 'refresh' or t == self.refreshed)
        return (self.flow, rel, None if self.idt_exp is None else max(self.idt_exp - now, -1))


class Marked(Sys):
    """the OP adds members with the names the library itself uses for what it remembers"""
    spoof = {'__expires_at': 4000000000, '__verified_id_token': 'x', 'expires_at': 4000000000}


class MarkedPast(Sys):
    spoof = {'__expires_at': 1, 'expires_at': 1}


def roots(quick):
    out = []
    for flow, collect in FLOWS:
        front = 'token' in flow.split(' ')
        back = flow in ('code', 'code id_token') or collect
        fi = 'id_token' in flow
        for fa in ((None, 0, 10, 100) if front else (None,)):
            for at in ((None, 10, 100) + (() if quick else ('10', 0)) if back else (None,)):
                for f_idt in ((10, 200) if fi else (10,)):
                    for idt in ((10, 200) if back else (10,)):
                        out.append((('login', flow, collect, fa, at, f_idt, idt),))
    return out


def parts(tier):
    return [zone.part(tier), BFS('validity', Sys, 3 if tier == 'quick' else 5, 'login kinds x {refresh, advance}', roots=roots(tier == 'quick'))] + [
        BFS('chain', Sys, 4 if tier == 'quick' else 7, 'longer histories of one login',
            roots=[(('login', 'code', False, None, at, 10, 10),) for at in (None, '10', 0, 100)])] + [
        BFS('marked' + n, c, 2 if tier == 'quick' else 4, 'responses with members called as the library calls its own',
            roots=[r for r in roots(True) if (r[0][3] or r[0][4]) and 0 not in r[0][3:5] and 10 == r[0][5]])
        for n, c in (('', Marked), ('-past', MarkedPast))]


META = dict(rule='distinct (flow, remaining lifetimes of the tokens and of the login)')
