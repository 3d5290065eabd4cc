"""C25: threads. Pairs (and triples) of operations of different users run as real threads under a controlled scheduler; every schedule with up to
the bound of preemptions, at every line of oidcrp (every bytecode in the thorough tier), is executed, and what the threads got, what the OPs saw and
what a sequential epilogue finds in the handler must be what some one-after-the-other order gives."""
import itertools

from .. import sched
from ..core import Part
from ..env import CLOCK
from ..world import *

DPOP = {'dpop': {'function': 'oidcrp.oauth2.add_on.dpop.add_support', 'kwargs': {'signing_algorithms': ['ES256']}}}


class Site:
    """A handler, two OPs and what the scenario needs before its threads start."""

    def __init__(self, scenario):
        kind, conf, acts = SCENARIOS[scenario]
        self.w = World()
        self.acts = acts
        conf = dict(conf)
        caps = {'dpop_signing_alg_values_supported': ['ES256'], 'request_parameter_supported': True}
        self.op = {1: SimOP(self.w, ISS[1], 'op1', caps=caps, alg='ES256'), 2: SimOP(self.w, ISS[2], 'op2', caps=caps, alg='ES256')}
        for op in self.op.values():
            op.issue_rt = True
            op.unwrap_request = lambda q: dict({k: ' '.join(v) if isinstance(v, list) else v for k, v in jose.decode(q['request'])[1].items()}, **q) if 'request' in q else q
            op.refresh_idt = conf.get('refresh_idt', False)
            if 'method' in conf:
                op.md['token_endpoint_auth_methods_supported'] = [conf['method']]
        rt = conf.pop('rt', 'code')
        add = {}
        if conf.get('pkce'):
            add.update(copy.deepcopy(PKCE))
        if conf.get('dpop'):
            add.update(copy.deepcopy(DPOP))
        extra = {'add_ons': add} if add else {}
        if conf.get('pref'):
            extra['prefs'] = conf['pref']
        if kind == 'default':
            c = {'': dynamic_conf(response_types=(rt,), **extra)}
            c['']['client_preferences']['id_token_signed_response_alg'] = 'ES256'
        elif kind == 'named':
            c = {'alpha': dynamic_conf(response_types=(rt,), issuer=ISS[1], **extra), 'beta': dynamic_conf(response_types=(rt,), issuer=ISS[2], **extra)}
            for x in c.values():
                x['client_preferences']['id_token_signed_response_alg'] = 'ES256'
        else:
            c = {op.issuer: static_conf(op, response_types=(rt,), alg='ES256', method=conf.get('method', 'client_secret_basic'),
                                        behaviour={'id_token_signed_response_alg': 'ES256'}, **extra) for op in self.op.values()}
        self.h = handler(c, services(web_finger={'class': 'oidcrp.oidc.webfinger.WebFinger'}))
        self.w.static['https://users.example.com/.well-known/webfinger'] = lambda req: jresp({'subject': req.args['resource'], 'links': [
            {'rel': 'http://openid.net/specs/connect/1.0/issuer', 'href': ISS[int(req.args['resource'][8])]}]})
        self.b, self.resp, self.out = {}, {}, {}
        self.user = {}
        # sessions are brought to where the operations start, without others looking
        for i, (act, o, *rest) in enumerate(acts):
            self.user[i] = rest[0] if rest else 'user%d' % i
            if act in ('finalize', 'refresh', 'userinfo', 'logout', 'clear', 'token', 'valid', 'bclogout', 'session'):
                self.do_begin(i, o)
            if act == 'lookup':
                self.do_begin('x', o)
            if act == 'finalize':
                self.authorize(i)
            if act in ('refresh', 'userinfo', 'logout', 'clear', 'token', 'valid', 'bclogout', 'session'):
                self.authorize(i)
                self.do_finalize(i, o)
            if act == 'refresh+':
                self.b[i] = self.b[0]
            if act in ('same-userinfo', 'same-valid', 'same-session', 'same-bc'):
                self.b[i], self.user[i] = self.b[0], self.user[0]
            if act == 'bclogout':
                self.out[i] = self.op[o].logout_token(self.client(o).client_get('service_context').client_id, sub=self.user[i], sid='sid%d' % i)
        self.bodies = [lambda i=i, a=a: self.summary(getattr(self, 'do_' + a[0].replace('-', '_').replace('+', '_plus'))(i, a[1])) for i, a in enumerate(acts)]
        self.seen = len(self.w.log)

    def client(self, o):
        return self.h.issuer2rp[self.op[o].issuer]

    def authorize(self, i):
        o = self.acts[i][1]
        self.resp[i] = self.op[o].authorize(self.b[i]['url'], self.user[i], sid='sid%d' % i)

    # ---------------------------------------------------------- operations

    def name(self, i, o):
        return {'alpha': ['', 'alpha', 'beta'][o]}.get(next(iter(self.h.client_configs)), self.op[o].issuer)

    def do_begin(self, i, o):
        self.b[i] = self.h.begin(self.name(i, o))
        q = query(self.b[i]['url'])
        return sorted(q), q['client_id'], len(q['state'])

    def do_begin_issuer(self, i, o):
        """By issuer where the others use the name in the configuration."""
        self.b[i] = self.h.begin(self.op[o].issuer)
        return sorted(query(self.b[i]['url']))

    def do_begin_slash(self, i, o):
        self.b[i] = self.h.begin(self.op[o].issuer + '/')
        return sorted(query(self.b[i]['url']))

    def do_begin_user(self, i, o):
        self.b[i] = self.h.begin(user_id='joe%d@users.example.com' % o)
        return sorted(query(self.b[i]['url']))

    def do_begin_args(self, i, o):
        self.b[i] = self.h.begin(self.name(i, o), req_args={'scope': ['openid', 'email'], 'ui_locales': ['x%d' % i]})
        q = query(self.b[i]['url'])
        return sorted(q), q['scope'], q['ui_locales']

    def do_begin_object(self, i, o):
        self.b[i] = self.h.begin(self.name(i, o), behaviour_args={'request_param': 'request'})
        q = query(self.b[i]['url'])
        return sorted(q), jose.decode(q['request'])[1]['state'] == self.b[i]['state']

    def do_finalize(self, i, o):
        return self.h.finalize(self.op[o].issuer, self.resp[i])

    def do_login(self, i, o):
        """A whole login in the thread."""
        self.do_begin(i, o)
        self.authorize(i)
        return self.do_finalize(i, o)

    def do_refresh(self, i, o):
        return sorted(plain(self.h.refresh_access_token(self.b[i]['state'])))

    do_same_refresh = do_refresh

    def do_userinfo(self, i, o):
        return self.h.get_user_info(self.b[i]['state'])

    do_same_userinfo = do_userinfo

    def do_valid(self, i, o):
        t, e = self.h.get_valid_access_token(self.b[i]['state'])
        return self.op[o].tokens[t]['sub'], e - CLOCK.now

    do_same_valid = do_valid

    def do_session(self, i, o):
        return sorted(plain(self.h.get_session_information(self.b[i]['state'])))

    do_same_session = do_session

    def do_logout(self, i, o):
        u = self.h.logout(self.b[i]['state'])
        return sorted(query(u['url']))

    def do_bclogout(self, i, o):
        from oidcrp.rp_handler import backchannel_logout
        return backchannel_logout(self.client(o), request_args={'logout_token': self.out[i]}) == self.b[i]['state']

    def do_clear(self, i, o):
        return self.h.clear_session(self.b[i]['state'])

    def do_lookup(self, i, o):
        return self.h.state2issuer('no such state')

    # ------------------------------------------------------------ judgement

    def summary(self, r):
        r = plain(r)
        if isinstance(r, dict) and 'state' in r:
            idt = r.get('id_token') or {}
            return sorted(r), r.get('error'), (r.get('userinfo') or {}).get('sub'), idt.get('sub'), idt.get('sid')
        return r

    def outcome(self, results):
        """What the threads got, what the OPs saw, and what everybody can do afterwards."""
        out = [(r[0], r[1] if r[0] != 'exception' else type(r[1]).__name__) for r in results]
        wire = {}
        for q in self.w.log[self.seen:]:
            if q.endpoint != 'jwks':
                k = '%s %s %s' % (q.op.tag if q.op else q.base, q.endpoint, sorted(q.form))
                wire[k] = wire.get(k, 0) + 1
        out.append(sorted(wire.items()))
        out.append(sorted((op.tag, len(op.clients)) for op in self.op.values()))
        ep = []
        issuers = {}
        for c in self.h.issuer2rp.values():
            issuers[id(c)] = c.client_get('service_context').issuer
        ep.append(sorted(issuers.values()))
        seen = set()
        for i, (act, o, *_) in enumerate(self.acts):
            b = self.b.get(i)
            if b is None or b['state'] in seen:
                continue
            seen.add(b['state'])
            st = b['state']

            def do(fn, *a):
                ok, r = attempt(fn, *a)
                ep.append((i, fn.__name__, self.summary(r) if ok else type(r).__name__))
                return ok, r
            if i not in self.resp:
                ok, r = attempt(self.authorize, i)
                if not ok:
                    ep.append((i, 'authorize', repr(r)))
                    continue
            ok, s = do(self.do_session, i, o)
            if ok and 'auth_response' not in s:
                do(self.do_finalize, i, o)
            x = attempt(self.client, o)
            if x[0]:
                x = x[1].client_get('service_context').state
                for fn, v in ((x.get_state_by_sub, self.user[i]), (x.get_state_by_sid, 'sid%d' % i)):
                    ok, r = attempt(fn, v)
                    ep.append((i, fn.__name__, r == st if ok and len([u for u in self.user.values() if u == self.user[i]]) == 1 or not ok else
                               r in [y['state'] for y in self.b.values()], ok))
                dump = x.dump()
                text = json.dumps(dump)
                ep.append((i, 'mentions', st in text))
            do(self.do_session, i, o)
            do(self.do_valid, i, o)
            do(self.do_refresh, i, o)
            do(self.do_userinfo, i, o)
            ok, r = attempt(self.h.clear_session, st)
            ep.append((i, 'cleared', ok))
        left = []
        for op in self.op.values():
            if op.issuer in self.h.issuer2rp:
                d = snapshot(self.h.issuer2rp[op.issuer])
                left.append((op.tag, len(d.get('_db', d))))
                k = self.h.issuer2rp[op.issuer].client_get('service_context').keyjar
                left.append(sorted((ow, len(set(x.kid or x.kty for x in k.get_issuer_keys(ow)))) for ow in k.owners()))
        out += [ep, left, [list(map(str, op.rejects)) for op in self.op.values()]]
        return json.dumps(out, default=repr, sort_keys=True)


# kind of configuration, features, what each thread does (and at which OP)
SCENARIOS = {
    'first-first': ('default', {}, [('begin', 1), ('begin', 1)]),
    'first-first-named': ('named', {}, [('begin', 1), ('begin-issuer', 1)]),
    'first-slash': ('default', {}, [('begin', 1), ('begin-slash', 1)]),
    'first-user': ('default', {}, [('begin', 1), ('begin-user', 1)]),
    'first-two-ops': ('default', {'pkce': True}, [('begin', 1), ('begin', 2)]),
    'first-finalize': ('default', {}, [('begin', 1), ('finalize', 2)]),
    'first-userinfo': ('default', {}, [('begin', 1), ('userinfo', 2)]),
    'first-lookup': ('default', {}, [('begin', 1), ('lookup', 2)]),
    'begin-begin': ('static', {'pkce': True}, [('begin', 1), ('begin-args', 1)]),
    'begin-object': ('static', {}, [('begin-object', 1), ('begin-object', 1)]),
    'begin-finalize': ('static', {'pkce': True}, [('begin', 1), ('finalize', 1)]),
    'finalize-finalize': ('static', {'pkce': True}, [('finalize', 1), ('finalize', 1)]),
    'finalize-two-ops': ('static', {}, [('finalize', 1), ('finalize', 2)]),
    'finalize-same-user': ('static', {}, [('finalize', 1, 'joe'), ('finalize', 1, 'joe')]),
    'hybrid': ('static', {'rt': 'code id_token token'}, [('finalize', 1), ('finalize', 1)]),
    'implicit': ('static', {'rt': 'id_token token'}, [('finalize', 1), ('finalize', 1)]),
    'assertion': ('static', {'method': 'private_key_jwt'}, [('finalize', 1), ('finalize', 1)]),
    'assertion-refresh': ('static', {'method': 'private_key_jwt'}, [('refresh', 1), ('finalize', 1)]),
    'dpop-first': ('static', {'dpop': True}, [('finalize', 1), ('finalize', 1)]),
    'dpop-refresh': ('static', {'dpop': True}, [('finalize', 1), ('refresh', 1)]),
    'refresh-refresh': ('static', {'refresh_idt': True}, [('refresh', 1), ('refresh', 1)]),
    'refresh-userinfo': ('static', {}, [('refresh', 1), ('userinfo', 1)]),
    'same-refresh-userinfo': ('static', {}, [('refresh', 1), ('same-userinfo', 1)]),
    'same-refresh-valid': ('static', {}, [('refresh', 1), ('same-valid', 1)]),
    'logout-logout': ('static', {}, [('logout', 1), ('logout', 1)]),
    'logout-refresh': ('static', {}, [('logout', 1), ('refresh', 1)]),
    'bc-finalize': ('static', {}, [('bclogout', 1), ('finalize', 1)]),
    'bc-bc': ('static', {}, [('bclogout', 1), ('bclogout', 1)]),
    'clear-finalize': ('static', {}, [('clear', 1), ('finalize', 1)]),
    'clear-clear': ('static', {}, [('clear', 1), ('clear', 1)]),
    'clear-begin': ('static', {}, [('clear', 1), ('begin', 1)]),
    'login-login': ('static', {'pkce': True}, [('login', 1), ('login', 1)]),
    'first-login-login': ('default', {}, [('login', 1), ('login', 1)]),
    'three-begin': ('default', {}, [('begin', 1), ('begin', 1), ('begin', 2)]),
    'three-finalize': ('static', {}, [('finalize', 1), ('finalize', 1), ('finalize', 2)]),
    'three-mixed': ('static', {'dpop': True}, [('finalize', 1), ('refresh', 1), ('clear', 1)]),
}
THOROUGH = ['first-first-named', 'first-userinfo', 'finalize-two-ops', 'three-begin', 'first-two-ops']
SERIAL = {}


def serial(scenario):
    """The outcomes of all one-after-the-other orders (no preemption)."""
    if scenario not in SERIAL:
        n = len(SCENARIOS[scenario][2])
        res = {}
        for order in itertools.permutations(range(n)):
            CLOCK.reset()
            s = Site(scenario)
            e = sched.Execution(s.bodies, order, {}).run()
            assert not e.deadlock and not e.switches
            res[s.outcome(e.results)] = order
        SERIAL[scenario] = res
    return SERIAL[scenario]


def case_schedules(ctx, case):
    scenario, order, bound, k, n, opcodes, times = case
    ok = serial(scenario)
    for e, s in sched.schedules(lambda: (CLOCK.reset(), Site(scenario))[1], order, bound, (k, n), opcodes, times):
        ctx.step(len(e.points) if k == 0 and not e.plan else 1)
        ctx.state((scenario, order, sorted(e.plan.items()), opcodes))
        if not ctx.check(not e.deadlock, 'deadlock:%s' % scenario, 'schedule %r' % (e.switches,)):
            continue
        got = s.outcome(e.results)
        ctx.outcome((scenario, list(ok).index(got) if got in ok else 'none'))
        if got not in ok:
            exc = [type(r[1]).__name__ for r in e.results if r[0] == 'exception']
            ctx.fail('not-serialisable:%s' % scenario, 'order %r, switches %r: %s%s' % (order, e.switches, nearest(got, ok), exc and ' %r' % exc))


def nearest(got, ok):
    got = json.loads(got)
    best = None
    for w in ok:
        w = json.loads(w)
        d = [(i, a, b) for i, (a, b) in enumerate(zip(got, w)) if a != b]
        if best is None or len(d) < len(best):
            best = d
    out = []
    for i, a, b in best:
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            out += ['%r instead of %r' % (x, y) for x, y in zip(a, b) if x != y][:3]
        else:
            out.append('%r instead of %r' % (a, b))
    return '; '.join(out)[:1200]


def parts(tier):
    q = tier == 'quick'
    cases = []
    for name, (_k, _f, acts) in SCENARIOS.items():
        if q and name in THOROUGH:
            continue
        n = 12 if q else 48
        orders = list(itertools.permutations(range(len(acts))))
        if acts[0] == acts[-1] and len(acts) == 2:
            orders = orders[:1]                  # the threads do the same
        if len(acts) == 3 and q:
            orders = orders[:1]
        for order in orders:
            cases += [(name, order, 1, k, n, False, 1 if q else None) for k in range(n)]
    out = [Part('lines', case_schedules, cases, 'schedules', 'one preemption, at every line%s' % (' a thread comes to, the first time' if q else ''))]
    if not q:
        two = [(name, tuple(range(len(acts))), 2, k, 400, False, 1) for name, (_k, _f, acts) in SCENARIOS.items() if len(acts) == 2 for k in range(400)]
        ops = [(name, tuple(range(len(acts))), 1, k, 100, True, 2) for name, (_k, _f, acts) in SCENARIOS.items() for k in range(100)]
        out += [Part('instructions', case_schedules, ops, 'schedules', 'one preemption, at every bytecode, the first two times'),
                Part('two', case_schedules, two, 'schedules', 'two preemptions, at every line, the first time')]
    return out


META = dict(rule='distinct (scenario, order, preemptions)', assumptions=[
    'what oidcmsg and cryptojwt do between two lines (instructions) of oidcrp is one step', 'the OP answers a request in one step'])
