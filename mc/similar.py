"""Values that look alike: what belongs to one value does not belong to another that differs in case, blanks, accents, escapes or a prefix only.
All ordered pairs of a family of values are used as the subjects, session identifiers or nonces of two sessions, or as the value that is there and
the value that is claimed."""
import itertools

from . import large
from .core import Part
from .world import *

FAMILY = ['alice', 'Alice', 'ALICE', 'alice ', ' alice', 'alice\t', 'alice\n', 'alic', 'alicex', 'xalice', 'alice.', 'alice/', 'al%69ce', 'alice%20', 'alice+', 'alice#', 'alice?', 'alice@idp.example',
          '"alice"', "'alice'", 'alice\\', 'alice,', 'alice|x', 'alice;', 'alice:1', 'alice__', 'ali\u200bce', 'al\u0131ce', '\u0430lice', 'alic\u00e9', 'alice\u0301', '\uff41lice',
          'alice1', 'alice01', '1', '01', '1.0', '1e0', '+1', '\u0661', 'true', 'True', 'null', 'None', '[]', '{}', '*', 'a*', '.', '..', '_', '-', 'state', 'default', 'ref', '__alice__']
assert len(set(FAMILY)) == len(FAMILY)


def pairs(values, tier, same=True):
    """Every value with the next ones and with the plain one (quick), or all ordered pairs."""
    n = len(values)
    if tier == 'quick':
        out = {(i, j) for i in range(n) for j in (0, (i + 1) % n)} | {(0, i) for i in range(n)} | {(i, i) for i in range(n)}
    else:
        out = set(itertools.product(range(n), repeat=2))
    return sorted(p for p in out if same or p[0] != p[1])


def crossed(ctx, case):
    """A session that has one value meets an answer that has the other: taken exactly if they are the same."""
    from oidcrp.rp_handler import backchannel_logout
    where, i, j = case
    mine, theirs = FAMILY[i], FAMILY[j]
    ctx.state(case)
    flow = {'front-token': 'code id_token', 'nonce-front': 'id_token', 'nonce-both': 'code id_token'}.get(where, 'code')
    s = Setup(1, response_types=[flow], op_kw={'caps': {'backchannel_logout_session_supported': True}})
    op = s.op
    op.issue_rt = op.refresh_idt = True
    what = 'nonce' if 'nonce' in where else 'sub'
    at = {'front-token': 'token', 'nonce-front': 'front', 'nonce-token': 'token', 'nonce-both': 'token', 'refresh': 'refresh', 'nonce-refresh': 'refresh'}.get(where)

    def sign(claims, w, grant):
        if w == at:
            claims = dict(claims, **{what: theirs})
        return jose.sign(claims, 'RS256', owner='op1')
    op.hook['sign'] = sign
    if where == 'userinfo':
        op.hook['userinfo'] = lambda c, t: dict(c, sub=theirs)
    same = mine == theirs
    user = mine if what == 'sub' and where != 'logout-sid' else 'user'
    collect = where == 'userinfo'
    ok, b = attempt(s.begin, req_args={'nonce': mine} if what == 'nonce' else {})
    if not ctx.check(ok, 'cannot-begin', repr(b)[:200]):
        return
    ok, resp = attempt(op.authorize, b['url'], user, sid=mine if where == 'logout-sid' else 'sid-1')
    if not ctx.check(ok, 'refused-by-the-op', repr(resp)[:200]):
        return
    ok, r = attempt(s.h.finalize, op.issuer, resp)
    ok = ok and 'error' not in r
    ctx.step()
    if where in ('front-token', 'nonce-front', 'nonce-token', 'nonce-both', 'userinfo'):
        ctx.check(ok == same, 'not-accepted:' + where if same else 'accepted:' + where, 'has %r, met %r: %.200r' % (mine, theirs, r))
        ctx.outcome((where, ok))
        return
    if not ctx.check(ok, 'login-fails', repr(r)[:200]):
        return
    if 'refresh' in where:
        ok, r = attempt(s.h.refresh_access_token, b['state'])
    else:
        by = {'logout-sid': {'sid': theirs}, 'logout-sub': {'sub': theirs}}[where]
        token = jose.sign(dict(by, iss=op.issuer, aud=[s.client(op).get_client_id()], iat=int(CLOCK.now), jti='j-1', events={EVENT: {}}), 'RS256', owner='op1')
        ok, r = attempt(backchannel_logout, s.client(op), request_args={'logout_token': token})
        ok = ok and r == b['state']
    ctx.step()
    ctx.check(ok == same, 'not-accepted:' + where if same else 'accepted:' + where, 'has %r, met %r: %.200r' % (mine, theirs, r))
    ctx.outcome((where, ok))


EVENT = large.EVENT


def part(tier, wheres):
    cs = [(w, i, j) for w in wheres for i, j in pairs(FAMILY, tier)]
    return Part('similar', crossed, cs, 'value of the session x value in the answer, from a family of values that look alike', '%d values' % len(FAMILY))


def together(ctx, case):
    what, i, j = case
    large.history(ctx, (what, 0, (FAMILY[i], FAMILY[j]), 'code'))


def part2(tier, whats):
    cs = [(w, i, j) for w in whats for i, j in pairs(FAMILY, tier, same=False)]
    return Part('similar-together', together, cs, 'values of two sessions, from a family of values that look alike', '%d values' % len(FAMILY))


def stored(ctx, case):
    what, i, j = case
    large.store(ctx, (what, 0, (FAMILY[i], FAMILY[j])))


def part3(tier):
    cs = [(w, i, j) for w in ('value', 'key', 'nonce', 'sub', 'sid', 'logout_state') for i, j in pairs(FAMILY, 'thorough', same=False)
          # what an index looks like is refused as a state
          if w != 'key' or '__alice__' not in (FAMILY[i], FAMILY[j])]
    return Part('similar', stored, cs, 'values of two sessions, from a family of values that look alike', '%d values' % len(FAMILY))


def alike(issuer):
    """Names of other issuers that look like this one."""
    scheme, rest = issuer.split('://')
    return [issuer + x for x in ('/', '//', '/tenant', 'x', '.', '.evil.com', ':443', '?', '?a=b', '#', '#x', ' ', '%2F', '/.', '/../x', '\\', '@evil.example.com', ':x@evil.example.com', '\n')] + [
        scheme.upper() + '://' + rest, scheme + '://' + rest.upper(), scheme + '://' + rest[0].upper() + rest[1:], 'http://' + rest, rest, '//' + rest, issuer[:-1], issuer[1:], ' ' + issuer,
        scheme + '://x.' + rest, scheme + '://x@' + rest, scheme + ':/' + rest, scheme + ':///' + rest, issuer.replace('.', '\u3002'), issuer.replace('o', '\u043e', 1), '', scheme + '://']


def issuers(ctx, case):
    """The RP knows the keys of another issuer whose name is like that of the provider: what that one signs, in its own name or that of the provider, is not the
    provider's."""
    from oidcrp.rp_handler import backchannel_logout
    where, n, name = case
    ctx.state(case)
    s = Setup(1, response_types=['id_token' if where == 'front' else 'code'], op_kw={'caps': {'backchannel_logout_session_supported': True}})
    op = s.op
    op.issue_rt = op.refresh_idt = True
    s.h.client_setup(op.issuer)
    other = alike(op.issuer)[n] if n is not None else None
    if other:
        s.context().keyjar.import_jwks(jose.jwks('src'), other)
    iss = {'own': other, 'provider': op.issuer, 'none': None}[name] if other is not None else op.issuer

    def sign(claims):
        claims = dict(claims, iss=iss)
        if iss is None:
            claims.pop('iss')
        return jose.sign(claims, 'RS256', owner='src' if other is not None else 'op1')
    op.hook['sign'] = lambda claims, w, grant: sign(claims) if w == where else jose.sign(claims, 'RS256', owner='op1')
    good = other is None
    ok, b = attempt(s.begin)
    resp = op.authorize(b['url'], 'alice', sid='sid-1')
    cid = s.client().get_client_id()
    if where == 'userinfo':
        s.w.static[op.md['userinfo_endpoint']] = lambda req: Resp(200, sign({'sub': 'alice', 'aud': [cid]}), {'content-type': 'application/jwt'})
    ok, r = attempt(s.h.finalize, op.issuer, resp)
    ok = ok and 'error' not in r
    ctx.step()
    if where in ('refresh', 'logout'):
        if not ctx.check(ok, 'login-fails', repr(r)[:200]):
            return
        if where == 'refresh':
            ok, r = attempt(s.h.refresh_access_token, b['state'])
        else:
            token = sign({'sid': 'sid-1', 'aud': [cid], 'iat': int(CLOCK.now), 'jti': 'j-1', 'events': {EVENT: {}}})
            ok, r = attempt(backchannel_logout, s.client(op), request_args={'logout_token': token})
            ok = ok and r == b['state']
        ctx.step()
    ctx.check(ok == good, 'not-accepted:' + where if good else 'accepted-from-another-issuer:' + where, '%r, signed by %r: %.200r' % (iss, other, r))
    ctx.outcome((where, ok))


def part4(tier, wheres):
    cs = [(w, None, 'own') for w in wheres] + [(w, n, k) for w in wheres for n in range(len(alike(ISS[1]))) for k in ('own', 'provider', 'none')]
    return Part('issuers-alike', issuers, cs, 'issuers with names like that of the provider x in whose name they sign', '%d names' % len(alike(ISS[1])))


TENANT = 'https://op.example.org/tenant'
NAMES = ['https://op.example.org/Tenant', 'https://op.example.org/tenant1', 'https://op.example.org/tenant/a', 'https://op.example.org', 'https://op.example.org/tenan', 'https://op.example.org/tenant-',
         'https://op.example.org:8443/tenant', 'https://op.example.org.example/tenant', 'https://xop.example.org/tenant', 'https://op.example.or/tenant', 'https://op.example.org/tenant/tenant',
         'https://op.example.org/a/tenant', 'http://op.example.org/tenant', 'https://op.example.org/tenant/']


def providers(ctx, case):
    """Two providers whose issuers are alike, in one handler: each session stays with its own."""
    from oidcrp.rp_handler import backchannel_logout
    kind, n, flip, flow = case
    ctx.state(case)
    w = World()
    isss = [TENANT, NAMES[n]][::-1 if flip else 1]
    ops = [SimOP(w, iss, 'op%d' % (i + 1), caps={'backchannel_logout_session_supported': True}) for i, iss in enumerate(isss)]
    configs = {}
    for i, op in enumerate(ops):
        op.issue_rt = op.refresh_idt = True
        configs['name%d' % i if kind == 'named' else op.issuer] = dynamic_conf(response_types=(flow,), issuer=op.issuer) if kind == 'dynamic' else static_conf(op, client_id='rp-client-%d' % (i + 1), response_types=(flow,))
    h = handler(configs)
    if kind == 'named':
        # some names are given, the issuers are known from the configuration
        for i, op in enumerate(ops):
            h.client_setup('name%d' % i)
    ids = ['name0', 'name1'] if kind == 'named' else isss
    users = ['alice', 'bob']

    def begin(i):
        ok, b = attempt(h.begin, ids[i])
        ctx.step()
        if not ok:
            ctx.check(False, 'cannot-begin', repr(b)[:300])
            raise StopIteration
        ctx.check(b['url'].split('?')[0] == ops[i].md['authorization_endpoint'], 'sent-to-the-other', '%s of %s' % (b['url'], ids[i]))
        return b
    try:
        bs = [begin(0), begin(1)]
        xs = [begin(1), begin(0)][::-1]
    except StopIteration:
        return
    ids = isss
    cl = [h.issuer2rp[x] for x in ids]
    cids = [c.get_client_id() for c in cl]
    ctx.check(cl[0] is not cl[1], 'one-client-for-both', repr(ids))
    for i in (0, 1):
        ctx.check(query(bs[i]['url'])['client_id'] == cids[i] and cids[i] in ops[i].clients, 'identified-as-at-the-other', bs[i]['url'])
    resp = [ops[i].authorize(b['url'], users[i], sid='sid-1') for i, b in enumerate(bs)]
    # the response of one, said to be from the other
    for i in (0, 1):
        r = ops[i].authorize(xs[i]['url'], 'mallory', sid='sid-2')
        r.pop('iss', None)
        n0 = len(w.log)
        ok, res = attempt(h.finalize, ids[1 - i], r)
        ctx.step()
        ctx.check(not ok, 'accepted-from-the-other', 'response of %s as that of %s: %.200r' % (ids[i], ids[1 - i], res))
        ctx.check(len(w.log) == n0, 'requests-for-the-wrong-response', repr(w.log[n0:]))
    n0 = len(w.log)
    for i in (1, 0):
        ok, r = attempt(h.finalize, ids[i], resp[i])
        ctx.step()
        if not ctx.check(ok and 'error' not in r and r['userinfo']['sub'] == users[i], 'login-fails', '%s: %.300r' % (ids[i], r)):
            return
    for rnd in (0, 1):
        for i in (0, 1):
            st = bs[i]['state']
            ctx.check(h.state2issuer(st) == isss[i] or h.state2issuer(st) == ids[i], 'issuer-of-the-session', repr(h.state2issuer(st)))
            if flow == 'code':
                ok, r = attempt(h.refresh_access_token, st)
                ctx.check(ok and ops[i].tokens[r['access_token']]['state'] == st, 'refresh-fails', repr(r)[:200])
            ok, r = attempt(h.get_user_info, st)
            ctx.check(ok and r['sub'] == users[i], 'user-info-fails', repr(r)[:200])
            ok, r = attempt(h.logout, st)
            ctx.check(ok and r['url'].split('?')[0] == ops[i].md['end_session_endpoint'], 'logged-out-at-the-other', repr(r)[:200])
            ctx.step(3)
            # a logout token of the other
            for iss, keys, aud in ((isss[1 - i], ops[1 - i].keys, cids[i]), (isss[i], ops[1 - i].keys, cids[i]), (isss[1 - i], ops[1 - i].keys, cids[1 - i])):
                token = jose.sign({'sid': 'sid-1', 'iss': iss, 'aud': [aud], 'iat': int(CLOCK.now), 'jti': 'j-1', 'events': {EVENT: {}}}, 'RS256', owner=keys)
                ok, r = attempt(backchannel_logout, cl[i], request_args={'logout_token': token})
                ctx.check(not ok, 'logged-out-by-the-other', repr(r)[:200])
                ctx.step()
    for q in w.log[n0:]:
        ctx.check(q.op in ops and not ops[0].rejects and not ops[1].rejects, 'request-elsewhere', '%r %r %r' % (q, ops[0].rejects, ops[1].rejects))
    ok, r = attempt(h.clear_session, bs[0]['state'])
    ctx.check(ok and attempt(h.get_valid_access_token, bs[1]['state'])[0], 'cleared-with-the-other', repr(r)[:200])
    ctx.outcome((kind, flow))


def part5(tier):
    cs = [(k, n, f, fl) for k in ('static', 'dynamic', 'named') for n in range(len(NAMES)) for f in (0, 1) for fl in ('code', 'id_token token')
          # these two publish their metadata at the same place
          if k != 'dynamic' or not NAMES[n].endswith('/')]
    return Part('providers-alike', providers, cs, 'two providers whose issuers are alike x kind of client x flow', '%d names' % len(NAMES))


def takeover(ctx, case):
    """A session takes over what another one was found by; that one is removed; and the other way round."""
    from oidcrp.state_interface import StateInterface
    i, j, order = case
    ctx.state(case)
    a, b = FAMILY[i], FAMILY[j]
    st = StateInterface()
    for k in (a, b):
        st.create_state('https://op.example.org', k)
    kinds = ('nonce', 'sub', 'sid', 'logout_state')
    for k in (a, b) if order == 'other' else (b, a, b) if order == 'back' else (b, a):
        for x in kinds:
            getattr(st, 'store_%s2state' % x)('shared ' + x, k)
    gone, left = a, b
    if order == 'restored':
        d = json.loads(json.dumps(st.dump()))
        st = StateInterface()
        st.load(d)
    owner = a if order in ('own', 'restored') else b
    st.remove_state(gone)
    for x in kinds:
        ok, r = attempt(getattr(st, 'get_state_by_' + x), 'shared ' + x)
        ctx.check((ok and r == left) if owner == left else not ok, ('lost:' if owner == left else 'left-behind:') + x, '%r, of %r, %r removed: %r' % (owner, (a, b), gone, r))
    ok, r = attempt(st.get_iss, left)
    ctx.check(ok, 'removed-too', repr(r))
    ok, r = attempt(st.get_iss, gone)
    ctx.check(not ok, 'not-removed', repr(r))
    ctx.step(4)
    ctx.outcome(order)


def part6(tier):
    cs = [(i, j, o) for i, j in pairs(FAMILY, 'thorough', same=False) for o in ('own', 'other', 'back', 'restored') if '__alice__' not in (FAMILY[i], FAMILY[j])]
    return Part('takeover', takeover, cs, 'states that look alike x who was last', '%d values' % len(FAMILY))


def sources(ctx, case):
    """A claim that is said to come from one source is not taken from another one with a name like that."""
    i, j, dist, flow = case
    ctx.state(case)
    named, there = FAMILY[i], FAMILY[j]
    s = Setup(1, response_types=[flow])
    op = s.op
    b = s.begin()
    cp = 'https://src.example.org'
    s.context().keyjar.import_jwks(jose.jwks('src'), cp)
    src = {'JWT': jose.sign({'iss': cp, 'email': 'x@src.example.org'}, 'RS256', owner='src')}
    if dist:
        src = {'endpoint': cp + '/claims', 'access_token': 'source-token'}
        s.w.static[cp + '/claims'] = lambda req: jresp({'email': 'x@src.example.org'})
    op.hook['userinfo'] = lambda c, t: {'sub': 'alice', 'name': 'Alice', '_claim_names': {'email': named}, '_claim_sources': {there: src}}
    ok, r = attempt(s.h.finalize, op.issuer, op.authorize(b['url'], 'alice'))
    ctx.step(2)
    same = named == there
    if not ok:
        ctx.check(not same, 'login-fails', repr(r)[:200])
        return
    got = plain(r['userinfo'])
    if dist and same:
        cl = s.client()
        ok, got = attempt(lambda: plain(cl.fetch_distributed_claims(r['userinfo'])))
        ctx.check(ok, 'not-fetched', repr(got)[:200])
    ctx.check(got.get('email') == ('x@src.example.org' if same else None), 'not-taken' if same else 'taken-from-another-source', 'named %r, there is %r: %r' % (named, there, got))
    ctx.check(got.get('sub') == 'alice' and got.get('name') == 'Alice', 'identity-changed', repr(got))
    if dist and not same:
        ok, got = attempt(lambda: plain(s.client().fetch_distributed_claims(r['userinfo'])))
        ctx.check(not ok or 'email' not in got, 'taken-from-another-source', 'named %r, there is %r: %r' % (named, there, got))
    ctx.outcome((dist, same))


def part7(tier):
    cs = [(i, j, d, f) for i, j in pairs(FAMILY, tier) for d in (0, 1) for f in ('code', 'id_token token')]
    return Part('sources-alike', sources, cs, 'names of claim sources that look alike', '%d values' % len(FAMILY))
