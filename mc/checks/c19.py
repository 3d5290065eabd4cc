"""C19: negotiation. For every negotiable preference, all client values and ordered lists x all ordered provider lists (and a silent
provider), all pairs of preferences, and renegotiation after the provider changed, against the rules of the standard."""
import itertools

from ..core import Part
from ..world import *

# preference: (metadata member, single valued?, three values, what must be listed, default)
E = ['RSA-OAEP', 'RSA-OAEP-256', 'A256KW']
ENC = ['A128CBC-HS256', 'A192CBC-HS384', 'A256GCM']
SIG = ['RS256', 'ES256', 'PS384']
T = {
    'request_object_signing_alg': ('request_object_signing_alg_values_supported', True, ['RS256', 'ES256', 'none'], [], None),
    'request_object_encryption_alg': ('request_object_encryption_alg_values_supported', True, E, [], None),
    'request_object_encryption_enc': ('request_object_encryption_enc_values_supported', True, ENC, [], None),
    'userinfo_signed_response_alg': ('userinfo_signing_alg_values_supported', True, SIG, [], None),
    'userinfo_encrypted_response_alg': ('userinfo_encryption_alg_values_supported', True, E, [], None),
    'userinfo_encrypted_response_enc': ('userinfo_encryption_enc_values_supported', True, ENC, [], None),
    'id_token_signed_response_alg': ('id_token_signing_alg_values_supported', True, SIG, ['RS256'], None),
    'id_token_encrypted_response_alg': ('id_token_encryption_alg_values_supported', True, E, [], None),
    'id_token_encrypted_response_enc': ('id_token_encryption_enc_values_supported', True, ENC, [], None),
    'default_acr_values': ('acr_values_supported', False, ['loa1', 'loa2', 'loa3'], [], None),
    'subject_type': ('subject_types_supported', True, ['public', 'pairwise', 'x-sub'], None, None),
    'token_endpoint_auth_method': ('token_endpoint_auth_methods_supported', True, ['client_secret_basic', 'client_secret_post', 'private_key_jwt'], [],
                                   ['client_secret_basic']),
    'token_endpoint_auth_signing_alg': ('token_endpoint_auth_signing_alg_values_supported', True, SIG, [], None),
    'response_types': ('response_types_supported', False, ['code', 'id_token', 'code id_token'], None, None),
    'grant_types': ('grant_types_supported', False, ['authorization_code', 'implicit', 'refresh_token'], [], ['authorization_code', 'implicit']),
    'scope': ('scopes_supported', False, ['openid', 'profile', 'email'], ['openid'], None),
}


def lists(vals):
    return [list(p) for n in (1, 2, 3) for p in itertools.permutations(vals, n)]


def settle(pref, want, listed):
    """The behaviour by the rules; None if there is nothing in common."""
    member, single, vals, must, default = T[pref]
    if listed is None:
        listed = default
    ws = [want] if isinstance(want, str) else want
    both = [v for v in ws if listed is None or v in listed]
    if not both:
        return None
    return both[0] if single else both


def matches(got, want, expected, single):
    if single or not isinstance(want, str):
        return got == expected
    return got == expected or [got] == expected        # a single value stated for a list


def document(prefs, listed):
    md = {}
    for p, lst in zip(prefs, listed):
        if lst is None:
            md[T[p][0]] = None
        else:
            md[T[p][0]] = lst + [m for m in T[p][3] or [] if m not in lst]
    return md


def mk(prefs, wants, listed, level):
    w = World()
    op = SimOP(w, ISS[1], 'op1')
    op.md.pop('token_endpoint_auth_methods_supported')
    op.md.pop('scopes_supported')
    put(op, prefs, listed)
    cp = {'application_name': 'mc', 'contacts': ['a@example.com', 'b@example.com'], 'response_types': ['code']}
    cp.update(zip(prefs, copy.deepcopy(wants)))
    conf = {'issuer': op.issuer, 'client_preferences': cp, 'redirect_uris': [BASE + '/cb']}
    return w, op, conf


def put(op, prefs, listed):
    for k, v in document(prefs, listed).items():
        op.md.pop(k, None)
        if v is not None:
            op.md[k] = v


def judge(ctx, op, conf, prefs, wants, context):
    doc = copy.deepcopy(op.md)
    for p, want in zip(prefs, wants):
        exp = settle(p, want, doc.get(T[p][0]))
        got = plain(context.behaviour).get(p)
        ctx.check(matches(got, want, exp, T[p][1]), 'wrong-behaviour:' + p, 'wants %r, provider %r: %r instead of %r' % (want, doc.get(T[p][0]), got, exp))


def case_match(ctx, case):
    prefs, wants, listed = case
    from oidcrp import oidc
    w, op, conf = mk(prefs, wants, listed, 'client')
    before = copy.deepcopy(conf)
    doc = copy.deepcopy(op.md)
    c = oidc.RP(config=conf, services=services(), keyjar=keyjar())
    ok, r = attempt(c.do_request, 'provider_info')
    possible = all(settle(p, x, doc.get(T[p][0])) for p, x in zip(prefs, wants))
    ctx.step()
    ctx.state(case)
    ctx.outcome((prefs[0], possible, ok))
    x = c.client_get('service_context')
    ctx.check(conf == before, 'preferences-changed', repr(conf))
    if not possible:
        ctx.check(not ok, 'nothing-in-common-accepted:' + '+'.join(prefs), 'wants %r, provider %r: %r' % (wants, listed, plain(x.behaviour)))
        return
    if ctx.check(ok, 'refused', 'wants %r, provider %r: %r' % (wants, listed, r)):
        judge(ctx, op, conf, prefs, wants, x)
        pi = plain(x.provider_info)
        ctx.check(all(pi.get(k) == v for k, v in doc.items()), 'metadata-changed', repr(pi))
        ctx.check(plain(x.client_preferences) == before['client_preferences'], 'preferences-changed', repr(x.client_preferences))
        ctx.check(x.behaviour.get('application_name') == 'mc' and x.behaviour.get('contacts') == ['a@example.com', 'b@example.com'], 'other-preference-lost',
                  repr(x.behaviour))


def case_change(ctx, case):
    """The provider's metadata changes and is fetched again (same client): the behaviour follows; nothing in common raises."""
    pref, want, first, second = case
    from oidcrp import oidc
    w, op, conf = mk((pref,), (want,), (first,), 'client')
    c = oidc.RP(config=conf, services=services(), keyjar=keyjar())
    attempt(c.do_request, 'provider_info')
    put(op, (pref,), (second,))
    ok, r = attempt(c.do_request, 'provider_info')
    possible = bool(settle(pref, want, op.md.get(T[pref][0])))
    ctx.step(2)
    ctx.state(case)
    ctx.outcome((pref, possible, ok))
    ctx.check(ok == possible, 'refused' if possible else 'nothing-in-common-accepted:renegotiation', 'wants %r, %r then %r: %r' % (want, first, second, r))
    if ok and possible:
        judge(ctx, op, conf, (pref,), (want,), c.client_get('service_context'))


def case_setup(ctx, case):
    """Complete set-up by the handler: the registration states what was negotiated, a failed one is repeated."""
    pref, want, listed = case
    w, op, conf = mk((pref,), (want,), (listed,), 'handler')
    before = copy.deepcopy(conf)
    h = handler({op.issuer: conf})
    ok, r = attempt(h.begin, op.issuer)
    possible = bool(settle(pref, want, op.md.get(T[pref][0])))
    ctx.step()
    ctx.state(case)
    ctx.outcome((pref, possible, ok))
    if not possible:
        ctx.check(not ok and not h.issuer2rp, 'nothing-in-common-accepted:handler', '%r %r: %r' % (want, listed, r))
        ctx.check(not w.to('registration'), 'registered-without-agreement', '')
        put(op, (pref,), ([want] if isinstance(want, str) else want,))
        ok, r = attempt(h.begin, op.issuer)
        ctx.step()
    ctx.check(conf == before, 'preferences-changed', repr(conf))
    if ctx.check(ok, 'set-up-failed', repr(r)):
        exp = settle(pref, want, op.md.get(T[pref][0]))
        x = h.issuer2rp[op.issuer].client_get('service_context')
        judge(ctx, op, conf, (pref,), (want,), x)
        reg = op.last_registration
        if pref in reg and pref != 'grant_types':
            got = reg[pref]
            ctx.check(matches(got, want, exp, T[pref][1]) or (pref == 'scope' and got == ' '.join(exp)), 'registered-something-else:' + pref,
                      '%r, expected %r' % (got, exp))
        if pref == 'response_types':
            ctx.check(query(r['url'])['response_type'] == (exp[0]), 'other-response-type-used', r['url'])
        if pref == 'scope':
            ctx.check(query(r['url'])['scope'].split(' ') == ([exp] if isinstance(exp, str) else exp), 'other-scope-used', r['url'])


def case_both(ctx, case):
    """The same handler with two providers of different capability."""
    pref, want, first, second = case
    w, op, conf = mk((pref,), (want,), (first,), 'handler')
    op2 = SimOP(w, ISS[2], 'op2')
    put(op2, (pref,), (second,))
    conf.pop('issuer')
    before = copy.deepcopy(conf)
    h = handler({'': conf})
    for o in (op, op2):
        ok, r = attempt(h.begin, o.issuer)
        possible = bool(settle(pref, want, o.md.get(T[pref][0])))
        ctx.check(ok == possible, 'refused' if possible else 'nothing-in-common-accepted:two', '%r %r: %r' % (want, o.md.get(T[pref][0]), r))
        if ok and possible:
            judge(ctx, o, conf, (pref,), (want,), h.issuer2rp[o.issuer].client_get('service_context'))
        ctx.check(conf['client_preferences'] == before['client_preferences'], 'preferences-changed', repr(conf))
        ctx.step()
    ctx.state(case)
    ctx.outcome(pref)


def wants_of(p):
    return T[p][2] + lists(T[p][2])


def required(p):
    return T[p][3] is None or p == 'id_token_signed_response_alg'


def listed_of(p):
    return ([] if required(p) else [None]) + lists(T[p][2])


def parts(tier):
    q = tier == 'quick'
    singles = [((p,), (x,), (l,)) for p in T for x in wants_of(p) for l in listed_of(p)]
    pairs = []
    for a, b in itertools.permutations(T, 2):
        for wa, la in small(a, q):
            for wb, lb in small(b, q):
                pairs.append(((a, b), (wa, wb), (la, lb)))
    change = [(p, x, f, s) for p in T for x in (wants_of(p) if not q else [T[p][2][0], T[p][2][:2], T[p][2][1:], T[p][2][::-1]])
              for f in listed_of(p)[:: (3 if q else 1)] for s in listed_of(p)[:: (2 if q else 1)]]
    setup = [(p, x, l) for p in T if p != 'scope' and p != 'response_types' for x in wants_of(p)[:: (2 if q else 1)] for l in listed_of(p)[:: (2 if q else 1)]]
    setup += [(p, x, l) for p in ('scope', 'response_types') for x in lists(T[p][2]) if p == 'response_types' or 'openid' in x for l in listed_of(p)]
    both = [(p, x, f, s) for p in T if p not in ('scope', 'response_types') for x in ([T[p][2][:2], T[p][2][::-1]] if q else lists(T[p][2]))
            for f in listed_of(p)[:: (3 if q else 1)] for s in listed_of(p)[:: (3 if q else 1)]]
    return [Part('single', case_match, singles, 'preference x client values x provider list'), Part('pairs', case_match, pairs, 'pairs of preferences'),
            Part('change', case_change, change, 'provider changes'), Part('setup', case_setup, setup, 'complete set-up'),
            Part('two-providers', case_both, both, 'one configuration, two providers')]


def small(p, q):
    v = T[p][2]
    s = [(v[:2], [v[1], v[0]]), (v[0], [v[2]]), ([v[1], v[2]], [v[2]])]
    if not required(p):
        s.append((v[::-1], None))
    return s if not q else s[:3] if required(p) else [s[0], s[1], s[3]]


META = dict(rule='distinct (preferences, client values, provider lists)')
