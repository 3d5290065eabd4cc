"""What does not matter: the order of the members of the provider's answers, of the parameters of a response and of the claims of a token, extra members
nobody asked for, white space, the way the characters are escaped, and the case of header names. The same history, with the answers written differently, ends
the same."""
import json as _json

from .core import Part
from .world import *

ORDERS = ['as-is', 'reversed', 'sorted', 'sorted-reversed'] + ['rotated-%d' % i for i in range(1, 40, 3)]
STYLES = ['plain', 'pretty', 'escaped', 'raw', 'slashes', 'blank-around', 'extra-first', 'extra-last', 'headers-upper', 'charset', 'charset-quoted']


def reorder(x, how):
    if isinstance(x, list):
        return [reorder(v, how) for v in x]
    if not isinstance(x, dict):
        return x
    items = [(k, reorder(v, how)) for k, v in x.items()]
    if how == 'reversed':
        items.reverse()
    elif how.startswith('sorted'):
        items.sort(key=lambda kv: kv[0], reverse=how.endswith('reversed'))
    elif how.startswith('rotated') and items:
        n = int(how.split('-')[1]) % len(items)
        items = items[n:] + items[:n]
    return dict(items)


def restyle(r, order, style):
    ct = [v for k, v in r.headers.items() if k.lower() == 'content-type']
    if not ct or 'json' not in ct[0]:
        return r
    x = reorder(_json.loads(r.body), order)
    if isinstance(x, dict) and 'keys' not in x:
        if style == 'extra-first':
            x = {'x_extra': {'a': [1, None, True]}, '@context': 'x', **x}
        elif style == 'extra-last':
            x = {**x, 'zz_extra': 'value', 'zz_more': [{'sub': 'mallory', 'access_token': 'no'}]}
    body = _json.dumps(x, indent=3) if style == 'pretty' else _json.dumps(x, ensure_ascii=False) if style == 'raw' else _json.dumps(x)
    if style == 'escaped':
        body = ''.join('\\u%04x' % ord(c) if c.isalpha() and c.islower() and inside else c for c, inside in strings(body))
    elif style == 'slashes':
        body = body.replace('/', '\\/')
    elif style == 'blank-around':
        body = ' \r\n\t' + body + '\n \n'
    hd = dict(r.headers)
    if style == 'headers-upper':
        hd = {k.upper(): v for k, v in hd.items()}
    elif style == 'charset':
        hd = {k: v + '; charset=utf-8' if k.lower() == 'content-type' else v for k, v in hd.items()}
    elif style == 'charset-quoted':
        hd = {k: v + ';charset="UTF-8"' if k.lower() == 'content-type' else v for k, v in hd.items()}
    return Resp(r.status, body, hd)


def strings(body):
    """The characters of a JSON text, and whether they are in a string and not part of an escape."""
    inside = False
    i = 0
    while i < len(body):
        c = body[i]
        if inside and c == '\\':
            n = 6 if body[i + 1] == 'u' else 2
            for d in body[i:i + n]:
                yield d, False
            i += n
            continue
        if c == '"':
            inside = not inside
        yield c, inside and c != '"'
        i += 1


def play(kind, flow, order, style):
    s = Setup(1, conf=(lambda op: dynamic_conf(response_types=(flow,), issuer=op.issuer)) if kind == 'dynamic' else (lambda op: static_conf(op, discover=kind == 'discover', response_types=(flow,))),
              op_kw={'caps': {'backchannel_logout_session_supported': True}})
    op, w = s.op, s.w
    op.issue_rt = op.refresh_idt = True
    op.hook['userinfo'] = lambda c, t: dict(c, name='J\u00f6rg "\u20ac" / \\', address={'country': 'SE', 'locality': 'Ume\u00e5'}, zoneinfo='Europe/Stockholm', updated_at=1700000000)
    op.hook['sign'] = lambda claims, wh, grant: jose.sign(reorder(claims, order), 'RS256', owner='op1')
    handle = w.handle

    def changed(prep, opts):
        r = handle(prep, opts)
        return restyle(r, order, style) if isinstance(r, Resp) else r
    w.handle = changed
    out = {}
    ok, b = attempt(s.begin)
    if not ok:
        return {'begin': repr(b)}
    resp = op.authorize(b['url'], 'alice', sid='sid-1')
    ok, r = attempt(s.h.finalize, op.issuer, reorder(dict(resp), order))
    if not ok or 'error' in r:
        return {'finalize': repr(r)}
    st = b['state']
    out['login'] = {k: plain(v) for k, v in r.items()}
    out['hint'] = []
    for rnd in (0, 1):
        ok, t = attempt(s.h.get_valid_access_token, st)
        out['token%d' % rnd] = t if ok else repr(t)
        ok, u = attempt(s.h.get_user_info, st)
        out['info%d' % rnd] = plain(u) if ok else repr(u)
        ok, lo = attempt(s.h.logout, st)
        out['logout%d' % rnd] = (lo['url'].split('?')[0], sorted(query(lo['url'])), jose.decode(query(lo['url'])['id_token_hint'])[1]) if ok else repr(lo)
        if flow == 'code':
            CLOCK.advance(7)
            ok, t = attempt(s.h.refresh_access_token, st)
            out['refresh%d' % rnd] = {k: v for k, v in plain(t).items() if k != 'id_token'} if ok else repr(t)
    c = s.context()
    out['metadata'] = {k: v for k, v in plain(c.provider_info).items() if k not in ('x_extra', '@context', 'zz_extra', 'zz_more')}
    out['behaviour'] = {k: v for k, v in plain(c.behaviour).items()}
    out['client'] = (c.get('client_id'), c.get('client_secret'), plain(c.get('redirect_uris')))
    out['sub'], out['sid'] = attempt(c.state.get_state_by_sub, 'alice')[1] == st, attempt(c.state.get_state_by_sid, 'sid-1')[1] == st
    out['rejects'] = repr(op.rejects)
    return out


def norm(x):
    """What was fresh is not compared, nor what nobody asked for."""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items() if k not in ('state', 'nonce', 'id_token', 'iat', 'exp', 'auth_time', 'at_hash', 'c_hash', 'jti', 'x_extra', '@context', 'zz_extra', 'zz_more',
                                                             'registration_access_token', '__expires_at', '__verified_id_token')}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def case(ctx, c):
    kind, flow, order, style = c
    t0 = CLOCK.now
    a = play(kind, flow, 'as-is', 'plain')
    CLOCK.now = t0
    b = play(kind, flow, order, style)
    ctx.step(16)
    ctx.state(c)
    ctx.check('login' in a, 'harness', repr(a)[:300])
    a, b = norm(a), norm(b)
    for k in sorted(set(a) | set(b)):
        ctx.check(a.get(k) == b.get(k), 'differs:' + k, '%s %s: %.300r instead of %.300r' % (order, style, b.get(k), a.get(k)))
    ctx.outcome((kind, flow))


def part(tier):
    cs = [(k, f, o, st) for k in ('static', 'discover', 'dynamic') for f in ('code', 'id_token token') for o in ORDERS for st in STYLES if tier != 'quick' or 'as-is' == o or st == 'plain' or (o, st) in zip(ORDERS[1:], STYLES[1:])]
    return Part('written', case, cs, 'orders of members x ways of writing JSON x kind of client x flow', '%d orders, %d ways' % (len(ORDERS), len(STYLES)))


def spoil(x, seen=None):
    """The caller does as it likes with what it was given."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    d = getattr(x, '_dict', None)
    if isinstance(d, dict):
        x = d
    if isinstance(x, dict):
        for k, v in list(x.items()):
            spoil(v, seen)
            if isinstance(v, str):
                x[k] = 'spoilt'
            elif isinstance(v, (int, float)):
                x[k] = 1
        x['state'] = x['sub'] = x['access_token'] = x['spoilt'] = 'spoilt'
    elif isinstance(x, list):
        for v in x:
            spoil(v, seen)
        x[:] = ['spoilt']


CALLS = ('begin', 'finalize', 'userinfo', 'refresh', 'logout', 'session', 'arguments', 'response')


def owned(ctx, c):
    """What is handed to the caller, and what the caller handed over, is the caller's: changing it afterwards changes nothing."""
    kind, flow, spoilt = c
    outs = []
    ctx.state(c)
    for on in (False, True):
        t0 = CLOCK.now
        s = Setup(1, conf=(lambda op: dynamic_conf(response_types=(flow,), issuer=op.issuer)) if kind == 'dynamic' else (lambda op: static_conf(op, discover=kind == 'discover', response_types=(flow,))))
        op = s.op
        op.issue_rt = op.refresh_idt = True
        op.hook['userinfo'] = lambda cl, t: dict(cl, address={'country': 'SE'}, groups=['a', 'b'])
        out = []

        def do(name, fn, *a, **kw):
            ok, r = attempt(fn, *a, **kw)
            ctx.step()
            out.append((name, norm(plain(r)) if ok and isinstance(plain(r), dict) else r if ok else repr(r)))
            if on and ok and name in spoilt:
                spoil(r)
            return r
        for user in ('alice', 'bob'):
            ra = {'scope': ['openid', 'email'], 'claims': {'userinfo': {'name': None}}, 'acr_values': ['1']}
            b = attempt(s.begin, req_args=ra)[1]
            st, url = b['state'], b['url']
            if on and 'begin' in spoilt:
                spoil(b)
            if on and 'arguments' in spoilt:
                spoil(ra)
            out.append(('url', {k: v for k, v in query(url).items() if k not in ('state', 'nonce')}))
            resp = dict(op.authorize(url, user))
            do('finalize', s.h.finalize, op.issuer, resp)
            if on and 'response' in spoilt:
                spoil(resp)
            for rnd in (0, 1):
                do('session', s.h.get_session_information, st)
                do('userinfo', s.h.get_user_info, st)
                do('token', s.h.get_valid_access_token, st)
                do('active', s.h.has_active_authentication, st)
                r = attempt(s.h.logout, st)[1]
                q = query(r['url'])
                out.append(('logout', jose.decode(q['id_token_hint'])[1]['sub'], sorted(q)))
                if on and 'logout' in spoilt:
                    spoil(r)
                if flow == 'code':
                    args = {'state': st}
                    do('refresh', s.h.refresh_access_token, **args)
        out.append(repr(op.rejects))
        outs.append(json.loads(json.dumps(out, default=str)))
        CLOCK.now = t0
    a, b = outs
    ctx.check(len(a) == len(b), 'another-history', '')
    for x, y in zip(a, b):
        ctx.check(strip(x) == strip(y), 'changed-by-the-caller:' + str(x[0]), '%s: %.300r instead of %.300r' % (spoilt, y, x))
    ctx.outcome((kind, flow))


def strip(x):
    """Stored messages are strings."""
    if isinstance(x, str) and x[:1] == '{':
        try:
            return strip(json.loads(x))
        except ValueError:
            return x
    if isinstance(x, dict):
        return {k: strip(v) for k, v in norm(x).items()}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def part2(tier):
    import itertools
    cs = [(k, f, sp) for k in ('static', 'discover', 'dynamic') for f in ('code', 'code id_token', 'id_token token') for n in (1, 2, len(CALLS)) for sp in itertools.combinations(CALLS, n)]
    return Part('owned', owned, cs, 'sets of calls whose results or arguments are changed by the caller x kind of client x flow', '2 logins')
