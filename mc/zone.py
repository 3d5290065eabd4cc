"""The local time zone does not matter: what is valid, and what times are sent, is the same wherever the process runs."""
import calendar
import os
import time

from .core import Part
from .world import *

ZONES = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'XXX-14', 'YYY12', 'NPT-5:45', 'ZZZ0:00:30']
#: winter and summer; the hour that comes twice and the one that is left out in the second zone
TIMES = [1768478400, 1784116800, 1792886400 + 1800, 1774746000 - 60]


def zone(ctx, c):
    tz, t, flow, auth = c
    ctx.state(c)
    old, now = os.environ.get('TZ'), CLOCK.now
    try:
        os.environ['TZ'] = tz
        time.tzset()
        CLOCK.now = t
        history(ctx, c)
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()
        CLOCK.now = now


def history(ctx, c):
    from oidcrp.cookie import make_cookie, parse_cookie
    tz, t, flow, auth = c
    ao = {'dpop': {'function': 'oidcrp.oauth2.add_on.dpop.add_support', 'kwargs': {'signing_algorithms': ['ES256']}}}
    s = Setup(1, response_types=[flow], method=auth, add_ons=ao, op_kw={'caps': {'token_endpoint_auth_signing_alg_values_supported': ['HS256', 'RS256'], 'dpop_signing_alg_values_supported': ['ES256']}})
    op = s.op
    op.issue_rt = op.refresh_idt = True
    shift = {}
    op.hook['claims'] = lambda claims, w, g: dict(claims, iat=int(CLOCK.now) + shift.get('iat', 0), exp=int(CLOCK.now) + shift.get('exp', 900))
    op.hook['token_response'] = lambda r, form, *a: dict(r, expires_in=600)
    op.hook['authz_response'] = lambda out, g: dict(out, expires_in=600) if 'access_token' in out else out

    def login():
        b = s.begin()
        ok, r = attempt(s.h.finalize, op.issuer, op.authorize(b['url'], 'alice'))
        ctx.step()
        return b['state'], ok and 'error' not in r, r
    st, ok, r = login()
    if not ctx.check(ok and not op.rejects, 'login-fails', '%r %r' % (r, op.rejects)):
        return
    born = CLOCK.now

    def valid(after, token, authn):
        CLOCK.now = born + after
        ok, r = attempt(s.h.get_valid_access_token, st)
        ctx.check(ok == token, 'token-validity', '%d seconds after: %r' % (after, r))
        ok, r = attempt(s.h.has_active_authentication, st)
        ctx.check(ok and r is authn, 'login-validity', '%d seconds after: %r' % (after, r))
        ctx.step()
    valid(0, True, True)
    valid(590, True, True)
    valid(610, False, True)
    valid(890, False, True)
    valid(910, False, False)
    if flow != 'id_token token':
        ok, r = attempt(s.h.refresh_access_token, st)
        ctx.check(ok and not op.rejects, 'refresh-fails', '%r %r' % (r, op.rejects))
        born = CLOCK.now
        valid(590, True, True)
        valid(610, False, True)
        valid(910, False, False)
    # tokens that have expired, or are of the future
    for iat, exp, want in ((-7200, -3600, False), (-7200, -60, False), (-3600, 60, True), (-100, 3600, True)):
        shift.update(iat=iat, exp=exp)
        _, ok, r = login()
        ctx.check(ok == want, 'id-token-accepted' if ok else 'id-token-refused', 'issued at %+d, expires at %+d: %.200r' % (iat, exp, r))
    for q in s.w.log:
        for j in (q.headers.get('dpop'), q.form.get('client_assertion') if q.endpoint == 'token' else None):
            if j:
                cl = jose.decode(j)[1]
                ctx.check(t <= cl['iat'] <= CLOCK.now and cl.get('exp', cl['iat'] + 600) == cl['iat'] + 600, 'times-sent', '%r, it was %d' % (cl, t))
    for exp in (60, 600):
        m = make_cookie('kaka', 'load', b'0123456789012345', expire=exp)
        a = dict(p.strip().split('=', 1) for p in m[1].split(';')[1:] if '=' in p)
        a = {k.lower(): v for k, v in a.items()}
        at = calendar.timegm(time.strptime(a['expires'], '%a, %d-%b-%Y %H:%M:%S GMT'))
        ctx.check(int(CLOCK.now) + 60 * exp - 1 <= at <= int(CLOCK.now) + 60 * exp + 1, 'cookie-expires', '%s, now %d' % (m[1], CLOCK.now))
        ok, r = attempt(parse_cookie, 'kaka', b'0123456789012345', m[1])
        ctx.check(ok and r[0] == 'load' and abs(int(r[1]) - CLOCK.now) <= 1, 'cookie-time', repr(r))
    ctx.outcome((flow, auth))


def part(tier):
    cs = [(z, t, f, a) for z in ZONES for t in TIMES for f in ('code', 'id_token token', 'code id_token') for a in ('client_secret_basic', 'private_key_jwt', 'client_secret_jwt')]
    return Part('zones', zone, cs, 'time zones x season x flow x authentication', '%d zones' % len(ZONES))
