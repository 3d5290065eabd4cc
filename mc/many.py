"""Populations: what holds for two sessions (logouts, refreshes, issuers) holds for every number of them up to the bound. The
population is grown one by one; what is claimed of each member is checked for every one of them at the end."""
import re

from .world import *

ORDERS = {'fifo': lambda n: list(range(n)), 'lifo': lambda n: list(reversed(range(n))), 'stride': lambda n: [i * 7 % n for i in range(n)] if n % 7 else list(range(0, n, 2)) + list(range(1, n, 2))}


def holds(text, x):
    return x in text and re.search(re.escape(x) + '(?![0-9A-Za-z])', text) is not None


def lookups(st, me, ctx, tag):
    for get, v in (('nonce', me['nonce']), ('sub', me['user']), ('sid', me['sid'])):
        ok, got = attempt(getattr(st, 'get_state_by_' + get), v)
        ctx.check(ok and got == me['state'], tag + ':' + get, '%s -> %r' % (v, got))


def population(ctx, case):
    """n sessions of n users at two providers, all open at once."""
    n, order, flow, pkce, logouts = case
    s = Setup(2, response_types=[flow], pkce=pkce, op_kw={'caps': {'backchannel_logout_session_supported': True}})
    all_ = []
    for op in s.ops:
        op.issue_rt = True
        op.idt_lifetime = op.at_lifetime = 10 ** 6
    for i in range(n):
        op = s.ops[i % 2]
        b = s.h.begin(op.issuer)
        q = query(b['url'])
        all_.append({'op': op, 'url': b['url'], 'state': b['state'], 'nonce': q['nonce'], 'user': 'u%d' % i, 'sid': 'sid%d' % i})
        ctx.step()
    ctx.state(case)
    for k in ('state', 'nonce'):
        ctx.check(len({m[k] for m in all_}) == n, 'not-fresh:' + k, repr(case))
    for i in ORDERS[order](n):
        m = all_[i]
        ok, r = attempt(s.h.finalize, m['op'].issuer, m['op'].authorize(m['url'], m['user'], sid=m['sid']))
        ctx.step()
        if not ctx.check(ok and 'error' not in r, 'login-failed', '%d of %d %r %r' % (i, n, r, m['op'].rejects)):
            return
        ctx.check(r['userinfo']['sub'] == m['user'] and r['state'] == m['state'] and m['op'].tokens[r['token']]['state'] == m['state'], 'mixed-up', '%d %r' % (i, r))
        m['token'] = r['token']
    for i, m in enumerate(all_):
        st = s.context(m['op']).state
        lookups(st, m, ctx, 'key-lost')
        ok, r = attempt(s.h.get_valid_access_token, m['state'])
        ctx.check(ok and r[0] == m['token'], 'token-lost', '%d of %d %r' % (i, n, r))
        ok, r = attempt(s.h.refresh_access_token, m['state'])
        ctx.step()
        if ctx.check(ok and not m['op'].rejects, 'refresh-failed', '%d of %d %r %r' % (i, n, r, m['op'].rejects)):
            ctx.check(m['op'].tokens[r['access_token']]['state'] == m['state'], 'refreshed-other', '%d %r' % (i, r))
            m['token'] = r['access_token']
        m['out'] = []
        for _ in range(logouts):
            q = query(s.h.logout(m['state'])['url'])
            ctx.check(jose.decode(q['id_token_hint'])[1]['sub'] == m['user'], 'hint-of-another', '%d %r' % (i, q))
            m['out'].append(q['state'])
            ctx.step()
    for m in all_:
        st = s.context(m['op']).state
        for x in m['out']:
            ok, got = attempt(st.get_state_by_logout_state, x)
            ctx.check(ok and got == m['state'], 'logout-state-lost', '%s -> %r' % (x, got))
    gone = [m for i, m in enumerate(all_) if i % 3 != 1]
    for m in gone:
        ok, r = attempt(s.h.clear_session, m['state'])
        ctx.step()
        ctx.check(ok, 'not-cleared', repr(r))
    dump = ' '.join(json.dumps(snapshot(s.client(op))) for op in s.ops if op.issuer in s.h.issuer2rp)
    for m in gone:
        ctx.check(not any(holds(dump, x) for x in [m['state'], m['nonce'], m['token'], *m['out']]), 'left-behind', m['user'])
        ok, r = attempt(s.h.has_active_authentication, m['state'])
        ctx.check(not ok, 'usable-after-clear', repr(r))
    for m in all_:
        if m in gone:
            continue
        st = s.context(m['op']).state
        lookups(st, m, ctx, 'key-lost-with-others')
        for x in m['out']:
            ok, got = attempt(st.get_state_by_logout_state, x)
            ctx.check(ok and got == m['state'], 'logout-state-lost-with-others', '%s -> %r' % (x, got))
        ok, r = attempt(s.h.get_user_info, m['state'])
        ctx.step()
        ctx.check(ok and r['sub'] == m['user'], 'user-info-lost', repr(r))
        ok, r = attempt(s.h.has_active_authentication, m['state'])
        ctx.check(ok and r is True, 'authentication-lost', repr(r))
    ctx.outcome(len(all_) - len(gone))


def repeats(ctx, case):
    """One session does the same thing n times, beside another one."""
    what, n, rotate = case
    s = Setup(1, op_kw={'caps': {'backchannel_logout_session_supported': True}})
    op = s.op
    op.issue_rt, op.idt_lifetime, op.at_lifetime = True, 10 ** 6, 10 ** 6
    other = s.login('bob', sid='sid-b')
    me = s.login('alice', sid='sid-a')
    st = s.context(op).state
    outs, last = [], me['token']
    ob = query(s.h.logout(other['state'])['url'])['state']
    for i in range(n):
        ctx.state((case, i))
        ctx.step()
        if what == 'logout':
            outs.append(query(s.h.logout(me['state'])['url'])['state'])
            for x in outs:
                ok, got = attempt(st.get_state_by_logout_state, x)
                ctx.check(ok and got == me['state'], 'logout-state-lost', '%d of %d -> %r' % (outs.index(x), i + 1, got))
        elif what == 'refresh':
            op.rotate_rt = op.issue_rt = {'always': True, 'never': False, 'alternate': i % 2 == 0, 'once': i == n // 2}[rotate]
            CLOCK.now += 1
            ok, r = attempt(s.h.refresh_access_token, me['state'])
            if not ctx.check(ok and not op.rejects, 'refresh-failed', 'number %d: %r %r' % (i + 1, r, op.rejects)):
                return
            last = r['access_token']
            ctx.check(s.h.get_valid_access_token(me['state'])[0] == last, 'old-token', repr(i))
        elif what == 'userinfo':
            ok, r = attempt(s.h.get_user_info, me['state'])
            ctx.check(ok and r['sub'] == 'alice' and s.w.log[-1].headers['authorization'] == 'Bearer ' + last, 'user-info', repr(r))
        elif what == 'begin':
            q = query(s.h.begin(op.issuer)['url'])
            ctx.check(q['state'] not in outs and q['nonce'] not in outs, 'not-fresh', '')
            outs += [q['state'], q['nonce']]
        elif what == 'relogin':
            # the same user again and again, always with the same session id
            r = s.login('alice', sid='sid-a')
            ctx.check(st.get_state_by_sub('alice') == r['state'] == st.get_state_by_sid('sid-a'), 'old-state', repr(i))
            if i % 2:
                s.h.clear_session(r['state'])
                ctx.check(not holds(json.dumps(snapshot(s.client(op))), r['state']), 'left-behind', '')
        ctx.check(s.h.has_active_authentication(me['state']) is True and s.h.get_valid_access_token(other['state'])[0] == other['token'], 'lost', repr(i))
    ok, r = attempt(s.h.clear_session, me['state'])
    ctx.check(ok, 'not-cleared', repr(r))
    dump = json.dumps(snapshot(s.client(op)))
    left = [x for x in [me['state'], me['token'], last] + (outs if what == 'logout' else []) if holds(dump, x)]
    ctx.check(not left, 'left-behind', repr(left[:3]))
    ctx.check(st.get_state_by_sub('bob') == st.get_state_by_sid('sid-b') == st.get_state_by_logout_state(ob) == other['state'], 'other-session', '')
    if what == 'begin':
        for x in outs[::2]:
            ok, r = attempt(s.h.state2issuer, x)
            ctx.check(ok and r == op.issuer, 'begun-session-lost', repr(r))
    ctx.outcome(what)


def issuers(ctx, case):
    """n issuers, found one after the other with one handler."""
    n, order, method = case
    w = World()
    ops = [SimOP(w, 'https://op%d.example.org%s' % (i, '' if i % 3 else '/t/%d' % i), 'op%d' % (1 + i % 3)) for i in range(n)]
    conf = dynamic_conf(prefs={'token_endpoint_auth_method': method})
    h = handler({'': conf})
    mine = {}
    for op in ops:
        b = h.begin(op.issuer)
        ctx.step()
        mine[op.issuer] = b
    ctx.state(case)
    uris = {}
    for i in ORDERS[order](n):
        op, b = ops[i], mine[ops[i].issuer]
        r2 = h.begin(op.issuer)
        ok, r = attempt(h.finalize, op.issuer, op.authorize(b['url'], 'u%d' % i))
        ctx.step()
        ctx.check(ok and 'error' not in r and r['userinfo']['sub'] == 'u%d' % i and not op.rejects, 'login-failed', '%d of %d %r %r' % (i, n, r, op.rejects))
        ctx.check(len(w.to('discovery', op)) == 1 and len(w.to('registration', op)) == 1, 'set-up-again', op.issuer)
        ctx.check(h.state2issuer(b['state']) == op.issuer == h.state2issuer(r2['state']), 'state-of-another', op.issuer)
        for u in op.last_registration['redirect_uris']:
            ctx.check(uris.setdefault(u, op.issuer) == op.issuer, 'uri-of-two-issuers', u)
            ctx.check(h.hash2issuer.get(u.split('/')[-1]) == op.issuer, 'uri-leads-elsewhere', u)
        c = h.issuer2rp[op.issuer].client_get('service_context')
        ctx.check(c.client_id in op.clients and c.client_secret == op.clients[c.client_id]['client_secret'], 'credentials-of-another', op.issuer)
    ctx.check(len({id(h.issuer2rp[op.issuer]) for op in ops}) == n, 'shared-client', '')
    ctx.outcome(n)


def sizes(tier):
    return (1, 2, 3, 5, 8, 17, 40, 140, 1100) if tier == 'quick' else (1, 2, 3, 5, 8, 17, 40, 140, 600, 1100, 3000)
