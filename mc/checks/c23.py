"""C23: cookies. Every payload over an alphabet of awkward characters x mode x keys round trips; every single edit, field permutation,
boundary shift, truncation and splice of made cookies, every other key pair, name and mode is refused in the documented way."""
import base64
import itertools
from http.cookies import CookieError, SimpleCookie

from .. import large
from ..core import Part
from ..env import CLOCK
from ..world import *

from oidcrp.cookie import CookieDealer, InvalidCookieSign, make_cookie, parse_cookie

SEED, KEY = b'0123456789abcdef', b'fedcba9876543210'
ALPHA = ['a', '1', '|', ':', ';', '=', '"', '\\', ' ', ',', 'é', '€', '/', '%', "'", '-']


def header(made, *others):
    """What a browser sends back."""
    c = SimpleCookie(made[1])
    return '; '.join(list(others[:1]) + ['%s=%s' % (k, m.coded_value) for k, m in c.items()] + list(others[1:]))


def parse(name, seed, kaka, key=None):
    try:
        return 'value', parse_cookie(name, seed, kaka, key)
    except InvalidCookieSign:
        return 'refused', None
    except Exception as e:
        return 'crash', e


def case_round(ctx, case):
    load, mode = case
    key = KEY if mode == 'enc' else None
    for seed in (SEED, SEED.decode(), b'\xff\xfe\x00\x80' * 4, b''):
        for ts in ('1700000000', '0', '', 'Fri 17:00'):
            for attr in ({}, {'expire': 5, 'domain': 'rp.example.com', 'path': '/x', 'same_site': 'Lax'}):
                made = make_cookie('kaka', load, seed, timestamp=ts, enc_key=key, **attr)
                ctx.step()
                if made[0] != 'Set-Cookie':
                    ctx.fail('not-a-header', repr(made))
                want = (load, ts or str(int(CLOCK.now)))
                for k in (made[1], header(made), header(made, 'other=1', 'kaka2="x|y"'), made[1].encode()):
                    got = parse('kaka', seed, k, key)
                    ctx.check(got == ('value', want), 'no-round-trip:' + mode, '%r: %r instead of %r (%r)' % (k, got, want, seed))
    ctx.state(case)
    ctx.outcome((mode, len(load)))


class Server:
    def __init__(self, symkey, seed=SEED, **kw):
        self.symkey, self.seed = symkey, seed
        for k, v in kw.items():
            setattr(self, k, v)


def case_dealer(ctx, case):
    value, typ, sym = case
    d = CookieDealer(Server(sym, cookie_name='kaka'))
    for name in (None, 'other'):
        made = d.create_cookie(value, typ, cookie_name=name)
        ok, got = attempt(d.get_cookie_value, header(made), name or 'kaka')
        ctx.step()
        ctx.check(ok and got == (value, str(int(CLOCK.now)), typ), 'dealer-no-round-trip', '%r of %r' % (got, case))
        ok, got = attempt(d.get_cookie_value, header(made), 'unknown')
        ctx.check(ok and got is None, 'other-name', repr(got))
    # another dealer
    for other in (Server(sym, seed=b'another-seed-0123'), Server(b'another-key-01234'), Server(None if sym else KEY)):
        try:
            got = CookieDealer(other).get_cookie_value(header(made), 'other')
        except InvalidCookieSign:
            got = None
        except Exception as e:
            got = e
        ctx.check(got is None, 'other-dealer-reads-it', repr(got))
    ctx.state(case)
    ctx.outcome(bool(sym))


def fields(value):
    """The content of a cookie value, None if it has none."""
    p = value.split('|')
    if len(p) == 4:
        try:
            return p[0], [base64.b64decode(x, validate=True) for x in p[1:]]
        except ValueError:
            return p
    return p


COOKIES = [('signed', 'alice', '1700000000'), ('signed', 'a|b', '1700000000'), ('signed', 'bob::1700000000::sso', '1700000000'), ('signed', '', '1700000000'),
           ('signed', '12', '34'), ('enc', 'alice', '1700000000'), ('enc', 'bob::1700000000::sso', '1700000000'), ('enc', 'x', '12'), ('enc', '', '1700000000')]


def raw(mode, load, ts, seed=SEED, key=KEY):
    made = make_cookie('kaka', load, seed, timestamp=ts, enc_key=key if mode == 'enc' else None)
    return SimpleCookie(made[1])['kaka'].value


def quoted(value):
    c = SimpleCookie()
    c['kaka'] = value
    return 'kaka=' + c['kaka'].coded_value


def edits(v, tier):
    """All single edits."""
    subst = '0aA|=: +' if tier == 'quick' else '0123456789abcdefABCXYZ|=:;, +/_-"\\é\x7f'
    for i in range(len(v)):
        yield 'delete', v[:i] + v[i + 1:]
        yield 'cut', v[:i]
        yield 'cut-front', v[i:] if i else v + 'x'
        yield 'double', v[:i] + v[i] + v[i:]
        yield 'swap', v[:i] + v[i + 1:i + 2] + v[i] + v[i + 2:]
        yield 'flip', v[:i] + chr(ord(v[i]) ^ 1) + v[i + 1:]
        yield 'case', v[:i] + v[i].swapcase() + v[i + 1:]
        for c in subst:
            yield 'replace', v[:i] + c + v[i + 1:]
            yield 'insert', v[:i] + c + v[i:]
    for c in subst:
        yield 'append', v + c


def shifts(v):
    """The same characters with the separators elsewhere; the separators come last in a signed cookie."""
    p = v.split('|')
    for n in (3, 4):
        if len(p) < n:
            continue
        if n == 3:
            p = ['|'.join(p[:-2])] + p[-2:]
        flat = ''.join(p)
        for cuts in itertools.combinations_with_replacement(range(len(flat) + 1), n - 1):
            b = (0,) + cuts + (len(flat),)
            yield 'shift', '|'.join(flat[b[i]:b[i + 1]] for i in range(n))
        break


def judge(ctx, kind, mode, orig, value, load, ts, also=()):
    if value == orig or fields(value) == fields(orig) and mode == 'enc':     # the last characters of base64
        return
    key = KEY if mode == 'enc' else None
    try:
        back = SimpleCookie(quoted(value))
    except CookieError:
        return                                            # can't be sent
    if 'kaka' not in back or back['kaka'].value != value:
        return                                            # can't be sent
    how, got = parse('kaka', SEED, quoted(value), key)
    ctx.step()
    ctx.outcome((kind, mode, how))
    if how == 'crash':
        ctx.fail('tampering-crashes:' + mode, '%s: %r gives %r' % (kind, value, got))
    elif how == 'value' and got is not None:
        moved = kind == 'shift' or any(value.replace('|', '') == o.replace('|', '') for o in [orig] + list(also))
        ctx.fail('%s-accepted:%s' % ('boundary-shift' if moved else kind, mode), '%r instead of %r gives %r' % (value, orig, got))
    d = CookieDealer(Server(key))
    try:
        got = d.get_cookie_value(quoted(value), 'kaka')
    except InvalidCookieSign:
        got = None
    except Exception as e:
        ctx.fail('dealer-crashes:' + mode, '%s: %r gives %r' % (kind, value, e))
        got = None
    ctx.check(got is None, 'dealer-accepts:' + mode, '%s: %r instead of %r gives %r' % (kind, value, orig, got))


def case_tamper(ctx, case):
    i, tier = case
    mode, load, ts = COOKIES[i]
    v = raw(mode, load, ts)
    ctx.state(case)
    for kind, value in itertools.chain(edits(v, tier), shifts(v) if mode == 'signed' or tier != 'quick' else ()):
        judge(ctx, kind, mode, v, value, load, ts)
    p = v.split('|')
    if mode == 'enc':
        for a, b in ((1, 2), (2, 3), (1, 3), (0, 1)):
            x = [base64.b64decode(y) if j else y.encode() for j, y in enumerate(p)]
            for n in range(1, 17):
                for s in (1, -1):
                    y = list(x)
                    if s == 1:
                        y[a], y[b] = x[a] + x[b][:n], x[b][n:]
                    elif n <= len(x[a]):
                        y[a], y[b] = x[a][:-n], x[a][-n:] + x[b]
                    enc = [y[0].decode('latin-1')] + [base64.b64encode(z).decode() for z in y[1:]]
                    judge(ctx, 'shift', mode, v, '|'.join(enc), load, ts)
    for n in range(0, len(p) + 3):
        for perm in itertools.product(p + [''], repeat=n) if n < 5 else ():
            judge(ctx, 'fields', mode, v, '|'.join(perm), load, ts)
    ctx.outcome('done')


def case_dealer_tamper(ctx, case):
    """Nothing but the value, time and type of a dealer's cookie can be read from any shift of its content."""
    value, typ = case
    d = CookieDealer(Server(None, cookie_name='kaka'))
    v = SimpleCookie(d.create_cookie(value, typ)[1])['kaka'].value
    ctx.state(case)
    for kind, x in itertools.chain(shifts(v), edits(v, 'quick')):
        if x == v:
            continue
        try:
            got = d.get_cookie_value(quoted(x), 'kaka')
        except InvalidCookieSign:
            got = None
        ctx.step()
        ctx.check(got is None, 'dealer-accepts-shift', '%r instead of %r gives %r' % (x, v, got))
    ctx.outcome(len(v))


def case_splice(ctx, case):
    """The fields of two cookies in every mix, also made with other keys."""
    i, j, keys = case
    (m, l, t), (m2, l2, t2) = COOKIES[i], COOKIES[j]
    ks = {'same': (SEED, KEY), 'seed': (SEED[::-1], KEY), 'key': (SEED, KEY[::-1]), 'swapped': (KEY, SEED)}[keys]
    a, b = raw(m, l, t), raw(m2, l2 if i != j else l2 + 'x', t2, *ks)
    p, r = a.split('|'), b.split('|')
    ctx.state(case)
    ctx.outcome((m, m2, keys))
    own = {a} | ({b} if (keys == 'same' or keys == 'key' and m == 'signed') and m == m2 else set())
    for n in (3, 4):
        for mix in itertools.product(sorted(set(p + r)), repeat=n):
            v = '|'.join(mix)
            if v in own:
                continue
            judge(ctx, 'splice', m, a, v, l, t, own)


KEYS = [b'', b'a', b'ab', b'b', b'abc', b'c', b'bc', 'ab', b'\xff\xfe', b'x' * 40, b'2:', b'1:']


def case_keys(ctx, case):
    (s, k), load = case
    k = k or None
    made = make_cookie('kaka', load, s, timestamp='1700000000', enc_key=k)
    ctx.state(case)
    for s2 in KEYS:
        for k2 in KEYS:
            k2 = k2 or None
            same = as_b(s) == as_b(s2) and as_b(k) == as_b(k2)
            how, got = parse('kaka', s2, header(made), k2)
            ctx.step()
            if same:
                ctx.check((how, got) == ('value', (load, '1700000000')), 'not-read', '%r %r' % (how, got))
            else:
                ctx.check(how == 'refused' or (how, got) == ('value', None), 'other-keys-%s' % ('accepted' if how == 'value' else how),
                          'made with %r, read with %r: %r' % ((s, k), (s2, k2), got))
    for n in ('kak', 'kaka2', 'Kaka', 'xkaka', '', '__Host-kaka'):
        how, got = parse(n, s, header(made), k)
        ctx.check((how, got) == ('value', None), 'other-name', '%r %r' % (n, got))
    ctx.outcome(bool(k))


def as_b(x):
    return x.encode() if isinstance(x, str) else x


def case_garbage(ctx, case):
    """Anything at all instead of a cookie."""
    kaka, mode = case
    how, got = parse('kaka', SEED, kaka, KEY if mode == 'enc' else None)
    ctx.step()
    ctx.state(case)
    ctx.outcome(how)
    ctx.check(how == 'refused' or (how, got) == ('value', None), 'garbage-%s' % how, repr(got))


def case_secret(ctx, case):
    load, = case
    a, b = raw('enc', load, '1700000000').split('|'), raw('enc', load, '1700000000').split('|')
    other = ''.join(chr(ord(c) ^ 1) for c in load)
    o = raw('enc', other, '1700000000').split('|')
    ctx.state(case)
    ctx.step(3)
    if not ctx.check(len(a) == 4, 'not-encrypted', repr(a)):
        return
    iv, ct, tag = [base64.b64decode(x) for x in a[1:]]
    blob = iv + ct + tag
    for n in (3,) if len(load) > 2 else ():
        ctx.check(not any(load[i:i + n].encode() in blob for i in range(len(load) - n + 1)) and not load in '|'.join(a), 'content-visible', repr(a))
    ctx.check(a[1] != b[1] and a[1] != o[1], 'iv-reused', '%r %r' % (a, b))
    if len(load) > 1:
        ctx.check(a[2] != b[2], 'same-ciphertext', repr(a))
        oc = base64.b64decode(o[2])
        ctx.check(bytes(x ^ y for x, y in zip(ct, oc)) != bytes(x ^ y for x, y in zip(load.encode(), other.encode())), 'keystream-reused', repr(o))
    ctx.outcome(len(load))


def case_attr(ctx, case):
    sec, http, ss, dom, path, exp, mode = case
    kw = {'secure': sec, 'http_only': http, 'same_site': ss, 'domain': dom, 'path': path, 'expire': exp}
    kw = {k: v for k, v in kw.items() if v is not None}
    made = make_cookie('kaka', 'load', SEED, timestamp='1700000000', enc_key=KEY if mode == 'enc' else None, **kw)
    parts_ = [p.strip().split('=', 1) for p in made[1].split(';')[1:]]
    got = {p[0].lower(): (p[1] if len(p) > 1 else True) for p in parts_}
    ctx.step()
    ctx.state(case)
    ctx.outcome(tuple(sorted(got)))
    ctx.check(('secure' in got) == (sec is not False), 'secure', made[1])
    ctx.check(('httponly' in got) == (http is not False), 'httponly', made[1])
    for k, v in (('samesite', ss), ('domain', dom), ('path', path)):
        ctx.check(got.get(k) == (v or None), k, made[1])
    ctx.check(('expires' in got) == bool(exp), 'expires', made[1])
    if exp:
        import calendar
        import time
        t = calendar.timegm(time.strptime(got['expires'], '%a, %d-%b-%Y %H:%M:%S GMT'))
        want = CLOCK.now + (0 if exp == 'now' else exp * 60)
        ctx.check(abs(t - want) <= 1, 'wrong-expiry', '%s: %s instead of %s' % (made[1], t, want))


def case_delete(ctx, case):
    mode, name = case
    d = CookieDealer(Server(KEY if mode == 'enc' else None, cookie_name='kaka', cookie_path='/p', cookie_domain='rp.example.com'))
    made = d.delete_cookie(name)
    c = SimpleCookie(made[1])
    ctx.state(case)
    ctx.step()
    ctx.outcome(mode)
    if ctx.check(list(c) == [name or 'kaka'], 'wrong-cookie', made[1]):
        import calendar
        import time
        m = c[name or 'kaka']
        ctx.check(m['expires'] and calendar.timegm(time.strptime(m['expires'], '%a, %d-%b-%Y %H:%M:%S GMT')) < CLOCK.now, 'not-deleted', made[1])
        ctx.check(m['path'] == '/p' and m['domain'] == 'rp.example.com', 'another-scope', made[1])


def parts(tier):
    q = tier == 'quick'
    loads = [''.join(p) for n in range(4 if q else 5) for p in itertools.product(ALPHA[:10] if q or n == 4 else ALPHA, repeat=n)]
    loads = [x for x in loads if not q or len(x) < 3 or x[1] in '|:;"\\'] + ALPHA + ['x' * 300, 'bob::1700000000::sso', 'å€ 中文', '{"a": "b|c"}']
    vals = [''.join(p) for n in range(4 if q else 5) for p in itertools.product(['a', ':', '::', '|', '::1700000000::', '%3A'], repeat=n)]
    dl = [(v, t, s) for v in vals for t in ('', 'sso', ':', '::', 'a::b', ':a', '|', 'é;') for s in (None, KEY)]
    sp = [(i, j, k) for i in range(len(COOKIES)) for j in range(len(COOKIES)) for k in ('same', 'seed', 'key', 'swapped')]
    g = [''] + ['kaka=' + x for x in ('', '|', '||', '|||', '||||', '1|2|3', '1|2|3|4', '1|QQ==|QQ==|QQ==', '1|a|b|c', '=|=|=|=', '1|é|é|é', '"1|\\"', '1|' * 50,
                                      '1|MDEyMzQ1Njc4OTAx||MDEyMzQ1Njc4OTAxMjM0NQ==')] + ['kaka', ';;;', '=', 'a=b', 'kaka;', '\x00', 'kaka=\x00', 'expires=1',
                                                                                          b'\xff\xfe', b'kaka=\xff|\xff|\xff', b'kaka=1|2|3']
    at = list(itertools.product((None, True, False), (None, True, False), ('', 'None', 'Strict', 'Lax'), ('', 'rp.example.com'), ('', '/', '/x', '/a/b/'),
                                (0, 5, -1, 1440, 'now'), ('signed', 'enc')))
    dt = [(v, t) for v in ('alice', '', 'x::0::y', 'x::::y', '0', '::0::', '::00::', 'a%3A:', ':') for t in ('', 'sso', '::0::x', '0', 'y::00::')]
    return [Part('large', large.cookies, [(n, ch, m) for n in large.sizes(tier) for ch in large.CHARS for m in ('sign', 'enc')], 'length x alphabet x mode', 'one changed character'),
            Part('dealer-tamper', case_dealer_tamper, dt, 'shifts of cookies of the dealer'), Part('round-trip', case_round, [(x, m) for x in dict.fromkeys(loads) for m in ('signed', 'enc')], 'payloads'),
            Part('dealer', case_dealer, dl, 'values x types x mode'), Part('tamper', case_tamper, [(i, tier) for i in range(len(COOKIES))], 'edits'),
            Part('splice', case_splice, sp, 'mixes of the fields of two cookies'),
            Part('keys', case_keys, [((s, k), x) for s in KEYS for k in KEYS for x in ('load', 'a|b|c')], 'key pairs'),
            Part('garbage', case_garbage, [(x, m) for x in g for m in ('signed', 'enc')], 'not cookies'),
            Part('secret', case_secret, [(x,) for x in dict.fromkeys(loads) if x], 'payloads'), Part('attributes', case_attr, at, 'attributes'),
            Part('delete', case_delete, [(m, n) for m in ('signed', 'enc') for n in (None, 'x')], 'deletion')]


META = dict(rule='distinct (payload, mode, edit, keys)')
