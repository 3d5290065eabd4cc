"""C24: WebFinger. All identifiers of a grammar (scheme x user x host x port x path x query x fragment) against a reference normalisation written
from OpenID Connect Discovery 2.1.2; all answers with up to three links and every kind of failing answer, followed through to the login."""
import itertools
import re
from urllib.parse import parse_qsl, quote

from .. import large
from ..core import Part
from ..world import *

REL = 'http://openid.net/specs/connect/1.0/issuer'


def reference(s):
    """(resource, host) of an identifier with a scheme we support or none."""
    s = s.split('#', 1)[0]
    m = re.match('(?i)(https?)://(.*)', s) or re.match('(?i)(acct):(.*)', s)
    if m:
        rest = m.group(2)
        auth = re.split('[/?]', rest)[0]
        scheme = m.group(1).lower()
        if scheme == 'acct':
            return 'acct:' + rest, auth.rpartition('@')[2]
        return scheme + '://' + rest, auth
    auth = re.split('[/?]', s)[0]
    user, at, hp = auth.rpartition('@')
    if at and auth == s and ':' not in hp:
        return 'acct:%s@%s' % (user.replace('@', '%40'), hp), hp
    return 'https://' + s, auth


def webfinger(**conf):
    """The service of a client of its own."""
    h = handler({'': {'issuer': ''}}, services(web_finger=dict(SERVICES['web_finger'], **({'kwargs': conf} if conf else {}))))
    return h, h.init_client('').client_get('service', 'webfinger')


def asked(url):
    u = urlsplit(url)
    return u.scheme, u.netloc, u.path, sorted(parse_qsl(u.query, keep_blank_values=True)), u.fragment


def case_ident(ctx, case):
    scheme, host = case
    h, wf = SHARED.setdefault('wf', None) or webfinger()
    SHARED['wf'] = (h, wf)
    for user, port, path, qry, frag in itertools.product(USER, PORT, PATH, QUERY, FRAG):
        if scheme.lower() == 'acct:' and not user:
            continue
        ident = scheme + user + host + port + path + qry + frag
        res, auth = reference(ident)
        ctx.step()
        ctx.state(ident)
        for how in ('kwargs', 'args'):
            try:
                r = wf.get_request_parameters(resource=ident) if how == 'kwargs' else wf.get_request_parameters(request_args={'resource': ident})
                got = asked(r['url'])
            except Exception as e:
                r, got = {}, repr(e)
            want = ('https', auth, '/.well-known/webfinger', sorted([('rel', REL), ('resource', res)]), '')
            if got != want:
                kind = 'wrong-normalisation'
                if not scheme and not port + path + qry and bool(user) == bool(frag):
                    res2, auth2 = ('https://' + user + host, user + host) if user else ('acct:' + host, host)
                    if got == ('https', auth2, '/.well-known/webfinger', sorted([('rel', REL), ('resource', res2)]), ''):
                        kind = 'bare-host-as-acct' if not user else 'user-and-fragment-as-https'
                ctx.fail(kind, '%r: %r instead of %r' % (ident, got, want))
            ctx.check(r.get('method') == 'GET', 'wrong-method', repr(r))
        ctx.outcome((scheme, bool(user), bool(port), bool(path), bool(qry)))


SHARED = {}
SCHEME = ['', 'acct:', 'https://', 'http://', 'HTTPS://', 'Acct:']
USER = ['', 'joe@', 'Jane.Doe+x@', 'a@b@', 'a%40b@', 'a@b.org@c@']
HOST = ['example.com', 'Example.COM', 'localhost', '192.0.2.1', 'a-b.c-d.example', 'bücher.example']
PORT = ['', ':8080', ':443', ':80']
PATH = ['', '/', '/joe', '/a/b/', '/a@b', '/a:1', '/é%20', '/=x']
QUERY = ['', '?q', '?a=b&c=d', '?r=https://x.org/@y', '?a@b', '?resource=x&rel=y']
FRAG = ['', '#f', '#a@b', '#/x?y=z', '#@evil.org']
BAD = ['=joe', '@joe', '!joe', '=', '@', '!', 'acct:', 'acct:joe', 'acct:joe@', 'acct:joe@/p', 'acct:joe@?q', 'acct:joe@#f', 'acct:joe@:80', 'joe@', 'joe@/p',
       'joe@?q', 'joe@#f', 'joe@:80', 'a@b@', '/', '/p', '/p@q', '?q', '#f', ':80', ':', 'https://', 'https:///p', 'https://?q', 'https://#f', 'https:', 'https:example.com',
       'http:/example.com', 'http:example.com', 'https://:80', 'https://joe@', 'https://joe@:80', 'example.com:abc', 'joe@example.com:abc', 'https://example.com:abc',
       'acct:joe@example.com:abc', 'example.com:99999', 'https://example.com:99999', '=joe@example.com', '@joe@example.com', '!joe/example.com', '',
       'https://[::1', 'example.com:80:80', ' ', '\t']


def case_long(ctx, case):
    where, n = case
    h, wf = SHARED.setdefault('wf', None) or webfinger()
    SHARED['wf'] = (h, wf)
    x = large.value('', n, 'plain', '1')
    labels = '.'.join(x[i:i + 40] for i in range(0, len(x), 40)) + '.example'
    ident = {'user': 'acct:%s@example.com', 'email': '%s@example.com', 'host': 'https://%s/joe', 'bare': '%s/joe', 'acct-host': 'acct:joe@%s', 'path': 'https://example.com/%s', 'query': 'https://example.com/?q=%s',
             'segments': 'https://example.com/%s'}[where] % (labels if where in ('host', 'bare', 'acct-host') else '/'.join(x) if where == 'segments' else x)
    res, auth = reference(ident)
    ctx.step()
    ctx.state(case)
    got = attempt(lambda: asked(wf.get_request_parameters(resource=ident)['url']))
    ctx.check(got == (True, ('https', auth, '/.well-known/webfinger', sorted([('rel', REL), ('resource', res)]), '')), 'wrong-normalisation', '%s %d %s' % (where, n, repr(got)[:200]))
    ctx.outcome(where)


def case_bad(ctx, case):
    ident, = case
    h, wf = webfinger()
    w = World()
    ctx.state(case)
    ok, r = attempt(wf.get_request_parameters, resource=ident)
    ctx.step()
    ctx.outcome(type(r).__name__)
    ctx.check(not ok, 'not-refused', '%r: %r' % (ident, r))
    ok, r = attempt(h.begin, user_id=ident)
    ctx.check(not ok and not w.log and not h.issuer2rp, 'not-refused', '%r: %r %r' % (ident, r, w.log))


def case_rel(ctx, case):
    """A service that is to ask for another relation asks for, and goes by, that one."""
    rel, = case
    h, wf = webfinger(rel=rel)
    got = asked(wf.get_request_parameters(resource='joe@example.com')['url'])
    ctx.step()
    ctx.state(case)
    ctx.outcome(rel)
    ctx.check(dict(got[3])['rel'] == rel, 'another-relation-asked-for', repr(got))


LINKS = {'good': {'rel': REL, 'href': ISS[1]}, 'second': {'rel': REL, 'href': ISS[2]}, 'other': {'rel': 'http://webfinger.net/rel/avatar', 'href': ISS[2]},
         'prefix': {'rel': REL[:-1], 'href': ISS[2]}, 'suffix': {'rel': REL + '/x', 'href': ISS[2]}, 'upper': {'rel': REL.upper(), 'href': ISS[2]},
         'slash': {'rel': REL + '/', 'href': ISS[2]}, 'blanks': {'rel': ' ' + REL, 'href': ISS[2]}, 'fragment': {'rel': REL + '#', 'href': ISS[2]},
         'scheme': {'rel': REL.replace('http', 'https'), 'href': ISS[2]}, 'www': {'rel': REL.replace('//', '//www.'), 'href': ISS[2]},
         'within': {'rel': 'https://x.example.org/?' + REL, 'href': ISS[2]},
         'http': {'rel': REL, 'href': 'http://op3.example.org'}, 'HTTP': {'rel': REL, 'href': 'HTTP://op3.example.org'}, 'no-href': {'rel': REL},
         'blank': {'rel': REL, 'href': ''}, 'no-rel': {'href': ISS[2]}, 'ftp': {'rel': REL, 'href': 'ftp://op1.example.org'}, 'other-http': {'rel': 'x', 'href': 'http://op3.example.org'},
         'more': {'rel': REL, 'href': ISS[1], 'type': 'text/html', 'titles': {'en': 'x'}, 'properties': {'a': 'b'}}}


def case_links(ctx, case):
    names, http, ident = case
    w = World()
    ops = {i: SimOP(w, i, k) for i, k in ((ISS[1], 'op1'), (ISS[2], 'op2'), ('http://op3.example.org', 'op3'))}
    doc = {'subject': ident, 'links': [LINKS[n] for n in names]}
    asks = []

    def fault(req, ep):
        if '/.well-known/webfinger' in req.url:
            asks.append(req)
            return Resp(200, json.dumps(doc), {'content-type': 'application/jrd+json' if len(names) % 2 else 'application/json'})
    w.fault = fault
    kw = {} if http is None else {'conf': {'allow': {'http_links': http}}}
    h = handler({'': dynamic_conf()}, services(web_finger=dict(SERVICES['web_finger'], **({'kwargs': kw} if kw else {}))))
    ok, b = attempt(h.begin, user_id=ident)
    ctx.step()
    ctx.state(case)
    issuers = [LINKS[n] for n in names if LINKS[n].get('rel') == REL]
    first = issuers[0].get('href') if issuers else None
    want = None
    if first and (first.startswith('https:') or first.lower().startswith('http:') and http):
        want = first
    spoilt = any(n in ('no-href', 'no-rel', 'blank') for n in names)
    if not ctx.check(len(asks) == 1 and asks[0].method == 'GET' and asks[0].host == 'example.com', 'not-asked-once', repr(w.log)):
        return
    others = [r for r in w.log if r not in asks]
    if not ok:
        ctx.check(want is None or spoilt or want.startswith('HTTP:'), 'good-answer-refused', '%r: %r' % (case, b))
        ctx.check(not h.issuer2rp, 'adopted-though-refused', repr(list(h.issuer2rp)))
        ctx.check(want or not others, 'asked-somebody', repr(others))
        ctx.outcome('refused')
        return
    target = urlsplit(b['url'])
    adopted = [i for i in ops if urlsplit(i).netloc == target.netloc]
    allowed = [want] if not spoilt else [x['href'] for x in issuers if x.get('href')]
    ctx.check(want is not None or spoilt, 'adopted-something', '%r: %r' % (case, b))
    ctx.check(adopted and adopted[0] in allowed, 'wrong-issuer', '%r: %r' % (case, b['url']))
    ctx.check(http or target.scheme == 'https', 'http-link-adopted', b['url'])
    iss = adopted[0]
    ctx.check(all(r.host == urlsplit(iss).netloc for r in others), 'asked-others', repr(others))
    ctx.check(list(h.issuer2rp) == [iss], 'wrong-client', repr(list(h.issuer2rp)))
    w.fault = None
    ok, res = attempt(h.finalize, iss, ops[iss].authorize(b['url'], 'joe'))
    ctx.check(ok and 'error' not in res and res['userinfo']['sub'] == 'joe', 'login-failed', repr(res))
    ctx.outcome((iss, len(names)))
    ctx.step()


def case_answer(ctx, case):
    """Answers that aren't a usable document: nothing is adopted, and a later attempt works."""
    name, n = case
    w = World()
    op = SimOP(w, ISS[1], 'op1')
    good = {'subject': 'acct:joe@example.com', 'links': [LINKS['good']]}
    import requests
    bad = {'404': lambda: jresp(good, 404), '500': lambda: jresp(good, 500), '302': lambda: Resp(302, json.dumps(good), {'location': 'https://evil.example.net/x', 'content-type': 'application/json'}),
           'html': lambda: Resp(200, '<html/>', {'content-type': 'text/html'}), 'empty': lambda: Resp(200, '', {'content-type': 'application/json'}),
           'no-links': lambda: jresp({'subject': 'x'}), 'links-null': lambda: jresp({'links': None}), 'links-string': lambda: jresp({'links': 'x'}),
           'links-empty': lambda: jresp({'links': []}), 'link-string': lambda: jresp({'links': ['x']}), 'array': lambda: jresp([good]),
           'error': lambda: jresp({'error': 'x'}), 'href-list': lambda: jresp({'links': [{'rel': REL, 'href': [ISS[1]]}]}), 'down': lambda: requests.ConnectionError('x'),
           'href-int': lambda: jresp({'links': [{'rel': REL, 'href': 1}]}), 'href-object': lambda: jresp({'links': [{'rel': REL, 'href': {}}]}),
           'other': lambda: jresp({'links': [LINKS['other']]})}[name]
    count = [0]

    def fault(req, ep):
        if '/.well-known/webfinger' in req.url:
            count[0] += 1
            return bad() if count[0] <= n else jresp(good)
    w.fault = fault
    h = handler({'': dynamic_conf()})
    ctx.state(case)
    for i in range(n):
        ok, b = attempt(h.begin, user_id='joe@example.com')
        ctx.step()
        ctx.check(not ok, 'begun-without-issuer', repr(b))
        ctx.check(not h.issuer2rp and all('webfinger' in r.url and r.host == 'example.com' for r in w.log), 'adopted-something', repr(w.log))
    ok, b = attempt(h.begin, user_id='joe@example.com')
    ctx.step()
    if ctx.check(ok, 'retry-failed', repr(b)):
        ok, res = attempt(h.finalize, ISS[1], op.authorize(b['url'], 'joe'))
        ctx.check(ok and 'error' not in res, 'login-failed', repr(res))
    ctx.outcome(name)


def parts(tier):
    q = tier == 'quick'
    k = {n: len(n) for n in LINKS}
    kinds = list(LINKS) if not q else [n for n in LINKS if n not in ('upper', 'more', 'other-http', 'slash', 'blanks', 'fragment', 'scheme', 'www')]
    seqs = [s for n in range(0, 3) for s in itertools.product(LINKS, repeat=n)]
    if not q:
        seqs += list(itertools.product(kinds, repeat=3))
    else:
        seqs += list(itertools.product(['good', 'other', 'http', 'second'], repeat=3))
    lk = [(s, http, i) for s in seqs for http in (None, False, True) for i in (('joe@example.com',) if q or len(s) == 3 else ('joe@example.com', 'https://example.com/joe', 'example.com'))]
    an = [(n, c) for n in ('404', '500', '302', 'html', 'empty', 'no-links', 'links-null', 'links-string', 'links-empty', 'link-string', 'array', 'error', 'href-list',
                           'href-int', 'href-object', 'down', 'other') for c in (1, 2)]
    return [Part('identifiers', case_ident, [(s, h) for s in SCHEME for h in HOST], 'the identifier grammar'), Part('refused', case_bad, [(b,) for b in BAD], 'not identifiers'),
            Part('large', case_long, [(w, n) for w in ('user', 'email', 'host', 'bare', 'acct-host', 'path', 'query', 'segments') for n in large.sizes(tier, 4100)
                                      if n < 230 or 'host' not in w and w != 'bare'], 'identifiers of any length'),
            Part('relation', case_rel, [(REL,), ('http://example.org/rel/x',)], 'relations'),
            Part('links', case_links, lk, 'answers of up to three links'), Part('answers', case_answer, an, 'failing answers')]


META = dict(rule='distinct identifiers and answers')
