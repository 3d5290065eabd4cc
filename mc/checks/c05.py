"""C05: the session store against a plain record model, by breadth-first search."""
import json

from oidcmsg.message import Message
from oidcmsg.oauth2 import AuthorizationResponse as OAuth2AuthorizationResponse
from oidcmsg.oidc import AccessTokenResponse, AuthorizationRequest, AuthorizationResponse, IdToken, OpenIDSchema

from oidcrp.state_interface import StateInterface

from .. import large, similar
from ..core import BFS, Found, Part
from ..world import plain, attempt

KEYS = ['k1', 'k2']
CLS = {'auth_request': AuthorizationRequest, 'auth_response': AuthorizationResponse,
       'token_response': AccessTokenResponse, 'refresh_token_response': AccessTokenResponse,
       'user_info': OpenIDSchema, 'refresh_token_request': Message}
IDT = {'iss': 'https://op', 'sub': 'alice', 'aud': ['me'], 'exp': 1, 'iat': 0}
BODY = {
    'auth_request': [{'client_id': 'c', 'redirect_uri': 'https://rp/cb?a=b&c=d', 'response_type': ['code'],
                      'scope': ['openid', 'x'], 'state': 'k1', 'nonce': 'n"1'},
                     {'client_id': 'c', 'redirect_uri': 'https://rp/\u00e5', 'response_type': ['id_token', 'token'],
                      'scope': ['openid'], 'state': 'k2', 'claims': {'userinfo': {'email': None}}}],
    'auth_response': [{'code': 'code1', 'state': 'k1'},
                      {'access_token': 'at-front', 'token_type': 'Bearer', 'state': 'k2', 'id_token': 'a.b.c',
                       '__verified_id_token': IDT, '__expires_at': 1700000100}],
    'token_response': [{'access_token': 'at1', 'token_type': 'Bearer', 'id_token': 'x.y.z',
                        '__verified_id_token': dict(IDT, sub='bob'), 'refresh_token': 'rt1', 'scope': ['openid']},
                       {'access_token': 'at2', 'token_type': 'Bearer', 'expires_in': 3600, 'extra': {'a': [1, 'two']}}],
    'refresh_token_response': [{'access_token': 'at3', 'token_type': 'Bearer', '__expires_at': 1700000200},
                               {'access_token': 'at4', 'token_type': 'Bearer', 'refresh_token': 'rt2'}],
    'user_info': [{'sub': 'alice', 'name': 'Alice \u2603', 'address': {'street_address': 'x\ny'}}, {'sub': 'bob', 'x': ''}],
    'refresh_token_request': [{'refresh_token': 'rt1'}, {'refresh_token': 'rt2', 'scope': 'a b'}],
}
# A third value of each type, as long as the first one
for _t, _v in BODY.items():
    _v.append(json.loads(json.dumps(_v[0]).replace('at1', 'at9').replace('rt1', 'rt9').replace('alice', 'carol').replace('at3', 'at8').replace('code1', 'code9').replace('n\\"1', 'n\\"9')))
    assert _v[2] != _v[0]
XTYP = {'nonce': ('store_nonce2state', 'get_state_by_nonce'), 'sub': ('store_sub2state', 'get_state_by_sub'),
        'sid': ('store_sid2state', 'get_state_by_sid'),
        'logout': ('store_logout_state2state', 'get_state_by_logout_state')}
ITEMS = ['auth_response', 'token_response', 'refresh_token_response']
PARAMS = ['access_token', 'id_token', 'refresh_token', 'code', '__expires_at']


def make_item(typ, n):
    body = json.loads(json.dumps(BODY[typ][n]))
    v = body.pop('__verified_id_token', None)
    m = CLS[typ](**body)
    if v:
        m['__verified_id_token'] = IdToken(**v)
    return m


def norm(x):
    return json.loads(json.dumps(plain(x)))


class Sys:
    """The real store next to the record model."""

    def __init__(self, types, vals, xt, forms=False, reload=False, n=2):
        self.si = StateInterface()
        self.types, self.vals, self.xt, self.forms, self.reload = types, vals, xt, forms, reload
        self.rec, self.bind, self.n = {}, {}, n
        self.last = None

    def enabled(self):
        out = []
        for k in KEYS:
            out.append(('create', k))
            for t in self.types:
                for n in range(self.n):
                    out.append(('store', k, t, n))
                    if self.forms:
                        out.append(('store_json', k, t, n))
            for x in self.xt:
                for v in self.vals:
                    out.append(('bind', k, x, v))
            out.append(('remove', k))
        if self.reload:
            out.append(('reload',))
        return out

    def step(self, op):
        si, kind = self.si, op[0]
        if kind == 'create':
            r = si.create_state('https://op.example.org', op[1])
            if r != op[1]:
                raise Found('create-key', r)
            self.rec[op[1]] = {'iss': 'https://op.example.org'}
        elif kind in ('store', 'store_json'):
            _, k, t, n = op
            m = make_item(t, n)
            si.store_item(m if kind == 'store' else m.to_json(), t, k)
            m['later'] = 'change'          # must not reach the store
            self.rec.setdefault(k, {})[t] = n
        elif kind == 'bind':
            _, k, x, v = op
            getattr(si, XTYP[x][0])(v, k)
            self.bind[(x, v)] = k
        elif kind == 'remove':
            k = op[1]
            ok, err = attempt(si.remove_state, k)
            if k in self.rec:
                if not ok:
                    raise Found('remove-raises', repr(err))
            elif ok or not isinstance(err, KeyError):
                # nothing is stored under that key; only the bindings may go
                if not ok:
                    raise Found('remove-unknown', repr(err))
            self.rec.pop(k, None)
            if ok:
                self.bind = {b: s for b, s in self.bind.items() if s != k}
        elif kind == 'reload':
            new = StateInterface()
            new.load(json.loads(json.dumps(si.dump())))
            self.si = new
        # what was touched is read first
        order = KEYS if op[-1:] == op[:1] or op[1] == KEYS[0] else KEYS[::-1]
        self.observe(order)
        self.last = kind

    def observe(self, keys):
        si = self.si
        for k in keys:
            rec = self.rec.get(k)
            for t in BODY:
                ok, got = attempt(si.get_item, CLS[t], t, k)
                if rec is None or t not in rec:
                    if ok or not isinstance(got, KeyError):
                        raise Found('missing-item-read', '%s %s -> %r' % (k, t, got))
                else:
                    want = BODY[t][rec[t]]
                    if not ok:
                        raise Found('item-lost', '%s %s %r' % (k, t, got))
                    if norm(got) != norm(CLS[t](**want)):
                        raise Found('item-changed', '%s %s: %r != %r' % (k, t, norm(got), want))
                    got['spoiled'] = 'by the reader'
            ok, iss = attempt(si.get_iss, k)
            want = (rec or {}).get('iss')
            if want is None and (ok or not isinstance(iss, KeyError)):
                raise Found('iss-invented', repr(iss))
            if want is not None and iss != want:
                raise Found('iss-lost', repr(iss))
            ok, st = attempt(si.get_state, k)
            if rec is None:
                if ok or not isinstance(st, KeyError):
                    raise Found('state-invented', repr(st))
            elif not ok:
                raise Found('state-lost', repr(st))
            for orig in (False, True):
                for kinds in (ITEMS, ITEMS[::-1], ITEMS[1:2]):
                    start = {'access_token': 'given', 'other': 1}
                    ok, got = attempt(si.multiple_extend_request_args, dict(start), k, PARAMS, kinds, orig)
                    if rec is None:
                        if ok or not isinstance(got, KeyError):
                            raise Found('extend-unknown', repr(got))
                        continue
                    want = dict(start)
                    for t in kinds:
                        want.update(self.pick(rec, t, PARAMS, orig))
                    if not ok or norm(got) != norm(want):
                        raise Found('extend-wrong', '%r %r: %r != %r' % (kinds, orig, got, want))
                for t in ITEMS:
                    got = si.extend_request_args({'other': 1}, CLS[t], t, k, PARAMS, orig=orig)
                    want = {'other': 1}
                    if rec:
                        want.update(self.pick(rec, t, PARAMS, orig))
                    if norm(got) != norm(want):
                        raise Found('extend-one-wrong', '%r %r: %r != %r' % (t, orig, got, want))
        for x, (_, getter) in XTYP.items():
            for v in self.vals + ['never', 'k1']:
                ok, got = attempt(getattr(si, getter), v)
                want = self.bind.get((x, v))
                if want is None:
                    if ok or not isinstance(got, KeyError):
                        raise Found('binding-invented:' + x, '%s -> %r' % (v, got))
                elif got != want:
                    raise Found('binding-wrong:' + x, '%s -> %r, want %r' % (v, got, want))

    @staticmethod
    def pick(rec, t, params, orig):
        if t not in rec:
            return {}
        item = BODY[t][rec[t]]
        out = {}
        for p in params:
            name = '__verified_' + p
            if not orig and name in item:
                out[p] = item[name]
            elif p in item:
                out[p] = item[p]
        return out

    def canon(self):
        return (sorted(self.rec.items(), key=repr) and repr(sorted((k, sorted(v.items())) for k, v in self.rec.items())),
                repr(sorted(self.bind.items())), json.dumps(self.si.dump(), sort_keys=True, default=str))


def db_case(ctx, case):
    """The in-memory database: last value wins, absent keys read as None."""
    from oidcrp.state_interface import InMemoryStateDataBase
    db, model = InMemoryStateDataBase(), {}
    for op, k in case:
        ctx.step()
        if op == 'set':
            db.set(k, 'v1')
            model[k] = 'v1'
        elif op == 'item':
            db[k] = 'v2'
            model[k] = 'v2'
        elif op == 'del':
            db.delete(k)
            model.pop(k, None)
        else:
            del db[k]
            model.pop(k, None)
        for x in 'abc':
            ctx.check(db.get(x) == model.get(x) and db[x] == model.get(x), 'db', '%r' % (case,))
    ctx.state(sorted(model.items()))


def random_keys(ctx, case):
    """Keys the store makes up are fresh; a key in the shape of the internal index is refused."""
    si = StateInterface()
    ks = [si.create_state('https://op%d' % i) for i in range(case)]
    ctx.step(case)
    ctx.check(len(set(ks)) == case, 'key-repeated')
    for i, k in enumerate(ks):
        ctx.check(si.get_iss(k) == 'https://op%d' % i, 'iss')
    ok, err = attempt(si.create_state, 'https://op', '__x__')
    ctx.check(not ok and isinstance(err, ValueError), 'index-key-accepted')
    ctx.state(case)


def parts(tier):
    import itertools
    th = tier != 'quick'
    allx = ['nonce', 'sub', 'sid', 'logout']
    out = [
        BFS('items', lambda: Sys(['auth_request', 'auth_response', 'token_response', 'refresh_token_response'],
                                 ['v1'], [], forms=True), 4 if th else 3, 'items'),
        BFS('bindings', lambda: Sys([], ['v1', 'v2'], allx), 4 if th else 3, 'bindings'),
        BFS('two-types', lambda: Sys(['token_response'], ['v1', 'v2'], ['sub', 'logout'], reload=True),
            5 if th else 4, 'few operations, deep'),
        BFS('replaced', lambda: Sys(['token_response', 'user_info'], [], [], reload=True, n=3), 5 if th else 4, 'items replaced by others of the same size'),
        BFS('other-items', lambda: Sys(['user_info', 'refresh_token_request'], ['\u00e5 =="x"'], ['sid']),
            4 if th else 3, 'remaining item types'),
        Part('db', db_case, list(itertools.product([(o, k) for o in ('set', 'item', 'del', 'delitem') for k in 'ab'],
                                                   repeat=4 if th else 3)), 'operation sequences'),
        Part('keys', random_keys, [1, 5, 50], 'generated keys'),
    ]
    return out + [similar.part3(tier), Part('large', large.store, [(w, n, ch) for w in ('value', 'key', 'nonce', 'sub', 'sid', 'logout_state') for n in large.sizes(tier) for ch in large.CHARS], 'what x length x alphabet', 'two sessions')]


META = dict(rule='one history per path of the breadth-first search, each followed by a complete read-back; states are '
                 'distinct (model, stored data) pairs')
