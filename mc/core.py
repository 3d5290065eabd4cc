"""The exploration engine.

A check is a list of *parts*.  A part is an explicitly enumerated finite space of cases
(or a tree of choices, or a breadth-first search over operation histories); every case is
executed on the real code and judged by an oracle.  Nothing is sampled.
"""
import ast
import collections
import hashlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from . import env

CASE_TIMEOUT = int(os.environ.get('MC_CASE_TIMEOUT', '90'))
WORKERS = int(os.environ.get('MC_WORKERS', str(min(8, os.cpu_count() or 1))))


class Found(Exception):
    """Raised by a case body to stop at a violation."""

    def __init__(self, sig, msg=''):
        Exception.__init__(self, sig, msg)
        self.sig, self.msg = sig, msg


class Hang(BaseException):
    pass


class Ctx:
    """What one case reports."""

    def __init__(self):
        self.transitions = 0
        self.states = set()
        self.outcomes = collections.Counter()
        self.viol = []
        self.traces = 0
        self.trail = []

    def step(self, n=1, what=None):
        self.transitions += n
        if what is not None:
            self.trail.append(what)

    def state(self, obj):
        self.states.add(h64(obj))

    def outcome(self, label):
        self.outcomes[str(label)] += 1

    def fail(self, sig, msg=''):
        self.viol.append((str(sig), str(msg)[:2000], [repr(x) for x in self.trail[-40:]]))

    def check(self, cond, sig, msg=''):
        if not cond:
            self.fail(sig, msg)
        return bool(cond)


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


class Part:
    """name; cases: list/iterable of literal tuples; fn(ctx, case)."""

    def __init__(self, name, fn, cases, rule='', bound=''):
        self.name, self.fn, self.cases = name, fn, cases
        self.rule, self.bound = rule, bound


class BFS:
    """Breadth-first search over operation histories.

    make(): a fresh system; system.enabled() -> literal operations; system.step(op) executes
    the operation on implementation and model and raises Found on disagreement;
    system.canon() -> hashable canonical state.  States are reached by replaying histories
    on fresh real objects.
    """

    def __init__(self, name, make, depth, rule='', bound='', roots=((),)):
        self.name, self.make, self.depth = name, make, depth
        self.rule, self.bound = rule, bound or 'depth %d' % depth
        self.roots = list(roots)


_CUR = {}


def _alarm(*_a):
    raise Hang()


def run_case(fn, case):
    ctx = Ctx()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        env.CLOCK.reset()
        env.NET.world = None
        fn(ctx, case)
        ctx.traces = max(ctx.traces, 1)
    except Found as err:
        ctx.fail(err.sig, err.msg)
    except Hang:
        ctx.fail('hang', 'the case did not terminate within %d s' % CASE_TIMEOUT)
    except Exception as err:
        tb = traceback.extract_tb(err.__traceback__)
        where = [t for t in tb if '/oidcrp/' in t.filename]
        loc = '%s' % (where[-1].name if where else 'harness:' + tb[-1].name)
        ctx.fail('exception:%s:%s' % (type(err).__name__, loc),
                 ''.join(traceback.format_exception(type(err), err, err.__traceback__))[-1800:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return ctx


def _work_cases(arg):
    pi, lo, hi = arg
    part, cases = _CUR['part'], _CUR['cases']
    out = []
    agg = Ctx()
    for i in range(lo, hi):
        c = run_case(part.fn, cases[i])
        agg.transitions += c.transitions
        agg.states |= c.states
        agg.outcomes.update(c.outcomes)
        agg.traces += c.traces
        for v in c.viol:
            out.append((i, v))
            if len(out) > 60:
                break
    return agg.transitions, agg.states, agg.outcomes, agg.traces, out, hi - lo


def _work_hist(arg):
    part, hists = _CUR['part'], arg
    res = []
    for hist in hists:
        res.append((hist, run_hist(part, hist)))
    return res


def run_hist(part, hist):
    """Returns (canon hash, enabled ops, outcome, violations)."""
    box = {}

    def body(ctx, h):
        s = part.make()
        box['s'] = s
        for op in h:
            ctx.trail.append(op)
            s.step(op)
        box['canon'] = h64(s.canon())
        box['enabled'] = list(s.enabled())
        box['outcome'] = getattr(s, 'last', None)
    ctx = run_case(body, hist)
    if ctx.viol:
        return None, [], None, ctx.viol
    return box['canon'], box['enabled'], box['outcome'], []


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.outcomes = collections.Counter()
        self.viol = []       # (part, case, sig, msg, trail)
        self.parts = []
        self.samples = []
        self.t0 = time.perf_counter()


def _pool():
    return multiprocessing.get_context('fork').Pool(WORKERS, env.own_directory)


def run_part(rep, part):
    t0 = time.perf_counter()
    if isinstance(part, BFS):
        _run_bfs(rep, part)
    else:
        _run_cases(rep, part)
    rep.parts[-1]['wall_s'] = round(time.perf_counter() - t0, 2)


def _run_cases(rep, part):
    cases = list(part.cases)
    n = len(cases)
    _CUR.update(part=part, cases=cases)
    chunk = max(1, min(200, n // (WORKERS * 6) or 1))
    jobs = [(0, lo, min(lo + chunk, n)) for lo in range(0, n, chunk)]
    states, trans, traces, outs, nv = set(), 0, 0, collections.Counter(), 0

    def eat(r):
        nonlocal trans, traces, nv
        t, s, o, tr, viol, _cnt = r
        trans += t
        states.update(s)
        outs.update(o)
        traces += tr
        for i, (sig, msg, trail) in viol:
            nv += 1
            rep.viol.append((part.name, cases[i], sig, msg, trail))
    if WORKERS > 1 and n > 1:
        with _pool() as p:
            for r in p.imap_unordered(_work_cases, jobs):
                eat(r)
    else:
        for j in jobs:
            eat(_work_cases(j))
    rep.states |= {h64((part.name, s)) for s in states}
    rep.transitions += trans
    rep.traces += traces
    rep.evals += n
    rep.outcomes.update({part.name + ':' + k: v for k, v in outs.items()})
    rep.parts.append(dict(name=part.name, kind='exhaustive cases', cases=n, states=len(states),
                          transitions=trans, distinct_outcomes=len(outs), rule=part.rule,
                          bound=part.bound))
    for i in sorted({0, n // 2, n - 1}) if n else []:
        rep.samples.append('%s %r' % (part.name, cases[i]))


def _run_bfs(rep, part):
    _CUR.update(part=part)
    seen = {}
    frontier = [tuple(r) for r in part.roots]
    trans = 0
    outs = collections.Counter()
    level_sizes = []
    longest = ()
    pool = _pool() if WORKERS > 1 else None
    try:
        for level in range(part.depth + 1):
            chunk = max(1, min(64, len(frontier) // (WORKERS * 4) or 1))
            jobs = [frontier[i:i + chunk] for i in range(0, len(frontier), chunk)]
            it = pool.imap(_work_hist, jobs) if pool else map(_work_hist, jobs)
            nxt = []
            for res in it:
                for hist, (canon, enabled, outcome, viol) in res:
                    trans += 1
                    if outcome is not None:
                        outs[str(outcome)] += 1
                    for sig, msg, trail in viol:
                        rep.viol.append((part.name, hist, sig, msg, trail))
                    if viol or canon in seen:
                        continue
                    seen[canon] = hist
                    longest = hist
                    for op in enabled:
                        nxt.append(tuple(hist) + (op,))
            level_sizes.append(len(nxt))
            frontier = nxt
            if not frontier:
                break
            if len(rep.viol) > 500:
                break
    finally:
        if pool:
            pool.terminate()
    complete = not frontier
    rep.states |= {h64((part.name, s)) for s in seen}
    rep.transitions += trans
    rep.traces += trans
    rep.evals += trans
    rep.outcomes.update({part.name + ':' + k: v for k, v in outs.items()})
    rep.parts.append(dict(name=part.name, kind='breadth-first search', states=len(seen),
                          transitions=trans, depth=level, level_sizes=level_sizes,
                          distinct_outcomes=len(outs),
                          closed=complete, rule=part.rule, bound=part.bound))
    rep.samples.append('%s %r' % (part.name, longest))


# --------------------------------------------------------------- choice trees

class Chooser:
    """Replays a prefix of choices, then takes alternative 0 everywhere."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []       # (n, chosen)

    def choose(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError('diverged while replaying a prefix')
        self.trace.append((n, c))
        return c


def all_choices(fn):
    """Depth-first enumeration of every path of fn(chooser)."""
    prefix = []
    while True:
        ch = Chooser(prefix)
        yield fn(ch)
        t = ch.trace
        while t and t[-1][1] + 1 >= t[-1][0]:
            t.pop()
        if not t:
            return
        prefix = [c for _, c in t[:-1]] + [t[-1][1] + 1]


def interleavings(lengths):
    """All merges of sequences with the given lengths, as tuples of sequence numbers."""
    lengths = list(lengths)

    def rec(left):
        if not any(left):
            yield ()
            return
        for i, n in enumerate(left):
            if n:
                left[i] -= 1
                for rest in rec(left):
                    yield (i,) + rest
                left[i] += 1
    return list(rec(lengths))


def product(*its):
    return list(itertools.product(*its))


# ------------------------------------------------------------------ reporting

KNOWN = os.path.join(env.VERIF, 'known_findings.json')


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get('findings', []) if k['property'] == prop]


def finish(rep, tier, meta):
    wall = time.perf_counter() - rep.t0
    prop = rep.prop
    known = known_findings(prop)
    hit, viol = {}, []
    for v in rep.viol:
        part, case, sig, msg, trail = v
        for k in known:
            if k['part'] == part and k['sig'] == sig and ('case' not in k or k['case'] == repr(case)):
                hit.setdefault(k['id'], k)
                break
        else:
            viol.append(v)
    level = meta.get('level', 'model_checking')
    cov = dict(
        states=len(rep.states), transitions=rep.transitions,
        traces_validated_against_impl=rep.traces,
        rule=meta['rule'], samples=rep.samples[:40], parts=rep.parts,
        distinct_outcomes=len(rep.outcomes),
        outcomes=dict(rep.outcomes.most_common(60)),
        exhaustive=True,
        tree=env.REPO)
    evid = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
                level=level, coverage=cov, assumptions=meta.get('assumptions', []),
                wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)
    print('%s %s: %d cases, %d states, %d transitions, %d distinct outcomes, %.1f s' % (
        prop, tier, rep.evals, len(rep.states), rep.transitions, len(rep.outcomes), wall))
    for p in rep.parts:
        print('   ', {k: v for k, v in p.items() if k not in ('rule',)})
    for k in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    groups = collections.OrderedDict()
    for v in viol:
        groups.setdefault((v[0], v[2]), []).append(v)
    rdir = os.path.join(env.VERIF, 'replays')
    shown = 0
    for (part, sig), vs in groups.items():
        vs.sort(key=lambda v: (len(repr(v[1])), repr(v[1])))
        part, case, sig, msg, trail = vs[0]
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%016x.json' % (prop, h64((part, case, sig))))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, part=part, case=repr(case), sig=sig, msg=msg,
                           trail=trail, same_signature=len(vs)), f, indent=1)
        if shown < 12:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('    [%s] %s (%d cases)\n      case %r\n      %s' % (
                part, sig, len(vs), case, msg.replace('\n', '\n      ')[-1200:]))
        shown += 1
    sys.stdout.flush()
    return 1 if viol else 0


def replay(mod, path):
    with open(path) as f:
        d = json.load(f)
    case = ast.literal_eval(d['case'])
    for part in mod.parts(d['tier']):
        if part.name != d['part']:
            continue
        seen = []
        for _ in range(2):
            if isinstance(part, BFS):
                viol = run_hist(part, case)[3]
            else:
                viol = run_case(part.fn, case).viol
            seen.append(sorted(v[0] for v in viol))
        for v in viol:
            print(v[0], '\n', v[1], '\n trail:', v[2])
        if seen[0] != seen[1]:
            print('NOT DETERMINISTIC', seen)
            return 2
        return 1 if viol else 0
    print('no such part')
    return 2
