"""Closes the system under test: clock, network, randomness and working directory.

Importing this module *before* oidcrp/oidcmsg/cryptojwt replaces every source of
non-determinism by something the explorer controls:

* time      -- time.time(), time.gmtime()..., datetime.now()/utcnow() read CLOCK.now
* network   -- the lowest layer of `requests` hands every request to NET.world
* entropy   -- os.urandom / SystemRandom / secrets / random can be made a recorded stream
* files     -- the process runs in a scratch directory
"""
import atexit
import datetime as _dt
import logging
import os
import shutil
import sys
import tempfile
import time as _time
import warnings

REPO = os.environ.get('MC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = 1_700_000_000

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True


class _Clock:
    now = float(T0)

    def reset(self):
        self.now = float(T0)

    def advance(self, secs):
        self.now += secs


CLOCK = _Clock()
real_time = _time.time
_real_gmtime, _real_localtime = _time.gmtime, _time.localtime
_real_strftime, _real_ctime = _time.strftime, _time.ctime


def _install_clock():
    _time.time = lambda: CLOCK.now
    _time.time_ns = lambda: int(CLOCK.now * 1e9)
    _time.gmtime = lambda s=None: _real_gmtime(CLOCK.now if s is None else s)
    _time.localtime = lambda s=None: _real_localtime(CLOCK.now if s is None else s)
    _time.strftime = lambda f, t=None: _real_strftime(f, _time.localtime() if t is None else t)
    _time.ctime = lambda s=None: _real_ctime(CLOCK.now if s is None else s)
    real_dt = _dt.datetime

    class datetime(real_dt):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(CLOCK.now, tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(CLOCK.now, _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(CLOCK.now)

    _dt.datetime = datetime


# ----------------------------------------------------------------- network

class NetworkDown(Exception):
    pass


class _Net:
    world = None


NET = _Net()


def _install_network():
    import requests
    from requests.structures import CaseInsensitiveDict

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        world = NET.world
        if world is None:
            raise requests.exceptions.ConnectionError('no world')
        res = world.handle(request, dict(timeout=timeout, verify=verify, cert=cert, proxies=dict(proxies or {}),
                                         stream=stream))
        if isinstance(res, BaseException):
            raise res
        r = requests.models.Response()
        r.status_code = res.status
        r.headers = CaseInsensitiveDict(res.headers)
        body = res.body
        r._content = body if isinstance(body, bytes) else body.encode('utf-8')
        r._content_consumed = True
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        r.url = request.url
        r.request = request
        r.reason = 'Reason'
        r.connection = self
        return r

    requests.adapters.HTTPAdapter.send = send
    # environment look-ups (proxies, netrc) are slow and host dependent
    requests.sessions.Session.trust_env = False
    _orig_init = requests.sessions.Session.__init__

    def _init(self):
        _orig_init(self)
        self.trust_env = False
    requests.sessions.Session.__init__ = _init


def _install_key_cache():
    """Building an RSA private key costs 40 ms of self tests in OpenSSL; do it once per key."""
    from cryptojwt.jwk import rsa
    orig, cache = rsa.rsa_construct_private, {}

    def rsa_construct_private(numbers):
        key = tuple(sorted(numbers.items()))
        if key not in cache:
            cache[key] = orig(numbers)
        return cache[key]
    rsa.rsa_construct_private = rsa_construct_private


SCRATCH = None


def _scratch():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='mc-')
    os.chdir(SCRATCH)
    owner = os.getpid()

    def cleanup():
        if os.getpid() == owner:
            os.chdir('/')
            shutil.rmtree(SCRATCH, ignore_errors=True)
    atexit.register(cleanup)


def own_directory():
    """Processes that run cases side by side do not share files."""
    d = os.path.join(SCRATCH, 'w%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    os.chdir(d)


def boot():
    if 'oidcrp' in sys.modules or 'oidcmsg' in sys.modules:
        raise RuntimeError('env must be booted before the code under test is imported')
    _scratch()
    sys.pycache_prefix = os.path.join(SCRATCH, 'pyc')
    sys.path.insert(0, os.path.join(REPO, 'src'))
    _install_clock()
    import requests  # noqa
    _install_network()
    _install_key_cache()
    logging.disable(logging.CRITICAL)
    from . import sched
    sched.install()
    import oidcrp
    want = os.path.join(os.path.realpath(REPO), 'src', 'oidcrp')
    got = os.path.dirname(os.path.realpath(oidcrp.__file__))
    if want != got:
        raise RuntimeError('testing %s instead of %s' % (got, want))


boot()
