import email.message
import io
import itertools
import socket
import time
from common import *
RULE = 'all outcome sequences of length <= 3 (4 thorough) over 14 outcomes x retry counts -1..3 x character sets, with the opener and the clock replaced; non-trivial: at least two outcomes'
EXHAUSTIVE = 'outcome sequences of length <= 3 over 14 outcomes, retry in -1..3'

OUT = ['ok', '503', '404', '500', 'url-timeout', 'url-other', 'timeout', 'read-timeout', 'read-reset', 'incomplete', 'badstatus', 'reset', 'url-oserror', 'remote-closed']
RETRY = {'503', 'url-timeout', 'timeout', 'read-timeout'}
TEXTS = {None: 'h\u00e9', 'utf-8': 'h\u00e9\u20ac', 'latin-1': 'h\u00e9', 'UTF-16': 'x\u20ac', 'ascii': 'plain'}


class Resp(io.BytesIO):
    def __init__(self, data, ct, err=None):
        io.BytesIO.__init__(self, data)
        self.headers = email.message.Message()
        if ct is not None:
            self.headers['Content-Type'] = ct
        self.err = err
        self.status = self.code = 200
        self.msg = self.headers
        self.url = 'http://x/'

    def info(self):
        return self.headers

    def getheader(self, n, d=None):
        return self.headers.get(n, d)

    def getcode(self):
        return 200

    def geturl(self):
        return self.url

    def read(self, *a):
        if self.err:
            raise self.err
        return io.BytesIO.read(self, *a)


def mkerr(o):
    import http.client as hc
    import urllib.error as ue
    return {'timeout': lambda: socket.timeout('timed out'), 'read-timeout': lambda: socket.timeout('timed out'),
            '503': lambda: ue.HTTPError('http://x/', 503, 'busy', email.message.Message(), io.BytesIO()),
            '404': lambda: ue.HTTPError('http://x/', 404, 'no', email.message.Message(), io.BytesIO()),
            '500': lambda: ue.HTTPError('http://x/', 500, 'no', email.message.Message(), io.BytesIO()),
            'url-timeout': lambda: ue.URLError(socket.timeout('timed out')),
            'url-other': lambda: ue.URLError('no host'), 'url-oserror': lambda: ue.URLError(OSError(111, 'refused')),
            'read-reset': lambda: ConnectionResetError(104, 'reset'), 'reset': lambda: ConnectionResetError(104, 'reset'),
            'incomplete': lambda: hc.IncompleteRead(b'x', 5), 'badstatus': lambda: hc.BadStatusLine('x'),
            'remote-closed': lambda: hc.RemoteDisconnected('closed')}[o]()


def c_load(inp):
    seq, retry, period, charset, ctform = inp
    f = need('xylem.load_url:load_url')
    DF = need('xylem.load_url:DownloadFailure')
    import urllib.request as ur
    text = TEXTS[charset]
    data = text.encode(charset or 'utf-8')
    ct = None if charset is None and ctform == 'none' else 'text/plain' if charset is None else \
        {'none': 'text/plain; charset=%s', 'quoted': 'text/plain; x=y; charset="%s"', 'tight': 'text/yaml;charset=%s'}[ctform] % charset
    calls, sleeps = [], []
    full = list(seq)

    def op(self, fullurl, d=None, timeout=None, *a, **k):
        calls.append(timeout)
        o = full[len(calls) - 1] if len(calls) <= len(full) else full[-1]
        if len(calls) > 50:
            raise RuntimeError('too many attempts')
        if o == 'ok':
            return Resp(data, ct)
        if o in ('read-timeout', 'read-reset', 'incomplete'):
            return Resp(b'', ct, mkerr(o))
        raise mkerr(o)
    old, olds = ur.OpenerDirector.open, time.sleep
    ur.OpenerDirector.open = op
    slp = lambda s: sleeps.append((s, len(calls)))
    mod = need('xylem.load_url:')
    ms = mod.__dict__.get('sleep')
    time.sleep = slp
    if ms is not None:
        mod.sleep = slp
    try:
        g = outcome(f, 'http://x/y', retry=retry, retry_period=period, timeout=7)
    finally:
        ur.OpenerDirector.open, time.sleep = old, olds
        if ms is not None:
            mod.sleep = ms
    if not calls:
        raise Skip('not loaded through urllib')
    n = max(retry, 0)
    k = 0
    while True:
        o = full[k] if k < len(full) else full[-1]
        k += 1
        if o in RETRY and k <= n:
            continue
        break
    if len(calls) != k:
        return fail('%d attempts, expected %d', len(calls), k)
    if sleeps != [(period, i) for i in range(1, k)]:
        return fail('waits %r, expected %d of %r', sleeps, k - 1, period)
    if o == 'ok':
        if g[0] == 'exc':
            return fail('raised %s', exc_name(g))
        if g[1] != text or type(g[1]) is not str:
            return fail('text %r, expected %r', g[1], text)
    elif g[0] == 'ok' or not isinstance(g[1], DF):
        return fail('%s instead of a download failure', g)


CASES = dict(load=c_load)


def gen(rng, tier):
    for L in range(1, 4 if tier == 'quick' else 5):
        for seq in itertools.product(OUT, repeat=L):
            # sequences only differ while retried
            if any(o not in RETRY for o in seq[:-1]):
                continue
            for retry in range(-1, 4):
                yield 'load', (list(seq), retry, rng.choice([1, 0, 0.5]), None, 'none'), L > 1
    for cs in TEXTS:
        for form in ('none', 'quoted', 'tight'):
            for pre in ([], ['503'], ['read-timeout', 'url-timeout']):
                yield 'load', (pre + ['ok'], 2, 3, cs, form)
    for r in (5, 9):
        yield 'load', (['503'], r, 2, None, 'none')
        yield 'load', (['503'] * r + ['ok'], r, 2, None, 'none')
        yield 'load', (['503'] * (r + 1) + ['ok'], r, 2, None, 'none')
