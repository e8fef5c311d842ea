"""Contract for xylem/load_url.py (P19).

Attempts and waits are events of the trace; the outcome of each attempt is arbitrary.
"""
from contracts.world import *
from contracts.install import event, trace, ok

I = M.I
SB = z3.BoolSort()
_busy = z3.Function('rs:busy or timeout', I, SB)       # the attempt of this event failed with a busy response or a timeout
_done = z3.Function('rs:attempt succeeded', I, SB)
_body = z3.Function('rs:response body', I, M.V)
_header = z3.Function('rs:response header', I, M.V, M.V)
_charset = z3.Function('rs:declared character set', M.V, M.V)     # of a content type; ABSENT if it has none
_illegal = z3.Function('rs:not an url', M.V, SB)
db.fields.setdefault('exc', {}).update(code='int', reason='any')
db.fields['Response'] = {'attempt': 'int', 'headers': 'Headers'}
db.fields['Headers'] = {'attempt': 'int'}
CT, CS, UTF8 = STR('Content-Type'), STR('charset'), STR('utf-8')


def attempt(url, timeout):
    return M.vtuple([STR('attempt'), url, timeout])


def wait(period):
    return M.vtuple([STR('wait'), period])


def h_urlopen(ex, st, args, kw, X, node):
    if len(args) not in (1, 3) or set(kw) - {'timeout'} or (len(args) == 1 and 'timeout' not in kw):
        raise M.Unsupported('urlopen with other arguments')
    url = ex.sv(st, args[0])
    tm = ex.sv(st, kw['timeout'] if 'timeout' in kw else args[2])
    k = st.H.trn()
    ex.event(st, attempt(url.t, tm.t))

    def failed(name, open=None):
        x = st.copy()
        ex.raise_(x, name, X)
        x, e = X[-1]
        e.open = open
        x.assume(Not(_done(k)), Not(_illegal(url.t)))
        return x, e.sv.t
    x, e = failed('HTTPError')
    code = x.H.field(e, 'code')
    x.assume(M.V.is_int(code), _busy(k) == (M.V.i(code) == 503))
    x, e = failed('URLError', ('HTTPError',))
    x.assume(_busy(k) == B.isinst(ex, x, E.SV(x.H.field(e, 'reason')), E.ClassV('TimeoutError')))
    x, e = failed('TimeoutError')
    x.assume(_busy(k))
    x, e = failed('OSError', ('URLError', 'TimeoutError'))
    x.assume(Not(_busy(k)))
    x, e = failed('HTTPException', ())
    x.assume(Not(_busy(k)))
    x = st.copy()
    ex.raise_(x, 'ValueError', X)
    x.assume(_illegal(url.t), Not(_busy(k)), Not(_done(k)))
    st.assume(Not(_illegal(url.t)))
    r = E.SV(ex.alloc(st, 'obj', 'Response'), ('obj', 'Response'))
    h = ex.alloc(st, 'obj', 'Headers')
    st.assume(st.H.field(r.t, 'attempt') == M.V.int(k), st.H.field(r.t, 'headers') == h, st.H.field(h, 'attempt') == M.V.int(k))
    return [(st, r)]


db.externals['six.moves.urllib.request.urlopen'] = h_urlopen


def h_sleep(ex, st, args, kw, X, node):
    ex.event(st, wait(ex.sv(st, args[0]).t))
    return [(st, ex.const(None))]


db.externals['time.sleep'] = h_sleep


def k_of(c):
    return M.V.i(c.pre.field(c.a.self, 'attempt'))


method('Response.read', ['self'], 'any', lambda c: [('body', c.res == _body(k_of(c))), ('done', _done(k_of(c))), ('ok', Not(_busy(k_of(c))))],
       raises_={'TimeoutError': None, 'URLError': never, 'OSError': None, 'HTTPException': None}, allocs_=False,
       exc=lambda c, e: [('failed', Not(_done(k_of(c)))), ('timeout', _busy(k_of(c)) == z3.BoolVal(e == 'TimeoutError'))])
method('Headers.get', ['self', 'name', 'default'], 'any', lambda c: [('header', c.res == Ite(
    _header(k_of(c), c.a.name) == ABSENT, c.a.default, _header(k_of(c), c.a.name)))], allocs_=False)
db.contracts['iface:Headers.get'].defaults = {'default': None}


def h_parse_header(ex, st, args, kw, X, node):
    v = ex.sv(st, args[0])
    d = ex.new_dict(st)
    m = M.fconst('params', M.MapS)
    st.assume(z3.Select(m, CS) == _charset(v.t))
    ex.set_map(st, d.t, m)
    return [(st, ex.sv(st, E.StaticSeq([ex.ssv('value'), d])))]


db.externals['cgi.parse_header'] = h_parse_header


def decoded(c, k):
    """the text of the response to attempt k"""
    ct = Ite(_header(k, CT) == ABSENT, STR(''), _header(k, CT))
    cs = Ite(_charset(ct) == ABSENT, UTF8, _charset(ct))
    return B.uf_str('decode', _body(k), cs).t


_old_to_str = db.externals[TXT + 'to_str']


def h_to_str(ex, st, args, kw, X, node):
    if not kw and len(args) == 1:
        return _old_to_str(ex, st, args, kw, X, node)
    if set(kw) - {'encoding'} or len(args) + len(kw) != 2:
        raise M.Unsupported('to_str with other arguments')
    enc = ex.sv(st, args[1] if len(args) > 1 else kw['encoding'])
    # unknown character sets and undecodable text are not specified
    ex.raise_(st.copy(), 'UnicodeDecodeError', X)
    return [(st, B.uf_str('decode', ex.sv(st, args[0]).t, enc.t))]


db.externals[TXT + 'to_str'] = h_to_str


def limit(c):
    """number of attempts allowed"""
    n = M.V.i(c.a.retry)
    return Ite(n < 0, 0, n) + 1


def history(c, H, n, t0=None):
    """n attempts that were answered busy or timed out, each followed by a wait"""
    t0 = c.pre.trn() if t0 is None else t0
    return [('attempts', c.forall(1, lambda k: Imp(And(k >= t0, k < t0 + 2 * n), Ite((k - t0) % 2 == 0, And(
        H.tr(k) == attempt(c.a.url, c.a.timeout), _busy(k)), H.tr(k) == wait(c.a.retry_period))), lambda k: [H.tr(k)], [I]))]


def tried(c):
    t0, n = c.pre.trn(), c.post.trn() - c.pre.trn()
    last = c.post.trn() - 1
    j = (n - 1) / 2
    return last, history(c, c.post, j) + [
        ('one attempt after the last wait', And(n == 2 * j + 1, j >= 0, c.post.tr(last) == attempt(c.a.url, c.a.timeout))),
        ('number of attempts', j + 1 <= limit(c))]


@contract
class load_url(Contract):
    key = 'xylem.load_url:load_url'
    types = {'url': 'str', 'retry': 'int', 'retry_period': 'any', 'timeout': 'any'}
    result = 'str'
    raises = {'DownloadFailure': None, 'UnicodeDecodeError': None, 'ValueError': None}
    modifies = trace()

    def ensures(c):
        last, p = tried(c)
        return p + [('the successful attempt', _done(last)), ('its text in its character set', c.res == decoded(c, last))]

    def ens_exc(c, e):
        last, p = tried(c)
        if e == 'DownloadFailure':
            return p + [('failed', Not(_done(last))), ('only when out of attempts or another error', Or(Not(_busy(last)), (
                c.post.trn() - c.pre.trn() + 1) / 2 == limit(c)))]
        if e == 'ValueError':
            return p + [('not an url', _illegal(c.a.url))]
        return p + [('undecodable', _done(last))]

    def inv(c):
        H, t0 = c.h, c.pre.trn()
        n = limit(c) - 1 - M.V.i(c.l('retry'))
        return [('retry', And(M.V.is_int(c.l('retry')), M.V.i(c.l('retry')) >= 0, n >= 0)), ('events', H.trn() == t0 + 2 * n)] + history(c, H, n)
    loops = {0: staticmethod(inv)}
