"""Contract database: contracts, interface classes, field types, externals."""


class Contract(object):
    """Base of all contracts.  Static attributes and functions:

    key       'module:qualname' of the function in the current source
    types     dict parameter -> type string (see types.py)
    result    type string of the result
    requires  f(c) -> list of (label, Bool)
    ensures   f(c) -> list of (label, Bool)           normal exit
    raises    dict exception name -> f(c) -> Bool or None (allowed when)
    ens_exc   f(c, excname) -> list of (label, Bool)  exceptional exit
    modifies  dict component -> f(c, r) -> Bool: references that may change
              ('*' region: True).  Fresh objects may always change.
    allocs    True when the function may allocate objects
    loops     dict ordinal -> f(c) -> list of (label, Bool)
    loopmod   dict ordinal -> dict component -> f(c, r)
    pure      no heap effect at all (result only)
    inline    only loop invariants; the body is inlined at every call
    strings   'opaque' or 'smt'
    trusted   True: assumed, never verified (externals, interfaces)
    """
    key = None
    types = {}
    result = 'any'
    raises = {}
    modifies = {}
    allocs = True
    loops = {}
    loopmod = {}
    pure = False
    inline = False
    strings = 'opaque'
    trusted = False
    client = None
    props = ()
    use_inline = ()     # callee keys to inline instead of using a contract
    alloc_self = False  # constructor

    requires = staticmethod(lambda c: [])
    ensures = staticmethod(lambda c: [])
    ens_exc = staticmethod(lambda c, exc: [])
    entry = staticmethod(lambda c: [])


class Externals(dict):
    """Records which handlers a verification uses."""
    used = set()

    def get(self, k, d=None):
        if k in self:
            self.used.add(k)
        return dict.get(self, k, d)


class DB(object):
    def __init__(self):
        self.contracts = {}
        self.fields = {}       # class -> {attr: type}
        self.interface = {}    # class -> {'props': {attr: type}, 'methods': {...}}
        self.globals = {}      # 'module:name' -> type
        self.mutable_globals = {}   # 'module:name' -> type
        self.externals = Externals()    # dotted -> handler(ex, st, args, kwargs, X, node)
        self.clients = {}      # module name -> source
        self.attrdict = set()  # classes with attribute access to dict entries
        self.dict_classes = set()

    def add(self, c):
        self.contracts[c.key] = c
        return c


db = DB()


def contract(cls):
    for n in ('requires', 'ensures', 'ens_exc', 'entry'):
        f = cls.__dict__.get(n)
        if f is not None and not isinstance(f, staticmethod):
            setattr(cls, n, staticmethod(f))
    return db.add(cls)
