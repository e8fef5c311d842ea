"""Contracts for source lists (sources/impl.py, sources/database.py; P20).

Files, directories and the parsed content of texts are arbitrary; generators are unfolded when they are created.
"""
from contracts.world import *
from contracts.install import ok
from contracts import cache as C
from contracts.cache import _argok, _uid
from contracts.rules_merge import hashable
from pyvc.theory import Filter, Sum, Owner, somewhere, inlist

I = M.I
SB = z3.BoolSort()
SI = 'xylem.sources.impl:'
DB = C.DB
SP = 'xylem.specs.impl:'
LL, LE = M.comp_sort('ll'), M.comp_sort('le')
_ndir = z3.Function('rs:number of names', M.V, I)
_dir = z3.Function('rs:names', M.V, M.SeqS)                  # of a directory, in some order
_lists = z3.Function('rs:can list', M.V, SB)
_reads = z3.Function('rs:can read', M.V, SB)
_text = z3.Function('rs:text', M.V, M.V)                     # of a file
_bad = z3.Function('rs:invalid YAML', M.V, SB)
_yaml = z3.Function('rs:YAML value', M.V, M.V)
_nres = z3.Function('rs:number of resources', M.V, M.V, I)
_res = z3.Function('rs:resources', M.V, M.V, M.SeqS)
_data = z3.Function('rs:resource data', M.V, M.V, M.V)
for g in ('SOURCES', 'CACHE'):
    db.globals['xylem.config:DEFAULT_%s_DIR' % g] = 'str'
DOCS = z3.Const('rs:documents', I)        # documents exist before the operation: their objects are below this
le = z3.Function('sortle', M.V, M.V, SB)
join = lambda p, x: B.uf_str('path.join2', p, x).t
base = lambda p: B.uf_str('path.basename', p).t
isfile = lambda p: B.uf_bool('path.isfile', p)
exists = lambda p: B.uf_bool('path.exists', p)


def names(st, n, seq):
    st.assume(n >= 0, M.forall(1, lambda j: Imp(ok(j, n), M.V.is_str(z3.Select(seq, j))), lambda j: [z3.Select(seq, j)], [I]))


def new_list(ex, st, n, seq, ty):
    o = E.SV(ex.alloc(st, 'list'), ('list', ty))
    ex.set_list(st, o.t, n, seq)
    return o


def distinct(n, seq):
    return M.forall(2, lambda i, j: Imp(And(i >= 0, i < j, j < n), z3.Select(seq, i) != z3.Select(seq, j)), lambda i, j: [
        z3.MultiPattern(z3.Select(seq, i), z3.Select(seq, j))], [I, I])


def h_listdir(ex, st, args, kw, X, node):
    p = ex.sv(st, args[0]).t
    x = st.copy()
    ex.raise_(x, 'OSError', X)
    x.assume(Not(_lists(p)))
    n, seq = _ndir(p), _dir(p)
    names(st, n, seq)
    j = lambda i: join(p, z3.Select(seq, i))
    # the names of a directory differ and have no separators
    st.assume(_lists(p), distinct(n, seq), M.forall(1, lambda i: Imp(ok(i, n), base(j(i)) == z3.Select(seq, i)), lambda i: [j(i), z3.Select(seq, i)], [I]))
    return [(st, new_list(ex, st, n, seq, ('str',)))]


def h_uf(name, bool_=False):
    def h(ex, st, args, kw, X, node):
        a = [ex.sv(st, x).t for x in args]
        return [(st, ex.bsv(B.uf_bool(name, *a)) if bool_ else B.uf_str(name, *a))]
    return h


db.externals['os.listdir'] = h_listdir
db.externals['os.path.basename'] = h_uf('path.basename')
db.externals['os.path.isfile'] = h_uf('path.isfile', True)
db.externals['os.path.exists'] = h_uf('path.exists', True)


def plain_keys(H, v):
    return Imp(Or(H.isdict(v), H.isset(v)), M.forall(1, lambda k: Imp(H.has(v, k), Not(H.isdict(k))), lambda k: [H.get(v, k)]))


def within(v):
    return Imp(M.V.is_ref(v), And(M.V.r(v) >= 0, M.V.r(v) < DOCS))


M.OPAQUE['rs:YAML value'] = [z3.ForAll([z3.Const('d!yv', M.V)], within(_yaml(z3.Const('d!yv', M.V))), patterns=[_yaml(z3.Const('d!yv', M.V))])]


def docs(c):
    return [('documents', And(DOCS >= 0, DOCS <= c.alloc0))]


def yamlish(H, v):
    """a value of a document that is no float, date or binary scalar"""
    return Or(v == NONE, M.V.is_bool(v), M.V.is_int(v), M.V.is_str(v), H.islist(v), H.isdict(v), H.isset(v))


def h_yaml(ex, st, args, kw, X, node):
    d = ex.sv(st, args[0]).t
    x = st.copy()
    ex.raise_(x, 'YAMLError', X)
    m = ex.alloc(x, 'obj', 'Mark')
    p = x.H.field(X[-1][1].sv.t, 'problem_mark')
    x.assume(_bad(d), Or(p == ABSENT, p == m))
    v = _yaml(d)
    st.assume(Not(_bad(d)), v != ABSENT, yamlish(st.H, v), plain_keys(st.H, v), within(v), Imp(st.H.islist(v), M.forall(1, lambda j: within(st.H.at(v, j)), lambda j: [
        st.H.at(v, j)], [I])))
    return [(st, E.SV(v, ('any',)))]


db.externals['xylem.yaml_utils:load_yaml'] = h_yaml
db.fields.setdefault('exc', {}).update(problem_mark='Mark')
db.fields['Mark'] = {'line': 'int', 'column': 'int'}
_open = db.externals['builtins.open']


def h_open(ex, st, args, kw, X, node):
    mode = E.str_lit(ex.sv(st, args[1] if len(args) > 1 else kw.get('mode', ex.const('r'))).t)
    if mode != 'r':
        return _open(ex, st, args, kw, X, node)
    p = ex.sv(st, args[0]).t
    x = st.copy()
    ex.raise_(x, 'OSError', X)
    x.assume(Not(_reads(p)))
    f = E.SV(ex.alloc(st, 'obj', 'File'), ('obj', 'File'))
    st.assume(st.H.field(f.t, 'path') == p, st.H.field(f.t, 'mode') == STR('r'))
    return [(st, f)]


db.externals['builtins.open'] = h_open
method('File.read', ['self'], 'str', lambda c: [('text', c.res == _text(c.pre.field(c.a.self, 'path'))), (
    'readable', _reads(c.pre.field(c.a.self, 'path')))], raises_={'UnicodeDecodeError': None, 'OSError': None}, allocs_=False,
    exc=lambda c, e: [('unreadable', Not(_reads(c.pre.field(c.a.self, 'path'))))])


def h_resdir(ex, st, args, kw, X, node):
    a = [ex.sv(st, x).t for x in args]
    names(st, _nres(*a), _res(*a))
    return [(st, new_list(ex, st, _nres(*a), _res(*a), ('str',)))]


def h_resdata(ex, st, args, kw, X, node):
    v = _data(*[ex.sv(st, x).t for x in args])
    st.assume(v != ABSENT, Not(M.V.is_ref(v)))
    return [(st, E.SV(v, ('any',)))]


db.externals['pkg_resources.resource_listdir'] = h_resdir
db.externals['pkg_resources.resource_string'] = h_resdata


# ------------------------------------------------------------------ descriptions
def good(H, d):
    """a dictionary with one text key"""
    return And(H.isdict(d), M.cardf(H.dmap(d)) == 1, M.forall(1, lambda k: Imp(H.has(d, k), M.V.is_str(k)), lambda k: [H.get(d, k)]))


okdescr = M.opaque('okdescr', [M.V], good, SB, ('dm',))
oklist = M.opaque('oklist', [M.V], lambda H, v: Or(
    And(H.islist(v), M.forall(1, lambda j: Imp(ok(j, H.llen(v)), And(within(H.at(v, j)), okdescr(H, H.at(v, j)))), lambda j: [H.at(v, j)], [I])),
    And(Or(H.isdict(v), H.isset(v)), H.dmap(v) == M.EMPTY), v == STR('')), SB, ('dm', 'll', 'le'))


@contract
class spec_name(Contract):
    key = SP + 'verify_spec_name'
    types = {'spec_name': 'any'}
    result = 'none'
    raises = {'ValueError': lambda c: Not(M.V.is_str(c.a.spec_name))}

    def ensures(c):
        return [('text', M.V.is_str(c.a.spec_name))]


@contract
class descr(Contract):
    key = SI + 'verify_source_description'
    types = {'descr': 'any'}
    result = 'none'
    raises = {'ValueError': lambda c: Not(okdescr(c.pre, c.a.descr))}

    def ensures(c):
        return [('one text key', okdescr(c.pre, c.a.descr))]


@contract
class descrs(Contract):
    key = SI + 'verify_source_description_list'
    types = {'descr_list': 'any'}
    result = 'none'
    raises = {'ValueError': lambda c: Not(oklist(c.pre, c.a.descr_list))}

    def requires(c):
        v = c.a.descr_list
        return docs(c) + [('value of a document', And(yamlish(c.pre, v), plain_keys(c.pre, v), within(v), Imp(c.pre.islist(v), M.forall(1, lambda j: within(
            c.pre.at(v, j)), lambda j: [c.pre.at(v, j)], [I]))))]

    def ensures(c):
        return [('each is a description', oklist(c.pre, c.a.descr_list))]

    def inv(c):
        if not hasattr(c, 'idx'):
            return [('no entry', c.forall(1, lambda k: Not(c.done(k)), lambda k: [c.done(k)]))]
        return [('descriptions', c.forall(1, lambda j: Imp(ok(j, c.idx), And(within(c.elem(j)), okdescr(c.pre, c.elem(j)))), lambda j: [c.elem(j)], [I]))]
    loops = {0: staticmethod(inv)}


def own(v, a):
    return Imp(M.V.is_ref(v), Or(M.V.r(v) < DOCS, M.V.r(v) >= a))


def accepted(G, data):
    """the text is no valid YAML or gives a list of descriptions"""
    return Or(_bad(data), oklist(G, _yaml(data)))


def parsed(G, H, v, data):
    """descriptions of the text"""
    return And(accepted(G, data), Ite(_bad(data), And(H.islist(v), H.llen(v) == 0), v == _yaml(data)))


@contract
class parse(Contract):
    key = SI + 'parse_source_descriptions'
    types = {'data': 'any', 'file_path': 'str'}
    result = 'tuple[str,any]'
    requires = docs
    raises = {'ValueError': lambda c: Not(accepted(c.pre, c.a.data))}

    def ensures(c):
        return [('name', M.V.t2a(c.res) == c.a.file_path), ('descriptions', parsed(c.pre, c.post, M.V.t2b(c.res), c.a.data)),
                ('list', oklist(c.post, M.V.t2b(c.res))),
                ('new or of the document', own(M.V.t2b(c.res), c.alloc0))]


def fine(G, p):
    """the file can be read and gives descriptions"""
    return And(_reads(p), accepted(G, _text(p)))


@contract
class parse_file(Contract):
    key = SI + 'parse_source_file'
    types = {'file_path': 'str'}
    result = 'tuple[str,any]'
    requires = docs
    raises = {'Exception': lambda c: Not(fine(c.pre, c.a.file_path))}

    def ensures(c):
        return source_of(c, c.post, c.res, c.a.file_path)


def source_of(c, H, t, p):
    G = c.pre
    return [('new or of the document', own(M.V.t2b(t), c.alloc0)), ('name', M.V.t2a(t) == p), ('readable', fine(G, p)), ('descriptions', parsed(G, H, M.V.t2b(t), _text(p))), ('list', oklist(H, M.V.t2b(t)))]


def visible(p):
    return And(Not(B.uf_bool('startswith', base(p), STR('.'))), B.uf_bool('endswith', p, STR('.yaml')), isfile(p))


shown = Filter('rs:visible files', [M.SeqS], lambda s, j: visible(z3.Select(s, j)))


@contract
class load_files(Contract):
    key = SI + '_load_sources'
    types = {'files': 'list[str]'}
    result = 'list[tuple[str,any]]'
    requires = docs
    raises = {'Exception': lambda c: somewhere(lambda j: And(ok(j, c.pre.llen(c.a.files)), visible(c.pre.at(c.a.files, j)), Not(
        fine(c.pre, c.pre.at(c.a.files, j)))), lambda j: c.pre.at(c.a.files, j))}

    def state(c, H, l, n):
        s = c.pre.lseq(c.a.files)
        return [('number', H.llen(l) == shown.count(s, n)),
                ('another list', c.forall(1, lambda i: Imp(ok(i, H.llen(l)), M.V.t2b(H.at(l, i)) != l), lambda i: [H.at(l, i)], [I]))] + [(lab, c.forall(1, lambda i: Imp(ok(i, H.llen(l)), source_of(c, H, H.at(l, i), z3.Select(
                    s, shown.nth(s, i)))[q][1]), lambda i: [H.at(l, i), shown.nth(s, i)], [I])) for q, lab in enumerate(['new or of the document', 'names', 'readable', 'descriptions', 'lists'])]

    def inv(c):
        return [('type', typed(c.h, c.gen(), 'list[tuple[str,any]]'))] + load_files.state(c, c.h, c.gen(), c.idx)
    loops = {0: staticmethod(inv)}

    def ensures(c):
        s, n = c.pre.lseq(c.a.files), c.pre.llen(c.a.files)
        k_ = lambda k: shown.count(s, k)
        return load_files.state(c, c.post, c.res, n) + [('new', M.rid(c.res) >= c.alloc0), (
            'each visible file', c.forall(1, lambda k: Imp(And(ok(k, n), visible(z3.Select(s, k))), And(ok(k_(k), c.post.llen(c.res)), M.V.t2a(
                c.post.at(c.res, k_(k))) == z3.Select(s, k))), lambda k: [z3.Select(s, k)], [I]))]


# ------------------------------------------------------------------ directories
def listing(c, H, l, p):
    """the list has the visible files of directory p, in alphabetical order"""
    n, d = _ndir(p), _dir(p)
    name = lambda i: base(M.V.t2a(H.at(l, i)))
    m = H.llen(l)
    return [('new', M.rid(l) >= c.alloc0),
            ('visible files of the directory', c.forall(1, lambda i: Imp(ok(i, m), And(visible(M.V.t2a(H.at(l, i))), M.V.t2a(
                H.at(l, i)) == join(p, name(i)), somewhere(lambda k: And(ok(k, n), z3.Select(d, k) == name(i)), lambda k: z3.Select(d, k)))), lambda i: [H.at(l, i)], [I])),
            ('every one', c.forall(1, lambda k: Imp(And(ok(k, n), visible(join(p, z3.Select(d, k)))), somewhere(
                lambda i: And(ok(i, m), M.V.t2a(H.at(l, i)) == join(p, z3.Select(d, k))), lambda i: H.at(l, i))), lambda k: [z3.Select(d, k)], [I])),
            ('in order', c.forall(2, lambda i, j: Imp(And(i >= 0, i < j, j < m), And(le(name(i), name(j)), name(i) != name(j))), lambda i, j: [
                z3.MultiPattern(H.at(l, i), H.at(l, j))], [I, I]))] + [
        (lab, c.forall(1, lambda i: Imp(ok(i, m), source_of(c, H, H.at(l, i), M.V.t2a(H.at(l, i)))[q][1]), lambda i: [H.at(l, i)], [I])) for q, lab in enumerate(
            ['new or of the document', 'names', 'readable', 'descriptions', 'lists'])]


def not_loaded(c, p):
    n, d = _ndir(p), _dir(p)
    f = lambda k: join(p, z3.Select(d, k))
    return Or(Not(_lists(p)), somewhere(lambda k: And(ok(k, n), visible(f(k)), Not(fine(c.pre, f(k)))), lambda k: z3.Select(d, k)))


@contract
class load_path(Contract):
    key = SI + 'load_sources_from_path'
    types = {'path': 'str'}
    result = 'list[tuple[str,any]]'
    requires = docs
    raises = {'Exception': lambda c: not_loaded(c, c.a.path)}

    def ensures(c):
        return [('listed', _lists(c.a.path))] + listing(c, c.post, c.res, c.a.path)


@contract
class get_descrs(Contract):
    key = SI + 'get_source_descriptions'
    types = {'sources_dir': 'str'}
    result = 'list[tuple[str,any]]?'
    requires = docs
    raises = {'Exception': lambda c: And(exists(c.a.sources_dir), not_loaded(c, c.a.sources_dir))}

    def ensures(c):
        e = exists(c.a.sources_dir)
        return [('none without directory', (c.res == NONE) == Not(e))] + [(l, Imp(e, x)) for l, x in listing(c, c.post, c.res, c.a.sources_dir)]


@contract
class defaults(Contract):
    key = SI + 'get_default_source_descriptions'
    result = 'list[tuple[str,any]]'
    requires = docs

    def data(c, i):
        a = [STR('xylem.sources'), STR('sources.d')]
        return _data(STR('xylem.sources'), join(STR('sources.d'), z3.Select(_res(*a), i)))
    raises = {'ValueError': lambda c: somewhere(lambda i: And(ok(i, _nres(STR('xylem.sources'), STR('sources.d'))), Not(accepted(c.pre, defaults.data(c, i)))), lambda i: z3.Select(_res(STR('xylem.sources'), STR('sources.d')), i))}

    def state(c, H, l, n):
        a = lambda i: [M.V.t2b(H.at(l, i)), defaults.data(c, i)]
        return [('type', typed(H, l, 'list[tuple[str,any]]')), ('number', H.llen(l) == n)] + [
            (lab, c.forall(1, lambda i: Imp(ok(i, n), f(i)), lambda i: [H.at(l, i)], [I])) for lab, f in (
                ('descriptions', lambda i: parsed(c.pre, H, *a(i))), ('lists', lambda i: oklist(H, a(i)[0])), (
                    'new or of the document', lambda i: own(a(i)[0], c.alloc0)), ('another list', lambda i: a(i)[0] != l))]

    def inv(c):
        return defaults.state(c, c.h, c.gen(), c.idx)
    loops = {0: staticmethod(inv)}

    def ensures(c):
        return defaults.state(c, c.post, c.res, _nres(STR('xylem.sources'), STR('sources.d'))) + [('new', M.rid(c.res) >= c.alloc0)]


# ------------------------------------------------------------------ the database
def known(H, ctx, name):
    """the spec plugin of this name in list ctx of plugins"""
    l = H.field(ctx, 'spec_plugins')
    return l, lambda k: H.field(H.at(l, k), 'name') == name


@contract
class get_spec(Contract):
    key = SI + 'SourcesContext.get_spec'
    types = {'spec_name': 'any'}
    result = 'Spec'
    allocs = False
    raises = {'UnknownSpecError': lambda c: get_spec.none(c)}

    def none(c):
        l, is_ = known(c.pre, c.a.self, c.a.spec_name)
        return c.forall(1, lambda k: Imp(ok(k, c.pre.llen(l)), Not(is_(k))), lambda k: [c.pre.at(l, k)], [I])

    def requires(c):
        return [('plugins', tfield(c.pre, c.a.self, 'spec_plugins', 'list[Spec]'))]

    def inv(c):
        l, is_ = known(c.pre, c.a.self, c.a.spec_name)
        return [('not yet', c.forall(1, lambda k: Imp(ok(k, c.idx), Not(is_(k))), lambda k: [c.pre.at(l, k)], [I]))]
    loops = {0: staticmethod(inv)}

    def ensures(c):
        l, is_ = known(c.pre, c.a.self, c.a.spec_name)
        return [('name', c.pre.field(c.res, 'name') == c.a.spec_name), ('plugin', inlist(c.pre, l, c.res)), ('first plugin', somewhere(lambda k: And(ok(k, c.pre.llen(l)), c.pre.at(
            l, k) == c.res, c.forall(1, lambda j: Imp(ok(j, k), Not(is_(j))), lambda j: [c.pre.at(l, j)], [I])), lambda k: c.pre.at(l, k)))]


def source_id(H, s):
    i = M.V.str(_uid(H.field(s, 'spec'), H.field(s, 'arguments')))
    return B.uf_str('hexdigest', B.uf_str('sha1', B.uf_str('to_bytes', i).t).t).t


def different(H, l):
    return M.forall(2, lambda i, j: Imp(And(i >= 0, i < j, j < H.llen(l)), source_id(H, H.at(l, i)) != source_id(H, H.at(l, j))), lambda i, j: [
        z3.MultiPattern(H.at(l, i), H.at(l, j))], [I, I])


@contract
class unique(Contract):
    key = DB + 'RulesDatabase.verify_unique_ids'
    result = 'none'
    raises = {'RuntimeError': lambda c: Not(different(c.pre, c.pre.field(c.a.self, 'sources')))}

    def requires(c):
        return [('sources', tfield(c.pre, c.a.self, 'sources', 'list[RulesSource]'))]

    def ensures(c):
        return [('different', different(c.pre, c.pre.field(c.a.self, 'sources')))]


SL = [LL, M.SeqS]
size = lambda ll, s, j: Ite(And(M.V.is_ref(M.V.t2b(z3.Select(s, j))), M.kindf(M.V.r(M.V.t2b(z3.Select(s, j)))) == M.K_LIST), z3.Select(ll, M.V.r(M.V.t2b(z3.Select(s, j)))), 0)
before = Sum('rs:descriptions before', SL, size)
file_of = Owner('rs:file of description', before)


def made(H, c, s, file, d):
    """source s was made from description d of the file"""
    sp = H.field(s, 'spec')
    name = H.field(sp, 'name')
    return And(typed(H, s, 'RulesSource'), M.rid(s) >= c.pre.alloc, H.field(s, 'origin') == file, H.has(d, name), H.field(s, 'arguments') == H.get(d, name),
               H.field(s, 'sources_context') == ctx(c), H.field(s, 'data') == NONE, inlist(H, H.field(ctx(c), 'spec_plugins'), sp))


def ctx(c):
    return c.pre.field(c.a.self, 'sources_context')


def all_made(c, D, H, l, g, n):
    """list l has the sources of the first n files of g (a sequence in heap D), in order"""
    a = [D.comp('ll'), g]
    i = lambda k: file_of(*(a + [k]))
    t = lambda k: z3.Select(g, i(k))
    return [('number', H.llen(l) == before(*(a + [n]))),
            ('made', c.forall(1, lambda k: Imp(ok(k, H.llen(l)), made(H, c, H.at(l, k), M.V.t2a(t(k)), D.at(M.V.t2b(t(k)), k - before(*(a + [i(k)]))))),
                              lambda k: [H.at(l, k)], [I]))]


@contract
class init(Contract):
    key = DB + 'RulesDatabase.init_from_sources'
    result = 'none'
    raises = {'Exception': None}
    modifies = {'f.sources': lambda c, r: r == M.rid(c.a.self)}

    def requires(c):
        return docs(c) + [('plugins', tfield(c.pre, ctx(c), 'spec_plugins', 'list[Spec]'))]

    def lists(c):
        """the call that gave the files"""
        return c.call('get_default_source_descriptions'), c.call('get_source_descriptions')

    def inv(c):
        l = c.h.field(c.a.self, 'sources')
        return [('list', And(typed(c.h, l, 'list'), l == c.entry.field(c.a.self, 'sources'), M.rid(l) >= c.pre.alloc))] + all_made(c, c.entry, c.h, l, c.seq, c.idx)

    def inner(c):
        l = c.h.field(c.a.self, 'sources')
        e = c.entry
        m = e.llen(l)
        if not hasattr(c, 'idx'):
            return [('no entry', c.m0 == M.EMPTY)]
        return [('descriptions', c.forall(1, lambda j: Imp(ok(j, c.n), And(c.h.isdict(c.elem(j)), within(c.elem(j)), okdescr(c.h, c.elem(j)))), lambda j: [c.elem(j)], [I])), ('same list', l == e.field(c.a.self, 'sources')), ('number', c.h.llen(l) == m + c.idx),
                ('before', c.forall(1, lambda k: Imp(ok(k, m), c.h.at(l, k) == e.at(l, k)), lambda k: [c.h.at(l, k)], [I])),
                ('made', c.forall(1, lambda k: Imp(And(k >= m, k < c.h.llen(l)), made(c.h, c, c.h.at(l, k), c.l('source_file'), z3.Select(
                    c.seq, k - m))), lambda k: [c.h.at(l, k)], [I]))]
    loops = {0: staticmethod(inv), 1: staticmethod(inner)}

    def ensures(c):
        d, g = init.lists(c)
        h = d or g
        l = c.post.field(c.a.self, 'sources')
        return [('of the directory if it exists', exists(c.pre.field(ctx(c), 'sources_dir')) == z3.BoolVal(d is None)),
                ('the directory', g.a.sources_dir == c.pre.field(ctx(c), 'sources_dir')), ('different', different(c.post, l))] + all_made(
            c, h.post, c.post, l, h.post.lseq(h.res), h.post.llen(h.res))
