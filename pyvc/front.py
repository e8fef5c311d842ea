"""Front end: parses the current source of the package and resolves names."""
import ast
import builtins
import os

REPO = os.environ.get('VERIF_REPO', '/repo')

EXTRA_EXC = {
    # externals: name -> base
    'YAMLError': 'Exception', 'URLError': 'OSError', 'HTTPError': 'URLError',
    'EnvironmentError': 'OSError', 'IOError': 'OSError',
    'OtherException': 'Exception', 'DistributionNotFound': 'Exception',
    'CalledProcessError': 'Exception', 'UnpicklingError': 'Exception', 'HTTPException': 'Exception',
    'IncompleteRead': 'HTTPException', 'BadStatusLine': 'HTTPException', 'RemoteDisconnected': 'BadStatusLine', 'InvalidURL': 'HTTPException',
}
ALIAS_EXC = {'EnvironmentError': 'OSError', 'IOError': 'OSError',
             'timeout': 'TimeoutError'}


class FuncInfo(object):
    def __init__(self, module, qual, node, cls=None):
        self.module = module
        self.qual = qual
        self.node = node
        self.cls = cls
        self.key = '%s:%s' % (module.name, qual)
        self.decorators = [ast.unparse(d) for d in getattr(node, 'decorator_list', [])]

    @property
    def is_property(self):
        return 'property' in self.decorators

    @property
    def is_abstract(self):
        return any('abstract' in d for d in self.decorators)

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_generator(self):
        for n in walk_own(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False


class ClassInfo(object):
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.bases = []
        for b in node.bases:
            if isinstance(b, ast.Call):     # six.with_metaclass(Meta, B...)
                for a in b.args[1:]:
                    self.bases.append(ast.unparse(a).split('.')[-1])
            else:
                self.bases.append(ast.unparse(b).split('.')[-1])
        self.methods = {}
        self.setters = {}
        self.consts = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                fi = FuncInfo(module, '%s.%s' % (node.name, st.name), st, self)
                if any(d.endswith('.setter') for d in fi.decorators):
                    fi.key += '=set'
                    fi.qual += '=set'
                    self.setters[st.name] = fi
                else:
                    self.methods[st.name] = fi
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Name):
                self.consts[st.targets[0].id] = st.value


class ModuleInfo(object):
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.functions = {}
        self.classes = {}
        self.imports = {}
        self.assigns = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        pkg = self.name.split('.')
        if not self.path.endswith('__init__.py'):
            pkg = pkg[:-1]
        for st in body:
            if isinstance(st, ast.FunctionDef):
                self.functions[st.name] = FuncInfo(self, st.name, st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = (a.name, None)
                    else:
                        self.imports[a.name.split('.')[0]] = (a.name.split('.')[0], None)
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ''
                if st.level:
                    base = pkg[:len(pkg) - (st.level - 1)]
                    mod = '.'.join(base + ([mod] if mod else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = (mod, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)


class Repo(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        top = os.path.join(self.root, 'xylem')
        for d, _dirs, files in os.walk(top):
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                self.modules[rel] = ModuleInfo(rel, p)
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
        self._exc_cache = {}

    def add_client(self, name, source):
        """Register an extra (verification-only) module, e.g. a lemma."""
        m = object.__new__(ModuleInfo)
        m.name = name
        m.path = name
        m.source = source
        m.tree = ast.parse(source)
        m.functions = {}
        m.classes = {}
        m.imports = {}
        m.assigns = {}
        m._scan(m.tree.body)
        self.modules[name] = m
        return m

    def function(self, key):
        """FuncInfo for 'module:qual' ('module:Class.method[=set]')."""
        mod, qual = key.split(':')
        m = self.modules.get(mod)
        if m is None:
            return None
        if '.' in qual:
            c, f = qual.split('.', 1)
            ci = m.classes.get(c)
            if ci is None:
                return None
            if f.endswith('=set'):
                return ci.setters.get(f[:-4])
            return ci.methods.get(f)
        return m.functions.get(qual)

    def resolve(self, module, name):
        """Resolve a global name: ('func',fi)|('class',ci)|('const',ast)|
        ('ext',dotted)|('mod',name)|None."""
        if name in module.functions:
            return ('func', module.functions[name])
        if name in module.classes:
            return ('class', module.classes[name])
        if name in module.imports:
            mod, attr = module.imports[name]
            if attr is None:
                return ('mod', mod)
            return self.resolve_dotted(mod, attr)
        if name in module.assigns:
            return ('global', module, name)
        return None

    def resolve_dotted(self, mod, attr):
        if mod in self.modules:
            m = self.modules[mod]
            r = self.resolve(m, attr)
            if r is not None:
                return r
            if mod + '.' + attr in self.modules:
                return ('mod', mod + '.' + attr)
        if mod + '.' + attr in self.modules:
            return ('mod', mod + '.' + attr)
        return ('ext', mod + '.' + attr)

    def mro(self, cname):
        out = []
        todo = [cname]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            ci = self.classes.get(c)
            if ci:
                todo.extend(ci.bases)
        return out

    def find_method(self, cname, name, after=None):
        mro = self.mro(cname)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            ci = self.classes.get(c)
            if ci and name in ci.methods:
                return ci.methods[name]
        return None

    def find_setter(self, cname, name):
        for c in self.mro(cname):
            ci = self.classes.get(c)
            if ci and name in ci.setters:
                return ci.setters[name]
        return None

    def exc_bases(self, name):
        """All (transitive) base names of an exception class."""
        name = ALIAS_EXC.get(name, name)
        if name in self._exc_cache:
            return self._exc_cache[name]
        out = [name]
        if name in self.classes:
            for b in self.classes[name].bases:
                for x in self.exc_bases(b):
                    if x not in out:
                        out.append(x)
        elif name in EXTRA_EXC:
            out += [x for x in self.exc_bases(EXTRA_EXC[name])]
        elif hasattr(builtins, name) and isinstance(getattr(builtins, name), type):
            for b in getattr(builtins, name).__mro__[1:]:
                if b is not object:
                    out.append(b.__name__)
        else:
            out += ['Exception', 'BaseException']
        self._exc_cache[name] = out
        return out

    def is_exc_class(self, name):
        return 'BaseException' in self.exc_bases(name) and (
            name in self.classes or name in EXTRA_EXC or name in ALIAS_EXC or
            (hasattr(builtins, name) and isinstance(getattr(builtins, name), type)
             and issubclass(getattr(builtins, name), BaseException)))

    def exc_sub(self, name, of):
        return ALIAS_EXC.get(of, of) in self.exc_bases(name)


def walk_own(node):
    """Walk a function's own nodes, not those of nested functions/classes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop(0)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            yield n
            continue
        yield n
        todo[0:0] = list(ast.iter_child_nodes(n))


LOOPS = (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def loop_order(node):
    """Map id(loop node) -> ordinal in source order."""
    out = {}
    for n in walk_own(node):
        if isinstance(n, LOOPS):
            out[id(n)] = len(out)
    return out
