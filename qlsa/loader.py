"""Parsing of the repository and class/function tables."""
import ast
import hashlib
import os
import warnings

REPO = os.environ.get('QLSA_REPO', '/repo')
PKG = 'quantificationlib'


# external classes whose behaviour is assumed in the form of source (qlsa/stubs)
STUBS = {
    'sklearn.multiclass.OneVsRestClassifier': ('qlsa_stubs.sklearn_multiclass', 'OneVsRestClassifier'),
    'sklearn.preprocessing.LabelBinarizer': ('qlsa_stubs.sklearn_preprocessing', 'LabelBinarizer'),
    'sklearn.multiclass.OneVsOneClassifier': ('qlsa_stubs.sklearn_multiclass', 'OneVsOneClassifier'),
}


class AnalysisBroken(Exception):
    pass


class FuncInfo(object):
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls          # ClassInfo or None
        self.parent = parent    # enclosing FuncInfo
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.kind = 'function'  # 'static', 'class', 'property'
        self.defaults = None    # evaluated defaults: list (positional), dict (kw only)
        for d in getattr(node, 'decorator_list', []):
            if isinstance(d, ast.Name) and d.id == 'staticmethod':
                self.kind = 'static'
            elif isinstance(d, ast.Name) and d.id == 'classmethod':
                self.kind = 'class'
            elif isinstance(d, ast.Name) and d.id == 'property':
                self.kind = 'property'
        self._locals = None
        self.is_gen = False
        if isinstance(node, ast.FunctionDef):
            for n in _own_nodes(node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True

    @property
    def qualname(self):
        if self.cls is not None:
            return '%s.%s' % (self.cls.name, self.name)
        return self.name

    @property
    def where(self):
        return '%s:%s' % (self.module.rel, self.qualname)

    def local_names(self):
        """Names bound in the function body (so: local unless declared global/nonlocal)."""
        if self._locals is None:
            names = set()
            glob = set()
            a = self.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                names.add(x.arg)
            if a.vararg:
                names.add(a.vararg.arg)
            if a.kwarg:
                names.add(a.kwarg.arg)
            if not isinstance(self.node, ast.Lambda):
                for n in _own_nodes(self.node):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        names.add(n.id)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        names.add(n.name)
                    elif isinstance(n, (ast.Import, ast.ImportFrom)):
                        for al in n.names:
                            names.add((al.asname or al.name).split('.')[0])
                    elif isinstance(n, ast.ExceptHandler) and n.name:
                        names.add(n.name)
                    elif isinstance(n, (ast.Global, ast.Nonlocal)):
                        glob.update(n.names)
            self._locals = names - glob
        return self._locals


def _own_nodes(fn):
    """Nodes of a function body, not descending into nested functions/classes/comprehension scopes' functions."""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # comprehension targets are local to the comprehension
            for g in n.generators:
                stack.append(g.iter)
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    yield c.target
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo(object):
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.bases = []        # ClassInfo or dotted str
        self.methods = {}      # name -> FuncInfo
        self.attrs = {}        # class attribute AST
        self.attr_vals = {}
        self._mro = None

    @property
    def where(self):
        return '%s:%s' % (self.module.rel, self.name)

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def find(self, name, after=None):
        """(FuncInfo | ('ext', dotted) , owner) lookup along the MRO; after: start after that class (super)."""
        m = self.mro()
        i = 0
        if after is not None:
            for k, c in enumerate(m):
                if c is after:
                    i = k + 1
                    break
        for c in m[i:]:
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return c.methods[name], c
                if name in c.attr_vals:
                    return c.attr_vals[name], c
        return None, None

    def ext_bases(self, after=None):
        m = self.mro()
        i = 0
        if after is not None:
            for k, c in enumerate(m):
                if c is after:
                    i = k + 1
        return [c for c in m[i:] if not isinstance(c, ClassInfo)]

    def is_subclass_of(self, other):
        """other: ClassInfo or dotted name."""
        for c in self.mro():
            if c is other:
                return True
            if isinstance(other, str):
                if isinstance(c, str) and (c == other or c.split('.')[-1] == other.split('.')[-1]):
                    return True
        return False


def _c3(ci):
    seqs = []
    for b in ci.bases:
        if isinstance(b, ClassInfo):
            seqs.append(list(b.mro()))
        else:
            seqs.append([b])
    seqs.append(list(ci.bases))
    out = [ci]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            c = seqs[0][0]
        out.append(c)
        for s in seqs:
            if s[0] == c:
                del s[0]
            elif c in s:
                s.remove(c)


class Module(object):
    def __init__(self, dotted, path, rel, tree, src):
        self.dotted = dotted
        self.path = path
        self.rel = rel
        self.tree = tree
        self.src = src
        self.globals = None     # name -> V, filled by the interpreter
        self.loading = False
        self.funcs = {}
        self.classes = {}


class Repo(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken('package directory %s not found' % base)
        h = hashlib.sha256()
        for dp, dn, fn in sorted(os.walk(base)):
            dn[:] = sorted(d for d in dn if d not in ('__pycache__', 'tests', 'test', 'examples'))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)
                dotted = rel[:-3].replace(os.sep, '.')
                if dotted.endswith('.__init__'):
                    dotted = dotted[:-9]
                with open(p, 'rb') as fh:
                    data = fh.read()
                h.update(rel.encode() + b'\0' + data)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    try:
                        tree = ast.parse(data, filename=rel)
                    except SyntaxError as e:
                        raise AnalysisBroken('cannot parse %s: %s' % (rel, e))
                self.modules[dotted] = Module(dotted, p, os.path.relpath(p, base), tree, data.decode('utf8', 'replace'))
        self.digest = h.hexdigest()
        self.own = set(self.modules)
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                with open(os.path.join(d, f)) as fh:
                    src = fh.read()
                self.modules['qlsa_stubs.' + f[:-3]] = Module('qlsa_stubs.' + f[:-3], os.path.join(d, f), '<assumed>/' + f,
                                                             ast.parse(src), src)
        if len(self.own) < 20:
            raise AnalysisBroken('only %d modules found under %s' % (len(self.own), base))

    def module(self, short):
        m = self.modules.get(short if short.startswith('qlsa_stubs.') else PKG + '.' + short)
        if m is None:
            raise AnalysisBroken('module %s not found' % short)
        return m
