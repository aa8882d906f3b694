"""The analysed program: parsed modules, their top-level bindings, classes."""
import ast
import os


class ModSrc:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.bind = {}
        self.future_global = set()
        for st in tree.body:
            for n in bound_names(st):
                self.bind.setdefault(n, []).append(st)
        for node in ast.walk(tree):
            if isinstance(node, ast.Global):
                self.future_global.update(node.names)

    def __repr__(self):
        return f'<module {self.name}>'


def target_names(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from target_names(e)
    elif isinstance(t, ast.Starred):
        yield from target_names(t.value)


def base_name(t):
    while isinstance(t, (ast.Subscript, ast.Attribute)):
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


MUT = {'append', 'extend', 'update', 'add', 'insert', 'setdefault', 'remove', 'pop', 'discard', 'clear'}


def bound_names(st):
    """Names whose module- or class-level value a statement defines or changes."""
    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        yield st.name
    elif isinstance(st, ast.Import):
        for a in st.names:
            yield a.asname or a.name.split('.')[0]
    elif isinstance(st, ast.ImportFrom):
        for a in st.names:
            yield a.asname or a.name
    elif isinstance(st, ast.Assign):
        for t in st.targets:
            yield from target_names(t)
            if isinstance(t, (ast.Subscript, ast.Attribute)) and base_name(t):
                yield base_name(t)
    elif isinstance(st, (ast.AnnAssign, ast.AugAssign)):
        if isinstance(st, ast.AugAssign) or st.value is not None:
            yield from target_names(st.target)
    elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
        for sub in ast.iter_child_nodes(st):
            if isinstance(sub, ast.stmt):
                yield from bound_names(sub)
            elif isinstance(sub, ast.ExceptHandler):
                for s2 in sub.body:
                    yield from bound_names(s2)
        if isinstance(st, ast.For):
            yield from target_names(st.target)
        if isinstance(st, ast.With):
            for it in st.items:
                if it.optional_vars is not None:
                    yield from target_names(it.optional_vars)
    elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
            and st.value.func.attr in MUT:
        b = base_name(st.value.func)
        if b:
            yield b


_ASSIGNED = {}


def assigned_in(stmts):
    """Names assigned anywhere in a list of statements (not inside nested functions)."""
    key = tuple(id(s) for s in stmts)
    r = _ASSIGNED.get(key)
    if r is None:
        r = set()

        def visit(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                r.add(n.name)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    r.add(a.asname or a.name.split('.')[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                r.add(n.name)
            for c in ast.iter_child_nodes(n):
                visit(c)
        for s in stmts:
            visit(s)
        _ASSIGNED[key] = r
    return r


class FnInfo:
    """Static facts about one function node."""
    _cache = {}

    def __init__(self, node):
        body = node.body if isinstance(node.body, list) else []
        self.locals = set(assigned_in(body)) if body else set()
        self.globals, self.nonlocals = set(), set()
        self.is_gen = False

        def visit(n, top=False):
            if not top and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda,
                                          ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                return
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            for c in ast.iter_child_nodes(n):
                visit(c)
        for s in (body or ([node.body] if isinstance(node, ast.Lambda) else [])):
            visit(s)
        self.locals -= self.globals | self.nonlocals
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)

    @classmethod
    def of(cls, node):
        r = cls._cache.get(id(node))
        if r is None:
            r = cls._cache[id(node)] = (cls(node), node)
        return r[0]


class Cls:
    def __init__(self, node, mod, frame=None, outer=None):
        self.node, self.mod, self.name, self.frame, self.outer = node, mod, node.name, frame, outer
        self.bind = {}
        for st in node.body:
            for n in bound_names(st):
                self.bind.setdefault(n, []).append(st)
        self.cache = {}
        self._mro = None
        self.bases = None

    def __repr__(self):
        return f'<class {self.name}>'

    def qual(self):
        return f'{self.mod.name}:{self.name}'


class Mod:
    def __init__(self, src):
        self.src, self.name, self.path = src, src.name, src.path

    def __repr__(self):
        return f'<mod {self.name}>'


class Program:
    def __init__(self, root='/repo', package='codeprep', overlay=None):
        self.root = root
        self.mods = {}
        self.errors = []
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'data'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, '.')
                is_pkg = name.endswith('.__init__')
                if is_pkg:
                    name = name[:-len('.__init__')]
                if overlay and rel in overlay:
                    text = overlay[rel]
                else:
                    with open(path, encoding='utf-8') as fh:
                        text = fh.read()
                try:
                    tree = ast.parse(text)
                except SyntaxError as e:
                    self.errors.append((rel, str(e)))
                    continue
                self.mods[name] = ModSrc(name, rel, tree, is_pkg)
        self.gcache = {}
        self.fns = {}
        self.modobjs = {n: Mod(m) for n, m in self.mods.items()}
        self.clsobjs = {}
        self.n_functions = sum(isinstance(n, (ast.FunctionDef, ast.Lambda)) for m in self.mods.values() for n in ast.walk(m.tree))

    def function_names(self):
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef):
                    yield m, n
