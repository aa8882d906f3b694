"""Abstract values: constants, symbolic terms and heap objects, and their normal forms."""


class C:
    """A constant."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, C) and type(self.v) is type(o.v) and self.v == o.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE = C(None), C(True), C(False)
SYMTY = {}      # symbol name -> type hint
SYMDOM = {}     # symbol name -> tuple of possible constants


class T:
    """A symbolic term."""
    __slots__ = ('op', 'args', '_h')

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = hash((op, args))

    def __eq__(self, o):
        return self is o or (isinstance(o, T) and self._h == o._h and self.op == o.op and self.args == o.args)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.op == 'sym':
            return '$' + str(self.args[0])
        if self.op == 'cat':
            return 'cat(' + ' + '.join(map(repr, self.args)) + ')'
        s = f"{self.op}({', '.join(map(_sh, self.args))})"
        return s if len(s) < 400 else s[:400] + '...)'


def _sh(x):
    return repr(x)


def sym(name, ty=None, dom=None):
    if ty:
        SYMTY[name] = ty
    if dom:
        SYMDOM[name] = tuple(dom)
    return T('sym', name)


_RET = {'enc': 'bytes', 'repr': 'str', 'str': 'str', 'dec': 'str', 'len': 'int', 'lin': 'int', 'join': 'str',
        'lit': 'str', 'unlit': 'str', 'sum': 'int', 'mul': 'int', 'plen': 'int', 'niter': 'int', 'eq': 'bool',
        'lt': 'bool', 'not': 'bool', 'in': 'bool', 'isinstance': 'bool', 'truthy': 'bool', 'isnone': 'bool',
        'index_of': 'int', 'int': 'int', 'ord': 'int', 'chr': 'str', 'float': 'float', 'strmul': 'str'}
_STRM = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'format', 'capitalize', 'title', 'swapcase', 'join',
         'casefold', 'zfill', 'ljust', 'rjust', 'center', 'expandtabs', 'removeprefix', 'removesuffix', 'translate', 'strftime', 'hexdigest', 'isoformat'}
_BOOLM = {'isupper', 'islower', 'startswith', 'endswith', 'isalpha', 'isdigit', 'isspace', 'isalnum', 'istitle',
          'isidentifier', 'isnumeric', 'isdecimal', 'isascii'}
_PATHF = {'os.path.dirname', 'os.path.basename', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath',
          'os.path.relpath', 'os.path.expanduser', 'root', 'ext'}


def ty(v):
    """Best-effort static type of a value: str, bytes, int, bool, list, ... or None."""
    if isinstance(v, C):
        return type(v.v).__name__
    if isinstance(v, HList):
        return 'list'
    if isinstance(v, HDict):
        return 'dict'
    if isinstance(v, HSet):
        return 'set'
    if isinstance(v, Tup):
        return 'tuple'
    if not isinstance(v, T):
        return None
    op = v.op
    if op == 'sym':
        return SYMTY.get(v.args[0])
    if op in _RET:
        return _RET[op]
    if op == 'got':
        return ty(v.args[1])
    if op == 'cat':
        for a in v.args:
            t = ty(a)
            if t in ('str', 'bytes'):
                return t
        return 'str'
    if op == 'piece' or op == 'slice' or op == 'charof':
        return ty(v.args[-1]) if op == 'piece' else ty(v.args[0])
    if op in _PATHF:
        return ty(v.args[0])
    if op == 'pcall':
        return ty(v.args[1]) if len(v.args) > 1 and v.args[0] in _PATHF else None
    if op == 'mcall':
        if v.args[1] in _STRM:
            return ty(v.args[0]) or 'str'
        if v.args[1] in _BOOLM:
            return 'bool'
        if v.args[1] in ('split', 'splitlines'):
            return 'list'
        if v.args[1] in ('find', 'index', 'count', 'rfind'):
            return 'int'
    if op == 'elem':
        it = v.args[0]
        if isinstance(it, T):
            if it.op == 'lines':
                return it.args[1] if len(it.args) > 1 else 'str'
            if it.op == 'mcall' and it.args[1] in ('split', 'splitlines'):
                return ty(it.args[0]) or 'str'
            if it.op in ('walkdirs', 'walkfiles', 'listdir'):
                return ty(it.args[0])
            if ty(it) in ('str',):
                return 'str'
            if it.op == 'sym':
                return SYMTY.get(it.args[0] + '[]')
            if it.op == 'groups':
                return it.args[0]
    if op in ('walkroot',):
        return ty(v.args[0])
    if op == 'read':
        return v.args[1] if len(v.args) > 1 else None
    if op == 'lv':
        return ty(v.args[2])
    return SYMTY.get(v)


# ---------------------------------------------------------------- heap objects
class Heap:
    serial = 0
    shared = None       # None or a description of who else sees the object
    tag = None


class HList(Heap):
    """segs: ('e', value) | ('s', term) | ('r', loopkey, iterterm, segs) | ('p', loopkey, serial)"""

    def __init__(self, segs=None):
        self.segs = list(segs or [])

    def __repr__(self):
        return '[' + ', '.join(seg_repr(s) for s in self.segs) + ']'

    def elems(self):
        """Element values if the structure is fully known, else None."""
        if all(s[0] == 'e' for s in self.segs):
            return [s[1] for s in self.segs]
        return None


def seg_repr(s):
    if s[0] == 'e':
        return repr(s[1])
    if s[0] == 's':
        return '*' + repr(s[1])
    if s[0] == 'r':
        return '{' + ', '.join(seg_repr(x) for x in s[3]) + ' for ' + repr(s[2]) + '}'
    return '...'


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.items)) + ')'


class HDict(Heap):
    """pairs: list of (key, value); later wins; opaque: list of markers for unknown further content"""

    def __init__(self, pairs=None, opaque=None, default=None):
        self.pairs = list(pairs or [])
        self.opaque = list(opaque or [])
        self.default = default

    def __repr__(self):
        return '{' + ', '.join(f'{k!r}: {v!r}' for k, v in self.pairs) + (', ...' + repr(self.opaque) if self.opaque else '') + '}'


class HSet(Heap):
    def __init__(self, segs=None):
        self.segs = list(segs or [])

    def __repr__(self):
        return 'set[' + ', '.join(seg_repr(s) for s in self.segs) + ']'


class HObj(Heap):
    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = fields if fields is not None else {}

    def __repr__(self):
        return f'<{self.cls.name}#{self.serial}>'


class HFile(Heap):
    def __init__(self, path, mode, kind, line, opened):
        self.path, self.mode, self.kind, self.line = path, mode, kind, line
        self.opened = opened
        self.closed = False

    def __repr__(self):
        return f'<file {self.path!r} {self.mode}>'


class XObj(Heap):
    """An object of an external class (queue, pool, lock, process, Path, Counter, ...)."""
    root, many = '', False

    def __init__(self, name, args=(), kw=()):
        self.name, self.args, self.kw = name, list(args), dict(kw)
        self.fields = {}

    def __repr__(self):
        return f'<{self.name}#{self.serial}>'


class Lazy(Heap):
    """A lazily evaluated iterable; it(run, cb) calls cb(value) per element."""

    def __init__(self, kind, it, desc=None):
        self.kind, self.it, self.desc = kind, it, desc
        self.used = False

    def __repr__(self):
        return f'<lazy {self.kind}>'


class Fn:
    def __init__(self, node, mod, closure, cls=None, name=None, kind=None):
        self.node, self.mod, self.closure, self.cls = node, mod, closure, cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.kind = kind        # None | 'static' | 'class' | 'property' | 'ctx' | 'cached'
        self.setter = None
        self.flags = set()
        self.defaults = None

    def qual(self):
        return f'{self.mod.name}:{self.cls.name + "." if self.cls else ""}{self.name}'

    def __repr__(self):
        return f'<fn {self.qual()}>'


class Bound:
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __repr__(self):
        return f'<bound {self.fn!r}>'


class BMeth:
    """A method of a built-in or external value."""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return f'<method {self.name} of {self.recv!r}>'


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Ext:
    """An external (library or builtin) name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('ext', self.name))

    def __repr__(self):
        return f'<ext {self.name}>'


def toktype(x):
    """The parts of a lexer token type ('Literal', 'String'), or None."""
    if not isinstance(x, Ext) or not x.name.startswith('pygments.token.'):
        return None
    ps = x.name.split('.')[2:]
    if ps[0] in ('STANDARD_TYPES', 'is_token_subtype', 'string_to_tokentype', '_TokenType'):
        return None
    while ps and ps[0] == 'Token':
        ps = ps[1:]
    if ps and ps[0] in ('String', 'Number'):
        ps = ['Literal'] + ps
    elif ps and ps[0] == 'Whitespace':
        ps = ['Text'] + ps
    return tuple(ps)


class EnumMember:
    __slots__ = ('cls', 'name', 'value')

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumMember) and self.cls is o.cls and self.name == o.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('enum', self.cls.name, self.name))

    def __repr__(self):
        return f'{self.cls.name}.{self.name}'


# ---------------------------------------------------------------- freezing
def fz(v, depth=0):
    """An immutable, hashable snapshot of a value (for use inside terms)."""
    if isinstance(v, (C, T, Ext, EnumMember)):
        return v
    if isinstance(v, Tup):
        return T('tup', *[fz(x, depth + 1) for x in v.items])
    if isinstance(v, HList):
        return T('list', *[fzseg(s, depth + 1) for s in v.segs])
    if isinstance(v, HSet):
        return T('set', *[fzseg(s, depth + 1) for s in v.segs])
    if isinstance(v, HDict):
        if depth > 6:
            return T('dict', 'deep')
        return T('dict', *([T('pair', fz(k, depth + 1), fz(x, depth + 1)) for k, x in v.pairs] +
                           [T('opaque', fz(o, depth + 1) if isinstance(o, (T, C)) else str(o)) for o in v.opaque]))
    if isinstance(v, HObj):
        return T('obj', v.cls.name, v.serial)
    if isinstance(v, HFile):
        return T('file', fz(v.path), v.serial)
    if isinstance(v, XObj):
        if v.name == 'pathlib.Path':
            return v.fields['p'] if isinstance(v.fields['p'], (C, T)) else fz(v.fields['p'])
        return T('xobj', v.name, v.serial)
    if isinstance(v, Lazy):
        return v.desc if isinstance(v.desc, T) else T('lazy', v.kind, v.serial)
    if isinstance(v, Fn):
        return T('fn', v.qual(), id(v.node))
    if isinstance(v, Bound):
        return T('bound', fz(v.fn), fz(v.self))
    if isinstance(v, BMeth):
        return T('bmeth', fz(v.recv), v.name)
    if isinstance(v, Partial):
        return T('partial', fz(v.fn), *[fz(a) for a in v.args])
    n = getattr(v, 'name', None)
    return T('val', type(v).__name__, str(n) if n is not None else id(v))


def fzseg(s, depth=0):
    if s[0] == 'e':
        return fz(s[1], depth)
    if s[0] == 's':
        return T('spread', fz(s[1], depth))
    if s[0] == 'r':
        return T('rep', s[2] if isinstance(s[2], T) else str(s[2]), *[fzseg(x, depth) for x in s[3]])
    return T('prev', *[str(x) for x in s[1:]])


# ---------------------------------------------------------------- strings
def cat(*parts):
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == 'cat':
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if isinstance(p, C) and isinstance(p.v, (str, bytes)):
            if len(p.v) == 0 and len(out) > 1:
                continue
            if res and isinstance(res[-1], C) and type(res[-1].v) is type(p.v):
                res[-1] = C(res[-1].v + p.v)
                continue
        elif len(out) > 1 and isinstance(p, T) and p.op == 'str' and isinstance(p.args[0], T) and p.args[0].op == 'attr' and \
                ty(p.args[0]) in (None, 'str'):
            p = p.args[0]            # a part of a string without str() is a string
        res.append(p)
    if not res:
        for p in out:
            return p
        return C('')
    if len(res) == 1:
        return res[0]
    return T('cat', *res)


def parts_of(v):
    return list(v.args) if isinstance(v, T) and v.op == 'cat' else [v]


def encode(v):
    if isinstance(v, C) and isinstance(v.v, str):
        return C(v.v.encode())
    if isinstance(v, T):
        if v.op == 'cat':
            return cat(*[encode(a) for a in v.args])
        if v.op == 'dec':
            return v.args[0]
    return T('enc', v)


def decode(v):
    if isinstance(v, C) and isinstance(v.v, bytes):
        try:
            return C(v.v.decode())
        except UnicodeDecodeError:
            return T('dec', v)
    if isinstance(v, T):
        if v.op == 'cat':
            return cat(*[decode(a) for a in v.args])
        if v.op == 'enc':
            return v.args[0]
    return T('dec', v)


def literal(v):
    """Text with the escape sequences of 'unicode-escape' (all ASCII, no control characters)."""
    if isinstance(v, C) and isinstance(v.v, str):
        return C(v.v.encode('unicode-escape').decode())
    if isinstance(v, T):
        if v.op == 'cat':
            return cat(*[literal(a) for a in v.args])
        if v.op in ('str', 'fmt') and ty(v.args[0]) == 'int':
            return v
    return T('lit', v)


def unliteral(v):
    """The text meant by escape sequences."""
    ps = list(v.args) if isinstance(v, T) and v.op == 'cat' else [v]
    out = []
    for i, p in enumerate(ps):
        if isinstance(p, C) and isinstance(p.v, str):
            if '\\' in p.v[-10:] and i + 1 < len(ps):
                return T('unlit', v)
            try:
                out.append(C(p.v.encode().decode('unicode-escape')))
            except UnicodeDecodeError:
                return T('unlit', v)
        elif isinstance(p, T) and p.op == 'lit':
            out.append(p.args[0])
        elif isinstance(p, T) and p.op in ('str', 'fmt') and ty(p.args[0]) == 'int':
            out.append(p)
        else:
            return T('unlit', v)
    return cat(*out)


def canon(v):
    """Path identity: encoding and Path wrappers do not matter."""
    if isinstance(v, XObj) and v.name == 'pathlib.Path':
        v = v.fields['p']
    if isinstance(v, C):
        if isinstance(v.v, bytes):
            try:
                return C(v.v.decode())
            except UnicodeDecodeError:
                return v
        return v
    if isinstance(v, T):
        if v.op in ('enc', 'dec', 'fspath'):
            return canon(v.args[0])
        if v.op == 'cat':
            return cat(*[canon(a) for a in v.args])
        return T(v.op, *[canon(a) if isinstance(a, (T, C)) else a for a in v.args])
    return fz(v)


def ends_with(path, suffix):
    """path (canonical) = x + suffix (constant str)?  Returns x or None."""
    if isinstance(path, C) and isinstance(path.v, str):
        return C(path.v[:-len(suffix)]) if path.v.endswith(suffix) else None
    if isinstance(path, T) and path.op == 'cat':
        last = path.args[-1]
        if isinstance(last, C) and isinstance(last.v, str) and last.v.endswith(suffix):
            return cat(*(list(path.args[:-1]) + [C(last.v[:-len(suffix)])]))
    return None


def strip_prefix(v, prefix):
    """v = prefix + rest?  Returns rest (a value) or None."""
    vp, pp = parts_of(v), parts_of(prefix)
    vp = list(vp)
    for i, p in enumerate(pp):
        if not vp:
            return None
        if vp[0] == p:
            vp.pop(0)
            continue
        if isinstance(p, C) and isinstance(vp[0], C) and type(p.v) is type(vp[0].v) and isinstance(p.v, (str, bytes)) \
                and vp[0].v.startswith(p.v):
            rest = vp[0].v[len(p.v):]
            if i < len(pp) - 1 and rest:
                return None
            vp[0] = C(rest)
            if not rest:
                vp.pop(0)
            continue
        return None
    if not vp:
        return C(b'' if ty(v) == 'bytes' else '')
    return cat(*vp)


def strip_suffix(v, suffix):
    vp, sp = list(parts_of(v)), list(parts_of(suffix))
    while sp:
        s = sp.pop()
        if not vp:
            return None
        if vp[-1] == s:
            vp.pop()
            continue
        if isinstance(s, C) and isinstance(vp[-1], C) and type(s.v) is type(vp[-1].v) and isinstance(s.v, (str, bytes)) \
                and vp[-1].v.endswith(s.v):
            rest = vp[-1].v[:len(vp[-1].v) - len(s.v)]
            if sp and rest:
                return None
            vp[-1] = C(rest)
            if not rest:
                vp.pop()
            continue
        return None
    if not vp:
        return C(b'' if ty(v) == 'bytes' else '')
    return cat(*vp)


# ---------------------------------------------------------------- integers
def lin_of(v):
    """(const, {term: coef}) or None"""
    if isinstance(v, C):
        if isinstance(v.v, bool):
            return int(v.v), {}
        if isinstance(v.v, int):
            return v.v, {}
        return None
    if isinstance(v, T):
        if v.op == 'lin':
            return v.args[0], dict(v.args[1])
        return 0, {v: 1}
    return None


def mk_lin(c, d):
    d = {k: x for k, x in d.items() if x != 0}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (k, x), = d.items()
        if x == 1:
            return k
    return T('lin', c, tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))


def lin_add(a, b, sign=1):
    la, lb = lin_of(a), lin_of(b)
    if la is None or lb is None:
        return None
    d = dict(la[1])
    for k, x in lb[1].items():
        d[k] = d.get(k, 0) + sign * x
    return mk_lin(la[0] + sign * lb[0], d)


def lin_mul(a, k):
    la = lin_of(a)
    if la is None:
        return None
    return mk_lin(la[0] * k, {t: x * k for t, x in la[1].items()})


def length(v):
    if isinstance(v, C):
        try:
            return C(len(v.v))
        except TypeError:
            return T('len', v)
    if isinstance(v, Tup):
        return C(len(v.items))
    if isinstance(v, HList):
        return segs_len(v.segs)
    if isinstance(v, HDict) and not v.opaque:
        return C(len(v.pairs))
    if isinstance(v, T):
        if v.op == 'cat':
            r = C(0)
            for a in v.args:
                r = lin_add(r, length(a))
            return r
        if v.op == 'list':
            return T('len', v) if any(isinstance(a, T) and a.op in ('spread', 'rep', 'prev') for a in v.args) else C(len(v.args))
        if v.op == 'enc' or v.op == 'dec':
            pass
    return T('len', fz(v))


def segs_len(segs):
    r = C(0)
    for s in segs:
        if s[0] == 'e':
            x = C(1)
        elif s[0] == 's':
            x = length(s[1])
        elif s[0] == 'r':
            x = sum_over(s[1], segs_len(s[3]))
        else:
            x = T('plen', *[str(a) for a in s[1:]])
        r = lin_add(r, x)
    return r


def sum_over(key, x):
    if isinstance(x, C) and isinstance(x.v, int):
        return lin_mul(T('niter', str(key)), x.v)
    return T('sum', str(key), fz(x))


def subterms(v, seen=None):
    """All terms and constants inside a value (frozen)."""
    v = fz(v) if not isinstance(v, (T, C)) else v
    stack = [v]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, T):
            stack.extend(a for a in x.args if isinstance(a, (T, C, Ext, EnumMember)))
            if x.op == 'lin':
                stack.extend(t for t, _ in x.args[1])


def contains(v, needle):
    return any(x == needle for x in subterms(v))


def replace_term(v, old, new):
    if v == old:
        return new
    if isinstance(v, T):
        if v.op == 'cat':
            return cat(*[replace_term(a, old, new) for a in v.args])
        return T(v.op, *[replace_term(a, old, new) if isinstance(a, (T, C)) else a for a in v.args])
    return v


def strip_order(d):
    """The iteration source without wrappers that only reorder it."""
    while isinstance(d, T) and d.op in ('sorted', 'reversed') and d.args and isinstance(d.args[0], T):
        d = d.args[0]
    return d
