"""Strings as vectors of abstract characters.

An abstract character is a symbol with a set of possible characters (value-set domain); every test on it either has the
same answer for the whole set or partitions the trace.  The set consists of ASCII characters and of classes of non-ASCII
characters, of which only the properties used below are known:
  X! upper-case letter, x! its lower-case counterpart (one character each, reversible), W! letter without case,
  N! digit, P! neither word character nor blank, B! blank.
"""
import itertools
import string
import re as _re
try:
    from re import _parser as _sre
except ImportError:                                    # Python < 3.11
    import sre_parse as _sre
from .ir import *
from .core import *

PSEUDO = ('X!', 'x!', 'W!', 'N!', 'P!', 'B!')
ASCII = tuple(c for c in map(chr, range(128)) if c.isprintable() or c in '\t\n\r\x0b\x0c')
ALL = frozenset(ASCII) | frozenset(PSEUDO)
CHOPS = ('ch', 'chlo', 'chup')
_NA = object()


def lower1(x):
    return 'x!' if x == 'X!' else x if len(x) > 1 else x.lower()


def upper1(x):
    return 'X!' if x == 'x!' else x if len(x) > 1 else x.upper()


def isupper1(x):
    return x == 'X!' or len(x) == 1 and x.isupper()


def islower1(x):
    return x == 'x!' or len(x) == 1 and x.islower()


def isalpha1(x):
    return x in ('X!', 'x!', 'W!') or len(x) == 1 and x.isalpha()


def isdigit1(x):
    return x == 'N!' or len(x) == 1 and x.isdigit()


def isword1(x):
    return x in ('X!', 'x!', 'W!', 'N!') or len(x) == 1 and (x.isalnum() or x == '_')


def isspace1(x):
    return x == 'B!' or len(x) == 1 and x.isspace()


def isascii1(x):
    return len(x) == 1


def is_break(x):
    return x in '\n\r\x0b\x0c' if len(x) == 1 else False


def char(name, dom=ALL):
    t = T('ch', name, frozenset(dom))
    SYMTY[t] = 'str'
    return t


def ischar(t):
    return isinstance(t, T) and t.op in CHOPS


_memo = {}


def isvec(v):
    """A string with abstract characters."""
    if not isinstance(v, T):
        return False
    if v.op in CHOPS:
        return True
    return v.op == 'cat' and _vec(v) is not None


def _vec(v):
    m = _memo.get(id(v))
    if m is not None and m[0] is v:
        return m[1]
    out = []
    for a in v.args:
        if ischar(a):
            out.append(a)
        elif isinstance(a, C) and isinstance(a.v, str):
            out.extend(C(c) for c in a.v)
        else:
            out = None
            break
    if len(_memo) > 2000:
        _memo.clear()
    _memo[id(v)] = (v, out)
    return out


def vec(v):
    """The characters of a constant string or vector, or None."""
    if isinstance(v, C):
        return [C(c) for c in v.v] if isinstance(v.v, str) else None
    if not isvec(v):
        return None
    if v.op != 'cat':
        return [v]
    return list(_vec(v))


def mkvec(cs):
    return cat(*cs) if cs else C('')


def base_of(t):
    while t.op != 'ch':
        t = t.args[0]
    return t


def apply_(t, x):
    """Image of the base character x under the case mappings of t."""
    if t.op == 'ch':
        return x
    x = apply_(t.args[0], x)
    return lower1(x) if t.op == 'chlo' else upper1(x)


class VMatch:
    def __init__(self, s, spans, names):
        self.s, self.spans, self.names = s, spans, names

    def _i(self, k):
        if isinstance(k, str):
            return self.names[k]
        if k < 0 or k >= len(self.spans):
            raise IndexError()
        return k

    def _g(self, k):
        sp = self.spans[self._i(k)]
        return None if sp is None else mkvec(self.s[sp[0]:sp[1]])

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = [self._g(k) for k in ks]
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, k):
        return self._g(k)

    def groups(self, default=None):
        return tuple(default if self.spans[i] is None else self._g(i) for i in range(1, len(self.spans)))

    def groupdict(self, default=None):
        return {k: default if self.spans[i] is None else self._g(i) for k, i in self.names.items()}

    def span(self, k=0):
        sp = self.spans[self._i(k)]
        return sp if sp else (-1, -1)

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]


class Unsupported(Exception):
    pass


_POSIX = {'upper': '\ue000', 'lower': '\ue001', 'alpha': '\ue002', 'digit': '\ue003', 'alnum': '\ue004', 'space': '\ue005',
          'punct': '\ue006', 'word': '\ue007'}
_PRED = {'\ue000': isupper1, '\ue001': islower1, '\ue002': isalpha1, '\ue003': isdigit1,
         '\ue004': lambda x: isalpha1(x) or isdigit1(x), '\ue005': isspace1, '\ue007': isword1}
_PROP = {'Lu': '\ue000', 'Ll': '\ue001', 'L': '\ue002', 'Nd': '\ue003', 'Upper': '\ue000', 'Lower': '\ue001', 'Alpha': '\ue002'}
_patterns = {}


def parse(pat):
    if pat in _patterns:
        return _patterns[pat]
    p = _re.sub(r'\[:(\w+):\]', lambda m: _POSIX.get(m[1], m[0]), pat)
    p = _re.sub(r'\\p\{(\w+)\}', lambda m: _PROP.get(m[1], m[0]), p)
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = _sre.parse(p)
    except Exception:
        tree = None
    if tree is not None and tree.state.flags & ~(_re.UNICODE | _re.DOTALL | _re.MULTILINE | _re.VERBOSE):
        tree = None
    _patterns[pat] = tree
    return tree


def lit_pred(code):
    c = chr(code)
    if c in _PRED:
        return _PRED[c]
    if code >= 128:
        raise Unsupported()
    return lambda x: x == c


def set_pred(items):
    neg, ps = False, []
    for op, av in items:
        n = str(op)
        if n == 'NEGATE':
            neg = True
        elif n == 'LITERAL':
            ps.append(lit_pred(av))
        elif n == 'RANGE':
            lo, hi = av
            if hi >= 128 and hi != 0x10ffff:
                raise Unsupported()
            ps.append(lambda x, lo=lo, hi=hi: len(x) == 1 and lo <= ord(x) <= hi or len(x) > 1 and hi == 0x10ffff)
        elif n == 'CATEGORY':
            ps.append(cat_pred(av))
        else:
            raise Unsupported()
    return lambda x: any(p(x) for p in ps) != neg


def cat_pred(av):
    n = str(av).replace('UNI_', '')
    f = {'CATEGORY_DIGIT': isdigit1, 'CATEGORY_SPACE': isspace1, 'CATEGORY_WORD': isword1}.get(n.replace('NOT_', ''))
    if f is None:
        raise Unsupported()
    return (lambda x: not f(x)) if 'NOT_' in n else f


class Matcher:
    """Backtracking matcher in the order of Python's engines; tests on characters partition the trace."""

    def __init__(self, run, tree, s, flags):
        self.run, self.tree, self.s, self.flags = run, tree, s, flags
        self.preds = {}

    def one(self, node, i):
        """A node that consumes one character: does it match at i?"""
        return i < len(self.s) and self.run.chtest(self.s[i], self.pred(node), 'matches')

    def single(self, node):
        return str(node[0]) in ('LITERAL', 'NOT_LITERAL', 'ANY', 'IN')

    def pred(self, node):
        k = id(node)
        if k in self.preds:
            return self.preds[k][0]
        n, av = str(node[0]), node[1]
        if n == 'LITERAL':
            p = lit_pred(av)
        elif n == 'NOT_LITERAL':
            q = lit_pred(av)
            p = (lambda x: not q(x))
        elif n == 'ANY':
            p = (lambda x: True) if self.flags & _re.DOTALL else (lambda x: x != '\n')
        else:
            p = set_pred(av)
        self.preds[k] = (p, node)
        return p

    def seq(self, nodes, k, i, g):
        """Yields (end, groups) for the nodes from index k on, at position i."""
        if k == len(nodes):
            yield i, g
            return
        for j, h in self.node(nodes[k], i, g):
            yield from self.seq(nodes, k + 1, j, h)

    def node(self, node, i, g):
        n, av = str(node[0]), node[1]
        if self.single(node):
            if self.one(node, i):
                yield i + 1, g
        elif n == 'BRANCH':
            for alt in av[1]:
                yield from self.seq(list(alt), 0, i, g)
        elif n == 'SUBPATTERN':
            grp, add, rem, p = av
            if add or rem:
                raise Unsupported()
            for j, h in self.seq(list(p), 0, i, g):
                if grp is not None:
                    h = dict(h)
                    h[grp] = (i, j)
                yield j, h
        elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            lo, hi, p = av
            hi = None if hi is _sre.MAXREPEAT else hi
            yield from self.repeat(n, lo, hi, list(p), i, g)
        elif n == 'ATOMIC_GROUP':
            for r in self.seq(list(av), 0, i, g):
                yield r
                break
        elif n in ('ASSERT', 'ASSERT_NOT'):
            way, p = av
            p = list(p)
            if way > 0:
                hit = next(self.seq(p, 0, i, g), None)
            else:
                hit = None
                for st in range(i, -1, -1):
                    hit = next((r for r in self.seq(p, 0, st, g) if r[0] == i), None)
                    if hit:
                        break
            if (hit is not None) == (n == 'ASSERT'):
                yield i, (hit[1] if hit else g)
        elif n == 'AT':
            if self.at(str(av), i):
                yield i, g
        elif n == 'GROUPREF':
            if av in g:
                a, z = g[av]
                for k in range(z - a):
                    if i + k >= len(self.s) or not self.run.cheq(self.s[i + k], self.s[a + k]):
                        return
                yield i + z - a, g
        else:
            raise Unsupported()

    def at(self, n, i):
        s = self.s
        if n in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
            if i == 0:
                return True
            return n == 'AT_BEGINNING' and bool(self.flags & _re.MULTILINE) and self.run.chtest(s[i - 1], lambda x: x == '\n', 'nl')
        if n in ('AT_END', 'AT_END_STRING'):
            if i == len(s):
                return True
            if n == 'AT_END_STRING':
                return False
            if i == len(s) - 1 or self.flags & _re.MULTILINE:
                return self.run.chtest(s[i], lambda x: x == '\n', 'nl')
            return False
        if n in ('AT_BOUNDARY', 'AT_NON_BOUNDARY', 'AT_UNI_BOUNDARY', 'AT_UNI_NON_BOUNDARY'):
            a = i > 0 and self.run.chtest(s[i - 1], isword1, 'word')
            b = i < len(s) and self.run.chtest(s[i], isword1, 'word')
            return (a != b) != ('NON' in n)
        raise Unsupported()

    def repeat(self, n, lo, hi, p, i, g):
        if len(p) == 1 and self.single(p[0]):
            if n == 'MIN_REPEAT':
                k = 0
                while k < lo:
                    if not self.one(p[0], i + k):
                        return
                    k += 1
                while True:
                    yield i + k, g
                    if hi is not None and k >= hi or not self.one(p[0], i + k):
                        return
                    k += 1
            k = 0
            while (hi is None or k < hi) and self.one(p[0], i + k):
                k += 1
            if k < lo:
                return
            if n == 'POSSESSIVE_REPEAT':
                yield i + k, g
                return
            while k >= lo:
                yield i + k, g
                k -= 1
            return

        def more(cnt, j, h):
            if n == 'MIN_REPEAT' and cnt >= lo:
                yield j, h
            if hi is None or cnt < hi:
                for j2, h2 in self.seq(p, 0, j, h):
                    if j2 == j and cnt >= lo:
                        continue
                    yield from more(cnt + 1, j2, h2)
            if n != 'MIN_REPEAT' and cnt >= lo:
                yield j, h
        if n == 'POSSESSIVE_REPEAT':
            for r in more(0, i, g):
                yield r
                break
            return
        yield from more(0, i, g)

    def match(self, i, full=False):
        for j, g in self.seq(list(self.tree), 0, i, {}):
            if not full or j == len(self.s):
                n = self.tree.state.groups
                return VMatch(self.s, [(i, j)] + [g.get(k) for k in range(1, n)], dict(self.tree.state.groupdict))
        return None

    def search(self, i):
        while i <= len(self.s):
            m = self.match(i)
            if m is not None:
                return m
            i += 1
        return None

    def all(self):
        pos, out, last = 0, [], None
        while pos <= len(self.s):
            m = self.search(pos)
            if m is None:
                break
            a, z = m.span()
            if a == z and last == z and False:
                pos = z + 1
                continue
            out.append(m)
            pos = z if z > a else z + 1
            last = z
        return out


class Chars:
    """Mixin in front of the interpreter: operations on vectors are decided character by character."""

    # ------------------------------------------------------------ characters
    def chdom(self, t):
        b = base_of(t)
        d = self.__dict__.setdefault('chdoms', {})
        return d.get(b, b.args[1])

    def chimages(self, t):
        return {apply_(t, x) for x in self.chdom(t)}

    def chsimp(self, t):
        """The constant if only one character is possible."""
        if isinstance(t, C):
            return t
        im = self.chimages(t)
        if len(im) == 1:
            x = next(iter(im))
            if len(x) == 1:
                return C(x)
        if t.op != 'ch' and self.chdom(t) == im and all(apply_(t, x) == x for x in im):
            return base_of(t)
        return t

    def chrestrict(self, b, dom):
        dom = frozenset(dom)
        if not dom:
            raise Infeasible()
        self.__dict__.setdefault('chdoms', {})[b] = dom

    def chtest(self, t, pred, what=''):
        if isinstance(t, C):
            return bool(pred(t.v)) if ord(t.v) < 128 else bool(pred(classify(t.v)))
        b = base_of(t)
        d = self.chdom(t)
        yes = frozenset(x for x in d if pred(apply_(t, x)))
        if len(yes) == len(d):
            return True
        if not yes:
            return False
        r = self.choose(2, f'{t.op}:{b.args[0]} in {show(yes)} ({what})') == 0
        self.chrestrict(b, yes if r else d - yes)
        return r

    def cheq(self, a, b):
        if isinstance(a, C) and isinstance(b, C):
            return a.v == b.v
        if isinstance(a, C):
            a, b = b, a
        if isinstance(b, C):
            if ord(b.v) < 128:
                return self.chtest(a, lambda x: x == b.v, '== %r' % b.v)
            k = classify(b.v)
            if not self.chtest(a, lambda x: x == k, 'class of %r' % b.v):
                return False
            return self.decide(T('cheq', a, b), f'{a!r} == {b!r}')
        a, b = self.chsimp(a), self.chsimp(b)
        if a == b:
            return True
        if isinstance(a, C) or isinstance(b, C):
            return self.cheq(a, b)
        if base_of(a) == base_of(b):
            return self.chtest(base_of(a), lambda x: apply_(a, x) == apply_(b, x), 'case')
        if not self.chimages(a) & self.chimages(b):
            return False
        a, b = self.chrep(a), self.chrep(b)
        if a == b:
            return True
        if repr(b) < repr(a):
            a, b = b, a
        r = self.decide(T('cheq', a, b), f'{a!r} == {b!r}')
        if r:
            self.__dict__.setdefault('chreps', {})[b] = a
        return r

    def chrep(self, a):
        """The representative of the characters found equal to this one."""
        m = self.__dict__.get('chreps') or {}
        while a in m:
            a = m[a]
        return a

    def chcase(self, t, fn, op):
        if isinstance(t, C):
            return C(t.v.lower() if fn is lower1 else t.v.upper())
        if not self.chtest(t, lambda x: fn(x) != x, 'other case'):
            return t
        if t.op in ('chlo', 'chup') and t.op != op:
            # the counterpart of a counterpart
            inner = t.args[0]
            if all(fn(apply_(t, x)) == apply_(inner, x) for x in self.chdom(t)):
                return self.chsimp(inner)
        r = T(op, t)
        SYMTY[r] = 'str'
        return self.chsimp(r)

    def vecs(self, v):
        cs = vec(v)
        return [self.chsimp(c) for c in cs] if cs is not None else None

    def veq(self, a, b):
        return len(a) == len(b) and all(self.cheq(x, y) for x, y in zip(a, b))

    def vfind(self, a, x, start=0, step=1):
        """Index of the first (last) occurrence of x in a, or -1."""
        rng = range(start, len(a) - len(x) + 1)
        for i in (rng if step > 0 else reversed(rng)):
            if self.veq(a[i:i + len(x)], x):
                return i
        return -1

    # ------------------------------------------------------------ interpreter operations
    def eq(self, a, b):
        if isvec(a) or isvec(b):
            if a == b:
                return TRUE
            x, y = vec(a), vec(b)
            if x is not None and y is not None:
                return C(self.veq(x, y))
            if isinstance(a, C) or isinstance(b, C):
                return FALSE
        return super().eq(a, b)

    def truthy(self, v):
        if isvec(v):
            return TRUE
        return super().truthy(v)

    def lt(self, a, b):
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, T) and x.op == 'ord' and ischar(x.args[0]) and isinstance(y, C) and isinstance(y.v, int) and y.v <= 128:
                def o(c):
                    return ord(c) if len(c) == 1 else 128
                return C(self.chtest(x.args[0], (lambda c: o(c) < y.v) if not flip else (lambda c: y.v < o(c)), f'ord vs {y.v}'))
            if ischar(x) and isinstance(y, C) and isinstance(y.v, str) and len(y.v) == 1 and y.v < '\x80':
                return C(self.chtest(x, (lambda c: (c if len(c) == 1 else '\x80') < y.v) if not flip else
                                     (lambda c: y.v < (c if len(c) == 1 else '\x80')), f'compared with {y.v!r}'))
        if (isvec(a) or isvec(b)) and isinstance(a, (C, T)) and isinstance(b, (C, T)):
            x, y = self.vecs(a), self.vecs(b)
            if x is not None and y is not None:
                for i, j in zip(x, y):
                    if self.cheq(i, j):
                        continue
                    return C(self.chlt(i, j))
                return C(len(x) < len(y))
        return super().lt(a, b)

    def chlt(self, a, b):
        """Order of two different characters."""
        if isinstance(b, C) and len(b.v) == 1 and b.v < '\x80':
            return self.chtest(a, lambda c: (c if len(c) == 1 else '\x80') < b.v, f'compared with {b.v!r}')
        if isinstance(a, C) and len(a.v) == 1 and a.v < '\x80':
            return self.chtest(b, lambda c: a.v < (c if len(c) == 1 else '\x80'), f'compared with {a.v!r}')
        xs, ys = self.chimages(a), self.chimages(b)
        if all(len(x) == 1 and (len(y) > 1 or x < y) for x in xs for y in ys):
            return True
        if all(len(y) == 1 and (len(x) > 1 or y < x) for x in xs for y in ys):
            return False
        if repr(b) < repr(a):
            return not self.decide(T('chlt', b, a), f'{b!r} < {a!r}')
        return self.decide(T('chlt', a, b), f'{a!r} < {b!r}')

    def contains_(self, coll, x, node):
        if isvec(coll) or isvec(x) and isinstance(coll, C) and isinstance(coll.v, str):
            a, b = self.vecs(coll), self.vecs(x) if isinstance(x, (C, T)) else None
            if b is not None:
                return C(self.vfind(a, b) >= 0 if b else True)
            if isinstance(x, C):
                raise PyExc('TypeError', (), None, node)
        return super().contains_(coll, x, node)

    def getitem(self, o, k, node=None):
        if isvec(o):
            cs = vec(o) if ischar(o) else _vec(o)
            k = self.subst(k) if isinstance(k, T) else k
            if isinstance(k, C) and isinstance(k.v, int):
                if -len(cs) <= k.v < len(cs):
                    return self.chsimp(cs[k.v])
                raise PyExc('IndexError', (), None, node)
            sl = self.slice_of(k)
            if sl is not None:
                ps = [self.subst(x) if isinstance(x, T) else x for x in sl]
                if all(isinstance(x, C) for x in ps):
                    return mkvec([self.chsimp(c) for c in cs[ps[0].v:ps[1].v:ps[2].v]])
        return super().getitem(o, k, node)

    def length(self, o):
        if isvec(o):
            return C(1 if ischar(o) else len(_vec(o)))
        return super().length(o)

    def iterate(self, v, cb, node=None):
        if isvec(v):
            for c in self.vecs(v):
                cb(c)
            return
        if isinstance(v, HSet):
            segs = self.to_segs(v)
            if segs and all(s[0] == 'e' for s in segs) and [s[1] for s in segs] != [s[1] for s in v.segs]:
                for s in segs:
                    cb(s[1])
                return
        return super().iterate(v, cb, node)

    def to_segs(self, v):
        if isinstance(v, HSet) and 2 <= len(v.segs) <= 4 and all(s[0] == 'e' and isinstance(s[1], (C, T)) and (isvec(s[1]) or isinstance(s[1], C) and isinstance(s[1].v, str))
                                                                for s in v.segs) and any(isvec(s[1]) for s in v.segs):
            memo = getattr(v, 'order_', None)          # the order of strings in a set differs from run to run
            if memo is None or memo[0] != v.segs:
                ps = list(itertools.permutations(v.segs))
                memo = v.order_ = (list(v.segs), list(ps[self.choose(len(ps), 'order of a set')]))
            return list(memo[1])
        if isvec(v):
            return [('e', c) for c in self.vecs(v)]
        return super().to_segs(v)

    def binop(self, op, a, b, node):
        if type(op).__name__ == 'Mult':
            for x, y in ((a, b), (b, a)):
                n = self.pyval(y) if isinstance(y, (C, T)) and not isvec(y) else None
                if isvec(x) and isinstance(n, int):
                    return mkvec(vec(x) * n)
        if type(op).__name__ == 'Add' and (isvec(a) or isvec(b)):
            x, y = vec(a), vec(b)
            if x is not None and y is not None:
                return mkvec(x + y)
        return super().binop(op, a, b, node)

    def b_ord(self, args, kw, node):
        if ischar(args[0]):
            c = self.chsimp(args[0])
            if isinstance(c, C):
                return C(ord(c.v))
            return T('ord', c)
        return super().b_ord(args, kw, node)

    def call_method(self, recv, name, args, kw, node):
        if isvec(recv) or isinstance(recv, C) and isinstance(recv.v, str) and any(isvec(a) for a in args) and name != 'format':
            h = self.opts.mcall_hook
            r = h(self, recv, name, args, kw, node) if h is not None else NotImplemented
            if r is NotImplemented:
                r = self.vmeth(recv, name, [self.subst(a) if isinstance(a, T) and not isvec(a) else a for a in args], kw, node)
            if r is not NotImplemented and r is not _NA:
                return r
            if name not in ('format', 'format_map'):
                self.guessed = f'.{name}()'          # what the text is turned into is not known
        return super().call_method(recv, name, args, kw, node)

    def vmeth(self, recv, name, args, kw, node):
        cs = self.vecs(recv)
        av = [vec(a) if isinstance(a, (C, T)) else None for a in args]
        ints = [a.v if isinstance(a, C) and isinstance(a.v, int) else None for a in args]
        if name in ('lower', 'casefold'):
            return mkvec([self.chcase(c, lower1, 'chlo') for c in cs])
        if name == 'upper':
            return mkvec([self.chcase(c, upper1, 'chup') for c in cs])
        if name == 'swapcase':
            return mkvec([self.chcase(c, lower1, 'chlo') if self.chtest(c, isupper1) else self.chcase(c, upper1, 'chup') for c in cs])
        if name == 'capitalize':
            return mkvec([self.chcase(cs[0], upper1, 'chup')] + [self.chcase(c, lower1, 'chlo') for c in cs[1:]])
        if name == 'expandtabs' and (not args or ints[0] is not None):
            size, out, col = ints[0] if args else kw['tabsize'].v if 'tabsize' in kw else 8, [], 0
            for c in cs:
                if self.chtest(c, lambda x: x == '\t', 'tab'):
                    n = size - col % size if size > 0 else 0
                    out += [C(' ')] * n
                    col += n
                else:
                    out.append(c)
                    col = 0 if self.chtest(c, lambda x: x in '\n\r', 'line end') else col + 1
            return mkvec(out)
        if name in ('isupper', 'islower'):
            want, other = (isupper1, islower1) if name == 'isupper' else (islower1, isupper1)
            some = False
            for c in cs:
                if self.chtest(c, other, name):
                    return FALSE
                some = self.chtest(c, want, name) or some
            return C(some)
        one = {'isalpha': isalpha1, 'isdigit': isdigit1, 'isdecimal': isdigit1, 'isnumeric': isdigit1, 'isspace': isspace1,
               'isascii': isascii1, 'isalnum': lambda x: isalpha1(x) or isdigit1(x)}.get(name)
        if one is not None:
            return C(all(self.chtest(c, one, name) for c in cs))
        if name == 'isidentifier':
            return C(self.chtest(cs[0], lambda x: isword1(x) and not isdigit1(x)) and all(self.chtest(c, isword1) for c in cs[1:]))
        if name == 'isprintable':
            return C(all(self.chtest(c, lambda x: x != 'B!' and (len(x) > 1 or x.isprintable())) for c in cs))
        if name in ('strip', 'lstrip', 'rstrip'):
            if args and args[0] != NONE:
                if av[0] is None:
                    return _NA
                test = lambda c: any(self.cheq(c, x) for x in av[0])
            else:
                test = lambda c: self.chtest(c, isspace1, 'blank')
            a, z = 0, len(cs)
            if name != 'rstrip':
                while a < z and test(cs[a]):
                    a += 1
            if name != 'lstrip':
                while z > a and test(cs[z - 1]):
                    z -= 1
            return mkvec(cs[a:z])
        if name in ('startswith', 'endswith') and len(args) == 1:
            xs = [vec(x) for x in args[0].items] if isinstance(args[0], Tup) else [av[0]]
            if any(x is None for x in xs):
                return _NA
            for x in xs:
                part = cs[:len(x)] if name == 'startswith' else cs[len(cs) - len(x):] if len(x) <= len(cs) else None
                if part is not None and len(part) == len(x) and self.veq(part, x):
                    return TRUE
            return FALSE
        if name in ('removeprefix', 'removesuffix') and av and av[0] is not None:
            x = av[0]
            if name == 'removeprefix' and len(x) <= len(cs) and self.veq(cs[:len(x)], x):
                return mkvec(cs[len(x):])
            if name == 'removesuffix' and 0 < len(x) <= len(cs) and self.veq(cs[-len(x):], x):
                return mkvec(cs[:-len(x)])
            return mkvec(cs)
        if name == 'replace' and len(args) >= 2 and av[0] and av[1] is not None:
            n = ints[2] if len(args) > 2 else -1
            if n is None:
                return _NA
            out, i = [], 0
            while i < len(cs):
                if n and i + len(av[0]) <= len(cs) and self.veq(cs[i:i + len(av[0])], av[0]):
                    out += av[1]
                    i += len(av[0])
                    n -= 1
                else:
                    out.append(cs[i])
                    i += 1
            return mkvec(out)
        if name in ('find', 'rfind', 'index', 'rindex') and av and av[0] is not None:
            if len(args) > 1 and (ints[1] is None or len(args) > 2 or ints[1] < 0):
                return _NA
            i = self.vfind(cs, av[0], ints[1] if len(args) > 1 else 0, -1 if name[0] == 'r' else 1)
            if i < 0 and name.endswith('index'):
                raise PyExc('ValueError', (), None, node)
            return C(i)
        if name == 'count' and len(args) == 1 and av[0]:
            n = i = 0
            while i + len(av[0]) <= len(cs):
                if self.veq(cs[i:i + len(av[0])], av[0]):
                    n, i = n + 1, i + len(av[0])
                else:
                    i += 1
            return C(n)
        if name == 'split':
            sep = self.arg(args, kw, 0, 'sep', NONE)
            mx = self.arg(args, kw, 1, 'maxsplit', C(-1))
            if not isinstance(mx, C):
                return _NA
            mx = mx.v
            if sep == NONE:
                out, i, n = [], 0, len(cs)
                while True:
                    while i < n and self.chtest(cs[i], isspace1, 'blank'):
                        i += 1
                    if i == n:
                        break
                    if mx >= 0 and len(out) >= mx:
                        z = n
                        while z > i and self.chtest(cs[z - 1], isspace1, 'blank'):
                            z -= 1
                        out.append(mkvec(cs[i:z]))
                        break
                    j = i
                    while j < n and not self.chtest(cs[j], isspace1, 'blank'):
                        j += 1
                    out.append(mkvec(cs[i:j]))
                    i = j
                return self.new_list(out)
            sv = vec(sep)
            if not sv:
                return _NA
            out, cur, i = [], [], 0
            while i < len(cs):
                if (mx < 0 or len(out) < mx) and i + len(sv) <= len(cs) and self.veq(cs[i:i + len(sv)], sv):
                    out.append(mkvec(cur))
                    cur, i = [], i + len(sv)
                else:
                    cur.append(cs[i])
                    i += 1
            return self.new_list(out + [mkvec(cur)])
        if name in ('partition', 'rpartition') and av and av[0]:
            i = self.vfind(cs, av[0], 0, 1 if name == 'partition' else -1)
            if i < 0:
                e = C('')
                return Tup([mkvec(cs), e, e] if name == 'partition' else [e, e, mkvec(cs)])
            return Tup([mkvec(cs[:i]), args[0], mkvec(cs[i + len(av[0]):])])
        if name == 'splitlines' and not args and not kw:
            out, cur, i = [], [], 0
            while i < len(cs):
                if self.chtest(cs[i], is_break, 'line break'):
                    if self.cheq(cs[i], C('\r')) and i + 1 < len(cs) and self.cheq(cs[i + 1], C('\n')):
                        i += 1
                    out.append(mkvec(cur))
                    cur = []
                else:
                    cur.append(cs[i])
                i += 1
            return self.new_list(out + ([mkvec(cur)] if cur else []))
        if name == 'join' and args:
            return _NA
        if name == 'encode':
            e = self.pyval(self.arg(args, kw, 0, 'encoding', C('utf-8')))
            er = self.pyval(self.arg(args, kw, 1, 'errors', C('strict')))
            if isinstance(e, str) and e.lower().replace('-', '').replace('_', '') in ('ascii', 'usascii'):
                keep = []
                for c in cs:
                    if self.chtest(c, isascii1, 'ASCII'):
                        keep.append(c)
                    elif er == 'strict':
                        raise PyExc('UnicodeEncodeError', (), None, node)
                    elif er == 'replace':
                        keep.append(C('?'))
                    elif er != 'ignore':
                        return _NA
                return encode(mkvec(keep))
            return _NA
        if name in ('__len__', '__getitem__', '__contains__', '__eq__'):
            if name == '__len__':
                return C(len(cs))
            if name == '__getitem__':
                return self.getitem(recv, args[0], node)
            if name == '__contains__':
                return self.contains_(recv, args[0], node)
            return self.eq(recv, args[0])
        return _NA

    def from_py(self, x):
        if isinstance(x, (C, T)):
            return x
        return super().from_py(x)

    def re_do(self, n, pat, args, kw, node):
        flags = 0
        p0, kw0 = pat, kw
        if isinstance(pat, XObj) and pat.name == 'regex':
            kw = dict(kw)
            if len(pat.args) > 1:
                kw['flags'] = pat.args[1]
            pat = pat.fields['pattern']
        a = list(args)
        repl = None
        if n in ('sub', 'subn'):
            repl = a.pop(0) if a else kw.get('repl')
        s = a.pop(0) if a else kw.get('string')
        p = self.pyval(pat) if isinstance(pat, (C, T)) and not isvec(pat) else None
        extra = {k for k in kw if k not in ('string', 'pattern', 'repl')}
        if isvec(s) and isinstance(p, str) and not a and not extra:
            tree = parse(p)
            if tree is not None:
                try:
                    r = self.vre(n, tree, self.vecs(s), repl, node)
                    if r is not _NA:
                        return r
                except Unsupported:
                    pass
        if isvec(s):
            self.note('regular expression not followed', repr(pat), n)
        elif isinstance(p, str) and isinstance(self.pyval(s) if isinstance(s, (C, T)) else None, str) and ('[:' in p or '\\p' in p) and not a and not extra:
            tree = parse(p)
            if tree is not None:
                try:
                    r = self.vre(n, tree, vec(s), repl, node)
                    if r is not _NA:
                        return r
                except Unsupported:
                    pass
        return super().re_do(n, p0, args, kw0, node)

    def vre(self, n, tree, cs, repl, node):
        m = Matcher(self, tree, cs, tree.state.flags)
        if n in ('match', 'fullmatch', 'search'):
            r = m.search(0) if n == 'search' else m.match(0, n == 'fullmatch')
            return NONE if r is None else self.vmatch(r)
        ms = m.all()
        if n == 'finditer':
            return self.new_list([self.vmatch(x) for x in ms])
        if n == 'findall':
            out = []
            for x in ms:
                g = ['' if y is None else y for y in x.groups()]
                out.append(x.group() if not g else self.from_py(g[0]) if len(g) == 1 else self.from_py(tuple(g)))
            return self.new_list(out)
        if n == 'split':
            out, pos = [], 0
            for x in ms:
                a, z = x.span()
                out.append(mkvec(cs[pos:a]))
                out += [self.from_py(g) for g in x.groups()]
                pos = z
            return self.new_list(out + [mkvec(cs[pos:])])
        if n in ('sub', 'subn'):
            const = self.pyval(repl) if isinstance(repl, (C, T)) else None
            if isinstance(const, str) and '\\' in const or isvec(repl):
                return _NA
            out, pos = [], 0
            for x in ms:
                a, z = x.span()
                out.append(mkvec(cs[pos:a]))
                out.append(C(const) if isinstance(const, str) else self.call(repl, [self.vmatch(x)], {}, node))
                pos = z
            r = cat(*out, mkvec(cs[pos:]))
            return r if n == 'sub' else Tup([r, C(len(ms))])
        return _NA

    def vmatch(self, m):
        x = self.alloc(XObj('match'))
        x.m = m
        return x


def classify(c):
    """The class of a non-ASCII character."""
    if c.isspace():
        return 'B!'
    if c.isupper():
        return 'X!'
    if c.islower():
        return 'x!'
    if c.isdigit():
        return 'N!'
    return 'W!' if c.isalnum() else 'P!'


def show(xs):
    xs = sorted(xs)
    if len(xs) > 12:
        return ''.join(x for x in xs[:10] if len(x) == 1) + f'… ({len(xs)})'
    return ' '.join(repr(x)[1:-1] for x in xs)
