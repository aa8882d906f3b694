"""Library functions: builtins and standard library modules."""
import ast
import posixpath
import re as _re
from .ir import *
from .core import *
from .program import Cls, Mod, FnInfo
from .calls import builtin_exc
from .exprs import StarArg

PUREMOD = ('math.', 'hashlib.', 'operator.', 'string.', 'unicodedata.', 'json.', 'yaml.', 'appdirs.', 'platform.',
           'datetime.', 'base64.', 'binascii.', 'struct.', 'uuid.', 'zlib.', 'typing.', 'enum.', 'abc.', 'numbers.',
           'pygments.', 'nltk.', 'spiral.', 'argparse.', 'docopt', 'importlib.', 'textwrap.', 'stat.', 'errno.', 'io.',
           'inspect.', 'traceback.', 'warnings.', 'gc.', 'signal.', 'locale.', 'codecs.', 'sysconfig.', 'types.')



def total_encoding(e):
    """Does the (named) encoding give a character to every byte?"""
    if not isinstance(e, C) or not isinstance(e.v, str):
        return False
    try:
        return len(bytes(range(256)).decode(e.v)) == 256
    except (LookupError, UnicodeError, ValueError, TypeError, AssertionError):
        return False


class LibExt:
    def arg(self, args, kw, i, name, default=None):
        if i < len(args):
            return args[i]
        return kw.get(name, default)

    def ext_call(self, name, args, kw, node):
        h = self.opts.ext_hook
        if h is not None:
            r = h(self, name, args, kw, node)
            if r is not NotImplemented:
                return r
        if name.startswith('builtins.'):
            n = name[9:]
            m = getattr(self, 'b_' + n, None)
            if m is not None:
                return m(args, kw, node)
            if builtin_exc(n):
                x = self.alloc(XObj('exc.' + n, args))
                x.fields['args'] = Tup(a for a in args if not isinstance(a, StarArg))
                return x
            self.note('builtin', n)
            return T('pcall', name, *[fz(a) for a in args if not isinstance(a, StarArg)])
        key = name.replace('.', '_')
        m = getattr(self, 'x_' + key, None)
        if m is not None:
            return m(args, kw, node)
        root = name.split('.')[0]
        if root in ('regex', 're'):
            return self.re_call(name.split('.', 1)[1], args, kw, node)
        if root == 'logging' or root == 'warnings':
            if name.endswith('getLogger'):
                return self.alloc(XObj('logger'))
            return NONE
        if root in ('multiprocessing', 'threading', 'queue', 'mp'):
            return self.mp_call(name.split('.')[-1], args, kw, node, 'multiprocessing' if root == 'mp' else root)
        if root in ('pickle', 'dill', 'cPickle', 'cloudpickle', 'marshal'):
            return self.pickle_call(name.split('.')[-1], args, kw, node)
        if root == 'tqdm':
            if args:
                return args[0]
            if 'iterable' in kw:
                return kw['iterable']
            return self.alloc(XObj('tqdm'))
        if name == 'appdirs.user_cache_dir':
            return sym('CACHEDIR', 'str')
        if name == 'appdirs.user_config_dir':
            return sym('CONFIGDIR', 'str')
        if name in ('os.getenv', 'os.environ.get'):
            return T('env', *[fz(a) for a in args])
        if root in ('random', 'secrets', 'uuid') or name in ('datetime.datetime.now', 'os.getpid', 'os.urandom',
                                                            'datetime.datetime.utcnow'):
            self.emit('nondet', name=name)
            return self.fresh('nondet', name)
        if last_exc(name) and not name.startswith('clsattr'):
            x = self.alloc(XObj('exc.' + name.split('.')[-1], args))
            x.fields['args'] = Tup(a for a in args if not isinstance(a, StarArg))
            return x
        if not name.startswith(PUREMOD):
            self.emit('extcall', eff=True, name=name, args=list(args), kw=dict(kw))
        fa = [fz(a) for a in args if not isinstance(a, StarArg)]
        if self.opts.chars and any(isinstance(a, T) and self.vecs(a) is not None for a in args):
            self.guessed = name
        return T('pcall', name, *fa, *[T('kw', k, fz(v)) for k, v in sorted(kw.items())])

    # ------------------------------------------------------------ builtins
    def b_len(self, args, kw, node):
        return self.length(args[0])

    def b_range(self, args, kw, node):
        vals = [self.subst(a) if isinstance(a, T) else a for a in args]
        if all(isinstance(a, C) for a in vals):
            try:
                r = range(*[a.v for a in vals])
            except (TypeError, ValueError):
                raise PyExc('TypeError', (), None, node)
            if len(r) <= self.opts.unroll:
                return Tup([C(x) for x in r])
        lo, hi, st = C(0), None, C(1)
        if len(vals) == 1:
            hi = vals[0]
        else:
            lo, hi = vals[0], vals[1]
            if len(vals) > 2:
                st = vals[2]
        return T('range', fz(lo), fz(hi), fz(st))

    def b_enumerate(self, args, kw, node):
        src = args[0]
        start = self.arg(args, kw, 1, 'start', C(0))

        def it(run, cb, nd):
            n = [start]
            base = len(run.loops)

            def f(v):
                if len(run.loops) > base:
                    i = T('index', run.loops[-1].key)
                    SYMTY.setdefault(i, 'int')
                    n[0] = None
                else:
                    i = n[0] if n[0] is not None else run.fresh('index', 'after')
                    n[0] = lin_add(n[0], C(1)) if n[0] is not None else None
                return cb(Tup([i, v]))
            run.iterate(src, f, nd)
        return self.alloc(Lazy('enumerate', it))

    def b_zip(self, args, kw, node):
        srcs = [a for a in args]

        def it(run, cb, nd):
            lists = [run.to_segs(s) if not isinstance(s, Lazy) or True else None for s in srcs]
            n = min((len(l) for l in lists), default=0)
            i = 0
            while i < n and all(l[i][0] == 'e' for l in lists):
                cb(Tup([l[i][1] for l in lists]))
                i += 1
            if all(i == len(l) for l in lists) or any(i == len(l) for l in lists):
                return
            d = T('zip', *[T('list', *[fzseg(s) for s in l[i:]]) for l in lists])

            def el(rec):
                out = []
                for l in lists:
                    rest = l[i:]
                    if len(rest) == 1 and rest[0][0] == 's':
                        out.append(run.elem(fz(rest[0][1])))
                    elif len(rest) == 1 and rest[0][0] == 'r' and len(rest[0][3]) == 1 and rest[0][3][0][0] == 'e':
                        out.append(rest[0][3][0][1])
                    else:
                        out.append(T('elem', T('list', *[fzseg(s) for s in rest])))
                rec.saved['d'] = d
                return Tup(out)
            run.absloop(d, el, cb, nd)
        return self.alloc(Lazy('zip', it))

    def b_map(self, args, kw, node):
        f, srcs = args[0], args[1:]
        if len(srcs) == 1:
            def it(run, cb, nd):
                run.iterate(srcs[0], lambda v: cb(run.call(f, [v], {}, node)), nd)
            desc = T('map', fz(f), fz(srcs[0]))
        else:
            z = self.b_zip(srcs, {}, node)

            def it(run, cb, nd):
                run.iterate(z, lambda v: cb(run.call(f, list(v.items), {}, node)), nd)
            desc = None
        return self.alloc(Lazy('map', it))

    def b_filter(self, args, kw, node):
        f, src = args

        def it(run, cb, nd):
            def g(v):
                r = v if isinstance(f, C) else run.call(f, [v], {}, node)
                if run.decide(run.truthy_obj(r)):
                    return cb(v)
                return NONE
            run.iterate(src, g, nd)
        return self.alloc(Lazy('filter', it))

    def seqlist(self, v, cls=HList):
        return self.alloc(cls(self.to_segs(v)))

    def b_list(self, args, kw, node):
        return self.seqlist(args[0]) if args else self.alloc(HList())

    def b_tuple(self, args, kw, node):
        if not args:
            return Tup([])
        if isinstance(args[0], Tup):
            return args[0]
        l = self.seqlist(args[0])
        es = l.elems()
        if es is not None:
            return Tup(es)
        if len(l.segs) == 1 and l.segs[0][0] == 's' and isinstance(l.segs[0][1], T):
            return T('tupleof', l.segs[0][1])
        l.tag = 'tuple'
        return l

    def b_set(self, args, kw, node):
        if not args:
            return self.alloc(HSet())
        s = self.seqlist(args[0], HSet)
        out = []
        for x in s.segs:
            if not (x[0] == 'e' and any(y == x for y in out if y[0] == 'e' and isinstance(x[1], (C, T)))):
                out.append(x)
        s.segs = out
        return s

    b_frozenset = b_set

    def b_dict(self, args, kw, node):
        d = self.alloc(HDict())
        if args:
            self.dict_update(d, args[0])
        for k, v in kw.items():
            if k == '**':
                self.dict_update(d, v)
            else:
                self.dict_put(d, C(k), v)
        return d

    def b_str(self, args, kw, node):
        if not args:
            return C('')
        if len(args) > 1 or kw:
            return self.str_decode(args[0], node)
        return self.to_str(args[0])

    def b_repr(self, args, kw, node):
        return self.to_repr(args[0])

    def b_bytes(self, args, kw, node):
        if not args:
            return C(b'')
        v = args[0]
        if ty(v) == 'str':
            return encode(v)
        p = self.pyval(v)
        if isinstance(p, (list, tuple, bytes)):
            return C(bytes(p))
        return T('pcall', 'builtins.bytes', fz(v))

    def b_int(self, args, kw, node):
        if not args:
            return C(0)
        v = self.subst(args[0]) if isinstance(args[0], T) else args[0]
        if isinstance(v, C):
            try:
                return C(int(v.v, *[self.pyval(a) for a in args[1:]]))
            except ValueError:
                raise PyExc('ValueError', (), None, node)
            except TypeError:
                raise PyExc('TypeError', (), None, node)
        if isinstance(v, EnumMember) and isinstance(v.value, C):
            return v.value
        v = fz(v)
        if isinstance(v, T):
            if v.op in ('str', 'int') and len(v.args) == 1 and ty(v.args[0]) == 'int':
                return v.args[0] if v.op == 'str' else v
            if ty(v) == 'int':
                return v
            if ty(v) == 'bool':
                return T('int', v)
        self.emit('toint', arg=v)
        self.maybe_raise('ValueError', node)
        return T('int', v)

    def b_float(self, args, kw, node):
        v = self.subst(args[0]) if args and isinstance(args[0], T) else (args[0] if args else C(0))
        if isinstance(v, C):
            try:
                return C(float(v.v))
            except ValueError:
                raise PyExc('ValueError', (), None, node)
        return T('float', fz(v))

    def b_bool(self, args, kw, node):
        if not args:
            return FALSE
        return self.truthy_obj(args[0])

    def b_isinstance(self, args, kw, node):
        v, c = args
        if isinstance(v, T):
            k = self.known_const(v)
            if k is not None:
                v = k
        cs = list(c.items) if isinstance(c, Tup) else [c]
        rs = [self.isinstance1(v, x) for x in cs]
        if any(r is True for r in rs):
            return TRUE
        if all(r is False for r in rs):
            return FALSE
        t = T('isinstance', fz(v), *[x.name if isinstance(x, (Cls, Ext)) else repr(x) for x, r in zip(cs, rs) if r is None])
        if len([r for r in rs if r is None]) == 1:
            x = [x for x, r in zip(cs, rs) if r is None][0]
            if isinstance(x, Cls):
                self.isinst_cls[t] = x
        return t

    _PYABC = {'Iterable', 'Sequence', 'Sized', 'Container', 'Hashable', 'Collection'}

    def isinstance1(self, v, c):
        if isinstance(c, T):
            return None
        if isinstance(c, Ext):
            n = c.name.split('.')[-1]
            if n == 'object':
                return True
        if isinstance(v, (HObj, EnumMember)):
            if isinstance(c, Ext) and c.name == 'builtins.tuple':
                return self.is_namedtuple(v.cls)
            if isinstance(c, Cls):
                return c in self.mro(v.cls)
            r = self.subclass(v.cls, c)
            if not r and isinstance(c, Ext) and c.name.split('.')[-1] in self._PYABC:
                m = {'Iterable': '__iter__', 'Sized': '__len__', 'Container': '__contains__'}.get(c.name.split('.')[-1], '__getitem__')
                return self.cls_lookup(v.cls, m) is not None
            return r
        if isinstance(v, T):
            k = self.tclass.get(v)
            if k is not None:
                if isinstance(c, Cls):
                    if c in self.mro(k):
                        return True
                    if k in self.mro(c):
                        return None
                    return False
                return self.subclass(k, c)
            t_ = ty(v)
            if t_ is not None and isinstance(c, Cls):
                return False
            if t_ is not None and isinstance(c, Ext):
                return self.tyis(t_, c.name.split('.')[-1])
            return None
        if isinstance(c, Cls):
            return False
        n = c.name.split('.')[-1]
        if isinstance(v, XObj):
            if v.name == 'ntuple' and n == 'tuple':
                return True
            a = v.name.split('.')[-1]
            x, y = builtin_exc(a), builtin_exc(n)
            if x and y:
                return issubclass(x, y)
            return a == n
        if isinstance(v, HDict) and n in ('Counter', 'defaultdict'):
            return v.tag == 'counter' if n == 'Counter' else v.tag != 'counter' and v.default is not None
        t_ = ty(v)
        if t_ is None:
            return None if not isinstance(v, (Fn, Bound, Cls, Lazy, HFile)) else False
        return self.tyis(t_, n)

    def tyis(self, t_, n):
        if n == t_:
            return True
        if n in ('Number', 'Integral', 'Real'):
            return t_ in ('int', 'bool', 'float')
        if n == 'int' and t_ == 'bool':
            return True
        if n in ('Mapping', 'MutableMapping', 'Dict'):
            return t_ == 'dict'
        if n in ('Set', 'MutableSet', 'AbstractSet'):
            return t_ in ('set', 'frozenset')
        if n == 'Sequence':
            return t_ in ('str', 'bytes', 'list', 'tuple')
        if n in ('Iterable', 'Collection', 'Sized', 'Container'):
            return t_ in ('str', 'bytes', 'list', 'tuple', 'dict', 'set')
        return False

    def b_issubclass(self, args, kw, node):
        a, c = args
        cs = list(c.items) if isinstance(c, Tup) else [c]
        rs = [self.subclass(a, x) for x in cs]
        if any(r is True for r in rs):
            return TRUE
        if all(r is False for r in rs):
            return FALSE
        return T('issubclass', fz(a), *[fz(x) for x in cs])

    def b_type(self, args, kw, node):
        v = args[0]
        if len(args) > 1:
            return T('pcall', 'builtins.type', *[fz(a) for a in args])
        if isinstance(v, (HObj, EnumMember)):
            return v.cls
        if isinstance(v, T):
            c = self.known_const(v)
            if c is not None:
                return self.b_type([c], kw, node)
            t_ = ty(v)
            return Ext('builtins.' + t_) if t_ and v not in self.tclass else T('typeof', v)
        if isinstance(v, HDict) and v.default is not None:
            return Ext('collections.Counter' if v.tag == 'counter' else 'collections.defaultdict')
        t_ = ty(v)
        return Ext('builtins.' + t_) if t_ else T('typeof', fz(v))

    def b_getattr(self, args, kw, node):
        n = self.pyval(args[1])
        if isinstance(n, str):
            try:
                return self.getattr(args[0], n, node)
            except PyExc as e:
                if e.name() == 'AttributeError' and len(args) > 2:
                    return args[2]
                raise
        return T('getattr', fz(args[0]), fz(args[1]))

    def b_setattr(self, args, kw, node):
        n = self.pyval(args[1])
        if isinstance(n, str):
            self.setattr(args[0], n, args[2], node)
        else:
            self.note('setattr dynamic')
        return NONE

    def b_hasattr(self, args, kw, node):
        n = self.pyval(args[1])
        o = args[0]
        if isinstance(n, str):
            if isinstance(o, HObj):
                return C(n in o.fields or self.cls_lookup(o.cls, n) is not None)
            if isinstance(o, (C, HList, HDict, Tup, HSet)):
                t_ = {'list': list, 'dict': dict, 'tuple': tuple, 'set': set, 'str': str, 'bytes': bytes, 'int': int,
                      'bool': bool, 'float': float, 'NoneType': type(None)}.get(ty(o))
                if t_:
                    return C(hasattr(t_, n))
            if isinstance(o, Mod):
                g = self.gframe(o)
                return C(n in g.d or n in self.prog.mods[o.name].bind)
            if isinstance(o, T) and ty(o) in ('str', 'bytes', 'int'):
                return C(hasattr({'str': str, 'bytes': bytes, 'int': int}[ty(o)], n))
        return T('hasattr', fz(o), fz(args[1]))

    def b_callable(self, args, kw, node):
        v = args[0]
        if isinstance(v, (Fn, Bound, BMeth, Partial, Cls)):
            return TRUE
        if isinstance(v, (C, HList, HDict)):
            return FALSE
        return T('callable', fz(v))

    def b_print(self, args, kw, node):
        f = kw.get('file')
        if isinstance(f, (HFile, HObj)) or isinstance(f, XObj) and not f.name.startswith('sys.'):
            sep, end = kw.get('sep', C(' ')), kw.get('end', C('\n'))
            parts = []
            for i, a in enumerate(args):
                if isinstance(a, StarArg):
                    parts = None
                    break
                parts += ([sep] if i else []) + [self.to_str(a)]
            if parts is None:
                data = self.fresh('printed', 'str')
            else:
                data = cat(*[canon(x) for x in parts], canon(end))
            self.call_method(f, 'write', [data], {}, node)
            return NONE
        self.emit('print', args=list(args))
        return NONE

    def b_input(self, args, kw, node):
        return self.fresh('input')

    def b_exit(self, args, kw, node):
        raise PyExc('SystemExit', tuple(args), None, node)

    b_quit = b_exit

    def b_sum(self, args, kw, node):
        segs = self.to_segs(args[0])
        acc = self.arg(args, kw, 1, 'start', C(0))
        for s in segs:
            if s[0] == 'e':
                x = self.binop(ast.Add(), acc, s[1], node)
            elif s[0] == 'r' and all(y[0] == 'e' for y in s[3]):
                t = C(0)
                for y in s[3]:
                    t = self.binop(ast.Add(), t, y[1], node)
                x = self.binop(ast.Add(), acc, sum_over(s[1], fz(t)), node)
            else:
                x = self.binop(ast.Add(), acc, T('sumof', fzseg(s)), node)
            acc = x
        return acc

    def minmax(self, which, args, kw, node):
        vals = list(args)
        if len(vals) == 1:
            l = self.seqlist(vals[0])
            es = l.elems()
            if es is None:
                if not any(s[0] == 'e' for s in l.segs):
                    if 'default' in kw:
                        if not self.decide(l):
                            return kw['default']
                    else:
                        self.maybe_raise('ValueError', node)
                return T(which, *[fzseg(s) for s in l.segs], *[T('kw', k, fz(v)) for k, v in sorted(kw.items())])
            vals = es
        if not vals:
            if 'default' in kw:
                return kw['default']
            raise PyExc('ValueError', (), None, node)
        if len(vals) == 1:
            return vals[0]
        key = kw.get('key')
        ks = [self.call(key, [v], {}, node) if key is not None and key != NONE else v for v in vals]
        ps = [self.pyval(k) for k in ks]
        if all(p is not None for p in ps):
            try:
                best = (min if which == 'min' else max)(range(len(ps)), key=lambda i: ps[i])
                return vals[best]
            except TypeError:
                raise PyExc('TypeError', (), None, node)
        if key is not None and key != NONE and len(vals) <= 12:
            # the element is what matters: decide which one it is
            best, bk = vals[0], ks[0]
            for v, k in zip(vals[1:], ks[1:]):
                if fz(k) == fz(bk):
                    continue
                less = self.compare(ast.Lt(), k, bk, node) if which == 'min' else self.compare(ast.Lt(), bk, k, node)
                if self.decide(self.truthy_obj(less)):
                    best, bk = v, k
            return best
        return T(which, *[fz(v) for v in vals])

    def b_min(self, args, kw, node):
        return self.minmax('min', args, kw, node)

    def b_max(self, args, kw, node):
        return self.minmax('max', args, kw, node)

    def quant(self, args, want, node):
        token = object()

        def f(v):
            if self.decide(self.truthy_obj(v)) == want:
                raise GenClose(token)
            return NONE
        try:
            self.iterate(args[0], f, node)
        except GenClose as g:
            if g.token is not token:
                raise
            return C(want)
        return C(not want)

    def b_any(self, args, kw, node):
        return self.quant(args, True, node)

    def b_all(self, args, kw, node):
        return self.quant(args, False, node)

    def b_abs(self, args, kw, node):
        v = self.subst(args[0]) if isinstance(args[0], T) else args[0]
        return C(abs(v.v)) if isinstance(v, C) else T('abs', fz(v))

    def b_round(self, args, kw, node):
        return T('pcall', 'builtins.round', *[fz(a) for a in args])

    def b_divmod(self, args, kw, node):
        return Tup([self.binop(ast.FloorDiv(), args[0], args[1], node), self.binop(ast.Mod(), args[0], args[1], node)])

    def b_iter(self, args, kw, node):
        v = args[0]
        if len(args) == 2:
            f, stop = args

            def it(run, cb, nd):
                d = T('calliter', fz(f), fz(stop))
                run.absloop(d, lambda rec: run.call(f, [], {}, node), cb, nd)
            return self.alloc(Lazy('iter', it))
        if isinstance(v, Lazy):
            return v
        if isinstance(v, HObj) and self.cls_lookup(v.cls, '__iter__') is not None:
            return self.call_method(v, '__iter__', [], {}, node)
        return self.alloc(Lazy('iter', lambda run, cb, nd: run.iterate(v, cb, nd), fz(v) if isinstance(fz(v), T) else None))

    def buffer(self, v, node):
        """Evaluates an iterator whose elements are all known, so that they can be taken one by one."""
        if v.kind not in ('iter', 'gen', 'genexp', 'enumerate', 'zip', 'map', 'filter', 'chain', 'items', 'keys', 'values'):
            return
        token, got = object(), []
        n = self.__dict__.get('n_absloops', 0)

        def f(x):
            if self.__dict__.get('n_absloops', 0) != n:
                raise GenClose(token)
            got.append(x)
        try:
            v.it(self, f, node)
        except GenClose as g:
            if g.token is not token:
                raise
            return
        if self.__dict__.get('n_absloops', 0) != n:
            return
        v.rest = got

        def rest(run, cb, nd):
            while v.rest:
                cb(v.rest.pop(0))
        v.it = rest

    def b_next(self, args, kw, node):
        v = args[0]
        if isinstance(v, HObj) and self.cls_lookup(v.cls, '__next__') is not None:
            return self.call_method(v, '__next__', [], {}, node)
        if isinstance(v, HFile):
            return self.call_method(v, 'readline', [], {}, node)
        if isinstance(v, Lazy) and self.opts.unroll_forever and not v.used and not hasattr(v, 'rest'):
            self.buffer(v, node)
        if isinstance(v, Lazy) and hasattr(v, 'rest'):
            if v.rest:
                return v.rest.pop(0)
            if len(args) > 1:
                return args[1]
            raise PyExc('StopIteration', (), None, node)
        if isinstance(v, Lazy) and not v.used:
            v.used = True
            token, got = object(), []

            def f(x):
                got.append(x)
                raise GenClose(token)
            try:
                self.iterate(v, f, node)
            except GenClose as g:
                if g.token is not token:
                    raise
                return got[0]
            if len(args) > 1:
                return args[1]
            raise PyExc('StopIteration', (), None, node)
        if len(args) > 1:
            if self.choose(2, 'next exhausted') == 1:
                return args[1]
        else:
            self.maybe_raise('StopIteration', node)
        return self.fresh('next', fz(v))

    def b_id(self, args, kw, node):
        return T('id', fz(args[0]))

    def b_hash(self, args, kw, node):
        v = args[0]
        if isinstance(v, HObj) and self.cls_lookup(v.cls, '__hash__') is not None:
            return self.call_method(v, '__hash__', [], {}, node)
        return T('hash', fz(v))

    def b_ord(self, args, kw, node):
        v = args[0]
        return C(ord(v.v)) if isinstance(v, C) else T('ord', fz(v))

    def b_chr(self, args, kw, node):
        v = self.subst(args[0]) if isinstance(args[0], T) else args[0]
        return C(chr(v.v)) if isinstance(v, C) else T('chr', fz(v))

    def b_format(self, args, kw, node):
        return T('fmt', *[fz(a) for a in args])

    def b_vars(self, args, kw, node):
        return self.getattr(args[0], '__dict__', node) if args else self.alloc(HDict([], [T('vars')]))

    def b_sorted(self, args, kw, node):
        v = args[0]
        key, rev = kw.get('key'), kw.get('reverse', FALSE)
        segs = self.to_segs(v)
        self.emit('sorted', src=fz(v), key=key, reverse=rev)
        if all(s[0] == 'e' for s in segs):
            vals = [s[1] for s in segs]
            if len(vals) < 2:
                return self.new_list(vals)
            ks = [self.call(key, [x], {}, node) if key is not None and key != NONE else x for x in vals]
            ps = [self.pyval(k.value if isinstance(k, EnumMember) and isinstance(k.value, (C, Tup)) else k) for k in ks]
            if all(p is not None for p in ps) and isinstance(rev, C):
                try:
                    o = sorted(range(len(ps)), key=lambda i: ps[i], reverse=bool(rev.v))
                    return self.new_list([vals[i] for i in o])
                except TypeError:
                    raise PyExc('TypeError', (), None, node)
            if self.opts.chars and len(vals) <= 8 and isinstance(rev, C) and all(isinstance(k, (C, T)) and self.vecs(k) is not None for k in ks):
                o = []
                for i in range(len(vals)):
                    j = len(o)
                    while j and (self.truthy(self.lt(ks[i], ks[o[j - 1]])) if not rev.v else self.truthy(self.lt(ks[o[j - 1]], ks[i]))) in (True, TRUE):
                        j -= 1
                    o.insert(j, i)
                return self.new_list([vals[i] for i in o])
        if len(segs) == 1 and segs[0][0] == 's' and isinstance(segs[0][1], T):
            if key is not None and key != NONE:
                return self.alloc(HList([('s', T('sorted', segs[0][1], fz(key), fz(rev)))]))
            return self.alloc(HList([('s', T('sorted', segs[0][1]))]))
        l = self.alloc(HList(segs))
        l.tag = 'sorted'
        return l

    def b_reversed(self, args, kw, node):
        segs = self.to_segs(args[0])
        if all(s[0] == 'e' for s in segs):
            return self.new_list([s[1] for s in reversed(segs)])
        return self.alloc(HList([('s', T('reversed', s[1])) if s[0] == 's' and isinstance(s[1], T) else s for s in reversed(segs)]))

    def b_slice(self, args, kw, node):
        a = [fz(x) for x in args]
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        while len(a) < 3:
            a.append(NONE)
        return T('sl', *a)

    def b_object(self, args, kw, node):
        return self.alloc(XObj('object'))

    def b_open(self, args, kw, node):
        return self.open_file('plain', args, kw, node)

    def b___import__(self, args, kw, node):
        return self.x_importlib_import_module(args, kw, node)

    def b_NotImplemented(self, args, kw, node):
        raise PyExc('TypeError', (), None, node)

    def x_importlib_import_module(self, args, kw, node):
        n = self.pyval(args[0])
        if isinstance(n, str):
            return self.module(n)
        return T('module', fz(args[0]))

    # ------------------------------------------------------------ files
    def fspath(self, v):
        if isinstance(v, XObj) and v.name == 'pathlib.Path':
            return v.fields['p']
        if isinstance(v, HFile):
            return v.path
        return v if isinstance(v, (C, T)) else fz(v)

    def open_file(self, kind, args, kw, node):
        p = self.fspath(self.arg(args, kw, 0, 'file', kw.get('filename', NONE)))
        m = self.arg(args, kw, 1, 'mode', C('r' if kind == 'plain' else 'rb'))
        m = self.subst(m) if isinstance(m, T) else m
        mode = m.v if isinstance(m, C) and isinstance(m.v, str) else '?'
        if kind == 'gzip' and 't' not in mode and 'b' not in mode:
            mode += 'b'
        cp = canon(p)
        writing = any(x in mode for x in 'wax+')
        enc = kw.get('encoding', args[3] if kind == 'plain' and len(args) > 3 else NONE)
        f = HFile(p, mode, kind, getattr(node, 'lineno', 0), None)
        f.kw = dict(kw)
        f.enc, f.errors = enc, kw.get('errors', NONE)
        f.nread = 0
        self.emit('open', eff=True, path=p, mode=mode, file=f, kind_=kind, writing=writing)
        if not writing:
            ex = self.fs.get(('exists', cp))
            if ex is False:
                raise PyExc('FileNotFoundError', (), None, node)
            if ex is None:
                self.maybe_raise('FileNotFoundError', node)
        else:
            if 'x' in mode and self.fs.get(('exists', cp)):
                raise PyExc('FileExistsError', (), None, node)
            self.maybe_raise('OSError', node)
            self.fs_set(p, True)
        self.alloc(f)
        self.files.append(f)
        return f

    def x_gzip_open(self, args, kw, node):
        return self.open_file('gzip', args, kw, node)

    x_gzip_GzipFile = x_gzip_open
    x_io_open = b_open
    x_codecs_open = b_open

    def close_file(self, f, node, exc=False):
        if not f.closed:
            f.closed = True
            self.emit('close', eff=not exc and any(x in f.mode for x in 'wax+'), path=f.path, file=f, exc=exc)

    def read_errors(self, f):
        if 'b' not in f.mode and f.errors in (NONE, C('strict')) and not total_encoding(f.enc) and not (self.opts.ascii_file and self.opts.ascii_file(self, f)):
            self.maybe_raise('UnicodeDecodeError')
        self.maybe_raise('OSError')

    def pathjoin(self, *ps):
        out = None
        for p in ps:
            if out is None:
                out = p
                continue
            if isinstance(p, C) and isinstance(p.v, (str, bytes)) and p.v[:1] in ('/', b'/'):
                out = p
                continue
            if isinstance(out, C) and out.v in ('', b''):
                out = p
                continue
            b = ty(out) == 'bytes' or ty(p) == 'bytes'
            sep = C(b'/' if b else '/')
            last = parts_of(out)[-1]
            if isinstance(last, C) and isinstance(last.v, (str, bytes)) and last.v[-1:] in ('/', b'/'):
                out = cat(out, p)
            else:
                out = cat(out, sep, p)
        return out

    def x_os_path_join(self, args, kw, node):
        vals = []
        for a in args:
            if isinstance(a, StarArg):
                vals.append(T('join', fz(a.v)))
            else:
                v = self.subst(a) if isinstance(a, T) else a
                if v == NONE:
                    raise PyExc('TypeError', (), None, node)
                vals.append(self.fspath(v))
        tys = {ty(v) for v in vals} - {None}
        if 'str' in tys and 'bytes' in tys:
            raise PyExc('TypeError', (), None, node)
        return self.pathjoin(*vals)

    def noslash(self, t):
        if isinstance(t, C):
            return isinstance(t.v, (str, bytes)) and (b'/' if isinstance(t.v, bytes) else '/') not in t.v
        if isinstance(t, T):
            if t.op in ('enc', 'dec'):
                return self.noslash(t.args[0])
            if t.op == 'elem' and isinstance(t.args[0], T):
                return t.args[0].op in ('walkfiles', 'walkdirs', 'listdir')
            if t.op == 'str' and ty(t.args[0]) == 'int':
                return True
            if t.op in ('os.path.basename', 'ext'):
                return True
            if t.op == 'sym':
                return 'noslash' in SYMTY.get(t.args[0] + '#', '')
        return False

    def path_split(self, p):
        """(dir, base) of a path term or None."""
        ps = parts_of(p)
        tail = []
        for i in range(len(ps) - 1, -1, -1):
            x = ps[i]
            if isinstance(x, C) and isinstance(x.v, (str, bytes)):
                sl = b'/' if isinstance(x.v, bytes) else '/'
                j = x.v.rfind(sl)
                if j >= 0:
                    base = cat(C(x.v[j + 1:]), *tail) if tail or x.v[j + 1:] else C(x.v[:0])
                    head = x.v[:j] if j > 0 else (x.v[:1] if i == 0 else x.v[:0])
                    d = cat(*ps[:i], C(head)) if ps[:i] else C(head)
                    return d, base
                tail.insert(0, x)
                continue
            if not self.noslash(x) and not (self.opts.sepfree and self.opts.sepfree(self, x, '/')):
                return None
            tail.insert(0, x)
        return C(b'' if ty(p) == 'bytes' else ''), p

    def x_os_path_dirname(self, args, kw, node):
        p = self.fspath(args[0])
        r = self.path_split(p)
        return r[0] if r is not None else T('os.path.dirname', p)

    def x_os_path_basename(self, args, kw, node):
        p = self.fspath(args[0])
        r = self.path_split(p)
        return r[1] if r is not None else T('os.path.basename', p)

    def x_os_path_split(self, args, kw, node):
        return Tup([self.x_os_path_dirname(args, kw, node), self.x_os_path_basename(args, kw, node)])

    def x_os_path_splitext(self, args, kw, node):
        p = self.fspath(args[0])
        ps = parts_of(p)
        x = ps[-1]
        if isinstance(x, C) and isinstance(x.v, (str, bytes)):
            dot, sl = ('.', '/') if isinstance(x.v, str) else (b'.', b'/')
            j = x.v.rfind(dot)
            if j > 0 and sl not in x.v[j:] and x.v[j - 1:j] != sl or j == 0 and len(ps) > 1 and sl not in x.v:
                return Tup([cat(*ps[:-1], C(x.v[:j])), C(x.v[j:])])
        if len(ps) == 1 and isinstance(x, C):
            import os.path as op
            a, b = op.splitext(x.v)
            return Tup([C(a), C(b)])
        return Tup([T('root', p), T('ext', p)])

    def x_os_path_relpath(self, args, kw, node):
        p = self.fspath(args[0])
        s = self.fspath(args[1]) if len(args) > 1 else None
        if isinstance(p, C) and isinstance(s, C) and type(p.v) is type(s.v) and p.v[:1] in ('/', b'/') and s.v[:1] in ('/', b'/'):
            return C(posixpath.relpath(p.v, s.v))
        if s is not None:
            r = strip_prefix(p, self.pathjoin(s, C(b'' if ty(s) == 'bytes' else '')))
            if r is None and ty(p) == ty(s):
                r = strip_prefix(p, cat(s, C('/'))) if ty(s) != 'bytes' else strip_prefix(p, cat(s, C(b'/')))
            if r is not None:
                return r
            if p == s:
                return C(b'.' if ty(s) == 'bytes' else '.')
        return T('os.path.relpath', p, *([s] if s is not None else []))

    def x_os_path_abspath(self, args, kw, node):
        p = self.fspath(args[0])
        if isinstance(p, T) and p.op in ('os.path.abspath', 'os.path.realpath'):
            return p
        return T('os.path.abspath', p)

    def x_os_path_realpath(self, args, kw, node):
        return T('os.path.realpath', self.fspath(args[0]))

    def x_os_path_normpath(self, args, kw, node):
        return T('os.path.normpath', self.fspath(args[0]))

    def x_os_path_expanduser(self, args, kw, node):
        return T('os.path.expanduser', self.fspath(args[0]))

    def x_os_fsencode(self, args, kw, node):
        return encode(self.fspath(args[0]))

    def x_os_fsdecode(self, args, kw, node):
        return decode(self.fspath(args[0]))

    def x_os_fspath(self, args, kw, node):
        return self.fspath(args[0])

    def q(self, kind, args, node):
        p = self.fspath(args[0])
        e = self.emit('query', kind_=kind, path=p)
        r = self.fs_query(kind, p)
        if e is not None:
            e.d['answer'] = r.v if isinstance(r, C) else None
        return r

    def x_os_path_exists(self, args, kw, node):
        return self.q('exists', args, node)

    x_os_path_lexists = x_os_path_exists

    def x_os_path_isfile(self, args, kw, node):
        return self.q('isfile', args, node)

    def x_os_path_isdir(self, args, kw, node):
        return self.q('isdir', args, node)

    def x_os_path_islink(self, args, kw, node):
        p = self.fspath(args[0])
        self.emit('query', kind_='islink', path=p)
        return T('islink', canon(p))

    def x_os_access(self, args, kw, node):
        return T('access', canon(self.fspath(args[0])))

    def stat_(self, name, args, node):
        p = self.fspath(args[0])
        self.emit('stat', eff=True, path=p, name=name)
        if self.fs.get(('exists', canon(p))) is False:
            raise PyExc('FileNotFoundError', (), None, node)
        self.maybe_raise('FileNotFoundError', node)
        t = T(name, canon(p))
        return t

    def x_os_path_getsize(self, args, kw, node):
        return self.stat_('getsize', args, node)

    def x_os_path_getmtime(self, args, kw, node):
        return self.stat_('getmtime', args, node)

    def x_os_stat(self, args, kw, node):
        return self.stat_('stat', args, node)

    def x_os_makedirs(self, args, kw, node):
        p = self.fspath(args[0])
        ok = self.arg(args, kw, 2, 'exist_ok', FALSE)
        self.emit('mkdir', eff=True, path=p, exist_ok=ok)
        if ok != TRUE:
            if self.fs.get(('exists', canon(p))) or self.opts.mkdir_race and self.opts.mkdir_race(self, p):
                raise PyExc('FileExistsError', (), None, node)
            if self.fs.get(('exists', canon(p))) is None:
                self.maybe_raise('FileExistsError', node)
        self.fs_set(p, True)
        return NONE

    x_os_mkdir = x_os_makedirs

    def x_os_remove(self, args, kw, node):
        p = self.fspath(args[0])
        self.emit('remove', eff=True, path=p)
        if self.fs.get(('exists', canon(p))) is False:
            raise PyExc('FileNotFoundError', (), None, node)
        if self.fs.get(('exists', canon(p))) is None:
            self.maybe_raise('FileNotFoundError', node)
        self.fs_set(p, False)
        return NONE

    x_os_unlink = x_os_remove
    x_os_rmdir = x_os_remove

    def x_os_rename(self, args, kw, node):
        a, b = self.fspath(args[0]), self.fspath(args[1])
        self.emit('rename', eff=True, src=a, dst=b)
        if self.fs.get(('exists', canon(a))) is False:
            raise PyExc('FileNotFoundError', (), None, node)
        self.maybe_raise('OSError', node)
        self.fs_drop_below(a)
        self.fs_set(a, False)
        self.fs_set(b, True)
        return NONE

    x_os_replace = x_os_rename
    x_os_renames = x_os_rename
    x_shutil_move = x_os_rename

    def x_shutil_rmtree(self, args, kw, node):
        p = self.fspath(args[0])
        self.emit('rmtree', eff=True, path=p)
        self.fs_drop_below(p)
        self.fs_set(p, False)
        return NONE

    def copy_(self, args, node):
        a, b = self.fspath(args[0]), self.fspath(args[1])
        self.emit('copy', eff=True, src=a, dst=b)
        self.fs_set(b, True)
        return b

    def x_shutil_copy(self, args, kw, node):
        return self.copy_(args, node)

    x_shutil_copyfile = x_shutil_copy2 = x_shutil_copytree = x_shutil_copy

    def x_os_listdir(self, args, kw, node):
        p = self.fspath(args[0]) if args else C('.')
        self.emit('listdir', eff=True, path=p)
        if self.fs.get(('exists', canon(p))) is False:
            raise PyExc('FileNotFoundError', (), None, node)
        return T('listdir', p)

    def x_os_scandir(self, args, kw, node):
        return self.x_os_listdir(args, kw, node)

    def x_glob_glob(self, args, kw, node):
        self.emit('listdir', eff=True, path=self.fspath(args[0]))
        return T('glob', self.fspath(args[0]))

    x_glob_iglob = x_glob_glob

    def x_os_walk(self, args, kw, node):
        p = self.fspath(args[0])
        top = kw.get('topdown', args[1] if len(args) > 1 else TRUE)
        follow = kw.get('followlinks', args[3] if len(args) > 3 else FALSE)

        def it(run, cb, nd):
            run.emit('walk', eff=True, path=p, followlinks=follow)
            d = T('walk', p)

            def el(rec):
                n = sum(1 for l in run.loops if l.saved.get('d') == d and l is not rec)
                rec.saved['d'] = d
                r = T('walkroot', p) if n == 0 else T('walkroot', p, n)
                rec.saved['elem'] = r
                return Tup([r, T('walkdirs', r), T('walkfiles', r)])
            run.absloop(d, el, cb, nd)
        return self.alloc(Lazy('walk', it, T('walk', p)))

    def x_os_cpu_count(self, args, kw, node):
        return T('cpu_count')

    def x_os_getcwd(self, args, kw, node):
        return T('cwd')

    def x_os_fsync(self, args, kw, node):
        return NONE

    def x_os__exit(self, args, kw, node):
        raise PyExc('SystemExit', tuple(args), None, node)

    x_sys_exit = x_os__exit

    def x_os_system(self, args, kw, node):
        self.emit('extcall', eff=True, name='os.system', args=list(args), kw={})
        return self.fresh('nondet', 'os.system')

    def x_tempfile_mkdtemp(self, args, kw, node):
        return self.fresh('tmpdir')

    def x_tempfile_gettempdir(self, args, kw, node):
        return T('tmproot')

    def x_tempfile_mkstemp(self, args, kw, node):
        return Tup([self.fresh('fd'), self.fresh('tmpfile', *[T('kw', k, fz(v)) for k, v in sorted(kw.items())])])

    def x_tempfile_TemporaryDirectory(self, args, kw, node):
        x = self.alloc(XObj('tempfile.TemporaryDirectory', args, kw))
        x.fields['path'] = self.fresh('tmpdir')
        return x

    def x_tempfile_NamedTemporaryFile(self, args, kw, node):
        d = kw.get('dir', NONE)
        p = self.fresh('tmpfile', fz(d))
        return self.open_file('plain', [p, kw.get('mode', args[0] if args else C('w+b'))], {}, node)

    def mkpath(self, p):
        x = self.alloc(XObj('pathlib.Path'))
        x.fields['p'] = p
        return x

    def x_pathlib_Path(self, args, kw, node):
        return self.mkpath(self.pathjoin(*[self.fspath(a) for a in args]) if args else C('.'))

    x_pathlib_PurePath = x_pathlib_PosixPath = x_pathlib_Path

    def pickle_call(self, n, args, kw, node):
        if n == 'dump':
            f = args[1]
            self.write_(f, T('pickled', fz(args[0])), node, obj=args[0])
            return NONE
        if n == 'load':
            return self.load_(args[0], 'unpickled', node)
        if n == 'dumps':
            return T('pickled', fz(args[0]))
        if n == 'loads':
            a = fz(args[0])
            return a.args[0] if isinstance(a, T) and a.op == 'pickled' else T('unpickled', a)
        return T('pcall', 'pickle.' + n, *[fz(a) for a in args])

    def load_(self, f, op, node):
        if isinstance(f, HFile):
            self.emit('read', eff=True, path=f.path, file=f, how='load')
            for x in ('EOFError', 'UnpicklingError', 'OSError'):
                self.maybe_raise(x, node)
            if self.opts.read_hook:
                r = self.opts.read_hook(self, f, 'load')
                if r is not NotImplemented:
                    return r
            return T(op, canon(f.path))
        return T(op, fz(f))

    def x_json_dump(self, args, kw, node):
        self.write_(args[1], T('json', fz(args[0])), node, obj=args[0])
        return NONE

    def x_json_load(self, args, kw, node):
        return self.load_(args[0], 'unjson', node)

    def x_yaml_safe_load(self, args, kw, node):
        return T('yaml', fz(args[0]))

    def write_(self, f, data, node, obj=None):
        if isinstance(f, HFile):
            if f.closed:
                raise PyExc('ValueError', (), None, node)
            self.emit('write', eff=True, path=f.path, file=f, data=data, obj=obj)
            self.maybe_raise('OSError', node)
        else:
            self.emit('write', eff=True, path=None, file=f, data=data, obj=obj)

    # ------------------------------------------------------------ misc modules
    def x_time_time(self, args, kw, node):
        return self.fresh('nondet', 'time')

    x_time_perf_counter = x_time_monotonic = x_time_time

    def x_time_sleep(self, args, kw, node):
        return NONE

    def x_datetime_datetime_fromtimestamp(self, args, kw, node):
        return T('fromtimestamp', fz(args[0]))

    def x_ast_literal_eval(self, args, kw, node):
        v = self.subst(args[0]) if isinstance(args[0], T) else args[0]
        if isinstance(v, C):
            try:
                return self.from_py(ast.literal_eval(v.v))
            except (ValueError, SyntaxError) as e:
                raise PyExc(type(e).__name__, (), None, node)
        v = fz(v)
        if isinstance(v, T) and v.op == 'repr':
            return v.args[0]
        self.maybe_raise('ValueError', node)
        self.maybe_raise('SyntaxError', node)
        return T('literal_eval', v)

    def from_py(self, x):
        if isinstance(x, tuple):
            return Tup([self.from_py(y) for y in x])
        if isinstance(x, list):
            return self.new_list([self.from_py(y) for y in x])
        if isinstance(x, dict):
            return self.alloc(HDict([(self.from_py(k), self.from_py(v)) for k, v in x.items()]))
        if isinstance(x, (set, frozenset)):
            return self.alloc(HSet([('e', self.from_py(y)) for y in sorted(x, key=repr)]))
        return C(x)

    def x_copy_deepcopy(self, args, kw, node):
        return self.deep(args[0], {})

    def deep(self, v, memo):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, (HList, HSet)):
            n = memo[id(v)] = self.alloc(type(v)())
            n.segs = [(s[0], self.deep(s[1], memo)) if s[0] == 'e' else s for s in v.segs]
        elif isinstance(v, Tup):
            n = Tup([self.deep(x, memo) for x in v.items])
        elif isinstance(v, HDict):
            n = memo[id(v)] = self.alloc(HDict(default=v.default, opaque=v.opaque))
            n.pairs = [(self.deep(k, memo), self.deep(x, memo)) for k, x in v.pairs]
        elif isinstance(v, HObj):
            n = memo[id(v)] = self.alloc(HObj(v.cls))
            n.fields = {k: self.deep(x, memo) for k, x in v.fields.items()}
        else:
            return v
        return n

    def x_copy_copy(self, args, kw, node):
        v = args[0]
        if isinstance(v, (HList, HSet)):
            return self.alloc(type(v)(v.segs))
        if isinstance(v, HDict):
            return self.alloc(HDict(v.pairs, v.opaque, v.default))
        if isinstance(v, HObj):
            return self.alloc(HObj(v.cls, dict(v.fields)))
        return v

    def x_functools_partial(self, args, kw, node):
        return Partial(args[0], list(args[1:]), dict(kw))

    def x_functools_reduce(self, args, kw, node):
        f = args[0]
        box = self.alloc(HObj(None) if False else XObj('cell'))
        cell = Frame(None, 'reduce', 'reduce')
        self.alloc(cell)
        if len(args) > 2:
            cell.locals['acc'] = args[2]

        def g(v):
            if cell.locals.get('acc') is None:
                cell.locals['acc'] = v
            else:
                r = self.call(f, [cell.locals['acc'], v], {}, node)
                self.touch((cell.serial, 'acc'), cell.serial)
                cell.locals['acc'] = r
            return NONE
        self.iterate(args[1], g, node)
        r = cell.locals.get('acc')
        if r is None:
            raise PyExc('TypeError', (), None, node)
        return r

    def x_functools_wraps(self, args, kw, node):
        return Partial(Ext('builtins.#identity'), [], {})

    def x_functools_cmp_to_key(self, args, kw, node):
        return args[0]

    def x_itertools_chain(self, args, kw, node):
        def it(run, cb, nd):
            for a in args:
                if isinstance(a, StarArg):
                    run.iterate(a.v, lambda x: run.iterate(x, cb, nd), nd)
                else:
                    run.iterate(a, cb, nd)
        return self.alloc(Lazy('chain', it))

    def x_itertools_chain_from_iterable(self, args, kw, node):
        return self.alloc(Lazy('chain', lambda run, cb, nd: run.iterate(args[0], lambda x: run.iterate(x, cb, nd), nd)))

    def x_itertools_islice(self, args, kw, node):
        p = [self.pyval(a) for a in args[1:]]
        src = args[0]
        if not isinstance(src, Lazy):
            segs = self.to_segs(src)
            if all(s[0] == 'e' for s in segs) and all(x is not None or a == NONE for x, a in zip(p, args[1:])):
                import itertools
                return self.new_list([s[1] for s in itertools.islice(segs, *p)])

        def it(run, cb, nd):
            run.emit('truncated', by='islice', args=list(args[1:]))
            run.iterate(src, cb, nd)
        return self.alloc(Lazy('islice', it))

    def x_itertools_count(self, args, kw, node):
        def it(run, cb, nd):
            d = T('count')
            run.absloop(d, lambda rec: run.elem(d, rec), cb, nd)
        return self.alloc(Lazy('count', it, T('count', *[fz(a) for a in args])))

    def x_itertools_product(self, args, kw, node):
        lists = [self.to_segs(a) for a in args]
        if all(all(s[0] == 'e' for s in l) for l in lists):
            import itertools
            return self.new_list([Tup([s[1] for s in c]) for c in itertools.product(*lists)])
        return T('product', *[fz(a) for a in args])

    def x_itertools_groupby(self, args, kw, node):
        f = args[1] if len(args) > 1 else kw.get('key', NONE)
        segs = self.to_segs(args[0]) if isinstance(args[0], (T, C, HList, Tup)) else [('s', args[0])]
        if all(x[0] == 'e' for x in segs):
            out, last = [], None
            for _, x in segs:
                k = x if isinstance(f, C) else self.call(f, [x], {}, node)
                if isinstance(k, T) and ty(k) == 'bool':
                    k = C(self.decide(k, 'key'))
                if out and self.decide(self.eq(k, last), 'same group'):
                    out[-1][1].append(('e', x))
                else:
                    out.append((k, [('e', x)]))
                last = k
            return self.alloc(HList([('e', Tup([k, self.alloc(HList(xs))])) for k, xs in out]))
        return T('groupby', *[fz(a) for a in args])

    def x_itertools_accumulate(self, args, kw, node):
        return T('accumulate', *[fz(a) for a in args])

    def x_collections_defaultdict(self, args, kw, node):
        d = self.alloc(HDict(default=args[0] if args and args[0] != NONE else None))
        if len(args) > 1:
            self.dict_update(d, args[1])
        return d

    def x_collections_OrderedDict(self, args, kw, node):
        return self.b_dict(args, kw, node)

    def x_collections_Counter(self, args, kw, node):
        d = self.alloc(HDict(default=C(0)))
        d.tag = 'counter'
        if args:
            if isinstance(args[0], HDict):
                self.dict_update(d, args[0])
            else:
                if self.count_in(d, args[0], node):
                    return d
                segs = self.to_segs(args[0])
                d.opaque = [T('counts', *[fzseg(s) for s in segs])] if segs else []
        return d

    def x_collections_deque(self, args, kw, node):
        return self.b_list(args, {}, node)

    def x_heapq_heappush(self, args, kw, node):
        return self.call_method(args[0], 'append', [args[1]], {}, node)

    def x_heapq_heappop(self, args, kw, node):
        return self.call_method(args[0], 'pop', [C(0)], {}, node)

    def x_heapq_heapify(self, args, kw, node):
        return NONE

    def x_contextlib_suppress(self, args, kw, node):
        return self.alloc(XObj('suppress', args))

    def x_contextlib_closing(self, args, kw, node):
        return self.alloc(XObj('closing', args))

    def x_contextlib_nullcontext(self, args, kw, node):
        return self.alloc(XObj('nullctx', args))

    def x_contextlib_ExitStack(self, args, kw, node):
        return self.alloc(XObj('exitstack'))

    def x_enum_auto(self, args, kw, node):
        return Ext('enum.auto()')

    def x_operator_itemgetter(self, args, kw, node):
        return XObjFn(self, 'itemgetter', args)

    def x_operator_attrgetter(self, args, kw, node):
        return XObjFn(self, 'attrgetter', args)

    def x_fnmatch_fnmatch(self, args, kw, node):
        a, b = [self.pyval(x) for x in args]
        if isinstance(a, str) and isinstance(b, str):
            import fnmatch
            return C(fnmatch.fnmatch(a, b))
        return T('fnmatch', *[fz(x) for x in args])

    def x_datetime_datetime_now(self, args, kw, node):
        return self.fresh('nondet', 'now')

    # ------------------------------------------------------------ regular expressions
    def re_call(self, n, args, kw, node):
        if n in ('escape',):
            p = self.pyval(args[0])
            return C(_re.escape(p)) if isinstance(p, (str, bytes)) else T('reescape', fz(args[0]))
        if n == 'compile':
            x = self.alloc(XObj('regex', args, kw))
            x.fields['pattern'] = args[0]
            return x
        if n in ('fullmatch', 'match', 'search', 'finditer', 'findall', 'split', 'sub', 'subn'):
            return self.re_do(n, args[0] if args else kw.get('pattern'), list(args[1:]), kw, node)
        if n.isupper() or n in ('error',):
            return Ext('regex.' + n)
        return T('pcall', 're.' + n, *[fz(a) for a in args])

    def re_do(self, n, pat, args, kw, node):
        if isinstance(pat, XObj) and pat.name == 'regex':
            kw = dict(kw)
            if len(pat.args) > 1:
                kw['flags'] = pat.args[1]
            pat = pat.fields['pattern']
        args = list(args)
        if n in ('sub', 'subn'):
            repl = args.pop(0) if args else kw.get('repl')
            s = args.pop(0) if args else kw.get('string')
            ps = [self.pyval(x) for x in (pat, repl, s)]
            if all(isinstance(x, str) for x in ps) and not kw and not args:
                try:
                    return C(_re.sub(ps[0], ps[1], ps[2]))
                except _re.error:
                    pass
            return T('resub', fz(pat), fz(repl), fz(s))
        s = args.pop(0) if args else kw.get('string')
        a, b = self.pyval(pat), self.pyval(s)
        fl = [T('kw', k, fz(v)) for k, v in sorted(kw.items()) if k not in ('string', 'pattern')] + [fz(x) for x in args]
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)) and type(a) is type(b) and not fl:
            try:
                if n in ('fullmatch', 'match', 'search'):
                    m = getattr(_re, n)(a, b)
                    if m is None:
                        return NONE
                    x = self.alloc(XObj('match'))
                    x.m = m
                    return x
                if n in ('findall', 'split'):
                    return self.from_py(getattr(_re, n)(a, b))
                if n == 'finditer':
                    out = []
                    for m in _re.finditer(a, b):
                        x = self.alloc(XObj('match'))
                        x.m = m
                        out.append(x)
                    return self.new_list(out)
            except (_re.error, KeyError):
                pass
        return T('re' + n, fz(pat), fz(s), *fl)


def last_exc(name):
    n = name.split('.')[-1]
    return builtin_exc(n) is not None or n in ('Empty', 'Full', 'DocoptExit', 'ClassNotFound') or n.endswith(('Error', 'Exception'))


def XObjFn(run, kind, args):
    x = run.alloc(XObj(kind, args))
    return x
