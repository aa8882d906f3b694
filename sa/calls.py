"""Names, classes, attributes, items and calls."""
import ast
import builtins as _b
from .ir import *
from .core import *
from .program import Cls, Mod, FnInfo
from .exprs import StarArg


class Through(Ctl):
    """Carries control flow of a generator's consumer through the generator body."""

    def __init__(self, token, e):
        self.token, self.e = token, e


def builtin_exc(name):
    x = getattr(_b, name, None)
    return x if isinstance(x, type) and issubclass(x, BaseException) else None


_LIBEXC = {'JSONDecodeError': ValueError, 'Empty': Exception, 'Full': Exception, 'UnpicklingError': Exception,
           'BadGzipFile': OSError, 'SameFileError': OSError, 'Error': OSError, 'DocoptExit': SystemExit,
           'ReadError': OSError, 'error': OSError}
_LIST_ANN = {'List', 'Iterable', 'Iterator', 'Generator', 'Set', 'Sequence', 'Collection', 'FrozenSet', 'Deque',
             'list', 'set', 'frozenset'}


class Calls:
    # ------------------------------------------------------------ globals
    def gframe(self, mod):
        g = self.globals.get(mod.name)
        if g is None:
            g = Globals({})
            self.gserial -= 1
            g.serial = self.gserial
            self.heap[g.serial] = g
            self.globals[mod.name] = g
        return g

    def global_get(self, mod, name):
        g = self.gframe(mod)
        if name in g.d:
            v = g.d[name]
            return v if v is not None else T('unbound', name)
        key = (mod.name, name)
        if key in self.prog.gcache:
            v = self.prog.gcache[key]
            g.d[name] = v
            return v
        src = self.prog.mods[mod.name]
        sts = src.bind.get(name)
        if not sts:
            if name.startswith('__'):
                return C(mod.name) if name == '__name__' else T('sym', mod.name + '.' + name)
            sub = mod.name + '.' + name
            if sub in self.prog.modobjs:
                return self.prog.modobjs[sub]
            raise PyExc('AttributeError', (), None, self.node)
        if key in self.gbusy:
            return T('cyclic', mod.name, name)
        self.gbusy.add(key)
        fr = Frame(mod, '<module>', mod.name, None, None, None, 'module')
        saved = (self.node, self.stack, self.loops, self.handlers, self.locks, self.gmode, self.shared_tag)
        self.stack, self.loops, self.handlers, self.locks = [fr], [], [], []
        self.quiet += 1
        self.gmode += 1
        self.shared_tag = mod.name + '.' + name
        self.alloc(fr)
        try:
            for st in sts:
                try:
                    self.stmt(st, fr)
                except PyExc as e:
                    self.note('module statement raises', name, e.name())
                except EndPath:
                    pass
        finally:
            self.quiet -= 1
            self.node, self.stack, self.loops, self.handlers, self.locks, self.gmode, self.shared_tag = saved
            self.gbusy.discard(key)
        v = fr.locals.get(name)
        if v is None:
            v = g.d.get(name) or T('unbound', mod.name + '.' + name)
        if isinstance(v, (Fn, Cls, Mod, Ext, C, EnumMember)):
            self.prog.gcache[key] = v
        g.d[name] = v
        return v

    # ------------------------------------------------------------ classes
    def mro(self, cls):
        if cls._mro is None:
            if cls.bases is None:
                cls.bases = []
            out = [cls]
            for b in cls.bases:
                for x in (self.mro(b) if isinstance(b, Cls) else [b]):
                    if x in out and isinstance(x, Cls):
                        out.remove(x)
                    out.append(x)
            cls._mro = out
        return cls._mro

    def cls_raw(self, cls, name):
        """An attribute defined in the class body itself, or None."""
        k = (id(cls), name)
        if k in self.clsattrs:
            return self.clsattrs[k]
        if name in cls.cache:
            return cls.cache[name]
        sts = cls.bind.get(name)
        if not sts:
            return None
        busy = ('cls', id(cls), name)
        if busy in self.gbusy:
            return None
        self.gbusy.add(busy)
        fr = Frame(cls.mod, cls.name, cls.qual(), cls.frame, cls, None, 'class')
        fr.cbind = cls.bind
        saved = (self.node, self.stack, self.loops, self.handlers, self.gmode, self.shared_tag)
        self.stack, self.loops, self.handlers = [fr], [], []
        self.quiet += 1
        self.gmode += 1
        self.shared_tag = cls.name + '.' + name
        self.alloc(fr)
        try:
            for st in sts:
                try:
                    self.stmt(st, fr)
                except PyExc as e:
                    self.note('class statement raises', name, e.name())
        finally:
            self.quiet -= 1
            self.node, self.stack, self.loops, self.handlers, self.gmode, self.shared_tag = saved
            self.gbusy.discard(busy)
        v = fr.locals.get(name)
        if isinstance(v, (Fn, Cls, C, Ext)):
            if cls.frame is None:
                cls.cache[name] = v
        if v is not None:
            self.clsattrs[k] = v
        return v

    def cls_lookup(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Cls):
                v = self.cls_raw(c, name)
                if v is not None:
                    return v
        return None

    def is_enum(self, cls):
        return any(isinstance(b, Ext) and b.name in ('enum.Enum', 'enum.IntEnum', 'enum.Flag', 'enum.IntFlag', 'enum.StrEnum')
                   for b in self.mro(cls))

    def is_namedtuple(self, cls):
        return any(isinstance(b, Ext) and b.name.endswith('NamedTuple') for b in self.mro(cls))

    def is_exc(self, cls):
        return any(isinstance(b, Ext) and builtin_exc(b.name.split('.')[-1]) for b in self.mro(cls))

    def enum_members(self, cls):
        out = []
        for n in cls.bind:
            st = cls.bind[n][0]
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and not n.startswith('_'):
                m = self.enum_member(cls, n)
                if m is not None:
                    out.append(m)
        return out

    def enum_member(self, cls, n):
        if n not in cls.bind or not isinstance(cls.bind[n][0], (ast.Assign, ast.AnnAssign)) or n.startswith('_'):
            return None
        key = '#' + n
        m = cls.cache.get(key)
        if m is None:
            v = self.cls_raw(cls, n)
            if isinstance(v, Ext) and v.name.startswith('enum.auto'):
                v = C([k for k in cls.bind if isinstance(cls.bind[k][0], ast.Assign)].index(n) + 1)
            m = EnumMember(cls, n, v)
            cls.cache[key] = m
        return m

    def subclass(self, c, of):
        if isinstance(c, Cls):
            if isinstance(of, Cls):
                return of in self.mro(c)
            if isinstance(of, Ext):
                if of.name == 'builtins.object':
                    return True
                for b in self.mro(c):
                    if isinstance(b, Ext):
                        if b.name == of.name:
                            return True
                        x, y = builtin_exc(b.name.split('.')[-1]), builtin_exc(of.name.split('.')[-1])
                        if x and y and issubclass(x, y):
                            return True
                return False
        return None

    def exc_match(self, e, c):
        """Does exception e match handler class c?"""
        if isinstance(c, Tup):
            rs = [self.exc_match(e, x) for x in c.items]
            return True if True in rs else (None if None in rs else False)
        if isinstance(c, T):
            return None
        if isinstance(e.cls, Cls):
            return self.subclass(e.cls, c)
        if isinstance(c, Cls):
            return False if e.cls not in ('InjectedError', 'Exception?') else None
        n = c.name.split('.')[-1]
        hc = builtin_exc(n) or _LIBEXC.get(n)
        if e.cls == 'InjectedError':
            if n in ('BaseException', 'Exception'):
                return True
            return False        # an error of a kind no handler names
        ec = builtin_exc(e.cls)
        if ec is None:
            if e.cls == n:
                return True
            ec = _LIBEXC.get(e.cls)
            if ec is None:
                return True if n in ('BaseException', 'Exception') else False
        if hc is None:
            return e.cls == n
        return issubclass(ec, hc) and (e.cls == n or n not in _LIBEXC)

    def maybe_raise(self, name, node=None, eff=None):
        """Fork an exception only where some active handler would see it."""
        if self.quiet or not self.opts.fork_raises:
            return
        e = PyExc(name, (), None, node or self.node)
        if name in self.opts.raise_always:
            if self.choose(2, 'raises ' + name) == 1:
                raise e
            return
        for hs in reversed(self.handlers):
            if any(self.exc_match(e, c) for c in hs):
                if self.choose(2, 'raises ' + name) == 1:
                    raise e
                return

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, node=None):
        if isinstance(o, Mod):
            return self.global_get(o, name)
        if isinstance(o, Ext):
            n = o.name + '.' + name
            if name == 'parent':
                tt = toktype(o)
                if tt is not None:
                    return Ext('.'.join(('pygments.token.Token',) + tt[:-1])) if tt else NONE
            if n == 'sys.version_info':
                return Tup([C(3), C(9), C(16)])
            if n == 'sys.maxsize':
                return C(2 ** 63 - 1)
            return Ext(n)
        if isinstance(o, Cls):
            return self.cls_getattr(o, name, node)
        if isinstance(o, HObj):
            if name in o.fields:
                v = o.fields[name]
                return v if v is not None else T('unbound', name)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return self.alloc(HDict([(C(k), v) for k, v in o.fields.items()]))
            v = self.cls_lookup(o.cls, name)
            if v is not None:
                return self.bind(v, o, o.cls, node)
            ga = self.cls_lookup(o.cls, '__getattr__')
            if ga is not None:
                return self.call(Bound(ga, o), [C(name)], {}, node)
            if any(isinstance(b, (Ext, T)) and b != Ext('builtins.object') for b in self.mro(o.cls)):
                if name == 'args':
                    return T('attr', fz(o), name)
                return BMeth(o, name)
            if name in ('__eq__', '__hash__', '__repr__', '__str__', '__init__', '_replace', '_asdict'):
                return BMeth(o, name)
            raise PyExc('AttributeError', (C(name),), None, node)
        if isinstance(o, EnumMember):
            if name == 'value' or name == '_value_':
                return o.value if o.value is not None else T('attr', o, name)
            if name == 'name':
                return C(o.name)
            v = self.cls_lookup(o.cls, name)
            if v is not None:
                m = self.enum_member(o.cls, name)
                return m if m is not None else self.bind(v, o, o.cls, node)
            return BMeth(o, name)
        if isinstance(o, XObj):
            if o.name == 'super':
                return self.super_attr(o, name, node)
            if o.name == 'argns' or name in o.fields and o.name != 'pool':
                if name in o.fields:
                    r = o.fields[name]
                    if o.name == 'mpvalue' and name == 'value':
                        if self.opts.opaque_sizes and self.worker:
                            r = self.fresh('shvalue', T('v', o.serial))
                        self.emit('sharedget', obj=o, val=r)
                    return r
            return self.xattr(o, name, node)
        if isinstance(o, HFile):
            if name == 'name':
                return o.path
            if name == 'closed':
                return C(o.closed)
            return BMeth(o, name)
        if isinstance(o, Fn):
            if name == '__name__':
                return C(o.name)
            if name == '__module__':
                return C(o.mod.name)
            return BMeth(o, name)
        if isinstance(o, Bound):
            if name == '__name__':
                return C(o.fn.name)
            if name == '__self__':
                return o.self
            return BMeth(o, name)
        if isinstance(o, T):
            c = self.known_const(o)
            if c is not None:
                return self.getattr(c, name, node)
            v = self.tfields.get((o, name))
            if v is not None:
                return v
            k = self.tclass.get(o)
            if k is not None:
                if name == '__class__':
                    return k
                v = self.cls_lookup(k, name)
                if v is not None:
                    return self.bind(v, o, k, node)
                t = T('attr', o, name)
                fc = self.field_class(k, name)
                if fc is not None:
                    self.apply_ann(t, fc[0], fc[1])
                return t
            if ty(o) in ('str', 'bytes', 'list', 'dict', 'set', 'int'):
                return BMeth(o, name)
            if name in self.STRLIKE:
                return BMeth(o, name)
            return T('attr', o, name)
        if isinstance(o, C) and o.v is None:
            raise PyExc('AttributeError', (C(name),), None, node)
        return BMeth(o, name)

    STRLIKE = {'split', 'strip', 'lstrip', 'rstrip', 'join', 'upper', 'lower', 'startswith', 'endswith', 'encode',
               'decode', 'replace', 'format', 'items', 'keys', 'values', 'get', 'append', 'extend', 'pop', 'add',
               'update', 'isupper', 'islower', 'find', 'splitlines', 'index', 'count', 'sort', 'copy', 'isspace',
               'isalpha', 'isdigit', 'partition', 'rpartition', 'rsplit', 'group', 'groups', 'put', 'get_nowait',
               'put_nowait', 'qsize', 'read', 'readline', 'write', 'close', 'insert', 'remove', 'discard', 'setdefault',
               'capitalize', 'title', 'union', 'difference', 'intersection', 'most_common', 'start', 'end', 'span',
               'acquire', 'release', 'strftime', 'hexdigest', 'digest', 'isoformat', 'timestamp', 'copy', 'elements',
               'swapcase', 'casefold', 'istitle', 'isalnum', 'isidentifier', 'zfill', 'ljust', 'rjust'}

    def super_attr(self, o, name, node):
        obj = o.fields['obj']
        c = obj if isinstance(obj, Cls) else self.class_of(obj)
        if c is None:
            return T('attr', fz(o), name)
        m = self.mro(c)
        i = m.index(o.fields['cls']) if o.fields['cls'] in m else -1
        for b in m[i + 1:]:
            if isinstance(b, Cls):
                v = self.cls_raw(b, name)
                if v is not None:
                    return self.bind(v, obj, c, node)
        return BMeth(o, name)

    def class_of(self, v):
        if isinstance(v, HObj):
            return v.cls
        if isinstance(v, EnumMember):
            return v.cls
        if isinstance(v, T):
            return self.tclass.get(v)
        return None

    def field_class(self, cls, name):
        """Annotation (node, module) of an instance attribute, from annotated parameters of __init__."""
        cache = self.prog.__dict__.setdefault('fieldann', {})
        k = (id(cls), name)
        if k in cache:
            return cache[k]
        r = None
        for c in self.mro(cls):
            if not isinstance(c, Cls):
                continue
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
                    r = r or (st.annotation, c.mod)
                if isinstance(st, ast.FunctionDef) and st.name == '__init__':
                    ann = {a.arg: a.annotation for a in st.args.args + st.args.kwonlyargs}
                    for n in ast.walk(st):
                        tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []
                        for t in tg:
                            if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name):
                                if isinstance(n, ast.AnnAssign):
                                    r = r or (n.annotation, c.mod)
                                elif isinstance(n.value, ast.Name) and ann.get(n.value.id) is not None:
                                    r = r or (ann[n.value.id], c.mod)
        cache[k] = r
        return r

    def bind(self, v, o, cls, node):
        if isinstance(v, Fn):
            if v.kind == 'static':
                return v
            if v.kind == 'class':
                return Bound(v, cls)
            if v.kind == 'property':
                return self.call(Bound(v, o), [], {}, node)
            return Bound(v, o)
        return v

    def cls_getattr(self, c, name, node):
        if name == '__name__' or name == '__qualname__':
            return C(c.name)
        if name == '__members__' and self.is_enum(c):
            return self.alloc(HDict([(C(m.name), m) for m in self.enum_members(c)]))
        if self.is_enum(c):
            for k in self.mro(c):
                if isinstance(k, Cls):
                    m = self.enum_member(k, name)
                    if m is not None:
                        return m
        v = self.cls_lookup(c, name)
        if v is None:
            if name in ('__subclasses__', 'mro', '__mro__', '__doc__', '__module__', '__dict__'):
                return BMeth(c, name)
            if any(isinstance(b, Ext) for b in self.mro(c)):
                return Ext('clsattr.' + c.name + '.' + name)
            raise PyExc('AttributeError', (C(name),), None, node)
        if isinstance(v, Fn) and v.kind == 'class':
            return Bound(v, c)
        return v

    def setattr(self, o, name, v, node=None):
        if isinstance(o, HObj):
            k = self.cls_lookup(o.cls, name) if name not in o.fields else None
            if isinstance(k, Fn) and k.kind == 'property':
                if k.setter is not None:
                    self.call(Bound(k.setter, o), [v], {}, node)
                    return
                raise PyExc('AttributeError', (), None, node)
            self.mutate(o, name, node, 'set', v)
            o.fields[name] = v
            if o.shared:
                self.mark_shared(v, o.shared)
        elif isinstance(o, T):
            self.emit('mutate', obj=o, field=name, how='set', shared=None, val=v)
            k = self.tclass.get(o)
            p = self.cls_lookup(k, name) if k is not None else None
            if isinstance(p, Fn) and p.kind == 'property' and p.setter is not None:
                self.call(Bound(p.setter, o), [v], {}, node)
                return
            self.tfields[(o, name)] = v
        elif isinstance(o, Mod):
            g = self.gframe(o)
            self.touch((g.serial, name), g.serial)
            self.emit('setglobal', mod_=o.name, name=name, val=v)
            g.d[name] = v
            self.mark_shared(v, f'{o.name}.{name}')
        elif isinstance(o, Cls):
            self.emit('setclassattr', cls=o.name, name=name, val=v)
            self.clsattrs[(id(o), name)] = v
            self.mark_shared(v, f'{o.name}.{name}')
        elif isinstance(o, XObj):
            o.fields[name] = v
            self.emit('mutate', obj=o, field=name, how='set', shared=o.shared, val=v)
        elif isinstance(o, Ext):
            self.emit('setext', name=o.name + '.' + name, val=v)
        else:
            self.note('setattr on', repr(o), name)

    # ------------------------------------------------------------ items
    def slice_of(self, k):
        if isinstance(k, T) and k.op == 'sl':
            return k.args
        return None

    def getitem(self, o, k, node=None):
        if isinstance(k, T) and k.op != 'sl':
            k = self.subst(k)
        if isinstance(o, T):
            c = self.known_const(o)
            if c is not None:
                o = c
        if isinstance(o, Cls):
            if self.is_enum(o) and isinstance(k, C):
                m = self.enum_member(o, k.v)
                if m is None:
                    raise PyExc('KeyError', (), None, node)
                return m
            return o
        if isinstance(o, Ext):
            if o.name.startswith('clsattr') or o.name.startswith('sys.') or o.name.startswith('os.'):
                return T('getitem', o, fz(k))
            return o
        sl = self.slice_of(k)
        if isinstance(o, XObj) and o.name == 'ntuple':
            o = Tup(o.args)
        if isinstance(o, HObj):
            if self.cls_lookup(o.cls, '__getitem__') is not None:
                return self.call_method(o, '__getitem__', [k], {}, node)
            if self.is_namedtuple(o.cls) and isinstance(k, C):
                return list(o.fields.values())[k.v]
        if isinstance(o, XObj):
            return self.xgetitem(o, k, node)
        if isinstance(o, HDict):
            return self.dict_get(o, k, None, node)
        if sl is not None:
            return self.getslice(o, sl, node)
        if isinstance(o, T) and o.op in ('tup', 'list') and isinstance(k, C) and \
                not any(isinstance(a, T) and a.op in ('spread', 'rep', 'prev') for a in o.args):
            o = Tup(o.args)
        if isinstance(o, (Tup, HList)):
            es = list(o.items) if isinstance(o, Tup) else o.elems()
            if es is not None and isinstance(k, C) and isinstance(k.v, int):
                if -len(es) <= k.v < len(es):
                    return es[k.v]
                raise PyExc('IndexError', (), None, node)
            if isinstance(o, HList) and isinstance(k, C) and isinstance(k.v, int):
                segs = o.segs if k.v >= 0 else o.segs[::-1]
                j = k.v if k.v >= 0 else -k.v - 1
                for s in segs:
                    if s[0] != 'e':
                        break
                    if j == 0:
                        return s[1]
                    j -= 1
            self.maybe_raise('IndexError', node)
            return T('getitem', fz(o), fz(k))
        if isinstance(o, C):
            if isinstance(o.v, (str, bytes)):
                if isinstance(k, C):
                    try:
                        return C(o.v[k.v])
                    except IndexError:
                        raise PyExc('IndexError', (), None, node)
                    except TypeError:
                        raise PyExc('TypeError', (), None, node)
                return T('charof', o, fz(k))
            raise PyExc('TypeError', (), None, node)
        fo = fz(o)
        if isinstance(k, C) and isinstance(k.v, int) and isinstance(fo, T) and fo.op == 'cat':
            p = fo.args[0] if k.v >= 0 else fo.args[-1]
            if isinstance(p, C) and isinstance(p.v, str) and (k.v < len(p.v) if k.v >= 0 else -k.v <= len(p.v)):
                return C(p.v[k.v])
        if ty(fo) in ('str', 'bytes'):
            self.maybe_raise('IndexError', node)
            return T('charof', fo, fz(k))
        self.maybe_raise('KeyError', node)
        self.maybe_raise('IndexError', node)
        v = self.tfields.get((fo, ('item', fz(k))))
        return v if v is not None else T('getitem', fo, fz(k))

    def getslice(self, o, sl, node):
        lo, hi, st = [self.subst(x) if isinstance(x, T) else x for x in sl]
        cs = all(isinstance(x, C) for x in (lo, hi, st))
        if isinstance(o, C) and cs:
            try:
                return C(o.v[lo.v:hi.v:st.v])
            except TypeError:
                raise PyExc('TypeError', (), None, node)
        if isinstance(o, Tup) and cs:
            return Tup(o.items[lo.v:hi.v:st.v])
        if isinstance(o, HList):
            if lo == NONE and hi == NONE and st in (NONE, C(1)):
                return self.alloc(HList(o.segs))
            es = o.elems()
            if cs and es is not None:
                return self.new_list(es[lo.v:hi.v:st.v])
            if cs and st in (NONE, C(1)):
                segs = list(o.segs)
                a, z = lo.v or 0, hi.v
                ok = a >= 0 and (z is None or z < 0)
                if ok:
                    n = -z if z else 0
                    if all(s[0] == 'e' for s in segs[:a]) and len(segs) >= a and \
                            all(s[0] == 'e' for s in segs[len(segs) - n:]) and len(segs) >= a + n:
                        return self.alloc(HList(segs[a:len(segs) - n]))
            if lo == NONE or lo == C(0):
                n = self.length(o)
                if isinstance(hi, (T, C)) and hi == n:
                    return self.alloc(HList(o.segs))
            if hi == NONE and st in (NONE, C(1)) and isinstance(lo, T):
                # o[len(prefix):]
                acc = C(0)
                for i, s in enumerate(o.segs):
                    if acc == lo:
                        return self.alloc(HList(o.segs[i:]))
                    acc = lin_add(acc, segs_len([s]))
            return self.alloc(HList([('s', T('slice', fz(o), lo, hi, st))]))
        fo = fz(o)
        if ty(fo) in ('str', 'bytes') and st in (NONE, C(1)) and isinstance(fo, T) and fo.op == 'cat':
            ps = list(fo.args)
            if isinstance(lo, C) and (lo.v or 0) > 0 and isinstance(ps[0], C) and len(ps[0].v) >= lo.v:
                return self.getslice(cat(C(ps[0].v[lo.v:]), *ps[1:]), (NONE, hi, NONE), node) if hi == NONE or \
                    (isinstance(hi, C) and hi.v < 0) else T('slice', fo, lo, hi, st)
            if (lo == NONE or lo == C(0)) and isinstance(hi, C) and hi.v is not None and hi.v < 0 and isinstance(ps[-1], C) \
                    and len(ps[-1].v) >= -hi.v:
                return cat(*ps[:-1], C(ps[-1].v[:hi.v]))
            if (lo == NONE or lo == C(0)) and isinstance(hi, C) and hi.v is not None and hi.v >= 0 and isinstance(ps[0], C) \
                    and len(ps[0].v) >= hi.v:
                return C(ps[0].v[:hi.v])
            if hi == NONE and isinstance(lo, C) and lo.v is not None and lo.v < 0 and isinstance(ps[-1], C) and len(ps[-1].v) >= -lo.v:
                return C(ps[-1].v[lo.v:])
            if hi == NONE and isinstance(lo, T):
                acc = C(0)
                for i, p in enumerate(ps):
                    if acc == lo:
                        return cat(*ps[i:])
                    acc = lin_add(acc, length(p))
            if lo in (NONE, C(0)) and isinstance(hi, T):
                acc = C(0)
                for i, p in enumerate(ps):
                    if acc == hi:
                        return cat(*ps[:i]) if i else C('')
                    acc = lin_add(acc, length(p))
        if lo in (NONE, C(0)) and hi == NONE and st in (NONE, C(1)):
            return fo
        return T('slice', fo, lo, hi, st)

    def dict_get(self, o, k, dflt, node):
        """dflt None: KeyError (or default factory) when missing."""
        cand = []
        for a, v in reversed(o.pairs):
            r = self.truthy(self.equals(a, k, node))
            if r == TRUE:
                if not cand:
                    return v
                cand.append((TRUE, v, a))
                break
            if r != FALSE:
                cand.append((r, v, a))
        for r, v, a in cand:
            if self.decide(r, f'key {a!r}'):
                return v
        if o.opaque:
            if dflt is None and o.default is None:
                self.maybe_raise('KeyError', node)
            elif dflt is not None:
                if self.decide(T('in', fz(k), fz(o)), 'key in dict'):
                    return T('getitem', fz(o), fz(k))
                return dflt
            if len(o.opaque) == 1 and isinstance(o.opaque[0], T) and o.opaque[0].op == 'rep' and len(o.opaque[0].args) == 2:
                v = self.thaw(o.opaque[0].args[1].args[1])
                if isinstance(v, Heap):
                    return v
            r = T('getitem', fz(o), fz(k))
            c = getattr(o, 'valclass', None)
            if c is not None:
                self.tclass[r] = c
            if dflt is None and isinstance(o.default, (Ext, Fn)) and (
                    isinstance(o.default, Ext) and o.default.name.split('.')[-1] == 'list'):
                v = self.alloc(HList([('s', r)]))
                self.mutate(o, 'pairs', node, 'set', v)
                o.pairs = o.pairs + [(k, v)]
                return v
            return r
        if dflt is not None:
            return dflt
        if o.default is not None and o.tag == 'counter':
            return o.default
        if o.default is not None:
            v = self.call(o.default, [], {}, node) if not isinstance(o.default, C) else o.default
            self.mutate(o, 'pairs', node, 'set', v)
            o.pairs = o.pairs + [(k, v)]
            return v
        raise PyExc('KeyError', (k,), None, node)

    def setitem(self, o, k, v, node=None):
        if isinstance(k, T) and k.op != 'sl':
            k = self.subst(k)
        if isinstance(o, HDict):
            self.mutate(o, 'pairs', node, 'setitem', v)
            self.dict_put(o, k, v)
            if o.shared:
                self.mark_shared(v, o.shared)
        elif isinstance(o, HList):
            self.mutate(o, 'segs', node, 'setitem', v)
            es = o.elems()
            sl = self.slice_of(k)
            if sl is None and es is not None and isinstance(k, C) and isinstance(k.v, int):
                if not -len(es) <= k.v < len(es):
                    raise PyExc('IndexError', (), None, node)
                segs = list(o.segs)
                segs[k.v] = ('e', v)
                o.segs = segs
            elif sl is None and isinstance(k, C) and k.v == -1 and o.segs and o.segs[-1][0] == 'e':
                o.segs = o.segs[:-1] + [('e', v)]
            elif sl is not None and all(x == NONE for x in sl):
                o.segs = self.to_segs(v)
            elif sl is not None and es is not None and all(isinstance(x, C) for x in sl) and isinstance(v, (HList, Tup)) \
                    and HList(self.to_segs(v)).elems() is not None:
                es[slice(*[x.v for x in sl])] = HList(self.to_segs(v)).elems()
                o.segs = [('e', x) for x in es]
            else:
                o.segs = [('s', T('updated', fz(o), fz(k), fz(v)))]
        elif isinstance(o, HObj) and self.cls_lookup(o.cls, '__setitem__') is not None:
            self.call_method(o, '__setitem__', [k, v], {}, node)
        elif isinstance(o, XObj) and o.name == 'globals':
            n = self.pyval(k)
            if isinstance(n, str):
                self.setattr(o.fields['mod'], n, v, node)
        elif isinstance(o, XObj):
            self.xsetitem(o, k, v, node)
        elif isinstance(o, T):
            self.emit('mutate', obj=o, field=fz(k), how='setitem', shared=None, val=v)
            self.tfields[(o, ('item', fz(k)))] = v
        elif isinstance(o, (C, Tup)):
            raise PyExc('TypeError', (), None, node)
        else:
            self.note('setitem on', repr(o))

    def delitem(self, o, k, node=None):
        if isinstance(o, HDict):
            self.mutate(o, 'pairs', node, 'delitem', k)
            n = len(o.pairs)
            o.pairs = [(a, v) for a, v in o.pairs if not self.decide(self.equals(a, k, node), 'del key')]
            if len(o.pairs) == n and not o.opaque:
                raise PyExc('KeyError', (), None, node)
        elif isinstance(o, HList):
            self.mutate(o, 'segs', node, 'delitem', k)
            es = o.elems()
            sl = self.slice_of(k)
            if es is not None and sl is None and isinstance(k, C):
                try:
                    del es[k.v]
                except IndexError:
                    raise PyExc('IndexError', (), None, node)
                o.segs = [('e', x) for x in es]
            elif es is not None and sl is not None and all(isinstance(x, C) for x in sl):
                del es[slice(*[x.v for x in sl])]
                o.segs = [('e', x) for x in es]
            else:
                o.segs = [('s', T('deleted', fz(o), fz(k)))]
        elif isinstance(o, T):
            self.emit('mutate', obj=o, field=fz(k), how='delitem', shared=None, val=None)
        elif isinstance(o, XObj):
            self.xsetitem(o, k, None, node)

    def length(self, o):
        if isinstance(o, HObj):
            if self.cls_lookup(o.cls, '__len__') is not None:
                return self.call_method(o, '__len__', [], {}, self.node)
        if isinstance(o, HSet):
            es = [s[1] for s in o.segs if s[0] == 'e']
            if len(es) == len(o.segs) and all(isinstance(x, C) for x in es):
                return C(len(set(es)))
            return T('len', fz(o))
        if isinstance(o, XObj) and o.name == 'ntuple':
            return C(len(o.args))
        if isinstance(o, Cls) and self.is_enum(o):
            return C(len(self.enum_members(o)))
        if isinstance(o, T):
            c = self.known_const(o)
            if c is not None:
                return length(c)
        if isinstance(o, Lazy):
            raise PyExc('TypeError', (), None, self.node)
        if isinstance(o, HDict) and not o.opaque and len(o.pairs) > 1 and not all(known_key(k) for k, _ in o.pairs):
            ks = [fz(k) for k, _ in o.pairs]
            if len(ks) > 40 or not all(self.differ(a, b) for i, a in enumerate(ks) for b in ks[:i]):
                return T('len', fz(o))
        return length(o)

    def differ(self, a, b):
        """a and b are certainly not equal (no choice is made)."""
        r = self.eq(a, b)
        if isinstance(r, C):
            return not r.v
        if isinstance(r, T) and r in self.bools:
            return not self.bools[r]
        return bool(self.opts.decide_hook and isinstance(r, T) and self.opts.decide_hook(self, r) is False)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None, node=None):
        kw = {} if kw is None else kw
        if isinstance(f, T):
            c = self.known_const(f)
            if c is not None:
                f = c
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, node)
        if isinstance(f, Bound):
            return self.call_fn(f.fn, [f.self] + list(args), kw, node)
        if isinstance(f, BMeth):
            return self.call_method(f.recv, f.name, args, kw, node)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, Ext):
            return self.ext_call(f.name, args, kw, node)
        if isinstance(f, HObj):
            c = self.cls_lookup(f.cls, '__call__')
            if c is not None:
                return self.call_fn(c, [f] + list(args), kw, node)
        if isinstance(f, T):
            k = self.tclass.get(f)
            c = self.cls_lookup(k, '__call__') if k is not None else None
            if c is not None:
                return self.call_fn(c, [f] + list(args), kw, node)
            if f.op == 'attr':
                r = self.term_method(f.args[0], f.args[1], args, kw, node)
                if r is not None:
                    return r
            self.emit('unkcall', eff=True, f=f, args=list(args), kw=dict(kw))
            return T('call', f, *[fz(a) for a in args if not isinstance(a, StarArg)],
                     *[T('kw', k2, fz(v)) for k2, v in sorted(kw.items())])
        if isinstance(f, XObj):
            return self.xcall(f, args, kw, node)
        if isinstance(f, C):
            raise PyExc('TypeError', (), None, node)
        self.note('call of', repr(f))
        return self.fresh('unk', 'call')

    def call_bound(self, cls, o, name, args, kw, node):
        f = self.cls_lookup(cls, name)
        return self.call(self.bind(f, o, cls, node), args, kw, node)

    def call_fn(self, fn, args, kw, node):
        h = self.opts.call_hook
        if h is not None:
            r = h(self, fn, args, kw, node)
            if r is not NotImplemented:
                return r
        info = FnInfo.of(fn.node)
        rec = sum(1 for f in self.stack if f.fn is not None and f.fn.node is fn.node)
        if rec > self.opts.max_rec or len(self.stack) > self.opts.max_depth:
            self.note('recursion cut', fn.qual())
            self.emit('cut', q=fn.qual())
            return T('rec', fn.qual(), *[fz(a) for a in args if not isinstance(a, StarArg)])
        self.prog.fns.setdefault(fn.qual(), fn)
        fr = Frame(fn.mod, fn.name, fn.qual(), fn.closure, fn.cls, info, 'fn')
        fr.fn = fn
        self.alloc(fr)
        self.bind_args(fn, fr, args, kw, node)
        self.visited.add(fn.qual())
        self.emit('call', q=fn.qual(), args=list(args), kw=dict(kw), fr=fr)
        if info.is_gen:
            if fn.kind == 'ctx':
                x = self.alloc(XObj('ctx'))
                x.fields['frame'] = fr
                return x
            return self.alloc(Lazy('gen', lambda run, cb, nd, fr=fr: run.iter_gen(fr, cb, nd)))
        self.stack.append(fr)
        saved = self.node
        try:
            if isinstance(fn.node, ast.Lambda):
                r = self.ev(fn.node.body, fr)
            else:
                try:
                    self.block(fn.node.body, fr)
                    r = NONE
                except Return_ as e:
                    r = e.v
        finally:
            self.stack.pop()
            self.node = saved
        self.ret_hint(fn, r)
        return r

    def iter_gen(self, fr, cb, node):
        lz = getattr(fr, 'ran', False)
        if lz:
            self.emit('exhausted', q=fr.qual)
            return
        fr.ran = True
        token = object()

        def cb2(v):
            try:
                return cb(v)
            except (Return_, Break_, Continue_, PyExc) as e:
                raise Through(token, e)
        try:
            self.run_gen(fr, cb2)
        except Through as t:
            if t.token is not token:
                raise
            raise t.e

    def through(self, go, cb):
        go(cb)

    def run_gen(self, fr, cb):
        outer, hs = list(self.stack), self.handlers
        inner = outer + [fr]

        def cb2(v):
            st, h, nd = self.stack, self.handlers, self.node
            self.stack, self.handlers = list(outer), list(hs)
            try:
                return cb(v)
            finally:
                self.stack, self.handlers, self.node = st, h, nd
        fr.yield_cb = cb2
        saved = self.node
        self.stack, self.handlers = inner, list(hs)
        try:
            try:
                self.block(fr.fn.node.body, fr)
            except Return_:
                pass
        finally:
            self.stack, self.handlers, self.node = outer, hs, saved

    def bind_args(self, fn, fr, args, kw, node):
        a = fn.node.args
        pos = a.posonlyargs + a.args
        kw = dict(kw)
        args = list(args)
        star = next((i for i, x in enumerate(args) if isinstance(x, StarArg)), None)
        L = fr.locals
        if star is None:
            for p, v in zip(pos, args):
                L[p.arg] = v
            extra = [('e', v) for v in args[len(pos):]]
        else:
            for p, v in zip(pos, args[:star]):
                L[p.arg] = v
            sv = args[star].v
            tail = []
            for x in args[star:]:
                tail += self.to_segs(x.v) if isinstance(x, StarArg) else [('e', x)]
            extra = []
            if a.vararg is not None and len(pos) <= star:
                extra = [('e', v) for v in args[len(pos):star]] + tail
            else:
                for i, p in enumerate(pos[star:]):
                    if p.arg not in kw:
                        L[p.arg] = T('item', fz(sv), i)
                if a.vararg is not None:
                    extra = [('s', T('slice', fz(sv), C(len(pos) - star), NONE, NONE))]
        if a.vararg is not None:
            if all(s[0] == 'e' for s in extra):
                L[a.vararg.arg] = Tup([s[1] for s in extra])
            else:
                L[a.vararg.arg] = self.alloc(HList(extra))
        elif extra and star is None:
            self.emit('badcall', q=fn.qual())
            raise PyExc('TypeError', (C(f'{fn.name}() takes too many arguments'),), None, node)
        names = {p.arg for p in pos[len(a.posonlyargs):] + a.kwonlyargs} | {p.arg for p in a.args}
        star_kw = kw.pop('**', None)
        rest = []
        for k, v in kw.items():
            if k in names:
                if k in L:
                    raise PyExc('TypeError', (C(f'{fn.name}() got multiple values for {k}'),), None, node)
                L[k] = v
            elif a.kwarg is not None:
                rest.append((C(k), v))
            else:
                self.emit('badcall', q=fn.qual())
                raise PyExc('TypeError', (C(f'{fn.name}() unexpected keyword {k}'),), None, node)
        if a.kwarg is not None:
            d = self.alloc(HDict(rest))
            if star_kw is not None:
                self.dict_update(d, star_kw)
            L[a.kwarg.arg] = d
        # defaults
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            if p.arg not in L:
                j = i - (len(pos) - nd)
                if star_kw is not None and a.kwarg is None:
                    L[p.arg] = T('getitem', fz(star_kw), C(p.arg))
                elif j >= 0:
                    L[p.arg] = self.default(fn, a.defaults[j])
                elif star is not None:
                    pass
                else:
                    self.emit('badcall', q=fn.qual())
                    raise PyExc('TypeError', (C(f'{fn.name}() missing argument {p.arg}'),), None, node)
        for p, dv in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in L:
                if dv is None:
                    if star_kw is not None:
                        L[p.arg] = T('getitem', fz(star_kw), C(p.arg))
                        continue
                    raise PyExc('TypeError', (C(f'{fn.name}() missing argument {p.arg}'),), None, node)
                L[p.arg] = self.default(fn, dv)
        for p in pos + a.kwonlyargs:
            if p.annotation is not None and isinstance(L.get(p.arg), (T, Lazy, HFile, HList)):
                self.hint(L[p.arg], p.annotation, fr)
        if fn.cls is not None and pos and fn.kind != 'static' and isinstance(L.get(pos[0].arg), T):
            t = L[pos[0].arg]
            if t not in self.tclass:
                self.tclass[t] = fn.cls

    def default(self, fn, node):
        home = getattr(fn, 'home', None)
        key = (id(node), home.serial if home is not None and home.kind == 'fn' else 0)
        if key not in self.defaults:
            fr = home
            if fr is None or fr.kind == 'module':
                fr = Frame(fn.mod, '<module>', fn.mod.name, None, None, None, 'module')
            self.quiet += 1
            self.gmode += 1
            saved = self.shared_tag
            self.shared_tag = f'default of {fn.qual()}'
            try:
                self.defaults[key] = self.ev(node, fr)
            finally:
                self.quiet -= 1
                self.gmode -= 1
                self.shared_tag = saved
        return self.defaults[key]

    # ------------------------------------------------------------ annotations
    def ann_of(self, ann, fr):
        """(container: bool, Cls or type name) from an annotation."""
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            b = ast.unparse(ann.value).split('.')[-1]
            s = ann.slice
            if b in _LIST_ANN:
                if isinstance(s, ast.Tuple):
                    s = s.elts[0]
                r = self.ann_of(s, fr)
                return ('list', r[1]) if r is not None and r[0] == 'one' else ('one', 'list')
            if b == 'Optional':
                return self.ann_of(s, fr)
            if b == 'Union' and isinstance(s, ast.Tuple):
                return None
            if b in ('Dict', 'dict', 'Mapping', 'Counter'):
                return ('one', 'dict')
            return None
        if isinstance(ann, ast.Name):
            if ann.id in ('str', 'int', 'bytes', 'bool'):
                return ('one', ann.id)
            try:
                v = self.lookup(ann.id, fr)
            except PyExc:
                return None
            return ('one', v) if isinstance(v, Cls) else None
        if isinstance(ann, ast.Attribute):
            try:
                v = self.ev(ann, fr)
            except PyExc:
                return None
            return ('one', v) if isinstance(v, Cls) else None
        return None

    def hint(self, v, ann, fr):
        if isinstance(v, HList) and any(g[0] == 'p' for g in v.segs):
            r = self.ann_of(ann, fr)
            if r is not None and r[0] != 'one' and isinstance(r[1], Cls):
                for g in v.segs:
                    if g[0] == 'p':
                        self.elemclass.setdefault(T('plist', *[str(a) for a in g[1:]]), r[1])
        if not isinstance(v, T):
            return
        r = self.ann_of(ann, fr)
        if r is not None:
            self.apply(v, r)

    def apply(self, v, r):
        k, c = r
        if isinstance(c, Cls):
            if k == 'one':
                if v not in self.tclass and self.known_const(v) is None:
                    self.tclass[v] = c
            else:
                self.elemclass.setdefault(v, c)
        elif v.op == 'sym':
            if k == 'one':
                SYMTY.setdefault(v.args[0], c)
            else:
                SYMTY.setdefault(v.args[0], 'list')
                SYMTY.setdefault(v.args[0] + '[]', c)

    def apply_ann(self, t, ann, mod):
        fr = Frame(mod, '<ann>', mod.name, None, None, None, 'module')
        self.hint(t, ann, fr)

    def ret_hint(self, fn, r):
        if isinstance(r, T) and getattr(fn.node, 'returns', None) is not None and r.op not in ('cat', 'eq', 'not', 'lt'):
            if r not in self.tclass:
                fr = Frame(fn.mod, '<ann>', fn.mod.name, None, None, None, 'module')
                a = self.ann_of(fn.node.returns, fr)
                if a is not None and isinstance(a[1], Cls):
                    self.apply(r, a)

    # ------------------------------------------------------------ instances
    def instantiate(self, cls, args, kw, node):
        if self.is_enum(cls):
            v = self.subst(args[0]) if args and isinstance(args[0], T) else (args[0] if args else NONE)
            ms = self.enum_members(cls)
            if isinstance(v, EnumMember):
                return v
            for m in ms:
                if isinstance(m.value, (C, T)) and self.eq(m.value, v) == TRUE:
                    return m
            if isinstance(v, T):
                t = T('enumof', cls.name, v)
                self.tclass[t] = cls
                return t
            raise PyExc('ValueError', (), None, node)
        h = self.opts.call_hook
        if h is not None:
            r = h(self, cls, args, kw, node)
            if r is not NotImplemented:
                return r
        new = self.cls_lookup(cls, '__new__')
        if isinstance(new, Fn):
            return self.call_fn(new, [cls] + list(args), kw, node)
        o = self.alloc(HObj(cls))
        self.emit('new', cls=cls, args=list(args), kw=dict(kw), obj=o)
        init = self.cls_lookup(cls, '__init__')
        if isinstance(init, Fn):
            self.call_fn(init, [o] + list(args), kw, node)
            return o
        if self.is_namedtuple(cls) or 'dataclass' in getattr(cls, 'decos', ()):
            names = [(st.target.id, st.value, c) for c in reversed([m for m in self.mro(cls) if isinstance(m, Cls)])
                     for st in c.node.body if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)]
            args = list(args)
            kw = dict(kw)
            for n, dv, c in names:
                if args:
                    o.fields[n] = args.pop(0)
                elif n in kw:
                    o.fields[n] = kw.pop(n)
                elif dv is not None:
                    v = self.cls_raw(c, n)
                    if isinstance(dv, ast.Call) and ast.unparse(dv.func).endswith('field'):
                        v = NONE
                        for k in dv.keywords:
                            if k.arg == 'default_factory':
                                fr = Frame(c.mod, '<module>', c.mod.name, None, None, None, 'module')
                                v = self.call(self.ev(k.value, fr), [], {}, node)
                            elif k.arg == 'default':
                                fr = Frame(c.mod, '<module>', c.mod.name, None, None, None, 'module')
                                v = self.ev(k.value, fr)
                    o.fields[n] = v
                else:
                    raise PyExc('TypeError', (), None, node)
            if args or kw:
                raise PyExc('TypeError', (), None, node)
            pi = self.cls_lookup(cls, '__post_init__')
            if pi is not None:
                self.call_fn(pi, [o], {}, node)
            return o
        if self.is_exc(cls):
            o.fields['args'] = Tup(args)
            return o
        if (args or kw) and not any(isinstance(b, (Ext, T)) and b != Ext('builtins.object') for b in self.mro(cls)):
            self.emit('badcall', q=cls.qual())
            raise PyExc('TypeError', (), None, node)
        if args and any(isinstance(b, Ext) and b.name in ('builtins.list', 'builtins.dict', 'builtins.str') for b in self.mro(cls)):
            o.fields['#base'] = args[0]
        return o

    def is_exc_cls(self, cls):
        return self.is_exc(cls)


def known_key(k):
    """Two keys of this form are equal only if they are the same."""
    return isinstance(k, (C, EnumMember)) or isinstance(k, Tup) and all(known_key(x) for x in k.items)
