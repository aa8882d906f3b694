"""Expressions."""
import ast
from .ir import *
from .core import *
from .program import Cls, Mod


class StarArg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


_BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
        ast.Pow: 'pow', ast.BitOr: 'or', ast.BitAnd: 'and', ast.BitXor: 'xor', ast.LShift: 'lshift',
        ast.RShift: 'rshift', ast.MatMult: 'matmul'}


class Exprs:
    def ev(self, e, fr):
        self.steps += 1
        if self.steps > self.opts.max_steps:
            raise Limit('steps')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note('unsupported expression', type(e).__name__)
            return self.fresh('unk', type(e).__name__)
        return m(e, fr)

    def ev_cond(self, e, fr):
        """Value used only for its truth."""
        return self.ev(e, fr)

    def ev_index(self, e, fr):
        return self.ev(e, fr)

    def e_Constant(self, e, fr):
        return C(e.value)

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def lookup(self, name, fr):
        info = fr.info
        if info is not None and name in info.globals:
            return self.global_or_builtin(fr.mod, name)
        f = fr
        first = True
        while f is not None:
            if first or f.kind != 'class':
                if name in f.locals:
                    v = f.locals[name]
                    if v is None:
                        self.note('maybe unbound', name)
                        return T('unbound', name)
                    return v
                if f.info is not None and name in f.info.locals and f.kind == 'fn':
                    self.note('unbound', name)
                    raise PyExc('UnboundLocalError', (), None, self.node)
            if f.kind == 'module':
                break
            first = False
            if f.kind == 'class' and name in getattr(f, 'cbind', ()):
                v = self.cls_raw(f.cls, name)
                if v is not None:
                    return v
            f = f.closure
        return self.global_or_builtin(fr.mod, name)

    def global_or_builtin(self, mod, name):
        g = self.globals.get(mod.name)
        if g is not None and name in g.d:
            return g.d[name]
        if name in self.prog.mods[mod.name].bind:
            return self.global_get(mod, name)
        if name == '__name__':
            return C(mod.name)
        if name == '__file__':
            return C('/' + self.prog.mods[mod.name].path)
        if name in ('True', 'False', 'None'):
            return C({'True': True, 'False': False, 'None': None}[name])
        return Ext('builtins.' + name)

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs = self.to_segs(self.ev(x.value, fr))
                if all(s[0] == 'e' for s in segs):
                    out.extend(s[1] for s in segs)
                else:
                    pre = [('e', v) for v in out]
                    rest = []
                    for y in e.elts[e.elts.index(x) + 1:]:
                        rest += self.to_segs(self.ev(y.value, fr)) if isinstance(y, ast.Starred) else [('e', self.ev(y, fr))]
                    return self.alloc(HList(pre + segs + rest))
            else:
                out.append(self.ev(x, fr))
        return Tup(out)

    def segs_of(self, elts, fr):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs += self.to_segs(self.ev(x.value, fr))
            else:
                segs.append(('e', self.ev(x, fr)))
        return segs

    def e_List(self, e, fr):
        return self.alloc(HList(self.segs_of(e.elts, fr)))

    def e_Set(self, e, fr):
        return self.alloc(HSet(self.segs_of(e.elts, fr)))

    def e_Dict(self, e, fr):
        d = self.alloc(HDict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.ev(v, fr))
            else:
                kv = self.ev(k, fr)
                self.dict_put(d, kv, self.ev(v, fr))
        return d

    def dict_put(self, d, k, v):
        d.pairs = [(a, b) for a, b in d.pairs if self.eq(a, k) != TRUE] + [(k, v)] \
            if not any(self.eq(a, k) == TRUE for a, b in d.pairs) else \
            [(a, v if self.eq(a, k) == TRUE else b) for a, b in d.pairs]

    def dict_update(self, d, o):
        if isinstance(o, HDict):
            for k, v in o.pairs:
                self.dict_put(d, k, v)
            d.opaque = d.opaque + list(o.opaque)
            return
        if isinstance(o, (HList, Tup, Lazy)):
            segs = self.to_segs(o)
            if all(s[0] == 'e' and isinstance(s[1], Tup) and len(s[1].items) == 2 for s in segs):
                for s in segs:
                    self.dict_put(d, *s[1].items)
                return
        d.opaque = d.opaque + [fz(o)]

    # ------------------------------------------------------------ operators
    def e_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            return self.neg(self.truthy_obj(self.ev_cond(e.operand, fr)))
        v = self.subst(self.ev(e.operand, fr))
        if isinstance(v, C) and isinstance(v.v, (int, float)):
            return C(-v.v if isinstance(e.op, ast.USub) else (~v.v if isinstance(e.op, ast.Invert) else v.v))
        if isinstance(e.op, ast.USub):
            r = lin_mul(v, -1) if isinstance(v, T) else None
            if r is not None:
                return r
        return T('un', type(e.op).__name__, fz(v))

    def truthy_obj(self, v):
        """Truth of a value, calling __bool__/__len__ of repo classes."""
        if isinstance(v, HObj):
            for m in ('__bool__', '__len__'):
                if self.cls_lookup(v.cls, m) is not None:
                    return self.truthy(self.call_method(v, m, [], {}, self.node))
        return self.truthy(v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truthy_obj(v)
            if self.decide(t, ast.unparse(x)[:80]) != isand:
                if isinstance(v, T) and v.op in ('not', 'eq', 'lt', 'ltx', 'isnone', 'in', 'isinstance'):
                    return C(not isand)
                return v
        return v

    def e_IfExp(self, e, fr):
        if self.decide(self.truthy_obj(self.ev_cond(e.test, fr)), ast.unparse(e.test)[:80]):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while f.kind == 'comp' and f.closure is not None:
            f = f.closure
        self.store_name(e.target.id, v, f)
        return v

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        n = len(e.ops)
        r = TRUE
        for i, (op, rhs) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(rhs, fr)
            r = self.compare(op, left, right, e)
            if i < n - 1:
                if not self.decide(r, ast.unparse(e)[:80]):
                    return FALSE
            left = right
        return r

    def compare(self, op, a, b, node):
        k = type(op).__name__
        if k == 'Eq' or k == 'NotEq':
            r = self.equals(a, b, node)
            return r if k == 'Eq' else self.neg(self.truthy(r))
        if k in ('Is', 'IsNot'):
            r = self.is_(a, b)
            return r if k == 'Is' else self.neg(r)
        if k in ('In', 'NotIn'):
            r = self.contains_(b, a, node)
            return r if k == 'In' else self.neg(self.truthy(r))
        if isinstance(a, HObj):
            nm = {'Lt': '__lt__', 'Gt': '__gt__', 'LtE': '__le__', 'GtE': '__ge__'}[k]
            if self.cls_lookup(a.cls, nm) is not None:
                return self.call_method(a, nm, [b], {}, node)
        if isinstance(a, (HSet, Tup, HList)) or isinstance(b, (HSet, Tup, HList)):
            if isinstance(a, HSet) and isinstance(b, HSet):
                return T('cmp', k, fz(a), fz(b))
            x, y = self.pyval(a), self.pyval(b)
            if x is not None and y is not None:
                try:
                    return C({'Lt': x < y, 'Gt': x > y, 'LtE': x <= y, 'GtE': x >= y}[k])
                except TypeError:
                    raise PyExc('TypeError', (), None, node)
            return T('cmp', k, fz(a), fz(b))
        if k == 'Lt':
            return self.lt(a, b)
        if k == 'Gt':
            return self.lt(b, a)
        if k == 'LtE':
            return self.neg(self.truthy(self.lt(b, a)))
        return self.neg(self.truthy(self.lt(a, b)))

    def pyval(self, v):
        """A Python value if fully constant, else None."""
        if isinstance(v, C):
            return v.v
        if isinstance(v, T):
            c = self.known_const(v)
            return c.v if isinstance(c, C) else None
        if isinstance(v, Tup):
            xs = [self.pyval(x) for x in v.items]
            return None if any(x is None for x in xs) else tuple(xs)
        if isinstance(v, HList):
            es = v.elems()
            if es is None:
                return None
            xs = [self.pyval(x) for x in es]
            return None if any(x is None for x in xs) else xs
        return None

    def equals(self, a, b, node):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, HObj):
                if self.cls_lookup(x.cls, '__eq__') is not None:
                    return self.call_method(x, '__eq__', [y], {}, node)
                if 'dataclass' in getattr(x.cls, 'decos', ()) or self.is_namedtuple(x.cls):
                    if not isinstance(y, HObj) or y.cls is not x.cls:
                        return FALSE if not isinstance(y, T) else T('eq', fz(x), fz(y))
                    for f in x.fields:
                        if not self.decide(self.equals(x.fields[f], y.fields.get(f, NONE), node)):
                            return FALSE
                    return TRUE
                return C(a is b) if not isinstance(y, T) else T('eq', fz(x), fz(y))
        if isinstance(a, (Lazy, XObj, HFile, Fn, Cls, Mod)) or isinstance(b, (Lazy, XObj, HFile, Fn, Cls, Mod)):
            if isinstance(a, XObj) and isinstance(b, XObj) and a.name == b.name == 'pathlib.Path':
                return self.eq(a.fields['p'], b.fields['p'])
            if isinstance(a, (Cls, Ext)) and isinstance(b, (Cls, Ext)):
                return C(a is b or isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name)
            if a is b:
                return TRUE
            fa, fb = fz(a), fz(b)
            if isinstance(a, Fn) and isinstance(b, Fn):
                return C(a.node is b.node)
            if isinstance(fa, T) and isinstance(fb, T) and fa == fb:
                return TRUE
            if isinstance(a, C) or isinstance(b, C):
                return FALSE
            return T('eq', fa, fb)
        if isinstance(a, (Tup, HList)) and type(a) is type(b):
            x = a.items if isinstance(a, Tup) else a.elems()
            y = b.items if isinstance(b, Tup) else b.elems()
            if x is not None and y is not None:
                if len(x) != len(y):
                    return FALSE
                rs = []
                for p, q in zip(x, y):
                    r = self.truthy(self.equals(p, q, node))
                    if r == FALSE:
                        return FALSE
                    rs.append(r)
                rs = [r for r in rs if r != TRUE]
                if not rs:
                    return TRUE
                if len(rs) == 1:
                    return rs[0]
                return T('and', *rs)
        return self.eq(a, b)

    def is_(self, a, b):
        if isinstance(b, C) and b.v is None:
            return self.isnone(a)
        if isinstance(a, C) and a.v is None:
            return self.isnone(b)
        if isinstance(a, (C, T, EnumMember, Ext)) and isinstance(b, (C, T, EnumMember, Ext)):
            if isinstance(a, C) and isinstance(b, C):
                return C(type(a.v) is type(b.v) and a.v == b.v)
            return self.eq(a, b)
        if isinstance(a, T) or isinstance(b, T):
            fa, fb = fz(a), fz(b)
            return TRUE if fa == fb else T('is', fa, fb)
        return C(a is b)

    def contains_(self, coll, x, node):
        if isinstance(coll, T):
            c = self.known_const(coll)
            if c is not None:
                coll = c
        x = self.subst(x) if isinstance(x, T) else x
        tc = toktype(coll)
        if tc is not None:
            tx = toktype(x)
            if tx is not None:
                return C(tx[:len(tc)] == tc)
            if isinstance(x, C):
                return FALSE
        if isinstance(coll, C):
            if isinstance(x, C):
                try:
                    return C(x.v in coll.v)
                except TypeError:
                    raise PyExc('TypeError', (), None, node)
            if isinstance(coll.v, str) and isinstance(x, T) and x.op == 'elem' and isinstance(x.args[0], C):
                pass
            return T('in', fz(x), coll)
        if isinstance(coll, XObj) and coll.name == 'ntuple':
            coll = Tup(coll.args)
        if isinstance(coll, XObj) and coll.name == 'globals':
            n = self.pyval(x)
            mod = coll.fields['mod']
            if isinstance(n, str):
                g = self.gframe(mod)
                return C(n in g.d or n in self.prog.mods[mod.name].bind)
        if isinstance(coll, Lazy):
            coll = self.alloc(HList(self.to_segs(coll)))
        if isinstance(coll, Cls) and self.is_enum(coll):
            coll = Tup(self.enum_members(coll))
        if isinstance(coll, HDict):
            keys = [k for k, _ in coll.pairs]
            opaque = bool(coll.opaque)
        elif isinstance(coll, Tup):
            keys, opaque = list(coll.items), False
        elif isinstance(coll, (HList, HSet)):
            keys = [s[1] for s in coll.segs if s[0] == 'e']
            opaque = any(s[0] != 'e' for s in coll.segs)
        elif isinstance(coll, HObj):
            if self.cls_lookup(coll.cls, '__contains__') is not None:
                return self.call_method(coll, '__contains__', [x], {}, node)
            segs = self.to_segs(coll)
            keys = [s[1] for s in segs if s[0] == 'e']
            opaque = any(s[0] != 'e' for s in segs)
        elif isinstance(coll, T) and coll.op in ('tup', 'list', 'set') and \
                not any(isinstance(a, T) and a.op in ('spread', 'rep', 'prev') for a in coll.args):
            keys, opaque = list(coll.args), False
        else:
            fc, fx = fz(coll), fz(x)
            if isinstance(fc, T) and fc.op == 'cat' and isinstance(fx, C) and isinstance(fx.v, (str, bytes)):
                for p in fc.args:
                    if isinstance(p, C) and type(p.v) is type(fx.v) and fx.v in p.v:
                        return TRUE
            if isinstance(fc, T) and fc.op == 'cat' and any(p == fx for p in fc.args):
                return TRUE
            return T('in', fx, fc)
        rs = [self.truthy(self.equals(k, x, node)) for k in keys]
        if any(r == TRUE for r in rs):
            return TRUE
        unk = [(k, r) for k, r in zip(keys, rs) if r != FALSE]
        if not unk:
            if not opaque:
                return FALSE
            return T('in', fz(x), fz(coll))
        if not opaque and isinstance(x, T) and all(isinstance(k, C) for k, _ in unk):
            if len(unk) == 1:
                return unk[0][1]
            return T('in', x, T('list', *[k for k, _ in unk]))
        if not opaque:
            if len(unk) == 1:
                return unk[0][1]
            return T('or', *[r for _, r in unk])
        return T('in', fz(x), fz(coll))

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, node):
        a0, b0 = a, b
        a = self.subst(a) if isinstance(a, T) else a
        b = self.subst(b) if isinstance(b, T) else b
        k = _BIN[type(op)]
        for x, y, nm in ((a, b, '__%s__' % k), (b, a, '__r%s__' % k)):
            if isinstance(x, HObj) and self.cls_lookup(x.cls, nm) is not None:
                return self.call_method(x, nm, [y], {}, node)
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            a = a.value if isinstance(a, EnumMember) and isinstance(a.value, C) else a
            b = b.value if isinstance(b, EnumMember) and isinstance(b.value, C) else b
        if isinstance(a, C) and isinstance(b, C):
            try:
                r = {'add': lambda: a.v + b.v, 'sub': lambda: a.v - b.v, 'mul': lambda: a.v * b.v,
                     'truediv': lambda: a.v / b.v, 'floordiv': lambda: a.v // b.v, 'mod': lambda: a.v % b.v,
                     'pow': lambda: a.v ** b.v, 'or': lambda: a.v | b.v, 'and': lambda: a.v & b.v,
                     'xor': lambda: a.v ^ b.v, 'lshift': lambda: a.v << b.v, 'rshift': lambda: a.v >> b.v}[k]()
                return C(r)
            except ZeroDivisionError:
                raise PyExc('ZeroDivisionError', (), None, node)
            except (TypeError, ValueError, KeyError):
                raise PyExc('TypeError', (), None, node)
        if isinstance(a, XObj) and a.name == 'pathlib.Path' and k == 'truediv':
            return self.mkpath(self.pathjoin(a.fields['p'], self.fspath(b)))
        if k == 'add':
            if isinstance(a, HList) and isinstance(b, (HList, T)) or isinstance(b, HList) and isinstance(a, T):
                return self.alloc(HList(self.to_segs(a) + self.to_segs(b)))
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, Tup) and isinstance(b, HList) or isinstance(a, HList) and isinstance(b, Tup):
                raise PyExc('TypeError', (), None, node)
            ta, tb = ty(a), ty(b)
            if ta in ('str', 'bytes') and (tb == ta or tb is None) or tb in ('str', 'bytes') and ta is None:
                return cat(a if isinstance(a, (C, T)) else fz(a), b if isinstance(b, (C, T)) else fz(b))
            if {ta, tb} == {'str', 'bytes'} or {ta, tb} == {'str', 'int'}:
                raise PyExc('TypeError', (), None, node)
            if isinstance(a, T) and a.op == 'list' or isinstance(b, T) and b.op == 'list' or ta == 'list' and tb == 'list':
                return self.alloc(HList(self.to_segs(a) + self.to_segs(b)))
            if isinstance(a, (C, T)) and isinstance(b, (C, T)) and 'float' not in (ta, tb):
                r = lin_add(a, b)
                if r is not None:
                    return r
        if k == 'sub':
            if isinstance(a, (C, T)) and isinstance(b, (C, T)) and 'float' not in (ty(a), ty(b)) and ty(a) != 'set':
                r = lin_add(a, b, -1)
                if r is not None:
                    return r
            if isinstance(a, HSet):
                return self.set_op('difference', a, [b], node)
        if k == 'mul':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, C) and isinstance(x.v, int) and not isinstance(x.v, bool) and isinstance(y, T):
                    if ty(y) in ('str', 'bytes'):
                        return T('strmul', y, x) if x.v != 1 else y
                    r = lin_mul(y, x.v) if ty(y) in ('int', None) else None
                    if r is not None:
                        return r
                if isinstance(x, C) and isinstance(x.v, (str, bytes)):
                    return T('strmul', x, fz(y))
                if isinstance(x, HList):
                    n = self.pyval(y)
                    if isinstance(n, int):
                        return self.alloc(HList(list(x.segs) * n))
                    return self.alloc(HList([('s', T('repeat', fz(x), fz(y)))]))
                if isinstance(x, Tup) and isinstance(self.pyval(y), int):
                    return Tup(x.items * self.pyval(y))
        if k == 'mod' and ty(a) in ('str', 'bytes') and isinstance(a, C):
            return self.percent(a, b, node)
        if k in ('or', 'and', 'xor') and (isinstance(a, HSet) or isinstance(b, HSet)):
            return self.set_op({'or': 'union', 'and': 'intersection', 'xor': 'symmetric_difference'}[k], a, [b], node)
        if k == 'or' and isinstance(a, HDict):
            d = self.alloc(HDict(a.pairs, a.opaque))
            self.dict_update(d, b)
            return d
        if isinstance(a, XObj) or isinstance(b, XObj):
            return self.xobj_binop(k, a, b, node)
        if k == 'truediv' or k == 'floordiv' or k == 'mod':
            if isinstance(b, C) and b.v == 0:
                raise PyExc('ZeroDivisionError', (), None, node)
            if isinstance(b, T):
                self.emit('div', by=b)
                self.maybe_raise('ZeroDivisionError', node)
        return T('bin', k, fz(a), fz(b))

    def xobj_binop(self, k, a, b, node):
        self.emit('xbin', op=k, a=a, b=b)
        return T('bin', k, fz(a), fz(b))

    def percent(self, a, b, node):
        vals = list(b.items) if isinstance(b, Tup) else [b]
        if isinstance(a.v, bytes):
            return T('bin', 'mod', a, fz(b))
        out, i, s = [], 0, a.v
        while s:
            j = s.find('%')
            if j < 0:
                out.append(C(s))
                break
            out.append(C(s[:j]))
            c = s[j + 1:j + 2]
            if c == '%':
                out.append(C('%'))
            elif c in 'sd' and c and i < len(vals):
                out.append(self.to_str(vals[i]))
                i += 1
            else:
                return T('bin', 'mod', a, fz(b))
            s = s[j + 2:]
        return cat(*out) if out else C('')

    # ------------------------------------------------------------ strings
    def to_str(self, v):
        v = self.subst(v) if isinstance(v, T) else v
        if isinstance(v, C):
            return v if isinstance(v.v, str) else C(str(v.v))
        if isinstance(v, T):
            return v if ty(v) == 'str' else T('str', v)
        if isinstance(v, EnumMember):
            for m in ('__str__',):
                if self.cls_lookup(v.cls, m) is not None:
                    return self.call_bound(v.cls, v, m, [], {}, self.node)
            if any(getattr(x, 'name', None) == 'builtins.str' for x in (v.cls.bases or [])) and False:
                return v.value
            return C(f'{v.cls.name}.{v.name}')
        tt = toktype(v)
        if tt is not None:
            return C('.'.join(('Token',) + tt))
        if isinstance(v, HObj):
            for m in ('__str__', '__repr__'):
                if self.cls_lookup(v.cls, m) is not None:
                    return self.call_method(v, m, [], {}, self.node)
        if isinstance(v, XObj) and v.name == 'pathlib.Path':
            return v.fields['p']
        if isinstance(v, (HList, Tup)):
            p = self.pyval(v)
            if p is not None:
                return C(str(p))
        return T('str', fz(v))

    def to_repr(self, v):
        v = self.subst(v) if isinstance(v, T) else v
        if isinstance(v, C):
            return C(repr(v.v))
        if isinstance(v, HObj) and self.cls_lookup(v.cls, '__repr__') is not None:
            return self.call_method(v, '__repr__', [], {}, self.node)
        p = self.pyval(v) if isinstance(v, (HList, Tup)) else None
        if p is not None:
            return C(repr(p))
        return T('repr', fz(v))

    def e_JoinedStr(self, e, fr):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(C(p.value))
            else:
                v = self.ev(p.value, fr)
                if p.conversion == ord('r'):
                    v = self.to_repr(v)
                if p.format_spec is not None:
                    spec = self.ev(p.format_spec, fr)
                    v = self.subst(v) if isinstance(v, T) else v
                    if isinstance(v, C) and isinstance(spec, C):
                        try:
                            out.append(C(format(v.v, spec.v)))
                            continue
                        except (ValueError, TypeError):
                            raise PyExc('ValueError', (), None, e)
                    out.append(T('fmt', fz(v), fz(spec)))
                else:
                    out.append(self.to_str(v))
        return cat(*out) if out else C('')

    def e_FormattedValue(self, e, fr):
        return self.to_str(self.ev(e.value, fr))

    # ------------------------------------------------------------ functions, comprehensions
    def e_Lambda(self, e, fr):
        fn = Fn(e, fr.mod, fr if fr.kind != 'module' else None, None)
        fn.home = fr
        return fn

    def comp_frame(self, fr):
        f = Frame(fr.mod, fr.name, fr.qual, fr, fr.cls, None, 'comp')
        f.fn = fr.fn
        f.yield_cb = fr.yield_cb
        return self.alloc(f)

    def comp(self, gens, i, fr, emit_cb, first=None):
        if i == len(gens):
            emit_cb()
            return
        g = gens[i]
        it = first if i == 0 and first is not None else self.ev(g.iter, fr)

        def body(v):
            self.assign(g.target, v, fr)
            for c in g.ifs:
                if not self.decide(self.truthy_obj(self.ev_cond(c, fr)), ast.unparse(c)[:80]):
                    return NONE
            self.comp(gens, i + 1, fr, emit_cb)
            return NONE
        self.iterate(it, body, g.iter)

    def e_ListComp(self, e, fr):
        f = self.comp_frame(fr)
        first = self.ev(e.generators[0].iter, fr)
        l = self.alloc(HList())

        def put():
            v = self.ev(e.elt, f)
            self.touch((l.serial, 'segs'), l.serial)
            l.segs = l.segs + [('e', v)]
        self.comp(e.generators, 0, f, put, first)
        return l

    def e_SetComp(self, e, fr):
        f = self.comp_frame(fr)
        first = self.ev(e.generators[0].iter, fr)
        l = self.alloc(HSet())

        def put():
            v = self.ev(e.elt, f)
            self.touch((l.serial, 'segs'), l.serial)
            l.segs = l.segs + [('e', v)]
        self.comp(e.generators, 0, f, put, first)
        return l

    def e_DictComp(self, e, fr):
        f = self.comp_frame(fr)
        first = self.ev(e.generators[0].iter, fr)
        d = self.alloc(HDict())

        def put():
            k = self.ev(e.key, f)
            v = self.ev(e.value, f)
            self.touch((d.serial, 'pairs'), d.serial)
            self.dict_put(d, k, v)
        self.comp(e.generators, 0, f, put, first)
        return d

    def e_GeneratorExp(self, e, fr):
        first = self.ev(e.generators[0].iter, fr)

        def it(run, cb, node):
            f = run.comp_frame(fr)
            run.through(lambda w: run.comp(e.generators, 0, f, lambda: w(run.ev(e.elt, f)), first), cb)
        return self.alloc(Lazy('genexp', it))

    def through(self, go, cb):
        cb2 = cb
        go(cb2)

    def e_Starred(self, e, fr):
        return self.ev(e.value, fr)

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else NONE
        return self.do_yield(v, fr)

    def e_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        self.iterate(v, lambda x: self.do_yield(x, fr), e)
        return NONE

    def do_yield(self, v, fr):
        if fr.yield_cb is None:
            self.note('yield outside of a generator run')
            return NONE
        r = fr.yield_cb(v)
        return r if r is not None else NONE

    def e_Await(self, e, fr):
        return self.ev(e.value, fr)

    # ------------------------------------------------------------ attributes, items, calls
    def e_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getattr(o, e.attr, e)

    def e_Slice(self, e, fr):
        return T('sl', *[fz(self.ev(x, fr)) if x is not None else NONE for x in (e.lower, e.upper, e.step)])

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.ev_index(e.slice, fr)
        return self.getitem(o, k, e)

    def e_Call(self, e, fr):
        f = e.func
        if isinstance(f, ast.Name) and f.id in ('globals', 'locals', 'super') and \
                self.lookup(f.id, fr) == Ext('builtins.' + f.id):
            if f.id == 'globals':
                x = self.alloc(XObj('globals'))
                x.fields['mod'] = fr.mod
                return x
            if f.id == 'super':
                ff = fr
                while ff.kind == 'comp':
                    ff = ff.closure
                args = [self.ev(a, fr) for a in e.args]
                if args:
                    cls, obj = args[0], args[1]
                else:
                    cls = ff.fn.cls if ff.fn is not None else None
                    an = ff.fn.node.args
                    nm = (an.posonlyargs + an.args)[0].arg
                    obj = ff.locals.get(nm)
                x = self.alloc(XObj('super'))
                x.fields.update(cls=cls, obj=obj)
                return x
            return self.alloc(HDict([(C(k), v) for k, v in fr.locals.items() if v is not None]))
        fv = self.ev(f, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                segs = self.to_segs(v)
                if all(s[0] == 'e' for s in segs):
                    args.extend(s[1] for s in segs)
                else:
                    args.append(StarArg(v))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, HDict):
                    for kk, vv in v.pairs:
                        if isinstance(kk, C):
                            kw[kk.v] = vv
                    if v.opaque:
                        kw['**'] = v
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        self.node = e
        r = self.call(fv, args, kw, e)
        self.node = e
        return r
