"""Statements and iteration."""
import ast
from .ir import *
from .core import *
from .program import FnInfo, Cls, Mod, assigned_in, target_names


class Stmts:
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.opts.max_steps:
            raise Limit('steps')
        self.node = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.note('unsupported statement', type(s).__name__)
            return
        m(s, fr)

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Return(self, s, fr):
        raise Return_(self.ev(s.value, fr) if s.value is not None else NONE)

    def s_Break(self, s, fr):
        raise Break_()

    def s_Continue(self, s, fr):
        raise Continue_()

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            v = self.ev(s.value, fr)
            self.hint(v, s.annotation, fr)
            self.assign(s.target, v, fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.inplace(s.op, cur, self.ev(s.value, fr), s)
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr, t)
            v = self.inplace(s.op, cur, self.ev(s.value, fr), s)
            self.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            cur = self.getitem(o, k, t)
            v = self.inplace(s.op, cur, self.ev(s.value, fr), s)
            self.setitem(o, k, v, t)

    def inplace(self, op, cur, v, node):
        if isinstance(cur, HList) and isinstance(op, ast.Add):
            self.mutate(cur, 'segs', node, 'extend', v)
            cur.segs = cur.segs + self.to_segs(v)
            return cur
        if isinstance(cur, HSet) and isinstance(op, ast.BitOr):
            self.mutate(cur, 'segs', node, 'update', v)
            cur.segs = cur.segs + self.to_segs(v)
            return cur
        return self.binop(op, cur, v, node)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.touch((fr.serial, t.id), fr.serial)
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev_index(t.slice, fr)
                self.delitem(o, k, t)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, HObj):
                    self.mutate(o, t.attr, t, 'del')
                    o.fields.pop(t.attr, None)

    def s_If(self, s, fr):
        if self.decide(self.ev_cond(s.test, fr), ast.unparse(s.test)[:80]):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        t = self.truthy(self.ev_cond(s.test, fr))
        if isinstance(t, T):
            try:
                d = self.bools.get(t)
                if d is None:
                    self.assume(t, True)
                    return
                t = C(d)
            except Infeasible:
                t = FALSE
        if not t.v:
            self.emit('assertfail', text=ast.unparse(s.test))
            raise PyExc('AssertionError', (), None, s)

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = self.cur_exc[-1] if self.cur_exc else None
            if cur is not None:
                raise cur
            raise PyExc('RuntimeError', (), None, s)
        v = self.ev(s.exc, fr)
        raise self.to_exc(v, s)

    def to_exc(self, v, node):
        if isinstance(v, Ext):
            return PyExc(v.name.split('.')[-1], (), None, node)
        if isinstance(v, Cls):
            return PyExc(v, (), self.instantiate(v, [], {}, node), node)
        if isinstance(v, HObj):
            return PyExc(v.cls, (), v, node)
        if isinstance(v, XObj):
            return PyExc(v.name.split('.')[-1], v.args, v, node)
        return PyExc('Exception?', (v,), None, node)

    # ------------------------------------------------------------ definitions
    def s_FunctionDef(self, s, fr):
        fn = Fn(s, fr.mod, fr if fr.kind != 'module' else None, fr.cls if fr.kind == 'class' else None)
        fn.home = fr
        v = fn
        for d in reversed(s.decorator_list):
            v = self.decorate(v, d, fr, fn)
        self.store_name(s.name, v, fr)

    def decorate(self, v, d, fr, fn):
        txt = ast.unparse(d)
        base = txt.split('(')[0]
        last = base.split('.')[-1]
        if last in ('staticmethod', 'classmethod', 'property', 'contextmanager'):
            if isinstance(v, Fn):
                v.kind = {'staticmethod': 'static', 'classmethod': 'class', 'property': 'property',
                          'contextmanager': 'ctx'}[last]
            return v
        if last == 'cached_property':
            v.kind = 'property'
            return v
        if last in ('lru_cache', 'cache'):
            v.flags.add('cached')
            return v
        if last == 'setter' and isinstance(v, Fn):
            cur = fr.locals.get(v.name)
            if cur is None and fr.kind == 'class':
                cur = self.cls_raw(fr.cls, v.name)
            if isinstance(cur, Fn):
                cur.setter = v
                return cur
            return v
        if last in ('wraps', 'abstractmethod', 'unique', 'overload', 'total_ordering', 'final', 'dataclass'):
            return v
        try:
            dv = self.ev(d, fr)
        except PyExc:
            return v
        if isinstance(dv, (Fn, Bound, Cls, Partial)):
            return self.call(dv, [v], {}, d)
        v.flags.add('deco:' + txt)
        return v

    def s_ClassDef(self, s, fr):
        key = (id(s), fr.serial if fr.kind == 'fn' else 0)
        c = self.prog.clsobjs.get(key) if fr.kind != 'fn' else None
        if c is None:
            c = Cls(s, fr.mod, fr if fr.kind == 'fn' else None, fr.cls if fr.kind == 'class' else None)
            if fr.kind != 'fn':
                self.prog.clsobjs[key] = c
        if c.bases is None:
            c.bases = [self.ev(b, fr) for b in s.bases]
            c.decos = [ast.unparse(d).split('(')[0].split('.')[-1] for d in s.decorator_list]
        self.store_name(s.name, c, fr)

    def s_Import(self, s, fr):
        for a in s.names:
            full = a.name if a.asname else a.name.split('.')[0]
            self.store_name(a.asname or a.name.split('.')[0], self.module(full), fr)

    def module(self, full):
        if full in self.prog.modobjs:
            return self.prog.modobjs[full]
        return Ext(full)

    def s_ImportFrom(self, s, fr):
        base = s.module or ''
        if s.level:
            pk = fr.mod.name.split('.')
            if not self.prog.mods[fr.mod.name].is_pkg:
                pk = pk[:-1]
            pk = pk[:len(pk) - (s.level - 1)]
            base = '.'.join(pk + ([s.module] if s.module else []))
        for a in s.names:
            self.store_name(a.asname or a.name, self.import_from(base, a.name), fr)

    def import_from(self, base, name):
        sub = base + '.' + name
        if base in self.prog.modobjs:
            m = self.prog.modobjs[base]
            if name in self.prog.mods[base].bind:
                return self.global_get(m, name)
            if sub in self.prog.modobjs:
                return self.prog.modobjs[sub]
            return self.global_get(m, name)
        if sub in self.prog.modobjs:
            return self.prog.modobjs[sub]
        return Ext(sub)

    # ------------------------------------------------------------ try / with
    def s_Try(self, s, fr):
        names = []
        hs = []
        for h in s.handlers:
            if h.type is None:
                cl = [Ext('builtins.BaseException')]
            else:
                v = self.ev(h.type, fr)
                cl = list(v.items) if isinstance(v, Tup) else (v.elems() if isinstance(v, HList) else [v])
            hs.append((cl, h))
            names.extend(cl)
        self.handlers.append(names)
        depth = len(self.handlers)
        pend = None
        try:
            try:
                self.block(s.body, fr)
            except PyExc as e:
                del self.handlers[depth - 1:]
                self.handle(e, hs, s, fr)
            except Ctl:
                del self.handlers[depth - 1:]
                raise
            else:
                del self.handlers[depth - 1:]
                self.block(s.orelse, fr)
        except Ctl as e:
            pend = e
        if s.finalbody:
            self.block(s.finalbody, fr)
        if pend is not None:
            raise pend

    def handle(self, e, hs, s, fr):
        for cl, h in hs:
            for c in cl:
                m = self.exc_match(e, c)
                if m is None:
                    m = self.choose(2, 'exception matches') == 0
                if m:
                    if h.name:
                        v = e.obj
                        if v is None:
                            v = self.alloc(XObj('exc.' + e.name(), e.args_))
                            e.obj = v
                        self.store_name(h.name, v, fr)
                    self.emit('caught', exc=e.name(), handler=ast.unparse(h.type) if h.type else '')
                    self.cur_exc.append(e)
                    try:
                        self.block(h.body, fr)
                    finally:
                        self.cur_exc.pop()
                    return
        raise e

    def s_With(self, s, fr):
        self.with_items(s.items, 0, s.body, fr, s)

    def with_items(self, items, i, body, fr, s):
        if i == len(items):
            self.block(body, fr)
            return
        it = items[i]
        v = self.ev(it.context_expr, fr)

        def inner(val):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, fr)
            self.with_items(items, i + 1, body, fr, s)
        self.with_value(v, inner, s)

    def with_value(self, v, inner, node):
        if isinstance(v, XObj) and v.name == 'ctx':
            # generator based context manager
            pend = []
            ran = []

            def cb(val):
                if ran:
                    return NONE
                ran.append(1)
                try:
                    inner(val)
                except (Return_, Break_, Continue_, GenClose) as e:
                    pend.append(e)
                return NONE
            self.run_gen(v.fields['frame'], cb)
            if pend:
                raise pend[0]
            return
        if isinstance(v, HFile):
            try:
                inner(v)
            except Ctl:
                self.close_file(v, node, exc=True)
                raise
            self.close_file(v, node)
            return
        if isinstance(v, XObj) and v.name in ('multiprocessing.Lock', 'multiprocessing.RLock', 'threading.Lock',
                                              'threading.RLock', 'multiprocessing.Semaphore'):
            self.lock_acquire(v)
            try:
                inner(v)
            except Ctl:
                self.lock_release(v)
                raise
            self.lock_release(v)
            return
        if isinstance(v, XObj) and v.name == 'closing':
            try:
                inner(v.args[0])
            except Ctl:
                self.call_method(v.args[0], 'close', [], {}, node)
                raise
            self.call_method(v.args[0], 'close', [], {}, node)
            return
        if isinstance(v, XObj) and v.name == 'suppress':
            self.handlers.append(list(v.args))
            depth = len(self.handlers)
            try:
                inner(NONE)
                del self.handlers[depth - 1:]
            except PyExc as e:
                del self.handlers[depth - 1:]
                if any(self.exc_match(e, c) for c in v.args):
                    self.emit('caught', exc=e.name(), handler='suppress')
                    return
                raise
            except Ctl:
                del self.handlers[depth - 1:]
                raise
            return
        if isinstance(v, XObj) and v.name == 'exitstack':
            stack = v.fields.setdefault('stack', [])

            def unwind(exc):
                while stack:
                    f = stack.pop()
                    f(exc)
            try:
                inner(v)
            except Ctl:
                unwind(True)
                raise
            unwind(False)
            return
        if isinstance(v, HObj) and self.cls_lookup(v.cls, '__enter__') is not None:
            val = self.call_method(v, '__enter__', [], {}, node)
            try:
                inner(val)
            except PyExc as e:
                r = self.call_method(v, '__exit__', [Ext('builtins.' + e.name()), e.obj or NONE, NONE], {}, node)
                if self.decide(r):
                    return
                raise
            except Ctl:
                self.call_method(v, '__exit__', [NONE, NONE, NONE], {}, node)
                raise
            self.call_method(v, '__exit__', [NONE, NONE, NONE], {}, node)
            return
        if isinstance(v, XObj):
            self.emit('enter', obj=v, name=v.name)
            val = v
            if v.name == 'tempfile.TemporaryDirectory':
                val = v.fields.get('path', v)
            try:
                inner(val)
            except Ctl:
                self.emit('exit', obj=v, name=v.name, exc=True)
                raise
            if v.name == 'pool':
                v.fields['closed'] = True
                if v.fields.get('futures'):
                    self.pool_method(v, 'join', [], {}, node)
                else:
                    self.pool_abandon(v)
            self.emit('exit', obj=v, name=v.name, exc=False)
            return
        t = v if isinstance(v, T) else fz(v)
        self.emit('enter', obj=t, name=repr(t))
        try:
            inner(T('enter', t) if isinstance(t, T) else v)
        except Ctl:
            self.emit('exit', obj=t, name=repr(t), exc=True)
            raise
        self.emit('exit', obj=t, name=repr(t), exc=False)

    def lock_acquire(self, v):
        self.locks.append(v)
        self.emit('lock', obj=v)

    def lock_release(self, v):
        if v in self.locks:
            self.locks.remove(v)
        self.emit('unlock', obj=v)

    # ------------------------------------------------------------ loops
    def preseed(self, node, fr):
        names = set(assigned_in(node.body))
        if isinstance(node, ast.For):
            names |= set(target_names(node.target))
        self.seed = [(fr.serial, n) for n in names if fr.info is None or n in fr.info.locals]

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        broke = False

        def body(v):
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except Continue_:
                pass
        token = object()

        def guarded(v):
            try:
                body(v)
            except Break_:
                raise GenClose(token)
        try:
            self.iterate(it, guarded, s)
        except GenClose as g:
            if g.token is not token:
                raise
            broke = True
            self.emit('break')
        if not broke:
            self.block(s.orelse, fr)

    def s_While(self, s, fr):
        n = 0
        while True:
            t = self.truthy(self.ev_cond(s.test, fr))
            if isinstance(s.test, ast.Constant) and n >= self.opts.unroll_forever:
                break
            if not isinstance(t, C) or n >= self.opts.unroll:
                break
            if not t.v:
                self.block(s.orelse, fr)
                return
            n += 1
            try:
                self.block(s.body, fr)
            except Continue_:
                pass
            except Break_:
                return
        key = self.loop_key(s)
        if not isinstance(s.test, ast.Constant):
            # zero further iterations
            if not self.decide(t, 'while ' + ast.unparse(s.test)[:60]):
                self.emit('loop0', key=key, desc=T('while', ast.unparse(s.test)))
                self.block(s.orelse, fr)
                return
        rec = self.enter_loop(key, T('while', key), s)
        broke = ok = False
        try:
            self.emit('loop', key=key, desc=rec.desc)
            if not isinstance(s.test, ast.Constant):
                t = self.ev_cond(s.test, fr)
                if not self.decide(t, 'while again'):
                    raise Infeasible()
            try:
                self.block(s.body, fr)
            except Continue_:
                pass
            except Break_:
                broke = True
                self.emit('break')
            ok = True
        finally:
            if rec in self.loops:
                self.loops.remove(rec)
        if broke:
            return
        if isinstance(s.test, ast.Constant):
            raise EndPath('again')
        t = self.ev_cond(s.test, fr)
        tr = self.truthy(t)
        if isinstance(tr, C) and tr.v:
            raise EndPath('again')
        # last iteration: the condition is false afterwards
        saved = None
        try:
            if self.decide(t, 'while ends'):
                raise EndPath('again')
        except Infeasible:
            raise
        self.leave_loop(rec)
        self.emit('loopend', key=key, desc=rec.desc)
        self.block(s.orelse, fr)

    def iterate(self, v, cb, node=None):
        """Calls cb for the elements of v; abstract parts are covered by one representative element."""
        if isinstance(v, (HList, HSet)):
            i = 0
            while i < len(v.segs):
                s = v.segs[i]
                i += 1
                if s[0] == 'e':
                    cb(s[1])
                else:
                    self.iter_seg(s, cb, node)
            return
        if isinstance(v, Tup):
            for x in v.items:
                cb(x)
            return
        if isinstance(v, HDict):
            return self.dict_iter(v, lambda k, _: k, cb, node)
        if isinstance(v, C):
            if isinstance(v.v, str):
                for ch in v.v:
                    cb(C(ch))
                return
            if isinstance(v.v, bytes):
                for ch in v.v:
                    cb(C(ch))
                return
            raise PyExc('TypeError', (), None, node)
        if isinstance(v, Lazy):
            v.it(self, cb, node)
            return
        if isinstance(v, HFile):
            self.emit('read', eff=True, path=v.path, file=v, how='lines')
            self.read_errors(v)
            if self.opts.read_hook:
                r = self.opts.read_hook(self, v, 'lines')
                if r is not NotImplemented:
                    return self.iterate(r, cb, node)
            d = T('lines', canon(v.path), 'bytes' if 'b' in v.mode else 'str')
            self.absloop(d, lambda rec: self.elem(d, rec), cb, node)
            return
        if isinstance(v, Cls) and self.is_enum(v):
            for m in self.enum_members(v):
                cb(m)
            return
        if isinstance(v, HObj):
            if self.cls_lookup(v.cls, '__iter__') is not None:
                r = self.call_method(v, '__iter__', [], {}, node)
                if r is v:
                    for _ in range(self.opts.unroll_forever):
                        try:
                            x = self.call_method(v, '__next__', [], {}, node)
                        except PyExc as e:
                            if e.name() != 'StopIteration':
                                raise
                            return
                        cb(x)
                    d = T('iterof', fz(v))

                    def el(rec):
                        return self.call_method(v, '__next__', [], {}, node)
                    try:
                        self.absloop(d, el, cb, node)
                    except PyExc as e:
                        if e.name() != 'StopIteration':
                            raise
                    return
                return self.iterate(r, cb, node)
            if 'items' in v.fields and 'tuplefields' in v.fields:
                pass
        if isinstance(v, XObj) and v.name == 'ntuple':
            for x in v.args:
                cb(x)
            return
        if isinstance(v, T):
            c = self.known_const(v)
            if c is not None and isinstance(c, C):
                return self.iterate(c, cb, node)
            if v.op in ('tup', 'list') and all(isinstance(a, (T, C, EnumMember, Ext)) and not (isinstance(a, T) and a.op in ('spread', 'rep', 'prev')) for a in v.args):
                for a in v.args:
                    cb(a)
                return
            if v.op in ('tup', 'list') and any(isinstance(a, T) and a.op in ('spread', 'rep') for a in v.args) and \
                    not any(isinstance(a, T) and a.op == 'prev' for a in v.args):
                for a in v.args:
                    self.iter_part(a, cb, node)
                return
            v = strip_order(v)
            if self.opts.unroll_hook:
                xs = self.opts.unroll_hook(self, v)
                if xs is not None:
                    for x in xs:
                        cb(x)
                    return
            self.absloop(v, lambda rec: self.elem(v, rec), cb, node)
            return
        d = fz(v)
        self.note('iteration over', repr(v))
        d = d if isinstance(d, T) else T('it', d)
        self.absloop(d, lambda rec: self.elem(d, rec), cb, node)

    def iter_seg(self, s, cb, node):
        if s[0] == 's':
            v = s[1]
            if isinstance(v, (T, C)):
                self.iterate(v, cb, node)
            else:
                self.iterate(v, cb, node)
        elif s[0] == 'r':
            d = T('seg', s[1], s[2] if isinstance(s[2], T) else str(s[2]))
            inner = s[3]

            def run_inner(_):
                for x in inner:
                    if x[0] == 'e':
                        cb(x[1])
                    else:
                        self.iter_seg(x, cb, node)
            it = s[2]
            self.absloop(T('niterof', it if isinstance(it, T) else str(it), s[1]), lambda rec: None, run_inner, node)
        else:
            d = T('plist', *[str(a) for a in s[1:]])
            self.absloop(d, lambda rec: self.elem(d, rec), cb, node)

    def elem(self, d, rec=None):
        d = strip_order(d)
        n = sum(1 for l in self.loops if l.saved.get('d') == d and l is not rec)
        e = T('elem', d) if n == 0 else T('elem', d, n)
        if rec is not None:
            rec.saved['d'] = d
            rec.saved['elem'] = e
        k = self.elemclass.get(d)
        if k is not None and e not in self.tclass:
            self.tclass[e] = k
        return e

    def to_segs(self, v):
        """The elements of a value as list segments (without running loop bodies)."""
        if isinstance(v, (HList, HSet)):
            return list(v.segs)
        if isinstance(v, Tup):
            return [('e', x) for x in v.items]
        if isinstance(v, C) and isinstance(v.v, str):
            return [('e', C(ch)) for ch in v.v]
        if isinstance(v, HDict):
            return [('e', k) for k, _ in v.pairs] + [('s', T('keysof', o if isinstance(o, (T, C)) else str(o))) for o in v.opaque]
        if isinstance(v, (Lazy, HFile, HObj)) or isinstance(v, Cls):
            l = self.alloc(HList())

            def cb(x):
                self.touch((l.serial, 'segs'), l.serial)
                l.segs = l.segs + [('e', x)]
                return NONE
            self.iterate(v, cb)
            return list(l.segs)
        if isinstance(v, XObj) and v.name == 'ntuple':
            return [('e', x) for x in v.args]
        if isinstance(v, T):
            if v.op in ('tup', 'list') and not any(isinstance(a, T) and a.op in ('spread', 'rep', 'prev') for a in v.args):
                return [('e', a) for a in v.args]
            xs = self.opts.unroll_hook(self, v) if self.opts.unroll_hook else None
            if xs is not None:
                return [('e', x) for x in xs]
            return [('s', v)]
        return [('s', fz(v))]

    def iter_part(self, a, cb, node):
        if isinstance(a, T) and a.op == 'spread':
            self.iterate(a.args[0], cb, node)
        elif isinstance(a, T) and a.op == 'rep':
            def inner(_):
                for x in a.args[1:]:
                    self.iter_part(x, cb, node)
            self.absloop(T('niterof', a, C('list')), lambda rec: None, inner, node)
        else:
            cb(a)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    def unpack(self, v, elts):
        n = len(elts)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        vals = None
        if isinstance(v, Tup):
            vals = list(v.items)
        elif isinstance(v, (HList, HSet)):
            vals = v.elems() if isinstance(v, HList) else None
        elif isinstance(v, C) and isinstance(v.v, (str,)):
            vals = [C(x) for x in v.v]
        elif isinstance(v, XObj) and v.name == 'ntuple':
            vals = list(v.args)
        elif isinstance(v, (Lazy,)):
            l = HList(self.to_segs(v))
            vals = l.elems()
        elif isinstance(v, T) and v.op in ('tup', 'list'):
            vals = [s[1] for s in self.to_segs(v)] if all(s[0] == 'e' for s in self.to_segs(v)) else None
        if vals is not None and star is not None and len(vals) >= n - 1:
            k = n - 1 - star
            mid = self.new_list(vals[star:len(vals) - k])
            return vals[:star] + [mid] + (vals[len(vals) - k:] if k else [])
        if vals is not None and len(vals) == n:
            return vals
        if vals is not None:
            raise PyExc('ValueError', (), None, self.node)
        src = fz(v)
        if isinstance(v, HObj) and self.cls_lookup(v.cls, '__iter__'):
            vals = HList(self.to_segs(v)).elems()
            if vals is not None and len(vals) == n:
                return vals
        return [T('item', src, i) for i in range(n)]

    def store_name(self, name, v, fr):
        info = fr.info
        if info is not None and name in info.globals:
            g = self.gframe(fr.mod)
            self.touch((g.serial, name), g.serial)
            self.emit('setglobal', mod_=fr.mod.name, name=name, val=v)
            g.d[name] = v
            self.mark_shared(v, f'{fr.mod.name}.{name}')
            return
        if info is not None and name in info.nonlocals or (info is not None and name not in info.locals and fr.kind == 'comp'):
            f = fr.closure
            while f is not None:
                if name in f.locals or f.info is not None and name in f.info.locals:
                    self.touch((f.serial, name), f.serial)
                    f.locals[name] = v
                    return
                f = f.closure
        self.touch((fr.serial, name), fr.serial)
        fr.locals[name] = v

    def mark_shared(self, v, tag, depth=0):
        if depth > 4 or v is None:
            return
        if isinstance(v, Heap):
            if v.shared:
                return
            v.shared = tag
        if isinstance(v, (HList, HSet)):
            for s in v.segs:
                if s[0] == 'e':
                    self.mark_shared(s[1], tag, depth + 1)
        elif isinstance(v, Tup):
            for x in v.items:
                self.mark_shared(x, tag, depth + 1)
        elif isinstance(v, HDict):
            for _, x in v.pairs:
                self.mark_shared(x, tag, depth + 1)
        elif isinstance(v, HObj):
            for x in v.fields.values():
                self.mark_shared(x, tag, depth + 1)
