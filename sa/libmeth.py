"""Methods of built-in and library objects."""
import ast
from .ir import *
from .core import *
from .program import Cls, Mod
from .exprs import StarArg
from .libext import LibExt, total_encoding

setattr(LibExt, 'b_#identity', lambda self, args, kw, node: args[0])
ASSTR = {'split', 'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'startswith', 'endswith', 'encode', 'replace',
         'isupper', 'islower', 'splitlines', 'rsplit', 'partition', 'rpartition', 'isspace', 'isalpha', 'isdigit',
         'capitalize', 'title', 'find', 'rfind', 'format', 'join', 'decode', 'casefold', 'swapcase'}


class LibMeth:
    def call_method(self, recv, name, args, kw, node):
        h = self.opts.mcall_hook
        if h is not None:
            r = h(self, recv, name, args, kw, node)
            if r is not NotImplemented:
                return r
        if isinstance(recv, HObj):
            if name in recv.fields:
                return self.call(recv.fields[name], args, kw, node)
            f = self.cls_lookup(recv.cls, name)
            if f is not None:
                return self.call(self.bind(f, recv, recv.cls, node), args, kw, node)
            return self.ext_base_method(recv, name, args, kw, node)
        if isinstance(recv, T):
            c = self.known_const(recv)
            if c is not None:
                recv = c
            else:
                k = self.tclass.get(recv)
                if k is not None:
                    f = self.cls_lookup(k, name)
                    if f is not None:
                        return self.call(self.bind(f, recv, k, node), args, kw, node)
                return self.term_meth(recv, name, args, kw, node)
        if isinstance(recv, C):
            return self.const_meth(recv, name, args, kw, node)
        for k, pre in ((HList, 'l_'), (HDict, 'd_'), (HSet, 'set_'), (HFile, 'f_'), (Tup, 't_')):
            if isinstance(recv, k):
                m = getattr(self, pre + name, None)
                if m is not None:
                    return m(recv, args, kw, node)
                self.note('method', type(recv).__name__, name)
                return T('mcall', fz(recv), name, *[fz(a) for a in args])
        if isinstance(recv, XObj):
            return self.x_method(recv, name, args, kw, node)
        if isinstance(recv, Lazy):
            if name == '__next__':
                return self.b_next([recv], {}, node)
            if name == '__iter__':
                return recv
            return NONE
        if isinstance(recv, EnumMember):
            f = self.cls_lookup(recv.cls, name)
            if f is not None:
                return self.call(self.bind(f, recv, recv.cls, node), args, kw, node)
            if isinstance(recv.value, C) and isinstance(recv.value.v, str) and name in ASSTR:
                return self.call_method(recv.value, name, args, kw, node)
            return T('mcall', recv, name, *[fz(a) for a in args])
        if isinstance(recv, (Cls, Mod, Ext)):
            return self.call(self.getattr(recv, name, node), args, kw, node) if not isinstance(recv, Cls) or name not in ('__subclasses__', 'mro') \
                else T('mcall', fz(recv), name)
        self.note('method of', repr(recv), name)
        return T('mcall', fz(recv), name, *[fz(a) for a in args])

    # ------------------------------------------------------------ constants and terms
    def const_meth(self, recv, name, args, kw, node):
        if recv.v is None:
            raise PyExc('AttributeError', (), None, node)
        if isinstance(recv.v, (str, bytes)):
            vals = [self.subst(a) if isinstance(a, T) else a for a in args]
            ps = [self.pyval(a) for a in vals]
            if name == 'join':
                return self.join(recv, args[0], node)
            if name == 'format' and isinstance(recv.v, str):
                return self.strformat(recv, args, kw, node)
            if name == 'encode':
                if ps and isinstance(ps[0], str) and ps[0].lower().replace('-', '') not in ('utf8',):
                    try:
                        return C(recv.v.encode(*ps))
                    except (UnicodeError, LookupError, TypeError):
                        raise PyExc('UnicodeEncodeError', (), None, node)
                return encode(recv)
            if all(p is not None for p in ps) and all(isinstance(k2, str) and self.pyval(v) is not None for k2, v in kw.items()):
                try:
                    r = getattr(recv.v, name)(*ps, **{k2: self.pyval(v) for k2, v in kw.items()})
                    return self.from_py(r)
                except ValueError as e:
                    raise PyExc(type(e).__name__, (), None, node)
                except (TypeError, AttributeError) as e:
                    raise PyExc(type(e).__name__, (), None, node)
            if name in ('startswith', 'endswith') and isinstance(args[0], T):
                pass
            return T('mcall', recv, name, *[fz(a) for a in args])
        ps = [self.pyval(a) for a in args]
        try:
            return self.from_py(getattr(recv.v, name)(*ps))
        except AttributeError:
            raise PyExc('AttributeError', (), None, node)
        except Exception:
            return T('mcall', recv, name, *[fz(a) for a in args])

    def join(self, sep, coll, node):
        segs = self.to_segs(coll)
        if all(s[0] == 'e' for s in segs):
            out = []
            for i, s in enumerate(segs):
                if i:
                    out.append(sep)
                v = self.subst(s[1]) if isinstance(s[1], T) else s[1]
                if isinstance(v, C) and not isinstance(v.v, (str, bytes)) or isinstance(v, (HList, Tup, HDict, HObj)) \
                        and not self.strsub(v):
                    raise PyExc('TypeError', (), None, node)
                out.append(v if isinstance(v, (C, T)) else fz(v))
            return cat(*out) if out else C(sep.v[:0] if isinstance(sep, C) else '')
        if len(segs) == 1 and segs[0][0] == 's' and isinstance(segs[0][1], T) and segs[0][1].op == 'mcall' and \
                segs[0][1].args[1] == 'split' and len(segs[0][1].args) == 3 and segs[0][1].args[2] == sep:
            return segs[0][1].args[0]
        return T('join', sep, *[fzseg(s) for s in segs])

    def strsub(self, v):
        return isinstance(v, HObj) and any(isinstance(b, Ext) and b.name == 'builtins.str' for b in self.mro(v.cls))

    def strformat(self, recv, args, kw, node):
        import string
        out, n = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(recv.v):
                out.append(C(lit))
                if field is None:
                    continue
                if spec or conv or '.' in field or '[' in field:
                    return T('mcall', recv, 'format', *[fz(a) for a in args])
                if field == '':
                    field, n = str(n), n + 1
                if field.isdigit():
                    out.append(self.to_str(args[int(field)]))
                else:
                    out.append(self.to_str(kw[field]))
        except (IndexError, KeyError):
            raise PyExc('IndexError', (), None, node)
        return cat(*out) if out else C('')

    def str_decode(self, v, node):
        self.maybe_raise('UnicodeDecodeError', node)
        return decode(v if isinstance(v, (C, T)) else fz(v))

    def sepfree(self, t, sep):
        """sep (constant str) certainly does not occur in term t."""
        if isinstance(t, C):
            return type(t.v) is type(sep) and sep not in t.v
        if t.op in ('str', 'fmt') and ty(t.args[0]) == 'int':
            return not any(ch in '-0123456789' for ch in sep)
        if t.op == 'lit':
            return any(not ' ' <= ch <= '~' for ch in sep) or \
                not any(ch in '\\xuUNnrt0123456789abcdef' for ch in sep) and self.sepfree(t.args[0], sep)
        if t.op == 'mcall' and t.args[1] == 'replace' and t.args[2] == C(sep) and isinstance(t.args[3], C) and sep not in t.args[3].v:
            return True
        if t.op == 'mcall' and t.args[1] == 'replace' and isinstance(t.args[3], C) and sep not in t.args[3].v and len(sep) == 1:
            return self.sepfree(t.args[0], sep)
        h = getattr(self.opts, 'sepfree', None)
        return bool(h and h(self, t, sep))

    WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u2029\u3000'

    def splitting(self, recv, name, args, kw):
        """split, partition, splitlines of a concatenation whose unknown parts contain no separator."""
        if name == 'splitlines':
            keep = self.pyval(self.arg(args, kw, 0, 'keepends', FALSE))
            if ty(recv) == 'bytes' or keep is None or not all(isinstance(p, C) or all(self.sepfree(p, ch) for ch in '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029') for p in parts_of(recv)):
                return None
            out, cur = [], []
            for p in parts_of(recv):
                if not isinstance(p, C):
                    cur.append(p)
                    continue
                for x in p.v.splitlines(True):
                    y = x.splitlines()[0]
                    if y != x:
                        out.append(cat(*cur, C(x if keep else y)))
                        cur = []
                    else:
                        cur.append(C(x))
            if cur:
                out.append(cat(*cur))
            return self.new_list(out)
        sep = self.arg(args, kw, 0, 'sep', NONE)
        if name in ('partition', 'rpartition'):
            if not isinstance(sep, C) or not sep.v:
                return None
            r = self.splitcat(recv, sep.v, 1, name == 'rpartition')
            if r is None:
                return None
            e = C(type(sep.v)())
            if len(r) == 1:
                return Tup([r[0], e, e] if name == 'partition' else [e, e, r[0]])
            return Tup([r[0], sep, r[1]])
        m = self.arg(args, kw, 1, 'maxsplit', C(-1))
        mx = self.pyval(m)
        if not isinstance(mx, int):
            return None
        if sep == NONE:
            if mx >= 0 or ty(recv) == 'bytes' or not all(isinstance(p, C) or all(self.sepfree(p, ch) for ch in self.WS) for p in parts_of(recv)):
                return None
            if not all(isinstance(p, C) or self.nonempty(p) for p in parts_of(recv)):
                return None
            out, cur = [], []
            for p in parts_of(recv):
                if not isinstance(p, C):
                    cur.append(p)
                    continue
                if p.v[:1].isspace() and cur:
                    out.append(cat(*cur))
                    cur = []
                xs = p.v.split()
                for i, x in enumerate(xs):
                    cur.append(C(x))
                    if i + 1 < len(xs) or p.v[-1:].isspace():
                        out.append(cat(*cur))
                        cur = []
            if cur:
                out.append(cat(*cur))
            return self.new_list(out)
        if not isinstance(sep, C) or not sep.v:
            return None
        r = self.splitcat(recv, sep.v, mx if mx >= 0 else None, name == 'rsplit')
        return None if r is None else self.new_list(r)

    def nonempty(self, p):
        if p.op in ('str', 'fmt') and ty(p.args[0]) == 'int':
            return True
        if p.op == 'lit' and isinstance(p.args[0], T):
            return self.nonempty(p.args[0])
        h = getattr(self.opts, 'nonempty', None)
        return bool(h and h(self, p))

    def splitcat(self, recv, sep, maxn, right=False):
        """Exact split of a concatenation at a constant separator, or None."""
        ps = parts_of(recv)
        n = 0           # parts at the end (right) or start that have to be looked at
        for p in (ps[::-1] if right else ps) if maxn is not None else ps:
            if not isinstance(p, C):
                if not self.sepfree(p, sep):
                    if maxn is not None and n >= maxn:
                        break
                    return None
            elif type(p.v) is type(sep):
                n += p.v.count(sep)
            else:
                return None
        out, cur = [], []
        if right and maxn is not None:
            for p in reversed(ps):
                if isinstance(p, C) and len(out) < maxn:
                    xs = p.v.rsplit(sep, maxn - len(out))
                    cur.insert(0, C(xs[-1]))
                    for x in xs[-2::-1]:
                        out.insert(0, cat(*cur))
                        cur = [C(x)]
                else:
                    cur.insert(0, p)
            out.insert(0, cat(*cur))
            return out
        for p in ps:
            if isinstance(p, C):
                xs = p.v.split(sep)
                cur.append(C(xs[0]))
                for x in xs[1:]:
                    if maxn is not None and len(out) >= maxn:
                        cur.append(C(sep + x))
                        continue
                    out.append(cat(*cur))
                    cur = [C(x)]
            else:
                cur.append(p)
        out.append(cat(*cur))
        return out

    def term_meth(self, recv, name, args, kw, node):
        args = [self.subst(a) if isinstance(a, T) else a for a in args]
        if recv.op in ('list', 'tup') and name in ('index', 'count', 'copy', '__contains__'):
            return T('mcall', recv, name, *[fz(a) for a in args])
        if name == 'encode':
            e = self.pyval(args[0]) if args else None
            if e and e.lower().replace('_', '-') == 'unicode-escape':
                return encode(literal(recv))
            if e and e.lower().replace('-', '') not in ('utf8',):
                self.maybe_raise('UnicodeEncodeError', node)
                return T('encx', recv, C(e))
            return encode(recv)
        if name == 'decode':
            enc, er = self.arg(args, kw, 0, 'encoding', NONE), self.arg(args, kw, 1, 'errors', NONE)
            if er in (NONE, C('strict')) and not total_encoding(enc):
                self.maybe_raise('UnicodeDecodeError', node)
            e = self.pyval(enc)
            if isinstance(e, str) and e.lower().replace('_', '-') == 'unicode-escape':
                return unliteral(decode(recv))
            return decode(recv)
        if name == 'join':
            return self.join(recv, args[0], node)
        if name in ('startswith', 'endswith') and args:
            a = args[0]
            opts = list(a.items) if isinstance(a, Tup) else [a]
            r = [self.affix(recv, name, x) for x in opts]
            if any(x is True for x in r):
                return TRUE
            if all(x is False for x in r):
                return FALSE
            return T('mcall', recv, name, fz(a))
        if name in ('upper', 'lower') and recv.op == 'cat':
            return cat(*[self.call_method(p, name, [], {}, node) for p in recv.args])
        if name == 'lower' and recv.op == 'mcall' and recv.args[1] == 'lower' or \
                name == 'upper' and recv.op == 'mcall' and recv.args[1] == 'upper':
            return recv
        if name == 'replace' and isinstance(args[0], C) and isinstance(args[1], C):
            if len(args[0].v) == 1 and recv.op == 'cat':
                return cat(*[self.call_method(p, name, args, {}, node) for p in recv.args])
            # undo of an earlier replacement by a character absent from the original
            return T('mcall', recv, 'replace', args[0], args[1])
        if name in ('strip', 'lstrip', 'rstrip') and recv.op == 'cat':
            return self.stripcat(recv, name, args, node)
        if name in ('split', 'rsplit', 'partition', 'rpartition', 'splitlines') and recv.op in ('cat', 'sym', 'lit'):
            r = self.splitting(recv, name, args, kw)
            if r is not None:
                return r
        if name in ('items', 'keys', 'values'):
            if name == 'keys':
                return T('keys', recv)
            return T(name, recv)
        if name == 'get':
            dflt = args[1] if len(args) > 1 else NONE
            if self.decide(T('in', fz(args[0]), recv), 'key present'):
                return T('getitem', recv, fz(args[0]))
            return dflt
        if name in ('append', 'add', 'extend', 'update', 'insert', 'remove', 'discard', 'clear', 'sort', 'reverse',
                    'setdefault', 'pop', 'popitem', 'popleft', 'appendleft'):
            self.emit('mutate', obj=recv, field='content', how=name, shared=None, val=args[0] if args else None)
            if name in ('pop', 'popitem', 'popleft'):
                if len(args) < 2:
                    self.maybe_raise('KeyError', node)
                    self.maybe_raise('IndexError', node)
                return self.fresh('popped', recv)
            return NONE if name != 'setdefault' else T('getitem', recv, fz(args[0]))
        if name in ('index',):
            self.maybe_raise('ValueError', node)
            return T('index_of', recv, *[fz(a) for a in args])
        if name in ('group', 'groups', 'start', 'end', 'span', 'groupdict'):
            a = [fz(x) for x in args] or ([C(0)] if name == 'group' else [])
            t = T('mget', recv, name, *a)
            if name == 'group' and recv.op == 'refullmatch' and a == [C(0)]:
                return recv.args[1]
            return t
        if name == '__getitem__':
            return self.getitem(recv, args[0], node)
        if name == '__len__':
            return self.length(recv)
        if name in ('format',):
            return T('mcall', recv, name, *[fz(a) for a in args])
        pure = name in ASSTR or name.startswith('is') or name in (
            'count', 'copy', 'union', 'difference', 'intersection', 'most_common', 'issubset', 'strftime', 'hexdigest',
            'digest', 'total', 'elements', 'symmetric_difference', 'timestamp')
        if name in ('put', 'put_nowait'):
            self.emit('qput', q=recv, val=args[0])
            return NONE
        if name in ('get_nowait', 'qsize', 'empty'):
            if name == 'get_nowait':
                self.emit('qget', q=recv)
                self.maybe_raise('Empty', node)
            return self.fresh(name, recv)
        if name in ('acquire', 'release'):
            self.emit('lock' if name == 'acquire' else 'unlock', obj=recv)
            return NONE
        if name == 'write':
            self.emit('write', eff=True, path=None, file=recv, data=args[0], obj=None)
            return NONE
        if name in ('debug', 'info', 'warning', 'error', 'exception', 'setLevel', 'close', 'flush') and ty(recv) is None:
            return NONE
        if not pure:
            self.emit('unkcall', eff=True, f=T('attr', recv, name), args=list(args), kw=dict(kw))
        return T('mcall', recv, name, *[fz(a) for a in args if not isinstance(a, StarArg)],
                 *[T('kw', k, fz(v)) for k, v in sorted(kw.items())])

    def affix(self, s, name, x):
        ps = parts_of(s)
        p = ps[0] if name == 'startswith' else ps[-1]
        if isinstance(x, C) and isinstance(p, C) and type(x.v) is type(p.v):
            if getattr(p.v, name)(x.v):
                return True
            n = min(len(p.v), len(x.v))
            if name == 'startswith':
                if p.v[:n] != x.v[:n]:
                    return False
            elif p.v[len(p.v) - n:] != x.v[len(x.v) - n:]:
                return False
            if len(ps) == 1:
                return False
            return None
        if p == x or s == x:
            return True
        if isinstance(x, T):
            if (strip_prefix(s, x) if name == 'startswith' else strip_suffix(s, x)) is not None:
                return True
        return None

    def stripcat(self, recv, name, args, node):
        chars = self.pyval(args[0]) if args and args[0] != NONE else None
        ps = list(recv.args)
        if args and args[0] != NONE and chars is None:
            return T('mcall', recv, name, *[fz(a) for a in args])

        def one(side):
            while ps:
                i = -1 if side == 'r' else 0
                p = ps[i]
                if not isinstance(p, C):
                    ps[i] = T('mcall', p, side + 'strip', *[fz(a) for a in args]) if not self.edgefree(p, side, chars) else p
                    return
                v = p.v.rstrip(chars) if side == 'r' else p.v.lstrip(chars)
                if v:
                    ps[i] = C(v)
                    return
                ps.pop(i)
        if name in ('strip', 'rstrip'):
            one('r')
        if name in ('strip', 'lstrip'):
            one('l')
        return cat(*ps) if ps else C('')

    def edgefree(self, p, side, chars):
        if p.op == 'str' and ty(p.args[0]) == 'int':
            return chars is None or not any(c in '-0123456789' for c in chars)
        if p.op == 'lit' and chars is not None and all(not ' ' <= c <= '~' for c in chars):
            return True
        if p.op == 'lit' and (chars is None or not any(c in '\\xuUNnrt0123456789abcdef' for c in chars)):
            return self.edgefree(p.args[0], side, chars if chars is not None else ' ') if isinstance(p.args[0], T) else False
        h = getattr(self.opts, 'edgefree', None)
        return bool(h and h(self, p, side, chars))

    # ------------------------------------------------------------ list
    def l_append(self, l, args, kw, node):
        self.mutate(l, 'segs', node, 'append', args[0])
        l.segs = l.segs + [('e', args[0])]
        if l.shared:
            self.mark_shared(args[0], l.shared)
        return NONE

    def l_extend(self, l, args, kw, node):
        segs = self.to_segs(args[0])
        self.mutate(l, 'segs', node, 'extend', args[0])
        l.segs = l.segs + segs
        return NONE

    l___iadd__ = l_extend

    def l_appendleft(self, l, args, kw, node):
        self.mutate(l, 'segs', node, 'insert', args[0])
        l.segs = [('e', args[0])] + l.segs
        return NONE

    def l_insert(self, l, args, kw, node):
        self.mutate(l, 'segs', node, 'insert', args[1])
        i = self.pyval(args[0])
        if i == 0:
            l.segs = [('e', args[1])] + l.segs
        elif isinstance(i, int) and l.elems() is not None:
            es = l.elems()
            es.insert(i, args[1])
            l.segs = [('e', x) for x in es]
        elif isinstance(i, int) and i > 0 and all(s[0] == 'e' for s in l.segs[:i]) and len(l.segs) > i:
            l.segs = l.segs[:i] + [('e', args[1])] + l.segs[i:]
        else:
            l.segs = [('s', T('inserted', fz(l), fz(args[0]), fz(args[1])))]
        return NONE

    def l_pop(self, l, args, kw, node):
        i = self.pyval(args[0]) if args else -1
        self.mutate(l, 'segs', node, 'pop', None)
        if isinstance(i, int):
            es = l.elems()
            if es is not None:
                if not es:
                    raise PyExc('IndexError', (), None, node)
                try:
                    v = es.pop(i)
                except IndexError:
                    raise PyExc('IndexError', (), None, node)
                l.segs = [('e', x) for x in es]
                return v
            if i == -1 and l.segs[-1][0] == 'e':
                v = l.segs[-1][1]
                l.segs = l.segs[:-1]
                return v
            if i == 0 and l.segs[0][0] == 'e':
                v = l.segs[0][1]
                l.segs = l.segs[1:]
                return v
        self.maybe_raise('IndexError', node)
        f = fz(l)
        l.segs = [('s', T('without', f))]
        return self.fresh('popped', f)

    def l_popleft(self, l, args, kw, node):
        return self.l_pop(l, [C(0)], {}, node)

    def l_remove(self, l, args, kw, node):
        self.mutate(l, 'segs', node, 'remove', args[0])
        es = l.elems()
        if es is not None:
            for i, x in enumerate(es):
                if self.decide(self.equals(x, args[0], node)):
                    del es[i]
                    l.segs = [('e', y) for y in es]
                    return NONE
            raise PyExc('ValueError', (), None, node)
        l.segs = [('s', T('without', fz(l), fz(args[0])))]
        return NONE

    def l_clear(self, l, args, kw, node):
        self.mutate(l, 'segs', node, 'clear', None)
        l.segs = []
        return NONE

    def l_copy(self, l, args, kw, node):
        return self.alloc(HList(l.segs))

    def l_reverse(self, l, args, kw, node):
        self.mutate(l, 'segs', node, 'reverse', None)
        l.segs = self.b_reversed([l], {}, node).segs
        return NONE

    def l_sort(self, l, args, kw, node):
        r = self.b_sorted([l], kw, node)
        self.mutate(l, 'segs', node, 'sort', None)
        l.segs = r.segs
        return NONE

    def l_index(self, l, args, kw, node):
        es = l.elems() if isinstance(l, HList) else list(l.items)
        if es is not None:
            for i, x in enumerate(es):
                if self.decide(self.equals(x, args[0], node)):
                    return C(i)
            raise PyExc('ValueError', (), None, node)
        self.maybe_raise('ValueError', node)
        return T('index_of', fz(l), fz(args[0]))

    def l_count(self, l, args, kw, node):
        return T('mcall', fz(l), 'count', fz(args[0]))

    def l___contains__(self, l, args, kw, node):
        return self.contains_(l, args[0], node)

    def l___len__(self, l, args, kw, node):
        return self.length(l)

    def l___getitem__(self, l, args, kw, node):
        return self.getitem(l, args[0], node)

    t_index, t_count, t___contains__, t___len__, t___getitem__ = l_index, l_count, l___contains__, l___len__, l___getitem__

    # ------------------------------------------------------------ dict
    def d_get(self, d, args, kw, node):
        return self.dict_get(d, args[0], args[1] if len(args) > 1 else NONE, node)

    def d___getitem__(self, d, args, kw, node):
        return self.getitem(d, args[0], node)

    def d___setitem__(self, d, args, kw, node):
        self.setitem(d, args[0], args[1], node)
        return NONE

    def d___contains__(self, d, args, kw, node):
        return self.contains_(d, args[0], node)

    def d___len__(self, d, args, kw, node):
        return self.length(d)

    def thaw(self, t):
        """The heap object a frozen reference stands for (a representative when it was made in a loop)."""
        if isinstance(t, T) and t.op in ('xobj', 'obj', 'file'):
            o = self.heap.get(t.args[1])
            return o if o is not None else t
        return t

    def dict_iter(self, d, pick, cb, node):
        for k, v in list(d.pairs):
            cb(pick(k, v))
        for o in list(d.opaque):
            if isinstance(o, T) and o.op == 'rep':
                def inner(_, o=o):
                    for p in o.args[1:]:
                        cb(pick(p.args[0], self.thaw(p.args[1])))
                self.absloop(T('niterof', o, C('dict')), lambda rec: None, inner, node)
            else:
                ot = o if isinstance(o, (T, C)) else C(str(o))
                kd = T('keysof', ot)
                self.absloop(kd, lambda rec: self.elem(kd, rec), lambda k: cb(pick(k, self.opval(d, ot, k))), node)

    def opval(self, d, o, k):
        r = T('getitem', o, k)
        c = getattr(d, 'valclass', None)
        if c is not None:
            self.tclass.setdefault(r, c)
        return r

    def d_items(self, d, args, kw, node):
        return self.alloc(Lazy('items', lambda run, cb, nd: run.dict_iter(d, lambda k, v: Tup([k, v]), cb, nd), T('items', fz(d))))

    def d_keys(self, d, args, kw, node):
        return self.alloc(Lazy('keys', lambda run, cb, nd: run.dict_iter(d, lambda k, v: k, cb, nd), T('keys', fz(d))))

    d___iter__ = d_keys

    def d_values(self, d, args, kw, node):
        return self.alloc(Lazy('values', lambda run, cb, nd: run.dict_iter(d, lambda k, v: v, cb, nd), T('values', fz(d))))

    def d_update(self, d, args, kw, node):
        self.mutate(d, 'pairs', node, 'update', args[0] if args else None)
        for a in args:
            if d.tag == 'counter':
                if not self.count_in(d, a, node):
                    d.opaque = d.opaque + [T('pluscounts', fz(a))]
            else:
                self.dict_update(d, a)
        for k, v in kw.items():
            self.dict_put(d, C(k), v)
        return NONE

    def count_in(self, d, a, node):
        """Counter.update with elements that are known to be equal or different; False if they are not."""
        if d.opaque or isinstance(a, HDict) and a.opaque:
            return False
        if isinstance(a, HDict):
            items = list(a.pairs)
        elif isinstance(a, (HList, HSet, Tup, C)):
            segs = self.to_segs(a)
            if any(s[0] != 'e' for s in segs) or len(segs) > 3000:
                return False
            items = [(s[1], C(1)) for s in segs]
        else:
            return False
        pairs = list(d.pairs)
        for k, v in items:
            for i, (x, old) in enumerate(pairs):
                r = self.eq(x, k)
                if r == TRUE:
                    pairs[i] = (x, self.binop(ast.Add(), old, v, node))
                    break
                if r != FALSE and not self.differ(fz(x), fz(k)):
                    return False
            else:
                pairs.append((k, v))
        d.pairs = pairs
        return True

    def d_setdefault(self, d, args, kw, node):
        c = self.contains_(d, args[0], node)
        if self.decide(c):
            return self.dict_get(d, args[0], None, node)
        v = args[1] if len(args) > 1 else NONE
        self.mutate(d, 'pairs', node, 'setitem', v)
        d.pairs = d.pairs + [(args[0], v)]
        return v

    def d_pop(self, d, args, kw, node):
        self.mutate(d, 'pairs', node, 'pop', args[0])
        for i, (k, v) in reversed(list(enumerate(d.pairs))):
            if self.decide(self.equals(k, args[0], node)):
                d.pairs = d.pairs[:i] + d.pairs[i + 1:]
                return v
        if d.opaque:
            if len(args) < 2:
                self.maybe_raise('KeyError', node)
            return self.fresh('popped', fz(args[0]))
        if len(args) > 1:
            return args[1]
        raise PyExc('KeyError', (), None, node)

    def d_popitem(self, d, args, kw, node):
        self.mutate(d, 'pairs', node, 'popitem', None)
        if not d.opaque:
            if not d.pairs:
                raise PyExc('KeyError', (), None, node)
            k, v = d.pairs[-1]
            d.pairs = d.pairs[:-1]
            return Tup([k, v])
        t = self.fresh('popped', fz(d))
        return Tup([T('item', t, 0), T('item', t, 1)])

    def d_clear(self, d, args, kw, node):
        self.mutate(d, 'pairs', node, 'clear', None)
        d.pairs, d.opaque = [], []
        return NONE

    def d_copy(self, d, args, kw, node):
        n = self.alloc(HDict(d.pairs, d.opaque, d.default))
        n.tag = d.tag
        return n

    def d_most_common(self, d, args, kw, node):
        return T('mcall', fz(d), 'most_common', *[fz(a) for a in args])

    # ------------------------------------------------------------ set
    def set_add(self, s, args, kw, node):
        self.mutate(s, 'segs', node, 'add', args[0])
        if not any(x[0] == 'e' and self.eq(x[1], args[0]) == TRUE for x in s.segs if isinstance(x[1], (C, T, EnumMember))):
            s.segs = s.segs + [('e', args[0])]
        return NONE

    def set_update(self, s, args, kw, node):
        for a in args:
            self.mutate(s, 'segs', node, 'update', a)
            s.segs = s.segs + [x for x in self.to_segs(a) if not (x[0] == 'e' and x in s.segs)]
        return NONE

    def set_discard(self, s, args, kw, node):
        self.mutate(s, 'segs', node, 'remove', args[0])
        if all(x[0] == 'e' for x in s.segs):
            s.segs = [x for x in s.segs if not self.decide(self.equals(x[1], args[0], node))]
        else:
            s.segs = [('s', T('without', fz(s), fz(args[0])))]
        return NONE

    set_remove = set_discard

    def set_clear(self, s, args, kw, node):
        return self.l_clear(s, args, kw, node)

    def set_copy(self, s, args, kw, node):
        return self.alloc(HSet(s.segs))

    def set_pop(self, s, args, kw, node):
        self.mutate(s, 'segs', node, 'pop', None)
        f = fz(s)
        s.segs = [('s', T('without', f))]
        return self.fresh('popped', f)

    def set_op(self, op, a, others, node):
        if op == 'union':
            segs = list(a.segs) if isinstance(a, (HSet, HList)) else self.to_segs(a)
            for o in others:
                segs = segs + [x for x in self.to_segs(o) if x not in segs]
            return self.alloc(HSet(segs))
        b = [self.to_segs(o) for o in others]
        sa = self.to_segs(a)
        if len(b) == 1 and all(x[0] == 'e' and isinstance(x[1], C) for x in sa + b[0]):
            x, y = [s[1] for s in sa], [s[1] for s in b[0]]
            r = {'intersection': [e for e in x if e in y], 'difference': [e for e in x if e not in y],
                 'symmetric_difference': [e for e in x if e not in y] + [e for e in y if e not in x]}[op]
            return self.alloc(HSet([('e', e) for e in r]))
        return self.alloc(HSet([('s', T(op, T('set', *[fzseg(s) for s in sa]), *[T('set', *[fzseg(s) for s in x]) for x in b]))]))

    def set_union(self, s, args, kw, node):
        return self.set_op('union', s, args, node)

    def set_intersection(self, s, args, kw, node):
        return self.set_op('intersection', s, args, node)

    def set_difference(self, s, args, kw, node):
        return self.set_op('difference', s, args, node)

    def set_difference_update(self, s, args, kw, node):
        r = self.set_op('difference', s, args, node)
        self.mutate(s, 'segs', node, 'remove', None)
        s.segs = r.segs
        return NONE

    def set_issubset(self, s, args, kw, node):
        return T('cmp', 'LtE', fz(s), fz(args[0]))

    def set_isdisjoint(self, s, args, kw, node):
        return T('disjoint', fz(s), fz(args[0]))

    def set___contains__(self, s, args, kw, node):
        return self.contains_(s, args[0], node)

    # ------------------------------------------------------------ files
    def f_read(self, f, args, kw, node):
        self.emit('read', eff=True, path=f.path, file=f, how='all' if not args else 'some')
        self.read_errors(f)
        if self.opts.read_hook:
            r = self.opts.read_hook(self, f, 'all' if not args else 'some')
            if r is not NotImplemented:
                return r
        t = 'bytes' if 'b' in f.mode else 'str'
        if args:
            return self.fresh('read', canon(f.path), t, fz(args[0]))
        return T('read', canon(f.path), t)

    def f_readline(self, f, args, kw, node):
        self.emit('read', eff=True, path=f.path, file=f, how='line')
        self.read_errors(f)
        f.nread += 1
        if self.opts.read_hook:
            r = self.opts.read_hook(self, f, 'line')
            if r is not NotImplemented:
                return r
        return T('read', canon(f.path), 'bytes' if 'b' in f.mode else 'str', 'line', f.nread)

    def f_readlines(self, f, args, kw, node):
        return self.seqlist(f)

    def f___iter__(self, f, args, kw, node):
        return f

    def f_write(self, f, args, kw, node):
        v = args[0]
        self.write_(f, v if isinstance(v, (C, T)) else fz(v), node)
        return T('len', fz(v))

    def f_writelines(self, f, args, kw, node):
        self.iterate(args[0], lambda v: self.f_write(f, [v], {}, node), node)
        return NONE

    def f_close(self, f, args, kw, node):
        self.close_file(f, node)
        return NONE

    def f_flush(self, f, args, kw, node):
        return NONE

    f_seek = f_tell = f_fileno = f_truncate = f_flush

    def f___enter__(self, f, args, kw, node):
        return f

    def f___exit__(self, f, args, kw, node):
        self.close_file(f, node)
        return NONE

    # ------------------------------------------------------------ objects with library bases
    def ext_base_method(self, o, name, args, kw, node):
        bases = [b.name for b in self.mro(o.cls) if isinstance(b, Ext)]
        if any(b.endswith('Process') or b.endswith('Thread') for b in bases):
            if name == 'start':
                run = self.cls_lookup(o.cls, 'run')
                self.emit('procstart', obj=o)
                if run is not None:
                    return self.in_worker(lambda: self.call(Bound(run, o), [], {}, node), swallow=True)
                return NONE
            if name == 'join':
                self.emit('procjoin', obj=o)
                return NONE
            if name in ('is_alive',):
                return self.fresh('alive', fz(o))
            return NONE
        if name == '_replace':
            n = self.alloc(HObj(o.cls, dict(o.fields)))
            n.fields.update(kw)
            return n
        if name == '_asdict':
            return self.alloc(HDict([(C(k), v) for k, v in o.fields.items()]))
        if name == '__eq__':
            return C(o is args[0]) if args else FALSE
        if name in ('__init__',):
            return NONE
        if name in ('__str__', '__repr__'):
            return T('str', fz(o))
        if name == '__hash__':
            return T('id', fz(o))
        base = o.fields.get('#base')
        if base is not None:
            return self.call_method(base, name, args, kw, node)
        self.emit('extmethod', eff=True, obj=o, name=name, args=list(args))
        return T('mcall', fz(o), name, *[fz(a) for a in args])

    def in_worker(self, f, swallow=False):
        self.worker += 1
        self.ntasks += 1
        task, self.task = self.task, (self.ntasks, self.serial)
        locks, self.locks = self.locks, []
        hs, self.handlers = self.handlers, ([] if swallow else self.handlers)
        try:
            return f()
        except PyExc as e:
            if swallow:
                self.emit('workerdied', exc=e.name())
                return NONE
            raise
        finally:
            self.worker -= 1
            self.task = task
            self.locks = locks
            self.handlers = hs

    # ------------------------------------------------------------ library objects
    def mp_call(self, n, args, kw, node, root='multiprocessing'):
        if n in ('Pool', 'ThreadPool', 'ThreadPoolExecutor', 'ProcessPoolExecutor'):
            x = self.alloc(XObj('pool', args, kw))
            x.fields['futures'] = n.endswith('Executor')
            x.fields['threads'] = n.startswith('Thread')
            x.fields.update(pending=[], closed=False)
            self.emit('pool', obj=x)
            return x
        if n in ('Queue', 'SimpleQueue', 'JoinableQueue', 'LifoQueue', 'PriorityQueue'):
            x = self.alloc(XObj('queue', args, kw))
            x.items = self.alloc(HList())
            x.root = root
            return x
        if n in ('Lock', 'RLock', 'Semaphore', 'BoundedSemaphore'):
            x = self.alloc(XObj('multiprocessing.Lock', args))
            x.root, x.many = root, 'Semaphore' in n and bool(args or kw) and [*args, *kw.values()][0] != C(1)
            return x
        if n == 'Value':
            x = self.alloc(XObj('mpvalue', args))
            x.root = root
            x.fields['value'] = args[1] if len(args) > 1 else C(0)
            return x
        if n == 'cpu_count':
            return T('cpu_count')
        if n in ('current_process', 'get_context', 'Manager', 'active_children', 'set_start_method', 'current_thread'):
            return T('pcall', 'multiprocessing.' + n)
        if n in ('Process', 'Thread'):
            x = self.alloc(XObj('process', args, kw))
            return x
        if n == '__init__':
            return NONE
        if n in ('Empty', 'Full'):
            return self.alloc(XObj('exc.' + n, args))
        return T('pcall', 'multiprocessing.' + n, *[fz(a) for a in args])

    def xattr(self, o, name, node):
        if o.name == 'pathlib.Path':
            p = o.fields['p']
            if name in ('parent',):
                return self.mkpath(self.x_os_path_dirname([p], {}, node))
            if name == 'name':
                return self.x_os_path_basename([p], {}, node)
            if name == 'suffix':
                return self.x_os_path_splitext([p], {}, node).items[1]
            if name == 'stem':
                return self.x_os_path_splitext([self.x_os_path_basename([p], {}, node)], {}, node).items[0]
        if name in o.fields:
            return o.fields[name]
        return BMeth(o, name)

    def xgetitem(self, o, k, node):
        if o.name == 'match':
            return self.x_method(o, 'group', [k], {}, node)
        if o.name == 'globals':
            n = self.pyval(k)
            if isinstance(n, str):
                return self.global_get(o.fields['mod'], n)
        return T('getitem', fz(o), fz(k))

    def xsetitem(self, o, k, v, node):
        self.note('setitem on', o.name)

    def xcall(self, o, args, kw, node):
        if o.name == 'itemgetter':
            vals = [self.getitem(args[0], k, node) for k in o.args]
            return vals[0] if len(vals) == 1 else Tup(vals)
        if o.name == 'attrgetter':
            vals = [self.getattr(args[0], self.pyval(k), node) for k in o.args]
            return vals[0] if len(vals) == 1 else Tup(vals)
        return self.fresh('unk', 'xcall')

    def x_method(self, o, name, args, kw, node):
        n = o.name
        if n == 'logger' or n == 'tqdm':
            return NONE
        if n == 'super':
            v = None
            obj = o.fields['obj']
            if name == '__init__' and isinstance(obj, HObj) and self.is_exc(obj.cls):
                obj.fields['args'] = Tup(args)
                return NONE
            if name == '__init__':
                return NONE
            if isinstance(obj, HObj):
                return self.ext_base_method(obj, name, args, kw, node) if name not in ('__eq__', '__hash__', '__setattr__') else \
                    (self.setattr_raw(obj, args) if name == '__setattr__' else T('mcall', fz(obj), name))
            if name == '__new__':
                c = args[0] if args else obj
                return self.alloc(HObj(c)) if isinstance(c, Cls) else T('mcall', 'new')
            return T('mcall', fz(obj), name)
        if n == 'regex':
            return self.re_do(name, o, args, kw, node)
        if n == 'match':
            ps = [self.pyval(a) for a in args]
            try:
                return self.from_py(getattr(o.m, name)(*ps))
            except (IndexError, AttributeError, TypeError):
                raise PyExc('IndexError', (), None, node)
        if n == 'pool':
            return self.pool_method(o, name, args, kw, node)
        if n == 'queue':
            return self.queue_method(o, name, args, kw, node)
        if n == 'multiprocessing.Lock':
            if name == 'acquire':
                self.lock_acquire(o)
                return TRUE
            if name == 'release':
                self.lock_release(o)
                return NONE
            return NONE
        if n == 'mpvalue':
            if name == 'get_lock':
                l = o.fields.get('#lock')
                if l is None:
                    l = o.fields['#lock'] = self.alloc(XObj('multiprocessing.Lock'))
                return l
            return NONE
        if n == 'process':
            if name == 'start' and 'target' in o.kw:
                self.emit('procstart', obj=o)
                a = o.kw.get('args')
                al = list(a.items) if isinstance(a, Tup) else (HList(self.to_segs(a)).elems() or [] if a is not None else [])
                return self.in_worker(lambda: self.call(o.kw['target'], al, {}, node), swallow=True)
            if name == 'join':
                self.emit('procjoin', obj=o)
            return NONE
        if n == 'pathlib.Path':
            return self.path_method(o, name, args, kw, node)
        if n == 'exitstack':
            st = o.fields.setdefault('stack', [])
            if name == 'enter_context':
                v = args[0]
                if isinstance(v, HFile):
                    st.append(lambda exc: self.close_file(v, node, exc))
                    return v
                return T('enter', fz(v))
            if name in ('callback', 'push'):
                st.append(lambda exc: self.call(args[0], args[1:], kw, node))
                return args[0]
            return NONE
        if n == 'asyncresult':
            if name in ('get', 'result', 'exception'):
                o.fields['got'] = True
            if name == 'get':
                return self.in_worker(o.fields['run'])
            return NONE
        if n.startswith('exc.'):
            return T('mcall', fz(o), name)
        if n in ('tempfile.TemporaryDirectory',):
            return NONE
        self.emit('extmethod', eff=True, obj=o, name=name, args=list(args))
        return T('mcall', fz(o), name, *[fz(a) for a in args])

    def setattr_raw(self, obj, args):
        n = self.pyval(args[0])
        if isinstance(n, str):
            self.mutate(obj, n, None, 'set', args[1])
            obj.fields[n] = args[1]
        return NONE

    def path_method(self, o, name, args, kw, node):
        p = o.fields['p']
        m = {'exists': 'x_os_path_exists', 'is_file': 'x_os_path_isfile', 'is_dir': 'x_os_path_isdir',
             'unlink': 'x_os_remove', 'mkdir': 'x_os_makedirs', 'is_symlink': 'x_os_path_islink'}.get(name)
        if m:
            if name == 'mkdir':
                return self.x_os_makedirs([p], {'exist_ok': kw.get('exist_ok', FALSE)}, node)
            return getattr(self, m)([p], {}, node)
        if name == 'open':
            return self.open_file('plain', [p] + list(args), kw, node)
        if name in ('rename', 'replace'):
            self.x_os_rename([p, args[0]], {}, node)
            return args[0]
        if name == 'joinpath':
            return self.mkpath(self.pathjoin(p, *[self.fspath(a) for a in args]))
        if name in ('with_suffix', 'with_name', 'resolve', 'absolute', 'relative_to', 'expanduser'):
            if name == 'relative_to':
                return self.mkpath(self.x_os_path_relpath([p, args[0]], {}, node))
            if name == 'with_suffix':
                return self.mkpath(cat(self.x_os_path_splitext([p], {}, node).items[0], args[0]))
            if name == 'with_name':
                return self.mkpath(self.pathjoin(self.x_os_path_dirname([p], {}, node), args[0]))
            return self.mkpath(T('os.path.abspath', p))
        if name in ('read_text', 'read_bytes'):
            f = self.open_file('plain', [p, C('r' if name == 'read_text' else 'rb')], {}, node)
            r = self.f_read(f, [], {}, node)
            self.close_file(f, node)
            return r
        if name in ('write_text', 'write_bytes'):
            f = self.open_file('plain', [p, C('w' if name == 'write_text' else 'wb')], {}, node)
            self.f_write(f, args[:1], {}, node)
            self.close_file(f, node)
            return NONE
        if name == 'touch':
            f = self.open_file('plain', [p, C('a')], {}, node)
            self.close_file(f, node)
            return NONE
        if name in ('iterdir',):
            return self.x_os_listdir([p], {}, node)
        if name in ('glob', 'rglob'):
            self.emit('listdir', eff=True, path=p)
            return T('glob', p, *[fz(a) for a in args])
        if name == 'as_posix':
            return p
        return T('mcall', p, name, *[fz(a) for a in args])

    def pool_method(self, o, name, args, kw, node):
        if name in ('imap', 'imap_unordered', 'map', 'starmap', 'map_async', 'submit', 'apply', 'apply_async'):
            f = args[0] if args else kw.get('func')
            if name in ('apply', 'apply_async', 'submit'):
                a = self.arg(args, kw, 1, 'args')
                if name == 'submit':
                    al = list(args[1:])
                else:
                    al = list(a.items) if isinstance(a, Tup) else ([s[1] for s in self.to_segs(a) if s[0] == 'e'] if a is not None else [])
                if name == 'apply':
                    return self.in_worker(lambda: self.call(f, al, {}, node))
                x = self.alloc(XObj('asyncresult'))
                x.fields['run'] = lambda: self.call(f, al, {}, node)
                o.fields['pending'].append(('one', x, node))
                return x
            src = self.arg(args, kw, 1, 'iterable')
            done = []

            def it(run, cb, nd):
                if done:
                    return
                done.append(1)
                run.emit('pooltasks', pool=o, f=f)

                def task(v):
                    al = [v] if name != 'starmap' else (list(v.items) if isinstance(v, Tup) else [v])
                    r = run.in_worker(lambda: run.call(f, al, {}, node))
                    return cb(r)
                run.iterate(src, task, nd)
            lz = self.alloc(Lazy('pool', it))
            lz.done = done
            if name in ('map', 'starmap'):
                return self.seqlist(lz)
            o.fields['pending'].append(('lazy', lz, node))
            return lz
        if name == 'close':
            o.fields['closed'] = True
            return NONE
        if name in ('join', 'shutdown'):
            for k, x, nd in o.fields['pending']:
                if k == 'lazy' and not x.done:
                    self.drop_errors(lambda: x.it(self, lambda v: NONE, nd))
                elif k == 'one' and not x.fields.get('got'):
                    self.drop_errors(lambda: self.in_worker(x.fields['run']))
            o.fields['pending'] = []
            return NONE
        if name == 'terminate':
            self.emit('terminate', obj=o)
            self.pool_abandon(o)
            return NONE
        return NONE

    def drop_errors(self, f):
        try:
            f()
        except PyExc as e:
            self.emit('errors_dropped', exc=e.name())

    def pool_abandon(self, o):
        for k, x, nd in o.fields.get('pending', ()):
            if k == 'lazy' and not x.done or k == 'one' and not x.fields.get('got'):
                self.emit('abandoned', obj=o)
        o.fields['pending'] = []

    def queue_items(self, q, segs, out):
        for s in segs:
            if s[0] == 'e':
                if not any(x is s[1] or isinstance(x, (C, T)) and x == s[1] for x in out):
                    out.append(s[1])
            elif s[0] == 'r':
                self.queue_items(q, s[3], out)
            elif s[0] == 'p':
                for rec in self.loops:
                    if rec.key == s[1]:
                        self.queue_items(q, rec.saved.get((q.serial, 'segs'), ()), out)

    def queue_method(self, o, name, args, kw, node):
        q = o.items
        if name in ('put', 'put_nowait'):
            self.touch((q.serial, 'segs'), q.serial)
            q.segs = q.segs + [('e', args[0])]
            self.emit('qput', q=o, val=args[0])
            return NONE
        if name in ('get', 'get_nowait'):
            ev = self.emit('qget', q=o)
            segs = q.segs
            if not segs:
                raise PyExc('Empty', (), None, node)
            if segs[0][0] == 'e' and len(segs) >= 1 and not any(isinstance(s, tuple) and s[0] == 'p' for s in segs):
                if self.opts.queue_empty and self.opts.queue_empty(self, o):
                    raise PyExc('Empty', (), None, node)
                self.touch((q.serial, 'segs'), q.serial)
                q.segs = segs[1:]
                if ev:
                    ev.d['val'] = segs[0][1]
                return segs[0][1]
            if name == 'get_nowait' or args or 'timeout' in kw or 'block' in kw:
                self.maybe_raise('Empty', node)
            cand = []
            self.queue_items(q, segs, cand)
            if cand:
                v = cand[self.choose(len(cand), 'which kind of queue item')]
                if isinstance(v, T) and v.op != 'got':       # one of many: two gets are different items
                    self.serial += 1
                    r = T('got', self.serial, v)
                    if v in self.tclass:
                        self.tclass[r] = self.tclass[v]
                    return r
                return v
            return self.fresh('qitem', fz(q))
        if name == 'qsize':
            es = q.elems()
            r = C(len(es)) if es is not None and not (self.opts.opaque_sizes and self.worker) else self.fresh('qsize', T('q', o.serial))
            self.emit('sharedget', obj=o, val=r)
            return r
        if name == 'empty':
            es = q.elems()
            r = C(not es) if es is not None and not (self.opts.opaque_sizes and self.worker) else self.fresh('qempty', T('q', o.serial))
            self.emit('sharedget', obj=o, val=r)
            return r
        return NONE

    def term_method(self, o, name, args, kw, node):
        return None
