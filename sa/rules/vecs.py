"""Shared by the rules about text: vectors of abstract characters, and the lengths worth looking at."""
import ast
from .prepkit import *
from ..chars import *

LETTERS_U = frozenset(x for x in ALL if isupper1(x))
LETTERS_L = frozenset(x for x in ALL if islower1(x))
DIGITS = frozenset('0123456789')
BLANK = frozenset(x for x in ALL if isspace1(x))
VISIBLE = ALL - BLANK
OTHER_WORD = frozenset(x for x in ALL if isword1(x)) - LETTERS_L - LETTERS_U - DIGITS - {'_'}
PUNCT = VISIBLE - frozenset(x for x in ALL if isword1(x))


def text(name, doms):
    """A string whose i-th character is any of doms[i]."""
    return mkvec([char(f'{name}{i}', d) for i, d in enumerate(doms)])


def thresholds(ctx, prefixes, lo=5, hi=400):
    """Lengths around the integer constants in the modules: where the code may start to treat text differently."""
    out = set()
    for name, m in ctx.prog.mods.items():
        if any(name == p or name.startswith(p + '.') for p in prefixes):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool) and lo <= n.value <= hi:
                    out |= {n.value, n.value + 1}
    return sorted(out)


def vec_opts(*hs, **kw):
    kw.setdefault('max_paths', 20000)
    kw.setdefault('max_seconds', 300)
    kw.setdefault('max_rec', 40)
    kw.setdefault('max_steps', 2000000)
    kw.setdefault('unroll', 2000)
    kw.setdefault('unroll_forever', 2000)
    return Opts(chars=True, call_hook=hooks(*hs) if hs else None, **kw)


def vstr(run, v):
    """A vector as text for a message: one possible instance."""
    cs = vec(v) if isinstance(v, (C, T)) else None
    if cs is None:
        return repr(v)[:80]
    out = ''
    ex = {'X!': '\u00c9', 'x!': '\u00e9', 'W!': '\u4e2d', 'N!': '\u0663', 'P!': '\u20ac', 'B!': '\u00a0'}
    for c in cs:
        if isinstance(c, C):
            out += c.v
        else:
            d = run.chimages(c)
            pref = sorted(d, key=lambda x: (len(x), not x.isalnum(), x))
            x = pref[0]
            out += ex.get(x, x)
    return repr(out)


def same(run, a, b):
    """Certainly equal vectors (no choice is made): True, False, or None if this path does not settle it."""
    x, y = vec(a), vec(b)
    if x is None or y is None:
        return True if a == b else None
    if len(x) != len(y):
        return False
    res = True
    for c, d in zip(x, y):
        r = same1(run, c, d)
        if r is False:
            return False
        if r is None:
            res = None
    return res


def same1(run, c, d):
    if c == d:
        return True
    if isinstance(c, C) and isinstance(d, C):
        return False
    if isinstance(c, C):
        c, d = d, c
    if isinstance(d, C):
        im = run.chimages(c)
        return False if d.v not in im and len(classify(d.v)) == 1 else True if im == {d.v} else None if d.v in im else False
    if base_of(c) == base_of(d):
        rs = {apply_(c, x) == apply_(d, x) for x in run.chdom(c)}
        return rs.pop() if len(rs) == 1 else False
    if run.chrep(run.chsimp(c)) == run.chrep(run.chsimp(d)):
        return True
    # different characters of the text: equal only by coincidence
    return False
