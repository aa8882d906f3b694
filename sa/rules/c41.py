"""C41: the iterators over subtokens and full tokens follow the word boundaries."""
from itertools import combinations
from .vecs import *
from .c33 import anchor

META = dict(
    technique='abstract interpretation with symbolic subtokens and an unknown formatting function, for every list of word boundaries of bounded length',
    level_note='Every strictly increasing list of boundaries for up to six subtokens and some for forty, with and without the index, with the default and with any formatting function; '
               'invalid lists: empty, not starting at 0, not ending at the number of subtokens.',
    explanation='Both iterators are evaluated until they are exhausted on subtokens that are unknown values. The values delivered have to be the results of the formatting function '
                'for exactly the subtokens of each full token, in order, with the index of the full token if asked for. Invalid boundaries have to be refused.',
)


def check(ctx):
    ctx.rule('the subtoken iterator delivers every subtoken once, in order, formatted, with the index of its full token if asked for')
    ctx.rule('the full token iterator delivers, for each full token, the formatted list of exactly its subtokens, with its index if asked for')
    ctx.rule('boundaries that are empty, do not start at 0 or do not end at the number of subtokens are refused with a ValueError')
    jobs = []
    for n in range(0, 7):
        for k in range(0, n):
            for mid in combinations(range(1, n), k):
                jobs += [(cls, n, (0,) + mid + (n,), f, i, True) for cls in CLASSES for f in ('given', 'default') for i in (None, True, False)]
    jobs += [(cls, 0, (0,), 'given', True, True) for cls in CLASSES]
    for n in (30, 40):
        for b in ((0, n), tuple(range(n + 1)), (0,) + tuple(range(3, n, 4)) + (n,), (0, n - 1, n), (0, 1, n)):
            jobs += [(cls, n, b, f, True, True) for cls in CLASSES for f in ('given', 'default')]
    for n, b in [(0, ()), (1, ()), (3, ()), (1, (0,)), (2, (0, 1)), (3, (0, 1, 4)), (3, (1, 3)), (1, (1,)), (0, (0, 1)), (3, (1, 2, 3)), (4, (0, 2, 3)), (3, (-1, 3)), (3, (0, 5)),
                 (0, (1,)), (0, (3,)), (5, (2, 5)), (5, (0, 3, 6))]:
        jobs += [(cls, n, b, f, i, False) for cls in CLASSES for f in ('given', 'default') for i in (None, True)]
    ctx.parallel([jobs[i::16] for i in range(16)], lambda c, js: [work(c, j) for j in js])


CLASSES = ('SubtokenIterator', 'FullTokenIterator')


def work(ctx, job):
    cls, n, bounds, fmt, index, valid = job
    subs = [sym(f'S{i}', 'str') for i in range(n)]
    what = f'{cls} {n} subtokens, boundaries {list(bounds)}, {fmt} format, index {index}'

    def entry(run):
        K = ctx.get(run, 'subtokens', cls)
        kw = {}
        if fmt == 'given':
            kw['format'] = sym('FORMAT')
        if index is not None:
            kw['return_full_token_index'] = C(index)
        src = run.new_list(list(subs))
        it = run.call(K, [src, run.new_list([C(b) for b in bounds])], kw)
        if not valid:
            # a list that is refused only when iterated over is refused as well
            pass
        out = []
        run.iterate(it, lambda x: out.append(x))
        run.out_ = out
        run.after = fz(src)
        return NONE
    res = ctx.explore(what, entry, vec_opts(max_paths=50), note=False)
    if res.errors or res.limits:
        ctx.undecided(f'{what}: {(list(res.errors) + list(res.limits))[0]}'[:300])
    fn = anchor(ctx, 'subtokens', cls)
    for p in res.paths:
        run = p.run
        if p.outcome == 'raise':
            if p.value.name() == 'ValueError' and not valid:
                ctx.ok(fn)
            elif valid or p.value.name() != 'ValueError':
                ctx.violation(fn, f'{what}: fails with {p.value.name()}', p, key='raise')
            continue
        if p.outcome != 'return':
            ctx.undecided(f'{what}: {p.outcome}')
            continue
        if not valid:
            ctx.violation(fn, f'{what}: the boundaries are not refused', p, key='accepted')
            continue
        groups = [(i, subs[a:b]) for i, (a, b) in enumerate(zip(bounds, bounds[1:]))]
        if cls == 'SubtokenIterator':
            groups = [(i, [s]) for i, g in groups for s in g]
        if len(run.out_) >= 1000 or any(not known(x) for x in run.out_):
            ctx.undecided(f'{what}: the iteration was not followed')
            continue
        if len(run.out_) != len(groups):
            ctx.violation(fn, f'{what}: {len(run.out_)} values instead of {len(groups)}', p, key='count')
            continue
        for x, (i, g) in zip(run.out_, groups):
            v = x
            if index:
                es = x.items if isinstance(x, Tup) else None
                if es is None or len(es) != 2:
                    if isinstance(x, T) and x.op != 'tup':
                        ctx.undecided(f'{what}: {x!r} was not followed'[:200])
                    else:
                        ctx.violation(fn, f'{what}: {x!r} instead of a pair of index and value'[:300], p, key='pair')
                    continue
                if not isinstance(es[0], C):
                    ctx.undecided(f'{what}: the index {es[0]!r} was not followed'[:200])
                    continue
                ctx.check(es[0] == C(i), fn, f'{what}: the value of full token {i} has index {es[0]!r}', p, key='index')
                v = es[1]
            judge(ctx, run, fn, what, v, g, fmt, cls, p)


def known(x):
    x = fz(x)
    return isinstance(x, C) or isinstance(x, T) and (bool(mentioned(x)) or x.op in ('tup', 'list')) and 'lv(' not in repr(x) and 'next' not in repr(x)


def mentioned(t):
    if isinstance(t, T):
        if t.op == 'sym':
            return [t.args[0]]
        return [y for x in t.args for y in mentioned(x)]
    return [y for x in t for y in mentioned(x)] if isinstance(t, tuple) else []


def judge(ctx, run, fn, what, v, g, fmt, cls, p):
    t = fz(v)
    if fmt == 'default':
        want = cat(*g) if len(g) > 1 else g[0]
        if t == want or isinstance(t, C) and t == want:
            ctx.ok(fn)
            return
    names = [s for s in mentioned(t) if s[:1] == 'S' and s[1:].isdigit()]
    exp = [s.args[0] for s in g]
    if fmt == 'given' and 'FORMAT' not in mentioned(t):
        if names or isinstance(t, C):
            ctx.violation(fn, f'{what}: the value {t!r} is not formatted'[:300], p, key='format')
        else:
            ctx.undecided(f'{what}: {t!r} was not followed'[:200])
        return
    if names == exp:
        ctx.ok(fn)
    elif set(names) == set(exp) and not (isinstance(t, T) and t.op in ('call', 'cat')):
        ctx.undecided(f'{what}: {t!r} was not followed'[:200])
    else:
        ctx.violation(fn, f'{what}: the value is {t!r}, but the full token consists of {exp}'[:300], p, key='slice')
