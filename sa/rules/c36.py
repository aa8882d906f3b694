"""C36: BPE encoding follows the learned merge order."""
from .vecs import *
from .world import World
from .c33 import anchor

META = dict(
    technique='abstract interpretation of the encoder with a symbolic merge list (membership and relative priority of each pair decided per path), compared with the defined result',
    level_note='All words of up to four units and the words of five units with at most two different ones (thorough tier: six), in every pattern of repetition, with the end marker and escaped '
               'characters; every subset of the pairs as merges, in every order. Longer words and merges that overlap in other ways are outside the bound.',
    explanation='The encoder is evaluated with an unknown merge list. Each question the code asks about it (is this pair a merge, which of two has the better priority) splits the path, '
                'consistently with a total order. On each path the result is compared with the definition: take the applicable pair learned first, '
                'join all its occurrences from left to right, repeat.',
    assumptions=['the priorities of different merges are different (MergeList.append enforces that)'],
)

MAXP = 15000


def check(ctx):
    ctx.rule('for every word pattern and every order of merges the subwords are those of the definition')
    ctx.rule('the priority of a merge read from a file is its position in the file')
    jobs = []
    for n in range(1, 6):
        for w in patterns(n, n if n < 4 else 3 if n == 4 else 2):
            jobs.append(('word', w))
    jobs += [('word', w) for w in ('abcd', 'a@', 'aa@', 'aba@', 'aaa@', 'a@@', '@@@', '@@@@a@', 'a@@a@', 'a@@a@@', 'aaaa@')]
    if ctx.tier == 'thorough':
        jobs += [('word', w) for w in patterns(5, 3) if w not in patterns(5, 2)]
        jobs += [('word', w) for w in patterns(6, 2)]
    jobs.append(('read', None))
    ctx.parallel(jobs, work)


def patterns(n, k):
    out = ['']
    for _ in range(n):
        out = [w + chr(97 + i) for w in out for i in range(min(k, len(set(w)) + 1))]
    return out


def units(w):
    out, i = [], 0
    while i < len(w):
        k = 2 if w[i] == '@' and i + 1 < len(w) else 1
        out.append(w[i:i + k])
        i += k
    return out


class Order:
    """What a path has fixed about the merge list."""

    def __init__(self, run):
        self.run, self.mem, self.order, self.unclear = run, {}, [], None

    def member(self, p):
        if p not in self.mem:
            self.mem[p] = self.run.choose(2, f'{p[0]}+{p[1]} is a merge') == 0
        return self.mem[p]

    def rank(self, p):
        if p not in self.order:
            self.order.insert(self.run.choose(len(self.order) + 1, f'priority of {p[0]}+{p[1]}'), p)

    def before(self, p, q):
        self.rank(p)
        self.rank(q)
        return self.order.index(p) < self.order.index(q)

    def text(self):
        ms = [p for p in self.order if self.mem.get(p)] + [p for p in self.mem if self.mem[p] and p not in self.order]
        return ', '.join(f'{a}+{b}' for a, b in ms) or 'no merges'


def mentions(t, s):
    return t == s or isinstance(t, T) and any(mentions(x, s) for x in t.args if isinstance(x, (T, tuple))) \
        or isinstance(t, tuple) and any(mentions(x, s) for x in t)


def pair_of(t):
    if isinstance(t, T) and t.op == 'tup' and len(t.args) == 2 and all(isinstance(x, C) and isinstance(x.v, str) for x in t.args):
        return t.args[0].v, t.args[1].v
    return None


def prio_of(t, M):
    """The pair whose priority the term is."""
    if isinstance(t, T) and t.op == 'attr' and t.args[1] in ('priority', C('priority')):
        g = t.args[0]
        if isinstance(g, T) and g.op == 'getitem' and mentions(g.args[0], M):
            return pair_of(g.args[1])
    return None


BIG = 10 ** 7


def number(x):
    x = x.v if isinstance(x, C) else x
    return x if isinstance(x, (int, float)) and not isinstance(x, bool) else None


def decider(M):
    def decide_hook(run, t):
        if not mentions(t, M):
            return None
        o = run.__dict__.setdefault('ord_', Order(run))
        if t.op == 'in' and pair_of(t.args[0]):
            return o.member(pair_of(t.args[0]))
        if t.op in ('lt', 'eq') and len(t.args) == 2:
            a, b = t.args
            pa, pb = prio_of(a, M), prio_of(b, M)
            if pa and pb:
                if t.op == 'eq':
                    return pa == pb
                return pa != pb and o.before(pa, pb)
            na, nb = number(a), number(b)
            if na is not None or nb is not None:
                k, x, left = (nb, a, True) if nb is not None else (na, b, False)
                if prio_of(x, M):
                    if t.op == 'eq' and (k < 0 or k > BIG):
                        return False
                    if t.op == 'lt' and k > BIG:
                        return left
                    if t.op == 'lt' and (k <= 0 if left else k < 0):
                        return not left
                elif t.op == 'lt' and isinstance(x, T) and x.op == 'lin' and len(x.args[1]) == 2:
                    (u, cu), (v, cv) = x.args[1]
                    if cu < 0:
                        (u, cu), (v, cv) = (v, cv), (u, cu)
                    pu, pv = prio_of(u, M), prio_of(v, M)
                    c = k - number(x.args[0])
                    if pu and pv and (cu, cv) == (1, -1):
                        # u - v < c  /  c < u - v
                        if left and c in (0, 1):
                            return o.before(pu, pv)
                        if not left and c in (0, -1):
                            return o.before(pv, pu)
        if t.op in ('eq', 'ne', 'truth') or t.op == 'lt':
            o.unclear = o.unclear or repr(t)[:160]
        return None
    return decide_hook


def defined(o, us):
    """The definition, asking the same questions."""
    us = list(us)
    while True:
        best = None
        for p in dict.fromkeys(zip(us, us[1:])):
            if o.member(p) and (best is None or o.before(p, best)):
                best = p
        if best is None:
            return us
        out, i = [], 0
        while i < len(us):
            if i + 1 < len(us) and (us[i], us[i + 1]) == best:
                out.append(us[i] + us[i + 1])
                i += 2
            else:
                out.append(us[i])
                i += 1
        us = out


def work(ctx, job):
    mode, w = job
    if mode == 'read':
        return read(ctx)

    def entry(run):
        f = ctx.get(run, 'bpepkg.bpe_encode', 'encode_word')
        m = typed(ctx, run, 'MERGES', 'bpepkg.merge', 'MergeList')
        run.subject = m
        r = run.call(f, [C(w), m])
        o = run.__dict__.get('ord_') or Order(run)
        run.__dict__['ord_'] = o
        run.expected = defined(o, units(w))
        return r

    def dh(run, t):
        return decider(run.subject)(run, t) if 'subject' in run.__dict__ else None
    res = ctx.explore(w, entry, vec_opts(decide_hook=dh, max_paths=MAXP), note=False)
    if res.errors or res.limits:
        ctx.undecided(f'{w}: {(list(res.errors) + list(res.limits))[0]}'[:300])
    fn = anchor(ctx, 'bpepkg.bpe_encode', 'encode_word')
    for p in res.paths:
        run = p.run
        o = run.__dict__.get('ord_')
        if p.outcome == 'raise':
            if o is None or not o.unclear:
                ctx.violation(fn, f'encoding {w!r} fails with {p.value.name()} with the merges {o.text() if o else "-"}', p, key='raise')
            continue
        if p.outcome != 'return':
            continue
        parts = plain(p.value)
        if o.unclear or parts is None or not all(isinstance(x, C) for x in parts):
            ctx.undecided(f'{w}: not followed ({o.unclear or str(p.value)[:100]})')
            continue
        got = [x.v for x in parts]
        ctx.check(got == run.expected, fn, f'with the merges {o.text()} (first learned first) {w!r} is encoded as {got}; the learned order gives {run.expected}', p, key='order')


FILES = [
    (['b c 9', 'a b 9'], None, ['a', 'bc']), (['a b 1', 'b c 9'], None, ['ab', 'c']), (['b c', 'a b', 'a bc'], None, ['abc']),
    (['b c', 'a b', 'a bc'], 2, ['a', 'bc']), (['a b 2', 'b c 3', 'ab c 1'], 1, ['ab', 'c']), (['x y 5', 'c a 5', 'b c 5', 'a b 5'], 4, ['a', 'bc']),
    (['x y 5', 'c a 5', 'b c 5', 'a b 5'], 2, ['a', 'b', 'c']),
]


def read(ctx):
    """Merges read from a file are applied in the order of the file."""
    for k, (lines, n, want) in enumerate(FILES):
        w = World({'merges.txt': '\n'.join(lines) + '\n'}, C('/m'))

        def entry(run):
            f = ctx.get(run, 'bpepkg.merge', 'read_merges')
            g = ctx.get(run, 'bpepkg.bpe_encode', 'encode_word')
            m = run.call(f, [C('/m/merges.txt')] + ([] if n is None else [C(n)]))
            return run.call(g, [C('abc'), m])
        res = ctx.explore(f'read{k}', entry, vec_opts(read_hook=w.read, exists_default=w.exists, max_paths=50), note=False)
        fn = anchor(ctx, 'bpepkg.merge', 'read_merges')
        for p in res.paths:
            if p.outcome == 'raise':
                ctx.violation(fn, f'encoding with the merges read from the lines {lines} fails with {p.value.name()}', p, key='read')
                continue
            parts = plain(p.value) if p.outcome == 'return' else None
            if parts is None or not all(isinstance(x, C) for x in parts):
                ctx.undecided(f'read{k}: not followed ({p.outcome} {str(p.value)[:100]})')
                continue
            got = [x.v for x in parts]
            ctx.check(got == want, fn, f'with {"all" if n is None else n} of the lines {lines} the word abc is encoded as {got}, not {want}', p, key='read')
