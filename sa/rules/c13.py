"""C13: tokens and metadata stay in lockstep."""
from .prepkit import *

META = dict(
    technique='path-sensitive abstract interpretation of the conversion of symbolic tokens (trace partitioning over configurations and token kinds)',
    level_note='All configurations (string limit: placeholder, unlimited, limited), every kind of token between two others; contents are symbolic. '
               'Splitters return one or three opaque pieces.',
    explanation='For every configuration and token kind the conversion is evaluated with symbolic content; the lists it returns have known lengths on every '
                'path, which are compared.',
)


def check(ctx):
    ctx.rule('in the result of converting tokens: boundaries[0] == 0, boundaries[-1] == number of tokens, boundaries do not decrease, '
             'len(boundaries) == len(token types) + 1')

    def work(sub, v):
        for k in (*KINDS, *MORE):
            for before, after in (((), ()), (('KeyWord',), ('Operator',))):
                for s in conversions(sub, v, [k], before, after):
                    judge(sub, at_kind(sub, k), s, f'{k}, configuration {cfg_name(v)}')
        for s in conversions(sub, v, []):
            judge(sub, at_kind(sub, 'KeyWord'), s, 'no token')
    over_configs(ctx, work, configs())
    update(ctx)


def judge(ctx, at, s, what):
    if s.exc is not None:
        ctx.open_obligation(f'{what}: raises {s.exc}')
        return
    if s.tokens is None or s.bounds is None or s.types is None:
        ctx.open_obligation(f'{what}: lists of unknown length')
        return
    b = [x.v if isinstance(x, C) else None for x in s.bounds]
    if any(not isinstance(x, int) for x in b):
        ctx.open_obligation(f'{what}: boundaries unknown')
        return
    p = s.path
    ctx.check(b and b[0] == 0, at, f'{what}: the word boundaries {b} do not start with 0', p, key='start:' + str(at))
    ctx.check(b and b[-1] == len(s.tokens), at, f'{what}: {len(s.tokens)} tokens, but the last word boundary is {b[-1:]}', p, key='end:' + str(at))
    ctx.check(all(x <= y for x, y in zip(b, b[1:])), at, f'{what}: the word boundaries {b} decrease', p, key='order:' + str(at))
    ctx.check(len(b) == len(s.types) + 1, at, f'{what}: {len(b)} word boundaries but {len(s.types)} token types', p, key='types:' + str(at))


def update(ctx):
    """Joining two metadata objects, for all small shapes."""
    shapes = [[0], [0, 1], [0, 3], [0, 1, 3], [0, 0], [0, 2, 2, 5]]
    at = {}
    for a in shapes:
        for b in shapes:
            def entry(run):
                M = ctx.get(run, 'preprocess.metadata', 'PreprocessingMetadata')
                at['f'] = ctx.get(run, 'preprocess.metadata', 'PreprocessingMetadata.update') if False else M
                W, N = cls(ctx, run, 'word', 'KeyWord'), cls(ctx, run, 'numeric', 'Number')

                def mk(bs, t, n):
                    with quietly(run):
                        return run.call(M, [], dict(nonprocessable_tokens=run.alloc(HSet([('e', C(n))])), word_boundaries=run.alloc(HList([('e', C(x)) for x in bs])),
                                                    token_types=run.alloc(HList([('e', t)] * (len(bs) - 1)))))
                m, n = mk(a, W, 'x'), mk(b, N, 'y')
                run.call(run.getattr(m, 'update'), [n])
                return m
            res = ctx.explore('update', entry, Opts(max_paths=20), note=False)
            for p in res.paths:
                if p.outcome != 'return' or not isinstance(p.value, HObj):
                    ctx.open_obligation('joining metadata: not decided')
                    continue
                got = [x.v if isinstance(x, C) else None for x in plain(p.value.fields.get('word_boundaries')) or []]
                ts = plain(p.value.fields.get('token_types'))
                want = a[:-1] + [a[-1] + x for x in b]
                ctx.check(got == want, at['f'], f'joining the word boundaries {a} and {b} gives {got} instead of {want}', p, key='update')
                ctx.check(ts is not None and len(ts) == len(a) + len(b) - 2, at['f'], 'joining metadata does not give the types of both, in order', p, key='update types')
                ns = plain(p.value.fields.get('nonprocessable_tokens'))
                ctx.check(ns is not None and set(ns) == {C('x'), C('y')}, at['f'], 'joining metadata does not give the non-processable tokens of both', p, key='update nonproc')
