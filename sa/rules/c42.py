"""C42: full strings keep their text, blanks included."""
from .lexkit import *

META = dict(
    technique='abstract interpretation over strings of abstract characters (value sets per character, trace partitioning) through lexer token, parser and representation',
    level_note='All literals with up to two arbitrary characters between the quotes, three with the first of a given class, and longer ones of given shapes: runs of blanks, numbers, '
               'words, marks, with lengths around every integer constant of the modules involved; all settings of no_spaces.',
    explanation='The text function nosplit with full strings is evaluated on a lexer that delivers one string literal with symbolic text. Exactly one token '
                'has to come back, the text of the literal with the placeholder for each space.',
    assumptions=['letters have a reversible, single-character case mapping; blanks that the parser drops outside of literals are covered by C23'],
)
SPACE = '\xa0'
NUMBERISH = frozenset('0123456789abcdefABCDEFxXlLdD_.+-')


def check(ctx):
    ctx.rule('with full strings a literal is exactly one token, which is the text of the literal with the placeholder for each space (numbers up to case)')
    sp, nl, tb, q = frozenset(' '), frozenset('\n'), frozenset('\t'), frozenset('"')
    B = frozenset(' \t\n')
    body = ALL - {x for x in BLANK if x not in ' \t\n'}
    L, U, D, P = LETTERS_L, LETTERS_U, DIGITS, PUNCT
    l = frozenset(x for x in L if len(x) == 1)
    D2, P2 = frozenset('23456789'), frozenset('=+*!')
    shapes = [[], [body], [body, body]]
    shapes += [[d, body, body] for d in (B, D, L | U, body - B - D - L - U)]
    for ds in ([sp] * 4, [sp] * 5, [l] + [sp] * 4 + [l], [l, tb, l], [tb] * 3, [nl, nl], [l, nl, sp, sp, sp, sp, l], [sp, l, sp], [P, sp, P, sp, P], [sp, nl, sp, tb, sp],
               [L, L, frozenset('_'), U, L, D, D, U], [sp, D, frozenset('.'), D, sp], [frozenset('0'), frozenset('xX'), D, D, frozenset('lL')], [OTHER_WORD, sp, OTHER_WORD],
               [frozenset('\\'), frozenset('n'), sp, frozenset('\\'), q], [sp] * 8, [sp] * 9):
        shapes.append(ds)
    for n in sorted({20, 64, 130} | set(thresholds(ctx, ['codeprep.parse', 'codeprep.tokens', 'codeprep.preprocess', 'codeprep.noneng'], 5, 1100))):
        for ds in ([sp] * n, [l] * n, [D2] * n, [P2] * n, [l, sp] * (n // 2), [tb] * n, [nl] * n, [l] * (n - 1) + [sp]):
            shapes.append(ds)
    jobs = []
    for ds in shapes:
        for ns in (False, True):
            jobs.append(('nosplit', ds, ns))
    # lexers deliver the quotes separately for some languages
    for ds in ([sp, l], [l, sp], [sp, sp, l, sp, sp], [nl, l, nl], [tb, l], [l, tb], [l], [l, l], [P, sp], [sp, P], [D2, sp], [sp, D2], [l, sp, sp, sp, sp, l], [sp, P, sp, P, sp],
               [B, l, B], [B, B, P], [P, B, B], [frozenset('\\'), l], [q, sp, l], [l, sp, q]):
        for ns in (False, True):
            jobs.append(('bare', ds, ns))
    jobs.sort(key=lambda j: -sum(len(d) > 40 for d in j[1]))
    ctx.parallel([[j] for j in jobs[:16]] + [jobs[16:][i::40] for i in range(40)], lambda c, js: [work(c, j) for j in js])


def work(ctx, job):
    name, doms, ns = job
    v = text('s', doms) if name == 'bare' else mkvec([C('"')] + [char(f's{i}', d) for i, d in enumerate(doms)] + [C('"')])
    kind, name = name, 'nosplit'
    what = f'{kind}{len(doms)}{" no_spaces" if ns else ""}'

    def entry(run):
        f = ctx.get(run, 'api.text', name)
        kw = {'no_spaces': C(ns), 'full_strings': TRUE}
        return run.call(f, [sym('TEXT', 'str'), C('java')], kw)
    res = ctx.explore(what, entry, stream_opts([('Literal.String', v)], max_paths=20000), note=False)
    if res.errors or res.limits:
        ctx.undecided(f'{what}: {(list(res.errors) + list(res.limits))[0]}'[:300])
    fn = anchors(ctx, 'api.text', name)
    for p in res.paths:
        run = p.run
        if p.outcome == 'raise':
            ctx.violation(fn, f'{what}: the literal {vstr(run, v)} fails with {p.value.name()}', p, key=f'{name}:raise')
            continue
        if p.outcome != 'return':
            continue
        out = plain(p.value)
        if out is None or any(not isinstance(x, (C, T)) or vec(x) is None for x in out):
            ctx.undecided(f'{what}: not followed ({str(p.value)[:100]})')
            continue
        if len(out) != 1:
            ctx.violation(fn, f'{what}: the literal {vstr(run, v)} gives {len(out)} tokens instead of one', p, key='count')
            continue
        got = [c for x in out for c in vec(x)]
        bad = wrong(run, vec(v), got)
        ctx.check(bad is None, fn, f'{what}: the literal {vstr(run, v)} becomes {vstr(run, mkvec(got))}: {bad}', p, key=f'{name}:text')


def wrong(run, want, got):
    num = False
    for i, c in enumerate(want):
        if i >= len(got):
            return f'{vstr(run, mkvec(want[i:]))} is missing'
        im = images(run, c)
        o = got[i]
        if im == {' '}:
            if not (isinstance(o, C) and o.v == SPACE):
                return f'a space becomes {vstr(run, mkvec([o]))}'
        elif ' ' in im and not fits(run, o, c, False):
            return f'a blank becomes {vstr(run, mkvec([o]))}'
        elif not fits(run, o, c, False) and not (num and fits(run, o, c, True)):
            return f'{vstr(run, mkvec([c]))} becomes {vstr(run, mkvec([o]))}'
        num = bool(im <= NUMBERISH and (num or im <= DIGITS))
    return f'{vstr(run, mkvec(got[len(want):]))} is added' if len(got) > len(want) else None
