"""C23: tokenizing keeps the visible text, in order."""
from .lexkit import *

META = dict(
    technique='abstract interpretation over strings of abstract characters (value sets per character, trace partitioning), including an abstract matcher for the regular expressions',
    level_note='All texts of up to three arbitrary characters for each kind of lexer token, all pairs of kinds, and longer texts: words, numbers, identifiers, runs of blanks, '
               'with lengths around every integer constant of the parsing modules.',
    explanation='convert_text is evaluated on a lexer that delivers symbolic text. On every path the texts of the tokens produced are aligned with the text delivered: every '
                'character that is not blank has to be in exactly one token, unchanged (numbers up to case), in the original order, and no token may contain a space.',
    assumptions=['letters have a reversible, single-character case mapping; ASCII control characters other than blanks are not covered'],
)
KINDS = ('Name', 'Keyword', 'Literal.String', 'Comment.Single', 'Comment.Multiline', 'Literal.Number.Integer', 'Operator', 'Punctuation', 'Operator.Word',
         'Generic.Output', 'Literal', 'Text', 'Error', 'Literal.Date')


def check(ctx):
    ctx.rule('every character delivered by the lexer that is not blank is in exactly one token, in the original order')
    ctx.rule('the text of the tokens is the text delivered; numbers up to case')
    ctx.rule('no token contains a space')
    sp, nl = frozenset(' '), frozenset('\n')
    L, U, D, W, P = LETTERS_L, LETTERS_U, DIGITS, OTHER_WORD, PUNCT
    D2, P2 = frozenset('23456789'), frozenset('=+*!')
    l, u = frozenset(x for x in L if len(x) == 1), frozenset(x for x in U if len(x) == 1)
    jobs = []
    for k in KINDS:
        for n in (1, 2):
            jobs.append((f'any{n}', [(k, [ALL] * n)]))
        jobs += [('any3', [(k, [d] + [ALL] * 2)]) for d in (BLANK, DIGITS, LETTERS_L | LETTERS_U, ALL - BLANK - DIGITS - LETTERS_L - LETTERS_U)]
        A = frozenset('abcxyz')
        for ds in ([L, sp, L], [L] + [sp] * 4 + [L], [L] + [sp] * 5 + [P], [sp] * 9 + [L], [L, nl, L], [P, sp, P, sp, P], [L, L, frozenset('_'), U, L, D, D, U, U, L],
                   [U, U, U, L, L, U], [D, frozenset('.'), D, frozenset('eE'), frozenset('+-'), D, frozenset('fFdD')], [frozenset('0'), frozenset('xXbB'), D | A, D | A, frozenset('lL')],
                   [W, W, L, U, W], [L, L, D, D, D, L], [frozenset('"'), L, sp, sp, D, sp, P, frozenset('"')], [nl, sp, sp, sp, sp, L, nl, nl], [frozenset('\t'), L, frozenset('\t'), P],
                   [frozenset('_')] * 3 + [L, frozenset('_')], [frozenset('0'), D, D, L], [D] * 3 + [frozenset('_')] + [D] * 3):
            jobs.append((f'shape{len(ds)}', [(k, ds)]))
        lens = thresholds(ctx, ['codeprep.parse', 'codeprep.tokens', 'codeprep.noneng'], 5, 2100)
        for n in sorted({70, 256} | set(lens)):
            for ds in ([l] * n, [D2] * n, [u] * n, [P2] * n, [sp] * n + [l], [l, sp] * (n // 2), [l, u] * (n // 2), [frozenset('_')] * n, [l] + [nl] * n + [l],
                       [L - l] * n, [U - u] * n, [l] * (n - 1) + [L - l]):
                jobs.append((f'long{n}', [(k, ds)]))
    one = {'Literal.Number.Integer': D2, 'Operator': P2, 'Punctuation': P2}
    for a in KINDS:
        for b in KINDS:
            jobs.append(('pair', [(a, [one.get(a, l)] * 2), (b, [one.get(b, l)])]))
            jobs.append(('spaced', [(a, [one.get(a, l)]), ('Text', [sp]), (b, [one.get(b, l)] * 2)]))
    jobs.append(('all', [(k, [one.get(k, l)] * 2) for k in KINDS]))
    jobs.append(('twice', [(k, [one.get(k, l)] * 2) for k in KINDS for _ in (0, 1)]))
    same_ = text('x', [l, l])
    jobs.append(('same', [('Name', same_), ('Text', [sp]), ('Name', same_), ('Operator', [P2]), ('Name', same_), ('Keyword', same_), ('Keyword', same_), ('Literal.String', same_),
                          ('Literal.String', same_), ('Comment.Single', same_), ('Comment.Single', same_)]))
    jobs.append(('many', [('Name', [l]) if i % 2 else ('Operator', [P2]) for i in range(150)]))
    big = [j for j in jobs if j[0] == 'any3']
    small = [j for j in jobs if j[0] != 'any3']
    ctx.parallel([[j] for j in big] + [small[i::48] for i in range(48)], lambda c, js: [work(c, j) for j in js])


def work(ctx, job):
    name, toks = job
    given = [(k, d if isinstance(d, (C, T)) else text(f's{i}_', d)) for i, (k, d) in enumerate(toks)]
    what = f'{name}:{toks[0][0]}' if len(toks) == 1 else name
    res = parsing(ctx, what, given)
    fn = anchors(ctx)
    for p in res.paths:
        run = p.run
        if p.outcome == 'raise':
            ctx.violation(fn, f'the text {", ".join(vstr(run, v) for _, v in given[:4])} ({toks[0][0]}) fails with {p.value.name()}', p, key=f'{what}:raise')
            continue
        if p.outcome != 'return':
            continue
        if not hasattr(run, 'leaves') or run.lost:
            ctx.undecided(f'{what}: not followed: {getattr(run, "lost", "")}')
            continue
        r = missing(run, given, run.leaves)
        if isinstance(r, LookupError):
            ctx.undecided(f'{what}: not followed: {r}')
            continue
        shown = ', '.join(vstr(run, v) for _, v in given[:4])
        ctx.check(r is None, fn, f'text {shown[:200]} of lexer type {toks[0][0]}: {r}', p, key=f'{what}')
