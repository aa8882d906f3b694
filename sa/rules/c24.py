"""C24: each lexer token becomes a token of the right kind."""
from .lexkit import *

META = dict(
    technique='exhaustive evaluation of the token rules over all standard token types by abstract interpretation, texts as vectors of abstract characters',
    level_note='All standard Pygments token types and subtypes of them, with every blank and non-blank text of up to two characters, and longer texts of uniform patterns; '
               'known and unknown languages.',
    explanation='convert_text is evaluated on a lexer that delivers one token of each type with symbolic text; the classes of the tokens it produces are compared with '
                'the kind the type stands for.',
)
PLAIN = {'SplitContainer', 'NonEng', 'Number', 'NonCodeChar', 'Whitespace'}


def expected(t):
    """(description, classes of which every token has to be one, class of which there has to be one)."""
    p = tuple(t.split('.'))
    if p == ('Comment', 'Single'):
        return 'single-line comments', {'OneLineComment'}
    if p[0] == 'Comment':
        return 'other comments', {'MultilineComment'}
    if p[:2] == ('Literal', 'String'):
        return 'string literals', {'StringLiteral'}
    if p[:2] == ('Literal', 'Number'):
        return 'numbers', {'Number'}
    if p[0] == 'Keyword':
        return 'keywords', {'KeyWord'}
    if p == ('Operator',) or p[0] == 'Punctuation':
        return 'operators and punctuation', {'Operator'}
    if p[0] == 'Name':
        return 'names', PLAIN
    return 'other text', PLAIN


def check(ctx):
    ctx.rule('each lexer token type gives tokens of the kind it stands for')
    ctx.rule('blank text of any lexer type gives whitespace tokens only')
    ctx.rule('every lexer token is handled; visible text always gives a token')
    ctx.rule('the whole text is lexed, also if no lexer is known for the language')
    types = [t for t in STANDARD if t != 'Token'] + ['Token']
    jobs = []
    for t in types:
        jobs += [(t, 'any1', [ALL]), (t, 'any2', [ALL, ALL])]
        jobs += [(t, 'word', [LETTERS_L] * 3 + [LETTERS_U, LETTERS_L]), (t, 'marks', [PUNCT] * 3), (t, 'digits', [DIGITS] * 3),
                 (t, 'mixed', [PUNCT, PUNCT, frozenset(' '), LETTERS_L, LETTERS_L]), (t, 'newline', [LETTERS_L, LETTERS_L, frozenset('\n')])]
        jobs += [(t, f'blank{n}', [frozenset(' ')] * n) for n in (4, 8)] + [(t, 'break', [frozenset('\n')] * 2), (t, 'indent', [frozenset('\n')] + [frozenset(' ')] * 4)]
    ctx.parallel([jobs[i::64] for i in range(64)], lambda c, js: [work(c, j) for j in js])
    languages(ctx)


def work(ctx, job):
    t, name, doms = job
    w = text('s', doms)
    res = parsing(ctx, f'{t}:{name}', [(t, w)])
    fn = anchors(ctx)
    what, cls = expected(t)
    for p in res.paths:
        run = p.run
        if p.outcome == 'raise':
            ctx.violation(fn, f'the text {vstr(run, w)} of lexer type {t} is rejected ({p.value.name()})', p, key=f'{t}:raise')
            continue
        if p.outcome != 'return':
            continue
        if not hasattr(run, 'tops') or run.lost:
            ctx.undecided(f'{t}:{name}: {getattr(run, "lost", "")}')
            continue
        cs = vec(w)
        visible = any(not any(isspace1(x) for x in images(run, c)) for c in cs)
        may_blank = not visible
        may_visible = any(any(not isspace1(x) for x in images(run, c)) for c in cs)
        if may_blank:
            ctx.check(all('Whitespace' in c for c in run.tops), fn,
                      f'the blank text {vstr(run, w)} of lexer type {t} becomes {names(run.tops)}', p, key=f'{t}:blank')
        if may_visible:
            bad = [c for c in run.tops if not c & cls]
            ctx.check(not bad, fn, f'the text {vstr(run, w)} of lexer type {t} ({what}) becomes {names(run.tops)}', p, key=f'{t}:kind')
            ctx.check(any('Whitespace' not in c for c in run.tops), fn, f'the text {vstr(run, w)} of lexer type {t} gives no token', p, key=f'{t}:none')


def names(tops):
    order = ('NewLine', 'Tab', 'SpaceInString', 'OneLineComment', 'MultilineComment', 'StringLiteral', 'SplitContainer', 'NonEng', 'KeyWord',
             'Operator', 'NonCodeChar', 'Number', 'SpecialToken')
    return ', '.join(next((n for n in order if n in c), '?') for c in tops) or 'nothing'


def languages(ctx):
    """Whatever the language, the whole text goes through a lexer."""
    T0 = sym('TEXT', 'str')
    for ext in (sym('EXT', 'str'), C('java'), C(''), NONE):
        res = parsing(ctx, f'language {ext!r}', [('Name', text('s', [LETTERS_L]))], lexers=True, text_arg=T0, ext=ext)
        fn = anchors(ctx)
        for p in res.paths:
            if p.outcome == 'raise':
                ctx.violation(fn, f'converting a text of a language ({ext!r}) fails with {p.value.name()}', p, key='language')
                continue
            if p.outcome != 'return':
                continue
            lx = p.ev('lexed')
            ctx.check(len(lx) == 1, fn, f'the text is lexed {len(lx)} times', p, key='lexed')
            ctx.check(len(getattr(p.run, 'tops', [])) == 1 or p.run.lost, fn, f'one word becomes {len(p.run.tops)} tokens', p, key='one')
            for e in lx:
                t = e.text
                while isinstance(t, T) and t.op == 'mcall' and t.args[1] in ('strip', 'rstrip', 'lstrip') and len(t.args) == 2:
                    t = t.args[0]
                if t == T0:
                    ctx.ok(fn)
                elif isinstance(t, T) and (t.op in ('slice', 'charof') or t.op == 'mcall' and t.args[1] in ('replace', 'lower', 'upper')):
                    ctx.violation(e, f'not the given text is lexed but {t!r}', p, key='text')
                else:
                    ctx.undecided(f'the text that is lexed was not followed: {str(t)[:100]}')
