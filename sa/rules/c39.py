"""C39: identifiers are split at the conventional places."""
from itertools import product
from .lexkit import *

META = dict(
    technique='abstract interpretation over strings of abstract characters, with an abstract matcher for the regular expressions; one class sequence of characters per run',
    level_note='Every sequence of capitals, small letters, digits and underscores of up to seven characters (thorough tier: eight), each character being any of its class, '
               'and longer runs around every integer constant of the parsing modules.',
    explanation='convert_text is evaluated on one word whose characters are arbitrary members of given classes; the subtokens have to be the pieces between the places the convention names.',
    assumptions=['letters have a reversible, single-character case mapping'],
)
CLASSES = {'U': LETTERS_U, 'l': LETTERS_L, 'd': DIGITS, '_': frozenset('_')}
PLAIN = {k: frozenset(x for x in v if len(x) == 1) for k, v in CLASSES.items()}


def pieces(s):
    """The lengths of the pieces of a class sequence."""
    out, n = [], 1
    for i in range(1, len(s)):
        a, b, c = s[i - 1], s[i], s[i + 1:i + 2]
        cut = a == '_' or b == '_' or (a == 'd') != (b == 'd') or (a, b) == ('l', 'U') or (a, b, c) == ('U', 'U', 'l')
        if cut:
            out.append(n)
            n = 0
        n += 1
    return out + [n]


def check(ctx):
    ctx.rule('an identifier is split at underscores, between letters and digits, between a small letter and a capital, and before the last of several capitals if a small letter follows')
    ctx.rule('it is split nowhere else')
    top = 8 if ctx.tier == 'thorough' else 7
    jobs = []
    for n in range(1, top + 1):
        for s in product('Uld_', repeat=n):
            if s[0] == 'd':
                continue
            s = ''.join(s)
            jobs.append(('Name', s, n <= 4))
            if n <= 3:
                jobs += [(k, s, False) for k in ('Comment.Single', 'Comment.Multiline', 'Literal.String', 'Name.Function', 'Name.Class')]
    for n in sorted({12, 40} | set(thresholds(ctx, ['codeprep.parse', 'codeprep.tokens', 'codeprep.noneng'], 7, 300))):
        for unit in ('l', 'U', 'd', '_', 'lU', 'Ul', 'UUl', 'l_', 'ld', 'Ud', 'lld', '_U'):
            s = (unit * n)[:n]
            jobs.append(('Name', s if s[0] != 'd' else 'l' + s, False))
            jobs.append(('Name', 'l' + s + 'Ul', False))
    ctx.parallel([jobs[i::64] for i in range(64)], lambda c, js: [work(c, j) for j in js])


def work(ctx, job):
    kind, s, wide = job
    doms = [(CLASSES if wide else PLAIN)[k] for k in s]
    v = text('s', doms)
    res = parsing(ctx, f'{kind}:{s[:40]}', [(kind, v)])
    fn = anchors(ctx)
    want, i = [], 0
    for n in pieces(s):
        want.append(mkvec(vec(v)[i:i + n]))
        i += n
    for p in res.paths:
        run = p.run
        if p.outcome == 'raise':
            ctx.violation(fn, f'splitting {vstr(run, v)} fails with {p.value.name()}', p, key='raise')
            continue
        if p.outcome != 'return':
            continue
        if not hasattr(run, 'leaves') or run.lost:
            ctx.undecided(f'{kind}:{s}: not followed: {getattr(run, "lost", "")}')
            continue
        got = [l.text for l in run.leaves if 'Whitespace' not in l.names and not (vec(l.text) == [])]
        rs = [same(run, a, b) for a, b in zip(got, want)]
        if None in rs:
            ctx.undecided(f'{kind}:{s}: the subtokens were not followed')
            continue
        ctx.check(len(got) == len(want) and all(rs), fn,
                  f'{vstr(run, v)} is split into {", ".join(vstr(run, x) for x in got)}, not {", ".join(vstr(run, x) for x in want)}', p, key='split')
