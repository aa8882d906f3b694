"""C14: BPE end-of-token markers sit exactly on token-final subtokens."""
from .prepkit import *

META = dict(
    technique='path-sensitive abstract interpretation of the conversion of symbolic tokens (trace partitioning over configurations and token kinds)',
    level_note='All configurations (string limit: placeholder, unlimited, limited), every kind of token between two others; contents are symbolic. '
               'BPE splitting returns one or three opaque pieces.',
    explanation='On every path of the conversion the positions of the tokens ending with the marker are compared with the word boundaries.',
)
MARK = '</t>'
FULL = {'OneLineComment': 5, 'MultilineComment': 4}


def marks(t):
    """Number of markers at the end of a token and elsewhere in it."""
    parts = list(t.args) if isinstance(t, T) and t.op == 'cat' else [t]
    end = other = 0
    for i, x in enumerate(parts):
        if not isinstance(x, C) or not isinstance(x.v, str):
            continue
        s = x.v
        if i == len(parts) - 1:
            while s.endswith(MARK):
                s, end = s[:-len(MARK)], end + 1
        other += s.count(MARK)
    return end, other


def full_tokens(v, kind):
    if kind in ('NewLine', 'Tab'):
        return 0 if v['TABS_NEWLINES'] == '0' else 1
    blanks = 0 if v['TABS_NEWLINES'] == '0' else 2
    if kind in MORE and MORE[kind][1].endswith('Comment') and v['COM'] != '0':
        return {'empty line comment': 1, 'empty comment': 0, 'blank comment': blanks, 'comment with its line end': 3 + blanks}[kind]
    if kind in FULL:
        return 1 if v['COM'] == '0' else FULL[kind]
    return 1


def check(ctx):
    ctx.rule('with BPE, a token ends with exactly one end marker if and only if its end is a word boundary, the marker occurs nowhere else, and each full token '
             'has one boundary; without BPE the marker does not occur')

    def work(sub, v):
        bpe = v['SPLIT'] in BPE
        for k in (*KINDS, *MORE):
            for before, after in (((), ()), (('KeyWord',), ('Operator',))):
                for s in conversions(sub, v, [k], before, after):
                    judge(sub, v, bpe, k, s, full_tokens(v, k) + 2 * len(before), f'{k}, configuration {cfg_name(v)}')
    over_configs(ctx, work, configs())
    terminal(ctx)


def judge(ctx, v, bpe, k, s, n, what):
    at = at_kind(ctx, k)
    if s.tokens is None or s.bounds is None or any(not isinstance(x, C) for x in s.bounds):
        ctx.open_obligation(f'{what}: {"raises " + s.exc if s.exc else "lists of unknown length"}')
        return
    b = [x.v for x in s.bounds]
    p = s.path
    for i, t in enumerate(s.tokens):
        end, other = marks(t)
        ctx.check(other == 0, at, f'{what}: the end marker is inside the token {t}', p, key=f'inside:{at}')
        if not bpe:
            ctx.check(end == 0, at, f'{what}: the token {t} has an end marker without BPE', p, key=f'nobpe:{at}')
        elif i + 1 in b[1:]:
            ctx.check(end >= 1, at, f'{what}: the last subtoken {t} of a full token has no end marker', p, key=f'missing:{at}')
            ctx.check(end <= 1, at, f'{what}: the last subtoken {t} of a full token has several end markers', p, key=f'several:{at}')
        else:
            ctx.check(end == 0, at, f'{what}: the subtoken {t} has an end marker but is not the last one of its full token', p, key=f'early:{at}')
    if bpe:
        ctx.check(len(b) - 1 == n, at, f'{what}: {len(b) - 1} full tokens are recorded where there are {n}', p, key=f'count:{at}')


def terminal(ctx):
    at = {}
    for text, want in (('ab' + MARK, True), (MARK, True), ('ab', False), ('', False), (MARK + 'a', False), ('</w>', False)):
        def entry(run):
            at['f'] = ctx.get(run, 'subtokens', 'is_terminal_subtoken')
            return run.call(at['f'], [C(text)])
        for p in ctx.explore('terminal', entry, Opts(max_paths=10), note=False).paths:
            if p.outcome == 'return' and isinstance(p.value, C):
                ctx.check(bool(p.value.v) == want, at['f'], f'{text!r} is {"" if not want else "not "}recognised as the last subtoken of a full token', p, key='terminal')
            else:
                ctx.open_obligation('is_terminal_subtoken: not decided')
