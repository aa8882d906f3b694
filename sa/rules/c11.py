"""C11: each preprocessing option has exactly its documented effect."""
from .prepkit import *
from .lexkit import stream_opts, text, vstr, vec, ALL, LETTERS_L, BLANK

META = dict(
    technique='path-sensitive abstract interpretation of the conversion of symbolic tokens, compared with the documented effect of each option',
    level_note='All configurations the interfaces offer (string limit: placeholder, unlimited, limited), every kind of token, content symbolic, splitters '
               'returning one or three pieces; every string limit at its boundary. Case changes inside one word are property C28.',
    explanation='For every configuration and token kind, the tokens returned on each path are compared one by one with those the options prescribe for that kind: '
                'constants exactly, symbolic tokens by the content and the processing (splitting, stemming, replacement) they contain.',
    assumptions=['The split of a word by Ronin, the stemmer and BPE is opaque (one or three pieces).'],
)
KEYOPS = ('sub', 'ronin', 'stem', 'asciified', 'char')


def text_of(run, o):
    return run.to_str(o)


class Spec:
    """The documented result for a token."""

    def __init__(self, ctx, run, v):
        self.ctx, self.run, self.v = ctx, run, v
        self.bpe = v['SPLIT'] in BPE
        self.limit = {'0': None, '1': None}.get(v['STR'], None if v['STR'] in '01' else STRS.index(v['STR']))

    def pieces(self, kind, t):
        return [s[1] for s in split_result(self.run, kind, fz(t)).segs]

    def number(self, o):
        n = text_of(self.run, o)
        if self.v['SPLIT'] in '0F1':
            return [n]
        if self.bpe:
            return self.pieces('sub', n)
        ds = digits_hook(self.run, fz(n))
        if ds is None:
            return None
        return ds if len(ds) == 1 else [C('<w>'), *ds, C('</w>')]

    def identifier(self, o):
        run, s = self.run, self.v['SPLIT']
        if s in '0F':
            return [text_of(run, o)]
        if self.bpe:
            return self.pieces('sub', text_of(run, o))
        out = []
        for w in o.fields['subtokens'].segs:
            w = w[1]
            if w.cls.name != 'Word':
                out.append(C('_'))
                continue
            cap = w.fields['capitalization'].name
            if self.v['CASE'] == 'l':
                out += {'FIRST_LETTER': [C('<Cap>')], 'ALL': [C('<CAPS>')]}.get(cap, [])
                t = fz(w.fields['canonic_form'])
            else:
                t = fz(text_of(run, w))
            ps = [t] if s in '12' else self.pieces('ronin', t)
            out += [T('stem', p) for p in ps] if s == 's' else ps
        if len(out) == 1 or len(out) == 2 and out[0] in (C('<Cap>'), C('<CAPS>')):
            return out
        return [C('<w>'), *out, C('</w>')]

    def token(self, o):
        k = o.cls.name
        v = self.v
        if k in ('KeyWord', 'Operator', 'NonCodeChar', 'SpecialToken'):
            return [o.fields['token']]
        if k in ('NewLine', 'Tab'):
            return [] if v['TABS_NEWLINES'] == '0' else [C('\n' if k == 'NewLine' else '\t')]
        if k == 'SpaceInString':
            return [C('\xa0' * o.fields['n_chars'].v)]
        if k == 'Number':
            return self.number(o)
        if k == 'SplitContainer':
            return self.identifier(o)
        if k == 'NonEng':
            c = o.fields['processable_token']
            if v['EN_ONLY'] == 'u':
                return self.token(c)
            if not self.bpe:
                return [C('<non-en>')]
            return ANY_ASCII
        if k in ('OneLineComment', 'MultilineComment'):
            if v['COM'] == '0':
                return [C('<comment>')]
            return self.all(x[1] for x in o.fields['subtokens'].segs) + ([C('<EOL>')] if k == 'OneLineComment' else [])
        if k == 'StringLiteral':
            if v['STR'] == '0':
                return [C('<str-literal>')]
            n = o.fields['length']
            if self.limit is not None and n.v > self.limit:
                return [C('""')] if v['SPLIT'] == 'F' else [C('"'), C('"')]
            if self.bpe or v['SPLIT'] == 'F':
                return ANY_ASCII if v['EN_ONLY'] == 'U' else [text_of(self.run, o)] if not self.bpe else self.pieces('sub', text_of(self.run, o))
            return self.all(x[1] for x in o.fields['subtokens'].segs if x[1].cls.name != 'SpaceInString')
        return None

    def all(self, os):
        out = []
        for o in os:
            r = self.token(o)
            if r is None or r is ANY_ASCII:
                raise Unknown()
            out += r
        return out


class Unknown(Exception):
    pass


ANY_ASCII = ['ascii']
STRS = [chr(c) for a, b in ((48, 58), (65, 91), (97, 123)) for c in range(a, b)]


def unmark(t, bpe):
    """A token without its end marker."""
    if bpe and isinstance(t, C) and isinstance(t.v, str) and t.v.endswith('</t>'):
        return C(t.v[:-4])
    if bpe and isinstance(t, T) and t.op == 'cat' and isinstance(t.args[-1], C) and t.args[-1].v.endswith('</t>'):
        a = list(t.args[:-1])
        rest = t.args[-1].v[:-4]
        if rest:
            a.append(C(rest))
        return a[0] if len(a) == 1 else T('cat', *a)
    return t


def content_syms(t, out=None):
    out = set() if out is None else out
    if isinstance(t, T):
        if t.op == 'sym':
            out.add(str(t))
        for a in t.args:
            content_syms(a, out)
    elif isinstance(t, (tuple, list)):
        for a in t:
            content_syms(a, out)
    return out


def key_ops(t, out=None):
    out = set() if out is None else out
    if isinstance(t, T):
        if t.op in KEYOPS:
            out.add((t.op, *[a.v for a in t.args[1:] if isinstance(a, C) and isinstance(a.v, int)]))
        for a in t.args:
            key_ops(a, out)
    return out


def differs(got, want):
    """Why a token is certainly not the expected one, '' if it may be, None if they are equal."""
    if got == want:
        return None
    if isinstance(got, C) or isinstance(want, C):
        return '' if isinstance(want, C) and not isinstance(got, C) and not content_syms(got) else 'text'
    if content_syms(got) != content_syms(want):
        return 'content'
    if key_ops(got) != key_ops(want):
        return 'processing'
    if isinstance(got, T) and got.op == 'sym' and isinstance(want, T) and want.op != 'sym':
        return 'processing'
    return ''


def check(ctx):
    ctx.rule('the tokens for each kind of token are those the option that governs the kind prescribes, whatever the other options')
    ctx.rule('a string literal of length n is emptied if and only if n exceeds the limit of the configuration; without a limit it never is')

    def work(sub, job):
        v, kind, n = job
        one(sub, v, kind, n)
    jobs = []
    for v in configs():
        if v['CASE'] == 'l' and v['SPLIT'] == '8':
            continue        # no interface offers it
        for k in (*KINDS, *MORE):
            jobs += [(v, k, n) for n in ((13, 14, 15, 10 ** 9) if k == 'StringLiteral' else (None,))]
    for i, ch in enumerate(STRS):
        if i >= 2:
            for s in ('F', '1', '4', '0'):
                for n in {0, i - 1, i, i + 1, 2 * i, 10 ** 9}:
                    jobs.append((dict(EN_ONLY='u', COM='c', STR=ch, SPLIT=s, TABS_NEWLINES='s', CASE='u'), 'StringLiteral', n))
    over_configs(ctx, work, jobs)
    limits(ctx)
    measured(ctx)


def builders(ctx, n):
    bs = dict(tokens(ctx))
    if n is not None:
        bs['StringLiteral'] = lambda run: run.call(cls(ctx, run, 'containers', 'StringLiteral'), [inner(ctx, run), C(n)])
    return bs


def one(ctx, v, kind, n, config=None):
    name = cfg_name(v)
    what = f'{kind}{"" if n is None else f" of length {n}"}, configuration {name}'
    bpe = v['SPLIT'] in BPE
    at = at_kind(ctx, kind)

    def entry(run):
        with quietly(run):
            o = builders(ctx, n)[kind](run)
            try:
                want = Spec(ctx, run, v).token(o)
            except Unknown:
                want = None
        r = convert(ctx, run, v, [o])
        return Tup([r, C(None) if want is None else C('ascii') if want is ANY_ASCII else run.alloc(HList([('e', x) for x in want]))])
    res = ctx.explore(f'{name}:{kind}', entry, prep_opts(max_paths=64), note=False)
    for p in res.paths:
        if p.outcome == 'raise':
            ctx.violation(at, f'{what}: raises {p.value.name()}', p, key=f'raise:{kind}:{p.value.name()}')
            continue
        if p.outcome != 'return':
            ctx.open_obligation(f'{what}: {p.outcome}')
            continue
        r, w = p.value.items
        got = plain(r.items[0]) if isinstance(r, Tup) else None
        if got is None:
            ctx.open_obligation(f'{what}: tokens not known')
            continue
        got = [unmark(x, bpe) for x in got]
        if isinstance(w, C) and w.v == 'ascii':
            ok = got and (all(key_ops(x) and any(o[0] == 'asciified' for o in key_ops(x)) for x in got) and (not bpe or all(any(o[0] == 'sub' for o in key_ops(x)) for x in got)))
            ctx.check(ok, at, f'{what}: gives {show(got)} instead of the text with non-ASCII characters replaced', p, key=f'ascii:{kind}')
            continue
        if isinstance(w, C):
            ctx.open_obligation(f'{what}: no expectation')
            continue
        want = plain(w)
        if not ctx.check(len(got) == len(want), at, f'{what}: gives {show(got)} instead of {show(want)}', p, key=f'number:{kind}'):
            continue
        for g, x in zip(got, want):
            d = differs(g, x)
            if d == '':
                ctx.open_obligation(f'{what}: {show([g])} or {show([x])}')
            else:
                ctx.check(d is None, at, f'{what}: gives {show(got)} instead of {show(want)}', p, key=f'{d}:{kind}')


def show(ts):
    return '[' + ', '.join(str(t)[:60] for t in ts)[:200] + ']'


def limits(ctx):
    """The limit asked for is the limit of the configuration."""
    def work(sub, job):
        kind, n, m = job
        at = {}

        def entry(run):
            at['f'] = ctx.get(run, 'api.common', 'create_prep_config')
            kw = {} if n is None else dict(max_str_length=C(n))
            if kind == 'full':
                pc = run.call(at['f'], [C('nosplit')], dict(kw, full_strings=C(True)))
            elif kind == 'bpe':
                pc = run.call(at['f'], [C('bpe')], dict(kw, bpe_codes_id=C('1k')))
            else:
                pc = run.call(at['f'], [C(kind)], kw)
            with quietly(run):
                o = run.call(cls(ctx, run, 'containers', 'StringLiteral'), [inner(ctx, run), C(m)])
            return run.call(ctx.get(run, 'pipeline.to_repr', 'to_repr'), [pc, run.alloc(HList([('e', o)])), run.call(ctx.get(run, 'bpepkg.bpe_encode', 'BpeData'), [])])
        for p in sub.explore('limits', entry, prep_opts(max_paths=40), note=False).paths:
            got = plain(p.value.items[0]) if p.outcome == 'return' and isinstance(p.value, Tup) else None
            if got is None:
                sub.open_obligation(f'limit {n}: not decided')
                continue
            empty = all(isinstance(x, C) for x in got)
            sub.check(empty == (n is not None and m > n), at['f'],
                      f'{kind} with {"no limit" if n is None else f"the limit {n}"}: a string literal of length {m} is {"" if empty else "not "}emptied', p, key=f'limit:{kind}:{empty}')
    jobs = []
    for k in ('basic', 'nosplit', 'full', 'chars', 'bpe'):
        jobs += [(k, n, m) for n in range(2, 62) for m in (n, n + 1)]
        jobs += [(k, None, m) for m in (0, 1, 2, 62, 1000, 10 ** 9)]
    over_configs(ctx, work, jobs)


def measured(ctx):
    """The length that counts is the number of characters of the literal, quotes included."""
    ctx.rule('the length of a string literal is the number of characters the lexer delivers for it')
    q, inside, l = frozenset('"'), ALL - {'"'}, frozenset(x for x in LETTERS_L if len(x) == 1)
    shapes = [[inside], [inside, inside]]
    for n in (5, 12, 30):
        shapes += [[l] * n, [LETTERS_L - l] * n, [frozenset(' ')] * n, [frozenset('\t')] * n, [frozenset('\n')] * n, [frozenset('\\')] * n, [frozenset('0123456789')] * n,
                   [l, frozenset(' ')] * (n // 2), [frozenset('!')] * n, [frozenset('_')] * n]

    def work(sub, job):
        ds, split, over = job
        n = len(ds) + 2
        v = dict(EN_ONLY='u', COM='c', STR=STRS[n - 1 if over else n], SPLIT=split, TABS_NEWLINES='s', CASE='u')
        t = text('s', [q, *ds, q])
        at = at_kind(sub, 'StringLiteral')

        def entry(run):
            f = ctx.get(run, 'parse.core', 'convert_text')
            toks = [x[1] for x in run.to_segs(run.call(f, [C('x'), C('java')]))]
            return convert(sub, run, v, toks)
        res = sub.explore('measured', entry, stream_opts([('Literal.String', t)]), note=False)
        if res.errors or res.limits:
            sub.undecided(f'literal of {n} characters: {(list(res.errors) + list(res.limits))[0]}'[:300])
        for p in res.paths:
            got = plain(p.value.items[0]) if p.outcome == 'return' and isinstance(p.value, Tup) else None
            if got is None:
                sub.undecided(f'literal of {n} characters: {p.outcome}')
                continue
            empty = got == ([C('""')] if split == 'F' else [C('"'), C('"')])
            if not over and split != 'F' and all(p.run.chimages(c) <= BLANK for c in t_chars(t)[1:-1]):
                continue                            # nothing but the quotes to be expected
            sub.check(empty == over, at, f'with the limit {n - 1 if over else n}, the string literal {vstr(p.run, t)} of {n} characters gives {show(got)}', p, key=f'measured:{over}')
    over_configs(ctx, work, [(ds, s, o) for ds in shapes for s in '1F' for o in (True, False)])


def t_chars(t):
    return vec(t)
