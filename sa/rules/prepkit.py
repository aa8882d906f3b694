"""Shared by the rules about preprocessing tokens: symbolic tokens of every kind, configurations, the conversion."""
from .common import *

PARAMS = ('EN_ONLY', 'COM', 'STR', 'SPLIT', 'TABS_NEWLINES', 'CASE')
SPLITS = ('0', 'F', '1', '2', '3', 's', '4', '5', '6', '7', '8', '9')
BPE = ('4', '5', '6', '7', '8', '9')
LOWER = ('1', '2', '3', 's', '8')


def configs(strs=('0', '1', 'E'), splits=SPLITS):
    for s in splits:
        for c in ('u', 'l'):
            if c == 'l' and s not in LOWER:
                continue
            for e in 'uU':
                for m in 'c0':
                    for t in 's0':
                        for l in strs:
                            yield dict(EN_ONLY=e, COM=m, STR=l, SPLIT=s, TABS_NEWLINES=t, CASE=c)


def cfg_name(v):
    return ''.join(v[k] for k in PARAMS)


def the_config(ctx, run, v):
    with quietly(run):
        return mk_enum_config(ctx, run, 'prepconfig', 'PrepConfig', 'PrepParam', v)


def cls(ctx, run, mod, name):
    return ctx.get(run, 'tokens.' + mod, name)


def word(ctx, run, n='w', cap=None):
    """A word with symbolic canonical form; the capitalization is given or forks over the members."""
    W = cls(ctx, run, 'word', 'Word')
    E = run.getattr(W, 'Capitalization')
    o = run.call(W, [sym(n, 'str')]) if False else None
    caps = ['UNDEFINED', 'NONE', 'FIRST_LETTER', 'ALL']
    c = run.getattr(E, cap if cap else caps[run.choose(4, 'capitalization')])
    with quietly(run):
        return run.call(W, [sym(n, 'str'), c])


def word_check_hook(run, fn, args, kw, node):
    """The validity assertion of canonical forms is property C28's."""
    if isinstance(fn, Fn) and fn.name == '_check_canonic_form_is_valid':
        return NONE
    return NotImplemented


def split_result(run, kind, w):
    """An opaque split of w: one piece or three (decided once per word and path)."""
    memo = run.__dict__.setdefault('splits', {})
    k = (kind, w)
    if k not in memo:
        memo[k] = (1, 3)[run.choose(2, f'number of pieces of {kind}({str(w)[:40]})')]
    out = []
    for i in range(memo[k]):
        t = T(kind, w, C(i), C(memo[k]))
        SYMTY[t] = 'str'
        out.append(('e', t))
    return run.alloc(HList(out))


def subwords_hook(run, fn, args, kw, node):
    """BPE splitting of one word as an opaque non-empty list (property C33 looks inside)."""
    if isinstance(fn, Fn) and fn.name == 'get_bpe_subwords' and fn.cls is None:
        w = fz(args[0] if args else kw.get('word', NONE))
        run.emit('bpesplit', word=w)
        return split_result(run, 'sub', w)
    return NotImplemented


def nonascii_hook(run, fn, args, kw, node):
    if isinstance(fn, Fn) and fn.name == 'replace_non_ascii_seqs' and fn.cls is None:
        a = list(args) + [v for _, v in sorted(kw.items())]
        run.emit('asciify', word=fz(a[0]))
        t = T('asciified', *[fz(x) for x in a])
        SYMTY[t] = 'str'
        return t
    return NotImplemented


def splitter_ext(run, name, args, kw, node):
    if name.endswith('ronin.split'):
        return split_result(run, 'ronin', fz(args[0]))
    return NotImplemented


def stem_hook(run, fn, args, kw, node):
    if isinstance(fn, Fn) and fn.mod.name == 'codeprep.stemming':
        t = T('stem', fz(args[0]))
        SYMTY[t] = 'str'
        return t
    return NotImplemented


PREP_HOOKS = hooks(word_check_hook, subwords_hook, nonascii_hook, stem_hook)


def digits_hook(run, t):
    """The characters of a number or word (text of at least one character): one or three."""
    if isinstance(t, T) and not (t.op == 'char') and (SYMTY.get(t) == 'str' or (t.op == 'mcall' and t.args[1] in ('lower', C('lower')))) and contains(t, SYM_NUM):
        memo = run.__dict__.setdefault('splits', {})
        k = ('chars', t)
        if k not in memo:
            memo[k] = (1, 3)[run.choose(2, f'number of characters of {str(t)[:40]}')]
        out = []
        for i in range(memo[k]):
            c = T('char', t, C(i), C(memo[k]))
            SYMTY[c] = 'str'
            out.append(c)
        return out
    return None


SYM_NUM = None


def nonempty_hook(run, t, label=None):
    """Parts of non-empty text are not empty."""
    ops = ('asciified', 'sub', 'ronin', 'stem', 'char')
    if isinstance(t, T) and t.op == 'truthy' and isinstance(t.args[0], T) and t.args[0].op in ops:
        return True
    if isinstance(t, T) and t.op in ('eq', 'lt') and any(isinstance(a, T) and a.op == 'len' and isinstance(a.args[0], T) and a.args[0].op in ops for a in t.args) \
            and any(a in (C(0), 1, 0) for a in t.args):
        return t.op == 'lt' and False
    if isinstance(t, T) and t.op == 'truthy' and isinstance(t.args[0], T) and t.args[0].op == 'sym' and ty(t.args[0]) == 'str':
        return True
    if isinstance(t, T) and t.op == 'eq':
        a, b = t.args if isinstance(t.args[1], C) else t.args[::-1]
        if isinstance(b, C) and isinstance(a, T):
            if b == C(0) and a.op == 'len' and isinstance(a.args[0], T) and a.args[0].op == 'sym':
                return False
            if isinstance(b.v, str) and (b.v == '' or b.v == '\xa0' or b.v[0] == '<' and len(b.v) > 2) and ty(a) == 'str' and (a.op in ops or a.op == 'sym'):
                return False        # content is neither empty nor a placeholder
    return None


def prep_opts(*hs, **kw):
    global SYM_NUM
    SYM_NUM = sym('num', 'str')
    kw.setdefault('max_rec', 12)
    kw.setdefault('unroll_hook', digits_hook)
    kw.setdefault('decide_hook', nonempty_hook)
    return Opts(call_hook=hooks(*hs, PREP_HOOKS), ext_hook=kw.pop('ext_hook', splitter_ext), sepfree=sepfree, **kw)


def split_container(ctx, run, kind):
    SC = cls(ctx, run, 'containers', 'SplitContainer')
    if kind == 'one':
        subs = [word(ctx, run)]
    elif kind == 'many':
        subs = [word(ctx, run, 'w1', 'NONE'), run.call(cls(ctx, run, 'word', 'Underscore'), []), word(ctx, run, 'w2', 'FIRST_LETTER')]
    else:
        W = cls(ctx, run, 'word', 'Word')
        t = sym('words', 'list')
        run.tclass[T('elem', t)] = W
        return run.call(SC, [run.alloc(HList([('s', t)]))])
    return run.call(SC, [run.alloc(HList([('e', x) for x in subs]))])


def inner(ctx, run):
    """Tokens inside a comment or string literal."""
    xs = [split_container(ctx, run, 'many'), run.call(cls(ctx, run, 'whitespace', 'SpaceInString'), [C(1)]),
          run.call(cls(ctx, run, 'word', 'NonCodeChar'), [sym('char', 'str')]), run.call(cls(ctx, run, 'numeric', 'Number'), [sym('num', 'str')])]
    return run.alloc(HList([('e', x) for x in xs]))


def tokens(ctx):
    """Name -> builder of a symbolic token of each kind."""
    def simple(mod, name, *args):
        return lambda run: run.call(cls(ctx, run, mod, name), [sym(a, 'str') for a in args])
    out = {
        'Number': simple('numeric', 'Number', 'num'),
        'KeyWord': simple('word', 'KeyWord', 'kw'),
        'Operator': simple('word', 'Operator', 'op'),
        'NonCodeChar': simple('word', 'NonCodeChar', 'ncc'),
        'SpecialToken': simple('word', 'SpecialToken', 'special'),
        'NewLine': simple('whitespace', 'NewLine'),
        'Tab': simple('whitespace', 'Tab'),
        'word': lambda run: split_container(ctx, run, 'one'),
        'identifier': lambda run: split_container(ctx, run, 'many'),
        'NonEng': lambda run: run.call(cls(ctx, run, 'noneng', 'NonEng'), [split_container(ctx, run, 'many')]),
        'OneLineComment': lambda run: run.call(cls(ctx, run, 'containers', 'OneLineComment'), [inner(ctx, run)]),
        'MultilineComment': lambda run: run.call(cls(ctx, run, 'containers', 'MultilineComment'), [inner(ctx, run)]),
        'StringLiteral': lambda run: run.call(cls(ctx, run, 'containers', 'StringLiteral'), [inner(ctx, run), sym('length', 'int')]),
    }

    def holder(name, *parts, length=None):
        def make(run):
            ps = [(out[x](run) if isinstance(x, str) else x(run)) for x in parts]
            return run.call(cls(ctx, run, 'containers', name), [run.alloc(HList([('e', x) for x in ps]))] + ([C(length)] if length is not None else []))
        return make

    def spaces(n):
        return lambda run: run.call(cls(ctx, run, 'whitespace', 'SpaceInString'), [C(n)])

    def underscore(run):
        return run.call(cls(ctx, run, 'word', 'Underscore'), [])
    out.update({
        'empty line comment': holder('OneLineComment'),
        'empty comment': holder('MultilineComment'),
        'empty literal': holder('StringLiteral', length=0),
        'blank literal': holder('StringLiteral', spaces(3), 'NewLine', spaces(1), 'Tab', length=6),
        'literal of a line': holder('StringLiteral', 'NonCodeChar', 'word', 'NewLine', length=8),
        'blank comment': holder('MultilineComment', 'NewLine', 'Tab'),
        'comment with its line end': holder('OneLineComment', 'NonCodeChar', 'Number', 'Tab', 'NewLine'),
        'underscore': holder('SplitContainer', underscore),
        'underscores': holder('SplitContainer', underscore, underscore),
    })
    return out


def convert(ctx, run, v, toks, bpe=None):
    """(tokens, metadata) for a list of tokens under a configuration."""
    f = ctx.get(run, 'pipeline.to_repr', 'to_repr')
    pc = the_config(ctx, run, v)
    D = ctx.get(run, 'bpepkg.bpe_encode', 'BpeData')
    with quietly(run):
        data = bpe if bpe is not None else run.call(D, [])
    l = run.alloc(HList([('e', t) for t in toks]))
    r = run.call(f, [pc, l, data])
    return r


KINDS = {'Number': ('numeric', 'Number'), 'KeyWord': ('word', 'KeyWord'), 'Operator': ('word', 'Operator'), 'NonCodeChar': ('word', 'NonCodeChar'),
         'SpecialToken': ('word', 'SpecialToken'), 'NewLine': ('whitespace', 'NewLine'), 'Tab': ('whitespace', 'Tab'), 'word': ('containers', 'SplitContainer'),
         'identifier': ('containers', 'SplitContainer'), 'NonEng': ('noneng', 'NonEng'), 'OneLineComment': ('containers', 'OneLineComment'),
         'MultilineComment': ('containers', 'MultilineComment'), 'StringLiteral': ('containers', 'StringLiteral')}

MORE = {'empty line comment': ('containers', 'OneLineComment'), 'empty comment': ('containers', 'MultilineComment'), 'empty literal': ('containers', 'StringLiteral'),
        'blank literal': ('containers', 'StringLiteral'), 'literal of a line': ('containers', 'StringLiteral'), 'blank comment': ('containers', 'MultilineComment'),
        'comment with its line end': ('containers', 'OneLineComment'), 'underscore': ('containers', 'SplitContainer'), 'underscores': ('containers', 'SplitContainer')}


class Seen:
    """What one path of a conversion gave."""

    def __init__(self, p):
        self.path = p
        self.tokens = self.bounds = self.types = self.nonproc = self.exc = None
        if p.outcome == 'raise':
            self.exc = p.value.name()
            return
        if p.outcome != 'return':
            return
        v = p.value
        items = v.items if isinstance(v, Tup) else None
        if not items or len(items) != 2:
            return
        run = p.run
        self.tokens = plain(items[0])
        md = items[1]
        if isinstance(md, HObj):
            self.bounds = plain(md.fields.get('word_boundaries'))
            ts = md.fields.get('token_types')
            self.types = plain(ts)
            self.nonproc = plain(md.fields.get('nonprocessable_tokens'))

    def complete(self):
        return None not in (self.tokens, self.bounds, self.types, self.nonproc)


def plain(v):
    """The frozen elements of a list or set whose length is known, else None."""
    if isinstance(v, Tup):
        return [fz(x) for x in v.items]
    if isinstance(v, HDict) and not v.pairs:
        return []
    if isinstance(v, (HList, HSet)) and all(s[0] == 'e' for s in v.segs):
        return [fz(s[1]) for s in v.segs]
    return None


def at_kind(ctx, kind):
    memo = ctx.__dict__.setdefault('kind_anchor', {})
    if kind not in memo:
        def e(run):
            memo[kind] = cls(ctx, run, *(KINDS.get(kind) or MORE[kind]))
            return NONE
        ctx.explore('anchors', e, note=False)
    return memo[kind]


def conversions(ctx, v, kinds, before=(), after=(), make=None, max_paths=64):
    """[Seen] for the conversion of before + [kind] + after under configuration v."""
    bs = tokens(ctx)

    def entry(run):
        with quietly(run):
            toks = [(bs[k] if isinstance(k, str) else k)(run) for k in (*before, *kinds, *after)]
        return (make or convert)(ctx, run, v, toks)
    name = f'{cfg_name(v)}:{"+".join(k if isinstance(k, str) else "token" for k in (*before, *kinds, *after))}'
    res = ctx.explore(name, entry, prep_opts(max_paths=max_paths), note=False)
    if res.errors or res.limits:
        ctx.undecided(f'{name}: {(list(res.errors) + list(res.limits))[0]}'[:300])
    return [Seen(p) for p in res.paths]


def over_configs(ctx, work, jobs, per=8):
    """work(subctx, job) for all jobs, in parallel batches."""
    jobs = list(jobs)
    chunks = [jobs[i::64] for i in range(min(64, len(jobs)))]

    def go(sub, chunk):
        return [work(sub, j) for j in chunk]
    res = ctx.parallel(chunks, go)
    out = {}
    for ch, rs in zip(chunks, res):
        for j, r in zip(ch, rs):
            out[id(j)] = r
    return [out[id(j)] for j in jobs]
