"""C29: exactly one end-of-file marker, at the end."""
from .prepkit import *
from . import c10

META = dict(
    technique='path-sensitive abstract interpretation: the token list reaching the conversion is tracked as a sequence with symbolic middle',
    level_note='All functions of the text API with and without append_eof (also symbolic), and the writing of corpus files, for every parsed content.',
    explanation='The list of tokens handed to the conversion is compared with: everything parsed (except one trailing newline), then one end-of-file token if and only '
                'if it is due. What is returned or written is the unchanged result of the conversion.',
)
TYPES = ('nosplit', 'chars', 'basic', 'bpe')
EOF = '<EOF>'


def is_eof(x):
    return isinstance(x, HObj) and any(isinstance(f, C) and f.v == EOF for f in x.fields.values())


def to_repr_hook(run, fn, args, kw, node):
    if isinstance(fn, Fn) and fn.cls is None and fn.name == 'to_repr' and fn.mod.name.startswith('codeprep.pipeline'):
        a = dict(zip(c10.params_of(fn), args))
        a.update(kw)
        toks = a.get('token_list', args[1] if len(args) > 1 else NONE)
        run.given = getattr(run, 'given', []) + [(list(run.to_segs(toks)), fn)]
        r = run.alloc(HList([('s', sym('represented', 'list'))]))
        return Tup([r, sym('metadata_of')])
    if isinstance(fn, Fn) and fn.cls is None and fn.name == 'init_bpe_data':
        return NONE
    if isinstance(fn, Fn) and fn.cls is None and fn.name == 'convert_text':
        return run.alloc(HList([('s', sym('parsed', 'list'))]))
    if isinstance(fn, Fn) and fn.name == 'from_id' and fn.cls is not None:
        return sym('codes')
    return NotImplemented


def check(ctx):
    ctx.rule('the tokens converted by the text API end with exactly one end-of-file token if append_eof is true and contain none otherwise')
    ctx.rule('the tokens converted for a corpus file are the parsed tokens followed by exactly one end-of-file token, and the result is written once')
    ctx.rule('an end-of-file token is converted to exactly one token, in every configuration')
    text(ctx)
    corpus(ctx)
    converted(ctx)


def text(ctx):
    for typ in TYPES:
        for eof in (True, False, None):
            got = {}

            def entry(run):
                got['f'] = ctx.get(run, 'api.text', typ)
                kw = {} if eof is None else dict(append_eof=C(eof))
                if typ == 'bpe':
                    kw['bpe_codes_id'] = C('1k')
                return run.call(got['f'], [C('text')], kw)
            for meta in (False,):
                res = ctx.explore(f'{typ} append_eof={eof}', entry, Opts(call_hook=to_repr_hook, max_paths=200, sepfree=sepfree))
                for p in res.paths:
                    given = getattr(p.run, 'given', [])
                    if p.outcome != 'return' or len(given) != 1:
                        ctx.open_obligation(f'{typ}: conversion not seen')
                        continue
                    segs(ctx, got['f'], given[0][0], bool(eof), f'text {typ} with append_eof={"default" if eof is None else eof}', p)
                    r = p.value
                    if isinstance(r, Tup) and r.items:
                        r = r.items[0]
                    if isinstance(r, (HList, T)):
                        f = fz(r)
                        ok = f == fz(sym('represented', 'list')) or plain_segs(r) == [('s', sym('represented', 'list'))]
                        extra = isinstance(r, HList) and any(s[0] == 'e' for s in r.segs)
                        ctx.check(ok or not extra, got['f'], f'text {typ}: tokens are added to or removed from the result of the conversion', p, key=f'{typ} result')


def plain_segs(r):
    return [(s[0], s[1]) for s in r.segs] if isinstance(r, HList) else None


def segs(ctx, at, ss, due, what, p):
    n = sum(1 for s in ss if s[0] == 'e' and is_eof(s[1]))
    ctx.check(n == (1 if due else 0), at, f'{what}: {n} end-of-file tokens are converted', p, key=f'{what} count')
    if due and n == 1:
        ctx.check(ss[-1][0] == 'e' and is_eof(ss[-1][1]), at, f'{what}: the end-of-file token is not the last one', p, key=f'{what} last')
    txt = [s for s in ss if s[0] != 'e']
    if not any(contains(x, sym('parsed', 'list')) for s in txt for x in s[1:] if isinstance(x, T)) and not any(e.kind == 'loop0' for e in p.events):
        ctx.open_obligation(f'{what}: the parsed tokens were not recognised')


def corpus(ctx):
    got = {}

    def read(run, f, how):
        return run.alloc(HList([('s', sym('parsed', 'list'))])) if how == 'load' else NotImplemented

    def entry(run):
        got['f'] = ctx.get(run, 'pipeline.to_repr', 'preprocess_and_write')
        pc = base_prep_config(ctx, run) if 'base_prep_config' in globals() else NONE
        return run.call(got['f'], [Tup([sym('src', 'bytes'), sym('dst', 'bytes'), pc, NONE])])
    res = ctx.explore('preprocess_and_write', entry, Opts(call_hook=to_repr_hook, read_hook=read, max_paths=200, sepfree=sepfree))
    n = 0
    for p in res.paths:
        given = getattr(p.run, 'given', [])
        if p.outcome != 'return' or not given:
            continue
        n += 1
        ctx.check(len(given) == 1, got['f'], 'the tokens of a file are converted more than once', p)
        segs(ctx, got['f'], given[0][0], True, 'corpus file', p)
        ws = [e for e in p.events if e.kind == 'write']
        full = [e for e in ws if contains(fz(e.d.get('data', e.d.get('text', NONE))), sym('represented', 'list'))]
        if ws:
            ctx.check(len(full) == 1 or not full, got['f'], 'the converted tokens of a file are written more than once', p)
            if not full:
                ctx.open_obligation('corpus file: what is written was not recognised')
    if not n:
        ctx.undecided('preprocess_and_write: no path converts tokens')
        ctx.open_obligation('corpus file')


def converted(ctx):
    def work(sub, v):
        at = at_kind(sub, 'SpecialToken')

        def eof(run):
            return run.call(cls(sub, run, 'word', 'SpecialToken'), [C(EOF)])
        for s in conversions(sub, v, [eof]):
            if s.tokens is None:
                sub.open_obligation('end-of-file token: not decided')
                continue
            t = [x.v if isinstance(x, C) else str(x) for x in s.tokens]
            sub.check(t in ([EOF], [EOF + '</t>']), at, f'the end-of-file token is converted to {t} with the configuration {cfg_name(v)}', s.path, key='converted')
    over_configs(ctx, work, list(configs()))
