"""C15: preprocessing has no hidden memory."""
from .prepkit import *
from .world import read_back

META = dict(
    technique='interprocedural effect (mutation and escape) analysis of everything reachable from the conversion and the text functions, by object identity on an abstract heap, '
              'and comparison of the symbolic results of repeated calls on the same heap',
    level_note='Every kind of token under every configuration (string limit: placeholder, unlimited, limited) and the public text functions with given tokens; contents are symbolic. '
               'BPE splitting is followed for constant words with constant merges and cache. Lexers are opaque.',
    explanation='Objects that exist before a call, module-level and class-level data and default values of parameters are followed; every write to one of them during the '
                'call is reported. The same call is evaluated again after a call with other options, and the results are compared.',
)
ALLOWED = 'global_bpe_data'


def older(o, start):
    return isinstance(o, Heap) and (o.serial is None or o.serial < 0 or o.serial <= start)


def effects(ctx, p, start, n0, what, key, loads=False, n1=None):
    """No event from n0 (to n1) changes an object that existed at `start`, or program-wide data."""
    bad = False
    for e in p.events[n0:n1]:
        if e.kind == 'mutate' and isinstance(e.obj, Heap) and older(e.obj, start):
            if isinstance(e.obj, XObj) and e.obj.name in ('tqdm', 'Logger'):
                continue
            tag = f' (belongs to {e.obj.shared})' if e.obj.shared else ''
            ctx.violation(e, f'{what}: changes {name_of(e.obj)}{tag}, which existed before the call: {e.how} {e.field}', p, key=key)
            bad = True
        elif e.kind == 'setglobal' and not (loads and e.d['name'] == ALLOWED):
            ctx.violation(e, f'{what}: sets the module-level variable {e.mod_}.{e.d["name"]}', p, key=key)
            bad = True
        elif e.kind == 'setclassattr':
            ctx.violation(e, f'{what}: sets the class attribute {e.cls}.{e.d["name"]}', p, key=key)
            bad = True
        elif e.kind == 'mutate' and isinstance(e.obj, T):
            ctx.undecided(f'{what}: changes {str(e.obj)[:100]}')
            bad = True
    if not bad:
        ctx.ok(key)
    return not bad


def name_of(o):
    if isinstance(o, HObj):
        return f'the {o.cls.name} object'
    return {'HList': 'a list', 'HDict': 'a dictionary', 'HSet': 'a set'}.get(type(o).__name__, 'an object')


def check(ctx):
    ctx.rule('no operation reachable from the conversion of tokens writes to an object that existed before the call, to module-level or class-level data or to a default value')
    ctx.rule('the result of a call is the same when it is repeated after calls with other options')
    ctx.rule('the merges and the cache are not changed by splitting words')
    ctx.rule('no part of a result depends on time, process or random numbers')
    over_configs(ctx, conv_work, configs())
    twice(ctx)
    words(ctx)
    texts(ctx)
    parsing(ctx)


def conv_work(ctx, v):
    for k in KINDS:
        def make(ctx, run, v, toks):
            run.start, run.n0 = run.serial, len(run.events)
            D = ctx.get(run, 'bpepkg.bpe_encode', 'BpeData')
            return convert(ctx, run, v, toks)
        for s in conversions(ctx, v, [k], make=make):
            p = s.path
            at = at_kind(ctx, k)
            if not hasattr(p.run, 'start'):
                ctx.undecided(f'{k} {cfg_name(v)}: not reached')
                continue
            if effects(ctx, p, p.run.start, p.run.n0, f'{k}, configuration {cfg_name(v)}', f'{k}') and s.tokens is not None:
                for t in s.tokens:
                    if isinstance(t, T) and any(isinstance(x, T) and x.op == 'nondet' for x in subterms(t)):
                        ctx.violation(at, f'{k}, configuration {cfg_name(v)}: the result depends on {t}', p, key=f'{k} nondet')


TWICE = (dict(EN_ONLY='u', COM='c', STR='1', SPLIT='1', TABS_NEWLINES='s', CASE='u'), dict(EN_ONLY='U', COM='0', STR='0', SPLIT='2', TABS_NEWLINES='0', CASE='l'),
         dict(EN_ONLY='U', COM='c', STR='1', SPLIT='4', TABS_NEWLINES='s', CASE='u'), dict(EN_ONLY='u', COM='c', STR='E', SPLIT='3', TABS_NEWLINES='s', CASE='l'),
         dict(EN_ONLY='u', COM='c', STR='1', SPLIT='0', TABS_NEWLINES='s', CASE='u'))


def twice(ctx):
    """The same tokens, converted twice with a conversion under another configuration between."""
    def work(sub, j):
        a, b, k = j

        def make(ctx, run, v, toks):
            r1 = convert(ctx, run, a, toks)
            x1 = frozen(r1)
            convert(ctx, run, b, toks)
            x2 = frozen(convert(ctx, run, a, toks))
            run.same = (x1, x2)
            return r1
        for s in conversions(sub, a, [k], make=make, max_paths=200):
            at = at_kind(sub, k)
            if not hasattr(s.path.run, 'same'):
                sub.open_obligation(f'{k} twice: {s.exc or s.path.outcome}')
                continue
            x, y = s.path.run.same
            sub.check(x == y, at, f'{k}: converted again under {cfg_name(a)} after a conversion under {cfg_name(b)}, the result is {y} instead of {x}', s.path, key=f'{k} again')
    over_configs(ctx, work, [(a, b, k) for a in TWICE for b in TWICE for k in KINDS])


def frozen(r):
    toks, md = r.items
    return (plain(toks), *(plain(md.fields.get(n)) for n in ('word_boundaries', 'token_types')), frozenset(plain(md.fields.get('nonprocessable_tokens')) or ()))


MERGES = 'a b 10\nab c 5\nd e 3\n@@ x 2\n'
CACHE = 'abq@\tab q@\nx@@y@\tx @@ y@\nz@\tz@\n'


def bpe_read(run, f, how):
    s = repr(canon(f.path))
    for k, t in (('merges_cache.txt', CACHE), ('merges.txt', MERGES)):
        if k in s:
            from .world import World
            w = World({'x': t}, f.path)
            w.rel = lambda r, p: 'x'
            return w.read(run, f, how)
    return NotImplemented


def no_vocab(run, fn, args, kw, node):
    if isinstance(fn, Fn) and fn.cls is None and fn.mod.name.endswith('vocabloader') and fn.name == 'nonbpe':
        return run.alloc(HSet([('e', C('if'))]))
    return NotImplemented


WORDS = ('abq', 'x@y', 'z', 'abc', 'abcde', 'a', '@', '@@x', '', 'if', 'déà')


def bpe_opts(**kw):
    return Opts(call_hook=hooks(no_vocab, word_check_hook, nonascii_hook), read_hook=bpe_read, exists_default=lambda r, k, p: True, sepfree=sepfree, max_steps=400000, **kw)


def words(ctx):
    got = {}

    def entry(run):
        f = ctx.get(run, 'pipeline.to_repr', 'init_bpe_data')
        got['f'] = g = ctx.get(run, 'bpepkg.bpe_encode', 'get_bpe_subwords')
        run.call(f, [base_prep_config(ctx, run, SPLIT='4', CASE='u'), NONE])
        d = run.call(ctx.get(run, 'pipeline.to_repr', 'get_global_bpe_data_if_available'), [])
        run.start, run.n0 = run.serial, len(run.events)
        run.res = []
        for r in range(3):
            for w in WORDS:
                run.res.append((w, plain(run.call(g, [C(w), d]))))
        return NONE
    res = ctx.explore('splitting words', entry, bpe_opts(max_paths=30, unroll_forever=60))
    for p in res.paths:
        if not hasattr(p.run, 'n0'):
            ctx.undecided(f'splitting words: {p.outcome} {p.value!r}')
            continue
        effects(ctx, p, p.run.start, p.run.n0, 'splitting words', 'words')
        if p.outcome != 'return':
            if p.outcome == 'raise' and len(p.run.res) >= len(WORDS):
                ctx.violation(got['f'], f'splitting {WORDS[len(p.run.res) % len(WORDS)]!r} again raises {p.value!r}', p, key='words raise')
            else:
                ctx.undecided(f'splitting words: {p.outcome} {p.value!r}')
            continue
        first = dict(p.run.res[:len(WORDS)])
        for w, r in p.run.res[len(WORDS):]:
            ctx.check(r == first[w], got['f'], f'{w!r} is first split into {first[w]} and later into {r}', p, key='words again')


FUNCS = (('basic', {}), ('basic', {'split_numbers': True, 'no_spaces': True}), ('basic', {'stem': True}), ('basic', {'max_str_length': 5, 'no_com': True}), ('nosplit', {}),
         ('nosplit', {'full_strings': True, 'no_unicode': True}), ('chars', {}), ('bpe', {}), ('bpe', {'no_str': True, 'force_reinit_bpe_data': False}))


def texts(ctx):
    """The public functions on given tokens: no effects on data that exists, and equal results of equal calls."""
    def call(ctx, run, j, kinds):
        name, kw = FUNCS[j]
        f = ctx.get(run, 'api.text', name)
        a = [C('text')] + ([C('10k')] if name == 'bpe' else [])
        return run.call(f, a, {'extension': C('java'), 'return_metadata': TRUE, **{k: C(v) for k, v in kw.items()}})

    def work(sub, job):
        i, j, kinds = job
        bs = tokens(sub)

        def parsed(run, fn, args, kw, node):
            if isinstance(fn, Fn) and fn.name == 'convert_text' and fn.cls is None:
                if not hasattr(run, 'toks'):
                    with quietly(run):
                        run.toks = [bs[k](run) for k in kinds]
                return run.new_list(list(run.toks))
            return NotImplemented

        def entry(run):
            with quietly(run):
                run.toks = [bs[k](run) for k in kinds]
                sub.get(run, 'api.text', FUNCS[i][0])
            r = []
            run.marks = []
            for x in (i, j, i):
                run.marks.append((run.serial, len(run.events)))
                r.append(frozen(call(sub, run, x, kinds)))
            run.same = r[0], r[2]
            return NONE
        what = f'{FUNCS[i][0]}({FUNCS[i][1]}) on {"+".join(kinds)}'
        o = prep_opts(parsed, no_vocab, read_hook=bpe_read, exists_default=lambda r, k, p: True, max_paths=150, max_steps=400000)
        res = sub.explore(what, entry, o, note=False)
        if res.errors or res.limits:
            sub.undecided(f'{what}: {(list(res.errors) + list(res.limits))[0]}'[:300])
        at = {}

        def e2(run):
            at['f'] = sub.get(run, 'api.text', FUNCS[i][0])
            return NONE
        sub.explore('anchor', e2, note=False)
        for p in res.paths:
            if p.outcome != 'return':
                sub.open_obligation(f'{what}: {p.outcome} {p.value!r}')
                continue
            ends = [n for _, n in p.run.marks[1:]] + [None]
            if all([effects(sub, p, s, n, what, 'text functions', loads=True, n1=e) for (s, n), e in zip(p.run.marks, ends)]):
                x, y = p.run.same
                sub.check(x == y, at['f'], f'{what}: repeated after {FUNCS[j][0]}({FUNCS[j][1]}), the result is {y} instead of {x}', p, key=f'{what} again')
    sets = (('identifier', 'Operator'), ('KeyWord', 'StringLiteral'), ('OneLineComment',), ('NonEng', 'NewLine'), ('MultilineComment', 'Number'))
    over_configs(ctx, work, [(i, j, k) for i in range(len(FUNCS)) for j in range(len(FUNCS)) if (i + 2 * j) % 3 == 0 for k in sets])


def parsing(ctx):
    """The rules for lexer tokens change nothing but what they return."""
    found = {}

    def entry(run):
        m = ctx.get(run, 'parse.core', 'matchers')
        out = []
        run.iterate(m, lambda x: out.append(x))
        found['n'] = len(out)
        out.append(run.call(ctx.get(run, 'parse.matchers', 'DefaultMatcher'), []))
        i = run.choose(len(out), 'rule')
        run.what = out[i].cls.name if isinstance(out[i], HObj) else 'rule'
        v = sym('value', 'str')
        run.start, run.n0 = run.serial, len(run.events)
        r = run.call(run.getattr(out[i], 'transform'), [v])
        if isinstance(r, Lazy):
            run.iterate(r, lambda x: None)
        return NONE
    res = ctx.explore('rules for lexer tokens', entry, Opts(call_hook=hooks(word_check_hook), max_paths=3000, sepfree=sepfree))
    for p in res.paths:
        if not hasattr(p.run, 'n0') or p.outcome not in ('return', 'raise', 'end:joined'):
            ctx.open_obligation(f'rules for lexer tokens: {p.outcome} {p.value!r}')
            continue
        effects(ctx, p, p.run.start, p.run.n0, f'the rule {p.run.what}', f'rule {p.run.what}')

    got = {}

    def lexed(run, nm, args, kw, node):
        if nm.endswith('.lex'):
            out = []
            for i, t in enumerate(('Name', 'Text', 'Operator', 'Comment.Single')):
                out.append(Tup([run.pygtoken(t) if hasattr(run, 'pygtoken') else sym(f'type{i}'), sym(f'value{i}', 'str')]))
            return run.new_list(out[:2])
        return NotImplemented

    def whole(run):
        got['f'] = f = ctx.get(run, 'parse.core', 'convert_text')
        with quietly(run):
            ctx.get(run, 'parse.core', 'matchers')
        run.start, run.n0 = run.serial, len(run.events)
        run.iterate(run.call(f, [sym('text', 'str'), C('java')]), lambda x: None)
        return NONE

    def opaque_rules(run, fn, args, kw, node):
        if isinstance(fn, Fn) and fn.cls is not None and fn.name == 'transform':
            run.emit('work', eff=True, what='transform')
            t = T('transformed', fz(args[-1]))
            SYMTY[t] = 'list'
            return run.alloc(HList([('s', t)]))
        if isinstance(fn, Fn) and fn.cls is not None and fn.name == 'match':
            return T('matches', fz(args[0]), fz(args[1]))
        return NotImplemented
    res = ctx.explore('convert_text', whole, Opts(call_hook=opaque_rules, ext_hook=lexed, max_paths=4000, sepfree=sepfree))
    for p in res.paths:
        if hasattr(p.run, 'n0'):
            effects(ctx, p, p.run.start, p.run.n0, 'parsing a text', 'parsing')
