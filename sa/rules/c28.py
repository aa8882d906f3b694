"""C28: capitalization is preserved or encoded reversibly."""
from .vecs import *

META = dict(
    technique='abstract interpretation over strings of abstract characters (value sets per character, trace partitioning by character class)',
    level_note='All words of up to four arbitrary characters (ASCII characters and classes of non-ASCII characters), and long words of uniform patterns with '
               'lengths around every integer constant of the token modules.',
    explanation='Word.from_ and the representations of a word are evaluated on words of symbolic characters. On every path the restored word has to be the '
                'given one, and with lowercasing the words after the prefix have to give it back when the prefix is undone.',
    assumptions=['letters have a reversible, single-character case mapping; title-case letters and letters without such a mapping are not covered'],
)
CONFIGS = ('1', '3', '8')


def check(ctx):
    ctx.rule('str(Word.from_(s)) is s for every s')
    ctx.rule('without lowercasing, the words produced for Word.from_(s) give s and there is no prefix')
    ctx.rule('with lowercasing: no prefix and the words give s; or the first-letter prefix and the words, first letter raised, give s; or the all-letters prefix '
             'and the words in upper case give s')
    ctx.rule('with lowercasing, words whose letters are all upper case, all lower case, or only capitalized leave no upper-case letter')
    words = [('any%d' % n, [ALL - {' '}] * n) for n in (1, 2, 3, 4)]
    lens = sorted({6, 70} | set(thresholds(ctx, ['codeprep.tokens', 'codeprep.preprocess'])))
    for n in lens:
        words += [(f'lower{n}', [LETTERS_L] * n), (f'upper{n}', [LETTERS_U] * n), (f'first{n}', [LETTERS_U] + [LETTERS_L] * (n - 1)),
                  (f'camel{n}', [LETTERS_L] * (n - 1) + [LETTERS_U]), (f'digits{n}', [DIGITS] * n), (f'tail{n}', [LETTERS_U] * (n - 1) + [LETTERS_L]),
                  (f'code{n}', [LETTERS_U] * (n - 2) + [DIGITS] * 2), (f'lcode{n}', [LETTERS_L] * (n - 2) + [DIGITS] * 2)]
    jobs = [(w, None) for w in words]
    jobs += [(w, (s, c)) for w in words for s in CONFIGS for c in 'ul' if len(w[1]) != 4 and s + c != '8l']
    ctx.parallel(jobs, work)


def given_split(run, name, args, kw, node):
    """An identifier splitter that cuts after each character."""
    if name.endswith('ronin.split'):
        cs = vec(args[0]) if isinstance(args[0], (C, T)) else None
        if cs:
            return run.new_list(list(cs))
    return NotImplemented


def subwords(run, fn, args, kw, node):
    if isinstance(fn, Fn) and fn.name == 'get_bpe_subwords' and fn.cls is None:
        cs = vec(args[0]) if args and isinstance(args[0], (C, T)) else None
        if cs:
            return run.new_list([mkvec(cs[:1])] + ([mkvec(cs[1:])] if len(cs) > 1 else []))
    return NotImplemented


def work(ctx, job):
    (name, doms), conf = job
    w = text('s', doms)

    def entry(run):
        W = ctx.get(run, 'tokens.word', 'Word')
        o = run.call(run.getattr(W, 'from_'), [w])
        if conf is None:
            return run.to_str(o)
        v = dict(EN_ONLY='u', COM='c', STR='1', SPLIT=conf[0], TABS_NEWLINES='s', CASE=conf[1])
        o = run.call(ctx.get(run, 'tokens.containers', 'SplitContainer'), [run.new_list([o])])
        return convert(ctx, run, v, [o])

    res = ctx.explore(f'{name}:{conf}', entry, vec_opts(subwords, ext_hook=given_split), note=False)
    if res.errors or res.limits:
        ctx.undecided(f'{name}: {(list(res.errors) + list(res.limits))[0]}'[:300])
    fn = anchor(ctx)
    for p in res.paths:
        run = p.run
        if p.outcome == 'raise':
            ctx.violation(p.value.node and p.events and p.events[-1] or fn, f'a word such as {vstr(run, w)} fails with {p.value.name()}', p, key=f'raise:{p.value.name()}')
            continue
        if p.outcome != 'return':
            continue
        if conf is None:
            r = same(run, p.value, w)
            if r is None:
                ctx.undecided(f'{name}: the restored word was not followed')
            else:
                ctx.check(r, fn, f'the word {vstr(run, w)} comes back as {vstr(run, p.value)}', p, key='restore')
            continue
        s = Seen(p)
        if s.tokens is None or any(vec(t) is None for t in s.tokens):
            ctx.undecided(f'{name}:{conf}: the words produced were not followed')
            continue
        toks = [t for t in s.tokens if t not in (C('<w>'), C('</w>'))]
        if conf[0] == '8' and toks:
            cs = vec(toks[-1])
            if cs[-4:] == vec(C('</t>')):
                toks = toks[:-1] + ([mkvec(cs[:-4])] if cs[:-4] else [])
        pre = [t for t in toks if t in (C('<Cap>'), C('<CAPS>'))]
        if conf[1] == 'u':
            ctx.check(not pre, fn, f'a capitalization prefix although case is preserved ({vstr(run, w)})', p, key='prefix')
        ctx.check(len(pre) <= 1 and (not pre or toks[0] == pre[0]), fn,
                  f'{vstr(run, w)} gives {len(pre)} capitalization prefixes, or one that is not in front', p, key='prefixes')
        rest = toks[1:] if pre and toks[0] == pre[0] else toks
        cs = [c for t in rest for c in vec(t)]
        orig = vec(w)
        if pre == [C('<Cap>')]:
            back = [img(cs[0], upper1)] + cs[1:] if cs else cs
        elif pre == [C('<CAPS>')]:
            back = [img(c, upper1) for c in cs]
        else:
            back = cs
        r = len(back) == len(orig) and all(eq1(run, b, o) for b, o in zip(back, orig))
        ctx.check(r, fn, f'{vstr(run, w)} gives {", ".join(vstr(run, t) for t in toks)}, from which the word cannot be restored', p, key='reversible')
        if conf[1] == 'l' and r:
            ks = [kind_of(run, c) for c in orig]
            ls = [k for k in ks if k != 'N']
            plain_ = '?' not in ls and (len(set(ls)) <= 1 or ks[0] == 'U' and set(ls[1:]) == {'L'})
            if plain_:
                up = any(isupper1(x) for c in cs for x in ({c.v} if isinstance(c, C) else run.chimages(c)))
                ctx.check(not up, fn, f'{vstr(run, w)} gives {", ".join(vstr(run, t) for t in toks)} although lowercasing was requested', p, key='lower')
    return None


def kind_of(run, c):
    im = {c.v} if isinstance(c, C) else run.chimages(c)
    ks = {'U' if isupper1(x) else 'L' if islower1(x) else 'N' for x in im}
    return ks.pop() if len(ks) == 1 else '?'


def anchor(ctx):
    if not hasattr(ctx, 'word_anchor'):
        def e(run):
            ctx.word_anchor = ctx.get(run, 'tokens.word', 'Word')
            return NONE
        ctx.explore('anchor', e, note=False)
    return ctx.word_anchor


def img(c, f):
    return (f, c)


def eq1(run, b, o):
    """Character b (or an image of it) equals the original character on all of this path."""
    f = None
    if isinstance(b, tuple):
        f, b = b
    if isinstance(o, C) or isinstance(b, C):
        if isinstance(b, C):
            x = {f(b.v) if f else b.v}
        else:
            x = {f(y) if f else y for y in run.chimages(b)}
        y = {o.v} if isinstance(o, C) else run.chimages(o)
        return len(x) == 1 and x == y
    if base_of(b) != base_of(o):
        return False
    return all((f(apply_(b, x)) if f else apply_(b, x)) == apply_(o, x) for x in run.chdom(o))
