"""C12: placeholders leak nothing of the content they replace."""
import itertools
import re as _re
from .prepkit import *

META = dict(
    technique='information-flow analysis: symbolic content tracked through the conversion by path-sensitive abstract interpretation',
    level_note='All configurations with a replacing option, all kinds of token it replaces, content symbolic, nested non-English words included; the replacement of '
               'non-ASCII characters is evaluated for all class patterns (ASCII / not ASCII) of up to 4 symbolic characters.',
    explanation='The values returned for a replaced token are searched for parts of its content, and must be the same on all paths. Where non-ASCII characters '
                'are replaced, content may occur only below the replacing function, which is analysed on its own.',
)


def content():
    return [sym(n, 'str') for n in ('w', 'w1', 'w2', 'char', 'num', 'length')] + [sym('length', 'int')]


def leaks(t, allowed=()):
    """The first content symbol in a term, outside the allowed operations (and what a repetition ranges over)."""
    if isinstance(t, T):
        if t in CONTENT:
            return t
        if t.op in allowed:
            return None
        for a in (t.args[1:] if t.op == 'rep' else t.args):
            r = leaks(a, allowed)
            if r is not None:
                return r
    elif isinstance(t, (tuple, list)):
        for a in t:
            r = leaks(a, allowed)
            if r is not None:
                return r
    return None


CONTENT = set(content())


def noneng(ctx):
    return lambda run: run.call(cls(ctx, run, 'noneng', 'NonEng'), [split_container(ctx, run, 'many')])


def with_noneng(ctx, name, *extra):
    def b(run):
        xs = [noneng(ctx)(run), run.call(cls(ctx, run, 'word', 'NonCodeChar'), [C('.')]), run.call(cls(ctx, run, 'whitespace', 'SpaceInString'), [C(1)])]
        return run.call(cls(ctx, run, 'containers', name), [run.alloc(HList([('e', x) for x in xs])), *extra])
    return b


def long_string(ctx, n):
    def b(run):
        return run.call(cls(ctx, run, 'containers', 'StringLiteral'), [inner(ctx, run), C(n)])
    return b


def empty_of(ctx, name, *extra):
    return lambda run: run.call(cls(ctx, run, 'containers', name), [run.alloc(HList([])), *extra])


def check(ctx):
    ctx.rule('nothing of the content of a replaced comment, string literal or word occurs in the tokens and metadata, which are the same whatever the content; '
             'removed newlines and tabs give no token')
    ctx.rule('with BPE and ASCII only, content of words with non-ASCII characters and of string literals is used only after their replacement')

    def work(sub, v):
        def conv(k, what, allowed=(), token=None, same=True, empty=False):
            rs = [r for t in (token if isinstance(token, list) else [token or k]) for r in conversions(sub, v, [t])]
            judge(sub, at_kind(sub, k), rs, f'{what}, configuration {cfg_name(v)}', allowed, same, empty)
        if v['COM'] == '0':
            for k in ('OneLineComment', 'MultilineComment'):
                conv(k, 'replaced comment', token=[k, with_noneng(sub, k), empty_of(sub, k)])
        if v['STR'] == '0':
            conv('StringLiteral', 'replaced string literal', token=['StringLiteral', with_noneng(sub, 'StringLiteral', C(7)), empty_of(sub, 'StringLiteral', C(0)),
                                                                    long_string(sub, 1), long_string(sub, 1000)])
        if v['STR'] == 'E':
            conv('StringLiteral', 'string literal over the limit', token=[long_string(sub, 15), long_string(sub, 1000), with_noneng(sub, 'StringLiteral', C(100)),
                                                                          empty_of(sub, 'StringLiteral', C(100))])
        if v['TABS_NEWLINES'] == '0':
            conv('NewLine', 'removed newline', empty=True)
            conv('Tab', 'removed tab', empty=True)
        if v['EN_ONLY'] == 'U':
            bpe = v['SPLIT'] in BPE
            al = ('asciified',) if bpe else ()
            conv('NonEng', 'word with non-ASCII characters', al, same=not bpe)
            for k in ('OneLineComment', 'MultilineComment'):
                if v['COM'] == 'c':
                    conv(k, 'word with non-ASCII characters in a comment', al, with_noneng(sub, k), same=not bpe)
            if v['STR'] == '1':
                full = bpe or v['SPLIT'] == 'F'
                conv('StringLiteral', 'string literal with non-ASCII characters', ('asciified',) if full else (), with_noneng(sub, 'StringLiteral', C(7)), same=not full)
    over_configs(ctx, work, [v for v in configs() if v['COM'] == '0' or v['STR'] in '0E' or v['TABS_NEWLINES'] == '0' or v['EN_ONLY'] == 'U'])
    replacement(ctx)


def judge(ctx, at, rs, what, allowed, same, empty):
    first = None
    for s in rs:
        if s.exc:
            ctx.open_obligation(f'{what}: raises {s.exc}')
            continue
        v = s.path.value
        items = v.items if isinstance(v, Tup) else [v]
        t = [fz(x) for x in items]
        if len(items) == 2 and isinstance(items[1], HObj):
            t = [t[0], T('md', *[fz(x) for _, x in sorted(items[1].fields.items())])]
        l = leaks(t, allowed)
        ctx.check(l is None, at, f'{what}: its content ({l}) is part of the result {str(t[0])[:120]}', s.path, key=f'leak:{at}:{what.split(",")[0]}')
        if allowed and l is None:
            for a in subterms(t):
                if a.op == 'asciified':
                    ph = a.args[1] if len(a.args) > 1 else None
                    ok = isinstance(ph, C) and isinstance(ph.v, str) and len(ph.v) == 1
                    ctx.check(ok, at, f'{what}: non-ASCII characters are replaced by {ph} instead of one fixed character', s.path, key=f'ph:{at}')
        if same and l is None:
            r = repr(t)
            first = first or (r, s)
            ctx.check(r == first[0], at, f'{what}: the result depends on the content: {r[:100]} or {first[0][:100]}', s.path, key=f'same:{at}')
        if empty:
            if s.tokens is None:
                ctx.open_obligation(f'{what}: not decided')
            else:
                ctx.check(not s.tokens, at, f'{what}: gives the tokens {s.tokens}', s.path, key=f'empty:{at}')
                ctx.check(not s.nonproc, at, f'{what}: gives non-processable tokens', s.path, key=f'emptymd:{at}')


def subterms(t):
    if isinstance(t, T):
        yield t
        for a in t.args:
            yield from subterms(a)
    elif isinstance(t, (tuple, list)):
        for a in t:
            yield from subterms(a)


def replacement(ctx):
    """The function replacing non-ASCII characters, on symbolic characters of known class."""
    text = sym('text', 'str')
    at = {}
    for n in range(5):
        for pat in itertools.product((True, False), repeat=n):
            chars = [sym(f'ch{i}', 'str') for i in range(n)]
            kind = dict(zip(chars, pat))

            def unroll(run, t):
                return chars if t == text else None

            def known(run, t):
                while isinstance(t, T) and t.op == 'truthy':
                    t = t.args[0]
                if not isinstance(t, T):
                    return None
                if t.op == 'mcall' and t.args[0] in kind and t.args[1] in ('isascii', C('isascii')):
                    return kind[t.args[0]]
                if t.op == 'eq':
                    a, b = t.args if t.args[0] in kind else t.args[::-1]
                    if a in kind and isinstance(b, C) and isinstance(b.v, str) and (len(b.v) != 1 or (ord(b.v) < 128) != kind[a]):
                        return False
                if t.op == 'ltx':
                    a, b = t.args
                    if a in kind and isinstance(b, C) and isinstance(b.v, str) and len(b.v) == 1:
                        return True if kind[a] and ord(b.v) >= 128 else False if not kind[a] and ord(b.v) <= 128 else None
                    if b in kind and isinstance(a, C) and isinstance(a.v, str) and len(a.v) == 1:
                        return True if not kind[b] and ord(a.v) < 128 else False if kind[b] and ord(a.v) >= 127 else None
                return None

            def encode(run, recv, name, args, kw, node):
                if isinstance(recv, T) and recv in kind and name == 'encode' and args and isinstance(args[0], C) and args[0].v in ('ascii', 'us-ascii'):
                    if not kind[recv]:
                        raise PyExc('UnicodeEncodeError', (), None, node)
                    return T('enc', recv)
                return NotImplemented

            def entry(run):
                at['f'] = ctx.get(run, 'noneng', 'replace_non_ascii_seqs')
                for c in chars:
                    run.iv[T('ord', c)] = (0, 127) if kind[c] else (128, 0x10ffff)
                return run.call(at['f'], [text, C('\xf7')])
            for p in ctx.explore('replacement', entry, Opts(unroll_hook=unroll, decide_hook=known, mcall_hook=encode, max_paths=60), note=False).paths:
                if not feasible(p, chars, known):
                    ctx.open_obligation('replacing: a test on characters that is not understood')
                    continue
                pattern(ctx, at['f'], p, text, chars, kind)
    for ph in ('', 'ab'):
        def entry(run):
            return run.call(ctx.get(run, 'noneng', 'replace_non_ascii_seqs'), [text, C(ph)])
        for p in ctx.explore('replacement', entry, Opts(max_paths=30), note=False).paths:
            ctx.check(p.outcome == 'raise' and p.value.name() == 'ValueError', at['f'], f'the placeholder {ph!r} is accepted, which is not a single character', p, key='ph1')


FREE = ('isalpha', 'isdigit', 'isalnum', 'isspace', 'isupper', 'islower', 'isprintable')


def feasible(p, chars, known):
    """Is the path certainly possible: ranges of character codes, and at most one class test per character with both outcomes among ASCII and other characters?"""
    n = 0
    free = set()
    for t in p.run.bools:
        if not isinstance(t, T) or not any(contains(t, c) for c in chars) or known(p.run, t) is not None:
            continue
        n += 1
        if t.op == 'lt':
            continue
        while t.op == 'truthy' and isinstance(t.args[0], T):
            t = t.args[0]
        m = t.args[1] if t.op == 'mcall' and len(t.args) == 2 else None
        m = m.v if isinstance(m, C) else m
        if m not in FREE or t.args[0] not in chars or t.args[0] in free:
            return False
        free.add(t.args[0])
    return len(p.conditions()) <= n


def pattern(ctx, at, p, text, chars, kind):
    shape = ''.join('a' if kind[c] else 'X' for c in chars)
    if p.outcome != 'return':
        if p.outcome == 'raise':
            ctx.violation(at, f'replacing in a word of the shape {shape!r} raises {p.value.name()}', p, key='replace raises')
        else:
            ctx.open_obligation(f'replacing in {shape}: not decided')
        return
    v = fz(p.value)
    parts = list(v.args) if isinstance(v, T) and v.op == 'cat' else [v]
    out = []
    for x in parts:
        if isinstance(x, C) and isinstance(x.v, str):
            out += list(x.v)
        elif x in kind:
            out.append(x)
        elif isinstance(x, T) and x.op.startswith('re') and contains(x, text):
            pats = [a.v for a in x.args if isinstance(a, C) and isinstance(a.v, str)]
            if pats and one_class(pats[0]) is False:
                ctx.violation(at, f'the pattern {pats[0]!r} does not match exactly the sequences of non-ASCII characters', p, key='pattern')
            else:
                ctx.ok()
            return
        else:
            ctx.open_obligation(f'replacing in {shape}: {str(v)[:80]}')
            return
    kept = [x for x in out if isinstance(x, T)]
    bad = [x for x in kept if not kind[x]]
    ctx.check(not bad, at, f'in a word of the shape {shape!r} (a: ASCII, X: other) a non-ASCII character is kept', p, key='non-ASCII kept')
    ctx.check([x for x in kept if kind[x]] == [x for x in chars if kind[x]], at, f'in a word of the shape {shape!r} (a: ASCII, X: other) ASCII characters are lost or moved', p,
              key='ASCII lost')
    got = ''.join('a' if isinstance(x, T) else 'X' for x in out)
    ctx.check(not bad and _re.sub('X+', 'X', got) == _re.sub('X+', 'X', shape), at,
              f'in a word of the shape {shape!r} (a: ASCII, X: other) the placeholders are at the wrong places: {got!r}', p, key='placeholder place')


def one_class(pat):
    """Does a pattern match exactly the sequences of non-ASCII characters?"""
    try:
        r = _re.compile(pat)
    except _re.error:
        return None
    return all((r.fullmatch(chr(i)) is not None) == (i >= 128) for i in range(0x3000))
