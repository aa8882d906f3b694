"""Shared by C23 and C24: parsing of a given stream of lexer tokens whose text is a vector of abstract characters."""
from .vecs import *
from ..ir import toktype

STANDARD = '''Token Text Text.Whitespace Escape Error Other Keyword Keyword.Constant Keyword.Declaration Keyword.Namespace Keyword.Pseudo Keyword.Reserved
Keyword.Type Name Name.Attribute Name.Builtin Name.Builtin.Pseudo Name.Class Name.Constant Name.Decorator Name.Entity Name.Exception Name.Function
Name.Function.Magic Name.Property Name.Label Name.Namespace Name.Other Name.Tag Name.Variable Name.Variable.Class Name.Variable.Global
Name.Variable.Instance Name.Variable.Magic Literal Literal.Date Literal.String Literal.String.Affix Literal.String.Backtick Literal.String.Char
Literal.String.Delimiter Literal.String.Doc Literal.String.Double Literal.String.Escape Literal.String.Heredoc Literal.String.Interpol
Literal.String.Other Literal.String.Regex Literal.String.Single Literal.String.Symbol Literal.Number Literal.Number.Bin Literal.Number.Float
Literal.Number.Hex Literal.Number.Integer Literal.Number.Integer.Long Literal.Number.Oct Operator Operator.Word Punctuation Punctuation.Marker Comment
Comment.Hashbang Comment.Multiline Comment.Preproc Comment.PreprocFile Comment.Single Comment.Special Generic Generic.Deleted Generic.Emph
Generic.EmphStrong Generic.Error Generic.Heading Generic.Inserted Generic.Output Generic.Prompt Generic.Strong Generic.Subheading
Generic.Traceback Text.Custom Name.Custom.Sub Literal.Number.Custom Custom'''.split()


def ttype(name):
    return Ext('pygments.token.Token' + ('' if name == 'Token' else '.' + name))


def stream_opts(tokens, lexers=False, **kw):
    """The lexer gives the tokens [(type name, text)]."""
    def seq(run, three=False):
        return run.new_list([Tup(([C(i)] if three else []) + [ttype(t), v]) for i, (t, v) in enumerate(tokens)])

    def lexed(run, s, n, node):
        run.emit('lexed', text=s)
        return seq(run)

    def ext(run, nm, args, kw_, node):
        if nm in ('pygments.lex', 'pygments.lexer.lex'):
            return lexed(run, args[0] if args else kw_.get('code'), nm, node)
        if nm.startswith('pygments.lexers.') and not nm.endswith(('get_all_lexers', 'find_lexer_class')):
            if lexers and not nm.endswith('.guess_lexer') and run.choose(2, 'no lexer is known') == 1:
                raise PyExc('ClassNotFound', (), None, node)
            if nm.endswith('.guess_lexer'):
                run.emit('guess', text=args[0] if args else NONE)
            return sym('LEXER')
        if nm == 'pygments.token.is_token_subtype':
            return run.contains_(args[1], args[0], node)
        if nm.startswith('pygments.token.') and nm.endswith('.__contains__'):
            return run.contains_(Ext(nm[:-13]), args[0], node)
        if nm.startswith('pygments.token.') and nm.endswith('.split'):
            t = toktype(Ext(nm[:-6]))
            return run.new_list([ttype('.'.join(t[:i]) or 'Token') for i in range(len(t) + 1)])
        return NotImplemented

    def mcall(run, recv, name, args, kw_, node):
        if recv == sym('LEXER'):
            if name == 'get_tokens':
                return lexed(run, args[0], name, node)
            if name == 'get_tokens_unprocessed':
                run.emit('lexed', text=args[0])
                return seq(run, True)
        return NotImplemented
    return vec_opts(ext_hook=ext, mcall_hook=mcall, **kw)


class Leaf:
    def __init__(self, cls, names, text, top):
        self.cls, self.names, self.text, self.top = cls, names, text, top


def class_names(run, o):
    return {getattr(c, 'name', '') for c in run.mro(o.cls)}


def leaves(run, v, top, out):
    """The tokens without parts, in order, each with its text; raises LookupError for what is not followed."""
    if isinstance(v, (HList, Tup)):
        es = list(v.items) if isinstance(v, Tup) else v.elems()
        if es is None:
            raise LookupError('tokens')
        for x in es:
            leaves(run, x, top, out)
        return
    if not isinstance(v, HObj):
        raise LookupError(repr(v)[:60])
    parts = [f for n, f in v.fields.items() if isinstance(f, (HList, Tup, HObj)) and token_like(run, f)]
    if parts:
        for f in parts:
            leaves(run, f, top, out)
        return
    if 'ProcessableTokenContainer' in class_names(run, v):
        return                                   # an empty container
    out.append(Leaf(v.cls.name, class_names(run, v), run.to_str(v), top))


def token_like(run, f):
    if isinstance(f, HObj):
        return bool(class_names(run, f) & {'ParsedToken', 'ParsedSubtoken'})
    es = list(f.items) if isinstance(f, Tup) else f.elems()
    return bool(es) and all(isinstance(x, HObj) and token_like(run, x) for x in es)


def parsing(ctx, name, tokens, lexers=False, text_arg=None, ext=None, max_paths=20000):
    """Explores convert_text over the given lexer tokens; each path has run.tops (classes of the tokens produced) and run.leaves."""
    def entry(run):
        f = ctx.get(run, 'parse.core', 'convert_text')
        r = run.call(f, [text_arg if text_arg is not None else sym('TEXT', 'str'), ext if ext is not None else C('java')])
        run.leaves, run.tops, run.lost = [], [], None
        out = run.to_segs(r)
        if any(s[0] != 'e' for s in out):
            run.lost = 'the tokens produced'
            return NONE
        try:
            for s in out:
                if not isinstance(s[1], HObj):
                    raise LookupError(repr(s[1])[:60])
                run.tops.append(class_names(run, s[1]))
                leaves(run, s[1], s[1].cls.name, run.leaves)
        except LookupError as e:
            run.lost = str(e)
        return NONE
    res = ctx.explore(name, entry, stream_opts(tokens, lexers, max_paths=max_paths), note=False)
    if res.errors or res.limits:
        ctx.undecided(f'{name}: {(list(res.errors) + list(res.limits))[0]}'[:300])
    return res


def anchors(ctx, mod='parse.core', name='convert_text'):
    memo = ctx.__dict__.setdefault('anchors_', {})
    if (mod, name) not in memo:
        def e(run):
            memo[mod, name] = ctx.get(run, mod, name)
            return NONE
        ctx.explore('anchor', e, note=False)
    return memo[mod, name]


def missing(run, given, leaves_):
    """Compares the texts of the tokens with the given text; None if they agree, else what is wrong."""
    want = [c for _, v in given for c in vec(v)]
    i = 0
    for l in leaves_:
        if 'Whitespace' in l.names:
            continue
        cs = vec(l.text)
        if cs is None:
            return LookupError(repr(l.text)[:80])
        for o in cs:
            while i < len(want) and not fits(run, o, want[i], 'Number' in l.names):
                if not blank(run, want[i]):
                    return f'{vstr(run, want[i])} is lost, or comes at the wrong place, or is changed (before or in the token {vstr(run, l.text)})'
                i += 1
            if i == len(want):
                return f'the token {vstr(run, l.text)} repeats text or adds to it'
            i += 1
            if may_be(run, o, ' '):
                return f'the token {vstr(run, l.text)} of kind {l.cls} contains a space'
    while i < len(want):
        if not blank(run, want[i]):
            return f'{vstr(run, want[i])} is in no token'
        i += 1
    return None


def images(run, c):
    return {c.v} if isinstance(c, C) else run.chimages(c)


def blank(run, c):
    return all(isspace1(x) for x in images(run, c))


def may_be(run, c, x):
    return x in images(run, c)


def fits(run, o, c, number):
    """Output character o is the input character c (up to case in numbers)."""
    low = lower1 if number else (lambda x: x)
    if isinstance(o, C) or isinstance(c, C):
        x, y = {low(k) for k in images(run, o)}, {low(k) for k in images(run, c)}
        return len(x) == 1 and x == y and len(next(iter(x))) == 1
    if base_of(o) != base_of(c):
        return False
    return all(low(apply_(o, x)) == low(apply_(c, x)) for x in run.chdom(c))
