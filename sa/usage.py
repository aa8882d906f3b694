"""Reader for docopt usage texts (the command line grammar is part of the source: docstrings of the command functions)."""
import ast
import re


class Opt:
    def __init__(self, name, takes):
        self.name, self.takes = name, takes


class Usage:
    """names: result keys -> 'flag' | 'value' | 'cmd' | 'arg'; forms(): the sets of keys of each accepted shape."""

    def __init__(self, doc, fn):
        self.fn = fn
        body = doc[doc.lower().index('usage:') + 6:]
        parts = re.split(r'\n[ \t]*\n', body, maxsplit=1)
        pattern, rest = parts[0], parts[1] if len(parts) > 1 else ''
        self.alias, self.described = {}, {}
        for line in rest.split('\n'):
            s = line.strip()
            if s.startswith('-'):
                spec = re.split(r'\s{2,}', s)[0]
                names, takes = [], False
                for w in re.split(r'[\s,=]+', spec):
                    if w.startswith('-'):
                        names.append(w)
                    elif w:
                        takes = True
                long_ = [n for n in names if n.startswith('--')] or names
                o = Opt(long_[0], takes)
                self.described[o.name] = o
                for n in names:
                    self.alias[n] = o
        toks = re.findall(r'<[^>]*>|\[|\]|\(|\)|\||\.\.\.|[^\s\[\]()|<>]+', pattern)
        # the program name
        while toks and toks[0].startswith('{'):
            toks.pop(0)
        self.toks = toks
        self.names = {}
        self.i = 0
        self.tree = self.alt()

    def alt(self):
        xs = [self.seq()]
        while self.i < len(self.toks) and self.toks[self.i] == '|':
            self.i += 1
            xs.append(self.seq())
        return ('alt', xs)

    def seq(self):
        xs = []
        while self.i < len(self.toks) and self.toks[self.i] not in ('|', ']', ')'):
            t = self.toks[self.i]
            self.i += 1
            if t in '([':
                x = self.alt()
                self.i += 1
                xs.append(('opt', x) if t == '[' else x)
            elif t == '...':
                continue
            elif t.startswith('-'):
                n = t.split('=')[0]
                o = self.alias.get(n)
                takes = o.takes if o else t.endswith('=') or '=' in t
                if not takes and self.i < len(self.toks) and self.toks[self.i].startswith('<') and (t.endswith('=') or o is None):
                    takes = True
                if takes and self.i < len(self.toks) and self.toks[self.i].startswith('<') and '<' not in t:
                    self.i += 1
                name = o.name if o else n
                self.names[name] = 'value' if takes else 'flag'
                xs.append(('key', name))
            else:
                self.names[t] = 'arg' if t.startswith('<') else 'cmd'
                xs.append(('key', t))
        return ('seq', xs)

    def forms(self, only=lambda k: True):
        """All sets of keys (restricted to the wanted ones) the grammar accepts."""
        def go(t):
            k, x = t
            if k == 'key':
                return {frozenset([x]) if only(x) else frozenset()}
            if k == 'opt':
                return go(x) | {frozenset()}
            if k == 'alt':
                return set().union(*[go(y) for y in x])
            acc = {frozenset()}
            for y in x:
                g = go(y)
                acc = {a | b for a in acc for b in g}
            return acc
        return go(self.tree)


def usages(prog):
    """Command functions (module functions with a usage text) of the package: {(module, function): Usage}."""
    out = {}
    for m in prog.modobjs.values():
        for n in m.src.tree.body:
            if isinstance(n, ast.FunctionDef) and n.decorator_list:
                d = ast.get_docstring(n, clean=False)
                if d and d.strip().lower().startswith('usage:'):
                    out[(m, n.name)] = Usage(d, n)
    return out
