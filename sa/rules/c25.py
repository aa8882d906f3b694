"""C25: every source file can be read, and files are closed."""
import ast
from .world import *
from .c22 import machine, given_source

META = dict(
    technique='path-sensitive typestate analysis of open files with errors injected at every effect, and an analysis of the decoding attempts of a source file',
    level_note='All paths of the operations that reach the file system, any number of files and lines (loops widened), with an error at every file operation; functions that '
               'open files and are not reached that way are analysed on their own with unknown arguments. For names that are no text, given trees in addition to symbolic names.',
    explanation='A file object is tracked from where it is opened; on every end of a path, also after an injected error, it has to be closed. For source files every way the '
                'bytes can be refused by an encoding is followed: what is returned has to come from UTF-8, or after its failure from an encoding that has a character for every byte.',
    assumptions=['iteration over a file raises UnicodeDecodeError exactly if its encoding refuses the content; generators that are dropped are closed'],
)
KINDS = ('open', 'read', 'write', 'close', 'work')
ROOT = '/data/set'
NAMES = ({'a.\udcff': 'x', 'b.j\udcfeva': 'x', '\udcff/c.java': 'x', '\udcc3(.py': 'x'}, {'noext': 'x', '.java': 'x', 'a.': 'x', '..': 'x'},
         {'a.é': 'x', 'a.日本': 'x', 'a. java': 'x', 'a.\n': 'x', "a.'": 'x'}, {'a.java': 'x', 'b.unknown': 'x', 'c.JAVA': 'x', 'd.tar.gz': 'x'})


FEW = 201


def utf8(e):
    return isinstance(e, C) and isinstance(e.v, str) and e.v.lower().replace('-', '').replace('_', '') in ('utf8', 'utf8sig', 'u8')


def no_lexing(run, nm, args, kw, node):
    if nm in ('pygments.lex', 'pygments.lexers.guess_lexer', 'pygments.lexers.get_lexer_by_name', 'pygments.lexers.get_lexer_for_filename', 'pygments.lexers.guess_lexer_for_filename'):
        if nm.endswith('lex'):
            return run.new_list([])
        if not nm.endswith('.guess_lexer') and (run.opts.max_paths == FEW or run.choose(2, 'no lexer is known') == 1):
            raise PyExc('ClassNotFound', (), None, node)
        return sym('lexer')
    return machine(run, nm, args, kw, node)


def reading(ctx):
    got = {}

    def entry(run):
        f = got['f'] = ctx.get(run, 'fileutils', 'read_file_contents')
        return run.call(f, [encode(sym('SOURCE', 'str'))])
    res = ctx.explore('read_file_contents', entry, Opts(raise_always=frozenset({'UnicodeDecodeError'}), sepfree=sepfree))
    n = 0
    for p in res.paths:
        reads = [e for e in p.events if e.kind == 'open' and not e.writing]
        at = reads[-1] if reads else got['f']
        if p.outcome == 'raise':
            nm = getattr(p.value, 'cls', None)
            nm = getattr(nm, 'name', nm)
            ctx.check(nm in ('FileNotFoundError', 'OSError', 'PermissionError', 'IsADirectoryError', 'IOError', 'InjectedError'), at,
                      f'reading a source file ends with {nm} for some content', p, key='raise')
            continue
        if p.outcome != 'return':
            continue
        if p.value == NONE or isinstance(p.value, Tup) and p.value.items[:1] == [NONE]:
            ctx.violation(at, 'reading a source file gives no result for some content', p, key='none')
            continue
        n += 1
        last = None
        for e in p.events:
            if e.kind == 'open' and not e.writing:
                if last is not None and not utf8(last.enc):
                    pass
                last = e.file
        if last is None or 'b' in last.mode:
            ctx.undecided('the encoding a source file is decoded with is not found on a path')
            continue
        tried = [e.file for e in reads[:-1]]
        if utf8(last.enc):
            ctx.ok('decoded as UTF-8')
        elif not tried or not any(utf8(f.enc) for f in tried):
            ctx.violation(at, f'a source file is decoded by {last.enc!r} without trying UTF-8 first', p, key='order')
        else:
            refused = any(l.startswith('raises UnicodeDecodeError') and k for l, k, _ in p.run.labels)
            ctx.check(refused, at, f'a source file is decoded by {last.enc!r} although UTF-8 accepts it', p, key='not utf-8')
    if not n:
        ctx.undecided('no path of read_file_contents returns')


def processing(ctx):
    """One file after the other: neither content nor name may end the run."""
    def sym_entry(run):
        ds = mk_dataset(ctx, run)
        run.dirs = {'original': canon(path_of(run, ds, 'original'))}
        run.n0 = len(run.events)
        return run.call(ctx.get(run, 'pipeline.parse_projects', 'run'), [ds])

    always = frozenset({'UnicodeDecodeError', 'UnicodeEncodeError'})
    runs = [('parse_projects.run', sym_entry, Opts(call_hook=hooks(stamp_hook, files_hook), ext_hook=no_lexing, raise_always=always, sepfree=sepfree))]
    for i, names in enumerate(NAMES):
        def entry(run, names=names):
            w = World({k: v for k, v in names.items() if k != '..'}, C(ROOT))
            run.opts = w.opts(call_hook=hooks(stamp_hook, given_source), ext_hook=no_lexing, read_hook=read_back, exists_default=lambda run, k, p: False, max_paths=FEW)
            ds = mk_dataset(ctx, run, path=C(ROOT))
            return run.call(ctx.get(run, 'pipeline.parse_projects', 'run'), [ds])
        runs.append((f'parse_projects.run over {sorted(names)}', entry, Opts(max_paths=FEW)))
    n = 0
    for what, entry, o in runs:
        for p in ctx.explore(what, entry, o).paths:
            if p.outcome == 'return':
                n += 1
                ctx.ok()
            elif p.outcome == 'raise':
                nm = getattr(p.value, 'cls', None)
                nm = getattr(nm, 'name', nm)
                at = [e for e in p.events if e.kind in ('open', 'read', 'extcall', 'call', 'query') and e.fn]
                if nm in ('FileNotFoundError', 'OSError', 'PermissionError', 'SystemExit', 'KeyboardInterrupt'):
                    continue
                if at[-1].kind == 'read' and not source(p, at[-1]):
                    continue
                ctx.violation(at[-1], f'{what}: the run ends with {nm}', p, key=f'run: {nm}')
    if not n:
        ctx.undecided('no path of parse_projects.run returns')


def source(p, e):
    d = getattr(p.run, 'dirs', {}).get('original')
    return d is None or below(e.path, d) is not None


def open_sites(ctx):
    """[(module, function node or None, call node)] of the calls that open a file."""
    out = []
    for name, m in sorted(ctx.prog.modobjs.items()):
        tree = m.src.tree
        par = {c: n for n in ast.walk(tree) for c in ast.iter_child_nodes(n)}
        for n in ast.walk(tree):
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            s = f.id if isinstance(f, ast.Name) else f'{f.value.id}.{f.attr}' if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) else \
                '.' + f.attr if isinstance(f, ast.Attribute) else ''
            if s not in ('open', 'gzip.open', 'gzip.GzipFile', 'GzipFile', 'io.open', 'codecs.open', 'os.fdopen', 'bz2.open', 'lzma.open', '.open'):
                continue
            x, chain = n, []
            while x in par:
                x = par[x]
                chain.append(x)
            fn = next((y for y in chain if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef))), None)
            out.append((m, fn, n, chain))
    return out


def closing(ctx):
    seen = set()

    def tune(name, o):
        o.inject, o.inject_kinds = True, KINDS

    def judge(name, res):
        for p in res.paths:
            for e in p.events:
                if e.kind == 'open':
                    seen.add((ctx.file_of(e.mod), e.line))
            if p.outcome not in ('return', 'raise'):
                continue
            opened = {id(e.file): e for e in p.events if e.kind == 'open'}
            for f in p.run.files:
                e = opened.get(id(f))
                if e is None:
                    continue
                inj = next((x for x in p.events if x.inject), None)
                ctx.check(f.closed, e, f'{name}: the file opened here is not closed' + (f' after an error ({inj.kind} at {inj.where()})' if inj else ''), p, key=f'{e.fn}:{e.line} not closed')

    names = [None]
    for name, res in flows(ctx, tune=tune):
        judge(name, res)
    sites = open_sites(ctx)
    todo = {}
    for m, fn, n, chain in sites:
        if (ctx.file_of(m), n.lineno) in seen:
            continue
        if fn is None:
            w = next((y for y in chain if isinstance(y, ast.With)), None)
            if w is not None and any(i.context_expr is n for i in w.items):
                ctx.ok(f'{ctx.file_of(m)}:{n.lineno}')
            else:
                ctx.undecided(f'{ctx.file_of(m)}:{n.lineno}: closing at module level is not decided')
            continue
        todo[(m.name, fn.name, fn.lineno)] = (m, fn, chain)
    for (mn, _, _), (m, fn, chain) in sorted(todo.items()):
        alone(ctx, m, fn, chain, judge)
    for m, fn, n, chain in sites:
        if fn is not None and (ctx.file_of(m), n.lineno) not in seen:
            ctx.undecided(f'{ctx.file_of(m)}:{n.lineno}: the file opened here is reached by no analysed path')


def alone(ctx, m, fn, chain, judge):
    cls = next((y for y in chain if isinstance(y, ast.ClassDef)), None)
    outer = next((y for y in chain if isinstance(y, ast.FunctionDef) and y is not fn), None)
    if outer is not None:
        return
    short = m.name[len('codeprep.'):] if m.name.startswith('codeprep.') else m.name

    def entry(run):
        a = fn.args
        if cls is not None:
            k = run.global_get(m, cls.name)
            f = run.getattr(k, fn.name) if any(isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod') for d in fn.decorator_list) else None
            if f is None:
                o = sym('self')
                run.tclass[o] = k
                f = run.getattr(o, fn.name)
            params = (a.posonlyargs + a.args)[0 if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list) else 1:]
        else:
            f = run.global_get(m, fn.name)
            params = a.posonlyargs + a.args
        args = []
        for x in params:
            t = x.annotation.id if isinstance(x.annotation, ast.Name) else None
            args.append(sym(x.arg, t if t in ('str', 'bytes', 'int') else None))
        r = run.call(f, args, {x.arg: sym(x.arg) for x in a.kwonlyargs})
        if isinstance(r, Lazy):
            run.iterate(r, lambda x: NONE)
        return NONE
    o = Opts(sepfree=sepfree, inject=True, inject_kinds=KINDS)
    judge(f'{short}.{fn.name}', ctx.explore(f'{short}.{fn.name}', entry, o, max_paths=500))


def part(ctx, which):
    {'reading': reading, 'processing': processing, 'closing': closing}[which](ctx)


def check(ctx):
    ctx.rule('what is returned for a source file was decoded as UTF-8, or, after UTF-8 has refused it, by an encoding with a character for every byte; no content is refused')
    ctx.rule('neither the content nor the name of a file ends the parsing of a corpus')
    ctx.rule('every file that is opened is closed at the end of every path, also of those on which a file operation has failed')
    ctx.parallel(['closing', 'reading', 'processing'], part)
