"""C19: every command line option is parsed and used."""
from ..usage import usages
from .common import *

META = dict(
    technique='grammar/handler conformance: the usage text of each command is read as the set of declared names; abstract interpretation of the handler on '
              'symbolic argument values finds reads of undeclared names, constant propagation over the grammar finds options without any effect',
    level_note='Every declared option and argument of every command; undeclared reads on all paths for all option values. An option counts as used if in some '
               'accepted form, and in some form with each other option it may be combined with, it changes an argument of a call that leaves the command line module, a rejection, the log level or the output.',
    explanation='The handler is followed up to the calls that leave the command line package (recorded with the deep structure of their arguments).',
)
STOP = ('codeprep.api.text', 'codeprep.api.corpus', 'codeprep.pipeline.bpelearner', 'codeprep.pipeline.stages')


def deep(run, v, d=0):
    if d > 6:
        return '...'
    if isinstance(v, HDict):
        return '{' + ', '.join(sorted(f'{deep(run, k, d + 1)}: {deep(run, x, d + 1)}' for k, x in v.pairs)) + repr(v.opaque) + '}'
    if isinstance(v, Slots):
        k = getattr(v, 'cls', None)
        return f'{getattr(k, "name", "?")}({", ".join(f"{n}={deep(run, x, d + 1)}" for n, x in sorted(v.slots().items()))})'
    if isinstance(v, (T, C)):
        return repr(v)
    return repr(fz(v))


def sink(run, fn, args, kw, node):
    if isinstance(fn, Fn) and (fn.mod.name in STOP or fn.cls is not None and fn.cls.name == 'Dataset'):
        run.seen.append((fn.qual(), tuple(deep(run, a) for a in args), tuple((k, deep(run, v)) for k, v in sorted(kw.items()))))
        t = T('result', C(fn.qual()), C(len(run.seen)))
        if fn.cls is not None:
            run.tclass[t] = fn.cls
        return t
    return NotImplemented


def ext(run, name, args, kw, node):
    if name.split('.')[0] in ('logging', 'print') or 'setLevel' in name:
        if name.endswith(('debug', 'info', 'getLogger')):
            return NotImplemented
        run.seen.append((name, tuple(deep(run, a) for a in args)))
    return NotImplemented


def mext(run, recv, name, args, kw, node):
    if name == 'setLevel':
        run.seen.append((name, tuple(deep(run, a) for a in args)))
    return NotImplemented


def check(ctx):
    ctx.rule('each name the usage text of a command declares changes what its handler passes on, in some accepted form; the handler never fails on a '
             'name that a command it serves does not declare')
    for (m, f), u in sorted(usages(ctx.prog).items(), key=lambda x: x[1].fn.lineno):
        at = (m.name, u.fn.lineno, f)
        cmd = [k for k, kind in u.names.items() if kind == 'cmd']
        name = cmd[0] if cmd else f
        undeclared(ctx, m, f, u, name, at)
        unused(ctx, m, f, u, name, at)


def run_cmd(ctx, m, f, d, symbolic=False):
    def entry(run):
        run.seen = []
        items = []
        for k, v in d.items():
            items.append((C(k), v if isinstance(v, T) else C(v)))
        return run.call(run.global_get(m, f), [run.alloc(HDict(items))])
    return ctx.explore(f'command {f}' if symbolic else 'forms', entry, Opts(call_hook=sink, ext_hook=ext, mcall_hook=mext, sepfree=sepfree, max_paths=4000),
                       note=symbolic)


def undeclared(ctx, m, f, u, name, at):
    d = {}
    for k, kind in u.names.items():
        d[k] = sym(k, 'str' if kind in ('value', 'arg') else 'bool')
    cmds = [k for k, kind in u.names.items() if kind == 'cmd']
    d[cmds[0]] = True
    res = run_cmd(ctx, m, f, d, True)
    for p in res.paths:
        if p.outcome == 'raise' and p.value.name() == 'KeyError':
            ctx.violation(at, f'command {name}: the handler reads a name its usage text does not declare {p.value.args_!r:.60}', p)
        else:
            ctx.ok(f'{name}: handler path')


def unused(ctx, m, f, u, name, at):
    memo = {}
    forms = {fm for fm in u.forms() if name in fm}

    def val(k, i=0):
        if 'merges' in k or 'length' in k:
            return ('10', '12')[i]
        return (('java', 'java') if k == '--ext' and False else (f'{k} a', f'{k} b'))[i]

    def obs(form, over=()):
        key = (form, tuple(over))
        if key not in memo:
            d = {}
            for k, kind in u.names.items():
                if kind in ('value', 'arg'):
                    d[k] = val(k) if k in form else None
                else:
                    d[k] = k in form
            d.update(dict(over))
            res = run_cmd(ctx, m, f, d)
            out = set()
            for p in res.paths:
                out.add((p.outcome, repr(p.value) if p.outcome == 'raise' else '', tuple(p.run.seen), tuple(repr(e.d.get('args')) for e in p.ev('print'))))
            memo[key] = frozenset(out) if not res.errors and not res.limits else None
        return memo[key]
    def effect(k, kind, cand, present=False):
        """True: changing k changes what is passed on, in one of the forms; None: not decided."""
        tried = 0
        for fm in cand:
            if kind in ('value', 'arg'):
                a, b = obs(fm), obs(fm, [(k, val(k, 1))])
                if present and a == b and fm - {k} in forms:
                    b = obs(fm - {k})
            else:
                others = [fm - {k}] if fm - {k} in forms else [fm - {k} | {o} for o in u.names if o not in fm and fm - {k} | {o} in forms]
                if not others:
                    continue
                a, b = obs(fm), obs(others[0])
            if a is None or b is None:
                return None
            tried += 1
            if a != b:
                return True
        return False if tried else 'no other form'
    for k, kind in u.names.items():
        if k == name:
            continue
        cand = sorted((fm for fm in forms if k in fm), key=lambda x: (len(x), sorted(x)))
        hit = effect(k, kind, cand[:40])
        if hit is None:
            ctx.open_obligation(f'command {name}: the effect of {k} was not decided')
        else:
            ctx.check(hit, at, f'command {name}: {k} is declared, but has no effect in any accepted form', None)
        if not hit:
            continue
        for o in u.names:
            if any(all((o in fm) != (x in fm) for fm in forms) for x in u.names):
                continue        # one of two alternative inputs: an option may belong to the other one
            both = [fm for fm in cand if o in fm and o not in (k, name)]
            if not both:
                continue
            hit = effect(k, kind, both[:8], True)
            if hit is None:
                ctx.open_obligation(f'command {name}: the effect of {k} beside {o} was not decided')
            else:
                ctx.check(hit, at, f'command {name}: {k} is declared to be accepted together with {o}, but is ignored then', None)
