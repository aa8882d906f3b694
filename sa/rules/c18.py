"""C18: every configuration the interfaces can build can be executed."""
import os
from .prepkit import *
from . import c10

META = dict(
    technique='reachability of errors by path-sensitive abstract interpretation over all configurations and token kinds; resolution of data paths by constant propagation',
    level_note='All combinations of boolean options of each function of the text and corpus API, all configurations with every kind of token, all string limits; data '
               'files are looked up in the source tree.',
    explanation='Each interface is evaluated for every combination of options: none may be rejected. Each configuration reached is executed on every kind of token: no '
                'path may end in an error. The path of the merges of each configuration with predefined codes must exist in the package.',
)
TYPES = ('nosplit', 'chars', 'basic', 'bpe')
PREDEFINED = {'1k': '5', '5k': '4', '10k': '6'}


def check(ctx):
    ctx.rule('no combination of accepted options is rejected or ends in an error')
    ctx.rule('every configuration reached by them has a result for every kind of token, without an error on any path')
    ctx.rule('the merges of predefined codes are read from a file that is part of the package')
    reached = interfaces(ctx)
    every = {cfg_name(v): v for v in configs()}
    for r in reached:
        every.setdefault(''.join(r), dict(zip(PARAMS, r)))

    def work(sub, v):
        for k in (*KINDS, *MORE):
            for s in conversions(sub, v, [k]):
                at = at_kind(sub, k)
                if s.exc:
                    sub.violation(at, f'{k} with the configuration {cfg_name(v)}: raises {s.exc}', s.path, key=f'{at}:{s.exc}')
                elif s.tokens is None and s.path.outcome != 'return':
                    sub.open_obligation(f'{k}, {cfg_name(v)}: {s.path.outcome}')
                else:
                    sub.ok()
    over_configs(ctx, work, [v for v in every.values() if not (v['CASE'] == 'l' and v['SPLIT'] == '8')])
    limits(ctx)
    data(ctx, reached)


def interfaces(ctx):
    """All configurations built by the API functions."""
    jobs = []
    for typ in TYPES:
        got = {}

        def probe(run):
            got['text'] = ctx.get(run, 'api.text', typ)
            got['corpus'] = ctx.get(run, 'api.corpus', typ)
            return NONE
        ctx.explore('entry points', probe, Opts(), note=False)
        for which in ('text', 'corpus'):
            names = c10.sig(got[which])
            ids = [dict(bpe_codes_id=i) for i in (*PREDEFINED, 'codes-100')] if 'bpe_codes_id' in names else [{}]
            for i in ids:
                for kw in c10.combos(names):
                    jobs.append((typ, which, {**kw, **i}, got[which]))
                if 'max_str_length' in names:
                    for l in (*range(0, 70), 1000, 10 ** 9):
                        jobs.append((typ, which, {'max_str_length': l, **i}, got[which]))
                if 'append_eof' in names:
                    jobs.append((typ, which, {'append_eof': True, **i}, got[which]))
                    jobs.append((typ, which, {'return_metadata': True, **i}, got[which]))

    def work(sub, job):
        typ, which, kw, fn = job
        mod, first, ext = ('api.text', 'the text', 'extension') if which == 'text' else ('api.corpus', 'the path', 'extensions')

        def entry(run):
            kws = {k: C(v) for k, v in kw.items()}
            kws.setdefault(ext, C('java'))
            return run.call(ctx.get(run, mod, typ), [C(first)], kws)
        o = c10.evaluate(sub, entry)
        if o is None:
            sub.open_obligation(f'{typ}({c10.label(kw)}): not decided')
            return None
        if not sub.check(isinstance(o, dict), fn, f'{which} {typ}({c10.label(kw)}) is {o}', None, key=f'{typ}:{which}:rejected'):
            return None
        if 'prep' not in o:
            sub.open_obligation(f'{typ}({c10.label(kw)}): no configuration seen')
            return None
        return eval(o['prep'])
    return sorted({tuple(r) for r in over_configs(ctx, work, jobs) if r and None not in r})


def limits(ctx):
    for ch in [chr(c) for a, b in ((48, 58), (65, 91), (97, 123)) for c in range(a, b)]:
        for s in ('1', 'F', '4'):
            v = dict(EN_ONLY='u', COM='c', STR=ch, SPLIT=s, TABS_NEWLINES='s', CASE='u')
            for r in conversions(ctx, v, ['StringLiteral']):
                at = at_kind(ctx, 'StringLiteral')
                ctx.check(r.exc is None, at, f'a string literal with the configuration {cfg_name(v)} raises {r.exc}', r.path, key='limit')


def data(ctx, reached):
    """Where the merges of configurations without custom codes come from."""
    vs = {}
    for r in reached:
        v = dict(zip(PARAMS, r))
        if v['SPLIT'] in BPE and v['SPLIT'] != '9':
            vs.setdefault((v['SPLIT'], v['CASE']), v)
    for k in (('4', 'u'), ('5', 'u'), ('6', 'u'), ('8', 'u')):
        if k not in vs:
            ctx.undecided(f'no interface was seen to build a configuration with the splitting {k}')
            vs[k] = dict(EN_ONLY='u', COM='c', STR='1', SPLIT=k[0], TABS_NEWLINES='s', CASE='u')
    at = {}
    for k, v in sorted(vs.items()):
        for force in (True, False):
            paths = []

            def hook(run, fn, args, kw, node):
                if isinstance(fn, Fn) and fn.name in ('read_merges', 'read_bpe_cache'):
                    a = dict(zip(c10.params_of(fn), args))
                    a.update(kw)
                    run.read = getattr(run, 'read', []) + [(fn.name, fz(list(a.values())[0]), [fz(x) for x in list(a.values())[1:]])]
                    return T(fn.name)
                return NotImplemented

            def entry(run):
                at['f'] = ctx.get(run, 'pipeline.to_repr', 'init_bpe_data')
                pc = the_config(ctx, run, v)
                run.call(at['f'], [pc, NONE, C(force)])
                return NONE
            res = ctx.explore('init_bpe_data', entry, Opts(call_hook=hook, sepfree=sepfree, max_paths=60), note=False)
            for p in res.paths:
                if p.outcome == 'raise':
                    ctx.violation(at['f'], f'loading the merges for the configuration {cfg_name(v)} raises {p.value.name()}', p, key='load')
                    continue
                for name, path, rest in getattr(p.run, 'read', []):
                    if name != 'read_merges':
                        continue
                    f = package_path(ctx, path)
                    if f is None:
                        ctx.open_obligation(f'the merges of {cfg_name(v)} are read from {str(path)[:80]}')
                        continue
                    ctx.check(os.path.isfile(os.path.join(ctx.repo, 'codeprep', f)), at['f'],
                              f'the merges for the configuration {cfg_name(v)} are read from {f}, which is not part of the package', p, key=f'file:{f}')


def package_path(ctx, t):
    """A path relative to the package directory, or None."""
    if isinstance(t, C) and isinstance(t.v, str):
        s = t.v
        root = os.path.realpath(os.path.join(ctx.repo, 'codeprep')) + '/'
        return s[len(root):] if s.startswith(root) else None
    parts = list(t.args) if isinstance(t, T) and t.op in ('cat', 'join', 'path', 'os.path.join') else None
    if parts and all(isinstance(x, C) for x in parts[1:]):
        return os.path.join(*['', *[str(x.v) for x in parts[1:]]]).lstrip('/')
    return None
